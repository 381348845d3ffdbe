#pragma once
// Common definitions for the specifications about replicated shares.
#include "common.h"
#include "frn/shr.h"

using N = std::size_t;
using R = frn::lib::secret_sharing::Replicator<F>;
using frn::lib::primitives::PRG;
using VV = std::vector<V>;
using Ints = std::vector<int>;

inline bool In(const Ints& s, int x) {
  for (N i = 0; i < s.size(); ++i)
    if (s[i] == x) return true;
  return false;
}
// position of x in s; s.size() if it does not occur
inline N Pos(const Ints& s, int x) {
  for (N i = 0; i < s.size(); ++i)
    if (s[i] == x) return i;
  return s.size();
}
// elements common to both, in the order of a
inline Ints Common(const Ints& a, const Ints& b) {
  Ints r;
  for (N i = 0; i < a.size(); ++i)
    if (In(b, a[i])) r.push_back(a[i]);
  return r;
}
// the share of party id of the sharing with the given pieces
inline V Held(const R& rep, const V& pieces, N id) {
  V r;
  const Ints is = rep.IndexSetFor(id);
  for (N i = 0; i < is.size(); ++i) r.push_back(pieces[is[i]]);
  return r;
}
inline F Total(const V& v) {
  F s = F::kZero;
  for (N i = 0; i < v.size(); ++i) s += v[i];
  return s;
}
