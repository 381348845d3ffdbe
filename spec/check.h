#pragma once
// C13: the check of all recorded multiplications.
#include "shr.h"
#include "frn/check.h"
using frn::Check;
using frn::CheckData;
using Net = std::shared_ptr<frn::Network>;
using M = frn::ShrManipulator;
#define ARGS Net net, N t, const CheckData &cd
#define VALS net, t, cd
#define BEGIN const R r(net->Size(), t); const M m(net->Id(), t, net->Size()); CheckData rec = cd; Check p(net, r, m, rec)
inline bool Ok(ARGS) {
  const N n = net->Size(), k = cd.counter;
  if (t == 0 || 2 * t + 1 > n || net->Id() >= n) return false;
  const R dbl(n, 2 * t);
  if (cd.shares_sent_to_p1.size() != k || cd.msgs.size() != k) return false;
  if (net->Id() < n - t && cd.values_recv_from_p1.size() != k) return false;
  if (cd.shares_recv_by_p1.size() != 2 * t + 1) return false;
  if (net->Id() == 0)
    for (N u = 0; u < 2 * t + 1; ++u)
      if (cd.shares_recv_by_p1[u].size() != k) return false;
  for (N i = 0; i < k; ++i) {
    if (cd.msgs[i].size() != 2 * t + 1) return false;
    for (N u = 0; u < 2 * t + 1; ++u)
      if (cd.msgs[i][u].size() != dbl.ShareSize()) return false;
  }
  return true;
}
namespace spec {
// one coefficient per multiplication, from the generator with the default seed
inline F Coefficient(N i) {
  PRG g;
  Bytes b(F::ByteSize());
  for (N j = 0; j < i; ++j) g.Next(b);
  g.Next(b);
  return F::FromBytes(b.data());
}
inline F CombinedMsg(const CheckData& cd, N u, N x) {
  F s = F::kZero;
  for (N i = 0; i < cd.counter; ++i) s += Coefficient(i) * cd.msgs[i][u][x];
  return s;
}
}  // namespace spec
