// C10: correlated randomness.
#include "shr.h"
#include "frn/corr.h"
using frn::Correlator;
using PP = std::vector<PRG>;
inline F Draw(PRG& g) {
  Bytes b(F::ByteSize());
  g.Next(b);
  return F::FromBytes(b.data());
}
inline Correlator Make(N n, N t, unsigned id, const PP& own, const std::vector<PP>& rnd) {
  Correlator c(id, R(n, t));
  c.SetOwnPRGs(own);
  for (unsigned u = 0; u < 2 * t + 1; ++u) c.SetRandPRGs(rnd[u], u);
  return c;
}
inline bool Shape(N n, N t, unsigned id, const PP& own, const std::vector<PP>& rnd) {
  if (t == 0 || 2 * t + 1 > n || id >= n) return false;
  const R r(n, t);
  if (own.size() != r.AdditiveShareSize()) return false;
  if (rnd.size() != 2 * t + 1) return false;
  for (N u = 0; u < rnd.size(); ++u)
    if (rnd[u].size() != r.ShareSize()) return false;
  return true;
}
// the generators a party gets when every contributor u deals keys[u]
inline Correlator Dealt(N n, N t, unsigned id, const std::vector<PP>& keys) {
  const R r(n, t);
  Correlator c(id, r);
  if (id < keys.size()) c.SetOwnPRGs(keys[id]);
  const Ints is = r.IndexSetFor(id);
  for (unsigned u = 0; u < keys.size(); ++u) {
    PP held;
    for (N k = 0; k < is.size(); ++k) held.push_back(keys[u][is[k]]);
    c.SetRandPRGs(held, u);
  }
  return c;
}
inline bool Keys(N n, N t, const std::vector<PP>& keys) {
  if (t == 0 || 2 * t + 1 > n) return false;
  const R r(n, t);
  if (keys.size() != 2 * t + 1) return false;
  for (N u = 0; u < keys.size(); ++u)
    if (keys[u].size() != r.AdditiveShareSize()) return false;
  return true;
}
#define ARGS N n, N t, unsigned id, const PP &own, const std::vector<PP>&rnd
#define VALS n, t, id, own, rnd
namespace code {
F RandomAdd(ARGS) { return Make(VALS).GenRandomShare().add_share; }
V RandomRep(ARGS) { return Make(VALS).GenRandomShare().rep_share; }
VV RandomRepAdd(ARGS) { return Make(VALS).GenRandomShare().rep_add_shares; }
F SecondAdd(ARGS) { Correlator c = Make(VALS); c.GenRandomShare(); return c.GenRandomShare().add_share; }
V SecondRep(ARGS) { Correlator c = Make(VALS); c.GenRandomShare(); return c.GenRandomShare().rep_share; }
VV SecondRepAdd(ARGS) { Correlator c = Make(VALS); c.GenRandomShare(); return c.GenRandomShare().rep_add_shares; }
F RandomDummyAdd(ARGS) { return Make(VALS).GenRandomShareDummy().add_share; }
V RandomDummyRep(ARGS) { return Make(VALS).GenRandomShareDummy().rep_share; }
VV RandomDummyRepAdd(ARGS) { return Make(VALS).GenRandomShareDummy().rep_add_shares; }
F ZeroDummyAdd(ARGS) { return Make(VALS).GenZeroShareDummy().add_share; }
VV ZeroDummyRepAdd(ARGS) { return Make(VALS).GenZeroShareDummy().rep_add_shares; }
// a dummy sharing uses no generator
F AfterDummies(ARGS) { Correlator c = Make(VALS); c.GenRandomShareDummy(); c.GenZeroShareDummy(); return c.GenRandomShare().add_share; }
F Contribution(N n, N t, unsigned id, const std::vector<PP>& keys) { return Dealt(n, t, id, keys).GenRandomShare().add_share; }
V Pieces(N n, N t, unsigned id, const std::vector<PP>& keys) { return Dealt(n, t, id, keys).GenRandomShare().rep_share; }
}  // namespace code
namespace dom {
bool RandomAdd(ARGS) { return Shape(VALS); }
bool RandomRep(ARGS) { return Shape(VALS); }
bool RandomRepAdd(ARGS) { return Shape(VALS); }
bool SecondAdd(ARGS) { return Shape(VALS); }
bool SecondRep(ARGS) { return Shape(VALS); }
bool SecondRepAdd(ARGS) { return Shape(VALS); }
bool RandomDummyAdd(ARGS) { return Shape(VALS); }
bool RandomDummyRep(ARGS) { return Shape(VALS); }
bool RandomDummyRepAdd(ARGS) { return Shape(VALS); }
bool ZeroDummyAdd(ARGS) { return Shape(VALS); }
bool ZeroDummyRepAdd(ARGS) { return Shape(VALS); }
bool AfterDummies(ARGS) { return Shape(VALS); }
bool Contribution(N n, N t, unsigned id, const std::vector<PP>& keys) { return Keys(n, t, keys) && id < n; }
bool Pieces(N n, N t, unsigned id, const std::vector<PP>& keys) { return Keys(n, t, keys) && id < n; }
}  // namespace dom
namespace spec {
F RandomAdd(ARGS) {
  F s = F::kZero;
  if (id < 2 * t + 1)
    for (N i = 0; i < R(n, t).AdditiveShareSize(); ++i) { PRG g = own[i]; s += Draw(g); }
  return s;
}
V RandomRep(ARGS) {
  V r;
  const R rep(n, t);
  for (N k = 0; k < rep.ShareSize(); ++k) {
    F s = F::kZero;
    for (N u = 0; u < 2 * t + 1; ++u) { PRG g = rnd[u][k]; s += Draw(g); }
    r.push_back(s);
  }
  return r;
}
VV RandomRepAdd(ARGS) {
  VV r;
  const R rep(n, t);
  for (N u = 0; u < 2 * t + 1; ++u) {
    V s;
    for (N k = 0; k < rep.ShareSize(); ++k) { PRG g = rnd[u][k]; s.push_back(Draw(g)); }
    r.push_back(s);
  }
  return r;
}
F SecondAdd(ARGS) {
  F s = F::kZero;
  if (id < 2 * t + 1)
    for (N i = 0; i < R(n, t).AdditiveShareSize(); ++i) { PRG g = own[i]; Draw(g); s += Draw(g); }
  return s;
}
V SecondRep(ARGS) {
  V r;
  const R rep(n, t);
  for (N k = 0; k < rep.ShareSize(); ++k) {
    F s = F::kZero;
    for (N u = 0; u < 2 * t + 1; ++u) { PRG g = rnd[u][k]; Draw(g); s += Draw(g); }
    r.push_back(s);
  }
  return r;
}
VV SecondRepAdd(ARGS) {
  VV r;
  const R rep(n, t);
  for (N u = 0; u < 2 * t + 1; ++u) {
    V s;
    for (N k = 0; k < rep.ShareSize(); ++k) { PRG g = rnd[u][k]; Draw(g); s.push_back(Draw(g)); }
    r.push_back(s);
  }
  return r;
}
F RandomDummyAdd(ARGS) { R rep(n, t); return F::kZero; }
V RandomDummyRep(ARGS) { return V(R(n, t).ShareSize(), F::kZero); }
VV RandomDummyRepAdd(ARGS) { return VV(2 * t + 1, V(R(n, t).ShareSize(), F::kZero)); }
F ZeroDummyAdd(ARGS) { R rep(n, t); return F::kZero; }
VV ZeroDummyRepAdd(ARGS) { return VV(2 * t + 1, V(R(n, t).ShareSize(), F::kZero)); }
F AfterDummies(ARGS) { return RandomAdd(VALS); }
F Contribution(N n, N t, unsigned id, const std::vector<PP>& keys) {
  F s = F::kZero;
  if (id < 2 * t + 1)
    for (N i = 0; i < R(n, t).AdditiveShareSize(); ++i) { PRG g = keys[id][i]; s += Draw(g); }
  return s;
}
V Pieces(N n, N t, unsigned id, const std::vector<PP>& keys) {
  const R rep(n, t);
  const Ints is = rep.IndexSetFor(id);
  V r;
  for (N k = 0; k < rep.ShareSize(); ++k) {
    F s = F::kZero;
    for (N u = 0; u < 2 * t + 1; ++u) { PRG g = keys[u][is[k]]; s += Draw(g); }
    r.push_back(s);
  }
  return r;
}
}  // namespace spec
