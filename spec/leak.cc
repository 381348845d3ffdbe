// C15: the messages of the multiplication protocol, every mask spelled out.
#include "shr.h"
#include "frn/mult.h"
using frn::CheckData;
using frn::Correlator;
using frn::Mult;
using PP = std::vector<PRG>;
using Net = std::shared_ptr<frn::Network>;
using M = frn::ShrManipulator;
inline F Draw(PRG& g) {
  Bytes b(F::ByteSize());
  g.Next(b);
  return F::FromBytes(b.data());
}
inline Correlator Make(N n, N t, unsigned id, const PP& own, const std::vector<PP>& rnd) {
  Correlator c(id, R(n, t));
  c.SetOwnPRGs(own);
  for (unsigned u = 0; u < 2 * t + 1; ++u) c.SetRandPRGs(rnd[u], u);
  return c;
}
inline bool Shape(N n, N t, N id, const PP& own, const std::vector<PP>& rnd) {
  if (t == 0 || 2 * t + 1 > n || id >= n) return false;
  const R r(n, t);
  if (own.size() != r.AdditiveShareSize()) return false;
  if (rnd.size() != 2 * t + 1) return false;
  for (N u = 0; u < rnd.size(); ++u)
    if (rnd[u].size() != r.ShareSize()) return false;
  return true;
}
inline bool Pairs(N n, N t, const VV& xs, const VV& ys) {
  const R r(n, t);
  if (xs.size() != ys.size()) return false;
  for (N k = 0; k < xs.size(); ++k)
    if (xs[k].size() != r.ShareSize() || ys[k].size() != r.ShareSize()) return false;
  return true;
}
#define SETUP Net net, N t, const PP &own, const std::vector<PP>&rnd
#define GIVEN net, t, own, rnd
#define PROTO(cd) const R r(net->Size(), t); const M m(net->Id(), t, net->Size()); Mult p(net, r, m, Make(net->Size(), t, net->Id(), own, rnd), cd)
inline bool Ok(SETUP) { return Shape(net->Size(), t, net->Id(), own, rnd); }
namespace code {
V One(SETUP, const V& x, const V& y) { CheckData cd(t); PROTO(cd); p.Prepare(x, y); return p.Run()[0]; }
VV Batch(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); PROTO(cd); p.Prepare(xs, ys); return p.Run(); }
VV Many(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); PROTO(cd); p.Prepare(xs, ys); return p.Run(); }
VV Two(SETUP, const V& x, const V& y) { CheckData cd(t); PROTO(cd); p.Prepare(x, y); p.Prepare(y, y); return p.Run(); }
VV Nothing(SETUP) { CheckData cd(t); PROTO(cd); return p.Run(); }
}  // namespace code
namespace dom {
bool One(SETUP, const V& x, const V& y) { return Ok(GIVEN) && x.size() == R(net->Size(), t).ShareSize() && y.size() == x.size(); }
bool Batch(SETUP, const VV& xs, const VV& ys) { return Ok(GIVEN) && Pairs(net->Size(), t, xs, ys); }
bool Many(SETUP, const VV& xs, const VV& ys) { return Ok(GIVEN) && Pairs(net->Size(), t, xs, ys); }
bool Two(SETUP, const V& x, const V& y) { return Ok(GIVEN) && x.size() == R(net->Size(), t).ShareSize() && y.size() == x.size(); }
bool Nothing(SETUP) { return Ok(GIVEN); }
}  // namespace dom
namespace spec {
// the j-th mask of a party: the sum of the j-th values of its own generators
inline F Mask(const PP& own, N pieces, N j) {
  F s = F::kZero;
  for (N i = 0; i < pieces; ++i) { PRG h = own[i]; for (N x = 0; x < j; ++x) Draw(h); s += Draw(h); }
  return s;
}
inline VV Messages(Net net, N t, const V& masks, const VV& xs, const VV& ys) {
  const N id = net->Id(), n = net->Size();
  M m(id, t, n);
  const N k = xs.size();
  V mine;
  for (N i = 0; i < k; ++i) {
    F s = F::kZero;
    for (const auto& e : m.GetTableMult())
      if (id == e.first_party) s += xs[i][e.src_a] * ys[i][e.src_b];
    mine.push_back(s - masks[i]);
  }
  if (id < 2 * t + 1) net->Send(0, mine);
  if (id == 0) {
    V sums(k, F::kZero);
    for (N u = 0; u < 2 * t + 1; ++u) {
      const V got = net->Recv(u, k);
      for (N i = 0; i < k; ++i) sums[i] += got[i];
    }
    for (N q = 0; q < n - t; ++q) net->Send(q, sums);
  }
  return VV();
}
// masks spelled out
inline V Masks(Net net, N t, const PP& own, N k) {
  V r;
  for (N i = 0; i < k; ++i) r.push_back(net->Id() < 2 * t + 1 ? Mask(own, R(net->Size(), t).AdditiveShareSize(), i) : F::kZero);
  return r;
}
V One(SETUP, const V& x, const V& y) { Messages(net, t, Masks(net, t, own, 1), VV(1, x), VV(1, y)); return V(); }
VV Two(SETUP, const V& x, const V& y) {
  VV xs(1, x);
  xs.push_back(y);
  return Messages(net, t, Masks(net, t, own, 2), xs, VV(2, y));
}
VV Batch(SETUP, const VV& xs, const VV& ys) { return Messages(net, t, Masks(net, t, own, xs.size()), xs, ys); }
VV Nothing(SETUP) { return Messages(net, t, V(), VV(), VV()); }
// masks as the correlator deals them (C10)
VV Many(SETUP, const VV& xs, const VV& ys) {
  Correlator c = Make(net->Size(), t, net->Id(), own, rnd);
  V masks;
  for (N i = 0; i < xs.size(); ++i) masks.push_back(c.GenRandomShare().add_share);
  return Messages(net, t, masks, xs, ys);
}
}  // namespace spec
