// C11: the multiplication protocol.
#include "shr.h"
#include "frn/mult.h"
using frn::CheckData;
using frn::Correlator;
using frn::Mult;
using PP = std::vector<PRG>;
using Net = std::shared_ptr<frn::Network>;
using M = frn::ShrManipulator;
inline Correlator Make(N n, N t, unsigned id, const PP& own, const std::vector<PP>& rnd) {
  Correlator c(id, R(n, t));
  c.SetOwnPRGs(own);
  for (unsigned u = 0; u < 2 * t + 1; ++u) c.SetRandPRGs(rnd[u], u);
  return c;
}
inline bool Shape(N n, N t, N id, const PP& own, const std::vector<PP>& rnd) {
  if (t == 0 || 2 * t + 1 > n || id >= n) return false;
  const R r(n, t);
  if (own.size() != r.AdditiveShareSize()) return false;
  if (rnd.size() != 2 * t + 1) return false;
  for (N u = 0; u < rnd.size(); ++u)
    if (rnd[u].size() != r.ShareSize()) return false;
  return true;
}
inline bool Pairs(N n, N t, const VV& xs, const VV& ys) {
  const R r(n, t);
  if (xs.size() != ys.size()) return false;
  for (N k = 0; k < xs.size(); ++k)
    if (xs[k].size() != r.ShareSize() || ys[k].size() != r.ShareSize()) return false;
  return true;
}
#define SETUP Net net, N t, const PP &own, const std::vector<PP>&rnd
#define GIVEN net, t, own, rnd
#define PROTO(cd) const R r(net->Size(), t); const M m(net->Id(), t, net->Size()); Mult p(net, r, m, Make(net->Size(), t, net->Id(), own, rnd), cd)
inline bool Ok(SETUP) { return Shape(net->Size(), t, net->Id(), own, rnd); }
namespace code {
// one pair
V One(SETUP, const V& x, const V& y) { CheckData cd(t); PROTO(cd); p.Prepare(x, y); return p.Run()[0]; }
CheckData OneRecord(SETUP, const V& x, const V& y) { CheckData cd(t); PROTO(cd); p.Prepare(x, y); p.Run(); return cd; }
// any number of pairs
VV Batch(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); PROTO(cd); p.Prepare(xs, ys); return p.Run(); }
CheckData BatchRecord(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); PROTO(cd); p.Prepare(xs, ys); p.Run(); return cd; }
// two protocol instances that share one record
CheckData Appended(SETUP, const V& x, const V& y) {
  CheckData cd(t);
  { PROTO(cd); p.Prepare(x, y); p.Run(); }
  { PROTO(cd); p.Prepare(x, x); p.Run(); }
  return cd;
}
VV Nothing(SETUP) { CheckData cd(t); PROTO(cd); return p.Run(); }
// pairs prepared in several calls
VV Mixed(SETUP, const VV& xs, const VV& ys, const V& x, const V& y) { CheckData cd(t); PROTO(cd); p.Prepare(xs, ys); p.Prepare(x, y); p.Prepare(ys, xs); return p.Run(); }
}  // namespace code
namespace dom {
bool One(SETUP, const V& x, const V& y) { return Ok(GIVEN) && x.size() == R(net->Size(), t).ShareSize() && y.size() == x.size(); }
bool OneRecord(SETUP, const V& x, const V& y) { return Ok(GIVEN) && x.size() == R(net->Size(), t).ShareSize() && y.size() == x.size(); }
bool Batch(SETUP, const VV& xs, const VV& ys) { return Ok(GIVEN) && Pairs(net->Size(), t, xs, ys); }
bool BatchRecord(SETUP, const VV& xs, const VV& ys) { return Ok(GIVEN) && Pairs(net->Size(), t, xs, ys); }
bool Appended(SETUP, const V& x, const V& y) { return Ok(GIVEN) && x.size() == R(net->Size(), t).ShareSize() && y.size() == x.size(); }
bool Nothing(SETUP) { return Ok(GIVEN); }
bool Mixed(SETUP, const VV& xs, const VV& ys, const V& x, const V& y) { return Batch(GIVEN, xs, ys) && One(GIVEN, x, y); }
}  // namespace dom
namespace spec {
struct Product { F mine; VV msgs; };
// the part of x*y that is this party's, and for every contributor the share of what it contributes
inline Product Multiply(M m, N id, N t, const V& x, const V& y) {
  Product r;
  r.mine = F::kZero;
  r.msgs = VV(2 * t + 1, V(m.GetDoubleReplicator().ShareSize(), F::kZero));
  for (const auto& e : m.GetTableMult()) {
    r.msgs[e.first_party][e.dest_c] += x[e.src_a] * y[e.src_b];
    if (id == e.first_party) r.mine += x[e.src_a] * y[e.src_b];
  }
  return r;
}
inline VV Protocol(Net net, N t, Correlator c, const VV& xs, const VV& ys, CheckData& cd) {
  const N id = net->Id(), n = net->Size();
  const R rep(n, t);
  const M m(id, t, n);
  const N k = xs.size();
  V mine;
  VV shift;
  for (N i = 0; i < k; ++i) {
    const frn::RandomShare r = c.GenRandomShare();
    const Product p = Multiply(m, id, t, xs[i], ys[i]);
    mine.push_back(p.mine - r.add_share);
    shift.push_back(r.rep_share);
    cd.shares_sent_to_p1.push_back(p.mine - r.add_share);
    cd.msgs.push_back(p.msgs);
  }
  cd.counter += k;
  if (id < 2 * t + 1) net->Send(0, mine);
  if (id == 0) {
    V sums(k, F::kZero);
    for (N u = 0; u < 2 * t + 1; ++u) {
      const V got = net->Recv(u, k);
      for (N i = 0; i < k; ++i) {
        cd.shares_recv_by_p1[u].push_back(got[i]);
        sums[i] += got[i];
      }
    }
    for (N q = 0; q < n - t; ++q) net->Send(q, sums);
  }
  V opened(k, F::kZero);
  if (id < n - t) {
    opened = net->Recv(0, k);
    for (N i = 0; i < k; ++i) cd.values_recv_from_p1.push_back(opened[i]);
  }
  VV out;
  M mm = m;
  for (N i = 0; i < k; ++i) out.push_back(mm.AddConstant(shift[i], opened[i]));
  return out;
}
#define RUN(cd, xs, ys) Protocol(net, t, Make(net->Size(), t, net->Id(), own, rnd), xs, ys, cd)
V One(SETUP, const V& x, const V& y) { CheckData cd(t); return RUN(cd, VV(1, x), VV(1, y))[0]; }
CheckData OneRecord(SETUP, const V& x, const V& y) { CheckData cd(t); RUN(cd, VV(1, x), VV(1, y)); return cd; }
VV Batch(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); return RUN(cd, xs, ys); }
CheckData BatchRecord(SETUP, const VV& xs, const VV& ys) { CheckData cd(t); RUN(cd, xs, ys); return cd; }
CheckData Appended(SETUP, const V& x, const V& y) { CheckData cd(t); RUN(cd, VV(1, x), VV(1, y)); RUN(cd, VV(1, x), VV(1, x)); return cd; }
VV Nothing(SETUP) { CheckData cd(t); VV none; return RUN(cd, none, none); }
VV Mixed(SETUP, const VV& xs, const VV& ys, const V& x, const V& y) {
  CheckData cd(t);
  VV a = xs, b = ys;
  a.push_back(x);
  b.push_back(y);
  for (N i = 0; i < xs.size(); ++i) a.push_back(ys[i]), b.push_back(xs[i]);
  return RUN(cd, a, b);
}
}  // namespace spec
