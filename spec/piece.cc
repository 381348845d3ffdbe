// C04: all pieces but one are fresh random field elements.
#include "shr.h"
#include <cstring>
namespace ss = frn::lib::secret_sharing;
namespace code {
V Pieces(const F& s, N m, PRG& prg) { return ss::ShareAdditive(s, m, prg); }
V Second(const F& s, const F& u, N m, N k, PRG& prg) { ss::ShareAdditive(u, k, prg); return ss::ShareAdditive(s, m, prg); }
VV Shares(N n, N t, const F& s, PRG& prg) { return R(n, t).Share(s, prg); }
std::vector<VV> List(N n, N t, const V& v, PRG& prg) { return R(n, t).Share(v, prg); }
}  // namespace code
namespace dom {
bool Second(const F& s, const F& u, N m, N k, PRG& prg) { return m > 0 && k > 0; }
bool Shares(N n, N t, const F& s, PRG& prg) { return t > 0 && t < n; }
bool List(N n, N t, const V& v, PRG& prg) { return t > 0 && t < n; }
}  // namespace dom
namespace spec {
V Pieces(const F& s, N m, PRG& prg) {
  if (m == 0) throw std::invalid_argument("");
  Bytes all(m * 8);
  prg.Next(all);
  V r;
  F sum = F::kZero;
  for (N i = 0; i + 1 < m; ++i) {
    r.push_back(F::FromBytes(all.data() + 8 * i));
    sum += r[i];
  }
  r.push_back(s - sum);
  return r;
}
V Second(const F& s, const F& u, N m, N k, PRG& prg) { Pieces(u, k, prg); return Pieces(s, m, prg); }
VV Shares(N n, N t, const F& s, PRG& prg) {
  const R r(n, t);
  const V p = Pieces(s, r.AdditiveShareSize(), prg);
  VV all;
  for (N id = 0; id < n; ++id) all.push_back(Held(r, p, id));
  return all;
}
std::vector<VV> List(N n, N t, const V& v, PRG& prg) {
  const R r(n, t);
  std::vector<VV> all(n);
  for (N k = 0; k < v.size(); ++k) {
    const V p = Pieces(v[k], r.AdditiveShareSize(), prg);
    for (N id = 0; id < n; ++id) all[id].push_back(Held(r, p, id));
  }
  return all;
}
}  // namespace spec
