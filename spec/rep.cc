// C03: every sharing reconstructs to its secret and is distributed consistently.
#include "shr.h"
namespace ss = frn::lib::secret_sharing;
namespace code {
VV Share(N n, N t, const F& s, PRG& prg) { return R(n, t).Share(s, prg); }
std::vector<VV> ShareList(N n, N t, const V& v, PRG& prg) { return R(n, t).Share(v, prg); }
F PiecesTotal(const F& s, N m, PRG& prg) { return Total(ss::ShareAdditive(s, m, prg)); }
N PiecesCount(const F& s, N m, PRG& prg) { return ss::ShareAdditive(s, m, prg).size(); }
F Reconstruct(N n, N t, const VV& shares) { return R(n, t).Reconstruct(shares); }
F RoundTrip(N n, N t, const F& s, PRG& prg) { R r(n, t); return r.Reconstruct(r.Share(s, prg)); }
bool HoldersAgree(N n, N t, const F& s, PRG& prg, N i, N j) {
  R r(n, t);
  VV all = r.Share(s, prg);
  const Ints a = r.IndexSetFor(i), b = r.IndexSetFor(j);
  for (N x = 0; x < a.size(); ++x)
    for (N y = 0; y < b.size(); ++y)
      if (a[x] == b[y] && all[i][x] != all[j][y]) return false;
  return true;
}
}  // namespace code
namespace dom {
inline bool Ok(N n, N t) { return t > 0 && t < n && n > 1; }
bool Share(N n, N t, const F& s, PRG& prg) { return Ok(n, t); }
bool ShareList(N n, N t, const V& v, PRG& prg) { return Ok(n, t); }
bool PiecesTotal(const F& s, N m, PRG& prg) { return m > 0; }
bool PiecesCount(const F& s, N m, PRG& prg) { return m > 0; }
bool Reconstruct(N n, N t, const VV& shares) {
  if (!Ok(n, t)) return false;
  if (shares.size() != n) return false;
  const R r(n, t);
  for (N i = 0; i < n; ++i)
    if (shares[i].size() != r.ShareSize()) return false;
  // consistent shares: all copies of a piece agree
  for (N i = 0; i < r.AdditiveShareSize(); ++i) {
    const Ints holders = r.Combination(i);
    for (N h = 1; h < holders.size(); ++h)
      if (shares[holders[h]][Pos(r.IndexSetFor(holders[h]), i)] != shares[holders[0]][Pos(r.IndexSetFor(holders[0]), i)]) return false;
  }
  return true;
}
bool RoundTrip(N n, N t, const F& s, PRG& prg) { return Ok(n, t); }
bool HoldersAgree(N n, N t, const F& s, PRG& prg, N i, N j) { return Ok(n, t) && i < n && j < n; }
}  // namespace dom
namespace spec {
VV Share(N n, N t, const F& s, PRG& prg) {
  const R r(n, t);
  const V pieces = ss::ShareAdditive(s, r.AdditiveShareSize(), prg);
  VV all;
  for (N id = 0; id < n; ++id) {
    V share;
    for (N i = 0; i < r.AdditiveShareSize(); ++i)
      if (In(r.Combination(i), id)) share.push_back(pieces[i]);
    all.push_back(share);
  }
  return all;
}
std::vector<VV> ShareList(N n, N t, const V& v, PRG& prg) {
  const R r(n, t);
  std::vector<VV> by, all;
  for (N k = 0; k < v.size(); ++k) by.push_back(r.Share(v[k], prg));
  for (N id = 0; id < n; ++id) {
    VV mine;
    for (N k = 0; k < v.size(); ++k) mine.push_back(by[k][id]);
    all.push_back(mine);
  }
  return all;
}
F PiecesTotal(const F& s, N m, PRG& prg) { ss::ShareAdditive(s, m, prg); return s; }
N PiecesCount(const F& s, N m, PRG& prg) { ss::ShareAdditive(s, m, prg); return m; }
F Reconstruct(N n, N t, const VV& shares) {
  const R r(n, t);
  F x = F::kZero;
  for (N i = 0; i < r.AdditiveShareSize(); ++i) {
    const N p = r.Combination(i)[0];
    x += shares[p][Pos(r.IndexSetFor(p), i)];
  }
  return x;
}
F RoundTrip(N n, N t, const F& s, PRG& prg) { R(n, t).Share(s, prg); return s; }
bool HoldersAgree(N n, N t, const F& s, PRG& prg, N i, N j) { R(n, t).Share(s, prg); return true; }
}  // namespace spec
