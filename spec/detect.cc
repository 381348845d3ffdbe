// C05: reconstruction with detection rejects any disagreement between copies.
#include "shr.h"
namespace code {
F Detect(N n, N t, const VV& shares) { return R(n, t).ErrorDetection(shares); }
F Copies(N n, N t, const VV& shares) { return R(n, t).ErrorDetection(shares); }
F DetectHonest(N n, N t, const F& s, PRG& prg) { R r(n, t); return r.ErrorDetection(r.Share(s, prg)); }
F DetectOneWrong(N n, N t, const F& s, PRG& prg, N i, N j, const F& e) {
  R r(n, t);
  VV all = r.Share(s, prg);
  all[i][j] = all[i][j] + e;
  return r.ErrorDetection(all);
}
}  // namespace code
namespace dom {
inline bool Ok(N n, N t) { return t > 0 && t < n && n > 1; }
bool Detect(N n, N t, const VV& shares) {
  if (!Ok(n, t)) return false;
  if (shares.size() != n) return false;
  const R r(n, t);
  for (N i = 0; i < n; ++i)
    if (shares[i].size() != r.ShareSize()) return false;
  return true;
}
bool Copies(N n, N t, const VV& shares) { return Detect(n, t, shares); }
bool DetectHonest(N n, N t, const F& s, PRG& prg) { return Ok(n, t); }
bool DetectOneWrong(N n, N t, const F& s, PRG& prg, N i, N j, const F& e) { return Ok(n, t) && t + 1 < n && i < n && j < R(n, t).ShareSize(); }
}  // namespace dom
namespace spec {
// every element numbered i in the index sets is a copy of piece i
F Copies(N n, N t, const VV& shares) {
  const R r(n, t);
  F x = F::kZero;
  bool differ = false;
  for (N i = 0; i < r.AdditiveShareSize(); ++i) {
    V copies;
    for (N p = 0; p < n; ++p)
      for (N j = 0; j < r.ShareSize(); ++j)
        if (r.IndexSetFor(p)[j] == i) copies.push_back(shares[p][j]);
    for (N k = 0; k < copies.size(); ++k)
      if (copies[k] != copies[0]) differ = true;
    x += copies[0];
  }
  if (differ) throw std::runtime_error("");
  return x;
}
F Detect(N n, N t, const VV& shares) {
  const R r(n, t);
  F x = F::kZero;
  bool differ = false;
  for (N i = 0; i < r.AdditiveShareSize(); ++i) {
    const Ints holders = r.Combination(i);
    const F& first = shares[holders[0]][Pos(r.IndexSetFor(holders[0]), i)];
    for (N h = 1; h < holders.size(); ++h)
      if (shares[holders[h]][Pos(r.IndexSetFor(holders[h]), i)] != first) differ = true;
    x += first;
  }
  if (differ) throw std::runtime_error("");
  return x;
}
F DetectHonest(N n, N t, const F& s, PRG& prg) { R(n, t).Share(s, prg); return s; }
F DetectOneWrong(N n, N t, const F& s, PRG& prg, N i, N j, const F& e) {
  R r(n, t);
  r.Share(s, prg);
  if (e != F::kZero) throw std::runtime_error("");
  return s;
}
}  // namespace spec
