// C07: linear operations and operations with public constants.
#include "shr.h"
using M = frn::ShrManipulator;
namespace code {
V Add(N id, N d, N n, const V& a, const V& b) { return M(id, d, n).Add(a, b); }
V Subtract(N id, N d, N n, const V& a, const V& b) { return M(id, d, n).Subtract(a, b); }
V Scale(N id, N d, N n, const V& a, const F& c) { return M(id, d, n).MultiplyConstant(a, c); }
V ScaleLeft(N id, N d, N n, const V& a, const F& c) { return M(id, d, n).MultiplyConstant(c, a); }
V Twice(N id, N d, N n, const V& a, const F& c) {
  M m(id, d, n);
  m.AddConstant(a, c); m.SubtractConstant(a, c); m.SubtractConstant(c, a); m.MultiplyConstant(a, c); m.Add(a, a); m.Subtract(a, a);
  return m.AddConstant(m.SubtractConstant(m.MultiplyConstant(a, c), c), c);
}
// the operation applied by every party to its share of the sharing with pieces pa
#define ALL(op) R r(n, d); VV all; for (N p = 0; p < n; ++p) { M m(p, d, n); const V a = Held(r, pa, p); all.push_back(op); }
VV AddEvery(N n, N d, const V& pa, const F& c) { ALL(m.AddConstant(a, c)) return all; }
VV AddLeftEvery(N n, N d, const V& pa, const F& c) { ALL(m.AddConstant(c, a)) return all; }
VV SubtractEvery(N n, N d, const V& pa, const F& c) { ALL(m.SubtractConstant(a, c)) return all; }
VV SubtractFromEvery(N n, N d, const V& pa, const F& c) { ALL(m.SubtractConstant(c, a)) return all; }
// number of pieces that are not the piece prescribed without the constant
inline N Changed(const R& r, const VV& all, const V& pieces) {
  N k = 0;
  for (N i = 0; i < pieces.size(); ++i) {
    const N h = r.Combination(i)[0];
    if (all[h][Pos(r.IndexSetFor(h), i)] != pieces[i]) k = k + 1;
  }
  return k;
}
inline V Negated(const V& a) { V r; for (N i = 0; i < a.size(); ++i) r.push_back(F::kZero - a[i]); return r; }
F AddConstant(N n, N d, const V& pa, const F& c) { return R(n, d).ErrorDetection(AddEvery(n, d, pa, c)); }
F AddConstantLeft(N n, N d, const V& pa, const F& c) { return R(n, d).ErrorDetection(AddLeftEvery(n, d, pa, c)); }
F SubtractConstant(N n, N d, const V& pa, const F& c) { return R(n, d).ErrorDetection(SubtractEvery(n, d, pa, c)); }
F SubtractFromConstant(N n, N d, const V& pa, const F& c) { return R(n, d).ErrorDetection(SubtractFromEvery(n, d, pa, c)); }
N AddChanges(N n, N d, const V& pa, const F& c) { return Changed(R(n, d), AddEvery(n, d, pa, c), pa); }
N SubtractChanges(N n, N d, const V& pa, const F& c) { return Changed(R(n, d), SubtractEvery(n, d, pa, c), pa); }
N SubtractFromChanges(N n, N d, const V& pa, const F& c) { return Changed(R(n, d), SubtractFromEvery(n, d, pa, c), Negated(pa)); }
}  // namespace code
namespace dom {
inline bool Ok(N id, N d, N n) { return d > 0 && 2 * d < n && id < n; }
bool Add(N id, N d, N n, const V& a, const V& b) { return Ok(id, d, n) && a.size() == b.size(); }
bool Subtract(N id, N d, N n, const V& a, const V& b) { return Ok(id, d, n) && a.size() == b.size(); }
bool Scale(N id, N d, N n, const V& a, const F& c) { return Ok(id, d, n); }
bool ScaleLeft(N id, N d, N n, const V& a, const F& c) { return Ok(id, d, n); }
bool Twice(N id, N d, N n, const V& a, const F& c) { return Ok(id, d, n) && a.size() == R(n, d).ShareSize(); }
bool AddConstant(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize(); }
bool AddConstantLeft(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize(); }
bool SubtractConstant(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize(); }
bool SubtractFromConstant(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize(); }
bool AddChanges(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize() && c != F::kZero; }
bool SubtractChanges(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize() && c != F::kZero; }
bool SubtractFromChanges(N n, N d, const V& pa, const F& c) { return n > 2 * d && d > 0 && pa.size() == R(n, d).AdditiveShareSize() && c != F::kZero; }
}  // namespace dom
namespace spec {
V Add(N id, N d, N n, const V& a, const V& b) { M m(id, d, n); V r; for (N i = 0; i < a.size(); ++i) r.push_back(a[i] + b[i]); return r; }
V Subtract(N id, N d, N n, const V& a, const V& b) { M m(id, d, n); V r; for (N i = 0; i < a.size(); ++i) r.push_back(a[i] - b[i]); return r; }
V Scale(N id, N d, N n, const V& a, const F& c) { M m(id, d, n); V r; for (N i = 0; i < a.size(); ++i) r.push_back(a[i] * c); return r; }
V ScaleLeft(N id, N d, N n, const V& a, const F& c) { return Scale(id, d, n, a, c); }
V Twice(N id, N d, N n, const V& a, const F& c) { return Scale(id, d, n, a, c); }
F AddConstant(N n, N d, const V& pa, const F& c) { return Total(pa) + c; }
F AddConstantLeft(N n, N d, const V& pa, const F& c) { return Total(pa) + c; }
F SubtractConstant(N n, N d, const V& pa, const F& c) { return Total(pa) - c; }
F SubtractFromConstant(N n, N d, const V& pa, const F& c) { return c - Total(pa); }
N AddChanges(N n, N d, const V& pa, const F& c) { return 1; }
N SubtractChanges(N n, N d, const V& pa, const F& c) { return 1; }
N SubtractFromChanges(N n, N d, const V& pa, const F& c) { return 1; }
}  // namespace spec
