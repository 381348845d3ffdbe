// C08: local multiplication accounts for every cross product exactly once.
#include "shr.h"
using M = frn::ShrManipulator;
struct Entry { N a, b, dest, first; };
using Table = std::vector<Entry>;
namespace code {
// the entries for one pair of pieces: the order of the table is not fixed
Table MultTable(N id, N d, N n, N i, N j) {
  M m(id, d, n);
  Table r;
  for (const auto& e : m.GetTableMult())
    if (e.src_a == i && e.src_b == j) r.push_back(Entry{e.src_a, e.src_b, e.dest_c, e.first_party});
  return r;
}
int IndexFor(N id, N d, N n, N i, N j) { return M(id, d, n).ComputeIndexForDoubleMultiplication(i, j); }
V DoubleDegree(N id, N d, N n, const V& a, const V& b) { return M(id, d, n).MultiplyToDoubleDegree(a, b); }
F Additive(N id, N d, N n, const V& a, const V& b) { return M(id, d, n).MultiplyToAdditive(a, b); }
F AdditiveTotal(N d, N n, const V& pa, const V& pb) {
  R r(n, d);
  F t = F::kZero;
  for (N p = 0; p < n; ++p) { M m(p, d, n); t += m.MultiplyToAdditive(Held(r, pa, p), Held(r, pb, p)); }
  return t;
}
F DoubleDegreeTotal(N d, N n, const V& pa, const V& pb) {
  R r(n, d);
  VV all;
  for (N p = 0; p < n; ++p) { M m(p, d, n); all.push_back(m.MultiplyToDoubleDegree(Held(r, pa, p), Held(r, pb, p))); }
  return R(n, 2 * d).ErrorDetection(all);
}
N Entries(N id, N d, N n) { return M(id, d, n).GetTableMult().size(); }
bool Usable(N id, N d, N n) { M m(id, d, n); return true; }
}  // namespace code
namespace dom {
inline bool Ok(N id, N d, N n) { return d > 0 && 2 * d < n && id < n; }
bool MultTable(N id, N d, N n, N i, N j) { return Ok(id, d, n); }
bool IndexFor(N id, N d, N n, N i, N j) { return Ok(id, d, n) && i < R(n, d).ShareSize() && j < R(n, d).ShareSize(); }
bool DoubleDegree(N id, N d, N n, const V& a, const V& b) { return Ok(id, d, n) && a.size() == R(n, d).ShareSize() && b.size() == a.size(); }
bool Additive(N id, N d, N n, const V& a, const V& b) { return Ok(id, d, n) && a.size() == R(n, d).ShareSize() && b.size() == a.size(); }
bool AdditiveTotal(N d, N n, const V& pa, const V& pb) { return Ok(0, d, n) && pa.size() == R(n, d).AdditiveShareSize() && pb.size() == pa.size(); }
bool DoubleDegreeTotal(N d, N n, const V& pa, const V& pb) { return Ok(0, d, n) && pa.size() == R(n, d).AdditiveShareSize() && pb.size() == pa.size(); }
bool Entries(N id, N d, N n) { return Ok(id, d, n); }
bool Usable(N id, N d, N n) { return Ok(id, d, n); }
}  // namespace dom
namespace spec {
// the entry for the pieces at positions i and j of the share of id
inline bool Has(const R& r, N id, N d, N n, N i, N j) {
  const Ints mine = r.IndexSetFor(id);
  const Ints c = Common(r.Combination(mine[i]), r.Combination(mine[j]));
  return Pos(c, id) < n - 2 * d;
}
inline Ints Target(const R& r, N id, N d, N n, N i, N j) {
  const Ints mine = r.IndexSetFor(id);
  Ints c = Common(r.Combination(mine[i]), r.Combination(mine[j]));
  Ints t;
  for (N x = 0; x < n - 2 * d; ++x) t.push_back(c[x]);
  return t;
}
inline bool Equal(const Ints& a, const Ints& b) {
  if (a.size() != b.size()) return false;
  for (N i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return false;
  return true;
}
// position, in the share of id, of the piece of the double-threshold sharing with subset t
inline N Place(const R& dbl, N id, const Ints& t) {
  const Ints mine = dbl.IndexSetFor(id);
  for (N x = 0; x < mine.size(); ++x)
    if (Equal(dbl.Combination(mine[x]), t)) return x;
  return mine.size();
}
Table Whole(N id, N d, N n) {
  const R r(n, d), dbl(n, 2 * d);
  Table out;
  for (N i = 0; i < r.ShareSize(); ++i)
    for (N j = 0; j < r.ShareSize(); ++j)
      if (Has(r, id, d, n, i, j)) {
        const Ints t = Target(r, id, d, n, i, j);
        out.push_back(Entry{i, j, Place(dbl, id, t), static_cast<N>(t[0])});
      }
  return out;
}
Table MultTable(N id, N d, N n, N i, N j) {
  const R r(n, d), dbl(n, 2 * d);
  Table out;
  if (i >= r.ShareSize() || j >= r.ShareSize() || !Has(r, id, d, n, i, j)) return out;
  const Ints t = Target(r, id, d, n, i, j);
  out.push_back(Entry{i, j, Place(dbl, id, t), static_cast<N>(t[0])});
  return out;
}
int IndexFor(N id, N d, N n, N i, N j) {
  M m(id, d, n);
  const R r(n, d), dbl(n, 2 * d);
  if (!Has(r, id, d, n, i, j)) return -1;
  return Place(dbl, id, Target(r, id, d, n, i, j));
}
V DoubleDegree(N id, N d, N n, const V& a, const V& b) {
  const R dbl(n, 2 * d);
  const Table t = Whole(id, d, n);
  V out;
  for (N x = 0; x < dbl.ShareSize(); ++x) {
    F s = F::kZero;
    for (N k = 0; k < t.size(); ++k)
      if (t[k].dest == x) s += a[t[k].a] * b[t[k].b];
    out.push_back(s);
  }
  return out;
}
F Additive(N id, N d, N n, const V& a, const V& b) {
  const Table t = Whole(id, d, n);
  F s = F::kZero;
  for (N k = 0; k < t.size(); ++k)
    if (t[k].first == id) s += a[t[k].a] * b[t[k].b];
  return s;
}
F AdditiveTotal(N d, N n, const V& pa, const V& pb) { return Total(pa) * Total(pb); }
F DoubleDegreeTotal(N d, N n, const V& pa, const V& pb) { return Total(pa) * Total(pb); }
N Entries(N id, N d, N n) { return Whole(id, d, n).size(); }
bool Usable(N id, N d, N n) { return true; }
}  // namespace spec
