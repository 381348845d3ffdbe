// C27: matrix operations, entry by entry.
#include <iomanip>
#include <sstream>
#include "common.h"
#include "frn/lib/math/mat.h"

using M = frn::lib::math::Matrix<F>;
using N = std::size_t;

// a matrix with given entries, and its entries row by row
inline M Of(N r, N c, const V& v) {
  M m(r, c);
  for (N i = 0; i < r; ++i)
    for (N j = 0; j < c; ++j) m(i, j) = v[i * c + j];
  return m;
}
inline V Entries(const M& m) {
  V out;
  for (N i = 0; i < m.RowCount(); ++i)
    for (N j = 0; j < m.ColumnCount(); ++j) out.push_back(m(i, j));
  return out;
}

namespace code {
V Access(N r, N c, const V& v) { return Entries(Of(r, c, v)); }
N Rows(N r, N c) { return M(r, c).RowCount(); }
N Cols(N r, N c) { return M(r, c).ColumnCount(); }
F Fresh(N r, N c, N i, N j) { const M m(r, c); return m(i, j); }
F WriteRead(N r, N c, const V& v, N i, N j, const F& x, N k, N l) {
  M m = Of(r, c, v);
  m(i, j) = x;
  const M& q = m;
  return q(k, l);
}
V Extract(N r, N c, const V& v, N r0, N r1, N c0, N c1) {
  M m = Of(r, c, v);
  M s = m.extract_submatrix(r0, r1, c0, c1);
  return Entries(s);
}
N ExtractRows(N r, N c, N r0, N r1, N c0, N c1) { M m(r, c); return m.extract_submatrix(r0, r1, c0, c1).RowCount(); }
N ExtractCols(N r, N c, N r0, N r1, N c0, N c1) { M m(r, c); return m.extract_submatrix(r0, r1, c0, c1).ColumnCount(); }
V Add(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); return Entries(a.Add(Of(r2, c2, w))); }
V Subtract(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); return Entries(a.Subtract(Of(r2, c2, w))); }
V Multiply(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); return Entries(a.Multiply(Of(r2, c2, w))); }
V AddKeeps(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); a.Add(Of(r2, c2, w)); a.Subtract(Of(r2, c2, w)); a.Multiply(Of(r2, c2, w)); return Entries(a); }
V AddInto(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); a.AddInto(Of(r2, c2, w)); return Entries(a); }
V SubtractInto(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); a.SubtractInto(Of(r2, c2, w)); return Entries(a); }
V MultiplyInto(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); a.MultiplyInto(Of(r2, c2, w)); return Entries(a); }
V AddIntoRef(N r, N c, const V& v, const V& w, const F& s) { M a = Of(r, c, v); a.AddInto(Of(r, c, w)).SubtractInto(Of(r, c, v)).MultiplyInto(Of(r, c, v)).ScaleBy(s).ScaleBy(s); return Entries(a); }
V Scale(N r, N c, const V& v, const F& s) { M a = Of(r, c, v); return Entries(a.Scale(s)); }
V ScaleBy(N r, N c, const V& v, const F& s) { M a = Of(r, c, v); a.ScaleBy(s); return Entries(a); }
V ScaleKeeps(N r, N c, const V& v, const F& s) { M a = Of(r, c, v); a.Scale(s); return Entries(a); }
V MatMul(N r, N c, const V& v, N r2, N c2, const V& w) { M a = Of(r, c, v); return Entries(a.MatMul(Of(r2, c2, w))); }
N MatMulRows(N r, N c, N r2, N c2) { M a(r, c); return a.MatMul(M(r2, c2)).RowCount(); }
N MatMulCols(N r, N c, N r2, N c2) { M a(r, c); return a.MatMul(M(r2, c2)).ColumnCount(); }
N AddRows(N r, N c) { M a(r, c); return a.Add(M(r, c)).RowCount() + 100 * a.Subtract(M(r, c)).RowCount() + 10000 * a.Multiply(M(r, c)).RowCount() + 1000000 * a.Scale(F::kOne).RowCount(); }
N AddCols(N r, N c) { M a(r, c); return a.Add(M(r, c)).ColumnCount() + 100 * a.Subtract(M(r, c)).ColumnCount() + 10000 * a.Multiply(M(r, c)).ColumnCount() + 1000000 * a.Scale(F::kOne).ColumnCount(); }
V Vandermonde(const V& a, N c) { return Entries(frn::lib::math::create_vandermonde_matrix(a, c)); }
V VandermondeBase(const F& b, N r, N c) { return Entries(frn::lib::math::create_vandermonde_matrix(b, r, c)); }
std::string Print(N r, N c, const V& v) { return Of(r, c, v).ToString(); }
}  // namespace code

namespace dom {
bool Access(N r, N c, const V& v) { return v.size() == r * c; }
bool Fresh(N r, N c, N i, N j) { return i < r && j < c; }
bool WriteRead(N r, N c, const V& v, N i, N j, const F& x, N k, N l) { return v.size() == r * c && i < r && k < r && j < c && l < c; }
bool Extract(N r, N c, const V& v, N r0, N r1, N c0, N c1) { return v.size() == r * c; }
bool Add(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool Subtract(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool Multiply(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool AddKeeps(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool AddInto(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool SubtractInto(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool MultiplyInto(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool MatMul(N r, N c, const V& v, N r2, N c2, const V& w) { return v.size() == r * c && w.size() == r2 * c2; }
bool AddIntoRef(N r, N c, const V& v, const V& w, const F& s) { return v.size() == r * c && w.size() == r * c; }
bool Scale(N r, N c, const V& v, const F& s) { return v.size() == r * c; }
bool ScaleBy(N r, N c, const V& v, const F& s) { return v.size() == r * c; }
bool ScaleKeeps(N r, N c, const V& v, const F& s) { return v.size() == r * c; }
bool Print(N r, N c, const V& v) { return v.size() == r * c; }
}  // namespace dom

namespace spec {
inline void Shape(N r, N c) { if (r == 0 || c == 0) throw std::invalid_argument(""); }
inline void Same(N r, N c, N r2, N c2) { Shape(r, c); Shape(r2, c2); if (r != r2 || c != c2) throw std::logic_error(""); }
V Access(N r, N c, const V& v) { Shape(r, c); return v; }
N Rows(N r, N c) { Shape(r, c); return r; }
N Cols(N r, N c) { Shape(r, c); return c; }
F Fresh(N r, N c, N i, N j) { return F::kZero; }
F WriteRead(N r, N c, const V& v, N i, N j, const F& x, N k, N l) { return i == k && j == l ? x : v[k * c + l]; }
inline void Cut(N r, N c, N r0, N r1, N c0, N c1) {
  Shape(r, c);
  if (r0 > r1 || r1 > r || c0 > c1 || c1 > c) throw std::logic_error("");
  Shape(r1 - r0, c1 - c0);
}
V Extract(N r, N c, const V& v, N r0, N r1, N c0, N c1) {
  Cut(r, c, r0, r1, c0, c1);
  V out;
  for (N i = r0; i < r1; ++i)
    for (N j = c0; j < c1; ++j) out.push_back(v[i * c + j]);
  return out;
}
N ExtractRows(N r, N c, N r0, N r1, N c0, N c1) { Cut(r, c, r0, r1, c0, c1); return r1 - r0; }
N ExtractCols(N r, N c, N r0, N r1, N c0, N c1) { Cut(r, c, r0, r1, c0, c1); return c1 - c0; }
V Add(N r, N c, const V& v, N r2, N c2, const V& w) { Same(r, c, r2, c2); V o; for (N i = 0; i < r * c; ++i) o.push_back(v[i] + w[i]); return o; }
V Subtract(N r, N c, const V& v, N r2, N c2, const V& w) { Same(r, c, r2, c2); V o; for (N i = 0; i < r * c; ++i) o.push_back(v[i] - w[i]); return o; }
V Multiply(N r, N c, const V& v, N r2, N c2, const V& w) { Same(r, c, r2, c2); V o; for (N i = 0; i < r * c; ++i) o.push_back(v[i] * w[i]); return o; }
V AddKeeps(N r, N c, const V& v, N r2, N c2, const V& w) { Same(r, c, r2, c2); return v; }
V AddInto(N r, N c, const V& v, N r2, N c2, const V& w) { return Add(r, c, v, r2, c2, w); }
V SubtractInto(N r, N c, const V& v, N r2, N c2, const V& w) { return Subtract(r, c, v, r2, c2, w); }
V MultiplyInto(N r, N c, const V& v, N r2, N c2, const V& w) { return Multiply(r, c, v, r2, c2, w); }
V AddIntoRef(N r, N c, const V& v, const V& w, const F& s) { Shape(r, c); V o; for (N i = 0; i < r * c; ++i) o.push_back(w[i] * v[i] * s * s); return o; }
V Scale(N r, N c, const V& v, const F& s) { Shape(r, c); V o; for (N i = 0; i < r * c; ++i) o.push_back(v[i] * s); return o; }
V ScaleBy(N r, N c, const V& v, const F& s) { return Scale(r, c, v, s); }
V ScaleKeeps(N r, N c, const V& v, const F& s) { Shape(r, c); return v; }
V MatMul(N r, N c, const V& v, N r2, N c2, const V& w) {
  Shape(r, c); Shape(r2, c2);
  if (c != r2) throw std::invalid_argument("");
  V o;
  for (N i = 0; i < r; ++i)
    for (N j = 0; j < c2; ++j) {
      F s = F::kZero;
      for (N k = 0; k < c; ++k) s += v[i * c + k] * w[k * c2 + j];
      o.push_back(s);
    }
  return o;
}
N MatMulRows(N r, N c, N r2, N c2) { Shape(r, c); Shape(r2, c2); if (c != r2) throw std::invalid_argument(""); return r; }
N MatMulCols(N r, N c, N r2, N c2) { Shape(r, c); Shape(r2, c2); if (c != r2) throw std::invalid_argument(""); return c2; }
N AddRows(N r, N c) { Shape(r, c); return 1010101 * r; }
N AddCols(N r, N c) { Shape(r, c); return 1010101 * c; }
V Vandermonde(const V& a, N c) {
  Shape(a.size(), c);
  V o;
  for (N i = 0; i < a.size(); ++i) {
    F x = F::kOne;
    for (N j = 0; j < c; ++j) {
      o.push_back(x);
      x = x * a[i];
    }
  }
  return o;
}
V VandermondeBase(const F& b, N r, N c) {
  Shape(r, c);
  V o;
  for (N i = 0; i < r; ++i) {
    F x = F::kOne;
    for (N j = 0; j < c; ++j) {
      o.push_back(x);
      x = x * (b + F(i));
    }
  }
  return o;
}
std::string Print(N r, N c, const V& v) {
  Shape(r, c);
  std::stringstream ss;
  ss << "\n";
  for (N i = 0; i < r; ++i) {
    ss << "[";
    for (N j = 0; j < c; ++j) {
      N w = 0;
      for (N k = 0; k < r; ++k) w = std::max(w, v[k * c + j].ToString().size());
      ss << std::setfill(' ') << std::setw(w + 1) << v[i * c + j].ToString() << " ";
    }
    ss << "]";
    if (i + 1 < r) ss << "\n";
  }
  return ss.str();
}
}  // namespace spec
