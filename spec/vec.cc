// C26: vector operations, against their entry-wise definitions.
#include "common.h"
#include "frn/lib/math/vec.h"

namespace vec = frn::lib::math::vector;

namespace code {
F Dot(const V& x, const V& y) { return vec::Dot(x, y); }
V AddInto(V& x, const V& y) { return vec::AddInto(x, y); }
V SubtractInto(V& x, const V& y) { return vec::SubtractInto(x, y); }
V MultiplyInto(V& x, const V& y) { return vec::MultiplyInto(x, y); }
V Add(const V& x, const V& y) { return vec::Add(x, y); }
V Subtract(const V& x, const V& y) { return vec::Subtract(x, y); }
V Multiply(const V& x, const V& y) { return vec::Multiply(x, y); }
V ScaleBy(V& x, const F& s) { return vec::ScaleBy(x, s); }
V Scale(const V& x, const F& s) { return vec::Scale(x, s); }
F Sum(const V& x) { return vec::Sum(x); }
// the returned reference is the first argument
void AddIntoRef(V& x, const V& y, const F& s) { vec::ScaleBy(vec::AddInto(x, y), s); }
void SubtractIntoRef(V& x, const V& y, const F& s) { vec::ScaleBy(vec::SubtractInto(x, y), s); }
void MultiplyIntoRef(V& x, const V& y, const F& s) { vec::ScaleBy(vec::MultiplyInto(x, y), s); }
void ScaleByRef(V& x, const F& s) { vec::ScaleBy(vec::ScaleBy(x, s), s); }
}  // namespace code

namespace spec {
F Dot(const V& x, const V& y) {
  if (x.size() != y.size()) throw std::logic_error("");
  F r = F::kZero;
  for (std::size_t i = 0; i < x.size(); ++i) r += x[i] * y[i];
  return r;
}
V Add(const V& x, const V& y) {
  if (x.size() != y.size()) throw std::logic_error("");
  V r;
  for (std::size_t i = 0; i < x.size(); ++i) r.push_back(x[i] + y[i]);
  return r;
}
V Subtract(const V& x, const V& y) {
  if (x.size() != y.size()) throw std::logic_error("");
  V r;
  for (std::size_t i = 0; i < x.size(); ++i) r.push_back(x[i] - y[i]);
  return r;
}
V Multiply(const V& x, const V& y) {
  if (x.size() != y.size()) throw std::logic_error("");
  V r;
  for (std::size_t i = 0; i < x.size(); ++i) r.push_back(x[i] * y[i]);
  return r;
}
V Scale(const V& x, const F& s) {
  V r;
  for (std::size_t i = 0; i < x.size(); ++i) r.push_back(x[i] * s);
  return r;
}
V AddInto(V& x, const V& y) { return x = Add(x, y); }
V SubtractInto(V& x, const V& y) { return x = Subtract(x, y); }
V MultiplyInto(V& x, const V& y) { return x = Multiply(x, y); }
V ScaleBy(V& x, const F& s) { return x = Scale(x, s); }
F Sum(const V& x) {
  F r = F::kZero;
  for (std::size_t i = 0; i < x.size(); ++i) r += x[i];
  return r;
}
void AddIntoRef(V& x, const V& y, const F& s) { x = Scale(Add(x, y), s); }
void SubtractIntoRef(V& x, const V& y, const F& s) { x = Scale(Subtract(x, y), s); }
void MultiplyIntoRef(V& x, const V& y, const F& s) { x = Scale(Multiply(x, y), s); }
void ScaleByRef(V& x, const F& s) { x = Scale(Scale(x, s), s); }
}  // namespace spec
