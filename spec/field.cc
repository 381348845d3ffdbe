// C01: the operations of the two prime fields on raw words.
#include "common.h"
#include "frn/lib/math/arithmetic.h"
using u64 = std::uint64_t;
using u128 = __uint128_t;

template <typename E>
inline typename E::ValueType Raw(const E& e) {
  typename E::ValueType v;
  e.ToBytes((unsigned char*)&v);
  return v;
}

#define OPS(E, U, S)                                                     \
  U New##S(U x) { return Raw(E(x)); }                                    \
  U Zero##S() { return Raw(E()); }                                       \
  U ConstZero##S() { return Raw(E::kZero); }                             \
  U ConstOne##S() { return Raw(E::kOne); }                               \
  U Bytes##S(U x) { return Raw(E::FromBytes((const unsigned char*)&x)); } \
  U Add##S(U x, U y) { E a(x); return Raw(a + E(y)); }                   \
  U AddTo##S(U x, U y) { E a(x); a += E(y); return Raw(a); }             \
  U Sub##S(U x, U y) { E a(x); return Raw(a - E(y)); }                   \
  U SubFrom##S(U x, U y) { E a(x); a -= E(y); return Raw(a); }           \
  U Mul##S(U x, U y) { E a(x); return Raw(a * E(y)); }                   \
  U MulBy##S(U x, U y) { E a(x); a *= E(y); return Raw(a); }             \
  U Double##S(U x) { E a(x); a += a; return Raw(a); }                    \
  U Square##S(U x) { E a(x); a *= a; return Raw(a); }                    \
  U Less##S(U x) { E a(x); a -= a; return Raw(a); }                      \
  U Minus##S(U x) { E a(x); return Raw(-a); }                            \
  U Negate##S(U x) { E a(x); a.Negate(); return Raw(a); }                \
  U Inv##S(U x) { E a(x); return Raw(a.Inverse()); }                     \
  U Invert##S(U x) { E a(x); a.Invert(); return Raw(a); }                \
  U Div##S(U x, U y) { E a(x); return Raw(a / E(y)); }                   \
  U DivBy##S(U x, U y) { E a(x); a /= E(y); return Raw(a); }             \
  bool Eq##S(U x, U y) { return E(x) == E(y); }                          \
  bool Ne##S(U x, U y) { return E(x) != E(y); }                          \
  bool Equal##S(U x, U y) { return E(x).Equal(E(y)); }                   \
  bool NotEqual##S(U x, U y) { return E(x).NotEqual(E(y)); }             \
  U KeepL##S(U x, U y) { const E a(x), b(y); a + b; a - b; a * b; -a; return Raw(a); } \
  U KeepR##S(U x, U y) { const E a(x); const E b(y); E c(a); c += b; c -= b; c *= b; return Raw(b); } \
  U InvKeep##S(U x) { const E a(x); a.Inverse(); return Raw(a); }

namespace code {
OPS(F, u64, 61)
OPS(G, u128, 127)
}
