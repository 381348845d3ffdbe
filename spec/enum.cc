// C29: the enumeration of party subsets is complete and lexicographic.
#include "shr.h"
namespace ss = frn::lib::secret_sharing;
struct Step { bool more; Ints c; };
namespace spec {
bool HasNext(Ints c, int m);
Ints Next(Ints c, int m);
Ints First(int m, N k);
}  // namespace spec
inline bool Same(const Ints& a, const Ints& b) {
  if (a.size() != b.size()) return false;
  for (N i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return false;
  return true;
}
namespace code {
N Count(N m, N k) { return ss::Binom(m, k); }
bool HasNext(Ints c, int m) { return ss::NextCombination(c, m, c.size()); }
Ints Next(Ints c, int m) { ss::NextCombination(c, m, c.size()); return c; }
Ints First(int m, N k) { Ints c(k); ss::NthCombination(c, 0, m); return c; }
Ints Nth(int m, N k, int i) { Ints c(k); ss::NthCombination(c, i, m); return c; }
// consecutive entries of the table of a sharing scheme
bool FirstEntry(N n, N t) { return Same(R(n, t).Combination(0), spec::First(n, n - t)); }
bool NextEntry(N n, N t, N i) { R r(n, t); return Same(r.Combination(i + 1), spec::Next(r.Combination(i), n)); }
bool LastEntry(N n, N t) { R r(n, t); return spec::HasNext(r.Combination(r.AdditiveShareSize() - 1), n); }
Ints Entry(N n, N t, N i) { return R(n, t).Combination(i); }
}  // namespace code
namespace dom {
// an ascending list of numbers below m
inline bool Subset(const Ints& c, int m) {
  if (c.size() == 0 || (int)c.size() > m || m > 1000) return false;
  for (N i = 0; i + 1 < c.size(); ++i)
    if (c[i] >= c[i + 1]) return false;
  return c[0] >= 0 && c[c.size() - 1] < m;
}
bool Count(N m, N k) { return k > 0 && k <= m; }
bool HasNext(Ints c, int m) { return Subset(c, m); }
bool Next(Ints c, int m) { return Subset(c, m); }
bool First(int m, N k) { return m > 0 && k > 0 && k <= (N)m; }
bool Nth(int m, N k, int i) { return m > 0 && k > 0 && k <= (N)m && i >= 0; }
inline bool Scheme(N n, N t) { return 0 < t && t < n; }
bool FirstEntry(N n, N t) { return Scheme(n, t); }
bool LastEntry(N n, N t) { return Scheme(n, t); }
bool NextEntry(N n, N t, N i) { return Scheme(n, t) && i + 1 < R(n, t).AdditiveShareSize(); }
bool Entry(N n, N t, N i) { return Scheme(n, t) && i < R(n, t).AdditiveShareSize(); }
}  // namespace dom
namespace spec {
// m (m-1) ... (m-e+1) / e! with e the smaller of k and m-k
N Count(N m, N k) {
  const N e = m - k < k ? m - k : k;
  N a = 1, b = 1;
  for (N i = 0; i < e; ++i) a = a * (m - i);
  for (N i = 0; i < e; ++i) b = b * (i + 1);
  return a / b;
}
// there is a next list unless every element has its largest possible value
bool HasNext(Ints c, int m) {
  const int k = c.size();
  for (int j = 0; j < k; ++j)
    if (c[k - 1 - j] < m - 1 - j) return true;
  return false;
}
// the last element that can grow does, by one, and those behind it follow it immediately
Ints Next(Ints c, int m) {
  const int k = c.size();
  for (int j = 0; j < k; ++j)
    if (c[k - 1 - j] < m - 1 - j) {
      const int p = k - 1 - j;
      Ints r;
      for (int i = 0; i < k; ++i) r.push_back(i > p ? c[p] + 1 + (i - p) : i == p ? c[i] + 1 : c[i]);
      return r;
    }
  return c;
}
Ints First(int m, N k) {
  Ints c;
  for (N i = 0; i < k; ++i) c.push_back(i);
  return c;
}
Ints Nth(int m, N k, int i) {
  Ints c;
  for (N x = 0; x < k; ++x) c.push_back(x);
  for (int x = 0; x < i && HasNext(c, m); ++x) c = Next(c, m);
  return c;
}
bool FirstEntry(N n, N t) { return true; }
bool NextEntry(N n, N t, N i) { return true; }
bool LastEntry(N n, N t) { return false; }
// the i-th ascending list of k numbers below m: the lists that begin with x come before those that begin with x + 1
Ints Entry(N n, N t, N i) {
  Ints s;
  const N k = n - t;
  N x = 0;
  while (s.size() < k) {
    const N c = Count(n - x - 1, k - s.size() - 1);
    if (i < c) s.push_back(x);
    else i = i - c;
    x = x + 1;
  }
  return s;
}
}  // namespace spec
