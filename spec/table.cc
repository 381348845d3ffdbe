// C06: the tables that assign pieces to parties agree with each other.
#include "shr.h"
namespace ss = frn::lib::secret_sharing;
namespace code {
N Size(N n, N t) { return R(n, t).Size(); }
N Threshold(N n, N t) { return R(n, t).Threshold(); }
N ShareSize(N n, N t) { return R(n, t).ShareSize(); }
N AdditiveShareSize(N n, N t) { return R(n, t).AdditiveShareSize(); }
N ShareSizeBytes(N n, N t) { return R(n, t).ShareSizeBytes(); }
N DifferenceSize(N n, N t) { return R(n, t).DifferenceSize(); }
Ints Subset(N n, N t, N i) { return R(n, t).Combination(i); }
int Reverse(N n, N t, N i) { R r(n, t); return r.RevComb(r.Combination(i)); }
Ints IndexSet(N n, N t, N id) { return R(n, t).IndexSetFor(id); }
bool IndexSetIffMember(N n, N t, N id, N i) { return In(R(n, t).IndexSetFor(id), i); }
bool Ascending(N n, N t, N id) {
  const Ints s = R(n, t).IndexSetFor(id);
  for (N k = 0; k + 1 < s.size(); ++k)
    if (s[k] >= s[k + 1]) return false;
  return true;
}
N CreateSize(int n) { return frn::CreateReplicator(n).Size(); }
N CreateThreshold(int n) { return frn::CreateReplicator(n).Threshold(); }
Ints Both(const Ints& a, const Ints& b) {
  Ints r;
  ss::Intersection(a, b, [&r](int i) { r.push_back(i); });
  return r;
}
Ints OnlyFirst(const Ints& a, const Ints& b) {
  Ints r;
  ss::Difference(a, b, [&r](int i) { r.push_back(i); });
  return r;
}
}  // namespace code
namespace dom {
inline bool Ok(N n, N t) { return t > 0 && t < n && n > 1; }
inline bool Sorted(const Ints& a) {
  for (N k = 0; k + 1 < a.size(); ++k)
    if (a[k] >= a[k + 1]) return false;
  return true;
}
bool Subset(N n, N t, N i) { return Ok(n, t) && i < R(n, t).AdditiveShareSize(); }
bool DifferenceSize(N n, N t) { return t >= n || n > 1; }
bool Reverse(N n, N t, N i) { return Ok(n, t) && i < R(n, t).AdditiveShareSize(); }
bool IndexSet(N n, N t, N id) { return Ok(n, t) && id < n; }
bool IndexSetIffMember(N n, N t, N id, N i) { return Ok(n, t) && id < n && i < R(n, t).AdditiveShareSize(); }
bool Ascending(N n, N t, N id) { return Ok(n, t) && id < n; }
bool Both(const Ints& a, const Ints& b) { return Sorted(a) && Sorted(b); }
bool OnlyFirst(const Ints& a, const Ints& b) { return Sorted(a) && Sorted(b); }
bool CreateSize(int n) { return n > 0; }
bool CreateThreshold(int n) { return n > 0; }
}  // namespace dom
namespace spec {
inline void Refuse(N n, N t) {
  if (t >= n) throw std::invalid_argument("");
  if (t == 0) throw std::invalid_argument("");
}
// number of ways to choose k of m, by Pascal's rule in closed form
inline N Choose(N m, N k) {
  if (k > m) return 0;
  N r = 1;
  for (N i = 0; i < k; ++i) r = r * (m - i) / (i + 1);
  return r;
}
// the i-th subset of size k of {0..m-1} in lexicographic order: smallest
// element x such that at most i subsets start below it, and so on
inline Ints Unrank(N m, N k, N i) {
  Ints s;
  N x = 0;
  while (s.size() < k) {
    const N c = Choose(m - x - 1, k - s.size() - 1);
    if (i < c) s.push_back(x);
    else i = i - c;
    x = x + 1;
  }
  return s;
}
N Size(N n, N t) { Refuse(n, t); return n; }
N Threshold(N n, N t) { Refuse(n, t); return t; }
N ShareSize(N n, N t) { Refuse(n, t); return Choose(n - 1, t); }
N AdditiveShareSize(N n, N t) { Refuse(n, t); return Choose(n, t); }
N ShareSizeBytes(N n, N t) { Refuse(n, t); return 8 * Choose(n - 1, t); }
N DifferenceSize(N n, N t) { Refuse(n, t); return n < 2 ? 0 : Choose(n - 2, t - 1); }
Ints Subset(N n, N t, N i) { return Unrank(n, n - t, i); }
int Reverse(N n, N t, N i) { return i; }
Ints IndexSet(N n, N t, N id) {
  Ints s;
  for (N i = 0; i < Choose(n, t); ++i)
    if (In(Unrank(n, n - t, i), id)) s.push_back(i);
  return s;
}
bool IndexSetIffMember(N n, N t, N id, N i) { return In(R(n, t).Combination(i), id); }
bool Ascending(N n, N t, N id) { return true; }
N CreateSize(int n) { Refuse(n, (n - 1) / 3); return n; }
N CreateThreshold(int n) { Refuse(n, (n - 1) / 3); return (n - 1) / 3; }
Ints Both(const Ints& a, const Ints& b) {
  Ints r;
  for (N i = 0; i < a.size(); ++i)
    if (In(b, a[i])) r.push_back(i);
  return r;
}
Ints OnlyFirst(const Ints& a, const Ints& b) {
  Ints r;
  for (N i = 0; i < a.size(); ++i)
    if (!In(b, a[i])) r.push_back(i);
  return r;
}
}  // namespace spec
