// C09: the reconstruction table sends every piece to exactly those who lack it.
#include "shr.h"
using M = frn::ShrManipulator;
struct Line { bool value; Ints to; };
namespace code {
std::vector<Line> RecTable(N id, N d, N n) {
  M m(id, d, n);
  std::vector<Line> r;
  for (const auto& e : m.GetTableRec()) {
    Ints to;
    for (N i = 0; i < e.party_set.size(); ++i) to.push_back(e.party_set[i]);
    r.push_back(Line{e.value_or_hash == frn::VALUE, to});
  }
  return r;
}
// over all parties: how often party `to` is sent piece i of the double-threshold sharing as a value / as a digest
N Values(N d, N n, N to, N i) {
  const R dbl(n, 2 * d);
  N k = 0;
  for (N p = 0; p < n; ++p) {
    M m(p, d, n);
    const auto t = m.GetTableRec();
    const Ints mine = dbl.IndexSetFor(p);
    for (N x = 0; x < t.size(); ++x)
      if (mine[x] == i && t[x].value_or_hash == frn::VALUE)
        for (N y = 0; y < t[x].party_set.size(); ++y)
          if (t[x].party_set[y] == to) k = k + 1;
  }
  return k;
}
N Digests(N d, N n, N to, N i) {
  const R dbl(n, 2 * d);
  N k = 0;
  for (N p = 0; p < n; ++p) {
    M m(p, d, n);
    const auto t = m.GetTableRec();
    const Ints mine = dbl.IndexSetFor(p);
    for (N x = 0; x < t.size(); ++x)
      if (mine[x] == i && t[x].value_or_hash == frn::HASH)
        for (N y = 0; y < t[x].party_set.size(); ++y)
          if (t[x].party_set[y] == to) k = k + 1;
  }
  return k;
}
}  // namespace code
namespace dom {
inline bool Ok(N id, N d, N n) { return d > 0 && 2 * d < n && id < n; }
bool RecTable(N id, N d, N n) { return Ok(id, d, n); }
bool Values(N d, N n, N to, N i) { return Ok(to, d, n) && i < R(n, 2 * d).AdditiveShareSize(); }
bool Digests(N d, N n, N to, N i) { return Ok(to, d, n) && i < R(n, 2 * d).AdditiveShareSize(); }
}  // namespace dom
namespace spec {
std::vector<Line> RecTable(N id, N d, N n) {
  const R dbl(n, 2 * d);
  const Ints mine = dbl.IndexSetFor(id);
  std::vector<Line> r;
  for (N x = 0; x < mine.size(); ++x) {
    const Ints s = dbl.Combination(mine[x]);
    Ints to;
    for (N p = 0; p < n; ++p)
      if (!In(s, p)) to.push_back(p);
    r.push_back(Line{s[0] == id, to});
  }
  return r;
}
N Values(N d, N n, N to, N i) { return In(R(n, 2 * d).Combination(i), to) ? 0 : 1; }
N Digests(N d, N n, N to, N i) { return In(R(n, 2 * d).Combination(i), to) ? 0 : n - 2 * d - 1; }
}  // namespace spec
