#include "check.h"
namespace code {
void Exchange(ARGS) {
  BEGIN;
  p.ComputeRandomCoefficients();
  p.PrepareLinearCombinations();
  p.PrepareMsgs();
  p.ReconstructMsgs();
}
void NothingRecorded(Net net, N t) {
  const R r(net->Size(), t);
  const M m(net->Id(), t, net->Size());
  CheckData rec(t);
  Check p(net, r, m, rec);
  p.ComputeRandomCoefficients();
  p.PrepareLinearCombinations();
  p.PrepareMsgs();
  p.ReconstructMsgs();
}
}  // namespace code
namespace dom {
bool Exchange(ARGS) { return Ok(VALS); }
bool NothingRecorded(Net net, N t) { return t > 0 && 2 * t < net->Size() && net->Id() < net->Size(); }
}  // namespace dom
namespace spec {
inline void Announce(Net net, N p, std::uint32_t n) {
  Bytes b(4);
  std::memcpy(b.data(), &n, 4);
  net->SendBytes(p, b);
}
inline N Announced(Net net, N p) {
  const Bytes b = net->RecvBytes(p, 4);
  std::uint32_t n;
  std::memcpy(&n, b.data(), 4);
  return n;
}
void Exchange(ARGS) {
  const N n = net->Size();
  M m(net->Id(), t, n);
  R r(n, t);
  const auto table = m.GetTableRec();
  for (N p = 0; p < n; ++p) {
    V values, digests;
    for (N x = 0; x < table.size(); ++x)
      if (table[x].value_or_hash == frn::VALUE)
        for (N y = 0; y < table[x].party_set.size(); ++y)
          if (table[x].party_set[y] == p)
            for (N u = 0; u < 2 * t + 1; ++u) values.push_back(CombinedMsg(cd, u, x));
    for (N x = 0; x < table.size(); ++x)
      if (table[x].value_or_hash == frn::HASH)
        for (N y = 0; y < table[x].party_set.size(); ++y)
          if (table[x].party_set[y] == p) digests.push_back(F::kZero);
    Announce(net, p, values.size());
    net->Send(p, values);
    Announce(net, p, digests.size());
    net->Send(p, digests);
  }
  for (N p = 0; p < n; ++p) {
    net->Recv(p, Announced(net, p));
    net->Recv(p, Announced(net, p));
  }
}
void NothingRecorded(Net net, N t) { Exchange(net, t, CheckData(t)); }
}  // namespace spec
