// C14: what one party sends to another is what the other expects from it.
#include "shr.h"
#include "frn/check.h"
#include "frn/input.h"
#include "frn/mult.h"
using frn::Check;
using frn::CheckData;
using frn::Correlator;
using frn::Input;
using frn::InputSetup;
using frn::Mult;
using PP = std::vector<PRG>;
using Net = std::shared_ptr<frn::Network>;
using M = frn::ShrManipulator;
using Ns = std::vector<N>;
// kind and length of every message sent to / awaited from a party so far; how many had been received when each was sent
Ns verif_sent(Net net, N peer);
Ns verif_received(Net net, N peer);
Ns verif_before(Net net, N peer);

inline bool Two(Net p, Net q, N t) { return p->Size() == q->Size() && p->Id() < p->Size() && q->Id() < p->Size() && t > 0 && 2 * t < p->Size(); }

// k products at the party of net
inline void Products(Net net, N t, N k) {
  const N n = net->Size();
  const R r(n, t);
  const M m(net->Id(), t, n);
  CheckData cd(t);
  Mult p(net, r, m, Correlator(net->Id(), r), cd);
  const V x(r.ShareSize());
  for (N i = 0; i < k; ++i) p.Prepare(x, x);
  p.Run();
}
inline void Setup(Net net, N t) { PRG g; InputSetup(net, R(net->Size(), t), g).Run(); }
// this party inputs k values, everyone else other[i]
inline void Inputs(Net net, N t, const Ns& count) {
  const N n = net->Size();
  const R r(n, t);
  Input p(net, M(net->Id(), t, n), InputSetup::Correlator(std::vector<PP>(n, PP(r.ShareSize())), PP(r.AdditiveShareSize()), r.ShareSize()));
  for (N i = 0; i < n; ++i)
    if (i == net->Id()) p.Prepare(V(count[i]));
    else p.PrepareToReceive(i, count[i]);
  p.Run();
}
inline void Checked(Net net, N t) {
  const R r(net->Size(), t);
  const M m(net->Id(), t, net->Size());
  CheckData rec(t);
  Check p(net, r, m, rec);
  p.ComputeRandomCoefficients();
  p.PrepareLinearCombinations();
  p.PrepareMsgs();
  p.ReconstructMsgs();
}
inline Ns Kinds(const Ns& a) {
  Ns r;
  for (N i = 0; i < a.size(); ++i) r.push_back(a[i] >> 40);
  return r;
}
// a message of no elements is no message
inline Ns NonEmpty(const Ns& a) {
  Ns r;
  for (N i = 0; i < a.size(); ++i)
    if ((a[i] & 0xffffffffffULL) != 0) r.push_back(a[i]);
  return r;
}
#define WHO Net p, Net q, N t
namespace code {
Ns MultMatch(WHO, N k) { Products(p, t, k); return verif_sent(p, q->Id()); }
Ns MultOrder(WHO, N k) { Products(p, t, k); return verif_before(p, q->Id()); }
Ns SetupMatch(WHO) { Setup(p, t); return verif_sent(p, q->Id()); }
Ns SetupOrder(WHO) { Setup(p, t); return verif_before(p, q->Id()); }
Ns InputMatch(WHO, const Ns& count) { Inputs(p, t, count); return NonEmpty(verif_sent(p, q->Id())); }
Ns InputOrder(WHO, const Ns& count) { Inputs(p, t, count); return verif_before(p, q->Id()); }
Ns CheckMatch(WHO) { Checked(p, t); return Kinds(verif_sent(p, q->Id())); }
Ns CheckOrder(WHO) { Checked(p, t); return verif_before(p, q->Id()); }
}  // namespace code
namespace dom {
bool MultMatch(WHO, N k) { return Two(p, q, t); }
bool MultOrder(WHO, N k) { return Two(p, q, t); }
bool SetupMatch(WHO) { return Two(p, q, t); }
bool SetupOrder(WHO) { return Two(p, q, t); }
bool InputMatch(WHO, const Ns& count) { return Two(p, q, t) && count.size() == p->Size(); }
bool InputOrder(WHO, const Ns& count) { return Two(p, q, t) && count.size() == p->Size(); }
bool CheckMatch(WHO) { return Two(p, q, t); }
bool CheckOrder(WHO) { return Two(p, q, t); }
}  // namespace dom
namespace spec {
Ns MultMatch(WHO, N k) { Products(q, t, k); return verif_received(q, p->Id()); }
// products are sent before anything is awaited; the first party opens them when it has one message of every contributor
Ns MultOrder(WHO, N k) {
  M m(p->Id(), t, p->Size());
  Ns r;
  if (p->Id() < 2 * t + 1 && q->Id() == 0) r.push_back(0);
  if (p->Id() == 0 && q->Id() < p->Size() - t) r.push_back(2 * t + 1);
  return r;
}
Ns SetupMatch(WHO) { Setup(q, t); return verif_received(q, p->Id()); }
Ns SetupOrder(WHO) { R r(p->Size(), t); return Ns(1, 0); }
Ns InputMatch(WHO, const Ns& count) { Inputs(q, t, count); return NonEmpty(verif_received(q, p->Id())); }
Ns InputOrder(WHO, const Ns& count) { M m(p->Id(), t, p->Size()); return Ns(count[p->Id()] > 0 ? 1 : 0, 0); }
Ns CheckMatch(WHO) { Checked(q, t); return Kinds(verif_received(q, p->Id())); }
Ns CheckOrder(WHO) { M m(p->Id(), t, p->Size()); return Ns(4, 0); }
}  // namespace spec
