// C12: the input protocol.
#include "shr.h"
#include "frn/input.h"
#include "frn/lib/secret_sharing/additive.h"
using frn::Input;
using frn::InputSetup;
using PP = std::vector<PRG>;
using Net = std::shared_ptr<frn::Network>;
using M = frn::ShrManipulator;
using Correlator = InputSetup::Correlator;
inline F Draw(PRG& g) {
  Bytes b(F::ByteSize());
  g.Next(b);
  return F::FromBytes(b.data());
}
// the generator whose seed is the encoding of e followed by zeros
inline PRG Key(const F& e) {
  Bytes b(PRG::SeedSize());
  e.ToBytes(b.data());
  return PRG(b.data());
}
#define SETUP Net net, N t, const PRG &g
#define PRE Net net, N t, const std::vector<PP>&held, const PP &own
inline bool Shape(PRE) {
  const N n = net->Size();
  if (t == 0 || t >= n || net->Id() >= n) return false;
  const R r(n, t);
  if (own.size() != r.AdditiveShareSize() || held.size() != n) return false;
  for (N i = 0; i < n; ++i)
    if (held[i].size() != r.ShareSize()) return false;
  return true;
}
inline bool Sizes(Net net, N t) { return t > 0 && t < net->Size() && net->Id() < net->Size(); }
#define BEGIN const N n = net->Size(); const R r(n, t); Input p(net, M(net->Id(), t, n), Correlator(held, own, r.ShareSize()))
namespace code {
F FirstMask(SETUP) { Correlator c = InputSetup(net, R(net->Size(), t), g).Run(); return c.GetMask(); }
F SecondMask(SETUP) { Correlator c = InputSetup(net, R(net->Size(), t), g).Run(); c.GetMask(); return c.GetMask(); }
V FirstMaskShare(SETUP, unsigned who) { Correlator c = InputSetup(net, R(net->Size(), t), g).Run(); return c.GetMaskShare(who); }
V SecondMaskShare(SETUP, unsigned who) { Correlator c = InputSetup(net, R(net->Size(), t), g).Run(); c.GetMaskShare(who); return c.GetMaskShare(who); }
F Random(PRG& g) { return frn::GetRandomElement(g); }
F FromKey(const F& e) { PRG g = frn::FieldElementToPrg(e); return frn::GetRandomElement(g); }
VV Own(PRE, const V& secrets) { BEGIN; p.Prepare(secrets); return p.Run()[net->Id()]; }
VV OtherBelow(PRE, const V& secrets, unsigned who, N k) { BEGIN; p.Prepare(secrets); p.PrepareToReceive(who, k); return p.Run()[who]; }
VV OtherAbove(PRE, const V& secrets, unsigned who, N k) { BEGIN; p.Prepare(secrets); p.PrepareToReceive(who, k); return p.Run()[who]; }
VV MixedBelow(PRE, const F& s1, const F& s2, unsigned who) {
  BEGIN;
  p.Prepare(s1);
  p.PrepareToReceive(who);
  p.Prepare(s2);
  p.PrepareToReceive(who);
  return p.Run()[who];
}
VV MixedAbove(PRE, const F& s1, const F& s2, unsigned who) {
  BEGIN;
  p.Prepare(s1);
  p.PrepareToReceive(who);
  p.Prepare(s2);
  p.PrepareToReceive(who);
  return p.Run()[net->Id()];
}
#define TWICE PRE, const V &s1, const V &s2, unsigned who, N j, N k
#define STEPS BEGIN; p.Prepare(s1); p.PrepareToReceive(who, j); p.Prepare(s2); p.PrepareToReceive(who, k)
VV TwiceOther(TWICE) { STEPS; return p.Run()[who]; }
VV TwiceOwn(TWICE) { STEPS; return p.Run()[net->Id()]; }
}  // namespace code
namespace dom {
bool FirstMask(SETUP) { return Sizes(net, t); }
bool SecondMask(SETUP) { return Sizes(net, t); }
bool FirstMaskShare(SETUP, unsigned who) { return Sizes(net, t) && who < net->Size(); }
bool SecondMaskShare(SETUP, unsigned who) { return Sizes(net, t) && who < net->Size(); }
bool Own(PRE, const V& secrets) { return Shape(net, t, held, own); }
bool OtherBelow(PRE, const V& secrets, unsigned who, N k) { return Shape(net, t, held, own) && who < net->Size() && who < net->Id(); }
bool OtherAbove(PRE, const V& secrets, unsigned who, N k) { return Shape(net, t, held, own) && who < net->Size() && who > net->Id(); }
bool MixedBelow(PRE, const F& s1, const F& s2, unsigned who) { return Shape(net, t, held, own) && who < net->Size() && who < net->Id(); }
bool MixedAbove(PRE, const F& s1, const F& s2, unsigned who) { return Shape(net, t, held, own) && who < net->Size() && who > net->Id(); }
bool TwiceOther(TWICE) { return Shape(net, t, held, own) && who < net->Size() && who != net->Id(); }
bool TwiceOwn(TWICE) { return Shape(net, t, held, own) && who < net->Size() && who != net->Id(); }
}  // namespace dom
namespace spec {
struct Dealt { V pieces; VV shares; };
// deal a random key: its pieces are the expansion of this party's generator
inline Dealt Deal(Net net, N t, PRG g) {
  const N n = net->Size();
  const R r(n, t);
  const F k = Draw(g);
  PRG again = g;
  Dealt d;
  d.pieces = frn::lib::secret_sharing::ShareAdditive(k, r.AdditiveShareSize(), again);
  VV out = r.Share(k, g);
  for (N i = 0; i < n; ++i) net->SendShares(i, VV(1, out[i]));
  for (N i = 0; i < n; ++i) d.shares.push_back(net->RecvShares(i, 1)[0]);
  return d;
}
F FirstMask(SETUP) {
  const Dealt d = Deal(net, t, g);
  F s = F::kZero;
  for (N i = 0; i < d.pieces.size(); ++i) { PRG h = Key(d.pieces[i]); s += Draw(h); }
  return s;
}
F SecondMask(SETUP) {
  const Dealt d = Deal(net, t, g);
  F s = F::kZero;
  for (N i = 0; i < d.pieces.size(); ++i) { PRG h = Key(d.pieces[i]); Draw(h); s += Draw(h); }
  return s;
}
V FirstMaskShare(SETUP, unsigned who) {
  const R r(net->Size(), t);
  const Dealt d = Deal(net, t, g);
  V s;
  for (N i = 0; i < r.ShareSize(); ++i) { PRG h = Key(d.shares[who][i]); s.push_back(Draw(h)); }
  return s;
}
V SecondMaskShare(SETUP, unsigned who) {
  const R r(net->Size(), t);
  const Dealt d = Deal(net, t, g);
  V s;
  for (N i = 0; i < r.ShareSize(); ++i) { PRG h = Key(d.shares[who][i]); Draw(h); s.push_back(Draw(h)); }
  return s;
}
F Random(PRG& g) { return Draw(g); }
F FromKey(const F& e) { PRG g = Key(e); return Draw(g); }
// the j-th mask of this party, and its share of the j-th mask of party i
inline F Mask(const PP& own, N j) {
  F s = F::kZero;
  for (N i = 0; i < own.size(); ++i) { PRG h = own[i]; for (N x = 0; x < j; ++x) Draw(h); s += Draw(h); }
  return s;
}
inline V MaskShare(const PP& held, N size, N j) {
  V s;
  for (N i = 0; i < size; ++i) { PRG h = held[i]; for (N x = 0; x < j; ++x) Draw(h); s.push_back(Draw(h)); }
  return s;
}
// counts[i] values are input by party i
inline std::vector<VV> Protocol(PRE, const V& secrets, const std::vector<N>& counts) {
  const N n = net->Size();
  const R r(n, t);
  M m(net->Id(), t, n);
  V masked;
  for (N j = 0; j < secrets.size(); ++j) masked.push_back(secrets[j] - Mask(own, j));
  if (secrets.size() > 0)
    for (N i = 0; i < n; ++i) net->Send(i, masked);
  std::vector<VV> out;
  for (N i = 0; i < n; ++i) {
    const V got = net->Recv(i, counts[i]);
    VV o;
    for (N j = 0; j < counts[i]; ++j) o.push_back(m.AddConstant(MaskShare(held[i], r.ShareSize(), j), got[j]));
    out.push_back(o);
  }
  return out;
}
VV Own(PRE, const V& secrets) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = secrets.size();
  return Protocol(net, t, held, own, secrets, c)[net->Id()];
}
VV OtherBelow(PRE, const V& secrets, unsigned who, N k) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = secrets.size();
  c[who] = k;
  return Protocol(net, t, held, own, secrets, c)[who];
}
VV OtherAbove(PRE, const V& secrets, unsigned who, N k) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = secrets.size();
  c[who] = k;
  return Protocol(net, t, held, own, secrets, c)[who];
}
VV MixedBelow(PRE, const F& s1, const F& s2, unsigned who) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = 2;
  c[who] = 2;
  return Protocol(net, t, held, own, V{s1, s2}, c)[who];
}
VV MixedAbove(PRE, const F& s1, const F& s2, unsigned who) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = 2;
  c[who] = 2;
  return Protocol(net, t, held, own, V{s1, s2}, c)[net->Id()];
}
inline std::vector<VV> Both(TWICE) {
  std::vector<N> c(net->Size(), 0);
  c[net->Id()] = s1.size() + s2.size();
  c[who] = j + k;
  V s = s1;
  for (N i = 0; i < s2.size(); ++i) s.push_back(s2[i]);
  return Protocol(net, t, held, own, s, c);
}
VV TwiceOther(TWICE) { return Both(net, t, held, own, s1, s2, who, j, k)[who]; }
VV TwiceOwn(TWICE) { return Both(net, t, held, own, s1, s2, who, j, k)[net->Id()]; }
}  // namespace spec
