// C02: serialization of vectors and shares.
#include "shr.h"
namespace vs = frn::lib::math::vector;
using frn::Shr;
namespace code {
void WriteVector(Bytes& buf, N o, const V& v) { vs::ToBytes(buf.data() + o, v); }
V ReadVector(const Bytes& buf, N o, N k) { return vs::FromBytes<F>(buf.data() + o, k); }
void WriteShare(N n, N t, Bytes& buf, N o, const V& v) { R(n, t).ShareToBytes(v, buf.data() + o); }
V ReadShare(N n, N t, const Bytes& buf, N o) { return R(n, t).ShareFromBytes(buf.data() + o); }
void WriteShares(N n, N t, Bytes& buf, N o, const VV& vs) { R(n, t).SharesToBytes(vs, buf.data() + o); }
VV ReadShares(N n, N t, const Bytes& buf, N o, N k) { return R(n, t).SharesFromBytes(buf.data() + o, k); }
VV Back(N n, N t, const VV& vs) {
  const R r(n, t);
  Bytes b(r.ShareSizeBytes() * vs.size());
  r.SharesToBytes(vs, b.data());
  return r.SharesFromBytes(b.data(), vs.size());
}
V VectorBack(const V& v) {
  Bytes b(v.size() * F::ByteSize());
  vs::ToBytes(b.data(), v);
  return vs::FromBytes<F>(b.data(), v.size());
}
N ShareBytes(N n, N t) { return R(n, t).ShareSizeBytes(); }
}  // namespace code
namespace dom {
inline bool Good(N n, N t) { return t > 0 && t < n; }
bool WriteVector(Bytes& buf, N o, const V& v) { return o + 8 * v.size() <= buf.size(); }
bool ReadVector(const Bytes& buf, N o, N k) { return o + 8 * k <= buf.size(); }
bool WriteShare(N n, N t, Bytes& buf, N o, const V& v) { return Good(n, t) && v.size() == R(n, t).ShareSize() && o + 8 * v.size() <= buf.size(); }
bool ReadShare(N n, N t, const Bytes& buf, N o) { return Good(n, t) && o + 8 * R(n, t).ShareSize() <= buf.size(); }
bool WriteShares(N n, N t, Bytes& buf, N o, const VV& vs) {
  if (!Good(n, t)) return false;
  const N w = R(n, t).ShareSize();
  if (o + 8 * w * vs.size() > buf.size()) return false;
  for (N i = 0; i < vs.size(); ++i)
    if (vs[i].size() != w) return false;
  return true;
}
bool ReadShares(N n, N t, const Bytes& buf, N o, N k) { return Good(n, t) && o + 8 * R(n, t).ShareSize() * k <= buf.size(); }
bool Back(N n, N t, const VV& vs) {
  if (!Good(n, t)) return false;
  const N w = R(n, t).ShareSize();
  for (N i = 0; i < vs.size(); ++i)
    if (vs[i].size() != w) return false;
  return true;
}
bool ShareBytes(N n, N t) { return Good(n, t); }
}  // namespace dom
namespace spec {
inline F At(const Bytes& buf, N o) {
  Bytes b(8);
  for (N i = 0; i < 8; ++i) b[i] = buf[o + i];
  return F::FromBytes(b.data());
}
inline unsigned char ByteOf(const F& e, N j) {
  Bytes b(8);
  e.ToBytes(b.data());
  return b[j];
}
void WriteVector(Bytes& buf, N o, const V& v) {
  for (N i = 0; i < buf.size(); ++i)
    if (i >= o && i < o + 8 * v.size()) buf[i] = ByteOf(v[(i - o) / 8], (i - o) % 8);
}
V ReadVector(const Bytes& buf, N o, N k) {
  V r;
  for (N i = 0; i < k; ++i) r.push_back(At(buf, o + 8 * i));
  return r;
}
void WriteShare(N n, N t, Bytes& buf, N o, const V& v) { R r(n, t); WriteVector(buf, o, v); }
V ReadShare(N n, N t, const Bytes& buf, N o) { return ReadVector(buf, o, R(n, t).ShareSize()); }
void WriteShares(N n, N t, Bytes& buf, N o, const VV& vs) {
  const N w = R(n, t).ShareSize();
  for (N i = 0; i < buf.size(); ++i)
    if (i >= o && i < o + 8 * w * vs.size()) buf[i] = ByteOf(vs[(i - o) / (8 * w)][(i - o) / 8 % w], (i - o) % 8);
}
VV ReadShares(N n, N t, const Bytes& buf, N o, N k) {
  const N w = R(n, t).ShareSize();
  VV r;
  for (N i = 0; i < k; ++i) r.push_back(ReadVector(buf, o + 8 * w * i, w));
  return r;
}
VV Back(N n, N t, const VV& vs) { R r(n, t); return vs; }
V VectorBack(const V& v) { return v; }
N ShareBytes(N n, N t) { return 8 * R(n, t).ShareSize(); }
}  // namespace spec
