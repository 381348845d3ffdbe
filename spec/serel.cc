// C02: serialization of single elements, with the bodies of the element class.
#include "common.h"
using N = std::size_t;
namespace code {
Bytes Encode61(std::uint64_t v) { Bytes b(F::ByteSize()); F(v).ToBytes(b.data()); return b; }
Bytes Decode61(const Bytes& in, N o) { Bytes b(F::ByteSize()); F::FromBytes(in.data() + o).ToBytes(b.data()); return b; }
Bytes Encode127(__uint128_t v) { Bytes b(G::ByteSize()); G(v).ToBytes(b.data()); return b; }
Bytes Decode127(const Bytes& in, N o) { Bytes b(G::ByteSize()); G::FromBytes(in.data() + o).ToBytes(b.data()); return b; }
bool Same61(std::uint64_t v, const Bytes& in) { return F(v).Equal(F::FromBytes(in.data())); }
N Width61() { return F::ByteSize(); }
N Width127() { return G::ByteSize(); }
}  // namespace code
namespace dom {
bool Decode61(const Bytes& in, N o) { return o + 8 <= in.size(); }
bool Decode127(const Bytes& in, N o) { return o + 16 <= in.size(); }
bool Same61(std::uint64_t v, const Bytes& in) { return in.size() == 8; }
}  // namespace dom
namespace spec {
inline std::uint64_t Prime61() { return 0x1FFFFFFFFFFFFFFF; }
inline __uint128_t Prime127() { return ((__uint128_t)0x7FFFFFFFFFFFFFFF << 64) | 0xFFFFFFFFFFFFFFFF; }
Bytes Encode61(std::uint64_t v) { const std::uint64_t r = v % Prime61(); Bytes b(8); std::memcpy(b.data(), &r, 8); return b; }
Bytes Decode61(const Bytes& in, N o) { std::uint64_t r; std::memcpy(&r, in.data() + o, 8); return Encode61(r); }
Bytes Encode127(__uint128_t v) { const __uint128_t r = v % Prime127(); Bytes b(16); std::memcpy(b.data(), &r, 16); return b; }
Bytes Decode127(const Bytes& in, N o) { __uint128_t r; std::memcpy(&r, in.data() + o, 16); return Encode127(r); }
bool Same61(std::uint64_t v, const Bytes& in) { std::uint64_t r; std::memcpy(&r, in.data(), 8); return r % Prime61() == v % Prime61(); }
N Width61() { return 8; }
N Width127() { return 16; }
}  // namespace spec
