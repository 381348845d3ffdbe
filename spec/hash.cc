// C17: entry points of the hash.
#include "common.h"
#include "frn/lib/primitives/hash.h"
namespace pr = frn::lib::primitives;
template <typename H>
inline Bytes Out(H& h) { auto d = h.Finalize(); return Bytes(d.begin(), d.end()); }
#define API(S)                                                                                    \
  pr::Hash<pr::SHA3_##S> Make##S() { return pr::Hash<pr::SHA3_##S>(); }                            \
  void Put##S(pr::Hash<pr::SHA3_##S>& h, const unsigned char* p, std::size_t n) { h.Update(p, n); } \
  void PutVec##S(pr::Hash<pr::SHA3_##S>& h, const Bytes& v) { h.Update(v); }                        \
  void PutTwice##S(pr::Hash<pr::SHA3_##S>& h, const Bytes& v, const Bytes& u) { h.Update(v).Update(u.data(), u.size()); } \
  Bytes End##S(pr::Hash<pr::SHA3_##S>& h) { return Out(h); }
namespace code {
API(256)
API(384)
API(512)
}
