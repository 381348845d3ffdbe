// C16: entry points of the generator.
#include "common.h"
#include "frn/lib/primitives/prg.h"
using P = frn::lib::primitives::PRG;
namespace code {
P Make(const unsigned char* seed) { return P(seed); }
P Default() { return P(); }
void Draw(P& g, unsigned char* dest, std::size_t n) { g.Next(dest, n); }
void DrawAll(P& g, Bytes& dest) { g.Next(dest); }
void DrawVec(P& g, Bytes& dest, std::size_t n) { g.Next(dest, n); }
void Reset(P& g) { g.Reset(); }
long Counter(const P& g) { return g.Counter(); }
const unsigned char* Seed(const P& g) { return g.Seed(); }
std::size_t Block() { return P::BlockSize(); }
std::size_t SeedSize() { return P::SeedSize(); }
}
