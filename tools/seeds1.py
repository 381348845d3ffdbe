from mkseed import mk
L='src/frn/lib/'
PRE='''#include <cstdio>
#include <iostream>
#include <memory>
#include "frn/shr.h"
#include "frn/lib/secret_sharing/additive.h"
using frn::Field; using frn::Shr; using frn::lib::primitives::PRG;
using Rep = frn::lib::secret_sharing::Replicator<Field>;
namespace vec = frn::lib::math::vector;
using Mat = frn::lib::math::Matrix<Field>;
#define FAIL(...) do { std::printf(__VA_ARGS__); return 1; } while (0)
'''
mk('c26-late-length-check','C26',[(L+'math/vec.h','''  auto n = left.size();
  if (n != right.size())
    throw std::logic_error("subtraction of vectors with different sizes");

  auto lit = left.begin();
  auto rit = right.begin();

  while (n-- > 0) *(lit++) -= *(rit++);

  return left;''','''  auto n = left.size();

  auto lit = left.begin();
  auto rit = right.begin();

  while (n > 0 && rit != right.end()) {
    *(lit++) -= *(rit++);
    n--;
  }
  if (n > 0 || rit != right.end())
    throw std::logic_error("subtraction of vectors with different sizes");

  return left;''')],'operands of different length and a caller that looks at the left operand after the exception',
 'the left operand is partly overwritten before the mismatch is refused',PRE+'''
int main() {
  std::vector<Field> a{Field(5), Field(6), Field(7)}, b{Field(1), Field(2)};
  auto c = a;
  try { vec::SubtractInto(a, b); FAIL("not refused\\n"); } catch (const std::logic_error&) {}
  if (!(a == c)) FAIL("operand changed\\n");
  return 0;
}''')
mk('c26-dot-tail','C26',[(L+'math/vec.h','''  T result;

  while (n-- > 0) result += *(lit++) * *(rit++);

  return result;''','''  T result;

  // accumulate in two lanes
  T odd;
  for (; n > 2; n -= 2) {
    result += *(lit++) * *(rit++);
    odd += *(lit++) * *(rit++);
  }
  if (n > 0) result += *lit * *rit;

  return result + odd;''')],'inner product of vectors of even length','the last product is dropped for even lengths',PRE+'''
int main() {
  for (int n = 0; n < 8; n++) {
    std::vector<Field> a, b; Field s;
    for (int i = 0; i < n; i++) { a.emplace_back(i + 1); b.emplace_back(i + 7); s += Field(i + 1) * Field(i + 7); }
    if (vec::Dot(a, b) != s) FAIL("n=%d\\n", n);
  }
  return 0;
}''')
mk('c27-vandermonde-offset','C27',[(L+'math/mat.h','''alphas.emplace_back(base + T(i));''','''alphas.emplace_back(i ? alphas.back() + base : base);''')],
 'a Vandermonde matrix built from a base other than one','row i is for base*(i+1) and not for base+i',PRE+'''
int main() {
  auto m = frn::lib::math::create_vandermonde_matrix(Field(3), 4, 3);
  for (int i = 0; i < 4; i++) if (m(i, 1) != Field(3 + i) || m(i, 2) != Field((3 + i) * (3 + i))) FAIL("row %d\\n", i);
  return 0;
}''')
mk('c03-narrow-index','C03',[(L+'secret_sharing/rep.h','''    for (auto index : is) {
      share.emplace_back''','''    for (unsigned char index : is) {
      share.emplace_back''')],'more than 256 pieces (11 parties and threshold 4, or more)','parties get pieces of other positions: the index of a piece is truncated to a byte',PRE+'''
int main() {
  Rep r(11, 4); PRG prg;
  auto s = r.Share(Field(77), prg);
  if (r.Reconstruct(s) != Field(77)) FAIL("wrong secret\\n");
  return 0;
}''')
mk('c04-zero-secret','C04',[(L+'secret_sharing/additive.h','''  auto element_size = T::ByteSize();
  std::vector<T> shares(n);
''','''  auto element_size = T::ByteSize();
  std::vector<T> shares(n);
  if (secret == T(0)) return shares;
''')],'a secret equal to zero','the pieces of a zero secret are all zero and not random',PRE+'''
int main() {
  PRG prg;
  auto s = frn::lib::secret_sharing::ShareAdditive(Field(0), 5, prg);
  int z = 0; for (auto& v : s) z += v == Field(0);
  if (z > 1) FAIL("%d zero pieces\\n", z);
  return 0;
}''')
mk('c04-repeated-secret','C04',[(L+'secret_sharing/rep.h','''    const auto n = secrets.size();
    for (const auto &secret : secrets) {
      std::vector<ShareType> shares = Share(secret, prg);
''','''    const auto n = secrets.size();
    std::vector<ShareType> shares;
    const ValueType *last = nullptr;
    for (const auto &secret : secrets) {
      if (!last || *last != secret) shares = Share(secret, prg);
      last = &secret;
''')],'a list of secrets with the same secret twice in a row','the second sharing reuses the random pieces of the first',PRE+'''
int main() {
  Rep r(4, 1); PRG prg;
  auto s = r.Share(std::vector<Field>{Field(3), Field(3)}, prg);
  if (s[0][0] == s[0][1] || s[1][0] == s[1][1]) FAIL("pieces reused\\n");
  return 0;
}''')
mk('c05-last-copy','C05',[(L+'secret_sharing/rep.h','''      for (auto elt : redundant[i]){
	if (elt != comparison) throw std::runtime_error("Inconsistent shares");
      }''','''      for (std::size_t j = 1; j < mThreshold + 1; ++j) {
        if (redundant[i][j] != comparison)
          throw std::runtime_error("Inconsistent shares");
      }''')],'a disagreement only in a copy beyond the first t+1 holders of a piece','some copies are not compared',PRE+'''
int main() {
  Rep r(5, 1); PRG prg;
  for (int p = 0; p < 5; p++) for (std::size_t k = 0; k < r.ShareSize(); k++) {
    auto s = r.Share(Field(9), prg); s[p][k] += Field(1);
    try { r.ErrorDetection(s); FAIL("party %d piece %d accepted\\n", p, (int)k); } catch (const std::runtime_error&) {}
  }
  return 0;
}''')
mk('c06-difference-size','C06',[(L+'secret_sharing/rep.h','''  mDifferenceSize = d;''','''  mDifferenceSize = std::min(d, mShareSize / 2);''')],'a threshold above half of the number of parties','the number of differing elements is too small',PRE+'''
#include <set>
int main() {
  for (int n = 2; n < 8; n++) for (int t = 1; t < n; t++) {
    Rep r(n, t); auto a = r.IndexSetFor(0), b = r.IndexSetFor(1);
    std::set<int> sb(b.begin(), b.end()); std::size_t d = 0; for (int x : a) d += !sb.count(x);
    if (r.DifferenceSize() != d) FAIL("n=%d t=%d\\n", n, t);
  }
  return 0;
}''')
mk('c07-scale-by-zero','C07',[('src/frn/shr.cc','''  Shr r;
  r.reserve(a.size());
  for (const auto& s : a) r.emplace_back(c * s);
  return r;''','''  if (c == Field(0)) return a;
  Shr r;
  r.reserve(a.size());
  for (const auto& s : a) r.emplace_back(c * s);
  return r;''')],'the public constant zero','a share times zero stays the share',PRE+'''
int main() {
  frn::ShrManipulator m(0, 1, 4);
  Shr a(m.ShareSize(), Field(5));
  for (auto& v : m.MultiplyConstant(a, Field(0))) if (v != Field(0)) FAIL("not zero\\n");
  return 0;
}''')
mk('c08-small-n','C08',[('src/frn/shr.cc',"""      intersection.resize(mParties - 2 * mThreshold);

      // Get the index of this set with the replicator of double degree
      int target_set""","""      intersection.resize(std::max(mParties - 2 * mThreshold, mThreshold));

      // Get the index of this set with the replicator of double degree
      int target_set""")],'fewer than 3t parties','the products are looked up under subsets of the wrong size',PRE+'''
int main() {
  for (int n = 4; n < 8; n++) for (std::size_t t = 1; 2 * (int)t < n; t++) {
    Rep r(n, t); PRG prg; Field s;
    auto x = r.Share(Field(6), prg), y = r.Share(Field(7), prg);
    for (int i = 0; i < n; i++) {
      try { frn::ShrManipulator m(i, t, n); s += m.MultiplyToAdditive(x[i], y[i]); } catch (const std::exception&) { FAIL("n=%d throws\\n", n); }
    }
    if (s != Field(42)) FAIL("n=%d\\n", n);
  }
  return 0;
}''')
mk('c09-party-range','C09',[('src/frn/shr.cc','(unsigned)party_id < mParties; party_id++','(unsigned)party_id < 3 * mThreshold + 1; party_id++')],
 'a number of parties other than 3t+1','the last parties never get the pieces they lack',PRE+'''
int main() {
  for (int n = 4; n < 8; n++) {
    std::size_t t = (n - 1) / 3; frn::ShrManipulator m(0, t, n); auto d = m.GetDoubleReplicator();
    auto tab = m.GetTableRec(); auto is = d.IndexSetFor(0);
    for (std::size_t k = 0; k < tab.size(); k++) if (tab[k].party_set.size() != 2 * t) FAIL("n=%d entry %d\\n", n, (int)k);
  }
  return 0;
}''')
