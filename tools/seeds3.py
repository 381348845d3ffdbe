"""planted bugs, third batch"""
from mkseed import mk
F = 'src/frn/'; L = F + 'lib/'

mk('c29-narrow-product', 'C29', [(L + 'secret_sharing/rep.h', '''  std::size_t top = 1;
  std::size_t bot = 1;''', '''  std::uint32_t top = 1;
  std::uint32_t bot = 1;''')],
   'a choice whose numerator product exceeds 32 bits: 10 of 20', 'the number of subsets comes out wrong',
   r'''#include <cstdio>
#include "frn/lib/secret_sharing/rep.h"
using frn::lib::secret_sharing::Binom;
int main() {
  unsigned long row[41] = {1};
  for (int m = 1; m <= 26; m++) {
    for (int k = m; k > 0; k--) row[k] += row[k - 1];
    for (int k = 0; k <= m; k++) if (Binom(m, k) != row[k]) { std::printf("%d of %d\n", k, m); return 1; }
  }
  return 0;
}
''')
