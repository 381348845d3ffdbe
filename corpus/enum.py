"""Edits of the enumeration of party subsets (C29)."""
R = 'lib/secret_sharing/rep.h'
ENTRIES = []


def q(name, ids, *ed):
    ENTRIES.append((name, ids, 'Q', [tuple(ed[i:i + 3]) for i in range(0, len(ed), 3)]))


def m(name, ids, *ed):
    ENTRIES.append((name, ids, 'V', [tuple(ed[i:i + 3]) for i in range(0, len(ed), 3)]))


NEXT = '''  for (int i = k - 1; i >= 0; --i) {
    if (c[i] < m - k + i) {
      c[i]++;
      for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
      return true;
    }
  }
  return false;'''
BIN = '''  for (std::size_t i = 1; i <= end; ++i) {
    top *= (m + 1 - i);
    bot *= i;
  }
  return top / bot;'''
q('e-next-while', 'C29,C06', R, NEXT, '''  int i = k - 1;
  while (i >= 0 && c[i] >= m - k + i) --i;
  if (i < 0) return false;
  ++c[i];
  for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
  return true;''')
q('e-next-offset', 'C29,C06', R, '''      c[i]++;
      for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;''', '''      const int base = c[i] + 1;
      for (int j = i; j < k; ++j) c[j] = base + (j - i);''')
q('e-next-up', 'C29', R, 'c[i] < m - k + i', 'm - c[i] > k - i')
q('e-binom-gradual', 'C29,C06', R, BIN, '''  for (std::size_t i = 1; i <= end; ++i) {
    top = top * (m + 1 - i) / i;
  }
  return top / bot;''')
q('e-binom-down', 'C29', R, 'for (std::size_t i = 1; i <= end; ++i) {\n    top *= (m + 1 - i);', 'for (std::size_t i = end; i > 0; --i) {\n    top *= (m + 1 - i);')
q('e-binom-two', 'C29', R, BIN, '''  for (std::size_t i = 0; i < end; ++i) top *= m - i;
  for (std::size_t i = 2; i <= end; ++i) bot *= i;
  return top / bot;''')
q('e-nth-for', 'C29,C06', R, '''  while (n-- > 0 && NextCombination(c, m, k))
    ;''', '''  for (int x = 0; x < n; ++x)
    if (!NextCombination(c, m, k)) return;''')
m('e-next-far', 'C29', R, 'c[j] = c[j - 1] + 1;', 'c[j] = c[j - 1] + (j > 9 ? 2 : 1);')
m('e-next-limit', 'C29', R, 'c[i] < m - k + i', 'c[i] < m - k + i - (i > 6)')
m('e-next-reset', 'C29', R, 'for (int j = i + 1; j < k; ++j)', 'for (int j = i + 1; j < k - (k > 7); ++j)')
m('e-next-stop', 'C29', R, 'for (int i = k - 1; i >= 0; --i)', 'for (int i = k - 1; i >= 0 && i + 6 > k; --i)')
m('e-binom-cap', 'C29', R, '++i) {\n    top *=', '++i) {\n    if (i > 6) break;\n    top *=')
m('e-binom-half', 'C29', R, 'k > m - k ? m - k : k', 'k > m - k ? m - k : m == 2 * k && m > 12 ? k - 1 : k')
m('e-first', 'C29', R, 'c[i] = i;', 'c[i] = i < 10 ? i : i + 1;')
m('e-nth-off', 'C29', R, 'while (n-- > 0 &&', 'if (n > 5) --n;\n  while (n-- > 0 &&')
m('e-table-last', 'C29', R, '    mCombinations[share_idx] = combination;', '    if (share_idx < 300) mCombinations[share_idx] = combination;')
m('e-init-order', 'C29', R, '''    mCombinations[share_idx] = combination;
''', '''    mCombinations[mAdditiveShareSize - 1 - share_idx] = combination;
''')
