R, A, S, CO, V = 'lib/secret_sharing/rep.h', 'lib/secret_sharing/additive.h', 'shr.cc', 'corr.cc', 'lib/math/vec.h'
def m(name, ids, f, old, new, *more): return (name, ids, 'V', [(f, old, new)] + list(more))
def q(name, ids, f, old, new, *more): return (name, ids, 'Q', [(f, old, new)] + list(more))
ALL = 'C03,C05,C06,C07,C08,C09,C10'
LOOKUP = '''    for (auto party_idx : combination)
      mLookup[party_idx].emplace_back(share_idx);
    share_idx++;'''
INTER = '''  while (first1 != last1 && first2 != last2) {
    if (*first1 < *first2) {
      ++first1;
      ++i;
    } else {
      if (!(*first2 < *first1)) {
        cb(i);
      }
      ++first2;
    }
  }'''
DIFF = '''  while (first1 != last1) {
    if (first2 == last2) {
      while (first1 != last1) {
        cb(i++);
        ++first1;
      }
      return;
    }

    if (*first1 < *first2) {
      cb(i++);
      ++first1;
    } else {
      if (!(*first2 < *first1)) {
        ++first1;
        ++i;
      }
      ++first2;
    }
  }'''
REDUND = '''  for (std::size_t party_idx = 0; party_idx < mSize; ++party_idx) {
    for (std::size_t j = 0; j < mShareSize; ++j) {
      std::size_t shr_idx = mLookup[party_idx][j];
      redundant[shr_idx].emplace_back(shares[party_idx][j]);
    }
  }'''
RECSUM = '''    for (std::size_t i = 0; i < mAdditiveShareSize; ++i) {
      secret += redundant[i][0];
    }'''
DETECT = '''      comparison = redundant[i][0];
      for (auto elt : redundant[i]){
	if (elt != comparison) throw std::runtime_error("Inconsistent shares");
      }
      secret += comparison;'''
SHARES = '''    auto is = IndexSetFor(i);
    for (auto index : is) {
      share.emplace_back(additive_shares[index]);
    }
    shares.emplace_back(share);'''
MSHARE = '''    bool first = true;
    const auto n = secrets.size();
    for (const auto &secret : secrets) {
      std::vector<ShareType> shares = Share(secret, prg);
      std::size_t id = 0;
      for (const auto &share : shares) {
        if (first) all_shares[id].reserve(n);
        all_shares[id++].emplace_back(share);
      }
      first = false;
    }'''
ADDSH = '''  for (std::size_t i = 0; i < n - 1; ++i) {
    const auto share = T::FromBytes(buf.data() + (i * element_size));
    shares[i] = share;
  }

  shares[n - 1] = secret - math::vector::Sum(shares);'''
INTERSECT = '''      frn::lib::secret_sharing::Intersection(SetA, SetB,
                                        [&intersection, SetA](unsigned i) {
                                          intersection.emplace_back(SetA[i]);
                                        });'''
FINDIDX = '''      auto it = find(index_set.begin(), index_set.end(), target_set);
      int idx = -1;
      if (it != index_set.end()) {
        // calculating the desired index
        idx = it - index_set.begin();
        if (idx != -1)
          mTableMult.emplace_back(
              MultEntry{a, b, (unsigned)idx, (unsigned)intersection[0]});
      }'''
PSET = '''    for (int party_id = 0; (unsigned)party_id < mParties; party_id++) {
      auto it = find(Set.begin(), Set.end(), party_id);
      // If party_id is NOT in Set
      if (it == Set.end()) {
	entry.party_set.emplace_back(party_id);
      } 
    }'''
RAND = '''    for (unsigned idx_in_U = 0; idx_in_U < 2*mThreshold+1; idx_in_U++) {
      mRandPRGs[idx_in_U][shr_idx].Next(buf);
      output.rep_add_shares[idx_in_U].emplace_back(Field::FromBytes(buf.data()));
      output.rep_share[shr_idx] += output.rep_add_shares[idx_in_U][shr_idx];
    }'''
ENTRIES = [
    # --- rep.h refactorings
    q('r-lookup-index', ALL, R, LOOKUP, '''    for (std::size_t c = 0; c < combination.size(); c++) {
      const int party = combination[c];
      mLookup[party].push_back(share_idx);
    }
    ++share_idx;'''),
    q('r-init-for', ALL, R, '''  do {
    // Fill in mCombinations''', '''  for (bool more = true; more; more = NextCombination<IndexSet>(combination, m, k)) {
    // Fill in mCombinations''', (R, '  } while (NextCombination<IndexSet>(combination, m, k));', '  }')),
    q('r-init-counted', ALL, R, '''  do {
    // Fill in mCombinations''', '''  for (std::size_t c = 0; c < mAdditiveShareSize; c++) {
    // Fill in mCombinations''', (R, '  } while (NextCombination<IndexSet>(combination, m, k));', '    NextCombination<IndexSet>(combination, m, k);\n  }')),
    q('r-init-nth', ALL, R, '    mCombinations[share_idx] = combination;', '    NthCombination<IndexSet>(mCombinations[share_idx] = combination, share_idx, m);'),
    q('r-revmap', ALL, R, 'mRevComb.insert(std::pair<std::vector<int>, int>(combination, share_idx));', 'mRevComb[combination] = share_idx;'),
    q('r-revmap-emplace', ALL, R, 'mRevComb.insert(std::pair<std::vector<int>, int>(combination, share_idx));', 'mRevComb.emplace(combination, share_idx);'),
    q('r-combinations-push', ALL, R, '  mCombinations.resize(mAdditiveShareSize);', '  mCombinations.reserve(mAdditiveShareSize);', (R, 'mCombinations[share_idx] = combination;', 'mCombinations.push_back(combination);')),
    q('r-intersection-std', ALL, R, INTER, '''  for (; first1 != last1; ++first1, ++i) {
    for (auto it = first2; it != last2; ++it) if (*it == *first1) { cb(i); break; }
  }'''),
    q('r-intersection-eq', ALL, R, INTER, '''  while (first1 != last1 && first2 != last2) {
    if (*first1 == *first2) {
      cb(i++);
      ++first1;
      ++first2;
    } else if (*first1 < *first2) {
      ++first1;
      ++i;
    } else {
      ++first2;
    }
  }'''),
    q('r-difference-simple', ALL, R, DIFF, '''  for (; first1 != last1; ++first1, ++i) {
    while (first2 != last2 && *first2 < *first1) ++first2;
    if (first2 == last2 || *first1 < *first2) cb(i);
  }'''),
    q('r-differencesize-count', ALL, R, '''  std::size_t d = 0;
  Difference(mLookup[0], mLookup[1], [&d](int idx) {
    (void)idx;
    d++;
  });
  mDifferenceSize = d;''', '''  mDifferenceSize = 0;
  Difference(mLookup[0], mLookup[1], [this](int) { ++mDifferenceSize; });'''),
    q('r-redundant-rows', ALL, R, REDUND, '''  for (std::size_t i = 0; i < shares.size() && i < mSize; ++i) {
    const auto &ids = mLookup[i];
    for (std::size_t j = 0; j < ids.size(); ++j) redundant[ids[j]].push_back(shares[i][j]);
  }'''),
    q('r-redundant-down', ALL, R, 'for (std::size_t j = 0; j < mShareSize; ++j) {\n      std::size_t shr_idx', 'for (std::size_t j = mShareSize; j-- > 0;) {\n      std::size_t shr_idx'),
    q('r-reconstruct-range', ALL, R, RECSUM, '    for (const auto &copies : redundant) secret += copies.front();'),
    q('r-reconstruct-back', ALL, R, 'secret += redundant[i][0];', 'secret += redundant[i].back();'),
    q('r-reconstruct-sum', ALL, R, RECSUM, '''    for (std::size_t i = 0; i < mAdditiveShareSize; ++i) additive_shares.emplace_back(redundant[i][0]);
    secret = frn::lib::math::vector::Sum(additive_shares);'''),
    q('r-detect-adjacent', ALL, R, DETECT, '''      for (std::size_t j = 1; j < redundant[i].size(); ++j) {
        if (redundant[i][j - 1] != redundant[i][j]) throw std::runtime_error("Inconsistent shares");
      }
      secret += redundant[i][0];''', (R, '    ValueType comparison;\n', '')),
    q('r-detect-equal', ALL, R, 'if (elt != comparison) throw', 'if (!(elt == comparison)) throw'),
    q('r-detect-first', ALL, R, DETECT, '''      bool ok = true;
      comparison = redundant[i][0];
      for (const auto &elt : redundant[i]) ok = ok && elt == comparison;
      if (!ok) throw std::runtime_error("Inconsistent shares");
      secret += comparison;'''),
    q('r-detect-two-passes', ALL, R, DETECT, '''      comparison = redundant[i][0];
      for (auto elt : redundant[i]){
	if (elt != comparison) throw std::runtime_error("Inconsistent shares");
      }
    }
    for (std::size_t i = 0; i < mAdditiveShareSize; ++i) {
      secret += redundant[i][0];'''),
    q('r-detect-reconstruct', ALL, R, '      secret += comparison;\n    }\n    return secret;', '    }\n    return Reconstruct(shares);'),
    q('r-share-index', 'C03,C04', R, SHARES, '''    for (std::size_t j = 0; j < mShareSize; ++j) share.emplace_back(additive_shares[mLookup[i][j]]);
    shares.emplace_back(std::move(share));'''),
    q('r-share-presized', 'C03,C04', R, SHARES, '''    share.resize(mShareSize);
    for (std::size_t j = 0; j < mShareSize; ++j) share[j] = additive_shares[mLookup[i][j]];
    shares.push_back(share);'''),
    q('r-mshare-simple', 'C03,C04', R, MSHARE, '''    for (auto &s : all_shares) s.reserve(secrets.size());
    for (std::size_t k = 0; k < secrets.size(); ++k) {
      auto shares = Share(secrets[k], prg);
      for (std::size_t id = 0; id < mSize; ++id) all_shares[id].emplace_back(shares[id]);
    }'''),
    q('r-bytes-loop', 'C02', R, '''    while (amount-- > 0) {
      shares.emplace_back(ShareFromBytes(buffer + offset));
      offset += ShareSizeBytes();
    }''', '''    for (std::size_t k = 0; k < amount; k++, offset += ShareSizeBytes()) shares.push_back(ShareFromBytes(&buffer[offset]));'''),
    q('r-bytes-mult', 'C02', R, '''    for (const auto &share : shares) {
      ShareToBytes(share, buffer + offset);
      offset += ShareSizeBytes();
    }''', '''    (void)offset;
    for (std::size_t k = 0; k < shares.size(); k++) ShareToBytes(shares[k], buffer + k * ShareSizeBytes());'''),
    q('r-tobytes-each', 'C02', V, 'std::memcpy(buffer, vector.data(), vector.size() * T::ByteSize());', 'for (const auto &v : vector) {\n    v.ToBytes(buffer);\n    buffer += T::ByteSize();\n  }'),
    q('r-frombytes-step', 'C02', V, '''  for (std::size_t i = 0; i < size; i++)
    items.push_back(T::FromBytes(buffer + i * T::ByteSize()));''', '''  while (size-- > 0) {
    items.push_back(T::FromBytes(buffer));
    buffer += T::ByteSize();
  }'''),
    q('r-combination-at', ALL, R, 'return mCombinations[idx];', 'return mCombinations.at(idx);'),
    q('r-revcomb-find', ALL, R, 'return mRevComb.at(combination);', 'auto it = mRevComb.find(combination);\n    if (it == mRevComb.end()) throw std::out_of_range("no such combination");\n    return it->second;'),
    q('r-binom', ALL, R, '''  for (std::size_t i = 1; i <= end; ++i) {
    top *= (m + 1 - i);
    bot *= i;
  }
  return top / bot;''', '''  for (std::size_t i = 1; i <= end; ++i) top = top * (m + 1 - i) / i;
  (void)bot;
  return top;'''),
    q('r-nextcomb', ALL, R, '''  for (int i = k - 1; i >= 0; --i) {
    if (c[i] < m - k + i) {
      c[i]++;
      for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
      return true;
    }
  }
  return false;''', '''  int i = k - 1;
  while (i >= 0 && c[i] >= m - k + i) --i;
  if (i < 0) return false;
  int next = ++c[i];
  while (++i < k) c[i] = ++next;
  return true;'''),
    # additive.h
    q('a-accumulate', 'C03,C04', A, ADDSH, '''  T last = secret;
  for (std::size_t i = 0; i + 1 < n; ++i) {
    shares[i] = T::FromBytes(&buf[i * element_size]);
    last -= shares[i];
  }
  shares[n - 1] = last;'''),
    q('a-pointer', 'C03,C04', A, ADDSH, '''  const unsigned char *p = buf.data();
  T sum;
  for (std::size_t i = 1; i < n; ++i, p += element_size) {
    shares[i - 1] = T::FromBytes(p);
    sum += shares[i - 1];
  }
  shares.back() = secret - sum;'''),
    q('a-first-corrects', 'C03', A, ADDSH, '''  for (std::size_t i = 1; i < n; ++i) shares[i] = T::FromBytes(buf.data() + (i * element_size));
  shares[0] = secret - math::vector::Sum(shares);'''),
    q('a-each-next', 'C03', A, ADDSH, '''  for (std::size_t i = 0; i < n - 1; ++i) {
    unsigned char one[sizeof(typename T::ValueType)];
    prg.Next(one, element_size);
    shares[i] = T::FromBytes(one);
  }
  shares[n - 1] = secret - math::vector::Sum(shares);''', (A, '  prg.Next(buf);\n', '')),
    # --- rep.h mutants
    m('m-lookup-skip', 'C03', R, 'mLookup[party_idx].emplace_back(share_idx);', 'if (share_idx < 200) mLookup[party_idx].emplace_back(share_idx); else mLookup[party_idx].emplace_back(0);'),
    m('m-revmap-off', 'C08', R, '(combination, share_idx)', '(combination, share_idx ? share_idx - 1 : 0)'),
    m('m-redundant-swap', 'C03', R, 'std::size_t shr_idx = mLookup[party_idx][j];', 'std::size_t shr_idx = mLookup[party_idx][mShareSize - 1 - j];'),
    m('m-detect-short', 'C05', R, DETECT, '''      comparison = redundant[i][0];
      for (std::size_t j = 0; j + 1 < redundant[i].size(); ++j) {
        if (redundant[i][j] != comparison) throw std::runtime_error("Inconsistent shares");
      }
      secret += comparison;'''),
    m('m-detect-pairs', 'C05', R, DETECT, '''      comparison = redundant[i][0];
      for (std::size_t j = 0; j + 1 < redundant[i].size(); j += 2) {
        if (redundant[i][j] != redundant[i][j + 1]) throw std::runtime_error("Inconsistent shares");
      }
      secret += comparison;'''),
    m('m-detect-sum', 'C05', R, DETECT, '''      comparison = ValueType(0);
      for (auto elt : redundant[i]) comparison += elt - redundant[i][0];
      if (comparison != ValueType(0)) throw std::runtime_error("Inconsistent shares");
      secret += redundant[i][0];'''),
    m('m-detect-notall', 'C05', R, 'for (auto elt : redundant[i]){', 'if (i + 1 < mAdditiveShareSize) for (auto elt : redundant[i]){'),
    m('m-mshare-order', 'C03', R, 'all_shares[id++].emplace_back(share);', 'all_shares[id].insert(all_shares[id].begin(), share); ++id;'),
    m('m-mshare-reserve', 'C03', R, 'if (first) all_shares[id].reserve(n);', 'if (first) all_shares[id].resize(n > 20 ? n : 0);'),
    m('m-sum-early', 'C04', A, 'for (std::size_t i = 0; i < n - 1; ++i) {', 'for (std::size_t i = 0; i < n - 1 && i < 100; ++i) {'),
    m('m-diff-01', 'C06', R, 'Difference(mLookup[0], mLookup[1]', 'Difference(mLookup[1], mLookup[1]'),
    m('m-intersect-skip', 'C06', R, '      ++first2;\n    }\n  }\n}', '      ++first2;\n      if (first2 != last2 && *first1 == 11) ++first2;\n    }\n  }\n}'),
    # --- shr.cc refactorings
    q('s-add-resize', 'C07', S, '''  Shr r;
  r.reserve(a.size());
  for (std::size_t i = 0; i < a.size(); i++) {
    r.emplace_back(a[i] + b[i]);
  }
  return r;''', '''  Shr r(a);
  for (std::size_t i = 0; i < r.size(); i++) r[i] += b[i];
  return r;'''),
    q('s-add-vec', 'C07', S, '''  Shr r;
  r.reserve(a.size());
  for (std::size_t i = 0; i < a.size(); i++) {
    r.emplace_back(a[i] + b[i]);
  }
  return r;''', '''  return frn::lib::math::vector::Add(a, b);'''),
    q('s-subconst', 'C07', S, '''  Shr r;
  r.reserve(a.size());
  for (const auto& s : a) r.emplace_back(-s);
  if (mIndexForConstantOps == -1) return r;
  r[mIndexForConstantOps] += c;
  return r;''', '''  Shr r = SubtractConstant(a, c);
  for (auto& s : r) s.Negate();
  return r;'''),
    q('s-addconst-neg', 'C07', S, '''  Shr r;
  r = a;
  r[mIndexForConstantOps] -= c;
  return r;''', '''  return AddConstant(a, -c);'''),
    q('s-mulconst', 'C07', S, '''  Shr r;
  r.reserve(a.size());
  for (const auto& s : a) r.emplace_back(c * s);
  return r;''', '''  return frn::lib::math::vector::Scale(a, c);'''),
    q('s-index-id', ALL, S, '''  auto it = find(set.begin(), set.end(), INDEX_SHARE_FOR_CNST);
  int idx = -1;
  // If element was found
  if (it != set.end()) {
    // calculating the desired index
    idx = it - set.begin();
  }
  return idx;''', '''  return set[0] == INDEX_SHARE_FOR_CNST ? 0 : -1;'''),
    q('s-index-loop', ALL, S, '''  auto it = find(set.begin(), set.end(), INDEX_SHARE_FOR_CNST);
  int idx = -1;
  // If element was found
  if (it != set.end()) {
    // calculating the desired index
    idx = it - set.begin();
  }
  return idx;''', '''  for (std::size_t i = 0; i < set.size(); i++)
    if (set[i] == INDEX_SHARE_FOR_CNST) return (int)i;
  return -1;'''),
    q('s-mul-first', 'C08', S, '    if (mPartyId == tuple.first_party) c += a[i] * b[j];', '    if (mPartyId != tuple.first_party) continue;\n    c += a[i] * b[j];'),
    q('s-table-hoist', ALL, S, '''      int a_ = mReplicator.IndexSetFor(mPartyId)[a];
      int b_ = mReplicator.IndexSetFor(mPartyId)[b];

      // We fetch the corresponding input sets
      std::vector<int> SetA = mReplicator.Combination(a_);
      std::vector<int> SetB = mReplicator.Combination(b_);
''', '''      const auto mine = mReplicator.IndexSetFor(mPartyId);
      const std::vector<int> SetA = mReplicator.Combination(mine[a]), SetB = mReplicator.Combination(mine[b]);
'''),
    q('s-table-setint', ALL, S, INTERSECT, '''      for (int p : SetA) {
        if (find(SetB.begin(), SetB.end(), p) != SetB.end()) intersection.push_back(p);
      }'''),
    q('s-table-helper', ALL, S, FINDIDX, '''      (void)index_set;
      int idx = ComputeIndexForDoubleMultiplication(a, b);
      if (idx >= 0) {
        MultEntry entry;
        entry.src_a = a;
        entry.src_b = b;
        entry.dest_c = idx;
        entry.first_party = intersection.front();
        mTableMult.push_back(entry);
      }''', (S, '      int target_set = mDoubleReplicator.RevComb(intersection);\n', '')),
    q('s-table-erase', ALL, S, 'intersection.resize(mParties - 2 * mThreshold);', 'intersection.erase(intersection.begin() + (mParties - 2 * mThreshold), intersection.end());'),
    q('s-table-dist', ALL, S, '        idx = it - index_set.begin();\n        if (idx != -1)', '        idx = std::distance(index_set.begin(), it);'),
    q('s-table-swap', ALL, S, '''  for (unsigned a = 0; a < mReplicator.ShareSize(); ++a) {
    for (unsigned b = 0; b < mReplicator.ShareSize(); ++b) {''', '''  for (unsigned b = 0; b < mReplicator.ShareSize(); ++b) {
    for (unsigned a = 0; a < mReplicator.ShareSize(); ++a) {'''),
    q('s-rec-diff', 'C09,C13,C14', S, PSET, '''    std::vector<bool> in(mParties, false);
    for (int p : Set) in[p] = true;
    for (unsigned p = 0; p < mParties; p++) if (!in[p]) entry.party_set.push_back(p);'''),
    q('s-rec-count', 'C09,C13,C14', S, PSET, '''    for (unsigned p = 0; p < mParties; p++) {
      bool found = false;
      for (int q : Set) found = found || (unsigned)q == p;
      if (!found) entry.party_set.push_back(p);
    }'''),
    q('s-rec-merge', 'C09,C13,C14', S, PSET, '''    std::size_t k = 0;
    for (int p = 0; p < (int)mParties; p++) {
      if (k < Set.size() && Set[k] == p) ++k;
      else entry.party_set.emplace_back(p);
    }'''),
    q('s-rec-ternary', 'C09,C13,C14', S, '''    if (mPartyId == (unsigned)Set[0]) {
      entry.value_or_hash = VALUE;
    } else {
      entry.value_or_hash = HASH;
    }''', '''    entry.value_or_hash = (unsigned)Set.front() != mPartyId ? HASH : VALUE;'''),
    # --- shr.cc mutants
    m('m-add-short', 'C07', S, 'r.emplace_back(a[i] + b[i]);', 'r.emplace_back(i < 120 ? a[i] + b[i] : a[i]);'),
    m('m-const-other', 'C07', S, '  r[mIndexForConstantOps] -= c;', '  r[r.size() > 60 ? 1 : mIndexForConstantOps] -= c;'),
    m('m-table-last', 'C08', S, '(unsigned)intersection[0]}', '(unsigned)intersection.back()}'),
    m('m-table-upper', 'C08', S, '        if (idx != -1)\n', '        if (a <= b || idx % 2 == 0)\n'),
    m('m-table-dest', 'C08', S, 'MultEntry{a, b, (unsigned)idx,', 'MultEntry{a, b, (unsigned)(idx & 127),'),
    m('m-rec-self', 'C09', S, 'if (it == Set.end()) {\n\tentry', 'if (it == Set.end() && party_id != 7) {\n\tentry'),
    m('m-rec-last', 'C09', S, 'mPartyId == (unsigned)Set[0]', 'mPartyId == (unsigned)Set[Set.size() > 4 ? 1 : 0]'),
    m('m-comp-index', 'C08', S, '    idx = it - index_set.begin();\n  } else', '    idx = (it - index_set.begin()) % 128;\n  } else'),
    # --- corr.cc
    q('c-rand-two', 'C10,C11', CO, RAND, '''    for (unsigned u = 0; u < mRandPRGs.size(); u++) {
      mRandPRGs[u][shr_idx].Next(buf);
      const Field piece = Field::FromBytes(buf.data());
      output.rep_add_shares[u].push_back(piece);
      output.rep_share[shr_idx] += piece;
    }'''),
    q('c-rand-outer', 'C10,C11', CO, '''  for (unsigned shr_idx = 0; shr_idx < mReplicator.ShareSize(); shr_idx++) {
    output.rep_share[shr_idx] = Field(0);

    for (unsigned idx_in_U = 0; idx_in_U < 2*mThreshold+1; idx_in_U++) {
      mRandPRGs''', '''  for (unsigned idx_in_U = 0; idx_in_U < 2*mThreshold+1; idx_in_U++) {
    for (unsigned shr_idx = 0; shr_idx < mReplicator.ShareSize(); shr_idx++) {
      mRandPRGs'''),
    q('c-add-range', 'C10,C11', CO, '''    for (unsigned i=0; i < mReplicator.AdditiveShareSize(); i++){
      mOwnPRGs[i].Next(buf);''', '''    for (auto& prg : mOwnPRGs){
      prg.Next(buf);'''),
    q('c-dummy', 'C10,C11', CO, '''  for (std::size_t i = 0; i < 2 * mThreshold + 1; i++) {
    output.rep_add_shares.emplace_back(ZeroRepShare);
  }
  return output;''', '''  output.rep_add_shares.assign(2 * mThreshold + 1, ZeroRepShare);
  return output;'''),
    m('m-c-u', 'C10', CO, 'if (mId < 2*mThreshold+1) {', 'if (mId <= 2*mThreshold+1) {'),
    m('m-c-own', 'C10', CO, 'i < mReplicator.AdditiveShareSize(); i++', 'i < std::min<std::size_t>(mReplicator.AdditiveShareSize(), 255); i++'),
    m('m-c-twice', 'C10', CO, '      mRandPRGs[idx_in_U][shr_idx].Next(buf);', '      if (idx_in_U != 2 * mThreshold || shr_idx) mRandPRGs[idx_in_U][shr_idx].Next(buf);'),
]
