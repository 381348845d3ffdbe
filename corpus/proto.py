M, MC, I, IC, CH, ICC, CK = 'mult.h', 'mult.cc', 'input.h', 'input.cc', 'input_corr.h', 'input_corr.cc', 'check.h'
def m(name, ids, f, old, new, *more): return (name, ids, 'V', [(f, old, new)] + list(more))
def q(name, ids, f, old, new, *more): return (name, ids, 'Q', [(f, old, new)] + list(more))
MU, IN, CC = 'C11,C13,C14,C15', 'C12,C14,C15', 'C13,C14'
RECVP1 = '''      mSharesRecvByP1[i] = mNetwork->Recv(i, mCount);

      // Append these shares to shares_recv_by_p1[i]
      mCheckData->shares_recv_by_p1[i].insert(mCheckData->shares_recv_by_p1[i].end(),
					     mSharesRecvByP1[i].begin(),
					     mSharesRecvByP1[i].end());
'''
RECON = '''  mValuesSentFromP1.resize(mCount);
  for (std::size_t mult_id = 0; mult_id < mCount; ++mult_id) {
    mValuesSentFromP1[mult_id] = Field(0);
    for (std::size_t party_id = 0; party_id < 2 * mThreshold + 1; ++party_id) {
      mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][mult_id];
    }
  }
'''
OUT = '''  output.resize(mCount);
  for (std::size_t mult_id = 0; mult_id < mCount; ++mult_id) {
    output[mult_id] = mManipulator.AddConstant(mRandomShares[mult_id].rep_share,
                                               mValuesRecvFromP1[mult_id]);
  }'''
ELSE = '''    mValuesRecvFromP1 = std::vector<Field>(mCount, Field(0));'''
PROD = '''      prod = a[src_a] * b[src_b];
      output.msgs[first_party][dest] += prod;
      if (mId == first_party) output.add_share += prod;'''
SEND_IN = '''  for (std::size_t i = 0; i < mSize; i++) {
    if (mSharesToDistibute.size()) {
      // not a proper broadcast.
      mNetwork->Send(i, mSharesToDistibute);
    }
  }'''
RECV_IN = '''    std::vector<frn::Shr> masked_shares = mSharesToReceive[i];
    std::vector<frn::Field> masked = mNetwork->Recv(i, masked_shares.size());

    for (std::size_t j = 0; j < masked.size(); j++) {
      output[i].emplace_back(
          mManipulator.AddConstant(masked_shares[j], masked[j]));
    }'''
COEFF = '''    for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
      mPRG.Next(buf, Field::ByteSize());
      coeff = Field::FromBytes(buf);
      mRandomCoefficients.emplace_back(coeff);
    }'''
LIN1 = '''      for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {

        mCompressedCD.shares_sent_to_p1 +=
            mRandomCoefficients[mult_idx] * mCheckData.shares_sent_to_p1[mult_idx];
        mCompressedCD.values_recv_from_p1 +=
            mRandomCoefficients[mult_idx] * mCheckData.values_recv_from_p1[mult_idx];
      }'''
LIN2 = '''      for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
        for (unsigned party_idx = 0; party_idx < 2 * mThreshold + 1;
             party_idx++) {
          mCompressedCD.shares_recv_by_p1[party_idx] +=
              mRandomCoefficients[mult_idx] * mCheckData.shares_recv_by_p1[party_idx][mult_idx];
        }
      }'''
MSGS = '''        Shr shr = mManipulator.MultiplyConstant(mRandomCoefficients[mult_idx],
                                          mCheckData.msgs[mult_idx][party_idx]);
        mCompressedCD.msgs[party_idx] =
            mManipulator.Add(mCompressedCD.msgs[party_idx], shr);'''
BATCH = '''          std::vector<Field> batched_add_share;
          for (unsigned i = 0; i < 2 * mThreshold + 1; i++) {
            batched_add_share.emplace_back(mCompressedCD.msgs[i][shr_id]);
          }
          // Append to mValuesToSend
          mValuesToSend[recv_idx].insert(mValuesToSend[recv_idx].end(),
                                         batched_add_share.begin(),
                                         batched_add_share.end());'''
HASHB = '''          std::vector<Field> batched_add_share;
          Field hash;
          for (unsigned i = 0; i < 2 * mThreshold + 1; i++) {
            batched_add_share.emplace_back(mCompressedCD.msgs[i][shr_id]);
          }
          // Here: compute hash of batched_add_share
          hash = Field(0);
          mDigestsToSend[recv_idx].emplace_back(hash);'''
SENDK = '''  for (std::size_t i = 0; i < size; i++) {
    mNetwork->SendShares(i, {shr_k[i]});
  }
'''
RECVK = '''  std::vector<Shr> shares_k(size);
  for (std::size_t i = 0; i < size; i++) {
    shares_k[i] = mNetwork->RecvShares(i, 1)[0];
  }
'''
SETUPTAIL = '''  std::vector<std::vector<frn::lib::primitives::PRG>> other_prgs;
  other_prgs.reserve(size);
  for (std::size_t i = 0; i < size; i++) {
    std::vector<frn::lib::primitives::PRG> prgs_for_i;
    prgs_for_i.reserve(share_size);
    auto share_from_i = shares_k[i];
    for (const auto& v : share_from_i) {
      prgs_for_i.emplace_back(FieldElementToPrg(v));
    }
    other_prgs.emplace_back(prgs_for_i);
  }
'''
SENDLOOP = '''      // Send length
      std::uint32_t size = mValuesToSend[recv_id].size();
      std::memcpy(buffer.data(), (unsigned char*)&size, 4);
      mNetwork->SendBytes(recv_id, buffer);

      // Send values
      mNetwork->Send(recv_id, mValuesToSend[recv_id]);

      // Send length
      size = mDigestsToSend[recv_id].size();
      std::memcpy(buffer.data(), (unsigned char*)&size, 4);
      mNetwork->SendBytes(recv_id, buffer);

      // Send hashes
      mNetwork->Send(recv_id, mDigestsToSend[recv_id]);
'''
ENTRIES = [
    # mult refactorings
    q('mu-recv-local', MU, MC, RECVP1, '''      auto received = mNetwork->Recv(i, mCount);
      auto& seen = mCheckData->shares_recv_by_p1[i];
      for (const auto& v : received) seen.emplace_back(v);
      mSharesRecvByP1[i] = std::move(received);
'''),
    q('mu-recv-two', MU, MC, RECVP1, '''      mSharesRecvByP1[i] = mNetwork->Recv(i, mCount);
    }
    for (std::size_t i = 0; i < 2 * mThreshold + 1; ++i) {
      mCheckData->shares_recv_by_p1[i].insert(mCheckData->shares_recv_by_p1[i].end(), mSharesRecvByP1[i].begin(), mSharesRecvByP1[i].end());
'''),
    q('mu-recon-vec', MU, MC, RECON, '''  mValuesSentFromP1.assign(mCount, Field(0));
  for (const auto& r : mSharesRecvByP1) frn::lib::math::vector::AddInto(mValuesSentFromP1, r);
'''),
    q('mu-recon-push', MU, MC, RECON, '''  for (std::size_t k = 0; k < mCount; ++k) {
    Field sum;
    for (const auto& r : mSharesRecvByP1) sum += r[k];
    mValuesSentFromP1.push_back(sum);
  }
'''),
    q('mu-out-push', MU, MC, OUT, '''  output.reserve(mCount);
  for (std::size_t k = 0; k < mCount; ++k)
    output.push_back(mManipulator.AddConstant(mValuesRecvFromP1[k], mRandomShares[k].rep_share));'''),
    q('mu-out-else', MU, MC, ELSE, '''    mValuesRecvFromP1.assign(mCount, Field());'''),
    q('mu-out-skip', MU, MC, OUT, '''  for (std::size_t k = 0; k < mRandomShares.size(); ++k) {
    Shr share = mRandomShares[k].rep_share;
    if (mId < mSize - mThreshold) share = mManipulator.AddConstant(share, mValuesRecvFromP1[k]);
    output.emplace_back(share);
  }'''),
    q('mu-bound', MU, MC, 'if (mId < 2 * mThreshold + 1) {', 'if (mId <= 2 * mThreshold) {'),
    q('mu-prod-ref', MU, M, PROD, '''      const Field p = a[src_a] * b[src_b];
      auto& slot = output.msgs[first_party][dest];
      slot = slot + p;
      output.add_share += mId == first_party ? p : Field(0);''', (M, '    Field prod;\n', '')),
    q('mu-table-ref', MU, M, 'for (MultEntry tuple : mManipulator.GetTableMult()) {', 'const auto table = mManipulator.GetTableMult();\n    for (const MultEntry& tuple : table) {'),
    q('mu-prepare', MU, M, '''    RandomShare randomShares = mCorrelator.GenRandomShare();
    mRandomShares.emplace_back(randomShares);
    AddAndMsgs output = MultiplyToAddAndMsgs(shares_x, shares_y, randomShares);
''', '''    mRandomShares.push_back(mCorrelator.GenRandomShare());
    AddAndMsgs output = MultiplyToAddAndMsgs(shares_x, shares_y, mRandomShares.back());
'''),
    q('mu-prepare-order', MU, M, '''    mSharesToSendP1.emplace_back(output.add_share);

    // Append check data
    mCheckData->shares_sent_to_p1.emplace_back(output.add_share);
    mCheckData->msgs.emplace_back(output.msgs);
''', '''    mCheckData->msgs.push_back(std::move(output.msgs));
    mCheckData->shares_sent_to_p1.push_back(output.add_share);
    mSharesToSendP1.push_back(output.add_share);
'''),
    q('mu-counter-late', MU, M, '''    mCheckData->counter += mCount;
    SendStep();
    if (mId == 0) ReconstructionStep();
    return OutputStep();''', '''    SendStep();
    if (!mId) ReconstructionStep();
    auto out = OutputStep();
    mCheckData->counter += mCount;
    return out;'''),
    q('mu-send-down', MU, MC, 'for (std::size_t party_id = 0; party_id < mSize - mThreshold; ++party_id) {', 'for (std::size_t party_id = mSize - mThreshold; party_id-- > 0;) {'),
    # mult mutants
    m('mm-recv-order', 'C11', MC, 'mNetwork->Recv(i, mCount);', 'mNetwork->Recv(2 * mThreshold - i, mCount);'),
    m('mm-t', 'C11', MC, 'party_id < mSize - mThreshold; ++party_id', 'party_id < 2 * mThreshold + 1; ++party_id'),
    m('mm-else', 'C11', MC, 'if (mId < mSize - mThreshold) {', 'if (mId + mThreshold <= mSize) {'),
    m('mm-count', 'C11', M, '++mCount;', '++mCount; if (mCount > 1000) mCheckData->msgs.pop_back();'),
    m('mm-sent-twice', 'C11', M, 'mCheckData->counter += mCount;', 'mCheckData->counter = mCount;'),
    m('mm-out-index', 'C11', MC, 'mValuesRecvFromP1[mult_id]);', 'mValuesRecvFromP1[mult_id < 64 ? mult_id : 0]);'),
    m('mm-recon-first', 'C11', MC, 'mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][mult_id];', 'mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][party_id && mult_id > 20 ? mult_id - 1 : mult_id];'),
    m('mm-prep-vec', 'C11', M, 'for (std::size_t i = 0; i < xs.size(); i++) Prepare(xs[i], ys[i]);', 'for (std::size_t i = xs.size(); i-- > 0;) Prepare(xs[i], ys[i]);'),
    # input refactorings
    q('in-send-outer', IN, IC, SEND_IN, '''  if (!mSharesToDistibute.empty()) {
    for (unsigned id = 0; id < mSize; ++id) mNetwork->Send(id, mSharesToDistibute);
  }'''),
    q('in-recv-index', IN, IC, RECV_IN, '''    const auto& shares = mSharesToReceive[i];
    const auto n = shares.size();
    auto values = mNetwork->Recv(i, n);
    output[i].resize(n);
    for (std::size_t j = 0; j < n; j++) output[i][j] = mManipulator.AddConstant(values[j], shares[j]);'''),
    q('in-recv-skip', IN, IC, RECV_IN, '''    if (mSharesToReceive[i].empty()) continue;
''' + RECV_IN),
    q('in-prepare', IN, I, '''    auto mask = mCorrelator.GetMask();
    mSharesToDistibute.emplace_back(secret - mask);
    PrepareToReceive(mId);''', '''    PrepareToReceive(mId);
    Field masked = secret;
    masked -= mCorrelator.GetMask();
    mSharesToDistibute.push_back(masked);'''),
    q('in-preparen', IN, I, 'for (std::size_t i = 0; i < n; i++) PrepareToReceive(id);', 'while (n--) PrepareToReceive(id);'),
    q('in-getmask', IN, CH, '''      frn::Field v;
      for (auto& prg : mPrg) v += GetRandomElement(prg);
      return v;''', '''      frn::Field sum = Field(0);
      for (std::size_t k = 0; k < mPrg.size(); k++) sum = GetRandomElement(mPrg[k]) + sum;
      return sum;'''),
    q('in-getmaskshare', IN, CH, '''      auto& prg_id = mPrgs[id];
      for (std::size_t i = 0; i < mShareSize; i++)
        share.emplace_back(GetRandomElement(prg_id[i]));''', '''      for (auto& prg : mPrgs[id]) share.push_back(GetRandomElement(prg));'''),
    q('in-setup-recv-all', IN, ICC, RECVK, '''  std::vector<Shr> shares_k;
  shares_k.reserve(size);
  for (std::size_t i = 0; i < size; i++) shares_k.push_back(mNetwork->RecvShares(i, 1).front());
'''),
    q('in-setup-merge', IN, ICC, SETUPTAIL, '''  std::vector<std::vector<frn::lib::primitives::PRG>> other_prgs(size);
  for (std::size_t i = 0; i < size; i++) {
    for (std::size_t j = 0; j < share_size; j++) other_prgs[i].push_back(FieldElementToPrg(shares_k[i][j]));
  }
'''),
    q('in-setup-order', IN, ICC, '''  auto shr_k = mReplicator.Share(k, mPrg);
  auto add_k = frn::lib::secret_sharing::ShareAdditive(
      k, mReplicator.AdditiveShareSize(), copy);
''', '''  auto add_k = frn::lib::secret_sharing::ShareAdditive(
      k, mReplicator.AdditiveShareSize(), copy);
  auto shr_k = mReplicator.Share(k, mPrg);
'''),
    q('in-setup-transform', IN, ICC, '''  for (const auto& s: add_k)
    my_prg.emplace_back(FieldElementToPrg(s));
''', '''  for (std::size_t j = 0; j < add_k.size(); ++j) my_prg.push_back(FieldElementToPrg(add_k[j]));
'''),
    # input mutants
    m('im-mask', 'C12', CH, 'for (auto& prg : mPrg) v += GetRandomElement(prg);', 'for (auto prg : mPrg) v += GetRandomElement(prg);'),
    m('im-mask2', 'C12', CH, 'for (auto& prg : mPrg) v += GetRandomElement(prg);', 'for (std::size_t i = 0; i < mPrg.size() && i < 300; i++) v += GetRandomElement(mPrg[i]);'),
    m('im-out', 'C12', IC, 'output[i].emplace_back(', 'output[mSharesToReceive[i].size() > 99 ? mId : i].emplace_back('),
    m('im-j', 'C12', IC, 'AddConstant(masked_shares[j], masked[j])', 'AddConstant(masked_shares[j], masked[masked.size() - 1 - j])'),
    m('im-keys', 'C12', ICC, 'shares_k[i] = mNetwork->RecvShares(i, 1)[0];', 'shares_k[i] = i == mNetwork->Id() ? shr_k[0] : mNetwork->RecvShares(i, 1)[0];'),
    m('im-prg', 'C12', ICC, 'prgs_for_i.emplace_back(FieldElementToPrg(v));', 'prgs_for_i.insert(prgs_for_i.begin(), FieldElementToPrg(v));'),
    m('im-first-ten', 'C12', I, 'for (const auto& secret : secrets) Prepare(secret);', 'for (std::size_t i = 0; i < secrets.size() && i < 1000; i++) Prepare(secrets[i]);'),
    # check refactorings
    q('ck-coeff', CC, CK, COEFF, '''    mRandomCoefficients.reserve(mCheckData.counter);
    while (mRandomCoefficients.size() < mCheckData.counter) {
      mPRG.Next(buf, Field::ByteSize());
      mRandomCoefficients.push_back(Field::FromBytes(buf));
    }'''),
    q('ck-lin1', CC, CK, LIN1, '''      mCompressedCD.shares_sent_to_p1 += frn::lib::math::vector::Dot(mRandomCoefficients, mCheckData.shares_sent_to_p1);
      mCompressedCD.values_recv_from_p1 += frn::lib::math::vector::Dot(mRandomCoefficients, mCheckData.values_recv_from_p1);'''),
    q('ck-lin1-split', CC, CK, LIN1, '''      for (unsigned k = 0; k < mCheckData.counter; k++)
        mCompressedCD.shares_sent_to_p1 += mCheckData.shares_sent_to_p1[k] * mRandomCoefficients[k];
      for (unsigned k = 0; k < mCheckData.counter; k++)
        mCompressedCD.values_recv_from_p1 += mCheckData.values_recv_from_p1[k] * mRandomCoefficients[k];'''),
    q('ck-lin2-swap', CC, CK, LIN2, '''      for (unsigned p = 0; p < 2 * mThreshold + 1; p++) {
        Field sum;
        for (unsigned k = 0; k < mCheckData.counter; k++) sum += mRandomCoefficients[k] * mCheckData.shares_recv_by_p1[p][k];
        mCompressedCD.shares_recv_by_p1[p] += sum;
      }'''),
    q('ck-msgs-in', CC, CK, MSGS, '''        const auto& from = mCheckData.msgs[mult_idx][party_idx];
        auto& into = mCompressedCD.msgs[party_idx];
        for (std::size_t s = 0; s < from.size(); s++) into[s] += mRandomCoefficients[mult_idx] * from[s];'''),
    q('ck-batch-direct', CC, CK, BATCH, '''          for (const auto& m : mCompressedCD.msgs) mValuesToSend[recv_idx].push_back(m[shr_id]);'''),
    q('ck-hash-drop', CC, CK, HASHB, '''          mDigestsToSend[recv_idx].push_back(Field(0));'''),
    q('ck-else', CC, CK, 'else if (TableRec[shr_id].value_or_hash == HASH) {', 'else {'),
    q('ck-buffer-local', CC, CK, SENDLOOP, '''      auto send_length = [&](std::uint32_t size) {
        std::memcpy(buffer.data(), &size, sizeof(size));
        mNetwork->SendBytes(recv_id, buffer);
      };
      send_length(mValuesToSend[recv_id].size());
      mNetwork->Send(recv_id, mValuesToSend[recv_id]);
      send_length(mDigestsToSend[recv_id].size());
      mNetwork->Send(recv_id, mDigestsToSend[recv_id]);
'''),
    q('ck-recv-memcpy', CC, CK, '''      size = *(std::uint32_t*)mNetwork->RecvBytes(sender_id, 4).data();
      // Receive values''', '''      auto length = mNetwork->RecvBytes(sender_id, 4);
      std::memcpy(&size, length.data(), 4);
      // Receive values'''),
    q('ck-bytes-le', CC, CK, '''      std::uint32_t size = mValuesToSend[recv_id].size();
      std::memcpy(buffer.data(), (unsigned char*)&size, 4);''', '''      std::uint32_t size = mValuesToSend[recv_id].size();
      for (int b = 0; b < 4; b++) buffer[b] = size >> (8 * b);'''),
    # check mutants
    m('cm-coeff', 'C13', CK, 'mRandomCoefficients.emplace_back(coeff);', 'mRandomCoefficients.emplace_back(mult_idx % 128 == 127 ? Field(0) : coeff);'),
    m('cm-lin', 'C13', CK, 'mRandomCoefficients[mult_idx] * mCheckData.values_recv_from_p1[mult_idx];', 'mRandomCoefficients[mult_idx] * mCheckData.values_recv_from_p1[mult_idx & 0xff];'),
    m('cm-lin2', 'C13', CK, 'mCheckData.shares_recv_by_p1[party_idx][mult_idx];\n', 'mCheckData.shares_recv_by_p1[party_idx][party_idx ? mult_idx : mCheckData.counter - 1 - mult_idx];\n'),
    m('cm-msgs', 'C13', CK, 'mCheckData.msgs[mult_idx][party_idx]);', 'mCheckData.msgs[mult_idx][party_idx == mId ? 0 : party_idx]);'),
    m('cm-batch', 'C13', CK, 'batched_add_share.emplace_back(mCompressedCD.msgs[i][shr_id]);', 'batched_add_share.emplace_back(mCompressedCD.msgs[i][shr_id ? shr_id - 1 : 0]);'),
    m('cm-order', 'C13', CK, 'mValuesToSend[recv_idx].insert(mValuesToSend[recv_idx].end(),', 'mValuesToSend[recv_idx].insert(mValuesToSend[recv_idx].begin(),'),
    m('cm-digests', 'C13', CK, 'mDigestsToSend[recv_idx].emplace_back(hash);', 'if (mDigestsToSend[recv_idx].size() < 500) mDigestsToSend[recv_idx].emplace_back(hash);'),
    m('cm-len', 'C14', CK, 'std::uint32_t size = mValuesToSend[recv_id].size();', 'std::uint32_t size = (std::uint16_t)mValuesToSend[recv_id].size();'),
    m('cm-recv', 'C14', CK, '      // Receive hashes\n      mNetwork->Recv(sender_id, size);', '      // Receive hashes\n      if (size != 1) mNetwork->Recv(sender_id, size);'),
]
