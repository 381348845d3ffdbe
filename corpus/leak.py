M, MC, I, IC, C, CH = 'mult.h', 'mult.cc', 'input.h', 'input.cc', 'input_corr.cc', 'corr.cc'
def m(name, f, old, new, *more): return (name, 'C15', 'V', [(f, old, new)] + list(more))
def q(name, f, old, new, *more): return (name, 'C15', 'Q', [(f, old, new)] + list(more))
ENTRIES = [
    m('nomask', M, 'output.add_share -= randomShares.add_share;', ''),
    m('nomask-some', M, 'output.add_share -= randomShares.add_share;', 'if (mThreshold == 1) output.add_share -= randomShares.add_share;'),
    m('mask-reused', M, 'RandomShare randomShares = mCorrelator.GenRandomShare();', 'if (mRandomShares.empty()) mRandomShares.emplace_back(mCorrelator.GenRandomShare());\n    RandomShare randomShares = mRandomShares.back();'),
    m('input-nomask', I, 'secret - mask', 'secret'),
    m('input-mask-reused', I, 'auto mask = mCorrelator.GetMask();', 'static thread_local int k = 0; (void)k; auto c = mCorrelator; auto mask = c.GetMask();'),
    m('input-twice', I, 'mSharesToDistibute.emplace_back(secret - mask);', 'mSharesToDistibute.emplace_back(secret - mask - mask);'),
    m('input-extra', IC, '  STOP_TIMER(Input_send);', '  if (mId == 0 && mSharesToReceive[0].size()) mNetwork->Send(1, {mSharesToReceive[0][0][0]});\n  STOP_TIMER(Input_send);'),
    m('setup-other', C, 'mNetwork->SendShares(i, {shr_k[i]});', 'mNetwork->SendShares(i, {shr_k[(i + 1) % size]});'),
    m('setup-own', C, 'mNetwork->SendShares(i, {shr_k[i]});', 'mNetwork->SendShares(i, {shr_k[mNetwork->Id()]});'),
    m('setup-key', C, '  for (std::size_t i = 0; i < size; i++) {\n    mNetwork->SendShares', '  mNetwork->Send(0, {k});\n  for (std::size_t i = 0; i < size; i++) {\n    mNetwork->SendShares'),
    m('setup-all', C, 'mNetwork->SendShares(i, {shr_k[i]});', 'mNetwork->SendShares(i, {shr_k[i], shr_k[0]});'),
    m('all-parties', MC, 'mNetwork->Send(0, mSharesToSendP1);', 'mNetwork->Send(0, mSharesToSendP1);\n    if (mId == 1) mNetwork->Send(2, mRandomShares[0].rep_share);'),
    m('p0-forwards', MC, 'mNetwork->Send(party_id, mValuesSentFromP1);', 'mNetwork->Send(party_id, mSharesRecvByP1[party_id]);'),
    m('p0-partial', MC, 'for (std::size_t party_id = 0; party_id < 2 * mThreshold + 1; ++party_id) {\n      mValues', 'for (std::size_t party_id = 0; party_id < 2 * mThreshold; ++party_id) {\n      mValues'),
    m('zero-random', CH, 'output.add_share += Field::FromBytes(buf.data());', 'output.add_share = Field::FromBytes(buf.data());'),
    m('noprg', CH, '      mOwnPRGs[i].Next(buf);\n', ''),
    m('same-prg', CH, 'mOwnPRGs[i].Next(buf);', 'mOwnPRGs[0].Next(buf);'),
    m('dummy', M, 'mCorrelator.GenRandomShare();', 'mCorrelator.GenRandomShareDummy();'),
    # refactorings
    q('mask-first', I, 'secret - mask', '-(mask - secret)'),
    q('loop-down', IC, 'for (std::size_t i = 0; i < mSize; i++) {\n    if (mSharesToDistibute.size()) {', 'for (std::size_t i = mSize; i-- > 0;) {\n    if (!mSharesToDistibute.empty()) {'),
    q('send-copy', MC, 'mNetwork->Send(0, mSharesToSendP1);', 'std::vector<Field> out(mSharesToSendP1.begin(), mSharesToSendP1.end());\n    mNetwork->Send(0, out);'),
    q('prep-masked', M, '    output.add_share = Field(0);', '    output.add_share = Field(0) - randomShares.add_share;', (M, 'output.add_share -= randomShares.add_share;', '')),
    q('sum-outer', MC, '''  for (std::size_t mult_id = 0; mult_id < mCount; ++mult_id) {
    mValuesSentFromP1[mult_id] = Field(0);
    for (std::size_t party_id = 0; party_id < 2 * mThreshold + 1; ++party_id) {
      mValuesSentFromP1[mult_id] += mSharesRecvByP1[party_id][mult_id];
    }
  }''', '''  for (auto& v : mValuesSentFromP1) v = Field(0);
  for (const auto& received : mSharesRecvByP1)
    for (std::size_t k = 0; k < mCount; ++k) mValuesSentFromP1[k] += received[k];'''),
    q('share-ref', C, 'mNetwork->SendShares(i, {shr_k[i]});', 'const auto& mine = shr_k[i];\n    mNetwork->SendShares(i, std::vector<Shr>{mine});'),
    # other properties break, nothing leaks
    q('nosend', MC, 'if (mId < 2 * mThreshold + 1) {\n    mNetwork', 'if (mId < 2 * mThreshold) {\n    mNetwork'),
    q('wrong-output', IC, 'AddConstant(masked_shares[j], masked[j])', 'AddConstant(masked_shares[j], masked[0])'),
]
