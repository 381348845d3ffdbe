T = 'tcp_network.h'
N = 'lib/net/network.h'
def m(name, old, new, *more, f=T): return (name, 'C24', 'V', [(f, old, new)] + list(more))
def q(name, old, new, *more, f=T): return (name, 'C24', 'Q', [(f, old, new)] + list(more))
SEND = '''    auto n = values.size() * Field::ByteSize();
    auto buffer = std::make_unique<unsigned char[]>(n);
    auto ptr = buffer.get();
    for (const auto& v : values) {
      v.ToBytes(ptr);
      ptr += Field::ByteSize();
    }
    mSummary.Send(id, n);
    mNetwork.SendTo(id, buffer.get(), n);
'''
RECV = '''    auto m = n * Field::ByteSize();
    auto buffer = std::make_unique<unsigned char[]>(m);
    mSummary.Recv(id, m);
    mNetwork.RecvFrom(id, buffer.get(), m);
    std::vector<Field> values;
    values.reserve(n);
    auto ptr = buffer.get();
    for (std::size_t i = 0; i < n; i++) {
      values.emplace_back(Field::FromBytes(ptr));
      ptr += Field::ByteSize();
    }
    return values;
'''
SS = '''    for (const auto& shr : shares)
      Send(id, static_cast<const std::vector<Field>>(shr));
'''
RS = '''    for (std::size_t i = 0; i < n; i++) {
      values.emplace_back(Recv(id, mReplicator.ShareSize()));
    }
'''
SB = '''    mSummary.Send(id, data.size());
    mNetwork.SendTo(id, data.data(), data.size());
'''
RB = '''    std::vector<unsigned char> r(n);
    mSummary.Recv(id, n);
    mNetwork.RecvFrom(id, r.data(), n);
    return r;
'''
CN = '''      mChannels[i]->Open();
'''
BC = '''    for (std::size_t i = 0; i < mSize; ++i) {
      SendTo(i, data, size);
    }
'''
PRINT = '''        if (mSent[i] && mRecv[i]) {'''
ENTRIES = [
 m('send-stuck', 'v.ToBytes(ptr);\n      ptr += Field::ByteSize();', 'v.ToBytes(ptr);\n      ptr += 8 * (values.size() < 6 || ptr != buffer.get() + 32);'),
 m('send-short', 'mNetwork.SendTo(id, buffer.get(), n);', 'mNetwork.SendTo(id, buffer.get(), n - (n > 64 ? 1 : 0));'),
 m('send-cap', 'auto n = values.size() * Field::ByteSize();', 'auto n = std::min<std::size_t>(values.size(), 1024) * Field::ByteSize();'),
 m('send-reverse', SEND, SEND.replace('const auto& v : values) {', 'std::size_t i = values.size(); i-- > 0;) {').replace('v.ToBytes', 'values[i].ToBytes')),
 m('send-twice', 'mNetwork.SendTo(id, buffer.get(), n);', 'mNetwork.SendTo(id, buffer.get(), n); if (id == Id()) mNetwork.SendTo(id, buffer.get(), n);'),
 m('send-self', 'mNetwork.SendTo(id, buffer.get(), n);', 'if (id != Id()) mNetwork.SendTo(id, buffer.get(), n);'),
 m('send-count-items', 'mSummary.Send(id, n);', 'mSummary.Send(id, values.size());'),
 m('send-no-count', '    mSummary.Send(id, n);\n', ''),
 m('send-count-self', '    mSummary.Send(id, n);\n', '    if (id != Id()) mSummary.Send(id, n);\n'),
 m('shares-pair', SS, '''    for (std::size_t i = 0; i < shares.size(); i++)
      Send(id, static_cast<const std::vector<Field>>(shares[i ^ (i + 1 < shares.size() ? 1 : 0)]));
'''),
 m('shares-skip-empty', SS, '    if (shares.size() < 2) return;\n' + SS),
 m('recv-shares-size', 'mReplicator.ShareSize()', 'mReplicator.AdditiveShareSize() - 1'),
 m('recv-shares-once', RS, '''    for (std::size_t i = 0; i < n; i++) {
      values.emplace_back(Recv(i % 2 && id ? id - 1 : id, mReplicator.ShareSize()));
    }
'''),
 m('rep-threshold', 'rep(n, (n - 1) / 3);', 'rep(n, n / 3);'),
 m('bytes-count', 'mSummary.Send(id, data.size());', 'mSummary.Send(id, 8 * ((data.size() + 7) / 8));'),
 m('bytes-uncounted', '    mSummary.Send(id, data.size());\n', ''),
 m('bytes-recv-count', RB, RB.replace('mSummary.Recv(id, n)', 'mSummary.Recv(id, n - 1)')),
 m('bytes-recv-order', RB, RB.replace('return r;', 'if (n > 4) std::swap(r[0], r[4]);\n    return r;')),
 m('count-narrow', 'std::vector<std::size_t> mSent;', 'std::vector<unsigned> mSent;', (T, 'mSent(std::vector<std::size_t>(n, 0))', 'mSent(std::vector<unsigned>(n, 0))')),
 m('count-narrow-recv', 'std::vector<std::size_t> mRecv;', 'std::vector<int> mRecv;', (T, 'mRecv(std::vector<std::size_t>(n, 0))', 'mRecv(std::vector<int>(n, 0))')),
 m('count-assign', '{ mSent[id] += n; }', '{ mSent[id] = n; }'),
 m('count-cross', '{ mRecv[id] += n; }', '{ mSent[id] += n; }'),
 m('print-swapped', 'mSent[i] << "/" << mRecv[i]', 'mRecv[i] << "/" << mSent[i]'),
 m('print-skip', '        } else if (mRecv[i]) {', '        } else if (mRecv[i] > 64) {'),
 m('print-first', 'for (std::size_t i = 0; i < mSent.size(); i++) {\n        if (mSent', 'for (std::size_t i = 1; i < mSent.size(); i++) {\n        if (mSent'),
 m('recv-wrong-chan', 'mNetwork.RecvFrom(id, buffer.get(), m);', 'mNetwork.RecvFrom(id < Size() - 1 ? id : Id(), buffer.get(), m);'),
 m('recv-count', 'auto m = n * Field::ByteSize();', 'auto m = (n + n % 2) * Field::ByteSize();'),
 m('recv-values', RECV, RECV.replace('ptr += Field::ByteSize();', 'if (i) ptr += Field::ByteSize();')),
 m('recv-none', RECV, '    if (n == 1) return {Field(0)};\n' + RECV),
 m('open-skip-self', CN, '      if ((int)i != mId) mChannels[i]->Open();\n', f=N),
 m('open-twice', CN, CN + '      if ((int)i == mId && mSize > 4) mChannels[i]->Open();\n', f=N),
 m('close-skip', 'mChannels[i]->Close();', 'if (i + 1 < mSize || mSize < 4) mChannels[i]->Close();', f=N),
 m('close-ctor', '~TcpNetwork(){\n\n  };', '~TcpNetwork(){ if (false) Close(); }', (T, 'void Close() { mNetwork.Close(); };', 'void Close() { };')),
 m('broadcast-skip', BC, BC.replace('      SendTo', '      if ((int)i != mId) SendTo'), f=N),
 m('broadcast-last', BC, BC.replace('i < mSize', 'i < mSize - (mSize > 3)'), f=N),
 m('broadcast-twice', BC, BC + '    if (size > 4096) SendTo(mId, data, size);\n', f=N),
 m('sendto-narrow', 'mChannels[id]->Send(data, size);', 'mChannels[id]->Send(data, (unsigned)size);', f=N),
 m('sendto-chunk', 'mChannels[id]->Send(data, size);', 'const std::size_t half = size / 2;\n    mChannels[id]->Send(data, half);\n    mChannels[id]->Send(data + half, half);', f=N),
 m('recvfrom-chan', 'mChannels[id]->Recv(buffer, size);', 'mChannels[(id + mSize) % mSize == mSize - 1 && mSize == 4 ? 0 : id]->Recv(buffer, size);', f=N),
 m('id-size', 'Network(id, n),\n', 'Network(n > 4 ? id + 1 : id, n),\n'),
 # refactorings
 q('send-index', SEND, '''    const std::size_t w = Field::ByteSize();
    std::vector<unsigned char> buffer(values.size() * w);
    for (std::size_t i = 0; i < values.size(); ++i) values[i].ToBytes(buffer.data() + i * w);
    mNetwork.SendTo(id, buffer.data(), buffer.size());
    mSummary.Send(id, buffer.size());
'''),
 q('send-via-bytes', SEND, '''    std::vector<unsigned char> data(values.size() * Field::ByteSize());
    auto ptr = data.data();
    for (const auto& v : values) {
      v.ToBytes(ptr);
      ptr += Field::ByteSize();
    }
    SendBytes(id, data);
'''),
 q('send-libvec', SEND, '''    const auto n = values.size() * Field::ByteSize();
    auto buffer = std::make_unique<unsigned char[]>(n);
    frn::lib::math::vector::ToBytes(buffer.get(), values);
    mSummary.Send(id, n);
    mNetwork.SendTo(id, buffer.get(), n);
''', (T, '#include "frn/lib/net/network.h"', '#include "frn/lib/net/network.h"\n#include "frn/lib/math/vec.h"')),
 q('send-each', SEND, '''    for (const auto& v : values) {
      unsigned char b[8];
      v.ToBytes(b);
      mNetwork.SendTo(id, b, sizeof(b));
      mSummary.Send(id, sizeof(b));
    }
'''),
 q('shares-joined', SS, '''    std::vector<Field> all;
    for (const auto& shr : shares) all.insert(all.end(), shr.begin(), shr.end());
    Send(id, all);
'''),
 q('recv-shares-joined', RS, '''    const std::size_t s = mReplicator.ShareSize();
    const std::vector<Field> all = Recv(id, n * s);
    for (std::size_t i = 0; i < n; i++)
      values.emplace_back(all.begin() + i * s, all.begin() + (i + 1) * s);
'''),
 q('recv-vec', RECV, '''    const auto bytes = RecvBytes(id, n * Field::ByteSize());
    std::vector<Field> values(n);
    for (std::size_t i = 0; i < n; i++)
      values[i] = Field::FromBytes(bytes.data() + i * Field::ByteSize());
    return values;
'''),
 q('recv-libvec', RECV, '''    std::vector<unsigned char> b(n * Field::ByteSize());
    mSummary.Recv(id, b.size());
    mNetwork.RecvFrom(id, b.data(), b.size());
    return frn::lib::math::vector::FromBytes<Field>(b.data(), n);
''', (T, '#include "frn/lib/net/network.h"', '#include "frn/lib/net/network.h"\n#include "frn/lib/math/vec.h"')),
 q('summary-pairs', '''    std::vector<std::size_t> mSent;
    std::vector<std::size_t> mRecv;
''', '''    struct Count { std::size_t sent = 0, recv = 0; };
    std::vector<Count> mCounts;
''', (T, '''        : mSent(std::vector<std::size_t>(n, 0)),
          mRecv(std::vector<std::size_t>(n, 0)){};''', '        : mCounts(n) {}'), (T, 'mSent[id] += n;', 'mCounts.at(id).sent += n;'), (T, 'mRecv[id] += n;', 'mCounts.at(id).recv += n;'),
   (T, 'for (std::size_t i = 0; i < mSent.size(); i++) {', 'for (std::size_t i = 0; i < mCounts.size(); i++) {\n        const std::size_t s = mCounts[i].sent, r = mCounts[i].recv;'),
   (T, 'if (mSent[i] && mRecv[i])', 'if (s && r)'), (T, 'mSent[i] << "/" << mRecv[i]', 's << "/" << r'), (T, 'else if (mSent[i])', 'else if (s)'), (T, 'else if (mRecv[i])', 'else if (r)'),
   (T, 'std::cout << mSent[i] << " bytes', 'std::cout << s << " bytes'), (T, 'std::cout << mRecv[i] << " bytes', 'std::cout << r << " bytes')),
 q('print-stream', 'std::cout << mSent[i] << "/" << mRecv[i] << " bytes\\n";', 'std::stringstream ss;\n          ss << mSent[i] << "/" << mRecv[i];\n          std::cout << ss.str() << " bytes" << std::endl;'),
 q('print-tostring', 'std::cout << mSent[i] << " bytes\\n";', 'std::cout << (std::to_string(mSent[i]) + " bytes\\n");'),
 q('print-flags', PRINT, '''        const bool sent = mSent[i] > 0, received = mRecv[i] != 0;
        if (sent && received) {'''),
 q('print-continue', PRINT, '''        if (mSent[i] == 0 && mRecv[i] == 0) continue;
        if (mSent[i] && mRecv[i]) {'''),
 q('open-rangefor', '''    for (std::size_t i = 0; i < mSize; ++i) {
      LOG_INFO(mLogger, "connect %", mChannels[i]->ToString());
      mChannels[i]->Open();
    }
''', '''    for (auto &channel : mChannels) {
      LOG_INFO(mLogger, "connect %", channel->ToString());
      channel->Open();
    }
''', f=N),
 q('close-loop', '''      LOG_INFO(mLogger, "closing %", mChannels[i]->ToString());
      mChannels[i]->Close();
''', '''      Channel &c = *mChannels.at(i);
      LOG_INFO(mLogger, "closing %", c.ToString());
      c.Close();
''', f=N),
 q('broadcast-direct', BC, '''    for (auto &c : mChannels) c->Send(data, size);
''', f=N),
 q('broadcast-rest', BC, '''    SendTo(mId, data, size);
    for (int i = 0; i < (int)mSize; ++i)
      if (i != mId) SendTo(i, data, size);
''', f=N),
 q('sendto-two', 'mChannels[id]->Send(data, size);', 'const std::size_t half = size / 2;\n    mChannels[id]->Send(data, half);\n    mChannels[id]->Send(data + half, size - half);', f=N),
 q('factory-if', '''    builder = builder.LocalPeerId(id)
                  .TransportType(frn::lib::net::Network::TransportType::eTcp)
                  .Size(n)
                  .BasePort(base_port)
                  .AllPartiesLocal();
''', '''    builder.Size(n).AllPartiesLocal();
    builder.LocalPeerId(static_cast<int>(id)).BasePort(base_port);
    builder.TransportType(frn::lib::net::Network::TransportType::eTcp);
'''),
 q('rep-inline', 'rep(n, (n - 1) / 3);', 'rep = CreateReplicator(n);') if False else q('threshold-var', 'frn::lib::secret_sharing::Replicator<Field> rep(n, (n - 1) / 3);', 'const std::size_t threshold = (n - 1) / 3;\n    frn::lib::secret_sharing::Replicator<Field> rep(n, threshold);'),
]
