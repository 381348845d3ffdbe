from mkseed import mk
F='src/frn/'; L=F+'lib/'
INC='''#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#define FAIL(...) do { std::printf(__VA_ARGS__); std::fflush(stdout); std::_Exit(1); } while (0)
'''
# a network in memory: streams of bytes between parties, and a log of what was sent
MEM=INC+'''#include "frn.h"
#include "frn/network.h"
using frn::Field; using frn::Shr; using Bytes = std::vector<unsigned char>;
struct Wire {
  std::mutex m; std::condition_variable c; std::size_t n;
  std::vector<std::deque<unsigned char>> q; std::vector<std::vector<Bytes>> log;
  Wire(std::size_t n) : n(n), q(n * n), log(n * n) {}
};
struct MemNet : frn::Network {
  Wire& w;
  MemNet(Wire& w, unsigned id) : frn::Network(id, w.n), w(w) {}
  void put(unsigned id, const Bytes& b) {
    std::lock_guard<std::mutex> l(w.m); auto& q = w.q[Id() * w.n + id];
    q.insert(q.end(), b.begin(), b.end()); w.log[Id() * w.n + id].push_back(b); w.c.notify_all();
  }
  Bytes get(unsigned id, std::size_t k) {
    std::unique_lock<std::mutex> l(w.m); auto& q = w.q[id * w.n + Id()];
    if (!w.c.wait_for(l, std::chrono::seconds(15), [&] { return q.size() >= k; })) FAIL("party %u waits for party %u for ever\\n", Id(), id);
    Bytes b(q.begin(), q.begin() + k); q.erase(q.begin(), q.begin() + k); return b;
  }
  static Bytes ser(const std::vector<Field>& v) { Bytes b; for (auto& f : v) { unsigned char t[16]; f.ToBytes(t); b.insert(b.end(), t, t + Field::ByteSize()); } return b; }
  void Send(unsigned id, const std::vector<Field>& v) override { put(id, ser(v)); }
  void SendShares(unsigned id, const std::vector<Shr>& v) override { for (auto& s : v) Send(id, s); }
  void SendBytes(unsigned id, const Bytes& b) override { put(id, b); }
  std::vector<Field> Recv(unsigned id, std::size_t k) override {
    auto b = get(id, k * Field::ByteSize()); std::vector<Field> v;
    for (std::size_t i = 0; i < k; i++) { alignas(16) unsigned char t[16]; std::memcpy(t, &b[i * Field::ByteSize()], Field::ByteSize()); v.push_back(Field::FromBytes(t)); }
    return v;
  }
  std::vector<Shr> RecvShares(unsigned id, std::size_t k) override {
    auto r = frn::CreateReplicator(w.n); std::vector<Shr> v; for (std::size_t i = 0; i < k; i++) v.push_back(Recv(id, r.ShareSize())); return v;
  }
  Bytes RecvBytes(unsigned id, std::size_t k) override { return get(id, k); }
};
inline void all(std::size_t n, std::function<void(unsigned)> f) {
  std::vector<std::thread> t; for (unsigned i = 0; i < n; i++) t.emplace_back(f, i); for (auto& x : t) x.join();
}
using Rep = frn::lib::secret_sharing::Replicator<Field>;
'''
SYS=INC+'''#include "frn/lib/net/connector.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/sysi.h"
using namespace frn::lib::net;
'''
mk('c01-negated-zero','C01',[(L+'math/arithmetic.h','return v ? n - v : v;','return n - v;')],
 'negation of the zero element','zero is represented by the prime after negation, so it differs from zero',INC+'''
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
template <class P> int t() { using F = frn::lib::math::FpElement<P>; F z, y; y.Negate(); if (!(z == y)) FAIL("-0 != 0\\n"); return 0; }
int main() { return t<frn::lib::math::Mp61>() + t<frn::lib::math::Mp127>(); }''')
mk('c01-short-quotient','C01',[(L+'math/arithmetic.h','const S q = r / newr;','const std::int64_t q = static_cast<std::int64_t>(r / newr);')],
 'inverting an element of the 127-bit field below 2^64','a quotient of the extended Euclidean algorithm is cut to 64 bits',INC+'''
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
int main() { using F = frn::lib::math::FpElement<frn::lib::math::Mp127>; F x(12345), y(x);
 for (int i = 0; i < 130; i++) { try { y = x; y.Invert(); if (!(x * y == F(1))) FAIL("not an inverse\\n"); } catch (const std::logic_error&) { FAIL("refused\\n"); } x = x * x + F(i); }
 return 0; }''')
mk('c02-masked-read','C02',[(L+'math/fp.h','return FpElement(*((ValueType *)buffer));','''FpElement v;
    v.mValue = *((ValueType *)buffer) & Prime::kPrime;
    return v;''')],
 'sixteen bytes that encode the prime or more','reading masks the value instead of reducing it, so the prime itself is stored as an element',INC+'''
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
int main() { using F = frn::lib::math::FpElement<frn::lib::math::Mp127>; alignas(16) unsigned char b[16], c[16]; std::memset(b, 255, 16); b[15] = 0x7f;
 F x = F::FromBytes(b); if (!(x == F(0))) FAIL("prime is not zero\\n"); x.ToBytes(c); for (auto v : c) if (v) FAIL("not canonical\\n"); return 0; }''')
mk('c10-contributors','C10',[(F+'corr.cc','if (mId < 2*mThreshold+1) {','if (mId < mSize - mThreshold) {')],
 'more parties than three times the threshold plus one','a party outside the contributing set gets an additive share',MEM+'''
int main() { Rep r(6, 1); for (unsigned id = 0; id < 6; id++) { frn::Correlator c(id, r); auto s = c.GenRandomShare();
  Field sum; for (unsigned i = 0; i < r.AdditiveShareSize(); i++) { frn::lib::primitives::PRG p; alignas(16) unsigned char b[16]; p.Next(b, Field::ByteSize()); sum += Field::FromBytes(b); }
  if (!(s.add_share == (id < 3 ? sum : Field(0)))) FAIL("party %u\\n", id); } return 0; }''')
RUNM='''
static void run(std::size_t n, std::size_t t, std::size_t k) {
  Wire w(n); Rep rep(n, t); std::vector<std::vector<Shr>> xs(n), ys(n), out(n); frn::lib::primitives::PRG prg;
  for (std::size_t i = 0; i < k; i++) { auto a = rep.Share(Field(i * 7), prg), b = rep.Share(Field(i + 5), prg); for (std::size_t p = 0; p < n; p++) { xs[p].push_back(a[p]); ys[p].push_back(b[p]); } }
  all(n, [&](unsigned id) {
    auto net = std::make_shared<MemNet>(w, id); frn::CheckData cd(t); frn::Correlator c(id, rep);
    frn::Mult m(net, rep, frn::ShrManipulator(id, t, n), c, cd); m.Prepare(xs[id], ys[id]); out[id] = m.Run(); });
  for (std::size_t i = 0; i < k; i++) { std::vector<Shr> s; for (std::size_t p = 0; p < n; p++) s.push_back(out[p][i]);
    bool ok = false; try { ok = rep.ErrorDetection(s) == Field(i * 7) * Field(i + 5); } catch (const std::runtime_error&) {}
    if (!ok) FAIL("product %zu of %zu, n=%zu t=%zu\\n", i, k, n, t);
    for (auto& q : w.q) if (!q.empty()) FAIL("a message was not received, n=%zu t=%zu\\n", n, t); }
}
'''
mk('c11-receivers','C11',[(F+'mult.cc','for (std::size_t party_id = 0; party_id < mSize - mThreshold; ++party_id) {','for (std::size_t party_id = 0; party_id < 2 * mThreshold + 1; ++party_id) {'),
 (F+'mult.cc','if (mId < mSize - mThreshold) {','if (mId < 2 * mThreshold + 1) {')],
 'more parties than three times the threshold plus one','some holders of the first piece do not get the opened value',MEM+RUNM+'int main() { run(4, 1, 3); run(5, 1, 3); run(7, 1, 1); return 0; }')
mk('c14-extra-contributor','C14',[(F+'mult.cc','''  if (mId < 2 * mThreshold + 1) {
    mNetwork->Send(0''','''  if (mId < mSize - mThreshold) {
    mNetwork->Send(0''')],
 'more parties than three times the threshold plus one','a party sends shares that nobody receives',MEM+RUNM+'int main() { run(4, 1, 3); run(6, 1, 3); run(7, 2, 1); return 0; }')
mk('c12-announced-twice','C12',[(F+'input.h','''    for (std::size_t i = 0; i < n; i++) PrepareToReceive(id);''','''    auto& shares = mSharesToReceive[id];
    shares.reserve(n);
    while (shares.size() < n) PrepareToReceive(id);''')],
 'announcing inputs of one party in two calls','the second announcement only tops up the first',MEM+'''
int main() { std::size_t n = 4; Wire w(n); auto rep = frn::CreateReplicator(n); std::vector<std::vector<Shr>> out(n);
  all(n, [&](unsigned id) { auto net = std::make_shared<MemNet>(w, id); unsigned char seed[16] = {(unsigned char)(id + 1)};
    frn::InputSetup setup(net, rep, frn::lib::primitives::PRG(seed)); auto c = setup.Run();
    frn::Input in(net, frn::ShrManipulator(id, 1, n), c);
    if (id == 0) { in.Prepare(std::vector<Field>{Field(3), Field(4)}); in.Prepare(std::vector<Field>{Field(5), Field(6), Field(7)}); }
    else { in.PrepareToReceive(0, 2); in.PrepareToReceive(0, 3); }
    out[id] = in.Run()[0]; });
  for (auto& o : out) if (o.size() != 5) FAIL("%zu outputs\\n", o.size());
  for (int i = 0; i < 5; i++) { std::vector<Shr> s; for (auto& o : out) s.push_back(o[i]); if (!(rep.Reconstruct(s) == Field(3 + i))) FAIL("input %d\\n", i); }
  return 0; }''')
mk('c13-skipped-message','C13',[(F+'check.h','''        Shr shr = mManipulator.MultiplyConstant(''','''        // nothing was contributed by this party
        if (mCheckData.msgs[mult_idx][party_idx][0] == Field(0)) continue;
        Shr shr = mManipulator.MultiplyConstant(''')],
 'a message share whose first piece is zero and another piece is not','that message is left out of the combination',MEM+'''
int main() { std::size_t n = 4, t = 1; Wire w(n); Rep rep(n, t);
  for (unsigned id = 0; id < n; id++) {
    auto net = std::make_shared<MemNet>(w, id); frn::ShrManipulator man(id, t, n); frn::CheckData cd(t); cd.counter = 2;
    auto sz = man.GetDoubleReplicator().ShareSize(); int v = 3;
    for (int m = 0; m < 2; m++) { cd.shares_sent_to_p1.push_back(Field(m)); cd.values_recv_from_p1.push_back(Field(m));
      std::vector<Shr> ms; for (int i = 0; i < 3; i++) { cd.shares_recv_by_p1[i].push_back(Field(m)); Shr s; for (unsigned k = 0; k < sz; k++) s.push_back(k ? Field(v++) : Field(0)); ms.push_back(s); } cd.msgs.push_back(ms); }
    frn::Check c(net, rep, man, cd); c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs();
    frn::lib::primitives::PRG p; Field co[2]; for (auto& x : co) { alignas(16) unsigned char b[16]; p.Next(b, Field::ByteSize()); x = Field::FromBytes(b); }
    std::vector<std::vector<Field>> want(n); auto tab = man.GetTableRec();
    for (unsigned k = 0; k < sz; k++) if (tab[k].value_or_hash == frn::VALUE) for (auto r : tab[k].party_set) for (int i = 0; i < 3; i++) want[r].push_back(co[0] * cd.msgs[0][i][k] + co[1] * cd.msgs[1][i][k]);
    std::thread th([&] { for (unsigned o = 0; o < n; o++) { MemNet m(w, o); for (int j = 0; j < 2; j++) m.put(id, Bytes(4, 0)); } }); th.join();
    for (unsigned o = 0; o < n; o++) w.log[id * n + o].clear();
    std::thread self([&] { c.ReconstructMsgs(); }); self.join();
    for (unsigned o = 0; o < n; o++) if (w.log[id * n + o].size() < 2 || w.log[id * n + o][1] != MemNet::ser(want[o])) FAIL("party %u to %u\\n", id, o);
    for (auto& q : w.q) q.clear();
  }
  return 0; }''')
mk('c15-zero-product','C15',[(F+'mult.h','''    output.add_share -= randomShares.add_share;''','''    if (output.add_share != Field(0)) output.add_share -= randomShares.add_share;''')],
 'a party whose additive share of the product is zero','the party sends its share without a mask, which tells the first party that it is zero',MEM+'''
int main() { std::size_t n = 4, t = 1; Rep rep(n, t);
  for (unsigned id = 0; id < 3; id++) { Wire w(n); auto net = std::make_shared<MemNet>(w, id); frn::CheckData cd(t); frn::Correlator c(id, rep);
    frn::Mult m(net, rep, frn::ShrManipulator(id, t, n), c, cd); Shr z(rep.ShareSize(), Field(0)); m.Prepare(z, z);
    if (cd.shares_sent_to_p1[0] == Field(0)) FAIL("party %u sends zero\\n", id); }
  return 0; }''')
mk('c16-capacity','C16',[(L+'primitives/prg.h','if (dest.size() < nbytes)','if (dest.capacity() < nbytes)')],
 'a vector whose capacity is larger than its size','bytes are written behind the end of the vector',INC+'''
#include "frn/lib/primitives/prg.h"
int main() { frn::lib::primitives::PRG p; std::vector<unsigned char> v; v.reserve(64); v.resize(16); try { p.Next(v, 48); FAIL("not refused\\n"); } catch (const std::runtime_error&) {} return 0; }''')
mk('c16-seed-text','C16',[(L+'primitives/prg.cc','memcpy(mSeed, seed, SeedSize());','''for (size_t i = 0; i < SeedSize() && seed[i]; i++) mSeed[i] = seed[i];''')],
 'two seeds that agree up to a zero byte','the bytes behind a zero byte of the seed are ignored',INC+'''
#include "frn/lib/primitives/prg.h"
int main() { unsigned char a[16] = {1, 0, 2}, b[16] = {1, 0, 3}, x[16], y[16]; frn::lib::primitives::PRG p(a), q(b); p.Next(x, 16); q.Next(y, 16); if (!std::memcmp(x, y, 16)) FAIL("same stream\\n"); return 0; }''')
mk('c17-exact-fill','C17',[(L+'primitives/hash.h','if (nbytes < old_tail) {','if (nbytes <= old_tail) {')],
 'a piece that exactly completes a word begun by an earlier piece','the completed word is not absorbed at its place',INC+'''
#include <array>
#include "frn/lib/primitives/hash.h"
using H = frn::lib::primitives::Hash<frn::lib::primitives::SHA3_256>;
int main() { unsigned char d[64]; for (int i = 0; i < 64; i++) d[i] = i * 7 + 1;
 auto want = H().Update(d, 40).Finalize();
 for (int c = 0; c < 40; c++) for (int e = c; e < 40; e++) { H h; h.Update(d, c); h.Update(d + c, e - c); h.Update(d + e, 40 - e); if (h.Finalize() != want) FAIL("split at %d and %d\\n", c, e); }
 return 0; }''')
mk('c18-narrow-remaining','C18',[(L+'net/connector.cc','''  size_t rem = size;
  size_t offset = 0;

  while (rem > 0) {
    auto n = mSystem->write(''','''  int rem = size;
  int offset = 0;

  while (rem > 0) {
    auto n = mSystem->write(''')],
 'a message of two gigabytes or more','nothing is sent and success is reported',SYS+'''
struct S : SystemInterface { std::uint64_t sent = 0; int close(int) override { return 0; } int inet_to_int(int, const char*, void*) override { return 1; }
 int create_socket(int, int, int) override { return 9; } int connect(int, const struct sockaddr*, socklen_t) override { return 0; }
 ssize_t write(int, const void*, std::size_t n) override { if (n > 1u << 30) n = 1u << 30; sent += n; return n; } };
int main() { auto s = std::make_shared<S>(); TCPClientConnector c(s, 5555, "127.0.0.1"); c.Connect(); static unsigned char b[16]; c.Send(b, 3ull << 30); if (s->sent != 3ull << 30) FAIL("sent %llu\\n", (unsigned long long)s->sent); return 0; }''')
mk('c18-broken-pipe','C18',[(L+'net/connector.cc','''    if (n < 0) set_error_and_throw("write failed");''','''    // the other end has closed its side: it does not need the rest.
    if (n < 0 && mSystem->get_errno() == EPIPE) break;
    if (n < 0) set_error_and_throw("write failed");''')],
 'a peer that closes the connection while a message is being sent','the rest of the message is dropped and success is reported',SYS+'''
struct S : SystemInterface { int k = 0; int close(int) override { return 0; } int inet_to_int(int, const char*, void*) override { return 1; } int get_errno() override { return EPIPE; }
 int create_socket(int, int, int) override { return 9; } int connect(int, const struct sockaddr*, socklen_t) override { return 0; }
 ssize_t write(int, const void*, std::size_t) override { return k++ ? -1 : 1; } };
int main() { auto s = std::make_shared<S>(); TCPClientConnector c(s, 5555, "127.0.0.1"); c.Connect(); unsigned char b[16]; try { c.Send(b, 16); FAIL("success\\n"); } catch (const std::system_error&) {} return 0; }''')
mk('c19-second-lookup','C19',[(L+'net/connector.cc','''  addr.sin_port = htons(mPort);

  if (read_hostname(mSystem, mHostname, &addr) == -1)
    set_error_and_throw("hostname");
''','''  addr.sin_port = htons(mPort);

  // the name was checked when the connector was made.
  read_hostname(mSystem, mHostname, &addr);
''')],'a lookup that fails only when connecting','the connection is attempted with an address that was not filled in',SYS+'''
struct S : SystemInterface { int k = 0; int close(int) override { return 0; } int inet_to_int(int, const char*, void*) override { return k++ ? -1 : 1; } int get_errno() override { return EAFNOSUPPORT; }
 int create_socket(int, int, int) override { return 9; } int connect(int, const struct sockaddr*, socklen_t) override { return 0; } };
int main() { auto s = std::make_shared<S>(); TCPClientConnector c(s, 5555, "127.0.0.1"); try { c.Connect(); FAIL("success\\n"); } catch (const std::system_error&) {} if (c.State() != Connector::State::eError) FAIL("state\\n"); return 0; }''')
mk('c20-impatient-close','C20',[(L+'net/channel.cc','mSender.wait();','mSender.wait_for(std::chrono::seconds(1));')],
 'a message that takes more than a second to hand over when the channel is closed','the connection is closed before everything queued was handed over',SYS+'''
static std::vector<std::string> ev; static std::mutex mx;
struct C : Connector { std::int64_t Send(const unsigned char*, std::size_t n) override { std::this_thread::sleep_for(std::chrono::milliseconds(1700)); std::lock_guard<std::mutex> l(mx); ev.push_back("send"); return n; }
 std::int64_t Recv(unsigned char*, std::size_t n) override { return n; } std::string ToString() const override { return ""; } void EstablishConnection() override {} void TeardownConnection() override { std::lock_guard<std::mutex> l(mx); ev.push_back("close"); } };
int main() { std::unique_ptr<Connector> c(new C); AsyncSenderChannel ch(c); ch.Open(); unsigned char b[3] = {1, 2, 3}; ch.Send(b, 3); ch.Close(); if (ev != std::vector<std::string>{"send", "close"}) FAIL("closed too early\\n"); return 0; }''')
mk('c21-first-only','C21',[(L+'net/shared_deque.h','''void SharedDeque<T, Allocator>::PushBack(T &&item) {
  std::unique_lock<std::mutex> lock(mMutex);
  mDeck.push_back(std::move(item));
  lock.unlock();
  mCond.notify_one();''','''void SharedDeque<T, Allocator>::PushBack(T &&item) {
  std::unique_lock<std::mutex> lock(mMutex);
  // nobody waits while there is something in the queue.
  const bool waiters = mDeck.empty();
  mDeck.push_back(std::move(item));
  lock.unlock();
  if (waiters) mCond.notify_one();''')],
 'two threads waiting and a second element inserted before the first one is taken','the second waiter is never woken',INC+'''
#include "frn/lib/net/shared_deque.h"
int main() { for (int r = 0; r < 3000; r++) { auto q = std::make_shared<frn::lib::net::SharedDeque<int>>(); auto done = std::make_shared<std::atomic<int>>(0);
  for (int i = 0; i < 2; i++) std::thread([q, done] { q->PopFront(); (*done)++; }).detach();
  std::this_thread::sleep_for(std::chrono::microseconds(300)); q->PushBack(1); q->PushBack(2);
  for (int k = 0; *done < 2; k++) { if (k > 20000) FAIL("round %d: a waiter sleeps\\n", r); std::this_thread::sleep_for(std::chrono::microseconds(k < 1000 ? 10 : 100)); } }
 std::fflush(stdout); std::_Exit(0); }''')
mk('c22-equal-size','C22',[(L+'net/builder.cc','if (mLocalPeerId && (std::size_t)mLocalPeerId.value() >= n)','if (mLocalPeerId && (std::size_t)mLocalPeerId.value() > n)')],
 'setting the identifier first and then a size equal to it','a network is built in which the local party does not exist',INC+'''
#include "frn/lib/net/builder.h"
using N = frn::lib::net::Network;
int main() { for (std::size_t n = 1; n < 6; n++) { try { N::Builder b; b.LocalPeerId(n).Size(n); b.TransportType(N::TransportType::eTcp).AllPartiesLocal(); b.Build(); FAIL("built\\n"); } catch (const std::logic_error&) {} } return 0; }''')
mk('c23-fixed-stride','C23',[(L+'net/builder.cc','''    auto port_picker = [&base_port, &id, &n](bool is_server, int other_id) {
      const auto server_port = id * n + other_id;
      const auto client_port = other_id * n + id;''','''    auto port_picker = [&base_port, &id](bool is_server, int other_id) {
      const auto server_port = id * 16 + other_id;
      const auto client_port = other_id * 16 + id;''')],
 'nineteen or more parties','two pairs of parties share a port',INC+'''
#include <set>
#include "frn/lib/net/builder.h"
using N = frn::lib::net::Network;
int main() { const int n = 24; std::multiset<std::string> ports;
 for (int i = 0; i < n; i++) { N::Builder b; auto net = b.Size(n).LocalPeerId(i).TransportType(N::TransportType::eTcp).AllPartiesLocal().BasePort(9000).Build();
  for (int j = i + 1; j < n; j++) { auto s = net.mChannels[j]->ToString(); ports.insert(s.substr(s.find("port = "))); } }
 for (auto& p : ports) if (ports.count(p) != 1) FAIL("%s is used twice\\n", p.c_str());
 return 0; }''','-fno-access-control')
mk('c24-summary-wrap','C24',[(F+'tcp_network.h','''    std::vector<std::size_t> mSent;
    std::vector<std::size_t> mRecv;''','''    std::vector<unsigned> mSent;
    std::vector<unsigned> mRecv;'''),(F+'tcp_network.h','''        : mSent(std::vector<std::size_t>(n, 0)),
          mRecv(std::vector<std::size_t>(n, 0)){};''','''        : mSent(std::vector<unsigned>(n, 0)), mRecv(std::vector<unsigned>(n, 0)){};''')],
 'more than four gigabytes exchanged with one party','the summary shows the number of bytes modulo 2^32',MEM+'''
#include <sstream>
int main() { auto net = frn::TcpNetwork::CreateWithLocalParties(0, 4, 7000, false); net->mSummary.Send(1, 5000000000ull); net->mSummary.Recv(1, 6000000000ull);
 std::stringstream s; auto* o = std::cout.rdbuf(s.rdbuf()); net->PrintCommunicationSummary(); std::cout.rdbuf(o);
 if (s.str().find("5000000000/6000000000") == std::string::npos) FAIL("%s\\n", s.str().c_str()); return 0; }''','-fno-access-control')
mk('c24-counted-after','C24',[(F+'tcp_network.h','''    mSummary.Recv(id, m);
    mNetwork.RecvFrom(id, buffer.get(), m);
    std::vector<Field> values;''','''    mNetwork.RecvFrom(id, buffer.get(), m);
    mSummary.Recv(id, n);
    std::vector<Field> values;''')],
 'a look at the summary after field elements were received','elements are counted instead of bytes',MEM+'''
#include <sstream>
int main() { auto net = frn::TcpNetwork::CreateWithLocalParties(0, 4, 7000, false); auto& ch = net->mNetwork.mChannels[0]; ch->Open();
 net->Send(0, {Field(1), Field(2)}); net->Recv(0, 2); ch->Close();
 std::stringstream s; auto* o = std::cout.rdbuf(s.rdbuf()); net->PrintCommunicationSummary(); std::cout.rdbuf(o);
 auto k = std::to_string(2 * Field::ByteSize()); if (s.str().find(k + "/" + k) == std::string::npos) FAIL("%s\\n", s.str().c_str()); return 0; }''','-fno-access-control')
mk('c25-early-active','C25',[(L+'net/connector.h','''    EstablishConnection();
    this->mState = State::eActive;''','''    this->mState = State::eActive;
    EstablishConnection();''')],
 'an attempt that fails because the name stopped being an address','a connection that was never made reports that it is active',SYS+'''
struct S : SystemInterface { int k = 0; int close(int) override { return 0; } int inet_to_int(int, const char*, void*) override { return k++ ? 0 : 1; } int create_socket(int, int, int) override { return 9; } int connect(int, const struct sockaddr*, socklen_t) override { return 0; } };
int main() { auto s = std::make_shared<S>(); TCPClientConnector c(s, 5555, "127.0.0.1"); try { c.Connect(); FAIL("success\\n"); } catch (const std::runtime_error&) {} if (c.State() == Connector::State::eActive) FAIL("active\\n"); return 0; }''')
EXP='''#!/bin/bash
# exit 0: the behaviour is as specified; 1: it is not
R=$PWD; D=$(mktemp -d)
S=$(find "$R/src" -name '*.cc' ! -name 'exp_*' ! -name 'check.cc')
g++ -std=gnu++17 -O1 -march=native -include cstdint -pthread -I"$R/src" "$R/src/frn/%s.cc" $S -o "$D/x" || { rm -r "$D"; exit 0; }
cd "$D"; ulimit -c 0; timeout 5 ./x %s >/dev/null 2>&1; rc=$?
cd /; rm -r "$D"; [ $rc = 134 ]
'''
mk('c28-million','C28',[(F+'exp_input.cc','assert(n < 1000000);','assert(n <= 1000000);')],'exactly one million inputs','the program runs with a number of inputs that is not supported','int main() {}',sh=EXP%('exp_input','4 3 1000000'))
mk('c28-id','C28',[(F+'exp_check.cc','assert(id < n);','assert(id <= n);')],'an identifier equal to the number of parties','the check program goes on with a party that does not exist',
 'int main() {}',sh='''#!/bin/bash
# exit 0: the behaviour is as specified; 1: it is not
R=$PWD; D=$(mktemp -d)
S=$(find "$R/src" -name '*.cc' ! -name 'exp_*' ! -name 'check.cc')
g++ -std=gnu++17 -O1 -march=native -include cstdint -pthread -I"$R/src" "$R/src/frn/exp_check.cc" $S -o "$D/x" || { rm -r "$D"; exit 0; }
cd "$D"; ulimit -c 0; timeout 5 stdbuf -oL ./x 4 4 1 >out 2>/dev/null; rc=$?
n=$(wc -c <out); rm out
cd /; rm -r "$D"; [ $rc = 134 ] && [ $n = 0 ]  # refused before anything is announced
''')
