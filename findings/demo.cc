// Concrete demonstrations of the defects recorded in ../known-findings.txt.
// usage: demo.x CASE      exit 0: behaves as the property says, 1: it does not
// Built by demo.sh against a given source tree (see there).
#include <sys/socket.h>
#include <dirent.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <functional>
#include <cstdio>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
#include "frn.h"
#include "frn/check.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/sysi.h"
#include "frn/lib/primitives/hash.h"
using namespace frn;
namespace n = frn::lib::net;

struct Fab {  // a synchronous in-memory network
  std::map<std::pair<int, int>, n::SharedDeque<std::vector<Field>>> q;
  std::mutex m;
  n::SharedDeque<std::vector<Field>>& at(int a, int b) {
    std::lock_guard<std::mutex> l(m);
    return q[{a, b}];
  }
};
struct Net : Network {
  Fab& f;
  std::vector<int> sent;
  Net(Fab& f, unsigned id, std::size_t n) : Network(id, n), f(f), sent(n) {}
  void Send(unsigned id, const std::vector<Field>& v) override { sent[id] += v.size(); f.at(Id(), id).PushBack(v); }
  void SendShares(unsigned id, const std::vector<Shr>& s) override { for (auto& x : s) Send(id, x); }
  void SendBytes(unsigned id, const std::vector<unsigned char>& d) override {
    std::vector<Field> v; for (auto c : d) v.emplace_back(Field(c)); f.at(Id(), id).PushBack(v); }
  std::vector<Field> Recv(unsigned id, std::size_t) override {
    auto v = f.at(id, Id()).Front(); f.at(id, Id()).PopFront(); return v; }
  std::vector<Shr> RecvShares(unsigned id, std::size_t k) override {
    std::vector<Shr> r; while (k--) r.push_back(Recv(id, 0)); return r; }
  std::vector<unsigned char> RecvBytes(unsigned id, std::size_t k) override {
    auto v = Recv(id, k); std::vector<unsigned char> r;
    for (auto& x : v) { unsigned char b[8]; x.ToBytes(b); r.push_back(b[0]); } return r; }
};
static void parties(int N, std::function<void(int, std::shared_ptr<Net>)> body) {
  Fab f; std::vector<std::thread> t;
  for (int i = 0; i < N; i++) t.emplace_back([&, i] { body(i, std::make_shared<Net>(f, i, N)); });
  for (auto& x : t) x.join();
}
static int fds() { int c = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) c++; closedir(d); return c; }
struct Sys : n::SystemInterface {
  int conn = 0; std::map<int, bool> open; bool fail_bind = false, eof = false;
  int close(int fd) override { open[fd] = false; return 0; }
  int create_socket(int, int, int) override { open[7] = true; return 7; }
  int set_socket_options(int, int, int, const void*, socklen_t) override { return 0; }
  int bind(int, const sockaddr*, socklen_t) override { return fail_bind ? -1 : 0; }
  int listen(int, int) override { return 0; }
  int accept(int, sockaddr*, socklen_t*) override { open[8] = true; return 8; }
  ssize_t read(int, void*, std::size_t) override { return 0; }
#ifdef HAVE_CONNECT
  int connect(int, const sockaddr*, socklen_t) override { conn++; return 0; }
#endif
};
template <class F> static bool throws_logic(F f) {
  try { f(); } catch (const std::logic_error& e) {
    // std::bad_optional_access is no logic_error; operator[] out of range is not an exception
    return true; } catch (...) { return false; }
  return false;
}
static int run(const std::string& c) {
  if (c == "hash") {
    std::vector<unsigned char> m(16);
    for (int i = 0; i < 16; i++) m[i] = i;
    auto a = Hash().Update(m).Finalize();
    Hash h; for (auto b : m) h.Update(&b, 1);
    return a == h.Finalize() ? 0 : 1;  // one call or byte by byte: same message
  }
  if (c == "eof") {
    auto s = std::make_shared<Sys>();
    n::TCPServerConnector k(s, 4000); k.Connect();
    unsigned char b[4];
    try { k.Recv(b, 4); } catch (...) { return 0; }
    return 1;
  }
  if (c == "local") {
    auto q = n::LocalConnector::MakeBuffer(); n::LocalConnector k(q, q);
    unsigned char b[6] = {1, 2, 3, 4, 5, 6}, r[6] = {0};
    k.Send(b, 6); k.Send(b, 2);
    k.Recv(r, 2); k.Recv(r + 2, 4);
    return std::equal(b, b + 6, r) ? 0 : 1;
  }
  if (c == "drain" || c == "asyncerr") {
    struct Slow : n::Connector {
      std::atomic<int>& d; bool fail; bool closed = false;
      Slow(std::atomic<int>& d, bool f) : d(d), fail(f) {}
      std::int64_t Send(const unsigned char*, std::size_t z) override {
        if (fail) throw std::runtime_error("send");
        std::this_thread::sleep_for(std::chrono::milliseconds(20)); if (!closed) d++; return z; }
      std::int64_t Recv(unsigned char*, std::size_t z) override { return z; }
      std::string ToString() const override { return ""; }
      void EstablishConnection() override {}
      void TeardownConnection() override { closed = true; }
    };
    std::atomic<int> d{0};
    std::unique_ptr<n::Connector> k = std::make_unique<Slow>(d, c == "asyncerr");
    n::AsyncSenderChannel ch(k);
    ch.Open(); unsigned char b = 1; for (int i = 0; i < 5; i++) ch.Send(&b, 1);
    try { ch.Close(); } catch (...) { return c == "asyncerr" ? 0 : 1; }
    if (c == "asyncerr") return 1;
    return d == 5 ? 0 : 1;
  }
  if (c == "port") return throws_logic([] { n::Network::Builder().BasePort(65536); }) ? 0 : 1;
  if (c == "ips") {
    std::ofstream("ips.txt") << "0.0.0.0\n";
    auto b = n::Network::Builder().LocalPeerId(0).TransportType(n::Network::TransportType::eTcp);
    auto b2 = b; b2.Size(3);
    auto b3 = b; b3.ConnectionFile("ips.txt").Size(3);
    return throws_logic([&] { b2.Build(); }) && throws_logic([&] { b3.Build(); }) ? 0 : 1;
  }
  if (c == "mult") {
    std::atomic<int> bad{0};
    std::vector<std::vector<Shr>> out(4);
    auto rep = CreateReplicator(4);
    lib::primitives::PRG p;
    auto x = rep.Share(Field(3), p), y = rep.Share(Field(5), p), z = rep.Share(Field(7), p);
    // random shares from default PRGs, consistent for all parties only if made so:
    std::vector<lib::primitives::PRG> own, seeds;
    auto key = [](int i, int j) { unsigned char s[16] = {0}; s[0] = i + 1; s[1] = j + 1; return lib::primitives::PRG(s); };
    parties(4, [&](int id, std::shared_ptr<Net> net) {
      ShrManipulator man(id, 1, 4); Correlator cor(id, rep);
      std::vector<lib::primitives::PRG> o; for (int j = 0; j < 4; j++) o.push_back(key(id, j));
      cor.SetOwnPRGs(o);
      for (int i = 0; i < 3; i++) { std::vector<lib::primitives::PRG> r; for (int j : rep.IndexSetFor(id)) r.push_back(key(i, j)); cor.SetRandPRGs(r, i); }
      CheckData cd(1); Mult m(net, rep, man, cor, cd);
      m.Prepare(x[id], y[id]); m.Prepare(x[id], z[id]); out[id] = m.Run();
    });
    std::vector<Shr> a, b; for (auto& o : out) { a.push_back(o[0]); b.push_back(o[1]); }
    try { return rep.ErrorDetection(a) == Field(15) && rep.ErrorDetection(b) == Field(21) ? 0 : 1; } catch (...) { return 1; }
  }
  if (c == "rectable") {
    ShrManipulator m(0, 1, 4);
    auto d = m.GetDoubleReplicator(); auto t = m.GetTableRec(); auto ix = d.IndexSetFor(0);
    for (std::size_t i = 0; i < t.size(); i++) {
      auto s = d.Combination(ix[i]);
      std::vector<unsigned> want; for (int p = 0; p < 4; p++) if (std::find(s.begin(), s.end(), p) == s.end()) want.push_back(p);
      if (want != t[i].party_set) return 1;
    }
    return 0;
  }
  if (c == "input7" || c == "input2") {
    int N = c == "input7" ? 7 : 4;
    std::vector<std::vector<std::vector<Shr>>> out(N);
    std::vector<bool> same(N);
    auto rep = CreateReplicator(N);
    parties(N, [&](int id, std::shared_ptr<Net> net) {
      unsigned char s[16] = {0}; s[0] = id + 1;
      auto cor = InputSetup(net, rep, lib::primitives::PRG(s)).Run();
      Input in(net, ShrManipulator(id, (N - 1) / 3, N), cor);
      in.Prepare(Field(10 + id)); in.Prepare(Field(20 + id));
      for (int j = 0; j < N; j++) if (j != id) in.PrepareToReceive(j, 2);
      out[id] = in.Run();
    });
    for (int j = 0; j < N; j++) for (int k = 0; k < 2; k++) {
      if (c == "input7" && k) continue;
      std::vector<Shr> s; for (auto& o : out) s.push_back(o[j][k]);
      if (rep.Reconstruct(s) != Field((k ? 20 : 10) + j)) return 1;
    }
    return 0;
  }
  if (c == "tostring") {
    lib::math::Matrix<Field> m(2, 3);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m(i, j) = Field(10 * i + j);
    auto t = m.ToString();
    return t.find("12 ]") != std::string::npos && std::count(t.begin(), t.end(), '[') == 2 ? 0 : 1;
  }
  if (c == "submatrix")
    return throws_logic([] { lib::math::Matrix<Field> m(2, 2); m.extract_submatrix(1, 3, 0, 1); }) ? 0 : 1;
  if (c == "listenfd") {
    auto s = std::make_shared<Sys>(); n::TCPServerConnector k(s, 4000); k.Connect(); k.Close();
    for (auto& o : s->open) if (o.second) return 1;
    return 0;
  }
  if (c == "errfd") {
    auto s = std::make_shared<Sys>(); s->fail_bind = true; n::TCPServerConnector k(s, 4000);
    try { k.Connect(); } catch (...) {}
    for (auto& o : s->open) if (o.second) return 1;
    return 0;
  }
  if (c == "connect") {
#ifdef HAVE_CONNECT
    auto s = std::make_shared<Sys>(); n::TCPClientConnector k(s, 4000, "127.0.0.1"); k.Connect();
    return s->conn == 1 ? 0 : 1;
#else
    return 1;
#endif
  }
  if (c == "checkbound") {
    // party 1 of 4 is in U: its compressed data goes into the transcript. The
    // compressed data is private: read the guard's effect through a layout probe.
    Fab f; auto net = std::make_shared<Net>(f, 1, 4);
    auto rep = CreateReplicator(4); ShrManipulator man(1, 1, 4); CheckData cd(1);
    cd.counter = 1; cd.shares_sent_to_p1 = {Field(1)}; cd.values_recv_from_p1 = {Field(1)};
    Check k(net, rep, man, cd);
    k.ComputeRandomCoefficients();
    auto snap = [&] { std::vector<unsigned char> v((unsigned char*)&k, (unsigned char*)&k + sizeof(k)); return v; };
    auto a = snap(); k.PrepareLinearCombinations();
    return a == snap() ? 1 : 0;
  }
  std::cerr << "unknown case\n";
  return 2;
}
int main(int, char** v) { return run(v[1]); }
