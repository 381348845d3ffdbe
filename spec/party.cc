// A party's network, for C24.
#include "frn/tcp_network.h"

using frn::Field;
using frn::Shr;
using Bytes = std::vector<unsigned char>;
using Lib = frn::lib::net::Network;

namespace code {

// what the analysis is told about; not defined
int steps();
int kind(int k);
unsigned to(int k);
std::size_t count(int k);
Field::ValueType value(int k, std::size_t i);
void message(int k, Bytes &b);
void made(const frn::Network &net, unsigned id, std::size_t n);
void lib(const Lib &net);
void phase(int p);                                        // 1 connecting, 2 in use, 3 closing, 4 done
void want(int k, const unsigned char *b, std::size_t n);  // bytes that have to be sent in step k
void begin(int k);
void end(int k);
void got(int k, std::size_t n);                               // number of items received
void raw(int k, std::size_t i, unsigned char *b);             // the bytes of item i as they came
void item(int k, std::size_t i, const unsigned char *have, const unsigned char *should, std::size_t n);
void whole(int k, const unsigned char *b, std::size_t n);
void summary(int on);

void wanted(int k, const std::vector<Field> &v) {
  for (const auto &x : v) {
    unsigned char b[8];
    x.ToBytes(b);
    want(k, b, 8);
  }
}

void check(int k, std::size_t i, const Field &x) {
  unsigned char b[8], c[8], d[8];
  x.ToBytes(b);
  raw(k, i, c);
  Field::FromBytes(c).ToBytes(d);
  item(k, i, b, d, 8);
}

std::vector<Field> some(int k, std::size_t from, std::size_t c) {
  std::vector<Field> v;
  for (std::size_t i = 0; i < c; i++) v.emplace_back(Field(value(k, from + i)));
  return v;
}

void perform(frn::Network &net, int k, std::size_t size) {
  const unsigned q = to(k);
  const std::size_t c = count(k);
  switch (kind(k)) {
    case 0: {
      const std::vector<Field> v = some(k, 0, c);
      wanted(k, v);
      begin(k);
      net.Send(q, v);
      end(k);
      break;
    }
    case 1: {
      std::vector<Shr> v;
      for (std::size_t i = 0; i < c; i++) {
        const std::vector<Field> s = some(k, i * size, size);
        wanted(k, s);
        v.emplace_back(Shr(s));
      }
      begin(k);
      net.SendShares(q, v);
      end(k);
      break;
    }
    case 2: {
      Bytes b(c);
      message(k, b);
      want(k, b.data(), b.size());
      begin(k);
      net.SendBytes(q, b);
      end(k);
      break;
    }
    case 3: {
      begin(k);
      const std::vector<Field> r = net.Recv(q, c);
      end(k);
      got(k, r.size());
      for (std::size_t i = 0; i < r.size(); i++) check(k, i, r[i]);
      break;
    }
    case 4: {
      begin(k);
      const std::vector<Shr> r = net.RecvShares(q, c);
      end(k);
      got(k, r.size());
      std::size_t j = 0;
      for (std::size_t i = 0; i < r.size(); i++) {
        const std::vector<Field> s = static_cast<const std::vector<Field>>(r[i]);
        for (std::size_t l = 0; l < s.size(); l++) check(k, j++, s[l]);
      }
      break;
    }
    case 5: {
      begin(k);
      const Bytes r = net.RecvBytes(q, c);
      end(k);
      got(k, r.size());
      whole(k, r.data(), r.size());
      break;
    }
  }
}

void traffic(unsigned id, std::size_t n, unsigned port, bool log, std::size_t size) {
  auto net = frn::TcpNetwork::CreateWithLocalParties(id, n, port, log);
  made(*net, net->Id(), net->Size());
  phase(1);
  net->Connect();
  phase(2);
  for (int k = 0; k < steps(); k++) perform(*net, k, size);
  summary(1);
  net->PrintCommunicationSummary();
  summary(0);
  phase(3);
  net->Close();
  phase(4);
}

// the network below it
void below(int id, std::size_t n, int port, const unsigned char *b, std::size_t c) {
  Lib::Builder f;
  f.LocalPeerId(id).TransportType(Lib::TransportType::eTcp).Size(n).BasePort(port).AllPartiesLocal();
  Lib net = f.Build();
  lib(net);
  phase(1);
  net.Connect();
  phase(2);
  for (int k = 0; k < steps(); k++) {
    begin(k);
    switch (kind(k)) {
      case 6:
        net.SendTo(to(k), b, c);
        break;
      case 7:
        net.Broadcast(b, c);
        break;
      case 8: {
        unsigned char r[64];
        net.RecvFrom(to(k), r, count(k));
        end(k);
        whole(k, r, count(k));
        continue;
      }
    }
    end(k);
  }
  phase(3);
  net.Close();
  phase(4);
}

}  // namespace code
