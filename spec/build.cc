// Building and connecting networks, for C22 and C23.
#include <memory>
#include <string>

#include "frn/lib/logging/logger.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/network.h"

using Net = frn::lib::net::Network;

namespace code {

// what the analysis is told about; not defined
int steps();
int step(int k);  // which option is set in step k
int option(int k);
std::string file();
void logged(int what);
void built(const Net &net, int id, std::size_t n);
void opening(int k);
void opened();
frn::lib::net::Channel &channel(int k);  // the channel of party k

struct Recorder : frn::lib::logging::Logger {
  std::string ToString() const override { return ""; }

 protected:
  void LogBegin(Level) override { logged(0); }
  void Log(const std::string &) override {}
  void LogEnd(Level) override {}
};

Net describe(int id, std::size_t n, int port) {
  Net::Builder b;
  for (int k = 0; k < steps(); k++) {
    switch (step(k)) {
      case 0:
        b.LocalPeerId(id);
        break;
      case 1:
        b.Size(n);
        break;
      case 2:
        b.TransportType(Net::TransportType::eTcp);
        break;
      case 3:
        b.TransportType(Net::TransportType::eFake);
        break;
      case 4:
        b.BasePort(port);
        break;
      case 5:
        b.ConnectionFile(file());
        break;
      case 6:
        b.AllPartiesLocal();
        break;
      case 7:
        b.Logger(std::make_shared<code::Recorder>());
        break;
      case 8:
        b.LocalPeerId(option(k));
        break;
      case 9:
        b.Size(option(k));
        break;
    }
  }
  return b.Build();
}

void build(int id, std::size_t n, int port) {
  Net net = describe(id, n, port);
  built(net, net.LocalPeerId(), net.Size());
}

void shared(int id, std::size_t n, int port) {
  Net::Builder b;
  b.LocalPeerId(id).TransportType(Net::TransportType::eTcp).Size(n).BasePort(port).AllPartiesLocal();
  auto net = b.BuildShared();
  built(*net, net->LocalPeerId(), net->Size());
}

void ends(int id, std::size_t n, int port) {
  Net net = describe(id, n, port);
  built(net, net.LocalPeerId(), net.Size());
  for (int k = 0; k < (int)n; k++) {
    opening(k);
    channel(k).Open();
    opened();
  }
}

void client(int port) {
  auto sys = std::make_shared<frn::lib::net::SystemInterface>();
  frn::lib::net::TCPClientConnector c(sys, port, "127.0.0.1");
  opening(0);
  c.Connect();
  opened();
}

void server(int port) {
  auto sys = std::make_shared<frn::lib::net::SystemInterface>();
  frn::lib::net::TCPServerConnector c(sys, port);
  opening(0);
  c.Connect();
  opened();
}

}  // namespace code
