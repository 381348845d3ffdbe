// Uses of the connections and channels that C18, C19, C23 and C25 are decided on.
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/sysi.h"

using namespace frn::lib::net;

namespace code {

// what the analysis is told about; not defined
std::string host();
void seen(Connector &c);
void seen(Channel &c);
void state(int expected);                                       // expected state of the connection here
void transfer(int dir, const unsigned char *b, std::size_t n);  // 0 send, 1 receive
void done();
void done(std::int64_t result);
std::int64_t part(int dir, const unsigned char *b, std::size_t n);  // a connection moves some of the bytes

struct Parts : Connector {
  std::int64_t Send(const unsigned char *b, std::size_t n) override { return part(0, b, n); }
  std::int64_t Recv(unsigned char *b, std::size_t n) override { return part(1, b, n); }
  std::string ToString() const override { return ""; }

 protected:
  void EstablishConnection() override {}
  void TeardownConnection() override {}
};

void client(int port) {
  auto sys = std::make_shared<SystemInterface>();
  TCPClientConnector c(sys, port, host());
  seen(c);
  state(0);
  c.Connect();
  state(1);
  c.Close();
  state(2);
}

void server(int port) {
  auto sys = std::make_shared<SystemInterface>();
  TCPServerConnector c(sys, port);
  seen(c);
  state(0);
  c.Connect();
  state(1);
  c.Close();
  state(2);
}

void client_send(const unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  TCPClientConnector c(sys, 5000, host());
  c.Connect();
  seen(c);
  transfer(0, b, n);
  auto r = c.Send(b, n);
  done(r);
  state(1);
}

void client_recv(unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  TCPClientConnector c(sys, 5000, host());
  c.Connect();
  seen(c);
  transfer(1, b, n);
  auto r = c.Recv(b, n);
  done(r);
  state(1);
}

void server_send(const unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  TCPServerConnector c(sys, 5000);
  c.Connect();
  seen(c);
  transfer(0, b, n);
  auto r = c.Send(b, n);
  done(r);
  state(1);
}

void server_recv(unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  TCPServerConnector c(sys, 5000);
  c.Connect();
  seen(c);
  transfer(1, b, n);
  auto r = c.Recv(b, n);
  done(r);
  state(1);
}

void channel_send(const unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  std::unique_ptr<Connector> c = std::make_unique<TCPServerConnector>(sys, 5000);
  Channel h(c);
  seen(h);
  state(0);
  h.Open();
  state(1);
  transfer(0, b, n);
  h.Send(b, n);
  done();
  h.Close();
  state(2);
}

void channel_recv(unsigned char *b, std::size_t n) {
  auto sys = std::make_shared<SystemInterface>();
  std::unique_ptr<Connector> c = std::make_unique<TCPServerConnector>(sys, 5000);
  Channel h(c);
  seen(h);
  state(0);
  h.Open();
  state(1);
  transfer(1, b, n);
  h.Recv(b, n);
  done();
  h.Close();
  state(2);
}

void parts_send(const unsigned char *b, std::size_t n) {
  std::unique_ptr<Connector> c = std::make_unique<Parts>();
  Channel h(c);
  transfer(0, b, n);
  h.Send(b, n);
  done();
}

void parts_recv(unsigned char *b, std::size_t n) {
  std::unique_ptr<Connector> c = std::make_unique<Parts>();
  Channel h(c);
  transfer(1, b, n);
  h.Recv(b, n);
  done();
}

void local(const unsigned char *x, std::size_t nx, const unsigned char *y, std::size_t ny, unsigned char *u, std::size_t nu, unsigned char *v,
           std::size_t nv) {
  auto p = LocalConnector::MakeBuffer(), q = LocalConnector::MakeBuffer();
  std::unique_ptr<Connector> a = std::make_unique<LocalConnector>(p, q), b = std::make_unique<LocalConnector>(q, p);
  Channel s(a), r(b);
  transfer(0, x, nx);
  s.Send(x, nx);
  transfer(0, y, ny);
  s.Send(y, ny);
  transfer(1, u, nu);
  r.Recv(u, nu);
  done();
  transfer(1, v, nv);
  r.Recv(v, nv);
  done();
}

void local_self(const unsigned char *x, std::size_t nx, const unsigned char *y, std::size_t ny, unsigned char *u, std::size_t nu,
                unsigned char *v, std::size_t nv) {
  auto p = LocalConnector::MakeBuffer();
  LocalConnector c(p, p);
  transfer(0, x, nx);
  c.Send(x, nx);
  transfer(1, u, nu);
  auto k = c.Recv(u, nu);
  done(k);
  transfer(0, y, ny);
  c.Send(y, ny);
  transfer(1, v, nv);
  auto l = c.Recv(v, nv);
  done(l);
}

// the replaceable interface
int p_errno(SystemInterface *s) { return s->get_errno(); }
int p_close(SystemInterface *s, int a) { return s->close(a); }
int p_inet(SystemInterface *s, int a, const char *b, void *c) { return s->inet_to_int(a, b, c); }
int p_socket(SystemInterface *s, int a, int b, int c) { return s->create_socket(a, b, c); }
ssize_t p_write(SystemInterface *s, int a, const void *b, std::size_t c) { return s->write(a, b, c); }
ssize_t p_read(SystemInterface *s, int a, void *b, std::size_t c) { return s->read(a, b, c); }
int p_options(SystemInterface *s, int a, int b, int c, const void *d, socklen_t f) { return s->set_socket_options(a, b, c, d, f); }
int p_connect(SystemInterface *s, int a, const struct sockaddr *b, socklen_t c) { return s->connect(a, b, c); }
int p_bind(SystemInterface *s, int a, const struct sockaddr *b, socklen_t c) { return s->bind(a, b, c); }
int p_listen(SystemInterface *s, int a, int b) { return s->listen(a, b); }
int p_accept(SystemInterface *s, int a, struct sockaddr *b, socklen_t *c) { return s->accept(a, b, c); }

}  // namespace code
