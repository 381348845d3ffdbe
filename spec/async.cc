// Uses of an asynchronous channel that C20 is decided on.
#include <memory>

#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"

using namespace frn::lib::net;

namespace code {

// what the analysis is told about; not defined
void opened();
void closed();
std::int64_t sent(const unsigned char *b, std::size_t n);  // may fail
void given(const unsigned char *b, std::size_t n);         // the bytes are given to the channel
void reused(const unsigned char *b);                       // the caller uses its buffer for something else
void ended(bool failed);

// a connection that records what it is asked to do
struct Sink : Connector {
  std::int64_t Send(const unsigned char *b, std::size_t n) override { return sent(b, n); }
  std::int64_t Recv(unsigned char *b, std::size_t n) override { return n; }
  std::string ToString() const override { return ""; }

 protected:
  void EstablishConnection() override { opened(); }
  void TeardownConnection() override { closed(); }
};

void give(Channel &c, const unsigned char *b, std::size_t n) {
  given(b, n);
  c.Send(b, n);
}

void finish(Channel &c) {
  bool failed = false;
  try {
    c.Close();
  } catch (...) {
    failed = true;
  }
  ended(failed);
}

void none() {
  std::unique_ptr<Connector> k = std::make_unique<Sink>();
  AsyncSenderChannel c(k);
  c.Open();
  finish(c);
}

void one(const unsigned char *x, std::size_t n) {
  std::unique_ptr<Connector> k = std::make_unique<Sink>();
  AsyncSenderChannel c(k);
  c.Open();
  give(c, x, n);
  reused(x);
  finish(c);
}

void three(const unsigned char *x, std::size_t nx, const unsigned char *y, std::size_t ny, const unsigned char *z, std::size_t nz) {
  std::unique_ptr<Connector> k = std::make_unique<Sink>();
  AsyncSenderChannel c(k);
  c.Open();
  give(c, x, nx);
  give(c, y, ny);
  reused(x);
  give(c, z, nz);
  reused(y);
  reused(z);
  finish(c);
}

// one buffer for several messages
void again(const unsigned char *x, std::size_t nx, std::size_t ny) {
  std::unique_ptr<Connector> k = std::make_unique<Sink>();
  AsyncSenderChannel c(k);
  c.Open();
  give(c, x, nx);
  reused(x);
  give(c, x, ny);
  reused(x);
  finish(c);
}

// like a connection over a socket, which notes a failure in its state
struct Noting : Sink {
  std::int64_t Send(const unsigned char *b, std::size_t n) override {
    try {
      return sent(b, n);
    } catch (...) {
      mState = State::eError;
      throw;
    }
  }
};

void watched(const unsigned char *x, std::size_t nx) {
  std::unique_ptr<Connector> k = std::make_unique<Noting>();
  AsyncSenderChannel c(k);
  c.Open();
  give(c, x, nx);
  c.State();
  finish(c);
}

}  // namespace code
