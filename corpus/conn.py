# connections and channels (C18, C19, C25)
A = 'C18,C19,C25'
CC, CH, CN = 'lib/net/connector.cc', 'lib/net/connector.h', 'lib/net/channel.h'
SEND = '''  size_t rem = size;
  size_t offset = 0;

  while (rem > 0) {
    auto n = mSystem->write(mSocket, buffer + offset, rem);

    if (n < 0) set_error_and_throw("write failed");

    rem -= n;
    offset += n;
  }

  return size;'''
RECV = '''  while (rem > 0) {
    auto n = mSystem->read(mSocket, buffer + offset, rem);

    // other end disconnected.
    if (!n) {
      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");
    }
    if (n < 0) set_error_and_throw("recv failed");

    rem -= n;
    offset += n;
  }

  return size;'''
SETERR = '''    mState = Connector::State::eError;
    auto err = mSystem->get_errno();
    if (sock >= 0) mSystem->close(sock);
    throw std::system_error(err, std::generic_category(),
                            error_message.c_str());'''
LRECV = '''    auto &data = mIncoming->Front();
    auto actual_size = std::min(data.size(), size);
    std::memcpy(buffer, data.data(), actual_size);
    if (actual_size == data.size())
      mIncoming->PopFront();
    else
      data.erase(data.begin(), data.begin() + actual_size);
    return actual_size;'''
ENTRIES = [
    ('same', A, 'Q', []),
    # --- behaviour kept
    ('q-send-for', A, 'Q', [(CC, SEND, '''  size_t offset = 0;
  for (offset = 0; offset < size;) {
    const auto n = mSystem->write(mSocket, buffer + offset, size - offset);
    if (n < 0) { set_error_and_throw("write failed"); }
    offset += static_cast<size_t>(n);
  }
  return static_cast<std::int64_t>(size);''')]),
    ('q-send-pointers', A, 'Q', [(CC, SEND, '''  const unsigned char* cur = buffer;
  const unsigned char* const end = buffer + size;
  while (cur != end) {
    ssize_t n = mSystem->write(mSocket, cur, end - cur);
    if (n < 0) set_error_and_throw("write failed");
    cur += n;
  }
  return size;''')]),
    ('q-recv-switch', A, 'Q', [(CC, RECV, '''  for (;;) {
    if (offset == size) break;
    auto n = mSystem->read(mSocket, buffer + offset, size - offset);
    if (n == 0) {
      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");
    } else if (n == -1) {
      set_error_and_throw("recv failed");
    }
    offset += n;
    rem = size - offset;
  }
  return offset;''')]),
    ('q-recv-helper', A, 'Q', [(CC, RECV, '''  auto once = [&]() {
    auto n = mSystem->read(mSocket, buffer + offset, rem);
    if (n < 0) set_error_and_throw("recv failed");
    if (n == 0) {
      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");
    }
    return n;
  };
  while (rem != 0) {
    auto n = once();
    offset += n;
    rem -= n;
  }
  return size;''')]),
    ('q-recv-do', A, 'Q', [(CC, '  while (rem > 0) {\n    auto n = mSystem->read(mSocket, buffer + offset, rem);', '  if (rem == 0) return 0;\n  do {\n    auto n = mSystem->read(mSocket, buffer + offset, rem);'),
                           (CC, '''    rem -= n;
    offset += n;
  }

  return size;
}

using SystemInterface''', '''    rem -= n;
    offset += n;
  } while (rem > 0);

  return size;
}

using SystemInterface''')]),
    ('q-seterr-order', A, 'Q', [(CH, SETERR, '''    const int err = mSystem->get_errno();
    mState.store(Connector::State::eError);
    if (sock > -1) {
      mSystem->close(sock);
    }
    std::error_code code(err, std::generic_category());
    throw std::system_error(code, error_message);''')]),
    ('q-connect-while', A, 'Q', [(CC, '''  while (true) {
    if (mSystem->connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);
    } else {
      break;
    }
  }

  mSocket = sock;''', '''  const auto* peer = reinterpret_cast<struct sockaddr*>(&addr);
  while (mSystem->connect(sock, peer, sizeof addr) < 0)
    std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);

  mSocket = sock;''')]),
    ('q-server-helper', A, 'Q', [(CC, '''  if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
    set_error_and_throw("bind", ssock);

  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen", ssock);
''', '''  auto require = [this, ssock](int result, const char* what) {
    if (result < 0) set_error_and_throw(what, ssock);
  };
  require(mSystem->bind(ssock, addr_ptr, sizeof(addr)), "bind");
  require(mSystem->listen(ssock, 1), "listen");
''')]),
    ('q-server-trycatch', A, 'Q', [(CC, '''  if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
    set_error_and_throw("bind", ssock);
''', '''  try {
    if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
      set_error_and_throw("bind");
  } catch (const std::system_error&) {
    mSystem->close(ssock);
    throw;
  }
''')]),
    ('q-channel-for', A, 'Q', [(CN, '''    std::size_t bytes_recv = 0;
    while (bytes_recv < size) {
      auto n = mConnector->Recv(buffer + bytes_recv, size - bytes_recv);
      bytes_recv += n;
    }''', '''    for (std::size_t left = size; left > 0;) {
      auto n = mConnector->Recv(buffer + (size - left), left);
      left -= n;
    }''')]),
    ('q-channel-move', A, 'Q', [(CN, '''    std::size_t bytes_sent = 0;
    while (bytes_sent < size) {
      auto n = mConnector->Send(buffer + bytes_sent, size - bytes_sent);
      bytes_sent += n;
    }''', '''    while (size > 0) {
      const auto n = mConnector->Send(buffer, size);
      buffer += n;
      size -= n;
    }''')]),
    ('q-local-if', A, 'Q', [(CH, LRECV, '''    auto &data = mIncoming->Front();
    const std::size_t available = data.size();
    if (available <= size) {
      std::copy(data.begin(), data.end(), buffer);
      mIncoming->PopFront();
      return available;
    }
    std::copy_n(data.begin(), size, buffer);
    data.erase(data.begin(), data.begin() + size);
    return size;''')]),
    ('q-local-assign', A, 'Q', [(CH, LRECV, '''    auto &data = mIncoming->Front();
    auto actual_size = data.size() < size ? data.size() : size;
    std::memcpy(buffer, data.data(), actual_size);
    if (actual_size < data.size()) {
      data = std::vector<unsigned char>(data.begin() + actual_size, data.end());
    } else {
      mIncoming->PopFront();
    }
    return actual_size;''')]),
    ('q-teardown', A, 'Q', [(CC, '''  auto err = mSystem->close(mSocket);
  if (err < 0) set_error_and_throw("error while closing socket");''', '''  if (mSystem->close(mSocket) == 0) return;
  set_error_and_throw("error while closing socket");''')]),
    ('q-teardown-reset', A, 'Q', [(CC, '''  auto err = mSystem->close(mSocket);
''', '''  const int fd = mSocket;
  mSocket = -1;
  auto err = mSystem->close(fd);
''')]),
    ('q-raii', A, 'Q', [(CC, '''void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int ssock''', '''namespace {
struct Note {
  int& n;
  Note(int& x) : n(x) { n = 1; }
  ~Note() { n = 0; }
};
}  // namespace
void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int busy = 0;
  Note note(busy);
  int ssock''')]),
    ('q-raii-guard', A, 'Q', [(CC, '''void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int ssock''', '''namespace {
struct SocketGuard {
  std::shared_ptr<SystemInterface> system;
  int fd;
  ~SocketGuard() {
    if (fd >= 0) system->close(fd);
  }
  int release() {
    int r = fd;
    fd = -1;
    return r;
  }
};
}  // namespace
void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int ssock'''), (CC, '''  int opt = 1;
''', '''  SocketGuard guard{mSystem, ssock};
  int opt = 1;
'''), (CC, 'on socket", ssock', 'on socket"'), (CC, '"bind", ssock', '"bind"'), (CC, '"listen", ssock', '"listen"'), (CC, 'from client", ssock', 'from client"'),
     (CC, 'mSystem->close(ssock) < 0', 'mSystem->close(guard.release()) < 0')]),
    ('raii-double', 'C25', 'V', [(CC, '''void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int ssock''', '''namespace {
struct SocketGuard {
  std::shared_ptr<SystemInterface> system;
  int fd;
  ~SocketGuard() {
    if (fd >= 0) system->close(fd);
  }
};
}  // namespace
void frn::lib::net::TCPServerConnector::EstablishConnection() {
  int ssock'''), (CC, '''  int opt = 1;
''', '''  SocketGuard guard{mSystem, ssock};
  int opt = 1;
'''), (CC, 'on socket", ssock', 'on socket"'), (CC, '"bind", ssock', '"bind"'), (CC, '"listen", ssock', '"listen"'), (CC, 'from client", ssock', 'from client"')]),
    # --- behaviour broken
    ('send-no-offset', 'C18', 'V', [(CC, 'write(mSocket, buffer + offset, rem)', 'write(mSocket, buffer, rem)')]),
    ('send-size', 'C18', 'V', [(CC, 'write(mSocket, buffer + offset, rem)', 'write(mSocket, buffer + offset, size)')]),
    ('send-one', 'C18', 'V', [(CC, '''    rem -= n;
    offset += n;
  }''', '''    rem = 0;
    offset += n;
  }''')]),
    ('send-chunk', 'C18', 'V', [(CC, 'while (rem > 0) {', 'while (rem > 1) {')]),
    ('send-int', 'C18', 'v', [(CC, '  size_t rem = size;', '  unsigned int rem = size;')]),
    ('recv-short', 'C18', 'V', [(CC, RECV, RECV.replace('rem -= n;', 'rem -= n;\n    if (n < 16) break;'))]),
    ('recv-eof-return', 'C18', 'V', [(CC, '''      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");''', '''      mState = Connector::State::eError;
      return offset;''')]),
    ('recv-eof-size', 'C18', 'V', [(CC, '''      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");''', '''      if (offset > 0) return size;
      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");''')]),
    ('recv-eof-state', 'C25', 'V', [(CC, '''      mState = Connector::State::eError;
      throw std::runtime_error("connection closed by peer");''', '''      throw std::runtime_error("connection closed by peer");''')]),
    ('recv-err-break', 'C18,C19', 'V', [(CC, 'if (n < 0) set_error_and_throw("recv failed");', 'if (n < 0) break;')]),
    ('recv-err-late', 'C18,C19', 'v', [(CC, 'if (n < 0) set_error_and_throw("recv failed");', 'if (n < 0 && offset == 0) set_error_and_throw("recv failed");\n    if (n < 0) continue;')]),
    ('recv-eintr', 'C19', 'V', [(CC, 'if (n < 0) set_error_and_throw("recv failed");', 'if (n < 0 && mSystem->get_errno() == EINTR) return offset;\n    if (n < 0) set_error_and_throw("recv failed");')]),
    ('errno-after-close', 'C19', 'V', [(CH, SETERR, SETERR.replace('    auto err = mSystem->get_errno();\n', '').replace('    throw', '    auto err = mSystem->get_errno();\n    throw'))]),
    ('errno-constant', 'C19', 'V', [(CH, 'throw std::system_error(err,', 'throw std::system_error(5,')]),
    ('errno-runtime', 'C19', 'V', [(CH, '''    throw std::system_error(err, std::generic_category(),
                            error_message.c_str());''', '''    (void)err;
    throw std::runtime_error(error_message);''')]),
    ('state-missing', 'C25', 'V', [(CH, '''    mState = Connector::State::eError;
    auto err''', '''    auto err''')]),
    ('leak-bind', 'C25', 'V', [(CC, 'set_error_and_throw("bind", ssock);', 'set_error_and_throw("bind");')]),
    ('leak-accept', 'C25', 'V', [(CC, 'set_error_and_throw("could not accept connection from client", ssock);', 'set_error_and_throw("could not accept connection from client", sock);')]),
    ('leak-listen-close', 'C25', 'V', [(CC, 'set_error_and_throw("error while closing listening socket", sock);', 'set_error_and_throw("error while closing listening socket");')]),
    ('keep-listening', 'C25', 'V', [(CC, '''  if (mSystem->close(ssock) < 0)
    set_error_and_throw("error while closing listening socket", sock);
''', '')]),
    ('close-wrong', 'C25', 'V', [(CC, '  if (mSystem->close(ssock) < 0)\n', '  if (mSystem->close(sock) < 0)\n')]),
    ('accept-zero', 'C25', 'V', [(CC, 'if (sock < 0) set_error_and_throw("could not accept', 'if (sock <= 0) set_error_and_throw("could not accept')]),
    ('bind-unchecked', 'C19', 'V', [(CC, '''  if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
    set_error_and_throw("bind", ssock);''', '''  mSystem->bind(ssock, addr_ptr, sizeof(addr));''')]),
    ('close-unchecked', 'C19', 'V', [(CC, '  if (err < 0) set_error_and_throw("error while closing socket");', '  (void)err;')]),
    ('options-positive', 'C19', 'V', [(CC, '  if (err < 0) set_error_and_throw("could not set options', '  if (err > 0) set_error_and_throw("could not set options')]),
    ('connect-once', 'C19', 'V', [(CC, '      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);', '      set_error_and_throw("connect", sock);')]),
    ('connect-twice', 'C19', 'V', [(CC, '  while (true) {\n    if (mSystem->connect', '  int tries = 0;\n  while (true) {\n    if (++tries > 3) break;\n    if (mSystem->connect')]),
    ('connect-new-socket', 'C25', 'V', [(CC, '      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);', '      std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);\n      sock = mSystem->create_socket(AF_INET, SOCK_STREAM, 0);')]),
    ('direct-close', 'C19', 'V', [(CC, 'auto err = mSystem->close(mSocket);', 'auto err = ::close(mSocket);'), (CC, '#include <cerrno>', '#include <unistd.h>\n#include <cerrno>')]),
    ('direct-errno', 'C19', 'Q', [(CH, 'auto err = mSystem->get_errno();', 'auto err = errno;')]),
    ('hostname-ignored', 'C19', 'V', [(CC, '''  if (read_hostname(mSystem, mHostname, &addr) == -1)
    set_error_and_throw("hostname");

  int sock''', '''  read_hostname(mSystem, mHostname, &addr);

  int sock''')]),
    ('pass-close', 'C19', 'V', [('lib/net/sysi.cc', 'return ::close(fd);', '::close(fd);\n  return 0;')]),
    ('pass-write', 'C19', 'V', [('lib/net/sysi.cc', 'return ::write(fd, buf, count);', 'return ::write(fd, buf, (unsigned)count);')]),
    ('pass-read-retry', 'C19', 'V', [('lib/net/sysi.cc', 'return ::read(fd, buf, count);', 'ssize_t n = ::read(fd, buf, count);\n  return n < 0 ? 0 : n;')]),
    ('pass-accept', 'C19', 'V', [('lib/net/sysi.cc', 'return ::accept(sockfd, addr, addrlen);', 'return ::accept(sockfd, nullptr, addrlen);')]),
    ('pass-socket-type', 'C19', 'V', [('lib/net/sysi.cc', 'return ::socket(domain, type, protocol);', 'return ::socket(domain, type | 1, protocol);')]),
    ('not-virtual', 'C19', 'V', [('lib/net/sysi.h', '  virtual ssize_t read(', '  ssize_t read(')]),
    ('active-early', 'C25', 'V', [(CH, '''    EstablishConnection();
    this->mState = State::eActive;''', '''    this->mState = State::eActive;
    EstablishConnection();'''), (CH, '    mState = Connector::State::eError;\n    auto err', '    auto err')]),
    ('closed-early', 'C25', 'V', [(CH, '''    TeardownConnection();
    this->mState = State::eClosed;''', '''    try { TeardownConnection(); } catch (...) { this->mState = State::eClosed; throw; }
    this->mState = State::eClosed;''')]),
    ('not-closed', 'C25', 'V', [(CH, '    this->mState = State::eClosed;', '')]),
    ('local-pop', 'C18', 'V', [(CH, LRECV, LRECV.replace('if (actual_size == data.size())', 'if (actual_size <= data.size())'))]),
    ('local-erase', 'C18', 'V', [(CH, 'data.erase(data.begin(), data.begin() + actual_size);', 'data.erase(data.begin(), data.begin() + actual_size - 1);')]),
    ('local-size', 'C18', 'V', [(CH, '    return actual_size;', '    return size;')]),
    ('local-max', 'C18', 'V', [(CH, 'std::min(data.size(), size)', 'std::max(data.size(), size)')]),
    ('local-share', 'C18', 'V', [(CH, ': mOutgoing(out), mIncoming(in)', ': mOutgoing(out), mIncoming(out)')]),
    ('local-send-less', 'C18', 'V', [(CH, 'std::vector<unsigned char>(buffer, buffer + size)', 'std::vector<unsigned char>(buffer, buffer + size - (size > 4))')]),
    ('channel-once', 'C18', 'V', [(CN, '''    while (bytes_recv < size) {
      auto n = mConnector->Recv(buffer + bytes_recv, size - bytes_recv);
      bytes_recv += n;
    }''', '''    if (bytes_recv < size) {
      auto n = mConnector->Recv(buffer + bytes_recv, size - bytes_recv);
      bytes_recv += n;
    }''')]),
    ('channel-nooffset', 'C18', 'V', [(CN, 'mConnector->Send(buffer + bytes_sent, size - bytes_sent)', 'mConnector->Send(buffer, size - bytes_sent)')]),
    ('channel-size', 'C18', 'V', [(CN, 'mConnector->Recv(buffer + bytes_recv, size - bytes_recv)', 'mConnector->Recv(buffer + bytes_recv, size)')]),
    ('channel-byte', 'C18', 'V', [(CN, 'bytes_sent += n;', 'bytes_sent += static_cast<unsigned char>(n);')]),
]
