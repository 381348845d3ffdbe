B = 'lib/net/builder.cc'
C = 'lib/net/connector.cc'
H = 'lib/net/connector.h'
N = 'lib/net/network.h'
def m(name, old, new, *more, f=B, i='C22'): return (name, i, 'V', [(f, old, new)] + list(more))
def q(name, old, new, *more, f=B, i='C22,C23'): return (name, i, 'Q', [(f, old, new)] + list(more))
def m23(name, old, new, *more, f=B): return m(name, old, new, *more, f=f, i='C23')
IDN = 'if (id < 0) throw std::logic_error("identifier cannot be negative");'
IDS = 'if (mSize && (std::size_t)id >= mSize.value())'
SID = 'if (mLocalPeerId && (std::size_t)mLocalPeerId.value() >= n)'
PORT = 'if (invalid_port(port)) throw std::logic_error("port outside allowed range");'
ONE = '''      const auto server_port = id * n + other_id;
      const auto client_port = other_id * n + id;
      return base_port + (is_server ? server_port : client_port);
'''
LOOP = '''    if ((int)i == local_id) {
      connector = make_local_connector();
    } else if ((int)i < local_id) {
      auto port = get_port(false, i);
      connector = std::make_unique<TCPClientConnector>(system, port, ips[i]);
    } else {  // i > local_id
      auto port = get_port(true, i);
      connector = std::make_unique<TCPServerConnector>(system, port);
    }
'''
ENTRIES = [
 m('id-off-by-one', IDS, IDS.replace('>=', '>')),
 m('id-unchecked', IDS, 'if (false)'),
 q('id-negative-later', IDN, ''),
 q('id-minus-one-later', IDN, IDN.replace('< 0', '< -1')),
 m('id-signed', IDN, '', (B, IDS, 'if (mSize && id >= (int)mSize.value())')),
 m('size-off-by-one', SID, SID.replace('>=', '>')),
 m('size-unchecked', SID, 'if (false)'),
 m('size-first-only', SID, SID.replace('(mLocalPeerId', '(mLocalPeerId && !mSize')),
 m('port-unchecked', PORT, ''),
 m('port-low', 'port < 1025 ||', 'port < 1024 ||', f=H),
 m('port-high', 'port > 65535', 'port > 65536', f=H),
 m('port-refuses', 'port > 65535', 'port >= 49151', f=H),
 m('port-exc', PORT, PORT.replace('logic_error', 'runtime_error')),
 m('id-exc', IDN, IDN.replace('logic_error', 'runtime_error')),
 m('no-type', 'if (!mTransportType) throw std::logic_error("transport type not specified");', '', (B, 'auto ttype = mTransportType.value();', 'auto ttype = mTransportType.value_or(Network::TransportType::eTcp);')),
 m('fake-type', 'if (ttype == Network::TransportType::eTcp) {', 'if (ttype == Network::TransportType::eTcp || ttype == Network::TransportType::eFake) {'),
 m('no-size', 'if (!mSize) throw std::logic_error("network size not provided");', '', (B, 'std::size_t n = mSize.value();', 'std::size_t n = mSize.value_or(mIps ? mIps->size() : 1);')),
 m('no-id', 'if (!mLocalPeerId) throw std::logic_error("identifier not set");', '', (B, 'int id = mLocalPeerId.value();', 'int id = mLocalPeerId.value_or(0);')),
 m('ips-count', 'if (mIps->size() != n)', 'if (mIps->size() < n)'),
 m('ips-unchecked', 'if (mIps->size() != n)', 'if (false)'),
 m('ips-missing', 'if (!mIps) throw std::logic_error("addresses of peers not provided");', '', (B, '      if (mIps->size() != n)', '      if (mIps && mIps->size() != n)'), (B, 'ips = mIps.value();', 'if (mIps) ips = mIps.value(); else ips = std::vector<std::string>(n, "127.0.0.1");')),
 m('file-not-open', 'if (!file.is_open()) throw std::logic_error("could not open connection file");', '', (B, '  if (!n) throw std::logic_error("no IPs in provided connection file");\n', '')  , (B, 'if (mSize && n != mSize.value())', 'if (!n) return *this;\n  if (mSize && n != mSize.value())'), (B, 'if (!mIps) throw std::logic_error("addresses of peers not provided");', 'if (!mIps) return Network(id, n, ttype, *new std::vector<std::unique_ptr<Channel>>(create_tcp_channels(0, 1, [](bool, int) { return 5000; }, ips)), logger);')),
 m('default-port', 'mBasePort.value_or(Network::kBasePort)', 'mBasePort.value_or(9000)'),
 m('default-const', 'kBasePort = 9876', 'kBasePort = 9877', f=N),
 m('port-ignored', 'int base_port = mBasePort.value_or(Network::kBasePort);', 'int base_port = Network::kBasePort;'),
 m('logger-dropped', 'return Network(id, n, ttype, channels, logger);', 'return Network(id, n, ttype, channels, std::make_shared<logging::VoidLogger>());'),
 m('wrong-ip', 'system, port, ips[i]);', 'system, port, ips[local_id]);'),
 m('ips-overwritten', 'if (mAllLocal) {', 'if (mAllLocal || n == 2) {'),
 m('ips-shift', 'ips[i]);', 'ips[(i + 1) % size]);'),
 m('channels-minus', 'for (std::size_t i = 0; i < size; ++i) {', 'for (std::size_t i = 0; i + 1 < size; ++i) {'),
 m23('same-formula', 'const auto client_port = other_id * n + id;', 'const auto client_port = id * n + other_id;'),
 m23('client-plus', 'const auto client_port = other_id * n + id;', 'const auto client_port = other_id * n + id + 1;'),
 m23('collide', ONE, ONE.replace('id * n + other_id', 'id + n + other_id').replace('other_id * n + id', 'other_id + n + id')),
 m23('collide-xor', ONE, '''      return base_port + (is_server ? id ^ other_id : other_id ^ id);\n'''),
 m23('collide-ten', ONE, ONE.replace('* n', '* 10')),
 m23('roles', LOOP, LOOP.replace('(int)i < local_id', '(int)i > local_id').replace('get_port(false', 'get_port(FALSE').replace('get_port(true', 'get_port(false').replace('FALSE', 'true').replace('TCPClientConnector>(system, port, ips[i])', 'TCPServerConnector>(system, port)', 1), (B, 'const auto server_port = id * n', 'const auto server_port = id * n')),
 m23('self-tcp', '(int)i == local_id', '(int)i == local_id && size < 3'),
 m23('htons-client', 'addr.sin_port = htons(mPort);\n\n  if', 'addr.sin_port = mPort;\n\n  if', f=C),
 m23('htons-server', 'addr.sin_port = htons(mPort);\n\n  struct', 'addr.sin_port = mPort;\n\n  struct', f=C),
 m23('client-port-wrap', 'addr.sin_port = htons(mPort);\n\n  if', 'addr.sin_port = htons(mPort & 0x7fff);\n\n  if', f=C),
 m23('low-ports', 'if (invalid_port(mPort)) throw std::runtime_error("invalid port");\n\n  mState', 'mState', f=C),
 m23('client-range', '    : TCPConnector(system), mPort(port), mHostname(hostname) {\n  if (invalid_port(mPort)) throw std::runtime_error("invalid port");', '    : TCPConnector(system), mPort(port), mHostname(hostname) {', f=C),
 m23('wrong-ip-23', 'system, port, ips[i]);', 'system, port, ips[0]);'),
 m23('ips-reversed', 'ips[i]);', 'ips[size - 1 - i]);'),
 m23('hostname-dropped', 'mPort(port), mHostname(hostname)', 'mPort(port), mHostname("127.0.0.1")', f=C),
 # refactorings
 q('formula-min', ONE, '''      const std::size_t lo = is_server ? id : other_id;
      const std::size_t hi = is_server ? other_id : id;
      return base_port + (int)(hi + n * lo);
'''),
 q('formula-minmax', ONE, '''      return base_port + std::min(id, other_id) * (int)n + std::max(id, other_id);
'''),
 q('if-return', ONE, '''      if (is_server) return static_cast<int>(base_port + id * n + other_id);
      return static_cast<int>(base_port + other_id * n + id);
'''),
 q('loop-reorder', LOOP, '''    const int peer = static_cast<int>(i);
    if (peer < local_id) {
      connector = std::make_unique<TCPClientConnector>(system, get_port(false, peer), ips.at(peer));
    } else if (local_id < peer) {
      connector = std::make_unique<TCPServerConnector>(system, get_port(true, peer));
    } else {
      connector = make_local_connector();
    }
'''),
 q('loop-helper', 'static inline std::vector<std::unique_ptr<Channel>> create_tcp_channels(', '''static std::unique_ptr<Connector> make_tcp(std::shared_ptr<SystemInterface> system, bool server, int port, const std::string& ip) {
  if (server) return std::make_unique<TCPServerConnector>(system, port);
  return std::make_unique<TCPClientConnector>(system, port, ip);
}

static inline std::vector<std::unique_ptr<Channel>> create_tcp_channels(''', (B, LOOP, '''    if ((int)i == local_id) {
      connector = make_local_connector();
    } else {
      const bool server = (int)i > local_id;
      connector = make_tcp(system, server, get_port(server, i), ips[i]);
    }
''')),
 q('three-loops', '''  for (std::size_t i = 0; i < size; ++i) {
    // this''', '''  std::vector<int> ports(size);
  for (std::size_t i = 0; i < size; i++)
    if ((int)i != local_id) ports[i] = get_port((int)i > local_id, i);
  for (std::size_t i = 0; i < size; ++i) {
    // this''', (B, 'auto port = get_port(false, i);', 'const int port = ports[i];'), (B, 'auto port = get_port(true, i);', 'const int port = ports[i];')),
 q('checks-helper', IDN, 'if (id < 0) throw std::invalid_argument("negative");'),
 q('checks-merged', IDN + '\n  ' + IDS, 'const bool too_big = mSize.has_value() && (std::size_t)id >= *mSize;\n  if (id < 0 || too_big)'),
 q('size-cmp', SID, 'if (mLocalPeerId.has_value() && n <= (std::size_t)*mLocalPeerId)'),
 q('build-early', 'if (ttype == Network::TransportType::eTcp) {', 'if (ttype != Network::TransportType::eTcp) throw std::logic_error("unknown transport type");\n  {', (B, '  throw std::logic_error("unknown transport type");\n', '')),
 q('build-order', '''  if (!mLocalPeerId) throw std::logic_error("identifier not set");

  if (!mSize) throw std::logic_error("network size not provided");
''', '''  if (!mSize.has_value()) throw std::logic_error("network size not provided");
  if (!mLocalPeerId.has_value()) throw std::logic_error("identifier not set");
'''),
 q('build-recheck', 'std::vector<std::string> ips(n);', 'if ((std::size_t)id >= n) throw std::logic_error("identifier");\n    std::vector<std::string> ips(n);'),
 q('local-assign', 'for (auto& ip : ips) ip = "0.0.0.0";', 'ips.assign(n, "127.0.0.1");'),
 q('local-fill', 'for (auto& ip : ips) ip = "0.0.0.0";', 'std::fill(ips.begin(), ips.end(), "0.0.0.0");'),
 q('base-port-if', 'int base_port = mBasePort.value_or(Network::kBasePort);', 'int base_port = Network::kBasePort;\n    if (mBasePort) base_port = *mBasePort;'),
 q('picker-value', '[&base_port, &id, &n](bool', '[=](bool'),
 q('logger-if', 'mLogger.value_or(std::make_shared<logging::VoidLogger>());', 'mLogger ? *mLogger : std::make_shared<logging::VoidLogger>();'),
 q('logger-optional', '''  using LoggerPtr = std::shared_ptr<logging::Logger>;
  mLogger = std::make_optional<LoggerPtr>(logger);
''', '  mLogger = std::move(logger);\n'),
 q('ips-move', '  mIps = ips;\n', '  mIps.emplace(std::move(ips));\n'),
 q('ips-count-size', '    ++n;\n', '', (B, '  if (!n) throw std::logic_error("no IPs in provided connection file");', '  n = ips.size();\n  if (ips.empty()) throw std::logic_error("no IPs in provided connection file");')),
 q('port-helper', PORT, 'if (port <= 1024 || port >= 65536) throw std::out_of_range("port outside allowed range");'),
 q('port-expr', 'port < 1025 || port > 65535', '!(port >= 1025 && port <= 65535)', f=H),
 q('htons-local', 'addr.sin_port = htons(mPort);\n\n  struct', 'const uint16_t port = static_cast<uint16_t>(mPort);\n  addr.sin_port = htons(port);\n\n  struct', f=C),
 q('addr-init', '  struct sockaddr_in addr;\n  addr.sin_family = AF_INET;\n  addr.sin_addr', '  struct sockaddr_in addr = {};\n  addr.sin_family = AF_INET;\n  addr.sin_addr', f=C),
 q('addr-memset', '  struct sockaddr_in addr;\n  addr.sin_family = AF_INET;\n  addr.sin_port', '  struct sockaddr_in addr;\n  std::memset(&addr, 0, sizeof(addr));\n  addr.sin_family = AF_INET;\n  addr.sin_port', f=C),
 q('ip-default-one', 'for (auto& ip : ips) ip = "0.0.0.0";', 'for (std::size_t k = 0; k < n; k++) ips[k] = std::string("0.0.0.0");'),
]
