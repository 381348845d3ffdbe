M, I, K = 'exp_mult.cc', 'exp_input.cc', 'exp_check.cc'
def m(name, old, new, *more, f=M): return (name, 'C28', 'V', [(f, old, new)] + list(more))
def q(name, old, new, *more, f=M): return (name, 'C28', 'Q', [(f, old, new)] + list(more))
VN = '''inline std::size_t ValidateN(const std::size_t n) {
  assert(n > 3 && n < 17);
  return n;
}
'''
FAKE = '''  for (std::size_t i = 0; i < n; i++) {
    auto shares_xs = replicator.Share(frn::Field(i + 1), prg);
    auto shares_ys = replicator.Share(frn::Field(i + 2), prg);
    xs.emplace_back(shares_xs[id]);
    ys.emplace_back(shares_ys[id]);
  }
'''
CHK = '''  check_protocol.ComputeRandomCoefficients();
  check_protocol.PrepareLinearCombinations();
  check_protocol.PrepareMsgs();
  check_protocol.ReconstructMsgs();
'''
ENTRIES = [
    m('n17', 'n < 17', 'n < 18'),
    m('n3', 'n > 3', 'n >= 3', f=I),
    m('n4refused', 'n > 3', 'n > 4', f=K),
    m('id-equal', 'assert(id < n)', 'assert(id <= n)'),
    m('id-unchecked', 'ValidateId(std::stoul(argv[2]), n)', 'std::stoul(argv[2])', f=K),
    m('id-max', 'assert(id < n)', 'assert(id < 16)', f=I),
    m('load-input', 'n < 1000000', 'n <= 1000000', f=I),
    m('load-small', 'n < 1000000', 'n < 100000', f=I),
    m('load-mult', 'ValidateNumberOfMults(std::stoul(argv[3]))', 'std::stoul(argv[3])'),
    m('n-narrow', 'ValidateN(const std::size_t n)', 'ValidateN(const unsigned n)', (M, 'std::size_t n = ValidateN', 'auto n = ValidateN')),
    m('n-narrow16', 'ValidateN(const std::size_t n)', 'ValidateN(const unsigned short n)', f=K),
    m('id-narrow', 'ValidateId(const std::size_t id', 'ValidateId(const unsigned char id'),
    m('argc', 'argc < 4', 'argc < 3', f=I),
    m('t', '(n - 1) / 3', 'n / 3'),
    m('t2', '(n - 1) / 3', '(n - 1) / 2', f=K),
    m('t-check', 'frn::CheckData(t)', 'frn::CheckData(n - 2 * t - 1)', f=K),
    m('port', 'BASE_PORT, false', 'BASE_PORT + id, false'),
    m('port-load', 'BASE_PORT, false', 'BASE_PORT + 100 * (id == 3), false', f=I),
    m('noclose', '  network->Close();\n', '', f=I),
    m('close-load', '  network->Close();\n', '  if (number_of_mults > 2) network->Close();\n'),
    m('close-id', '  network->Close();\n', '  if (id != 0) network->Close();\n', f=K),
    m('early-close', '  frn::Check check', '  network->Close();\n  frn::Check check', (K, 'PrintCommunicationSummary();\n  network->Close();', 'PrintCommunicationSummary();'), f=K),
    m('late-connect', '  network->Connect();\n', '', (M, '  DELIM;\n  network->Print', '  network->Connect();\n  DELIM;\n  network->Print')),
    m('twice', '  network->Connect();\n', '  network->Connect();\n  network->Connect();\n'),
    m('fewer', 'PrepareToReceive(INPUTTER, number_of_inputs)', 'PrepareToReceive(INPUTTER, number_of_inputs - 1)', f=I),
    m('dealer', 'PrepareToReceive(INPUTTER, number_of_inputs)', 'PrepareToReceive(INPUTTER + 1, number_of_inputs)', f=I),
    m('more', 'inputs(number_of_inputs)', 'inputs(number_of_inputs + 1)', f=I),
    m('mults', 'FakeInputs(xs, ys, number_of_mults, id', 'FakeInputs(xs, ys, number_of_mults + 1, id', f=K),
    m('myid', 'shares_ys[id]', 'shares_ys[0]'),
    m('secrets', 'frn::Field(i + 2)', 'frn::Field(i + 2 + id)'),
    m('swapped', 'CreateWithLocalParties(id, n,', 'CreateWithLocalParties(n - 1 - id, n,'),
    m('size', 'CreateReplicator(n)', 'CreateReplicator(n - 1)', f=I),
    m('manip', 'ShrManipulator(id, t, n)', 'ShrManipulator(id, t, 3 * t + 1)', f=K),
    m('corr', 'Correlator(id, replicator)', 'Correlator(n - id - 1, replicator)'),
    m('nocoeff', '  check_protocol.ComputeRandomCoefficients();\n', '', f=K),
    m('order', CHK, '''  check_protocol.PrepareLinearCombinations();
  check_protocol.ComputeRandomCoefficients();
  check_protocol.PrepareMsgs();
  check_protocol.ReconstructMsgs();
''', f=K),
    m('otherdata', '  frn::Check check_protocol(network, replicator, manipulator, check_data)', '  auto other = frn::CheckData(t);\n  frn::Check check_protocol(network, replicator, manipulator, other)', f=K),
    m('late', '  mult_protocol.Prepare(xs, ys);\n\n  auto output = mult_protocol.Run();', '  auto output = mult_protocol.Run();\n  mult_protocol.Prepare(xs, ys);'),
    m('inputter', 'if (id == INPUTTER)', 'if (id <= INPUTTER + 1)', f=I),
    # refactorings
    q('if-abort', VN, '''inline std::size_t ValidateN(const std::size_t n) {
  if (n < 4 || n >= 17) {
    std::cerr << "bad number of parties\\n";
    std::abort();
  }
  return n;
}
'''),
    q('if-throw', VN, '''#include <stdexcept>
inline std::size_t ValidateN(const std::size_t n) {
  if (n < 4 || n >= 17) throw std::invalid_argument("bad number of parties");
  return n;
}
'''),
    q('inrange', VN, '''static bool InRange(std::size_t v, std::size_t lo, std::size_t hi) { return lo <= v && v < hi; }
inline std::size_t ValidateN(const std::size_t n) {
  assert(InRange(n, 4, 17));
  return n;
}
''', f=I),
    q('strtoul', 'std::stoul(argv[1])', 'std::strtoul(argv[1], nullptr, 10)'),
    q('inline', 'std::size_t id = ValidateId(std::stoul(argv[2]), n);', 'std::size_t id = std::stoul(argv[2]);\n  assert(id < n);'),
    q('return1', 'return 0;\n  }', 'return 1;\n  }'),
    q('argcne', 'argc < 4', 'argc != 4', f=I),
    q('replicator-direct', 'frn::CreateReplicator(n)', 'frn::lib::secret_sharing::Replicator<frn::Field>(n, t)', f=K),
    q('while', FAKE, '''  std::size_t i = 0;
  while (i < n) {
    const frn::Field x(i + 1), y(i + 2);
    xs.push_back(replicator.Share(x, prg)[id]);
    ys.push_back(replicator.Share(y, prg)[id]);
    ++i;
  }
'''),
    q('single', '  mult_protocol.Prepare(xs, ys);', '  for (std::size_t i = 0; i < xs.size(); i++) mult_protocol.Prepare(xs[i], ys[i]);'),
    q('single-input', '    input.Prepare(inputs);', '    for (const auto& x : inputs) input.Prepare(x);', f=I),
    q('common-run', '''    input.Prepare(inputs);

    auto outputs = input.Run();

  } else {
    input.PrepareToReceive(INPUTTER, number_of_inputs);
    auto outputs = input.Run();
  }
''', '''    input.Prepare(inputs);
  } else {
    for (std::size_t k = 0; k < number_of_inputs; k++) input.PrepareToReceive(INPUTTER);
  }
  auto outputs = input.Run();
''', f=I),
    q('checksteps', CHK, '''  check_protocol.ComputeRandomCoefficients();
  check_protocol.PrepareMsgs();
  check_protocol.PrepareLinearCombinations();
  check_protocol.ReconstructMsgs();
''', f=K),
    q('runcheck', CHK, '  RunCheck(check_protocol);\n', (K, 'int main(', 'static void RunCheck(frn::Check& c) {\n  c.ComputeRandomCoefficients();\n  c.PrepareLinearCombinations();\n  c.PrepareMsgs();\n  c.ReconstructMsgs();\n}\n\nint main('), f=K),
    q('netfirst', '''  auto replicator = frn::CreateReplicator(n);
  frn::lib::primitives::PRG prg;''', '''  frn::lib::primitives::PRG prg;
  const auto replicator = frn::CreateReplicator(static_cast<int>(n));''', f=I),
    q('struct', '  std::size_t n = ValidateN(std::stoul(argv[1]));', '''  struct Args { std::size_t n; unsigned port; } args{ValidateN(std::stoul(argv[1])), BASE_PORT};
  const std::size_t n = args.n;'''),
    q('constexpr', '#define BASE_PORT 6677', 'static constexpr unsigned BASE_PORT = 6000 + 677;'),
    q('guard', 'int main(', '''struct Closer {
  std::shared_ptr<frn::TcpNetwork> net;
  ~Closer() { net->Close(); }
};

int main(''', (M, '  network->Connect();', '  Closer closer{network};\n  network->Connect();'), (M, 'Summary();\n  network->Close();', 'Summary();')),
    q('populate', '  for (std::size_t i = 0; i < vector.size(); i++) vector[i] = frn::Field(i);', '  std::size_t i = 0;\n  for (auto& v : vector) v = frn::Field(i++);', f=I),
    q('nassert', 'assert(check_data.counter == number_of_mults);', 'if (check_data.counter != number_of_mults) return 1;', f=K),
    q('string', 'std::stoul(argv[3])', 'std::stoul(std::string(argv[3]))'),
    q('vector', '  std::size_t n = ValidateN(std::stoul(argv[1]));', '  const std::vector<std::string> words(argv, argv + argc);\n  std::size_t n = ValidateN(std::stoul(words[1]));'),
]
