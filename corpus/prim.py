# field arithmetic (C01), generator (C16), digest (C17), element bytes (C02)
A = 'lib/math/arithmetic.h'
AC = 'lib/math/arithmetic.cc'
FP = 'lib/math/fp.h'
RI = 'lib/math/ring.h'
P = 'lib/math/p.h'
G = 'lib/primitives/prg.cc'
GH = 'lib/primitives/prg.h'
H = 'lib/primitives/hash.h'
def m(name, ids, f, old, new, *more): return (name, ids, 'V', [(f, old, new)] + list(more))
def q(name, ids, f, old, new, *more): return (name, ids, 'Q', [(f, old, new)] + list(more))
NEXT = '''  for (size_t i = 0; i < nblocks; i++) {
    aes128_enc(mState, (byte_t*)(&mask), p);
    Update();
    mask = create_mask(mCounter);
    p += BlockSize();
  }
'''
WORDS = '''  std::size_t words = nbytes / sizeof(uint64_t);
  unsigned int tail = nbytes - words * sizeof(uint64_t);
'''
TAILN = '''    nbytes -= old_tail;
    while (old_tail--) mSaved |= (uint64_t)(*(p++)) << ((mByteIndex++) * 8);
'''
ENTRIES = [
    # field
    m('f-add-gt', 'C01', A, 'return z >= n ? z - n : z;', 'return z > n ? z - n : z;'),
    m('f-add-twice', 'C01', A, 'return z >= n ? z - n : z;', 'return z >= n ? (z >= n + n - 2 ? z - n - n : z - n) : z;'),
    q('f-add-eq', 'C01', A, 'return z >= n ? z - n : z;', 'return z < n ? z : z - n;'),
    q('f-add-if', 'C01', A, '  auto const z = x + y;\n  return z >= n ? z - n : z;', '  auto z = x;\n  z += y;\n  if (!(z < n)) z -= n;\n  return z;'),
    q('f-add-mod', 'C01', A, '  auto const z = x + y;\n  return z >= n ? z - n : z;', '  return (x + y) % n;'),
    m('f-sub-le', 'C01', A, 'auto const x_ = x < y ? x + n : x;', 'auto const x_ = x <= y ? x + n : x;'),
    q('f-sub-branch', 'C01', A, '  auto const x_ = x < y ? x + n : x;\n  return x_ - y;', '  return y > x ? (n - y) + x : x - y;'),
    m('f-sub-neg', 'C01', A, '  return x_ - y;', '  return y == n - 1 ? x_ + 1 : x_ - y;'),
    m('f-neg-zero', 'C01', A, 'return v ? n - v : v;', 'return n - v;'),
    m('f-neg-one', 'C01', A, 'return v ? n - v : v;', 'return v > 1 ? n - v : v;'),
    q('f-neg-if', 'C01', A, 'return v ? n - v : v;', 'if (v == 0) return v;\n  return n - v;'),
    m('f-red-lt', 'C01', A, 'return x % n;', 'return x > n ? x % n : x;'),
    m('f-red-once', 'C01', A, 'return x % n;', 'return x >= n ? x - n : x;'),
    q('f-red-if', 'C01', A, 'return x % n;', 'return x < n ? x : x % n;'),
    m('f-eq-low', 'C01', A, 'return x == y;', 'return (unsigned long)x == (unsigned long)y;'),
    q('f-eq-xor', 'C01', A, 'return x == y;', 'return !(x != y);'),
    m('f-inv-sign', 'C01', A, 'if (t < 0) t = t + n;', 'if (t < -1) t = t + n;'),
    m('f-inv-zero', 'C01', A, 'if (v == 0) throw std::logic_error("0 is not invertible mod p.");', 'if (v == 0) return 0;'),
    m('f-inv-swap', 'C01', A, '    PAR_ASSIGN(t, newt, q);\n', '    if (q < 1000000) PAR_ASSIGN(t, newt, q);\n    else PAR_ASSIGN(t, newt, 0);\n'),
    m('f-m61-mask', 'C01', AC, '  a |= b >> 61;\n  b &= n;\n\n  return frn', '  a |= b >> 62;\n  b &= n;\n\n  return frn'),
    q('f-m61-shift', 'C01', AC, 'u64 a = z >> 61;', 'u64 a = z >> 64 << 3;'),
    q('f-m61-plain', 'C01', AC, '  u128 z = (u128)x * y;\n  u64 a = z >> 61;', '  const u128 z = (u128)x * (u128)y;\n  u64 a = (u64)(z >> 61);'),
    q('f-m61-mod', 'C01', AC, '  return frn::lib::math::details::addm(a, b, n);', '  const u64 s = a + b;\n  return s >= n ? s - n : s;'),
    m('f-m61-narrow', 'C01', AC, 'u128 z = (u128)x * y;', 'u128 z = x * y;'),
    m('f-m127-carry', 'C01', AC, 'u128 carry = (u128)(u64)ad + (u128)(u64)bc + (bd >> 64u);', 'u128 carry = (u64)((u64)ad + (u64)bc) + (bd >> 64u);'),
    m('f-m127-low', 'C01', AC, 'u128 low = (ad << 64u) + (bc << 64u) + bd;', 'u128 low = ((ad + bc) << 64u) | bd;'),
    q('f-m127-low2', 'C01', AC, 'u128 low = (ad << 64u) + (bc << 64u) + bd;', 'u128 low = ((ad + bc) << 64u) + bd;'),
    q('f-m127-red', 'C01', AC, '  if (c >= n) c -= n;', '  if (c > n) c -= n;'),
    m('f-m127-high', 'C01', AC, '(ad >> 64u) + (bc >> 64u) + (carry >> 64u)', '(ad >> 64u) + (bc >> 64u) + (carry >> 65u)'),
    m('f-prime', 'C01', P, 'kPrime = 0x1FFFFFFFFFFFFFFF', 'kPrime = 0x1FFFFFFFFFFFFFFE'),
    m('f-frombytes-raw', 'C01,C02', FP, 'return FpElement(*((ValueType *)buffer));', 'FpElement e;\n    e.mValue = *((ValueType *)buffer);\n    return e;'),
    m('f-ctor-raw', 'C01', FP, 'explicit FpElement(const ValueType &value) { mValue = Prime::Reduce(value); };', 'explicit FpElement(const ValueType &value) { mValue = value > Prime::kPrime ? Prime::Reduce(value) : value; };'),
    m('f-div', 'C01', FP, 'mValue = Prime::Multiply(mValue, Prime::Invert(other.mValue));', 'mValue = other.mValue == 0 ? 0 : Prime::Multiply(mValue, Prime::Invert(other.mValue));'),
    q('f-div2', 'C01', FP, 'mValue = Prime::Multiply(mValue, Prime::Invert(other.mValue));', 'const auto i = Prime::Invert(other.mValue);\n    mValue = Prime::Multiply(i, mValue);'),
    m('f-ring-div', 'C01', RI, '    T temp(lhs);\n    return temp /= rhs;', '    T temp(rhs);\n    return temp /= lhs;'),
    m('f-bytes-short', 'C02', FP, 'std::memcpy(dest, &mValue, ByteSize());', 'std::memcpy(dest, &mValue, ByteSize() - 1);'),
    m('f-bytes-swap', 'C02', FP, 'std::memcpy(dest, &mValue, ByteSize());', 'for (std::size_t i = 0; i < ByteSize(); ++i) dest[i] = ((const unsigned char *)&mValue)[ByteSize() - 1 - i];'),
    q('f-bytes-loop', 'C02', FP, 'std::memcpy(dest, &mValue, ByteSize());', 'for (std::size_t i = 0; i < ByteSize(); ++i) dest[i] = ((const unsigned char *)&mValue)[i];'),
    # generator
    m('g-stuck', 'C16', G, 'mCounter += 1;', 'mCounter += mCounter < 1000 ? 1 : 0;'),
    m('g-byte', 'C16', G, 'mCounter += 1;', 'mCounter = (mCounter + 1) & 0xffffff;'),
    m('g-int', 'C16', G, 'static inline auto create_mask(const long counter)', 'static inline auto create_mask(const int counter)'),
    m('g-floor', 'C16', G, '  if (nbytes % BlockSize()) nblocks++;', '  if (nbytes % BlockSize() > 1) nblocks++;'),
    m('g-extra', 'C16', G, '  if (nbytes % BlockSize()) nblocks++;', '  if (nbytes % BlockSize() || nbytes > 4096) nblocks++;'),
    q('g-ceil', 'C16', G, '  size_t nblocks = nbytes / BlockSize();\n\n  if (nbytes % BlockSize()) nblocks++;', '  size_t nblocks = nbytes / BlockSize() + (nbytes % BlockSize() != 0 ? 1 : 0);'),
    m('g-zero', 'C16', G, '  if (!nbytes) return;\n', '  if (!nbytes) { Update(); return; }\n'),
    m('g-mask-late', 'C16', G, NEXT, NEXT.replace('    Update();\n    mask = create_mask(mCounter);\n', '    mask = create_mask(mCounter);\n    Update();\n')),
    q('g-while', 'C16', G, NEXT, '''  size_t left = nblocks;
  while (left > 0) {
    aes128_enc(mState, (byte_t*)(&mask), p);
    p += BlockSize();
    Update();
    mask = create_mask(mCounter);
    --left;
  }
'''),
    m('g-nonce', 'C16', G, 'return _mm_set_epi64x(PRG_NONCE, counter);', 'return _mm_set_epi64x(counter, PRG_NONCE);'),
    m('g-round', 'C16', G, 'm = _mm_aesenc_si128(m, k[9]);      \\', 'm = _mm_aesenc_si128(m, k[8]);      \\'),
    m('g-rcon', 'C16', G, 'AES_128_key_exp(key_schedule[8], 0x1B)', 'AES_128_key_exp(key_schedule[8], 0x1D)'),
    m('g-seed', 'C16', G, 'memcpy(mSeed, seed, SeedSize());', 'memcpy(mSeed, seed, 8);'),
    m('g-reset', 'C16', G, '  Init();\n  mCounter = PRG_INITIAL_COUNTER;', '  Init();\n  if (mCounter < 64) mCounter = PRG_INITIAL_COUNTER;'),
    m('g-copy', 'C16', G, '  memcpy(dest, out, nbytes);', '  memcpy(dest, out, nbytes > 8000 ? 8000 : nbytes);'),
    m('g-vec', 'C16', GH, '    if (dest.size() < nbytes)\n', '    if (dest.size() + 1 < nbytes)\n'),
    m('g-leak', 'C16', G, '  memcpy(dest, out, nbytes);\n  free(out);', '  memcpy(dest, out + (nblocks > 8 ? 16 : 0), nblocks > 8 ? nbytes - 16 : nbytes);\n  free(out);'),
    # digest
    m('h-tail', 'C17', H, 'unsigned int old_tail = (8 - mByteIndex) & 7;', 'unsigned int old_tail = (8 - mByteIndex) & 3;'),
    m('h-early', 'C17', H, 'if (nbytes < old_tail) {', 'if (nbytes <= old_tail) {'),
    m('h-saved', 'C17', H, '    mByteIndex = 0;\n    mSaved = 0;\n', '    mByteIndex = 0;\n'),
    m('h-cut', 'C17', H, '    if (++mWordIndex == kCuttoff) {\n      keccakf(mState);\n      mWordIndex = 0;\n    }\n  }\n\n  std::size_t words', '    if (++mWordIndex == kCuttoff + 1) {\n      keccakf(mState);\n      mWordIndex = 0;\n    }\n  }\n\n  std::size_t words'),
    m('h-words', 'C17', H, WORDS, WORDS.replace('std::size_t words', 'unsigned char words')),
    m('h-tailn', 'C17', H, TAILN, TAILN.replace('    nbytes -= old_tail;\n', '') + '    nbytes -= old_tail;\n'),
    q('h-for', 'C17', H, TAILN, '''    for (unsigned int k = 0; k < old_tail; ++k) {
      mSaved |= (uint64_t)(p[k]) << (mByteIndex * 8);
      ++mByteIndex;
    }
    p += old_tail;
    nbytes -= old_tail;
'''),
    q('h-ge', 'C17', H, 'if (nbytes < old_tail) {', 'if (!(nbytes >= old_tail)) {'),
    q('h-mod', 'C17', H, WORDS, '  std::size_t words = nbytes / 8;\n  unsigned int tail = nbytes % 8;\n'),
    m('h-rot', 'C17', H, '45, 55, 2,  14', '45, 55, 2,  15'),
    m('h-rndc', 'C17', H, '0x8000000080008081ULL, 0x8000000000008009ULL', '0x8000000080008081ULL, 0x800000000000800bULL'),
    m('h-chi', 'C17', H, 'state[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5];', 'state[j + i] ^= bc[(i + 1) % 5] & ~bc[(i + 2) % 5];'),
    m('h-pad', 'C17', H, '(uint64_t)(0x02 | (1 << 2))', '(uint64_t)(0x01 | (1 << 2))'),
    m('h-pad-end', 'C17', H, 'mState[kCuttoff - 1] ^= 0x8000000000000000ULL;', 'mState[kStateSize - 1] ^= 0x8000000000000000ULL;'),
    m('h-byte7', 'C17', H, '((uint64_t)(p[6]) << 8 * 6)', '((uint64_t)(p[6]) << 8 * 5)'),
    m('h-int', 'C17', H, 'while (tail--) mSaved |= (uint64_t)(*(p++))', 'while (tail--) mSaved |= (int)(*(p++))'),
    m('h-fin', 'C17', H, 'mState[mWordIndex] ^= mSaved ^ t;', 'mState[mWordIndex] ^= mSaved | t;\n  mState[mWordIndex] ^= mWordIndex == kCuttoff - 1 ? 1 : 0;'),
    m('h-cap', 'C17', H, 'static constexpr unsigned int kCapacity = compute_capacity(384);', 'static constexpr unsigned int kCapacity = compute_capacity(256);'),
    m('h-digest', 'C17', H, 'mStateBytes[i * 8 + 6] = (unsigned char)(t2 >> 16);', 'mStateBytes[i * 8 + 6] = (unsigned char)(t2 >> 8);'),
]
