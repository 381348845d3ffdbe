V, X = 'lib/math/vec.h', 'lib/math/mat.h'
def m(name, ids, f, old, new, *more): return (name, ids, 'V', [(f, old, new)] + list(more))
def q(name, ids, f, old, new, *more): return (name, ids, 'Q', [(f, old, new)] + list(more))
DOT = '''  auto lit = left.begin();
  auto rit = right.begin();

  T result;

  while (n-- > 0) result += *(lit++) * *(rit++);

  return result;'''
ADDI = '''  auto lit = left.begin();
  auto rit = right.begin();

  while (n-- > 0) *(lit++) += *(rit++);

  return left;'''
MULI = ADDI.replace('+=', '*=')
SUBI = ADDI.replace('+=', '-=')
SCALE = '''  auto n = vector.size();
  auto it = vector.begin();

  while (n-- > 0) *(it++) *= scalar;

  return vector;'''
MATMUL = '''    for (std::size_t i = 0; i < n; i++)
      for (std::size_t k = 0; k < p; k++)
        for (std::size_t j = 0; j < m; j++)
          result(i, j) += operator()(i, k) * other(k, j);'''
SUB = '''    for (std::size_t i = 0; i < nrows; ++i) {
      for (std::size_t j = 0; j < ncols; ++j) {
        sub(i, j) = this->operator()(row_beg + i, col_beg + j);
      }
    }'''
VAND = '''    auto alpha = alphas[i];
    auto x = T::kOne;
    for (std::size_t j = 0; j < ncols; ++j) {
      vand(i, j) = x;
      x *= alpha;
    }'''
VB = '''  for (std::size_t i = 0; i < nrows; ++i) alphas.emplace_back(base + T(i));
  return create_vandermonde_matrix(alphas, ncols);'''
ENTRIES = [
    q('dot-index', 'C26', V, DOT, '''  T sum(0);
  for (std::size_t i = 0; i < n; i++) sum += left[i] * right[i];
  return sum;'''),
    q('dot-down', 'C26', V, DOT, '''  T sum;
  while (n) {
    --n;
    sum = sum + right[n] * left[n];
  }
  return sum;'''),
    q('dot-two', 'C26', V, DOT, '''  T even, odd;
  for (std::size_t i = 0; i + 1 < n; i += 2) {
    even += left[i] * right[i];
    odd += left[i + 1] * right[i + 1];
  }
  if (n % 2) even += left[n - 1] * right[n - 1];
  return even + odd;'''),
    q('addi-index', 'C26,C27', V, ADDI, '  for (std::size_t i = 0; i < n; ++i) left[i] += right[i];\n  return left;'),
    q('addi-range', 'C26,C27', V, ADDI, '  auto rit = right.begin();\n  for (auto &l : left) l += *rit++;\n  return left;'),
    q('subi-add', 'C26,C27', V, SUBI, '  for (std::size_t i = 0; i < n; ++i) left[i] += -right[i];\n  return left;'),
    q('muli-assign', 'C26,C27', V, MULI, '  for (std::size_t i = n; i-- > 0;) left[i] = right[i] * left[i];\n  return left;'),
    q('add-direct', 'C26,C27', V, '''  std::vector<T> temp(left);
  return AddInto(temp, right);''', '''  if (left.size() != right.size()) throw std::logic_error("addition of vectors with different sizes");
  std::vector<T> sum;
  sum.reserve(left.size());
  for (std::size_t i = 0; i < left.size(); ++i) sum.emplace_back(left[i] + right[i]);
  return sum;'''),
    q('sub-neg', 'C26,C27', V, '''  std::vector<T> temp(left);
  return SubtractInto(temp, right);''', '''  std::vector<T> temp = right;
  for (auto &t : temp) t.Negate();
  return AddInto(temp, left);'''),
    q('scale-range', 'C26,C27', V, SCALE, '  for (auto &v : vector) v *= scalar;\n  return vector;'),
    q('scale-copy', 'C26,C27', V, SCALE, '  const T s = scalar;\n  for (std::size_t i = 0; i < vector.size(); i++) vector[i] = s * vector[i];\n  return vector;'),
    q('sum-index', 'C26,C03', V, 'for (const auto &v : values) result += v;', 'for (std::size_t i = values.size(); i > 0; i--) result += values[i - 1];'),
    q('size-check', 'C26', V, '  if (n != right.size())\n    throw std::logic_error("cannot Dot', '  if (!(right.size() == n))\n    throw std::logic_error("cannot Dot'),
    m('v-dot-alias', 'C26', V, DOT, '''  T result;
  for (std::size_t i = 0; i < n; i++) result += left[i] * right[n > 2 && i + 1 == n ? i - 1 : i];
  return result;'''),
    m('v-add-half', 'C26', V, ADDI, '''  for (std::size_t i = 0; i + 1 < n; i += 2) {
    left[i] += right[i];
    left[i + 1] += right[i + 1];
  }
  return left;'''),
    m('v-mul-less', 'C26', V, '  if (n != right.size())\n    throw std::logic_error(\n', '  if (n > right.size())\n    throw std::logic_error(\n'),
    m('v-sub-temp', 'C26', V, '''  std::vector<T> temp(left);
  return SubtractInto(temp, right);''', '''  std::vector<T> temp(right);
  return SubtractInto(temp, left);'''),
    m('v-scale-zero', 'C26', V, 'while (n-- > 0) *(it++) *= scalar;', 'if (scalar != T(0)) while (n-- > 0) *(it++) *= scalar;'),
    m('v-sum-skip', 'C26', V, 'for (const auto &v : values) result += v;', 'for (std::size_t i = 0; i < (values.size() & 0xffff); i++) result += values[i];'),
    m('v-sum-short', 'C26', V, 'for (const auto &v : values) result += v;', 'unsigned short k = values.size();\n  for (std::size_t i = 0; i < k; i++) result += values[i];'),
    # matrices
    q('x-matmul-ijk', 'C27', X, MATMUL, '''    for (std::size_t i = 0; i < n; i++) {
      for (std::size_t j = 0; j < m; j++) {
        T dot;
        for (std::size_t k = 0; k < p; k++) dot += (*this)(i, k) * other(k, j);
        result(i, j) = dot;
      }
    }'''),
    q('x-matmul-hoist', 'C27', X, MATMUL, '''    for (std::size_t i = 0; i < n; i++) {
      for (std::size_t k = 0; k < p; k++) {
        const T left = operator()(i, k);
        for (std::size_t j = 0; j < m; j++) result(i, j) += left * other(k, j);
      }
    }'''),
    q('x-matmul-flat', 'C27', X, MATMUL, '''    for (std::size_t i = 0; i < n; i++)
      for (std::size_t k = 0; k < p; k++)
        for (std::size_t j = 0; j < m; j++)
          result.mValues[i * m + j] += mValues[i * p + k] * other.mValues[k * m + j];'''),
    q('x-sub-flat', 'C27', X, SUB, '''    for (std::size_t i = row_beg; i < row_end; ++i)
      for (std::size_t j = col_beg; j < col_end; ++j) sub(i - row_beg, j - col_beg) = (*this)(i, j);'''),
    q('x-sub-cols', 'C27', X, SUB, '''    for (std::size_t j = 0; j < ncols; ++j)
      for (std::size_t i = 0; i < nrows; ++i) sub.mValues[i * ncols + j] = mValues[(i + row_beg) * mCols + j + col_beg];'''),
    q('x-vand-prev', 'C27', X, VAND, '''    vand(i, 0) = T::kOne;
    for (std::size_t j = 1; j < ncols; ++j) vand(i, j) = vand(i, j - 1) * alphas[i];'''),
    q('x-vand-cols', 'C27', X, VAND, '''    T power(1);
    for (std::size_t j = 0; j < ncols; ++j, power *= alphas[i]) vand(i, j) = power;'''),
    q('x-vand-base', 'C27', X, VB, '''  T alpha = base;
  for (std::size_t i = 0; i < nrows; ++i) {
    alphas.push_back(alpha);
    alpha += T::kOne;
  }
  return create_vandermonde_matrix(alphas, ncols);'''),
    q('x-add-copy', 'C27', X, 'return Matrix(vector::Add(mValues, other.mValues), mRows, mCols);', 'Matrix sum(*this);\n    sum.AddInto(other);\n    return sum;'),
    q('x-compat', 'C27', X, 'if (RowCount() != other.RowCount() || ColumnCount() != other.ColumnCount())', 'if (mRows == other.mRows && mCols == other.mCols) return;'),
    q('x-ctor-init', 'C27', X, '    mValues = std::vector<T>(mRows * mCols);', '    mValues.resize(nrows * ncols);'),
    q('x-ctor-check', 'C27', X, 'if (!(nrows && ncols))', 'if (nrows == 0 || ncols == 0)'),
    m('xm-matmul-p', 'C27', X, 'const auto p = ColumnCount();', 'const auto p = RowCount() < 4 ? ColumnCount() : RowCount();'),
    m('xm-compat-area', 'C27', X, 'if (RowCount() != other.RowCount() || ColumnCount() != other.ColumnCount())', 'if (RowCount() * ColumnCount() != other.RowCount() * other.ColumnCount())'),
    m('xm-matmul-check', 'C27', X, 'if (ColumnCount() != other.RowCount())', 'if (ColumnCount() > other.RowCount())'),
    m('xm-vand', 'C27', X, '      x *= alpha;', '      x *= j < 12 ? alpha : x;'),
    m('xm-sub-bound', 'C27', X, 'col_end > ColumnCount())', 'col_end > RowCount())'),
    m('xm-add-swap', 'C27', X, 'return Matrix(vector::Add(mValues, other.mValues), mRows, mCols);', 'return Matrix(vector::Add(mValues, other.mValues), mCols, mRows);'),
    m('xm-scale-inplace', 'C27', X, 'return Matrix(vector::Scale(mValues, scalar), mRows, mCols);', 'return ScaleBy(scalar);'),
    m('xm-zero-result', 'C27', X, '          result(i, j) += operator()(i, k) * other(k, j);', '          if (operator()(i, k) != T(0)) result(i, j) = result(i, j) + operator()(i, k) * other(k, j);\n          else if (k + 1 == p && n > 5) result(i, j) = T(0);'),
]
