// CSV helpers: a matrix (or a table of times and vectors) written and read back.
#include <curves/helpers.hpp>
#include "common.h"
#include <fstream>
typedef std::vector<std::vector<std::string> > Matrix;

static std::string slurp(const char* n) {
#ifdef VF_SYMBOLIC
  std::vf_file* f = std::vf_lookup(n);
  vf_assert(f != nullptr, "the file exists");
  return f ? f->data : std::string();
#else
  std::FILE* f = std::fopen(n, "rb");
  vf_assert(f != nullptr, "the file exists");
  std::string s;
  if (f) { int c; while ((c = std::fgetc(f)) != EOF) s.push_back((char)c); std::fclose(f); }
  return s;
#endif
}

static std::string field(const char* nm, int k, int len) {
  std::string s;
  for (int i = 0; i < len; ++i) {
    char c = (char)vf_char(Nm(nm, k, i));
    vf_assume(c != ',');
    vf_assume(c != '\n');
    vf_assume(c != 0);
    s.push_back(c);
  }
  return s;
}

static Matrix matrix(const char* nm, int rows, int cols, int len) {
  Matrix m;
  int id = 0;
  for (int r = 0; r < rows; ++r) {
    const int n = 1 + vf_choice(Nm("cols", r), cols);
    std::vector<std::string> row;
    for (int c = 0; c < n; ++c) {
      const bool last = c + 1 == n;
      const int l = last ? 1 + vf_choice(Nm("len", r, c), len) : vf_choice(Nm("len", r, c), len + 1);
      row.push_back(field(nm, id++, l));
    }
    m.push_back(row);
  }
  return m;
}

static void check_same(const Matrix& a, const Matrix& b) {
  vf_assert(a.size() == b.size(), "as many rows are read as were written");
  for (size_t r = 0; r < a.size() && r < b.size(); ++r) {
    vf_assert(a[r].size() == b[r].size(), "as many fields are read as were written");
    for (size_t c = 0; c < a[r].size() && c < b[r].size(); ++c) {
      vf_assert(a[r][c].size() == b[r][c].size(), "a field keeps its length");
      for (size_t k = 0; k < a[r][c].size() && k < b[r][c].size(); ++k) vf_assert(a[r][c][k] == b[r][c][k], "a field keeps its characters");
    }
  }
}

static void check_file(const char* n, const Matrix& m) {
  std::string s = slurp(n), e;
  for (size_t r = 0; r < m.size(); ++r) {
    for (size_t c = 0; c < m[r].size(); ++c) { if (c) e.push_back(','); e += m[r][c]; }
    if (r + 1 < m.size()) e.push_back('\n');
  }
  if (s.size() == e.size() + 1) { vf_assert(s[s.size() - 1] == '\n', "the file ends after the last row"); s.resize(e.size()); }
  vf_assert(s.size() == e.size(), "the file has every field once");
  for (size_t k = 0; k < s.size() && k < e.size(); ++k) vf_assert(s[k] == e[k], "the file has the fields in order, with commas and newlines between");
}

// arbitrary matrix; the file may exist already
extern "C" void h_c21() {
  Matrix m = matrix("f", vf_param("rows"), vf_param("cols"), vf_param("len"));
  const Matrix before = m;
  if (vf_param("old")) {
    Matrix o(3, std::vector<std::string>(2, "old content"));
    curves::writeCSV("m.csv", o);
    check_same(o, curves::loadCSV("m.csv"));
    // then one of the same shape
    o = m;
    for (size_t r = 0; r < o.size(); ++r) for (size_t c = 0; c < o[r].size(); ++c) o[r][c] = std::string(o[r][c].size(), 'z');
    curves::writeCSV("m.csv", o);
    check_same(o, curves::loadCSV("m.csv"));
    vf_reach("overwritten");
  }
  curves::writeCSV("m.csv", m);
  check_same(m, before);
  check_file("m.csv", m);
  vf_reach("written");
  Matrix r = curves::loadCSV("m.csv");
  check_same(before, r);
  check_file("m.csv", m);
  Matrix r2 = curves::loadCSV("m.csv");
  check_same(before, r2);
  vf_reach("loaded");
}

// large in one direction, with a few symbolic characters
extern "C" void h_c21_large() {
  const int rows = vf_param("rows"), cols = vf_param("cols"), len = vf_param("len");
  Matrix m;
  for (int r = 0; r < rows; ++r) {
    std::vector<std::string> row;
    for (int c = 0; c < cols; ++c) {
      std::string f = (r + 1 == rows && c + 1 == cols) || (r == 0 && c == 0) ? field("g", r + c ? 1 : 0, 2) : std::string(1, (char)('A' + (r + 3 * c) % 26));
      while ((int)f.size() < len) f.push_back((char)('a' + f.size() % 23));
      row.push_back(f);
    }
    m.push_back(row);
  }
  curves::writeCSV("big.csv", m);
  check_file("big.csv", m);
  Matrix r = curves::loadCSV("big.csv");
  check_same(m, r);
  vf_reach("large");
}

// an absent file and an empty matrix are refused
extern "C" void h_c21_refused() {
  if (vf_choice("what", 2)) {
    vf_reach("absent file");
    vf_expect_abort("loading a file that does not exist");
    curves::loadCSV("nothing.csv");
    vf_unexpect_abort();
  } else {
    vf_reach("empty matrix");
    vf_expect_abort("writing an empty matrix");
    curves::writeCSV("e.csv", Matrix());
    vf_unexpect_abort();
  }
}

// ---------------------------------------------------------------- tables of times and vectors
static void printed_eq(double got, double want, const char* msg) {
#ifdef VF_SYMBOLIC
  vf_eq(got, want, msg);
#else
  const double d = got > want ? got - want : want - got;
  vf_assert(d <= 1e-5 * (want < 0 ? -want : want), msg);
#endif
}

struct Table { std::vector<curves::Time> t, u; std::vector<Eigen::VectorXd> v; };

static Table table(int rows, int dim) {
  Table x;
  for (int r = 0; r < rows; ++r) {
    x.t.push_back(vf_real(Nm("t", r)));
    x.u.push_back(vf_real(Nm("u", r)));
    Eigen::VectorXd v(dim);
    for (int k = 0; k < dim; ++k) v[k] = vf_real(Nm("v", r, k));
    x.v.push_back(v);
  }
  return x;
}

static void check_times(const std::vector<curves::Time>& t, const std::vector<curves::Time>& e, const char* msg) {
  vf_assert(t.size() == e.size(), "as many times as rows");
  for (size_t i = 0; i < t.size() && i < e.size(); ++i) printed_eq(t[i], e[i], msg);
}
static void check_values(const std::vector<Eigen::VectorXd>& v, const std::vector<Eigen::VectorXd>& e) {
  vf_assert(v.size() == e.size(), "as many vectors as rows");
  for (size_t i = 0; i < v.size() && i < e.size(); ++i) {
    vf_assert(v[i].size() == e[i].size(), "the dimension of the vectors");
    for (int k = 0; k < (int)v[i].size() && k < (int)e[i].size(); ++k) printed_eq(v[i][k], e[i][k], "entry of a vector");
  }
}

// outputs with earlier content of various sizes
template <class F>
static void prefill(F& f, int kind, const typename F::value_type& x) { for (int k = 0; k < kind; ++k) f.push_back(x); }

// another table in the same file, written and read before
static void earlier_table(const char* file, int rows, int dim) {
  std::vector<curves::Time> t, t2;
  std::vector<Eigen::VectorXd> v, v2;
  for (int r = 0; r < rows; ++r) {
    t.push_back(r + 0.5);
    Eigen::VectorXd x(dim);
    for (int k = 0; k < dim; ++k) x[k] = r + 0.25 * k;
    v.push_back(x);
  }
  curves::writeTimeVectorCSV(file, t, v);
  curves::loadTimeVectorCSV(file, &t2, &v2);
  check_times(t2, t, "time of a row");
  check_values(v2, v);
}
extern "C" void h_c22() {
  const int rows = vf_param("rows"), dim = vf_param("dim");
  Table x = table(rows, dim);
  const int before = vf_choice("table before", 4);
  if (before) earlier_table("t.csv", before == 3 ? rows : rows + 1, before == 3 ? dim : before == 1 ? dim + 1 : dim > 1 ? dim - 1 : 1);
  curves::writeTimeVectorCSV("t.csv", x.t, x.v);
  std::vector<curves::Time> t;
  std::vector<Eigen::VectorXd> v;
  const int k = vf_choice("earlier", 3);
  prefill(t, k, vf_real("oldt"));
  prefill(v, k, Eigen::VectorXd::Zero(2));
  curves::loadTimeVectorCSV("t.csv", &t, &v);
  check_times(t, x.t, "time of a row");
  check_values(v, x.v);
  vf_reach("round trip");
  // again, into the same containers
  curves::loadTimeVectorCSV("t.csv", &t, &v);
  check_times(t, x.t, "time of a row, loaded again");
  check_values(v, x.v);
}

static std::string number(double x) {
#ifdef VF_SYMBOLIC
  char b[64];
  int n = vf_format(x, 17, 0, b);
  return std::string(b, n);
#else
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
#endif
}

extern "C" void h_c22_two() {
  const int rows = vf_param("rows"), dim = vf_param("dim");
  Table x = table(rows, dim);
  Matrix m;
  for (int r = 0; r < rows; ++r) {
    std::vector<std::string> row;
    row.push_back(number(x.t[r]));
    row.push_back(number(x.u[r]));
    for (int k = 0; k < dim; ++k) row.push_back(number(x.v[r][k]));
    m.push_back(row);
  }
  if (const int before = vf_choice("table before", 3)) {
    const int more = before == 1 ? 1 : 0;
    Matrix o(rows + more, std::vector<std::string>(dim + 2 + more, "1.5"));
    std::vector<curves::Time> t, u;
    std::vector<Eigen::VectorXd> v;
    curves::writeCSV("tt.csv", o);
    curves::loadTimeTimeVectorCSV("tt.csv", &t, &u, &v);
    check_times(t, std::vector<curves::Time>(rows + more, 1.5), "first time of a row");
    check_times(u, std::vector<curves::Time>(rows + more, 1.5), "second time of a row");
    check_values(v, std::vector<Eigen::VectorXd>(rows + more, Eigen::VectorXd::Constant(dim + more, 1.5)));
  }
  curves::writeCSV("tt.csv", m);
  std::vector<curves::Time> t, u;
  std::vector<Eigen::VectorXd> v;
  const int k = vf_choice("earlier", 3);
  prefill(t, k, vf_real("oldt"));
  prefill(u, k, vf_real("oldu"));
  prefill(v, k, Eigen::VectorXd::Zero(1));
  curves::loadTimeTimeVectorCSV("tt.csv", &t, &u, &v);
  check_times(t, x.t, "first time of a row");
  check_times(u, x.u, "second time of a row");
  check_values(v, x.v);
  vf_reach("two times");
}

// a table written with one time column, read with the other loader shapes of the data
extern "C" void h_c22_one() {
  const int rows = vf_param("rows"), dim = vf_param("dim");
  Table x = table(rows, dim);
  Matrix m;
  for (int r = 0; r < rows; ++r) {
    std::vector<std::string> row;
    row.push_back(number(x.t[r]));
    for (int k = 0; k < dim; ++k) row.push_back(number(x.v[r][k]));
    m.push_back(row);
  }
  curves::writeCSV("ot.csv", m);
  std::vector<curves::Time> t;
  std::vector<Eigen::VectorXd> v;
  curves::loadTimeVectorCSV("ot.csv", &t, &v);
  check_times(t, x.t, "time of a row");
  check_values(v, x.v);
  vf_reach("one time");
}
