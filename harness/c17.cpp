#include "manager.h"

// content: n coefficients at distinct times, inserted in any order; for more than 5 in one mixed order
static void content(M& m, Model& r, int n) {
  if (n > 5) {
    std::vector<double> t;
    const int step = n % 5 ? 5 : 7;
    for (int i = 0; i < n; ++i) t.push_back(vf_real(Nm("t", i)));
    for (int i = 0; i + 1 < n; ++i) vf_assume_lt(t[i], t[i + 1]);
    for (int i = 0; i < n; ++i) {
      const double x = t[(i * step + 1) % n], v = vf_real(Nm("v", i));
      r.inserted(x, v, m.insertCoefficient(x, v));
    }
    return;
  }
  for (int i = 0; i < n; ++i) {
    const double t = vf_real(Nm("t", i)), v = vf_real(Nm("v", i));
    vf_assume(r.find(t) < 0);
    r.inserted(t, v, m.insertCoefficient(t, v));
  }
}

extern "C" void h_c17() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  check_at(m, r, vf_real("x"));
}

// one change of a manager
enum { NCHG = 10 };
static void change(M& m, Model& r, int kind) {
  if (kind == 0) { const double t = vf_real("ct"), v = vf_real("cv"); r.inserted(t, v, m.insertCoefficient(t, v)); return; }
  if (kind == 1) { m.clear(); r.clear(); return; }
  const std::vector<int> o = r.order();
  if (o.empty()) vf_end();
  if (kind == 2) {
    const double t = vf_real("ct"), v = vf_real("cv");
    vf_assume_lt(r.t[o.back()], t);
    std::vector<Key> k;
    m.addCoefficientAtEnd(t, v, &k);
    r.inserted(t, v, k.back());
    return;
  }
  if (kind == 9) { *(&m) = M(m); return; }   // by a copy of itself
  const int i = vf_choice("ci", (int)o.size()), x = o[i];
  const double v = vf_real("cv");
  if (kind == 3) { m.removeCoefficientAtTime(r.t[x]); r.erase(x); return; }
  if (kind == 4) { m.removeCoefficientWithKey(r.k[x]); r.erase(x); return; }
  if (kind == 5) m.updateCoefficientByKey(r.k[x], v);
  if (kind == 6) m.modifyCoefficientsValuesInBatch(std::vector<double>(1, r.t[x]), std::vector<double>(1, v));
  if (kind == 7 || kind == 8) {
    M::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
    for (int j = 0; j < i; ++j) ++it;
    double t = r.t[x];
    if (kind == 8) { t = vf_real("ct"); vf_assume(r.find(t) < 0); }
    m.modifyCoefficient(it, t, v);
    r.t[x] = t;
  }
  r.v[x] = v;
}
// queries between changes
extern "C" void h_c17_history() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  look(m, vf_real("w"));
  change(m, r, vf_choice("change", NCHG));
  check_at(m, r, vf_real("x"));
}

static bool in_map(const M::CoefficientMap& c, Key k, double v) {
  M::CoefficientMap::const_iterator it = c.find(k);
  if (it == c.end()) return false;
  vf_eq(it->second, v, "value of a returned coefficient");
  return true;
}

extern "C" void h_c18_range() {
  const int n = vf_param("n");
  M m;
  Model r;
  content(m, r, n);
  const std::vector<int> o = r.order();
  const double a = vf_real("a"), b = vf_real("b");
  vf_assume_le(a, b);
  M::CoefficientMap c;
  m.getCoefficientsInRange(a, b, &c);
  if (n == 0 || a > r.t[o[n - 1]] || b < r.t[o[0]]) {
    vf_reach("no overlap");
    vf_assert(c.empty(), "a range that does not overlap returns nothing");
    return;
  }
  // first: last one at or before a (clamped); last: first one at or after b (clamped)
  int lo = 0, hi = n - 1;
  while (lo + 1 < n && r.t[o[lo + 1]] <= a) ++lo;
  while (hi > 0 && r.t[o[hi - 1]] >= b) --hi;
  size_t count = 0;
  for (int i = 0; i < n; ++i) {
    const bool want = i >= lo && i <= hi;
    vf_assert(in_map(c, r.k[o[i]], r.v[o[i]]) == want, want ? "a supporting coefficient is returned" : "no other coefficient is returned");
    count += want;
  }
  vf_assert(c.size() == count, "nothing else is returned");
  vf_reach("range");
}
extern "C" void h_c18_all() {
  const int n = vf_param("n");
  M m;
  Model r;
  content(m, r, n);
  M::CoefficientMap c;
  m.getCoefficients(&c);
  vf_assert(c.size() == (size_t)n, "all coefficients are returned");
  for (int i = 0; i < n; ++i) vf_assert(in_map(c, r.k[i], r.v[i]), "each coefficient is returned under its key");
  vf_reach("all");
}
extern "C" void h_c18_window() {
  const int n = vf_param("n");
  M m;
  Model r;
  content(m, r, n);
  const std::vector<int> o = r.order();
  const double a = vf_real("a");
  vf_assume_le(r.t[o[0]], a);
  std::vector<double> w(2, 3.0);
  m.getTimesInWindow(&w, a, r.t[o[n - 1]]);
  size_t k = 0;
  for (int i = 0; i < n; ++i)
    if (r.t[o[i]] >= a) {
      vf_assert(k < w.size(), "every time in the window is returned");
      vf_eq(w[k], r.t[o[i]], "times of the window in ascending order");
      ++k;
    }
  vf_assert(w.size() == k, "no other time is returned");
  vf_reach("window");
}

// ---- C20
static void check_all(const M& m, const Model& r) {
  check_map(m, r);
  check_keys(m, r);
}
extern "C" void h_c20_append() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  for (int j = 0; j < vf_param("adds"); ++j) {
    const double t = vf_real(Nm("at", j)), v = vf_real(Nm("av", j));
    for (double x : r.t) vf_assume_lt(x, t);
    if (vf_choice(Nm("report", j), 2)) {
      std::vector<Key> k(1, (Key)3);
      m.addCoefficientAtEnd(t, v, &k);
      vf_assert(k.size() == 2 && k[0] == 3, "the new key is appended");
      r.inserted(t, v, k[1]);
    } else {
      m.addCoefficientAtEnd(t, v);
      M::CoefficientIter it = m.coefficientEnd();
      vf_assert(!m.empty(), "the coefficient was added");
      --it;
      r.inserted(t, v, it->second.key);
    }
  }
  check_all(m, r);
  vf_reach("appended");
}
extern "C" void h_c20_append_refused() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  const std::vector<int> o = r.order();
  const double t = vf_real("at");
  vf_assume_le(t, r.t[o.back()]);
  vf_reach("too early");
  vf_expect_abort("appending at or before the last time is refused");
  m.addCoefficientAtEnd(t, vf_real("av"));
  vf_unexpect_abort();
}
extern "C" void h_c20_modify() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  const std::vector<int> o = r.order();
  const int i = vf_choice("i", (int)o.size());
  M::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin();
  for (int j = 0; j < i; ++j) ++it;
  double t = r.t[o[i]];
  const double v = vf_real("nv");
  if (vf_choice("move", 2)) {
    t = vf_real("nt");
    vf_assume(r.find(t) < 0);
    vf_reach("moved");
  } else vf_reach("same time");
  m.modifyCoefficient(it, t, v);
  r.t[o[i]] = t;
  r.v[o[i]] = v;
  check_all(m, r);
  // still consistent when changed again
  const double w = vf_real("w");
  m.updateCoefficientByKey(r.k[o[i]], w);
  r.v[o[i]] = w;
  check_all(m, r);
  m.removeCoefficientAtTime(t);
  r.erase(o[i]);
  check_all(m, r);
}
extern "C" void h_c20_batch() {
  M m;
  Model r;
  content(m, r, vf_param("n"));
  const std::vector<int> o = r.order();
  const int n = (int)o.size(), from = vf_choice("from", n), len = 1 + vf_choice("len", n - from);
  std::vector<double> t, v;
  for (int j = from; j < from + len; ++j) {
    t.push_back(r.t[o[j]]);
    v.push_back(vf_real(Nm("nv", j)));
    r.v[o[j]] = v.back();
  }
  m.modifyCoefficientsValuesInBatch(t, v);
  check_all(m, r);
  vf_reach("batch");
}
