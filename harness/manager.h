// Reference model of a coefficient manager: a short list of (time, value, key).
#pragma once
#include "common.h"
#include "curves/LocalSupport2CoefficientManager.hpp"
typedef curves::LocalSupport2CoefficientManager<double> M;
typedef curves::Key Key;

struct Model {
  std::vector<double> t, v;
  std::vector<Key> k;
  std::vector<Key> handed;   // every key ever handed out
  int find(double x) const { for (size_t i = 0; i < t.size(); ++i) if (t[i] == x) return (int)i; return -1; }
  void erase(int i) { t.erase(t.begin() + i); v.erase(v.begin() + i); k.erase(k.begin() + i); }
  void clear() { t.clear(); v.clear(); k.clear(); }
  bool known(Key x) const { for (Key y : handed) if (x == y) return true; return false; }
  // a coefficient was inserted and the manager answered with key x
  void inserted(double time, double val, Key x) {
    const int i = find(time);
    if (i >= 0) {
      vf_assert(k[i] == x, "overwriting keeps the key");
      v[i] = val;
    } else {
      vf_assert(!known(x), "a new coefficient gets a new key");
      handed.push_back(x);
      t.push_back(time);
      v.push_back(val);
      k.push_back(x);
    }
  }
  // indices in ascending order of time
  std::vector<int> order() const {
    std::vector<int> o;
    for (size_t i = 0; i < t.size(); ++i) {
      size_t j = 0;
      while (j < o.size() && t[o[j]] < t[i]) ++j;
      o.insert(o.begin() + j, (int)i);
    }
    return o;
  }
};

// reads the manager (results do not matter here: reading must not change what comes later)
static void look(const M& m, double x) {
  M::CoefficientIter a, b;
  m.getCoefficientsAt(x, &a, &b);
  m.hasCoefficientAtTime(x);
}
// the two coefficients around x
static void check_at(const M& m, const Model& r, double x) {
  const std::vector<int> o = r.order();
  const int n = (int)o.size();
  M other;
  other.insertCoefficient(0.0, 0.0);
  const M::CoefficientIter mark0 = static_cast<const M&>(other).coefficientBegin(), mark1 = static_cast<const M&>(other).coefficientEnd();
  M::CoefficientIter a = mark0, b = mark1;
  const bool ok = m.getCoefficientsAt(x, &a, &b);
  const bool want = n >= 2 && x >= r.t[o[0]] && x <= r.t[o[n - 1]];
  if (want) {
    vf_reach("bracketed");
    vf_assert(ok, "succeeds inside the span");
    // index of the left neighbour
    int i = 0;
    while (i + 2 < n && x >= r.t[o[i + 1]]) ++i;
    vf_eq(a->first, r.t[o[i]], "left neighbour");
    vf_eq(b->first, r.t[o[i + 1]], "right neighbour");
    vf_eq(a->second.coefficient, r.v[o[i]], "left value");
    vf_eq(b->second.coefficient, r.v[o[i + 1]], "right value");
    vf_assert(a->second.key == r.k[o[i]] && b->second.key == r.k[o[i + 1]], "keys of the neighbours");
  } else {
    vf_reach("not bracketed");
    vf_assert(!ok, "fails outside the span");
    vf_assert(a == mark0 && b == mark1, "outputs are untouched on failure");
  }
}

// time -> value content
static void check_map(const M& m, const Model& r) {
  const std::vector<int> o = r.order();
  const size_t n = o.size();
  vf_assert(m.size() == n, "size");
  vf_assert(m.empty() == (n == 0), "emptiness");
  std::vector<double> ts(1, 7.0);
  m.getTimes(&ts);
  vf_assert(ts.size() == n, "number of times");
  M::CoefficientIter it = m.coefficientBegin();
  for (size_t i = 0; i < n; ++i, ++it) {
    vf_eq(ts[i], r.t[o[i]], "sorted times");
    vf_assert(it != m.coefficientEnd(), "iteration covers all coefficients");
    vf_eq(it->first, r.t[o[i]], "time of a coefficient");
    vf_eq(it->second.coefficient, r.v[o[i]], "value of a coefficient");
    vf_assert(m.hasCoefficientAtTime(r.t[o[i]]), "membership");
  }
  vf_assert(it == m.coefficientEnd(), "iteration ends after all coefficients");
  if (n) {
    vf_eq(m.getMinTime(), r.t[o[0]], "first time");
    vf_eq(m.getMaxTime(), r.t[o[n - 1]], "last time");
  }
}
static void check_absent(const M& m, const Model& r, double x) {
  if (r.find(x) < 0) vf_assert(!m.hasCoefficientAtTime(x), "no coefficient at an unused time");
}
// key -> coefficient
static void check_keys(const M& m, const Model& r) {
  const std::vector<int> o = r.order();
  std::vector<Key> ks(1, (Key)7), app(1, (Key)9);
  m.getKeys(&ks);
  m.appendKeys(&app);
  vf_assert(ks.size() == o.size(), "number of keys");
  vf_assert(app.size() == o.size() + 1 && app[0] == 9, "appending keys keeps what was there");
  M::CoefficientIter it = m.coefficientBegin();
  for (size_t i = 0; i < o.size(); ++i, ++it) {
    const Key k = r.k[o[i]];
    vf_assert(ks[i] == k, "keys in order of time");
    vf_assert(app[i + 1] == k, "keys in order of time");
    vf_assert(it->second.key == k, "key of a coefficient");
    vf_assert(m.hasCoefficientWithKey(k), "key is known");
    vf_eq(m.getCoefficientByKey(k), r.v[o[i]], "value by key");
    vf_eq(m.getCoefficientTimeByKey(k), r.t[o[i]], "time by key");
  }
  for (Key h : r.handed) {
    bool present = false;
    for (Key k : r.k) present = present || k == h;
    if (!present) vf_assert(!m.hasCoefficientWithKey(h), "a removed key is not known");
  }
}
