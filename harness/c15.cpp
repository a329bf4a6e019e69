#include "manager.h"
#include "curves/KeyGenerator.hpp"
#include <algorithm>

// one operation on manager and model
enum { NOPS = 8 };
static void op(M& m, Model& r, int o, int kind) {
  switch (kind) {
    case 0: {
      const double t = vf_real(Nm("t", o)), v = vf_real(Nm("v", o));
      r.inserted(t, v, m.insertCoefficient(t, v));
      break;
    }
    case 1: {
      const std::vector<double> t{vf_real(Nm("s", o, 0)), vf_real(Nm("s", o, 1))}, v{vf_real(Nm("w", o, 0)), vf_real(Nm("w", o, 1))};
      if (vf_choice(Nm("keys", o), 2)) {
        std::vector<Key> k(1, (Key)5);
        m.insertCoefficients(t, v, &k);
        vf_assert(k.size() == 3 && k[0] == 5, "keys of a batch are appended");
        for (int i = 0; i < 2; ++i) r.inserted(t[i], v[i], k[i + 1]);
      } else {
        m.insertCoefficients(t, v);
        for (int i = 0; i < 2; ++i) {
          // the key is not reported: look it up
          Key x = 0;
          for (M::CoefficientIter it = m.coefficientBegin(); it != m.coefficientEnd(); ++it) if (it->first == t[i]) x = it->second.key;
          r.inserted(t[i], v[i], x);
        }
      }
      break;
    }
    case 2: case 3: case 4: {
      if (r.t.empty()) vf_end();
      const int i = vf_choice(Nm("i", o), (int)r.t.size());
      if (kind == 2) { m.removeCoefficientAtTime(r.t[i]); r.erase(i); }
      else if (kind == 3) { m.removeCoefficientWithKey(r.k[i]); r.erase(i); }
      else { const double v = vf_real(Nm("u", o)); m.updateCoefficientByKey(r.k[i], v); r.v[i] = v; }
      break;
    }
    case 5:
      m.clear();
      r.clear();
      break;
    case 6:   // only reading
      look(m, vf_real(Nm("q", o)));
      break;
    default: {
      if (r.t.empty()) vf_end();
      // values through a map of keys
      M::CoefficientMap c;
      const int i = vf_choice(Nm("i", o), (int)r.t.size());
      const double v = vf_real(Nm("u", o));
      c[r.k[i]] = v;
      r.v[i] = v;
      m.updateCoefficients(c);
      break;
    }
  }
}
static void history(M& m, Model& r) {
  const int init = vf_param("init"), ops = vf_param("ops");
  for (int i = 0; i < init; ++i) {
    const double t = vf_real(Nm("it", i)), v = vf_real(Nm("iv", i));
    if (i) vf_assume_lt(r.t.back(), t);   // (other orders of insertion: histories from the empty manager)
    r.inserted(t, v, m.insertCoefficient(t, v));
  }
  bool batch = false;   // at most one batch per history
  for (int o = 0; o < ops; ++o) {
    const int kind = vf_choice(Nm("op", o), NOPS);
    if (kind == 1 && batch) vf_end();
    batch = batch || kind == 1;
    op(m, r, o, kind);
  }
}

// C15: content
extern "C" void h_c15() {
  M m;
  Model r;
  history(m, r);
  check_map(m, r);
  m.checkInternalConsistency();
  vf_reach("content");
  if (r.t.empty()) vf_reach("emptied");
}
extern "C" void h_c15_absent() {
  M m;
  Model r;
  history(m, r);
  check_absent(m, r, vf_real("x"));
  vf_reach("absent");
}
// removing what is not there is an error
extern "C" void h_c15_missing() {
  M m;
  Model r;
  history(m, r);
  const int how = vf_choice("how", 2);
  if (how == 0) {
    const double x = vf_real("x");
    if (r.find(x) >= 0) vf_end();
    vf_reach("missing time");
    vf_expect_abort("removing at an unused time is refused");
    m.removeCoefficientAtTime(x);
    vf_unexpect_abort();
  } else {
    Key k = 0;
    for (Key h : r.handed) if (h >= k) k = h + 1;
    for (Key h : r.handed) { bool p = false; for (Key y : r.k) p = p || y == h; if (!p) k = h; }
    vf_reach("missing key");
    vf_expect_abort("removing an unknown key is refused");
    m.removeCoefficientWithKey(k);
    vf_unexpect_abort();
  }
}

// C16: keys
extern "C" void h_c16() {
  M m;
  Model r;
  history(m, r);
  check_keys(m, r);
  vf_reach("keys");
}
// two managers used alternately hand out different keys and do not disturb each other
extern "C" void h_c16_two() {
  M a, b;
  Model ra, rb;
  for (int o = 0; o < vf_param("ops"); ++o) {
    const bool first = vf_choice(Nm("which", o), 2);
    M& m = first ? a : b;
    Model& r = first ? ra : rb;
    const Model& other = first ? rb : ra;
    if (vf_choice(Nm("op", o), 2) == 0 || r.t.empty()) {
      const double t = vf_real(Nm("t", o)), v = vf_real(Nm("v", o));
      const bool fresh = r.find(t) < 0;
      const Key k = m.insertCoefficient(t, v);
      if (fresh) vf_assert(!other.known(k), "keys differ between managers");
      r.inserted(t, v, k);
    } else {
      const int i = vf_choice(Nm("i", o), (int)r.t.size());
      m.removeCoefficientAtTime(r.t[i]);
      r.erase(i);
    }
  }
  check_keys(a, ra);
  check_keys(b, rb);
  vf_reach("two");
}
// lookups and updates of unknown keys are refused
extern "C" void h_c16_missing() {
  M m;
  Model r;
  history(m, r);
  Key k = 0;
  for (Key h : r.handed) if (h >= k) k = h + 1;
  for (Key h : r.handed) { bool p = false; for (Key y : r.k) p = p || y == h; if (!p) k = h; }
  vf_assert(!m.hasCoefficientWithKey(k), "an unknown key is not known");
  const int how = vf_choice("how", 4);
  vf_reach("unknown key");
  vf_expect_abort("an unknown key is refused");
  if (how == 0) { volatile double d = m.getCoefficientByKey(k); (void)d; }
  if (how == 1) { volatile double d = m.getCoefficientTimeByKey(k); (void)d; }
  if (how == 2) m.updateCoefficientByKey(k, 1.0);
  if (how == 3) { M::CoefficientMap c; c[k] = 1.0; m.updateCoefficients(c); }
  vf_unexpect_abort();
}
// many keys
extern "C" void h_c16_many() {
  const int n = vf_param("n");
  std::vector<bool> seen;
  Key lo = curves::KeyGenerator::getNextKey(), last = lo;
  bool up = true;
  for (int i = 1; i < n; ++i) {
    const Key k = curves::KeyGenerator::getNextKey();
    up = up && k > last;   // ascending keys are all different
    last = k;
    if (!up) break;
  }
  if (!up) {             // in some other order: compare them all
    std::vector<Key> ks;
    for (int i = 0; i < n; ++i) ks.push_back(curves::KeyGenerator::getNextKey());
    std::sort(ks.begin(), ks.end());
    bool same = false;
    for (int i = 1; i < n; ++i) same = same || ks[i] == ks[i - 1];
    vf_assert(!same, "keys are all different");
  }
  vf_assert(lo != last || n < 2, "keys are all different");
  vf_reach("many keys");
}
