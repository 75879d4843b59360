// Seeded generation of scenarios: workloads, faults, their order and their arguments. Swarm style: every run draws its
// own mix of operations, fault kinds, sizes and classes.
#include "gen.hpp"
#include "refdesign.hpp"
#include "exec.hpp"
#include <functional>
#include <map>

static double g_qfix = -1;      // some histories ask at one frequency again and again
static double qf(Rng& r) { if (g_qfix >= 0 && r.chance(0.8)) return g_qfix; static const double v[] = {0.25, 0.125, 0.5, 0, 0.1, 1 / 3.0, 0.2, 1e-300}; return r.chance(0.15) ? v[r.below(8)] : r.uniform(0, 0.5); }      // asked frequency
static double pickFs(Rng& r) { static const double v[] = {1, 44100, 48000, 8000, 1000, 250, 96000, 22050, 128, 1e6}; return v[r.below(10)]; }
static void toHz(const ClassDesc& c, Params& p) { if (hzForm(c, p)) { p.f *= p.fs; p.w *= p.fs; } }
static void fromHz(const ClassDesc& c, Params& p) { if (hzForm(c, p)) { p.f /= p.fs; p.w /= p.fs; } }

static void secCoefs(Rng& r, std::vector<double>& o, bool pythonOrder, bool tameOnly) {
  double rad = r.uniform(0, tameOnly ? 0.97 : 0.995), th = r.uniform(0, 3.14), a1, a2;
  if (r.chance(0.3)) { double q = r.uniform(-rad, rad); a1 = -(rad + q); a2 = rad * q; if (r.chance(0.3)) { a2 = 0; a1 = -rad; } } else { a1 = -2 * rad * std::cos(th); a2 = rad * rad; }
  double a0 = r.chance(0.6) ? 1 : r.logu(0.1, 10) * (r.chance(0.2) ? -1 : 1), b[3];
  for (double& x : b) x = r.uniform(-2, 2) * a0;
  if (r.chance(0.15)) b[2] = 0;
  if (r.chance(0.1)) b[1] = 0;
  if (r.chance(0.2)) { b[1] = 2 * b[0]; b[2] = b[0]; }
  if (r.chance(0.12)) { for (double* q : {&a1, &a2, &b[1], &b[2]}) if (r.chance(0.5)) *q = 0; if (std::fabs(a1) > 0.9 && a2 == 0) a1 *= 0.45; }      // sparse sections
  double a[3] = {a0, a1 * a0, a2 * a0};
  if (pythonOrder) { o.insert(o.end(), b, b + 3); o.insert(o.end(), a, a + 3); } else { o.insert(o.end(), a, a + 3); o.insert(o.end(), b, b + 3); }
}
// arguments as people type them: exact fractions, equal to each other, integers
static void roundNumbers(const ClassDesc& c, Rng& r, Params& p) {
  static const double F[] = {0.25, 0.125, 0.1, 0.2, 0.3, 0.4, 0.05, 0.375, 0.45, 1 / 3.0}, W[] = {0.05, 0.1, 0.2, 0.25, 0.02, 0.125, 0.3}, Q[] = {0.7071067811865475, 0.5, 1, 2, 10, 5, 0.25}, D[] = {6, 3, 10, 12, 20, 1, 40, 0.5, 3.0103}, Z[] = {0, 0.5, -0.5, 1, -1, 0.9, -0.25};
  bool band = c.designed() && c.band();
  if (c.fam == CUS) { if (c.kind == K_ONE || c.kind == K_TWO) { for (double& x : p.extra) if (r.chance(0.5)) { double v = Z[r.below(7)]; if (c.kind == K_TWO) v = std::fabs(v); x = v; } if (p.extra[0] == 1 || p.extra[0] == -1) p.extra[0] *= 0.5; p.g = r.chance(0.5) ? 1 : -2; } return; }
  if (r.chance(0.8)) p.f = F[r.below(10)];
  if (band) { double m = 2 * std::fmin(p.f, 0.5 - p.f); if (r.chance(0.8)) p.w = r.chance(0.15) ? p.f : W[r.below(7)]; if (!(p.w < m * 0.97)) p.w = m / 2; }
  if (c.fam == RBJ) { bool sh = c.kind == R_LS || c.kind == R_HS; if (sh || c.kind == R_BSH) { p.g = D[r.below(6)] * (r.chance(0.5) ? -1 : 1); p.r = sh ? (r.chance(0.5) ? 1 : 0.5) : Q[r.below(4)]; } else p.g = Q[r.below(c.kind == R_NOTCH ? 6 : 7)]; }
  else if (c.designed()) { if (r.chance(0.7)) p.g = D[r.below(6)] * (r.chance(0.5) ? -1 : 1); if (r.chance(0.7)) p.r = c.fam == C2 && !c.shelf() ? 20.0 * r.range(1, 4) : D[r.below(9)]; if (c.shelf() && !(p.r < 0.8 * std::fabs(p.g))) p.r = 0.5 * std::fabs(p.g); if (!c.shelf() && c.fam == C1 && p.r > 6) p.r = 1; }
}
Params genValid(const ClassDesc& c, Rng& r, bool tameOnly) {
  for (int tries = 0;; tries++) {
    Params p; p.fs = 1;
    if (c.designed()) {
      p.form = (int)r.below(4); p.order = r.chance(0.45) ? c.maxOrder : r.range(1, c.maxOrder);
      if (!tameOnly && r.chance(0.02)) p.order = 0;
      if (c.band()) {
        p.f = r.chance(0.7) ? r.uniform(0.03, 0.47) : r.logu(0.004, 0.48);
        if (r.chance(0.1)) p.f = 0.25;
        double m = 2 * std::fmin(p.f, 0.5 - p.f); p.w = m * (tameOnly ? r.uniform(0.2, 0.9) : r.logu(0.02, 0.95));
      } else p.f = r.chance(0.6) ? r.uniform(0.02, 0.48) : r.logu(0.003, 0.49);
      p.g = r.chance(0.15) ? (r.chance(0.5) ? 3 : -3) * 2.0 : r.uniform(0.3, 24) * (r.chance(0.5) ? -1 : 1);
      p.r = c.fam == C2 && !c.shelf() ? r.uniform(5, 80) : r.uniform(0.05, 5);
      if (c.shelf() && c.fam != BW) p.r = r.uniform(0.02, 0.8) * std::fabs(p.g);
      if (!tameOnly && r.chance(0.015)) p.f = r.chance(0.7) ? 0 : r.logu(1e-12, 1e-4);
      if (!tameOnly && r.chance(0.05)) { p.g *= 3; p.r *= r.chance(0.5) ? 2.5 : 0.1; }
      if (r.chance(0.05)) { if (c.band()) { p.w *= 0.3; } else p.f = r.chance(0.5) ? r.logu(2e-4, 0.01) : 0.5 - r.logu(2e-4, 0.01); }
      if (r.chance(0.2)) { p.g = std::nearbyint(p.g); if (p.g == 0) p.g = 1; if (!c.shelf()) p.r = std::fmax(1, std::nearbyint(p.r)); }
    } else if (c.fam == RBJ) {
      p.form = r.chance(0.5) ? F_HZ : F_N; p.f = r.chance(0.7) ? r.uniform(0.02, 0.48) : r.logu(0.002, 0.49);
      p.dflt = r.chance(0.25);
      if (c.kind == R_LS || c.kind == R_HS) { p.g = r.uniform(-24, 24); p.r = r.uniform(0.1, 1); }
      else if (c.kind == R_BSH) { p.g = r.uniform(-24, 24); p.r = r.uniform(0.1, 3); p.dflt = 0; }
      else p.g = c.kind == R_NOTCH ? r.logu(0.5, 50) : r.logu(0.2, 12);
      if (r.chance(0.06)) { p.g = c.kind == R_LS || c.kind == R_HS || c.kind == R_BSH ? p.g * 2 : r.logu(0.05, 100); }
      if (r.chance(0.1) && c.kind != R_LS && c.kind != R_HS && c.kind != R_BSH) p.g = r.range(1, 10);
      if (r.chance(0.05)) p.r = c.kind == R_BSH ? r.uniform(2, 5) : r.chance(0.5) ? 1 : r.uniform(0.03, 0.1);
    } else {
      p.g = r.chance(0.3) ? 1 : r.uniform(-3, 3); if (p.g == 0) p.g = 1;
      double rm = tameOnly ? 0.97 : 0.999;
      if (c.kind == K_ONE) p.extra = {r.uniform(-rm, rm), r.uniform(-1.5, 1.5)};
      else if (c.kind == K_TWO) p.extra = {r.uniform(0.02, rm), r.uniform(0, 3.14), r.uniform(0.05, 1.2), r.uniform(0, 3.14)};
      else if (c.kind == K_SOS) { p.form = 0; p.dflt = r.chance(0.4); for (int i = 0; i < c.maxOrder; i++) secCoefs(r, p.extra, true, tameOnly); }
      else {
        p.form = (int)r.weighted({6, 1, 2, 3, 2, 2, 2});
        if (p.form == 0 || p.form == 4 || p.form == 5) secCoefs(r, p.extra, false, tameOnly);
        else if (p.form == 2) p.extra = {r.uniform(-rm, rm), 0, r.uniform(-1.5, 1.5), 0};
        else if (p.form == 3 || p.form == 6) { double a = r.uniform(0.05, rm), t = r.uniform(0.1, 3), b = r.uniform(0.1, 1.2), u = r.uniform(0.1, 3);
          p.extra = {a * std::cos(t), a * std::sin(t), b * std::cos(u), b * std::sin(u), a * std::cos(t), -a * std::sin(t), b * std::cos(u), -b * std::sin(u)};
          if (r.chance(0.3)) p.extra = {r.uniform(-rm, rm), 0, r.uniform(-1, 1), 0, r.uniform(-rm, rm), 0, r.uniform(-1, 1), 0};
          if (r.chance(0.15)) for (size_t k : {4, 5, 6, 7}) { if (k & 1) p.extra[1] = p.extra[3] = 0; p.extra[k] = 0; } }      // a single pole
        if (p.form == 4 && p.extra[3] == 0) p.extra[3] = 1;
      }
    }
    if (r.chance(0.12)) roundNumbers(c, r, p);
    if (hzForm(c, p)) { p.fs = pickFs(r); toHz(c, p); }
    if (!tameOnly || tame(c, p).ok) return p;
    if (tries > 400) return p;
  }
}
// another request that shares most arguments with `base`: stale-state bugs show between near-identical requests
Params mutate(const ClassDesc& c, Rng& r, const Params& base, bool tameOnly) {
  for (int tries = 0; tries < 50; tries++) {
    Params p = base, q = genValid(c, r, tameOnly);
    if (c.designed()) {
      fromHz(c, p); fromHz(c, q); int of = p.form; double ofs = p.fs;
      auto nudge = [&](double x) { return x * (1 + (r.chance(0.5) ? 1 : -1) * r.logu(1e-6, 0.05)); };      // hardly different
      switch (r.below(9)) {
        case 7: { double* a[] = {&p.f, &p.w, &p.g, &p.r}; int k = (int)r.below(4); *a[k] = nudge(*a[k]); if (c.band() && k < 2) p.w = std::fmin(p.w, 2 * std::fmin(p.f, 0.5 - p.f) * 0.97); break; }
        case 8: if (c.shelf()) p.g = r.chance(0.3) ? -nudge(p.g) : nudge(p.g); else if (c.fam != BW) p.r = nudge(p.r); else p.f = std::fmin(0.4995, nudge(p.f)); if (c.band()) p.w = std::fmin(p.w, 2 * std::fmin(p.f, 0.5 - p.f) * 0.97); break;
        case 0: p.f = q.f; if (c.band()) p.w = q.w; break;
        case 1: p.w = std::fmin(2 * std::fmin(p.f, 0.5 - p.f) * 0.9, p.w * r.uniform(0.5, 1.6)); break;
        case 2: if (p.form & 1) p.order = q.order; else { p.form |= 1; p.order = q.order; } break;
        case 3: p.g = r.chance(0.4) ? -p.g : q.g; break;
        case 4: p.r = q.r; break;
        case 5: p.g = q.g; p.r = q.r; break;
        default: p.form = q.form; p.order = q.order; break;
      }
      (void)of; p.fs = hzForm(c, p) ? (ofs > 1 && r.chance(0.5) ? ofs : pickFs(r)) : 1; toHz(c, p);
    } else if (c.fam == RBJ) {
      fromHz(c, p); fromHz(c, q);
      switch (r.below(6)) { case 5: { double* a[] = {&p.f, &p.g, &p.r}; int k = (int)r.below(3); *a[k] *= 1 + (r.chance(0.5) ? 1 : -1) * r.logu(1e-6, 0.05); if (k == 2 && p.r > 1 && c.kind != R_BSH) p.r = 1; if (p.f > 0.4995) p.f = 0.4995; break; } case 0: p.f = q.f; break; case 1: p.g = q.g; break; case 2: p.r = q.r; break; case 3: p.dflt = q.dflt; break; default: p.form = q.form; }
      p.fs = hzForm(c, p) ? pickFs(r) : 1; toHz(c, p);
    } else { if (c.kind != K_RAW && r.chance(0.5)) p.g = q.g; else if (p.extra.size() == q.extra.size() && !p.extra.empty() && c.kind != K_RAW) { size_t i = r.below(p.extra.size()); p.extra[i] = q.extra[i]; } else p = q; }
    if (!tameOnly || tame(c, p).ok) return p;
  }
  return base;
}
Params genBad(const ClassDesc& c, Rng& r, const Params& base) {
  Params p = base; static const double BADV[] = {NAN, NAN, -1, 0, 0.5, 2, INFINITY, -INFINITY, 1e308, -1e-3, 1e-320};
  double v = BADV[r.below(11)];
  if (c.designed()) {
    switch (r.weighted({5, c.band() ? 4 : 0, c.shelf() ? 3 : 0, c.fam != BW ? 5 : 0, 6, 1})) {
      case 0: p.f = r.chance(0.3) ? r.uniform(0.5, 3) * (hzForm(c, p) ? p.fs : 1) : (v == 0.5 || v == 2) && hzForm(c, p) ? v * p.fs : v; break;
      case 1: p.w = v; break;
      case 2: p.g = r.chance(0.3) ? 0 : v; break;
      case 3: p.r = r.chance(0.5) ? -r.uniform(0.1, 40) : v; break;
      case 4: { p.form |= 1; static const int O[] = {-1, -2, -7, 1, 1, 1, 2, 3, 100, 2147483647, (-2147483647 - 1)}; int k = O[r.below(11)]; p.order = k > 0 && k < 100 ? c.maxOrder + k : k; if (r.chance(0.1)) p.order = 0;
        if (r.chance(0.2)) { static const long long W[] = {256, 65536, 128, 32768, -256, -65536, 1LL << 30, -(1LL << 31), 512, 1024}; p.order = (int)(W[r.below(10)] + r.range(0, c.maxOrder)); }      // fits when cut to fewer bits
        break; }
      default: p.form = p.form & 1 ? F_ORDER_HZ : F_HZ; p.fs = r.chance(0.5) ? NAN : 0; break;
    }
    if (r.chance(0.1)) p.f = NAN;
  } else if (c.fam == RBJ) {
    switch (r.below(4)) { case 0: p.f = (v == 0.5 && hzForm(c, p)) ? 0.5 * p.fs : v; break; case 1: p.g = r.chance(0.5) ? 0 : v; p.dflt = 0; break; case 2: p.r = r.chance(0.5) ? 0 : v; p.dflt = 0; break; default: p.form = F_HZ; p.fs = r.chance(0.5) ? NAN : 0; }
    if (r.chance(0.1)) { p.g = 1e300; p.r = 1e300; p.dflt = 0; }
  } else {
    if (c.kind == K_ONE || c.kind == K_TWO) { if (r.chance(0.4)) p.g = v; else p.extra[r.below(p.extra.size())] = v; }
    else if (c.kind == K_SOS) { size_t s = r.below((uint64_t)c.maxOrder), k = r.below(6); if (r.chance(0.6)) s = (size_t)c.maxOrder - 1; p.extra[s * 6 + k] = r.chance(0.7) ? NAN : v;
      if (r.chance(0.2)) { p.extra[s * 6 + 3] = 0; p.extra[s * 6 + 4] = 0; } }
    else {
      if (p.form == 1) { p.form = 0; p.extra = {1, 0, 0, 1, 0, 0}; }
      if (p.form == 5 && r.chance(0.3)) { p.g = r.chance(0.6) ? NAN : v; return p; }
      p.extra[r.below(p.extra.size())] = p.form == 2 || p.form == 3 || p.form == 6 ? (r.chance(0.5) ? r.uniform(0.1, 1) : v) : v;
      if ((p.form == 0 || p.form == 4 || p.form == 5) && r.chance(0.2)) p.extra[r.chance(0.5) ? 0 : 3] = 0;
    }
  }
  return p;
}

namespace {
struct G {
  Rng r; Scenario s; std::vector<int> cls; std::vector<std::vector<Params>> pool; int slots;
  int slotCls[MAXSLOT];
  G(const std::string& prop, uint64_t seed) : r(mix(seed, std::hash<std::string>()(prop))) { s.prop = prop; s.seed = seed; for (int& x : slotCls) x = -1; }
  int pickClass(const std::function<bool(const ClassDesc&)>& ok) {
    const auto& cl = classes();
    // families first, then members, so that small families are not drowned
    for (int t = 0; t < 2000; t++) {
      int fam = r.weighted({4, 4, 4, 4, 3}); size_t i = (size_t)r.below(cl.size());
      for (size_t k = 0; k < cl.size(); k++) { size_t j = (i + k * 37) % cl.size(); if (cl[j].fam == fam && ok(cl[j])) { if (r.chance(0.35)) return (int)j; } }
    }
    return 0;
  }
  const ClassDesc& cd(int c) { return classes()[(size_t)c]; }
  void add(const Op& o) { if (s.ops.size() + 2 < MAXOPS) s.ops.push_back(o); }
  Op op(OpK k, int a) { Op o; o.k = k; o.a = a; o.seed = r.below(1000000); return o; }
  void mkNew(int a, int c) { Op o = op(O_NEW, a); o.cls = c; add(o); slotCls[a] = c; }
  void mkSetup(int a, const Params& p) { Op o = op(O_SETUP, a); o.p = p; add(o); }
  Op feed(unsigned mask, int gen, int n, double amp) { Op o = op(O_FEED, 0); o.mask = mask; o.gen = gen; o.n = n; o.amp = amp; o.seed = r.next() >> 20; return o; }
  void makePools(int n, bool tameOnly) {
    for (int c : cls) {
      std::vector<Params> v; v.push_back(genValid(cd(c), r, tameOnly));
      for (int i = 1; i < n; i++) v.push_back(r.chance(0.75) ? mutate(cd(c), r, v[r.below(v.size())], tameOnly) : genValid(cd(c), r, tameOnly));
      pool.push_back(v);
    }
  }
  const Params& fromPool(int c) { for (size_t i = 0; i < cls.size(); i++) if (cls[i] == c) return pool[i][r.below(pool[i].size())]; return pool[0][0]; }
};
struct Mix { int setup = 6, bad = 1, feed = 6, glitch = 1, reset = 1, copy = 0, assign = 0, reloc = 0, destroy = 0, query = 0, alloc = 0, requeryBad = 0; int typed = 0; };
// a filter that is asked for the same thing, or driven back and forth, more often than an 8 or 16 bit count can hold
static int wraps(Rng& r) { return (r.chance(0.75) ? 256 : r.chance(0.5) ? 512 : 65536) + r.range(-3, 2); }
static void churnRepeat(G& g, int a, const Mix& m) {
  Rng& r = g.r; int c = g.slotCls[a]; Op o; int kinds[] = {6, m.bad ? 3 : 0, m.reset ? 3 : 0, m.query ? 2 : 0, m.assign ? 2 : 0}; int n = wraps(r);
  bool big = g.cd(c).fam != RBJ && g.cd(c).fam != CUS && g.cd(c).maxOrder > 4 && n > 60000;      // only time
  switch (r.weighted({kinds[0], kinds[1], kinds[2], kinds[3], kinds[4]})) {
    case 0: o = g.op(O_SETUP, a); o.p = g.fromPool(c); break;
    case 1: o = g.op(O_SETUP, a); o.p = genBad(g.cd(c), r, g.fromPool(c)); if (n > 60000) n -= 65536 - 256; break;
    case 2: o = g.op(O_RESET, a); big = false; break;
    case 3: o = g.op(O_QUERY, a); o.amp = qf(r); break;
    default: o = g.op(O_ASSIGN, a); o.b = a; for (int b = 0; b < MAXSLOT; b++) if (b != a && g.slotCls[b] == c) o.b = b;
  }
  o.n = big ? n - 65536 + 256 : n; g.add(o);
  if (r.chance(0.5)) g.mkSetup(a, g.fromPool(c));
  if (r.chance(0.7)) g.add(g.feed(1u << a, (int)r.below(7), r.range(1, 30), 1));
}
static void churnOps(G& g, int a, const Mix& m, double amp, int nslots) {
  Rng& r = g.r; int c = g.slotCls[a], n = r.chance(0.7) ? r.range(256, 300) : r.range(300, 560), kind = (int)r.below(6), few = r.range(1, 3), feedEvery = r.chance(0.5) ? 0 : r.range(2, 12);
  std::vector<Params> v; for (int i = 0; i < few; i++) v.push_back(g.fromPool(c));
  Params sweep = v[0], bad = genBad(g.cd(c), r, v[0]); double f0 = sweep.f, f1 = sweep.f * r.uniform(0.5, 1.0);
  for (int i = 0; i < n; i++) {
    switch (kind) {
      case 0: g.mkSetup(a, v[(size_t)i % v.size()]); break;
      case 1: if (i & 1) g.mkSetup(a, bad); else g.mkSetup(a, v[(size_t)(i / 2) % v.size()]); break;
      case 2: sweep.f = f0 + (f1 - f0) * ((i % 64) < 32 ? i % 32 : 32 - i % 32) / 32.0; g.mkSetup(a, g.cd(c).fam == CUS ? v[(size_t)i % v.size()] : sweep); g.add(g.feed(1u << a, G_NOISE, r.range(1, 3), amp)); break;     // automation
      case 3: if (m.destroy) { Op o = g.op(O_NEW, a); o.cls = c; g.add(o); g.mkSetup(a, v[(size_t)i % v.size()]); i++; } else g.mkSetup(a, v[(size_t)i % v.size()]); break;
      case 4: if (m.reset) { g.add(g.op(O_RESET, a)); g.add(g.feed(1u << a, G_NOISE, 1, amp)); i++; } else g.add(g.feed(1u << a, (int)r.below(7), 1, amp)); break;
      default: switch (r.below(7)) {
        case 0: g.mkSetup(a, v[r.below(v.size())]); break;
        case 1: if (m.bad) g.mkSetup(a, bad); break;
        case 2: if (m.reset) g.add(g.op(O_RESET, a)); break;
        case 3: if (m.reloc) g.add(g.op(O_RELOC, a)); break;
        case 4: if (m.assign) { Op o = g.op(O_ASSIGN, a); o.b = (int)r.below((uint64_t)nslots); g.add(o); } break;
        case 5: if (m.query) { Op o = g.op(O_QUERY, a); o.amp = qf(r); g.add(o); } break;
        default: g.add(g.feed(1u << a, (int)r.below(7), r.range(1, 4), amp)); } }
    if (feedEvery && i % feedEvery == 0) g.add(g.feed(1u << a, (int)r.below(7), r.range(1, 5), amp));
  }
}
}
static Scenario genHistory(const std::string& prop, uint64_t seed) {
  G g(prop, seed); Rng& r = g.r; Mix m; int nslots = 1, nops = r.range(6, 34), poolN = r.range(2, 5);
  if (prop == "C01") { m = {6, 1, 10, 2, 2, 1, 0, 0, 0, 0, 0, 0, 1}; }
  else if (prop == "C02") { m = {4, 1, 8, 4, 5, 1, 1, 0, 0, 1, 0, 0, 0}; }
  else if (prop == "C03") { m = {12, 3, 3, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0}; }
  else if (prop == "C04") { m = {4, 8, 6, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0}; }
  else if (prop == "C05") { m = {5, 10, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0}; }
  else if (prop == "C06") { m = {6, 2, 7, 1, 2, 5, 3, 4, 3, 1, 0, 0, 0}; nslots = r.range(2, 4); }
  else if (prop == "C09") { m = {6, 3, 5, 1, 2, 3, 2, 2, 2, 5, 4, 0, 1}; nslots = r.range(1, 3); }
  else if (prop == "C11") { m = {6, 4, 5, 1, 2, 2, 1, 1, 1, 3, 0, 3, 1}; nslots = r.range(1, 3); }
  else if (prop == "C12") { m = {6, 3, 4, 0, 1, 2, 2, 2, 1, 8, 0, 1, 0}; nslots = r.range(1, 2); }
  else { m = {6, 3, 6, 2, 2, 2, 2, 2, 2, 3, 0, 1, 1}; nslots = r.range(1, 3); }   // C16
  // swarm: each run drops some of the optional ingredients
  for (int* w : {&m.glitch, &m.reset, &m.copy, &m.assign, &m.reloc, &m.destroy}) if (*w <= 2 && r.chance(0.35)) *w = 0;
  if (prop == "C02" && m.glitch == 0) m.glitch = 2;
  g.slots = nslots;
  int nc = r.chance(0.75) ? 1 : 2;
  for (int i = 0; i < nc; i++) g.cls.push_back(g.pickClass([](const ClassDesc&) { return true; }));
  g.makePools(poolN, false);
  int lenScale = r.chance(0.2) ? 200 : r.chance(0.5) ? 40 : 8; double amp = r.chance(0.7) ? 1 : r.chance(0.85) ? r.logu(1e-6, 1e6) : r.logu(1e-90, 1e90);
  // a few runs stream for long: 1 = thousands of samples at a time, 2 = past any 16 bit count; with long silences
  int marathon = r.chance(prop == "C19" ? 0.15 : 0.04) ? r.chance(0.25) ? 2 : 1 : 0; if (marathon) nops = std::min(nops, 14);
  for (int i = 0; i < nslots; i++) {
    int c = g.cls[r.below(g.cls.size())]; if (prop == "C06" && i) c = g.cls[0];
    g.mkNew(i, c);
    if (r.chance(0.85)) g.mkSetup(i, g.fromPool(c));
    if (prop == "C16" && r.chance(0.4)) { Op o = g.feed(1u << i, (int)r.below(7), r.range(1, 20), amp); g.add(o); }
  }
  Params lastBad; int lastBadSlot = -1, lastBadCls = -1;
  double u = r.unit(); int churnAt = u < 0.035 ? r.range(0, nops - 1) : -1; bool huge = u > 0.9994;
  if (u < 0.012) nops = std::min(nops, churnAt + 8);
  for (int k = 0; k < nops; k++) {
    if (k == churnAt) { int a = (int)r.below((uint64_t)nslots); if (g.slotCls[a] >= 0) { if (u < 0.012) churnOps(g, a, m, amp, nslots); else churnRepeat(g, a, m); } }
    if (huge && k == nops / 2) {        // a stream of more than 2^20 samples
      int a = (int)r.below((uint64_t)nslots); Op o = g.feed(1u << a, (int)r.below(6), 20000, amp); int q = r.range(54, 60); bool vary = r.chance(0.5);
      for (int j = 0; j < q; j++) { o.seed = r.next() >> 20; if (vary && r.chance(0.2)) o.gen = (int)r.below(7); g.add(o); }
    }
    int a = (int)r.below((uint64_t)nslots), c = g.slotCls[a];
    int what = r.weighted({m.setup, m.bad, m.feed, m.glitch, m.reset, m.copy, m.assign, m.reloc, m.destroy, m.query, m.alloc});
    if (c < 0) { c = g.cls[r.below(g.cls.size())]; g.mkNew(a, c); if (r.chance(0.6)) g.mkSetup(a, g.fromPool(c)); continue; }
    switch (what) {
      case 0: g.mkSetup(a, g.fromPool(c)); break;
      case 1: {
        Params b = (lastBadCls == c && r.chance(lastBadSlot == a ? 0.45 : 0.15)) ? lastBad : genBad(g.cd(c), r, g.fromPool(c));
        g.mkSetup(a, b); lastBad = b; lastBadSlot = a; lastBadCls = c;
        if (prop == "C05" && r.chance(0.5)) g.mkSetup(a, b);
        if (prop == "C04" && r.chance(0.7)) g.add(g.feed(1u << a, (int)r.below(6), r.range(1, lenScale), amp));
        break; }
      case 2: { unsigned mask = 1u << a; if (nslots > 1 && r.chance(0.3)) mask = (1u << nslots) - 1;
        Op o = g.feed(mask, (int)r.below(7), r.range(1, lenScale), amp * (r.chance(0.1) ? 100 : 1)); if (m.typed && r.chance(0.15)) o.st = r.range(1, S_COUNT - 1);
        if (marathon == 2) { marathon = 1; int z = (int)r.below(3); for (int q = 0; q < 4; q++) { Op l = o; l.n = r.range(16000, 20000); l.seed = r.next() >> 20; if (z == q) l.gen = G_ZERO; g.add(l); } }
        else if (marathon && r.chance(0.5)) { o.n = (int)r.logu(500, 20000); if (r.chance(0.4)) { g.add(o); o.gen = r.chance(0.7) ? G_ZERO : G_STEP; o.n = (int)r.logu(500, 20000); g.add(o); o.gen = G_NOISE; o.n = r.range(5, 60); } }
        g.add(o); break; }
      case 3: { int gk = r.range(G_NAN, G_NANIN); if (prop == "C01" && r.chance(0.6)) gk = r.chance(0.5) ? G_SPIKE : G_DENORM; g.add(g.feed(1u << a, gk, r.range(1, gk == G_SPIKE ? 10 : 3), amp));
        if (prop == "C02" && r.chance(0.5)) { g.add(g.op(O_RESET, a)); g.add(g.feed(1u << a, (int)r.below(6), r.range(2, 12), amp)); } break; }
      case 4: { g.add(g.op(O_RESET, a)); if (r.chance(0.8)) { int n = prop == "C02" ? r.range(2, 30) : r.range(1, 8); g.add(g.feed(1u << a, (int)r.below(6), n, amp)); } break; }
      case 5: { int b = (int)r.below(nslots > 1 ? (uint64_t)nslots : MAXSLOT); if (nslots == 1) b = r.range(1, 3); if (b == a) b = (b + 1) % MAXSLOT;
        Op o = g.op(O_COPY, b); o.b = a; g.add(o); g.slotCls[b] = c; if (b >= nslots) { nslots = b + 1; }
        if (r.chance(0.4)) g.add(g.feed((1u << a) | (1u << b), (int)r.below(6), r.range(1, lenScale), amp)); break; }
      case 6: { int b = (int)r.below((uint64_t)nslots); for (int t = 0; t < 4 && (b == a || g.slotCls[b] != c); t++) b = (int)r.below((uint64_t)nslots); Op o = g.op(O_ASSIGN, a); o.b = b; g.add(o); break; }
      case 7: g.add(g.op(O_RELOC, a)); break;
      case 8: g.add(g.op(O_DESTROY, a)); g.slotCls[a] = -1; break;
      case 9: { Op o = g.op(O_QUERY, a); o.amp = qf(r); if (m.requeryBad && r.chance(0.3)) { if (r.chance(0.5)) o.amp = r.chance(0.5) ? 0.5001 + r.unit() : -r.unit() - 1e-3; else o.m = r.chance(0.2) ? (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 256 : 65536) + r.range(-2, 2) : r.chance(0.5) ? -r.range(1, 3) : r.range(1, 3); } g.add(o); break; }
      default: { Op o; o.k = O_ALLOC; o.m = r.chance(0.15) ? -1 : r.chance(0.5) ? 0 : r.range(0, 8); o.b = r.chance(0.2); g.add(o); break; }
    }
  }
  if (prop == "C03" || prop == "C01" || prop == "C06") for (int a = 0; a < nslots && a < MAXSLOT; a++) if (g.slotCls[a] >= 0) g.add(g.feed(1u << a, G_NOISE, r.range(8, 32), amp));
  g.s.env = (int)r.below(8);
  if (prop == "C16") g.s.env = r.chance(0.7) ? r.range(1, 7) : r.range(ENV_THREAD, ENV_COUNT - 1);
  if (prop == "C11" || prop == "C09") g.s.env = 0;
  return g.s;
}
static Scenario genSettle(const std::string& prop, uint64_t seed) {
  G g(prop, seed); Rng& r = g.r; bool topo = prop == "C14";
  auto ok = [&](const ClassDesc& d) { return !topo || d.fam != RBJ; };
  int c = g.pickClass(ok); g.cls = {c}; g.makePools(r.range(2, 4), true);
  int n = 2; std::vector<int> cl = {c, c};
  if (topo) { cl.clear(); const ClassDesc d = g.cd(c); for (size_t i = 0; i < classes().size(); i++) { const ClassDesc& e = classes()[i]; if (e.fam == d.fam && e.kind == d.kind && e.maxOrder == d.maxOrder) cl.push_back((int)i); } n = (int)cl.size(); if (n > 3) n = 3; }
  Params fin = g.pool[0][0]; unsigned all = (1u << n) - 1; double amp = r.chance(0.7) ? 1 : r.chance(0.7) ? r.logu(1e-3, 1e3) : r.logu(1e-90, 1e-3);
  Tame tf = tame(g.cd(c), fin); int periods = 1;
  auto both = [&](const Params& p) { for (int i = 0; i < n; i++) g.mkSetup(i, p); };
  bool marathon = r.chance(0.04);
  auto base = [&](int len) { if (marathon && r.chance(0.5)) len = (int)r.logu(500, 20000); g.add(g.feed(all, r.chance(0.7) ? G_NOISE : marathon ? (int)r.below(7) : (int)r.below(6), len, amp)); };
  for (int i = 0; i < n; i++) g.mkNew(i, cl[(size_t)i]);
  both(r.chance(0.5) ? fin : g.fromPool(c)); base(r.range(10, 200));
  int nd = r.range(1, 6); std::vector<int> en; for (int i = 0; i < 9; i++) if (r.chance(0.6)) en.push_back(i);
  if (en.empty()) en.push_back(0);
  for (int k = 0; k < nd; k++) {
    int v = topo ? (int)r.below((uint64_t)n) : 0;
    switch (en[r.below(en.size())]) {
      case 0: if (r.chance(0.5)) g.add(g.feed(1u << v, G_SPIKE, r.range(1, 20), r.chance(0.5) ? amp : -amp));     // outliers
              else g.add(g.feed(1u << v, r.chance(0.5) ? G_STEP : G_NOISE, r.range(1, 4), (r.chance(0.5) ? 1 : -1) * amp * (tf.ok && tf.settle < 4000 && r.chance(0.1) ? (periods = std::min(5, 18000 / tf.settle), std::pow(10., r.uniform(18, 25. * (periods - 1) + 18))) : r.logu(1e3, 1e18)))); break;
      case 1: g.add(g.feed(1u << v, (int)r.below(7), r.range(1, 60), amp * r.logu(1, 1e4))); break;               // repeated or foreign samples
      case 2: g.add(g.feed(all & ~(1u << v), (int)r.below(6), r.range(1, 30), amp)); break;                       // lost samples
      case 3: { g.mkSetup(v, g.fromPool(c)); g.add(g.feed(r.chance(0.5) ? all : 1u << v, G_NOISE, r.range(1, 60), amp)); g.mkSetup(v, fin); break; }   // detour
      case 4: g.add(g.op(O_RESET, v)); break;                                                                     // restart with empty memory
      case 5: { Params b = genBad(g.cd(c), r, fin); if (mustReject(g.cd(c), b)) g.mkSetup(v, b); break; }         // rejected request
      case 6: { g.add(g.op(O_DESTROY, v)); g.mkNew(v, cl[(size_t)v]); g.mkSetup(v, fin); break; }                 // crash and restart
      case 7: { const Params& p = g.fromPool(c); both(p); base(r.range(5, 80)); break; }                          // retune everywhere
      default: { if (topo) for (int i = 0; i < n; i++) g.add(g.op(O_RESET, i)); else g.add(g.feed(1u << v, G_DENORM, r.range(1, 5), amp)); }
    }
    if (r.chance(0.7)) base(r.range(1, 60));
  }
  if (r.chance(0.012)) { int v = topo ? (int)r.below((uint64_t)n) : 0; churnRepeat(g, v, Mix()); }
  if (r.chance(0.006)) { int k = r.range(256, 300); for (int i = 0; i < k; i++) { const Params& p = g.fromPool(c); if (topo) both(p); else g.mkSetup(0, p); if (i % 16 == 0) base(r.range(1, 8)); } }
  both(fin);
  if (r.chance(0.0006)) { int k = r.range(54, 60); for (int i = 0; i < k; i++) base(20000); }
  if (topo && r.chance(0.3)) { for (int i = 0; i < n; i++) g.add(g.op(O_RESET, i)); base(r.range(20, 200)); }
  Tame t = tame(g.cd(c), fin); int len = t.settle * periods + r.range(20, 80); g.add(g.feed(all, G_NOISE, std::min(len, 19000), amp));
  return g.s;
}
static Scenario genTypes(const std::string& prop, uint64_t seed) {
  G g(prop, seed); Rng& r = g.r; int c = g.pickClass([](const ClassDesc&) { return true; }); g.cls = {c}; g.makePools(2, true);
  g.mkNew(0, c); g.mkNew(1, c); g.mkSetup(0, g.pool[0][0]); g.mkSetup(1, g.pool[0][0]);
  int k = r.range(2, 8), fix = r.chance(0.5) ? r.range(1, S_COUNT - 1) : 0; bool long_ = r.chance(0.03), big = r.chance(0.2);
  for (int i = 0; i < k; i++) {
    if (r.chance(0.15)) { const Params& p = g.fromPool(c); g.mkSetup(0, p); g.mkSetup(1, p); }
    if (r.chance(0.1)) { g.add(g.op(O_RESET, 0)); g.add(g.op(O_RESET, 1)); }
    if (r.chance(0.1)) { Params b = genBad(g.cd(c), r, g.pool[0][0]); g.mkSetup(0, b); g.mkSetup(1, b); }
    Op o = g.feed(3, (int)r.below(7), long_ && r.chance(0.4) ? (int)r.logu(500, 20000) : r.range(4, 120), big && r.chance(0.7) ? r.logu(20, 2e6) : r.chance(0.6) ? 1 : r.chance(0.5) ? r.uniform(0.001, 0.1) : r.uniform(1, 20)); o.st = fix && r.chance(0.6) ? fix : r.range(0, S_COUNT - 1); g.add(o);
  }
  return g.s;
}
static Scenario genTone(const std::string& prop, uint64_t seed) {
  G g(prop, seed); Rng& r = g.r; int c = g.pickClass([](const ClassDesc&) { return true; }); g.cls = {c}; g.makePools(r.range(2, 3), true);
  if (g.cd(c).kind == R_NOTCH) for (auto& p : g.pool[0]) { p.form = F_N; p.fs = 1; p.f = r.range(6, 250) / 512.0; if (!tame(g.cd(c), p).ok) p.g = 2; }
  g.mkNew(0, c); double amp = 1;
  int k = r.range(0, 6);
  for (int i = 0; i < k; i++) switch (r.below(6)) {
    case 0: case 1: g.mkSetup(0, g.fromPool(c)); break;
    case 2: g.mkSetup(0, genBad(g.cd(c), r, g.fromPool(c))); break;
    case 3: g.add(g.feed(1, r.chance(0.3) ? G_SPIKE : (int)r.below(6), r.range(1, 60), amp)); break;
    case 4: g.add(g.op(r.chance(0.5) ? O_RESET : O_RELOC, 0)); break;
    default: { Op o = g.op(O_COPY, 1); o.b = 0; g.add(o); g.mkSetup(1, g.fromPool(c)); }
  }
  if (r.chance(0.01)) churnRepeat(g, 0, Mix());
  if (r.chance(0.006)) { int q = r.range(256, 300); for (int i = 0; i < q; i++) g.mkSetup(0, g.fromPool(c)); }
  g.add(g.op(O_RESET, 0));
  int tones = r.range(1, 3);
  for (int i = 0; i < tones; i++) {
    g.mkSetup(0, g.pool[0][(size_t)i % g.pool[0].size()]);
    if (r.chance(0.3)) g.mkSetup(0, [&] { Params b = g.fromPool(c); b.f = r.chance(0.5) ? NAN : -1; return b; }());
    if (r.chance(0.3)) g.add(g.feed(1, G_SPIKE, r.range(1, 10), amp));
    g.add(g.op(O_TONE, 0));
  }
  return g.s;
}
static Scenario generate_(const std::string& prop, uint64_t seed) {
  if (prop == "C07" || prop == "C08" || prop == "C17" || prop == "C18") return generateThreads(prop, seed);
  if (prop == "C10" || prop == "C14") return genSettle(prop, seed);
  if (prop == "C15") return genTypes(prop, seed);
  if (prop == "C13") return genTone(prop, seed);
  return genHistory(prop, seed);
}
Scenario generate(const std::string& prop, uint64_t seed) {
  g_qfix = -1;
  { Rng r(mix(seed, 0x9f1)); double f = qf(r); if (r.chance(0.3)) g_qfix = f; }
  Scenario s = generate_(prop, seed);
  if (prop != "C12") { Rng r(mix(seed, 0x901e7)); s.quiet = r.chance(s.threads ? 0.5 : 0.35); }
  return s;
}
Scenario generateThreads(const std::string& prop, uint64_t seed) {
  G g(prop, seed); Rng& r = g.r; bool shared = prop == "C08" || ((prop == "C17" || prop == "C18") && seed % 3 == 0); int T = r.chance(0.6) ? 2 : r.range(2, 4); g.s.threads = T; g.s.explore = 8;
  int nc = r.chance(0.6) ? 1 : 2; for (int i = 0; i < nc; i++) g.cls.push_back(g.pickClass([](const ClassDesc&) { return true; }));
  if (nc == 2 && r.chance(0.6)) { const ClassDesc d = g.cd(g.cls[0]); g.cls[1] = g.pickClass([&](const ClassDesc& e) { return e.fam == d.fam && e.kind == d.kind; }); }
  g.makePools(r.range(2, 4), false);
  // refusals and outliers that the threads have in common
  std::map<int, std::vector<Params>> bads; for (int c : g.cls) for (int i = 0; i < 2; i++) bads[c].push_back(genBad(g.cd(c), r, g.fromPool(c)));
  double wild = r.chance(0.3) ? r.logu(1e2, 1e12) : 1; double pOut = r.chance(0.2) ? 0.4 : 0; int outGen = r.range(G_NAN, G_NANIN);
  auto th = [&](Op o, int t) { o.th = t; g.add(o); };
  auto nw = [&](int a, int c, int t) { Op o = g.op(O_NEW, a); o.cls = c; th(o, t); };
  auto st = [&](int a, const Params& p, int t) { Op o = g.op(O_SETUP, a); o.p = p; th(o, t); };
  if (shared) for (int i = 4; i < 6; i++) {
    int c = g.cls[r.below(g.cls.size())]; nw(i, c, -1);
    if (r.chance(0.95)) st(i, g.fromPool(c), -1);
    if (r.chance(0.3)) st(i, g.fromPool(c), -1);
    if (r.chance(0.5)) th(g.feed(1u << i, (int)r.below(6), r.range(1, 10), 1), -1);
    if (r.chance(0.5)) break;
  }
  int c4 = shared ? g.s.ops[0].cls : 0;
  for (int t = 0; t < T; t++) {
    int n = r.range(2, 7), c = g.cls[r.below(g.cls.size())];
    if (!shared) { nw(0, c, t); st(0, g.fromPool(c), t); }
    int have[4] = {shared ? -1 : c, -1, -1, -1};
    for (int k = 0; k < n; k++) {
      int sl = 4 + (int)r.below(2);
      if (shared && r.chance(0.75)) switch (r.below(4)) {
        case 0: { Op o = g.op(O_QUERY, sl); o.amp = qf(r); th(o, t); break; }
        case 1: { Op o = g.op(O_SHFEED, sl); o.gen = r.chance(pOut) ? outGen : (int)r.below(7); o.n = r.range(1, 8); if (r.chance(0.5)) o.amp = wild; o.seed = r.next() >> 20; th(o, t); break; }
        case 2: { Op o = g.op(O_COPY, (int)r.below(3)); o.b = sl; int z = -1; for (auto& q : g.s.ops) if (q.k == O_NEW && q.a == sl) z = q.cls; if (z >= 0) { have[o.a] = z; th(o, t); Op f = g.feed(1u << o.a, (int)r.below(6), r.range(1, 6), 1); th(f, t); } break; }
        default: { Op o = g.op(O_QUERY, 4); o.amp = qf(r); th(o, t); }
      } else {
        int a = (int)r.below(3); if (have[a] < 0) { int cc = shared ? c4 : r.chance(0.8) ? c : g.cls[r.below(g.cls.size())]; have[a] = cc; nw(a, cc, t); if (r.chance(0.8)) st(a, g.fromPool(cc), t); continue; }
        int cc = have[a];
        switch (r.weighted({8, 5, 6, 2, 2, 1, 1, 3})) {
          case 0: st(a, g.fromPool(cc), t); break;
          case 1: st(a, bads.count(cc) && r.chance(0.6) ? bads[cc][r.below(2)] : genBad(g.cd(cc), r, g.fromPool(cc)), t); break;
          case 2: th(g.feed(1u << a, r.chance(pOut) ? outGen : (int)r.below(7), r.range(1, 8), r.chance(0.5) ? wild : 1), t); break;
          case 3: th(g.op(O_RESET, a), t); break;
          case 4: { int b = (int)r.below(3); if (b != a) { Op o = g.op(O_COPY, b); o.b = a; have[b] = cc; th(o, t); } break; }
          case 5: th(g.op(O_RELOC, a), t); break;
          case 6: { Op o = g.op(O_ASSIGN, a); o.b = (int)r.below(3); th(o, t); break; }
          default: { Op o = g.op(O_QUERY, a); o.amp = qf(r); th(o, t); }
        }
      }
    }
  }
  return g.s;
}
