// Independent reference: what a request specifies. Nothing here uses the library.
// Analogue prototypes are evaluated as magnitude functions (no poles/zeros) for the gain, and as closed-form poles
// only to bound how long a disturbance may last.
#pragma once
#include "filters.hpp"
#include <algorithm>
#include <cmath>

struct Norm { int order; double f, w, g, r; };
inline bool hzForm(const ClassDesc& c, const Params& p) {
  return (c.designed() || c.fam == RBJ) && (p.form == F_HZ || p.form == F_ORDER_HZ);
}
inline Norm normalised(const ClassDesc& c, const Params& p) {
  Norm n; bool hz = hzForm(c, p);
  n.order = c.designed() ? ((p.form == F_ORDER_HZ || p.form == F_ORDER_N) ? p.order : c.maxOrder) : 2;
  n.f = hz ? p.f / p.fs : p.f; n.w = hz ? p.w / p.fs : p.w; n.g = p.g; n.r = p.r;
  if (c.fam == RBJ && p.dflt) {
    if (c.kind == R_LP || c.kind == R_HP || c.kind == R_AP) n.g = 1 / std::sqrt(2.0);
    if (c.kind == R_NOTCH) n.g = 10;
    if (c.kind == R_LS || c.kind == R_HS) n.r = 1;
  }
  return n;
}
// raw sections: coefficients, identity, one pole, two poles, by way of pole/zero form, coefficients then scaled, pole/zero pair
inline size_t rawArgs(int form) { static const size_t N[] = {6, 0, 4, 8, 6, 6, 8}; return N[form < 0 || form > 6 ? 0 : form]; }
// arguments the request really passes
inline std::vector<double> passedArgs(const ClassDesc& c, const Params& p) {
  std::vector<double> v;
  if (c.designed()) {
    if (hzForm(c, p)) v.push_back(p.fs);
    v.push_back(p.f);
    if (c.band()) v.push_back(p.w); if (c.shelf()) v.push_back(p.g); if (c.fam != BW) v.push_back(p.r);
  } else if (c.fam == RBJ) {
    if (hzForm(c, p)) v.push_back(p.fs);
    v.push_back(p.f);
    bool sh = c.kind == R_LS || c.kind == R_HS;
    if (sh) { v.push_back(p.g); if (!p.dflt) v.push_back(p.r); }
    else if (c.kind == R_BSH) { v.push_back(p.g); v.push_back(p.r); }
    else if (!(p.dflt && (c.kind == R_LP || c.kind == R_HP || c.kind == R_NOTCH || c.kind == R_AP))) v.push_back(p.g);
  } else {
    if (c.kind == K_ONE || c.kind == K_TWO || (c.kind == K_RAW && p.form == 5)) v.push_back(p.g);
    size_t n = c.kind == K_ONE ? 2 : c.kind == K_TWO ? 4 : c.kind == K_SOS ? (size_t)c.maxOrder * 6 : rawArgs(p.form);
    for (size_t i = 0; i < n && i < p.extra.size(); i++) v.push_back(p.extra[i]);
  }
  return v;
}
// whether a request can be made to a filter of this class at all
inline bool fits(const ClassDesc& c, const Params& p) {
  if (c.designed() || c.fam == RBJ) return true;
  size_t n = c.kind == K_ONE ? 2 : c.kind == K_TWO ? 4 : c.kind == K_SOS ? (size_t)c.maxOrder * 6 : rawArgs(p.form);
  return p.extra.size() >= n;
}
// requests that the statement of C05 lists as always rejected
inline bool mustReject(const ClassDesc& c, const Params& p) {
  Norm n = normalised(c, p);
  if (c.designed()) {
    if (n.order < 0 || n.order > c.maxOrder) return true;
    if (!(n.f < 0.5) || n.f < 0) return true;
    if (n.order == 0) return false;
  }
  for (double d : passedArgs(c, p)) if (d != d) return true;
  return false;
}
inline long double chebT(int n, long double x) {
  long double a = std::fabs(x), t = a <= 1 ? std::cos(n * std::acos(a)) : std::cosh(n * std::acosh(a));
  return t;   // sign is irrelevant (squared below)
}
// lowpass prototype: squared magnitude at prototype frequency O >= 0 (INFINITY allowed)
inline long double protoMag2(const ClassDesc& c, const Norm& n, long double O) {
  const int N = n.order; const bool inf = std::isinf(O);
  if (!c.shelf()) {
    if (c.fam == BW) return inf ? 0 : 1 / (1 + std::pow(O, 2.0L * N));
    if (c.fam == C1) { if (inf) return 0; long double e2 = std::pow(10.0L, (long double)n.r / 10) - 1, t = chebT(N, O); return 1 / (1 + e2 * t * t); }
    long double e2 = 1 / (std::pow(10.0L, (long double)n.r / 10) - 1);
    if (O == 0) return 1;
    long double t = inf ? chebT(N, 0) : chebT(N, 1 / O);
    return 1 / (1 + 1 / (e2 * t * t));
  }
  if (c.fam == BW) {
    long double g2n = std::pow(10.0L, (long double)n.g / 20);   // g^(2N) with g = G^(1/2N)
    if (inf) return 1;
    long double o = std::pow(O, 2.0L * N);
    return (o + g2n) / (o + 1 / g2n);
  }
  long double gd = -(long double)n.g, rd = n.r;
  if (rd >= std::fabs(gd)) rd = std::fabs(gd);
  if (gd < 0) rd = -rd;
  long double G = std::pow(10.0L, gd / 20), Gb = std::pow(10.0L, (gd - rd) / 20);
  if (inf) return 1;
  long double e2 = (G * G - Gb * Gb) / (Gb * Gb - 1), t = chebT(N, O);
  return (1 + e2 * t * t) / (G * G + e2 * t * t);
}
// the gain that a valid request specifies at normalised frequency x; < 0: not specified
inline double specifiedGain(const ClassDesc& c, const Params& p, double x) {
  const long double PI = 3.14159265358979323846264338327950288L;
  Norm n = normalised(c, p);
  const bool nyq = x == 0.5;
  const long double O = nyq ? INFINITY : std::tan(PI * (long double)x);
  if (c.designed()) {
    if (n.order == 0) return 1;
    long double o;
    if (!c.band()) {
      long double O0 = std::tan(PI * (long double)n.f);
      if (c.kind == LP || c.kind == LS) o = nyq ? (long double)INFINITY : O / O0;
      else o = nyq ? 0 : (x == 0 ? (long double)INFINITY : O0 / O);
    } else {
      long double O1 = std::tan(PI * ((long double)n.f - (long double)n.w / 2)), O2 = std::tan(PI * ((long double)n.f + (long double)n.w / 2));
      long double bw = O2 - O1, o0 = O1 * O2;
      if (nyq || x == 0) o = INFINITY; else o = std::fabs((O * O - o0) / (O * bw));
      if (c.kind == BS) o = o == 0 ? (long double)INFINITY : 1 / o;
    }
    return (double)std::sqrt(protoMag2(c, n, o));
  }
  if (c.fam == RBJ) {
    typedef std::complex<long double> C;
    if (c.kind == R_AP) return 1;
    if (c.kind == R_NOTCH) {      // zeros on the unit circle at the centre frequency, poles behind them at the radius set by Q
      if (x == n.f) return 0;
      long double w = 2 * PI * (long double)x, w0 = 2 * PI * (long double)n.f, R = std::exp(-(w0 / 2) / (long double)n.g);
      C z(std::cos(w), std::sin(w)), q(std::cos(w0), std::sin(w0));
      return (double)std::abs((z - q) * (z - std::conj(q)) / ((z - R * q) * (z - R * std::conj(q))));
    }
    long double K = std::tan(PI * (long double)n.f), W = 2 * PI * (long double)n.f;
    bool inf = nyq; C s = inf ? C(0, 1) : C(0, O / K);
    long double Q = n.g;
    auto q2 = [&](long double n2, long double n1, long double n0, long double d2, long double d1, long double d0) -> double {
      if (inf) return (double)std::fabs(n2 / d2);
      return (double)std::abs((C(n2) * s * s + C(n1) * s + C(n0)) / (C(d2) * s * s + C(d1) * s + C(d0)));
    };
    long double A = std::pow(10.0L, (long double)n.g / 40);
    switch (c.kind) {
      case R_LP: return q2(0, 0, 1, 1, 1 / Q, 1);
      case R_HP: return q2(1, 0, 0, 1, 1 / Q, 1);
      case R_BP1: return q2(0, 1, 0, 1, 1 / Q, 1);
      case R_BP2: return q2(0, 1 / Q, 0, 1, 1 / Q, 1);
      case R_BS: return q2(1, 0, 1, 1, 1 / Q, 1);
      case R_LS: { long double iq = std::sqrt((A + 1 / A) * (1 / (long double)n.r - 1) + 2), sa = std::sqrt(A) * iq;
        return q2(A, A * sa, A * A, A, sa, 1); }
      case R_HS: { long double iq = std::sqrt((A + 1 / A) * (1 / (long double)n.r - 1) + 2), sa = std::sqrt(A) * iq;
        return q2(A * A, A * sa, A, 1, sa, A); }
      case R_BSH: { long double iq = 2 * std::sinh(std::log(2.0L) / 2 * (long double)n.r * W / std::sin(W));
        return q2(1, A * iq, 1, 1, iq / A, 1); }
      default: return -1;
    }
  }
  // custom and imported filters: what the given sections, poles and zeros say
  typedef std::complex<long double> C; const std::vector<double>& e = p.extra; long double w = 2 * PI * (long double)x;
  C q1(std::cos(w), -std::sin(w)), q2 = q1 * q1; if (nyq) { q1 = C(-1); q2 = C(1); }
  auto sec = [&](size_t b, size_t a) { return ((long double)e[b] + (long double)e[b + 1] * q1 + (long double)e[b + 2] * q2) / ((long double)e[a] + (long double)e[a + 1] * q1 + (long double)e[a + 2] * q2); };
  auto root = [&](long double re, long double im) { return C(1) - C(re, im) * q1; };
  C h(1);
  if (c.kind == K_ONE) h = (long double)p.g * root(e[1], 0) / root(e[0], 0);
  else if (c.kind == K_TWO) { auto pair = [&](long double rho, long double th) { return root(rho * std::cos(th), rho * std::sin(th)) * root(rho * std::cos(th), -rho * std::sin(th)); }; h = (long double)p.g * pair(e[2], e[3]) / pair(e[0], e[1]); }
  else if (c.kind == K_SOS) for (size_t i = 0; i < (size_t)c.maxOrder; i++) h *= sec(i * 6, i * 6 + 3);
  else if (p.form == 0 || p.form == 4) h = sec(3, 0);
  else if (p.form == 5) h = (long double)p.g * sec(3, 0);
  else if (p.form == 2) h = root(e[2], e[3]) / root(e[0], e[1]);
  else if (p.form == 3 || p.form == 6) h = root(e[2], e[3]) * root(e[6], e[7]) / (root(e[0], e[1]) * root(e[4], e[5]));
  return (double)std::abs(h);
}
// how fast a disturbance has to die out
struct Tame { bool ok = false; double radius = 0; int settle = 0; int order = 0; };
inline void quadRoots(std::complex<double> a, std::complex<double> b, std::complex<double> c, std::complex<double>* o) {
  std::complex<double> d = std::sqrt(b * b - 4.0 * a * c);
  std::complex<double> q = -0.5 * (std::abs(b + d) > std::abs(b - d) ? b + d : b - d);
  o[0] = q / a; o[1] = std::abs(q) > 0 ? c / q : -b / a - o[0];
}
inline Tame tame(const ClassDesc& c, const Params& p, int cap = 12000) {
  Tame t; const double PI = 3.14159265358979323846;
  if (mustReject(c, p)) return t;
  for (double d : passedArgs(c, p)) if (!std::isfinite(d)) return t;
  Norm n = normalised(c, p); std::vector<std::complex<double>> sp;
  double rmax = 0; int ord = 2;
  auto bil = [&](std::complex<double> s) { rmax = std::max(rmax, std::abs((1.0 + s) / (1.0 - s))); };
  if (c.designed()) {
    const int N = n.order; ord = c.band() ? 2 * N : N;
    if (hzForm(c, p) && !(p.fs > 0)) return t;
    if (N == 0) { t.ok = true; t.radius = 0; t.settle = 4; return t; }
    if (c.band()) { if (!(n.w > 1e-4) || !(n.f - n.w / 2 > 1e-4) || !(n.f + n.w / 2 < 0.4999)) return t; }
    else if (!(n.f > 1e-4) || !(n.f < 0.4999)) return t;
    if (c.shelf() && !(std::fabs(n.g) >= 0.05 && std::fabs(n.g) <= 60)) return t;
    if (c.fam != BW && !(n.r >= 0.005 && n.r <= 120)) return t;
    for (int k = 0; k < N; k++) {
      double th = PI * (2 * k + 1) / (2.0 * N);        // angle from the imaginary axis
      double sn = std::sin(th), cs = std::cos(th); std::complex<double> s;
      if (c.fam == BW) { double R = c.shelf() ? std::pow(10.0, -n.g / 20 / (2 * N)) : 1; s = R * std::complex<double>(-sn, cs); }
      else if (!c.shelf()) {
        double eps = c.fam == C1 ? std::sqrt(std::pow(10, n.r / 10) - 1) : std::sqrt(1 / (std::pow(10, n.r / 10) - 1));
        double v = std::asinh(1 / eps) / N; s = std::complex<double>(-std::sinh(v) * sn, std::cosh(v) * cs);
        if (c.fam == C2) s = 1.0 / s;
      } else {
        double gd = -n.g, rd = std::min(n.r, std::fabs(gd)); if (gd < 0) rd = -rd;
        double G = std::pow(10, gd / 20), Gb = std::pow(10, (gd - rd) / 20);
        if (std::fabs(Gb - 1) < 1e-4) return t;       // ripple as large as the gain: degenerate
        double e = std::sqrt((G * G - Gb * Gb) / (Gb * Gb - 1)), v = std::asinh(G / e) / N;
        s = std::complex<double>(-std::sinh(v) * sn, std::cosh(v) * cs);
      }
      sp.push_back(s);
    }
    if (!c.band()) {
      double O0 = std::tan(PI * n.f);
      for (auto s : sp) bil((c.kind == LP || c.kind == LS) ? s * O0 : O0 / s);
    } else {
      double O1 = std::tan(PI * (n.f - n.w / 2)), O2 = std::tan(PI * (n.f + n.w / 2));
      for (auto s : sp) { std::complex<double> r[2], b = (O2 - O1) * (c.kind == BS ? 1.0 / s : s); quadRoots(1.0, -b, O1 * O2, r); bil(r[0]); bil(r[1]); }
    }
  } else if (c.fam == RBJ) {
    if (hzForm(c, p) && !(p.fs > 0)) return t;
    if (!(n.f > 1e-4 && n.f < 0.4999)) return t;
    double K = std::tan(PI * n.f), W = 2 * PI * n.f, A = std::pow(10.0, n.g / 40), d2 = 1, d1 = 0, d0 = 1;
    bool sh = c.kind == R_LS || c.kind == R_HS;
    if (c.kind == R_NOTCH) { if (!(n.g > 0.02)) return t; rmax = std::exp(-(W / 2) / n.g); }
    else {
      if (sh) { if (!(n.r > 0.02 && n.r <= 1) || std::fabs(n.g) > 60) return t; double iq = std::sqrt((A + 1 / A) * (1 / n.r - 1) + 2);
        d1 = std::sqrt(A) * iq; if (c.kind == R_LS) d2 = A; else d0 = A; }
      else if (c.kind == R_BSH) { if (!(n.r > 0.02 && n.r < 6) || std::fabs(n.g) > 60) return t; double x = std::log(2.0) / 2 * n.r * W / std::sin(W);
        if (x > 8) return t; d1 = 2 * std::sinh(x) / A; }
      else { if (!(n.g > 0.02 && n.g < 1e4)) return t; d1 = 1 / n.g; }
      std::complex<double> r[2]; quadRoots(d2, d1 * K, d0 * K * K, r); bil(r[0]); bil(r[1]);
    }
  } else {
    ord = 2 * c.stages();
    auto sec = [&](double a0, double a1, double a2) { std::complex<double> r[2]; quadRoots(a0, a1, a2, r); rmax = std::max(rmax, std::max(std::abs(r[0]), std::abs(r[1]))); return a0 != 0; };
    auto& e = p.extra;
    if (c.kind == K_ONE) rmax = std::fabs(e[0]);
    else if (c.kind == K_TWO) rmax = std::fabs(e[0]);
    else if (c.kind == K_SOS) { for (int i = 0; i < c.maxOrder; i++) if (!sec(e[(size_t)i * 6 + 3], e[(size_t)i * 6 + 4], e[(size_t)i * 6 + 5])) return t; }
    else if (p.form == 0 || p.form == 4 || p.form == 5) { if (!sec(e[0], e[1], e[2])) return t; }
    else if (p.form == 1) rmax = 0;
    else if (p.form == 2) rmax = std::hypot(e[0], e[1]);
    else rmax = std::max(std::hypot(e[0], e[1]), std::hypot(e[4], e[5]));
  }
  if (!(rmax < 0.9999)) return t;
  t.radius = rmax; t.order = ord;
  double lr = rmax < 1e-3 ? std::log(1e-3) : std::log(rmax);
  t.settle = (int)(4 * std::ceil(std::log(1e-10) / lr)) + 10 * ord;
  t.ok = t.settle <= cap;
  return t;
}
