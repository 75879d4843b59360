// Executable reference model of the running filter: the documented difference equations in extended precision.
#pragma once
#include "filters.hpp"
#include <cmath>
typedef long double ld;
struct SecModel {
  ld s[4] = {0, 0, 0, 0};
  ld run(Topo t, const Coef& c, ld in, ld& sc) {
    ld o;
    if (t == DF1) {
      ld t0 = c.b0 * in, t1 = c.b1 * s[0], t2 = c.b2 * s[1], t3 = c.a1 * s[2], t4 = c.a2 * s[3];
      o = t0 + t1 + t2 - t3 - t4;
      sc = std::fmax(sc, std::fabs(t0) + std::fabs(t1) + std::fabs(t2) + std::fabs(t3) + std::fabs(t4));
      s[1] = s[0]; s[0] = in; s[3] = s[2]; s[2] = o;
    } else if (t == DF2) {
      ld a = c.a1 * s[0], b = c.a2 * s[1], w = in - a - b;
      ld t0 = c.b0 * w, t1 = c.b1 * s[0], t2 = c.b2 * s[1];
      o = t0 + t1 + t2;
      ld m = std::fabs(c.b0) + std::fabs(c.b1) + std::fabs(c.b2), ws = std::fabs(in) + std::fabs(a) + std::fabs(b);
      sc = std::fmax(sc, std::fmax(std::fabs(t0) + std::fabs(t1) + std::fabs(t2), std::fmax(ws, m * ws)));
      s[1] = s[0]; s[0] = w;
    } else {
      ld t0 = c.b0 * in; o = s[0] + t0;
      ld n1 = s[1] + c.b1 * in - c.a1 * o, n2 = c.b2 * in - c.a2 * o;
      sc = std::fmax(sc, std::fabs(s[0]) + std::fabs(t0) + std::fabs(s[1]) + std::fabs(c.b1 * in) + std::fabs(c.a1 * o) + std::fabs(c.b2 * in) + std::fabs(c.a2 * o));
      s[0] = n1; s[1] = n2;
    }
    return o;
  }
  void reset() { s[0] = s[1] = s[2] = s[3] = 0; }
};
// How strongly a rounding error made inside the chain can show at its output (bounded search).
inline double noiseGain(const Coef* c, int n) {
  double total = 0, later = 1;
  for (int i = n - 1; i >= 0; i--) {
    if (!std::isfinite(c[i].a1) || !std::isfinite(c[i].a2) || !std::isfinite(c[i].b0) || !std::isfinite(c[i].b1) || !std::isfinite(c[i].b2)) return INFINITY;
    double y1 = 0, y2 = 0, l1a = 0, l1h = 0; int k = 0; double e1 = 0, e2 = 0, peak = 0;
    for (; k < 6000; k++) {
      double y = (k == 0) - c[i].a1 * y1 - c[i].a2 * y2;
      double h = c[i].b0 * y + c[i].b1 * y1 + c[i].b2 * y2;
      l1a += std::fabs(y); l1h += std::fabs(h); y2 = y1; y1 = y;
      e2 = e1; e1 = std::fabs(y) + std::fabs(y2); peak = std::fmax(peak, e1);
      if (e1 < 1e-9 * peak && e2 < 1e-9 * peak) break;
      if (!(l1a < 1e12)) return INFINITY;
    }
    if (k >= 6000) return INFINITY;
    total += l1a * later; later *= std::fmax(1.0, l1h);
    if (!(total < 1e15)) return INFINITY;
  }
  return total;
}
