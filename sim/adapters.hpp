#pragma once
#include "filters.hpp"
#include "Iir.h"
#include <new>

template <int T> struct TopoOf;
template <> struct TopoOf<DF1> { typedef Iir::DirectFormI type; };
template <> struct TopoOf<DF2> { typedef Iir::DirectFormII type; };
template <> struct TopoOf<TDF2> { typedef Iir::TransposedDirectFormII type; };

inline Coef getterCoef(const Iir::Biquad& b) {
  Coef c; c.a0 = b.getA0(); c.a1 = b.getA1() / c.a0; c.a2 = b.getA2() / c.a0;
  c.b0 = b.getB0() / c.a0; c.b1 = b.getB1() / c.a0; c.b2 = b.getB2() / c.a0; return c;
}
template <class B> auto rawCoef(const B& b, int) -> decltype(b.m_b0 + b.m_b1 + b.m_b2 + b.m_a0 + b.m_a1 + b.m_a2, Coef()) {
  Coef c; c.b0 = b.m_b0; c.b1 = b.m_b1; c.b2 = b.m_b2; c.a0 = b.m_a0; c.a1 = b.m_a1; c.a2 = b.m_a2; return c;
}
template <class B> Coef rawCoef(const B& b, long) { return getterCoef(b); }      // should the members become private
inline Coef coefOf(const Iir::Biquad& b) { return rawCoef(b, 0); }
inline void pzOut(const std::vector<Iir::PoleZeroPair>& v, std::vector<PZ>& out) {
  for (auto& p : v) out.push_back(PZ{p.poles.first, p.poles.second, p.zeros.first, p.zeros.second});
}

template <class S> struct ExtLine { S st[20]; };

template <class F> struct BaseObj : Obj {
  F f;
  BaseObj() {}                      // default-initialises f: only the library's own initialisers run
  BaseObj(const F& o) : f(o) {}     // the library's copy constructor
  BaseObj(F&& o) : f(std::move(o)) {}   // the library's move constructor, or what stands in for it
  void assign(const Obj& o, bool temp) override { const F& q = static_cast<const BaseObj<F>&>(o).f; if (temp) f = F(q); else f = q; }
};

template <class O> Obj* makeObj(void* mem) { return new (mem) O; }

// ---- designed filters ------------------------------------------------------
template <class F, Fam FAM, Kind K, int N, class S> struct PoleObj : BaseObj<F> {
  using BaseObj<F>::f;
  PoleObj() {}
  PoleObj(const F& o) : BaseObj<F>(o) {}
  PoleObj(F&& o) : BaseObj<F>(std::move(o)) {}
  Obj* copyTo(void* m) const override { return new (m) PoleObj(f); }
  Obj* moveTo(void* m) override { return new (m) PoleObj(std::move(f)); }
  void setup(const Params& p) override {
    constexpr bool band = (K == BP || K == BS || K == BSH), shelf = (K == LS || K == HS || K == BSH);
    constexpr bool cheb = FAM != BW;
    if constexpr (!band && !shelf && !cheb) go(p, p.f);
    else if constexpr (!band && !shelf && cheb) go(p, p.f, p.r);
    else if constexpr (band && !shelf && !cheb) go(p, p.f, p.w);
    else if constexpr (band && !shelf && cheb) go(p, p.f, p.w, p.r);
    else if constexpr (!band && shelf && !cheb) go(p, p.f, p.g);
    else if constexpr (!band && shelf && cheb) go(p, p.f, p.g, p.r);
    else if constexpr (band && shelf && !cheb) go(p, p.f, p.w, p.g);
    else go(p, p.f, p.w, p.g, p.r);
  }
  template <class... A> void go(const Params& p, A... a) {
    switch (p.form) {
      case F_HZ: f.setup(p.fs, a...); break;
      case F_ORDER_HZ: f.setup(p.order, p.fs, a...); break;
      case F_N: f.setupN(a...); break;
      default: f.setupN(p.order, a...); break;
    }
  }
  double fD(double x) override { return f.filter(x); }
  float fF(float x) override { return f.filter(x); }
  int fI(int x) override { return f.filter(x); }
  short fS(short x) override { return f.filter(x); }
  long fL(long x) override { return f.filter(x); }
  unsigned fU(unsigned x) override { return f.filter(x); }
  signed char fC(signed char x) override { return f.filter(x); }
  long double fX(long double x) override { return f.filter(x); }
  void reset() override { f.reset(); }
  cplx response(double w) const override { return f.response(w); }
  int numStages() const override { return f.getNumStages(); }
  int storageStages() const override { return N; }
  Coef storage(int i) override { return coefOf(f.getCascadeStorage().stageArray[i]); }
  Coef indexed(int i) override { return getterCoef(f[i]); }
  size_t poleZeros(std::vector<PZ>& o) const override { auto v = f.getPoleZeros(); pzOut(v, o); return v.size(); }
  size_t cascadePoleZeros(std::vector<PZ>& o) const override { const Iir::Cascade& c = f; auto v = c.getPoleZeros(); pzOut(v, o); return v.size(); }
  double fShared(double x, void* e) const override {
    auto* l = (ExtLine<S>*)e; F& q = const_cast<F&>(f);
    for (int i = 0, n = f.getNumStages(); i < n && i < 20; i++) x = q[i].filter(x, l->st[i]);
    return x;
  }
  void initShared(void* e) const override { new (e) ExtLine<S>; }
};

// ---- RBJ ---------------------------------------------------------------------
template <class F, Kind K> struct RbjObj : BaseObj<F> {
  using BaseObj<F>::f;
  RbjObj() {}
  RbjObj(const F& o) : BaseObj<F>(o) {}
  RbjObj(F&& o) : BaseObj<F>(std::move(o)) {}
  Obj* copyTo(void* m) const override { return new (m) RbjObj(f); }
  Obj* moveTo(void* m) override { return new (m) RbjObj(std::move(f)); }
  void setup(const Params& p) override {
    const bool hz = p.form == F_HZ || p.form == F_ORDER_HZ;
    if constexpr (K == R_LS || K == R_HS) {
      if (p.dflt) { if (hz) f.setup(p.fs, p.f, p.g); else f.setupN(p.f, p.g); }
      else        { if (hz) f.setup(p.fs, p.f, p.g, p.r); else f.setupN(p.f, p.g, p.r); }
    } else if constexpr (K == R_BSH) {
      if (hz) f.setup(p.fs, p.f, p.g, p.r); else f.setupN(p.f, p.g, p.r);
    } else if constexpr (K == R_LP || K == R_HP || K == R_NOTCH || K == R_AP) {
      if (p.dflt) { if (hz) f.setup(p.fs, p.f); else f.setupN(p.f); }
      else        { if (hz) f.setup(p.fs, p.f, p.g); else f.setupN(p.f, p.g); }
    } else {
      if (hz) f.setup(p.fs, p.f, p.g); else f.setupN(p.f, p.g);
    }
  }
  double fD(double x) override { return f.filter(x); }
  float fF(float x) override { return f.filter(x); }
  int fI(int x) override { return f.filter(x); }
  short fS(short x) override { return f.filter(x); }
  long fL(long x) override { return f.filter(x); }
  unsigned fU(unsigned x) override { return f.filter(x); }
  signed char fC(signed char x) override { return f.filter(x); }
  long double fX(long double x) override { return f.filter(x); }
  void reset() override { f.reset(); }
  cplx response(double w) const override { return f.response(w); }
  int numStages() const override { return 1; }
  int storageStages() const override { return 1; }
  Coef storage(int) override { return coefOf(f); }
  Coef indexed(int) override { return getterCoef(f); }
  size_t poleZeros(std::vector<PZ>& o) const override { auto v = f.getPoleZeros(); pzOut(v, o); return v.size(); }
  bool peekNext(const double* x, int n, double* y) override { Iir::DirectFormI l = f.getState(); const Iir::Biquad& b = f; for (int i = 0; i < n; i++) y[i] = b.filter(x[i], l); return true; }
  double fShared(double x, void* e) const override { const Iir::Biquad& b = f; return b.filter(x, ((ExtLine<Iir::DirectFormI>*)e)->st[0]); }
  void initShared(void* e) const override { new (e) ExtLine<Iir::DirectFormI>; }
};

// ---- single sections with a delay line supplied by the caller -------------------
template <class F, Kind K, int T> struct SecObj : BaseObj<F> {
  using BaseObj<F>::f;
  typename TopoOf<T>::type st;
  SecObj() {}
  SecObj(const SecObj& o) : BaseObj<F>(o.f), st(o.st) {}
  SecObj(SecObj&& o) : BaseObj<F>(std::move(o.f)), st(std::move(o.st)) {}
  Obj* copyTo(void* m) const override { return new (m) SecObj(*this); }
  Obj* moveTo(void* m) override { return new (m) SecObj(std::move(*this)); }
  void assign(const Obj& o, bool temp) override { const SecObj& q = static_cast<const SecObj&>(o); if (temp) { f = F(q.f); st = decltype(st)(q.st); } else { f = q.f; st = q.st; } }
  void setup(const Params& p) override {
    const std::vector<double>& e = p.extra;
    if constexpr (K == K_ONE) f.setup(p.g, e[0], e[1]);
    else if constexpr (K == K_TWO) f.setup(p.g, e[0], e[1], e[2], e[3]);
    else {
      switch (p.form) {
        case 0: f.setCoefficients(e[0], e[1], e[2], e[3], e[4], e[5]); break;
        case 1: f.setIdentity(); break;
        case 2: f.setOnePole(cplx(e[0], e[1]), cplx(e[2], e[3])); break;
        case 4: { Iir::Biquad b; b.setCoefficients(e[0], e[1], e[2], e[3], e[4], e[5]); Iir::BiquadPoleState s(b); f.setPoleZeroForm(s); break; }
        case 5: { Iir::Biquad b; b.setCoefficients(e[0], e[1], e[2], e[3], e[4], e[5]); b.applyScale(p.g); f = b; break; }
        case 6: f.setPoleZeroPair(Iir::PoleZeroPair(cplx(e[0], e[1]), cplx(e[2], e[3]), cplx(e[4], e[5]), cplx(e[6], e[7]))); break;
        default: f.setTwoPole(cplx(e[0], e[1]), cplx(e[2], e[3]), cplx(e[4], e[5]), cplx(e[6], e[7])); break;
      }
    }
  }
  double fD(double x) override { return f.filter(x, st); }
  float fF(float x) override { return (float)f.filter(x, st); }
  int fI(int x) override { return (int)f.filter(x, st); }
  short fS(short x) override { return (short)f.filter(x, st); }
  long fL(long x) override { return (long)f.filter((double)x, st); }
  unsigned fU(unsigned x) override { return (unsigned)f.filter(x, st); }
  signed char fC(signed char x) override { return (signed char)f.filter(x, st); }
  long double fX(long double x) override { return f.filter((double)x, st); }
  void reset() override { st.reset(); }
  cplx response(double w) const override { return f.response(w); }
  int numStages() const override { return 1; }
  int storageStages() const override { return 1; }
  Coef storage(int) override { return coefOf(f); }
  Coef indexed(int) override { return getterCoef(f); }
  size_t poleZeros(std::vector<PZ>& o) const override { auto v = f.getPoleZeros(); pzOut(v, o); return v.size(); }
  double fShared(double x, void* e) const override { return f.filter(x, ((ExtLine<typename TopoOf<T>::type>*)e)->st[0]); }
  void initShared(void* e) const override { new (e) ExtLine<typename TopoOf<T>::type>; }
};

// ---- imported cascades -----------------------------------------------------------
template <int N, int T> struct SosObj : BaseObj<Iir::Custom::SOSCascade<N, typename TopoOf<T>::type>> {
  typedef Iir::Custom::SOSCascade<N, typename TopoOf<T>::type> F;
  using BaseObj<F>::f;
  SosObj() {}
  SosObj(const F& o) : BaseObj<F>(o) {}
  SosObj(F&& o) : BaseObj<F>(std::move(o)) {}
  typedef double Rows[N][6];
  SosObj(const Rows& c, int) : BaseObj<F>(F(c)) {}
  static void rows(const Params& p, Rows& c) { for (int i = 0; i < N; i++) for (int j = 0; j < 6; j++) c[i][j] = p.extra[(size_t)(i * 6 + j)]; }
  Obj* build(void* m, const Params& p) const override { Rows c; rows(p, c); return new (m) SosObj(c, 0); }
  Obj* copyTo(void* m) const override { return new (m) SosObj(f); }
  Obj* moveTo(void* m) override { return new (m) SosObj(std::move(f)); }
  void setup(const Params& p) override {
    Rows c; rows(p, c);
    f.setup(c);
  }
  double fD(double x) override { return f.filter(x); }
  float fF(float x) override { return f.filter(x); }
  int fI(int x) override { return f.filter(x); }
  short fS(short x) override { return f.filter(x); }
  long fL(long x) override { return f.filter(x); }
  unsigned fU(unsigned x) override { return f.filter(x); }
  signed char fC(signed char x) override { return f.filter(x); }
  long double fX(long double x) override { return f.filter(x); }
  void reset() override { f.reset(); }
  cplx response(double w) const override {          // an SOSCascade reports its sections only
    cplx h(1); auto s = const_cast<F&>(f).getCascadeStorage();
    for (int i = 0; i < s.maxStages; i++) h *= s.stageArray[i].response(w);
    return h;
  }
  int numStages() const override { return N; }
  int storageStages() const override { return const_cast<F&>(f).getCascadeStorage().maxStages; }
  Coef storage(int i) override { return coefOf(f.getCascadeStorage().stageArray[i]); }
  Coef indexed(int i) override { return getterCoef(f.getCascadeStorage().stageArray[i]); }
  size_t poleZeros(std::vector<PZ>& o) const override {
    auto s = const_cast<F&>(f).getCascadeStorage(); size_t n = 0;
    for (int i = 0; i < s.maxStages; i++) { auto v = s.stageArray[i].getPoleZeros(); n += v.size(); pzOut(v, o); }
    return n;
  }
  double fShared(double x, void* e) const override {
    auto* l = (ExtLine<typename TopoOf<T>::type>*)e; auto s = const_cast<F&>(f).getCascadeStorage();
    for (int i = 0; i < s.maxStages && i < 20; i++) x = s.stageArray[i].filter(x, l->st[i]);
    return x;
  }
  void initShared(void* e) const override { new (e) ExtLine<typename TopoOf<T>::type>; }
};

template <class O> void reg(Fam fam, Kind k, Topo t, int n) {
  ClassDesc d; d.fam = fam; d.kind = k; d.topo = t; d.maxOrder = n; d.size = sizeof(O); d.align = alignof(O); d.make = &makeObj<O>;
  registerClass(d);
}
