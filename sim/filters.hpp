// Uniform handle on every filter type of the library under test. Adapters call only its public API.
#pragma once
#include <array>
#include <complex>
#include <memory>
#include <string>
#include <vector>
#include <cstddef>

enum Fam { BW, C1, C2, RBJ, CUS };
enum Kind { LP, HP, BP, BS, LS, HS, BSH,                       // designed filters
            R_LP, R_HP, R_BP1, R_BP2, R_BS, R_NOTCH, R_LS, R_HS, R_BSH, R_AP,
            K_ONE, K_TWO, K_SOS, K_RAW };
enum Topo { DF1, DF2, TDF2 };
enum Form { F_HZ, F_ORDER_HZ, F_N, F_ORDER_N };
enum SType { S_DOUBLE, S_FLOAT, S_INT, S_SHORT, S_LONG, S_MIX, S_UINT, S_CHAR, S_LDBL, S_COUNT };

struct Params {
  int form = F_N;
  int order = 0;              // used by the forms with an explicit order
  double fs = 1;              // sampling rate (Hz forms)
  double f = 0, w = 0;        // frequencies: in Hz for the Hz forms, else normalised
  double g = 0;               // gain dB, or Q / bandwidth for RBJ, scale for one/two pole
  double r = 0;               // ripple / rejection dB, or shelf slope / bandwidth for RBJ shelves
  int dflt = 0;               // 1: leave the last RBJ argument at its default
  std::vector<double> extra;  // SOS rows / raw coefficients / pole+zero positions
};

struct Coef { double b0 = 1, b1 = 0, b2 = 0, a0 = 1, a1 = 0, a2 = 0; };  // a1.. normalised by a0 as stored
typedef std::complex<double> cplx;
struct PZ { cplx p1, p2, z1, z2; };

struct ClassDesc {
  Fam fam; Kind kind; Topo topo; int maxOrder;
  size_t size, align;
  struct Obj* (*make)(void* mem);
  std::string name() const;
  bool designed() const { return fam <= C2; }
  bool band() const { return kind == BP || kind == BS || kind == BSH; }
  bool shelf() const { return kind == LS || kind == HS || kind == BSH; }
  int stages() const;   // sections of storage
};

enum { EXTSIZE = 20 * 48 };
struct Obj {
  virtual ~Obj() {}
  virtual void setup(const Params&) = 0;
  virtual Obj* build(void*, const Params&) const { return nullptr; }   // construction from a request, where the class offers it
  virtual double fD(double) = 0;
  virtual float fF(float) = 0;
  virtual int fI(int) = 0;
  virtual short fS(short) = 0;
  virtual long fL(long) = 0;
  virtual unsigned fU(unsigned) = 0;
  virtual signed char fC(signed char) = 0;
  virtual long double fX(long double) = 0;
  virtual void reset() = 0;
  virtual Obj* copyTo(void* mem) const = 0;       // copy construction
  virtual Obj* moveTo(void* mem) = 0;             // move construction; this one is good for destruction only afterwards
  virtual void assign(const Obj&, bool temp) = 0; // copy assignment, or assignment from a temporary copy
  virtual cplx response(double f) const = 0;
  virtual int numStages() const = 0;              // sections in use
  virtual int storageStages() const = 0;
  virtual Coef storage(int i) = 0;                // through getCascadeStorage / public coefficients
  virtual Coef indexed(int i) = 0;                // through operator[] / getters, only i < numStages
  virtual size_t poleZeros(std::vector<PZ>& out) const = 0;
  virtual size_t cascadePoleZeros(std::vector<PZ>&) const { return 0; }       // those recovered from the running sections
  virtual bool peekNext(const double*, int, double*) { return false; }        // what comes next, from the delay lines it reports
  // one sample of a stream of the caller's own, through the (shared) coefficients of this filter; `ext` holds the
  // delay lines and belongs to the caller
  virtual double fShared(double x, void* ext) const = 0;
  virtual void initShared(void* ext) const = 0;
};

const std::vector<ClassDesc>& classes();
void registerClass(const ClassDesc&);
