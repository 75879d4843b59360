#include "filters.hpp"
void regMisc(); 
void regBW0(); void regBW1(); void regBW2(); void regC10(); void regC11(); void regC12(); void regC20(); void regC21(); void regC22();
static std::vector<ClassDesc>& store() { static auto* v = new std::vector<ClassDesc>; return *v; }     // outlives the exit handlers
void registerClass(const ClassDesc& d) { store().push_back(d); }
const std::vector<ClassDesc>& classes() {
  static bool done = false;
  if (!done) { done = true; regBW0(); regBW1(); regBW2(); regC10(); regC11(); regC12(); regC20(); regC21(); regC22(); regMisc(); }
  return store();
}
std::string ClassDesc::name() const {
  static const char* fa[] = {"Butterworth", "ChebyshevI", "ChebyshevII", "RBJ", "Custom"};
  static const char* ki[] = {"LowPass", "HighPass", "BandPass", "BandStop", "LowShelf", "HighShelf", "BandShelf",
    "LowPass", "HighPass", "BandPass1", "BandPass2", "BandStop", "IIRNotch", "LowShelf", "HighShelf", "BandShelf", "AllPass",
    "OnePole", "TwoPole", "SOSCascade", "Biquad"};
  static const char* to[] = {"DirectFormI", "DirectFormII", "TransposedDirectFormII"};
  return std::string(fa[fam]) + "::" + ki[kind] + "<" + std::to_string(maxOrder) + "," + to[topo] + ">";
}
int ClassDesc::stages() const {
  if (designed()) return band() ? maxOrder : (maxOrder + 1) / 2;
  return kind == K_SOS ? maxOrder : 1;
}
