#include "adapters.hpp"
template <int T> static void regSec() {
  reg<SecObj<Iir::Custom::OnePole, K_ONE, T>>(CUS, K_ONE, (Topo)T, 1);
  reg<SecObj<Iir::Custom::TwoPole, K_TWO, T>>(CUS, K_TWO, (Topo)T, 2);
  reg<SecObj<Iir::Biquad, K_RAW, T>>(CUS, K_RAW, (Topo)T, 2);
  reg<SosObj<1, T>>(CUS, K_SOS, (Topo)T, 1);
  reg<SosObj<2, T>>(CUS, K_SOS, (Topo)T, 2);
  reg<SosObj<3, T>>(CUS, K_SOS, (Topo)T, 3);
  reg<SosObj<5, T>>(CUS, K_SOS, (Topo)T, 5);
}
void regMisc() {
  using namespace Iir::RBJ;
  reg<RbjObj<LowPass, R_LP>>(RBJ, R_LP, DF1, 2);
  reg<RbjObj<HighPass, R_HP>>(RBJ, R_HP, DF1, 2);
  reg<RbjObj<BandPass1, R_BP1>>(RBJ, R_BP1, DF1, 2);
  reg<RbjObj<BandPass2, R_BP2>>(RBJ, R_BP2, DF1, 2);
  reg<RbjObj<BandStop, R_BS>>(RBJ, R_BS, DF1, 2);
  reg<RbjObj<IIRNotch, R_NOTCH>>(RBJ, R_NOTCH, DF1, 2);
  reg<RbjObj<LowShelf, R_LS>>(RBJ, R_LS, DF1, 2);
  reg<RbjObj<HighShelf, R_HS>>(RBJ, R_HS, DF1, 2);
  reg<RbjObj<BandShelf, R_BSH>>(RBJ, R_BSH, DF1, 2);
  reg<RbjObj<AllPass, R_AP>>(RBJ, R_AP, DF1, 2);
  regSec<DF1>(); regSec<DF2>(); regSec<TDF2>();
}
