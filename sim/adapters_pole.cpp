// One translation unit per (family, topology): -DFAM_=BW -DNS_=Butterworth -DTOPO_=DF1
#include "adapters.hpp"
namespace ns = Iir::NS_;
template <int N> static void regOrder() {
  typedef TopoOf<TOPO_>::type S;
  constexpr int L = (N + 1) / 2, B = N;
  reg<PoleObj<ns::LowPass<N, S>, FAM_, LP, L, S>>(FAM_, LP, TOPO_, N);
  reg<PoleObj<ns::HighPass<N, S>, FAM_, HP, L, S>>(FAM_, HP, TOPO_, N);
  reg<PoleObj<ns::BandPass<N, S>, FAM_, BP, B, S>>(FAM_, BP, TOPO_, N);
  reg<PoleObj<ns::BandStop<N, S>, FAM_, BS, B, S>>(FAM_, BS, TOPO_, N);
  reg<PoleObj<ns::LowShelf<N, S>, FAM_, LS, L, S>>(FAM_, LS, TOPO_, N);
  reg<PoleObj<ns::HighShelf<N, S>, FAM_, HS, L, S>>(FAM_, HS, TOPO_, N);
  reg<PoleObj<ns::BandShelf<N, S>, FAM_, BSH, B, S>>(FAM_, BSH, TOPO_, N);
}
void CAT_() {
#ifdef ORDERS_
  ORDERS_
#else
  regOrder<1>(); regOrder<2>(); regOrder<3>(); regOrder<4>(); regOrder<5>(); regOrder<8>();
  regOrder<15>(); regOrder<20>();
#endif
}
