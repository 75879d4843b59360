// The simulated allocator: malloc family of the whole process, under the simulator's control.
#pragma once
struct AllocCtl {
  bool inSut = false;     // code of the library is running
  long failAfter = -1;    // >= 0: that many allocations of the library still succeed
  bool single = false;    // only one allocation fails
  bool fired = false;
  unsigned long calls = 0, failed = 0;
  int fill = -1;          // fill pattern for fresh and freed blocks
  long live = 0;          // blocks allocated by the library and not freed
  bool overflow = false;
};
extern AllocCtl g_alloc;
extern unsigned long long g_clockSkew;      // != 0: the library sees another clock

