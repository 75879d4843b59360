#pragma once
#include "scenario.hpp"
Params genValid(const ClassDesc& c, Rng& r, bool tameOnly);
Params genBad(const ClassDesc& c, Rng& r, const Params& base);
Params mutate(const ClassDesc& c, Rng& r, const Params& base, bool tameOnly);
Scenario generate(const std::string& prop, uint64_t seed);
Scenario generateThreads(const std::string& prop, uint64_t seed);
