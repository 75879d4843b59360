#include "scenario.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
static const char* OPN[] = {"NEW", "SETUP", "FEED", "RESET", "COPY", "ASSIGN", "DESTROY", "RELOC", "QUERY", "ALLOC", "TONE", "SHFEED"};
static const char* GENN[] = {"noise", "sine", "step", "impulse", "square", "dcnoise", "zero", "nan", "pinf", "ninf", "denormal", "huge", "spike", "nan_in_noise"};
static std::string hx(double d) { char b[64]; if (d != d) return "nan"; snprintf(b, 64, "%a", d); return b; }
std::string paramsText(const Params& p) {
  std::string s = "form=" + std::to_string(p.form) + " order=" + std::to_string(p.order) + " fs=" + hx(p.fs) + " f=" + hx(p.f) +
    " w=" + hx(p.w) + " g=" + hx(p.g) + " r=" + hx(p.r) + " dflt=" + std::to_string(p.dflt);
  if (!p.extra.empty()) { s += " extra="; for (size_t i = 0; i < p.extra.size(); i++) s += (i ? "," : "") + hx(p.extra[i]); }
  return s;
}
std::string opText(const Op& o) {
  std::string s = OPN[o.k]; char b[64];
  s += " th=" + std::to_string(o.th);
  switch (o.k) {
    case O_NEW: s += " a=" + std::to_string(o.a) + " cls=" + classes()[(size_t)o.cls].name() + " seed=" + std::to_string(o.seed); break;
    case O_SETUP: s += " a=" + std::to_string(o.a) + " seed=" + std::to_string(o.seed) + " " + paramsText(o.p); break;
    case O_SHFEED: s += " a=" + std::to_string(o.a) + " gen=" + GENN[o.gen] + " n=" + std::to_string(o.n) + " amp=" + hx(o.amp) + " seed=" + std::to_string(o.seed); break;
    case O_FEED: snprintf(b, 64, "%u", o.mask); s += std::string(" mask=") + b + " gen=" + GENN[o.gen] + " n=" + std::to_string(o.n) + " st=" + std::to_string(o.st) +
      " amp=" + hx(o.amp) + " seed=" + std::to_string(o.seed); break;
    case O_COPY: case O_ASSIGN: s += " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b) + " seed=" + std::to_string(o.seed); break;
    case O_QUERY: s += " a=" + std::to_string(o.a) + " amp=" + hx(o.amp) + " m=" + std::to_string(o.m) + " seed=" + std::to_string(o.seed); break;
    case O_ALLOC: s += " m=" + std::to_string(o.m) + " b=" + std::to_string(o.b) + " seed=" + std::to_string(o.seed); break;
    case O_TONE: s += " a=" + std::to_string(o.a) + " seed=" + std::to_string(o.seed); break;
    default: s += " a=" + std::to_string(o.a) + " seed=" + std::to_string(o.seed);
  }
  if (o.n && o.k != O_FEED && o.k != O_SHFEED) s += " n=" + std::to_string(o.n);      // that many more times
  return s;
}
std::string toText(const Scenario& s) {
  std::string t = "iir1-sim 1\nprop " + s.prop + "\nseed " + std::to_string(s.seed) + "\nenv " + std::to_string(s.env) + "\nquiet " + std::to_string(s.quiet) + "\nthreads " + std::to_string(s.threads) + "\nexplore " + std::to_string(s.explore) + "\n";
  for (auto& o : s.ops) t += "op " + opText(o) + "\n";
  for (auto& p : s.sched) t += "preempt " + std::to_string(p.th) + " " + std::to_string(p.at) + " " + std::to_string(p.to) + "\n";
  return t + "end\n";
}
static double num(const std::string& v) { return v == "nan" ? NAN : strtod(v.c_str(), nullptr); }
bool fromText(const std::string& t, Scenario& s, std::string& err) {
  s = Scenario(); std::istringstream in(t); std::string line; bool head = false, end = false;
  std::map<std::string, int> cl;
  for (size_t i = 0; i < classes().size(); i++) cl[classes()[i].name()] = (int)i;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line); std::string w; ls >> w;
    if (w == "iir1-sim") head = true;
    else if (w == "prop") ls >> s.prop;
    else if (w == "seed") ls >> s.seed;
    else if (w == "env") ls >> s.env;
    else if (w == "quiet") ls >> s.quiet;
    else if (w == "threads") ls >> s.threads;
    else if (w == "explore") ls >> s.explore;
    else if (w == "preempt") { Preempt p; ls >> p.th >> p.at >> p.to; s.sched.push_back(p); }
    else if (w == "end") end = true;
    else if (w == "op") {
      Op o; std::string k; ls >> k; int ki = -1;
      for (int i = 0; i < O_COUNT; i++) if (k == OPN[i]) ki = i;
      if (ki < 0) { err = "unknown op " + k; return false; }
      o.k = (OpK)ki; std::string kv;
      while (ls >> kv) {
        size_t e = kv.find('='); if (e == std::string::npos) continue;
        std::string key = kv.substr(0, e), v = kv.substr(e + 1);
        if (key == "a") o.a = atoi(v.c_str()); else if (key == "b") o.b = atoi(v.c_str()); else if (key == "th") o.th = atoi(v.c_str());
        else if (key == "mask") o.mask = (unsigned)strtoul(v.c_str(), nullptr, 10); else if (key == "n") o.n = atoi(v.c_str());
        else if (key == "st") o.st = atoi(v.c_str()); else if (key == "amp") o.amp = num(v); else if (key == "m") o.m = atoi(v.c_str());
        else if (key == "seed") o.seed = strtoull(v.c_str(), nullptr, 10);
        else if (key == "cls") { if (!cl.count(v)) { err = "unknown class " + v; return false; } o.cls = cl[v]; }
        else if (key == "gen") { for (int i = 0; i < G_COUNT; i++) if (v == GENN[i]) o.gen = i; }
        else if (key == "form") o.p.form = atoi(v.c_str()); else if (key == "order") o.p.order = atoi(v.c_str());
        else if (key == "fs") o.p.fs = num(v); else if (key == "f") o.p.f = num(v); else if (key == "w") o.p.w = num(v);
        else if (key == "g") o.p.g = num(v); else if (key == "r") o.p.r = num(v); else if (key == "dflt") o.p.dflt = atoi(v.c_str());
        else if (key == "extra") { std::istringstream es(v); std::string x; while (std::getline(es, x, ',')) o.p.extra.push_back(num(x)); }
      }
      if (o.a < 0 || o.a >= MAXSLOT || o.b < 0 || o.b >= MAXSLOT) { if (o.k != O_ALLOC) { err = "bad slot"; return false; } }
      s.ops.push_back(o);
    }
  }
  if (!head || !end || s.ops.size() > MAXOPS) { err = "incomplete scenario"; return false; }
  return true;
}
