// Shared runtime of all harnesses: random source, case runner, monitors' verdict plumbing.
// A harness defines  vf::runCase(Ctx&, Src&)  and  vf::RULE, and links main.cpp.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <limits>
#include <stdexcept>

namespace vf {

typedef uint64_t u64;
typedef std::string S;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
struct Hash {
  u64 h = 1469598103934665603ULL;
  void bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } }
  template <class T> Hash& add(const T& v) { bytes(&v, sizeof v); return *this; }
  Hash& str(const S& s) { u64 n = s.size(); add(n); bytes(s.data(), s.size()); return *this; }
  u64 get() const { return mix(h); }
};

// Literals found in the sources under test (sizes the code may treat specially).
extern std::vector<long> LITS;
extern std::vector<double> FLITS;
// ... and those the tree has more often than the tree the checks were written for: favoured strongly.
extern std::vector<long> NEWLITS;
extern std::vector<double> NEWFLITS;

// Source of choices: a PRNG, or (fuzzing) a byte string followed by a PRNG seeded by it.
struct Src {
  u64 s; const uint8_t* p = nullptr; size_t n = 0;
  explicit Src(u64 seed) : s(seed) {}
  Src(const uint8_t* d, size_t len) : s(12345), p(d), n(len) {}
  u64 next(int bytes = 8) {
    if (p) {
      u64 v = 0;
      if (!n) return 0;
      for (int i = 0; i < bytes && n; i++) { v = (v << 8) | *p++; n--; }
      return v;
    }
    return mix(s += 0x9e3779b97f4a7c15ULL);
  }
  // uniform in [lo,hi]
  long range(long lo, long hi) {
    if (hi <= lo) return lo;
    u64 span = (u64)(hi - lo) + 1;
    return lo + (long)(next(span <= 256 ? 1 : span <= 65536 ? 2 : 8) % span);
  }
  bool chance(int num, int den) { return range(1, den) <= num; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[range(0, (long)v.size() - 1)]; }
  // a size in [lo,hi], biased to small values, powers of two +-1 and literals of the sources
  long size(long lo, long hi) {
    long v;
    if (!NEWLITS.empty() && chance(1, 4)) { static const double F[] = {1, 1, 1, 1, 1.25, 2, 3, 0.5}; v = (long)(pick(NEWLITS) * F[range(0, 7)]) + range(-1, 2); if (v >= lo && v <= hi) return v; }
    switch (range(0, 11)) {
      case 0: v = range(lo, hi); break;
      case 1: { int b = 0; while ((1L << (b + 1)) <= hi) b++; v = (1L << range(0, b)) + range(-1, 1); break; }
      case 2: if (!LITS.empty()) { v = pick(LITS) + range(-1, 1); break; }  // fallthrough
      case 3: { double f = unit(); v = lo + (long)((hi - lo) * f * f * f); break; }
      default: v = lo + range(0, std::min(hi - lo, 12L));
    }
    if (v < lo || v > hi) v = lo + range(0, std::min(hi - lo, 12L));
    return v;
  }
  // a number of operations: `base`, or now and then just past a size the code may treat specially
  int steps(long base, long cap) {
    if (!NEWLITS.empty() && chance(1, 5)) { static const double F[] = {1, 1, 1, 2, 2.5}; long v = (long)(pick(NEWLITS) * F[range(0, 4)]) + range(0, 4); if (v > base && v <= cap) return (int)v; }
    return (int)base;
  }
};

// now and then a real number the code may treat specially, else d
inline double specialReal(Src& s, double d) { if (!NEWFLITS.empty() && s.chance(1, 4)) { double v = s.pick(NEWFLITS); switch (s.range(0, 5)) { case 0: return v * 2; case 1: return v / 2; case 2: return std::nextafter(v, 1e300); case 3: return std::nextafter(v, -1e300); default: return v; } } if (!FLITS.empty() && s.chance(1, 60)) return s.pick(FLITS); return d; }

struct CaseFailed { };
struct CaseSkipped { };

struct Ctx {
  u64 seed = 1; long caseNo = 0; S tmp; S tier = "quick"; bool fuzz = false;
  S key, msg;                    // verdict of the current case
  Hash desc; bool nontrivial = false; S sampleText;
  std::map<S, u64> counters;
  bool thorough() const { return tier == "thorough"; }
  void count(const S& n, u64 k = 1) { counters[n] += k; }
  void maxi(const S& n, u64 v) { u64& c = counters["max_" + n]; if (v > c) c = v; }
  [[noreturn]] void fail(const S& k, const S& m) { key = k; msg = m; throw CaseFailed(); }
  void expect(bool ok, const char* k, const std::function<S()>& m) { counters["oracle_checks"]++; if (!ok) fail(k, m()); }
  S path(const S& name) const { return tmp + "/" + name; }
};

#define VF_STR(expr) ([&]() -> vf::S { std::ostringstream _o; _o.precision(17); _o << expr; return _o.str(); })
#define EXPECT(c, key, expr) do { c_.counters["oracle_checks"]++; if (!(c)) c_.fail(key, VF_STR(expr)()); } while (0)

void runCase(Ctx& c, Src& s);
extern const char* RULE;

inline S slurp(const S& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline bool exists(const S& p) { std::ifstream f(p, std::ios::binary); return (bool)f; }
inline void spit(const S& p, const S& t) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _Exit(90); } if (t.size() && fwrite(t.data(), 1, t.size(), f) != t.size()) { perror("fwrite"); _Exit(90); } if (fclose(f)) { perror("fclose"); _Exit(90); } }

// virtual clock seen by the code under test (main.cpp replaces std::chrono::*::now)
enum ClockMode { CLK_CONST, CLK_STEP, CLK_RANDOM, CLK_BACK };
void setClock(ClockMode m, long long startNs, long long stepNs, u64 seed = 1);
u64 clockReads();

void capture(bool on);           // redirect fd 1 to a file while on
S captured();
} // namespace vf
