// C26 results are reproducible: the same session in fresh processes under different surroundings
#include "groups.hpp"
#include "zygote.hpp"
#include <malloc.h>
#include <sys/stat.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#include <valgrind/valgrind.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, b) 0
#endif
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of 8-40 operations (loads, normalise, PAA, group at API and set level, save, load, match, distances, bounds, envelopes) run in five fresh processes that differ in heap fill, stack residue, heap layout, earlier unrelated work, clock and environment size; the full logs (every result bit for bit and every file) must be identical; under valgrind the same session runs once with uninitialised reads reported; non-trivial = the log contains a group operation and an answered match";
static Zygote Z; static S TMP;
static S bits(D v) { char b[40]; snprintf(b, 40, "%a", (double)v); if (RUNNING_ON_VALGRIND) (void)VALGRIND_CHECK_MEM_IS_DEFINED(&v, sizeof v); return b; }
static void def(int v) { if (RUNNING_ON_VALGRIND) (void)VALGRIND_CHECK_MEM_IS_DEFINED(&v, sizeof v); }
__attribute__((noinline)) static void residue(unsigned char v, int depth) { volatile unsigned char b[4096]; memset((void*)b, v, sizeof b); if (depth > 0) residue(v, depth - 1); }
// the session; everything observable goes to the log
static S session(u64 seed, const S& tmp, bool small, bool& nontrivial) {
  Src s(seed); Ctx c_; c_.tmp = tmp; S log; bool grouped = false, matched = false;
  try {
    Session x(c_, s, 0); x.logging = true; x.maxRows = small ? 3 : 5; x.maxCols = small ? 6 : s.chance(1, 3) ? 14 : 9; int steps = small ? 8 : s.steps(s.range(8, 40), 300); x.load();
    for (int k = 0; k < steps; k++) { int op = s.range(0, 15); if (x.m.empty()) op = 0;
      if (op <= 1 && x.m.size() < 4) x.load(); else if (op == 2) x.anyChange(); else if (op <= 5) { x.group(x.anyId()); grouped = true; } else if (op == 6) x.setRatio(genRatio(s)); else if (op == 7) x.reloadGroups(x.anyId()); else if (op == 8) x.unload(); else if (op == 9) { int id = x.anyId(); auto p = x.api.normalizeDataset(id); log += "norm " + bits(p.first) + " " + bits(p.second) + "\n"; x.resync(id); }
      else if (!x.m.empty()) { auto q = x.genQuery(); MatchRes r = x.match(q); def(r.idx); def(r.start); def(r.len); log += show(r) + " " + bits(r.dist) + "\n"; matched |= !r.refused; }
      log += x.log; x.log.clear(); }
    log += x.snapshot();
    // set level and series level
    Table t = genTable(s, s.range(1, 4), s.range(2, small ? 5 : 9)); auto set = makeSet(c_, t, "set.txt"); D st = x.genST(); int n = set->groupAllLengths(s.chance(1, 2) ? "euclidean" : "euclidean_dtw", st); def(n); log += std::to_string(n); S gf = c_.path("gset.txt"); set->saveGroups(gf, false); log += slurp(gf); set->saveGroups(gf, true); log += slurp(gf); set->saveData(gf, ','); log += slurp(gf);
    for (int k = 0; k < 6; k++) { Row a = t[s.range(0, (long)t.size() - 1)], b = t[s.range(0, (long)t.size() - 1)]; if (s.chance(1, 2)) b.resize(s.range(1, b.size())); TimeSeries ta(a.data(), a.size()); TimeSeries tb((int)b.size()); for (size_t i = 0; i < b.size(); i++) tb[i] = b[i]; D cut = s.chance(1, 2) ? (D)INFINITY : (D)s.real(0, 1);
      log += bits(warpedDistance(ta, tb, cut)) + " " + bits(cascadeDistance(ta, tb, cut)) + " " + bits(keoghLowerBound(ta, tb, cut)) + " " + bits(crossKeoghLowerBound(tb, ta, cut)) + "\n"; if (a.size() == b.size()) log += bits(pairwiseDistance(ta, tb, cut)); int w = s.range(0, 9); const D* u = tb.getKeoghUpper(w); const D* l = tb.getKeoghLower(w); for (int i = 0; i < tb.getLength(); i++) log += bits(u[i]) + " " + bits(l[i]) + " ";
      TimeSeries tc(tb); tc = ta; tc += ta; log += tc.getIdentifierString() + bits(tc[tc.getLength() - 1]); try { auto m = set->getBestMatch(tc.getLength() == ta.getLength() && s.chance(1, 2) ? tc : tb); def(m.data.getIndex()); def(m.data.getStart()); log += VF_STR(m.data.getIdentifierString())() + bits(m.dist); matched = true; } catch (OnexException&) { log += "refused\n"; } }
    std::vector<candidate_time_series_t> v; for (int i = 0; i < 5; i++) v.push_back(candidate_time_series_t(set->getTimeSeries(s.range(0, (long)t.size() - 1)), (D)(s.range(0, 2) + s.range(0, 2) * 4e-13))); std::stable_sort(v.begin(), v.end()); for (auto& m : v) log += m.data.getIdentifierString();
    candidate_time_series_t none; def(none.data.getIndex()); def(none.data.getStart()); def(none.data.getLength()); log += VF_STR(none.dist << none.data.getLength())();
    setWarpingBandRatio(0.1);
  } catch (CaseFailed&) { log += "FAILED " + c_.key + " " + c_.msg; } catch (OnexException& e) { log += S("ERROR ") + e.what(); }
  nontrivial = grouped && matched; return log;
}
static S child(const S& req) {
  std::istringstream in(req); u64 seed; int mode; S tmp; int small; in >> seed >> mode >> small >> tmp; bool nt = false;
  static const int FILL[] = {0, 0x80, 0x01, 0x55, 0xc1}; mallopt(M_PERTURB, FILL[mode]);
  std::vector<char*> junk; if (mode) { Src j(seed * 31 + mode); for (int i = 0; i < 40 * mode; i++) { char* p = (char*)malloc(j.range(1, 3000)); if (p) junk.push_back(p); } for (size_t i = 0; i < junk.size(); i += 2) { free(junk[i]); junk[i] = nullptr; } setenv("VF_PADDING", S(100 * mode, 'x').c_str(), 1); }
  switch (mode) { case 0: setClock(CLK_CONST, 0, 0); break; case 1: setClock(CLK_STEP, 1700000000LL * 1000000000LL, 11000000000LL); break; case 2: setClock(CLK_RANDOM, 0, 4000000000LL * 1000000000LL / 2, seed); break; case 3: setClock(CLK_BACK, 1000000000LL * 1000000000LL, 7000000LL); break; default: setClock(CLK_STEP, 0, 1000LL); }
  if (mode == 2 || mode == 4) { bool z; for (int k = 0; k < mode / 2; k++) session(mix(seed + 977 * k + mode), tmp + "/prior", small, z); }    // earlier unrelated work
  residue(mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? 0x3f : 0x7f, 30);
  S log = session(seed, tmp + "/run", small, nt); for (char* p : junk) free(p); return (nt ? "n" : "t") + log;
}
void runCase(Ctx& c_, Src& s) {
  u64 seed = s.next(); c_.desc.add(seed);
  S tmp = c_.tmp; mkdir((tmp + "/run").c_str(), 0700); mkdir((tmp + "/prior").c_str(), 0700); bool nt;
  if (RUNNING_ON_VALGRIND || getenv("VF_INLINE")) { session(seed, tmp + "/run", true, nt); c_.nontrivial = true; c_.count("sessions_under_memcheck"); return; }
  Z.start(child); S first;
  for (int mode = 0; mode < 5; mode++) { S a = Z.ask(VF_STR(seed << " " << mode << " " << 0 << " " << tmp)()); c_.count("processes");
    EXPECT(a.substr(0, 2) == "ok", "died", "the session ended abnormally in surroundings " << mode << ": " << a.substr(0, 200));
    if (!mode) { first = a; c_.nontrivial = a[2] == 'n'; c_.count("log_bytes", a.size()); continue; }
    if (a != first) { size_t p = 0; while (p < a.size() && p < first.size() && a[p] == first[p]) p++; size_t b = p > 150 ? p - 150 : 0; EXPECT(false, "differs", "the same session gave another result in surroundings " << mode << " (heap fill, clock, earlier work) at byte " << p << ":\n" << first.substr(b, 400) << "\n-- versus --\n" << a.substr(b, 400)); } }
  c_.sampleText = first.substr(3, 200);
}
}
