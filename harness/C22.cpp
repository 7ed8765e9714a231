// C22 registry consistency and isolation
#include "session.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = one or two interleaved API sessions of 8-60 random operations (load, failed load, unload, unload-all, normalise, PAA, group, load groups, match, failed requests), the registry and every dataset's values and groups compared with a model after every operation; non-trivial = an unload followed by a load happened";
// hundreds of datasets at once, freed and loaded again in runs
static void crowd(Ctx& c_, Src& s) {
  Session x(c_, s, J_REG | J_ISO | J_IDS, "c"); x.maxRows = 2; x.maxCols = 3; int n = s.pick(std::vector<int>{130, 257, 260, 300}) + (int)s.range(0, 20);
  for (int k = 0; k < n; k++) x.load(); x.verifyAll();
  for (int round = s.range(1, 3); round > 0; round--) {
    int how = s.range(0, 3), lo = s.range(0, n - 1), hi = s.range(lo, n - 1); if (how == 0) lo = 0, hi = n - 1; else if (how == 1) hi = lo = s.range(n - 5, n - 1); else if (how == 2) lo = std::max(0, n - 258), hi = lo + 255;
    int freed = 0; for (int id = lo; id <= hi; id++) if (x.m.count(id) && (how != 3 || s.chance(1, 3))) { x.unload(id); freed++; }
    EXPECT(x.api.getDatasetCount() == (int)x.m.size(), "count", "getDatasetCount says " << x.api.getDatasetCount() << ", " << x.m.size() << " are loaded");
    if (s.chance(1, 2) && !x.m.empty()) { x.group(x.anyId()); }
    int back = s.range(0, freed + 2); for (int k = 0; k < back; k++) x.load(); x.verifyAll(); }
  c_.count("crowds"); c_.nontrivial = true;
}
void runCase(Ctx& c_, Src& s) {
  if (s.chance(1, 100)) { crowd(c_, s); return; }
  int ns = s.chance(1, 3) ? 2 : 1; std::vector<std::unique_ptr<Session>> se;
  for (int i = 0; i < ns; i++) { se.emplace_back(new Session(c_, s, J_REG | J_ISO | J_IDS, "s" + std::to_string(i))); }
  int steps = s.steps(s.range(8, s.chance(1, 12) ? 120 : 45), 400); bool freed = false; int cap = s.chance(1, 10) ? s.steps(40, 150) : s.chance(1, 2) ? 4 : 8;
  bool loadHeavy = s.chance(1, 3);
  for (int k = 0; k < steps; k++) {
    Session& x = *se[s.range(0, ns - 1)];
    int op = s.range(0, loadHeavy ? 9 : 15);
    if (x.m.empty()) op = s.chance(1, 8) ? 5 : 0;
    if ((int)x.m.size() >= cap && op <= 3) op = 4;
    if (op <= 3) { if (freed) c_.nontrivial = true; x.load(); }
    else if (op <= 5) { if (op == 5 && s.chance(1, 6)) x.unloadAll(); else if (!x.m.empty()) { if (s.chance(1, 3)) x.unload(x.m.rbegin()->first); else if (s.chance(1, 3)) x.unload(x.m.begin()->first); else x.unload(); } freed = true; }
    else if (op == 6) { S f = x.file("bad.txt"); if (s.chance(1, 2)) spit(f, "1 2\n3\n"); else f = x.file("none.txt"); EXPECT(refused(c_, [&] { x.api.loadDataset(f, 0, 0, " "); }, "loadDataset"), "accepted", "bad file loaded"); x.note("failed load"); }
    else if (op == 7) { int id = s.chance(1, 2) ? -(int)s.range(1, 3) : (int)(x.m.empty() ? 0 : x.m.rbegin()->first + s.range(1, 5)); if (!x.m.count(id)) { EXPECT(refused(c_, [&] { x.api.unloadDataset(id); }, "unloadDataset"), "accepted", "unloading dataset " << id << " accepted"); x.note("failed unload"); } }
    else if (op <= 10) x.anyChange();
    else if (op == 11) x.match(x.genQuery());
    else if (op == 12) { int free_ = x.smallestFree(); if (s.chance(1, 2)) EXPECT(refused(c_, [&] { x.api.unloadDataset(free_); }, "unloadDataset"), "accepted", "unloading free id " << free_ << " accepted"); }
    else if (op == 13) x.normalize(x.anyId());
    else if (op == 14) x.paa(x.anyId());
    else x.group(x.anyId());
    for (auto& p : se) p->verifyAll();
  }
  for (auto& p : se) { p->unloadAll(); p->verifyAll(); p->load(); p->verifyAll(); }
  c_.count("steps", steps);
}
}
