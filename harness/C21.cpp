// C21 answers never come from groups of changed data
#include "groups.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of 10-50 operations in which grouped datasets are normalised, aggregated, reloaded (set level) and regrouped; after every data-changing operation the dataset must be ungrouped (flag, saving groups, matching), other datasets' groups must be untouched, and regrouping must give the groups and answers of a freshly loaded dataset with those values; non-trivial = groups were discarded and rebuilt";
void runCase(Ctx& c_, Src& s) {
  Session x(c_, s, J_STALE | J_ISO); x.maxRows = 5; x.maxCols = s.chance(1, 3) ? 14 : 9; int steps = s.steps(s.range(10, s.chance(1, 8) ? 60 : 30), 400); std::map<int, bool> dropped;
  // regroup and compare with a fresh dataset in a fresh session
  auto regroup = [&](int id) {
    D st = x.genST(); int k = x.group(id, &st); DS& d = x.m[id]; OnexAPI fresh; S f = x.file("fresh.txt"); spit(f, tableText(d.v)); int fid = fresh.loadDataset(f, 0, 0, " ").id; int k2 = fresh.groupDataset(fid, st); S gf = x.file("fresh_g.txt"); fresh.saveGroup(fid, gf, false); S g2 = slurp(gf);
    EXPECT(k == k2 && g2 == d.gtext, "regroup", "regrouping dataset " << id << " gave " << k << " groups, a freshly loaded dataset with the same values " << k2 << (g2 == d.gtext ? "" : "; the groups differ") << ": " << tabText(d.v) << " ST " << st << "\n" << c_.sampleText);
    int n = d.v[0].size(); if (n >= 2) for (int q = 0; q < 3; q++) { int i = s.range(0, (long)d.v.size() - 1), a = s.range(0, n - 2), b = s.range(a + 2, n); MatchRes m1 = doMatch(x.api, id, id, i, a, b), m2 = doMatch(fresh, fid, fid, i, a, b); c_.count("fresh_answers"); EXPECT(m1 == m2, "answer", "after regrouping, query " << i << " [" << a << "," << b << ") is answered " << show(m1) << ", by a freshly loaded dataset " << show(m2) << ": " << tabText(d.v)); }
    if (dropped[id]) c_.nontrivial = true; c_.count("regroups"); dropped[id] = false; };
  for (int k = 0; k < steps; k++) {
    int op = s.range(0, 13); if (x.m.empty() || (op == 0 && x.m.size() < 4)) { int id = x.load(); if (s.chance(1, 2)) regroup(id); dropped[id] = false; }
    else { int id = x.anyId(); bool was = x.m[id].grouped;
      if (op <= 3) { x.normalize(id); if (was) dropped[id] = true; } else if (op <= 6) { x.paa(id); if (was) dropped[id] = true; }
      else if (op <= 9) regroup(id); else if (op == 10) { x.reloadGroups(id); } else if (op == 11) x.match(x.genQuery()); else if (op == 12) { x.unload(id); dropped.erase(id); } else x.setRatio(genRatio(s)); }
    if (k % 2 || s.chance(1, 2)) x.verifyAll();
  }
  // set level: reloading data discards the groups of the old data
  if (s.chance(1, 2)) {
    Table t = genTable(s, s.range(1, 4), s.range(2, 8)), t2 = s.chance(1, 3) ? t : genTable(s, s.chance(1, 2) ? t.size() : s.range(1, 5), s.chance(1, 2) ? t[0].size() : s.range(2, 9)); auto set = makeSet(c_, t, "set.txt"), other = makeSet(c_, t2, "set2.txt"); D st = x.genST();
    set->groupAllLengths("euclidean", st); other->groupAllLengths("euclidean", st); S og = c_.path("og.txt"); other->saveGroups(og, false); S ogt = slurp(og);
    S f1 = c_.path("set.txt"), f2 = c_.path("set2.txt"), cur = f1; Table tc = t; int chain = s.chance(1, 2) ? 1 : s.range(2, 5);
    for (int step = 0; step < chain; step++) {
      int how = s.range(0, 5); Table now = valuesOf(*set); int rows = 0, col = 0;
      if (how == 0) { bool o = s.chance(1, 2); cur = o ? f1 : f2; tc = o ? t : t2; }
      else if (how == 5) { tc = s.chance(1, 2) ? tc : genTable(s, s.range(1, 4), s.range(2, 8)); if (s.chance(1, 2)) std::reverse(tc.begin(), tc.end()); spit(cur, tableText(tc)); (cur == f1 ? t : t2) = tc; }   // the same file, with other contents of perhaps the same size
      if (how == 0 || how >= 3) { if (how == 3) set->clearData(); if (s.chance(1, 3)) rows = s.range(0, (long)tc.size()); if (s.chance(1, 3)) col = s.range(0, (long)tc[0].size() - 1); set->loadData(cur, rows, col, " "); now.assign(tc.begin(), rows > 0 ? tc.begin() + rows : tc.end()); for (auto& r : now) r.erase(r.begin(), r.begin() + col); c_.count("set_reloads"); }
      else { if (how == 1) set->normalize(); else set->PAA(s.range(1, 3)); now = valuesOf(*set); }
      c_.sampleText += " change " + std::to_string(how); EXPECT(!set->isGrouped(), "stale", "set reported as grouped after its data changed (" << how << ")");
      Row q = now[0]; if (q.size() < 2) q.resize(2); TimeSeries ts(q.data(), q.size()); EXPECT(refused(c_, [&] { set->getBestMatch(ts); }, "getBestMatch"), "stale", "set answers a match after its data changed (" << how << ") without grouping again");
      EXPECT(refused(c_, [&] { set->saveGroups(og, false); }, "saveGroups"), "stale", "groups can be saved after the data changed (" << how << ")");
      Table has = valuesOf(*set); EXPECT(hashTable(has) == hashTable(now), "values", "after change " << how << " the set holds " << tabText(has) << " instead of " << tabText(now));
      if (step + 1 < chain && s.chance(1, 3)) continue;
      set->groupAllLengths("euclidean", st); auto fr = makeSet(c_, now, "fr.txt"); fr->groupAllLengths("euclidean", st); GFile a = groupsOf(c_, *set, "a.txt"), b = groupsOf(c_, *fr, "b.txt"); EXPECT(hashGroups(a, true) == hashGroups(b, true), "regroup", "set regrouped after change " << how << " has other groups than a fresh one");
    }
    other->saveGroups(og, false); EXPECT(slurp(og) == ogt, "other", "groups of another set changed"); c_.count("set_level_changes"); c_.nontrivial = true;
  }
  setWarpingBandRatio(0.1);
}
}
