// C13 grouping partitions all subsequences
#include "groups.hpp"
#include <limits>
#include <unistd.h>
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated dataset (also fewer than five subsequences of a length, single rows, single columns, hundreds of rows), one to three successive groupings with any threshold (zero, negative, infinite, not a number included) and either distance, under an arbitrary clock (constant, jumping past the logging interval on every reading, random, running backwards); group file, returned count and the group objects' member lists checked for an exact partition; non-trivial = more than one group and a group with more than one member";
static bool bigLits(long b) { for (long v : NEWLITS) if (v > b) return true; return false; }
// one length of very long series, through the per-length object
static void longSeries(Ctx& c_, Src& s) {
  int rows = s.range(1, 3), cols = s.chance(1, 2) ? (int)s.range(32700, 33800) : s.chance(1, 2) ? (int)s.range(65500, 66700) : (int)s.size(3000, 140000); int l = s.chance(1, 2) ? s.range(2, 3) : cols - s.range(0, 40); if (l < 2) l = 2;
  Table t(rows, Row(cols)); for (auto& r : t) for (auto& x : r) x = (D)s.range(0, 2); auto set = makeSet(c_, t, "d.txt"); D st = l > 10 ? 0.5 : 0.25; c_.desc.add(rows).add(cols).add(l); c_.maxi("cols", cols); c_.count("huge");
  LocalLengthGroupSpace sp(*set, l); int n = sp.generateGroups(getDistance("euclidean"), st); EXPECT(n == sp.getNumberOfGroups() && n > 0, "count", n << " groups generated, " << sp.getNumberOfGroups() << " held");
  std::vector<char> seen((size_t)rows * (cols - l + 1)); size_t total = 0;
  for (int q = 0; q < n; q++) { auto mem = sp.getGroup(q)->getMembers(); EXPECT((int)mem.size() == sp.getGroup(q)->getCount() && !mem.empty(), "members", "group " << q << " counts " << sp.getGroup(q)->getCount() << " members and lists " << mem.size());
    for (auto& x : mem) { bool ok = x.getLength() == l && x.getIndex() >= 0 && x.getIndex() < rows && x.getStart() >= 0 && x.getEnd() <= cols; EXPECT(ok, "members", "member (" << x.getIndex() << "," << x.getStart() << ") of length " << x.getLength() << " is not a subsequence"); char& f = seen[(size_t)x.getIndex() * (cols - l + 1) + x.getStart()]; EXPECT(!f, "members", "subsequence (" << x.getIndex() << "," << x.getStart() << ") of length " << l << " listed twice"); f = 1; total++; } }
  EXPECT(total == seen.size(), "members", total << " of " << seen.size() << " subsequences of length " << l << " of " << rows << "x" << cols << " are members");
  if (n > 1) c_.nontrivial = true; c_.sampleText = VF_STR(rows << "x" << cols << " length " << l << " groups " << n)();
}
// more groups than 16 bits count
static void countless(Ctx& c_, Src& s) {
  int cols = s.range(364, 380); Table t(1, Row(cols)); for (int i = 0; i < cols; i++) t[0][i] = (D)((i * 7919L + s.range(0, 3)) % 100003); D st = s.chance(1, 2) ? 0 : -1; c_.desc.add(hashTable(t)).add(st); c_.count("countless_groups"); auto set = makeSet(c_, t, "d.txt"); long all = (long)cols * (cols - 1) / 2;
  OnexAPI api; int id = api.loadDataset(c_.path("d.txt"), 0, 0, " ").id; int n = api.groupDataset(id, st); S f = c_.path("ga.txt"); api.saveGroup(id, f, true); std::istringstream in(slurp(f)); S w; for (int k = 0; k < 7; k++) in >> w; long listed = 0, members = 0; for (int l = 2; l <= cols; l++) { long cnt = 0, z; in >> cnt; listed += cnt; for (long q = 0; q < cnt && in >> z; q++) members += z; } EXPECT(n == listed && n == all && members == all, "count", "grouping reported " << n << " groups, the file lists " << listed << " of " << members << " members, there are " << all << " subsequences, all different");
  c_.nontrivial = true; c_.sampleText = VF_STR("1x" << cols << " threshold " << st << " groups " << n)(); unlink(f.c_str());
}
void runCase(Ctx& c_, Src& s) {
  if (s.chance(1, 2500) && !c_.fuzz) { countless(c_, s); return; }
  { bool lg = s.chance(1, 500); if (bigLits(3000) && s.chance(1, 50)) lg = true; if (lg) { longSeries(c_, s); return; } }
  int rows, cols; shape(s, rows, cols, s.chance(1, 4)); Table t; D bst = -1; bool bigc = bigCase(s, 60);
  if (bigc) { t = manyGroups(s, bst); rows = t.size(); cols = t[0].size(); }
  else { bool huge = s.chance(1, 500); if (bigLits(4000) && s.chance(1, 40)) huge = true;
    if (huge) { rows = s.range(0, 3) == 0 ? (int)s.size(4000, 140000) : s.chance(1, 2) ? (int)s.range(32760, 33500) : (int)s.range(65530, 66500); cols = 2; bigc = true; bst = 1; c_.count("huge"); t.assign(rows, Row(cols)); for (auto& r : t) for (auto& x : r) x = (D)s.range(0, 2); }
    else t = genTable(s, rows, cols); }
  auto clock = [&]() { switch (s.range(0, 4)) { case 0: setClock(CLK_CONST, s.range(0, 2000000000) * 1000000000LL, 0); break; case 1: setClock(CLK_STEP, 0, (long long)s.range(1, 30) * 1000000000LL); break; case 2: setClock(CLK_RANDOM, 0, 4000000000LL * 1000000000LL / 2, s.next()); break; case 3: setClock(CLK_BACK, 1000000000LL * 1000000000LL, (long long)s.range(1, 100000) * 1000000LL); break; default: setClock(CLK_STEP, 1500000000LL * 1000000000LL, 11000000000LL); } };
  auto set = makeSet(c_, t, "d.txt"); c_.desc.add(hashTable(t)); c_.maxi("rows", rows); c_.maxi("cols", cols);
  int times = bigc ? 1 : s.range(1, 3); S first; D firstT = 0; bool firstE = false; S hist;
  OnexAPI api; int id = api.loadDataset(c_.path("d.txt"), 0, 0, " ").id;
  for (int k = 0; k < times; k++) {
    D st = bst >= 0 ? bst : genThreshold(s); bool eu = s.chance(3, 4) || rows > 4000;
    if (!bigc) switch (s.range(0, 19)) { case 0: st = -st; break; case 1: st = INFINITY; break; case 2: st = -INFINITY; break; case 3: st = NAN; break; default: break; }
    clock(); int n = set->groupAllLengths(eu ? "euclidean" : "euclidean_dtw", st); c_.count("clock_reads", clockReads());
    EXPECT(set->isGrouped(), "flag", "not reported as grouped");
    GFile g = groupsOf(c_, *set); S e = partitionError(g, rows, cols);
    EXPECT(e.empty(), "partition", "grouping " << rows << "x" << cols << " with threshold " << st << (eu ? " euclidean" : " dtw") << " (round " << k << "): " << e << "; data " << tabText(t));
    EXPECT(n == totalGroups(g), "count", "grouping reported " << n << " groups, there are " << totalGroups(g));
    hist += VF_STR(" " << st << "->" << n)(); c_.desc.add(st).add(n);
    for (int l = 2; l <= cols; l++) { c_.count("subsequences", (u64)rows * (cols - l + 1)); if (g.byLen[l].size() > 1) for (auto& gg : g.byLen[l]) if (gg.mem.size() > 1) c_.nontrivial = true; }
    if (eu) { clock(); int n2 = api.groupDataset(id, st); S f = c_.path("ga.txt"); api.saveGroup(id, f, false); GFile ga = parseGroups(slurp(f)); e = partitionError(ga, rows, cols); EXPECT(e.empty() && n2 == totalGroups(ga), "partition-api", "OnexAPI grouping with threshold " << st << " reported " << n2 << " groups: " << e);
      auto fresh = makeSet(c_, t, "d2.txt"); clock(); int n3 = fresh->groupAllLengths("euclidean", st); GFile gf = groupsOf(c_, *fresh, "gf.txt");
      EXPECT(n3 == n && n2 == n && hashGroups(gf, false) == hashGroups(g, false) && hashGroups(ga, false) == hashGroups(g, false), "regroup", "regrouping gave other groups (" << n << ", " << n2 << ") than grouping a fresh dataset (" << n3 << ")"); }
    // the same through the per-length objects
    if (cols >= 2 && s.chance(1, 2)) { int l = s.chance(1, 3) ? cols : s.range(2, cols); LocalLengthGroupSpace sp(*set, l); clock(); int cnt = sp.generateGroups(getDistance(eu ? "euclidean" : "euclidean_dtw"), st);
      EXPECT(cnt == sp.getNumberOfGroups() && cnt == (int)g.byLen[l].size(), "count", "length " << l << ": " << cnt << " groups generated, " << sp.getNumberOfGroups() << " held, " << g.byLen[l].size() << " in the file");
      std::set<std::pair<int,int>> seen; for (int q = 0; q < cnt; q++) { const Group* gr = sp.getGroup(q); auto mem = gr->getMembers(); EXPECT((int)mem.size() == gr->getCount() && !mem.empty() && gr->getMemberLength() == l, "members", "group " << q << " of length " << l << " counts " << gr->getCount() << " members and lists " << mem.size());
        std::set<std::pair<int,int>> own; for (auto& x : mem) { EXPECT(x.getLength() == l && x.getIndex() >= 0 && x.getIndex() < rows && x.getStart() >= 0 && x.getEnd() <= cols, "members", "a member is not a subsequence of the dataset"); EXPECT(seen.insert({x.getIndex(), x.getStart()}).second, "members", "subsequence listed twice"); own.insert({x.getIndex(), x.getStart()}); }
        auto fm = g.byLen[l][q].mem; EXPECT((own == std::set<std::pair<int,int>>(fm.begin(), fm.end())), "members", "group " << q << " of length " << l << " lists other members than the group file"); }
      EXPECT((int)seen.size() == rows * (cols - l + 1), "members", seen.size() << " of " << rows * (cols - l + 1) << " subsequences of length " << l << " are members"); 
      EXPECT(refused(c_, [&] { sp.getGroup(cnt); }, "getGroup") && refused(c_, [&] { sp.getGroup(-1); }, "getGroup"), "accepted", "getGroup out of range accepted"); }
  }
  c_.sampleText = VF_STR(rows << "x" << cols << hist << " " << tabText(t))();
}
}
