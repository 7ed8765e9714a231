// C14 members within ST/2 of the representative, representatives apart, nearest placement
#include "groups.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated dataset grouped with a non-negative threshold (zero, dyadic, exactly on distances that occur, random, huge) by either distance (one case in sixteen: two to five series of up to 600 points, some lengths only); every member, every pair of representatives and every placement decision replayed against reference distances, exactly for grid data with dyadic thresholds and within rounding otherwise; non-trivial = some group has several members and some length several groups";
void runCase(Ctx& c_, Src& s) {
  int rows, cols; shape(s, rows, cols, s.chance(1, 5)); static const int GF[] = {FL_TIES, FL_INT, FL_GRID, FL_BINARY, FL_MONO, FL_TIES, FL_GRID};
  bool grid = s.chance(1, 2); int fl = grid ? GF[s.range(0, 6)] : -1; Table t; D bst = -1; std::vector<int> lens; bool longc = s.chance(1, 16); if (!longc && bigCase(s, 40)) { t = manyGroups(s, bst, 1100); grid = true; rows = t.size(); cols = t[0].size(); c_.count("many_groups"); } else if (longc) { rows = s.range(0, 7) == 0 ? 1 : s.range(2, 5); cols = s.chance(1, 2) ? rows * s.range(62, 110) : (int)s.size(40, rows > 3 ? 350 : 600); if (cols < 12) cols = 12; int hi = s.range(2, 6); t.assign(rows, Row(cols)); if (grid) { int rep = s.range(1, 5); for (auto& r : t) { D v = 0; for (int j = 0; j < cols; j++) { if (j % rep == 0 || s.chance(1, 8)) v = (D)(s.range(0, hi) * 0.5); r[j] = v; } } } else { t = genTable(s, rows, cols, fl); }
    int nl = s.range(1, 3); for (int k = 0; k < nl; k++) { int l = s.chance(2, 3) ? s.range(2, 5) : s.chance(1, 2) ? s.range(2, 40) : cols - s.range(0, 30); l = std::max(2, std::min(l, cols)); if (std::find(lens.begin(), lens.end(), l) == lens.end()) lens.push_back(l); } }
  else t = genTable(s, rows, cols, fl);
  if (bst < 0 && !longc && s.chance(1, 3) && rows > 1) for (int i = 1; i < rows; i++) if (s.chance(1, 2)) { t[i] = t[s.range(0, i - 1)]; if (s.chance(1, 2)) t[i][s.range(0, cols - 1)] += 1; }
  D st = grid ? (D)(s.range(0, 6) == 0 ? 0 : s.range(0, s.chance(1, 2) ? 8 : 64) * 0.25) : genThreshold(s);
  if (s.chance(1, 12)) st = 0;
  if (bst >= 0) st = bst;
  bool eu = s.chance(3, 4); if (longc && !eu) { for (int& l : lens) l = std::min(l, 6); lens.resize(1); if (rows > 3) eu = true; }
  auto dist = [&](const Row& a, const Row& b) { return eu ? refEuclid(a, b) : refWarped(a, b, 0.1); };
  // threshold exactly at, just below or just above twice a distance that occurs
  if (bst < 0 && cols >= 2 && s.chance(1, 3)) { int l = longc ? lens[0] : s.range(2, cols); Row a = sub(t[s.range(0, rows - 1)], s.range(0, cols - l), l), b = sub(t[s.range(0, rows - 1)], s.range(0, cols - l), l); L d = dist(a, b); if (!std::isinf((double)d)) { L tot = eu ? d * d * l : d * 2 * l * d * 2 * l; (void)tot;
      D cand = (D)(2 * d); bool dy = cand * 64 == std::floor(cand * 64) && cand < 1000; if (!grid || dy) { st = cand; if (s.chance(1, 2)) st = (D)(st * (s.chance(1, 2) ? 1 + 1e-3 : 1 - 1e-3)); if (grid && !(st * 64 == std::floor(st * 64))) st = cand; } } }
  auto set = makeSet(c_, t, "d.txt"); GFile g;
  if (longc) { g.byLen.resize(cols + 1); c_.count("long_series"); for (int l : lens) { LocalLengthGroupSpace sp(*set, l); sp.generateGroups(getDistance(eu ? "euclidean" : "euclidean_dtw"), st); auto& G = g.byLen[l]; G.resize(sp.getNumberOfGroups()); for (size_t q = 0; q < G.size(); q++) { const TimeSeries& c = sp.getGroup(q)->getCentroid(); for (int z = 0; z < c.getLength(); z++) G[q].rep.push_back(c[z]); for (auto& m : sp.getGroup(q)->getMembers()) G[q].mem.push_back({m.getIndex(), m.getStart()}); } } }
  else if (eu && s.chance(1, 2)) { OnexAPI api; int id = api.loadDataset(c_.path("d.txt"), 0, 0, " ").id; api.groupDataset(id, st); S f = c_.path("g.txt"); api.saveGroup(id, f, false); g = parseGroups(slurp(f)); }
  else { set->groupAllLengths(eu ? "euclidean" : "euclidean_dtw", st); g = groupsOf(c_, *set); }
  c_.desc.add(hashTable(t)).add(st).add(eu); c_.maxi("rows", rows); c_.maxi("cols", cols);
  if (!longc) { S pe = partitionError(g, rows, cols); EXPECT(pe.empty(), "partition", pe); for (int l = 2; l <= cols; l++) lens.push_back(l); }
  L half = (L)st / 2; bool many = false, several = false;
  for (int l : lens) {
    auto& G = g.byLen[l]; int n = G.size(); if (n > 1) several = true;
    std::vector<int> of((size_t)rows * (cols - l + 1), -1); for (int k = 0; k < n; k++) { if (G[k].mem.size() > 1) many = true; for (auto& m : G[k].mem) { EXPECT(m.first >= 0 && m.first < rows && m.second >= 0 && m.second + l <= cols, "partition", "member (" << m.first << "," << m.second << ") of length " << l << " is not a subsequence"); of[(size_t)m.second * rows + m.first] = k; } EXPECT((int)G[k].rep.size() == l, "representative", "representative of " << G[k].rep.size() << " values in a group of length " << l); }
    for (int k : of) EXPECT(k >= 0, "partition", "a subsequence of length " << l << " is in no group");
    std::vector<int> founder(n, -1);
    auto TL = [&](L d) { return grid ? 0 : 2 * tolFor(d, l) + 2 * half * DEPS; };
    std::vector<char> live(n, 0); std::vector<int> order;
    for (size_t p = 0; p < of.size(); p++) {
      int k = of[p], idx = p % rows, start = p / rows; Row x = sub(t[idx], start, l); L best = INFINITY; int bi = -1;
      for (int q : order) { L d = dist(x, G[q].rep); if (d < best) { best = d; bi = q; } }
      c_.count("placements");
      if (founder[k] < 0) {
        founder[k] = p; live[k] = 1; order.push_back(k);
        for (int q = 0; q < l; q++) EXPECT(sameBits(G[k].rep[q], x[q]), "representative", "the representative of group " << k << " (length " << l << ") is not its first placed member (" << idx << "," << start << "): " << rowText(G[k].rep) << " vs " << rowText(x));
        EXPECT(best > half - TL(half), "apart", "subsequence (" << idx << "," << start << ") of length " << l << " founded a group although representative of group " << bi << " is at distance " << (double)best << " <= ST/2 = " << (double)half << (eu ? "" : " (dtw)"));
      } else {
        L d = dist(x, G[k].rep);
        EXPECT(d <= half + TL(half), "member", "member (" << idx << "," << start << ") of length " << l << " is at distance " << (double)d << " > ST/2 = " << (double)half << " from its representative" << (eu ? "" : " (dtw)"));
        EXPECT(d <= best + TL(best), "nearest", "subsequence (" << idx << "," << start << ") of length " << l << " was placed at distance " << (double)d << " although representative of group " << bi << " is at " << (double)best);
      }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { if (n > 120 && (i * 31 + j) % 17) continue; L d = dist(G[i].rep, G[j].rep); c_.count("rep_pairs"); if (grid) EXPECT(d > half, "apart", "representatives " << j << " and " << i << " of length " << l << " are at distance " << (double)d << " <= ST/2 = " << (double)half); else EXPECT(d > half - TL(half), "apart", "representatives " << j << " and " << i << " of length " << l << " are at distance " << (double)d << " <= ST/2 = " << (double)half); }
    // group objects
    if (!longc && s.chance(1, 6)) { LocalLengthGroupSpace sp(*set, l); sp.generateGroups(getDistance(eu ? "euclidean" : "euclidean_dtw"), st); for (int q = 0; q < sp.getNumberOfGroups(); q++) { const TimeSeries& c = sp.getGroup(q)->getCentroid(); EXPECT(c.getLength() == l, "object", "representative of length " << c.getLength() << " in a group of length " << l); Row cr(l); for (int z = 0; z < l; z++) cr[z] = c[z];
        for (auto& m : sp.getGroup(q)->getMembers()) { Row mr(l); for (int z = 0; z < l; z++) mr[z] = m[z]; EXPECT(dist(mr, cr) <= half + TL(half), "object", "group object " << q << " of length " << l << " lists a member at distance " << (double)dist(mr, cr) << " > " << (double)half); } } }
  }
  c_.nontrivial = many && several; if (grid) c_.count("exact_cases");
  c_.sampleText = VF_STR(rows << "x" << cols << " ST=" << st << (eu ? "" : " dtw") << (grid ? " exact" : "") << " groups=" << totalGroups(g) << " " << tabText(t))();
}
}
