// C17 + C18 matches: real subsequence, true distance, as good as the index promises
#include "groups.hpp"
using namespace onex;
#ifndef WHICH
#define WHICH 17
#endif
namespace vf {
const char* RULE = "one case = a target dataset whose groups were computed (any threshold, either distance), loaded, or written by hand (random partition with free representatives), up to 12 queries from the same or another dataset (whole, partial, shifted, noisy, shorter and longer than the target) under changing band ratios, each answer judged against an exhaustive search over the group file; rarely one group of up to 66 050 windows; non-trivial = the band admits several lengths or several groups";
static void oneBigGroup(Ctx& c_, Src& s) {   // every window of the target in one group: the nearest of all of them has to be found
  int rows = s.pick(std::vector<int>{900, 2100, 5000, 12000, 34000, 66000}) + (int)s.range(0, 50); Table t(rows, Row(2)); for (auto& r : t) for (auto& x : r) x = (D)s.real(-8, 8);
  OnexAPI api; S ft = c_.path("t.txt"), fq = c_.path("q.txt"); setWarpingBandRatio(0.1); Table q(5, Row(2)); for (auto& r : q) for (auto& x : r) x = (D)s.real(-8, 8);
  spit(ft, tableText(t)); spit(fq, tableText(q)); api.loadDataset(ft, 0, 0, " "); api.loadDataset(fq, 0, 0, " "); int gs = api.groupDataset(0, (D)4096); EXPECT(gs == 1, "groups", gs << " groups for windows all within the threshold"); c_.desc.add(hashTable(t)); c_.maxi("rows", rows);
  for (int k = 0; k < 6; k++) { bool self = s.chance(1, 2); int i = self ? (s.chance(1, 2) ? s.range(0, rows - 1) : s.pick(std::vector<int>{0, rows - 1, rows / 2})) : s.range(0, 4); const Row& r = self ? t[i] : q[i]; candidate_time_series_t b = api.getBestMatch(0, self ? 0 : 1, i, -1, -1); int w = b.data.getIndex(); c_.count("big_group_matches"); c_.nontrivial = true;
    EXPECT(w >= 0 && w < rows && b.data.getLength() == 2 && b.data.getStart() == 0, "position", "match series " << w << " of " << rows); L d = refWarped(r, t[w], 0.1); EXPECT(near(b.dist, d, 4), "distance", "match series " << w << " is reported at " << b.dist << " but its warped distance is " << (double)d << " (" << rows << " rows of 2)"); for (int z = 0; z < 2; z++) EXPECT(sameBits(b.data[z], t[w][z]), "values", "point " << z << " of the returned match");
#if WHICH == 18
    L best = INFINITY; int at = -1; for (int x = 0; x < rows; x++) { L y = refWarped(r, t[x], 0.1); if (y < best) { best = y; at = x; } } EXPECT(d <= best + 2 * tolFor(best, 4), "member", "match series " << w << " is at " << (double)d << " while its group has series " << at << " at " << (double)best << " (one group of " << rows << " windows)");
#endif
  }
  c_.sampleText = VF_STR("one group of " << rows << " windows")();
}
void runCase(Ctx& c_, Src& s) {
  if (bigCase(s, 150)) { oneBigGroup(c_, s); return; }
  int rows, cols; if (s.chance(1, 10)) shape(s, rows, cols, true); else { rows = s.range(1, 6); cols = s.range(2, 16); }
  Table t; D bst = -1; if (bigCase(s, 80)) { t = manyGroups(s, bst, 900); rows = t.size(); cols = t[0].size(); } else t = genTable(s, rows, cols); if (bst < 0 && s.chance(1, 4)) for (auto& r : t) if (s.chance(1, 2)) r = t[0];
  D st = bst >= 0 ? bst : genThreshold(s); bool eu = s.chance(3, 4); setWarpingBandRatio(0.1);
  OnexAPI api; S ft = c_.path("t.txt"), fq = c_.path("q.txt"), fg = c_.path("g.txt"), sv = c_.path("sv.txt"); spit(ft, tableText(t)); 
  Table q = genTable(s, s.range(1, 4), s.chance(1, 3) ? s.range(2, 30) : std::max(2L, cols + s.range(-3, 3)));
  for (auto& r : q) if (s.chance(1, 2)) { const Row& b = t[s.range(0, rows - 1)]; int sh = s.range(-2, 2); for (size_t i = 0; i < r.size(); i++) r[i] = b[std::min<long>(b.size() - 1, std::max(0L, (long)i + sh))] + (s.chance(1, 4) ? (D)(s.range(-2, 2) * 0.25) : (D)0); }
  if (s.chance(1, 8)) { D off = (D)s.pick(std::vector<double>{1e3, -1e6, 0.001}); for (auto& r : q) for (auto& x : r) x += off; }
  spit(fq, tableText(q));
  int T, Q; if (s.chance(1, 2)) { T = api.loadDataset(ft, 0, 0, " ").id; Q = api.loadDataset(fq, 0, 0, " ").id; } else { Q = api.loadDataset(fq, 0, 0, " ").id; T = api.loadDataset(ft, 0, 0, " ").id; }
  switch (s.range(0, 7)) { case 0: api.normalizeDataset(T); if (s.chance(1, 2)) api.normalizeDataset(Q); break; case 1: if (cols > 4) api.PAA(T, 2); break; default: break; }
  api.saveDataset(T, sv, ' '); parseTable(slurp(sv), ' ', t); api.saveDataset(Q, sv, ' '); parseTable(slurp(sv), ' ', q); rows = t.size(); cols = t[0].size(); if (cols < 2) throw CaseSkipped();
  int how = bst >= 0 ? s.range(0, 2) : s.range(0, 4); bool computed = false;
  if (how <= 1) { api.groupDataset(T, st); computed = true; eu = true; }
  else if (how == 2) { auto o = makeSet(c_, t, "twin.txt"); o->groupAllLengths(eu ? "euclidean" : "euclidean_dtw", st); o->saveGroups(fg, false); api.loadGroup(T, fg); computed = true; }
  else { // written by hand: random partition, free representatives
    std::ostringstream o; o.precision(SP ? 9 : 17); o << "1 " << num(st) << " " << rows << " " << cols << "\n2 " << cols + 1 << "\neuclidean\n"; bool meanRep = s.chance(1, 2);
    for (int l = 2; l <= cols; l++) { std::vector<std::vector<std::pair<int,int>>> G(s.range(1, 5)); for (int i = 0; i < rows; i++) for (int a = 0; a + l <= cols; a++) G[s.range(0, (long)G.size() - 1)].push_back({i, a}); G.erase(std::remove_if(G.begin(), G.end(), [](const std::vector<std::pair<int,int>>& v) { return v.empty(); }), G.end()); o << G.size() << "\n";
      for (auto& m : G) { Row rep(l, (D)0); if (meanRep) { for (auto& x : m) for (int z = 0; z < l; z++) rep[z] += t[x.first][x.second + z]; for (auto& x : rep) x /= m.size(); } else for (auto& x : rep) x = (D)s.real(-3, 3); for (D x : rep) o << num(x) << " "; o << "\n" << m.size() << " "; for (auto& x : m) o << x.first << " " << x.second << " "; o << "\n"; } }
    spit(fg, o.str()); api.loadGroup(T, fg); c_.count("hand_written_indexes"); }
  api.saveGroup(T, fg, false); GFile g = parseGroups(slurp(fg)); S pe = partitionError(g, rows, cols); EXPECT(pe.empty(), "index", pe);
  c_.desc.add(hashTable(t)).add(hashTable(q)).add(st).add(how); c_.maxi("rows", rows); c_.maxi("cols", cols); S hist;
  double ratio = 0.1; int nq = s.range(3, 12);
  for (int k = 0; k < nq; k++) {
    if (s.chance(1, 2)) { ratio = genRatio(s); api.setWarpingBandRatio(ratio); }
    bool self = s.chance(1, 2); const Table& from = self ? t : q; int qi = s.range(0, (long)from.size() - 1), n = from[0].size(), a = -1, b = -1; if (n < 2) continue; if (s.chance(2, 3)) { int len = s.range(2, n); a = s.range(0, n - len); b = a + len; }
    Row qr = a < 0 ? from[qi] : sub(from[qi], a, b - a); int ql = qr.size();
    RefMatch ref = refBestGroups(g, qr, ratio); std::set<int> lens; for (int l = 2; l <= cols; l++) if (admissible(ql, l, ratio)) { lens.insert(l); if (lens.size() > 1 || g.byLen[l].size() > 1) c_.nontrivial = true; }
    auto where = [&]() { return VF_STR("query " << (self ? "(own) " : "") << qi << " [" << a << "," << b << ") " << rowText(qr) << " ratio " << ratio << " target " << rows << "x" << cols << " ST " << st << " " << tabText(t))(); };
    try {
      candidate_time_series_t best = api.getBestMatch(T, self ? T : Q, qi, a, b); const TimeSeries& m = best.data; c_.count("matches");
      int L0 = m.getLength(); hist = VF_STR("series " << m.getIndex() << " [" << m.getStart() << "," << m.getEnd() << ") at " << best.dist)();
      bool real = m.getIndex() >= 0 && m.getIndex() < rows && L0 >= 2 && m.getStart() >= 0 && m.getEnd() <= cols && m.getEnd() - m.getStart() == L0;
#if WHICH == 17
      EXPECT(real, "position", "match series " << m.getIndex() << " [" << m.getStart() << "," << m.getEnd() << ") length " << L0 << " does not exist: " << where());
      for (int z = 0; z < L0; z++) EXPECT(sameBits(m[z], t[m.getIndex()][m.getStart() + z]), "values", "point " << z << " of the returned match is " << m[z] << " instead of " << t[m.getIndex()][m.getStart() + z] << ": " << where());
      EXPECT(admissible(ql, L0, ratio), "band", "match of length " << L0 << " for a query of length " << ql << ": " << where());
      L d = refWarped(qr, sub(t[m.getIndex()], m.getStart(), L0), ratio);
      EXPECT(std::isfinite(best.dist) && near(best.dist, d, 2 * std::max(ql, L0)), "distance", "match " << hist << " is reported at " << best.dist << " but its warped distance is " << (double)d << ": " << where());
      candidate_time_series_t own(TimeSeries(0), 0); if (s.chance(1, 2)) { own = best; EXPECT(own.data.getStart() == m.getStart() && own.dist == best.dist, "copy", "copied match differs"); }
#else
      if (!real) continue;    // C17's business
      EXPECT(ref.any, "refused", "a match was returned although no length is admissible: " << where());
      // its group
      int grp = -1; for (size_t q2 = 0; q2 < g.byLen[L0].size() && grp < 0; q2++) for (auto& x : g.byLen[L0][q2].mem) if (x.first == m.getIndex() && x.second == m.getStart()) { grp = q2; break; }
      bool cand = false; for (auto& x : ref.cand) if (x.first == L0 && x.second == grp) cand = true;
      EXPECT(cand, "group", "match " << hist << " comes from group " << grp << " of length " << L0 << " whose representative is at " << (double)refWarped(qr, g.byLen[L0][grp].rep, ratio) << " while the closest of all is at " << (double)ref.bestRep << ": " << where());
      L bm = INFINITY; for (auto& x : g.byLen[L0][grp].mem) bm = std::min(bm, refWarped(qr, sub(t[x.first], x.second, L0), ratio)); L d = refWarped(qr, sub(t[m.getIndex()], m.getStart(), L0), ratio);
      EXPECT(d <= bm + 2 * tolFor(bm, 2 * std::max(ql, L0)), "member", "match " << hist << " is at " << (double)d << " while its group has a member at " << (double)bm << ": " << where());
      c_.count("groups_searched", ref.cand.size());
      if (computed && eu && st >= 0) { bool contained = false; for (auto& r : t) for (int z = 0; z + ql <= cols && !contained; z++) contained = std::equal(qr.begin(), qr.end(), r.begin() + z);
        if (contained) { L bound = (L)st / (4 * sqrtl(ql)); c_.count("contained_queries"); EXPECT((L)best.dist <= bound * (1 + 1e-9L) + (SP ? 1e-5L : 1e-12L) * bound + (st == 0 ? 0 : TINY), "bound", "contained query matched at " << best.dist << " beyond ST/(4 sqrt(n)) = " << (double)bound << ": " << where());
          if (st == 0) EXPECT(best.dist == 0, "bound", "contained query matched at " << best.dist << " with ST=0: " << where()); } }
#endif
    } catch (OnexException& e) { EXPECT(!ref.any, "refused", "no match although lengths are admissible (" << e.what() << "): " << where()); c_.count("refused_queries"); }
    c_.desc.add(qi).add(a).add(b).add(ratio);
  }
  setWarpingBandRatio(0.1);
  c_.sampleText = VF_STR("target " << rows << "x" << cols << " ST=" << st << " index " << how << " groups " << totalGroups(g) << " last match " << hist << " " << tabText(t))();
}
}
