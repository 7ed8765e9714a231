// C07 subsequence views
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated dataset and 40 requests (series, start, end) spread over valid, boundary and invalid values, point indices in and out of range, while the data are normalised, aggregated, reloaded or another dataset is asked in between, and distanceBetween queries compared with the named distance of the same two series; non-trivial = valid and refused requests both occurred";
void runCase(Ctx& c_, Src& s) {
  int rows = s.size(1, 40), cols = s.size(1, s.chance(1, 10) ? 1200 : 30); if ((long)rows * cols > 8000) rows = 8000 / cols + 1;
  Table t = genTable(s, rows, cols); S f = c_.path("d.txt"); spit(f, tableText(t));
  TimeSeriesSet two[2], *set = &two[0]; Table tables[2]; int cur = 0, pi = 0, pa = 0, pb = 1; set->loadData(f, 0, 0, " "); two[1].loadData(f, 0, 0, " "); tables[1] = t; c_.desc.add(hashTable(t)); c_.maxi("rows", rows); c_.maxi("cols", cols);
  if (s.chance(1, 3)) { if (s.chance(1, 2)) set->normalize(); else set->PAA(s.range(1, 3)); t = valuesOf(*set); cols = t[0].size(); 
    // valuesOf itself goes through views; cross-check with the saved file
    S sf = c_.path("s.txt"); set->saveData(sf, ' '); Table g; EXPECT(parseTable(slurp(sf), ' ', g) && g == t, "values", "whole-series views differ from the saved dataset"); }
  auto idx = [&](int hi) -> int { switch (s.range(0, 9)) { case 0: return -1; case 1: return hi; case 2: return hi + 1; case 3: return 0; case 4: return hi - 1; case 5: return s.chance(1, 4) ? 2147483647 : -(int)s.range(1, 2000000000); default: if (s.chance(1, 6)) return (int)((unsigned)s.range(0, std::max(0, hi)) + (1u << s.range(6, 31))); return s.range(0, std::max(0, hi)); } };   // also numbers that some narrower conversion would turn into a valid one
  bool good = false, bad = false;
  for (int k = 0; k < 40; k++) {
    bool again = false;
    if (s.chance(1, 10)) {   // the data change, or another dataset is asked
      again = s.chance(2, 3); switch (s.range(0, 4)) {
        case 0: set->normalize(); t = valuesOf(*set); break; case 1: set->PAA(s.range(1, 3)); t = valuesOf(*set); break;
        case 2: { Table n = genTable(s, s.chance(1, 2) ? rows : (int)s.range(1, 6), s.chance(1, 2) ? cols : (int)s.range(1, 9)); S f2 = c_.path("e.txt"); spit(f2, tableText(n)); set->loadData(f2, 0, 0, " "); t = n; break; }
        default: tables[cur] = t; cur = 1 - cur; set = &two[cur]; t = tables[cur]; }
      rows = t.size(); cols = t[0].size(); c_.count("changes"); S sf = c_.path("s.txt"); set->saveData(sf, ' '); Table g; EXPECT(parseTable(slurp(sf), ' ', g) && g == t, "values", "views differ from the saved dataset"); }
    int i = idx(rows), a = idx(cols), b = idx(cols + 1); if (s.chance(1, 2)) i = s.range(0, rows - 1);
    if (s.chance(1, 8)) { a = -1; b = -1; } if (s.chance(1, 10)) a = b; 
    if (again) { i = pi; a = pa; b = pb; } pi = i; pa = a; pb = b;
    bool whole = a < 0 && b < 0; bool valid = i >= 0 && i < rows && (whole || (a >= 0 && a < b && b <= cols));
    c_.desc.add(i).add(a).add(b);
    if (!valid) { bad = true;
      EXPECT(refused(c_, [&] { set->getTimeSeries(i, a, b); }, "getTimeSeries"), "accepted", "getTimeSeries(" << i << "," << a << "," << b << ") accepted on a " << rows << "x" << cols << " dataset"); continue; }
    good = true; int ws = whole ? 0 : a, we = whole ? cols : b;
    TimeSeries v = set->getTimeSeries(i, a, b);
    EXPECT(v.getLength() == we - ws && v.getIndex() == i && v.getStart() == ws && v.getEnd() == we, "header", "view of (" << i << "," << a << "," << b << ") reports index " << v.getIndex() << " [" << v.getStart() << "," << v.getEnd() << ") length " << v.getLength());
    for (int q = 0; q < we - ws; q++) EXPECT(sameBits(v[q], t[i][ws + q]), "point", "point " << q << " of view (" << i << "," << ws << "," << we << ") is " << v[q] << " instead of " << t[i][ws + q]);
    c_.count("points_compared", we - ws);
    int bi[] = {(int)((unsigned)s.range(0, we - ws - 1) + (1u << s.range(6, 31))), -1, we - ws, we - ws + 1, cols, -(int)s.range(1, 1000000), cols + 5, 2147483647, -2147483647 - 1};
    for (int x : bi) if (x < 0 || x >= we - ws) { bad = true; EXPECT(refused(c_, [&] { volatile D y = v[x]; (void)y; }, "operator[]"), "accepted", "point " << x << " of a view of length " << we - ws << " accepted"); }
    TimeSeries w(v); TimeSeries z(t[0].data(), 1); z = v;
    EXPECT(w.getIndex() == i && w.getStart() == ws && w.getLength() == we - ws && sameBits(w[0], t[i][ws]) && z.getEnd() == we && sameBits(z[we - ws - 1], t[i][we - 1]), "copy", "copy of a view differs from it");
    // distanceBetween
    int len = we - ws, i2 = s.range(0, rows - 1), l2 = s.chance(2, 3) ? len : s.range(1, cols), a2 = s.range(0, cols - l2);
    TimeSeries o = set->getTimeSeries(i2, a2, a2 + l2); Row alike, orow = sub(t[i2], a2, l2);
    if (s.chance(1, 4)) { // the same place in other data, which agree here and there
      i2 = i; a2 = ws; l2 = len; alike = t[i]; for (int e = s.range(1, 3); e > 0; e--) alike[s.range(ws, we - 1)] = genTable(s, 1, 1)[0][0]; if (s.chance(1, 3)) for (int q = ws + 1; q < we; q++) alike[q] = (D)s.range(-9, 9);
      o = TimeSeries(alike.data(), i, ws, we); orow = sub(alike, ws, len); c_.count("same_place"); }
    const char* names[] = {"euclidean", "euclidean_dtw"};
    for (const char* nm : names) {
      bool eu = nm[9] == 0;
      if (eu && len != l2) { EXPECT(refused(c_, [&] { set->distanceBetween(i, ws, len, o, nm); }, "distanceBetween"), "accepted", "euclidean distance of lengths " << len << " and " << l2 << " accepted"); continue; }
      if (!eu && (long)len * l2 > 40000) continue;
      D got = set->distanceBetween(i, ws, len, o, nm);
      Row ra = sub(t[i], ws, len), rb = orow;
      L want = eu ? refEuclid(ra, rb) : refWarped(ra, rb, 0.1);
      EXPECT(near(got, want, 2 * std::max(len, l2)), "distance", "distanceBetween(" << i << "," << ws << "," << len << ") " << nm << " = " << got << " instead of " << (double)want);
      D direct = getDistance(nm)(v, o, INF); EXPECT(eqv(direct, got), "distance", "distanceBetween differs from the named distance: " << got << " vs " << direct);
      c_.count("distances_compared");
    }
    for (int z = 0; z < 6; z++) {       // any (series, start, length)
      auto num = [&](int hi) -> int { switch (s.range(0, 8)) { case 0: return -1; case 1: return hi; case 2: return hi + 1; case 3: return 0; case 4: return 2147483647 - (int)s.range(0, 3); case 5: return -(int)s.range(1, 2147483647); case 6: return (int)s.range(2147483000, 2147483647); default: return s.range(0, hi); } };
      int qi = s.chance(1, 4) ? num(rows) : (int)s.range(0, rows - 1), qs = num(cols), ql = num(cols); if (s.chance(1, 5)) ql = cols - (s.range(0, cols)); if (s.chance(1, 4)) ql = len; if (s.chance(1, 8)) qs = ql = -1;
      bool ok = qi >= 0 && qi < rows && qs >= 0 && ql >= 1 && (long)qs + ql <= cols; bool warp = s.chance(1, 2) && (long)len * (ok ? ql : 1) <= 40000;
      if (ok) { if (!warp && ql != l2) { EXPECT(refused(c_, [&] { set->distanceBetween(qi, qs, ql, o, "euclidean"); }, "distanceBetween"), "accepted", "euclidean distance of lengths " << ql << " and " << l2 << " accepted"); continue; }
        if (warp && (long)ql * l2 > 40000) continue;
        D got = set->distanceBetween(qi, qs, ql, o, warp ? "euclidean_dtw" : "euclidean"); Row ra = sub(t[qi], qs, ql), rb = orow; L want = warp ? refWarped(ra, rb, 0.1) : refEuclid(ra, rb);
        EXPECT(near(got, want, 2 * std::max(ql, l2)), "distance", "distanceBetween(" << qi << "," << qs << "," << ql << ") = " << got << " instead of " << (double)want); }
      else { bad = true; EXPECT(refused(c_, [&] { set->distanceBetween(qi, qs, ql, o, warp ? "euclidean_dtw" : "euclidean"); }, "distanceBetween"), "accepted", "distanceBetween(" << qi << "," << qs << "," << ql << ") accepted on a " << rows << "x" << cols << " dataset"); }
    }
    S un = unknownDistance(s); for (int k = s.range(1, 2); k > 0; k--) EXPECT(refused(c_, [&] { set->distanceBetween(i, ws, len, o, un); }, "distanceBetween"), "accepted", "unknown distance accepted");
    EXPECT(refused(c_, [&] { set->distanceBetween(i, ws, cols - ws + 1, o, "euclidean_dtw"); }, "distanceBetween"), "accepted", "distanceBetween beyond the end accepted");
  }
  c_.nontrivial = good && bad;
  c_.sampleText = VF_STR(rows << "x" << cols << " " << tabText(t))();
}
}
