// C15 saving and loading groups restores the index
#include "groups.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a dataset (raw, normalised or aggregated) grouped with any threshold by either distance, its full and size-only group files parsed against the documented form, loaded into a dataset with the same values (fresh, already grouped, or itself), saved again one to three times, group order, members, representatives' bits, counts and match distances compared; non-trivial = more than one group and a value needing more than 6 digits";
static bool sameST(D a, D b) { return sameBits(a, b) || (std::isnan(a) && std::isnan(b)); }
void runCase(Ctx& c_, Src& s) {
  int rows, cols; shape(s, rows, cols, s.chance(1, 6)); Table t; D st = genThreshold(s); if (bigCase(s, 80)) { t = manyGroups(s, st, 900); rows = t.size(); cols = t[0].size(); } else t = genTable(s, rows, cols); const bool longSeries = s.chance(1, 80); if (longSeries) { rows = 1; cols = s.range(129, 260); t.assign(rows, Row(cols)); for (auto& r : t) for (auto& x : r) x = (D)s.real(-1, 1); st = (D)s.real(2, 40); c_.count("long_series"); } if (!longSeries && s.chance(1, 10)) st = -st; if (!longSeries && s.chance(1, 14)) st = (D)s.pick(std::vector<double>{INFINITY, NAN, -INFINITY, 1e308, 5e-324, -0.0}); bool eu = longSeries || s.chance(3, 4);
  auto a = makeSet(c_, t, "d.txt"); switch (s.range(0, 5)) { case 0: a->normalize(); break; case 1: if (!longSeries) a->PAA(s.range(1, cols)); break; default: break; }
  Table v = valuesOf(*a); rows = v.size(); cols = v[0].size(); bool digits = false; for (auto& r : v) for (D x : r) { char b[40]; snprintf(b, 40, "%.6g", (double)x); if ((D)strtod(b, 0) != x) digits = true; }
  const char* dn = eu ? "euclidean" : "euclidean_dtw"; setWarpingBandRatio(0.1); int n = a->groupAllLengths(dn, st);
  S f1 = c_.path("g1.txt"), f2 = c_.path("g2.txt"), fz = c_.path("gz.txt"); if (s.chance(1, 3)) { spit(f1, S(100000, '7')); spit(f2, S(100000, '7')); }
  a->saveGroups(f1, false); a->saveGroups(fz, true); S t1 = slurp(f1); GFile g = parseGroups(t1);
  c_.desc.add(hashTable(v)).add(st).add(eu); c_.maxi("rows", rows); c_.maxi("cols", cols); c_.nontrivial = digits && n > 1;
  EXPECT(g.ok && g.version == 1 && g.items == rows && g.len == cols && g.from == 2 && g.dist == dn && sameST(g.st, st), "header", "group file header or form wrong: parsed " << g.ok << " version " << g.version << " ST " << g.st << " (is " << st << ") shape " << g.items << "x" << g.len << " distance '" << g.dist << "': " << t1.substr(0, 200));
  S pe = partitionError(g, rows, cols); EXPECT(pe.empty(), "form", pe); EXPECT(totalGroups(g) == n, "count", totalGroups(g) << " groups in the file, " << n << " in memory");
  for (int l = 2; l <= cols; l++) for (auto& gg : g.byLen[l]) { bool isMem = false; for (auto& m : gg.mem) { bool same = true; for (int q = 0; q < l && same; q++) same = sameBits(gg.rep[q], v[m.first][m.second + q]); if (same) { isMem = true; break; } } EXPECT(isMem, "representative", "representative of a group of length " << l << " in the file is not one of its members: " << rowText(gg.rep)); }
  { std::istringstream in(slurp(fz)); int ver, it, le, fr, to; D z; S d; bool ok = (bool)(in >> ver) && readNum(in, z) && (bool)(in >> it >> le >> fr >> to >> d); EXPECT(ok && ver == 1 && sameST(z, st) && it == rows && le == cols && fr == 2 && d == dn, "size-file", "size-only file header wrong: " << slurp(fz).substr(0, 200));
    for (int l = 2; l <= cols; l++) { long k = -1; in >> k; EXPECT(k == (long)g.byLen[l].size(), "size-file", "size-only file lists " << k << " groups of length " << l << " instead of " << g.byLen[l].size()); for (auto& gg : g.byLen[l]) { long c = -1; in >> c; EXPECT(c == (long)gg.mem.size(), "size-file", "size-only file lists " << c << " members instead of " << gg.mem.size()); } }
    S rest; EXPECT(!(in >> rest), "size-file", "size-only file has trailing content '" << rest << "'"); }
  // queries answered before
  std::vector<Row> qs; int nq = longSeries ? 0 : 4; for (int q = 0; q < nq; q++) { Row r = v[s.range(0, rows - 1)]; if (r.size() > 2 && s.chance(2, 3)) { int x = s.range(0, (long)r.size() - 2); r = sub(r, x, s.range(2, (long)r.size() - x)); } if (s.chance(1, 2)) for (auto& x : r) x += (D)(s.range(-2, 2) * 0.25); qs.push_back(r); }
  double ratio = genRatio(s); setWarpingBandRatio(ratio);
  auto ask = [&](GroupableTimeSeriesSet& x, Row& q, bool& ref) -> D { D d = 0; TimeSeries ts(q.data(), q.size()); try { d = x.getBestMatch(ts).dist; ref = false; } catch (OnexException&) { ref = true; } return d; };
  std::vector<D> ans; std::vector<bool> refs; for (auto& q : qs) { bool r; ans.push_back(ask(*a, q, r)); refs.push_back(r); }
  // load: into a fresh twin, an already grouped twin, or the dataset itself
  std::unique_ptr<GroupableTimeSeriesSet> twin = makeSet(c_, v, "twin.txt"); int how = longSeries ? 0 : s.range(0, 2); GroupableTimeSeriesSet* b = how == 2 ? a.get() : twin.get(); if (how == 1) b->groupAllLengths(s.chance(1, 2) ? "euclidean" : "euclidean_dtw", genThreshold(s));
  int cycles = longSeries ? 1 : s.range(1, 3); S src = f1, dst = f2;
  for (int k = 0; k < cycles; k++) {
    int m = b->loadGroups(src); EXPECT(m == n && b->isGrouped(), "count", "loading reported " << m << " groups instead of " << n);
    b->saveGroups(dst, false); GFile h = parseGroups(slurp(dst));
    EXPECT(h.ok && h.items == g.items && h.len == g.len && h.dist == g.dist && sameST(h.st, g.st) && h.from == g.from && h.to == g.to && h.version == g.version, "header", "header changed by a load/save cycle: ST " << g.st << " -> " << h.st << ", distance " << g.dist << " -> " << h.dist);
    for (int l = 2; l <= cols; l++) { EXPECT(h.byLen[l].size() == g.byLen[l].size(), "groups", "length " << l << ": " << h.byLen[l].size() << " groups after loading instead of " << g.byLen[l].size());
      for (size_t q = 0; q < g.byLen[l].size(); q++) { auto x = g.byLen[l][q].mem, y = h.byLen[l][q].mem; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); EXPECT(x == y, "groups", "group " << q << " of length " << l << " has other members after loading");
        for (int z = 0; z < l; z++) EXPECT(sameBits(g.byLen[l][q].rep[z], h.byLen[l][q].rep[z]), "representative", "point " << z << " of representative " << q << " of length " << l << " changed from " << g.byLen[l][q].rep[z] << " to " << h.byLen[l][q].rep[z]); } }
    c_.count("cycles");
    for (int q = 0; q < nq; q++) { bool r; D d = ask(*b, qs[q], r); EXPECT(r == refs[q] && (r || near(d, ans[q], 2 * std::max<size_t>(cols, qs[q].size()))), "match", "a query (" << rowText(qs[q]) << ", ratio " << ratio << ") matched at " << (refs[q] ? -1 : ans[q]) << " before and " << (r ? -1 : d) << " after loading the groups"); c_.count("matches_compared"); }
    b->saveGroups(fz, true); std::swap(src, dst);
  }
  // through the API, also the count it reports
  if (eu) { OnexAPI api; int id = api.loadDataset(c_.path("twin.txt"), 0, 0, " ").id; int m = api.loadGroup(id, src); S f3 = c_.path("g3.txt"); api.saveGroup(id, f3, false); EXPECT(m == n && hashGroups(parseGroups(slurp(f3)), false) == hashGroups(g, false) && api.getDatasetInfo(id).isGrouped, "api", "OnexAPI load/save of groups differs"); EXPECT(valuesOf(*b) == v, "values", "values changed"); }
  setWarpingBandRatio(0.1);
  c_.sampleText = VF_STR(rows << "x" << cols << " ST=" << st << " groups=" << n << " cycles=" << cycles << " " << tabText(v))();
}
}
