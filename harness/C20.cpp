// C20 invalid requests are refused without side effects
#include "session.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of 6-40 valid operations; between them batches of invalid requests (ids not loaded: negative, freed, past the end, extreme; series and ranges outside; ungrouped target; query of one point; no comparable length; block size below 1; negative or NaN ratio; unknown distance); each must raise the library's error, and the session snapshot (registry, values, flags, groups, band sizes) and the answers to fixed queries must be as before; non-trivial = a batch was tried with a grouped dataset loaded";
void runCase(Ctx& c_, Src& s) {
  Session x(c_, s, J_REG); x.maxRows = 4; x.maxCols = 8; std::vector<int> freed; x.logging = true;
  std::unique_ptr<GroupableTimeSeriesSet> set; Table setV;
  auto bands = [&] { S o; for (int n : {1, 2, 3, 7, 10, 64, 100, 1000}) o += std::to_string(calculateWarpingBandSize(n)) + ","; return o; };
  auto answers = [&] { S o = bands(); for (auto& kv : x.m) if (kv.second.grouped && kv.second.v[0].size() >= 2) { for (int i = 0; i < std::min<int>(2, kv.second.v.size()); i++) { o += show(doMatch(x.api, kv.first, kv.first, i, -1, -1)) + ";"; o += show(doMatch(x.api, kv.first, kv.first, i, 0, 2)) + ";"; } } return o; };
  auto badId = [&]() -> int { for (int k = 0; k < 20; k++) { long v; switch (s.range(0, 5)) { case 0: v = -s.range(1, 3); break; case 1: v = (x.m.empty() ? 0 : x.m.rbegin()->first + 1) + s.range(0, 2); break; case 2: v = s.pick(std::vector<long>{2147483647L, -2147483648L, 1000000, 65536}); break; case 3: v = x.smallestFree(); break; default: if (freed.empty()) continue; v = s.pick(freed); } if (!x.m.count((int)v)) return (int)v; } return -1; };
  auto badRatio = [&]() -> double { return s.pick(std::vector<double>{-0.1, -1, -1e-9, -1e300, -INFINITY, NAN, -NAN, -0.5, -1e-300, -100}); };
  auto badIdx = [&](int n) -> int { return s.pick(std::vector<int>{-1, -2, n, n + 1, 2147483647, (int)-2147483648LL, n + 7, -n}); };
  // a range outside 0..n (a pair of negative positions means the whole series and is not one)
  auto badRange = [&](int n, int& a, int& b) { switch (s.range(0, 8)) { case 0: a = 0; b = n + 1; break; case 1: a = n; b = n + 1; break; case 2: a = s.range(0, n); b = a; break; case 3: b = s.range(0, n); a = b + s.range(0, 3); break; case 4: a = -1; b = s.range(0, n); break; case 5: a = s.range(0, n - 1); b = -1; break; case 6: a = 0; b = 2147483647; break; case 7: a = 2147483647; b = 2147483647; break; default: a = s.range(0, n - 1); b = (int)-2147483648LL; } };
  auto attempt = [&](const S& what, const std::function<void()>& f) {
    S sb = x.snapshot(), ab = answers(); bool ref = refused(c_, f, what); c_.count("invalid_requests"); c_.count("invalid: " + what.substr(0, what.find(' ')));
    EXPECT(ref, "accepted", what << " was accepted; session: " << x.log.substr(x.log.size() > 800 ? x.log.size() - 800 : 0));
    S sa = x.snapshot(), aa = answers();
    EXPECT(sa == sb, "side-effect", what << " was refused but changed the session:\n" << sb.substr(0, 700) << "\n-- after --\n" << sa.substr(0, 700));
    EXPECT(aa == ab, "side-effect", what << " was refused but changed the answers or band sizes:\n" << ab.substr(0, 500) << "\n-- after --\n" << aa.substr(0, 500));
    for (auto& kv : x.m) if (kv.second.grouped) c_.nontrivial = true; };
  auto batch = [&](int k) { for (; k > 0; k--) {
    int op = s.range(0, 21); int b = badId(), ra = 0, rb = 0; S f = x.file("bad_out.txt"); c_.desc.add(op).add(b);
    int g = x.m.empty() ? -1 : x.anyId(); int rows = g < 0 ? 0 : x.m[g].v.size(), cols = g < 0 ? 0 : x.m[g].v[0].size();
    switch (op) {
      case 0: attempt(VF_STR("getDatasetInfo " << b)(), [&] { x.api.getDatasetInfo(b); }); break;
      case 1: attempt(VF_STR("unloadDataset " << b)(), [&] { x.api.unloadDataset(b); }); break;
      case 2: attempt(VF_STR("saveDataset " << b)(), [&] { x.api.saveDataset(b, f, ' '); }); break;
      case 3: attempt(VF_STR("normalizeDataset " << b)(), [&] { x.api.normalizeDataset(b); }); break;
      case 4: attempt(VF_STR("groupDataset " << b)(), [&] { x.api.groupDataset(b, (D)0.5); }); break;
      case 5: attempt(VF_STR("saveGroup " << b)(), [&] { x.api.saveGroup(b, f, s.chance(1, 2)); }); break;
      case 6: { S gf = f; if (g >= 0 && x.m[g].grouped) { gf = x.file("g_ok.txt"); spit(gf, x.m[g].gtext); } attempt(VF_STR("loadGroup " << b)(), [&] { x.api.loadGroup(b, gf); }); break; }
      case 7: attempt(VF_STR("PAA " << b << " (dataset not loaded)")(), [&] { x.api.PAA(b, 2); }); break;
      case 8: { int n = s.pick(std::vector<int>{0, -1, -2, -1000, (int)-2147483648LL}); if (g < 0) break; attempt(VF_STR("PAA " << g << " with block size " << n)(), [&] { x.api.PAA(g, n); }); break; }
      case 9: case 10: { double r = badRatio(); attempt(VF_STR("setWarpingBandRatio " << r)(), [&] { x.api.setWarpingBandRatio(r); }); break; }
      case 11: { int q = g < 0 ? b : g; attempt(VF_STR("getBestMatch target " << b << " query " << q)(), [&] { x.api.getBestMatch(b, q, 0, -1, -1); }); break; }
      case 12: if (g < 0) break; attempt(VF_STR("getBestMatch target " << g << " query dataset " << b)(), [&] { x.api.getBestMatch(g, b, 0, -1, -1); }); break;
      case 13: case 14: { if (g < 0) break; int t = x.anyId(), i = badIdx(rows); attempt(VF_STR("getBestMatch series " << i << " of dataset " << g << " with " << rows << " series")(), [&] { x.api.getBestMatch(t, g, i, s.chance(1, 2) ? -1 : 0, s.chance(1, 2) ? -1 : cols); }); break; }
      case 15: case 16: { if (g < 0) break; int t = x.anyId(); badRange(cols, ra, rb); if (ra < 0 && rb < 0) break; attempt(VF_STR("getBestMatch range [" << ra << "," << rb << ") of series of length " << cols)(), [&] { x.api.getBestMatch(t, g, s.range(0, rows - 1), ra, rb); }); break; }
      case 17: { for (auto& kv : x.m) if (!kv.second.grouped) { int id = kv.first, q = g; attempt(VF_STR("getBestMatch ungrouped target " << id)(), [&] { x.api.getBestMatch(id, q, 0, -1, -1); }); attempt(VF_STR("saveGroup ungrouped " << id)(), [&] { x.api.saveGroup(id, f, s.chance(1, 2)); }); break; } break; }
      case 18: { if (g < 0) break; int t = x.anyId(), i = s.range(0, rows - 1), a = s.range(0, cols - 1); attempt(VF_STR("getBestMatch one-point query [" << a << "," << a + 1 << ")")(), [&] { x.api.getBestMatch(t, g, i, a, a + 1); }); break; }
      case 19: { // no length of the target within the band
        for (auto& t : x.m) for (auto& q : x.m) { int n = q.second.v[0].size(), L0 = t.second.v[0].size(); if (n < 2 || !t.second.grouped) continue; bool any = false; for (int l = 2; l <= L0; l++) if (std::abs(l - n) <= refBand(std::max(l, n), x.ratio)) any = true; if (any) continue; int ti = t.first, qi = q.first; c_.count("no_comparable_length"); attempt(VF_STR("getBestMatch incomparable query of " << n << " points in target of " << L0 << " ratio " << x.ratio)(), [&] { x.api.getBestMatch(ti, qi, 0, -1, -1); }); goto out; } out: break; }
      case 20: { if (!set) { setV = genTable(s, s.range(1, 4), s.range(2, 7)); S sf = x.file("set.txt"); spit(sf, tableText(setV)); set.reset(new GroupableTimeSeriesSet()); set->loadData(sf, 0, 0, " "); if (s.chance(2, 3)) set->groupAllLengths("euclidean", x.genST()); }
        auto st = [&] { S o = VF_STR(set->isGrouped() << set->isNormalized() << set->getItemCount() << "x" << set->getItemLength())(); u64 h = hashTable(valuesOf(*set)); o += std::to_string(h); if (set->isGrouped()) { set->saveGroups(f, false); o += slurp(f); Row q = setV[0]; TimeSeries ts(q.data(), q.size()); auto mm = set->getBestMatch(ts); o += VF_STR(mm.data.getIndex() << "," << mm.data.getStart() << "," << mm.data.getLength() << "," << mm.dist)(); } return o; };
        S before = st(); int n = setV[0].size(), m0 = setV.size(); Row orow = setV[0]; TimeSeries other(orow.data(), n); S what; static const char* UN[] = {"", "manhattan", "Euclidean", "euclid", "euclidean_", "dtw", "euclidean_dtw ", "EUCLIDEAN"};
        if (s.chance(1, 4)) {     // a set object that holds no data: never loaded, cleared, or left empty by a failed load
          GroupableTimeSeriesSet e; int hist = s.range(0, 2); if (hist) { e.loadData(x.file("set.txt"), 0, 0, " "); if (s.chance(1, 2)) e.groupAllLengths("euclidean", x.genST()); if (hist == 1) e.clearData(); else refused(c_, [&] { e.loadData(x.file("missing.txt"), 0, 0, " "); }, "reload of a missing file"); }
          S gf = x.file("g_set.txt"); int o = s.range(0, 8); static const char* GT[] = {"1 0.5 0 0\n2 1\neuclidean\n", "0 0.5\neuclidean\n", "", "0 0.5 0 0\n2 0\neuclidean\n"}; S gi = x.file("g_empty.txt"); spit(gi, GT[s.range(0, 3)]); if (s.chance(1, 3)) { GroupableTimeSeriesSet h; h.loadData(x.file("set.txt"), 0, 0, " "); h.groupAllLengths("euclidean", x.genST()); h.saveGroups(gi, false); } S w = VF_STR("operation " << o << " on a set object without data (history " << hist << ")")(); int bs = s.range(1, 4);
          bool r2 = refused(c_, [&] { switch (o) { case 0: e.normalize(); break; case 1: case 2: e.PAA(bs); break; case 3: e.groupAllLengths("euclidean", (D)0.5); break; case 4: { Row q = setV[0]; TimeSeries ts(q.data(), q.size()); e.getBestMatch(ts); break; } case 5: e.loadGroups(gi); break; case 6: e.saveData(gf, ' '); break; default: s.chance(1, 2) ? e.saveGroups(gf, false) : (void)e.getTimeSeries(0); } }, w);
          c_.count("invalid_requests_class_level"); EXPECT(r2, "accepted", w << " was accepted"); EXPECT(!e.isLoaded() && !e.isGrouped() && e.getItemCount() == 0 && e.getItemLength() == 0, "side-effect", w << " was refused but left a set of " << e.getItemCount() << "x" << e.getItemLength() << " loaded=" << e.isLoaded() << " grouped=" << e.isGrouped()); }
        bool ref; switch (s.range(0, 5)) { case 0: case 1: { S un = unknownDistance(s); what = "grouping by unknown distance '" + un + "'"; ref = refused(c_, [&] { set->groupAllLengths(un, (D)0.5); }, what); break; }
          case 2: { S un = unknownDistance(s); what = "distanceBetween with unknown distance '" + un + "'"; ref = refused(c_, [&] { set->distanceBetween(0, 0, n, other, un); }, what); break; }
          case 3: { int i = badIdx(m0); what = VF_STR("getTimeSeries " << i << " of " << m0)(); ref = refused(c_, [&] { set->getTimeSeries(i); }, what); break; }
          case 4: { badRange(n, ra, rb); if (ra < 0 && rb < 0) { ref = true; break; } what = VF_STR("getTimeSeries [" << ra << "," << rb << ") of length " << n)(); ref = refused(c_, [&] { set->getTimeSeries(0, ra, rb); }, what); break; }
          default: { int bs = -(int)s.range(0, 3); what = VF_STR("PAA " << bs)(); ref = refused(c_, [&] { set->PAA(bs); }, what); } }
        c_.count("invalid_requests_class_level"); EXPECT(ref, "accepted", what << " was accepted"); S after = st(); EXPECT(after == before, "side-effect", what << " was refused but changed the set:\n" << before.substr(0, 500) << "\n-- after --\n" << after.substr(0, 500)); break; }
      default: { S mf = x.file("missing.txt"); attempt("loadDataset missing file", [&] { x.api.loadDataset(mf, 0, 0, " "); }); if (g >= 0) attempt("loadGroup missing file", [&] { x.api.loadGroup(g, mf); }); }
    } } };
  if (s.chance(1, 4)) batch(s.range(1, 6));
  int steps = s.steps(s.range(6, s.chance(1, 8) ? 40 : 18), 300);
  for (int k = 0; k < steps; k++) {
    int op = s.range(0, 11);
    if (x.m.empty() || (op <= 1 && x.m.size() < 4)) x.load();
    else if (op <= 2) { int id = x.anyId(); x.unload(id); freed.push_back(id); if (freed.size() > 4) freed.erase(freed.begin()); }
    else if (op <= 6) x.group(x.anyId());
    else if (op == 7) x.setRatio(genRatio(s));
    else if (op == 8) x.anyChange();
    else x.match(x.genQuery());
    if (s.chance(2, 3)) batch(s.range(1, 4));
  }
  batch(6); setWarpingBandRatio(0.1);
}
}
