// C19 answers do not depend on the history of queries
#include "groups.hpp"
#include "zygote.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of 40-160 operations, mostly matches from a small pool of queries (also by re-used query objects at class level) under changing band ratios, interleaved with regrouping, loading groups, normalising and other datasets coming and going; every answer compared with the memo of answers by (target values, groups, query values, ratio), the session snapshot compared around matches, and a fresh process that only loads the target and its groups asked the same queries; non-trivial = at least one answer was asked again after another ratio or query was in force";
static Zygote Z;
struct Ask { double ratio; Row q; };
static S one(GroupableTimeSeriesSet& set, Row q) { try { TimeSeries ts(q.data(), q.size()); auto m = set.getBestMatch(ts); return VF_STR(m.data.getIndex() << " " << m.data.getStart() << " " << m.data.getLength() << " " << m.dist)(); } catch (OnexException&) { return "refused"; } }
// request: path prefix, threshold or "-" to load the groups; answers one per line after the group text
static S fresh(const S& req) {
  std::istringstream in(req); S pre, how; int n; in >> pre >> how >> n; GroupableTimeSeriesSet set; set.loadData(pre + "d", 0, 0, " ");
  if (how == "-") set.loadGroups(pre + "g"); else set.groupAllLengths("euclidean", (data_t)strtod(how.c_str(), 0));
  S out; for (int i = 0; i < n; i++) { S r; int k; in >> r >> k; Row q(k); for (auto& x : q) { S v; in >> v; x = (D)strtod(v.c_str(), 0); } setWarpingBandRatio(strtod(r.c_str(), 0)); out += one(set, q) + "\n"; }
  set.saveGroups(pre + "o", false); return out;
}
static S hexf(double v) { char b[64]; snprintf(b, 64, "%a", v); return b; }
struct Memo { S ans; double lastRatio; };
void runCase(Ctx& c_, Src& s) {
  Z.start(fresh);
  Session x(c_, s, 0); x.maxRows = 5; x.maxCols = s.chance(1, 3) ? 16 : 9; int steps = s.steps(s.range(40, s.chance(1, 6) ? 160 : 80), 700);
  std::map<S, S> memo; std::map<S, u64> when; u64 changes = 0; std::map<S, u64> changedAt; u64 again = 0;
  auto keyOf = [&](const Table& t, const S& gt, const Row& q, double r) { Hash h; u64 th = hashTable(t); h.add(th).str(gt).add(r); for (D v : q) h.add(v); return VF_STR(h.get())(); };
  // persistent query objects for the class-level twin
  std::unique_ptr<GroupableTimeSeriesSet> twin; Table twinV; S twinG; std::vector<TimeSeries*> qo; std::vector<Row> qv;
  struct Del { std::vector<TimeSeries*>& v; ~Del() { for (auto p : v) delete p; } } del{qo};
  std::vector<Session::Q> pool; double ratio = 0.1; bool bad = false; S got; D twinST = 0; bool twinLoaded = false;
  auto judge = [&](const S& k, const S& ans, const S& what) {
    auto it = memo.find(k); if (it == memo.end()) { memo[k] = ans; changedAt[k] = changes; return; }
    c_.count("answers_repeated"); if (changedAt[k] != changes) { again++; c_.nontrivial = true; c_.count("answers_repeated_after_changes"); }
    EXPECT(it->second == ans, "history", what << " answered " << ans << " now and " << it->second << " before, with the same target, groups, query values and ratio " << ratio << "; log: " << x.log.substr(x.log.size() > 1500 ? x.log.size() - 1500 : 0));
    changedAt[k] = changes; };
  x.logging = true; x.load(); x.group(x.anyId());
  auto ansOf = [&](const MatchRes& r) { return r.refused ? S("refused") : VF_STR(r.idx << " " << r.start << " " << r.len << " " << r.dist)(); };
  auto askApi = [&](const Session::Q& q, bool close = false) {
    if (!x.m.count(q.t) || !x.m.count(q.q)) return; DS& d = x.m[q.q]; int n = d.v[0].size(); if (q.i >= (int)d.v.size() || (q.a >= 0 && q.b > n)) return;
    if (!x.m[q.t].grouped) return; bool snap = s.chance(1, 8); S before; if (snap) before = x.snapshot();
    MatchRes r = x.match(q); c_.count("matches");
    if (snap) { S after = x.snapshot(); c_.count("snapshots"); EXPECT(before == after, "side-effect", "a match changed the session:\n" << before.substr(0, 600) << "\n-- after --\n" << after.substr(0, 600)); }
    if (close || s.chance(1, 6)) { // does it look like the answer to this request? if not, a fresh process decides
      const DS& td = x.m[q.t]; Row qr = x.queryRow(q); GFile g = parseGroups(td.gtext); RefMatch ref = refBestGroups(g, qr, ratio); bool ok; c_.count("answers_cross_checked");
      if (r.refused) ok = !ref.any;
      else { ok = r.idx >= 0 && r.idx < (int)td.v.size() && r.start >= 0 && r.len >= 2 && r.start + r.len <= (int)td.v[0].size();
        if (ok) { L d = refWarped(qr, sub(td.v[r.idx], r.start, r.len), ratio); ok = near(r.dist, d, 2 * std::max<int>(qr.size(), r.len)); bool in = false; for (auto& cd : ref.cand) if (cd.first == r.len) for (auto& mm : g.byLen[cd.first][cd.second].mem) if (mm.first == r.idx && mm.second == r.start) in = true; ok = ok && in; } }
      if (!ok) { S pre = c_.path("y_"); spit(pre + "d", tableText(td.v)); spit(pre + "g", td.gtext); S req = pre + " - 1 " + hexf(ratio) + " " + std::to_string(qr.size()); for (D v : qr) req += " " + hexf(v); S ans = Z.ask(req); c_.count("suspicious_answers");
        if (ans.substr(0, 2) == "ok") { S f = ans.substr(2); f = f.substr(0, f.find('\n')); S mine = ansOf(r); S d1 = f.substr(f.rfind(' ') + 1), d2 = mine.substr(mine.rfind(' ') + 1); double e1 = strtod(d1.c_str(), 0), e2 = strtod(d2.c_str(), 0); bool same = d1 == d2 || (d1 != "refused" && d2 != "refused" && near((D)e1, (D)e2, 2 * qr.size()));
          EXPECT(same, "stale", "query " << rowText(qr) << " ratio " << ratio << " is answered " << mine << " in this session and " << f << " by a fresh process with the same target and groups; log: " << x.log.substr(x.log.size() > 1500 ? x.log.size() - 1500 : 0)); } } }
    judge(keyOf(x.m[q.t].v, x.m[q.t].gtext, x.queryRow(q), ratio), ansOf(r), VF_STR("match target " << q.t << " query " << q.q << "/" << q.i << " [" << q.a << "," << q.b << ")")()); };
  for (int k = 0; k < steps; k++) {
    int op = s.range(0, 23); if (x.m.empty()) op = 20;
    if (s.chance(1, 6) && !x.m.empty()) { // the same request again right after exactly one change
      Session::Q q = x.genQuery(); if (!x.m[q.t].grouped) x.group(q.t); int n = x.m[q.q].v[0].size(); if (n < 2) continue;
      if (x.m[q.t].v[0].size() < 2) continue;
      for (int z = s.range(1, 2); z > 0; z--) askApi(q, true);
      int ch = s.range(0, 6); c_.count("adjacent_pairs");
      switch (ch) {
        case 0: if (q.q != q.t) x.normalize(q.q); else { x.normalize(q.q); x.group(q.t); } break;
        case 1: { static const double R[] = {0, 0.1, 0.25, 0.5, 1.0}; ratio = R[s.range(0, 4)]; x.setRatio(ratio); break; }
        case 2: x.group(q.t); break;
        case 3: { // the query dataset is replaced by another of the same shape under the same id and file name
          if (q.q == q.t) break; Table t2 = x.m[q.q].v; for (auto& r2 : t2) for (auto& y : r2) y = (D)s.range(-20, 20) * (D)0.25; int old = q.q; x.unload(old); int nid = x.smallestFree(); if (nid != old) { x.load(&t2); q.q = nid; } else x.load(&t2); if (q.i >= (int)t2.size()) q.i = 0; break; }
        case 4: { // likewise the target
          Table t2 = x.m[q.t].v; for (auto& r2 : t2) for (auto& y : r2) y += (D)s.range(-8, 8) * (D)0.25; D st = x.m[q.t].st; int old = q.t; x.unload(old); int nid = x.load(&t2); x.group(nid, &st); if (q.q == old) q.q = nid; q.t = nid; break; }
        case 5: x.reloadGroups(q.t); break;
        default: { int o = x.anyId(); if (o != q.t && o != q.q) x.anyChange(o); else { int z = x.load(); x.group(z); } }
      }
      changes++; if (x.m.count(q.t) && !x.m[q.t].grouped) x.group(q.t);
      askApi(q, true); if (s.chance(1, 2)) askApi(q, true);
      while (x.m.size() > 4) x.unload();
    }
    else if (op <= 9) { if (pool.size() < 5 || s.chance(1, 5)) { Session::Q q = x.genQuery(); pool.push_back(q); if (pool.size() > 8) pool.erase(pool.begin()); } askApi(s.pick(pool)); }
    else if (op <= 12) { static const double R[] = {0, 0.1, 0.25, 0.5, 1.0}; ratio = s.chance(2, 3) ? R[s.range(0, 4)] : genRatio(s); x.setRatio(ratio); changes++; }
    else if (op <= 17) { // class level
      if (!twin || s.chance(1, 15)) { for (auto p : qo) delete p; qo.clear(); qv.clear(); twinV = genTable(s, s.range(1, 5), s.range(2, x.maxCols)); twin = makeSet(c_, twinV, "twin.txt"); twinST = x.genST(); twin->groupAllLengths("euclidean", twinST); twin->saveGroups(c_.path("tg.txt"), false); twinG = slurp(c_.path("tg.txt")); twinLoaded = false;
        for (int i = 0; i < 4; i++) { Row r = s.chance(1, 2) ? twinV[s.range(0, (long)twinV.size() - 1)] : genTable(s, 1, std::max<long>(2, twinV[0].size() + s.range(-2, 2)))[0]; if (r.size() < 2) r.resize(2); TimeSeries* t = new TimeSeries((int)r.size()); for (size_t z = 0; z < r.size(); z++) (*t)[z] = r[z]; qo.push_back(t); qv.push_back(r); } }
      int i = s.range(0, (long)qo.size() - 1); if (s.chance(1, 4)) { int n = qv[i].size(); const Row& o = twinV[s.range(0, (long)twinV.size() - 1)]; for (int cnt = s.range(1, n); cnt > 0; cnt--) { int q = s.range(0, n - 1); D y = s.chance(1, 2) ? o[std::min<long>(o.size() - 1, q)] : (D)s.range(-20, 20) * (D)0.25; (*qo[i])[q] = y; qv[i][q] = y; } changes++; c_.count("query_objects_rewritten"); }
      S a; try { auto m = twin->getBestMatch(*qo[i]); a = VF_STR(m.data.getIndex() << " " << m.data.getStart() << " " << m.data.getLength() << " " << m.dist)(); } catch (OnexException&) { a = "refused"; }
      c_.count("matches_class_level"); for (size_t z = 0; z < qv[i].size(); z++) EXPECT(sameBits((*qo[i])[z], qv[i][z]), "side-effect", "a match changed its query object");
      judge(keyOf(twinV, twinG, qv[i], ratio), a, VF_STR("match of re-used query object " << rowText(qv[i]) << " against " << tabText(twinV))());
      if (s.chance(1, 10)) { Table now = valuesOf(*twin); EXPECT(hashTable(now) == hashTable(twinV), "side-effect", "a match changed the target's values"); twin->saveGroups(c_.path("tg.txt"), false); EXPECT(slurp(c_.path("tg.txt")) == twinG, "side-effect", "a match changed the target's groups"); }
    }
    else if (op == 18) { x.group(x.anyId()); changes++; }
    else if (op == 19) { if (s.chance(1, 4)) { x.anyChange(); } else x.reloadGroups(x.anyId()); changes++; }
    else if (op <= 21) { if (x.m.size() < 4) { Table t; if (!x.m.empty() && s.chance(1, 2)) { t = x.m[x.anyId()].v; if (s.chance(1, 2)) t[0][0] += 1; x.load(&t); } else x.load(); if (s.chance(3, 4)) x.group(x.m.rbegin()->first); } else x.unload(); changes++; }
    else { int id = x.anyId(); if (!x.m[id].grouped) x.group(id); }
  }
  // a fresh process, asked in another order
  auto asking = [&](const Table& t, const S& gt, const S& how, GroupableTimeSeriesSet* live, int id) {
    S pre = c_.path("z_"); spit(pre + "d", tableText(t)); spit(pre + "g", gt); std::vector<Ask> qs; int n = s.range(3, 8);
    for (int i = 0; i < n; i++) { Ask a; a.ratio = s.chance(1, 2) ? ratio : genRatio(s); Row r = s.chance(1, 3) && !qv.empty() ? s.pick(qv) : t[s.range(0, (long)t.size() - 1)]; if (r.size() > 2 && s.chance(1, 2)) { int b = s.range(0, (long)r.size() - 2), l = s.range(2, (long)r.size() - b); r = sub(r, b, l); } if (r.size() < 2) continue; a.q = r; qs.push_back(a); }
    S req = pre + " " + how + " " + std::to_string(qs.size()); for (auto& a : qs) { req += " " + hexf(a.ratio) + " " + std::to_string(a.q.size()); for (D v : a.q) req += " " + hexf(v); }
    S ans = Z.ask(req); EXPECT(ans.substr(0, 2) == "ok", "fresh", "a fresh process failed to answer: " << ans); S og = slurp(pre + "o"); bool exact = og == gt; 
    if (how != "-") EXPECT(exact, "fresh-groups", "a fresh process grouped the same data with the same threshold differently"); c_.count(exact ? "fresh_process_exact" : "fresh_process_distance");
    std::istringstream in(ans.substr(2)); for (auto& a : qs) { S f; std::getline(in, f); setWarpingBandRatio(a.ratio); S mine;
      if (live) mine = one(*live, a.q); else { S qf = c_.path("z_q"); Table qt; qt.push_back(a.q); spit(qf, tableText(qt)); int qi = x.api.loadDataset(qf, 0, 0, " ").id; mine = ansOf(doMatch(x.api, id, qi, 0, -1, -1)); x.api.unloadDataset(qi); }
      S d1 = f.substr(f.rfind(' ') + 1), d2 = mine.substr(mine.rfind(' ') + 1); c_.count("fresh_answers");
      EXPECT(exact ? f == mine : d1 == d2, "fresh", "query " << rowText(a.q) << " ratio " << a.ratio << " is answered " << mine << " in this session and " << f << " by a fresh process with the same target " << tabText(t)); }
    setWarpingBandRatio(ratio); };
  for (auto& kv : x.m) if (kv.second.grouped && kv.second.v[0].size() >= 2 && s.chance(1, 2)) { GFile g = parseGroups(kv.second.gtext); asking(kv.second.v, kv.second.gtext, "-", nullptr, kv.first); break; }
  if (twin && s.chance(1, 2)) asking(twinV, twinG, s.chance(1, 2) ? S("-") : hexf((double)twinST), twin.get(), -1);
  setWarpingBandRatio(0.1);
}
}
