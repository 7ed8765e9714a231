// A random session of OnexAPI operations next to a model of what it must hold.
// What is judged depends on the property: see the J_* flags.
#pragma once
#include "model.hpp"
#include <memory>

namespace vf {
enum { J_REG = 1,      // registry: count, ids, names, shapes, flags agree with the model
       J_ISO = 2,      // values and groups of datasets an operation does not name stay bit-identical
       J_IDS = 4,      // a new dataset gets the smallest free id
       J_STALE = 8,    // data-changing operations discard the groups
       J_ALL = 15 };

struct MatchRes { bool refused = false; int idx = -1, start = -1, len = -1; D dist = 0; };
inline bool operator==(const MatchRes& a, const MatchRes& b) { return a.refused == b.refused && (a.refused || (a.idx == b.idx && a.start == b.start && a.len == b.len && eqv(a.dist, b.dist))); }
inline S show(const MatchRes& m) { return m.refused ? S("refused") : VF_STR("series " << m.idx << " start " << m.start << " length " << m.len << " distance " << m.dist)(); }

struct DS { S name; Table v; bool norm = false, grouped = false; D st = 0; S gtext; };

inline MatchRes doMatch(onex::OnexAPI& api, int target, int q, int idx, int start, int end) {
  MatchRes r;
  try { onex::candidate_time_series_t b = api.getBestMatch(target, q, idx, start, end); r.idx = b.data.getIndex(); r.start = b.data.getStart(); r.len = b.data.getLength(); r.dist = b.dist; }
  catch (onex::OnexException&) { r.refused = true; }
  return r;
}

struct Session {
  Ctx& c_; Src& s; onex::OnexAPI api; std::map<int, DS> m; int judge; int fileNo = 0; double ratio = 0.1; S tag; S log;
  int maxRows = 5, maxCols = 9; bool finite = true; bool logging = false;
  Session(Ctx& c, Src& s_, int j = J_ALL, const S& tag_ = "") : c_(c), s(s_), judge(j), tag(tag_) { onex::setWarpingBandRatio(0.1); }
  S file(const S& n) { return c_.path(tag + n); }
  void note(const S& x) { c_.desc.str(x); if (logging) log += x + "\n"; if (c_.sampleText.size() < 500) c_.sampleText += x + "; "; }
  int anyId() { auto it = m.begin(); std::advance(it, s.range(0, (long)m.size() - 1)); return it->first; }
  int smallestFree() { int i = 0; while (m.count(i)) i++; return i; }
  S saved(int id) { S f = file("_sv.txt"); api.saveDataset(id, f, ' '); return slurp(f); }
  S savedGroups(int id) { S f = file("_sg.txt"); api.saveGroup(id, f, false); return slurp(f); }

  // ---- reading the session back through the API only
  void resync(int id) {          // take the target's own new state as given
    DS& d = m[id]; onex::dataset_info_t i = api.getDatasetInfo(id);
    Table t; EXPECT(parseTable(saved(id), ' ', t), "saved-file", "saved dataset unreadable"); d.v = t;
    d.norm = i.isNormalized; d.grouped = i.isGrouped; d.gtext = d.grouped ? savedGroups(id) : "";
    if (judge & J_REG) EXPECT(i.id == id && i.name == d.name && i.itemCount == (int)t.size() && i.itemLength == (int)(t.empty() ? 0 : t[0].size()), "info", "dataset " << id << " reported as id " << i.id << " '" << i.name << "' " << i.itemCount << "x" << i.itemLength << " but holds " << t.size() << "x" << (t.empty() ? 0 : t[0].size()));
  }
  void verifyAll() {
    if (judge & J_REG) {
      EXPECT(api.getDatasetCount() == (int)m.size(), "count", "getDatasetCount says " << api.getDatasetCount() << ", " << m.size() << " are loaded");
      auto all = api.getAllDatasetInfo(); EXPECT(all.size() == m.size(), "count", "getAllDatasetInfo lists " << all.size() << " of " << m.size() << " datasets");
      size_t k = 0; for (auto& kv : m) { const DS& d = kv.second;
        auto chk = [&](const onex::dataset_info_t& i, const char* via) {
          EXPECT(i.id == kv.first && i.name == d.name && i.itemCount == (int)d.v.size() && i.itemLength == (int)d.v[0].size() && i.isGrouped == d.grouped && i.isNormalized == d.norm, "info",
                 via << " reports id " << i.id << " '" << i.name << "' " << i.itemCount << "x" << i.itemLength << " grouped " << i.isGrouped << " normalised " << i.isNormalized << " where dataset " << kv.first << " is '" << d.name << "' " << d.v.size() << "x" << d.v[0].size() << " grouped " << d.grouped << " normalised " << d.norm); };
        bool found = false; for (auto& i : all) if (i.id == kv.first) { found = true; chk(i, "getAllDatasetInfo"); }
        EXPECT(found, "info", "dataset " << kv.first << " missing from getAllDatasetInfo"); chk(api.getDatasetInfo(kv.first), "getDatasetInfo"); k++; }
      for (int id = -1; id < (m.empty() ? 2 : m.rbegin()->first + 3); id++) if (!m.count(id)) EXPECT(refused(c_, [&] { api.getDatasetInfo(id); }, "getDatasetInfo"), "ghost", "information returned for dataset " << id << " which is not loaded");
    }
    if (judge & J_ISO) for (auto& kv : m) {
      Table t; EXPECT(parseTable(saved(kv.first), ' ', t), "saved-file", "saved dataset unreadable");
      EXPECT(t.size() == kv.second.v.size() && hashTable(t) == hashTable(kv.second.v), "values", "values of dataset " << kv.first << " changed without an operation on it: " << tabText(t) << " instead of " << tabText(kv.second.v));
      if (kv.second.grouped) { S g = savedGroups(kv.first); EXPECT(g == kv.second.gtext, "groups", "groups of dataset " << kv.first << " changed without an operation on it"); }
      else if (api.getDatasetInfo(kv.first).isGrouped == false) EXPECT(refused(c_, [&] { savedGroups(kv.first); }, "saveGroup"), "groups", "dataset " << kv.first << " is not grouped but saving its groups works");
    }
  }
  S snapshot() {
    S o = "count " + std::to_string(api.getDatasetCount()) + " ratio " + std::to_string(onex::calculateWarpingBandSize(100000)) + "\n";
    for (auto& i : api.getAllDatasetInfo()) { o += VF_STR(i.id << " '" << i.name << "' " << i.itemCount << "x" << i.itemLength << " g" << i.isGrouped << " n" << i.isNormalized << "\n")(); o += saved(i.id); if (i.isGrouped) o += savedGroups(i.id); }
    return o;
  }

  // ---- operations
  Table newTable() { int fl = s.range(0, FL_N - 1); if (fl == FL_MIX) fl = FL_UNI; return genTable(s, s.range(1, maxRows), s.range(1, maxCols), fl); }
  int load(const Table* given = nullptr) {
    Table t = given ? *given : newTable();
    S f = file("ds" + std::to_string(fileNo++ % 7) + ".txt"); int skip = 0, limit = 0; Table raw = t;
    if (!given && s.chance(1, 4)) { skip = 1; for (auto& r : raw) r.insert(r.begin(), (D)9); }
    if (!given && s.chance(1, 4)) { limit = raw.size(); raw.push_back(raw[0]); }
    S sep = s.chance(1, 4) ? "," : " "; spit(f, tableText(raw, sep));
    int want = smallestFree(); onex::dataset_info_t i = api.loadDataset(f, limit, skip, sep);
    note("load " + std::to_string(t.size()) + "x" + std::to_string(t[0].size()) + " -> " + std::to_string(i.id)); c_.count("op_load");
    if (judge & J_IDS) EXPECT(i.id == want, "id", "new dataset got id " << i.id << ", the smallest free id is " << want);
    EXPECT(!m.count(i.id), "id", "new dataset got id " << i.id << " which is in use");
    DS d; d.name = f; d.v = t; m[i.id] = d;
    if (judge & J_REG) EXPECT(i.name == f && i.itemCount == (int)t.size() && i.itemLength == (int)t[0].size() && !i.isGrouped && !i.isNormalized, "info", "loadDataset reports '" << i.name << "' " << i.itemCount << "x" << i.itemLength << " flags " << i.isGrouped << i.isNormalized << " for '" << f << "' " << t.size() << "x" << t[0].size());
    else resync(i.id);
    return i.id;
  }
  void unload(int id = -1) { if (m.empty()) return; if (id < 0) id = anyId(); api.unloadDataset(id); m.erase(id); note("unload " + std::to_string(id)); c_.count("op_unload"); }
  void unloadAll() { api.unloadAllDataset(); m.clear(); note("unloadAll"); c_.count("op_unloadAll"); }
  void afterChange(int id, const char* what, bool norm) {
    bool wasGrouped = m[id].grouped, wasNorm = m[id].norm; resync(id); DS& d = m[id];
    if (judge & J_STALE) { EXPECT(!d.grouped, "stale", what << " left dataset " << id << " reported as grouped"); 
      EXPECT(refused(c_, [&] { savedGroups(id); }, "saveGroup"), "stale", "groups of dataset " << id << " can be saved after " << what << " without grouping again");
      EXPECT(doMatch(api, id, id, 0, -1, -1).refused, "stale", "dataset " << id << " answers a match after " << what << " without grouping again"); 
      if (wasGrouped) c_.count("groups_discarded"); }
    if (judge & J_REG) EXPECT(d.norm == (norm || wasNorm), "info", "normalised flag of dataset " << id << " is " << d.norm << " after " << what);
  }
  void normalize(int id) { api.normalizeDataset(id); note("normalize " + std::to_string(id)); c_.count("op_normalize"); afterChange(id, "normalising", true); }
  void paa(int id, int n = -1) { if (n < 0) n = s.chance(1, 3) ? 1 : s.range(1, (long)m[id].v[0].size() + 1); onex::dataset_info_t i = api.PAA(id, n); note("paa " + std::to_string(id) + " " + std::to_string(n)); c_.count("op_paa"); afterChange(id, "PAA", false);
    if (judge & J_REG) EXPECT(i.id == id && i.itemLength == (int)m[id].v[0].size() && i.itemCount == (int)m[id].v.size(), "info", "PAA reports id " << i.id << " " << i.itemCount << "x" << i.itemLength); }
  D genST() { if (!NEWFLITS.empty() && s.chance(1, 4)) return (D)std::fabs(specialReal(s, 1)); switch (s.range(0, 5)) { case 0: return 0; case 1: return (D)(s.range(0, 16) * 0.25); case 2: return (D)s.real(0, 2); case 3: return 1e6; case 4: return (D)0.5; default: return (D)0.2; } }
  int group(int id, const D* st = nullptr) { D t = st ? *st : genST(); int k = api.groupDataset(id, t); note("group " + std::to_string(id) + " " + num(t) + " -> " + std::to_string(k)); c_.count("op_group"); DS& d = m[id]; d.st = t; d.grouped = true; d.gtext = savedGroups(id); return k; }
  // save the groups and load them into the same dataset again, or into one of the same shape
  void reloadGroups(int id) { DS& d = m[id]; if (!d.grouped) return; S f = file("grp.txt"); api.saveGroup(id, f, false); int to = id; std::vector<int> ok; for (auto& kv : m) if (kv.second.v.size() == d.v.size() && kv.second.v[0].size() == d.v[0].size()) ok.push_back(kv.first); to = s.pick(ok);
    int k = api.loadGroup(to, f); note("loadGroup " + std::to_string(id) + "->" + std::to_string(to) + " = " + std::to_string(k)); c_.count("op_loadGroup"); m[to].grouped = true; m[to].st = d.st; m[to].gtext = savedGroups(to); }
  void setRatio(double r) { api.setWarpingBandRatio(r); ratio = r; note("ratio " + std::to_string(r)); c_.count("op_ratio"); }
  struct Q { int t, q, i, a, b; };
  Q genQuery(int target = -1) { Q x; x.t = target < 0 ? anyId() : target; x.q = s.chance(1, 2) ? x.t : anyId(); const DS& d = m[x.q]; x.i = s.range(0, (long)d.v.size() - 1); int n = d.v[0].size(); if (s.chance(1, 4) || n < 3) { x.a = x.b = -1; } else { x.a = s.range(0, n - 2); x.b = s.range(x.a + 2, n); } return x; }
  Row queryRow(const Q& x) { const Row& r = m[x.q].v[x.i]; if (x.a < 0 && x.b < 0) return r; return sub(r, x.a, x.b - x.a); }
  MatchRes match(const Q& x) { MatchRes r = doMatch(api, x.t, x.q, x.i, x.a, x.b); note(VF_STR("match " << x.t << " " << x.q << " " << x.i << " [" << x.a << "," << x.b << ") -> " << show(r))()); c_.count(r.refused ? "op_match_refused" : "op_match"); return r; }
  void anyChange(int id = -1) { if (m.empty()) return; if (id < 0) id = anyId(); switch (s.range(0, 3)) { case 0: normalize(id); break; case 1: paa(id); break; case 2: group(id); break; default: if (m[id].grouped) reloadGroups(id); else group(id); } }
};
} // namespace vf
