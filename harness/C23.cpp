// C23 no memory error, undefined behaviour, crash, hang or leak in any session (sanitizers decide)
#include "groups.hpp"
#include "heap.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "GlobalGroupSpace.hpp"
#include "lib/trillionDTW.h"
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of up to 40 operations with valid and invalid arguments on well-formed, malformed and random files (API level, set level, series level, the bundled search), run under AddressSanitizer and UBSan, three times over with the live heap compared; non-trivial = at least one operation succeeded and one was refused";
struct Fz {
  Ctx& c_; Src s; S base; u64 okN = 0, refN = 0; Hash h;
  Fz(Ctx& c, const Src& s_) : c_(c), s(s_) {}
  int wildInt() { static const long W[] = {0, 1, -1, 2, 3, -2, 5, 7, 10, 64, 1000, 65536, 2147483647L, -2147483648L, 2147483646L, 1073741824L, -1000}; return s.chance(1, 2) ? (int)W[s.range(0, 16)] : (int)s.range(-3, 12); }
  double wildReal() { static const double W[] = {0, 1, -1, 0.5, 1e300, -1e300, 1e-300, INFINITY, -INFINITY, NAN, 0.1, 1e9, 2, 100, -0.0, 5e-324, 1e38, 3e38}; return s.chance(1, 2) ? W[s.range(0, 17)] : s.real(-2, 3); }
  S token() { static const char* W[] = {"nan", "inf", "-inf", "1e400", "-1e-400", "1e-320", "x", "0x1p3", "+5", "1,5", ".5", "5.", "-", "e", "1e", "NaN(7)", "infinity", "1e308", "-1.7e308", "0", "-0", "00012", "1_0", "\"3\"", "1e+5", "  "}; if (s.chance(1, 6)) return W[s.range(0, 25)]; return num((D)s.real(-5, 5)); }
  S fileText() {
    switch (s.range(0, 9)) {
      case 0: { S o; int n = s.range(0, 60); for (int i = 0; i < n; i++) o += (char)s.range(0, 255); return o; }
      case 1: { S o; int r = s.range(0, 4); for (int i = 0; i < r; i++) { int c = s.range(0, 5); for (int j = 0; j < c; j++) o += token() + (s.chance(1, 5) ? "," : " "); o += s.chance(1, 8) ? "\r\n" : "\n"; } return o; }
      case 2: return s.chance(1, 2) ? "" : "\n\n\n";
      case 3: { Table t = genTable(s, s.range(1, 4), s.range(1, 8)); S o = tableText(t); if (o.size() > 2) o.resize(s.range(1, o.size())); return o; }
      case 4: { int r = s.range(1, 4), c = s.range(1, 6); S o; for (int i = 0; i < r; i++) { for (int j = 0; j < c; j++) o += token() + " "; o += "\n"; } return o; }
      default: return tableText(genTable(s, s.range(1, s.chance(1, 6) ? 12 : 5), s.range(1, s.chance(1, 6) ? 24 : 9)), s.chance(1, 4) ? "," : " "); }
  }
  S aFile(const S& n) { S f = c_.path(n); switch (s.range(0, 19)) { case 0: return c_.path("no_such_file"); case 1: return c_.tmp; case 2: return ""; case 3: return c_.path("no_dir/x"); default: return f; } }
  template <class F> bool tryOp(F f) { try { f(); okN++; h.add(1); return true; } catch (OnexException&) { refN++; h.add(2); return false; } }
  void groupText(const S& good, const S& out) { S t = slurp(good); if (t.size() > 200000) t.resize(200000); switch (s.range(0, 5)) { case 0: t.resize(s.range(0, t.size())); break; case 1: case 2: for (int k = s.range(1, 4); k > 0 && !t.empty(); k--) { size_t p = s.range(0, (long)t.size() - 1); t[p] = "0123456789 -\n.eE+x"[s.range(0, 17)]; } break; case 3: { if (t.empty()) break; size_t p = s.range(0, (long)t.size() - 1); size_t b = t.find_first_of(" \n", p); if (b == S::npos) break; size_t e = t.find_first_of(" \n", b + 1); t.replace(b + 1, e == S::npos ? S::npos : e - b - 1, s.chance(1, 2) ? std::to_string(wildInt()) : token()); break; } case 4: { size_t p = s.range(0, t.size()); t.insert(p, fileText()); break; } default: break; } spit(out, t); }
  void touch(const candidate_time_series_t& m) { volatile double z = m.dist; for (int i = 0; i < m.data.getLength(); i++) z = m.data[i]; (void)z; candidate_time_series_t a = m, b; b = a; if (a < b && b < a) h.add(3); S id = m.data.getIdentifierString(); }
  void api() {
    OnexAPI api; int steps = s.steps(s.range(3, 25), 200); int made = 0; S good = c_.path("good_groups");  spit(good, "1 0.5 1 2\n2 3\neuclidean\n1\n0 0 \n1 0 0\n");
    auto id = [&]() -> int { return s.chance(1, 8) ? wildInt() : (int)s.range(0, made ? made - 1 : 0); };
    for (int k = 0; k < steps; k++) switch (k == 0 ? 0 : s.range(0, 17)) {
      case 0: case 1: case 2: { S f = aFile("in"); if (f == c_.path("in")) spit(f, fileText()); S sep = s.chance(3, 4) ? S(" ") : s.chance(1, 2) ? S(", \t") : s.chance(1, 2) ? S("") : S("0x"); int mx = s.chance(3, 4) ? 0 : wildInt(), sc = s.chance(3, 4) ? 0 : wildInt(); if (tryOp([&] { api.loadDataset(f, mx, sc, sep); })) made++; if (made > 6) made = 6; break; }
      case 3: { S f = aFile("out"); int i = id(); char sp = s.chance(3, 4) ? ' ' : (char)s.range(0, 255); tryOp([&] { api.saveDataset(i, f, sp); }); break; }
      case 4: if (s.chance(1, 2)) { int i = id(); tryOp([&] { api.unloadDataset(i); }); } else if (s.chance(1, 6)) { api.unloadAllDataset(); made = 0; } break;
      case 5: { int i = id(); tryOp([&] { api.normalizeDataset(i); }); break; }
      case 6: { int i = id(), n = s.chance(1, 2) ? (int)s.range(1, 5) : wildInt(); tryOp([&] { api.PAA(i, n); }); break; }
      case 7: case 8: case 9: { int i = id(); D t = (D)(s.chance(2, 3) ? s.real(0, 2) : wildReal()); if (s.chance(1, 4)) setClock(CLK_STEP, 0, 20000000000LL); tryOp([&] { api.groupDataset(i, t); }); break; }
      case 10: { int i = id(); S f = s.chance(3, 4) ? good : aFile("g"); bool so = s.chance(1, 5); tryOp([&] { api.saveGroup(i, f, so); }); break; }
      case 11: case 12: { int i = id(); S f = s.chance(1, 4) ? good : aFile("bad"); if (f == c_.path("bad")) groupText(good, f); tryOp([&] { api.loadGroup(i, f); }); break; }
      case 13: { double r = s.chance(1, 2) ? genRatio(s) : wildReal(); tryOp([&] { api.setWarpingBandRatio(r); }); break; }
      case 14: case 15: case 16: { int t = id(), q = id(), i = s.chance(3, 4) ? (int)s.range(0, 3) : wildInt(), a = s.chance(1, 3) ? -1 : s.chance(3, 4) ? (int)s.range(0, 4) : wildInt(), b = a == -1 && s.chance(3, 4) ? -1 : s.chance(3, 4) ? (int)s.range(2, 9) : wildInt(); tryOp([&] { touch(api.getBestMatch(t, q, i, a, b)); }); break; }
      default: { int i = id(); tryOp([&] { api.getDatasetInfo(i); }); api.getAllDatasetInfo(); api.getDatasetCount(); }
    }
    setWarpingBandRatio(0.1); setClock(CLK_CONST, 1000, 0);
  }
  void sets() {
    std::unique_ptr<GroupableTimeSeriesSet> a(new GroupableTimeSeriesSet()), b(new GroupableTimeSeriesSet()); int steps = s.steps(s.range(2, 14), 150); S f = c_.path("set_in"), g = c_.path("set_groups"), bad = c_.path("set_bad"); spit(g, "");
    for (int k = 0; k < steps; k++) { GroupableTimeSeriesSet& x = s.chance(3, 4) ? *a : *b; switch (k == 0 && s.chance(3, 4) ? 0 : s.range(0, 12)) {
      case 0: case 1: spit(f, s.chance(2, 3) ? tableText(genTable(s, s.range(1, 5), s.range(1, 9))) : fileText()); tryOp([&] { x.loadData(f, s.chance(3, 4) ? 0 : wildInt(), s.chance(3, 4) ? 0 : wildInt(), " "); }); break;
      case 2: tryOp([&] { x.normalize(); }); break;
      case 3: { int n = s.chance(2, 3) ? (int)s.range(1, 4) : wildInt(); tryOp([&] { x.PAA(n); }); break; }
      case 4: case 5: { S d = s.chance(3, 4) ? "euclidean" : s.chance(1, 2) ? "euclidean_dtw" : "no_such"; D t = (D)(s.chance(2, 3) ? s.real(0, 2) : wildReal()); tryOp([&] { x.groupAllLengths(d, t); }); break; }
      case 6: tryOp([&] { x.saveGroups(g, s.chance(1, 6)); }); break;
      case 7: if (s.chance(1, 4)) { S o = c_.path("set_out"); tryOp([&] { x.saveData(o, s.chance(1, 2) ? ' ' : (char)s.range(0, 255)); }); break; } groupText(g, bad); tryOp([&] { x.loadGroups(s.chance(1, 3) ? g : bad); }); break;
      case 8: if (s.chance(1, 3)) x.clearData(); else if (s.chance(1, 2)) { (s.chance(1, 2) ? a : b).reset(new GroupableTimeSeriesSet()); } break;
      case 9: { if (s.chance(1, 12)) { TimeSeries e(0); tryOp([&] { touch(x.getBestMatch(e)); }); tryOp([&] { x.distanceBetween(0, 0, 0, e, "euclidean"); }); break; } Row q(s.range(1, 12)); genRow(s, q, s.range(0, FL_N - 1), Table()); TimeSeries ts(q.data(), q.size()); tryOp([&] { touch(x.getBestMatch(ts)); }); break; }
      case 10: { Row q(s.range(1, 9)); for (auto& v : q) v = (D)wildReal(); TimeSeries ts(q.data(), q.size()); int i = s.chance(3, 4) ? (int)s.range(0, 3) : wildInt(), st = (int)s.range(-2, 9), ln = (int)s.range(-2, 12); S d = s.chance(2, 3) ? "euclidean" : "euclidean_dtw"; tryOp([&] { x.distanceBetween(i, st, ln, ts, d); }); break; }
      case 11: { int i = s.chance(3, 4) ? (int)s.range(0, 3) : wildInt(), p = wildInt(), e = wildInt(); tryOp([&] { TimeSeries t = x.getTimeSeries(i, p, e); volatile double z = 0; for (int j = 0; j < t.getLength(); j++) z = t[j]; (void)z; t[wildInt()]; }); break; }
      default: if (x.getItemLength() >= 2 && x.getItemCount() > 0) { int l = s.range(2, x.getItemLength()); LocalLengthGroupSpace sp(x, l); D t = (D)s.real(0, 2); sp.generateGroups(getDistance("euclidean"), t); tryOp([&] { const Group* gr = sp.getGroup((int)s.range(-1, 4)); auto m = gr->getMembers(); TimeSeries c = gr->getCentroid(); if (!m.empty()) c += m[0].getLength() == c.getLength() ? TimeSeries(c) : c; }); }
    } }
  }
  void series() {
    std::vector<std::unique_ptr<TimeSeries>> p; std::vector<Row> backing; backing.reserve(16); int steps = s.steps(s.range(4, 40), 400);
    auto fresh = [&]() -> TimeSeries* { if (s.chance(1, 25)) { if (s.chance(1, 2) || backing.empty()) return new TimeSeries(0); Row& r = backing[0]; int a = s.range(0, r.size()); return new TimeSeries(r.data(), 1, a, a); } if (s.chance(1, 2)) { int n = s.range(1, 12); TimeSeries* t = new TimeSeries(n); for (int i = 0; i < n; i++) (*t)[i] = (D)(s.chance(1, 10) ? wildReal() : s.real(-3, 3)); return t; } if (backing.size() < 16) { Row r(s.range(1, 14)); for (auto& v : r) v = (D)s.real(-3, 3); backing.push_back(r); } Row& r = backing[s.range(0, (long)backing.size() - 1)]; if (s.chance(1, 2)) return new TimeSeries(r.data(), r.size()); int a = s.range(0, (long)r.size() - 1); return new TimeSeries(r.data(), (int)s.range(0, 5), a, (int)s.range(a + 1, r.size())); };
    for (int i = 0; i < 3; i++) p.emplace_back(fresh());
    static const dist_t D_[] = {pairwiseDistance, warpedDistance, cascadeDistance, keoghLowerBound, crossKeoghLowerBound, kimLowerBound};
    for (int k = 0; k < steps; k++) { int i = s.range(0, (long)p.size() - 1), j = s.range(0, (long)p.size() - 1); switch (s.range(0, 11)) {
      case 0: if (p.size() < 10) p.emplace_back(fresh()); break;
      case 1: if (p.size() < 10) p.emplace_back(new TimeSeries(*p[i])); break;
      case 2: *p[i] = *p[j]; break;
      case 3: { TimeSeries t(*p[j]); *p[i] = std::move(t); if (s.chance(1, 3)) { TimeSeries u(t); u = t; tryOp([&] { t += u; *p[i] += t; }); tryOp([&] { D_[s.range(0, 5)](t, *p[i], INF); }); tryOp([&] { volatile D z = t[0]; (void)z; }); t.getKeoghUpper(2); if (s.chance(1, 2)) t = *p[i]; u = std::move(t); t = std::move(u); p.push_back(std::unique_ptr<TimeSeries>(new TimeSeries(t))); if (p.size() > 10) p.pop_back(); } break; }
      case 4: if (p.size() > 3) p.erase(p.begin() + i); break;
      case 5: tryOp([&] { *p[i] += *p[j]; }); break;
      case 6: tryOp([&] { (*p[i])[wildInt()] = 1; }); break;
      case 7: { int w = s.chance(3, 4) ? (int)s.range(0, 14) : s.pick(std::vector<int>{100, 100000, 2147483647}); const data_t* u = p[i]->getKeoghUpper(w); const data_t* l = p[i]->getKeoghLower(w); volatile double z = 0; for (int q = 0; q < p[i]->getLength(); q++) z = u[q] - l[q]; (void)z; break; }
      case 8: case 9: case 10: { D d = (D)(s.chance(1, 2) ? INFINITY : wildReal()); tryOp([&] { setWarpingBandRatio(genRatio(s)); D_[s.range(0, 5)](*p[i], *p[j], d); }); break; }
      default: { std::vector<candidate_time_series_t> v; for (auto& t : p) v.push_back(candidate_time_series_t(*t, (D)s.range(0, 2))); std::sort(v.begin(), v.end()); std::ostringstream o; p[i]->printData(o); p[i]->getIdentifierString(); } } }
    setWarpingBandRatio(0.1);
  }
  // unusable arguments and files end the program, which must not do anything else wrong: run in a child
  void hostileSearch() {
    int m = s.chance(1, 2) ? s.range(1, 20) : s.chance(1, 12) ? s.range(99990, 130000) : s.range(-2, 60), n = s.chance(1, 4) ? s.range(0, std::max(0, m)) : std::max(0, m) + s.range(0, 100), r = s.chance(1, 2) ? s.range(-1, 70) : s.pick(std::vector<int>{2147483647, 1000000, -5}); if (m > 1000 && r > 3) r = 3; S d, q;
    auto junk = [&](S& o, int k) { o.reserve(k * 4); for (int i = 0; i < k; i++) o += std::to_string(s.range(0, 9)) + (s.chance(1, 9) ? "\n" : " "); if (s.chance(1, 3)) { size_t p = s.range(0, o.size()); o.insert(p, s.chance(1, 2) ? token() : fileText()); } if (s.chance(1, 8)) o.clear(); };
    junk(d, n); junk(q, s.chance(1, 5) ? s.range(0, std::max(0, m)) : std::max(0, m)); S fd = s.chance(1, 10) ? aFile("sd") : c_.path("sd"), fq = s.chance(1, 10) ? aFile("sq") : c_.path("sq"); spit(c_.path("sd"), d); spit(c_.path("sq"), q);
    fflush(nullptr); pid_t p = fork(); if (p == 0) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); atexit([] { _exit(1); }); alarm(60); calculate(fd.c_str(), fq.c_str(), m, r); _exit(0); }
    int st = 0; waitpid(p, &st, 0); c_.count("hostile_searches"); bool fine = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1); if (fine && WEXITSTATUS(st) == 0) okN++; else refN++; h.add(st);
    EXPECT(fine, "search-crash", "the bundled search for " << m << " points with band " << r << " ended with wait status " << st << (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? " (did not end)" : "") << "; data " << d.substr(0, 200) << " query " << q.substr(0, 200)); }
  void search() {
    if (s.chance(1, 3)) { hostileSearch(); return; }
#ifndef SINGLE_PRECISION
    int m = s.range(2, 20), n = m + s.range(0, 200), r = s.range(0, m - 1); S d, q; for (int i = 0; i < n; i++) d += num((D)s.real(-3, 3)) + (s.chance(1, 9) ? "\n" : " "); for (int i = 0; i < m; i++) q += num((D)(s.chance(1, 20) ? 0 : s.real(-3, 3))) + " "; S fd = c_.path("sd"), fq = c_.path("sq"); spit(fd, d); spit(fq, q); calculate(fd.c_str(), fq.c_str(), m, r); okN++;
#endif
  }
  // one group of several hundred thousand members
  void tall() {
    OnexAPI api; S f = c_.path("tall"), g = c_.path("tall_groups"); const int rows = s.range(150000, 250000); { S o; o.reserve(rows * 6); for (int i = 0; i < rows; i++) o += s.chance(1, 50) ? "1 1\n" : "0 1\n"; spit(f, o); }
    tryOp([&] { api.loadDataset(f, 0, 0, " "); }); tryOp([&] { api.groupDataset(0, (D)1e6); }); tryOp([&] { api.saveGroup(0, g, s.chance(1, 4)); }); tryOp([&] { touch(api.getBestMatch(0, 0, 3)); }); tryOp([&] { api.loadGroup(0, g); }); tryOp([&] { touch(api.getBestMatch(0, 0, 3, 0, 2)); }); tryOp([&] { api.normalizeDataset(0); }); tryOp([&] { api.getBestMatch(0, 0, 3); }); c_.count("tall_sessions"); unlink(f.c_str()); unlink(g.c_str());
  }
  void go() { if (!c_.fuzz && s.chance(1, 700)) { tall(); return; } switch (s.range(0, 9)) { case 0: case 1: case 2: case 3: case 4: api(); break; case 5: case 6: sets(); break; case 7: case 8: series(); break; default: search(); sets(); } }
};
// 21.5 million subsequences of one length, grouped while the progress log is due: position * 100 exceeds 32 bits
static void hugeLog(Ctx& c_) {
  S f = c_.path("huge"); const int n = 21600000; { S t; t.reserve(2 * n + 2); for (int i = 0; i < n; i++) { t += '1'; t += ' '; } t += '\n'; spit(f, t); }
  TimeSeriesSet set; set.loadData(f, 0, 0, " "); unlink(f.c_str()); setClock(CLK_STEP, 0, 20000000000LL); LocalLengthGroupSpace sp(set, 2); int g = sp.generateGroups(getDistance("euclidean"), 1); setClock(CLK_CONST, 1000, 0);
  EXPECT(g == 1 && sp.getGroup(0)->getCount() == n - 1, "groups", g << " groups of " << sp.getGroup(0)->getCount() << " members"); c_.count("huge_grouping");
}
void runCase(Ctx& c_, Src& s) {
  if (c_.thorough() && c_.caseNo == 0 && c_.seed < 1000000 && !c_.fuzz) { hugeLog(c_); c_.nontrivial = true; c_.desc.add(1); c_.sampleText = "21600000 points, one length"; return; }
  Src s0 = s; Fz a(c_, s0); a.go(); c_.count("operations_completed", a.okN); c_.count("operations_refused", a.refN); c_.nontrivial = a.okN && a.refN; c_.desc.add(a.h.h); c_.sampleText = VF_STR(a.okN << " operations completed, " << a.refN << " refused")();
  if (c_.fuzz) return;
  { Fz b(c_, s0); b.go(); } size_t h1 = heapBytes(); { Fz b(c_, s0); b.go(); } size_t h2 = heapBytes(); if (h2 <= h1) { c_.count("heap_comparisons"); return; }
  // confirm growth on two further repetitions
  { Fz b(c_, s0); b.go(); } size_t h3 = heapBytes(); { Fz b(c_, s0); b.go(); } size_t h4 = heapBytes(); c_.count("heap_comparisons");
  EXPECT(!(h3 > h2 && h4 > h3), "leak", "every repetition of the session leaves more memory allocated: " << h2 - h1 << ", " << h3 - h2 << ", " << h4 - h3 << " bytes after all objects were destroyed");
}
}
