// Driving the command-line program with a script, next to the library in this process.
#pragma once
#include "model.hpp"
#include <filesystem>
#include <spawn.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern char** environ;
namespace vf {
struct CliRun { int status = 0; S out; };
// runs the program in the current directory
inline CliRun runCli(const S& script) {
  const char* exe = getenv("ONEX_CLI"); if (!exe) { fprintf(stderr, "ONEX_CLI is not set\n"); _exit(90); }
  spit(".in", script); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, ".in", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, ".out", O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, ".err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
  char* argv[] = {(char*)exe, nullptr}; pid_t p; struct rusage u0, u1; getrusage(RUSAGE_CHILDREN, &u0);
  if (posix_spawn(&p, exe, &fa, nullptr, argv, environ)) { perror("posix_spawn"); _exit(90); }
  posix_spawn_file_actions_destroy(&fa); CliRun r; long ms = 0;
  struct rlimit rl; rl.rlim_cur = 60; rl.rlim_max = 70; prlimit(p, RLIMIT_CPU, &rl, nullptr); rl.rlim_cur = rl.rlim_max = 256u << 20; prlimit(p, RLIMIT_FSIZE, &rl, nullptr);
  for (;;) { pid_t w = waitpid(p, &r.status, WNOHANG); if (w == p) break; if (w < 0 && errno != EINTR) { perror("waitpid"); _exit(90); } usleep(ms < 200 ? 500 : 2000); if (++ms > 150000) { kill(p, SIGKILL); waitpid(p, &r.status, 0); getrusage(RUSAGE_CHILDREN, &u1);
    fprintf(stderr, "the command line did not end within 300 s\n"); if (u1.ru_utime.tv_sec - u0.ru_utime.tv_sec < 20) _exit(90); break; } }
  r.out = slurp(".out"); return r;
}
inline S ending(const CliRun& r) { S e = slurp(".err"); return (WIFEXITED(r.status) ? "exit status " + std::to_string(WEXITSTATUS(r.status)) : "signal " + std::to_string(WTERMSIG(r.status))) + (e.empty() ? "" : "; stderr: " + e.substr(0, 2500)); }
// one segment of output per prompt: what follows the echoed line
inline std::vector<S> segments(const S& out) {
  std::vector<S> v; size_t i = out.compare(0, 3, ">> ") == 0 ? 0 : out.find("\n>> "); if (i != S::npos && out[i] == '\n') i++;
  while (i != S::npos) { size_t j = out.find("\n>> ", i); size_t nl = out.find('\n', i); size_t end = j == S::npos ? out.size() : j + 1; v.push_back(nl == S::npos || nl + 1 > end ? S() : out.substr(nl + 1, end - nl - 1)); i = j == S::npos ? j : j + 1; }
  return v;
}
inline std::vector<S> linesOf(const S& t) { std::vector<S> v; std::istringstream i(t); S l; while (std::getline(i, l)) v.push_back(l); return v; }
inline bool hasError(const S& seg) { for (auto& l : linesOf(seg)) if (l.compare(0, 6, "Error!") == 0) return true; return false; }
inline bool blankText(const S& t) { return t.find_first_not_of(" \t\r\n") == S::npos; }
// the text after `label` on the line that has it
inline bool field(const S& seg, const S& label, S& v) { for (auto& l : linesOf(seg)) { size_t i = l.find(label); if (i != S::npos) { v = l.substr(i + label.size()); size_t a = v.find_first_not_of(" \t"), b = v.find_last_not_of(" \t\r"); v = a == S::npos ? "" : v.substr(a, b - a + 1); return true; } } return false; }
inline bool fieldNum(const S& seg, const S& label, double& v) { S t; if (!field(seg, label, t)) return false; char* e; v = strtod(t.c_str(), &e); return e != t.c_str(); }

struct CliDS { S name; int rows = 0, cols = 0; bool norm = false, grouped = false; };
struct Item { S line; enum Kind { GOOD, BAD, NOTHING, OTHER } kind; std::function<void(const S&)> check; int snap = -1; };

struct Script {
  Ctx& c_; Src& s; onex::OnexAPI api; std::map<int, CliDS> m; std::vector<Item> items; int fileNo = 0; bool timer = true; S dir; std::vector<std::pair<S, S>> same; std::vector<std::pair<S, int>> groupFiles; bool judge;
  Script(Ctx& c, Src& s_, bool judge_) : c_(c), s(s_), judge(judge_) { onex::setWarpingBandRatio(0.1); dir = c.tmp + "/cli"; std::filesystem::remove_all(dir); std::filesystem::create_directory(dir); if (chdir(dir.c_str())) _exit(90); }
  ~Script() { if (chdir("/")) {} std::error_code e; if (!getenv("VF_KEEP")) std::filesystem::remove_all(dir, e); }
  static S join(const std::vector<S>& a, Src& s) { S o; if (s.chance(1, 12)) o += " "; for (size_t i = 0; i < a.size(); i++) { if (i) o += s.chance(1, 12) ? "   " : " "; o += a[i]; } if (s.chance(1, 12)) o += "  "; return o; }
  Item& add(const std::vector<S>& a, Item::Kind k) { items.push_back(Item{join(a, s), k, nullptr, -1}); c_.desc.str(items.back().line); return items.back(); }
  int anyId() { auto it = m.begin(); std::advance(it, s.range(0, (long)m.size() - 1)); return it->first; }
  int freeId() { int i = 0; while (m.count(i)) i++; return i; }
  S newFile(const char* suffix) { static const char* P[] = {"d", "set_", "a-b.", "7", "x,y;", "load", "--", "0x", "%s"}; S n = S(P[s.range(0, 8)]) + std::to_string(fileNo++); if (s.chance(1, 6)) n += S(s.size(1, 180), "x-_Z0.~"[s.range(0, 6)]); return n + suffix; }
  S fmt(int v) { S t = std::to_string(v); if (s.chance(1, 20)) t = "0" + t; else if (v >= 0 && s.chance(1, 20)) t = "+" + t; return t; }
  bool big = false;
  // ---- commands that must work
  void load() {
    int rows = s.chance(1, 10) && big ? s.range(10, 40) : s.range(1, 5), cols = s.chance(1, 10) && big ? s.range(12, 30) : s.range(1, 10); if (s.chance(1, 30)) cols = s.size(20, 700);
    int fl = s.range(0, FL_N - 1); if (fl == FL_MIX) fl = FL_UNI; Table t = genTable(s, rows, cols, fl); S f = newFile(".txt"); int skip = 0, limit = 0; Table raw = t; S sep = " ";
    int nargs = s.range(2, 5); static const char* SEPS[] = {",", ";", ",;", "|", " ", ":,"};
    if (nargs >= 3) { if (s.chance(1, 2)) { limit = rows; for (int k = s.range(0, 3); k > 0; k--) raw.push_back(raw[0]); } else limit = s.chance(1, 2) ? 0 : rows + 5; if (s.chance(1, 6)) { limit = -3; raw = t; } }
    if (nargs >= 4) { skip = s.range(0, 2); for (auto& r : raw) for (int k = 0; k < skip; k++) r.insert(r.begin(), (D)(100 + k)); }
    if (nargs >= 5) sep = SEPS[s.range(0, 5)];
    S fileSep = sep.substr(s.range(0, (long)sep.size() - 1), 1); spit(f, tableText(raw, fileSep)); if (sep == " " && nargs == 5) nargs = 4;
    std::vector<S> a = {"load", f}; if (nargs >= 3) a.push_back(limit < 0 ? std::to_string(limit) : fmt(limit)); if (nargs >= 4) a.push_back(fmt(skip)); if (nargs >= 5) a.push_back(sep);
    int id = freeId(); onex::dataset_info_t i = api.loadDataset(f, limit, skip, sep);
    if (judge) EXPECT(i.id == id && i.name == f && i.itemCount == rows && i.itemLength == cols, "load", "the library loads a " << rows << "x" << cols << " table as " << i.itemCount << "x" << i.itemLength << " id " << i.id << " instead of " << id);
    id = i.id; CliDS d; d.name = f; d.rows = rows; d.cols = cols; m[id] = d; S want = f;
    add(a, Item::GOOD).check = [this, id, rows, cols, want](const S& g) { shapeOf(g, id, want, rows, cols, "load"); };
  }
  void shapeOf(const S& g, int id, const S& name, int rows, int cols, const char* cmd) {
    S n; double i, r, l; EXPECT(field(g, "Name:", n) && fieldNum(g, "ID:", i) && fieldNum(g, "Item count:", r) && fieldNum(g, "Item length:", l), "report", cmd << " does not report the dataset: " << g);
    EXPECT(n == name && i == id && r == rows && l == cols, "report", cmd << " reports '" << n << "' id " << i << " " << r << "x" << l << " instead of '" << name << "' id " << id << " " << rows << "x" << cols);
  }
  void said(const S& g, const S& text) { bool ok = false; for (auto& l : linesOf(g)) if (l.find(text) != S::npos) ok = true; EXPECT(ok, "report", "expected '" << text << "', got: " << g.substr(0, 600)); }
  void timed(const S& g, bool on) { bool t = g.find("executed in") != S::npos; EXPECT(t == on, "timer", "timer is " << (on ? "on" : "off") << " but the command " << (t ? "was" : "was not") << " timed: " << g.substr(0, 400)); }
  void unload() { int id = anyId(); api.unloadDataset(id); m.erase(id); add({"unload", fmt(id)}, Item::GOOD).check = [this, id](const S& g) { said(g, "ataset " + std::to_string(id) + " is unloaded"); }; }
  void list() { auto st = m; Item& it = add({"list", "dataset"}, Item::GOOD); it.check = [this, st](const S& g) { listed(g, st); }; }
  void listed(const S& g, const std::map<int, CliDS>& st) {
    double n; EXPECT(fieldNum(g, "There are", n) && n == st.size(), "list", "list says " << n << " datasets are loaded, there are " << st.size() << ": " << g);
    std::map<int, int> seen;
    for (auto& l : linesOf(g)) { std::istringstream in(l); S a, b; if (!(in >> a >> b)) continue; char* e; long id = strtol(a.c_str(), &e, 10); if (*e || e == a.c_str()) continue; S rest, w; bool nm = false, gr = false; while (in >> w) { if (w == "Normalized") nm = true; else if (w == "Grouped") gr = true; }
      auto k = st.find(id); EXPECT(k != st.end(), "list", "list shows dataset " << id << " which is not loaded: " << g); seen[id]++;
      EXPECT(b == k->second.name && nm == k->second.norm && gr == k->second.grouped, "list", "list shows dataset " << id << " as '" << b << "' normalised " << nm << " grouped " << gr << " where it is '" << k->second.name << "' normalised " << k->second.norm << " grouped " << k->second.grouped); }
    EXPECT(seen.size() == st.size(), "list", "list shows " << seen.size() << " of " << st.size() << " datasets: " << g);
  }
  void distances() { add({"list", "distance"}, Item::GOOD).check = [this](const S& g) { bool a = false, b = false; std::istringstream in(g); S w; while (in >> w) { if (w == "euclidean") a = true; if (w == "euclidean_dtw") b = true; } EXPECT(a && b, "list", "list distance shows: " << g); }; }
  void setTimer() { bool show = s.chance(1, 3); if (!show) timer = s.chance(1, 2); bool t = timer; add(show ? std::vector<S>{"timer"} : std::vector<S>{"timer", t ? "on" : "off"}, Item::GOOD).check = [this, t](const S& g) { said(g, t ? "Timer is ON" : "Timer is OFF"); }; }
  S genST() { static const char* T[] = {"0", "0.5", "0.2", "1", "2.5", "1e6", "0.125", "3", ".75", "1e-1"}; return T[s.range(0, 9)]; }
  Table valuesT(int id) { api.saveDataset(id, "t_v", ' '); Table t; EXPECT(parseTable(slurp("t_v"), ' ', t), "saved-file", "saved dataset unreadable"); return t; }
  GFile groupsT(int id) { api.saveGroup(id, "t_g", false); return parseGroups(slurp("t_g")); }
  void group() { int id = anyId(); CliDS& d = m[id]; if (d.cols > 40) return; S st = genST(); int k = api.groupDataset(id, (D)strtod(st.c_str(), nullptr)); d.grouped = true; bool t = timer;
    GFile f = groupsT(id); S pe = partitionError(f, d.rows, d.cols); if (judge) EXPECT(pe.empty(), "groups", pe); long total = totalGroups(f); c_.count("groupings");
    add({"group", fmt(id), st}, Item::GOOD).check = [this, id, total, t](const S& g) { said(g, "ataset " + std::to_string(id) + " is now grouped"); double n; EXPECT(fieldNum(g, "Number of Groups:", n) && n == total, "count", "group reports " << n << " groups, the index has " << total << ": " << g); timed(g, t); }; }
  void normalize() { int id = anyId(); CliDS& d = m[id]; api.normalizeDataset(id); d.norm = true; d.grouped = false; add({"normalize", fmt(id)}, Item::GOOD).check = [this, id](const S& g) { said(g, "ataset " + std::to_string(id) + " is now normalized"); }; }
  void paa() { int id = anyId(); CliDS& d = m[id]; int n = s.chance(1, 3) ? 1 : s.range(1, d.cols + 1); api.PAA(id, n); d.cols = (d.cols + n - 1) / n; d.grouped = false; int r = d.rows, c = d.cols; S nm = d.name; add({"paa", fmt(id), fmt(n)}, Item::GOOD).check = [this, id, nm, r, c](const S& g) { shapeOf(g, id, nm, r, c, "paa"); }; }
  // ids and saved shapes
  void save() { int id = anyId(); S f = newFile(".sav"), tf = "t_" + f; char sep = ' '; std::vector<S> a = {"save", fmt(id), f}; if (s.chance(1, 2)) { sep = ",;|:"[s.range(0, 3)]; a.push_back(S(1, sep) + (s.chance(1, 8) ? "zz" : "")); } api.saveDataset(id, tf, sep); same.push_back({f, tf}); add(a, Item::GOOD).check = [this, id, f](const S& g) { said(g, "dataset " + std::to_string(id) + " to " + f); }; }
  void saveGroup() { std::vector<int> g; for (auto& k : m) if (k.second.grouped) g.push_back(k.first); if (g.empty()) return; int id = s.pick(g); S f = newFile(".grp"), tf = "t_" + f; std::vector<S> a = {"saveGroup", fmt(id), f}; bool only = false; if (s.chance(1, 3)) { only = s.chance(1, 2); a.push_back(only ? "1" : "0"); }
    api.saveGroup(id, tf, only); same.push_back({f, tf}); if (!only) groupFiles.push_back({f, id}); add(a, Item::GOOD).check = [this, id, f](const S& x) { said(x, "groups of dataset " + std::to_string(id) + " to " + f); }; }
  void loadGroup() { if (groupFiles.empty()) return; S f = s.pick(groupFiles).first; S tf = "t_" + f; GFile gf = parseGroups(slurp(tf)); std::vector<int> ok; for (auto& k : m) if (k.second.rows == gf.items && k.second.cols == gf.len) ok.push_back(k.first); if (ok.empty()) return; int id = s.pick(ok);
    api.loadGroup(id, tf); m[id].grouped = true; long total = totalGroups(gf); c_.count("group_loads"); add({"loadGroup", fmt(id), f}, Item::GOOD).check = [this, id, total](const S& g) { said(g, std::to_string(total) + " groups loaded for dataset " + std::to_string(id)); for (auto& l : linesOf(g)) { size_t i = l.find(" groups loaded"); if (i != S::npos) EXPECT(atol(l.c_str()) == total, "count", "loadGroup reports: " << l << ", the file has " << total); } }; }
  struct M { int t, q, i, a, b; };
  bool genMatch(M& x) { std::vector<int> g; for (auto& k : m) if (k.second.grouped && k.second.cols >= 2) g.push_back(k.first); if (g.empty()) return false; x.t = s.pick(g); x.q = s.chance(1, 2) ? x.t : anyId(); CliDS& d = m[x.q]; if (d.cols < 2) x.q = x.t; CliDS& e = m[x.q]; x.i = s.range(0, e.rows - 1); x.a = x.b = -1; if (s.chance(2, 3)) { x.a = s.range(0, e.cols - 2); x.b = s.range(x.a + 2, e.cols); } return true; }
  // a match: judged against the library and against the definition of the distance
  void match() { M x; if (!genMatch(x)) return; Table q = valuesT(x.q), t = valuesT(x.t); std::vector<S> a = {"match", fmt(x.t), fmt(x.q), fmt(x.i)}; if (x.a >= 0) { a.push_back(fmt(x.a)); a.push_back(fmt(x.b)); }
    Row qr = x.a < 0 ? q[x.i] : sub(q[x.i], x.a, x.b - x.a); bool t1 = timer;
    try { onex::candidate_time_series_t b = api.getBestMatch(x.t, x.q, x.i, x.a, x.b); int i = b.data.getIndex(), st = b.data.getStart(), ln = b.data.getLength(); double dist = b.dist; c_.count("matches");
      if (judge) { bool real = i >= 0 && i < (int)t.size() && st >= 0 && ln >= 2 && st + ln <= (int)t[0].size(); EXPECT(real, "match", "match " << i << " " << st << " " << ln << " does not exist"); L d = refWarped(qr, sub(t[i], st, ln), 0.1); EXPECT(near(dist, d, 2 * std::max<int>(ln, qr.size())), "match", "match is reported at " << dist << ", its distance is " << (double)d); }
      add(a, Item::GOOD).check = [this, i, st, ln, dist, t1](const S& g) { double pi, ps, pl, pd; EXPECT(fieldNum(g, "timeseries", pi) && fieldNum(g, "starting at", ps) && fieldNum(g, "length", pl) && fieldNum(g, "Distance =", pd), "match", "match reports: " << g);
        EXPECT(pi == i && ps == st && pl == ln && std::fabs(pd - dist) <= 1e-3 * std::fabs(dist) + 1e-300, "match", "match reports series " << pi << " start " << ps << " length " << pl << " distance " << pd << " where the library finds series " << i << " start " << st << " length " << ln << " distance " << dist); timed(g, t1); }; }
    catch (onex::OnexException&) { add(a, Item::BAD); c_.count("matches_refused"); } }
  void help() { static const char* H[] = {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match", "help", "exit", "quit"}; if (s.chance(1, 3)) add({"help"}, Item::GOOD).check = [this](const S& g) { for (const char* h : H) EXPECT(g.find(h) != S::npos, "help", "help does not mention " << h); }; else { S h = H[s.range(0, 13)]; add({"help", h}, Item::GOOD).check = [this, h](const S& g) { EXPECT(!blankText(g), "help", "help " << h << " prints nothing"); }; } }
  void good() {
    if (m.empty() || (m.size() < 4 && s.chance(1, 8))) { load(); return; }
    switch (s.range(0, 18)) { case 0: load(); break; case 1: unload(); break; case 2: list(); break; case 3: distances(); break; case 4: setTimer(); break; case 5: case 6: case 7: group(); break; case 8: normalize(); break; case 9: paa(); break; case 10: case 11: save(); break; case 12: case 13: saveGroup(); break; case 14: loadGroup(); break; case 15: if (s.chance(1, 3)) help(); else match(); break; default: match(); }
  }
  void nothing() { static const char* N[] = {"", " ", "      ", "//", "// load x", "//quit", "  //unload 0", "//unload 0 ", "///", "// exit", "//a b c d e f g h i j"}; items.push_back(Item{N[s.range(0, 10)], Item::NOTHING, nullptr, -1}); c_.desc.str(items.back().line); c_.count("lines_doing_nothing"); }
  // ---- lines that must be refused
  S badInt() { static const char* B[] = {"abc", "x1", "-", "+", "--3", ".5", "99999999999", "-99999999999", "1000000000000000000000000", "e5", "_", "on", "/", "O", "\"1\"", "(0)"};
    // numbers beyond an int which some narrower conversion would turn into a small one
    if (s.chance(1, 4)) { static const char* P[][10] = {{"4294967296", "4294967297", "4294967298", "4294967299", "4294967300", "8589934592", "-4294967296", "-4294967295", "-4294967294", "1099511627776"}, {"18446744073709551616", "18446744073709551617", "18446744073709551618", "-18446744073709551616", "-18446744073709551615", "36893488147419103232", "9223372036854775808", "-9223372036854775809", "1208925819614629174706176", "2147483648"}}; return P[s.chance(1, 3)][s.range(0, 9)]; }
    return B[s.range(0, 15)]; }
  S noId() { for (;;) { S k = maybeNoId(); if (!m.count(atoi(k.c_str()))) return k; } }
  S maybeNoId() { static const char* B[] = {"-1", "2147483647", "-2147483648", "1000000", "77", "-2"}; if (s.chance(1, 4) && !m.empty()) { int k = anyId() + (1 << s.pick(std::vector<int>{7, 8, 10, 15, 16, 20, 24, 30})); return std::to_string(s.chance(1, 4) ? anyId() - (k - anyId()) : k); } if (s.chance(1, 2)) { int k = m.empty() ? 0 : m.rbegin()->first + 1; if (s.chance(1, 2)) k = freeId(); return std::to_string(k); } return B[s.range(0, 5)]; }
  S okId() { return m.empty() ? S("0") : std::to_string(anyId()); }
  void bad() {
    static const char* CMD[] = {"load", "save", "unload", "list", "timer", "group", "saveGroup", "loadGroup", "normalize", "paa", "match"}; static const int LO[] = {2, 3, 2, 2, 1, 3, 3, 3, 2, 3, 4}, HI[] = {5, 4, 2, 2, 2, 3, 4, 3, 2, 3, 6};
    std::vector<S> a; int kind = s.range(0, 5); c_.count("bad_lines");
    auto okArgs = [&](int k) { std::vector<S> v = {CMD[k]}; switch (k) { case 0: spit("ok.txt", "1 2 3\n4 5 6\n"); v.insert(v.end(), {"ok.txt", "0", "0", " "}); v.back() = ","; v[1] = "ok.txt"; break; case 1: v.insert(v.end(), {okId(), "b.sav", ","}); break; case 2: v.push_back(okId()); break; case 3: v.push_back("dataset"); break; case 4: v.push_back("on"); break; case 5: v.insert(v.end(), {okId(), "0.5"}); break; case 6: v.insert(v.end(), {okId(), "b.grp", "0"}); break; case 7: v.insert(v.end(), {okId(), "b.grp"}); break; case 8: v.push_back(okId()); break; case 9: v.insert(v.end(), {okId(), "1"}); break; default: v.insert(v.end(), {okId(), okId(), "0", "0", "2"}); } return v; };
    switch (kind) {
      case 0: { static const char* U[] = {"Load", "LIST", "savegroup", "loads", "load;", "helpme", "?", "ls", "quit;", "Exit", "unloadAll", "ratio", "/", "/load", "-", "1", "group,0,1", "match:", "%s%n", "\\", "''", "paa\\", "normalise", "q", "exi", "$(id)", "`x`", "listdataset", "timeron", "ma", "NULL", "s"}; S u = U[s.range(0, 31)]; if (s.chance(1, 2)) { // nearly a command, with arguments it could be carried out with
          int k = s.range(0, 10); a = okArgs(k); S& n = a[0]; switch (s.range(0, 5)) { case 0: case 1: n = n.substr(0, s.range(1, (long)n.size() - 1)); break; case 2: n += n.back(); break; case 3: n[s.range(0, (long)n.size() - 1)] ^= 32; break; case 4: n.erase(s.range(0, (long)n.size() - 1), 1); break; default: n += "s,;:-_0"[s.range(0, 6)]; }
          bool known = n == "help" || n == "quit" || n == "exit"; for (const char* w : CMD) known |= n == w; if (!known) break; }
        if (s.chance(1, 5)) u += S(s.range(1, 3000), "ax0%-_#"[s.range(0, 6)]); a = {u}; for (int k = s.range(0, 6); k > 0; k--) a.push_back(s.chance(1, 2) ? "0" : "dataset"); break; }
      case 1: { int k = s.range(0, 10); if (k == 4) k = 10; a = okArgs(k); a.resize(s.range(1, LO[k] - 1)); if (k == 10 && s.chance(1, 3)) { a = okArgs(10); a.resize(5); } break; }
      case 2: { int k = s.range(0, 10); a = okArgs(k); while ((int)a.size() < HI[k]) a.push_back("0"); for (int e = s.chance(1, 10) ? s.range(5, 400) : s.range(1, 3); e > 0; e--) a.push_back("0"); break; }
      case 3: { // a number that is none
        static const int K[][2] = {{0, 2}, {0, 3}, {1, 1}, {2, 1}, {5, 1}, {5, 2}, {6, 1}, {6, 3}, {7, 1}, {8, 1}, {9, 1}, {9, 2}, {10, 1}, {10, 2}, {10, 3}, {10, 4}, {10, 5}}; int k = s.range(0, 16); a = okArgs(K[k][0]); S b = badInt();
        if (K[k][0] == 5 && K[k][1] == 2) { static const char* F[] = {"abc", "-", "1e999", "..5", "x", "--1", "e5", "-1e400"}; b = F[s.range(0, 7)]; } a[K[k][1]] = b; break; }
      case 4: { // an operation that fails: what it names does not exist
        int k = s.range(0, 9); static const int W[] = {1, 2, 5, 6, 7, 8, 9, 10}; 
        if (k <= 7) { int w = W[k]; a = okArgs(w); a[w == 10 && s.chance(1, 2) ? 2 : 1] = noId(); }
        else if (k == 8) { static const char* N[] = {"nosuch.txt", ".", "no/such/file", "ok.txt/x", "nosuch dir"}; a = {"load", N[s.range(0, 4)]}; if (a[1] == "nosuch dir") a = {"load", "nosuch", "0"}; }
        else { a = s.chance(1, 2) ? std::vector<S>{"list", s.chance(1, 2) ? "datasets" : "Dataset"} : s.chance(1, 2) ? std::vector<S>{"timer", s.chance(1, 2) ? "ON" : "1"} : s.chance(1, 2) ? std::vector<S>{"help", "nosuch"} : std::vector<S>{"help", "load", "save"}; }
        break; }
      default: { // an operation that fails: defective files, impossible requests on what exists
        if (m.empty()) { spit("ragged.txt", "1 2 3\n4 5\n"); a = {"load", "ragged.txt"}; break; }
        int id = anyId(); CliDS& d = m[id]; S I = std::to_string(id);
        switch (s.range(0, 9)) {
          case 0: spit("ragged.txt", s.chance(1, 2) ? "1 2 3\n4 5\n" : "1 2\n4 5 6\n"); a = {"load", "ragged.txt"}; break;
          case 1: spit("words.txt", s.chance(1, 2) ? "1 2 3\n4 five 6\n" : "1 2 3\n4 1e999 6\n"); a = {"load", "words.txt"}; break;
          case 2: spit("empty.txt", ""); a = {"load", "empty.txt"}; break;
          case 3: spit("ok.txt", "1 2 3\n4 5 6\n"); a = {"load", "ok.txt", "0", s.chance(1, 2) ? "3" : "-1"}; break;
          case 4: a = {"paa", I, s.chance(1, 2) ? "0" : s.chance(1, 2) ? "-1" : "-2147483648"}; break;
          case 5: a = s.chance(1, 2) ? std::vector<S>{"save", I, "nodir/x"} : std::vector<S>{"save", I, "."}; break;
          case 6: a = {"saveGroup", I, d.grouped ? "nodir/x" : "b.grp"}; break;
          case 7: { spit("bad.grp", s.chance(1, 2) ? "" : s.chance(1, 2) ? "1 0.5 2\n" : "1 0.5 " + std::to_string(d.rows + 1) + " " + std::to_string(d.cols) + "\n2 3\neuclidean\n"); a = {"loadGroup", I, s.chance(1, 3) ? "nosuch.grp" : "bad.grp"}; break; }
          default: { int id2 = anyId(); CliDS& q = m[id2]; a = {"match", I, std::to_string(id2), "0"}; if (!d.grouped) break; int n = q.cols;
            switch (s.range(0, 5)) { case 0: a[3] = std::to_string(s.chance(1, 2) ? q.rows : -1); break; case 1: a.push_back("0"); a.push_back(std::to_string(n + 1)); break; case 2: a.push_back("-2"); a.push_back(std::to_string(n)); break; case 3: a.push_back(std::to_string(n)); a.push_back(std::to_string(n)); break; case 4: a.push_back("1"); a.push_back("0"); break; default: a.push_back("0"); a.push_back("1"); } } } }
    }
    if (kind == 1 || kind == 2 || kind == 3) { /* refused whatever is loaded */ }
    add(a, Item::BAD);
  }
  S text(const S& eol = "\n") const { S o; for (auto& i : items) o += i.line + eol; return o; }
};
} // namespace vf
