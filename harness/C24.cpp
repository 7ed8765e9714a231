// C24 the command line survives any input
#include "cli.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a script for the real command-line program: sessions of valid commands interrupted by bursts of lines that must be refused (unknown commands, missing and surplus arguments, unconvertible numbers, failing operations), blank and comment lines, each burst enclosed by two full recordings of the session; or hostile bytes, over-long lines, damaged commands and end of input at any byte; distinct = script; non-trivial = at least one refused or hostile line";
static void alive(Ctx& c_, const CliRun& r, const S& script) { EXPECT(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "ended", "the program ended with " << ending(r) << "\nscript (" << script.size() << " bytes):\n" << script.substr(0, 1800)); c_.count("runs"); }
static void hostile(Ctx& c_, Src& s) {
  Script k(c_, s, false); S t; int n = s.steps(s.range(1, 40), 500); spit("a.txt", "1 2 3 4\n4 5 6 7\n2 2 2 2\n");
  static const char* W[] = {"load", "a.txt", "save", "0", "1", "-1", "group", "0.5", "match", "unload", "list", "dataset", "timer", "on", "off", "paa", "2", "normalize", "loadGroup", "saveGroup", "g", "nan", "-0", "1e308", "2147483647", "-2147483648", "4294967296", ",", "//", "help", "99999999999999999999", "0x10", "1.9", "a", "inf"};
  bool ctl = s.chance(1, 3), high = s.chance(1, 2); if (s.chance(2, 3)) t += "load a.txt\n";
  for (int i = 0; i < n; i++) { S l; int m = s.range(0, 7);
    if (m <= 3) { for (int j = s.range(1, 7); j > 0; j--) { l += W[s.range(0, 34)]; if (j > 1) l += " "; } }
    else if (m == 4) { for (long j = s.size(0, !ctl && !NEWLITS.empty() ? 5000 : 300); j > 0; j--) l += (char)s.range(32, 126); }
    else if (m == 5 && high) { for (long j = s.size(0, 60); j > 0; j--) l += (char)s.range(128, 255); }
    else if (m == 6 && ctl) { for (long j = s.size(0, 40); j > 0; j--) l += (char)s.range(s.chance(1, 2) ? 1 : 32, 127); }
    else { l = S(s.size(0, ctl ? 300 : 20000), (char)s.pick(std::vector<int>{' ', 'x', '/', '0', '%'})); }
    if (s.chance(1, 5) && l.size() < 400) { for (int e = s.range(1, 3); e > 0 && !l.empty(); e--) { size_t p = s.range(0, (long)l.size() - 1); if (s.chance(1, 2)) l.erase(p, 1); else l[p] = (char)s.range(32, 126); } }
    // a path may not leave the scratch directory
    for (auto& ch : l) if (ch == '~' || (ch == '/' && l.compare(0, 2, "//") != 0 && l.find_first_not_of('/') != S::npos)) ch = '_';
    t += l + (s.chance(1, 40) ? "\r\n" : "\n"); }
  if (s.chance(1, 4)) t += s.pick(std::vector<S>{"quit\n", "exit\n", "exit", "quit 1 2\n"});
  if (s.chance(1, 2)) t.resize(s.range(0, (long)t.size()));
  c_.desc.str(t); c_.nontrivial = true; c_.count("hostile_lines", n); c_.sampleText = t.substr(0, 300); CliRun r = runCli(t);
  // editing keys make the line editor itself redraw in cubic time: no verdict about time there
  if (ctl && WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL)) { c_.count("inconclusive_line_editor_time"); return; }
  alive(c_, r, t);
}
void runCase(Ctx& c_, Src& s) {
  if (s.chance(1, 4)) { hostile(c_, s); return; }
  Script k(c_, s, false); int bursts = s.range(1, 4), snap = 0; std::vector<std::vector<size_t>> snaps; std::vector<std::vector<S>> files; std::vector<bool> linked;
  auto record = [&]() { std::vector<size_t> v; std::vector<S> f; auto put = [&](const S& l) { v.push_back(k.items.size()); k.items.push_back(Item{l, Item::OTHER, nullptr, snap}); };
    put("list dataset"); put("timer"); for (auto& d : k.m) { S id = std::to_string(d.first), a = "rec" + std::to_string(snap) + "_" + id; put("save " + id + " " + a); f.push_back(a); if (d.second.grouped) { put("saveGroup " + id + " " + a + "g"); f.push_back(a + "g"); } }
    snap++; snaps.push_back(v); files.push_back(f); };
  for (int b = 0; b < bursts; b++) { for (int i = s.steps(s.range(0, 8), 150); i > 0; i--) k.good(); 
    Script::M q; bool hasQ = k.genMatch(q); S ml = hasQ ? VF_STR("match " << q.t << " " << q.q << " " << q.i)() + (q.a >= 0 ? VF_STR(" " << q.a << " " << q.b)() : "") : "list distance";
    record(); snaps.back().push_back(k.items.size()); k.items.push_back(Item{ml, Item::OTHER, nullptr, 0});
    for (int i = s.steps(s.range(1, 8), 150); i > 0; i--) { if (s.chance(1, 5)) k.nothing(); else k.bad(); }
    record(); snaps.back().push_back(k.items.size()); k.items.push_back(Item{ml, Item::OTHER, nullptr, 0}); }
  c_.nontrivial = true; bool q = s.chance(1, 3); S script = k.text(); size_t nl = k.items.size();
  if (q) script += S(s.chance(1, 2) ? "quit" : "exit") + (s.chance(1, 3) ? " now" : "") + "\nload ok2.txt\nsave 0 after_quit\nlist dataset\n"; else if (s.chance(1, 3)) { script.pop_back(); }
  spit("ok2.txt", "1 2\n3 4\n"); CliRun r = runCli(script); alive(c_, r, script); auto seg = segments(r.out);
  EXPECT(seg.size() >= nl, "stopped", "only " << seg.size() << " of " << nl << " lines were processed\nscript:\n" << script.substr(0, 2000));
  if (q) { EXPECT(!exists("after_quit") && seg.size() == nl + 1, "quit", "the program went on after being told to quit: " << seg.size() << " prompts for " << nl + 1 << " lines"); c_.count("quits"); }
  auto ctx = [&](size_t i) { return VF_STR("line " << i << " '" << k.items[i].line.substr(0, 300) << "' printed: " << seg[i].substr(0, 600) << "\nscript:\n" << script.substr(0, 2000))(); };
  for (size_t i = 0; i < nl; i++) { Item& it = k.items[i];
    if (it.kind == Item::BAD) { EXPECT(hasError(seg[i]), "accepted", "no error reported: " << ctx(i)); c_.count("errors_seen"); }
    else if (it.kind == Item::NOTHING) EXPECT(blankText(seg[i]), "nothing", "a blank or comment line did something: " << ctx(i)); }
  for (size_t b = 0; b + 1 < snaps.size(); b += 2) { auto &A = snaps[b], &B = snaps[b + 1]; size_t n = A.size(); EXPECT(n == B.size(), "harness", "recordings differ in size");
    for (size_t j = 0; j < n; j++) { const S &x = seg[A[j]], &y = seg[B[j]]; bool rec = j + 1 < n && j >= 2;
      if (rec) { EXPECT(hasError(x) == hasError(y), "session", "refused lines changed the session: before " << ctx(A[j]) << "\nafter " << seg[B[j]].substr(0, 500)); continue; }
      if (j + 1 == n && k.items[A[j]].line[0] == 'm') { double v[2][4]; for (int z = 0; z < 2; z++) { const S& g = z ? y : x; v[z][3] = 0; if (!fieldNum(g, "timeseries", v[z][0]) || !fieldNum(g, "starting at", v[z][1]) || !fieldNum(g, "length", v[z][2]) || !fieldNum(g, "Distance =", v[z][3])) v[z][0] = v[z][1] = v[z][2] = v[z][3] = -7; }
        EXPECT(v[0][0] == v[1][0] && v[0][1] == v[1][1] && v[0][2] == v[1][2] && std::fabs(v[0][3] - v[1][3]) <= 1e-3 * std::fabs(v[0][3]), "session", "refused lines changed an answer: before " << ctx(A[j]) << "\nafter " << y.substr(0, 500)); c_.count("answers_compared"); continue; }
      EXPECT(x == y, "session", "refused lines changed the session: before " << ctx(A[j]) << "\nafter " << y.substr(0, 800)); }
    auto &fa = files[b], &fb = files[b + 1]; for (size_t j = 0; j < fa.size(); j++) { EXPECT(exists(fa[j]) == exists(fb[j]) && slurp(fa[j]) == slurp(fb[j]), "session", "refused lines changed " << (fa[j].back() == 'g' ? "the groups" : "the values") << " of a dataset (" << fb[j] << "):\n" << slurp(fa[j]).substr(0, 500) << "\n-- after --\n" << slurp(fb[j]).substr(0, 500) << "\nscript:\n" << script.substr(0, 2000)); c_.count("files_compared"); }
    c_.count("bursts"); }
  c_.sampleText = script.substr(0, 500);
}
}
