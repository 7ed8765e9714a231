// C25 the command line reports what the session really holds
#include "cli.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a script of 10-60 commands over up to five datasets (loads with every argument form, normalize, paa, group, saveGroup, loadGroup, match, list, timer, unload, saves; some refused lines between), run by the real command-line program and judged line by line against the library run next to it and the reference definitions; distinct = script; non-trivial = at least one grouping";
void runCase(Ctx& c_, Src& s) {
  u64 g0 = c_.counters["groupings"]; Script k(c_, s, true); k.big = s.chance(1, 3); int n = s.steps(s.range(10, c_.thorough() && s.chance(1, 5) ? 200 : 60), 400); k.load(); if (s.chance(1, 40)) { int more = s.chance(1, 8) ? (int)s.range(257, 300) : (int)s.range(20, 70); for (int i = 0; i < more; i++) k.load(); k.list(); c_.count("many_datasets"); }
  for (int i = 0; i < n; i++) { if (s.chance(1, 12)) k.bad(); else if (s.chance(1, 25)) k.nothing(); else k.good(); }
  for (auto& d : k.m) { S id = std::to_string(d.first), f = "end" + id, tf = "t_" + f; k.api.saveDataset(d.first, tf, ' '); k.same.push_back({f, tf}); k.items.push_back(Item{"save " + id + " " + f, Item::GOOD, nullptr, -1}); if (d.second.grouped) { k.api.saveGroup(d.first, tf + "g", false); k.same.push_back({f + "g", tf + "g"}); k.items.push_back(Item{"saveGroup " + id + " " + f + "g", Item::GOOD, nullptr, -1}); } }
  k.list(); int quit = s.range(0, 2); S script = k.text(); if (quit == 0) script += "quit\n"; else if (quit == 1) script += "exit\n";
  CliRun r = runCli(script); EXPECT(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "ended", "the program ended with " << ending(r));
  auto seg = segments(r.out); EXPECT(seg.size() >= k.items.size(), "lines", "only " << seg.size() << " of " << k.items.size() << " lines were processed");
  for (size_t i = 0; i < k.items.size(); i++) { Item& it = k.items[i];
    if (it.kind == Item::GOOD) { EXPECT(!hasError(seg[i]), "error", "line " << i << " '" << it.line << "' failed: " << seg[i].substr(0, 500) << "\nscript:\n" << script.substr(0, 1500)); c_.count("commands_judged"); if (it.check) { try { it.check(seg[i]); } catch (CaseFailed&) { c_.msg = "line " + std::to_string(i) + " '" + it.line + "': " + c_.msg + "\nscript:\n" + script.substr(0, 2500); throw; } } }
    else if (it.kind == Item::BAD) EXPECT(hasError(seg[i]), "accepted", "line " << i << " '" << it.line << "' was not refused: " << seg[i].substr(0, 500)); }
  for (auto& f : k.same) { EXPECT(exists(f.first), "file", "file " << f.first << " was not written"); S a = slurp(f.first), b = slurp(f.second); EXPECT(a == b, "file", "file " << f.first << " differs from what the library writes:\n" << a.substr(0, 600) << "\n-- library --\n" << b.substr(0, 600) << "\nscript:\n" << script.substr(0, 2000)); c_.count("files_compared"); }
  c_.nontrivial = c_.counters["groupings"] > g0; c_.sampleText = script.substr(0, 500);
}
}
