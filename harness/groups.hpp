// Group-level helpers shared by C13..C18
#pragma once
#include "session.hpp"
#include "LocalLengthGroupSpace.hpp"
#include <memory>
namespace vf {
// values of the set as a table, written to a file and loaded into a fresh set
inline std::unique_ptr<onex::GroupableTimeSeriesSet> makeSet(Ctx& c_, const Table& t, const char* name) {
  S f = c_.path(name); spit(f, tableText(t)); std::unique_ptr<onex::GroupableTimeSeriesSet> p(new onex::GroupableTimeSeriesSet()); p->loadData(f, 0, 0, " "); return p;
}
inline GFile groupsOf(Ctx& c_, const onex::GroupableTimeSeriesSet& g, const char* name = "g.txt") { S f = c_.path(name); g.saveGroups(f, false); return parseGroups(slurp(f)); }
// a table whose grouping is affordable: N subsequences summed over all lengths is limited
inline void shape(Src& s, int& rows, int& cols, bool big) {
  switch (s.range(0, big ? 9 : 5)) {
    case 0: rows = s.range(1, 3); cols = s.range(1, 4); break;
    case 1: rows = s.range(1, 4); cols = s.range(2, 24); break;
    case 2: rows = s.range(1, 20); cols = s.range(2, 6); break;
    case 3: rows = 1; cols = s.range(1, 30); break;
    case 4: case 5: rows = s.range(2, 7); cols = s.range(2, 12); break;
    case 6: rows = s.size(1, 300); cols = s.range(2, 3); break;
    case 7: rows = 1; cols = s.size(2, 90); break;
    case 8: rows = s.range(1, 3); cols = s.range(25, 40); break;
    default: rows = s.size(1, 60); cols = s.range(2, 8); }
}
inline D genThreshold(Src& s) { if (!NEWFLITS.empty() && s.chance(1, 4)) return (D)std::fabs(specialReal(s, 1)); switch (s.range(0, 9)) { case 0: return 0; case 1: return (D)(s.range(1, 64) * 0.0625); case 2: return (D)(s.range(1, 12) * 0.5); case 3: return (D)s.real(0, 2); case 4: return (D)s.real(0, 20); case 5: return 1e9; case 6: return (D)s.range(1, 4); case 7: return (D)0.2; case 8: return (D)(s.real(0, 1) * s.real(0, 1) * 0.1); default: return (D)1; } }
// hundreds of groups of one length, with late repetitions of early subsequences; thresholds are dyadic, values on a grid
inline Table manyGroups(Src& s, D& st, long maxRows = 1500) {
  int rows = s.size(60, maxRows), cols = s.chance(2, 3) ? 2 : 3; if (rows < 60) rows = 60; if (s.chance(1, 2)) rows = s.range(rows / 2, rows);
  int distinct = s.chance(1, 3) ? rows : s.range(rows / 3, rows); Table t; std::vector<int> perm(distinct); for (int i = 0; i < distinct; i++) perm[i] = i; bool shuffled = s.chance(1, 2); if (shuffled) for (int i = distinct - 1; i > 0; i--) std::swap(perm[i], perm[s.range(0, i)]);
  static const double ST[] = {0, 0.5, 1, 0.25, 0.125}; st = (D)ST[s.range(0, 4)]; double off = s.chance(1, 2) ? 0.25 : 0;
  int nd = 0;
  for (int i = 0; i < rows; i++) { Row r(cols, (D)0); bool rep = nd == distinct || (nd > 0 && rows - i > distinct - nd && s.chance(1, 4)); int k = rep ? perm[s.chance(1, 2) ? s.range(0, std::min(nd - 1, 9)) : s.range(0, nd - 1)] : perm[nd++];
    r[0] = (D)(k % 64 * 1.0); r[1] = (D)(k / 64 * 1.0); if (rep && off > 0 && s.chance(1, 2)) r[s.range(0, 1)] += (D)(s.chance(1, 2) ? off : -off); if (cols == 3) r[2] = r[0]; t.push_back(r); }
  return t;
}
inline bool bigCase(Src& s, int oneIn) { return s.chance(1, NEWLITS.empty() ? oneIn : std::max(8, oneIn / 4)); }
} // namespace vf
