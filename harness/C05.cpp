// C05 normalisation: exact min-max scaling of the whole dataset
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated dataset (rows x length, value flavour, extremes placed anywhere), optional preceding load options/PAA/grouping/second normalise, normalised through TimeSeriesSet and OnexAPI next to a bystander dataset; non-trivial = at least two distinct values and more than one point";
void runCase(Ctx& c_, Src& s) {
  int rows = s.size(1, s.chance(1, 30) ? 400 : 20), cols = s.size(1, s.chance(1, 12) ? 1500 : 40);
  if ((long)rows * cols > 30000) rows = 30000 / cols + 1;
  Table t = genTable(s, rows, cols);
  // place extremes at chosen positions
  if (s.chance(2, 3)) {
    D lo = 1e30, hi = -1e30; for (auto& r : t) for (D x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
    D step = std::max<D>(1, std::fabs(hi - lo));
    int k = s.range(0, 3);
    auto pos = [&](int n) { return (int)(s.chance(1, 3) ? n - 1 : s.chance(1, 2) ? 0 : s.range(0, n - 1)); };
    if (k != 1) t[pos(rows)][pos(cols)] = hi + step;
    if (k != 0) t[pos(rows)][pos(cols)] = lo - step;
  }
  if (s.chance(1, 8)) { // ranges near, at and beyond the largest number, and tiny ones
    const D M = std::numeric_limits<D>::max(); int k = s.range(0, 2);
    D f = k == 2 ? std::numeric_limits<D>::min() * (D)1024 : M / (D)s.range(1, 3);
    for (auto& r : t) for (auto& x : r) x = (D)s.real(-1, 1) * f;
    if (k == 0) { t[s.range(0, rows - 1)][s.range(0, cols - 1)] = M; t[s.range(0, rows - 1)][s.range(0, cols - 1)] = -M; }
  }
  Table other = genTable(s, 2, 3);
  S f = c_.path("d.txt"), fo = c_.path("o.txt");
  spit(f, tableText(t)); spit(fo, tableText(other));
  c_.desc.add(hashTable(t)); c_.maxi("rows", rows); c_.maxi("cols", cols);
  int pre = s.range(0, 9);

  GroupableTimeSeriesSet set; set.loadData(f, 0, 0, " ");
  EXPECT(!set.isNormalized(), "flag-before", "fresh dataset reported as normalised");
  if (pre == 1) set.PAA(s.size(1, cols + 2));
  if (pre == 2 && (long)rows * cols * cols < 4000) set.groupAllLengths("euclidean", 0.5);
  if (pre == 3) set.normalize();
  if (pre == 4) { set.normalize(); set.PAA(s.range(1, std::max(2, cols / 2))); }
  if (pre == 5) { set.PAA(s.range(1, 3)); set.normalize(); set.normalize(); }
  if (pre == 6) { set.normalize(); set.loadData(f, s.range(1, rows), s.range(0, cols - 1), " "); EXPECT(!set.isNormalized(), "flag-before", "reloaded dataset reported as normalised"); }
  if (pre == 7) { if ((long)rows * cols * cols < 4000) { set.normalize(); set.groupAllLengths("euclidean", 0.5); } set.PAA(s.range(1, 3)); }
  Table before = valuesOf(set);
  D lo = before[0][0], hi = lo; for (auto& r : before) for (D x : r) { lo = std::min(lo, x); hi = std::max(hi, x); }
  c_.nontrivial = lo != hi && before.size() * before[0].size() > 1;
  auto judge = [&](const Table& after, std::pair<D, D> ret, const char* via) {
    EXPECT(eqv(ret.first, lo) && eqv(ret.second, hi), "min-max", via << ": returned (" << ret.first << ", " << ret.second << ") but the extremes are (" << lo << ", " << hi << ") in " << tabText(before));
    EXPECT(after.size() == before.size(), "shape", via << ": item count " << after.size() << " != " << before.size());
    D amin = INFINITY, amax = -INFINITY;
    for (size_t i = 0; i < before.size(); i++) {
      EXPECT(after[i].size() == before[i].size(), "shape", via << ": length of series " << i << " is " << after[i].size());
      for (size_t j = 0; j < before[i].size(); j++) {
        D v = after[i][j]; amin = std::min(amin, v); amax = std::max(amax, v);
        L want = lo == hi ? 0 : ((L)before[i][j] - lo) / ((L)hi - lo);
        EXPECT(v >= 0 && v <= 1, "range", via << ": value " << v << " at (" << i << "," << j << ") outside [0,1]; was " << before[i][j] << " with extremes " << lo << ", " << hi);
        EXPECT(fabsl(v - want) <= 8 * DEPS, "value", via << ": value at (" << i << "," << j << ") is " << v << " instead of " << (double)want << " (was " << before[i][j] << ", extremes " << lo << ", " << hi << ")");
      }
    }
    if (lo != hi) EXPECT(amin == 0 && amax == 1, "extremes", via << ": extremes after normalising are " << amin << ", " << amax);
    // order preserved
    std::vector<std::pair<D, D>> o; for (size_t i = 0; i < before.size(); i++) for (size_t j = 0; j < before[i].size(); j++) o.push_back({before[i][j], after[i][j]});
    std::sort(o.begin(), o.end());
    for (size_t i = 1; i < o.size(); i++) EXPECT(o[i - 1].second <= o[i].second, "order", via << ": order of " << o[i - 1].first << " and " << o[i].first << " reversed");
    c_.count("values_compared", before.size() * before[0].size());
  };
  auto ret = set.normalize();
  judge(valuesOf(set), ret, "TimeSeriesSet");
  EXPECT(set.isNormalized(), "flag", "dataset not reported as normalised");
  EXPECT(set.getItemCount() == (int)before.size() && set.getItemLength() == (int)before[0].size(), "shape", "shape changed");

  // the same through the API, next to bystanders
  OnexAPI api; spit(f, tableText(before));
  bool otherFirst = s.chance(1, 2); int b = -1, a;
  if (otherFirst) b = api.loadDataset(fo, 0, 0, " ").id;
  a = api.loadDataset(f, 0, 0, " ").id;
  if (!otherFirst) b = api.loadDataset(fo, 0, 0, " ").id;
  auto r2 = api.normalizeDataset(a);
  S sf = c_.path("s.txt"); api.saveDataset(a, sf, ' '); Table got;
  EXPECT(parseTable(slurp(sf), ' ', got), "saved", "saved file unreadable");
  judge(got, r2, "OnexAPI");
  auto ia = api.getDatasetInfo(a), ib = api.getDatasetInfo(b);
  EXPECT(ia.isNormalized && !ib.isNormalized, "flag", "flags after normalising: target " << ia.isNormalized << ", other " << ib.isNormalized);
  EXPECT(ia.itemCount == (int)before.size() && ia.itemLength == (int)before[0].size(), "shape", "reported shape changed");
  api.saveDataset(b, sf, ' '); parseTable(slurp(sf), ' ', got);
  EXPECT(got == other, "isolation", "normalising dataset " << a << " changed dataset " << b);
  c_.sampleText = VF_STR(rows << "x" << cols << " pre=" << pre << " extremes=(" << lo << "," << hi << ") " << tabText(before))();
}
}
