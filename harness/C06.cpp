// C06 piecewise aggregate approximation
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated dataset and one to three block sizes (1, divisors, divisor+-1, larger than the series), aggregated through TimeSeriesSet and OnexAPI next to a bystander, every value compared with the block mean; non-trivial = block size > 1 and series longer than one block";
void runCase(Ctx& c_, Src& s) {
  int rows = s.size(1, s.chance(1, 30) ? 500 : 20), cols = s.size(1, s.chance(1, 8) ? 3000 : 60); const bool huge = s.chance(1, 60); if (huge) { rows = 1; cols = s.range(33000, 140000); }
  if (!huge && (long)rows * cols > 20000) rows = 20000 / cols + 1;
  Table t = genTable(s, rows, huge ? 97 : cols); if (huge) { Row base = t[0]; t[0].resize(cols); for (int i = 97; i < cols; i++) t[0][i] = base[i % 97] + (D)(i % 13); } if (s.chance(1, 10)) { const D M = std::numeric_limits<D>::max(); bool pos = s.chance(1, 2); for (auto& r : t) for (auto& x : r) x = (D)s.real(pos ? 0.2 : -1, 1) * M; } Table other = genTable(s, 3, 7);
  S f = c_.path("d.txt"), fo = c_.path("o.txt"), sf = c_.path("s.txt"); spit(f, tableText(t)); spit(fo, tableText(other));
  GroupableTimeSeriesSet set; set.loadData(f, 0, 0, " ");
  OnexAPI api; bool of = s.chance(1, 2); int a, b; if (of) b = api.loadDataset(fo, 0, 0, " ").id; a = api.loadDataset(f, 0, 0, " ").id; if (!of) b = api.loadDataset(fo, 0, 0, " ").id;
  c_.desc.add(hashTable(t)); c_.maxi("rows", rows); c_.maxi("cols", cols);
  bool norm = s.chance(1, 4); if (norm) { set.normalize(); api.normalizeDataset(a); }
  bool grp = s.chance(1, 6) && (long)rows * cols < 120; if (grp) { set.groupAllLengths("euclidean", 0.3); api.groupDataset(a, 0.3); }
  S sizes;
  for (int k = s.range(1, 3); k > 0; k--) {
    Table before = valuesOf(set); int len = before[0].size(); int n;
    switch (huge && len > 32767 && s.chance(2, 3) ? 7 : s.range(0, 6)) { case 7: n = s.range(32768, len); if (len > 65536 && s.chance(1, 2)) n = s.range(65536, len); break; case 0: n = 1; break; case 1: n = len; break; case 2: n = len + s.range(1, 5); break; case 3: { n = s.range(1, len); while (len % n) n--; n += s.range(-1, 1); if (n < 1) n = 1; break; }
      case 4: n = 2; break; case 5: n = s.chance(1, 4) ? 2147483647 : s.size(1, len + 2); break; default: n = s.size(1, len + 2); }
    c_.desc.add(n); sizes += " " + std::to_string(n); if (n > 1 && len > n) c_.nontrivial = true;
    set.PAA(n); dataset_info_t info = api.PAA(a, n);
    int want = (int)(((long)len + n - 1) / n);
    EXPECT(set.getItemLength() == want && set.getItemCount() == rows, "shape", "length " << len << " block " << n << " gave " << set.getItemCount() << "x" << set.getItemLength() << " instead of " << rows << "x" << want);
    EXPECT(info.id == a && info.itemLength == want && info.itemCount == rows && info.name == f && !info.isGrouped && info.isNormalized == norm, "info", "reported id " << info.id << " " << info.itemCount << "x" << info.itemLength << " grouped " << info.isGrouped << " normalised " << info.isNormalized);
    Table got = valuesOf(set), got2; api.saveDataset(a, sf, ' '); EXPECT(parseTable(slurp(sf), ' ', got2), "saved", "unreadable");
    for (int via = 0; via < 2; via++) {
      Table& g = via ? got2 : got; EXPECT((int)g.size() == rows, "shape", "rows");
      for (int i = 0; i < rows; i++) { EXPECT((int)g[i].size() == want, "shape", "length");
        for (int j = 0; j < want; j++) {
          L sum = 0, mag = 0; int cnt = 0; for (long q = (long)j * n; q < std::min<long>(len, ((long)j + 1) * n); q++) { sum += before[i][q]; mag += fabsl((L)before[i][q]); cnt++; }
          L mean = sum / cnt; L tol = (n == 1 ? 0 : (mag / cnt) * (cnt + 2) * DEPS);
          EXPECT(fabsl((L)g[i][j] - mean) <= tol, "mean", (via ? "OnexAPI" : "TimeSeriesSet") << ": block " << j << " of series " << i << " (block size " << n << ", length " << len << ") is " << g[i][j] << " instead of " << (double)mean);
        } }
      c_.count("values_compared", (u64)rows * want);
    }
  }
  api.saveDataset(b, sf, ' '); Table go; parseTable(slurp(sf), ' ', go);
  EXPECT(go == other, "isolation", "PAA of dataset " << a << " changed dataset " << b);
  c_.sampleText = VF_STR(rows << "x" << cols << " blocks" << sizes << " " << tabText(t))();
}
}
