// C03 save / reload bit for bit
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a dataset of finite values (subnormal ones and the largest included) after a random sequence of normalise/PAA, saved with a separator that cannot occur in a number and reloaded (through set objects and the API), compared bit for bit; saving twice gives the same file and leaves memory unchanged; non-trivial = a value needing more than 6 significant digits";
void runCase(Ctx& c_, Src& s) {
  int rows = s.size(1, s.chance(1, 30) ? 600 : 20), cols = s.size(1, s.chance(1, 12) ? 1500 : 40);
  if ((long)rows * cols > 8000) rows = 8000 / cols + 1;
  Table t = genTable(s, rows, cols);
  if (s.chance(1, 2)) for (auto& r : t) for (auto& x : r) switch (s.range(0, 7)) {
    case 0: x = (D)s.real(-1, 1); break; case 1: x = (D)(s.real(-10, 10) * std::pow(10.0, s.range(SP ? -30 : -290, SP ? 30 : 290))); break;
    case 2: x = std::nextafter((D)s.range(1, 10), (D)1e9); break; case 3: x = (D)1 / (D)s.range(1, 1000); break;
    case 4: x = (D)s.range(-1000000000, 1000000000); break; case 5: { u64 b = s.next(); D v; 
#ifdef SINGLE_PRECISION
      uint32_t q = (uint32_t)b; memcpy(&v, &q, 4);
#else
      memcpy(&v, &b, 8);
#endif
      if (std::isfinite(v)) x = v; break; }
    case 6: x = s.chance(1, 2) ? std::numeric_limits<D>::max() / (D)s.range(1, 8) : s.chance(1, 2) ? std::numeric_limits<D>::denorm_min() * (D)s.range(-1000, 1000) : std::numeric_limits<D>::min() * 2; break; default: break; }
  S f = c_.path("in.txt"); spit(f, tableText(t));
  static const char SEPS[] = " ,;\t|:_#/\"\xa7\xff\x01zG~";
  char sep = SEPS[s.range(0, (long)sizeof SEPS - 2)];
  bool viaApi = s.chance(1, 2);
  OnexAPI api; GroupableTimeSeriesSet set; int id = -1;
  api.loadDataset(f, 0, 0, " "); S fo = c_.path("o.txt"); spit(fo, "5 6\n7 8\n"); api.loadDataset(fo, 0, 0, " ");
  id = 0; set.loadData(f, 0, 0, " ");
  int ops = s.range(0, 3); S hist;
  for (int k = 0; k < ops; k++) {
    if (s.chance(1, 2)) { set.normalize(); api.normalizeDataset(id); hist += "N"; }
    else { int n = s.size(1, set.getItemLength() + 1); set.PAA(n); api.PAA(id, n); hist += "P" + std::to_string(n); }
  }
  Table v = valuesOf(set);
  bool digits = false; for (auto& r : v) for (D x : r) { char b[40]; snprintf(b, 40, "%.6g", (double)x); if ((D)strtod(b, 0) != x) digits = true; }
  c_.desc.add(hashTable(v)).add(sep); c_.nontrivial = digits; c_.maxi("rows", rows); c_.maxi("cols", cols);
  S o1 = c_.path("s1.txt"), o2 = c_.path("s2.txt");
  // an old longer file may be in the way
  if (s.chance(1, 3)) spit(o1, S(200000, 'x'));
  if (viaApi) api.saveDataset(id, o1, sep); else set.saveData(o1, sep);
  S text1 = slurp(o1);
  auto cmp = [&](const Table& got, const char* via) {
    EXPECT(got.size() == v.size(), "shape", via << ": " << got.size() << " series instead of " << v.size());
    for (size_t i = 0; i < v.size(); i++) { EXPECT(got[i].size() == v[i].size(), "shape", via << ": series " << i << " has length " << got[i].size() << " instead of " << v[i].size());
      for (size_t j = 0; j < v[i].size(); j++) EXPECT(sameBits(got[i][j], v[i][j]), "bits", via << ": value (" << i << "," << j << ") " << v[i][j] << " came back as " << got[i][j]); }
    c_.count("values_compared", v.size() * v[0].size());
  };
  TimeSeriesSet back; back.loadData(o1, 0, 0, S(1, sep));
  EXPECT(back.getItemCount() == set.getItemCount() && back.getItemLength() == set.getItemLength(), "shape", "reloaded shape " << back.getItemCount() << "x" << back.getItemLength());
  cmp(valuesOf(back), "reload");
  // saving changes nothing in memory, and saving again gives the same file
  cmp(valuesOf(set), "memory after save");
  if (viaApi) api.saveDataset(id, o2, sep); else set.saveData(o2, sep);
  EXPECT(slurp(o2) == text1, "again", "saving twice gave different files");
  // second generation and API reload
  OnexAPI api2; auto info = api2.loadDataset(o1, 0, 0, S(1, sep));
  EXPECT(info.itemCount == (int)v.size() && info.itemLength == (int)v[0].size(), "shape", "API reload reports " << info.itemCount << "x" << info.itemLength);
  api2.saveDataset(info.id, o2, sep);
  TimeSeriesSet back2; back2.loadData(o2, 0, 0, S(1, sep)); cmp(valuesOf(back2), "second generation");
  auto inf = api.getDatasetInfo(id); EXPECT(inf.itemCount == (int)v.size() && inf.itemLength == (int)v[0].size() && inf.isNormalized == (hist.find('N') != S::npos), "memory", "dataset info changed by saving");
  c_.sampleText = VF_STR(v.size() << "x" << v[0].size() << " ops=" << hist << " sep='" << sep << "' " << tabText(v))();
}
}
