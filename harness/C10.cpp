// C10 cut-offs and lower bounds
#include "model.hpp"
#include <deque>
using namespace onex;
namespace vf {
const char* RULE = "one case = a pool of 3-6 series objects reused through 30 evaluations of the pairwise, warped, cascaded and Keogh functions with changing band ratios, changing points and cut-offs (just below, at, just above the true value; zero; tiny; huge; infinite), each result against the long-double reference; non-trivial = a finite cut-off below and one above the true distance both occurred";
void runCase(Ctx& c_, Src& s) {
  int k = s.range(3, 6), base = s.size(1, s.chance(1, 30) ? 250 : 30); std::vector<Row> v; std::deque<TimeSeries> ts;
  Table all = genTable(s, k, base + 4);
  for (int i = 0; i < k; i++) { int len = s.chance(2, 3) ? base : std::max(1L, base + s.range(-3, 4)); Row r = sub(all[i], 0, len);
    if (i && s.chance(1, 3)) for (int j = 0; j < len; j++) r[j] = v[0][std::min<long>(v[0].size() - 1, j + (s.chance(1, 6) ? 1 : 0))];
    v.push_back(r); }
  std::vector<Row> store = v; std::vector<char> isView;
  for (int i = 0; i < k; i++) { int len = v[i].size(); isView.push_back(!s.chance(1, 2)); if (!isView[i]) { ts.emplace_back(len); for (int j = 0; j < len; j++) ts.back()[j] = v[i][j]; } else ts.emplace_back(store[i].data(), i, 0, len); }
  c_.desc.add(hashTable(v)); c_.maxi("length", base);
  bool below = false, above = false; double ratio = genRatio(s); setWarpingBandRatio(ratio);
  auto cutoff = [&](L d) -> D { if (std::isinf((double)d)) d = s.real(0, 3);
    switch (s.range(0, 9)) { case 0: return INF; case 1: return 0; case 2: return (D)(d * (1 - 1e-3)); case 3: return (D)(d * (1 + 1e-3)); case 4: return (D)d; case 5: return (D)(d * s.unit()); case 6: return (D)(d * (1 + s.unit() * 3)); case 7: return SP ? (D)1e15 : (D)1e140; case 8: return (D)(d * (1 + (SP ? 1e-4 : 1e-9))); default: return (D)(d * (1 - (SP ? 1e-4 : 1e-9))); } };
  for (int it = 0; it < 30; it++) {
    if (s.chance(1, 6)) { ratio = genRatio(s); setWarpingBandRatio(ratio); }
    if (s.chance(1, 6)) { // the points of a re-used object change, through operator[] or in the array it views
      int z = s.range(0, k - 1), n = v[z].size(); bool viaArray = isView[z] && s.chance(1, 2); int o = s.range(0, k - 1);
      for (int cnt = s.range(1, n); cnt > 0; cnt--) { int q = s.range(0, n - 1); D y = s.chance(1, 2) ? v[o][std::min<long>(v[o].size() - 1, q)] : v[z][s.range(0, n - 1)]; if (viaArray) store[z][q] = y; else ts[z][q] = y; v[z][q] = y; } c_.count("point_writes"); }
    int i = s.range(0, k - 1), j = s.range(0, k - 1); const Row &a = v[i], &b = v[j]; const TimeSeries &A = ts[i], &B = ts[j]; int mx = std::max(a.size(), b.size());
    L dtw = refWarped(a, b, ratio); L tolD = std::isinf((double)dtw) ? 0 : tolFor(dtw, 2 * mx);
    // at a cut-off equal to the distance, with nothing rounded anywhere, an infinite bound would certify too much
    auto exactTie = [&](L d, D cut) { if (!((L)cut == d && d * 64 == floorl(d * 64) && d < 4096)) return false; for (auto* r : {&a, &b}) for (D x : *r) if (!(std::fabs(x) < 1024 && x * 16 == std::floor(x * 16))) return false; c_.count("exact_ties"); return true; };
    auto exactOrAbove = [&](const char* what, D got, L d, D cut) {
      L tol = std::isinf((double)d) ? 0 : tolFor(d, 2 * mx);
      bool ok = near(got, d, 2 * mx) || ((L)got > (L)cut - tol && d >= (L)cut - tol && !(got < d - tol && got < INF && !(got > cut)));
      // a finite value that is not exact must itself lie above the cut-off
      if (!near(got, d, 2 * mx) && !(got > cut)) ok = false;
      if (!(got >= 0)) ok = false;
      EXPECT(ok, "cutoff", what << " of " << rowText(a) << " and " << rowText(b) << " (ratio " << ratio << ") with cut-off " << cut << " is " << got << ", the true distance is " << (double)d);
      if ((L)cut < d) below = true; else if (std::isfinite(cut)) above = true; c_.count("cutoff_checks");
    };
    switch (s.range(0, 4)) {
      case 0: if (a.size() == b.size()) { L e = refEuclid(a, b); D cut = cutoff(e); exactOrAbove("pairwiseDistance", pairwiseDistance(A, B, cut), e, cut); break; } // fallthrough
      case 1: { D cut = cutoff(dtw); exactOrAbove("warpedDistance", warpedDistance(A, B, cut), dtw, cut); break; }
      case 2: { D cut = cutoff(dtw); exactOrAbove("cascadeDistance", cascadeDistance(A, B, cut), dtw, cut); break; }
      case 3: { D cut = cutoff(dtw); D lb = keoghLowerBound(A, B, cut); c_.count("lower_bounds"); if (lb > 0) c_.count("positive_lower_bounds");
        EXPECT(lb >= 0 && (std::isinf(lb) ? (exactTie(dtw, cut) ? false : dtw >= (L)cut - tolD) : (L)lb <= dtw + tolD), "lower-bound", "keoghLowerBound of " << rowText(a) << " and " << rowText(b) << " (ratio " << ratio << ") with cut-off " << cut << " is " << lb << " above the true distance " << (double)dtw); break; }
      default: { D cut = cutoff(dtw); D lb = crossKeoghLowerBound(A, B, cut); c_.count("lower_bounds");
        EXPECT(lb >= 0 && (std::isinf(lb) ? (exactTie(dtw, cut) ? false : dtw >= (L)cut - tolD) : (L)lb <= dtw + tolD), "lower-bound", "crossKeoghLowerBound of " << rowText(a) << " and " << rowText(b) << " (ratio " << ratio << ") with cut-off " << cut << " is " << lb << " above the true distance " << (double)dtw); }
    }
    c_.desc.add(i).add(j).add(ratio);
  }
  c_.nontrivial = below && above; setWarpingBandRatio(0.1);
  c_.sampleText = VF_STR(k << " series of about " << base << " points: " << tabText(v))();
}
}
