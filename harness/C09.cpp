// C09 warped distance = optimal band-constrained alignment
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = two generated series (lengths 1..40, sometimes up to 700, equal, within the band or beyond it; often a shifted or stretched copy), a band ratio in [0,1], warped distance by function and by name, both argument orders, against a full long-double dynamic programme; non-trivial = band admits the pair and the series differ";
void runCase(Ctx& c_, Src& s) {
  int n = s.size(1, s.chance(1, 40) ? 700 : 40), m; double ratio = genRatio(s); if (n > 1 && s.chance(1, 6)) ratio = edgeRatio(s, n); int r = refBand(n, ratio);
  switch (s.range(0, 5)) { case 0: m = s.size(1, 40); break; case 1: m = std::max(1, n - r); break; case 2: m = std::max(1, n - r - 1); break; case 3: m = std::max(1, n - (int)s.range(0, std::max(1, r))); break; case 4: m = s.chance(1, 3) ? 1 : n; break; default: m = n; }
  if (s.chance(1, 10)) n = 1;
  const bool vast = s.chance(1, 900) && !c_.fuzz; if (vast) { n = s.range(8193, 8500); m = n - (int)s.range(0, 3); ratio = s.real(0.0005, 0.002); c_.count("vast_pairs"); }
  Table t; int k = s.range(0, 3); Row a(n), b(m); { Table q = genTable(s, 2, std::max(n, m)); a = sub(q[0], 0, n); b = sub(q[1], 0, m); }
  if (k == 1) { int sh = s.range(-3, 3); for (int i = 0; i < m; i++) b[i] = a[std::min(n - 1, std::max(0, i + sh))]; }
  if (k == 2) for (int i = 0; i < m; i++) b[i] = a[std::min(n - 1L, (long)i * n / m)];
  if (s.chance(1, 2)) std::swap(a, b);
  n = a.size(); m = b.size(); int mx = std::max(n, m);
  setWarpingBandRatio(ratio); int band = refBand(mx, ratio);
  c_.desc.add(hashTable({a, b})).add(ratio); c_.maxi("length", mx);
  EXPECT(calculateWarpingBandSize(mx) == band && calculateWarpingBandSize(n) == refBand(n, ratio), "band", "band of length " << mx << " at ratio " << ratio << " is " << calculateWarpingBandSize(mx) << " instead of " << band);
  for (int k = 0; k < 6; k++) { int len = (int)s.size(1, k < 3 ? 3000 : 2147483647L); EXPECT(calculateWarpingBandSize(len) == refBand(len, ratio), "band", "band of length " << len << " at ratio " << ratio << " is " << calculateWarpingBandSize(len) << " instead of " << refBand(len, ratio)); }
  L want = refDTW(a, b, band);
  int off = s.range(0, 5); Row buf(off + n, (D)-999); std::copy(a.begin(), a.end(), buf.begin() + off); buf.push_back((D)12345);
  TimeSeries va(buf.data(), 1, off, off + n), vb(b.data(), m); TimeSeries oa(n), ob(m); for (int i = 0; i < n; i++) oa[i] = a[i]; for (int i = 0; i < m; i++) ob[i] = b[i];
  const dist_t e = getDistance("euclidean_dtw");
  D got[5] = {warpedDistance(va, vb, INF)}; const int variants = vast ? 1 : 5; if (!vast) { got[1] = warpedDistance(vb, va, INF); got[2] = warpedDistance(oa, ob, INF); got[3] = e(va, ob, INF); got[4] = e(vb, oa, INF); }
  for (int q = 0; q < variants; q++) {
    if (std::abs(n - m) > band) EXPECT(std::isinf(got[q]) && got[q] > 0, "outside", "lengths " << n << "," << m << " band " << band << ": distance " << got[q] << " instead of infinity");
    else EXPECT(near(got[q], want, 2 * mx), "value", "warped distance (variant " << q << ") lengths " << n << "," << m << " band " << band << " ratio " << ratio << " is " << got[q] << " instead of " << (double)want << ": " << rowText(a) << " " << rowText(b));
  }
  if (n == m) { L st = 0; for (int i = 0; i < n; i++) { L d = (L)a[i] - b[i]; st += d * d; } st = sqrtl(st) / (2 * n); EXPECT((L)got[0] <= st + tolFor(st, 2 * n), "straight", "distance " << got[0] << " exceeds the straight alignment " << (double)st); 
    if (!vast) EXPECT(warpedDistance(va, oa, INF) == 0, "zero", "distance to itself is " << warpedDistance(va, oa, INF)); }
  if (std::abs(n - m) <= band) { c_.count("admitted"); if (n != m) c_.count("admitted_unequal"); c_.nontrivial = want > 0; }
  c_.sampleText = VF_STR("n=" << n << " m=" << m << " ratio=" << ratio << " d=" << (double)want << " " << rowText(a) << " " << rowText(b))();
  setWarpingBandRatio(0.1);
}
}
