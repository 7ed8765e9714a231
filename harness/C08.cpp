// C08 pairwise distance
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = two generated series of equal length (1..5000, rarely up to 140000), held in several places (own storage, views at offsets, sub-range of a dataset), their pairwise distance by function and by name against a long-double reference; plus unequal lengths and unknown names; non-trivial = the series differ";
void runCase(Ctx& c_, Src& s) {
  int n = s.chance(1, 300) && !c_.fuzz ? (int)s.range(65000, 140000) : (int)s.size(1, s.chance(1, 8) ? 5000 : 60); Table t = genTable(s, 2, n); Row a = t[0], b = t[1];
  if (s.chance(1, 8)) b = a; if (s.chance(1, 8)) { b = a; b[s.chance(1, 2) ? n - 1 : s.range(0, n - 1)] += 1; }
  c_.desc.add(hashTable({a, b})); c_.nontrivial = a != b; c_.maxi("length", n);
  auto own = [&](const Row& r) { TimeSeries x((int)r.size()); for (size_t i = 0; i < r.size(); i++) x[i] = r[i]; return x; };
  int off = s.range(0, 9); Row buf(off + n + s.range(0, 5), (D)777); std::copy(a.begin(), a.end(), buf.begin() + off);
  Row bb = b; TimeSeries va(buf.data(), 3, off, off + n), vb(bb.data(), n), oa = own(a), ob = own(b);
  L want = refEuclid(a, b); D got[8]; const dist_t e = getDistance("euclidean");
  got[0] = pairwiseDistance(va, vb, INF); got[1] = pairwiseDistance(vb, va, INF); got[2] = pairwiseDistance(oa, ob, INF); got[3] = pairwiseDistance(oa, vb, INF);
  got[4] = e(va, vb, INF); got[5] = e(ob, oa, INF);
  TimeSeries ca(oa); got[6] = pairwiseDistance(ca, vb, INF); got[7] = pairwiseDistance(vb, oa, INF);
  for (int k = 0; k < 8; k++) EXPECT(near(got[k], want, n), "value", "pairwise distance (variant " << k << ") of length " << n << " is " << got[k] << " instead of " << (double)want << ": " << rowText(a) << " " << rowText(b));
  EXPECT(pairwiseDistance(va, oa, INF) == 0 && pairwiseDistance(oa, oa, INF) == 0, "zero", "distance of a series to itself is " << pairwiseDistance(va, oa, INF));
  for (int i = 0; i < n; i++) EXPECT(sameBits(va[i], a[i]) && sameBits(vb[i], b[i]) && sameBits(oa[i], a[i]), "changed", "evaluating a distance changed the series");
  int m = s.chance(1, 2) ? n + s.range(1, 4) : std::max(1, n - (int)s.range(1, 4)); if (m != n) { Row d(m, (D)1); TimeSeries vd(d.data(), m);
    EXPECT(refused(c_, [&] { pairwiseDistance(va, vd, INF); }, "pairwiseDistance"), "accepted", "pairwise distance of lengths " << n << " and " << m << " accepted");
    EXPECT(refused(c_, [&] { e(vd, ob, INF); }, "pairwiseDistance"), "accepted", "pairwise distance of lengths " << m << " and " << n << " accepted"); }
  S nm = unknownDistance(s); for (int k = s.range(1, 3); k > 0; k--) { EXPECT(refused(c_, [&] { getDistance(nm); }, "getDistance"), "accepted", "distance named '" << nm << "' exists"); if (s.chance(1, 4)) EXPECT(getDistance("euclidean") == e, "name", "the euclidean distance is another after a request for '" << nm << "'"); }
  c_.sampleText = VF_STR("n=" << n << " d=" << (double)want << " " << rowText(a) << " " << rowText(b))();
}
}
