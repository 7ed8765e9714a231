// C28 candidate ordering
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a pool of up to 60 candidates whose distances are equal or differ by clearly more than the tolerance (gaps from 1e-9 to large, fractional gaps below 1 included), positions drawn from a small set so that ties go deep; all pairs checked, sorts checked; non-trivial = pairs with equal distance and pairs with a fractional gap occurred";
void runCase(Ctx& c_, Src& s) {
  int n = s.size(2, 60), nd = s.range(1, 8); std::vector<D> ds; Row pts = genTable(s, 1, 30)[0];
  double scale = std::pow(10.0, s.range(SP ? -2 : -8, 3));
  { std::set<D> u; for (int i = 0; i < nd; i++) { D x; switch (s.range(0, 4)) { case 0: x = (D)(s.range(0, 20) * scale); break; case 1: x = (D)(s.range(0, 1000) / 1000.0); break; case 2: x = (D)s.range(0, 5); break; case 3: x = (D)(1 + s.range(0, 50) * scale * 0.1); break; default: { static const double B[] = {100, 1000, 12345, 1e6, 1e9}; double b = SP ? B[s.range(0, 1)] : B[s.range(0, 4)]; x = (D)b; for (int k = s.range(0, 6); k > 0; k--) x = std::nextafter(x, (D)INFINITY); } }
      bool far = true; for (D y : u) if (y != x && fabsl((L)y - x) < 2e-12L) far = false; if (far) u.insert(x); } ds.assign(u.begin(), u.end()); }
  std::vector<candidate_time_series_t> v; struct K { D d; int i, a, l; }; std::vector<K> k;
  for (int i = 0; i < n; i++) { int a = s.range(0, 4), l = s.range(1, 5), ix = s.chance(1, 10) ? s.range(0, 100000) : s.range(0, 3); D d = s.pick(ds); v.emplace_back(TimeSeries(pts.data(), ix, a, a + l), d); k.push_back({d, ix, a, l}); c_.desc.add(d).add(ix).add(a).add(l); }
  auto less = [](const K& x, const K& y) { if (x.d != y.d) return x.d < y.d; if (x.i != y.i) return x.i < y.i; if (x.a != y.a) return x.a < y.a; return x.l < y.l; };
  bool eq = false, frac = false;
  for (int i = 0; i < n; i++) { EXPECT(!(v[i] < v[i]), "irreflexive", "a candidate comes before itself");
    for (int j = 0; j < n; j++) { if (i == j) continue; bool got = v[i] < v[j], want = less(k[i], k[j]); if (k[i].d == k[j].d) eq = true; else if (std::fabs(k[i].d - k[j].d) < 1) frac = true;
      EXPECT(got == want, "order", "candidate (dist " << k[i].d << ", series " << k[i].i << ", start " << k[i].a << ", length " << k[i].l << ") " << (got ? "comes" : "does not come") << " before (dist " << k[j].d << ", series " << k[j].i << ", start " << k[j].a << ", length " << k[j].l << ")");
      EXPECT(!(got && v[j] < v[i]), "asymmetric", "two candidates each come before the other"); } }
  c_.nontrivial = eq && frac; c_.count("pairs", (u64)n * (n - 1));
  std::vector<candidate_time_series_t> w(v); std::sort(w.begin(), w.end()); std::sort(k.begin(), k.end(), less);
  for (int i = 0; i < n; i++) { EXPECT(w[i].dist == k[i].d && w[i].data.getIndex() == k[i].i && w[i].data.getStart() == k[i].a && w[i].data.getLength() == k[i].l, "sort", "position " << i << " after sorting holds distance " << w[i].dist << " series " << w[i].data.getIndex() << " instead of " << k[i].d << " series " << k[i].i); if (i) EXPECT(w[i - 1].dist <= w[i].dist, "sort", "sorted distances decrease"); }
  c_.sampleText = VF_STR(n << " candidates over " << ds.size() << " distances, first " << ds[0])();
}
}
