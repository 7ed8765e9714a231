// C27 bundled single-query subsequence search against an exhaustive search
#include "model.hpp"
#include "lib/trillionDTW.h"
namespace vf {
const char* RULE = "one case = 24 small searches (queries of 4-9 points, any band) and one over a data file (20-2000 points; one case in 25 has 99 900 to 230 000 points with the best match planted at a chunk boundary) and a query (cut from it, distorted, or unrelated; either rescaled by powers of ten; length 2 up to 128, rarely beyond one internal chunk; any band, also wider than the query), the reported location, distance and scanned count compared with an exhaustive z-normalised banded search; non-trivial = the winner is not the first window";
#ifndef SINGLE_PRECISION
typedef std::vector<double> V;
static bool znorm(const double* p, int m, V& z, double* cond = nullptr) { long double a = 0, b = 0; for (int i = 0; i < m; i++) a += p[i]; a /= m; for (int i = 0; i < m; i++) b += (p[i] - a) * (p[i] - a); b /= m; if (cond) *cond = b > 0 ? (double)((a * a + b) / b) : 1e300; if (!(b > 0)) return false; long double sd = sqrtl(b); z.resize(m); for (int i = 0; i < m; i++) z[i] = (double)((p[i] - a) / sd); return true; }
static double dtw2(const V& a, const V& b, int r, double stop, V& p, V& q) {
  int m = a.size(); const double I = INFINITY; p.assign(m, I); q.assign(m, I);
  for (int i = 0; i < m; i++) { double rowMin = I; int lo = std::max(0, i - r), hi = std::min(m - 1, i + r); if (lo > 0) q[lo - 1] = I;
    for (int j = lo; j <= hi; j++) { double best = (i == 0 && j == 0) ? 0 : I; if (i > 0) { if (p[j] < best) best = p[j]; if (j > 0 && p[j - 1] < best) best = p[j - 1]; } if (j > lo && q[j - 1] < best) best = q[j - 1]; double d = a[i] - b[j]; q[j] = best + d * d; if (q[j] < rowMin) rowMin = q[j]; }
    if (hi + 1 < m) q[hi + 1] = I; if (rowMin > stop) return rowMin; p.swap(q); }
  return p[m - 1];
}
static void search(Ctx& c_, Src& s, bool big, bool small) {
  int m = s.chance(1, 6) ? s.range(2, 7) : s.chance(1, 5) ? s.size(8, 128) : s.range(8, 40); if (small) m = s.range(4, 9); if (big) m = std::min(m, 40); bool longq = big && s.chance(1, 6); if (longq) { m = s.pick(std::vector<int>{49999, 50001, 99999, 100000, 100001, 100002, 120000, 131072}) + (int)s.range(0, 2); c_.count("queries_beyond_a_chunk", m > 100000); }
  const int E = 100000; int n = big ? E + s.range(-60, s.chance(1, 4) ? 130000 : 200) : s.chance(1, 6) ? m + s.range(0, 3) : m + s.size(1, s.chance(1, 4) ? 2000 : 300);
  if (big && s.chance(1, 4)) n = 2 * E - m + 1 + s.range(-3, 3); if (big && s.chance(1, 6)) n = E + s.range(-2, 2); else if (big && s.chance(1, 5)) n = 2 * E - m + s.range(-2, 4);
  if (small) n = m + s.range(15, 45); if (longq) n = m + s.range(0, 6);
  V d(n); int fl = s.range(0, 5); double v = 0, w = s.real(0.05, 1), off = s.chance(1, 3) ? s.range(-8, 8) : 0;
  for (int i = 0; i < n; i++) switch (fl) { case 0: d[i] = s.real(-1, 1) + off; break; case 1: d[i] = std::sin(w * i) + 0.3 * s.real(-1, 1) + off; break; case 2: d[i] = s.range(-5, 5) + off; break; case 3: v = 0.9 * v + s.real(-1, 1); d[i] = v; break; case 4: d[i] = (i / 7 % 2 ? 3 : -3) + s.real(-1, 1); break; default: d[i] = s.chance(1, 12) ? s.range(-20, 20) : s.real(-2, 2); }
  V q(m); int how = longq ? s.range(2, 4) : s.range(0, 4); long at = big ? s.pick(std::vector<long>{(long)E - m, E - m + 1L, E - m - 1L, E - 1L, E, E - m / 2L, 0, n - m, n - m - 1L, 2L * E - 2 * m + 1, E + 1L}) : s.range(0, n - m);
  if (big && s.chance(1, 3)) at = n - m; if (at < 0 || at > n - m) at = n - m;
  for (int i = 0; i < m; i++) q[i] = how == 0 ? s.real(-1, 1) : how == 1 ? std::sin(0.3 * i) + 0.2 * s.real(-1, 1) : d[at + i] + (how == 3 ? 0.1 * s.real(-1, 1) : 0);
  if (how == 4) { double sc = s.real(0.2, 5), o2 = s.real(-5, 5); for (auto& x : q) x = x * sc + o2; }   // z-normalisation removes this
  if (how == 3 && s.chance(1, 2)) { int k = s.range(0, m - 1); q.erase(q.begin() + k); q.insert(q.begin() + s.range(0, m - 1), q[k < m - 1 ? k : 0]); }
  int r = small ? s.range(1, m - 1) : s.chance(1, 4) ? 0 : s.chance(1, 6) ? m - 1 : s.range(0, std::max(1, m / 4)); if (r > m - 1) r = m - 1; if (big) r = std::min(r, 4); int rAsked = r == m - 1 && s.chance(1, 2) ? s.pick(std::vector<int>{m, m + 1, 2 * m, 1000, 1000000, 2147483647}) : r; if (rAsked < m) rAsked = r; if (rAsked > r) c_.count("bands_beyond_the_query");
  if (s.chance(1, 4)) { double k = std::pow(10.0, s.chance(1, 3) ? s.range(2, 5) : -s.range(2, 6)); for (auto& x : d) x *= k; if (s.chance(1, 2)) for (auto& x : q) x *= k; c_.count("rescaled_searches"); }   // z-normalisation removes the scale
  auto fmt = [&](const V& x, bool lines) { S o; char b[40]; o.reserve(x.size() * 20); for (size_t i = 0; i < x.size(); i++) { snprintf(b, 40, "%.17g", x[i]); o += b; o += lines && i % 10 == 9 ? '\n' : ' '; } return o; };
  V zq; double cond; if (!znorm(q.data(), m, zq, &cond) || cond > 1e4) throw CaseSkipped();
  for (int i = 0; i + m <= n; i++) { double c = 0, a = 0, b = 0; if (i % 1 == 0) { for (int k = 0; k < m; k++) a += d[i + k]; a /= m; for (int k = 0; k < m; k++) b += (d[i + k] - a) * (d[i + k] - a); b /= m; c = b > 0 ? (a * a + b) / b : 1e300; } if (c > 1e4) throw CaseSkipped(); }
  S fd = c_.path("data.txt"), fq = c_.path("query.txt"); spit(fd, fmt(d, s.chance(1, 2)) + (s.chance(1, 2) ? "\n" : "")); c_.count("searches"); V qf = q; if (s.chance(1, 3)) for (int k = s.range(1, 5); k > 0; k--) qf.push_back(s.real(-9, 9)); spit(fq, fmt(qf, s.chance(1, 2)));
  capture(true); try { calculate(fd.c_str(), fq.c_str(), m, rAsked); } catch (...) { capture(false); throw; } capture(false); S out = captured();
  auto field = [&](const S& k, bool& ok) { size_t p = out.find(k); ok = p != S::npos; return ok ? atof(out.c_str() + p + k.size()) : 0.0; };
  bool a, b, e; long loc = (long)field("Location : ", a); double dist = field("Distance : ", b); long scanned = (long)field("Data Scanned : ", e);
  EXPECT(a && b && e, "report", "the search reported no location, distance or scanned count: " << out.substr(0, 300));
  c_.desc.add(n).add(m).add(r).add(d[0]).add(q[0]).add(how); c_.count("windows", n - m + 1); c_.maxi("points", n);
  auto where = [&] { S t = VF_STR("data of " << n << " points, query of " << m << ", band " << r << " (planted at " << at << ", kind " << how << ")")(); if (n <= 40) t += " data " + fmt(d, false) + " query " + fmt(q, false); return t; };
  EXPECT(scanned == n, "scanned", "reports " << scanned << " points scanned of " << n << ": " << where());
  EXPECT(loc >= 0 && loc + m <= n, "location", "location " << loc << " outside the data: " << where());
  double best = INFINITY; long bestAt = -1; V z, t1, t2; 
  for (int i = 0; i + m <= n; i++) { znorm(&d[i], m, z); double x = dtw2(z, zq, r, best, t1, t2); if (x < best) { best = x; bestAt = i; } }
  znorm(&d[loc], m, z); double got = std::sqrt(dtw2(z, zq, r, INFINITY, t1, t2)); best = std::sqrt(best); if (bestAt != 0) c_.nontrivial = true; if (big) c_.count("multi_chunk_files");
  double tol = 2e-5 * best + 2e-4;
  EXPECT(std::fabs(dist - best) <= tol, "distance", "reports distance " << dist << " where the nearest window (at " << bestAt << ") is at " << best << ": " << where());
  EXPECT(got <= best + tol, "location", "reports location " << loc << " at distance " << got << " where the nearest window (at " << bestAt << ") is at " << best << ": " << where());
  c_.sampleText = where() + VF_STR(" -> location " << loc << " distance " << dist)(); if (c_.sampleText.size() > 400) c_.sampleText.resize(400);
}
void runCase(Ctx& c_, Src& s) {
  if (s.chance(1, 25)) { search(c_, s, true, false); return; }
  int ok = 0; for (int k = 0; k < 24; k++) try { search(c_, s, false, true); ok++; } catch (CaseSkipped&) { c_.count("skipped_searches"); }   // lower bounds are tight on short queries in wide bands
  try { search(c_, s, false, false); } catch (CaseSkipped&) { if (!ok) throw; }
}
#endif
}
