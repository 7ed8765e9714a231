// Independent reference model: data generation, file formats, distances, envelopes, grouping, matching.
#pragma once
#include "common.hpp"
#include "OnexAPI.hpp"
#include "Exception.hpp"

namespace vf {
typedef onex::data_t D;
typedef long double L;
typedef std::vector<D> Row;
typedef std::vector<Row> Table;

#ifdef SINGLE_PRECISION
static const L DEPS = FLT_EPSILON; static const L TINY = 1e-15L; static const bool SP = true;
static const D BIG = 1e15f;
#else
static const L DEPS = DBL_EPSILON; static const L TINY = 1e-140L; static const bool SP = false;
static const D BIG = 1e150;
#endif

// ---------------------------------------------------------------- data generation
enum { FL_TIES, FL_INT, FL_UNI, FL_WALK, FL_CONST, FL_DUP, FL_MIX, FL_SINE, FL_GRID, FL_MONO, FL_SPIKE, FL_BINARY, FL_SHIFT, FL_N };
inline D val(double x) { return (D)x; }
inline void genRow(Src& s, Row& r, int fl, const Table& prev) {
  size_t n = r.size();
  double a = s.real(-3, 3), ph = s.real(0, 6.28), w = s.real(0.05, 1.5);
  switch (fl) {
    case FL_TIES: for (auto& x : r) x = val(s.range(0, 2)); break;
    case FL_INT: for (auto& x : r) x = val(s.range(-20, 20)); break;
    case FL_UNI: for (auto& x : r) x = val(s.real(-1, 1)); break;
    case FL_WALK: { double v = a; for (auto& x : r) { v += s.real(-1, 1); x = val(v); } break; }
    case FL_CONST: { double v = s.range(-3, 3) * 0.5; for (auto& x : r) x = val(v); break; }
    case FL_DUP: if (!prev.empty() && prev[0].size() == n) { r = prev[s.range(0, (long)prev.size() - 1)]; if (n && s.chance(2, 3)) r[s.range(0, n - 1)] += val(s.range(-2, 2)); }
                 else for (auto& x : r) x = val(s.range(0, 5)); break;
    case FL_MIX: for (auto& x : r) { double e = s.range(SP ? -6 : -30, SP ? 8 : 40); x = val(s.real(-9.99, 9.99) * std::pow(10.0, e)); } break;
    case FL_SINE: for (size_t i = 0; i < n; i++) r[i] = val(a * std::sin(ph + w * i)); break;
    case FL_GRID: for (auto& x : r) x = val(s.range(-16, 16) * 0.25); break;
    case FL_MONO: { double v = s.range(-50, 50), d = s.chance(1, 2) ? 1 : -1; for (auto& x : r) { x = val(v); v += d * s.range(0, 3); } break; }
    case FL_SPIKE: { for (auto& x : r) x = val(s.range(0, 3)); if (n) r[s.range(0, n - 1)] = val(s.range(-1000, 1000)); if (n && s.chance(1, 2)) r[n - 1] = val(s.range(-1000, 1000)); if (n && s.chance(1, 4)) r[0] = val(s.range(-1000, 1000)); break; }
    case FL_BINARY: for (auto& x : r) x = s.chance(1, 2) ? val(0) : val(1); break;
    case FL_SHIFT: { double off = s.range(-1000, 1000); for (auto& x : r) x = val(off + s.real(0, 1)); break; }
  }
  if (n && fl != FL_MIX && s.chance(1, 20)) r[s.range(0, n - 1)] = val(-0.0);
}
inline Table genTable(Src& s, int rows, int cols, int fl = -1) {
  Table t;
  bool fixed = fl >= 0; if (!fixed) fl = s.range(0, FL_N - 1);
  bool mixed = !fixed && s.chance(1, 3);
  for (int i = 0; i < rows; i++) { Row r(cols); genRow(s, r, mixed ? s.range(0, FL_N - 1) : (fl == FL_DUP && i == 0 ? (int)FL_WALK : fl), t); t.push_back(r); }
  if (!fixed && s.chance(1, 25)) { D f = (D)std::ldexp(1.0, (int)(s.chance(1, 2) ? 1 : -1) * (int)s.range(8, SP ? 20 : 60)); for (auto& r : t) for (auto& x : r) x *= f; }   // the same data in another unit
  if (!fixed && rows > 0 && cols > 0 && (!NEWLITS.empty() || !NEWFLITS.empty()) && s.chance(1, 5))
    for (int k = s.range(1, 4); k > 0; k--) { double v = NEWFLITS.empty() || (!NEWLITS.empty() && s.chance(1, 2)) ? (double)(s.pick(NEWLITS) + s.range(-1, 1)) : specialReal(s, 1); if (std::fabs(v) < 1e12) t[s.range(0, rows - 1)][s.range(0, cols - 1)] = val(s.chance(1, 3) ? -v : v); }
  return t;
}
// values on a coarse grid: all distances and thresholds exactly representable comparisons
inline bool gridFlavour(int fl) { return fl == FL_TIES || fl == FL_INT || fl == FL_GRID || fl == FL_BINARY || fl == FL_MONO; }

inline S num(D v) { char b[64]; snprintf(b, sizeof b, SP ? "%.9g" : "%.17g", (double)v); return b; }
inline S tableText(const Table& t, const S& sep = " ") {
  S o; for (auto& r : t) { for (size_t j = 0; j < r.size(); j++) { if (j) o += sep; o += num(r[j]); } o += "\n"; } return o;
}
inline S rowText(const Row& r) { S o = "["; for (size_t i = 0; i < r.size() && i < 24; i++) { if (i) o += ", "; o += num(r[i]); } if (r.size() > 24) o += ", ..."; return o + "]"; }
inline S tabText(const Table& t) { S o; for (size_t i = 0; i < t.size() && i < 6; i++) o += rowText(t[i]) + " "; if (t.size() > 6) o += "..."; return o; }
inline bool sameBits(D a, D b) { return memcmp(&a, &b, sizeof a) == 0; }
inline bool eqv(D a, D b) { return a == b || sameBits(a, b); }   // equal as numbers
inline u64 hashTable(const Table& t) { Hash h; for (auto& r : t) { u64 n = r.size(); h.add(n); for (D x : r) h.add(x); } return h.get(); }

// values of a live set through the public accessor
// a name that is no distance: far from the known ones, or just beside one
inline S unknownDistance(Src& s) {
  static const char* NAMES[] = {"", "Euclidean", "euclidean ", " euclidean", "euclid", "euclidean_", "dtw", "euclidean_dt", "no_such_distance", "EUCLIDEAN", "0", "manhattan", "_dtw", "euclidean_dtw_dtw", "euclideaneuclidean", "euclidean-dtw", "dtw_euclidean", "euclidean\n"};
  if (s.chance(1, 2)) return NAMES[s.range(0, 17)];
  S n = s.chance(1, 2) ? "euclidean" : "euclidean_dtw"; size_t p = s.range(0, (long)n.size() - 1); static const char X[] = "_ 2xdtwE-0";
  switch (s.range(0, 4)) { case 0: n += X[s.range(0, 9)]; break; case 1: n = S(1, X[s.range(0, 9)]) + n; break; case 2: n.erase(p, 1); break; case 3: n[p] ^= 32; break; default: n.insert(p, 1, 'q'); }
  if (n == "euclidean" || n == "euclidean_dtw") n += "!"; return n;
}
inline Table valuesOf(const onex::TimeSeriesSet& d) {
  Table t; for (int i = 0; i < d.getItemCount(); i++) { onex::TimeSeries ts = d.getTimeSeries(i); Row r(ts.getLength()); for (int j = 0; j < ts.getLength(); j++) r[j] = ts[j]; t.push_back(r); } return t;
}
// naive parser for saved dataset files (single char separator, possibly trailing)
inline bool parseTable(const S& text, char sep, Table& t) {
  t.clear(); std::istringstream in(text); S line;
  while (std::getline(in, line)) {
    Row r; size_t i = 0;
    while (i <= line.size()) { size_t j = line.find(sep, i); if (j == S::npos) j = line.size(); S tok = line.substr(i, j - i); i = j + 1;
      if (tok.empty()) continue; char* e; double v = strtod(tok.c_str(), &e); if (*e && *e != '\r') return false; r.push_back((D)v); }
    t.push_back(r);
  }
  return true;
}

// call f; true if it raised the library's error; any other exception is a verdict of its own
template <class F> bool refused(Ctx& c_, F f, const S& what) {
  try { f(); return false; }
  catch (onex::OnexException&) { c_.count("refusals"); return true; }
  catch (std::exception& e) { c_.fail("foreign-exception", what + ": raised a foreign exception: " + e.what()); }
}

// ---------------------------------------------------------------- distances
inline L refEuclid(const Row& a, const Row& b) { L t = 0; for (size_t i = 0; i < a.size(); i++) { L d = (L)a[i] - b[i]; t += d * d; } return sqrtl(t / a.size()); }
inline int refBand(int n, double ratio) { double r = std::floor(n * ratio); return r >= n - 1 ? n - 1 : (int)r; }
inline L refDTW(const Row& a, const Row& b, int r) {
  int m = a.size(), n = b.size(); const L I = std::numeric_limits<L>::infinity();
  std::vector<L> p(n, I), q(n, I);
  for (int i = 0; i < m; i++) {
    std::fill(q.begin(), q.end(), I);
    for (int j = std::max(0, i - r); j <= std::min(n - 1, i + r); j++) {
      L best = (i == 0 && j == 0) ? 0 : I;
      if (i > 0) best = std::min(best, p[j]);
      if (j > 0) best = std::min(best, q[j - 1]);
      if (i > 0 && j > 0) best = std::min(best, p[j - 1]);
      L d = (L)a[i] - b[j]; q[j] = best + d * d;
    }
    p.swap(q);
  }
  return sqrtl(p[n - 1]) / (2 * std::max(m, n));
}
inline L refWarped(const Row& a, const Row& b, double ratio) { return refDTW(a, b, refBand(std::max(a.size(), b.size()), ratio)); }
inline L maxAbs(const Row& a) { L m = 0; for (D x : a) m = std::max(m, fabsl((L)x)); return m; }
// tolerance for a computed distance whose exact value is d; differences of stored values are
// computed with one rounding each, so the error is relative to the distance (plus underflow)
inline L tolFor(L d, size_t n) { return d * (8.0L * (n + 16)) * DEPS + TINY; }
inline bool near(L got, L want, size_t n) { if (std::isinf((double)want) || std::isinf((double)got)) return got == want; return fabsl(got - want) <= tolFor(std::max(fabsl(want), fabsl(got)), n); }

// ratios whose product with any length is either exact or far from an integer
// just above or just below k/n
inline double edgeRatio(Src& s, int n) { static const double F[] = {1 + 1e-9, 1 - 1e-9, 1 + 1e-12, 1 - 1e-12}; return (double)s.range(1, std::max(1, n - 1)) / n * F[s.range(0, 3)]; }
inline double genRatio(Src& s) {
  if (s.chance(1, 12)) return edgeRatio(s, s.range(2, 24));
  if (s.chance(1, 30)) { static const double W[] = {1.5, 2, 1.0000001, 1e9, 1e300, INFINITY, 1e-300, 1e-9, 0.999999, 100}; return W[s.range(0, 9)]; }
  if (s.chance(1, 10)) return s.unit();
  static const double R[] = {0, 1, 0.5, 0.25, 0.125, 0.75, 0.0625, 0.375, 0.875, 0.03125, 0.1, 0.1, 1.0, 0.5};
  if (s.chance(3, 4)) return R[s.range(0, 13)];
  return s.range(0, 64) / 64.0;
}

// ---------------------------------------------------------------- group files
struct GGroup { Row rep; std::vector<std::pair<int,int>> mem; };
struct GFile { int version = 0; D st = 0; int items = 0, len = 0, from = 0, to = 0; S dist; std::vector<std::vector<GGroup>> byLen; bool ok = false; };
inline bool readNum(std::istream& in, D& v) { S t; if (!(in >> t)) return false; char* e; double x = strtod(t.c_str(), &e); v = (D)x; return *e == 0; }
// lengths 2..len; the upper bound in line 2 is read as len or len+1 (the documentation and the writer disagree)
inline GFile parseGroups(const S& text, bool allowRest = false) {
  GFile g; std::istringstream in(text);
  if (!(in >> g.version) || !readNum(in, g.st) || !(in >> g.items >> g.len >> g.from >> g.to >> g.dist)) return g;
  if (g.items <= 0 || g.len <= 0 || g.from != 2 || (g.to != g.len && g.to != g.len + 1)) return g;
  g.byLen.resize(g.len + 1);
  for (int l = 2; l <= g.len; l++) {
    long k; if (!(in >> k) || k < 0 || k > 10000000) return g;
    for (long i = 0; i < k; i++) {
      GGroup gg; gg.rep.resize(l); for (auto& x : gg.rep) if (!readNum(in, x)) return g;
      long m; if (!(in >> m) || m < 0 || m > 100000000) return g;
      for (long j = 0; j < m; j++) { int a, b; if (!(in >> a >> b)) return g; gg.mem.push_back({a, b}); }
      g.byLen[l].push_back(gg);
    }
  }
  S rest; if (!allowRest && in >> rest) return g;
  g.ok = true; return g;
}
inline long totalGroups(const GFile& g) { long n = 0; for (auto& v : g.byLen) n += v.size(); return n; }
inline Row sub(const Row& r, int start, int len) { return Row(r.begin() + start, r.begin() + start + len); }
// "" if the groups partition all subsequences of length >= 2 of a table of this shape
inline S partitionError(const GFile& g, int items, int len) {
  if (!g.ok) return "group file does not have the documented form";
  if (g.items != items || g.len != len) return "group file header names another shape";
  std::ostringstream o;
  for (int l = 2; l <= len; l++) {
    std::set<std::pair<int,int>> seen;
    for (size_t i = 0; i < g.byLen[l].size(); i++) {
      if (g.byLen[l][i].mem.empty()) { o << "group " << i << " of length " << l << " is empty"; return o.str(); }
      for (auto& m : g.byLen[l][i].mem) {
        if (m.first < 0 || m.first >= items || m.second < 0 || m.second + l > len) { o << "member (" << m.first << "," << m.second << ") of length " << l << " does not exist"; return o.str(); }
        if (!seen.insert(m).second) { o << "subsequence (" << m.first << "," << m.second << ") of length " << l << " is in two groups or twice in one"; return o.str(); }
      }
    }
    long want = (long)items * (len - l + 1);
    if ((long)seen.size() != want) { o << "length " << l << ": " << seen.size() << " of " << want << " subsequences are in a group"; return o.str(); }
  }
  return "";
}
inline u64 hashGroups(const GFile& g, bool memberOrder) {
  Hash h; h.add(g.st).add(g.items).add(g.len).str(g.dist);
  for (auto& v : g.byLen) { u64 n = v.size(); h.add(n); for (auto& gg : v) { for (D x : gg.rep) h.add(x); auto m = gg.mem; if (!memberOrder) std::sort(m.begin(), m.end()); for (auto& p : m) h.add(p.first).add(p.second); u64 k = m.size(); h.add(k); } }
  return h.get();
}

// ---------------------------------------------------------------- matching reference
struct RefMatch { L bestRep = INFINITY; std::vector<std::pair<int,int>> cand; /* (len, group) whose rep is within tolerance of the best */ bool any = false; };
inline bool admissible(int q, int l, double ratio) { return std::abs(q - l) <= refBand(std::max(q, l), ratio); }
inline RefMatch refBestGroups(const GFile& g, const Row& q, double ratio) {
  RefMatch m; std::vector<std::vector<L>> d(g.len + 1);
  for (int l = 2; l <= g.len; l++) { if (!admissible(q.size(), l, ratio)) continue;
    for (auto& gg : g.byLen[l]) { L x = refWarped(q, gg.rep, ratio); d[l].push_back(x); if (x < m.bestRep) { m.bestRep = x; m.any = true; } } }
  if (m.any) for (int l = 2; l <= g.len; l++) for (size_t i = 0; i < d[l].size(); i++) if (d[l][i] <= m.bestRep + 2 * tolFor(m.bestRep, 2 * std::max<int>(l, q.size()))) m.cand.push_back({l, (int)i});
  return m;
}
} // namespace vf
