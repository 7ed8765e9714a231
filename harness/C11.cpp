// C11 envelopes
#include "model.hpp"
#include <memory>
using namespace onex;
namespace vf {
const char* RULE = "one case = 2-5 series objects (own storage or private views) through 20-60 random steps: request an envelope with some half-width (0..length+6, sometimes huge), add another series, write points (through operator[], a kept pointer or the viewed array), copy, assign, move, self-assign; every envelope compared point by point with the naive sliding extremes of the current points; non-trivial = some half-width strictly between 0 and the length was requested after a change";
struct Obj { TimeSeries ts; Row cur; bool own; };
void runCase(Ctx& c_, Src& s) {
  int k = s.range(2, 5), base = s.size(1, s.chance(1, 10) ? 1500 : 40); std::vector<std::unique_ptr<Row>> buf; std::vector<std::unique_ptr<Obj>> o;
  auto make = [&]() { int len = s.chance(2, 3) ? base : s.size(1, base + 5); Row r = genTable(s, 1, len)[0]; 
    if (s.chance(1, 2)) { std::unique_ptr<Obj> p(new Obj{TimeSeries(len), r, true}); for (int i = 0; i < len; i++) p->ts[i] = r[i]; return p; }
    int off = s.range(0, 7); buf.emplace_back(new Row(off + len + s.range(0, 3), (D)(s.chance(1, 2) ? 1e6 : -1e6))); std::copy(r.begin(), r.end(), buf.back()->begin() + off);
    return std::unique_ptr<Obj>(new Obj{TimeSeries(buf.back()->data(), 2, off, off + len), r, false}); };
  for (int i = 0; i < k; i++) o.push_back(make());
  // aliases: copies of a view share their points; objects of one group change together
  std::vector<int> grp(k); for (int i = 0; i < k; i++) grp[i] = i; int nextGrp = k; bool changed = false;
  auto follow = [&](int i) { for (int q = 0; q < k; q++) if (q != i && grp[q] == grp[i]) o[q]->cur = o[i]->cur; };
  int steps = s.steps(s.range(20, base > 200 ? 25 : 60), base > 60 ? 60 : 600);
  std::vector<int> ws; for (int i = 0; i < 4; i++) ws.push_back(s.range(0, base + 6)); ws.push_back(0); ws.push_back(base - 1); ws.push_back(1); ws.push_back(base / 2);
  for (int it = 0; it < steps; it++) {
    int i = s.range(0, k - 1), j = s.range(0, k - 1); int op = s.range(0, 14);
    if (op <= 6) {
      const Row& r = o[i]->cur; int n = r.size(); int w = s.chance(1, 2) ? s.pick(ws) : s.range(0, n + 6); if (s.chance(1, 40)) w = s.chance(1, 2) ? 2147483647 : 1000000000;
      if (w < 0) w = 0;
      int order = s.range(0, 3); const D* lo = nullptr; const D* up = nullptr;
      if (order == 0) { lo = o[i]->ts.getKeoghLower(w); up = o[i]->ts.getKeoghUpper(w); } else if (order == 1) { up = o[i]->ts.getKeoghUpper(w); lo = o[i]->ts.getKeoghLower(w); }
      else if (order == 2) lo = o[i]->ts.getKeoghLower(w); else up = o[i]->ts.getKeoghUpper(w);
      for (int q = 0; q < n; q++) { long x0 = std::max(0L, (long)q - w), x1 = std::min((long)n - 1, (long)q + w); if (n > 300 && q % 7 && q > 20 && q < n - 20) continue; D mn = r[x0], mxv = r[x0]; for (long z = x0; z <= x1; z++) { mn = std::min(mn, r[z]); mxv = std::max(mxv, r[z]); }
        if (lo) EXPECT(eqv(lo[q], mn), "lower", "lower envelope (half-width " << w << ") of " << rowText(r) << " at " << q << " is " << lo[q] << " instead of " << mn << " in step " << it);
        if (up) EXPECT(eqv(up[q], mxv), "upper", "upper envelope (half-width " << w << ") of " << rowText(r) << " at " << q << " is " << up[q] << " instead of " << mxv << " in step " << it); }
      if (changed && w > 0 && w < n) c_.nontrivial = true; c_.count("envelopes"); c_.desc.add(w).add(i);
    } else if (op == 7) { // add; refused for a different length. Objects sharing storage follow.
      if (o[i]->cur.size() != o[j]->cur.size()) { EXPECT(refused(c_, [&] { o[i]->ts += o[j]->ts; }, "+="), "accepted", "adding a different length accepted"); continue; }
      o[i]->ts += o[j]->ts; Row add = o[j]->cur; for (size_t q = 0; q < add.size(); q++) o[i]->cur[q] += add[q]; follow(i); changed = true; c_.count("additions");
      bool big = false; for (D x : o[i]->cur) if (std::fabs(x) > BIG) big = true; if (big) throw CaseSkipped();
    } else if (op == 8) { o[i]->ts = o[j]->ts; o[i]->cur = o[j]->cur; o[i]->own = o[j]->own; changed = true; c_.count("assignments"); if (i != j) grp[i] = o[j]->own ? nextGrp++ : grp[j]; }
    else if (op == 9) { std::unique_ptr<Obj> p(new Obj{TimeSeries(o[j]->ts), o[j]->cur, o[j]->own}); if (i != j) grp[i] = o[j]->own ? nextGrp++ : grp[j]; o[i] = std::move(p); changed = true; c_.count("copies"); }
    else if (op == 10 && i != j) { o[i]->ts = std::move(o[j]->ts); o[i]->cur = o[j]->cur; o[i]->own = o[j]->own; grp[i] = grp[j]; o[j] = make(); grp[j] = nextGrp++; changed = true; c_.count("moves"); }
    else if (op >= 12) { // points written behind the object's back or through it, 1 to all of them, mostly between requests with one half-width
      Row& r = o[i]->cur; int n = r.size(); D* p = op == 12 ? nullptr : &o[i]->ts[0]; if (op == 14) { int w = s.pick(ws); if (w >= 0) { o[i]->ts.getKeoghUpper(w); if (s.chance(1, 2)) o[i]->ts.getKeoghLower(w); ws.push_back(w); } }
      int cnt = s.chance(1, 2) ? 1 : s.range(1, n); for (; cnt > 0; cnt--) { int q = s.chance(1, 4) ? (s.chance(1, 2) ? 0 : n - 1) : s.range(0, n - 1); D y = s.chance(1, 3) ? (D)(r[q] * (D)(1 + 1e-6)) : s.chance(1, 2) ? (D)s.range(-99, 99) : r[s.range(0, n - 1)]; if (p) p[q] = y; else o[i]->ts[q] = y; r[q] = y; }
      follow(i); changed = true; c_.count("raw_writes"); }
    else if (op == 11) { TimeSeries tmp(o[i]->ts); tmp = o[i]->ts; o[i]->ts = tmp; changed = true; }
  }
  c_.maxi("length", base); c_.desc.add(hashTable({o[0]->cur})); c_.sampleText = VF_STR(k << " series, " << steps << " steps, first " << rowText(o[0]->cur))();
}
}
