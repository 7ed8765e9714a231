// C12 series objects are independent values
#include "model.hpp"
#include "heap.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = 10-60 random steps over up to 8 live series objects (owned, viewing, sub-range views, default candidates): construct, copy, assign, self-assign, move-assign, add, write through [], sort candidates, destroy; after every step every object's points and position compared with a value model, at the end all memory must be back; non-trivial = an owned object was copied or assigned and then its source changed or destroyed";
struct Mod { bool owns; Row v; D* base; int idx, st, en; };
void runCase(Ctx& c_, Src& s) {
  size_t h0;
  bool inter = false;
  {
    std::vector<std::vector<D>> bufs; for (int i = 0; i < 3; i++) { bufs.push_back(genTable(s, 1, s.size(6, 40))[0]); }
    c_.desc.add(hashTable(bufs));
    c_.count("object_checks", 0); c_.count("refusals", 0); c_.count("oracle_checks", 0); c_.count("x", 0); c_.count("moved_from_used", 0); h0 = heapBytes();
    std::vector<TimeSeries*> o; std::vector<Mod> m; int bias = s.range(0, 2);
    auto view = [&](const Mod& x, int q) -> D { return x.owns ? x.v[q] : x.base[x.st + q]; };
    auto check = [&](const char* after) { for (size_t i = 0; i < o.size(); i++) { const Mod& x = m[i]; TimeSeries& t = *o[i]; int n = x.en - x.st;
        EXPECT(t.getLength() == n && t.getIndex() == x.idx && t.getStart() == x.st && t.getEnd() == x.en, "position", "after " << after << " object " << i << " reports index " << t.getIndex() << " [" << t.getStart() << "," << t.getEnd() << ") length " << t.getLength() << " instead of " << x.idx << " [" << x.st << "," << x.en << ")");
        for (int q = 0; q < n; q++) EXPECT(sameBits(t[q], view(x, q)), "points", "after " << after << " point " << q << " of object " << i << (x.owns ? " (owner)" : " (view)") << " is " << t[q] << " instead of " << view(x, q)); }
      c_.count("object_checks", o.size()); };
    int steps = s.steps(s.range(10, 60), 600);
    for (int it = 0; it < steps; it++) {
      int op = s.range(0, 13); int n = o.size(); int i = n ? s.range(0, n - 1) : -1, j = n ? s.range(0, n - 1) : -1; const char* what = "";
      if (n < 2) op = s.range(0, 2); if (n >= 8 && op <= 3) op = 11; c_.desc.add(op).add(i).add(j);
      // a moved-from series holds nothing in particular, but whatever it claims to hold is there, and it can be used again
      auto usedAfterMove = [&](TimeSeries& z, TimeSeries& other, bool owner) { c_.count("moved_from_used"); D sum = 0; int n = z.getLength(), L0 = other.getLength(); EXPECT(n >= 0, "moved-from", "a moved-from series has length " << n); Row was(L0); for (int q = 0; q < L0; q++) was[q] = other[q];
        for (int q = 0; q < n && q < 1000; q++) sum += z[q]; if (sum > (D)1e30) c_.count("x");
        TimeSeries a(z), b(3); b = z; TimeSeries y(L0); y = other; if (owner || n == 0) try { y += z; } catch (OnexException&) {} if (owner || n == 0) try { y = other; z += y; } catch (OnexException&) {} /* as a view it may share the array */ try { warpedDistance(z, other, INF); } catch (OnexException&) {} if (n) { z.getKeoghLower(1); z.getKeoghUpper(2); }
        for (int q = 0; q < L0; q++) EXPECT(sameBits(other[q], was[q]), "points", "using a moved-from series changed point " << q << " of the series moved to");
        if (s.chance(1, 2)) { z = other; EXPECT(z.getLength() == L0, "moved-from", "assigning to a moved-from series gave length " << z.getLength()); for (int q = 0; q < L0; q++) EXPECT(sameBits(z[q], was[q]), "points", "point " << q << " after assigning to a moved-from series"); } };
      auto check0 = [&](TimeSeries& t, const Mod& x) { EXPECT(t.getLength() == x.en - x.st && t.getIndex() == x.idx && t.getStart() == x.st, "position", "a move-constructed series reports [" << t.getStart() << "," << t.getEnd() << ")"); for (int q = 0; q < x.en - x.st; q++) EXPECT(sameBits(t[q], view(x, q)), "points", "point " << q << " of a move-constructed series is " << t[q] << " instead of " << view(x, q)); };
      auto dependents = [&](int z) { if (m[z].owns) inter = true; };
      switch (op) {
        case 0: { what = "constructing an owner"; int len = s.size(1, 20); TimeSeries* t = new TimeSeries(len); Mod x{true, Row(len, (D)0), nullptr, 0, 0, len}; if (s.chance(3, 4)) for (int q = 0; q < len; q++) { D y = (D)s.range(-9, 9); (*t)[q] = y; x.v[q] = y; } o.push_back(t); m.push_back(x); break; }
        case 1: { what = "constructing a view"; auto& b = bufs[s.range(0, 2)]; int len = s.range(1, b.size()); TimeSeries* t = new TimeSeries(b.data(), len); o.push_back(t); m.push_back({false, {}, b.data(), 0, 0, len}); break; }
        case 2: { what = "constructing a sub-range view"; auto& b = bufs[s.range(0, 2)]; int a = s.range(0, b.size() - 1), e = s.range(a + 1, b.size()); int idx = s.range(0, 50); o.push_back(new TimeSeries(b.data(), idx, a, e)); m.push_back({false, {}, b.data(), idx, a, e}); break; }
        case 3: { what = "copy construction"; o.push_back(new TimeSeries(*o[i])); m.push_back(m[i]); dependents(i); break; }
        case 4: { what = "assignment"; if (s.chance(1, 2)) o[i]->getKeoghUpper(1); *o[i] = *o[j]; m[i] = m[j]; dependents(j); break; }
        case 5: { what = "self-assignment"; TimeSeries& r = *o[i]; *o[i] = r; break; }
        case 6: { if (s.chance(1, 2)) { what = "move construction"; TimeSeries* t = new TimeSeries(std::move(*o[i])); o.push_back(t); m.push_back(m[i]); check0(*t, m[i]); if (s.chance(3, 4)) usedAfterMove(*o[i], *t, m[i].owns); delete o[i]; o.erase(o.begin() + i); m.erase(m.begin() + i); inter = true; break; }
            what = "move assignment"; if (i == j) break; *o[i] = std::move(*o[j]); m[i] = m[j]; if (s.chance(1, 2)) usedAfterMove(*o[j], *o[i], m[i].owns); delete o[j]; o.erase(o.begin() + j); m.erase(m.begin() + j); inter = true; break; }
        case 7: { what = "addition"; if (m[i].en - m[i].st != m[j].en - m[j].st) { EXPECT(refused(c_, [&] { *o[i] += *o[j]; }, "+="), "accepted", "adding lengths " << m[i].en - m[i].st << " and " << m[j].en - m[j].st << " accepted"); break; }
            int len = m[i].en - m[i].st;
            // overlapping views of one buffer: sequential semantics are not specified, skip
            if (i != j && !m[i].owns && !m[j].owns && m[i].base == m[j].base && m[i].st != m[j].st && m[i].st < m[j].en && m[j].st < m[i].en) break;
            Row pre(len); for (int q = 0; q < len; q++) pre[q] = view(m[i], q);
            Row add(len); for (int q = 0; q < len; q++) add[q] = view(m[j], q);
            TimeSeries& back = (*o[i] += *o[j]); EXPECT(&back == o[i], "chain", "+= does not return its object");
                        if (m[i].owns) { for (int q = 0; q < len; q++) m[i].v[q] += add[q]; }
            else for (int q = 0; q < len; q++) EXPECT(m[i].base[m[i].st + q] == pre[q] + add[q], "addition", "after adding to a view point " << q << " of its storage is " << m[i].base[m[i].st + q] << " instead of " << pre[q] << " + " << add[q]);
            break; }
        case 8: { what = "writing a point"; int q = s.range(0, m[i].en - m[i].st - 1); D y = (D)s.range(-99, 99); (*o[i])[q] = y; if (m[i].owns) m[i].v[q] = y; else EXPECT(sameBits(m[i].base[m[i].st + q], y), "write", "writing through a view did not reach the points"); break; }
        case 9: { what = "temporary copies"; { TimeSeries a(*o[i]); TimeSeries b(*o[j]); a = b; b = a; if (a.getLength() == b.getLength()) { TimeSeries own(a.getLength()); own += b; TimeSeries c(own); c += own; own = c; } } break; }
        case 10: { what = "candidates"; std::vector<candidate_time_series_t> v; v.emplace_back(); for (int q = 0; q < 4; q++) v.emplace_back(*o[s.range(0, n - 1)], (D)s.range(0, 3)); std::sort(v.begin(), v.end()); v[0] = v[v.size() - 1]; v.erase(v.begin() + 1); break; }
        case 11: case 12: { what = "destruction"; if (m[i].owns) inter = true; delete o[i]; o.erase(o.begin() + i); m.erase(m.begin() + i); break; }
        default: { what = "range check"; int len = m[i].en - m[i].st; int bad[] = {-1, len, len + 1, -1000000, 2147483647}; for (int q : bad) EXPECT(refused(c_, [&] { volatile D y = (*o[i])[q]; (void)y; }, "[]"), "accepted", "point " << q << " of a series of length " << len << " accepted"); }
      }
      if (op == 7 && !m.empty() && i < (int)m.size() && j < (int)m.size()) {}
      check(what);
    }
    // addition on views checked separately on private buffers
    for (int rep = 0; rep < 3; rep++) { int len = s.size(1, 30), off = s.range(0, 4); Row b(off + len + 3), a(len); for (auto& x : b) x = (D)s.range(-9, 9); for (auto& x : a) x = (D)s.range(-9, 9); Row b0 = b, a0 = a;
      TimeSeries v(b.data(), 1, off, off + len), w(a.data(), len); v += w; 
      for (size_t q = 0; q < b.size(); q++) { D want = b0[q] + ((int)q >= off && (int)q < off + len ? a0[q - off] : 0); EXPECT(b[q] == want, "addition", "after adding to a view at offset " << off << " point " << q << " of its storage is " << b[q] << " instead of " << want); }
      EXPECT(a == a0, "addition", "addition changed the added series");
      { Row two(2 * len + s.range(0, 3)); for (auto& x : two) x = (D)s.range(-9, 9); Row was = two; int gap = two.size() - 2 * len; bool rev = s.chance(1, 2); TimeSeries lo(two.data(), 2, 0, len), hi(two.data(), 2, len + gap, 2 * len + gap); if (rev) hi += lo; else lo += hi;
        for (int q = 0; q < (int)two.size(); q++) { bool tgt = rev ? q >= len + gap : q < len; D want = was[q] + (tgt ? was[rev ? q - len - gap : q + len + gap] : 0); EXPECT(two[q] == want, "addition", "adding two views of one array: point " << q << " is " << two[q] << " instead of " << want); }
        EXPECT(lo.getStart() == 0 && hi.getStart() == len + gap && lo.getIndex() == 2 && hi.getIndex() == 2, "position", "addition moved a view"); } TimeSeries own(len); own += v; own += w; for (int q = 0; q < len; q++) EXPECT(own[q] == b[off + q] + a[q], "addition", "sum point " << q << " is " << own[q]); }
    { // a series without points is a value too
      TimeSeries z(0), y(z); Row b(4, (D)1); TimeSeries v(b.data(), 3, 2, 2); z = y; y = v; z += y; EXPECT(z.getLength() == 0 && y.getLength() == 0 && v.getStart() == 2, "position", "a series without points has length " << z.getLength() << "/" << y.getLength());
      EXPECT(refused(c_, [&] { volatile D q = z[0]; (void)q; }, "[]") && refused(c_, [&] { volatile D q = v[0]; (void)q; }, "[]"), "accepted", "point 0 of a series without points accepted"); v.getKeoghUpper(s.range(0, 3)); z.getKeoghLower(0);
      TimeSeries f(b.data(), 4); int z1 = s.range(0, 5); try { z1 == 0 ? warpedDistance(z, f, INF) : z1 == 1 ? warpedDistance(f, v, INF) : z1 == 2 ? cascadeDistance(z, f, INF) : z1 == 3 ? pairwiseDistance(z, v, INF) : z1 == 4 ? keoghLowerBound(f, v, INF) : crossKeoghLowerBound(z, f, INF); } catch (OnexException&) {} z = f; for (int q = 0; q < 4; q++) EXPECT(z[q] == 1, "points", "assigning to a series without points"); }
    for (auto* p : o) delete p; o.clear(); o.shrink_to_fit(); m.clear(); m.shrink_to_fit();
#ifdef VF_ASAN   // glibc's own count includes cached free blocks
    { size_t h1 = heapBytes(); EXPECT(h1 <= h0, "leak", "after destroying every series " << (h1 - h0) << " bytes are still allocated"); }
#endif
    for (auto& b : bufs) { D x = 0; for (D y : b) x += y; if (x > 1e300) c_.count("x"); }
    c_.sampleText = VF_STR(steps << " steps, buffers " << tabText(bufs))();
    c_.nontrivial = inter;
  }
  c_.count("sequences");
}
}
