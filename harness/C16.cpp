// C16 bad group files are refused, the current index survives
#include "groups.hpp"
#include <unistd.h>
using namespace onex;
namespace vf {
const char* RULE = "one case = a dataset, grouped or not, and a valid group file of it that is then damaged: truncated at every byte (files up to 600 bytes; otherwise the ends and a sample), or edited (another version, shape, distance name, lengths; counts raised, lowered, negative, huge; positions out of range, repeated, swapped for another; values or numbers replaced by text; lines or tokens dropped, repeated, appended; size-only file; missing file, directory); a load is refused with groups, info and answers as before, or the result is a valid partition; non-trivial = the damage lies behind a valid header";
struct Tok { size_t a, b; };
void runCase(Ctx& c_, Src& s) {
  int rows = s.range(1, 5), cols = s.range(2, 9); if (s.chance(1, 6)) { rows = s.range(1, 12); cols = s.range(2, 14); }
  Table t = genTable(s, rows, cols, s.chance(1, 3) ? (int)FL_TIES : -1); auto src = makeSet(c_, t, "d.txt"); src->groupAllLengths(s.chance(3, 4) ? "euclidean" : "euclidean_dtw", genThreshold(s));
  S good = c_.path("good.txt"), sizes = c_.path("sizes.txt"), bad = c_.path("bad.txt"); src->saveGroups(good, false); src->saveGroups(sizes, true); S txt = slurp(good);
  auto set = makeSet(c_, t, "e.txt"); bool grouped = s.chance(2, 3); if (grouped) { set->groupAllLengths("euclidean", genThreshold(s)); if (s.chance(1, 3)) set->loadGroups(good); }
  S cur = c_.path("cur.txt"); std::vector<Row> qs; for (int i = 0; i < 3; i++) { Row r = t[s.range(0, rows - 1)]; int n = s.range(2, cols); r = sub(r, s.range(0, cols - n), n); qs.push_back(r); }
  auto answers = [&]() { S o; for (auto& q : qs) { Row r = q; TimeSeries ts(r.data(), r.size()); try { auto m = set->getBestMatch(ts); o += VF_STR(m.data.getIndex() << "," << m.data.getStart() << "," << m.data.getLength() << "," << m.dist << ";")(); } catch (OnexException&) { o += "refused;"; } } return o; };
  auto state = [&]() { S o = set->isGrouped() ? "G" : "-"; if (set->isGrouped()) { set->saveGroups(cur, false); o += slurp(cur); } return o + answers(); };
  S before = state(), vals; Table v0 = valuesOf(*set);
  c_.desc.add(hashTable(t)).str(before);
  // judge one damaged file; mustRefuse: false when the damage may still describe a valid index
  auto tryLoad = [&](const S& path, bool mustRefuse, const std::function<S()>& what) {
    int n = 0; bool ref = refused(c_, [&] { n = set->loadGroups(path); }, "loadGroups"); c_.count("bad_files");
    if (ref) { S after = state(); EXPECT(after == before, "lost", "a refused group file (" << what() << ") changed the dataset's groups:\n" << before.substr(0, 300) << "\n-- after --\n" << after.substr(0, 300)); }
    else { EXPECT(!mustRefuse, "accepted", "a bad group file was accepted: " << what() << " (reported " << n << " groups)");
      set->saveGroups(cur, false); GFile g = parseGroups(slurp(cur)); S pe = partitionError(g, rows, cols); EXPECT(pe.empty() && n == totalGroups(g), "accepted", "a bad group file (" << what() << ") was accepted and left a broken index: " << pe);
      answers(); before = state(); c_.count("harmless_edits"); }
    if (s.chance(1, 20)) EXPECT(valuesOf(*set) == v0, "values", "loading groups changed the data");
  };
  int mode = s.range(0, 3);
  if (mode == 0) {          // truncation
    size_t lastTok = txt.find_last_not_of(" \n\r\t"); std::set<long> ks; long n = txt.size(); if (n <= 600) for (long k = 0; k < n; k++) ks.insert(k); else { for (long k = 0; k < 60; k++) { ks.insert(k); ks.insert(n - 1 - k); } for (int q = 0; q < 60; q++) ks.insert(s.range(0, n - 1)); for (size_t p = 0; p != S::npos && ks.size() < 300; p = txt.find('\n', p + 1)) { ks.insert(p); ks.insert(p + 1 < (size_t)n ? p + 1 : p); } }
    for (long k : ks) { if ((size_t)k > lastTok) continue; spit(bad, txt.substr(0, k)); tryLoad(bad, true, [&] { return VF_STR("truncated to " << k << " of " << n << " bytes, ending '" << txt.substr(k > 30 ? k - 30 : 0, std::min(k, 30L)) << "'")(); }); c_.count("truncations"); if (k > 30) c_.nontrivial = true; c_.desc.add(k); }
  } else {
    // split into lines of tokens: header, lengths, distance, then per length
    std::vector<std::vector<S>> L_; { std::istringstream in(txt); S line; while (std::getline(in, line)) { std::istringstream li(line); std::vector<S> w; S x; while (li >> x) w.push_back(x); L_.push_back(w); } }
    GFile g = parseGroups(txt);
    std::vector<char> kind(L_.size(), 'c'); { size_t li = 0; kind[li++] = 'h'; kind[li++] = 'r'; kind[li++] = 'd'; for (int l = 2; l <= cols; l++) { kind[li++] = 'c'; for (size_t q = 0; q < g.byLen[l].size(); q++) { kind[li++] = 'v'; kind[li++] = 'm'; } } }
    auto lineOf = [&](char k) { std::vector<size_t> c; for (size_t i = 0; i < L_.size(); i++) if (kind[i] == k) c.push_back(i); return c[s.range(0, (long)c.size() - 1)]; };
    auto emit = [&](const std::vector<std::vector<S>>& x) { S o; for (auto& w : x) { for (auto& y : w) o += y + " "; o += "\n"; } spit(bad, o); };
    static const char* GARB[] = {"x", "abc", "-", "nan?", "1e", "--3", "", "#", "0x", "1,5"};
    for (int rep = 0; rep < 25; rep++) {
      auto x = L_; bool must = true; S what; int e = s.range(0, 20); c_.desc.add(e); if (e > 3) c_.nontrivial = true;
      switch (e) {
        case 0: { int nv = s.pick(std::vector<int>{0, 2, 3, -1, 11, 100}); x[0][0] = std::to_string(nv); what = "version " + x[0][0]; break; }
        case 1: { int d = s.pick(std::vector<int>{-rows, -1, 1, 2, 100000, 2000000000}); x[0][2] = std::to_string((long)rows + d); what = "item count " + x[0][2]; break; }
        case 2: { int d = s.pick(std::vector<int>{-cols, -1, 1, 2, 100000, 2000000000}); x[0][3] = std::to_string((long)cols + d); what = "item length " + x[0][3]; break; }
        case 3: { static const char* DN[] = {"manhattan", "euclid", "Euclidean", "euclidean_", "dtw", "2"}; x[2][0] = DN[s.range(0, 5)];
                  if (s.chance(2, 3)) { S b = s.chance(1, 2) ? "euclidean" : "euclidean_dtw"; int at = s.range(0, (long)b.size() - 1); static const char X[] = ",;:_-./x0A#\"'|\\@"; char ch = X[s.range(0, (long)sizeof X - 2)];
                    switch (s.range(0, 8)) { case 0: b += ch; break; case 1: b += S(1, ch) + "x"; break; case 2: b = S(1, ch) + b; break; case 3: b[at] = toupper(b[at]); break; case 4: b.insert(at, 1, ch); break; case 5: b.erase(at, 1); break; case 6: b = b.substr(0, at ? at : 1); break; case 7: b += S(1, ch) + (s.chance(1, 2) ? "euclidean" : "dtw"); break; default: if (at) std::swap(b[at], b[at - 1]); }
                    if (b != "euclidean" && b != "euclidean_dtw" && !b.empty()) x[2][0] = b; } what = "distance name " + x[2][0]; break; }
        case 4: { int q = s.range(0, 1); long w = q == 0 ? s.pick(std::vector<long>{0, 1, 3, -1, cols, cols + 1, 1000000}) : s.pick(std::vector<long>{0, 1, 2, (long)cols - 1, cols + 2L, cols + 3L, -1, 1000000, 2000000000}); if (std::to_string(w) == x[1][q] || (q == 1 && (w == cols || w == cols + 1))) { continue; } x[1][q] = std::to_string(w); what = "length range " + x[1][0] + " " + x[1][1]; break; }
        case 5: { size_t li = lineOf('c'); long k = atol(x[li][0].c_str()); long w = s.pick(std::vector<long>{k + 1, k - 1, 0, -1, -k, k + 1000000, 2147483647L, 4294967296L + k, 99999999999L}); if (w == k) continue; x[li][0] = std::to_string(w); what = "number of groups " + std::to_string(k) + " -> " + x[li][0]; break; }
        case 6: { size_t li = lineOf('m'); long k = atol(x[li][0].c_str()); long w = s.pick(std::vector<long>{k + 1, k - 1, 0, -1, k + 1000000, 2147483647L, 99999999999L, -2147483648L}); x[li][0] = std::to_string(w); what = "number of members " + std::to_string(k) + " -> " + x[li][0]; break; }
        case 7: { size_t li = lineOf('m'); size_t q = 1 + 2 * s.range(0, ((long)x[li].size() - 1) / 2 - 1); long w = s.pick(std::vector<long>{-1, rows, rows + 1L, 2147483647L, -2147483648L, 1000000, 99999999999L}); x[li][q] = std::to_string(w); what = "member series " + x[li][q]; break; }
        case 8: { size_t li = lineOf('m'); size_t q = 2 + 2 * s.range(0, ((long)x[li].size() - 1) / 2 - 1); int l = x[li - 1].size(); long w = s.pick(std::vector<long>{-1, cols - l + 1L, cols - l + 2L, cols, 2147483647L, -2147483648L, 1000000}); x[li][q] = std::to_string(w); what = "member start " + x[li][q] + " of length " + std::to_string(l); break; }
        case 9: { size_t li = lineOf('m'); if (x[li].size() < 5) { // replace a member by one of another group of the same length
                    int l = x[li - 1].size(); if (rows * (cols - l + 1) < 2) continue; long i = atol(x[li][1].c_str()), st = atol(x[li][2].c_str()); long i2 = s.range(0, rows - 1), s2 = s.range(0, cols - l); if (i == i2 && st == s2) continue; x[li][1] = std::to_string(i2); x[li][2] = std::to_string(s2); what = "member replaced by one listed elsewhere"; }
                  else { x[li][3] = x[li][1]; x[li][4] = x[li][2]; what = "member listed twice"; } break; }
        case 10: { size_t li = lineOf('v'); size_t q = s.range(0, (long)x[li].size() - 1); S gz = GARB[s.range(0, 8)]; if (gz == "1e" || gz == "0x" || gz == "1,5") { gz = "abc"; } x[li][q] = gz.empty() ? "?" : gz; what = "representative value '" + x[li][q] + "'"; break; }
        case 11: { size_t li = lineOf(s.chance(1, 2) ? 'm' : 'c'); size_t q = s.range(0, (long)x[li].size() - 1); bool end = li + 1 == x.size() && q + 1 == x[li].size(); /* what follows the last number is not specified */ x[li][q] = end || s.chance(1, 2) ? "x" + x[li][q] : x[li][q] + "x"; what = "number '" + x[li][q] + "'"; break; }
        case 12: { size_t li = lineOf('v'); size_t q = s.range(0, (long)x[li].size() - 1); x[li].erase(x[li].begin() + q); what = "representative value dropped"; must = false; break; }
        case 13: { size_t li = lineOf('m'); x[li].erase(x[li].begin() + s.range(1, (long)x[li].size() - 1)); what = "member number dropped"; must = false; break; }
        case 14: { size_t li = s.range(1, (long)x.size() - 1); x.erase(x.begin() + li); what = "line " + std::to_string(li) + " dropped"; must = false; break; }
        case 15: { size_t li = s.range(1, (long)x.size() - 1); auto y = x[li]; x.insert(x.begin() + li, y); what = "line " + std::to_string(li) + " repeated"; must = li + 1 < x.size() - 1; must = false; break; }
        case 16: { size_t li = s.range(0, (long)x.size() - 1); if (x[li].empty()) continue; size_t q = s.range(0, (long)x[li].size() - 1); x[li][q] = std::to_string(s.range(-3, 12)); what = "token " + std::to_string(q) + " of line " + std::to_string(li) + " replaced by " + x[li][q]; must = false; break; }
        case 17: { // move a member from one group to another, keeping the counts: still a partition, allowed; or dropping a whole group consistently
                   std::vector<size_t> c; for (size_t i = 0; i < x.size(); i++) if (kind[i] == 'c' && atol(x[i][0].c_str()) > 1) c.push_back(i); if (c.empty()) continue; size_t li = s.pick(c); long k = atol(x[li][0].c_str()); x[li][0] = std::to_string(k - 1); long gone = s.range(0, k - 1); x.erase(x.begin() + li + 1 + 2 * gone, x.begin() + li + 3 + 2 * gone); what = "a whole group removed with matching count"; break; }
        case 18: { // a member removed with matching count
                   std::vector<size_t> c; for (size_t i = 0; i < x.size(); i++) if (kind[i] == 'm' && x[i].size() >= 5) c.push_back(i); if (c.empty()) continue; size_t li = s.pick(c); x[li][0] = std::to_string((long)(x[li].size() - 1) / 2 - 1); x[li].erase(x[li].end() - 2, x[li].end()); what = "a member removed with matching count"; break; }
        case 19: { size_t li = lineOf('m'); x[li][0] = std::to_string((long)(x[li].size() - 1) / 2 + 1); x[li].push_back(x[li][1]); x[li].push_back(x[li][2]); what = "a member repeated with matching count"; break; }
        default: { x[0].clear(); x[0].push_back(GARB[s.range(0, 5)]); what = "header '" + x[0][0] + "'"; }
      }
      if (!must) { S o; for (auto& w : x) for (auto& y : w) o += y + " "; S o0; for (auto& w : L_) for (auto& y : w) o0 += y + " "; if (o == o0) continue; }
      // a changed count may happen to shift the numbers into another well-formed partition, which nothing tells apart from a good file
      if (must && (e == 5 || e == 6)) { S o; for (auto& w : x) { for (auto& y : w) o += y + " "; o += "\n"; } if (partitionError(parseGroups(o, true), rows, cols).empty()) { must = false; c_.count("ambiguous_edits"); } }
      emit(x); c_.desc.str(what); tryLoad(bad, must, [&] { return what; });
    }
    tryLoad(sizes, cols >= 2, [&] { return S("size-only file"); });
    tryLoad(c_.path("missing.txt"), true, [&] { return S("missing file"); });
    tryLoad(c_.tmp, true, [&] { return S("directory"); });
    spit(bad, ""); tryLoad(bad, true, [&] { return S("empty file"); });
    { S b; for (int i = 0; i < 200; i++) b += (char)s.range(0, 255); spit(bad, s.chance(1, 2) ? b : txt.substr(0, s.range(0, txt.size())) + b); tryLoad(bad, false, [&] { return S("random bytes"); }); }
    // groups of a dataset with another shape
    Table t2 = genTable(s, rows + (s.chance(1, 2) ? 1 : 0), cols + 1); auto o = makeSet(c_, t2, "f.txt"); o->groupAllLengths("euclidean", 1); o->saveGroups(bad, false); tryLoad(bad, true, [&] { return S("groups of a dataset of another shape"); });
  }
  // and a good file still loads
  int n = set->loadGroups(good); EXPECT(n == totalGroups(parseGroups(txt)), "later", "the good file no longer loads correctly");
  c_.sampleText = VF_STR(rows << "x" << cols << (grouped ? " grouped" : " ungrouped") << " mode " << mode << " file of " << txt.size() << " bytes")();
}
}
