// C01 loading: exactly the requested table
#include "model.hpp"
using namespace onex;
namespace vf {
const char* RULE = "one case = a generated text table (shape, numeric notation per field, separator set with runs, leading and trailing separators, skipped columns and surplus rows with arbitrary content, final newline or not) x row limit x column offset, loaded through TimeSeriesSet and OnexAPI; non-trivial = more than one value and a non-default option or notation";
static S notation(Src& s, double& out) {
  static const char* SP_[] = {"0", "-0", "+5", "007", "1.", ".5", "-.25", "1e3", "1E-3", "2.5e+2", "-1e0", "0x1p3", "0X1.8p1", "1e-30", "123456789012345678901234567890", "0.1", "3.141592653589793238462643383279", "1e30", "-7.0000000", "00.5", "16777217", "9007199254740993", "0.30000000000000004", "1e-5", "4.9406564584124654e-324", "1e-310", "-2.2250738585072009e-308", "3.e-320", "1.7976931348623157e308", "-1e-40", "5e-1", "-0.0", "1e00", "4.9406564584124654e-20"};
  char b[80]; double v;
  switch (s.range(0, 6)) {
    case 0: { S t = SP_[s.range(0, sizeof SP_ / sizeof *SP_ - 1)]; out = strtod(t.c_str(), 0); if (SP && out != 0 && ((float)out == 0 || std::isinf((float)out))) { out = 1; return "1"; } return t; }
    case 1: snprintf(b, 80, "%ld", s.range(-100000, 100000)); break;
    case 2: v = s.real(-10, 10); snprintf(b, 80, "%.17g", v); break;
    case 3: v = s.real(-10, 10) * std::pow(10.0, s.chance(1, 3) ? s.range(SP ? -44 : -322, SP ? 35 : 305) : s.range(SP ? -15 : -80, SP ? 15 : 80)); snprintf(b, 80, s.chance(1, 2) ? "%.12e" : "%.5E", v); break;
    case 4: snprintf(b, 80, s.chance(1, 2) ? "%+.3f" : "%09.4f", s.real(-1000, 1000)); break;
    case 5: snprintf(b, 80, "%.*f", (int)s.range(0, 25), s.real(-5, 5)); break;
    default: snprintf(b, 80, "%ld", s.range(0, 9));
  }
  out = strtod(b, 0); return b;
}
void runCase(Ctx& c_, Src& s) {
  bool lit = !NEWLITS.empty() && s.chance(1, 3); int rows = s.size(1, s.chance(1, 40) || (lit && s.chance(1, 2)) ? 3000 : 30), cols = s.size(1, s.chance(1, 20) || lit ? 5000 : 30);
  if (s.chance(1, 300)) { rows = s.range(1, 2); cols = s.chance(1, 2) ? (int)s.range(32700, 36000) : (int)s.range(65500, 70000); c_.count("wide_tables"); }
  else if (s.chance(1, 150)) { rows = s.range(50, 1500); cols = 90000 / rows + s.range(0, 3); c_.count("large_tables"); if (s.chance(1, 2)) std::swap(rows, cols); }
  else if ((long)rows * cols > 20000) { if (rows > cols) cols = 20000 / rows + 1; else rows = 20000 / cols + 1; }
  int skip = s.chance(1, 2) ? 0 : (int)s.size(0, cols - 1);
  if (s.chance(1, 10)) skip = cols - 1;
  int limit = 0;
  switch (s.range(0, 6)) { case 0: limit = rows; break; case 1: limit = s.range(1, rows); break; case 2: limit = rows + (s.chance(1, 2) ? 1 : s.range(1, 100)); break; case 3: limit = -s.range(0, 1000000); break; case 4: limit = 1; break; default: limit = 0; }
  if (s.chance(1, 40)) limit = s.chance(1, 2) ? 2147483647 : (-2147483647 - 1);
  int used = limit <= 0 ? rows : std::min(limit, rows);
  static const char* SEPS[] = {" ", ",", ";", "\t", " \t", ", ", ";|", ",;\t ", "|", ":", "_", " ,", "#", "\"", "a", "/"};
  S seps = SEPS[s.range(0, 15)];
  if (s.chance(1, 8)) { static const char P[] = " ,;\t|:_#\"/!$%&()*<=>?@[]^`{}~'\\"; seps.clear(); int k = s.range(1, 30); for (int i = 0; i < k; i++) { char ch = P[s.range(0, (long)sizeof P - 2)]; if (seps.find(ch) == S::npos) seps += ch; } c_.count("long_separator_sets"); }
  if (s.chance(1, 8)) { // separators beyond ASCII, control characters, and characters that also occur in numbers
    static const char P[] = "\xa7\xff\x80\xe9\x01\x7f\x1b\v\f.-+eE0123456789"; if (s.chance(1, 2)) seps.clear(); int k = s.range(1, s.chance(1, 4) ? 8 : 2); for (int i = 0; i < k; i++) { char ch = P[s.range(0, s.chance(1, 2) ? 8 : (long)sizeof P - 2)]; if (seps.find(ch) == S::npos) seps += ch; } c_.count("unusual_separators"); }
  S plain; for (const char* q = "7135924680"; *q; q++) if (seps.find(*q) == S::npos) { plain = S(1, *q); break; }
  bool hexOk = seps.find('a') == S::npos;
  bool runs = s.chance(1, 2), lead = s.chance(1, 4), trail = s.chance(1, 3);
  bool special = false; int crlf = trail || s.chance(2, 3) ? 0 : s.range(1, 2); if (crlf) c_.count("crlf_files");   // all or some lines end in CR LF
  int padRow = s.chance(1, NEWLITS.empty() ? 40 : 6) ? (int)s.range(0, std::min(rows, used) - 1) : -1, padTo = padRow < 0 ? 0 : (int)s.size(40, s.chance(1, 4) ? 70000 : 3000), padHow = s.range(0, 2), padAt = s.range(0, cols - 1); if (padRow >= 0) { c_.count("long_lines"); if (s.chance(1, 3) && (long)rows * cols < 3000) { padTo = s.range(65536, 2200000); c_.count("huge_lines"); } }
  S text; std::vector<std::vector<double>> want;
  auto sep = [&]() { S o; o += seps[s.range(0, (long)seps.size() - 1)]; if (runs) for (int k = s.range(0, 3); k > 0; k--) o += seps[s.range(0, (long)seps.size() - 1)]; return o; };
  static const char* JUNK[] = {"label", "NaN", "x1", "1e999", "--", "12abc", "id_7", "?", "(0)", "nul", "1e-400", "é"};
  bool sim = s.chance(1, 3); S prevLine; std::vector<double> prevR; std::vector<std::pair<size_t, size_t>> prevF;
  for (int i = 0; i < rows; i++) {
    if (lead && s.chance(1, 2)) text += sep();
    std::vector<double> r; size_t lineAt = text.size();
    if (sim && i > 0 && i < used && !prevLine.empty() && s.chance(1, 2)) { // the line before again, but for one or two digits
      S ln = prevLine; r = prevR; for (int e = s.range(0, 2); e > 0; e--) { int j = s.chance(1, 2) ? cols - 1 : s.range(skip, cols - 1); S t = ln.substr(prevF[j].first, prevF[j].second); if (t.find_first_of("xX") != S::npos) continue;
        std::vector<size_t> dg; for (size_t z = 0; z < t.size() && t[z] != 'e' && t[z] != 'E'; z++) if (isdigit((unsigned char)t[z])) dg.push_back(z); if (dg.empty()) continue; char to = '0' + s.range(0, 9); if (seps.find(to) != S::npos) continue;
        t[s.chance(1, 3) ? dg.back() : dg[s.range(0, std::min<long>(16, dg.size()) - 1)]] = to; double v = strtod(t.c_str(), 0); if (v == 0 ? t.substr(0, t.find_first_of("eE")).find_first_of("123456789") != S::npos : (!(std::fabs(v) < (SP ? 1e37 : 1e307)) || std::fabs(v) < (SP ? 1e-37 : 1e-300))) continue; ln.replace(prevF[j].first, prevF[j].second, t); r[j - skip] = v; c_.count("lines_almost_repeated"); }
      text += ln; prevLine = ln; prevR = r; want.push_back(r); if (i + 1 < rows || !s.chance(1, 4)) text += crlf == 1 || (crlf == 2 && s.chance(1, 2)) ? "\r\n" : "\n"; continue; }
    prevF.clear();
    int n = cols;
    if (i >= used && s.chance(1, 2)) n = s.range(0, cols + 2);       // beyond the limit anything goes
    for (int j = 0; j < n; j++) {
      if (j) text += sep();
      if (j < skip || i >= used) {
        if (s.chance(1, 2)) { S t = JUNK[s.range(0, 11)]; S u; for (char ch : t) if (seps.find(ch) == S::npos) u += ch; text += u.empty() ? plain : u; special = true; prevF.push_back({0, 0}); continue; }
      }
      double v; S t = notation(s, v);
      bool clash = false; for (char ch : t) if (seps.find(ch) != S::npos) clash = true;
      if (clash || (!hexOk && t.find_first_of("xX") != S::npos)) { t = plain; v = plain[0] - '0'; }
      if (i == padRow && padHow == 0 && j == padAt) { size_t used_ = text.size() - lineAt, left = 4 * (size_t)(cols - j), z = (size_t)padTo > used_ + left ? padTo - used_ - left : 1; bool neg = t[0] == '-'; if (t.find_first_of("xX") == S::npos && seps.find('0') == S::npos) t = (neg ? S("-") : S()) + S(z, '0') + t.substr(neg || t[0] == '+' ? 1 : 0); }
      prevF.push_back({text.size() - lineAt, t.size()}); text += t; if (i == padRow && padHow == 1 && j == padAt && j + 1 < n) { size_t used_ = text.size() - lineAt; if ((size_t)padTo > used_) for (size_t z = padTo - used_ - s.range(0, 3 < padTo - (long)used_ ? 3 : 0); z > 0; z--) text += seps[z % seps.size()]; }
      if (j >= skip && i < used) r.push_back(v);
    }
    if ((int)prevF.size() == cols && i < used) { prevLine = text.substr(lineAt); prevR = r; } else prevLine.clear();
    if (trail && s.chance(1, 2)) text += sep();
    if (i == padRow && padHow == 2 && !crlf) while (text.size() - lineAt < (size_t)padTo) text += seps[0];
    if (i + 1 < rows || !s.chance(1, 4)) text += crlf == 1 || (crlf == 2 && s.chance(1, 2)) ? "\r\n" : "\n";
    if (i < used) want.push_back(r);
  }
  S f = c_.path("t.txt"); spit(f, text);
  c_.desc.str(text).add(limit).add(skip).str(seps);
  c_.nontrivial = (long)used * (cols - skip) > 1 && (limit != 0 || skip != 0 || seps.size() > 1 || runs || special || used != rows);
  c_.maxi("rows", rows); c_.maxi("cols", cols);
  auto judge = [&](const Table& got, const char* via) {
    EXPECT((int)got.size() == used, "row-count", via << ": " << got.size() << " series loaded, the file has " << rows << " lines and the limit is " << limit);
    for (int i = 0; i < used; i++) {
      EXPECT((int)got[i].size() == cols - skip, "length", via << ": series " << i << " has " << got[i].size() << " points instead of " << cols << "-" << skip);
      for (int j = 0; j < cols - skip; j++)
        EXPECT(eqv(got[i][j], (D)want[i][j]), "value", via << ": point (" << i << "," << j << ") is " << got[i][j] << " but the file says " << want[i][j] << " (limit " << limit << ", offset " << skip << ", separators '" << seps << "')");
    }
    c_.count("values_compared", (u64)used * (cols - skip));
  };
  TimeSeriesSet set;
  if (s.chance(1, 4)) { S g = c_.path("first.txt"); spit(g, tableText(genTable(s, s.range(1, 4), s.range(1, 5)))); set.loadData(g, 0, 0, " "); if (s.chance(1, 2)) set.normalize(); }
  set.loadData(f, limit, skip, seps);
  EXPECT(set.isLoaded() && set.getItemCount() == used && set.getItemLength() == cols - skip && set.getFilePath() == f, "info", "TimeSeriesSet reports " << set.getItemCount() << "x" << set.getItemLength() << " from " << set.getFilePath() << " instead of " << used << "x" << cols - skip);
  EXPECT(!set.isNormalized(), "info", "freshly loaded dataset reported as normalised");
  judge(valuesOf(set), "TimeSeriesSet");
  OnexAPI api; int pre = s.range(0, 2);
  S g2 = c_.path("pre.txt"); spit(g2, "1 2\n3 4\n"); for (int i = 0; i < pre; i++) api.loadDataset(g2, 0, 0, " ");
  dataset_info_t info = api.loadDataset(f, limit, skip, seps);
  EXPECT(info.id == pre && info.itemCount == used && info.itemLength == cols - skip && info.name == f && !info.isGrouped && !info.isNormalized, "info", "loadDataset reported id " << info.id << " " << info.itemCount << "x" << info.itemLength << " name " << info.name << " flags " << info.isGrouped << info.isNormalized << " instead of id " << pre << " " << used << "x" << cols - skip);
  S sf = c_.path("s.txt"); api.saveDataset(info.id, sf, ' '); Table got;
  EXPECT(parseTable(slurp(sf), ' ', got), "saved", "saved file unreadable");
  judge(got, "OnexAPI");
  c_.sampleText = VF_STR(rows << "x" << cols << " limit=" << limit << " offset=" << skip << " separators='" << seps << "' text: " << text.substr(0, 200))();
}
}
