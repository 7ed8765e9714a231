// C02 refused loads: error, no id consumed, session untouched
#include "session.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <atomic>
#include <thread>
using namespace onex;
namespace vf {
const char* RULE = "one case = a session of loaded/normalised/aggregated/grouped datasets, then several defective files (missing, directory, empty, ragged at a chosen row and by a chosen amount, unparsable or unrepresentable field at a chosen place, no column left, negative offset, a wide first row over so many short ones that rows times columns exceeds 32 bits), or one pipe; each load judged and the whole session (infos, values, groups, next id, answers) compared before and after; non-trivial = the defect lies behind well-formed content or the session holds datasets";
// a pipe can be read once: either it is refused or the table is the one that came through it
struct Feeder { S path, text; std::atomic<bool> stop{false}; std::thread th; Feeder(const S& p, const S& t) : path(p), text(t) { mkfifo(p.c_str(), 0600); th = std::thread([this] { bool fed = false; while (!stop) { int fd = open(path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC); if (fd < 0) { usleep(300); continue; } if (fed) usleep(1000); size_t o = 0; while (o < text.size() && !stop) { ssize_t n = write(fd, text.data() + o, text.size() - o); if (n > 0) o += n; else if (errno == EAGAIN) usleep(200); else break; } close(fd); fed = true; for (int k = 0; k < 1000 && !stop; k++) usleep(300); } }); } ~Feeder() { stop = true; th.join(); unlink(path.c_str()); } };
static void pipeCase(Ctx& c_, Src& s) {
  int rows = s.range(1, 6), cols = s.range(1, 6), lim = s.chance(1, 2) ? 0 : s.range(1, 7), skip = s.range(0, cols - 1); Table t(rows, Row(cols)); for (auto& r : t) for (auto& x : r) x = (D)(s.range(-40, 40) * 0.25); S f = c_.path("pipe"); c_.count("pipes"); c_.desc.add(hashTable(t)).add(lim).add(skip);
  signal(SIGPIPE, SIG_IGN); OnexAPI api; bool ref; dataset_info_t i(-1, "", 0, 0, false, false); { Feeder fd(f, tableText(t)); ref = refused(c_, [&] { i = api.loadDataset(f, lim, skip, " "); }, "loadDataset of a pipe"); }
  if (ref) EXPECT(api.getDatasetCount() == 0 && api.getAllDatasetInfo().empty(), "trace", "a refused load of a pipe left a dataset");
  else { int used = lim <= 0 ? rows : std::min(lim, rows); EXPECT(i.id == 0 && i.itemCount == used && i.itemLength == cols - skip, "accepted", "a pipe with " << rows << "x" << cols << " values (limit " << lim << ", offset " << skip << ") was loaded as " << i.itemCount << "x" << i.itemLength); }
  c_.sampleText = VF_STR("pipe of " << rows << "x" << cols << " limit " << lim << (ref ? " refused" : " loaded"))();
}
void runCase(Ctx& c_, Src& s) {
  if (s.chance(1, 100)) { pipeCase(c_, s); return; }
  Session se(c_, s);
  int n = s.range(0, 3);
  for (int i = 0; i < n; i++) { se.load(); if (s.chance(1, 3)) se.anyChange(); }
  if (n > 1 && s.chance(1, 3)) se.unload();
  int bad = s.range(1, 4);
  for (int b = 0; b < bad; b++) {
    S before = se.snapshot();
    S f = c_.path("bad.txt"); S seps = s.chance(1, 2) ? " " : s.chance(1, 2) ? "," : ", "; char sp = seps[0];
    bool wide = s.chance(1, NEWLITS.empty() ? 60 : 6); int rows = s.size(1, wide ? 3000 : 30), cols = s.size(1, wide && rows < 40 ? 3000 : 30), skip = s.chance(1, 2) ? 0 : s.range(0, cols - 1), limit = 0; if (s.chance(1, 3)) limit = s.range(1, rows + 2);
    int used = limit <= 0 ? rows : std::min(limit, rows);
    std::vector<std::vector<S>> t(rows, std::vector<S>(cols));
    for (auto& r : t) for (auto& x : r) x = std::to_string(s.range(-50, 50)) + (s.chance(1, 3) ? ".5" : "");
    int kind = s.range(0, 8); S what; bool fileThere = true;
    int br = s.chance(1, 3) ? used - 1 : s.range(0, used - 1), bc = s.chance(1, 3) ? cols - 1 : s.range(skip, cols - 1);
    static const char* BADNUM[] = {"abc", "-", "+", ".", "e5", "--1", "x", "?", "one", "1e999", "-1e400", "1e5000", "1e-400", "-1e-999", "1e-5000", "9e99999", "_", "#1", "e", "NA"};
    switch (kind) {
      case 0: what = "missing file"; f = c_.path("nosuch") + (s.chance(1, 2) ? "/deep.txt" : ".txt"); fileThere = false; break;
      case 1: what = "directory"; f = c_.tmp; fileThere = false; break;
      case 2: what = "empty file"; t.clear(); break;
      case 3: if (rows < 2 || used < 2) { rows = used = 2; limit = 0; t.resize(2, std::vector<S>(cols, "1")); br = 1; }
              if (br == 0) br = used - 1;
              if (s.chance(1, 3)) { // what one row lacks another has too much
                if (used < 3) { rows = used = 3; limit = 0; t.assign(3, std::vector<S>(cols, "1")); } if (cols < 2) { for (auto& r : t) r.push_back("7"); cols++; }
                br = s.range(1, used - 1); int o = s.range(1, used - 2); if (o >= br) o++; what = "longer row made up for by a shorter one"; for (int k = s.size(1, cols - 1); k > 0; k--) { t[br].push_back(t[o].back()); t[o].pop_back(); } break; }
              what = "longer row"; for (int k = s.size(1, 5); k > 0; k--) t[br].push_back("3"); break;
      case 4: if (rows < 2 || used < 2) { rows = used = 2; limit = 0; t.assign(2, std::vector<S>(cols, "1")); }
              if (br == 0) br = used - 1;
              if (cols < 2) { for (auto& r : t) r.push_back("7"); cols++; }
              what = "shorter row"; for (int k = s.size(1, cols - 1); k > 0; k--) t[br].pop_back(); break;
      case 5: case 6: { what = "bad number"; S v = BADNUM[s.range(0, (long)(sizeof BADNUM / sizeof *BADNUM) - 1)]; t[br][bc] = v; what += " '" + v + "'"; break; }
      case 7: what = "no column left"; skip = cols + (s.chance(1, 2) ? 0 : s.range(1, 1000000)); break;
      case 8: what = "negative offset"; skip = s.chance(1, 2) ? -1 : -(int)s.range(1, 2000000000); break;
    }
    if (s.chance(1, 150)) { kind = 9; what = "wide first row over many short ones"; fileThere = false; f = c_.path("bad.txt"); skip = s.chance(1, 2) ? 0 : s.range(0, 3); limit = 0; br = 1; bc = 0;      // rows times columns around and beyond 2^31, in a small file
      int w = s.pick(std::vector<int>{65536, 65536, 46341, 50000, 65535, 32768, 60000, 131072}); long h = s.chance(1, 2) ? w : (1L << s.range(29, 33)) / w + s.range(-1, 1); if (h > 140000) h = 140000; S text; S ln = s.chance(1, 2) ? "\n" : "1 2\n"; for (int k = 0; k < w; k++) text += "1 "; text += "\n"; for (long k = 1; k < h; k++) text += ln; spit(f, text); c_.desc.add(w).add(h); c_.count("wide_first_rows"); rows = h; cols = w; seps = " "; }
    if (fileThere) { S text; for (size_t i = 0; i < t.size(); i++) { for (size_t j = 0; j < t[i].size(); j++) { if (j) text += sp; text += t[i][j]; } if (i + 1 < t.size() || s.chance(2, 3)) text += "\n"; } spit(f, text); c_.desc.str(text); }
    c_.desc.add(kind).add(skip).add(limit).str(before); c_.nontrivial |= n > 0 || br > 0; c_.count("defects");
    int id = -2;
    bool ref = refused(c_, [&] { id = se.api.loadDataset(f, limit, skip, seps).id; }, "loadDataset of " + what);
    EXPECT(ref, "accepted", "a file with defect '" << what << "' at row " << br << " column " << bc << " (offset " << skip << ", limit " << limit << ") was loaded as dataset " << id);
    S after = se.snapshot();
    EXPECT(before == after, "trace", "a refused load (" << what << ") changed the session:\n" << before.substr(0, 800) << "\n-- after --\n" << after.substr(0, 800));
    // directly on a set object: refused too
    TimeSeriesSet set; EXPECT(refused(c_, [&] { set.loadData(f, limit, skip, seps); }, "loadData of " + what), "accepted", "TimeSeriesSet::loadData accepted " << what);
    c_.sampleText = VF_STR(what << " row " << br << " col " << bc << " of " << rows << "x" << cols << " limit " << limit << " offset " << skip << ", session of " << n << " datasets")();
    if (s.chance(1, 4)) { se.load(); }      // id accounting is verified by Session::load
  }
  se.load(); se.verifyAll();
}
}
