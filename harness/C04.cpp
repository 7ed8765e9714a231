// C04 saves that cannot complete are reported
#include "session.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
using namespace onex;
namespace vf {
const char* RULE = "one case = one session and one kind of file (dataset, full group file, size-only group file); the file-size limit is set to every byte count from 0 to the complete size (all of them for files up to 500 bytes, otherwise the ends, buffer boundaries and a sample), plus unopenable paths and /dev/full; every save judged: it raises the error or the complete file is there, memory untouched, and a later save works; non-trivial = the limit is strictly below the complete size";
struct Limit { struct rlimit old; Limit(rlim_t k) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit n = old; n.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &n); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
void runCase(Ctx& c_, Src& s) {
  signal(SIGXFSZ, SIG_IGN);
  Session se(c_, s, 0); bool large = s.chance(1, 5); int kind = s.range(0, 2);
  se.maxRows = large ? 12 : 4; se.maxCols = large ? (kind == 0 ? 120 : 14) : 7;
  se.load(); if (s.chance(1, 2)) se.load(); int id = se.anyId(); if (s.chance(1, 3)) se.normalize(id);
  if (large && kind == 0) { Table t = genTable(s, s.range(1, 30), s.range(30, 150), FL_UNI); id = se.load(&t); }
  if (kind || (!large && s.chance(1, 2))) se.group(id);
  S good = c_.path("good.out"), f = c_.path("out.dat");
  auto save = [&](const S& p) { if (kind == 0) se.api.saveDataset(id, p, ' '); else se.api.saveGroup(id, p, kind == 2); };
  save(good); S want = slurp(good); EXPECT(!want.empty(), "empty", "complete save wrote nothing"); long n = want.size();
  S snap = se.snapshot();
  std::set<long> ks; if (n <= 500) for (long k = 0; k <= n; k++) ks.insert(k); else { for (long k = 0; k < 12; k++) { ks.insert(k); ks.insert(n - k); } for (long b = 512; b <= n + 1; b *= 2) for (int d = -2; d <= 2; d++) if (b + d <= n) ks.insert(b + d); for (long b = 8191; b <= n; b += 8191) ks.insert(b); for (int q = 0; q < 40; q++) ks.insert(s.range(0, n)); }
  ks.insert(n + 1); ks.insert(n + 100000);
  for (long k : ks) {
    if (s.chance(1, 3)) unlink(f.c_str()); else if (s.chance(1, 2)) spit(f, S(s.range(0, 300), 'o'));
    bool ref; { Limit l((rlim_t)k); ref = refused(c_, [&] { save(f); }, "save under a file-size limit"); }
    c_.count("fault_points"); c_.desc.add(k).add(n).add(kind); if (k < n) c_.nontrivial = true;
    S got = exists(f) ? slurp(f) : S();
    if (!ref) EXPECT(got == want, "silent", "a save of " << n << " bytes (kind " << kind << ") that could write only " << k << " bytes was reported as done; the file holds " << got.size() << " bytes");
    else EXPECT(k < n, "spurious", "a save of " << n << " bytes with room for " << k << " bytes was reported as failed");
  }
  // the full device is reached through a link, so that code that removes or replaces its target harms nothing
  { S fl = c_.path("full.lnk"); unlink(fl.c_str()); if (!symlink("/dev/full", fl.c_str())) { bool ref = refused(c_, [&] { save(fl); }, "save to a full device"); struct stat st; bool link = !lstat(fl.c_str(), &st) && S_ISLNK(st.st_mode); EXPECT(ref || (!link && slurp(fl) == want), "silent", "saving (kind " << kind << ") to a full device was reported as done"); unlink(fl.c_str()); c_.count("fault_points"); } }
  S bad[] = {c_.path("nodir") + "/x.txt", c_.tmp, "", good + "/x", c_.path("nodir") + "/", "/dev/null/x"};
  for (auto& p : bad) { EXPECT(refused(c_, [&] { save(p); }, "save to " + p), "silent", "saving (kind " << kind << ") to '" << p << "' was reported as done"); c_.count("fault_points"); }
  // destinations an unprivileged user may read but not write, some looking much like the data to be saved
  { int was = open(".", O_RDONLY | O_DIRECTORY); S look = want; switch (s.range(0, 3)) { case 0: break; case 1: for (auto& ch : look) if (isdigit((unsigned char)ch) && s.chance(1, 3)) ch = '9'; break; case 2: { size_t lines = std::count(want.begin(), want.end(), '\n'); look.clear(); while (lines--) look += "9 9\n"; break; } default: look = S(want.size(), 'x'); }
    S ro = c_.path("ro.dat"); unlink(ro.c_str()); spit(ro, look); chmod(ro.c_str(), 0444); struct stat ms; stat(c_.tmp.c_str(), &ms); chmod(c_.tmp.c_str(), 0755);
    if (geteuid() == 0 && was >= 0 && !chdir(c_.tmp.c_str())) { if (!seteuid(65534)) { int w = open("ro.dat", O_WRONLY); bool writable = w >= 0; if (w >= 0) close(w); bool ref = true; std::exception_ptr ex; if (!writable) try { ref = refused(c_, [&] { save("ro.dat"); }, "save to a read-only file"); } catch (...) { ex = std::current_exception(); }
        if (seteuid(0)) abort(); if (fchdir(was)) abort(); if (ex) std::rethrow_exception(ex); if (!writable) { EXPECT(ref, "silent", "saving (kind " << kind << ") to a read-only file holding " << (look == want ? "the same data" : "other data") << " was reported as done"); EXPECT(slurp(ro) == look, "side-effect", "a refused save changed a read-only file"); c_.count("fault_points"); c_.count("read_only_files"); } } else if (fchdir(was)) abort(); }
    chmod(c_.tmp.c_str(), ms.st_mode & 07777); unlink(ro.c_str()); if (was >= 0) close(was); }
  EXPECT(!exists(c_.path("nodir")), "side-effect", "a directory was created");
  EXPECT(se.snapshot() == snap, "memory", "failed saves changed the session");
  save(f); EXPECT(slurp(f) == want, "later", "a later save to a working destination differs");
  c_.sampleText += VF_STR(" kind " << kind << " complete size " << n << " limits tried " << ks.size())();
}
}
