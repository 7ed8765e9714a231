#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <chrono>
#include <atomic>
#include "Exception.hpp"

namespace vf {
std::vector<long> LITS, NEWLITS; std::vector<double> FLITS, NEWFLITS;
// the library may read the clock from several threads; relaxed, so that reading it orders nothing
static ClockMode cm = CLK_CONST; static std::atomic<long long> cNow(0); static long long cStep = 0; static std::atomic<u64> cSeed(1), cReads(0);
static const std::memory_order RLX = std::memory_order_relaxed;
void setClock(ClockMode m, long long a, long long st, u64 seed) { cm = m; cNow = a; cStep = st; cSeed = seed; cReads = 0; }
u64 clockReads() { return cReads; }
static long long tick() {
  cReads.fetch_add(1, RLX);
  switch (cm) {
    case CLK_CONST: return cNow.load(RLX);
    case CLK_STEP: return cNow.fetch_add(cStep, RLX) + cStep;
    case CLK_BACK: return cNow.fetch_sub(cStep, RLX) - cStep;
    default: u64 z = mix(cSeed.load(RLX)); cSeed.store(z, RLX); return (long long)(z % (u64)(cStep > 0 ? cStep : 1)) - cStep / 2;
  }
}
static S capPath; static int savedOut = -1, nullFd = -1;
void capture(bool on) {
  fflush(stdout); std::fflush(nullptr);
  if (on) { int fd = open(capPath.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); close(fd); }
  else dup2(nullFd, 1);
}
S captured() { return slurp(capPath); }
} // namespace vf

#ifndef VF_REAL_CLOCK
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(vf::tick()))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(vf::tick()))); }
} } }
#endif

using namespace vf;
static Ctx C; static S statusPath;
static int statusFd = -1;
static void writeStatus(const char* st, long k) { char b[64]; int n = snprintf(b, sizeof b, "%-8s %12ld\n", st, k); if (statusFd >= 0) { ssize_t r = pwrite(statusFd, b, n, 0); (void)r; } }
static void onHang(int) { writeStatus("HANG", C.caseNo); _exit(97); }

static void armWatchdog(int secs) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, nullptr);
}
static S jesc(const S& s) { S o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

static void guarded(Src& s) {
  C.key.clear(); C.msg.clear(); C.desc = Hash(); C.nontrivial = false; C.sampleText.clear();
  try { runCase(C, s); }
  catch (CaseFailed&) {}
  catch (CaseSkipped&) { C.count("skipped"); }
  catch (onex::OnexException& e) { C.key = "unexpected-error"; C.msg = S("operation expected to succeed raised OnexException: ") + e.what(); }
  catch (std::exception& e) { C.key = "foreign-exception"; C.msg = S("exception other than OnexException: ") + e.what(); }
  catch (...) { C.key = "foreign-exception"; C.msg = "unknown exception"; }
}

static void loadLits() {
  const char* e = getenv("ONEX_LITS"); if (e) { std::istringstream i(e); long v; while (i >> v) LITS.push_back(v); }
  e = getenv("ONEX_FLITS"); if (e) { std::istringstream i(e); double v; while (i >> v) FLITS.push_back(v); }
  e = getenv("ONEX_NEWLITS"); if (e) { std::istringstream i(e); long v; while (i >> v) NEWLITS.push_back(v); }
  e = getenv("ONEX_NEWFLITS"); if (e) { std::istringstream i(e); double v; while (i >> v) NEWFLITS.push_back(v); }
}
static void setupIO() {
  nullFd = open("/dev/null", O_WRONLY); dup2(nullFd, 1); capPath = C.tmp + "/captured.out";
}

#ifdef VF_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* t = getenv("VF_TMP"); C.tmp = t ? t : "/tmp"; C.fuzz = true;
  char b[32]; snprintf(b, 32, "/p%d", (int)getpid()); C.tmp += b; mkdir(C.tmp.c_str(), 0700);
  setupIO(); loadLits(); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  Src s(d, n); setClock(CLK_CONST, 1000, 0); guarded(s);
  if (!C.key.empty()) { fprintf(stderr, "\nVF-VIOLATION key=%s msg=%s\n", C.key.c_str(), C.msg.c_str()); abort(); }
  return 0;
}
#else
int main(int argc, char** argv) {
  long from = 0, to = 10, step = 1; int wd = 60; S out;
  for (int i = 1; i + 1 < argc; i += 2) {
    S a = argv[i], v = argv[i + 1];
    if (a == "--seed") C.seed = strtoull(v.c_str(), 0, 10); else if (a == "--from") from = atol(v.c_str());
    else if (a == "--to") to = atol(v.c_str()); else if (a == "--step") step = atol(v.c_str());
    else if (a == "--tmp") C.tmp = v; else if (a == "--out") out = v; else if (a == "--tier") C.tier = v;
    else if (a == "--watchdog") wd = atoi(v.c_str());
  }
  mkdir(C.tmp.c_str(), 0700); setupIO(); loadLits();
  statusFd = open((out + ".status").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  signal(SIGPROF, onHang);
  std::unordered_set<u64> seen; std::vector<S> samples; u64 evals = 0, nontriv = 0; S viol; int nv = 0;
  for (long k = from; k < to && nv < 5; k += step) {
    C.caseNo = k; writeStatus("RUN", k);
    armWatchdog(wd); setClock(CLK_CONST, 1000, 0);
    Src s(mix(C.seed * 0x100000001b3ULL + mix((u64)k)));
    guarded(s);
    evals++;
    if (!C.key.empty()) { char b[64]; snprintf(b, 64, "%ld", k); viol += S(nv ? ",\n" : "") + "{\"key\":\"" + jesc(C.key) + "\",\"case\":" + b + ",\"msg\":\"" + jesc(C.msg.substr(0, 4000)) + "\"}"; nv++; }
    if (C.nontrivial && seen.insert(C.desc.get()).second) { nontriv++; }
    if (!C.sampleText.empty() && samples.size() < 3 && C.nontrivial) samples.push_back(C.sampleText.substr(0, 600));
  }
  armWatchdog(0);
  { std::ofstream h(out + ".hash", std::ios::binary); for (u64 x : seen) h.write((const char*)&x, 8); }
  std::ofstream o(out);
  o << "{\"evals\":" << evals << ",\"nontrivial\":" << nontriv << ",\"rule\":\"" << jesc(RULE) << "\",\"counters\":{";
  bool first = true; for (auto& kv : C.counters) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  o << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
  o << "],\"violations\":[" << viol << "]}\n"; o.close();
  if (!o) _exit(91);
  writeStatus("DONE", to);
  fflush(stderr); _exit(0);
}
#endif
