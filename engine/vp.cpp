#include "vp.hpp"
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <map>
#include <random>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>

// deterministic std::random_device: functions of the library seed themselves from it
static unsigned g_rd = 0;
unsigned int std::random_device::_M_getval() {
  return (unsigned) vp::mix64(0xabcdef ^ (uint64_t) g_rd++);
}

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=190:allow_user_segv_handler=0:max_allocation_size_mb=4096";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

namespace vp {
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

struct Label { char name[72]; long n; };
constexpr int MAXLABEL = 600, MAXW = 64;
struct LabelTab { int n; Label l[MAXLABEL]; };
static LabelTab *g_labels = nullptr;  // this worker's
static const char *g_prop = "";

void Case::label(const char *fmt, ...) {
  if (!g_labels) return;
  char b[72];
  int k = snprintf(b, sizeof b, "%.30s/", g_prop);
  va_list ap; va_start(ap, fmt); vsnprintf(b + k, sizeof b - k, fmt, ap); va_end(ap);
  for (int i = 0; i < g_labels->n; ++i) if (!strcmp(g_labels->l[i].name, b)) { g_labels->l[i].n++; return; }
  if (g_labels->n < MAXLABEL) { auto &l = g_labels->l[g_labels->n]; strcpy(l.name, b); l.n = 1; g_labels->n++; }
}
void Case::note(const char *fmt, ...) {
  if (!verbose) return;
  char b[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (notes.size() < 60000) notes += b;
}
void Case::fail(const char *fmt, ...) {
  char b[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Fail{b};
}

enum St : uint8_t { NOTRUN = 0, TRIVIAL = 1, NONTRIV = 2, DISC = 3, FAILED = 4 };

static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t) *s) * 1099511628211ull; return h; }

template<class T> T *shared(size_t n) {
  void *p = mmap(nullptr, n * sizeof(T) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (T *) p;
}

static void on_cpu(int) { _exit(98); }
static void arm(double sec) {
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = (long) sec; t.it_value.tv_usec = (long) ((sec - (long) sec) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

static std::string run_case(const Prop &p, Case &c, St &st) {
  g_prop = p.name;
  g_rd = 0;
  srand(1);
  std::string msg;
  try {
    p.fn(c);
    st = c.is_nontrivial ? NONTRIV : TRIVIAL;
  } catch (const Discard &) {
    st = DISC;
  } catch (const Fail &f) {
    st = FAILED; msg = f.msg;
  } catch (const std::exception &e) {
    st = FAILED; msg = std::string("uncaught exception: ") + e.what();
  } catch (...) {
    st = FAILED; msg = "uncaught exception of unknown type";
  }
  // library code changes the format state of std::cout
  std::cout.clear();
  return msg;
}

static void quiet_io(const char *errfile = nullptr) {
  int n = open("/dev/null", O_RDWR);
  dup2(n, 1); dup2(n, 0);
  int e = errfile ? open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0644) : n;
  dup2(e, 2);
}
static void limit_mem() {
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit r{6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &r);
#endif
  struct rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
  struct rlimit f{256ul << 20, 256ul << 20}; setrlimit(RLIMIT_FSIZE, &f);
}

struct Exec { St st; std::string msg, notes, err; std::vector<uint64_t> choices; bool hang = false; };
struct ShRec { size_t n; size_t notelen, msglen; uint8_t st; uint8_t done; char msg[9000]; char notes[61000]; uint64_t ch[1 << 20]; };
static ShRec *g_rec = nullptr;
static std::string g_tmp = "/tmp";

// run one case in a forked child; from seed or from choices
static Exec exec_one(const Prop &p, uint64_t seed, const std::vector<uint64_t> *choices, bool verbose, double cpu) {
  if (!g_rec) g_rec = shared<ShRec>(1);
  g_rec->n = 0; g_rec->notelen = g_rec->msglen = 0; g_rec->done = 0; g_rec->st = NOTRUN;
  std::string errf = g_tmp + "/err." + std::to_string(getpid());
  fflush(stdout); std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    limit_mem();
    quiet_io(errf.c_str());
    signal(SIGPROF, on_cpu); arm(cpu);
    Case c;
    c.s = seed; c.verbose = verbose;
    if (choices) { c.replay = choices->data(); c.nreplay = choices->size(); static uint64_t dummy; if (!c.replay) c.replay = &dummy; }
    c.maxrec = 1 << 20;
    c.rec = g_rec->ch;
    c.mirror = &g_rec->n;
    St st = NOTRUN;
    std::string m = run_case(p, c, st);
    arm(0);
    g_rec->n = c.nrec;
    g_rec->msglen = std::min(m.size(), sizeof(g_rec->msg) - 1); memcpy(g_rec->msg, m.data(), g_rec->msglen);
    g_rec->notelen = std::min(c.notes.size(), sizeof(g_rec->notes) - 1); memcpy(g_rec->notes, c.notes.data(), g_rec->notelen);
    g_rec->st = st; g_rec->done = 1;
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  Exec e;
  e.st = (St) g_rec->st;
  e.msg.assign(g_rec->msg, g_rec->msglen);
  e.notes.assign(g_rec->notes, g_rec->notelen);
  if (!g_rec->done) {
    e.st = FAILED;
    std::ifstream f(errf); std::stringstream ss; ss << f.rdbuf(); e.err = ss.str();
    char b[200];
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 98) { snprintf(b, 200, "did not terminate within %.0f CPU seconds", cpu); e.hang = true; }
    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77) snprintf(b, 200, "sanitizer report");
    else if (WIFEXITED(ws)) snprintf(b, 200, "code under test called exit(%d)", WEXITSTATUS(ws));
    else snprintf(b, 200, "killed by signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
    e.msg = b;
    // first informative line of stderr
    std::istringstream is(e.err); std::string l;
    while (std::getline(is, l)) if (l.find("Assertion") != std::string::npos || l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("what()") != std::string::npos) { e.msg += ": " + l.substr(0, 400); break; }
  }
  e.choices.assign(g_rec->ch, g_rec->ch + g_rec->n);
  unlink(errf.c_str());
  return e;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, double cpu, double budget_s, int &nexec) {
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&]() { return nexec > 3000 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
  auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
    ++nexec;
    Exec e = exec_one(p, 0, &cand, false, cpu);
    if (e.st != FAILED) return false;
    // keep what was really consumed
    auto ch = e.choices;
    auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    if (less(ch, best)) { best = ch; return true; }
    return false;
  };
  bool improved = true;
  while (improved && !over()) {
    improved = false;
    for (size_t k = best.size() / 2; k >= 1 && !over(); k /= 2) {
      for (size_t i = 0; i + k <= best.size() && !over();) {
        std::vector<uint64_t> cand(best.begin(), best.begin() + i);
        cand.insert(cand.end(), best.begin() + i + k, best.end());
        if (attempt(cand)) improved = true; else i += k;
      }
    }
    for (size_t k = 8; k >= 2 && !over(); k /= 2)
      for (size_t i = 0; i + k <= best.size() && !over(); i += k) {
        auto cand = best; bool nz = false;
        for (size_t j = i; j < i + k; ++j) { nz |= cand[j] != 0; cand[j] = 0; }
        if (nz && attempt(cand)) improved = true;
      }
    for (size_t i = 0; i < best.size() && !over(); ++i) {
      if (best[i] == 0) continue;
      auto cand = best; cand[i] = 0;
      if (attempt(cand)) { improved = true; continue; }
      // lower by clearing low bits (rounder numbers), then binary descent
      for (int b = 36; b >= 4 && !over(); b -= 8) {
        if (i >= best.size()) break;
        cand = best; uint64_t v = cand[i] >> b << b;
        if (v && v != cand[i]) { cand[i] = v; if (attempt(cand)) { improved = true; break; } }
      }
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo + 1 && !over()) {
        cand = best; uint64_t mid = lo + (best[i] - lo) / 2; cand[i] = mid;
        if (attempt(cand)) improved = true; else lo = mid;
        if (best.size() <= i || lo + 1 >= best[i]) break;
        if (best[i] - lo < (best[i] >> 6)) break;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch: s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
}  // namespace vp

using namespace vp;

// usage: bin run PROPERTY TIER SEED OUT.json REPLAYDIR [only=sub] [scale=x] [wall=s]
//        bin replay FILE
//        bin list
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (getenv("VP_TMP")) g_tmp = getenv("VP_TMP");
  auto &R = registry();
  std::sort(R.begin(), R.end(), [](const Prop &a, const Prop &b) { return strcmp(a.name, b.name) < 0; });
  if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto &p: R) printf("%s\t%ld\t%ld\t%s\n", p.name, p.quick, p.thorough, p.desc); return 0; }
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    std::ifstream f(argv[2]); std::string line, sub; std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
      if (line.rfind("sub=", 0) == 0) sub = line.substr(4);
      if (line.rfind("choices=", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); }
    }
    for (auto &p: R) if (sub == p.name) {
      Exec e = exec_one(p, 0, &ch, true, p.cpu_limit * 2);
      printf("sub=%s status=%s\nnotes: %s\nmsg: %s\n%s\n", sub.c_str(), e.st == FAILED ? "FAIL" : e.st == DISC ? "DISCARD" : "PASS", e.notes.c_str(), e.msg.c_str(), e.err.substr(0, 6000).c_str());
      return e.st == FAILED ? 1 : 0;
    }
    fprintf(stderr, "no sub-property %s\n", sub.c_str()); return 3;
  }
  if (argc < 7) { fprintf(stderr, "usage\n"); return 3; }
  std::string propid = argv[2], tier = argv[3]; uint64_t seed = strtoull(argv[4], nullptr, 10);
  std::string out = argv[5], rdir = argv[6], only; double scale = 1, wall = tier == "quick" ? 420 : 100000; int nw = (int) sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 7; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("only=", 0) == 0) only = a.substr(5);
    if (a.rfind("scale=", 0) == 0) scale = atof(a.c_str() + 6);
    if (a.rfind("wall=", 0) == 0) wall = atof(a.c_str() + 5);
    if (a.rfind("j=", 0) == 0) nw = atoi(a.c_str() + 2);
  }
  nw = std::max(1, std::min(nw, MAXW));
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  const size_t NP = R.size();
  std::vector<long> N(NP);
  std::vector<uint8_t *> status(NP); std::vector<uint64_t *> hashes(NP);
  for (size_t i = 0; i < NP; ++i) {
    N[i] = (long) std::ceil((tier == "quick" ? R[i].quick : R[i].thorough) * scale);
    if (!only.empty()) {  // comma separated
      bool in = false; std::istringstream is(only); std::string t; while (std::getline(is, t, ',')) if (t == R[i].name) in = true;
      if (!in) N[i] = 0;
    }
    status[i] = shared<uint8_t>(N[i] + 1); hashes[i] = shared<uint64_t>(N[i] + 1);
  }
  struct Sh { std::atomic<long> next; std::atomic<int> failed; std::atomic<uint64_t> cpu_us; };
  Sh *sh = shared<Sh>(NP);
  struct WS { std::atomic<long> prop, idx; };
  WS *ws = shared<WS>(MAXW);
  LabelTab *labels = shared<LabelTab>(MAXW);
  std::atomic<int> *stop = shared<std::atomic<int>>(1);
  auto seed_of = [&](size_t ip, long idx) { return mix64(mix64(seed * 0x9E3779B97F4A7C15ull + hash_str(R[ip].name)) + (uint64_t) idx * 0xD1B54A32D192ED03ull); };
  auto spawn = [&](int w) -> pid_t {
    fflush(stdout);
    pid_t pid = fork();
    if (pid) return pid;
    limit_mem(); quiet_io(); signal(SIGPROF, on_cpu);
    g_labels = &labels[w];
    // workers start at different sub-properties so that slow ones overlap with fast ones
    for (size_t k = 0; k < NP; ++k) {
      size_t ip = (k + (size_t) w * NP / nw) % NP;
      while (!stop->load()) {
        if (sh[ip].failed.load()) break;
        long idx = sh[ip].next.fetch_add(1);
        if (idx >= N[ip]) break;
        ws[w].prop = (long) ip; ws[w].idx = idx;
        Case c; c.s = seed_of(ip, idx);
        St st = NOTRUN;
        struct rusage r0, r1; getrusage(RUSAGE_SELF, &r0);
        arm(R[ip].cpu_limit);
        run_case(R[ip], c, st);
        getrusage(RUSAGE_SELF, &r1);
        sh[ip].cpu_us += (r1.ru_utime.tv_sec - r0.ru_utime.tv_sec) * 1000000ll + (r1.ru_utime.tv_usec - r0.ru_utime.tv_usec);
        status[ip][idx] = st; hashes[ip][idx] = c.hash;
        ws[w].prop = -1;
        if (st == FAILED) sh[ip].failed = 1;
      }
    }
    arm(0);
    _exit(0);
  };
  std::map<pid_t, int> kids;
  for (int w = 0; w < nw; ++w) { ws[w].prop = -1; kids[spawn(w)] = w; }
  bool cut = false;
  while (!kids.empty()) {
    int st; pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid <= 0) {
      usleep(20000);
      if (!cut && el() > wall) { cut = true; stop->store(1); }
      if (cut && el() > wall + 60) for (auto &k: kids) kill(k.first, SIGKILL);
      continue;
    }
    int w = kids[pid]; kids.erase(pid);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    long ip = ws[w].prop, idx = ws[w].idx;
    if (cut && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
    if (ip >= 0) {
      status[ip][idx] = FAILED; sh[ip].failed = 1; ws[w].prop = -1;
    } else { fprintf(stderr, "worker died outside a case (status %d)\n", st); return 3; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "note: worker killed (out of memory?) in %s #%ld\n", R[ip].name, idx); }
    if (!cut) kids[spawn(w)] = w;
  }
  double t_explore = el();
  // ---- failures
  int nviol = 0, nflaky = 0;
  std::string viol_json;
  for (size_t ip = 0; ip < NP; ++ip) {
    for (long idx = 0, done = 0; idx < N[ip] && !done; ++idx) if (status[ip][idx] == FAILED) {
      done = 1;
      const Prop &p = R[ip];
      double cpu = p.cpu_limit;
      Exec e = exec_one(p, seed_of(ip, idx), nullptr, true, cpu * 2);
      if (e.st != FAILED) { ++nflaky; fprintf(stderr, "note: %s #%ld failed in its worker but not when re-run alone (not reported)\n", p.name, idx); continue; }
      int nexec = 0;
      std::vector<uint64_t> best = e.choices;
      if (!e.hang) best = shrink(p, best, cpu, nviol < 3 ? 40 : 10, nexec);
      bool ok = true; Exec last;
      for (int r = 0; r < 3; ++r) { last = exec_one(p, 0, &best, true, cpu * 2); ok = ok && last.st == FAILED; }
      if (!ok) { best = e.choices; ok = true; for (int r = 0; r < 3; ++r) { last = exec_one(p, 0, &best, true, cpu * 2); ok = ok && last.st == FAILED; } }
      if (!ok) { ++nflaky; fprintf(stderr, "note: %s #%ld does not replay from its recorded choices (not reported)\n", p.name, idx); continue; }
      std::string rf = rdir + "/" + propid + "_" + p.name + ".replay";
      { std::ofstream f(rf);
        f << "property=" << propid << "\nsub=" << p.name << "\nseed=" << seed << " case=" << idx << " tier=" << tier << "\nchoices=";
        for (auto v: best) f << v << " ";
        f << "\nmessage=" << last.msg << "\nnotes=" << last.notes << "\n" << last.err.substr(0, 8000) << "\n"; }
      ++nviol;
      printf("  failing case %s #%ld (shrunk with %d executions, %zu choices): %s\n    %s\n", p.name, idx, nexec, best.size(), last.msg.substr(0, 1500).c_str(), last.notes.substr(0, 1500).c_str());
      printf("VIOLATION property=%s replay=%s\n", propid.c_str(), rf.c_str());
      viol_json += std::string(viol_json.empty() ? "" : ",") + "{\"sub\":\"" + p.name + "\",\"message\":\"" + jesc(last.msg.substr(0, 500)) + "\"}";
    }
  }
  // ---- evidence
  std::ostringstream js;
  js << "{\"subs\":[";
  for (size_t ip = 0; ip < NP; ++ip) {
    if (N[ip] == 0) continue;
    long cnt[5] = {0, 0, 0, 0, 0}; std::vector<uint64_t> hs;
    for (long i = 0; i < N[ip]; ++i) { cnt[status[ip][i]]++; if (status[ip][i] == NONTRIV) hs.push_back(hashes[ip][i]); }
    std::sort(hs.begin(), hs.end()); long dn = (long) (std::unique(hs.begin(), hs.end()) - hs.begin());
    std::string samples; int ns = 0;
    for (long i = 0; i < N[ip] && ns < 2; ++i) if (status[ip][i] == NONTRIV) {
      Exec e = exec_one(R[ip], seed_of(ip, i), nullptr, true, R[ip].cpu_limit * 2);
      if (e.st == FAILED) continue;
      std::string ch; for (size_t k = 0; k < e.choices.size() && k < 12; ++k) ch += (k ? " " : "") + std::to_string(e.choices[k]);
      samples += std::string(ns ? "," : "") + "{\"case\":" + std::to_string(i) + ",\"input\":\"" + jesc(e.notes.substr(0, 600)) + "\",\"n_choices\":" + std::to_string(e.choices.size()) + ",\"first_choices\":\"" + ch + "\"}"; ++ns;
    }
    js << (js.str().back() == '[' ? "" : ",") << "\n{\"name\":\"" << R[ip].name << "\",\"rule\":\"" << jesc(R[ip].desc) << "\",\"planned\":" << N[ip] << ",\"run\":" << cnt[1] + cnt[2] + cnt[3] + cnt[4]
       << ",\"trivial\":" << cnt[1] << ",\"nontrivial\":" << cnt[2] << ",\"distinct_nontrivial\":" << dn << ",\"discarded\":" << cnt[3] << ",\"failed\":" << cnt[4] << ",\"cpu_s\":" << sh[ip].cpu_us / 1e6 << ",\"samples\":[" << samples << "]}";
    if (cnt[4] == 0 && (cnt[2] == 0 || cnt[3] > 0.9 * N[ip])) fprintf(stderr, "warning: %s: %ld non-trivial, %ld discarded of %ld\n", R[ip].name, cnt[2], cnt[3], N[ip]);
  }
  js << "],\n\"labels\":{";
  std::map<std::string, long> L; for (int w = 0; w < nw; ++w) for (int i = 0; i < labels[w].n; ++i) L[labels[w].l[i].name] += labels[w].l[i].n;
  bool first = true; for (auto &kv: L) { js << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  js << "},\n\"violations\":[" << viol_json << "],\"flaky\":" << nflaky << ",\"cut\":" << (cut ? "true" : "false") << ",\"explore_s\":" << t_explore << ",\"wall_s\":" << el() << "}\n";
  std::ofstream(out) << js.str();
  return nviol ? 1 : 0;
}
