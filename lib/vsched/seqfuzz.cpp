// seqfuzz: runner for single-threaded (or really-threaded) generated cases, same interface as vsched.
// A case is a sequence of integers ("choices"); a failing one is shrunk and replayed in child processes.
// Oracles here: assertions of the scenario, sanitizer reports, crashes, per-case memory balance, hangs.
#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <unordered_set>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SF_ASAN 1
#endif
#endif
#ifdef SF_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:allocator_may_return_null=1:malloc_context_size=12:quarantine_size_mb=8:max_malloc_fill_size=4096:check_initialization_order=0"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=77:print_stacktrace=1"; }
#endif

namespace {
constexpr u32 MAXG = 8192;
struct Shared {
  volatile u32 state; volatile u64 caseno; volatile u32 scen; volatile double started;
  char kind[32]; char msg[2000]; char desc[1600];
  volatile u32 gen_n; u32 gen[MAXG];
  u64 cases, evals, nontriv, distinct; u32 nlab; struct { char l[48]; u64 n; } lab[96];
  u32 nsamp; char samp[4][1600];
};
Shared* g_sh;
vs::Gen* g_cur;
bool g_nontriv; bool g_leakcheck; bool g_in_body;
std::atomic<long> g_live{0};
const char* g_labels[32]; int g_nlab;
std::unordered_set<u64>* g_seen;
const std::vector<vs::Scenario>* g_list; std::vector<u32> g_tab;
struct Opt { u64 seed = 1; double secs = 30; u64 cases = ~0ull; int workers = 8; std::string out, replaydir = ".", replay, prop = "X"; std::vector<std::string> only, known; u32 maxfail = 1; bool shrink = true; bool leaks = true; double hang = 25; } opt;
std::string self_exe;

double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + t.tv_nsec * 1e-9; }
u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8) c) * 0x100000001b3ull; return h; }
#ifdef SF_ASAN
void on_malloc(const volatile void*, size_t) { if (g_in_body) g_live.fetch_add(1, std::memory_order_relaxed); }
void on_free(const volatile void* p) { if (p && g_in_body) g_live.fetch_sub(1, std::memory_order_relaxed); }
#endif
[[noreturn]] void die(const char* kind, const char* msg) {
  if (g_sh && !g_sh->state) { snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind); snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg); g_sh->state = 1; }
  _exit(3);
}
void on_sig(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (assertion or std::terminate)" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGALRM ? "timeout" : "SIGFPE";
  die(s == SIGALRM ? "hang" : "crash", n);
}
}
namespace vs {
void fail(const char* fmt, ...) { g_in_body = false; char b[1900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); die("assert", b); }
static pthread_mutex_t lab_mx = PTHREAD_MUTEX_INITIALIZER;
void label(const char* l) { pthread_mutex_lock(&lab_mx); bool f = false; for (int i = 0; i < g_nlab; i++) if (g_labels[i] == l || !strcmp(g_labels[i], l)) f = true; if (!f && g_nlab < 32) g_labels[g_nlab++] = l; pthread_mutex_unlock(&lab_mx); }
uint32_t Gen::below(uint32_t n) {
  bool b = g_in_body; g_in_body = false;
  uint32_t v = 0;
  if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; if (n) v %= n; }
  else { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; v = n ? (uint32_t) (z % n) : 0; }
  pos++; rec.push_back(v);
  if (g_sh && g_sh->gen_n < MAXG) { g_sh->gen[g_sh->gen_n] = v; g_sh->gen_n = g_sh->gen_n + 1; }
  g_in_body = b;
  return v;
}
uint32_t choose(uint32_t n) { return g_cur->below(n); }
uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64) t.tv_sec * 1000000000ull + (u64) t.tv_nsec; }
size_t live_allocs() { return (size_t) g_live.load(); }
size_t stack_used() { static thread_local char* top = nullptr; char c; char* p = (char*) __builtin_frame_address(0); (void) c; if (!top) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* b; size_t z; pthread_attr_getstack(&a, &b, &z); pthread_attr_destroy(&a); top = (char*) b + z; } return (size_t) (top - p); }
void point() {}
bool active() { return g_in_body; }
int tid() { static std::atomic<int> n{0}; static thread_local int t = n.fetch_add(1); return t; }
void set_no_leak_check() { g_leakcheck = false; }
Ghost::Ghost() {} Ghost::~Ghost() {}
void idle(int n) { while (n--) sched_yield(); }
void nontrivial(bool b) { g_nontriv = b; }
}
namespace {
void run_body(vs::Case& c) {
  for (int attempt = 0; attempt < 3; attempt++) {
    g_leakcheck = opt.leaks; g_nlab = 0; g_live = 0; g_nontriv = true;
    if (attempt) { g_cur->pos = 0; }
    try { g_in_body = true; c.body(); g_in_body = false; }
    catch (std::exception& e) { g_in_body = false; std::string m = std::string("unexpected exception escaped: ") + e.what(); die("exception", m.c_str()); }
    catch (...) { g_in_body = false; die("exception", "unexpected exception escaped"); }
#ifdef SF_ASAN
    long l = g_live.load();
    if (!g_leakcheck || l == 0) return;
    if (l < 0) { continue; }
    if (attempt == 2) { char b[100]; snprintf(b, sizeof b, "leak: %ld heap blocks allocated by the case were not freed", l); die("leak", b); }
#else
    return;
#endif
  }
}
void make_case(u64 cn, const std::vector<u32>* rep, vs::Gen& g, vs::Case& c, u32& scen, int force = -1) {
  g = vs::Gen(); g.s = mix(opt.seed, cn); g.replay = rep; g_cur = &g;
  scen = force >= 0 ? (u32) force : g_tab[cn % g_tab.size()];
  g_sh->scen = scen; g_sh->gen_n = 0; g_sh->desc[0] = 0;
  c = (*g_list)[scen].make(g);
  snprintf(g_sh->desc, sizeof g_sh->desc, "%s", c.desc.c_str());
}
// In-body choices continue the generator's sequence; a second attempt (leak confirmation) replays them.
void one_case(u64 cn, const std::vector<u32>* rep, int force) {
  vs::Gen g; vs::Case c; u32 scen;
  make_case(cn, rep, g, c, scen, force);
  std::vector<u32> full; size_t made = g.rec.size();
  auto body = c.body; bool first = true;
  vs::Case cc; cc.desc = c.desc;
  cc.body = [&] { if (!first) { bool b = g_in_body; g_in_body = false; full = g.rec; if (!rep) { g.replay = &full; } g.pos = made; g.rec.resize(made); g_sh->gen_n = (u32) std::min<size_t>(made, MAXG); g_in_body = b; } first = false; body(); };
  run_body(cc);
  g_sh->evals++;
  if (g_nontriv) { g_sh->nontriv++; u64 h = hash_str(c.desc) ^ (scen * 77777777ull); if (g.rec.size() > made) for (size_t i = made; i < g.rec.size(); i++) h = (h ^ g.rec[i]) * 0x100000001b3ull; if (g_seen->size() < 3000000 && g_seen->insert(h).second) g_sh->distinct++; }
  for (int i = 0; i < g_nlab; i++) {
    u32 k = 0; for (; k < g_sh->nlab; k++) if (!strcmp(g_sh->lab[k].l, g_labels[i])) break;
    if (k == g_sh->nlab && k < 96) { snprintf(g_sh->lab[k].l, 48, "%s", g_labels[i]); g_sh->lab[k].n = 0; g_sh->nlab++; }
    if (k < 96) g_sh->lab[k].n++;
  }
}
void child_setup(Shared* sh) {
  g_sh = sh; prctl(PR_SET_PDEATHSIG, SIGKILL);
  char nm[] = "/tmp/sf_err_XXXXXX"; (void) nm;
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = (int) (SA_RESETHAND);
#ifndef SF_ASAN
  sa.sa_flags |= SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
#endif
}
// stderr of a child goes to a memfd, read back by the parent when the child dies abnormally
int errfile() { int fd = (int) memfd_create("sf", 0); return fd; }
std::string slurp(int fd) { std::string o; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0 && o.size() < 60000) o.append(b, (size_t) n); return o; }
void pin(int k) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(k % 8, &s); sched_setaffinity(0, sizeof s, &s); }
bool g_pin = true;

[[noreturn]] void worker(Shared* sh, int w, u64 start, double tend, int efd) {
  child_setup(sh); if (g_pin) pin(w); dup2(efd, 2);
  for (u64 cn = start; cn < opt.cases; cn += (u64) opt.workers) {
    double t = wall(); if (t > tend) break;
    sh->caseno = cn; sh->started = t; sh->cases++;
    one_case(cn, nullptr, -1);
    sh->started = 0;
    if (sh->nsamp < 4 && (cn / (u64) opt.workers) % 13 == 5) { snprintf(sh->samp[sh->nsamp], 1600, "%s: %s", (*g_list)[sh->scen].name, sh->desc); sh->nsamp++; }
  }
  _exit(0);
}
std::string kind_of(const std::string& err, int st, std::string& msg) {
  std::smatch m;
  if (std::regex_search(err, m, std::regex("ERROR: AddressSanitizer: ([^\n]*)"))) { msg = m[1].str().substr(0, 200); std::string k = m[1]; auto p = k.find(' '); msg = std::regex_replace(msg, std::regex("0x[0-9a-f]+"), "ADDR"); return "asan " + k.substr(0, p); }
  if (std::regex_search(err, m, std::regex("runtime error: ([^\n]*)"))) { msg = m[1]; msg = std::regex_replace(msg, std::regex("0x[0-9a-f]+"), "ADDR"); return "ubsan"; }
  if (std::regex_search(err, m, std::regex("Assertion `([^\n]*)"))) { msg = "library assertion: " + m[1].str(); return "crash"; }
  if (std::regex_search(err, m, std::regex("terminate called[^\n]*"))) { msg = m[0]; return "terminate"; }
  msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
  return "crash";
}
struct Failure { int scen; std::vector<u32> gen; std::string kind, msg, desc, err; u64 caseno; };
Failure grab(Shared* sh, int st, int efd) {
  Failure f; f.scen = (int) sh->scen; f.gen.assign(sh->gen, sh->gen + sh->gen_n); f.desc = sh->desc; f.caseno = sh->caseno; f.err = slurp(efd);
  if (sh->state == 1) { f.kind = sh->kind; f.msg = sh->msg; } else f.kind = kind_of(f.err, st, f.msg);
  return f;
}
bool try_run(Shared* sh, int scen, const std::vector<u32>& gen, Failure& out, double lim) {
  memset((void*) sh, 0, sizeof *sh); int efd = errfile();
  pid_t p = fork();
  if (!p) { child_setup(sh); dup2(efd, 2); one_case(0, &gen, scen); _exit(0); }
  double t0 = wall(); int st; bool killed = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
    if (wall() - t0 > lim && !killed) { kill(p, SIGKILL); killed = true; }
    usleep(killed ? 1000 : 300);
  }
  bool bad = sh->state == 1 || killed || WIFSIGNALED(st) || WEXITSTATUS(st);
  if (bad) { out = grab(sh, st, efd); if (killed && sh->state != 1) { out.kind = "hang"; out.msg = "case does not finish"; } }
  close(efd); return bad;
}
std::string text_of(const Failure& f) { return std::string((*g_list)[(size_t) f.scen].name) + " [" + f.kind + "] " + f.msg + "\n" + f.desc + "\n" + f.err; }
std::string known_of(const std::string& text) {
  std::string known;
  for (auto& k : opt.known) { auto c = k.find("::"); if (std::regex_search(text, std::regex(k.substr(c + 2)))) known = k; }
  return known; }
void shrink(Shared* sh, Failure& f, double tend) {
  bool any = true; double lim = f.kind == "hang" ? 6 : 20;
  auto attempt = [&](const std::vector<u32>& g) {
    Failure n; if (!try_run(sh, f.scen, g, n, lim) || n.kind != f.kind) return false;
    if (!known_of(text_of(n)).empty()) return false; // not a listed finding instead
    while (n.gen.size() && n.gen.back() == 0) n.gen.pop_back();
    if (n.gen.size() > f.gen.size() || (n.gen.size() == f.gen.size() && !(n.gen < f.gen))) return false;
    n.caseno = f.caseno; f = n; return true;
  };
  while (any && wall() < tend) {
    any = false;
    for (size_t k : {32, 16, 8, 4, 2, 1}) for (size_t i = 0; i + k <= f.gen.size() && wall() < tend;) {
      auto g = f.gen; g.erase(g.begin() + (long) i, g.begin() + (long) (i + k)); if (attempt(g)) any = true; else i += std::max<size_t>(1, k / 2);
    }
    for (size_t i = 0; i < f.gen.size() && wall() < tend; i++) {
      if (!f.gen[i]) continue;
      auto g = f.gen; g[i] = 0; if (attempt(g)) { any = true; continue; }
      g = f.gen; if (g[i] > 1) { g[i] /= 2; if (attempt(g)) { any = true; continue; } }
      g = f.gen; g[i]--; if (attempt(g)) any = true;
    }
  }
}
std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8) c < 32 || (u8) c > 126) o += ' '; else o += c; } return o; }
}
namespace vs {
int run_main(int argc, char** argv, const std::vector<Scenario>& sc) {
  { int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("VS_REEXEC") && personality((unsigned long) p | ADDR_NO_RANDOMIZE) >= 0) { setenv("VS_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; self_exe = b; } }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") opt.seed = std::stoull(nx()); else if (a == "--seconds") opt.secs = std::stod(nx());
    else if (a == "--cases") opt.cases = std::stoull(nx()); else if (a == "--per") nx();
    else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--out") opt.out = nx();
    else if (a == "--replaydir") opt.replaydir = nx(); else if (a == "--replay") opt.replay = nx(); else if (a == "--prop") opt.prop = nx();
    else if (a == "--only") opt.only.push_back(nx()); else if (a == "--known") opt.known.push_back(nx());
    else if (a == "--maxfail") opt.maxfail = (u32) std::stoul(nx()); else if (a == "--noshrink") opt.shrink = false;
    else if (a == "--noleak") opt.leaks = false; else if (a == "--nopin") g_pin = false; else if (a == "--hang") opt.hang = std::stod(nx());
  }
  g_list = &sc; g_seen = new std::unordered_set<u64>();
  for (u32 i = 0; i < sc.size(); i++) { if (!opt.only.empty() && std::find(opt.only.begin(), opt.only.end(), sc[i].name) == opt.only.end()) continue; for (int k = 0; k < sc[i].weight; k++) g_tab.push_back(i); }
  if (g_tab.empty()) { fprintf(stderr, "no scenario\n"); return 9; }
#ifdef SF_ASAN
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
  auto mapsh = [] { return (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
  Shared* tsh = mapsh(); g_sh = tsh;
  if (!opt.replay.empty()) {
    std::ifstream in(opt.replay); std::string line, scn; std::vector<u32> gen;
    while (std::getline(in, line)) { std::istringstream is(line); std::string k; is >> k; if (k == "scenario") is >> scn; else if (k == "gen") { u32 v; while (is >> v) gen.push_back(v); } }
    int s = -1; for (u32 i = 0; i < sc.size(); i++) if (scn == sc[i].name) s = (int) i;
    if (s < 0) { fprintf(stderr, "unknown scenario in replay file\n"); return 9; }
    bool all = true; Failure f; for (int k = 0; k < 3; k++) all = try_run(tsh, s, gen, f, 30) && all;
    if (all) { printf("replay fails: [%s] %s\n  case: %s\n%s", f.kind.c_str(), f.msg.c_str(), f.desc.c_str(), f.err.substr(0, 6000).c_str()); return 1; }
    printf("replay passes\n"); return 0;
  }
  double t0 = wall(), tend = t0 + opt.secs;
  std::vector<Shared*> sh((size_t) opt.workers); std::vector<pid_t> pid((size_t) opt.workers); std::vector<int> efd((size_t) opt.workers); std::vector<bool> hung((size_t) opt.workers);
  std::vector<Failure> fails; std::map<std::string, u64> knownhits; u64 inconc = 0;
  auto spawn = [&](int w, u64 start) { efd[(size_t) w] = errfile(); sh[(size_t) w]->state = 0; sh[(size_t) w]->started = 0; hung[(size_t) w] = false; fflush(stdout); pid_t p = fork(); if (!p) worker(sh[(size_t) w], w, start, tend, efd[(size_t) w]); pid[(size_t) w] = p; };
  for (int w = 0; w < opt.workers; w++) { sh[(size_t) w] = mapsh(); spawn(w, (u64) w); }
  int alive = opt.workers;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      double now = wall();
      for (int i = 0; i < opt.workers; i++) { double s = sh[(size_t) i]->started; if (pid[(size_t) i] > 0 && s > 0 && now - s > opt.hang && !hung[(size_t) i]) { hung[(size_t) i] = true; kill(pid[(size_t) i], SIGKILL); } }
      usleep(2000); continue;
    }
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < opt.workers; i++) if (pid[(size_t) i] == p) w = i;
    if (w < 0) continue;
    pid[(size_t) w] = -1;
    Shared* s = sh[(size_t) w]; bool bad = s->state == 1 || WIFSIGNALED(st) || WEXITSTATUS(st);
    if (bad) {
      Failure f = grab(s, st, efd[(size_t) w]); if (hung[(size_t) w] && s->state != 1) { f.kind = "hang"; f.msg = "case does not finish"; }
      close(efd[(size_t) w]);
      std::string text = text_of(f), known = known_of(text);
      bool ok = true; Failure r; for (int k = 0; k < 3 && ok && known.empty(); k++) ok = try_run(tsh, f.scen, f.gen, r, f.kind == "hang" ? opt.hang : 30);
      if (ok && known.empty() && !(known = known_of(text_of(r))).empty()) text = text_of(r); // e.g. a listed finding on a starved machine, first taken for a hang
      if (!ok) { fprintf(stderr, "warning: failure did not replay: %s\n", text.substr(0, 3000).c_str()); inconc++; }
      if (!known.empty()) knownhits[known]++;
      else if (ok) { r.caseno = f.caseno; fails.push_back(r); }
      if (fails.size() >= opt.maxfail) { for (int i = 0; i < opt.workers; i++) if (pid[(size_t) i] > 0) kill(pid[(size_t) i], SIGKILL); while (waitpid(-1, &st, 0) > 0 || errno == EINTR) {} break; }
      if (wall() < tend && inconc < 500) { spawn(w, f.caseno + (u64) opt.workers); continue; }
      alive--; continue;
    }
    close(efd[(size_t) w]); alive--;
  }
  u64 ev = 0, nt = 0, di = 0, cs = 0; std::map<std::string, u64> labs; std::vector<std::string> samples;
  for (auto* s : sh) { ev += s->evals; nt += s->nontriv; di += s->distinct; cs += s->cases; for (u32 i = 0; i < s->nlab; i++) labs[s->lab[i].l] += s->lab[i].n; for (u32 i = 0; i < s->nsamp && samples.size() < 8; i++) samples.push_back(s->samp[i]); }
  std::string rp;
  for (auto& f : fails) {
    if (opt.shrink) shrink(tsh, f, wall() + 30);
    rp = opt.replaydir + "/" + opt.prop + "-" + sc[(size_t) f.scen].name + "-" + std::to_string(opt.seed) + "-" + std::to_string(f.caseno) + ".replay";
    std::ofstream o(rp); o << "# seqfuzz replay; binary " << self_exe << "\nscenario " << sc[(size_t) f.scen].name << "\ngen"; for (u32 v : f.gen) o << ' ' << v;
    o << "\n# case: " << f.desc << "\n# [" << f.kind << "] " << f.msg << "\n"; { std::istringstream is(f.err); std::string l; int n = 0; while (std::getline(is, l) && n++ < 80) o << "# " << l << "\n"; }
    o.close();
    printf("FAIL scenario=%s kind=%s msg=%s\n  case: %s\n  replay=%s (%zu choices)\n", sc[(size_t) f.scen].name, f.kind.c_str(), f.msg.c_str(), f.desc.c_str(), rp.c_str(), f.gen.size());
    { std::istringstream is(f.err); std::string l; int n = 0; while (std::getline(is, l) && n++ < 30) printf("  # %s\n", l.substr(0, 240).c_str()); }
  }
  if (!opt.out.empty()) {
    std::ofstream o(opt.out);
    o << "{\"engine\":\"seqfuzz\",\"cases\":" << cs << ",\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << di << ",\"inconclusive\":" << inconc << ",\"labels\":{";
    bool first = true; for (auto& [k, v] : labs) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    o << "},\"known\":{"; first = true; for (auto& [k, v] : knownhits) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    o << "},\"samples\":["; first = true; for (auto& x : samples) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
    o << "],\"failures\":["; first = true; for (auto& f : fails) { o << (first ? "" : ",") << "{\"scenario\":\"" << sc[(size_t) f.scen].name << "\",\"kind\":\"" << jesc(f.kind) << "\",\"msg\":\"" << jesc(f.msg) << "\",\"replay\":\"" << jesc(rp) << "\"}"; first = false; }
    o << "],\"wall_s\":" << wall() - t0 << "}\n";
  }
  printf("seqfuzz: %lu cases (%lu non-trivial, %lu distinct), %.1fs%s\n", (unsigned long) ev, (unsigned long) nt, (unsigned long) di, wall() - t0, inconc ? " (some failures did not replay)" : "");
  return fails.empty() ? (ev ? 0 : 9) : 1;
}
}
