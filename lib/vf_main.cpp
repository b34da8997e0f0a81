#include "vf.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {
const int MAXV = 8, MAXS = 6;
struct V { char key[256], cas[6000], detail[6000]; long index; };
struct Shared {
  volatile long index;         // current case number
  char cas[6000];
  long states, transitions, traces, evals, nontrivial, outcomes;
  int nv; V v[MAXV];
  int ns; char samp[MAXS][1500];
  long nknown; char known[16][256]; int nk;
  int done;                    // 1 finished, 2 hang
};
static std::vector<Part*>& parts() { static std::vector<Part*> p; return p; }
static std::set<std::string> g_known;
static std::string g_part;
static Shared* g_sh;
static std::string g_scratch;
Part::Part(const char* n, void (*f)(Ctx&), int s, bool t) : name(n), fn(f), shards(s), thorough_only(t) { parts().push_back(this); }

static void cp(char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }
uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 32); }
std::string quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void leave() { g_sh->done = 1; fflush(stdout); _exit(0); }
static void next(Ctx* c) { if (c->stop_at >= 0 && c->sh->index >= c->stop_at) leave(); c->sh->index = c->sh->index + 1; }
void Ctx::cur(const char* fmt, ...) { next(this); va_list ap; va_start(ap, fmt); vsnprintf(sh->cas, sizeof sh->cas, fmt, ap); va_end(ap); if (stop_at == sh->index) { printf("case %ld: %s\n", (long)sh->index, sh->cas); fflush(stdout); } }
void Ctx::cur(const std::string& s) { next(this); cp(sh->cas, sizeof sh->cas, s); if (stop_at == sh->index) { printf("case %ld: %s\n", (long)sh->index, sh->cas); fflush(stdout); } }
bool Ctx::state(uint64_t h) { if (!seen_.insert(h).second) return false; sh->states++; return true; }
bool Ctx::state(const std::string& s) { return state(hash(s)); }
void Ctx::transition(long n) { sh->transitions += n; }
void Ctx::trace(long n) { sh->traces += n; }
void Ctx::eval(bool nt) { sh->evals++; if (nt) sh->nontrivial++; }
void Ctx::evals(long n, long nt) { sh->evals += n; sh->nontrivial += nt; }
void Ctx::sample(const std::string& s) { if (sh->ns < MAXS) cp(sh->samp[sh->ns++], sizeof sh->samp[0], s); }
void Ctx::outcome(const std::string& s) { if (outs_.size() < 1000000 && outs_.insert(hash(s)).second) sh->outcomes++; }
void Ctx::failpl(const std::string& key0, const std::string& detail) {
  std::string key = g_part + ":" + key0;
  if (stop_at >= 0) { if (sh->index == stop_at) { printf("VIOLATED %s: %s\n", key.c_str(), detail.c_str()); fflush(stdout); } }
  if (g_known.count(key)) {
    sh->nknown++;
    for (int i = 0; i < sh->nk; ++i) if (key == sh->known[i]) return;
    if (sh->nk < 16) cp(sh->known[sh->nk++], 256, key);
    return;
  }
  for (int i = 0; i < sh->nv; ++i) if (key == sh->v[i].key) return;   // first (shortest) case per key
  if (sh->nv < MAXV) { V& v = sh->v[sh->nv]; cp(v.key, sizeof v.key, key); cp(v.cas, sizeof v.cas, sh->cas); cp(v.detail, sizeof v.detail, detail); v.index = sh->index; sh->nv++; }
  if (sh->nv >= MAXV) leave();
}
void Ctx::fail(const std::string& key, const char* fmt, ...) { char b[5000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); failpl(key, b); }
std::string Ctx::scratch() { return g_scratch; }

bool isolated(Ctx& c, const std::function<void()>& fn, int timeout_s) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); abort(); }
  if (!p) {
    alarm(timeout_s);
    int rc = 0;
    try { fn(); }
    catch (const std::exception& e) { c.failpl("unexpected-exception", std::string("an exception escapes: ") + e.what()); }
    catch (...) { c.failpl("unexpected-exception", "a non-standard exception escapes"); }
    fflush(stdout);
    _exit(rc);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  char d[200];
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { c.failpl("hang", "the operation does not terminate"); return false; }
  if (WIFSIGNALED(st)) snprintf(d, sizeof d, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); else snprintf(d, sizeof d, "process ends with status %d", WEXITSTATUS(st));
  std::string e; { FILE* f = fopen((g_scratch + ".err").c_str(), "r"); char b[2000]; if (f) { fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, n > 1800 ? n - 1800 : 0, SEEK_SET); size_t k = fread(b, 1, 1800, f); e.assign(b, k); fclose(f); } }
  c.failpl("crash", std::string(d) + "; stderr: " + e);
  return false;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static volatile long last_idx = -1; static volatile int same = 0; static int limit = 30;
static void tick(int) {
  if (g_sh->index == last_idx) { if (++same >= limit) { g_sh->done = 2; _exit(97); } }
  else { last_idx = g_sh->index; same = 0; }
}
static void rmtree(const std::string& d) {
  DIR* h = opendir(d.c_str());
  if (h) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str()); } closedir(h); }
  rmdir(d.c_str());
}
static std::string readall(const std::string& f) { std::string s; FILE* h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
}  // namespace vf
using namespace vf;

struct Job { Part* p; int shard; pid_t pid; Shared* sh; std::string err, dir; long lastidx; double lastt; double t0, dur; int tries; };

int main(int argc, char** argv) {
  std::string out, tier = "quick", only, work, prefix; long caseno = -1; int onlyshard = -1; uint64_t seed = 1;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--part") only = nx();
    else if (a == "--prefix") prefix = nx();
    else if (a == "--shard") onlyshard = atoi(nx().c_str());
    else if (a == "--case") caseno = atol(nx().c_str());
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--scratch") work = nx();
    else if (a == "--known") { FILE* f = fopen(nx().c_str(), "r"); char b[1024]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (b[0]) g_known.insert(b); } if (f) fclose(f); }
  }
  char tmpl[256]; snprintf(tmpl, sizeof tmpl, "%s/vfXXXXXX", work.empty() ? "/tmp" : work.c_str());
  if (!mkdtemp(tmpl)) { perror(tmpl); return 2; }
  std::string root = tmpl;
  std::vector<Job> q;
  for (Part* p : parts()) {
    if (p->thorough_only && tier != "thorough") continue;
    if (!only.empty() && only != p->name) continue;
    if (strncmp(p->name, prefix.c_str(), prefix.size())) continue;
    for (int s = 0; s < p->shards; ++s) {
      if (onlyshard >= 0 && s != onlyshard) continue;
      Job j; j.p = p; j.shard = s; j.pid = 0; j.tries = 0; j.dur = 0;
      j.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      j.dir = root + "/" + p->name + "." + std::to_string(s);
      j.err = j.dir + ".err";
      q.push_back(j);
    }
  }
  size_t nextj = 0, running = 0, finished = 0; bool internal = false;
  auto launch = [&](Job& j) {
    memset((void*)j.sh, 0, sizeof(Shared)); j.sh->index = -1;
    mkdir(j.dir.c_str(), 0777);
    fflush(stdout);
    j.lastidx = -1; j.lastt = j.t0 = now(); j.tries++;
    pid_t p = fork();
    if (!p) {
      if (caseno < 0) { int fd = open(j.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666); dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      struct rlimit fs = {1ul << 32, 1ul << 32}; setrlimit(RLIMIT_FSIZE, &fs);
      g_sh = j.sh; g_part = j.p->name; g_scratch = j.dir;
      if (j.tries > 1) limit = 90;
      signal(SIGPROF, tick);
      struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, 0);
      Ctx c; c.sh = j.sh; c.thorough = tier == "thorough"; c.seed = seed; c.shard = j.shard; c.nshards = j.p->shards; c.stop_at = caseno;
      try { j.p->fn(c); }
      catch (const std::exception& e) { c.failpl("unexpected-exception", std::string("an exception escapes: ") + e.what()); leave(); }
      catch (...) { c.failpl("unexpected-exception", "a non-standard exception escapes"); leave(); }
      leave();
    }
    j.pid = p; running++;
  };
  while (finished < q.size()) {
    while ((int)running < jobs && nextj < q.size()) launch(q[nextj++]);
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      for (auto& j : q) if (j.pid > 0) {
        if (j.sh->index != j.lastidx) { j.lastidx = j.sh->index; j.lastt = now(); }
        else if (now() - j.lastt > 240) kill(j.pid, SIGXCPU);
      }
      usleep(5000); continue;
    }
    for (auto& j : q) if (j.pid == p) {
      j.pid = 0; running--; j.dur = now() - j.t0;
      bool hang = j.sh->done == 2 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU);
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && j.sh->done == 1;
      if (!ok && j.tries == 1) { launch(j); break; }   // crashes and hangs are confirmed by a second run
      if (!ok && j.sh->nv < MAXV) {
        std::string k = std::string(j.p->name) + (hang ? ":hang" : ":crash");
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { internal = true; fprintf(stderr, "part %s killed\n", j.p->name); }
        else {
          std::string e = readall(j.err);
          if (e.size() > 3000) { size_t a = e.find("ERROR"); if (a == std::string::npos) a = e.find("runtime error"); if (a == std::string::npos || a + 3000 > e.size()) a = e.size() - 3000; e = e.substr(a > 200 ? a - 200 : 0, 3000); }
          char d[256]; if (hang) snprintf(d, sizeof d, "the operation does not terminate"); else if (WIFSIGNALED(st)) snprintf(d, sizeof d, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); else snprintf(d, sizeof d, "process ends with status %d", WEXITSTATUS(st));
          V& v = j.sh->v[j.sh->nv++];
          snprintf(v.key, sizeof v.key, "%s", k.c_str()); memcpy(v.cas, j.sh->cas, sizeof v.cas); snprintf(v.detail, sizeof v.detail, "%s; stderr: %s", d, e.c_str()); v.index = j.sh->index;
        }
      }
      finished++;
      break;
    }
  }
  // report
  std::string js = "{\"parts\":["; int nviol = 0; bool first = true;
  for (auto& j : q) {
    char b[600];
    snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"shard\":%d,\"shards\":%d,\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"evaluations\":%ld,\"nontrivial\":%ld,\"outcomes\":%ld,\"cases\":%ld,\"wall_s\":%.2f,\"known_hits\":%ld,", first ? "" : ",", j.p->name, j.shard, j.p->shards, j.sh->states, j.sh->transitions, j.sh->traces, j.sh->evals, j.sh->nontrivial, j.sh->outcomes, (long)j.sh->index + 1, j.dur, j.sh->nknown);
    first = false; js += b;
    js += "\"known\":["; for (int i = 0; i < j.sh->nk; ++i) js += (i ? "," : "") + quote(j.sh->known[i]);
    js += "],\"samples\":["; for (int i = 0; i < j.sh->ns; ++i) js += (i ? "," : "") + quote(j.sh->samp[i]);
    js += "],\"violations\":[";
    for (int i = 0; i < j.sh->nv; ++i) {
      V& v = j.sh->v[i]; nviol++;
      js += std::string(i ? "," : "") + "{\"key\":" + quote(v.key) + ",\"case\":" + quote(v.cas) + ",\"detail\":" + quote(v.detail) + ",\"index\":" + std::to_string(v.index) + "}";
      fprintf(stderr, "VIOLATED %s (shard %d case %ld)\n  case: %s\n  %s\n", v.key, j.shard, v.index, v.cas, v.detail);
    }
    js += "]}";
    fprintf(stderr, "%s[%d/%d]: cases %ld states %ld transitions %ld traces %ld evals %ld nontrivial %ld outcomes %ld known %ld  %.1fs\n", j.p->name, j.shard, j.p->shards, (long)j.sh->index + 1, j.sh->states, j.sh->transitions, j.sh->traces, j.sh->evals, j.sh->nontrivial, j.sh->outcomes, j.sh->nknown, j.dur);
  }
  js += "]}\n";
  if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; } fputs(js.c_str(), f); fclose(f); }
  rmtree(root);
  return internal ? 2 : nviol ? 1 : 0;
}
