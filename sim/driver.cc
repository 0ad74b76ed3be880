// Driver: explores seeds in forked runs, replays and minimises traces.
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include "sim.h"
#include "harness.h"

using namespace sim;
namespace sim { void CoreEarlyInit(); }

static double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Trace {
  uint64_t seed = 0;
  std::string prop;
  std::vector<Op> ops;
  std::vector<Event> events;
  std::vector<Fault> faults;
  std::string cls, sig, msg, cfg;
  uint64_t hash = 0;
};

static void ResetOut() {
  size_t off = offsetof(Shared, outcome);
  size_t end = offsetof(Shared, site_pairs);
  sh->outcome = 0;
  sh->cls[0] = sh->sig[0] = sh->msg[0] = sh->cfg[0] = 0;
  sh->log_len = 0;
  sh->log[0] = 0;
  size_t h = offsetof(Shared, hash);
  memset((char*)sh + h, 0, end - h);
  (void)off;
}

// Runs one execution in a forked child.  Inputs are in *sh.
static int timeouts;
static void RunForked(const std::string& prop, uint64_t seed, bool verbose, double limit = 20) {
  ResetOut();
  sh->seed = seed;
  sh->verbose = verbose;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_verbose = verbose;
    RunHarness(prop, seed);
    _exit(8);
  }
  if (pid < 0) {
    sh->outcome = kOutInternal;
    snprintf(sh->msg, sizeof sh->msg, "fork failed");
    return;
  }
  int st = 0;
  // The child is normally done within milliseconds; SIGALRM bounds a runaway one.
  alarm((unsigned)limit);
  pid_t r;
  while ((r = waitpid(pid, &st, 0)) < 0 && errno == EINTR) {
    kill(pid, SIGKILL);
    timeouts++;
    waitpid(pid, &st, 0);
    alarm(0);
    sh->outcome = kOutViolation;
    snprintf(sh->cls, sizeof sh->cls, "hang");
    snprintf(sh->sig, sizeof sh->sig, "wall-clock");
    snprintf(sh->msg, sizeof sh->msg, "the run did not end within %.0f s of wall-clock time", limit);
    return;
  }
  alarm(0);
  if (sh->outcome == kOutNone) {
    if (WIFSIGNALED(st)) {
      sh->outcome = kOutViolation;
      snprintf(sh->cls, sizeof sh->cls, "crash");
      snprintf(sh->sig, sizeof sh->sig, "signal %d", WTERMSIG(st));
      snprintf(sh->msg, sizeof sh->msg, "the process was killed by signal %d: %.3000s", WTERMSIG(st), sh->log);
    } else {
      sh->outcome = kOutInternal;
      snprintf(sh->msg, sizeof sh->msg, "child exited with status %d: %.2000s", WEXITSTATUS(st), sh->log);
    }
  }
}

static void LoadInputs(const Trace& t) {
  sh->replay = 1;
  sh->n_ops = std::min<int>(t.ops.size(), kMaxOps);
  memcpy(sh->ops, t.ops.data(), sh->n_ops * sizeof(Op));
  sh->n_events = std::min<int>(t.events.size(), kMaxEvents);
  memcpy(sh->events, t.events.data(), sh->n_events * sizeof(Event));
  sh->n_faults = std::min<int>(t.faults.size(), kMaxFaults);
  memcpy(sh->faults, t.faults.data(), sh->n_faults * sizeof(Fault));
}
static void Capture(Trace& t) {
  t.cls = sh->cls;
  t.sig = sh->sig;
  t.msg = sh->msg;
  t.cfg = sh->cfg;
  t.hash = sh->hash;
}

static void Save(const Trace& t, const std::string& path) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(2); }
  fprintf(f, "# deterministic simulation trace\n");
  fprintf(f, "property %s\nseed %lu\nhash %016lx\nclass %s\nsignature %s\n", t.prop.c_str(), t.seed, t.hash,
          t.cls.c_str(), t.sig.c_str());
  auto lines = [&](const char* tag, const std::string& s) {
    size_t i = 0;
    while (i < s.size()) {
      size_t j = s.find('\n', i);
      if (j == std::string::npos) j = s.size();
      fprintf(f, "# %s: %s\n", tag, s.substr(i, j - i).c_str());
      i = j + 1;
    }
  };
  lines("violation", t.msg);
  lines("config", t.cfg);
  fprintf(f, "# operations: O thread phase kind dropped a b c d   (%zu)\n", t.ops.size());
  for (auto& o : t.ops)
    fprintf(f, "O %d %d %d %d %ld %ld %ld %ld # %s\n", o.tid, o.pad, o.kind, o.dropped, (long)o.a[0], (long)o.a[1],
            (long)o.a[2], (long)o.a[3], OpName(o.kind));
  fprintf(f, "# faults: F kind code call-number   (%zu)\n", t.faults.size());
  for (auto& x : t.faults) fprintf(f, "F %d %d %u # %s\n", x.kind, x.code, x.index, kFaultName[x.kind]);
  fprintf(f, "# schedule: E kind thread target cpu preempt step   (%zu)\n", t.events.size());
  for (auto& e : t.events)
    fprintf(f, "E %c %d %d %d %d %lu\n", e.kind, e.tid, e.target, e.cpu, e.preempt, e.steps);
  fprintf(f, "# end\n");
  fclose(f);
}

static bool Load(const std::string& path, Trace& t) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  static char line[16384];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char b[300];
    unsigned long u;
    if (sscanf(line, "property %200s", b) == 1) t.prop = b;
    else if (sscanf(line, "seed %lu", &u) == 1) t.seed = u;
    else if (sscanf(line, "hash %lx", &u) == 1) t.hash = u;
    else if (!strncmp(line, "class ", 6)) { t.cls = line + 6; if (!t.cls.empty()) t.cls.pop_back(); }
    else if (!strncmp(line, "signature ", 10)) { t.sig = line + 10; if (!t.sig.empty()) t.sig.pop_back(); }
    else if (line[0] == 'O') {
      Op o{};
      int a, p, k, d;
      long x[4];
      if (sscanf(line, "O %d %d %d %d %ld %ld %ld %ld", &a, &p, &k, &d, x, x + 1, x + 2, x + 3) == 8) {
        o.tid = a; o.pad = p; o.kind = k; o.dropped = d;
        for (int i = 0; i < 4; ++i) o.a[i] = x[i];
        t.ops.push_back(o);
      }
    } else if (line[0] == 'F') {
      int k, c;
      unsigned ix;
      if (sscanf(line, "F %d %d %u", &k, &c, &ix) == 3) t.faults.push_back(Fault{(uint16_t)k, (int16_t)c, ix});
    } else if (line[0] == 'E') {
      char k;
      int a, b2, c, d;
      if (sscanf(line, "E %c %d %d %d %d %lu", &k, &a, &b2, &c, &d, &u) == 6) {
        Event e{};
        e.kind = k; e.tid = a; e.target = b2; e.cpu = c; e.preempt = d; e.steps = u;
        t.events.push_back(e);
      }
    }
  }
  fclose(f);
  return true;
}

static Trace FromShared(const std::string& prop) {
  Trace t;
  t.seed = sh->seed;
  t.prop = prop;
  t.ops.assign(sh->ops, sh->ops + sh->n_ops);
  t.events.assign(sh->events, sh->events + sh->n_events);
  t.faults.assign(sh->faults, sh->faults + sh->n_faults);
  Capture(t);
  return t;
}

// ---------------------------------------------------------------- minimisation
static uint64_t trials;
static double deadline;
static bool Fails(const Trace& base, Trace& cand) {
  if (Now() > deadline) return false;
  trials++;
  LoadInputs(cand);
  RunForked(cand.prop, cand.seed, false, 20);
  if (sh->outcome != kOutViolation) return false;
  if (base.cls != sh->cls) return false;
  if (base.sig != sh->sig) return false;
  Capture(cand);
  return true;
}
template <class T, class F>
static void Ddmin(Trace& t, std::vector<T> Trace::*field, F) {
  size_t n = 2;
  // try removing everything first
  {
    Trace c = t;
    (c.*field).clear();
    if (!(t.*field).empty() && Fails(t, c)) { t = c; return; }
  }
  while ((t.*field).size() >= 1 && Now() < deadline) {
    size_t sz = (t.*field).size();
    if (n > sz) n = sz;
    size_t chunk = (sz + n - 1) / n;
    bool reduced = false;
    for (size_t i = 0; i < sz && Now() < deadline; i += chunk) {
      Trace c = t;
      auto& v = c.*field;
      v.erase(v.begin() + i, v.begin() + std::min(sz, i + chunk));
      if (Fails(t, c)) {
        t = c;
        reduced = true;
        sz = (t.*field).size();
        i -= std::min(i, chunk);
        if (i == 0 && sz == 0) break;
      }
    }
    if (!reduced) {
      if (n >= (t.*field).size()) break;
      n = std::min((t.*field).size(), n * 2);
    } else {
      n = std::max<size_t>(2, n - 1);
    }
    if ((t.*field).empty()) break;
  }
}

static void OnAlarm(int) {}
static volatile sig_atomic_t g_stop;
static void OnTerm(int) { g_stop = 1; }

static void JsonStr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  CoreEarlyInit();
  sh = (Shared*)mmap((void*)0x300000000ull, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], "--", 2)) {
      std::string k = argv[i] + 2;
      if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) opt[k] = argv[++i];
      else opt[k] = "1";
    } else pos.push_back(argv[i]);
  }
  struct sigaction sa{};
  sa.sa_handler = OnAlarm;
  sigaction(SIGALRM, &sa, nullptr);
  auto geti = [&](const char* k, long d) { return opt.count(k) ? atol(opt[k].c_str()) : d; };
  std::string mode = pos.empty() ? "" : pos[0];

  if (mode == "explore") {
    std::string prop = opt["prop"];
    uint64_t base = geti("seed-base", 1);
    int workers = geti("workers", 1), worker = geti("worker", 0);
    double secs = geti("seconds", 10), t0 = Now();
    long max_runs = geti("max-runs", 1l << 60);
    int max_viol = geti("max-violations", 6);
    std::string out = opt.count("out") ? opt["out"] : "/tmp/sim_out";
    long runs = 0, ok = 0, discard = 0, internal = 0, viol = 0, nontrivial = 0;
    std::unordered_set<uint64_t> scheds, hashes, dn;
    std::map<std::string, int> seen;
    uint64_t tot[16] = {};
    uint64_t ff[F_NUM] = {}, fc[F_NUM] = {}, pr[kMaxProbes] = {};
    std::string first_internal;
    std::vector<std::string> vlines, samples;
    memset(sh->site_pairs, 0, sizeof sh->site_pairs);
    sh->n_site_pairs = 0;
    uint64_t pairs_keep = 0;
    struct sigaction ta{};
    ta.sa_handler = OnTerm;
    ta.sa_flags = SA_RESTART;
    sigaction(SIGTERM, &ta, nullptr);
    for (uint64_t k = 0; !g_stop && Now() - t0 < secs && runs < max_runs && viol < max_viol; ++k) {
      uint64_t seed = (base * 1000003ull + k * workers + worker);
      sh->replay = 0;
      sh->n_ops = sh->n_events = sh->n_faults = 0;
      pairs_keep = sh->n_site_pairs;
      RunForked(prop, seed, false);
      sh->n_site_pairs = std::max(pairs_keep, sh->n_site_pairs);
      runs++;
      tot[0] += sh->steps; tot[1] += sh->switches; tot[2] += sh->preemptions; tot[3] += sh->migrations;
      tot[4] += sh->rseq_traps; tot[5] += sh->rseq_aborts; tot[6] += sh->fences; tot[7] += sh->api_calls;
      tot[8] += sh->allocs; tot[9] += sh->frees; tot[10] += sh->lock_waits; tot[11] += sh->ticks_ns / 1000;
      for (int i = 0; i < F_NUM; ++i) { ff[i] += sh->fault_fired[i]; fc[i] += sh->fault_calls[i]; }
      for (int i = 0; i < kMaxProbes; ++i) pr[i] += sh->probes[i];
      if (sh->outcome == kOutOk) {
        ok++;
        if (scheds.size() < 4000000) { scheds.insert(sh->sched_hash); hashes.insert(sh->hash); }
        if (sh->nontrivial) { nontrivial++; dn.insert(sh->hash); }
        if (samples.size() < 3 && (runs % 7) == 1) {
          char b[3000];
          snprintf(b, sizeof b, "seed %lu: %lu steps, %lu switches, %lu api calls, config %s", seed, sh->steps,
                   sh->switches, sh->api_calls, sh->cfg);
          samples.push_back(b);
        }
      } else if (sh->outcome == kOutDiscard) {
        discard++;
      } else if (sh->outcome == kOutInternal) {
        internal++;
        if (first_internal.empty()) first_internal = "seed " + std::to_string(seed) + ": " + sh->msg;
      } else {
        std::string key = std::string(sh->cls) + "|" + sh->sig;
        if (seen[key]++ == 0) {
          viol++;
          Trace t = FromShared(prop);
          std::string path = out + "." + std::to_string(seed) + ".trace";
          Save(t, path);
          vlines.push_back(path);
        }
      }
    }
    // summary
    FILE* f = fopen((out + ".json").c_str(), "w");
    if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"runs\":%ld,\"ok\":%ld,\"discard\":%ld,\"internal\":%ld,\"timeouts\":%d,\"wall\":%.3f,", runs, ok, discard,
            internal, timeouts, Now() - t0);
    fprintf(f, "\"distinct_nontrivial\":%zu,\"nontrivial\":%ld,\"distinct_schedules\":%zu,\"distinct_histories\":%zu,\"site_pairs\":%lu,", dn.size(), nontrivial,
            scheds.size(), hashes.size(), sh->n_site_pairs);
    const char* names[] = {"steps", "switches", "preemptions", "migrations", "rseq_traps", "rseq_aborts", "fences",
                           "api_calls", "allocs", "frees", "lock_waits", "sim_us"};
    for (int i = 0; i < 12; ++i) fprintf(f, "\"%s\":%lu,", names[i], tot[i]);
    fprintf(f, "\"faults\":{");
    bool c = false;
    for (int i = 0; i < F_NUM; ++i)
      if (ff[i]) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", kFaultName[i], ff[i]); c = true; }
    fprintf(f, "},\"probes\":{");
    c = false;
    for (int i = 0; i < kMaxProbes; ++i)
      if (pr[i]) {
        // probe names are known only to the children: they are copied through shared memory
        fprintf(f, "%s\"%s\":%lu", c ? "," : "", ProbeNameShared(i), pr[i]);
        c = true;
      }
    fprintf(f, "},\"first_internal\":");
    JsonStr(f, first_internal);
    fprintf(f, ",\"violations\":[");
    for (size_t i = 0; i < vlines.size(); ++i) { if (i) fputc(',', f); JsonStr(f, vlines[i]); }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) { if (i) fputc(',', f); JsonStr(f, samples[i]); }
    fprintf(f, "],\"counts\":{");
    c = false;
    for (auto& kv : seen) { fprintf(f, "%s", c ? "," : ""); JsonStr(f, kv.first); fprintf(f, ":%d", kv.second); c = true; }
    fprintf(f, "}}\n");
    fclose(f);
    return 0;
  }
  if (mode == "replay" || mode == "run") {
    Trace t;
    if (mode == "replay") {
      if (pos.size() < 2 || !Load(pos[1], t)) { fprintf(stderr, "cannot read trace\n"); return 2; }
      LoadInputs(t);
    } else {
      t.prop = opt["prop"];
      t.seed = geti("seed", 1);
      sh->replay = 0;
    }
    RunForked(t.prop, t.seed, geti("verbose", 0), geti("limit", 30));
    printf("outcome %s\nclass %s\nsignature %s\nhash %016lx\nsteps %lu switches %lu faults %d ops %d\nconfig %s\nmessage %s\n",
           sh->outcome == kOutOk ? "ok" : sh->outcome == kOutViolation ? "violation" : sh->outcome == kOutDiscard ? "discard" : "internal",
           sh->cls, sh->sig, sh->hash, sh->steps, sh->switches, sh->n_faults, sh->n_ops, sh->cfg, sh->msg);
    if (geti("verbose", 0) || opt.count("log")) printf("log %s\n", sh->log);
    if (opt.count("save")) { Trace u = FromShared(t.prop); Save(u, opt["save"]); }
    return sh->outcome == kOutViolation ? 1 : sh->outcome == kOutOk ? 0 : 2;
  }
  if (mode == "minimise") {
    Trace t;
    if (pos.size() < 3 || !Load(pos[1], t)) return 2;
    deadline = Now() + geti("seconds", 60);
    Trace c = t;
    if (!Fails(t, c)) { printf("not reproduced: %s | %s | %s\n", sh->cls, sh->sig, sh->msg); return 3; }
    t = c;
    size_t o0 = t.ops.size(), e0 = t.events.size(), f0 = t.faults.size();
    for (int round = 0; round < 3 && Now() < deadline; ++round) {
      size_t before = t.ops.size() + t.events.size() + t.faults.size();
      Ddmin(t, &Trace::faults, 0);
      Ddmin(t, &Trace::ops, 0);
      Ddmin(t, &Trace::events, 0);
      if (t.ops.size() + t.events.size() + t.faults.size() == before) break;
    }
    Save(t, pos[2]);
    printf("minimised: ops %zu->%zu events %zu->%zu faults %zu->%zu in %lu trials\n", o0, t.ops.size(), e0,
           t.events.size(), f0, t.faults.size(), trials);
    return 0;
  }
  fprintf(stderr, "usage: sim explore|run|replay|minimise\n");
  return 2;
}
