// llsim sweep PROP SEED START STRIDE SECONDS MAXRUNS TIER OUT   seeded search
// llsim run PLAN [OUT]                                          executes one plan
// llsim gen PROP SEED TIER                                      prints a plan
#include "plan.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <dirent.h>
#include <csignal>

using std::string;
static string scratch;
static void clean_scratch() {
  DIR *d = opendir(scratch.c_str());
  if (!d) return;
  while (auto *e = readdir(d)) {
    string n = e->d_name;
    if (n != "." && n != "..") unlink((scratch + "/" + n).c_str());
  }
  closedir(d);
}
static int run_child(const Plan &p) {
  rt::Result *r = rt::result;
  r->done = 0;
  r->cls[0] = r->msg[0] = 0;
  r->hash = r->sched_hash = 0;
  memset(r->ctr, 0, sizeof r->ctr);
  r->nsw = r->sw_overflow = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    execute(p, scratch);
    if (p.ops.size() == 1 && p.ops[0].kind == K_ORDER) *(uint64_t *)r->extra = digest_of_last();
    r->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  clean_scratch();
  if (r->done == 0) {
    // a crash fault that escaped its process, an exit() inside the library, or a kill
    if (WIFEXITED(st)) {
      snprintf(r->cls, sizeof r->cls, "crash");
      snprintf(r->msg, sizeof r->msg, "the process exited with code %d in the middle of an operation", WEXITSTATUS(st));
      r->done = 2;
    } else if (WTERMSIG(st) == SIGKILL) {
      snprintf(r->cls, sizeof r->cls, "harness-error");
      snprintf(r->msg, sizeof r->msg, "a run was killed");
      r->done = 3;
    } else {
      snprintf(r->cls, sizeof r->cls, "crash");
      snprintf(r->msg, sizeof r->msg, "the process was ended by signal %d", WTERMSIG(st));
      r->done = 2;
    }
    if (r->done == 2 && !strstr(mask_of(p.prop), " crash ")) r->done = 4;
  }
  return r->done;
}
static string esc(const string &s) {
  string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
static void print_result(FILE *f) {
  rt::Result *r = rt::result;
  fprintf(f, "{\"done\": %d, \"cls\": \"%s\", \"msg\": \"%s\", \"hash\": \"%016llx\", \"sched_hash\": \"%016llx\", \"nsw\": %u, \"overflow\": %u, \"ctr\": {", r->done, r->cls, esc(r->msg).c_str(),
          (unsigned long long)r->hash, (unsigned long long)r->sched_hash, r->nsw, r->sw_overflow);
  for (int i = 0; i < rt::C_N; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", rt::ctr_name[i], (unsigned long long)r->ctr[i]);
  fprintf(f, "}}\n");
}
static string with_schedule(Plan p) {
  rt::Result *r = rt::result;
  p.has_sched = true;
  p.sched.assign(r->sw, r->sw + r->nsw);
  return to_text(p);
}
// A run is non-trivial if what its property is about actually happened in it.
static bool nontrivial(const string &p) {
  rt::Result *r = rt::result;
  auto c = [&](rt::Ctr k) { return r->ctr[k] != 0; };
  if (p == "C01" || p == "C02" || p == "C04") return r->nsw != 0;
  if (p == "C03" || p == "C06") return c(rt::C_OOM);
  if (p == "C05") return c(rt::C_INTERLEAVED) || c(rt::C_ABANDON);
  if (p == "C07") return c(rt::C_REFUSED) || c(rt::C_MUTATE);
  if (p == "C08") return c(rt::C_SAVES_FAIL) || (c(rt::C_SAVES_OK) && c(rt::C_LOADS_OK));
  if (p == "C09") return c(rt::C_TRUNC) || c(rt::C_CRASH) || c(rt::C_POWERLOSS) || c(rt::C_STREAM_RFAIL) || c(rt::C_READ_EIO) || c(rt::C_SAVES_FAIL);
  if (p == "C10") return c(rt::C_CORRUPT);
  if (p == "C11") return r->ctr[rt::C_SESSIONS] > 1;
  if (p == "C12") return c(rt::C_ABANDON) || c(rt::C_REFUSED) || c(rt::C_LOADS_NULL) || c(rt::C_SAVES_FAIL) || c(rt::C_DISTS);
  if (p == "C13") return c(rt::C_LAYOUT) || r->nsw != 0;
  if (p == "C14") return c(rt::C_LAWS) && (r->nsw != 0 || c(rt::C_OOM) || r->ctr[rt::C_LAWS] > 3);
  if (p == "C15") return c(rt::C_MINIMAL);
  if (p == "C17") return c(rt::C_COSTS);
  if (p == "C16") return r->ctr[rt::C_PROGRAMS] > 1;
  return true;
}
int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("LLSIM_ASLR")) {
    setenv("LLSIM_ASLR", "1", 1);
    if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 2;
  if (const char *w = getenv("LLSIM_CPU")) { // one processor per worker: handing over between its threads is cheaper
    cpu_set_t all, one;
    if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
      int want = atoi(w) % CPU_COUNT(&all);
      for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &all) && want-- == 0) {
          CPU_ZERO(&one);
          CPU_SET(i, &one);
          sched_setaffinity(0, sizeof one, &one);
          break;
        }
    }
  }
  string mode = argv[1];
  if (mode == "gen") {
    Plan p = generate(argv[2], strtoull(argv[3], nullptr, 10), atoi(argv[4]), argc > 5 ? strtoull(argv[5], nullptr, 10) : 0);
    fputs(to_text(p).c_str(), stdout);
    return 0;
  }
  rt::result = (rt::Result *)mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char *base = getenv("LLSIM_TMP");
  string tmpl = string(base && *base ? base : "/tmp") + "/llsim.XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
  scratch = tb.data();
  rt::boot();
  warm_up();
  int rc = 0;
  if (mode == "digest") { // for simulated sessions: one operation in a fresh process
    std::ifstream in(argv[2]);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p = from_text(ss.str());
    char b[32];
    int d = run_child(p);
    std::ofstream o(argv[3]);
    if (d == 1) { snprintf(b, sizeof b, "%016llx", *(unsigned long long *)rt::result->extra); o << b; rc = 50; }
    else { o << rt::result->cls << ": " << rt::result->msg; rc = d == 2 ? 51 : 52; }
  } else if (mode == "run") {
    std::ifstream in(argv[2]);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p = from_text(ss.str());
    run_child(p);
    print_result(stdout);
    if (argc > 3) {
      std::ofstream o(argv[3]);
      o << with_schedule(p);
    }
    rc = rt::result->done == 2 ? 10 : rt::result->done == 3 ? 11 : 0;
  } else if (mode == "sweep") {
    string prop = argv[2];
    uint64_t seed = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10);
    double seconds = atof(argv[6]);
    uint64_t maxruns = strtoull(argv[7], nullptr, 10);
    int tier = atoi(argv[8]);
    string out = argv[9];
    auto t0 = std::chrono::steady_clock::now();
    uint64_t ctr[rt::C_N] = {0}, runs = 0, dbl = 0, nondet = 0, other = 0;
    uint64_t runs_with[rt::C_N] = {0};
    std::unordered_set<uint64_t> hashes, scheds, plans;
    string viol, samples;
    string status = "ok", detail;
    for (uint64_t i = start; runs < maxruns; i += stride) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > seconds) break;
      uint64_t s = rt::mix(rt::mix(0x5EED, seed) ^ 0x9E3779B97F4A7C15ull * (seed + 77), rt::mix(i, 0xABCD));
      Plan p = generate(prop, s, tier, i);
      string text = to_text(p);
      int d = run_child(p);
      rt::Result *r = rt::result;
      runs++;
      if (getenv("LLSIM_VERBOSE")) {
        double now = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        fprintf(stderr, "%llu seed %llu done %d %s %.3fs steps %llu sw %u %s\n", (unsigned long long)i, (unsigned long long)s, d, r->cls, now - el, (unsigned long long)r->ctr[0], r->nsw, d == 1 ? "" : r->msg);
      }
      for (int k = 0; k < rt::C_N; k++) { ctr[k] += r->ctr[k]; runs_with[k] += r->ctr[k] != 0; }
      if (nontrivial(prop)) hashes.insert(r->hash);
      if (r->nsw) scheds.insert(r->sched_hash);
      std::hash<string> hs;
      plans.insert(hs(text));
      if (d == 4) other++;
      if (runs == 3 || runs == 9) { samples += samples.empty() ? "" : ", "; samples += "\"" + esc(text.substr(0, 1500)) + "\""; }
      if (d == 3) { status = "error"; detail = r->msg; break; }
      if (d == 2) {
        status = "violation";
        std::ofstream o(out + ".plan");
        o << with_schedule(p);
        std::ofstream o2(out + ".result");
        o2.close();
        FILE *f = fopen((out + ".result").c_str(), "w");
        print_result(f);
        fclose(f);
        break;
      }
      if (runs % 16 == 1) { // the same seed again must be the same execution
        uint64_t h = r->hash, sh = r->sched_hash, st = r->ctr[rt::C_STEPS];
        run_child(p);
        dbl++;
        if (r->hash != h || r->sched_hash != sh || r->ctr[rt::C_STEPS] != st) {
          nondet++;
          detail = "seed " + std::to_string(s) + " is not deterministic";
        }
      }
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f, "{\"status\": \"%s\", \"detail\": \"%s\", \"runs\": %llu, \"double_runs\": %llu, \"other\": %llu, \"nondeterministic\": %llu, \"seconds\": %.2f, \"plans\": %zu, \"hashes\": [", status.c_str(), esc(detail).c_str(),
            (unsigned long long)runs, (unsigned long long)dbl, (unsigned long long)other, (unsigned long long)nondet, el, plans.size());
    bool first = true;
    for (auto h : hashes) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "], \"scheds\": [");
    first = true;
    for (auto h : scheds) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "], \"samples\": [%s], \"ctr\": {", samples.c_str());
    for (int i = 0; i < rt::C_N; i++) fprintf(f, "%s\"%s\": [%llu, %llu]", i ? ", " : "", rt::ctr_name[i], (unsigned long long)ctr[i], (unsigned long long)runs_with[i]);
    fprintf(f, "}}\n");
    fclose(f);
    rc = status == "ok" ? 0 : status == "violation" ? 10 : 11;
  }
  clean_scratch();
  rmdir(scratch.c_str());
  return rc;
}
