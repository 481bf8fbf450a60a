// Entry point: generates plans, executes them in forked children, aggregates a batch.
#include "plan.hpp"
#include <arena.hpp>
#include <glog/logging.h>
#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>

namespace sim { std::string exception_text(); }
extern std::string g_prop_name;
struct Result
{
  int outcome = sim::ERROR_RUN;
  std::string klass, what;
  u64 log_hash = 0, sched_hash = 0, steps = 0, switches = 0, accesses = 0; i64 sim_ns = 0;
  std::map<std::string, u64> counters;
  std::vector<std::pair<u64, int>> rec;
  std::string log;
};
static int g_fd = -1;
static bool g_want_log = false;
static std::string esc(const std::string & s)
{
  std::string r;
  for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; }
  return r;
}
static std::string unesc(const std::string & s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 'n' ? '\n' : s[i]; }
    else r += s[i];
  return r;
}
static void send_result(int outcome, const std::string & k, const std::string & w)
{
  std::string o;
  char b[200];
  snprintf(b, sizeof b, "outcome %d\n", outcome); o += b;
  o += "class " + esc(k) + "\nwhat " + esc(w) + "\n";
  snprintf(b, sizeof b, "stat %llu %llu %llu %llu %llu %lld\n", static_cast<unsigned long long>(sim::log_hash()), static_cast<unsigned long long>(sim::sched_hash()),
           static_cast<unsigned long long>(sim::steps()), static_cast<unsigned long long>(sim::switches()),
           static_cast<unsigned long long>(sim::mem_stats().accesses), static_cast<long long>(sim::now() - 1000 * sim::SEC));
  o += b;
  for (auto & c : sim::counters()) { snprintf(b, sizeof b, "cnt %llu ", static_cast<unsigned long long>(c.second)); o += b + c.first + "\n"; }
  if (outcome != 0 || g_want_log)
    for (auto & d : sim::schedule_record()) { snprintf(b, sizeof b, "dev %llu %d\n", static_cast<unsigned long long>(d.first), d.second); o += b; }
  if (g_want_log) o += "log " + esc(sim::log_text) + "\n";
  o += "end\n";
  size_t i = 0;
  while (i < o.size()) { ssize_t n = write(g_fd, o.data() + i, o.size() - i); if (n <= 0) break; i += static_cast<size_t>(n); }
}
static void fail_cb(const std::string & k, const std::string & w)
{
  send_result(k == "HARNESS" ? sim::ERROR_RUN : sim::VIOLATION_RUN, k, w);
  _exit(0);
}
static volatile sig_atomic_t g_sig = 0;
static void on_signal(int s, siginfo_t * si, void *)
{
  if (g_sig) _exit(4);
  g_sig = 1;
  char b[200];
  if (s == SIGPROF) snprintf(b, sizeof b, "the run does not finish: thread %s is busy for more than 20 s of CPU time", sim::fiber_name(sim::current()));
  else snprintf(b, sizeof b, "%s in thread %s (address %p)", strsignal(s), sim::fiber_name(sim::current()), s == SIGABRT ? nullptr : si->si_addr);
  std::string w = b;
  // text written to stderr just before (library assertions, fatal log messages)
  off_t n = lseek(2, 0, SEEK_END);
  if (n > 0 && s == SIGABRT)
  {
    char t[600]; off_t from = n > 500 ? n - 500 : 0;
    ssize_t k = pread(2, t, 500, from);
    if (k > 0) w += ": " + std::string(t, static_cast<size_t>(k));
  }
  std::string st = sim::stack_of_current();
  if (!st.empty()) w += " stack: " + st;
  sim::fail_run(s == SIGPROF ? "hang" : "crash", w);
}
static void on_terminate()
{
  sim::fail_run("exception", std::string("std::terminate in thread ") + sim::fiber_name(sim::current()) + ": " + sim::exception_text());
}
static Result run_plan(const Plan & p, bool want_log)
{
  int fd[2];
  if (pipe(fd)) { perror("pipe"); exit(3); }
  int err = memfd_create("stderr", 0);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]);
    g_fd = fd[1];
    dup2(err, 2); dup2(err, 1);
    g_want_log = want_log;
    sim::on_fail = fail_cb;
    static char alt[1 << 18];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
    __libc_single_threaded = 0;               // libstdc++ must use its atomic reference counts, as in a threaded process
    sim::arena_use(1);
    sim::arena_checks(sim::kFine);
    sim::kernel_init(p.seed);
    sim::set_log_text(want_log);
    sim::set_random_seed(static_cast<u64>(p.integer("rand_seed", 1)));
    sim::set_schedule(p.sched);
    execute(p);
    send_result(sim::OK_RUN, "", "");
    _exit(0);
  }
  close(fd[1]); close(err);
  std::string o; char buf[65536];
  bool timeout = false;
  for (;;)
  {
    struct pollfd pf{fd[0], POLLIN, 0};
    int r = poll(&pf, 1, 90000);
    if (r == 0) { timeout = true; kill(pid, SIGKILL); break; }
    if (r < 0 && errno == EINTR) continue;
    ssize_t n = read(fd[0], buf, sizeof buf);
    if (n <= 0) break;
    o.append(buf, static_cast<size_t>(n));
  }
  close(fd[0]);
  int status = 0; waitpid(pid, &status, 0);
  Result r;
  if (timeout) { r.klass = "HARNESS"; r.what = "run timed out"; return r; }
  std::istringstream in(o);
  std::string line; bool complete = false;
  while (std::getline(in, line))
  {
    if (line == "end") { complete = true; break; }
    size_t sp = line.find(' ');
    std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
    if (k == "outcome") r.outcome = atoi(v.c_str());
    else if (k == "class") r.klass = unesc(v);
    else if (k == "what") r.what = unesc(v);
    else if (k == "stat") { std::istringstream s(v); s >> r.log_hash >> r.sched_hash >> r.steps >> r.switches >> r.accesses >> r.sim_ns; }
    else if (k == "cnt") { std::istringstream s(v); u64 n; std::string name; s >> n >> name; r.counters[name] = n; }
    else if (k == "dev") { std::istringstream s(v); u64 a; int f; s >> a >> f; r.rec.push_back({a, f}); }
    else if (k == "log") r.log = unesc(v);
  }
  if (!complete)
  {
    r.outcome = sim::VIOLATION_RUN; r.klass = "crash";
    r.what = WIFSIGNALED(status) ? std::string("killed by ") + strsignal(WTERMSIG(status)) : "the process ended during the run with status " + std::to_string(WEXITSTATUS(status));
  }
  return r;
}
static std::string jstr(const std::string & s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
static std::string result_json(const Result & r)
{
  std::ostringstream o;
  o << "{\"outcome\":" << r.outcome << ",\"class\":" << jstr(r.klass) << ",\"what\":" << jstr(r.what) << ",\"log_hash\":\"" << std::hex << r.log_hash << "\",\"sched_hash\":\""
    << r.sched_hash << std::dec << "\",\"steps\":" << r.steps << ",\"switches\":" << r.switches << ",\"accesses\":" << r.accesses << ",\"sim_ns\":" << r.sim_ns << ",\"counters\":{";
  bool first = true;
  for (auto & c : r.counters) { o << (first ? "" : ",") << jstr(c.first) << ":" << c.second; first = false; }
  o << "},\"dev\":[";
  first = true;
  for (auto & d : r.rec) { o << (first ? "" : ",") << "[" << d.first << "," << d.second << "]"; first = false; }
  o << "]}";
  return o.str();
}
static double wall()
{
  // the interposed clocks are virtual only inside a run
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
// A batch worker: prints one line per violation / error and a summary block
static void worker(const std::string & prop, u64 seed0, int idx, int stride, double secs, u64 maxruns, int fd, double det_frac)
{
  std::string out;
  double end = wall() + secs;
  u64 runs = 0, det = 0; u64 steps = 0, switches = 0, acc = 0; double simt = 0;
  std::map<std::string, u64> cnt;
  std::set<u64> scheds, logs;
  std::map<std::string, int> seen;
  for (u64 i = static_cast<u64>(idx); wall() < end && runs < maxruns; i += static_cast<u64>(stride))
  {
    u64 seed = seed0 + i;
    Plan p = generate(prop, seed, sim::kFine);
    if (getenv("SIM_TRACE")) { fprintf(stderr, "seed %llu\n", static_cast<unsigned long long>(seed)); }
    Result r = run_plan(p, false);
    ++runs;
    steps += r.steps; switches += r.switches; acc += r.accesses; simt += static_cast<double>(r.sim_ns) * 1e-9;
    for (auto & c : r.counters) cnt[c.first] += c.second;
    bool nontrivial = false;
    for (auto & c : r.counters) if (c.second && c.first.compare(0, 6, "probe_") == 0) nontrivial = true;
    scheds.insert(r.sched_hash); if (nontrivial) logs.insert(r.log_hash);
    if (r.outcome != sim::OK_RUN)
    {
      if (++seen[r.klass] <= 3)
        out += "R " + std::to_string(seed) + " " + result_json(r) + "\n";
      if (r.outcome == sim::VIOLATION_RUN && seen[r.klass] >= 3 && !getenv("SIM_ALL")) break;
    }
    else if (det_frac > 0 && (seed * 2654435761ULL >> 7) % 1000 < static_cast<u64>(det_frac * 1000))
    {
      Result q = run_plan(p, false);
      ++det;
      if (q.log_hash != r.log_hash || q.sched_hash != r.sched_hash || q.outcome != r.outcome)
      {
        Result e; e.outcome = sim::ERROR_RUN; e.klass = "HARNESS"; e.what = "the same seed gave two different executions (" + q.what + ")";
        out += "R " + std::to_string(seed) + " " + result_json(e) + "\n";
      }
    }
  }
  std::ostringstream o;
  o << out << "S " << runs << " " << det << " " << steps << " " << switches << " " << acc << " " << fnum(simt) << "\n";
  for (auto & c : cnt) o << "C " << c.first << " " << c.second << "\n";
  for (auto s : scheds) o << "H " << s << "\n";
  for (auto s : logs) o << "L " << s << "\n";
  std::string s = o.str();
  size_t i = 0;
  while (i < s.size()) { ssize_t n = write(fd, s.data() + i, s.size() - i); if (n <= 0) break; i += static_cast<size_t>(n); }
}
static int batch(const std::string & prop, u64 seed0, double secs, int jobs, u64 maxruns, double det)
{
  std::vector<int> fds; std::vector<pid_t> pids;
  double t0 = wall();
  for (int j = 0; j < jobs; ++j)
  {
    int fd[2]; if (pipe(fd)) return 3;
    pid_t p = fork();
    if (p == 0)
    {
      close(fd[0]);
      worker(prop, seed0, j, jobs, secs, maxruns ? (maxruns + static_cast<u64>(jobs) - 1) / static_cast<u64>(jobs) : ~0ULL, fd[1], det);
      _exit(0);
    }
    close(fd[1]); fds.push_back(fd[0]); pids.push_back(p);
  }
  u64 runs = 0, dets = 0, steps = 0, sw = 0, acc = 0; double simt = 0;
  std::map<std::string, u64> cnt; std::set<u64> H, L; std::vector<std::string> results;
  bool dead = false;
  for (size_t j = 0; j < fds.size(); ++j)
  {
    std::string o; char b[65536]; ssize_t n;
    while ((n = read(fds[j], b, sizeof b)) > 0) o.append(b, static_cast<size_t>(n));
    int st = 0; waitpid(pids[j], &st, 0);
    if (st) dead = true;
    std::istringstream in(o); std::string line;
    while (std::getline(in, line))
    {
      std::istringstream l(line); char k; l >> k;
      if (k == 'R') { u64 s; l >> s; std::string rest; std::getline(l, rest); results.push_back("{\"seed\":" + std::to_string(s) + ",\"r\":" + rest.substr(1) + "}"); }
      else if (k == 'S') { u64 a, b2, c, d, e; double f; l >> a >> b2 >> c >> d >> e >> f; runs += a; dets += b2; steps += c; sw += d; acc += e; simt += f; }
      else if (k == 'C') { std::string n2; u64 v; l >> n2 >> v; cnt[n2] += v; }
      else if (k == 'H') { u64 v; l >> v; H.insert(v); }
      else if (k == 'L') { u64 v; l >> v; L.insert(v); }
    }
  }
  std::cout << "{\"prop\":" << jstr(prop) << ",\"fine\":" << (sim::kFine ? "true" : "false") << ",\"seed0\":" << seed0 << ",\"runs\":" << runs << ",\"det_reruns\":" << dets
            << ",\"steps\":" << steps << ",\"switches\":" << sw << ",\"accesses\":" << acc << ",\"sim_seconds\":" << fnum(simt) << ",\"wall\":" << fnum(wall() - t0)
            << ",\"distinct_schedules\":" << H.size() << ",\"distinct_histories\":" << L.size() << ",\"dead_worker\":" << (dead ? "true" : "false") << ",\"counters\":{";
  bool f = true;
  for (auto & c : cnt) { std::cout << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
  std::cout << "},\"results\":[";
  for (size_t i = 0; i < results.size(); ++i) std::cout << (i ? ",\n" : "\n") << results[i];
  std::cout << "]}" << std::endl;
  return 0;
}
int main(int argc, char ** argv)
{
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
  {
    setenv("SIM_REEXEC", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
    personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  google::InitGoogleLogging(argv[0]);
  FLAGS_logtostderr = true; FLAGS_minloglevel = 3;
  std::map<std::string, std::string> a; std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i)
  {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0) { std::string k = s.substr(2); if (i + 1 < argc && argv[i + 1][0] != '-') a[k] = argv[++i]; else a[k] = "1"; }
    else pos.push_back(s);
  }
  std::string cmd = pos.empty() ? "" : pos[0];
  auto get = [&](const char * k, const char * d) { return a.count(k) ? a[k] : std::string(d); };
  g_known = "," + get("known", "") + ",";
  if (cmd == "gen")
  {
    std::cout << generate(get("prop", ""), strtoull(get("seed", "1").c_str(), nullptr, 10), sim::kFine).text();
    return 0;
  }
  if (cmd == "run")
  {
    Plan p;
    if (pos.size() > 1) { std::ifstream f(pos[1]); std::stringstream ss; ss << f.rdbuf(); if (!f) { std::cerr << "cannot read " << pos[1] << "\n"; return 3; } p = Plan::parse(ss.str()); }
    else p = generate(get("prop", ""), strtoull(get("seed", "1").c_str(), nullptr, 10), sim::kFine);
    if (a.count("as")) p.prop = a["as"];
    Result r = run_plan(p, a.count("log") > 0);
    if (a.count("log")) std::cout << r.log;
    std::cout << result_json(r) << std::endl;
    return r.outcome;
  }
  if (cmd == "batch")
    return batch(get("prop", ""), strtoull(get("seed0", "1").c_str(), nullptr, 10), strtod(get("secs", "10").c_str(), nullptr),
                 atoi(get("jobs", "8").c_str()), strtoull(get("runs", "0").c_str(), nullptr, 10), strtod(get("det", "0.02").c_str(), nullptr));
  std::cerr << "usage: gen --prop P --seed S | run FILE [--log] | batch --prop P --seed0 S --secs T --jobs J\n";
  return 3;
}
