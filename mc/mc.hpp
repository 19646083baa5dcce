// mc.hpp - exhaustive stateless explorer for C++ harnesses.
//
// A harness registers scenarios: functions void(mc::Ctx &) that take every nondeterministic decision
// through Ctx::choose(n). explore() enumerates the complete tree of choices depth first, replaying the
// function from its start for each leaf, and shards it over forked workers by a hash of the choice prefix.
// The current choice sequence lives in shared memory, so a crash, sanitizer abort or hang in the code under
// test is attributed to exactly one execution, which is replayed alone before it is reported.
#ifndef MC_HPP_
#define MC_HPP_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{
inline double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline bool thorough()
{
  const char * t = std::getenv("VERIF_TIER");
  return t && std::string(t) == "thorough";
}
template<class T> T tier(const T & quick, const T & deep) {return thorough() ? deep : quick;}

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char * c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {h ^= c[i]; h *= 1099511628211ull;}
  return mix(h, n);
}
inline uint64_t hash_str(const std::string & s) {return hash_bytes(s.data(), s.size());}
inline uint64_t hash_double(uint64_t h, double v)
{
  if (v == 0) {v = 0;}
  uint64_t u; std::memcpy(&u, &v, 8);
  return mix(h, u);
}

inline std::string vformat(const char * f, va_list ap)
{
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string format(const char * f, ...)
{
  va_list ap; va_start(ap, f); std::string s = vformat(f, ap); va_end(ap); return s;
}

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Skip {};        // this execution belongs to another shard
struct Prune {};       // the rest of this execution is covered elsewhere / is out of scope
struct Divergence {std::string what;};

constexpr int kMaxChoices = 20000;
struct Slot
{
  std::atomic<uint64_t> execs;      // executions started
  std::atomic<double> started;      // when the current one started
  std::atomic<int> busy;
  int len;
  uint16_t choices[kMaxChoices];
  char message[8192];
  int has_message;
};

struct Stats
{
  uint64_t executions = 0, nodes = 0, steps = 0, pruned = 0;
  std::unordered_set<uint64_t> outcomes, states;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, uint64_t> known;
  std::map<std::string, std::string> known_msg;
  std::vector<std::string> samples;
};

struct Choice {uint16_t c, n;};

class Ctx
{
public:
  int choose(int n)
  {
    if (n <= 0) {throw Divergence{"choose(n<=0)"};}
    if (n > 60000) {throw Divergence{"choose: too many alternatives"};}
    const size_t pos = depth_++;
    if (pos >= kMaxChoices) {throw Divergence{"too many choices in one execution"};}
    if (pos < stack_->size()) {
      if ((*stack_)[pos].n != n) {
        throw Divergence{format("replay divergence at choice %zu: %d alternatives, expected %d",
                pos, n, (*stack_)[pos].n)};
      }
    } else {
      stack_->push_back({static_cast<uint16_t>(replay_ && pos < replay_->size() ? (*replay_)[pos] : 0),
          static_cast<uint16_t>(n)});
      if (stack_->back().c >= n) {throw Divergence{"replayed choice out of range"};}
      if (owned_) {stats_->nodes++;}
    }
    const int c = (*stack_)[pos].c;
    if (slot_) {slot_->choices[pos] = c; slot_->len = static_cast<int>(pos) + 1;}
    if (!owned_) {
      prod_ *= n;
      phash_ = mix(phash_, c + 1);
      if (prod_ >= shard_at_) {
        if (phash_ % nworkers_ != worker_) {throw Skip{};}
        owned_ = true;
        stats_->nodes++;
      }
    }
    return c;
  }
  bool flag() {return choose(2) == 1;}
  int range(int lo, int hi) {return lo + choose(hi - lo + 1);}
  template<class T> T pick(std::initializer_list<T> l) {return *(l.begin() + choose(static_cast<int>(l.size())));}
  template<class T> const T & pick(const std::vector<T> & v) {return v.at(choose(static_cast<int>(v.size())));}

  // one implementation step checked against the oracle
  void step(uint64_t n = 1) {stats_->steps += n;}
  void outcome(uint64_t h) {if (stats_->outcomes.size() < 3000000) {stats_->outcomes.insert(h);}}
  void state(uint64_t h) {if (stats_->states.size() < 6000000) {stats_->states.insert(h);}}
  void count(const char * name, uint64_t n = 1) {stats_->counters[name] += n;}
  void prune() {throw Prune{};}

  bool tracing() const {return tracing_;}
  __attribute__((format(printf, 2, 3))) void note(const char * f, ...)
  {
    if (!tracing_) {return;}
    va_list ap; va_start(ap, f); notes_.push_back(vformat(f, ap)); va_end(ap);
  }
  __attribute__((format(printf, 3, 4))) void check(bool ok, const char * f, ...)
  {
    if (ok) {return;}
    va_list ap; va_start(ap, f); std::string s = vformat(f, ap); va_end(ap);
    throw Violation(s);
  }
  __attribute__((format(printf, 2, 3))) void fail(const char * f, ...)
  {
    va_list ap; va_start(ap, f); std::string s = vformat(f, ap); va_end(ap);
    throw Violation(s);
  }
  // A mismatch that the known-findings file may list. Listed: counted, the execution ends. Else: violation.
  __attribute__((format(printf, 3, 4))) void finding(const std::string & key, const char * f, ...)
  {
    va_list ap; va_start(ap, f); std::string s = vformat(f, ap); va_end(ap);
    if (known_keys().count(key)) {
      stats_->known[key]++;
      stats_->known_msg.emplace(key, s);
      throw Prune{};
    }
    throw Violation("[" + key + "] " + s);
  }
  static const std::set<std::string> & known_keys()
  {
    static const std::set<std::string> k = [] {
        std::set<std::string> r;
        const char * e = std::getenv("MC_KNOWN");
        std::stringstream ss(e ? e : "");
        for (std::string t; std::getline(ss, t, ','); ) {if (!t.empty()) {r.insert(t);}}
        return r;
      } ();
    return k;
  }
  const std::vector<std::string> & notes() const {return notes_;}
  std::string trace() const
  {
    std::string s;
    for (size_t i = 0; i < stack_->size() && i < depth_; i++) {
      s += (i ? "," : "") + std::to_string((*stack_)[i].c);
    }
    return s;
  }

  // set up by the engine
  std::vector<Choice> * stack_ = nullptr;
  const std::vector<int> * replay_ = nullptr;
  Stats * stats_ = nullptr;
  Slot * slot_ = nullptr;
  uint64_t worker_ = 0, nworkers_ = 1, shard_at_ = 1;
  uint64_t phash_ = 1234567;
  double prod_ = 1;
  bool owned_ = false, tracing_ = false;
  size_t depth_ = 0;
  std::vector<std::string> notes_;
};

using ScenarioFn = std::function<void (Ctx &)>;
struct Scenario
{
  std::string name;
  ScenarioFn fn;
  double hang_s;
};
inline std::vector<Scenario> & scenarios() {static std::vector<Scenario> s; return s;}
struct Register
{
  Register(const char * name, ScenarioFn fn, double hang_s = 30) {scenarios().push_back({name, fn, hang_s});}
};
#define MC_SCENARIO(name) \
  static void mc_fn_##name(mc::Ctx & ctx); \
  static mc::Register mc_reg_##name(#name, mc_fn_##name); \
  static void mc_fn_##name(mc::Ctx & ctx)

inline std::string json_escape(const std::string & s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {r += '\\'; r += c;}
    else if (c == '\n') {r += "\\n";}
    else if (c == '\t') {r += "\\t";}
    else if (c < 0x20 || c >= 0x7f) {r += format("\\u%04x", c);}
    else {r += c;}
  }
  return r;
}

struct Result
{
  uint64_t executions = 0, nodes = 0, steps = 0, pruned = 0;
  std::unordered_set<uint64_t> outcomes, states;
  std::map<std::string, uint64_t> counters, known;
  std::map<std::string, std::string> known_msg;
  std::vector<std::string> samples;
  bool capped = false;
  bool violated = false;
  bool error = false;
  std::string message, kind, choices, log;
  double wall = 0;
};

// Run one execution. Returns 0 ok, 1 violation (message set), 2 skip, 3 prune, 4 harness divergence.
inline int run_once(const Scenario & sc, Ctx & ctx, std::string & message)
{
  try {
    sc.fn(ctx);
    return 0;
  } catch (const Violation & v) {
    message = v.what();
    return 1;
  } catch (const Skip &) {
    return 2;
  } catch (const Prune &) {
    return 3;
  } catch (const Divergence & d) {
    message = "harness: " + d.what;
    return 4;
  } catch (const std::exception & e) {
    message = std::string("uncaught exception from the code under test: ") + e.what();
    return 1;
  } catch (...) {
    message = "uncaught exception of unknown type from the code under test";
    return 1;
  }
}

constexpr uint64_t kShardAt = 192;

inline void put_slot_message(Slot * slot, const std::string & m)
{
  snprintf(slot->message, sizeof slot->message, "%s", m.c_str());
  slot->has_message = 1;
}

// Body of a worker process. Exit code: 0 done, 5 capped, 10 violation, 12 divergence.
[[noreturn]] inline void worker_main(
  const Scenario & sc, Slot * slot, int id, int n, double deadline, const std::string & out, uint64_t stop_after)
{
  Stats st;
  std::vector<Choice> stack;
  int code = 0;
  uint64_t attempts = 0;
  for (;;) {
    Ctx ctx;
    ctx.stack_ = &stack; ctx.stats_ = &st; ctx.slot_ = slot;
    ctx.worker_ = id; ctx.nworkers_ = n; ctx.shard_at_ = kShardAt;
    const uint64_t e = st.executions;
    ctx.tracing_ = (e < 2 || e == 100 || e == 3000 || e == 50000);
    slot->len = 0;
    slot->started = now();
    slot->busy = 1;
    std::string msg;
    const int r = run_once(sc, ctx, msg);
    slot->busy = 0;
    slot->execs++;
    attempts++;
    if (r == 4) {put_slot_message(slot, msg); code = 12; break;}
    if (r == 1) {put_slot_message(slot, msg); code = 10; break;}
    if (r == 0 || r == 3) {
      const bool mine = ctx.owned_ || ctx.phash_ % n == static_cast<uint64_t>(id);
      if (mine) {
        st.executions++;
        if (!ctx.owned_) {st.nodes += stack.size() + 1;}
        if (r == 3) {st.pruned++;}
        if (ctx.tracing_ && r == 0) {
          std::string s = sc.name + " [" + ctx.trace() + "]";
          for (auto & x : ctx.notes()) {s += " | " + x;}
          if (s.size() > 900) {s.resize(900); s += "...";}
          st.samples.push_back(s);
        }
      }
    }
    if (stop_after && attempts >= stop_after) {code = 6; break;}
    while (!stack.empty() && stack.back().c + 1 >= stack.back().n) {stack.pop_back();}
    if (stack.empty()) {break;}
    stack.back().c++;
    if ((attempts & 63) == 0 && now() > deadline) {code = 5; break;}
  }
  if (!out.empty()) {
    FILE * f = fopen(out.c_str(), "wb");
    if (f) {
      auto w = [&](uint64_t v) {fwrite(&v, 8, 1, f);};
      auto ws = [&](const std::string & s) {w(s.size()); fwrite(s.data(), 1, s.size(), f);};
      w(st.executions); w(st.nodes); w(st.steps); w(st.pruned);
      w(st.outcomes.size()); for (auto h : st.outcomes) {w(h);}
      w(st.states.size()); for (auto h : st.states) {w(h);}
      w(st.counters.size()); for (auto & kv : st.counters) {ws(kv.first); w(kv.second);}
      w(st.known.size()); for (auto & kv : st.known) {ws(kv.first); w(kv.second); ws(st.known_msg[kv.first]);}
      w(st.samples.size()); for (auto & s : st.samples) {ws(s);}
      fclose(f);
    }
  }
  fflush(nullptr);
  _exit(code);
}

inline bool load_worker(const std::string & path, Result & r)
{
  FILE * f = fopen(path.c_str(), "rb");
  if (!f) {return false;}
  auto rd = [&]() {uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) {v = 0;} return v;};
  auto rs = [&]() {std::string s(rd(), 0); if (!s.empty() && fread(&s[0], 1, s.size(), f) != s.size()) {} return s;};
  r.executions += rd(); r.nodes += rd(); r.steps += rd(); r.pruned += rd();
  for (uint64_t n = rd(); n--; ) {r.outcomes.insert(rd());}
  for (uint64_t n = rd(); n--; ) {r.states.insert(rd());}
  for (uint64_t n = rd(); n--; ) {auto k = rs(); r.counters[k] += rd();}
  for (uint64_t n = rd(); n--; ) {auto k = rs(); r.known[k] += rd(); auto m = rs(); r.known_msg.emplace(k, m);}
  for (uint64_t n = rd(); n--; ) {r.samples.push_back(rs());}
  fclose(f);
  return true;
}

inline std::string read_tail(const std::string & path, size_t n = 6000)
{
  std::ifstream f(path);
  std::stringstream ss; ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > n) {s = s.substr(0, n / 2) + "\n...\n" + s.substr(s.size() - n / 2);}
  return s;
}

inline Slot * make_slots(int n)
{
  void * p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {perror("mmap"); exit(2);}
  return static_cast<Slot *>(p);
}

inline std::string describe_status(int status)
{
  if (WIFSIGNALED(status)) {return format("killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));}
  return format("exit status %d", WEXITSTATUS(status));
}

// Replays one execution in a process of its own. Returns true when it misbehaves; fills message/log/kind.
inline bool replay_alone(
  const Scenario & sc, const std::vector<int> & choices, double limit, const std::string & tmp,
  std::string & message, std::string & kind, std::string & log, bool & divergence)
{
  Slot * slot = make_slots(1);
  const std::string logf = tmp + "/replay.log";
  divergence = false;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(logf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1); dup2(fd, 2);
    Stats st;
    std::vector<Choice> stack;
    Ctx ctx;
    ctx.stack_ = &stack; ctx.stats_ = &st; ctx.slot_ = slot; ctx.replay_ = &choices;
    ctx.owned_ = true; ctx.tracing_ = true;
    std::string msg;
    // notes are flushed at the end; on a crash the choice list is what remains
    const int r = run_once(sc, ctx, msg);
    for (auto & n : ctx.notes()) {printf("%s\n", n.c_str());}
    if (r == 1) {put_slot_message(slot, msg); printf("VIOLATED: %s\n", msg.c_str());}
    if (r == 4) {put_slot_message(slot, msg);}
    fflush(nullptr);
    _exit(r == 1 ? 10 : r == 4 ? 12 : 0);
  }
  const double t0 = now();
  int status = 0;
  bool hung = false;
  for (;;) {
    const pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) {break;}
    if (now() - t0 > limit) {kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break;}
    usleep(2000);
  }
  log = read_tail(logf);
  bool bad = true;
  if (hung) {
    kind = "hang"; message = format("execution did not finish within %.0f s", limit);
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    bad = false;
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 10) {
    kind = "property"; message = slot->message;
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 12) {
    divergence = true; bad = false; message = slot->message;
  } else {
    kind = "crash"; message = "the code under test crashed: " + describe_status(status);
    for (const char * pat : {"ERROR: AddressSanitizer", "runtime error:", "Assertion", "terminate called", "ERROR:"}) {
      const auto k = log.find(pat);
      if (k != std::string::npos) {
        const auto b = log.rfind('\n', k) == std::string::npos ? 0 : log.rfind('\n', k) + 1;
        message += ": " + log.substr(b, std::min<size_t>(log.find('\n', k) - b, 400));
        break;
      }
    }
  }
  munmap(slot, sizeof(Slot));
  return bad;
}

inline Result explore(const Scenario & sc, int jobs, double budget, const std::string & tmp)
{
  Result res;
  const double t0 = now();
  Slot * slots = make_slots(jobs);
  std::vector<pid_t> pids(jobs, 0);
  fflush(nullptr);
  for (int i = 0; i < jobs; i++) {
    const pid_t pid = fork();
    if (pid == 0) {
      const int fd = open((tmp + "/w" + std::to_string(i) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 1); dup2(fd, 2);
      worker_main(sc, &slots[i], i, jobs, t0 + budget, tmp + "/w" + std::to_string(i) + ".bin", 0);
    }
    pids[i] = pid;
  }
  int left = jobs, bad = -1, bad_status = 0;
  bool hang = false;
  while (left > 0 && bad < 0) {
    for (int i = 0; i < jobs && bad < 0; i++) {
      if (!pids[i]) {continue;}
      int status = 0;
      if (waitpid(pids[i], &status, WNOHANG) == pids[i]) {
        pids[i] = 0; left--;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {continue;}
        if (WIFEXITED(status) && WEXITSTATUS(status) == 5) {res.capped = true; continue;}
        bad = i; bad_status = status;
      } else if (slots[i].busy && slots[i].started > 0 && now() - slots[i].started > sc.hang_s) {
        bad = i; hang = true;
      }
    }
    usleep(2000);
  }
  for (int i = 0; i < jobs; i++) {
    if (bad >= 0 && pids[i]) {kill(pids[i], SIGKILL); int s; waitpid(pids[i], &s, 0);}
  }
  if (bad >= 0) {
    Slot & sl = slots[bad];
    std::vector<int> ch(sl.choices, sl.choices + sl.len);
    for (size_t i = 0; i < ch.size(); i++) {res.choices += (i ? "," : "") + std::to_string(ch[i]);}
    const std::string wlog = read_tail(tmp + "/w" + std::to_string(bad) + ".log");
    if (WIFEXITED(bad_status) && WEXITSTATUS(bad_status) == 12 && !hang) {
      res.error = true; res.message = sl.message;
    } else {
      bool div = false;
      const uint64_t execs = sl.execs;
      if (replay_alone(sc, ch, sc.hang_s * 3, tmp, res.message, res.kind, res.log, div)) {
        res.violated = true;
      } else {
        // Not reproducible from a fresh process: state carried over between executions? Re-run the whole shard.
        Slot * s2 = make_slots(1);
        fflush(nullptr);
        const pid_t pid = fork();
        const std::string lf = tmp + "/rerun.log";
        if (pid == 0) {
          const int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          dup2(fd, 1); dup2(fd, 2);
          worker_main(sc, s2, bad, jobs, now() + 600, "", execs + 1);
        }
        int status = 0;
        const double r0 = now();
        bool h2 = false;
        while (waitpid(pid, &status, WNOHANG) != pid) {
          if (now() - r0 > 300) {kill(pid, SIGKILL); waitpid(pid, &status, 0); h2 = true; break;}
          usleep(2000);
        }
        std::vector<int> ch2(s2->choices, s2->choices + s2->len);
        const bool again = !h2 && !(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 6 ||
          WEXITSTATUS(status) == 5 || WEXITSTATUS(status) == 12)) && ch2 == ch;
        if (again) {
          res.violated = true;
          res.kind = "history";
          res.message = std::string("only after the preceding executions in the same process (the result depends on earlier, ") +
            "unrelated calls): " + (s2->has_message ? s2->message : describe_status(status));
          res.log = read_tail(lf);
        } else {
          res.error = true;
          res.message = format("worker %d failed (%s) but neither its execution alone nor its shard reproduces it: ",
              bad, hang ? "hang" : describe_status(bad_status).c_str()) + (sl.has_message ? sl.message : "") + " " + wlog;
        }
      }
    }
  }
  for (int i = 0; i < jobs; i++) {
    const std::string p = tmp + "/w" + std::to_string(i) + ".bin";
    load_worker(p, res);
    unlink(p.c_str());
    if (bad >= 0) {res.executions += 0;}
  }
  if (bad >= 0) {
    uint64_t e = 0;
    for (int i = 0; i < jobs; i++) {e += slots[i].execs;}
    res.executions = std::max(res.executions, e);
  }
  munmap(slots, sizeof(Slot) * jobs);
  res.wall = now() - t0;
  return res;
}

inline int main_(int argc, char ** argv)
{
  int jobs = 8;
  double budget = thorough() ? 3000 : 300;
  std::string out, tmp = "/tmp", replay, only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--jobs") {jobs = atoi(argv[++i]);}
    else if (a == "--budget") {budget = atof(argv[++i]);}
    else if (a == "--out") {out = argv[++i];}
    else if (a == "--tmp") {tmp = argv[++i];}
    else if (a == "--only") {only = argv[++i];}
    else if (a == "--replay") {replay = argv[++i];}
  }
  if (!replay.empty()) {
    const auto k = replay.find(':');
    const std::string name = replay.substr(0, k);
    std::vector<int> ch;
    std::stringstream ss(k == std::string::npos ? "" : replay.substr(k + 1));
    for (std::string t; std::getline(ss, t, ','); ) {if (!t.empty()) {ch.push_back(atoi(t.c_str()));}}
    for (auto & sc : scenarios()) {
      if (sc.name != name) {continue;}
      std::string m, kind, log; bool div = false;
      const bool bad = replay_alone(sc, ch, sc.hang_s * 3, tmp, m, kind, log, div);
      printf("%s\n%s\n", log.c_str(), bad ? ("VIOLATED (" + kind + "): " + m).c_str() : div ? ("DIVERGED: " + m).c_str() : "held");
      return bad ? 1 : div ? 2 : 0;
    }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }
  std::string js = "{\"scenarios\":[";
  int rc = 0;
  bool first = true;
  const double t0 = now();
  for (auto & sc : scenarios()) {
    if (!only.empty() && sc.name != only) {continue;}
    const double left = std::max(5.0, budget - (now() - t0));
    Result r = explore(sc, jobs, left, tmp);
    js += first ? "" : ","; first = false;
    js += format("{\"name\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"steps\":%llu,\"pruned\":%llu,\"outcomes\":%zu,"
        "\"states\":%zu,\"capped\":%s,\"wall\":%.3f,", sc.name.c_str(), (unsigned long long)r.executions,
        (unsigned long long)r.nodes, (unsigned long long)r.steps, (unsigned long long)r.pruned, r.outcomes.size(),
        r.states.size(), r.capped ? "true" : "false", r.wall);
    js += "\"counters\":{";
    bool f2 = true;
    for (auto & kv : r.counters) {js += format("%s\"%s\":%llu", f2 ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); f2 = false;}
    js += "},\"known\":{";
    f2 = true;
    for (auto & kv : r.known) {
      js += format("%s\"%s\":[%llu,\"", f2 ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second) +
        json_escape(r.known_msg[kv.first]) + "\"]"; f2 = false;
    }
    js += "},\"samples\":[";
    f2 = true;
    std::sort(r.samples.begin(), r.samples.end());
    for (size_t i = 0; i < r.samples.size() && i < 6; i++) {
      js += (f2 ? "\"" : ",\"") + json_escape(r.samples[i * r.samples.size() / std::min<size_t>(6, r.samples.size())]) + "\""; f2 = false;
    }
    js += "],";
    js += std::string("\"violated\":") + (r.violated ? "true" : "false") + ",\"error\":" + (r.error ? "true" : "false") +
      ",\"kind\":\"" + json_escape(r.kind) + "\",\"message\":\"" + json_escape(r.message) + "\",\"choices\":\"" + r.choices +
      "\",\"log\":\"" + json_escape(r.log) + "\"}";
    printf("%-34s exec=%llu nodes=%llu steps=%llu outcomes=%zu states=%zu%s %.1fs%s\n", sc.name.c_str(),
      (unsigned long long)r.executions, (unsigned long long)r.nodes, (unsigned long long)r.steps, r.outcomes.size(),
      r.states.size(), r.capped ? " CAPPED" : "", r.wall, r.violated ? " VIOLATED" : r.error ? " ERROR" : "");
    if (r.violated) {printf("   %s: %s  [%s]\n", r.kind.c_str(), r.message.c_str(), r.choices.c_str()); rc = 1; }
    if (r.error) {printf("   error: %s\n", r.message.c_str()); if (!rc) {rc = 2;}}
    fflush(stdout);
  }
  js += "]}";
  if (!out.empty()) {std::ofstream(out) << js;}
  return rc;
}

// ---------------------------------------------------------------- numeric helpers for oracles
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9)
{
  if (std::isnan(a) || std::isnan(b)) {return std::isnan(a) && std::isnan(b);}
  if (std::isinf(a) || std::isinf(b)) {return a == b;}
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
template<class A, class B>
bool mclose(const A & a, const B & b, double rel = 1e-9, double abs = 1e-9)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return false;}
  double scale = 0;
  for (int i = 0; i < a.rows(); i++) {for (int j = 0; j < a.cols(); j++) {
      if (std::isfinite(a(i, j))) {scale = std::max(scale, std::fabs(static_cast<double>(a(i, j))));}
      if (std::isfinite(b(i, j))) {scale = std::max(scale, std::fabs(static_cast<double>(b(i, j))));}}}
  for (int i = 0; i < a.rows(); i++) {for (int j = 0; j < a.cols(); j++) {
      if (std::isfinite(a(i, j)) && std::isfinite(b(i, j))) {
        if (std::fabs(static_cast<double>(a(i, j)) - b(i, j)) > abs + rel * scale) {return false;}
      } else if (!close(a(i, j), b(i, j))) {return false;}}}
  return true;
}
template<class M> std::string mstr(const M & m) {std::stringstream ss; ss.precision(17); ss << m; std::string s = ss.str(); for (auto & c : s) {if (c == '\n') {c = ';';}} return s;}
template<class V> std::string vstr(const V & v)
{
  std::stringstream ss; ss.precision(12); ss << "[";
  for (size_t i = 0; i < static_cast<size_t>(v.size()); i++) {ss << (i ? " " : "") << +v[i];}
  ss << "]"; return ss.str();
}
}  // namespace mc

// lazily formatted check
#define CHECK(ok, ...) do {if (!(ok)) {ctx.fail(__VA_ARGS__);}} while (0)

#define MC_MAIN int main(int argc, char ** argv) {return mc::main_(argc, argv);}
#endif  // MC_HPP_
