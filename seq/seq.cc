#include "seq/seq.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <unordered_set>
#include <vector>

namespace seq {
namespace {

struct Harness {
  char const* name;
  void (*body)();
  Options options;
};
std::vector<Harness>& Harnesses() {
  static auto& h = *new std::vector<Harness>;
  return h;
}

struct Skip {};
struct Pruned {};
struct Violation { std::string message; };

constexpr int max_depth = 4096;
constexpr int max_workers = 64;
constexpr std::size_t max_known = 32;
constexpr int max_claims = 1 << 22;
constexpr int max_samples = 6;

struct WorkerShared {
  std::atomic<std::int64_t> executions;
  std::atomic<std::int64_t> choices;
  std::atomic<std::int64_t> steps;
  std::atomic<std::int64_t> pruned;
  std::atomic<int> depth;
  int path[max_depth];
  std::atomic<std::int64_t> heartbeat_ns;
  bool done;
  bool truncated;
  int max_depth_seen;
  bool violated;
  char message[4096];
  std::int64_t distinct_states;
};
struct Shared {
  WorkerShared workers[max_workers];
  std::atomic<bool> stop;
  std::atomic<bool> known[max_known];
  std::atomic<unsigned char> claims[max_claims];
};
Shared* g_shared;

// The state of the current execution.
struct Run {
  WorkerShared* shared = nullptr;
  int worker = 0;
  int split = 0;
  std::vector<int> path;     // What to do.
  std::vector<int> arity;
  int position = 0;
  int fixed = -1;            // Replay: don't extend.
  bool have_claim = false;
  std::int64_t steps = 0;
  std::int64_t ordinal = -1; // Of the current prefix.
  bool noting = false;
  std::vector<std::string> notes;
};
Run g_run;
bool g_thorough = false;
std::unordered_set<std::uint64_t> g_states;
constexpr std::size_t max_states = 20'000'000;

void LimitMemory() {
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
  rlimit l{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &l);
#endif
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

std::int64_t Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1'000'000'000ll + t.tv_nsec;
}

bool Claim(std::int64_t const ordinal) {
  if (ordinal >= max_claims) {
    return ordinal % 8 == g_run.worker % 8;
  }
  unsigned char expected = 0;
  return g_shared->claims[ordinal].compare_exchange_strong(expected, 1);
}

std::string Escape(std::string const& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') { r += "\\n"; }
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else { r += c; }
  }
  return r;
}

// Runs one execution; returns the message of the violation, or "".  `status`
// is 0 for complete, 1 for skipped, 2 for pruned, 3 for violation.
int Execute(Harness const& h, std::string& message) {
  g_run.position = 0;
  g_run.arity.clear();
  g_run.notes.clear();
  g_run.have_claim = false;
  g_run.steps = 0;
  try {
    h.body();
    if (g_run.split > 0 && !g_run.have_claim) {
      // A path that is shorter than the split depth is its own prefix.
      ++g_run.ordinal;
      if (!Claim(g_run.ordinal)) {
        return 1;
      }
    }
    return 0;
  } catch (Skip const&) {
    return 1;
  } catch (Pruned const&) {
    return 2;
  } catch (Violation const& v) {
    message = v.message;
    return 3;
  } catch (::principia_verif::FatalError const& e) {
    message = std::string("the code under test died: ") + e.what();
    return 3;
  } catch (std::exception const& e) {
    message = std::string("uncaught exception: ") + e.what();
    return 3;
  } catch (...) {
    message = "uncaught exception";
    return 3;
  }
}

// Goes to the next path; false at the end.
bool Next() {
  auto& p = g_run.path;
  auto const& a = g_run.arity;
  p.resize(a.size());
  while (!p.empty() && p.back() + 1 >= a[p.size() - 1]) {
    p.pop_back();
  }
  if (p.empty()) {
    return false;
  }
  ++p.back();
  return true;
}

std::string SampleOf(Harness const& h) {
  std::string s = std::string("{\"harness\":\"") + h.name + "\",\"choices\":[";
  for (std::size_t i = 0; i < g_run.arity.size(); ++i) {
    if (i >= 200) { break; }
    s += (i ? "," : "") + std::to_string(g_run.path[i]);
  }
  s += "],\"trace\":\"";
  std::string t;
  for (auto const& n : g_run.notes) {
    t += n + "; ";
    if (t.size() > 1500) { t += "..."; break; }
  }
  return s + Escape(t) + "\"}";
}

void Worker(Harness const& h, int const w, double const deadline_s, int out) {
  LimitMemory();
  g_run = Run();
  g_run.shared = &g_shared->workers[w];
  g_run.worker = w;
  g_run.split = h.options.split;
  auto& s = *g_run.shared;
  std::int64_t const deadline = deadline_s * 1e9;
  std::int64_t next_sample = 1;
  std::string samples;
  int sample_count = 0;
  // The position in the prefix enumeration.
  std::int64_t last_ordinal_prefix = -1;
  (void)last_ordinal_prefix;
  bool first = true;
  for (;;) {
    s.heartbeat_ns = Now();
    g_run.noting = s.executions + 1 == next_sample && sample_count < max_samples;
    std::string message;
    int const status = Execute(h, message);
    first = false;
    s.max_depth_seen = std::max<int>(s.max_depth_seen, g_run.arity.size());
    if (status == 3) {
      // Record the path.
      s.depth = g_run.position;
      for (int i = 0; i < g_run.position && i < max_depth; ++i) {
        s.path[i] = g_run.path[i];
      }
      strncpy(s.message, message.c_str(), sizeof s.message - 1);
      s.violated = true;
      g_shared->stop = true;
      break;
    }
    if (status == 0) {
      ++s.executions;
      s.choices += g_run.arity.size();
      s.steps += g_run.steps;
      if (g_run.noting) {
        samples += (samples.empty() ? "" : ",") + SampleOf(h);
        ++sample_count;
        next_sample = next_sample * 23 + 7;
      }
    } else if (status == 2) {
      ++s.pruned;
    }
    if (!Next()) {
      break;
    }
    if (g_shared->stop) {
      break;
    }
    if (deadline > 0 && Now() > deadline) {
      s.truncated = true;
      break;
    }
  }
  (void)first;
  s.distinct_states = g_states.size();
  s.done = true;
  // Ship the samples and the states.
  auto write_all = [&](void const* p, std::size_t n) {
    char const* c = static_cast<char const*>(p);
    while (n > 0) {
      ssize_t const k = write(out, c, n);
      if (k <= 0) { _exit(3); }
      c += k;
      n -= k;
    }
  };
  std::int64_t n = samples.size();
  write_all(&n, 8);
  write_all(samples.data(), n);
  std::vector<std::uint64_t> v(g_states.begin(), g_states.end());
  n = v.size();
  write_all(&n, 8);
  write_all(v.data(), n * 8);
  _exit(0);
}

struct Result {
  std::int64_t executions = 0, choices = 0, steps = 0, states = 0, pruned = 0;
  int max_depth = 0;
  bool truncated = false;
  bool violation = false;
  bool error = false;
  std::string message;
  std::vector<int> path;
  std::string samples;
  std::string trace;
  double wall_s = 0;
};

// Replays a path in a child; returns 0 if clean, 1 if it fails.
int ReplayChild(Harness const& h, std::vector<int> const& path,
                std::string& message, std::string& trace) {
  int fds[2];
  if (pipe(fds) != 0) { return 2; }
  fflush(stdout);
  fflush(stderr);
  pid_t const pid = fork();
  if (pid == 0) {
    close(fds[0]);
    LimitMemory();
    g_run = Run();
    g_run.shared = &g_shared->workers[max_workers - 1];
    g_run.path = path;
    g_run.fixed = 1;
    g_run.noting = true;
    std::string m;
    int const status = Execute(h, m);
    std::string t = m + std::string(1, '\0');
    for (auto const& n : g_run.notes) { t += n + "\n"; }
    std::size_t k = 0;
    while (k < t.size()) {
      ssize_t const r = write(fds[1], t.data() + k, t.size() - k);
      if (r <= 0) { break; }
      k += r;
    }
    _exit(status == 3 ? 1 : 0);
  }
  close(fds[1]);
  std::string data;
  std::int64_t const deadline = Now() + (h.options.hang_s + 5) * 1'000'000'000ll;
  bool hung = false;
  for (;;) {
    pollfd p{fds[0], POLLIN, 0};
    std::int64_t const left = deadline - Now();
    if (left <= 0) { hung = true; break; }
    int const r = poll(&p, 1, std::min<std::int64_t>(left / 1'000'000 + 1, 1000));
    if (r > 0) {
      char buffer[4096];
      ssize_t const n = read(fds[0], buffer, sizeof buffer);
      if (n <= 0) { break; }
      data.append(buffer, n);
    }
  }
  close(fds[0]);
  if (hung) {
    kill(pid, SIGKILL);
  }
  int status;
  waitpid(pid, &status, 0);
  if (hung) {
    message = "the execution doesn't terminate";
    return 1;
  }
  if (WIFSIGNALED(status)) {
    message = std::string("the code under test crashed with signal ") +
              strsignal(WTERMSIG(status));
    return 1;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    trace = data.substr(data.find('\0') + 1);
    return 0;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 1 &&
      data.find('\0') != std::string::npos) {
    message = data.substr(0, data.find('\0'));
    trace = data.substr(data.find('\0') + 1);
    return 1;
  }
  message = "the code under test exited with status " +
            std::to_string(WEXITSTATUS(status)) +
            " (sanitizer report or exit())";
  return 1;
}

std::vector<std::string> KnownKeys() {
  std::vector<std::string> keys;
  char const* const env = getenv("VERIF_KNOWN");
  std::istringstream s(env == nullptr ? "" : env);
  std::string key;
  while (s >> key) { keys.push_back(key); }
  return keys;
}

Result RunHarness(Harness const& h, int const jobs, double const time_s) {
  Result result;
  std::int64_t const start = Now();
  memset(static_cast<void*>(g_shared), 0, sizeof(Shared));
  struct W { pid_t pid; int fd; std::string data; bool open; };
  std::vector<W> ws;
  fflush(stdout);
  fflush(stderr);
  for (int w = 0; w < jobs; ++w) {
    int fds[2];
    if (pipe(fds) != 0) { result.error = true; return result; }
    g_shared->workers[w].heartbeat_ns = Now();
    pid_t const pid = fork();
    if (pid == 0) {
      close(fds[0]);
      for (auto const& other : ws) { close(other.fd); }
      Worker(h, w, time_s > 0 ? (start * 1e-9 + time_s) : 0, fds[1]);
    }
    close(fds[1]);
    ws.push_back({pid, fds[0], "", true});
  }
  int open = jobs;
  int hung = -1;
  while (open > 0) {
    std::vector<pollfd> ps;
    std::vector<int> index;
    for (int w = 0; w < jobs; ++w) {
      if (ws[w].open) {
        ps.push_back({ws[w].fd, POLLIN, 0});
        index.push_back(w);
      }
    }
    poll(ps.data(), ps.size(), 500);
    for (std::size_t i = 0; i < ps.size(); ++i) {
      auto& w = ws[index[i]];
      if (ps[i].revents) {
        static char buffer[1 << 16];
        ssize_t const n = read(w.fd, buffer, sizeof buffer);
        if (n <= 0) {
          close(w.fd);
          w.open = false;
          --open;
        } else {
          w.data.append(buffer, n);
        }
      } else if (!g_shared->workers[index[i]].done &&
                 Now() - g_shared->workers[index[i]].heartbeat_ns >
                     h.options.hang_s * 1'000'000'000ll) {
        hung = index[i];
        g_shared->stop = true;
        kill(w.pid, SIGKILL);
      }
    }
  }
  int bad = -1;
  std::unordered_set<std::uint64_t> states;
  for (int w = 0; w < jobs; ++w) {
    int status;
    waitpid(ws[w].pid, &status, 0);
    auto& s = g_shared->workers[w];
    result.executions += s.executions;
    result.choices += s.choices;
    result.steps += s.steps;
    result.pruned += s.pruned;
    result.truncated |= s.truncated;
    result.max_depth = std::max(result.max_depth, s.max_depth_seen);
    if (s.violated || !s.done) {
      if (bad < 0 || w == hung) { bad = w; }
    }
    auto const& d = ws[w].data;
    if (d.size() >= 16) {
      std::int64_t n;
      memcpy(&n, d.data(), 8);
      if (result.samples.size() < 4000 && n > 0) {
        result.samples += (result.samples.empty() ? "" : ",") + d.substr(8, n);
      }
      std::int64_t m;
      memcpy(&m, d.data() + 8 + n, 8);
      for (std::int64_t i = 0; i < m && 16 + n + 8 * (i + 1) <= (std::int64_t)d.size(); ++i) {
        std::uint64_t x;
        memcpy(&x, d.data() + 16 + n + 8 * i, 8);
        states.insert(x);
      }
    }
  }
  result.states = states.size();
  if (bad >= 0) {
    auto& s = g_shared->workers[bad];
    result.path.assign(s.path, s.path + std::min<int>(s.depth, max_depth));
    int failures = 0;
    std::string message, trace;
    for (int i = 0; i < 2; ++i) {
      failures += ReplayChild(h, result.path, message, trace) == 1;
    }
    if (failures == 2) {
      result.violation = true;
      result.message = message;
      result.trace = trace;
    } else {
      result.error = true;
      result.message = std::string("a failure didn't reproduce: ") + s.message;
    }
  }
  result.wall_s = (Now() - start) * 1e-9;
  return result;
}

}  // namespace

int Choose(int const n) {
  auto& r = g_run;
  if (n <= 0) { Fail("internal error: Choose(0)"); }
  if (r.position == static_cast<int>(r.path.size())) {
    r.path.push_back(0);
  }
  int const c = r.path[r.position];
  if (c >= n) {
    if (r.fixed > 0) { Fail("internal error: replay diverged"); }
    fprintf(stderr, "harness is nondeterministic\n");
    _exit(4);
  }
  if (r.position < max_depth) {
    r.shared->path[r.position] = c;
    r.shared->depth = r.position + 1;
  }
  r.arity.push_back(n);
  ++r.position;
  if (r.split > 0 && r.position == r.split) {
    // Entering a prefix.  It's the same as the one of the last execution unless
    // the choices up to here have changed.
    static std::vector<int> last;
    bool const same =
        last.size() == static_cast<std::size_t>(r.split) &&
        std::equal(last.begin(), last.end(), r.path.begin());
    if (!same) {
      last.assign(r.path.begin(), r.path.begin() + r.split);
      ++r.ordinal;
      if (!Claim(r.ordinal)) {
        throw Skip();
      }
    }
    r.have_claim = true;
  }
  return c;
}

void Fail(std::string const& message) { throw Violation{message}; }
void Prune() { throw Pruned(); }
bool IsKnown(char const* const key) {
  auto const keys = KnownKeys();
  for (std::size_t i = 0; i < keys.size() && i < max_known; ++i) {
    if (keys[i] == key) {
      g_shared->known[i] = true;
      return true;
    }
  }
  return false;
}
void Step(std::int64_t const n) { g_run.steps += n; }
void State(std::uint64_t const hash) {
  if (g_states.size() < max_states) {
    g_states.insert(hash);
  }
}
void State(std::string_view const s) {
  std::uint64_t h = 0xcbf29ce484222325ull;
  for (unsigned char const c : s) {
    h ^= c;
    h *= 0x100000001b3ull;
  }
  State(h);
}
bool Noting() { return g_run.noting; }
void Note(std::string const& s) {
  if (g_run.noting) { g_run.notes.push_back(s); }
}
bool Thorough() { return g_thorough; }

Registrar::Registrar(char const* const name, void (*const body)(),
                     Options const options) {
  Harnesses().push_back({name, body, options});
}

int Main(int argc, char** argv) {
  int jobs = 8;
  double time_s = 0;
  std::string only, out, replay, replay_out = "replay.txt";
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const next = [&] { return std::string(argv[++i]); };
    if (a == "--harness") only = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--time") time_s = atof(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--list") {
      for (auto const& h : Harnesses()) { puts(h.name); }
      return 0;
    } else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  jobs = std::min(jobs, max_workers - 1);
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED) { perror("mmap"); return 2; }
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string key, name;
    std::vector<int> path;
    std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("harness ", 0) == 0) { name = line.substr(8); }
      else if (line.rfind("thorough", 0) == 0) { g_thorough = true; }
      else if (line.rfind("choices", 0) == 0) {
        std::istringstream s(line.substr(7));
        int c;
        while (s >> c) { path.push_back(c); }
      }
    }
    for (auto const& h : Harnesses()) {
      if (h.name == name) {
        std::string message, trace;
        int const r = ReplayChild(h, path, message, trace);
        printf("%s%s\n", trace.c_str(), r ? ("FAILS: " + message).c_str()
                                         : "passes");
        return r;
      }
    }
    fprintf(stderr, "no harness %s\n", name.c_str());
    return 2;
  }
  std::string json = "{\"harnesses\":[";
  bool first = true;
  bool violation = false, error = false;
  for (auto const& h : Harnesses()) {
    if (!only.empty() && only != h.name) { continue; }
    if (only.empty() && h.options.thorough_only && !g_thorough) { continue; }
    Result const r = RunHarness(h, jobs, time_s);
    violation |= r.violation;
    error |= r.error;
    std::string file;
    if (r.violation) {
      file = replay_out + "." + h.name;
      std::ofstream f(file);
      f << "harness " << h.name << "\n";
      if (g_thorough) { f << "thorough\n"; }
      f << "choices";
      for (int const c : r.path) { f << " " << c; }
      f << "\nmessage " << r.message << "\ntrace\n" << r.trace << "\n";
    }
    std::string known;
    auto const keys = KnownKeys();
    for (std::size_t i = 0; i < keys.size() && i < max_known; ++i) {
      if (g_shared->known[i]) {
        known += (known.empty() ? "\"" : ",\"") + Escape(keys[i]) + "\"";
      }
    }
    std::ostringstream o;
    o << (first ? "" : ",") << "\n{\"name\":\"" << h.name
      << "\",\"executions\":" << r.executions << ",\"choice_points\":"
      << r.choices << ",\"steps\":" << r.steps << ",\"states\":" << r.states
      << ",\"pruned\":" << r.pruned << ",\"max_depth\":" << r.max_depth
      << ",\"complete\":" << (r.truncated || r.violation || r.error ? "false" : "true")
      << ",\"wall_s\":" << r.wall_s
      << ",\"violation\":" << (r.violation ? "true" : "false")
      << ",\"error\":" << (r.error ? "true" : "false") << ",\"message\":\""
      << Escape(r.message) << "\",\"replay\":\"" << Escape(file)
      << "\",\"known\":[" << known << "],\"samples\":[" << r.samples << "]}";
    json += o.str();
    first = false;
    fprintf(stderr, "%-32s %10lld executions %10lld states %12lld steps %6.1f s%s%s%s\n",
            h.name, (long long)r.executions, (long long)r.states,
            (long long)r.steps, r.wall_s, r.truncated ? " TRUNCATED" : "",
            r.violation ? " VIOLATION " : r.error ? " ERROR " : "",
            r.message.c_str());
  }
  json += "\n]}\n";
  if (out.empty()) { fputs(json.c_str(), stdout); }
  else { std::ofstream(out) << json; }
  return violation ? 1 : error ? 2 : 0;
}

}  // namespace seq

int main(int argc, char** argv) { return seq::Main(argc, argv); }
