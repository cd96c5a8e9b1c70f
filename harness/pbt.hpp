// A small property-based testing engine.
//
// Every case is a finite sequence of bounded integer choices (a "tape").  A
// fresh case draws its choices from a PRNG which is a pure function of
// (VERIF_SEED, sub-check name, case index); a replayed case takes them from a
// recorded tape (0, the simplest choice, once the tape is exhausted).  A failing
// tape is shrunk by deleting / zeroing / lowering choices, re-running each
// candidate in a forked child, so that crashes, aborts and endless loops shrink
// just like failed predicates do.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace vp {

struct Violation : std::runtime_error {
  using std::runtime_error::runtime_error;
};
/// Thrown to give up on a case which lies outside of the property's domain.
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

constexpr size_t TAPE_MAX = 1 << 16;
/// Shared between a worker and its parent, so that a tape survives a crash.
struct Shared {
  volatile uint64_t case_index;
  volatile uint64_t ntape;
  volatile int status; // 0 running, 1 all done, 2 violation
  volatile int discarded;
  char msg[8192];
  uint32_t tape[TAPE_MAX];
};

/// Source of choices.
class Src {
public:
  explicit Src(uint64_t seed, Shared *sh) : replay_(false), rng_(seed), sh_(sh) {
    sh_->ntape = 0;
  }
  explicit Src(const std::vector<uint32_t> &t, Shared *sh)
      : replay_(true), in_(t), sh_(sh) {
    sh_->ntape = 0;
  }
  /// uniform in [0, n-1]; 0 is the simplest choice
  uint32_t below(uint32_t n) {
    uint32_t v = 0;
    if (n <= 1)
      return 0;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
      if (v >= n)
        v %= n;
    } else {
      v = (uint32_t)(splitmix(rng_) % n);
    }
    record(v);
    return v;
  }
  uint32_t word() {
    uint32_t v = 0;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
    } else {
      v = (uint32_t)(splitmix(rng_) >> 16);
    }
    record(v);
    return v;
  }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool flag() { return below(2) == 1; }
  /// true with probability k/n, false is simplest
  bool chance(uint32_t k, uint32_t n) { return below(n) >= n - k; }
  template <class C> auto &pick(C &c) { return c[below((uint32_t)c.size())]; }
  /// A "size" in [lo,hi], smaller more often.
  int size(int lo, int hi) {
    uint32_t k = below(4);
    int top = k == 3 ? hi : lo + (hi - lo + 1) / 2;
    return range(lo, top < lo ? lo : top);
  }
  /// in [lo,hi], and now and then anything up to big: a defect may need a
  /// size beyond those of ordinary cases
  int tail(int lo, int hi, int big) { return chance(1, 24) ? range(lo, big) : range(lo, hi); }
  double unit() { return (double)below(1u << 20) / (double)(1u << 20); }
  /// uniform real in [a,b]; the simplest value is a
  double real(double a, double b) { return a + (b - a) * unit(); }
  /// log-uniform real in [a,b], a > 0
  double logreal(double a, double b) {
    return a * std::exp(std::log(b / a) * unit());
  }
  /// General-purpose scalar: small integers and halves, uniform, small, large.
  double num() {
    uint32_t v = word();
    uint32_t k = v & 15u, r = v >> 4;
    double u = (double)(r & 0xFFFFFu) / (double)(1u << 20); // [0,1)
    switch (k) {
    case 0:
      return 0.;
    case 1:
    case 2: {
      static const double nice[] = {1., -1., 0.5, -0.5, 2., -2., 3., -3.};
      return nice[r % 8];
    }
    case 3:
      return (u - 0.5) * 2e-3;
    case 4:
      return (u - 0.5) * 40.;
    default:
      return (u - 0.5) * 4.;
    }
  }
  uint64_t hash() const {
    return fnv((const void *)sh_->tape, sizeof(uint32_t) * sh_->ntape);
  }
  size_t used() const { return sh_->ntape; }

private:
  void record(uint32_t v) {
    if (sh_->ntape >= TAPE_MAX)
      throw std::length_error("tape overflow (harness)");
    sh_->tape[sh_->ntape] = v;
    sh_->ntape = sh_->ntape + 1;
  }
  bool replay_;
  uint64_t rng_ = 0;
  std::vector<uint32_t> in_;
  size_t pos_ = 0;
  Shared *sh_;
};

struct Ctx {
  bool is_nontrivial = false;
  std::vector<std::string> labels;
  std::ostringstream dump;
  bool want_dump = false;
  int tier = 0; // 0 quick, 1 thorough
  void nontrivial() { is_nontrivial = true; }
  void label(const std::string &s) { labels.push_back(s); }
  template <class T> void note(const std::string &k, const T &v) {
    dump << k << " = " << v << "\n";
  }
  [[noreturn]] void fail(const std::string &m) { throw Violation(m); }
  void require(bool ok, const std::string &m) {
    if (!ok)
      throw Violation(m);
  }
  /// |a-b| <= tol, false on NaN
  void close(double a, double b, double tol, const std::string &m) {
    if (!(std::fabs(a - b) <= tol)) {
      std::ostringstream o;
      o.precision(17);
      o << m << ": " << a << " vs " << b << " (tolerance " << tol << ")";
      throw Violation(o.str());
    }
  }
};

#ifdef EIGEN_CORE_H
#endif

using CaseFn = std::function<void(Src &, Ctx &)>;
struct Sub {
  std::string prop; // property it belongs to
  std::string name;
  int quick;    // cases in the quick tier
  int thorough; // cases in the thorough tier
  CaseFn fn;
  std::string rule; // what makes a case non-trivial
  /// runs threads: a failing case need not fail every time. Such cases compare deterministic results, so one failure
  /// is enough.
  bool racy = false;
};
inline uint64_t case_seed(const Sub &sub, uint64_t seed, uint64_t c) {
  uint64_t s = fnv(sub.name.data(), sub.name.size()) ^ (seed * 0x9E3779B97F4A7C15ull);
  splitmix(s);
  s += c * 0xD1342543DE82EF95ull;
  splitmix(s);
  return s;
}

struct Stats {
  uint64_t evals = 0, discarded = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

inline double cpu_limit_s() {
  const char *e = getenv("VP_CASE_CPU");
  return e ? atof(e) : 60.;
}
inline void arm_timer(double s) {
  itimerval it{};
  it.it_value.tv_sec = (time_t)s;
  it.it_value.tv_usec = (suseconds_t)((s - (double)(time_t)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr); // CPU time, SIGPROF kills the worker
}

/// Runs one case, translating whatever escapes into a message ("" = passed).
inline std::string run_case(const Sub &sub, Src &src, Ctx &ctx, bool &discarded) {
  discarded = false;
  try {
    sub.fn(src, ctx);
  } catch (const Discard &) {
    discarded = true;
  } catch (const Violation &v) {
    return std::string(v.what());
  } catch (const std::length_error &e) {
    if (std::string(e.what()).find("tape overflow") != std::string::npos) {
      discarded = true;
      return "";
    }
    return std::string("escaped exception: ") + e.what();
  } catch (const std::exception &e) {
    return std::string("escaped exception: ") + e.what();
  } catch (...) {
    return "escaped exception of unknown type";
  }
  return "";
}

struct Outcome {
  bool failed = false;
  bool hang = false;
  bool orderly = false; // reported by the case itself, as opposed to a crash
  std::string msg;
  std::vector<uint32_t> tape;
  std::string dump;
};

inline void quiet_stdout() {
  fflush(stdout);
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) {
    if (!getenv("VP_VERBOSE"))
      dup2(n, 1);
    if (!getenv("VP_STDERR"))
      dup2(n, 2);
    close(n);
  }
}

inline std::string describe_signal(int st) {
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF)
      return "did not terminate within the CPU limit of one case";
    return std::string("crashed with signal ") + std::to_string(sg) + " (" +
           strsignal(sg) + ")";
  }
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

/// The cases which one worker runs one after another in its process.
struct WorkerRun {
  uint64_t seed = 0, stride = 1, from = 0, to = 0; // from, from + stride, ..., to
};

/// Runs one tape, or one history, in a forked child.
inline Outcome run_tape(const Sub &sub, const std::vector<uint32_t> &tape,
                        Shared *sh, int tier, double cpu, const WorkerRun *hist = nullptr) {
  Outcome out;
  sh->status = 0;
  sh->msg[0] = 0;
  sh->ntape = 0;
  sh->discarded = 0;
  fflush(nullptr);
  int pfd[2];
  if (pipe(pfd) != 0) {
    perror("pipe");
    exit(2);
  }
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    ::close(pfd[0]);
    quiet_stdout();
    bool disc = false;
    std::string m;
    Ctx ctx;
    if (hist) {
      for (uint64_t c = hist->from; c < hist->to && m.empty(); c += hist->stride) {
        arm_timer(cpu);
        Src src(case_seed(sub, hist->seed, c), sh);
        Ctx cx;
        cx.tier = tier;
        m = run_case(sub, src, cx, disc);
      }
    }
    arm_timer(cpu);
    if (m.empty()) {
      Src src = hist ? Src(case_seed(sub, hist->seed, hist->to), sh) : Src(tape, sh);
      ctx.tier = tier;
      ctx.want_dump = true;
      m = run_case(sub, src, ctx, disc);
    }
    sh->discarded = disc;
    strncpy((char *)sh->msg, m.c_str(), sizeof(sh->msg) - 1);
    std::string d = ctx.dump.str();
    if (d.size() > 20000)
      d.resize(20000);
    size_t off = 0;
    while (off < d.size()) {
      ssize_t w = write(pfd[1], d.data() + off, d.size() - off);
      if (w <= 0)
        break;
      off += (size_t)w;
    }
    sh->status = m.empty() ? 1 : 2;
    _exit(0);
  }
  ::close(pfd[1]);
  char buf[4096];
  ssize_t r;
  while ((r = read(pfd[0], buf, sizeof buf)) > 0)
    out.dump.append(buf, (size_t)r);
  ::close(pfd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  out.tape.assign(sh->tape, sh->tape + sh->ntape);
  if (sh->status == 1)
    return out;
  out.failed = true;
  if (sh->status == 2)
    out.msg = (const char *)sh->msg;
  else {
    out.msg = describe_signal(st);
    out.hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
  }
  return out;
}

/// "The same failure": a message up to its first ':' (numbers vary).
inline std::string fkey(const std::string &m) {
  size_t p = m.find(':');
  return p == std::string::npos ? m : m.substr(0, p);
}

inline Outcome shrink(const Sub &sub, Outcome best, Shared *sh, int tier,
                      int budget, double cpu) {
  auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() != b.size())
      return a.size() < b.size();
    return a < b;
  };
  time_t t0 = time(nullptr);
  auto attempt = [&](const std::vector<uint32_t> &t) {
    if (budget-- <= 0 || time(nullptr) - t0 > 60)
      return false;
    Outcome o = run_tape(sub, t, sh, tier, cpu);
    if (o.failed && !o.hang && better(o.tape, best.tape)) {
      best = o;
      return true;
    }
    return false;
  };
  if (best.hang)
    return best;
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t chunk = best.tape.size() / 2; chunk >= 1 && budget > 0; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.tape.size() && budget > 0;) {
        auto t = best.tape;
        t.erase(t.begin() + (long)i, t.begin() + (long)(i + chunk));
        if (attempt(t)) {
          progress = true;
          continue;
        }
        t = best.tape;
        bool any = false;
        for (size_t k = i; k < i + chunk; k++) {
          any |= t[k] != 0;
          t[k] = 0;
        }
        if (any && attempt(t))
          progress = true;
        i += chunk;
      }
    }
    for (size_t i = 0; i < best.tape.size() && budget > 0; i++) {
      uint32_t lo = 0;
      for (int k = 0; k < 12 && i < best.tape.size() && best.tape[i] > lo; k++) {
        auto t = best.tape;
        t[i] = lo + (best.tape[i] - lo) / 2;
        if (t[i] == best.tape[i])
          break;
        if (attempt(t))
          progress = true;
        else
          lo = t[i] + 1;
      }
    }
  }
  return best;
}

inline std::vector<uint32_t> read_tape(const std::string &f, std::string &sub, std::string &prop) {
  std::ifstream in(f);
  std::string line;
  std::vector<uint32_t> t;
  while (std::getline(in, line)) {
    if (line.rfind("sub ", 0) == 0)
      sub = line.substr(4);
    else if (line.rfind("property ", 0) == 0)
      prop = line.substr(9);
    else if (line.rfind("tape", 0) == 0) {
      std::istringstream is(line.substr(4));
      uint32_t v;
      while (is >> v)
        t.push_back(v);
    }
  }
  return t;
}

inline int engine_main(int argc, char **argv, const std::vector<Sub> &subs) {
  uint64_t seed = 1;
  int tier = 0, jobs = 8;
  double scale = 1.;
  std::string out = "", rdir = ".", replay = "", only = "", prop = "X";
  std::vector<std::string> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier")
      tier = next() == "thorough";
    else if (a == "--jobs")
      jobs = atoi(next().c_str());
    else if (a == "--scale")
      scale = atof(next().c_str());
    else if (a == "--out")
      out = next();
    else if (a == "--replay-dir")
      rdir = next();
    else if (a == "--replay")
      replay = next();
    else if (a == "--only")
      only = next();
    else if (a == "--property")
      prop = next();
    else if (a == "--known")
      known.push_back(next());
  }
  auto mk = []() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return (Shared *)p;
  };
  const double cpu = cpu_limit_s();

  if (!replay.empty()) {
    std::string sn, pn;
    auto t = read_tape(replay, sn, pn);
    WorkerRun hist;
    bool has_hist = false;
    {
      std::ifstream f(replay);
      std::string line, key;
      while (std::getline(f, line) && line.rfind("---", 0) != 0) {
        std::istringstream ls(line);
        ls >> key;
        if (key == "history")
          has_hist = (bool)(ls >> hist.seed >> hist.stride >> hist.from >> hist.to);
      }
    }
    for (auto &s : subs)
      if (s.name == sn && (pn.empty() || s.prop == pn)) {
        Shared *sh = mk();
        Outcome o = run_tape(s, t, sh, tier, cpu, has_hist ? &hist : nullptr);
        for (int k = 0; k < 500 && s.racy && !o.failed; k++)
          o = run_tape(s, t, sh, tier, cpu);
        printf("%s", o.dump.c_str());
        printf("replay %s: %s\n", sn.c_str(),
               o.failed ? o.msg.c_str() : "passed");
        return o.failed ? 1 : 0;
      }
    fprintf(stderr, "no sub-check named %s\n", sn.c_str());
    return 2;
  }

  int nviol = 0;
  std::ostringstream js;
  js << "{\"subs\":[";
  bool firstsub = true;
  for (auto &sub : subs) {
    if (sub.prop != prop || (!only.empty() && sub.name != only))
      continue;
    const int N = std::max(1, (int)((tier ? sub.thorough : sub.quick) * scale));
    timespec w0;
    clock_gettime(CLOCK_MONOTONIC, &w0);
    std::vector<Shared *> shs;
    std::vector<pid_t> pids;
    std::vector<int> fds;
    fflush(nullptr);
    for (int w = 0; w < jobs; w++) {
      Shared *sh = mk();
      shs.push_back(sh);
      int pfd[2];
      if (pipe(pfd) != 0)
        return 2;
      pid_t pid = fork();
      if (pid < 0) {
        perror("fork");
        return 2;
      }
      if (pid == 0) {
        ::close(pfd[0]);
        for (int f : fds)
          ::close(f);
        quiet_stdout();
        Stats st;
        for (int c = w; c < N; c += jobs) {
          sh->case_index = (uint64_t)c;
          sh->status = 0;
          arm_timer(cpu);
          Src src(case_seed(sub, seed, (uint64_t)c), sh);
          Ctx ctx;
          ctx.tier = tier;
          ctx.want_dump = st.samples.size() < 2;
          bool disc = false;
          std::string m = run_case(sub, src, ctx, disc);
          st.evals++;
          if (disc)
            st.discarded++;
          for (auto &l : ctx.labels)
            st.labels[l]++;
          if (!m.empty()) {
            strncpy((char *)sh->msg, m.c_str(), sizeof(sh->msg) - 1);
            sh->status = 2;
            break;
          }
          if (!disc && ctx.is_nontrivial) {
            st.distinct.insert(src.hash());
            if (st.samples.size() < 2 && w < 2) {
              std::string d = ctx.dump.str();
              if (d.size() > 1500)
                d = d.substr(0, 1500) + "...";
              if (!d.empty())
                st.samples.push_back(d);
            }
          }
        }
        arm_timer(0);
        if (sh->status == 0)
          sh->status = 1;
        std::ostringstream o;
        o << "E " << st.evals << " " << st.discarded << "\n";
        for (auto &l : st.labels)
          o << "L " << l.second << " " << l.first << "\n";
        for (auto h : st.distinct)
          o << "H " << h << "\n";
        for (auto &s : st.samples)
          o << "S " << jesc(s) << "\n";
        std::string d = o.str();
        size_t off = 0;
        while (off < d.size()) {
          ssize_t k = write(pfd[1], d.data() + off, d.size() - off);
          if (k <= 0)
            break;
          off += (size_t)k;
        }
        _exit(0);
      }
      ::close(pfd[1]);
      fds.push_back(pfd[0]);
      pids.push_back(pid);
    }
    Stats tot;
    int bad = -1;
    Outcome fo;
    for (int w = 0; w < jobs; w++) {
      std::string data;
      char buf[65536];
      ssize_t r;
      while ((r = read(fds[(size_t)w], buf, sizeof buf)) > 0)
        data.append(buf, (size_t)r);
      ::close(fds[(size_t)w]);
      int st = 0;
      while (waitpid(pids[(size_t)w], &st, 0) < 0) {
      }
      std::istringstream is(data);
      std::string line;
      while (std::getline(is, line)) {
        std::istringstream ls(line);
        char k;
        ls >> k;
        if (k == 'E') {
          uint64_t a = 0, b = 0;
          ls >> a >> b;
          tot.evals += a;
          tot.discarded += b;
        } else if (k == 'L') {
          uint64_t n;
          ls >> n;
          std::string rest;
          std::getline(ls, rest);
          tot.labels[rest.substr(rest.empty() ? 0 : 1)] += n;
        } else if (k == 'H') {
          uint64_t h;
          ls >> h;
          tot.distinct.insert(h);
        } else if (k == 'S') {
          if (tot.samples.size() < 2)
            tot.samples.push_back(line.substr(2));
        }
      }
      Shared *sh = shs[(size_t)w];
      if (sh->status != 1) {
        if (sh->status == 0)
          tot.evals += 1; // crashed worker: its own statistics are lost
        if (bad < 0 || sh->case_index < shs[(size_t)bad]->case_index) {
          bad = w;
          fo = Outcome{};
          fo.failed = true;
          fo.tape.assign(sh->tape, sh->tape + sh->ntape);
          fo.msg = sh->status == 2 ? std::string((const char *)sh->msg)
                                   : describe_signal(st);
          fo.orderly = sh->status == 2;
          fo.hang = sh->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        }
      }
    }
    bool viol = false, flaky = false;
    std::string rp;
    if (bad >= 0) {
      Shared *sh = shs[(size_t)bad];
      uint64_t ci = sh->case_index;
      int ok = 0;
      Outcome o;
      const int nrep = fo.hang ? 1 : 3;
      for (int k = 0; k < nrep; k++) {
        Outcome oo = run_tape(sub, fo.tape, sh, tier, cpu);
        if (oo.failed) {
          ok++;
          o = oo;
        }
      }
      if (ok == nrep) {
        Outcome s = shrink(sub, o, sh, tier, 1500, std::min(cpu, 20.));
        // the minimal tape has to fail three times in a row as well
        bool sok = true;
        if (!s.hang)
          for (int k = 0; k < 3 && sok; k++)
            sok = run_tape(sub, s.tape, sh, tier, cpu).failed;
        if (!sok)
          s = o;
        viol = true;
        rp = rdir + "/" + prop + "-" + sub.name + "-seed" + std::to_string(seed) +
             ".tape";
        std::ofstream f(rp);
        f << "property " << prop << "\nsub " << sub.name << "\nmessage "
          << jesc(s.msg) << "\noriginal_case " << ci << " (tape of "
          << fo.tape.size() << " choices: " << jesc(fo.msg) << ")\ntape";
        for (auto v : s.tape)
          f << " " << v;
        f << "\n--- decoded ---\n" << s.dump;
        f.close();
        nviol++;
        fprintf(stderr, "[%s/%s] %s\n   %s\n", prop.c_str(), sub.name.c_str(),
                s.msg.c_str(), rp.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
        fflush(stdout);
      } else {
        // Something which earlier cases left behind in the process (a cache, memory) or a race.
        Outcome h;
        WorkerRun hi;
        bool found = false;
        if (sub.racy) {
          h = fo;
          for (int k = 0; k < 200 && !found; k++) {
            Outcome oo = run_tape(sub, fo.tape, sh, tier, cpu);
            if ((found = oo.failed))
              h = oo;
          }
          h.tape = fo.tape;
          found = found || fo.orderly;
        } else if (!fo.hang) {
          auto fails = [&](uint64_t from, int times) {
            WorkerRun q;
            q.seed = seed, q.stride = (uint64_t)jobs, q.from = from, q.to = ci;
            for (int k = 0; k < times; k++) {
              Outcome oo = run_tape(sub, {}, sh, tier, cpu, &q);
              if (!oo.failed)
                return false;
              h = oo;
            }
            hi = q;
            return true;
          };
          const uint64_t n = ci / (uint64_t)jobs, w = ci % (uint64_t)jobs;
          for (uint64_t k = 1; k < n && !found; k *= 4)
            found = fails(w + (n - k) * (uint64_t)jobs, 3);
          found = found || fails(w, 2);
        }
        if (found) {
          viol = true;
          rp = rdir + "/" + prop + "-" + sub.name + "-seed" + std::to_string(seed) + ".tape";
          std::ofstream f(rp);
          f << "property " << prop << "\nsub " << sub.name << "\nmessage " << jesc(h.msg) << "\n";
          if (sub.racy) {
            f << "tape";
            for (auto v : h.tape)
              f << " " << v;
          } else
            f << "history " << hi.seed << " " << hi.stride << " " << hi.from << " " << hi.to << "\ntape";
          f << "\n--- decoded ---\n" << h.dump;
          f.close();
          nviol++;
          fprintf(stderr, "[%s/%s] %s (%s)\n   %s\n", prop.c_str(), sub.name.c_str(), h.msg.c_str(),
                  sub.racy ? "does not fail every time" : "needs the cases before it", rp.c_str());
          printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
          fflush(stdout);
        } else {
          flaky = true;
          fprintf(stderr, "[%s/%s] not reproducible: %s\n", prop.c_str(),
                  sub.name.c_str(), fo.msg.c_str());
        }
      }
    }
    timespec w1;
    clock_gettime(CLOCK_MONOTONIC, &w1);
    double wall = (double)(w1.tv_sec - w0.tv_sec) + 1e-9 * (double)(w1.tv_nsec - w0.tv_nsec);
    for (auto s : shs)
      munmap(s, sizeof(Shared));
    js << (firstsub ? "" : ",") << "{\"name\":\"" << sub.name << "\",\"evaluations\":"
       << tot.evals << ",\"discarded\":" << tot.discarded
       << ",\"distinct_nontrivial\":" << tot.distinct.size() << ",\"rule\":\""
       << jesc(sub.rule) << "\",\"violation\":" << (viol ? "true" : "false")
       << ",\"flaky\":" << (flaky ? "true" : "false") << ",\"wall_s\":" << wall
       << ",\"labels\":{";
    firstsub = false;
    bool fl = true;
    for (auto &l : tot.labels) {
      js << (fl ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
      fl = false;
    }
    js << "},\"samples\":[";
    for (size_t i = 0; i < tot.samples.size(); i++)
      js << (i ? "," : "") << "\"" << tot.samples[i] << "\"";
    js << "]}";
    fprintf(stderr, "[%s/%s] %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s%s\n",
            prop.c_str(), sub.name.c_str(), (unsigned long long)tot.evals,
            tot.distinct.size(), (unsigned long long)tot.discarded, wall,
            viol ? "  ** VIOLATION" : "");
  }
  js << "]}";
  if (!out.empty()) {
    std::ofstream f(out);
    f << js.str() << "\n";
  }
  return nviol ? 1 : 0;
}

} // namespace vp
