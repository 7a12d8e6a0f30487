#include "pbt.h"

#include <cerrno>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

#if defined(PBT_ASAN)
extern "C" const char* __asan_default_options() { return pbt_asan_opts_(); }
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:symbolize=0:exitcode=99";
}
#endif

namespace pbt {

namespace {

std::string g_scratch;

std::uint64_t hash_str(std::string const& s, std::uint64_t h = 1469598103934665603ULL) {
  for (auto const ch : s) {
    h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ULL;
  }
  return h;
}

std::string json_escape(std::string const& s) {
  std::string o;
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o;
}

void on_hang(int) { _exit(kExitHang); }

void arm_cpu_limit(int seconds) {
  struct itimerval it {};
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

#if defined(PBT_ASAN)
void on_malloc(const volatile void*, size_t) {
  live_allocs().fetch_add(1, std::memory_order_relaxed);
}
void on_free(const volatile void* p) {
  if (p != nullptr) {
    live_allocs().fetch_sub(1, std::memory_order_relaxed);
  }
}
#endif

void call_body(target const& t, Ctx& c) {
  cur() = &c;
  try {
    t.fn(c);
  } catch (std::exception const& e) {
    PBT_FAIL("unexpected exception: %s", e.what());
  } catch (...) {
    PBT_FAIL("unexpected exception of unknown type");
  }
}

// Runs one case in this process; on a failure the process exits.
void run_case(target const& t, Ctx& c) {
  arm_cpu_limit(kCpuSeconds);
  c.slot_->n_choices = 0;
  c.slot_->msg[0] = 0;
  c.slot_->log_len = 0;
  c.slot_->log[0] = 0;
  auto const before = live_allocs().load();
  call_body(t, c);
  auto const diff = live_allocs().load() - before;
#if defined(PBT_ASAN)
  if (diff != 0 && t.leak_check && c.leak_check_) {
    // one-time allocations of the runtime: a leak repeats, they do not
    static std::uint64_t* copy = new std::uint64_t[kMaxChoices];
    auto const n = c.slot_->n_choices;
    std::memcpy(copy, c.slot_->choices, n * sizeof(std::uint64_t));
    std::int64_t d = 0;
    for (auto k = 0; k != 2; ++k) {
      Ctx* c2 = new Ctx{};
      c2->slot_ = c.slot_;
      c2->replay_ = true;
      c2->in_ = copy;
      c2->n_replay_ = n;
      auto const b = live_allocs().load();
      call_body(t, *c2);
      d = live_allocs().load() - b;
      delete c2;
      if (d == 0) {
        break;
      }
    }
    cur() = &c;
    if (d != 0) {
      PBT_FAIL("allocation balance: %" PRId64
               " allocation(s) not released at the end of the case",
               d);
    }
  }
#else
  (void)diff;
#endif
}

struct failure {
  std::string target_;
  std::string msg_;
  std::vector<std::uint64_t> choices_;
};

std::string read_all(std::string const& p) {
  std::ifstream in{p, std::ios::binary};
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

std::string crash_summary(int status, shm_slot const& s, std::string const& errfile) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == kExitFail) {
    return s.msg;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == kExitHang) {
    return "no termination: one case used more than " +
           std::to_string(kCpuSeconds) + " s of CPU time";
  }
  std::string out = WIFSIGNALED(status)
                        ? "killed by signal " + std::to_string(WTERMSIG(status))
                        : "exited with " + std::to_string(WEXITSTATUS(status));
  auto const err = read_all(errfile);
  for (auto const* key : {"runtime error:", "ERROR: AddressSanitizer",
                          "Assertion", "terminate called", "what():", "WARNING: ThreadSanitizer", "VERIFY"}) {
    auto const p = err.find(key);
    if (p != std::string::npos) {
      auto b = err.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      auto e = err.find('\n', p);
      out += " | " + err.substr(b, std::min<std::size_t>(e - b, 400));
    }
  }
  return out;
}

enum class outcome { ok, fail, killed };

struct child {
  pid_t pid{-1};
  shm_slot* slot{nullptr};
  std::string err;
};

shm_slot* new_slot() {
  auto* p = mmap(nullptr, sizeof(shm_slot), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<shm_slot*>(p);
}

void child_setup(std::string const& err, std::string const& dir) {
  auto const fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 2);
  dup2(fd, 1);
  close(fd);
  mkdir(dir.c_str(), 0700);
  g_scratch = dir;
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_hang);
  setpgid(0, 0);
#if defined(PBT_ASAN)
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
}

child spawn_replay(target const& t, std::vector<std::uint64_t> const& choices,
                   shm_slot* slot, std::string const& base, int n, bool log) {
  child ch;
  ch.slot = slot;
  ch.err = base + "/r" + std::to_string(n) + ".err";
  auto const dir = base + "/r" + std::to_string(n);
  ch.pid = fork();
  if (ch.pid == 0) {
    child_setup(ch.err, dir);
    Ctx c;
    c.slot_ = slot;
    c.replay_ = true;
    c.in_ = choices.data();
    c.n_replay_ = choices.size();
    c.logging_ = log;
    run_case(t, c);
    _exit(0);
  }
  return ch;
}

bool is_failure(int status) {
  if (WIFEXITED(status)) {
    return WEXITSTATUS(status) != 0;
  }
  // SIGKILL comes from outside (memory guard), never from the code under test
  return WTERMSIG(status) != SIGKILL && WTERMSIG(status) != SIGTERM;
}

bool same_kind(std::string const& a, std::string const& b) {
  // keep the shrinker on the same failure: compare the source position prefix
  auto const ka = a.substr(0, a.find(": "));
  auto const kb = b.substr(0, b.find(": "));
  return ka == kb || a.find(':') == std::string::npos;
}

struct runner {
  std::string base_;
  std::vector<shm_slot*> slots_;
  unsigned n_workers_;

  // outcome of replaying the given choices once
  bool replay_once(target const& t, std::vector<std::uint64_t> const& c,
                   std::string& msg, std::vector<std::uint64_t>& consumed,
                   std::string* log = nullptr) {
    auto ch = spawn_replay(t, c, slots_[0], base_, 0, log != nullptr);
    int st = 0;
    while (waitpid(ch.pid, &st, 0) < 0 && errno == EINTR) {
    }
    auto const f = is_failure(st);
    if (f) {
      msg = crash_summary(st, *slots_[0], ch.err);
    }
    consumed.assign(slots_[0]->choices,
                    slots_[0]->choices + slots_[0]->n_choices);
    if (log != nullptr) {
      *log = std::string(slots_[0]->log, slots_[0]->log_len);
    }
    return f;
  }

  // first candidate (in order) that still fails
  int first_failing(target const& t,
                    std::vector<std::vector<std::uint64_t>> const& cands,
                    std::string const& kind, std::vector<std::uint64_t>& out,
                    std::string& msg_out) {
    std::vector<child> cs;
    for (std::size_t i = 0; i != cands.size(); ++i) {
      cs.push_back(spawn_replay(t, cands[i], slots_[i], base_,
                                static_cast<int>(i), false));
    }
    int res = -1;
    for (std::size_t i = 0; i != cs.size(); ++i) {
      int st = 0;
      while (waitpid(cs[i].pid, &st, 0) < 0 && errno == EINTR) {
      }
      if (res == -1 && is_failure(st)) {
        auto const m = crash_summary(st, *slots_[i], cs[i].err);
        if (same_kind(m, kind)) {
          res = static_cast<int>(i);
          auto const n =
              std::min<std::size_t>(slots_[i]->n_choices, cands[i].size());
          out.assign(cands[i].begin(),
                     cands[i].begin() + static_cast<std::ptrdiff_t>(n));
          msg_out = m;
        }
      }
    }
    return res;
  }

  void shrink(target const& t, failure& f, unsigned budget) {
    unsigned tries = 0;
    bool const hang = f.msg_.rfind("no termination", 0) == 0;
    if (hang) {
      budget = 16;
    }
    auto batch_try = [&](std::vector<std::vector<std::uint64_t>>& cands) {
      bool any = false;
      for (std::size_t i = 0; i < cands.size() && tries < budget;
           i += n_workers_) {
        std::vector<std::vector<std::uint64_t>> b(
            cands.begin() + static_cast<std::ptrdiff_t>(i),
            cands.begin() + static_cast<std::ptrdiff_t>(
                                std::min(cands.size(), i + n_workers_)));
        tries += static_cast<unsigned>(b.size());
        std::vector<std::uint64_t> out;
        std::string m;
        if (first_failing(t, b, f.msg_, out, m) != -1) {
          f.choices_ = out;
          f.msg_ = m;
          any = true;
          break;
        }
      }
      return any;
    };
    bool progress = true;
    while (progress && tries < budget) {
      progress = false;
      // delete chunks
      for (std::size_t k = std::max<std::size_t>(1, f.choices_.size() / 2);
           k >= 1 && tries < budget; k /= 2) {
        std::size_t pos = 0;
        while (pos < f.choices_.size() && tries < budget) {
          std::vector<std::vector<std::uint64_t>> cands;
          std::vector<std::size_t> at;
          for (unsigned j = 0; j != n_workers_; ++j) {
            auto const p = pos + j * k;
            if (p >= f.choices_.size()) {
              break;
            }
            auto v = f.choices_;
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(p),
                    v.begin() + static_cast<std::ptrdiff_t>(
                                    std::min(v.size(), p + k)));
            cands.push_back(std::move(v));
          }
          auto const n = cands.size();
          if (batch_try(cands)) {
            progress = true;
          } else {
            pos += n * k;
          }
        }
        if (k == 1) {
          break;
        }
      }
      // lower values
      for (std::size_t i = 0; i < f.choices_.size() && tries < budget; ++i) {
        if (f.choices_[i] == 0) {
          continue;
        }
        auto const v0 = f.choices_[i];
        std::vector<std::vector<std::uint64_t>> cands;
        std::set<std::uint64_t> vals{0,      1,      v0 / 16, v0 / 4,
                                     v0 / 2, v0 - 1, v0 - v0 / 4};
        for (auto const v : vals) {
          if (v < v0) {
            auto cand = f.choices_;
            cand[i] = v;
            cands.push_back(std::move(cand));
          }
        }
        if (batch_try(cands)) {
          progress = true;
          if (i < f.choices_.size() && f.choices_[i] != 0 &&
              f.choices_[i] < v0) {
            --i;
          }
        }
      }
    }
  }
};

}  // namespace

std::string const& scratch_dir() { return g_scratch; }

int run_main(int argc, char** argv) {
  std::string tier = "quick", out, replay, only, replay_dir = ".";
  std::uint64_t seed = 1;
  double scale = 1.0;
  unsigned workers = 8;
  unsigned deadline = 600;
  for (auto i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const next = [&] { return std::string(argv[++i]); };
    if (a == "--tier") tier = next();
    else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--only") only = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--scale") scale = std::atof(next().c_str());
    else if (a == "--workers") workers = static_cast<unsigned>(std::stoul(next()));
    else if (a == "--deadline") deadline = static_cast<unsigned>(std::stoul(next()));
    else if (a == "--list") {
      for (auto const& t : targets()) printf("%s\n", t.name);
      return 0;
    }
  }
  auto const start = time(nullptr);

  char tmpl[] = "/tmp/pbt.XXXXXX";
  auto const* tmp = mkdtemp(tmpl);
  if (tmp == nullptr) {
    perror("mkdtemp");
    return 3;
  }
  std::string const base = tmp;
  auto const cleanup = [&] {
    auto const cmd = "rm -rf -- '" + base + "'";
    if (system(cmd.c_str()) != 0) {
    }
  };

  runner rn;
  rn.base_ = base;
  rn.n_workers_ = workers;
  for (unsigned i = 0; i != workers; ++i) {
    rn.slots_.push_back(new_slot());
  }

  if (!replay.empty()) {
    std::ifstream in{replay};
    std::string line, tname;
    std::vector<std::uint64_t> choices;
    while (std::getline(in, line)) {
      if (line.rfind("target ", 0) == 0) tname = line.substr(7);
      if (line.rfind("choices ", 0) == 0) {
        std::stringstream ss{line.substr(8)};
        std::uint64_t v;
        while (ss >> v) choices.push_back(v);
      }
    }
    for (auto const& t : targets()) {
      if (tname == t.name) {
        std::string msg, log;
        std::vector<std::uint64_t> consumed;
        auto f = false;
        for (auto k = std::getenv("PBT_SCHED") != nullptr ? 300 : 1; k != 0 && !f; --k) {
          f = rn.replay_once(t, choices, msg, consumed, &log);
        }
        printf("target %s\ncase: %s\n%s\n", t.name, log.c_str(),
               f ? ("FAILS: " + msg).c_str() : "passes");
        cleanup();
        return f ? 1 : 0;
      }
    }
    fprintf(stderr, "unknown target in replay file\n");
    cleanup();
    return 3;
  }

  std::vector<failure> failures;
  std::stringstream js;
  js << "{\"targets\":[";
  bool first_target = true;
  bool truncated = false;

  for (auto const& t : targets()) {
    if (!only.empty() && std::string{t.name}.find(only) == std::string::npos) {
      continue;
    }
    if (std::strncmp(t.name, "known_", 6) == 0) {
      continue;  // probe of a known finding: only run through its replay file
    }
    auto const total = static_cast<std::uint64_t>(std::max(
        1.0, static_cast<double>(tier == "thorough" ? t.thorough : t.quick) *
                 scale));
    auto const tseed = hash_str(t.name, 1469598103934665603ULL ^ (seed * 0x9E3779B97F4A7C15ULL));

    std::uint64_t evaluations = 0;
    std::map<std::string, std::uint64_t> labels;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    unsigned flaky = 0;

    // resume index per worker: a worker that died on an unreproducible failure
    // is restarted behind the case it died on
    std::vector<std::uint64_t> resume(workers);
    for (unsigned w = 0; w != workers; ++w) resume[w] = w;
    bool failed = false;
    std::vector<bool> finished(workers, false);

    while (!failed) {
      std::vector<child> cs(workers);
      for (unsigned w = 0; w != workers; ++w) {
        if (finished[w]) continue;
        auto& ch = cs[w];
        ch.slot = rn.slots_[w];
        ch.slot->done = 0;
        ch.slot->case_idx = resume[w];
        ch.err = base + "/w" + std::to_string(w) + ".err";
        auto const res_file = base + "/w" + std::to_string(w) + ".res";
        auto const dir = base + "/w" + std::to_string(w);
        fflush(stdout);
        ch.pid = fork();
        if (ch.pid == 0) {
          child_setup(ch.err, dir);
          std::map<std::string, std::uint64_t> lab;
          std::unordered_set<std::uint64_t> dist;
          std::uint64_t ev = 0;
          std::vector<std::string> smp;
          auto const dump = [&] {
            std::ofstream o{res_file, std::ios::app};
            o << "E " << ev << "\n";
            for (auto const& [k, v] : lab) o << "L " << v << " " << k << "\n";
            for (auto const h : dist) o << "D " << h << "\n";
            for (auto const& s : smp) o << "S " << s << "\n";
            lab.clear();
            dist.clear();
            smp.clear();
            ev = 0;
          };
          unsigned n_samples = 0;
          std::uint64_t since = 0;
          static Ctx c;  // large
          for (auto i = resume[w]; i < total; i += workers) {
            ch.slot->case_idx = i;
            c = Ctx{};
            c.slot_ = ch.slot;
            rng r0{tseed ^ (i * 0xD1B54A32D192ED03ULL)};
            r0.next();
            c.r_ = rng{r0.next()};
            c.logging_ = n_samples < 2 && i >= workers;
            run_case(t, c);
            arm_cpu_limit(0);
            ++ev;
            for (std::size_t k = 0; k != c.n_labels_; ++k) {
              ++lab[c.labels_[k]];
            }
            if (c.nontrivial_) {
              std::uint64_t h = 1469598103934665603ULL;
              for (std::size_t k = 0; k != ch.slot->n_choices; ++k) {
                h = (h ^ ch.slot->choices[k]) * 0x100000001b3ULL;
                h ^= h >> 29U;
              }
              dist.insert(h);
              if (c.logging_ && c.slot_->log_len > 2) {
                std::string s(c.slot_->log, std::min<std::size_t>(c.slot_->log_len, 1200));
                std::replace(s.begin(), s.end(), '\n', ' ');
                smp.push_back(s);
                ++n_samples;
              }
            }
            if (++since == 4096) {
              dump();
              since = 0;
              if (time(nullptr) - start > static_cast<long>(deadline)) {
                break;
              }
            }
          }
          dump();
          ch.slot->done = 1;
          _exit(0);
        }
      }
      // wait
      int dead = -1;
      int dead_status = 0;
      unsigned running = 0;
      for (auto const& ch : cs) running += ch.pid > 0 ? 1U : 0U;
      while (running != 0) {
        int st = 0;
        auto const p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
          for (unsigned w = 0; w != workers; ++w) {
            if (cs[w].pid == p) {
              --running;
              cs[w].pid = -1;
              if (WIFEXITED(st) && WEXITSTATUS(st) == 0 &&
                  cs[w].slot->done == 1) {
                finished[w] = true;
              } else if (is_failure(st) && dead == -1) {
                dead = static_cast<int>(w);
                dead_status = st;
                // first failure: stop the others; they resume if it was noise
                for (auto& o : cs) {
                  if (o.pid > 0) kill(o.pid, SIGKILL);
                }
              } else {
                // killed from outside, or after another worker's failure:
                // resume at the interrupted case
              }
              resume[w] = cs[w].slot->case_idx;
            }
          }
        } else {
          usleep(2000);
          if (time(nullptr) - start > static_cast<long>(deadline) + 30) {
            truncated = true;
            for (unsigned w = 0; w != workers; ++w) {
              if (cs[w].pid > 0) {
                kill(cs[w].pid, SIGKILL);
                finished[w] = true;
              }
            }
          }
        }
      }
      if (dead != -1) {
        auto* s = rn.slots_[static_cast<unsigned>(dead)];
        failure f;
        f.target_ = t.name;
        f.msg_ = crash_summary(dead_status, *s,
                               base + "/w" + std::to_string(dead) + ".err");
        f.choices_.assign(s->choices,
                          s->choices + std::min<std::size_t>(s->n_choices, kMaxChoices));
        auto const case_idx = s->case_idx;
        // an exact replay must fail as well, or the failure is not attributed
        unsigned again = 0, tries = 0;
        for (; tries != 20 && again < 3; ++tries) {
          std::string m;
          std::vector<std::uint64_t> cons;
          if (rn.replay_once(t, f.choices_, m, cons)) {
            ++again;
            if (tries == 0) f.msg_ = m;
            if (m.rfind("no termination", 0) == 0 && again == 2) break;
          }
          if (tries == 4 && again == 0) break;
        }
        // Schedules are not replayed: what the oracle or a sanitizer rejected
        // once did happen.
        auto const by_schedule = std::getenv("PBT_SCHED") != nullptr && again < 2 &&
                                 WIFEXITED(dead_status) &&
                                 (WEXITSTATUS(dead_status) == kExitFail || WEXITSTATUS(dead_status) == 99);
        if (again >= 2 || by_schedule) {
          failed = true;
          auto const orig = f;
          if (!by_schedule) {
            rn.shrink(t, f, 1500);
          }
          // final confirmation of the shrunk case
          std::string m, log;
          std::vector<std::uint64_t> cons;
          bool ok = true;
          for (auto k = 0; k != 3 && ok && !by_schedule; ++k) {
            ok = rn.replay_once(t, f.choices_, m, cons, &log);
            if (m.rfind("no termination", 0) == 0) break;
          }
          if (!ok) {
            f = orig;
            rn.replay_once(t, f.choices_, m, cons, &log);
          }
          auto const path = replay_dir + "/" + f.target_ + ".replay";
          {
            std::ofstream o{path};
            o << "target " << f.target_ << "\nseed " << seed << "\ncase "
              << case_idx << "\nmessage " << f.msg_ << "\ncase_text " << log
              << "\nchoices";
            for (auto const v : f.choices_) o << ' ' << v;
            o << "\n";
          }
          printf("FAILURE target=%s case=%" PRIu64 " choices=%zu (from %zu): %s\n  %s\n",
                 f.target_.c_str(), static_cast<std::uint64_t>(case_idx),
                 f.choices_.size(), orig.choices_.size(), f.msg_.c_str(),
                 log.substr(0, 1500).c_str());
          failures.push_back(f);
        } else {
          ++flaky;
          printf("note: target=%s case=%" PRIu64
                 " failed once and did not reproduce: %s\n",
                 t.name, static_cast<std::uint64_t>(case_idx), f.msg_.c_str());
          resume[static_cast<unsigned>(dead)] = case_idx + workers;
          if (flaky > 5) {
            break;
          }
        }
      }
      bool all = true;
      for (auto const f : finished) all = all && f;
      if (all) break;
    }

    // merge
    std::string line;
    for (unsigned w = 0; w != workers; ++w) {
      auto const p = base + "/w" + std::to_string(w) + ".res";
      std::ifstream in{p};
      while (std::getline(in, line)) {
        if (line[0] == 'E') evaluations += std::stoull(line.substr(2));
        if (line[0] == 'D') distinct.insert(std::stoull(line.substr(2)));
        if (line[0] == 'S' && samples.size() < 2) samples.push_back(line.substr(2));
        if (line[0] == 'L') {
          auto const sp = line.find(' ', 2);
          labels[line.substr(sp + 1)] += std::stoull(line.substr(2, sp - 2));
        }
      }
      in.close();
      unlink(p.c_str());
    }
    js << (first_target ? "" : ",") << "{\"name\":\"" << t.name
       << "\",\"planned\":" << total << ",\"evaluations\":" << evaluations
       << ",\"distinct_nontrivial\":" << distinct.size()
       << ",\"unreproduced\":" << flaky << ",\"labels\":{";
    bool f1 = true;
    for (auto const& [k, v] : labels) {
      js << (f1 ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
      f1 = false;
    }
    js << "},\"samples\":[";
    f1 = true;
    for (auto const& s : samples) {
      js << (f1 ? "" : ",") << "\"" << json_escape(s) << "\"";
      f1 = false;
    }
    js << "]}";
    first_target = false;
    printf("%-32s %9" PRIu64 " cases, %9zu distinct non-trivial\n", t.name,
           evaluations, distinct.size());
    if (!failures.empty() && std::getenv("PBT_KEEP_GOING") == nullptr) {
      break;
    }
  }
  js << "],\"truncated\":" << (truncated ? "true" : "false")
     << ",\"failures\":[";
  for (std::size_t i = 0; i != failures.size(); ++i) {
    js << (i ? "," : "") << "{\"target\":\"" << failures[i].target_
       << "\",\"message\":\"" << json_escape(failures[i].msg_)
       << "\",\"replay\":\""
       << json_escape(replay_dir + "/" + failures[i].target_ + ".replay") << "\"}";
  }
  js << "]}\n";
  if (!out.empty()) {
    std::ofstream{out} << js.str();
  }
  cleanup();
  return failures.empty() ? 0 : 1;
}

}  // namespace pbt

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
