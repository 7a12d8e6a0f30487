// A small property-based-testing engine ("choice sequence" style, as in
// Hypothesis): every generated case is a pure function of a sequence of bounded
// integer choices.  Choices come from a seeded generator (search), or from a
// recorded sequence (replay, shrinking).  Cases run in forked workers, so that a
// crash, a sanitizer report, an abort or a runaway loop is a failure of exactly
// one case; a failure is shrunk by deleting and lowering choices, replayed, and
// written to a replay file.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

#if defined(PBT_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" inline const char* pbt_asan_opts_() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:"
         "max_malloc_fill_size=67108864:malloc_fill_byte=190:"
         "max_free_fill_size=65536:free_fill_byte=219:quarantine_size_mb=16:"
         "max_allocation_size_mb=1024:abort_on_error=0:symbolize=0:"
         "detect_stack_use_after_return=1:"
         "alloc_dealloc_mismatch=0:handle_abort=0:handle_segv=1";
}
#endif

namespace pbt {

constexpr std::size_t kMaxChoices = 1U << 18U;
constexpr std::size_t kMaxLabels = 96;
constexpr std::size_t kLogCap = 1U << 16U;
constexpr int kExitFail = 66;
constexpr int kExitHang = 77;
constexpr int kCpuSeconds = 20;

struct shm_slot {
  volatile std::uint64_t case_idx;
  volatile std::uint64_t evaluations;
  volatile std::uint64_t nontrivial;
  volatile std::uint32_t n_choices;
  volatile std::uint32_t done;
  volatile std::uint32_t is_nontrivial;
  std::uint64_t choices[kMaxChoices];
  char msg[8192];
  std::size_t log_len;
  char log[kLogCap];
};

struct rng {
  std::uint64_t s_;
  explicit rng(std::uint64_t s) : s_{s} {}
  std::uint64_t next() {
    auto z = (s_ += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31U);
  }
};

inline std::atomic<std::int64_t>& live_allocs() {
  static std::atomic<std::int64_t> n{0};
  return n;
}

class Ctx {
public:
  // --- raw choices -------------------------------------------------------
  // uniform in [0, bound]; shrinks towards 0
  std::uint64_t u(std::uint64_t const bound) {
    std::uint64_t v = 0;
    if (replay_) {
      v = pos_ < n_replay_ ? in_[pos_] : 0;
      if (v > bound) {
        v = bound;
      }
    } else {
      v = bound == ~0ULL ? r_.next() : mulhi(r_.next(), bound + 1);
    }
    if (pos_ < kMaxChoices) {
      slot_->choices[pos_] = v;
      slot_->n_choices = static_cast<std::uint32_t>(pos_ + 1);
    }
    ++pos_;
    return v;
  }
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return static_cast<std::int64_t>(
        static_cast<std::uint64_t>(lo) +
        u(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
  }
  std::size_t idx(std::size_t n) { return n == 0 ? 0 : u(n - 1); }  // [0,n)
  bool flip() { return u(1) != 0; }
  bool chance(unsigned n, unsigned d) { return u(d - 1) >= d - n; }
  // "one more element?": geometric with the given mean, hard cap via counter
  bool more(unsigned mean) { return u(mean) != 0; }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + idx(l.size()));
  }
  template <typename T>
  T const& pick(std::vector<T> const& l) {
    return l[idx(l.size())];
  }
  // skewed length in [0,max]: mostly short, sometimes the whole range
  // as len(small), rarely up to big
  std::size_t len_big(std::size_t small, std::size_t big) {
    if (big > small && chance(1, 40)) {
      label("large");
      return u(big);
    }
    return len(small);
  }
  std::size_t len(std::size_t max) {
    auto const k = u(9);
    if (k < 5) return u(std::min<std::size_t>(max, 4));
    if (k < 8) return u(std::min<std::size_t>(max, 20));
    return u(max);
  }
  // integer of type T with boundary values over-represented
  template <typename T>
  T num() {
    static_assert(std::is_integral_v<T>);
    using U = std::make_unsigned_t<T>;
    switch (u(5)) {
      case 0: return static_cast<T>(u(7));
      case 1: return static_cast<T>(u(255));
      case 2: {  // near a power of two
        auto const b = u(sizeof(T) * 8 - 1);
        auto const d = static_cast<std::int64_t>(u(4)) - 2;
        return static_cast<T>(
            static_cast<U>((static_cast<std::uint64_t>(1) << b) +
                           static_cast<std::uint64_t>(d)));
      }
      case 3: {
        auto const k = u(3);
        if (k == 0) return std::numeric_limits<T>::max();
        if (k == 1) return std::numeric_limits<T>::min();
        if (k == 2) return static_cast<T>(-1);
        return static_cast<T>(0x0102030405060708ULL);
      }
      default: return static_cast<T>(u(static_cast<U>(~U{0})));
    }
  }
  // a printable-ish string without NUL (binary=true: any byte but NUL)
  std::string str(std::size_t max, bool binary = false) {
    auto const n = len(max);
    std::string s;
    for (std::size_t i = 0; i != n; ++i) {
      s.push_back(binary ? static_cast<char>(1 + u(254))
                         : static_cast<char>('a' + u(25)));
    }
    return s;
  }

  // --- bookkeeping -------------------------------------------------------
  void label(char const* l) {  // static strings only
    for (std::size_t i = 0; i != n_labels_; ++i) {
      if (labels_[i] == l || std::strcmp(labels_[i], l) == 0) {
        return;
      }
    }
    if (n_labels_ < kMaxLabels) {
      labels_[n_labels_++] = l;
    }
  }
  void nontrivial() { nontrivial_ = true; }
  void nontrivial_if(bool b) { nontrivial_ = nontrivial_ || b; }
  // skip the leak check for this case (e.g. an exception path known to leak)
  void no_leak_check() { leak_check_ = false; }
  bool logging() const { return logging_; }
  __attribute__((format(printf, 2, 3))) void log(char const* fmt, ...) {
    if (!logging_ || slot_->log_len + 512 > kLogCap) {
      return;
    }
    va_list ap;
    va_start(ap, fmt);
    auto const n = vsnprintf(slot_->log + slot_->log_len, 500, fmt, ap);
    va_end(ap);
    slot_->log_len += static_cast<std::size_t>(std::min(n, 499));
    slot_->log[slot_->log_len++] = ';';
    slot_->log[slot_->log_len++] = ' ';
    slot_->log[slot_->log_len] = 0;
  }
  [[noreturn]] __attribute__((format(printf, 4, 5))) void fail(
      char const* file, int line, char const* fmt, ...) {
    auto const* base = std::strrchr(file, '/');
    auto n = snprintf(slot_->msg, sizeof(slot_->msg), "%s:%d: ",
                      base ? base + 1 : file, line);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot_->msg + n, sizeof(slot_->msg) - static_cast<std::size_t>(n),
              fmt, ap);
    va_end(ap);
    _exit(kExitFail);
  }

  // --- engine side -------------------------------------------------------
  shm_slot* slot_{nullptr};
  rng r_{0};
  bool replay_{false};
  std::uint64_t const* in_{nullptr};
  std::size_t n_replay_{0};
  std::size_t pos_{0};
  bool nontrivial_{false};
  bool logging_{false};
  bool leak_check_{true};
  std::size_t n_labels_{0};
  char const* labels_[kMaxLabels];

private:
  static std::uint64_t mulhi(std::uint64_t a, std::uint64_t b) {
    return static_cast<std::uint64_t>(
        (static_cast<unsigned __int128>(a) * b) >> 64U);
  }
};

inline Ctx*& cur() {
  static Ctx* c = nullptr;
  return c;
}

#define PBT_FAIL(...) ::pbt::cur()->fail(__FILE__, __LINE__, __VA_ARGS__)
#define PBT_CHECK(cond, ...)                          \
  do {                                                \
    if (!(cond)) {                                    \
      PBT_FAIL("check failed: " #cond " " __VA_ARGS__); \
    }                                                 \
  } while (false)

template <typename T>
std::string show(T const& t) {
  if constexpr (std::is_same_v<T, bool>) {
    return t ? "true" : "false";
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(t));
  } else if constexpr (std::is_arithmetic_v<T>) {
    return std::to_string(t);
  } else if constexpr (std::is_convertible_v<T, std::string>) {
    return "\"" + std::string(t) + "\"";
  } else {
    return "<?>";
  }
}
#define PBT_EQ(a, b, ...)                                                     \
  do {                                                                        \
    auto const& pbt_a_ = (a);                                                 \
    auto const& pbt_b_ = (b);                                                 \
    if (!(pbt_a_ == pbt_b_)) {                                                \
      PBT_FAIL("expected " #a " == " #b " (got %s vs %s) " __VA_ARGS__,       \
               ::pbt::show(pbt_a_).c_str(), ::pbt::show(pbt_b_).c_str());     \
    }                                                                         \
  } while (false)
#define PBT_THROWS(expr)                                         \
  do {                                                           \
    bool pbt_thrown_ = false;                                    \
    try {                                                        \
      (void)(expr);                                              \
    } catch (std::exception const&) {                            \
      pbt_thrown_ = true;                                        \
    }                                                            \
    if (!pbt_thrown_) PBT_FAIL("expected exception from " #expr); \
  } while (false)

struct target {
  char const* name;
  void (*fn)(Ctx&);
  std::uint64_t quick, thorough;
  bool leak_check;
};
inline std::vector<target>& targets() {
  static std::vector<target> t;
  return t;
}
struct reg {
  reg(char const* n, void (*f)(Ctx&), std::uint64_t q, std::uint64_t t,
      bool leak = true) {
    targets().push_back({n, f, q, t, leak});
  }
};
#define PBT_TARGET(NAME, QUICK, THOROUGH)                         \
  static void pbt_fn_##NAME(::pbt::Ctx& c);                       \
  static ::pbt::reg pbt_reg_##NAME{#NAME, pbt_fn_##NAME, QUICK, THOROUGH}; \
  static void pbt_fn_##NAME([[maybe_unused]] ::pbt::Ctx& c)
#define PBT_TARGET_NOLEAK(NAME, QUICK, THOROUGH)                  \
  static void pbt_fn_##NAME(::pbt::Ctx& c);                       \
  static ::pbt::reg pbt_reg_##NAME{#NAME, pbt_fn_##NAME, QUICK, THOROUGH, false}; \
  static void pbt_fn_##NAME([[maybe_unused]] ::pbt::Ctx& c)
// registers a template instantiation / function pointer
#define PBT_REG(ID, NAME, FN, QUICK, THOROUGH) \
  static ::pbt::reg pbt_reg_##ID{NAME, FN, QUICK, THOROUGH};

// directory for scratch files, private to this process
std::string const& scratch_dir();

int run_main(int argc, char** argv);

}  // namespace pbt
