// C23: atomic helpers and concurrent bit vectors.  Threads run generated
// programs; what they observed must be explained by some interleaving.
#include <algorithm>
#include <array>
#include <atomic>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "cista/atomic.h"
#include "cista/containers.h"
#include "cista/containers/bitvec.h"

#include "pbt.h"

namespace {

using pbt::Ctx;

enum class op { OR, AND, MIN, MAX };

std::uint64_t effect64(op const o, std::uint64_t const v, std::uint64_t const x) { return o == op::OR ? v | x : v & x; }
std::int16_t effect16(op const o, std::int16_t const v, std::int16_t const x) {
  return o == op::MIN ? std::min(v, x) : std::max(v, x);
}
std::uint64_t run(op const o, std::uint64_t& b, std::uint64_t const x) {
  return o == op::OR ? cista::fetch_or(b, x) : cista::fetch_and(b, x);
}
std::int16_t run(op const o, std::int16_t& b, std::int16_t const x) {
  return o == op::MIN ? cista::fetch_min(b, x) : cista::fetch_max(b, x);
}
std::uint64_t effect(op const o, std::uint64_t const v, std::uint64_t const x) { return effect64(o, v, x); }
std::int16_t effect(op const o, std::int16_t const v, std::int16_t const x) { return effect16(o, v, x); }
char const* name(op const o) {
  return o == op::OR ? "or" : o == op::AND ? "and" : o == op::MIN ? "min" : "max";
}

template <typename T>
op some_op(Ctx& c) {
  return sizeof(T) == 8 ? (c.flip() ? op::OR : op::AND) : (c.flip() ? op::MIN : op::MAX);
}
template <typename T>
T operand(Ctx& c) {
  if (c.chance(1, 3)) {
    return static_cast<T>(T{1} << (c.u(sizeof(T) * 8U - 1U)));
  }
  return static_cast<T>(c.num<std::make_unsigned_t<T>>());
}

// all threads leave the barrier at (nearly) the same time
struct barrier {
  explicit barrier(unsigned const n) : n_{n} {}
  void wait() {
    n_.fetch_sub(1U);
    while (n_.load() != 0U) {
#if defined(__x86_64__)
      __builtin_ia32_pause();
#endif
      if (++spins_ % 1024U == 0U) {
        std::this_thread::yield();
      }
    }
  }
  std::atomic_uint n_;
  static inline thread_local unsigned spins_ = 0U;
};

template <typename Fn>
void in_parallel(unsigned const n, Fn&& fn) {
  auto b = barrier{n};
  std::vector<std::thread> t;
  for (auto i = 0U; i != n; ++i) {
    t.emplace_back([&, i] {
      b.wait();
      fn(i);
    });
  }
  for (auto& x : t) {
    x.join();
  }
}

// ----------------------------------------------------------- one thread
template <typename T>
void sequential(Ctx& c) {
  struct {
    T before_;
    T cell_;
    T after_;
  } mem{static_cast<T>(0x5A), operand<T>(c), static_cast<T>(0x5B)};
  auto model = mem.cell_;
  auto changed = 0U;
  for (auto i = 0U; i < 40U && c.more(10); ++i) {
    auto const o = some_op<T>(c);
    auto const x = operand<T>(c);
    auto const prev = model;
    model = effect(o, model, x);
    changed += model != prev ? 1U : 0U;
    auto const got = run(o, mem.cell_, x);
    c.log("%s %lld", name(o), static_cast<long long>(x));
    PBT_CHECK(got == prev, "fetch_%s(%lld, %lld) returns %lld", name(o), static_cast<long long>(prev),
              static_cast<long long>(x), static_cast<long long>(got));
    PBT_CHECK(mem.cell_ == model, "fetch_%s(%lld, %lld) stores %lld", name(o), static_cast<long long>(prev),
              static_cast<long long>(x), static_cast<long long>(mem.cell_));
    PBT_CHECK(mem.before_ == static_cast<T>(0x5A) && mem.after_ == static_cast<T>(0x5B), "neighbour changed");
  }
  c.nontrivial_if(changed != 0U);
}

// -------------------------------------------------- small, fully explained
template <typename T>
struct call {
  op o_;
  T x_;
  T got_;
};

// is there an interleaving of the threads' calls in which every call returned
// what it returned and the last value is `last`?
template <typename T>
bool explained(std::vector<std::vector<call<T>>> const& p, T const first, T const last) {
  std::set<std::pair<std::vector<unsigned>, T>> seen;
  std::vector<std::pair<std::vector<unsigned>, T>> todo{{std::vector<unsigned>(p.size(), 0U), first}};
  while (!todo.empty()) {
    auto s = todo.back();
    todo.pop_back();
    if (!seen.insert(s).second) {
      continue;
    }
    auto done = true;
    for (auto t = 0U; t != p.size(); ++t) {
      if (s.first[t] == p[t].size()) {
        continue;
      }
      done = false;
      auto const& k = p[t][s.first[t]];
      if (k.got_ == s.second) {
        auto n = s;
        ++n.first[t];
        n.second = effect(k.o_, s.second, k.x_);
        todo.push_back(n);
      }
    }
    if (done && s.second == last) {
      return true;
    }
  }
  return false;
}

template <typename T>
void concurrent_small(Ctx& c) {
  auto const n = 2U + static_cast<unsigned>(c.u(3));
  auto const first = operand<T>(c);
  std::vector<std::vector<call<T>>> prog(n);
  for (auto& p : prog) {
    p.resize(1U + static_cast<unsigned>(c.u(5)));
    for (auto& k : p) {
      k = {some_op<T>(c), operand<T>(c), T{}};
    }
  }
  auto const rounds = 8U;
  auto overlaps = 0U;
  for (auto r = 0U; r != rounds; ++r) {
    alignas(64) T cell = first;
    in_parallel(n, [&](unsigned const i) {
      for (auto& k : prog[i]) {
        k.got_ = run(k.o_, cell, k.x_);
      }
    });
    PBT_CHECK(explained(prog, first, cell), "no order of the operations explains what they returned (last value %lld)",
              static_cast<long long>(cell));
    ++overlaps;
  }
  c.nontrivial_if(overlaps != 0U && n >= 2U);
}

// ----------------------------------------------------------- many updates
PBT_TARGET(atomic_sequential_64, 20000, 400000) { sequential<std::uint64_t>(c); }
PBT_TARGET(atomic_sequential_16, 20000, 400000) { sequential<std::int16_t>(c); }
PBT_TARGET(atomic_small_64, 1000, 8000) { concurrent_small<std::uint64_t>(c); }
PBT_TARGET(atomic_small_16, 1000, 8000) { concurrent_small<std::int16_t>(c); }

// every thread sets its own bits of shared words, over and over
PBT_TARGET(atomic_or_storm, 240, 3000) {
  auto const n = 2U + static_cast<unsigned>(c.u(6));
  auto const words = 1U + static_cast<unsigned>(c.u(2));
  std::vector<std::uint64_t> cells(words, 0U);
  std::vector<std::vector<unsigned>> bits(n);
  for (auto b = 0U; b != words * 64U; ++b) {
    bits[c.idx(n)].push_back(b);
  }
  auto const rounds = 300U;
  std::vector<unsigned> seen_set(n, 0U), seen_unset(n, 0U), wrong(n, 0U);
  in_parallel(n, [&](unsigned const t) {
    for (auto r = 0U; r != rounds; ++r) {
      for (auto const b : bits[t]) {
        auto const m = std::uint64_t{1U} << (b % 64U);
        auto const old = r % 2U == 0U ? cista::fetch_or(cells[b / 64U], m) : cista::fetch_and(cells[b / 64U], ~m);
        // nobody else touches this bit: it has the value of the last round
        wrong[t] += ((old & m) != 0U) != (r % 2U == 1U) ? 1U : 0U;
      }
    }
    for (auto const b : bits[t]) {
      cista::fetch_or(cells[b / 64U], std::uint64_t{1U} << (b % 64U));
    }
  });
  for (auto t = 0U; t != n; ++t) {
    PBT_CHECK(wrong[t] == 0U, "thread %u saw a wrong previous value of its own bits %u times", t, wrong[t]);
  }
  for (auto w = 0U; w != words; ++w) {
    PBT_CHECK(cells[w] == ~std::uint64_t{0U}, "lost updates: word %u is %llx", w,
              static_cast<unsigned long long>(cells[w]));
  }
  c.nontrivial();
}

template <bool Max>
void minmax_storm(Ctx& c) {
  auto const n = 2U + static_cast<unsigned>(c.u(6));
  auto const cells_n = 1U + static_cast<unsigned>(c.u(3));
  auto const per = 400U;
  auto const span = c.pick({3, 100, 60000});
  std::uint64_t s = c.u(1U << 30U) * 2U + 1U;
  auto const next = [&] {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    return static_cast<std::int16_t>(static_cast<int>((s >> 33U) % static_cast<unsigned>(span)) - span / 2);
  };
  std::vector<std::vector<std::pair<unsigned, std::int16_t>>> prog(n);
  auto const worst = Max ? std::numeric_limits<std::int16_t>::min() : std::numeric_limits<std::int16_t>::max();
  std::vector<std::int16_t> cells(cells_n, worst), want(cells_n, worst);
  for (auto t = 0U; t != n; ++t) {
    for (auto k = 0U; k != per; ++k) {
      auto const i = static_cast<unsigned>(next() & 0x7FFF) % cells_n;
      auto v = next();
      if (c.flip() && k > 2U) {  // a trend, so that most operations change something
        auto const d = static_cast<int>(k) * 8;
        v = static_cast<std::int16_t>(std::clamp(v / 16 + (Max ? d : -d), -32768, 32767));
      }
      prog[t].emplace_back(i, v);
      want[i] = Max ? std::max(want[i], v) : std::min(want[i], v);
    }
  }
  std::vector<std::vector<std::int16_t>> got(n);
  in_parallel(n, [&](unsigned const t) {
    auto& g = got[t];
    g.reserve(per);
    for (auto const& [i, v] : prog[t]) {
      g.push_back(Max ? cista::fetch_max(cells[i], v) : cista::fetch_min(cells[i], v));
    }
  });
  for (auto i = 0U; i != cells_n; ++i) {
    PBT_CHECK(cells[i] == want[i], "%s is %d, not %d: an update was lost", Max ? "maximum" : "minimum", cells[i],
              want[i]);
    // Every value that became current was returned as the previous value by
    // exactly one operation that changed it, except the last one.
    std::multiset<std::int16_t> replaced, stored;
    for (auto t = 0U; t != n; ++t) {
      auto last = worst;
      for (auto k = 0U; k != per; ++k) {
        auto const& [cell, v] = prog[t][k];
        if (cell != i) {
          continue;
        }
        auto const old = got[t][k];
        PBT_CHECK(Max ? old >= last : old <= last, "thread %u saw the value go back from %d to %d", t, last, old);
        last = Max ? std::max(old, v) : std::min(old, v);
        if (Max ? v > old : v < old) {
          replaced.insert(old);
          stored.insert(v);
        }
      }
    }
    if (!stored.empty()) {
      stored.insert(worst);
      auto const it = stored.find(want[i]);
      PBT_CHECK(it != stored.end(), "nobody stored the final value %d", want[i]);
      stored.erase(it);
      PBT_CHECK(stored == replaced, "the previous values returned do not form a chain");
    }
  }
  c.nontrivial();
}
PBT_TARGET(atomic_min_storm, 480, 5000) { minmax_storm<false>(c); }
PBT_TARGET(atomic_max_storm, 480, 5000) { minmax_storm<true>(c); }

// ------------------------------------------------------------ bit vectors
using key32 = cista::strong<std::uint32_t, struct key32_>;
using strong_bv = cista::basic_bitvec<cista::raw::vector<std::uint64_t>, key32>;

template <typename BV, typename Key>
void bitvec_set(Ctx& c) {
  auto const size = 1U + static_cast<unsigned>(c.chance(1, 2) ? c.u(200) : c.u(3000));
  auto const n = 2U + static_cast<unsigned>(c.u(6));
  auto const clear = c.chance(1, 3);  // start full and clear bits
  BV bv;
  bv.resize(size);
  if (clear) {
    bv.one_out();
  }
  std::vector<bool> want(size, clear);
  std::vector<std::vector<std::pair<unsigned, bool>>> prog(n);
  std::uint64_t s = c.u(1U << 30U) * 2U + 1U;
  auto const density = 1U + static_cast<unsigned>(c.u(3));
  auto const interleaved = c.flip();
  for (auto b = 0U; b != size; ++b) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    auto const r = static_cast<unsigned>(s >> 40U);
    if (r % 4U >= density) {
      continue;
    }
    auto const owner = interleaved ? b % n : (r >> 4U) % n;
    auto const final = (r & 8U) != 0U || !clear;
    if ((r & 4U) != 0U) {
      prog[owner].emplace_back(b, !final);  // set / unset before
    }
    prog[owner].emplace_back(b, final);
    want[b] = final;
    if ((r & 0x1000U) != 0U && final) {  // several threads may set the same bit
      auto const other = (owner + 1U) % n;
      if ((r & 4U) == 0U) {
        prog[other].emplace_back(b, true);
      }
    }
  }
  c.log("%u bits, %u threads", size, n);
  in_parallel(n, [&](unsigned const t) {
    for (auto const& [b, v] : prog[t]) {
      bv.template set<true>(Key{b}, v);
    }
  });
  auto count = std::size_t{0U};
  for (auto b = 0U; b != size; ++b) {
    PBT_CHECK(bv.test(Key{b}) == want[b], "bit %u of %u is %d, not %d: a concurrent set was lost", b, size,
              bv.test(Key{b}) ? 1 : 0, want[b] ? 1 : 0);
    count += want[b] ? 1U : 0U;
  }
  PBT_EQ(bv.count(), count, "number of bits");
  c.nontrivial_if(size > 1U && count > 1U);
}
PBT_TARGET(bitvec_concurrent_set, 1200, 8000) { bitvec_set<cista::raw::bitvec, cista::raw::bitvec::size_type>(c); }
PBT_TARGET(bitvec_concurrent_set_offset, 800, 8000) {
  bitvec_set<cista::offset::bitvec, cista::offset::bitvec::size_type>(c);
}
PBT_TARGET(bitvec_concurrent_set_strong, 800, 8000) { bitvec_set<strong_bv, key32>(c); }

template <typename BV, typename Key>
void bitvec_claim(Ctx& c) {
  auto const size = static_cast<unsigned>(c.chance(1, 2) ? c.u(200) : c.u(4000));
  auto const n = 1U + static_cast<unsigned>(c.u(7));
  BV bv;
  bv.resize(size);
  std::set<unsigned> want;
  std::uint64_t s = c.u(1U << 30U) * 2U + 1U;
  auto const kind = c.u(4);
  auto const start = size == 0U || c.flip() ? 0U : static_cast<unsigned>(c.u(size + 2U));
  for (auto b = 0U; b != size; ++b) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    auto const r = static_cast<unsigned>(s >> 40U);
    if (kind == 0U || (kind == 1U && r % 2U == 0U) || (kind == 2U && r % 97U == 0U) || (kind == 3U && (b / 64U) % 3U == 0U) ||
        (kind == 4U && r % 7U == 0U)) {
      bv.set(Key{b}, true);
      if (b >= start) {
        want.insert(b);
      }
    }
  }
  c.log("%u bits, %zu to claim from %u, %u threads", size, want.size(), start, n);
  auto next = std::atomic_size_t{start};
  std::vector<std::vector<unsigned>> got(n);
  in_parallel(n, [&](unsigned const t) {
    auto calls = 0U;
    while (auto const x = bv.get_next(next)) {
      got[t].push_back(static_cast<unsigned>(cista::to_idx(*x)));
      if (++calls > size + 1U) {
        break;
      }
    }
  });
  std::map<unsigned, unsigned> by;
  for (auto t = 0U; t != n; ++t) {
    for (auto i = std::size_t{0U}; i != got[t].size(); ++i) {
      auto const b = got[t][i];
      PBT_CHECK(want.count(b) == 1U, "thread %u was given %u, which is not to be claimed", t, b);
      PBT_CHECK(by.emplace(b, t).second, "bit %u was given to threads %u and %u", b, by[b], t);
      PBT_CHECK(i == 0U || got[t][i - 1U] < b, "thread %u was given %u after %u", t, b, got[t][i - 1U]);
    }
  }
  PBT_CHECK(by.size() == want.size(), "%zu of %zu bits were claimed", by.size(), want.size());
  PBT_CHECK(!bv.get_next(next).has_value() && !bv.get_next(next).has_value(), "claiming goes on after the end");
  c.nontrivial_if(n >= 2U && want.size() >= 2U);
}
PBT_TARGET(bitvec_claim, 1600, 10000) { bitvec_claim<cista::raw::bitvec, cista::raw::bitvec::size_type>(c); }
PBT_TARGET(bitvec_claim_strong, 800, 10000) { bitvec_claim<strong_bv, key32>(c); }

}  // namespace
