// C27: storage that removals have freed is used again, and appending moves
// elements only an amortized constant number of times.
#include <deque>
#include <filesystem>
#include <map>
#include <vector>

#include "pbt.h"

#include <sanitizer/allocator_interface.h>

#include "cista/containers.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"

namespace {
using pbt::Ctx;
namespace O = cista::offset;
namespace R = cista::raw;

// Counts how often values are relocated (moved or copied).
struct counted {
  static std::uint64_t& moves() {
    static std::uint64_t n = 0U;
    return n;
  }
  counted() = default;
  explicit counted(std::uint64_t const v) : v_{v} {}
  counted(counted const& o) : v_{o.v_} { ++moves(); }
  counted(counted&& o) noexcept : v_{o.v_} { ++moves(); }
  counted& operator=(counted const& o) {
    v_ = o.v_;
    ++moves();
    return *this;
  }
  counted& operator=(counted&& o) noexcept {
    v_ = o.v_;
    ++moves();
    return *this;
  }
  ~counted() = default;
  bool operator==(counted const& o) const { return v_ == o.v_; }
  cista::hash_t hash() const { return cista::hash_combine(cista::BASE_HASH, v_); }
  std::uint64_t v_{0U};
};

template <typename T>
T mk(std::uint64_t const v) {
  if constexpr (std::is_integral_v<T>) {
    return static_cast<T>(v);
  } else if constexpr (std::is_constructible_v<T, std::uint64_t>) {
    return T{v};
  } else {
    return T{("a key long enough to be on the heap " + std::to_string(v)).c_str()};
  }
}

// A table that only ever holds a few elements does not grow with the number
// of insertions and erasures.
template <typename Set, typename T, bool Map>
void hash_churn(Ctx& c) {
  Set s;
  std::deque<std::uint64_t> q;
  auto next = std::uint64_t{c.num<std::uint16_t>()};
  auto const limit = 1U + static_cast<std::size_t>(c.len_big(24, 300));
  auto const n = limit * (2U + static_cast<std::size_t>(c.u(40U)));
  auto const stride = c.flip() ? std::uint64_t{1U} : c.num<std::uint32_t>() | 1U;
  auto const recycle = c.flip();
  std::vector<std::uint64_t> pool;
  std::size_t peak = 0U, inserts = 0U, erases = 0U;
  counted::moves() = 0U;
  c.log("at most %zu elements, %zu steps, stride %llu", limit, n, static_cast<unsigned long long>(stride));
  auto const erase_at = [&](std::size_t const at) {
    auto const k = mk<T>(q[at]);
    switch (erases++ % 3U) {
      case 0: PBT_EQ(s.erase(k), 1U); break;
      default: {
        auto const it = s.find(k);
        PBT_CHECK(it != s.end(), "element lost");
        s.erase(it);
      }
    }
    if (recycle) {
      pool.push_back(q[at]);
    }
    q.erase(q.begin() + static_cast<std::ptrdiff_t>(at));
  };
  for (std::size_t i = 0; i != n; ++i) {
    auto const full = q.size() == limit;
    if (full || (!q.empty() && c.chance(1, 3))) {
      if (c.chance(1, 40)) {
        while (!q.empty()) {
          erase_at(0U);
        }
      } else {
        erase_at(c.flip() ? 0U : c.idx(q.size()));
      }
    }
    auto v = next;
    if (!pool.empty() && c.flip()) {
      v = pool.back();
      pool.pop_back();
    } else {
      next += stride;
    }
    if constexpr (Map) {
      if (c.flip()) {
        s[mk<T>(v)] = 1U;
      } else {
        PBT_CHECK(s.emplace(mk<T>(v), 1U).second, "key already there");
      }
    } else {
      PBT_CHECK(s.insert(mk<T>(v)).second, "key already there");
    }
    ++inserts;
    q.push_back(v);
    peak = std::max(peak, q.size());
    PBT_EQ(static_cast<std::size_t>(s.size()), q.size());
    PBT_CHECK(s.capacity() <= 5U * peak + 3U, "capacity %zu with at most %zu elements at a time after %zu insertions",
              static_cast<std::size_t>(s.capacity()), peak, inserts);
  }
  PBT_CHECK(counted::moves() <= 12U * (inserts + 4U), "%llu relocations in %zu insertions",
            static_cast<unsigned long long>(counted::moves()), inserts);
  for (auto const v : q) {
    PBT_CHECK(s.find(mk<T>(v)) != s.end(), "element lost");
  }
  c.nontrivial_if(erases > limit && limit > 4U);
}

// Blocks of power-of-two classes: never more storage than the blocks that were
// in use at the same time, class by class.
struct classes {
  void now(std::map<std::size_t, std::size_t> const& used) {
    for (auto const& [cap, n] : used) {
      peak_[cap] = std::max(peak_[cap], n);
    }
  }
  std::size_t bound() const {
    auto n = std::size_t{0U};
    for (auto const& [cap, k] : peak_) {
      n += cap * k;
    }
    return n;
  }
  std::map<std::size_t, std::size_t> peak_;
};

template <typename M, std::size_t MaxSize>
void fws_reuse(Ctx& c) {
  M x;
  classes cl;
  std::vector<std::vector<std::uint32_t>> m(1U + c.u(6U));
  for (std::size_t i = 0; i != m.size(); ++i) {
    x.emplace_back();
  }
  auto const snap = [&]() {
    std::map<std::size_t, std::size_t> used;
    for (std::size_t q = 0; q != m.size(); ++q) {
      ++used[static_cast<std::size_t>(x[static_cast<unsigned>(q)].capacity())];
    }
    cl.now(used);
    PBT_CHECK(static_cast<std::size_t>(x.data_size()) <= cl.bound(), "%zu slots for at most %zu at a time",
              static_cast<std::size_t>(x.data_size()), cl.bound());
  };
  auto const n = 5U + c.u(60U);
  std::size_t grown = 0U, removed = 0U;
  for (std::size_t i = 0; i != n; ++i) {
    auto const k = c.idx(m.size());
    auto b = x[static_cast<unsigned>(k)];
    switch (c.u(7U)) {
      case 0:
      case 1:
      case 2: {
        auto const cnt = 1U + c.len_big(6, 60);
        c.log("[%zu] += %zu", k, static_cast<std::size_t>(cnt));
        for (std::size_t j = 0; j != cnt && m[k].size() < MaxSize; ++j) {
          auto const v = static_cast<std::uint32_t>(i * 1000U + j);
          if (j % 2U == 0U) {
            b.push_back(v);
          } else {
            b.emplace_back(v);
          }
          m[k].push_back(v);
          ++grown;
          snap();
        }
        break;
      }
      case 3: {
        auto const want = std::min<std::size_t>(MaxSize, c.len_big(9, 80));
        c.log("[%zu].reserve(%zu)", k, want);
        b.reserve(static_cast<unsigned>(want));
        break;
      }
      case 4: {
        auto const want = std::min<std::size_t>(MaxSize, c.len_big(9, 80));
        c.log("[%zu].resize(%zu)", k, want);
        b.resize(static_cast<unsigned>(want), 7U);
        m[k].resize(want, 7U);
        break;
      }
      case 5: {
        c.log("[%zu].clear()", k);
        b.clear();
        m[k].clear();
        ++removed;
        break;
      }
      case 6: {
        c.log("erase(%zu)", k);
        x.erase(static_cast<unsigned>(k));
        m[k].clear();
        ++removed;
        break;
      }
      default: {
        c.log("all erased and filled again");
        for (std::size_t q = 0; q != m.size(); ++q) {
          x.erase(static_cast<unsigned>(q));
        }
        for (std::size_t q = 0; q != m.size(); ++q) {
          for (auto const v : m[q]) {
            x[static_cast<unsigned>(q)].push_back(v);
            snap();
          }
        }
        ++removed;
      }
    }
    snap();
    for (std::size_t q = 0; q != m.size(); ++q) {
      auto const cb = x[static_cast<unsigned>(q)];
      PBT_CHECK(std::equal(cb.begin(), cb.end(), m[q].begin(), m[q].end()), "bucket %zu", q);
    }
  }
  {
    // What it says to occupy is what a copy of it takes from the heap.
    auto const before = __sanitizer_get_current_allocated_bytes();
    auto copy = x;
    auto const taken = __sanitizer_get_current_allocated_bytes() - before;
    PBT_EQ(static_cast<std::size_t>(copy.allocated_size()), static_cast<std::size_t>(taken));
  }
  c.nontrivial_if(grown > 8U && removed > 1U);
}

template <typename P, typename T>
void paged_reuse(Ctx& c) {
  P x;
  classes cl;
  std::vector<std::vector<T>> m;
  auto const snap = [&]() {
    std::map<std::size_t, std::size_t> used;
    for (auto const& p : x.idx_) {
      ++used[static_cast<std::size_t>(p.capacity_)];
    }
    cl.now(used);
    PBT_CHECK(x.paged_.data_.size() <= cl.bound(), "%zu slots for at most %zu at a time",
              static_cast<std::size_t>(x.paged_.data_.size()), cl.bound());
  };
  auto const n = 5U + c.u(60U);
  std::size_t grown = 0U, removed = 0U;
  using key = std::uint32_t;
  auto t = 0U;
  auto const content = [&](std::size_t const k) {
    std::vector<T> v(k);
    for (auto& e : v) {
      e = static_cast<T>(++t);
    }
    return v;
  };
  for (std::size_t i = 0; i != n; ++i) {
    switch (c.u(6U)) {
      case 0: {
        auto v = content(c.len_big(9, 200));
        c.log("emplace_back(%zu)", v.size());
        x.emplace_back(v);
        m.push_back(std::move(v));
        break;
      }
      case 1: {
        c.log("emplace_back_empty");
        x.emplace_back_empty();
        m.emplace_back();
        break;
      }
      case 2: {
        if (m.empty()) {
          break;
        }
        auto v = content(c.len_big(9, 200));
        auto const at = c.idx(m.size());
        c.log("insert(%zu, %zu)", at, v.size());
        x.insert(key{static_cast<unsigned>(at)}, v);
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), std::move(v));
        break;
      }
      case 3: {
        auto const to = c.u(m.size() + (c.flip() ? 2U : 0U));
        c.log("resize(%zu)", static_cast<std::size_t>(to));
        removed += to < m.size() ? 1U : 0U;
        x.resize(static_cast<unsigned>(to));
        m.resize(to);
        break;
      }
      default: {
        if (m.empty()) {
          break;
        }
        auto const at = c.idx(m.size());
        auto const cnt = 1U + c.len_big(6, 60);
        c.log("[%zu] += %zu", at, static_cast<std::size_t>(cnt));
        for (auto j = 0U; j != cnt; ++j) {
          x[key{static_cast<unsigned>(at)}].push_back(static_cast<T>(++t));
          m[at].push_back(static_cast<T>(t));
          ++grown;
          snap();
        }
      }
    }
    snap();
    for (std::size_t q = 0; q != m.size(); ++q) {
      auto const cb = x[key{static_cast<unsigned>(q)}];
      PBT_CHECK(std::equal(cb.begin(), cb.end(), m[q].begin(), m[q].end()), "bucket %zu", q);
    }
  }
  c.nontrivial_if(grown > 8U && removed > 1U);
}

// Nodes of the spatial index: never more than were live at the same time.
template <typename T>
void rtree_reuse(Ctx& c) {
  T t;
  using coord = typename T::coord_t;
  struct entry {
    coord a_, b_;
    std::uint32_t d_;
  };
  std::deque<entry> q;
  std::size_t peak = 0U, inserts = 0U, erases = 0U;
  auto const live = [&]() {
    std::size_t n = 0U;
    std::vector<typename T::node_idx_t> todo;
    if (t.m_.root_ != T::node_idx_t::invalid()) {
      todo.push_back(t.m_.root_);
    }
    while (!todo.empty()) {
      auto const& nd = t.nodes_[todo.back()];
      todo.pop_back();
      ++n;
      if (nd.kind_ == T::kind::kBranch) {
        for (auto i = 0U; i != nd.count_; ++i) {
          todo.push_back(nd.children_[i]);
        }
      }
    }
    return n;
  };
  auto const limit = 1U + static_cast<std::size_t>(c.len_big(40, 400));
  auto const steps = limit * (1U + static_cast<std::size_t>(c.u(6U)));
  auto const spread = 1U + c.u(50U);
  auto const fifo = c.flip();
  c.log("at most %zu entries, %zu steps, spread %u, %s", limit, steps, static_cast<unsigned>(spread), fifo ? "oldest first" : "random");
  auto const erase_at = [&](std::size_t const at) {
    auto const e = q[at];
    t.delete_element(e.a_, e.b_, e.d_);
    q.erase(q.begin() + static_cast<std::ptrdiff_t>(at));
    ++erases;
  };
  for (std::size_t i = 0; i != steps; ++i) {
    if (q.size() == limit) {
      if (c.chance(1, 10)) {
        while (!q.empty()) {
          erase_at(0U);
        }
      } else {
        erase_at(fifo ? 0U : c.idx(q.size()));
      }
    }
    entry e;
    for (auto d = 0U; d != e.a_.size(); ++d) {
      e.a_[d] = static_cast<float>(c.u(spread));
      e.b_[d] = e.a_[d] + static_cast<float>(c.u(3U));
    }
    e.d_ = static_cast<std::uint32_t>(i);
    t.insert(e.a_, e.b_, e.d_);
    ++inserts;
    q.push_back(e);
    peak = std::max(peak, live());
    PBT_CHECK(t.nodes_.size() <= peak, "%zu nodes for at most %zu at a time after %zu insertions and %zu removals",
              static_cast<std::size_t>(t.nodes_.size()), peak, inserts, erases);
  }
  c.nontrivial_if(erases > limit && peak > 3U);
}

// vector: never more than twice what was asked for, and appending is amortized
// constant
template <typename V>
void vec_growth(Ctx& c) {
  V v;
  std::size_t peak = 0U, appended = 0U;
  auto const n = 2U + c.u(30U);
  std::uint64_t x = 0U;
  for (std::size_t i = 0; i != n; ++i) {
    switch (c.u(9U)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        auto const k = static_cast<std::size_t>(1U + c.len_big(20, 3000));
        c.log("%zu appended", k);
        auto const before = v.size();
        counted::moves() = 0U;
        auto const how = c.u(2U);
        for (std::size_t j = 0; j != k; ++j) {
          switch (how) {
            case 0: v.push_back(counted{++x}); break;
            case 1: v.emplace_back(++x); break;
            default: {
              auto const e = counted{++x};
              v.push_back(e);
            }
          }
        }
        appended += k;
        PBT_CHECK(counted::moves() <= 2U * (before + k) + k + 4U, "%zu appended to %zu with %llu relocations", k,
                  static_cast<std::size_t>(before), static_cast<unsigned long long>(counted::moves()));
        break;
      }
      case 4: {
        auto const k = static_cast<std::size_t>(c.len_big(20, 3000));
        c.log("reserve(%zu), filled up", k);
        v.reserve(static_cast<unsigned>(k));
        peak = std::max(peak, k);
        auto const at = v.data();
        counted::moves() = 0U;
        while (v.size() < k) {
          v.emplace_back(++x);
        }
        PBT_CHECK(counted::moves() == 0U, "elements relocated although there was room");
        PBT_CHECK(k == 0U || v.data() == at, "reallocated although there was room");
        break;
      }
      case 5: {
        auto const k = static_cast<std::size_t>(c.len_big(20, 3000));
        c.log("resize(%zu)", k);
        v.resize(static_cast<unsigned>(k));
        break;
      }
      case 6:
        c.log("clear");
        v.clear();
        break;
      case 7:
        c.log("erased half, one by one");
        for (auto j = v.size() / 2U; j != 0U; --j) {
          v.pop_back();
        }
        break;
      case 8: {
        if (v.empty()) {
          break;
        }
        auto const at = c.idx(v.size());
        c.log("erase(%zu), insert", at);
        counted::moves() = 0U;
        auto const k = v.size();
        v.erase(v.begin() + static_cast<std::ptrdiff_t>(at));
        v.insert(v.begin() + static_cast<std::ptrdiff_t>(at), counted{++x});
        PBT_CHECK(counted::moves() <= 6U * k + 16U, "erase and insert into %zu elements: %llu relocations",
                  static_cast<std::size_t>(k), static_cast<unsigned long long>(counted::moves()));
        break;
      }
      default: {
        c.log("copied and moved");
        auto w = v;
        PBT_CHECK(w.allocated_size_ <= 2U * peak, "the copy has room for %zu, at most %zu needed",
                  static_cast<std::size_t>(w.allocated_size_), peak);
        auto const at = w.data();
        counted::moves() = 0U;
        v = std::move(w);
        auto u = std::move(v);
        v = std::move(u);
        PBT_CHECK(counted::moves() == 0U && v.data() == at, "moving a vector moves its elements");
      }
    }
    peak = std::max(peak, static_cast<std::size_t>(v.size()));
    PBT_CHECK(v.allocated_size_ <= 2U * peak, "room for %zu, at most %zu needed", static_cast<std::size_t>(v.allocated_size_), peak);
  }
  c.nontrivial_if(appended > 40U);
}

// Growing by single elements reallocates a logarithmic number of times.
template <typename Grow, typename Capacity>
void log_growth(std::size_t const n, char const* name, Grow&& grow, Capacity&& capacity) {
  auto changes = std::size_t{0U};
  auto last = static_cast<std::size_t>(capacity());
  for (std::size_t i = 0; i != n; ++i) {
    grow(i);
    auto const now = static_cast<std::size_t>(capacity());
    changes += now != last ? 1U : 0U;
    last = now;
  }
  auto bits = std::size_t{0U};
  for (auto k = n; k != 0U; k /= 2U) {
    ++bits;
  }
  PBT_CHECK(changes <= bits + 3U, "%s: %zu reallocations for %zu elements", name, changes, n);
}
}  // namespace

PBT_TARGET(append_growth, 300, 20000) {
  auto const n = static_cast<std::size_t>(c.u(c.chance(1, 3) ? 20000U : 400U));
  c.log("%zu elements", n);
  c.nontrivial_if(n > 100U);
  switch (c.u(6U)) {
    case 0: {
      O::vector<std::uint8_t> v;
      log_growth(n, "vector", [&](auto i) { v.push_back(static_cast<std::uint8_t>(i)); }, [&] { return v.allocated_size_; });
      break;
    }
    case 1: {
      R::vecvec<std::uint32_t, std::uint16_t> v;
      log_growth(n / 4U, "vecvec data", [&](auto i) { v.emplace_back(std::vector<std::uint16_t>(i % 7U)); },
                 [&] { return v.data_.allocated_size_; });
      R::vecvec<std::uint32_t, std::uint16_t> w;
      log_growth(n, "vecvec index", [&](auto) { w.emplace_back(std::vector<std::uint16_t>{}); },
                 [&] { return w.bucket_starts_.allocated_size_; });
      R::vecvec<std::uint32_t, std::uint16_t> u;
      u.resize(1U);
      log_growth(n, "vecvec bucket", [&](auto i) { u[0U].push_back(static_cast<std::uint16_t>(i)); },
                 [&] { return u.data_.allocated_size_; });
      break;
    }
    case 2: {
      O::bitvec b;
      log_growth(n, "bitvec", [&](auto i) { b.resize(static_cast<unsigned>(i + 1U)); }, [&] { return b.blocks_.allocated_size_; });
      break;
    }
    case 3: {
      auto const p = std::string{pbt::scratch_dir()} + "/grow.bin";
      {
        cista::mmap_vec<std::uint64_t> v{cista::mmap{p.c_str(), cista::mmap::protection::WRITE}};
        log_growth(n, "mmap_vec", [&](auto i) { v.push_back(i); }, [&] { return std::filesystem::file_size(p); });
        PBT_EQ(static_cast<std::size_t>(v.size()), n);
        PBT_CHECK(n == 0U || std::filesystem::file_size(p) <= std::max<std::size_t>(16U * n, 4096U), "%zu bytes for %zu elements",
                  static_cast<std::size_t>(std::filesystem::file_size(p)), n);
      }
      std::remove(p.c_str());
      break;
    }
    case 4: {
      O::mutable_fws_multimap<std::uint32_t, std::uint32_t> m;
      log_growth(n, "multimap keys", [&](auto i) { m.get_or_create(static_cast<unsigned>(i)); }, [&] { return m.index_.allocated_size_; });
      O::mutable_fws_multimap<std::uint32_t, std::uint32_t> w;
      log_growth(n, "multimap bucket", [&](auto i) { w[0U].push_back(static_cast<unsigned>(i)); }, [&] { return w.data_.allocated_size_; });
      break;
    }
    case 5: {
      R::hash_map<std::uint32_t, std::uint32_t> m;
      log_growth(n, "hash_map", [&](auto i) { m.emplace(static_cast<unsigned>(i * 7919U), 1U); }, [&] { return m.capacity_; });
      break;
    }
    default: {
      using inner = R::vector<counted>;
      R::vector<inner> v;
      auto x = inner{};
      x.emplace_back(1U);
      auto changes = std::size_t{0U};
      counted::moves() = 0U;
      for (std::size_t i = 0; i != std::min<std::size_t>(n, 2000U); ++i) {
        auto y = inner{};
        y.emplace_back(i);
        v.push_back(std::move(y));
        ++changes;
      }
      PBT_CHECK(counted::moves() == 0U, "growing a vector of vectors copied the inner ones (%llu)",
                static_cast<unsigned long long>(counted::moves()));
      break;
    }
  }
}

#define HS(ID, N, K, Q) PBT_REG(set_##ID, "hash_set_" #ID, (hash_churn<N::hash_set<K>, K, false>), Q, Q * 60)
#define HM(ID, N, K, Q) PBT_REG(map_##ID, "hash_map_" #ID, (hash_churn<N::hash_map<K, std::uint32_t>, K, true>), Q, Q * 60)
HS(u32, R, std::uint32_t, 1500)
HS(counted, R, counted, 1500)
HS(o_u64, O, std::uint64_t, 1200)
HM(str, R, R::string, 500)
HM(o_counted, O, counted, 1200)
HM(u16, R, std::uint16_t, 500)

using fws_o = O::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
using fws_r = R::mutable_fws_multimap<std::uint32_t, std::uint32_t, 6U>;
PBT_REG(fws_o, "fws_offset", (fws_reuse<fws_o, 4096U>), 2500, 150000)
PBT_REG(fws_r, "fws_raw", (fws_reuse<fws_r, 64U>), 2500, 150000)

template <typename V, typename Pg = cista::paged<V>>
using pv_raw = cista::paged_vecvec<R::vector<typename Pg::page_t>, Pg, std::uint32_t>;
template <typename V, typename Pg = cista::paged<V>>
using pv_off = cista::paged_vecvec<O::vector<typename Pg::page_t>, Pg, std::uint32_t>;
using pg_u32 = pv_raw<R::vector<std::uint32_t>>;
using pg_u8 = pv_off<O::vector<std::uint8_t>>;
using pg_u64 = pv_raw<R::vector<std::uint64_t>>;
PBT_REG(pg_u32, "paged_u32", (paged_reuse<pg_u32, std::uint32_t>), 2000, 120000)
PBT_REG(pg_u8, "paged_u8", (paged_reuse<pg_u8, std::uint8_t>), 2000, 120000)
PBT_REG(pg_u64, "paged_u64", (paged_reuse<pg_u64, std::uint64_t>), 2000, 120000)

using rt_4 = R::rtree<std::uint32_t, 2U, float, 4U>;
using rt_3 = O::rtree<std::uint32_t, 1U, float, 3U>;
using rt_8 = O::rtree<std::uint32_t, 3U, float, 8U>;
PBT_REG(rt_4, "rtree_4", rtree_reuse<rt_4>, 700, 40000)
PBT_REG(rt_3, "rtree_3", rtree_reuse<rt_3>, 700, 40000)
PBT_REG(rt_8, "rtree_8", rtree_reuse<rt_8>, 400, 20000)

PBT_REG(vec_r, "vector_raw", vec_growth<R::vector<counted>>, 1200, 60000)
PBT_REG(vec_o, "vector_offset", vec_growth<O::vector<counted>>, 1200, 60000)
