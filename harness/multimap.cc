// C15: frozen and mutable index multimaps against maps from index to vector.
#include <algorithm>
#include <string>
#include <vector>

#include "pbt.h"

#include "elems.h"

#include "cista/containers.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/serialization.h"
#include "cista/strong.h"

namespace {
using pbt::Ctx;
namespace o = cista::offset;
namespace r = cista::raw;
using skey = cista::strong<std::uint32_t, struct skey_>;

struct trio {
  bool operator==(trio const& x) const { return a_ == x.a_ && b_ == x.b_ && c_ == x.c_; }
  bool operator<(trio const& x) const { return a_ < x.a_; }
  std::uint32_t a_{}, b_{};
  std::uint8_t c_{};
};

template <typename T>
T gen(Ctx& c) {
  if constexpr (std::is_same_v<T, trio>) {
    return trio{static_cast<std::uint32_t>(c.u(9)), c.num<std::uint32_t>(), static_cast<std::uint8_t>(c.u(255))};
  } else if constexpr (std::is_integral_v<T>) {
    return c.flip() ? static_cast<T>(c.u(100)) : c.num<T>();
  } else if constexpr (std::is_same_v<T, tracked>) {
    return tracked{static_cast<std::int64_t>(c.u(1000))};
  } else {
    return T{c.str(30, false)};
  }
}

template <typename K>
K key(std::size_t const i) {
  return static_cast<K>(static_cast<cista::base_t<K>>(i));
}

// ------------------------------------------------------------- frozen
template <typename M, typename T>
void check_frozen(Ctx& c, M const& x, std::vector<std::vector<T>> const& m) {
  using I = typename M::index_t;
  std::size_t total = 0;
  PBT_CHECK(x.finished(), "not finished");
  PBT_EQ(x.index_size(), m.size() + 1);
  for (std::size_t i = 0; i != m.size(); ++i) {
    auto const e = x[static_cast<I>(i)];
    PBT_EQ(e.size(), m[i].size());
    PBT_EQ(e.empty(), m[i].empty());
    PBT_CHECK(std::equal(e.begin(), e.end(), m[i].begin(), m[i].end()), "bucket %zu", i);
    PBT_CHECK(std::equal(e.cbegin(), e.cend(), m[i].begin(), m[i].end()), "bucket %zu", i);
    PBT_EQ(static_cast<std::size_t>(std::distance(begin(e), end(e))), m[i].size());
    for (std::size_t j = 0; j != m[i].size(); ++j) {
      PBT_CHECK(e[static_cast<I>(j)] == m[i][j], "bucket %zu element %zu", i, j);
      PBT_EQ(static_cast<std::size_t>(e.data_index(static_cast<I>(j))), total + j);
    }
    total += m[i].size();
  }
  PBT_EQ(x.data_size(), total);
  std::size_t i = 0;
  for (auto const& e : x) {
    PBT_CHECK(i < m.size(), "too many buckets");
    PBT_CHECK(std::equal(e.begin(), e.end(), m[i].begin(), m[i].end()), "bucket %zu by iteration", i);
    ++i;
  }
  PBT_EQ(i, m.size());
  for (auto it = end(x); it != begin(x);) {
    --it;
    --i;
    PBT_CHECK(std::equal((*it).begin(), (*it).end(), m[i].begin(), m[i].end()), "bucket %zu in reverse", i);
  }
  PBT_EQ(static_cast<std::size_t>(x.cend() - x.cbegin()), m.size());
  auto const p = static_cast<int>(c.u(m.size())), q = static_cast<int>(c.u(m.size()));
  auto const a = x.begin() + p;
  auto const b = x.end() - (static_cast<int>(m.size()) - q);
  PBT_EQ(b - a, q - p);
  PBT_CHECK(a + (q - p) == b && b + (p - q) == a, "iterator + n");
  PBT_CHECK(a - (p - q) == b && b - (q - p) == a, "iterator - n");
  PBT_EQ(a == b, p == q);
  PBT_EQ(a != b, p != q);
  PBT_EQ(a < b, p < q);
  PBT_EQ(a > b, p > q);
  PBT_EQ(a <= b, p <= q);
  PBT_EQ(a >= b, p >= q);
  auto t = a;
  t += q - p;
  PBT_CHECK(t == b, "+=");
  t -= q - p;
  PBT_CHECK(t == a, "-=");
  if (static_cast<std::size_t>(q) < m.size()) {
    auto const s = static_cast<std::size_t>(q);
    PBT_CHECK(std::equal((*b).begin(), (*b).end(), m[s].begin(), m[s].end()), "iterator + n");
    auto const e = a[q - p];
    PBT_CHECK(std::equal(e.begin(), e.end(), m[s].begin(), m[s].end()), "iterator[n]");
  }
}
template <typename M, typename T>
void run_frozen(Ctx& c) {
  auto const leak = no_tracked_leak{};
  M x;
  std::vector<std::vector<T>> m;
  PBT_CHECK(!x.finished(), "finished too early");
  auto const keys = c.len_big(12, 300);
  if (c.flip()) {
    x.reserve_index(static_cast<typename M::index_t>(c.u(20)));
  }
  auto empty = 0U;
  for (std::size_t k = 0; k != keys; ++k) {
    PBT_EQ(static_cast<std::size_t>(x.current_key()), k);
    m.emplace_back();
    for (auto n = c.len_big(6, 300); n != 0; --n) {
      auto const e = gen<T>(c);
      if (c.flip()) {
        x.push_back(e);
      } else {
        x.emplace_back(e);
      }
      m.back().push_back(e);
    }
    empty += m.back().empty() ? 1U : 0U;
    x.finish_key();
    c.log("key %zu: %zu", k, m.back().size());
  }
  PBT_EQ(x.index_size(), m.size());
  x.finish_map();
  check_frozen(c, x, m);
  switch (c.u(3)) {
    case 0: {
      c.log("copy");
      auto y = x;
      x = M{};
      check_frozen(c, y, m);
      break;
    }
    case 1: {
      c.log("move");
      auto y = std::move(x);
      check_frozen(c, y, m);
      break;
    }
    default:
      if constexpr (std::is_trivially_copyable_v<T>) {
        c.log("serialize");
        auto buf = cista::serialize(x);
        check_frozen(c, *cista::deserialize<M>(buf), m);
      }
  }
  c.nontrivial_if(keys >= 3 && empty >= 1);
}
using f_u32_o = o::fws_multimap<std::uint32_t, std::uint32_t>;
using f_trio_r = r::fws_multimap<std::uint64_t, trio>;
using f_str_r = r::fws_multimap<std::uint32_t, r::string>;
using f_tracked_r = r::fws_multimap<std::uint32_t, tracked>;
#define FT(N, T, Q) PBT_REG(frozen_##N, "frozen_" #N, (run_frozen<f_##N, T>), Q, Q * 300)
FT(u32_o, std::uint32_t, 16000)
FT(trio_r, trio, 10000)
FT(str_r, r::string, 8000)
FT(tracked_r, tracked, 8000)

// ------------------------------------------------------------ mutable
template <typename Bucket, typename T>
void check_bucket(Ctx& c, Bucket&& b, std::vector<T> const& m) {
  PBT_EQ(b.size(), m.size());
  PBT_EQ(b.empty(), m.empty());
  PBT_CHECK(static_cast<std::size_t>(b.capacity()) >= m.size(), "capacity below size");
  PBT_CHECK(std::equal(b.begin(), b.end(), m.begin(), m.end()), "contents differ");
  PBT_CHECK(std::equal(b.cbegin(), b.cend(), m.begin(), m.end()), "contents differ (const)");
  PBT_CHECK(std::equal(begin(b), end(b), m.begin(), m.end()), "contents differ (free begin)");
  for (std::size_t i = 0; i != m.size(); ++i) {
    PBT_CHECK(b[static_cast<unsigned>(i)] == m[i], "element %zu", i);
    PBT_CHECK(b.at(static_cast<unsigned>(i)) == m[i], "element %zu by at()", i);
    PBT_EQ(static_cast<std::size_t>(b.bucket_index(b.begin() + static_cast<std::ptrdiff_t>(i))), i);
  }
  if (!m.empty()) {
    PBT_CHECK(b.front() == m.front() && b.back() == m.back(), "front/back");
  }
  if (c.chance(1, 16)) {
    PBT_THROWS(b.at(static_cast<unsigned>(m.size())));
    PBT_THROWS(b.at(~0U));
    PBT_THROWS(b.bucket_index(b.end()));
  }
}

template <typename M, typename K, typename T>
void check_mutable(Ctx& c, M& x, std::vector<std::vector<T>> const& m) {
  auto const& cx = x;
  PBT_EQ(static_cast<std::size_t>(x.size()), m.size());
  PBT_EQ(x.empty(), m.empty());
  std::size_t total = 0;
  std::vector<std::pair<std::size_t, std::size_t>> spans;
  for (std::size_t i = 0; i != m.size(); ++i) {
    if constexpr (!std::is_const_v<M>) {
      check_bucket(c, x[key<K>(i)], m[i]);
      check_bucket(c, x.at(key<K>(i)), m[i]);
    }
    auto const b = cx[key<K>(i)];
    check_bucket(c, b, m[i]);
    PBT_EQ(static_cast<std::size_t>(cx.at(key<K>(i)).index()), i);
    total += m[i].size();
    if (b.capacity() != 0) {
      auto const from = static_cast<std::size_t>(std::distance(cx.data().begin(), b.begin()));
      spans.emplace_back(from, from + b.capacity());
    }
    for (std::size_t j = 0; j != m[i].size(); ++j) {
      PBT_CHECK(&cx.data()[b.data_index(static_cast<unsigned>(j))] == &b[static_cast<unsigned>(j)], "data_index");
    }
  }
  PBT_EQ(static_cast<std::size_t>(x.element_count()), total);
  std::sort(spans.begin(), spans.end());
  for (std::size_t i = 0; i != spans.size(); ++i) {
    PBT_CHECK(spans[i].second <= static_cast<std::size_t>(x.data_size()), "bucket storage beyond the data");
    PBT_CHECK(i == 0 || spans[i - 1].second <= spans[i].first, "two buckets share storage");
  }
  if (c.chance(1, 4)) {
    if constexpr (!std::is_const_v<M>) {
      PBT_THROWS(x.at(key<K>(m.size())));
    }
    PBT_THROWS(cx.at(key<K>(m.size() + c.u(3))));
  }

  auto const iterate = [&](auto& y) {
    std::size_t i = 0;
    for (auto b : y) {
      PBT_CHECK(i < m.size() && std::equal(b.begin(), b.end(), m[i].begin(), m[i].end()), "bucket %zu by iteration", i);
      ++i;
    }
    PBT_EQ(i, m.size());
    for (auto it = end(y); it != begin(y);) {
      if (c.flip()) {
        --it;
      } else {
        auto const old = it--;
        PBT_CHECK(old - it == 1, "it--");
      }
      --i;
      PBT_CHECK((*it).size() == m[i].size() && static_cast<std::size_t>((*it).index()) == i, "bucket %zu in reverse", i);
    }
    auto const p = static_cast<int>(c.u(m.size())), q = static_cast<int>(c.u(m.size()));
    auto const a = y.begin() + p;
    auto const b = y.end() - (static_cast<int>(m.size()) - q);
    PBT_EQ(b - a, q - p);
    PBT_CHECK(a + (q - p) == b && b + (p - q) == a, "iterator + n");
    PBT_CHECK(a - (p - q) == b && b - (q - p) == a, "iterator - n");
    PBT_EQ(a == b, p == q);
    PBT_EQ(a != b, p != q);
    PBT_EQ(a < b, p < q);
    PBT_EQ(a > b, p > q);
    PBT_EQ(a <= b, p <= q);
    PBT_EQ(a >= b, p >= q);
    auto t = a;
    t += q - p;
    PBT_CHECK(t == b, "+=");
    t -= q - p;
    PBT_CHECK(t++ == a, "-=");
    PBT_CHECK(t == a + 1, "it++");
    if (static_cast<std::size_t>(q) < m.size()) {
      check_bucket(c, *b, m[static_cast<std::size_t>(q)]);
      auto u = a;
      check_bucket(c, u[q - p], m[static_cast<std::size_t>(q)]);
      check_bucket(c, a[q - p], m[static_cast<std::size_t>(q)]);
    }
  };
  iterate(cx);
  iterate(x);
}

template <typename M, typename K, typename T, unsigned Log2Max>
void run_mutable(Ctx& c, bool const churn) {
  M x;
  std::vector<std::vector<T>> m;
  std::size_t max_keys = 0, max_cap = 1;
  auto relocated = 0U, recycled = 0U, edits = 0U;
  auto const max_size = Log2Max < 10 ? std::size_t{1} << Log2Max : std::size_t{4000};
  check_mutable<M, K>(c, x, m);
  auto const steps = churn ? 150U : 30U;
  auto const pick_key = [&]() { return c.idx(m.size()); };
  auto const note = [&](std::size_t const i) {
    max_cap = std::max(max_cap, static_cast<std::size_t>(x[key<K>(i)].capacity()));
  };
  for (unsigned step = 0; step < steps && c.more(churn ? 150 : 14); ++step) {
    auto const op = churn ? 3 + c.u(17) : c.u(22);
    switch (op) {
      case 0:
      case 1:
      case 2: {
        auto const n = c.u(3);
        switch (c.u(2)) {
          case 0: {
            c.log("emplace_back()");
            auto b = x.emplace_back();
            PBT_EQ(static_cast<std::size_t>(b.index()), m.size());
            m.emplace_back();
            break;
          }
          case 1: {
            c.log("[%zu]", m.size() + n);
            auto b = x[key<K>(m.size() + n)];
            PBT_CHECK(b.empty(), "new bucket not empty");
            m.resize(m.size() + n + 1);
            break;
          }
          default: {
            auto const k = c.u(m.size() + 3);
            c.log("get_or_create(%zu)", static_cast<std::size_t>(k));
            auto b = x.get_or_create(key<K>(k));
            if (k >= m.size()) {
              m.resize(k + 1);
            }
            check_bucket(c, b, m[k]);
          }
        }
        break;
      }
      case 3:
      case 4:
      case 5:
      case 6:
      case 7: {
        if (m.empty()) {
          x.emplace_back();
          m.emplace_back();
        }
        auto const i = pick_key();
        auto b = x[key<K>(i)];
        auto const before = b.capacity();
        auto const n = c.len_big(9, 300) + 1;
        c.log("[%zu] += %zu", i, static_cast<std::size_t>(n));
        for (std::size_t q = 0; q != n; ++q) {
          auto e = gen<T>(c);
          auto const from = c.idx(m.size());
          auto const own = !m[from].empty() && c.chance(1, 8);
          auto const j = own ? c.idx(m[from].size()) : 0;
          if (own) {
            e = m[from][j];
          }
          if (m[i].size() >= max_size) {
            PBT_THROWS(b.push_back(e));
            break;
          }
          std::size_t pos = 0;
          if (own && c.flip()) {
            pos = b.push_back(x[key<K>(from)][static_cast<unsigned>(j)]);
          } else if (own) {
            pos = b.emplace_back(x[key<K>(from)][static_cast<unsigned>(j)]);
          } else if (c.flip()) {
            pos = b.push_back(e);
          } else {
            pos = b.emplace_back(e);
          }
          PBT_EQ(pos, static_cast<std::size_t>(b.data_index(static_cast<unsigned>(m[i].size()))));
          m[i].push_back(e);
        }
        relocated += b.capacity() != before ? 1U : 0U;
        note(i);
        break;
      }
      case 8:
      case 9: {
        if (!m.empty()) {
          auto const i = pick_key();
          auto const p = c.u(m[i].size());
          auto b = x[key<K>(i)];
          auto const e = gen<T>(c);
          c.log("[%zu].insert(%zu)", i, static_cast<std::size_t>(p));
          if (m[i].size() >= max_size) {
            PBT_THROWS(b.insert(b.begin() + static_cast<std::ptrdiff_t>(p), e));
          } else {
            if (!m[i].empty() && c.chance(1, 5)) {
              auto const j = c.idx(m[i].size());
              auto const own = m[i][j];
              auto const it = b.insert(b.begin() + static_cast<std::ptrdiff_t>(p), b[static_cast<unsigned>(j)]);
              PBT_EQ(static_cast<std::size_t>(it - b.begin()), static_cast<std::size_t>(p));
              m[i].insert(m[i].begin() + static_cast<std::ptrdiff_t>(p), own);
            } else {
              auto const it = c.flip() ? b.insert(b.begin() + static_cast<std::ptrdiff_t>(p), e) : b.insert(b.begin() + static_cast<std::ptrdiff_t>(p), T{e});
              PBT_EQ(static_cast<std::size_t>(it - b.begin()), static_cast<std::size_t>(p));
              m[i].insert(m[i].begin() + static_cast<std::ptrdiff_t>(p), e);
            }
          }
          ++edits;
          note(i);
        }
        break;
      }
      case 10: {
        if (!m.empty()) {
          auto const i = pick_key();
          auto const n = c.chance(1, 10) ? c.u(600) : c.u(20);
          c.log("[%zu].reserve(%zu)", i, static_cast<std::size_t>(n));
          auto b = x[key<K>(i)];
          if (n > max_size) {
            PBT_THROWS(b.reserve(static_cast<unsigned>(n)));
          } else {
            b.reserve(static_cast<unsigned>(n));
            PBT_CHECK(b.capacity() >= n, "reserve");
          }
          if (c.chance(1, 4)) {
            PBT_THROWS(b.reserve(c.pick({(1U << 20U) + 1U, 0x80000001U, 0xFFFFFFFFU})));
          }
          note(i);
        }
        break;
      }
      case 11:
      case 12: {
        if (!m.empty()) {
          auto const i = pick_key();
          auto const n = c.u(m[i].size() + (c.chance(1, 16) ? 300 : 5));
          auto const e = gen<T>(c);
          c.log("[%zu].resize(%zu)", i, static_cast<std::size_t>(n));
          auto b = x[key<K>(i)];
          if (n > max_size) {
            PBT_THROWS(b.resize(static_cast<unsigned>(n), e));
          } else if (c.chance(1, 4)) {
            b.resize(static_cast<unsigned>(n));
            m[i].resize(n, T{});
          } else {
            b.resize(static_cast<unsigned>(n), e);
            m[i].resize(n, e);
          }
          ++edits;
          note(i);
        }
        break;
      }
      case 13: {
        if (!m.empty()) {
          auto const i = pick_key();
          c.log("[%zu].pop_back", i);
          x[key<K>(i)].pop_back();
          if (!m[i].empty()) {
            m[i].pop_back();
          }
        }
        break;
      }
      case 14: {
        if (!m.empty()) {
          auto const i = pick_key();
          c.log("[%zu].clear", i);
          x[key<K>(i)].clear();
          m[i].clear();
        }
        break;
      }
      case 15: {
        if (!m.empty()) {
          auto const i = pick_key();
          if (!m[i].empty()) {
            auto const p = c.idx(m[i].size());
            c.log("[%zu].erase(%zu)", i, p);
            auto b = x[key<K>(i)];
            auto const it = b.erase(b.begin() + static_cast<std::ptrdiff_t>(p));
            PBT_EQ(static_cast<std::size_t>(it - b.begin()), p);
            m[i].erase(m[i].begin() + static_cast<std::ptrdiff_t>(p));
            ++edits;
          }
        }
        break;
      }
      case 16: {
        if (!m.empty()) {
          auto const i = pick_key();
          auto p = c.u(m[i].size()), q = c.u(m[i].size());
          if (p > q) {
            std::swap(p, q);
          }
          c.log("[%zu].erase(%zu, %zu)", i, static_cast<std::size_t>(p), static_cast<std::size_t>(q));
          auto b = x[key<K>(i)];
          auto const it = b.erase(b.begin() + static_cast<std::ptrdiff_t>(p), b.begin() + static_cast<std::ptrdiff_t>(q));
          PBT_EQ(static_cast<std::size_t>(it - b.begin()), static_cast<std::size_t>(p));
          m[i].erase(m[i].begin() + static_cast<std::ptrdiff_t>(p), m[i].begin() + static_cast<std::ptrdiff_t>(q));
          ++edits;
        }
        break;
      }
      case 17:
      case 18: {
        auto const k = c.u(m.size() + 1);
        c.log("erase(%zu)", static_cast<std::size_t>(k));
        x.erase(key<K>(k));
        if (k < m.size()) {
          recycled += m[k].empty() ? 0U : 1U;
          m[k].clear();
        }
        break;
      }
      case 19: {
        if (!m.empty()) {
          auto const i = pick_key();
          if (!m[i].empty()) {
            auto const j = c.idx(m[i].size());
            auto const e = gen<T>(c);
            c.log("[%zu][%zu] = x", i, j);
            auto b = x[key<K>(i)];
            switch (c.u(4)) {
              case 0: b[static_cast<unsigned>(j)] = e; break;
              case 1: b.at(static_cast<unsigned>(j)) = e; break;
              case 2: *(b.begin() + static_cast<std::ptrdiff_t>(j)) = e; break;
              case 3: x.data()[b.data_index(static_cast<unsigned>(j))] = e; break;
              default: (j == 0 ? b.front() : j + 1 == m[i].size() ? b.back() : b[static_cast<unsigned>(j)]) = e; break;
            }
            m[i][j] = e;
          }
        }
        break;
      }
      case 20: {
        switch (c.u(5)) {
          case 0:
            c.log("clear");
            x.clear();
            m.clear();
            break;
          case 1: {
            c.log("copy");
            auto y = x;
            check_mutable<M, K>(c, y, m);
            x = y;
            break;
          }
          case 2: {
            c.log("move");
            auto y = std::move(x);
            x = M{};
            x = std::move(y);
            break;
          }
          case 3:
            c.log("reserve");
            x.reserve(static_cast<unsigned>(c.u(20)), static_cast<unsigned>(c.u(50)));
            break;
          default: break;
        }
        break;
      }
      default: {
        c.log("serialize");
        auto buf = cista::serialize(x);
        auto* y = cista::deserialize<M>(buf);
        check_mutable<M const, K>(c, *y, m);
        if (c.flip() && !m.empty()) {
          auto mm = m;
          auto const i = pick_key();
          if (mm[i].size() < max_size) {
            auto const e = gen<T>(c);
            (*y)[key<K>(i)].push_back(e);
            mm[i].push_back(e);
          }
          y->erase(key<K>(c.idx(mm.size())));
          y->~M();
          new (y) M{};
        } else {
          x = *y;
        }
      }
    }
    max_keys = std::max(max_keys, m.size());
    check_mutable<M, K>(c, x, m);
    PBT_CHECK(static_cast<std::size_t>(x.data_size()) <= max_keys * 2 * max_cap, "storage is not recycled: %zu elements for %zu keys of at most %zu", static_cast<std::size_t>(x.data_size()), max_keys, max_cap);
  }
  c.nontrivial_if(m.size() >= 2 && relocated >= 2 && recycled >= 1 && edits >= 1);
}
using m_u32_o = o::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
using m_trio_r = r::mutable_fws_multimap<skey, trio>;
using m_small_r = r::mutable_fws_multimap<std::uint32_t, std::uint8_t, 3>;
using m_small_o = o::mutable_fws_multimap<skey, std::uint64_t, 4>;
template <typename M, typename K, typename T, unsigned L, bool Churn>
void run_m(Ctx& c) {
  run_mutable<M, K, T, L>(c, Churn);
}
#define MT(N, K, T, L, Q, CH) PBT_REG(mutable_##N##_##CH, "mutable_" #N "_" #CH, (run_m<m_##N, K, T, L, CH>), Q, Q * 300)
MT(u32_o, std::uint32_t, std::uint32_t, 20, 3600, false)
MT(trio_r, skey, trio, 20, 3600, false)
MT(small_r, std::uint32_t, std::uint8_t, 3, 3600, false)
MT(small_o, skey, std::uint64_t, 4, 3600, false)
MT(u32_o, std::uint32_t, std::uint32_t, 20, 480, true)
MT(small_r, std::uint32_t, std::uint8_t, 3, 480, true)
}  // namespace
