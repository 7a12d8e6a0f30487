// C11: hash maps and sets against std::map, whatever the hashes are, with
// serialization in between.
#include <map>
#include <memory>
#include <sstream>

#include "elems.h"

#include "cista/containers.h"
#include "cista/serialization.h"

namespace {

// the hash of integer keys, chosen per case
struct hash_cfg {
  static unsigned& kind() {
    static unsigned k = 0;
    return k;
  }
  static cista::hash_t of(std::uint64_t k) {
    switch (kind()) {
      case 0: return cista::hashing<std::uint64_t>{}(k);
      case 1: return 42;                       // everything collides
      case 2: return k & 0x7FU;                // same group, own tag
      case 3: return (k << 7U) | 5U;           // same tag, own group
      case 4: return ((k % 3) << 7U) | (k % 2);
      case 5: return k;
      case 6: return ~k;
      default: return (k % 5) << 60U | (k << 7U);
    }
  }
};
template <typename K>
struct any_hash {
  cista::hash_t operator()(K const& k) const { return hash_cfg::of(k); }
  template <typename>
  static any_hash create() {
    return {};
  }
};

// keys and values: mk(v) and back
template <typename I>
struct k_int {
  using T = I;
  static T mk(std::int64_t v) { return static_cast<T>(v); }
  static std::int64_t of(T const& t) { return static_cast<std::int64_t>(t); }
};
template <typename S>
struct k_str {
  using T = S;
  static std::string text(std::int64_t v) {
    auto s = std::to_string(v);
    return v == 0 ? "" : v % 3 == 0 ? s + "-a-longer-key-stored-on-the-heap" : s;
  }
  static T mk(std::int64_t v) { return T{text(v)}; }
  static std::int64_t of(T const& t) {
    if (t.size() == 0) {
      return 0;
    }
    auto const v = std::stoll(std::string{t.data(), t.size()});
    PBT_EQ(text(v), (std::string{t.data(), t.size()}));
    return v;
  }
};
struct k_tracked {
  using T = tracked;
  static T mk(std::int64_t v) { return T{v}; }
  static std::int64_t of(T const& t) { return t.get(); }
};
template <typename P>
struct k_pair {
  using T = P;
  static T mk(std::int64_t v) {
    return T{static_cast<decltype(T::first)>(v % 7), static_cast<decltype(T::second)>(v / 7)};
  }
  static std::int64_t of(T const& t) { return static_cast<std::int64_t>(t.first) + 7 * static_cast<std::int64_t>(t.second); }
};
template <typename V>
struct k_vec {
  using T = V;
  static T mk(std::int64_t v) {
    T t;
    for (auto i = 0; i <= v % 4; ++i) {
      t.push_back(static_cast<typename T::value_type>(v));
    }
    return t;
  }
  static std::int64_t of(T const& t) {
    if (t.empty()) {
      return 0;  // default-constructed
    }
    PBT_EQ(static_cast<std::int64_t>(t.size()), static_cast<std::int64_t>(t[0]) % 4 + 1);
    for (auto const x : t) {
      PBT_EQ(x, t[0]);
    }
    return static_cast<std::int64_t>(t[0]);
  }
};
template <typename U>
struct k_uniq {
  using T = U;
  static T mk(std::int64_t v) {
    if (v == 0) {
      return T{};
    }
    return T{new std::uint64_t{static_cast<std::uint64_t>(v)}, true};
  }
  static std::int64_t of(T const& t) { return t ? static_cast<std::int64_t>(*t) : 0; }
};

template <typename M, typename K, typename V>
struct as_map {
  using table = M;
  using key = K;
  static constexpr bool copyable = std::is_copy_constructible_v<typename V::T>;
  static constexpr bool is_map = true;
  using entry = typename M::entry_t;
  static entry mk(std::int64_t k, std::int64_t v) { return entry{K::mk(k), V::mk(v)}; }
  static std::int64_t k(entry const& e) { return K::of(e.first); }
  static std::int64_t v(entry const& e) { return V::of(e.second); }
  using val = V;
};
template <typename M, typename K>
struct as_set {
  using table = M;
  using key = K;
  using val = K;
  static constexpr bool copyable = true;
  static constexpr bool is_map = false;
  using entry = typename M::entry_t;
  static entry mk(std::int64_t k, std::int64_t) { return K::mk(k); }
  static std::int64_t k(entry const& e) { return K::of(e); }
  static std::int64_t v(entry const& e) { return K::of(e); }
};

using model = std::map<std::int64_t, std::int64_t>;

template <typename A>
struct fixture {
  using M = typename A::table;
  using K = typename A::key;
  using V = typename A::val;

  // a table, and the memory it lives in if it was deserialized
  struct slot {
    slot() : t_{&own_} {}
    ~slot() {
      if (t_ != &own_) {
        t_->~M();
      }
    }
    M own_;
    M* t_;
    model m_;
  };

  static std::int64_t value(std::int64_t k, std::int64_t v) { return A::is_map ? v : k; }

  static void same(M const& t, model const& m, std::int64_t absent) {
    PBT_EQ(static_cast<std::size_t>(t.size()), m.size());
    PBT_EQ(t.empty(), m.empty());
    model seen;
    std::size_t n = 0;
    for (auto const& e : t) {
      PBT_CHECK(++n <= m.size(), "iteration visits more elements than the table has");
      PBT_CHECK(seen.emplace(A::k(e), A::v(e)).second, "element visited twice");
    }
    PBT_CHECK(seen == m, "contents differ (%zu vs %zu elements)", seen.size(), m.size());
    for (auto const& [k, v] : m) {
      auto const key = K::mk(k);
      auto const it = t.find(key);
      PBT_CHECK(it != t.end(), "key %lld not found", static_cast<long long>(k));
      PBT_EQ(A::k(*it), k);
      PBT_EQ(A::v(*it), v);
    }
    if (m.find(absent) == m.end()) {
      PBT_CHECK(t.find(K::mk(absent)) == t.end());
    }
  }

  static void run(pbt::Ctx& c) {
    auto const leaks = no_tracked_leak{};
    hash_cfg::kind() = static_cast<unsigned>(c.u(7));
    auto const domain = c.pick({3U, 12U, 40U, 200U});
    auto n_erased = 0U, n_reinserted = 0U, max_size = 0U;
    std::vector<cista::byte_buf> bufs;  // tables moved around keep referring to them
    {
      slot a, b;
      auto const ops = 3 + c.len(c.flip() ? 60 : 250);
      c.log("hash %u domain %u", hash_cfg::kind(), domain);
      for (std::size_t step = 0; step != ops; ++step) {
        auto const second = c.chance(1, 6);
        auto& s = second ? b : a;
        auto& o = second ? a : b;
        auto& t = *s.t_;
        auto& m = s.m_;
        auto const k = static_cast<std::int64_t>(c.u(domain - 1));
        auto const v = static_cast<std::int64_t>(c.u(200));
        auto const present = m.find(k) != m.end();
        auto const op = c.u(31);
        if (op != 27 && (op < 4 || c.logging())) {
          c.log("%c%d(%lld)", second ? 'b' : 'a', static_cast<int>(op), static_cast<long long>(k));
        }
        switch (op) {
          case 0:
          case 1:
          case 2:
          case 3:
            if constexpr (A::is_map) {
              if (c.flip()) {
                t[K::mk(k)] = V::mk(v);
              } else {
                auto const key = K::mk(k);
                t[key] = V::mk(v);
              }
              m[k] = v;
              break;
            }
            [[fallthrough]];
          case 4:
          case 5:
          case 6:
          case 7: {
            auto const r = A::is_map && c.flip()
                               ? emplace_parts(t, k, v)
                               : t.emplace(A::mk(k, v));
            PBT_EQ(r.second, !present);
            m.emplace(k, value(k, v));
            PBT_CHECK(r.first != t.end());
            PBT_EQ(A::k(*r.first), k);
            PBT_EQ(A::v(*r.first), m[k]);
            n_reinserted += n_erased != 0 && !present;
            break;
          }
          case 8:
            if constexpr (A::copyable) {
              auto const e = A::mk(k, v);
              auto const r = t.insert(e);
              PBT_EQ(r.second, !present);
              m.emplace(k, value(k, v));
              PBT_EQ(A::v(*r.first), m[k]);
            }
            break;
          case 9:
          case 10:
          case 11:
          case 12:
          case 13: {
            auto const n = t.erase(K::mk(k));
            PBT_EQ(n, present ? std::size_t{1} : std::size_t{0});
            m.erase(k);
            n_erased += present;
            break;
          }
          case 14: {  // erase by iterator
            auto const it = t.find(K::mk(k));
            PBT_EQ(it != t.end(), present);
            if (present) {
              t.erase(it);
              m.erase(k);
              ++n_erased;
            }
            break;
          }
          case 15: {  // erase while iterating
            auto const keep = c.u(3);
            for (auto it = t.begin(); it != t.end();) {
              auto const cur = it++;
              auto const x = A::k(*cur);
              if (static_cast<std::uint64_t>(x) % 4 != keep) {
                t.erase(cur);
                m.erase(x);
                ++n_erased;
              }
            }
            break;
          }
          case 16: {
            auto const& ct = t;
            bool thrown = false;
            try {
              PBT_EQ((c.flip() ? V::of(t.at(K::mk(k))) : V::of(ct.at(K::mk(k)))), m.at(k));
            } catch (std::out_of_range const&) {
              thrown = true;
            }
            PBT_EQ(thrown, !present);
            break;
          }
          case 17:
            if constexpr (A::copyable) {
              auto const g = t.get(K::mk(k));
              PBT_EQ(g.has_value(), present);
              if (present) {
                PBT_EQ(V::of(*g), m[k]);
              }
            }
            break;
          case 18:
            if (c.chance(1, 3)) {
              t.clear();
              m.clear();
            }
            break;
          case 19:
            if (t.capacity() != 0 || c.flip()) {
              t.rehash();
            }
            break;
          case 20:
            if constexpr (A::copyable) {
              M x{t};
              same(x, m, k);
              x.emplace(A::mk(k, v));
              x.erase(K::mk(v));
              same(t, m, v);
            }
            break;
          case 21:
            if constexpr (A::copyable) {
              t = *o.t_;
              m = o.m_;
            }
            break;
          case 22: {
            M x{std::move(t)};
            same(x, m, k);
            same(t, {}, k);
            if (c.flip()) {
              t = std::move(x);
            } else {
              m.clear();
            }
            break;
          }
          case 23:  // the target of a move assignment has to be empty (known finding)
            t.clear();
            t = std::move(*o.t_);
            m = std::move(o.m_);
            o.m_.clear();
            same(*o.t_, {}, k);
            break;
          case 24: {
            M x{std::move(t)};
            t = std::move(*o.t_);
            *o.t_ = std::move(x);
            std::swap(m, o.m_);
            break;
          }
          case 25:
            if constexpr (A::copyable) {
              std::vector<typename A::entry> l;
              for (auto i = c.u(10); i != 0; --i) {
                auto const x = static_cast<std::int64_t>(c.u(domain - 1));
                l.push_back(A::mk(x, x + 1));
                m.emplace(x, value(x, x + 1));
              }
              t.insert(begin(l), end(l));
            }
            break;
          case 26:
            if constexpr (A::copyable && !std::is_same_v<typename K::T, tracked>) {
              PBT_EQ(t == *o.t_, m == o.m_);
              M x;  // same contents, another history
              for (auto it = m.rbegin(); it != m.rend(); ++it) {
                x.emplace(A::mk(it->first, it->second));
              }
              PBT_CHECK(x == t && t == x);
              if (!m.empty() && A::is_map) {
                auto const d = begin(m)->first;
                x.erase(K::mk(d));
                PBT_CHECK(!(x == t) && !(t == x));
                x.emplace(A::mk(d, m[d] + 1));
                PBT_CHECK(!(x == t) && !(t == x));
              }
            }
            break;
          case 27:
          case 28:
            if constexpr (!std::is_same_v<typename K::T, tracked>) {  // through the serializer
              c.log("serialize");
              auto buf = cista::serialize<cista::mode::WITH_INTEGRITY>(t);
              same(t, m, k);
              auto* d = cista::deserialize<M, cista::mode::WITH_INTEGRITY>(buf);
              same(*d, m, k);
              if (s.t_ == &s.own_) {
                s.own_.clear();
              } else {
                s.t_->~M();
              }
              bufs.push_back(std::move(buf));
              s.t_ = d;
            }
            break;
          case 29:
            if constexpr (A::is_map) {
              for (auto& e : t) {
                auto const x = A::k(e);
                if (x % 2 == 0) {
                  e.second = V::mk((x + 3) & 127);
                  m[x] = (x + 3) & 127;
                }
              }
            }
            break;
          case 30: {  // grow with fresh keys
            auto const base = static_cast<std::int64_t>(c.u(200));
            for (auto i = static_cast<std::int64_t>(c.chance(1, 20) ? c.u(600) : c.u(30)); i != 0; --i) {
              t.emplace(A::mk(base + i, i & 127));
              m.emplace(base + i, value(base + i, i & 127));
            }
            break;
          }
          default: {  // churn: one key after the other comes and goes
            for (auto i = static_cast<std::int64_t>(c.u(40)); i != 0; --i) {
              auto const x = 300 + i;
              if (m.find(x) == m.end()) {
                PBT_CHECK(t.emplace(A::mk(x, i)).second);
                PBT_EQ(t.erase(K::mk(x)), std::size_t{1});
                ++n_erased;
              }
            }
          }
        }
        max_size = std::max(max_size, static_cast<unsigned>(m.size()));
        same(*s.t_, s.m_, k);
        transparent(*s.t_, s.m_, k);
      }
      same(*a.t_, a.m_, 1);
      same(*b.t_, b.m_, 1);
    }
    c.nontrivial_if(n_erased > 1 && n_reinserted != 0 && max_size > 7);
  }

  template <typename T>
  static auto emplace_parts(T& t, std::int64_t k, std::int64_t v) {
    if constexpr (A::is_map) {
      return t.emplace(K::mk(k), V::mk(v));
    } else {
      return t.emplace(K::mk(k));
    }
  }

  // lookups with other kinds of strings
  static void transparent(M& t, model const& m, std::int64_t k) {
    using T = typename K::T;
    if constexpr (std::is_same_v<T, cista::offset::string> || std::is_same_v<T, cista::raw::string>) {
      auto const s = k_str<T>::text(k);
      auto const present = m.find(k) != m.end();
      PBT_EQ(t.find(s) != t.end(), present);
      PBT_EQ(t.find(std::string_view{s}) != t.end(), present);
      PBT_EQ(t.find(cista::raw::string_view{s}) != t.end(), present);
      PBT_EQ(t.find(cista::offset::string_view{s}) != t.end(), present);
      PBT_EQ(t.find(cista::raw::string{s}) != t.end(), present);
      if (present) {
        PBT_EQ(V::of(t.at(std::string_view{s})), m.at(k));
      } else {
        PBT_EQ(t.erase(std::string_view{s}), std::size_t{0});
      }
    }
  }
};

template <typename A>
void tables(pbt::Ctx& c) {
  fixture<A>::run(c);
}

namespace r = cista::raw;
namespace o = cista::offset;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using pr = cista::pair<std::uint8_t, std::uint16_t>;

#define MAP(N, ID, K, V, Q) \
  PBT_REG(ID, #ID, (tables<as_map<N::hash_map<typename K::T, typename V::T>, K, V>>), Q, Q * 60)
#define MAPH(N, ID, K, V, Q)                                                                         \
  PBT_REG(ID, #ID, (tables<as_map<N::hash_map<typename K::T, typename V::T, any_hash<typename K::T>>, K, V>>), \
          Q, Q * 60)
#define SET(N, ID, K, Q) PBT_REG(ID, #ID, (tables<as_set<N::hash_set<typename K::T>, K>>), Q, Q * 60)
#define SETH(N, ID, K, Q) \
  PBT_REG(ID, #ID, (tables<as_set<N::hash_set<typename K::T, any_hash<typename K::T>>, K>>), Q, Q * 60)

#if GROUP == 1
MAPH(o, map_int_o, k_int<u32>, k_int<u64>, 5000)
MAPH(r, map_int_r, k_int<u64>, k_int<std::uint8_t>, 5000)
SETH(o, set_int_o, k_int<std::uint16_t>, 4000)
SETH(r, set_int_r, k_int<u64>, 4000)
#elif GROUP == 2
MAP(o, map_str_vec_o, k_str<o::string>, k_vec<o::vector<u32>>, 2500)
MAP(r, map_str_vec_r, k_str<r::string>, k_vec<r::vector<u32>>, 2500)
SET(o, set_str_o, k_str<o::string>, 2500)
SET(r, set_str_r, k_str<r::string>, 2500)
#else
MAP(o, map_pair_uniq_o, k_pair<pr>, k_uniq<o::unique_ptr<u64>>, 2500)
MAP(r, map_pair_uniq_r, k_pair<pr>, k_uniq<r::unique_ptr<u64>>, 2500)
MAP(r, map_tracked_r, k_tracked, k_tracked, 2500)
MAP(o, map_tracked_o, k_tracked, k_tracked, 2500)
SET(r, set_tracked, k_tracked, 2000)
MAP(o, map_int_str, k_int<std::uint16_t>, k_str<o::string>, 2500)
MAP(r, map_int_default, k_int<std::int32_t>, k_int<std::int32_t>, 2500)
#endif

}  // namespace

#if GROUP == 1
// known finding: move assignment drops what the target owned
PBT_TARGET(known_move_assign_leak, 0, 0) {
  auto const leaks = no_tracked_leak{};
  r::hash_map<int, tracked> a, b;
  a.emplace(1, tracked{1});
  b.emplace(2, tracked{2});
  a = std::move(b);
  PBT_EQ(a.size(), 1U);
}
#endif
