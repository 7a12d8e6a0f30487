// C29 (memory): an allocation that fails is reported, and nothing is lost,
// corrupted or leaked by it.
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fault.h"
#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"
#include "cista/containers/vecvec.h"
#include "cista/serialization.h"

namespace {
using pbt::Ctx;
using fault::attempt;
namespace O = cista::offset;
namespace R = cista::raw;

std::string text(unsigned const v) {
  return v % 4U == 0U ? std::to_string(v)
                      : "a text that is kept on the heap, number " + std::to_string(v);
}

template <typename T>
struct el {
  static T mk(unsigned const v) {
    if constexpr (std::is_integral_v<T>) {
      return static_cast<T>(v);
    } else if constexpr (std::is_constructible_v<T, std::string>) {
      return T{text(v)};
    } else {
      using E = std::decay_t<decltype(std::declval<T>()[0])>;
      auto x = T{};
      for (auto i = 0U; i != v % 5U; ++i) {
        x.push_back(el<E>::mk(v + i));
      }
      x.push_back(el<E>::mk(v));
      return x;
    }
  }
  static bool is(T const& x, unsigned const v) { return x == mk(v); }
};

template <typename V>
constexpr auto has_clear(int) -> decltype(std::declval<V&>().clear(), true) {
  return true;
}
template <typename V>
constexpr bool has_clear(...) {
  return false;
}

// A value that can be moved to a buffer: its storage is not its own then.
template <typename V>
struct subject {
  subject() = default;
  subject(subject const&) = delete;
  subject& operator=(subject const&) = delete;
  ~subject() {
    if (frozen_ != nullptr) {
      // Only storage of its own is cleared by the destructor.
      if constexpr (has_clear<V>(0)) {
        frozen_->clear();
      }
      frozen_->~V();
    }
  }
  V& freeze(Ctx& c) {
    c.log("-> buffer");
    buf_ = cista::serialize(own_);
    frozen_ = cista::deserialize<V>(buf_);
    return *frozen_;
  }

  V own_{};
  cista::byte_buf buf_;
  V* frozen_{nullptr};
};

// Every block the library has allocated in a case has to be free at its end.
struct no_leaks {
  no_leaks() : before_{fault::st().live_} {}
  void check() const {
    PBT_EQ(fault::st().live_, before_, "blocks still allocated at the end");
  }
  long before_;
};

template <typename V, typename T>
void same(V const& v, std::vector<unsigned> const& m) {
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  auto i = std::size_t{0U};
  for (auto const& x : v) {
    PBT_CHECK(el<T>::is(x, m[i]), "element %zu", i);
    ++i;
  }
  PBT_EQ(i, m.size());
}

// A valid object of unspecified content: every element is one of those.
template <typename V, typename T>
void some_of(V const& v, std::set<unsigned> const& all) {
  auto n = std::size_t{0U};
  for (auto const& x : v) {
    PBT_CHECK(std::any_of(begin(all), end(all), [&](auto const a) { return el<T>::is(x, a); }),
              "element %zu was never stored", n);
    ++n;
  }
  PBT_EQ(n, static_cast<std::size_t>(v.size()));
}

template <typename V, typename T>
void vec(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    auto frozen = false;
    subject<V> sub;
    std::vector<unsigned> m;
    auto val = 0U;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.len_big(5, 30); n != 0U; --n) {
        sub.own_.push_back(el<T>::mk(++val));
        m.push_back(val);
      }
    }
    auto& v = frozen ? sub.freeze(c) : sub.own_;
    same<V, T>(v, m);
    auto const next = [&]() { return val += 1U + c.u(2U); };
    auto const range = [&]() {
      std::vector<unsigned> r(c.len_big(4, 20));
      for (auto& x : r) {
        x = next();
      }
      return r;
    };
    auto const els = [](std::vector<unsigned> const& r) {
      std::vector<T> x;
      x.reserve(r.size());
      for (auto const a : r) {
        x.push_back(el<T>::mk(a));
      }
      return x;
    };
    // After a failure that leaves unspecified content.
    auto const weak = [&](std::vector<unsigned> const& more, unsigned const init = 0U) {
      std::set<unsigned> all(m.begin(), m.end());
      all.insert(more.begin(), more.end());
      all.insert(init);
      some_of<V, T>(v, all);
      v.clear();
      m.clear();
    };
    for (auto n = 3U + c.u(40U); n != 0U; --n) {
      auto bad = false;
      switch (c.u(12U)) {
        case 0:
        case 1: {
          auto const i = next();
          auto const x = el<T>::mk(i);
          if (!(bad = attempt(c, "push_back(copy)", [&]() { v.push_back(x); }))) {
            m.push_back(i);
          }
          PBT_CHECK(el<T>::is(x, i), "the argument");
          break;
        }
        case 2: {
          auto const i = next();
          auto x = el<T>::mk(i);
          if (!(bad = attempt(c, "push_back(move)", [&]() { v.push_back(std::move(x)); }))) {
            m.push_back(i);
          } else {
            PBT_CHECK(el<T>::is(x, i), "the argument was lost");
          }
          break;
        }
        case 3: {
          auto const i = next();
          auto const x = el<T>::mk(i);
          if (!(bad = attempt(c, "emplace_back", [&]() { v.emplace_back(x); }))) {
            m.push_back(i);
          }
          break;
        }
        case 4: {
          auto const want = c.len_big(20, 200);
          bad = attempt(c, "reserve", [&]() { v.reserve(static_cast<typename V::size_type>(want)); });
          PBT_CHECK(bad || v.allocated_size_ >= want, "reserve(%zu)", static_cast<std::size_t>(want));
          break;
        }
        case 5: {
          auto const want = c.len_big(8, 40);
          auto const i = next();
          auto const x = el<T>::mk(i);
          if (want > m.size() && (bad = attempt(c, "resize(n, x)", [&]() {
                                    v.resize(static_cast<typename V::size_type>(want), x);
                                  }))) {
            // All of the old ones are still there, followed by new ones.
            PBT_CHECK(v.size() >= m.size() && v.size() <= want, "size %zu",
                      static_cast<std::size_t>(v.size()));
            m.resize(v.size(), i);
          } else if (want > m.size()) {
            m.resize(want, i);
          } else {
            v.resize(static_cast<typename V::size_type>(want), x);
            m.resize(want);
          }
          break;
        }
        case 6: {
          auto const at = c.idx(m.size() + 1U);
          auto const i = next();
          auto const x = el<T>::mk(i);
          if (c.chance(1, 3)) {
            auto const cnt = c.u(9U);
            if ((bad = attempt(c, "insert(pos, n, x)", [&]() {
                   v.insert(v.begin() + at, static_cast<typename V::size_type>(cnt), x);
                 }))) {
              weak({i});
            } else {
              m.insert(m.begin() + static_cast<long>(at), cnt, i);
            }
            break;
          }
          if (!(bad = attempt(c, "insert(pos, x)", [&]() { v.insert(v.begin() + at, x); }))) {
            m.insert(m.begin() + static_cast<long>(at), i);
          }
          break;
        }
        case 7: {
          auto const at = c.idx(m.size() + 1U);
          auto const r = range();
          auto x = els(r);
          if (c.flip()) {
            if ((bad = attempt(c, "insert(pos, copied range)",
                               [&]() { v.insert(v.begin() + at, x.begin(), x.end()); }))) {
              weak(r);
            } else {
              m.insert(m.begin() + static_cast<long>(at), r.begin(), r.end());
            }
            break;
          }
          if (!(bad = attempt(c, "insert(pos, range)", [&]() {
                  v.insert(v.begin() + at, std::make_move_iterator(x.begin()),
                           std::make_move_iterator(x.end()));
                }))) {
            m.insert(m.begin() + static_cast<long>(at), r.begin(), r.end());
          }
          break;
        }
        case 8: {
          auto const r = range();
          auto const x = els(r);
          if ((bad = attempt(c, "set(range)", [&]() { v.set(x.begin(), x.end()); }))) {
            weak(r);
          } else {
            m = r;
          }
          break;
        }
        case 9: {
          bad = attempt(c, "copy", [&]() {
            auto const w = v;
            (void)w;
          });
          break;
        }
        case 10: {
          auto const r = range();
          V w;
          for (auto const i : r) {
            w.push_back(el<T>::mk(i));
          }
          if ((bad = attempt(c, "v = w", [&]() { v = w; }))) {
            weak(r);
          } else {
            m = r;
          }
          same<V, T>(w, r);
          break;
        }
        case 11: {
          auto const r = range();
          auto const x = els(r);
          auto const i = next();
          auto const y = el<T>::mk(i);
          auto const cnt = c.u(5U);
          bad = attempt(c, "construct", [&]() {
            auto const a = V(x.begin(), x.end());
            auto const b = V(static_cast<typename V::size_type>(cnt), y);
            auto const d = V{y, y, y};
            (void)a, (void)b, (void)d;
          });
          break;
        }
        default: {
          if (!m.empty() && c.flip()) {
            v.pop_back();
            m.pop_back();
          } else if (!m.empty()) {
            auto const at = c.idx(m.size());
            v.erase(v.begin() + at);
            m.erase(m.begin() + static_cast<long>(at));
          }
        }
      }
      bad ? ++failed : ++ok;
      same<V, T>(v, m);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename S, typename K, bool IsMap>
void hash(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    auto frozen = false;
    subject<S> sub;
    std::map<unsigned, unsigned> m;
    auto val = 0U;
    auto const entry = [](unsigned const k, unsigned const v) {
      if constexpr (IsMap) {
        return cista::pair<K, typename S::mapped_type>{el<K>::mk(k), el<typename S::mapped_type>::mk(v)};
      } else {
        (void)v;
        return el<K>::mk(k);
      }
    };
    auto const check = [&](S const& t, std::map<unsigned, unsigned> const& n) {
      PBT_EQ(static_cast<std::size_t>(t.size()), n.size());
      auto cnt = std::size_t{0U};
      for (auto const& x : t) {
        (void)x;
        ++cnt;
      }
      PBT_EQ(cnt, n.size());
      for (auto const& [k, v] : n) {
        auto const it = t.find(el<K>::mk(k));
        PBT_CHECK(it != t.end(), "key %u is lost", k);
        if constexpr (IsMap) {
          PBT_CHECK(el<typename S::mapped_type>::is(it->second, v), "value of %u", k);
        }
      }
    };
    // Valid, of unspecified content: what is in it can be found.
    auto const weak = [&](S& t) {
      auto cnt = std::size_t{0U};
      for (auto const& x : t) {
        ++cnt;
        if constexpr (IsMap) {
          PBT_CHECK(t.find(x.first) != t.end(), "an element cannot be found");
        } else {
          PBT_CHECK(t.find(x) != t.end(), "an element cannot be found");
        }
      }
      PBT_EQ(cnt, static_cast<std::size_t>(t.size()));
      t.clear();
    };
    auto const keys = 1U + c.u(60U);
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.u(40U); n != 0U; --n) {
        auto const k = c.u(keys);
        sub.own_.emplace(entry(k, ++val));
        m.emplace(k, val);
      }
    }
    auto& s = frozen ? sub.freeze(c) : sub.own_;
    check(s, m);
    for (auto n = 3U + c.u(60U); n != 0U; --n) {
      auto bad = false;
      auto const k = c.u(keys);
      auto const v = ++val;
      switch (c.u(8U)) {
        case 0:
        case 1: {
          auto const e = entry(k, v);
          if (!(bad = attempt(c, "insert", [&]() { s.insert(e); }))) {
            m.emplace(k, v);
          }
          break;
        }
        case 2: {
          auto e = entry(k, v);
          if (!(bad = attempt(c, "emplace(move)", [&]() { s.emplace(std::move(e)); }))) {
            m.emplace(k, v);
          }
          break;
        }
        case 3:
        case 4: {
          if constexpr (IsMap) {
            auto const x = el<K>::mk(k);
            auto y = el<typename S::mapped_type>::mk(v);
            if (!(bad = attempt(c, "m[k] = v", [&]() { s[x] = std::move(y); }))) {
              m[k] = v;
            }
          } else {
            auto const x = el<K>::mk(k);
            if (!(bad = attempt(c, "emplace", [&]() { s.emplace(x); }))) {
              m.emplace(k, v);
            }
          }
          break;
        }
        case 5: {
          bad = attempt(c, "copy", [&]() {
            auto const t = s;
            (void)t;
          });
          break;
        }
        case 6: {
          S t;
          std::map<unsigned, unsigned> tm;
          for (auto i = c.u(10U); i != 0U; --i) {
            t.emplace(entry(i, v));
            tm.emplace(i, v);
          }
          if ((bad = attempt(c, "t = s", [&]() { t = s; }))) {
            weak(t);
          } else {
            check(t, m);
          }
          break;
        }
        case 7: {
          bad = attempt(c, "rehash", [&]() { s.rehash(); });
          break;
        }
        default: {
          PBT_EQ(s.erase(el<K>::mk(k)), m.erase(k));
          break;
        }
      }
      bad ? ++failed : ++ok;
      check(s, m);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 4U);
}

template <typename S>
void str(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<cista::array<S, 2U>> sub;
    std::string m[2];
    auto val = 0U;
    auto frozen = false;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto i = 0U; i != 2U; ++i) {
        m[i] = text(c.u(8U));
        sub.own_[i] = std::string_view{m[i]};
      }
    }
    auto& s = frozen ? sub.freeze(c) : sub.own_;
    for (auto n = 3U + c.u(25U); n != 0U; --n) {
      auto const i = c.u(1U);
      auto const t = c.chance(1, 4) ? std::string(c.u(40U), 'x') : text(++val);
      auto bad = false;
      switch (c.u(6U)) {
        case 5:
          if (!(bad = attempt(c, "copy_from", [&]() { s[i].copy_from(s[1U - i]); }))) {
            m[i] = m[1U - i];
          }
          break;
        case 0:
          if (!(bad = attempt(c, "s = string_view", [&]() { s[i] = std::string_view{t}; }))) {
            m[i] = t;
          }
          break;
        case 1:
          if (!(bad = attempt(c, "s = char const*", [&]() { s[i] = t.c_str(); }))) {
            m[i] = t;
          }
          break;
        case 2:
          if (!(bad = attempt(c, "s = t", [&]() { s[i] = s[1U - i]; }))) {
            m[i] = m[1U - i];
          }
          break;
        case 3:
          bad = attempt(c, "copy", [&]() {
            auto const x = s[i];
            auto const y = S{std::string_view{t}};
            (void)x, (void)y;
          });
          break;
        case 4:
          if (!(bad = attempt(c, "set_owning", [&]() { s[i].set_owning(t); }))) {
            m[i] = t;
          }
          break;
        default:
          s[i] = std::move(s[1U - i]);
          m[i] = std::move(m[1U - i]);
          s[1U - i].reset();
          m[1U - i].clear();
      }
      bad ? ++failed : ++ok;
      for (auto q = 0U; q != 2U; ++q) {
        PBT_EQ(std::string(s[q].view()), m[q]);
        PBT_EQ(static_cast<std::size_t>(s[q].size()), m[q].size());
      }
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename B>
void bits(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<B> sub;
    std::vector<bool> m;
    auto frozen = false;
    if (c.chance(1, 3)) {
      frozen = true;
      m.resize(c.len_big(130, 1500));
      sub.own_.resize(static_cast<typename B::size_type>(m.size()));
      for (auto i = std::size_t{0U}; i < m.size(); i += 1U + c.u(20U)) {
        sub.own_.set(static_cast<typename B::size_type>(i), true);
        m[i] = true;
      }
    }
    auto& b = frozen ? sub.freeze(c) : sub.own_;
    for (auto n = 3U + c.u(25U); n != 0U; --n) {
      auto bad = false;
      switch (c.u(4U)) {
        case 0:
        case 1: {
          auto const want = c.len_big(130, 1500);
          if (!(bad = attempt(c, "resize", [&]() { b.resize(static_cast<typename B::size_type>(want)); }))) {
            m.resize(want);
          }
          break;
        }
        case 2:
          bad = attempt(c, "copy", [&]() {
            auto const x = b;
            (void)x;
          });
          break;
        case 3: {
          B x;
          if (!(bad = attempt(c, "x = b", [&]() { x = b; }))) {
            PBT_CHECK(x == b, "copy differs");
          } else {
            PBT_CHECK(x.count() <= x.size(), "the target");
          }
          break;
        }
        default:
          if (!m.empty()) {
            auto const i = c.idx(m.size());
            b.set(static_cast<typename B::size_type>(i), true);
            m[i] = true;
          }
      }
      bad ? ++failed : ++ok;
      PBT_EQ(static_cast<std::size_t>(b.size()), m.size());
      for (auto i = std::size_t{0U}; i != m.size(); ++i) {
        PBT_CHECK(b[static_cast<typename B::size_type>(i)] == m[i], "bit %zu", i);
      }
      PBT_EQ(static_cast<std::size_t>(b.count()), static_cast<std::size_t>(std::count(m.begin(), m.end(), true)));
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

using nested = std::vector<std::vector<unsigned>>;

template <typename V, typename T>
void check_nested(V const& v, nested const& m) {
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  for (auto i = std::size_t{0U}; i != m.size(); ++i) {
    auto const b = v[static_cast<unsigned>(i)];
    PBT_EQ(static_cast<std::size_t>(b.size()), m[i].size());
    auto j = std::size_t{0U};
    for (auto const& x : b) {
      PBT_CHECK(el<T>::is(x, m[i][j]), "element %zu of %zu", j, i);
      ++j;
    }
  }
}

inline std::vector<unsigned> some(Ctx& c, unsigned& val, std::size_t const min = 0U) {
  std::vector<unsigned> r(min + c.len_big(4, 20));
  for (auto& x : r) {
    x = ++val;
  }
  return r;
}

template <typename V, typename T>
void vecvec(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    auto frozen = false;
    subject<V> sub;
    nested m;
    auto val = 0U;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.u(6U); n != 0U; --n) {
        m.push_back(some(c, val));
        std::vector<T> x;
        for (auto const i : m.back()) {
          x.push_back(el<T>::mk(i));
        }
        sub.own_.emplace_back(x);
      }
    }
    auto& v = frozen ? sub.freeze(c) : sub.own_;
    check_nested<V, T>(v, m);
    for (auto n = 3U + c.u(25U); n != 0U; --n) {
      auto bad = false;
      switch (c.u(6U)) {
        case 0:
        case 1: {
          auto const r = some(c, val);
          std::vector<T> x;
          for (auto const i : r) {
            x.push_back(el<T>::mk(i));
          }
          if (!(bad = attempt(c, "emplace_back", [&]() { v.emplace_back(std::move(x)); }))) {
            m.push_back(r);
          }
          break;
        }
        case 2: {
          if constexpr (std::is_integral_v<T>) {
            auto const a = ++val, b = ++val;
            if (!(bad = attempt(c, "emplace_back({a, b})",
                                [&]() { v.emplace_back({static_cast<T>(a), static_cast<T>(b)}); }))) {
              m.push_back({a, b});
            }
          }
          break;
        }
        case 3: {
          if constexpr (std::is_integral_v<T>) {
            auto const cnt = c.u(5U);
            if (!(bad = attempt(c, "add_back_sized", [&]() { v.add_back_sized(cnt); }))) {
              m.emplace_back(cnt);
            }
          }
          break;
        }
        case 4: {
          if (!m.empty()) {
            auto const k = c.idx(m.size());
            auto const i = ++val;
            auto x = el<T>::mk(i);
            if (!(bad = attempt(c, "bucket.push_back",
                                [&]() { v[static_cast<unsigned>(k)].push_back(std::move(x)); }))) {
              m[k].push_back(i);
            }
          }
          break;
        }
        case 5: {
          auto const want = m.size() + c.u(5U);
          if (!(bad = attempt(c, "resize", [&]() { v.resize(want); }))) {
            m.resize(want);
          }
          break;
        }
        default:
          bad = attempt(c, "copy", [&]() {
            auto const w = v;
            (void)w;
          });
      }
      bad ? ++failed : ++ok;
      check_nested<V, T>(v, m);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename M, typename T>
void matrix(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    M x;
    std::vector<unsigned> m;  // row by row
    auto rows = std::size_t{0U}, cols = std::size_t{0U};
    auto val = 0U;
    auto const check = [&](M const& a) {
      PBT_EQ(static_cast<std::size_t>(a.n_rows_), rows);
      PBT_EQ(static_cast<std::size_t>(a.n_columns_), cols);
      for (auto i = std::size_t{0U}; i != rows; ++i) {
        auto j = std::size_t{0U};
        for (auto const& e : a[static_cast<unsigned>(i)]) {
          PBT_CHECK(el<T>::is(e, m[i * cols + j]), "row %zu column %zu", i, j);
          ++j;
        }
        PBT_EQ(j, cols);
      }
    };
    for (auto n = 3U + c.u(25U); n != 0U; --n) {
      auto bad = false;
      switch (c.u(4U)) {
        case 0:
        case 1: {
          // Resized over and over: what was in the rows is overwritten.
          auto const r = c.u(9U), k = c.u(9U);
          if (!(bad = attempt(c, "resize", [&]() { x.resize(r, k); }))) {
            rows = r;
            cols = k;
            m.resize(r * k);
            for (auto i = std::size_t{0U}; i != m.size(); ++i) {
              x(static_cast<unsigned>(i / k), static_cast<unsigned>(i % k)) = el<T>::mk(m[i] = ++val);
            }
          }
          break;
        }
        case 2: {
          auto const v = ++val;
          auto const e = el<T>::mk(v);
          if (!(bad = attempt(c, "reset", [&]() { x.reset(e); }))) {
            std::fill(begin(m), end(m), v);
          } else {
            for (auto i = std::size_t{0U}; i != m.size(); ++i) {
              if (el<T>::is(x(static_cast<unsigned>(i / cols), static_cast<unsigned>(i % cols)), v)) {
                m[i] = v;
              }
            }
          }
          break;
        }
        case 3:
          bad = attempt(c, "copy", [&]() {
            auto const w = x;
            check(w);
          });
          break;
        default: {
          M w;
          if (!(bad = attempt(c, "copy assignment", [&]() { w = x; }))) {
            check(w);
          }
        }
      }
      bad ? ++failed : ++ok;
      check(x);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename M>
void fws(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<M> sub;
    nested m;
    auto val = 0U;
    auto frozen = false;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.u(6U); n != 0U; --n) {
        m.push_back(some(c, val));
        sub.own_.emplace_back();
        for (auto const i : m.back()) {
          sub.own_[static_cast<unsigned>(m.size() - 1U)].push_back(i);
        }
      }
    }
    auto& x = frozen ? sub.freeze(c) : sub.own_;
    check_nested<M, unsigned>(x, m);
    for (auto n = 3U + c.u(50U); n != 0U; --n) {
      auto bad = false;
      auto const k = m.empty() ? 0U : c.idx(m.size());
      switch (m.empty() ? 0U : c.u(6U)) {
        case 0: {
          if (!(bad = attempt(c, "emplace_back", [&]() { x.emplace_back(); }))) {
            m.emplace_back();
          }
          break;
        }
        case 1:
        case 2: {
          for (auto q = c.u(5U); !bad && q != 0U; --q) {
            auto const i = ++val;
            if (!(bad = attempt(c, "bucket.push_back", [&]() { x[static_cast<unsigned>(k)].push_back(i); }))) {
              m[k].push_back(i);
            }
          }
          break;
        }
        case 3: {
          auto const want = c.u(20U);
          bad = attempt(c, "bucket.reserve", [&]() { x[static_cast<unsigned>(k)].reserve(want); });
          break;
        }
        case 4: {
          auto const i = ++val;
          auto b = x[static_cast<unsigned>(k)];
          auto const at = c.idx(m[k].size() + 1U);
          if (!(bad = attempt(c, "bucket.insert", [&]() { b.insert(std::next(b.begin(), static_cast<long>(at)), i); }))) {
            m[k].insert(m[k].begin() + static_cast<long>(at), i);
          }
          break;
        }
        case 5: {
          bad = attempt(c, "copy", [&]() {
            auto const w = x;
            (void)w;
          });
          break;
        }
        default: {
          auto const want = c.u(20U);
          auto const i = ++val;
          if (!(bad = attempt(c, "bucket.resize", [&]() { x[static_cast<unsigned>(k)].resize(want, i); }))) {
            m[k].resize(want, i);
          }
        }
      }
      bad ? ++failed : ++ok;
      check_nested<M, unsigned>(x, m);
      auto cnt = std::size_t{0U};
      for (auto const& b : m) {
        cnt += b.size();
      }
      PBT_EQ(static_cast<std::size_t>(x.element_count()), cnt);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 4U);
}

template <typename P>
void paged(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<P> sub;
    nested m;
    auto val = 0U;
    auto frozen = false;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.u(6U); n != 0U; --n) {
        m.push_back(some(c, val));
        sub.own_.emplace_back(m.back());
      }
    }
    auto& x = frozen ? sub.freeze(c) : sub.own_;
    check_nested<P, unsigned>(x, m);
    for (auto n = 3U + c.u(40U); n != 0U; --n) {
      auto bad = false;
      auto const k = m.empty() ? 0U : c.idx(m.size());
      switch (m.empty() ? 0U : c.u(4U)) {
        case 0: {
          auto const r = some(c, val);
          if (!(bad = attempt(c, "emplace_back", [&]() { x.emplace_back(r); }))) {
            m.push_back(r);
          }
          break;
        }
        case 1:
        case 2: {
          for (auto q = c.u(8U); !bad && q != 0U; --q) {
            auto const i = ++val;
            if (!(bad = attempt(c, "bucket.push_back", [&]() { x[static_cast<unsigned>(k)].push_back(i); }))) {
              m[k].push_back(i);
            }
          }
          break;
        }
        case 3: {
          auto const r = some(c, val);
          if (!(bad = attempt(c, "insert", [&]() { x.insert(static_cast<unsigned>(k), r); }))) {
            m.insert(m.begin() + static_cast<long>(k), r);
          }
          break;
        }
        default:
          bad = attempt(c, "copy", [&]() {
            auto const w = x;
            (void)w;
          });
      }
      bad ? ++failed : ++ok;
      check_nested<P, unsigned>(x, m);
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename NV>
void nvec(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<NV> sub;
    std::vector<nested> m;
    auto val = 0U;
    auto const gen = [&]() {
      nested q(c.u(3U));
      for (auto& s : q) {
        s = some(c, val);
      }
      return q;
    };
    auto frozen = false;
    if (c.chance(1, 3)) {
      frozen = true;
      for (auto n = c.u(6U); n != 0U; --n) {
        m.push_back(gen());
        sub.own_.emplace_back(m.back());
      }
    }
    auto& x = frozen ? sub.freeze(c) : sub.own_;
    for (auto n = 3U + c.u(20U); n != 0U; --n) {
      auto const r = gen();
      auto const bad = attempt(c, "emplace_back", [&]() { x.emplace_back(r); });
      if (!bad) {
        m.push_back(r);
      }
      bad ? ++failed : ++ok;
      PBT_EQ(static_cast<std::size_t>(x.size()), m.size());
      for (auto i = std::size_t{0U}; i != m.size(); ++i) {
        PBT_EQ(static_cast<std::size_t>(x.size(static_cast<unsigned>(i))), m[i].size());
        for (auto j = std::size_t{0U}; j != m[i].size(); ++j) {
          auto const b = x.at(static_cast<unsigned>(i), static_cast<unsigned>(j));
          PBT_EQ(static_cast<std::size_t>(b.size()), m[i][j].size());
          PBT_CHECK(std::equal(b.begin(), b.end(), m[i][j].begin(), m[i][j].end()), "bucket %zu %zu", i, j);
        }
      }
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 2U);
}

template <typename T>
void rtree(Ctx& c) {
  auto const leaks = no_leaks{};
  auto failed = 0U, ok = 0U;
  {
    subject<T> sub;
    std::multiset<unsigned> m;
    auto const n = 5U + c.u(60U);
    auto const old = c.chance(1, 3) ? c.u(40U) : std::uint64_t{0U};
    for (auto i = 0U; i != old; ++i) {
      auto const x = static_cast<float>(c.u(30U)), y = static_cast<float>(c.u(30U));
      sub.own_.insert({x, y}, {x + 1.F, y}, i + 1000U);
      m.insert(i + 1000U);
    }
    auto& t = old != 0U ? sub.freeze(c) : sub.own_;
    for (auto i = 0U; i != n; ++i) {
      auto const x = static_cast<float>(c.u(30U)), y = static_cast<float>(c.u(30U));
      auto const bad = attempt(c, "insert", [&]() { t.insert({x, y}, {x + 1.F, y}, i); });
      if (!bad) {
        m.insert(i);
      }
      bad ? ++failed : ++ok;
      std::multiset<unsigned> found;
      t.search({-1.F, -1.F}, {100.F, 100.F}, [&](auto&&, auto&&, unsigned const v) {
        found.insert(v);
        return true;
      });
      PBT_CHECK(found == m, "%zu values found, %zu are in the index", found.size(), m.size());
    }
  }
  leaks.check();
  c.nontrivial_if(failed > 1U && ok > 4U);
}

PBT_REG(v_r32, "vector_raw_u32", (vec<R::vector<std::uint32_t>, std::uint32_t>), 4000, 400000)
PBT_REG(v_o32, "vector_offset_u32", (vec<O::vector<std::uint32_t>, std::uint32_t>), 4000, 400000)
PBT_REG(v_rs, "vector_raw_string", (vec<R::vector<R::string>, R::string>), 6000, 400000)
PBT_REG(v_oc, "vector_offset_cstring", (vec<O::vector<O::cstring>, O::cstring>), 6000, 400000)
PBT_REG(v_rv, "vector_raw_vector", (vec<R::vector<R::vector<R::string>>, R::vector<R::string>>), 4000, 300000)

using hs_r = R::hash_set<std::uint32_t>;
using hs_o = O::hash_set<O::string>;
using hm_r = R::hash_map<std::uint32_t, R::string>;
using hm_o = O::hash_map<O::string, O::vector<O::string>>;
PBT_REG(h_sr, "set_raw_u32", (hash<hs_r, std::uint32_t, false>), 3000, 250000)
PBT_REG(h_so, "set_offset_string", (hash<hs_o, O::string, false>), 3000, 250000)
PBT_REG(h_mr, "map_raw_u32", (hash<hm_r, std::uint32_t, true>), 3000, 250000)
PBT_REG(h_mo, "map_offset_string", (hash<hm_o, O::string, true>), 3000, 250000)

PBT_REG(s_r, "string_raw", str<R::string>, 4000, 300000)
PBT_REG(s_o, "string_offset", str<O::string>, 4000, 300000)
PBT_REG(s_cr, "cstring_raw", str<R::cstring>, 4000, 300000)
PBT_REG(s_co, "cstring_offset", str<O::cstring>, 4000, 300000)

PBT_REG(b_r, "bitvec_raw", bits<R::bitvec>, 1500, 100000)
PBT_REG(b_o, "bitvec_offset", bits<O::bitvec>, 1500, 100000)

using vv_r = R::vecvec<std::uint32_t, std::uint32_t>;
using vv_s = O::vecvec<std::uint32_t, O::string>;
PBT_REG(m_r32, "matrix_raw_u32", (matrix<R::flat_matrix<std::uint32_t>, std::uint32_t>), 3000, 200000)
PBT_REG(m_os, "matrix_offset_string", (matrix<O::flat_matrix<O::string>, O::string>), 3000, 200000)
PBT_REG(vv_r32, "vecvec_raw_u32", (vecvec<vv_r, std::uint32_t>), 4000, 300000)
PBT_REG(vv_os, "vecvec_offset_string", (vecvec<vv_s, O::string>), 4000, 300000)

using fws_r = R::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
using fws_o = O::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
PBT_REG(f_r, "multimap_raw", fws<fws_r>, 4000, 300000)
PBT_REG(f_o, "multimap_offset", fws<fws_o>, 4000, 300000)

template <typename V, typename Pg = cista::paged<V>>
using pv_raw = cista::paged_vecvec<R::vector<typename Pg::page_t>, Pg, std::uint32_t>;
using pg_r = pv_raw<R::vector<std::uint32_t>>;
PBT_REG(p_r, "paged_raw", paged<pg_r>, 3000, 200000)

using nv_r = R::nvec<std::uint32_t, std::uint32_t, 2U>;
PBT_REG(n_r, "nvec_raw", nvec<nv_r>, 4000, 300000)

using rt_r = R::rtree<std::uint32_t, 2U, float, 4U>;
PBT_REG(r_r, "rtree_raw", rtree<rt_r>, 1500, 100000)

}  // namespace
