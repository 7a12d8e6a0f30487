// C14: nested vectors and the flat matrix against vectors of vectors.
#include <forward_list>
#include <list>
#include <numeric>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

#include "pbt.h"

#include "elems.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vecvec.h"
#include "cista/serialization.h"
#include "cista/strong.h"

namespace {
using pbt::Ctx;
namespace o = cista::offset;
namespace r = cista::raw;
using skey = cista::strong<std::uint32_t, struct skey_>;
using skey16 = cista::strong<std::uint16_t, struct skey16_>;
using skey64 = cista::strong<std::uint64_t, struct skey64_>;

template <typename T>
struct el {
  using m = T;
  static m gen(Ctx& c) { return static_cast<T>(c.flip() ? c.u(255) : c.num<T>()); }
  static T mk(m const& x) { return x; }
  static m un(T const& x) { return x; }
};
template <>
struct el<char> {
  using m = char;
  static m gen(Ctx& c) { return static_cast<char>('a' + c.u(25)); }
  static char mk(m const& x) { return x; }
  static m un(char const& x) { return x; }
};
template <>
struct el<tracked> {
  using m = std::int64_t;
  static m gen(Ctx& c) { return static_cast<m>(c.u(1000)); }
  static tracked mk(m const& x) { return tracked{x}; }
  static m un(tracked const& x) { return x.get(); }
};
template <typename S>
struct el_str {
  using m = std::string;
  static m gen(Ctx& c) { return c.str(30, false); }
  static S mk(m const& x) { return S{x}; }
  static m un(S const& x) { return std::string{x.view()}; }
};
template <>
struct el<r::string> : el_str<r::string> {};
template <>
struct el<o::string> : el_str<o::string> {};

struct trio {
  std::uint32_t a_, b_;
  std::uint16_t c_;
  bool operator==(trio const& x) const { return a_ == x.a_ && b_ == x.b_ && c_ == x.c_; }
};
template <>
struct el<trio> {
  using m = trio;
  static m gen(Ctx& c) { return trio{c.num<std::uint32_t>(), static_cast<std::uint32_t>(c.u(9)), c.num<std::uint16_t>()}; }
  static trio mk(m const& x) { return x; }
  static m un(trio const& x) { return x; }
};

template <typename T>
using mv = std::vector<typename el<T>::m>;
template <typename T>
using mvv = std::vector<mv<T>>;

template <typename T>
mv<T> gen_bucket(Ctx& c, std::size_t const max = 9, std::size_t const big = 300) {
  mv<T> v;
  for (auto n = c.len_big(max, big); n != 0; --n) {
    v.push_back(el<T>::gen(c));
  }
  return v;
}
template <typename T>
std::vector<T> mks(mv<T> const& m) {
  std::vector<T> v;
  v.reserve(m.size());
  for (auto const& x : m) {
    v.emplace_back(el<T>::mk(x));
  }
  return v;
}

template <typename T, typename Bucket>
void check_bucket(Ctx& c, Bucket&& b, mv<T> const& m) {
  PBT_EQ(static_cast<std::size_t>(b.size()), m.size());
  PBT_EQ(b.empty(), m.empty());
  PBT_EQ(static_cast<std::size_t>(std::distance(b.begin(), b.end())), m.size());
  std::size_t i = 0;
  for (auto const& x : b) {
    PBT_CHECK(el<T>::un(x) == m[i], "element %zu by iteration", i);
    PBT_CHECK(el<T>::un(b[i]) == m[i], "element %zu by index", i);
    PBT_CHECK(el<T>::un(b.at(i)) == m[i], "element %zu by at()", i);
    PBT_CHECK(&std::as_const(b)[i] == &b[i] && &std::as_const(b).at(i) == &b[i], "element %zu of the constant bucket", i);
    ++i;
  }
  PBT_EQ(i, m.size());
  for (auto it = end(b); it != begin(b);) {
    --it;
    --i;
    PBT_CHECK(el<T>::un(*it) == m[i], "element %zu in reverse", i);
  }
  if (!m.empty()) {
    PBT_CHECK(el<T>::un(b.front()) == m.front(), "front");
    PBT_CHECK(el<T>::un(b.back()) == m.back(), "back");
    PBT_CHECK(&*std::as_const(b).begin() == &b[0] && std::as_const(b).end() - std::as_const(b).begin() == static_cast<std::ptrdiff_t>(m.size()), "range of the constant bucket");
  }
  if (c.chance(1, 16)) {
    PBT_THROWS(b.at(m.size()));
    PBT_THROWS(std::as_const(b).at(m.size()));
    PBT_THROWS(b.at(m.size() + 1 + c.u(3)));
    PBT_THROWS(b.at(~std::size_t{0}));
  }
}

// bucket iterators of the containers, forwards, backwards and by jumps
template <typename T, typename VV>
void check_iter(Ctx& c, VV& v, mvv<T> const& m) {
  std::size_t i = 0;
  for (auto b : v) {
    PBT_CHECK(i < m.size(), "too many buckets");
    check_bucket<T>(c, b, m[i]);
    ++i;
  }
  PBT_EQ(i, m.size());
  for (auto it = end(v); it != begin(v);) {
    --it;
    --i;
    PBT_CHECK(static_cast<std::size_t>((*it).size()) == m[i].size(), "bucket %zu in reverse", i);
  }
  PBT_EQ(i, std::size_t{0});
  if (!m.empty()) {
    auto const p = c.u(m.size()), q = c.u(m.size());
    auto const d = static_cast<std::ptrdiff_t>(q) - static_cast<std::ptrdiff_t>(p);
    auto a = begin(v) + static_cast<std::ptrdiff_t>(p);
    auto b = begin(v);
    b += static_cast<std::ptrdiff_t>(q);
    PBT_CHECK((a + d) == b, "bucket iterator + %td", d);
    PBT_CHECK((b - d) == a, "bucket iterator - %td", d);
    PBT_EQ(a == b, p == q);
    PBT_EQ(a != b, p != q);
    auto e = a;
    e -= static_cast<std::ptrdiff_t>(p);
    PBT_CHECK(e == begin(v), "bucket iterator -=");
    auto const f = ++e;
    PBT_CHECK(f == begin(v) + 1, "bucket iterator ++");
    if (q < m.size()) {
      check_bucket<T>(c, *b, m[q]);
      check_bucket<T>(c, b, m[q]);
    }
  }
}
template <typename VV>
void check_diff(Ctx& c, VV& v, std::size_t n) {
  auto const p = c.u(n), q = c.u(n);
  auto const d = (begin(v) + static_cast<std::ptrdiff_t>(q)) - (begin(v) + static_cast<std::ptrdiff_t>(p));
  PBT_EQ(static_cast<std::ptrdiff_t>(d), static_cast<std::ptrdiff_t>(q) - static_cast<std::ptrdiff_t>(p));
}

template <typename K>
K key(std::size_t i) {
  return static_cast<K>(static_cast<cista::base_t<K>>(i));
}

template <typename T, typename V>
void assign(V&& slot, typename el<T>::m const& x) {
  slot = el<T>::mk(x);
}

// ---------------------------------------------------------------- vecvec
template <typename VV, typename T, typename K>
void check_vecvec(Ctx& c, VV& v, mvv<T> const& m) {
  auto const& cv = v;
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  PBT_EQ(v.empty(), m.empty());
  check_iter<T>(c, v, m);
  check_iter<T>(c, cv, m);
  check_diff(c, v, m.size());
  check_diff(c, cv, m.size());
  for (std::size_t i = 0; i != m.size(); ++i) {
    auto const b = cv[key<K>(i)];
    check_bucket<T>(c, v[key<K>(i)], m[i]);
    check_bucket<T>(c, b, m[i]);
    check_bucket<T>(c, cv.at(key<K>(i)), m[i]);
    PBT_EQ(static_cast<std::size_t>(v.at(key<K>(i)).size()), m[i].size());
    PBT_CHECK(b.data() == (m[i].empty() ? nullptr : &b[0]), "data()");
    auto const mb = v[key<K>(i)];
    PBT_CHECK(mb.data() == b.data(), "data() of the mutable bucket");
    PBT_EQ(static_cast<std::size_t>(size(mb)), m[i].size());
    PBT_EQ(static_cast<std::size_t>(size(b)), m[i].size());
    PBT_CHECK(data(b) == b.data(), "free data()");
    auto k = m[i].size();
    for (auto it = b.rbegin(); it != b.rend(); ++it) {
      --k;
      PBT_CHECK(el<T>::un(*it) == m[i][k], "reverse iteration");
    }
    PBT_EQ(k, std::size_t{0});
    if constexpr (std::is_trivially_copyable_v<T> && std::is_integral_v<T>) {
      auto const w = b.view();
      PBT_CHECK(w.size() == m[i].size() && std::equal(w.begin(), w.end(), m[i].begin()), "view()");
      auto const w2 = mb.view();
      PBT_CHECK(w2.data() == w.data() && w2.size() == w.size(), "view() of the mutable bucket");
    }
  }
  if (!m.empty()) {
    check_bucket<T>(c, v.front(), m.front());
    check_bucket<T>(c, v.back(), m.back());
    check_bucket<T>(c, cv.front(), m.front());
    check_bucket<T>(c, cv.back(), m.back());
  }
  if (c.chance(1, 4)) {
    PBT_THROWS(v.at(key<K>(m.size())));
    PBT_THROWS(cv.at(key<K>(m.size())));
    PBT_THROWS(cv.at(key<K>(m.size() + 1 + c.u(5))));
  }
}

template <typename VV, typename T, typename K>
void run_vecvec(Ctx& c) {
  auto const leak = no_tracked_leak{};
  VV v;
  mvv<T> m;
  auto ins = 0U, grown = 0U, shrunk = 0U;
  for (unsigned step = 0; step < 24 && c.more(10); ++step) {
    switch (c.u(15)) {
      case 0:
      case 1: {
        if (!m.empty() && c.chance(1, 5)) {
          auto const i = c.idx(m.size());
          c.log("emplace_back([%zu])", i);
          if (c.flip()) {
            auto const own = v[key<K>(i)];
            v.emplace_back(own);
          } else {
            auto const own = static_cast<VV const&>(v)[key<K>(i)];
            v.emplace_back(own);
          }
          m.push_back(mvv<T>{m[i]}[0]);
          break;
        }
        auto const b = gen_bucket<T>(c);
        c.log("emplace_back(%zu)", b.size());
        auto src = mks<T>(b);
        switch (c.u(4)) {
          case 0: v.emplace_back(std::move(src)); break;
          case 1: v.emplace_back(static_cast<std::vector<T> const&>(src)); break;
          case 2: {
            std::list<T> l(src.begin(), src.end());
            v.emplace_back(l);
            PBT_CHECK(l.size() == b.size() && std::equal(l.begin(), l.end(), b.begin(), [](auto const& x, auto const& y) {
                        return el<T>::un(x) == y;
                      }),
                      "emplace_back changed its argument");
            break;
          }
          case 3: {
            std::forward_list<T> const l(src.begin(), src.end());
            v.emplace_back(l);
            break;
          }
          default: {
            r::vector<T> l;
            for (auto const& x : b) {
              l.emplace_back(el<T>::mk(x));
            }
            v.emplace_back(std::move(l));
          }
        }
        m.push_back(b);
        break;
      }
      case 2: {
        auto const x = el<T>::gen(c), y = el<T>::gen(c);
        c.log("emplace_back({2})");
        if constexpr (std::is_same_v<T, char>) {
          auto const s = c.str(12, false);
          v.emplace_back(s.c_str());
          v.emplace_back(std::string_view{s});
          m.push_back({s.begin(), s.end()});
          m.push_back({s.begin(), s.end()});
        } else {
          switch (c.u(3)) {
            case 0:
              v.emplace_back({el<T>::mk(x), el<T>::mk(y)});
              m.push_back({x, y});
              break;
            case 1:
              v.emplace_back({el<T>::mk(x)});
              m.push_back({x});
              break;
            case 2:
              v.emplace_back(std::initializer_list<T>{});
              m.emplace_back();
              break;
            default:
              v.emplace_back({el<T>::mk(y), el<T>::mk(x), el<T>::mk(y)});
              m.push_back({y, x, y});
          }
        }
        break;
      }
      case 3: {
        auto const n = c.len_big(6, 300);
        c.log("add_back_sized(%zu)", static_cast<std::size_t>(n));
        auto b = v.add_back_sized(n);
        PBT_EQ(static_cast<std::size_t>(b.size()), static_cast<std::size_t>(n));
        m.emplace_back();
        for (std::size_t i = 0; i != n; ++i) {
          PBT_CHECK(el<T>::un(b[i]) == el<T>::un(T{}), "new element is value-initialised");
          m.back().push_back(el<T>::gen(c));
          assign<T>(b[i], m.back().back());
        }
        break;
      }
      case 4: {
        auto const n = c.u(m.size() + 3);
        c.log("resize(%zu)", static_cast<std::size_t>(n));
        shrunk += n < m.size() ? 1U : 0U;
        v.resize(n);
        m.resize(n);
        break;
      }
      case 5: {
        if (c.chance(1, 3)) {
          c.log("clear");
          v.clear();
          m.clear();
        }
        break;
      }
      case 6:
      case 7:
      case 8: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          auto const x = el<T>::gen(c);
          c.log("[%zu].push_back", i);
          auto const from = c.idx(m.size());
          if (!m[from].empty() && c.chance(1, 4)) {
            auto const k = c.idx(m[from].size());
            auto const y = m[from][k];
            c.log("  own [%zu][%zu]", from, k);
            v[key<K>(i)].push_back(static_cast<VV const&>(v)[key<K>(from)][k]);
            m[i].push_back(y);
            ++ins;
            break;
          }
          auto const e = el<T>::mk(x);
          if (c.flip()) {
            v[key<K>(i)].push_back(e);
          } else {
            v.at(key<K>(i)).push_back(el<T>::mk(x));
          }
          m[i].push_back(x);
          ++ins;
        }
        break;
      }
      case 9: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          auto const n = c.chance(1, 10) ? c.u(600) : c.u(5);
          auto const x = el<T>::gen(c);
          c.log("[%zu].grow(+%zu)", i, static_cast<std::size_t>(n));
          if (c.chance(1, 4)) {
            v[key<K>(i)].grow(m[i].size() + n);
            m[i].resize(m[i].size() + n, el<T>::un(T{}));
          } else if (!m[i].empty() && c.chance(1, 3)) {
            auto const k = c.idx(m[i].size());
            auto const y = m[i][k];
            v[key<K>(i)].grow(m[i].size() + n, v[key<K>(i)][k]);
            m[i].resize(m[i].size() + n, y);
          } else {
            v[key<K>(i)].grow(m[i].size() + n, el<T>::mk(x));
            m[i].resize(m[i].size() + n, x);
          }
          if (!m[i].empty()) {
            PBT_THROWS(v[key<K>(i)].grow(m[i].size() - 1));
          }
          ++grown;
        }
        break;
      }
      case 10:
      case 11: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          if (!m[i].empty()) {
            auto const j = c.idx(m[i].size());
            auto const x = el<T>::gen(c);
            c.log("[%zu][%zu] = x", i, j);
            auto b = v[key<K>(i)];
            switch (c.u(5)) {
              case 0: assign<T>(b[j], x); break;
              case 1: assign<T>(b.at(j), x); break;
              case 2: assign<T>(*(b.begin() + j), x); break;
              case 3: assign<T>(*(begin(b) + j), x); break;
              case 4: assign<T>(j == 0 ? b.front() : b[j], x); break;
              default: assign<T>(j + 1 == m[i].size() ? b.back() : b[j], x); break;
            }
            m[i][j] = x;
          }
        }
        break;
      }
      case 12: {
        c.log("copy");
        auto w = v;
        check_vecvec<VV, T, K>(c, w, m);
        if (c.flip()) {
          v = w;
        } else {
          v = std::move(w);
        }
        break;
      }
      case 13: {
        c.log("move");
        auto w = std::move(v);
        v = VV{};
        check_vecvec<VV, T, K>(c, v, {});
        v = std::move(w);
        break;
      }
      default: {
        if constexpr (std::is_trivially_copyable_v<T>) {
          c.log("serialize");
          auto buf = cista::serialize(v);
          auto const* w = cista::deserialize<VV>(buf);
          check_vecvec<VV const, T, K>(c, *w, m);
          v = *w;
        }
        break;
      }
    }
    check_vecvec<VV, T, K>(c, v, m);
  }
  c.nontrivial_if(m.size() >= 2 && ins >= 1 && grown + shrunk >= 1);
}
#define VVT(N, T, K, Q, ...) \
  using N##_t = __VA_ARGS__; \
  PBT_REG(vecvec_##N, "vecvec_" #N, (run_vecvec<N##_t, T, K>), Q, Q * 300)
#if GROUP == 1
VVT(u32_o, std::uint32_t, std::uint32_t, 1125, o::vecvec<std::uint32_t, std::uint32_t>)
VVT(char_r, char, skey, 1125, r::vecvec<skey, char>)
VVT(tracked_r, tracked, skey, 1125, r::vecvec<skey, tracked>)
VVT(str_o, o::string, skey64, 750, o::vecvec<skey64, o::string>)
VVT(u8_r, std::uint8_t, std::uint64_t, 750, r::vecvec<std::uint64_t, std::uint8_t>)
VVT(trio_o, trio, skey16, 750, o::vecvec<skey16, trio>)
#endif

#if GROUP == 2
// ---------------------------------------------------------------- nvec
template <typename T, std::size_t D>
struct nested {
  using type = std::vector<typename nested<T, D - 1>::type>;
};
template <typename T>
struct nested<T, 0> {
  using type = T;
};
template <typename T, std::size_t D>
typename nested<typename el<T>::m, D>::type gen_nested(Ctx& c) {
  typename nested<typename el<T>::m, D>::type v;
  if constexpr (D == 1) {
    v = gen_bucket<T>(c, 4, 100);
  } else {
    for (auto n = c.len(3); n != 0; --n) {
      v.push_back(gen_nested<T, D - 1>(c));
    }
  }
  return v;
}
template <typename T, std::size_t D>
auto mks_nested(typename nested<typename el<T>::m, D>::type const& m) {
  if constexpr (D == 1) {
    return mks<T>(m);
  } else {
    typename nested<T, D>::type v;
    for (auto const& x : m) {
      v.push_back(mks_nested<T, D - 1>(x));
    }
    return v;
  }
}
template <typename T, std::size_t D>
bool same_nested(typename nested<T, D>::type const& v, typename nested<typename el<T>::m, D>::type const& m) {
  return v.size() == m.size() && std::equal(v.begin(), v.end(), m.begin(), [](auto const& x, auto const& y) {
           if constexpr (D == 1) {
             return el<T>::un(x) == y;
           } else {
             return same_nested<T, D - 1>(x, y);
           }
         });
}
template <typename T, std::size_t D, typename It, typename M>
void check_level(Ctx& c, It&& it, M const& m) {
  PBT_EQ(static_cast<std::size_t>(it.size()), m.size());
  if constexpr (D == 1) {
    check_bucket<T>(c, it, m);
  } else {
    std::size_t i = 0;
    for (auto x : it) {
      PBT_CHECK(i < m.size(), "too many inner buckets");
      check_level<T, D - 1>(c, x, m[i]);
      ++i;
    }
    PBT_EQ(i, m.size());
    auto e = it.end();
    for (auto const b = it.begin(); e != b;) {
      --e;
      --i;
      PBT_CHECK(static_cast<std::size_t>((*e).size()) == m[i].size(), "inner bucket %zu in reverse", i);
    }
    if (!m.empty()) {
      i = c.idx(m.size());
      auto const j = c.u(m.size());
      check_level<T, D - 1>(c, it[static_cast<std::uint32_t>(i)], m[i]);
      auto x = it.begin() + static_cast<std::ptrdiff_t>(j);
      PBT_EQ(x == it.end(), j == m.size());
      PBT_EQ(x != it.begin(), j != 0);
      x -= static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
      check_level<T, D - 1>(c, *x, m[i]);
      PBT_CHECK((x - static_cast<std::ptrdiff_t>(i)) == it.begin(), "inner iterator - n");
      x += static_cast<std::ptrdiff_t>(m.size() - i);
      PBT_CHECK(x == it.end(), "inner iterator += n");
    }
  }
}
template <std::size_t D, typename K, typename NV, typename M, typename... Is>
void check_at(Ctx& c, NV& v, M const& m, Is... is) {
  if constexpr (sizeof...(Is) == 0) {
    for (std::size_t i = 0; i != m.size(); ++i) {
      PBT_EQ(static_cast<std::size_t>(v.size(key<K>(i))), m[i].size());
      check_at<D, K>(c, v, m[i], key<K>(i));
    }
    if (c.chance(1, 4)) {
      PBT_THROWS(v.size(key<K>(m.size())));
      PBT_THROWS(v.size(key<K>(m.size() + 1 + c.u(3))));
    }
  } else {
    PBT_EQ(static_cast<std::size_t>(v.size(is...)), m.size());
    if constexpr (sizeof...(Is) == D - 1) {
      using T = typename std::decay_t<NV>::data_value_type;
      for (std::size_t i = 0; i != m.size(); ++i) {
        check_bucket<T>(c, v.at(is..., static_cast<unsigned>(i)), m[i]);
        PBT_EQ(static_cast<std::size_t>(v.size(is..., static_cast<unsigned>(i))), m[i].size());
      }
      if (c.chance(1, 8)) {
        PBT_THROWS(v.at(is..., static_cast<unsigned>(m.size())));
        PBT_THROWS(v.size(is..., static_cast<unsigned>(m.size() + c.u(2))));
      }
    } else {
      for (std::size_t i = 0; i != m.size(); ++i) {
        check_at<D, K>(c, v, m[i], is..., static_cast<unsigned>(i));
      }
      if (c.chance(1, 8)) {
        PBT_THROWS(v.size(is..., static_cast<unsigned>(m.size() + c.u(2))));
      }
    }
  }
}
template <typename T, std::size_t D, typename K, typename NV, typename M>
void check_nvec(Ctx& c, NV& v, M const& m) {
  auto const& cv = v;
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  std::size_t i = 0;
  for (auto it = cv.begin(); it != cv.end(); ++it) {
    check_level<T, D>(c, it, m[i++]);
  }
  PBT_EQ(i, m.size());
  for (auto it = v.end(); it != v.begin();) {
    --it;
    --i;
    check_level<T, D>(c, *it, m[i]);
  }
  for (i = 0; i != m.size(); ++i) {
    check_level<T, D>(c, v[key<K>(i)], m[i]);
    check_level<T, D>(c, cv[key<K>(i)], m[i]);
  }
  if (!m.empty()) {
    check_level<T, D>(c, v.front(), m.front());
    check_level<T, D>(c, cv.front(), m.front());
    check_level<T, D>(c, v.back(), m.back());
    check_level<T, D>(c, cv.back(), m.back());
  }
  check_at<D, K>(c, v, m);
  check_at<D, K>(c, cv, m);
}
template <typename NV, typename T, std::size_t D, typename K>
void run_nvec(Ctx& c) {
  auto const leak = no_tracked_leak{};
  NV v;
  typename nested<typename el<T>::m, D + 1>::type m;
  auto writes = 0U;
  check_nvec<T, D, K>(c, v, m);
  for (unsigned step = 0; step < 12 && c.more(10); ++step) {
    switch (c.u(7)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        if (!m.empty() && c.chance(1, 5)) {
          auto const i = c.idx(m.size());
          c.log("emplace_back([%zu])", i);
          if (c.flip()) {
            auto const own = *v[key<K>(i)];
            v.emplace_back(own);
          } else {
            auto const own = *static_cast<NV const&>(v)[key<K>(i)];
            v.emplace_back(own);
          }
          auto const copy = m[i];
          m.push_back(copy);
          break;
        }
        auto const b = gen_nested<T, D>(c);
        c.log("emplace_back(%zu)", b.size());
        auto src = mks_nested<T, D>(b);
        if (c.flip()) {
          v.emplace_back(static_cast<decltype(src) const&>(src));
        } else if (c.flip()) {
          v.emplace_back(src);
        } else {
          v.emplace_back(mks_nested<T, D>(b));
        }
        PBT_CHECK((same_nested<T, D>(src, b)), "emplace_back changed its argument");
        m.push_back(b);
        break;
      }
      case 4:
      case 5: {
        // write through a path of iterators
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          auto const x = el<T>::gen(c);
          if constexpr (D == 2) {
            if (!m[i].empty()) {
              auto const j = c.idx(m[i].size());
              if (!m[i][j].empty()) {
                auto const k = c.idx(m[i][j].size());
                c.log("[%zu][%zu][%zu] = x", i, j, k);
                if (c.flip()) {
                  assign<T>(v[key<K>(i)][static_cast<unsigned>(j)][k], x);
                } else {
                  assign<T>(v.at(key<K>(i), static_cast<unsigned>(j)).at(k), x);
                }
                m[i][j][k] = x;
                ++writes;
              }
            }
          } else if constexpr (D == 3) {
            if (!m[i].empty()) {
              auto const j = c.idx(m[i].size());
              if (!m[i][j].empty()) {
                auto const k = c.idx(m[i][j].size());
                if (!m[i][j][k].empty()) {
                  auto const l = c.idx(m[i][j][k].size());
                  c.log("[%zu][%zu][%zu][%zu] = x", i, j, k, l);
                  if (c.flip()) {
                    assign<T>(v[key<K>(i)][static_cast<unsigned>(j)][static_cast<unsigned>(k)][l], x);
                  } else {
                    assign<T>(v.at(key<K>(i), static_cast<unsigned>(j), static_cast<unsigned>(k))[l], x);
                  }
                  m[i][j][k][l] = x;
                  ++writes;
                }
              }
            }
          }
        }
        break;
      }
      case 6: {
        c.log("copy/move");
        auto w = v;
        auto x = std::move(w);
        v = NV{};
        check_nvec<T, D, K>(c, v, typename nested<typename el<T>::m, D + 1>::type{});
        v = std::move(x);
        break;
      }
      default: {
        if constexpr (std::is_trivially_copyable_v<T>) {
          c.log("serialize");
          auto buf = cista::serialize(v);
          auto const* w = cista::deserialize<NV>(buf);
          check_nvec<T, D, K>(c, *w, m);
          v = *w;
        }
      }
    }
    check_nvec<T, D, K>(c, v, m);
  }
  c.nontrivial_if(m.size() >= 2 && (writes >= 1 || D == 4));
}
#define NVT(N, T, K, D, Q, ...) \
  using N##_t = __VA_ARGS__; \
  PBT_REG(nvec_##N, "nvec_" #N, (run_nvec<N##_t, T, D, K>), Q, Q * 300)
NVT(u32_2, std::uint32_t, std::uint32_t, 2, 900, o::nvec<std::uint32_t, std::uint32_t, 2>)
NVT(char_2, char, skey, 2, 900, r::nvec<skey, char, 2>)
NVT(u16_3, std::uint16_t, skey, 3, 750, o::nvec<skey, std::uint16_t, 3>)
NVT(tracked_3, tracked, skey, 3, 750, r::nvec<skey, tracked, 3>)
NVT(u8_4, std::uint8_t, skey, 4, 375, r::nvec<skey, std::uint8_t, 4>)
NVT(str_2, r::string, skey64, 2, 525, r::nvec<skey64, r::string, 2, std::uint64_t>)
#endif

#if GROUP == 3
// ---------------------------------------------------------------- paged
template <typename PV, typename T, typename K>
void check_paged(Ctx& c, PV& v, mvv<T> const& m) {
  auto const& cv = v;
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  PBT_EQ(v.empty(), m.empty());
  check_iter<T>(c, v, m);
  check_iter<T>(c, cv, m);
  if constexpr (!cista::is_strong_v<K>) {
    check_diff(c, v, m.size());
    check_diff(c, cv, m.size());
  }
  std::vector<std::pair<std::size_t, std::size_t>> spans;
  for (std::size_t i = 0; i != m.size(); ++i) {
    check_bucket<T>(c, v[key<K>(i)], m[i]);
    check_bucket<T>(c, v.at(key<K>(i)), m[i]);
    auto const b = cv[key<K>(i)];
    PBT_EQ(static_cast<std::size_t>(b.size()), m[i].size());
    PBT_CHECK(std::equal(b.begin(), b.end(), m[i].begin(), m[i].end()), "const bucket");
    if constexpr (std::is_same_v<T, char>) {
      auto const s = std::string_view{m[i].data(), m[i].size()};
      PBT_CHECK(v[key<K>(i)].view() == s && b.view() == s, "view()");
    }
  }
  if (!m.empty()) {
    check_bucket<T>(c, v.front(), m.front());
    check_bucket<T>(c, v.back(), m.back());
    PBT_EQ(static_cast<std::size_t>(cv.back().size()), m.back().size());
  }
  if (c.chance(1, 4)) {
    PBT_THROWS(v.at(key<K>(m.size())));
    PBT_THROWS(cv.at(key<K>(m.size() + c.u(3))));
  }
}

template <typename PV, typename T, typename K, std::size_t MaxPage>
void run_paged(Ctx& c) {
  PV v;
  mvv<T> m;
  auto moved = 0U, freed = 0U;
  check_paged<PV, T, K>(c, v, m);
  for (unsigned step = 0; step < 40 && c.more(16); ++step) {
    switch (c.u(15)) {
      case 0:
      case 1: {
        if (!m.empty() && c.chance(1, 5)) {
          auto const i = c.idx(m.size());
          auto const copy = m[i];
          auto const own = v[key<K>(i)];
          if (c.flip()) {
            c.log("emplace_back([%zu])", i);
            v.emplace_back(own);
            m.push_back(copy);
          } else {
            auto const k = c.u(m.size());
            c.log("insert(%zu, [%zu])", static_cast<std::size_t>(k), i);
            v.insert(key<K>(k), own);
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(k), copy);
          }
          break;
        }
        auto const b = gen_bucket<T>(c, std::min<std::size_t>(20, MaxPage), std::min<std::size_t>(300, MaxPage));
        c.log("emplace_back(%zu)", b.size());
        switch (c.u(2)) {
          case 0: v.emplace_back(b); break;
          case 1: v.emplace_back(std::list<T>(b.begin(), b.end()).size() == 0 ? std::vector<T>{} : std::vector<T>(b)); break;
          default: {
            r::vector<T> l;
            for (auto const& x : b) {
              l.push_back(x);
            }
            v.emplace_back(l);
          }
        }
        m.push_back(b);
        break;
      }
      case 2: {
        c.log("emplace_back_empty");
        v.emplace_back_empty();
        m.emplace_back();
        break;
      }
      case 3: {
        if constexpr (std::is_same_v<T, char>) {
          auto const s = c.str(std::min<std::size_t>(12, MaxPage), false);
          c.log("emplace_back(\"%s\")", s.c_str());
          v.emplace_back(s.c_str());
          m.push_back({s.begin(), s.end()});
        } else {
          auto const x = el<T>::gen(c), y = el<T>::gen(c);
          c.log("emplace_back({2})");
          v.emplace_back({x, y});
          m.push_back({x, y});
        }
        break;
      }
      case 4: {
        auto const k = c.u(m.size());
        auto const b = gen_bucket<T>(c, std::min<std::size_t>(9, MaxPage), std::min<std::size_t>(300, MaxPage));
        c.log("insert(%zu, %zu)", static_cast<std::size_t>(k), b.size());
        v.insert(key<K>(k), b);
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(k), b);
        break;
      }
      case 5: {
        auto const n = c.u(m.size() + 2);
        c.log("resize(%zu)", static_cast<std::size_t>(n));
        freed += n < m.size() ? 1U : 0U;
        v.resize(static_cast<typename PV::size_type>(n));
        m.resize(n);
        break;
      }
      case 6: {
        if (c.chance(1, 4)) {
          c.log("clear");
          v.clear();
          m.clear();
        }
        break;
      }
      case 7:
      case 8:
      case 9:
      case 10: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          auto const n = c.len(12) + 1;
          c.log("[%zu].push_back * %zu", i, static_cast<std::size_t>(n));
          for (std::size_t q = 0; q != n; ++q) {
            if (m[i].size() == MaxPage) {
              PBT_THROWS(v[key<K>(i)].push_back(el<T>::gen(c)));
              break;
            }
            auto x = el<T>::gen(c);
            auto const from = c.idx(m.size());
            if (!m[from].empty() && c.chance(1, 6)) {
              auto const k = c.idx(m[from].size());
              x = m[from][k];
              v[key<K>(i)].push_back(v[key<K>(from)][k]);
            } else if (c.flip()) {
              v[key<K>(i)].push_back(x);
            } else {
              v.at(key<K>(i)).push_back(x);
            }
            m[i].push_back(x);
          }
          ++moved;
        }
        break;
      }
      case 11:
      case 12: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          if (m[i].size() < MaxPage) {
            auto const p = c.u(m[i].size());
            auto const x = el<T>::gen(c);
            c.log("[%zu].insert(%zu)", i, static_cast<std::size_t>(p));
            auto b = v[key<K>(i)];
            auto const it = b.insert(b.begin() + p, x);
            PBT_EQ(static_cast<std::size_t>(it - b.begin()), static_cast<std::size_t>(p));
            m[i].insert(m[i].begin() + static_cast<std::ptrdiff_t>(p), x);
            ++moved;
          }
        }
        break;
      }
      case 13: {
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          if (!m[i].empty()) {
            auto const j = c.idx(m[i].size());
            auto const x = el<T>::gen(c);
            c.log("[%zu][%zu] = x", i, j);
            auto b = v[key<K>(i)];
            switch (c.u(3)) {
              case 0: b[j] = x; break;
              case 1: b.at(j) = x; break;
              case 2: *(b.begin() + j) = x; break;
              default: (j == 0 ? b.front() : j + 1 == m[i].size() ? b.back() : b[j]) = x; break;
            }
            m[i][j] = x;
          }
        }
        break;
      }
      case 14: {
        c.log("copy/move");
        auto w = v;
        check_paged<PV, T, K>(c, w, m);
        v = std::move(w);
        break;
      }
      default: {
        c.log("serialize");
        auto buf = cista::serialize(v);
        auto* w = cista::deserialize<PV>(buf);
        check_paged<PV const, T, K>(c, *w, m);
        if (c.flip()) {
          // appending to the deserialized value: the storage moves out of the buffer
          auto mm = m;
          if (!mm.empty() && mm.back().size() < MaxPage) {
            auto const x = el<T>::gen(c);
            w->back().push_back(x);
            mm.back().push_back(x);
          }
          w->emplace_back(mv<T>{});
          mm.emplace_back();
          check_paged<PV, T, K>(c, *w, mm);
          w->~PV();
          new (w) PV{};
        } else {
          v = *w;
        }
      }
    }
    check_paged<PV, T, K>(c, v, m);
  }
  c.nontrivial_if(m.size() >= 2 && moved >= 3 && freed >= 1);
}
#define PVT(N, T, K, M, Q, ...) \
  using N##_p = __VA_ARGS__; \
  PBT_REG(paged_##N, "paged_" #N, (run_paged<N##_p, T, K, M>), Q, Q * 300)
template <typename V>
using P = cista::paged<V>;
template <typename V, typename S, typename PS, PS Min, PS Max>
using PX = cista::paged<V, S, PS, Min, Max>;
template <template <typename> typename Vec, typename Pg, typename K>
using PVV = cista::paged_vecvec<Vec<typename Pg::page_t>, Pg, K>;
PVT(u32_r, std::uint32_t, std::uint32_t, 32768, 1125, PVV<r::vector, P<r::vector<std::uint32_t>>, std::uint32_t>)
PVT(char_o, char, skey, 32768, 1125, PVV<o::vector, P<o::vector<char>>, skey>)
PVT(trio_o, trio, skey, 32768, 750, PVV<o::vector, P<o::vector<trio>>, skey>)
PVT(small_r, std::uint32_t, std::uint32_t, 16, 1125, PVV<r::vector, PX<r::vector<std::uint32_t>, std::uint32_t, std::uint16_t, 2, 16>, std::uint32_t>)
PVT(byte_r, char, std::uint32_t, 64, 1125, PVV<r::vector, PX<r::vector<char>, std::uint32_t, std::uint8_t, 16, 64>, std::uint32_t>)

// buckets around the largest page size
PBT_TARGET(paged_limits, 60, 20000) {
  using PV = u32_r_p;
  PV v;
  mvv<std::uint32_t> m;
  auto tries = 0U, ok = 0U;
  for (unsigned i = 0; i != 3; ++i) {
    auto const n = c.pick({std::size_t{32767}, std::size_t{32768}, std::size_t{32769}, std::size_t{40000}, std::size_t{65535}, std::size_t{65536}, std::size_t{65537}, std::size_t{70000}, std::size_t{3}});
    std::vector<std::uint32_t> b(n);
    std::iota(begin(b), end(b), static_cast<std::uint32_t>(i * 1000));
    c.log("emplace_back(%zu)", n);
    ++tries;
    if (n <= 32768) {
      v.emplace_back(b);
      m.push_back(b);
      ++ok;
    } else {
      PBT_THROWS(v.emplace_back(b));
    }
    if (!m.empty()) {
      auto const k = c.idx(m.size());
      c.log("[%zu].push_back", k);
      if (m[k].size() == 32768) {
        PBT_THROWS(v[static_cast<std::uint32_t>(k)].push_back(7U));
      } else {
        v[static_cast<std::uint32_t>(k)].push_back(7U);
        m[k].push_back(7U);
      }
    }
    PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
    for (std::size_t k = 0; k != m.size(); ++k) {
      auto const x = v[static_cast<std::uint32_t>(k)];
      PBT_CHECK(std::equal(x.begin(), x.end(), m[k].begin(), m[k].end()), "bucket %zu", k);
    }
  }
  c.nontrivial_if(tries != ok && ok != 0);
}

// A narrow index type: what it cannot count is refused, nothing else is.
template <typename VV, typename Idx>
void index_limits(Ctx& c) {
  constexpr auto const kMax = static_cast<std::size_t>(std::numeric_limits<Idx>::max());
  using T = typename VV::data_value_type;
  using K = typename VV::key;
  VV v;
  mvv<T> m;
  auto total = std::size_t{0U};
  auto refused = 0U, ok = 0U;
  auto val = 0U;
  auto const key = [](std::size_t const k) { return K{static_cast<cista::base_t<K>>(k)}; };
  // Around what is left, or anything.
  auto const amount = [&]() {
    auto const left = kMax - total;
    switch (c.u(3U)) {
      case 0: return left + c.u(3U);
      case 1: return left - std::min<std::size_t>(left, c.u(3U));
      case 2: return static_cast<std::size_t>(c.u(left));
      default: return static_cast<std::size_t>(c.u(9U));
    }
  };
  auto const attempt = [&](bool const fits, auto&& f) {
    auto threw = false;
    try {
      f();
    } catch (std::exception const&) {
      threw = true;
    }
    PBT_CHECK(threw != fits, "%s", threw ? "refused although it can be counted" : "accepted although it cannot be counted");
    threw ? ++refused : ++ok;
    return !threw;
  };
  for (auto n = 2U + c.u(12U); n != 0U; --n) {
    switch (c.u(5U)) {
      case 0: {
        std::vector<T> x(amount());
        for (auto& e : x) {
          e = static_cast<T>(++val);
        }
        c.log("emplace_back(%zu)", x.size());
        auto const lv = c.flip();
        auto const y = x;
        if (attempt(total + x.size() <= kMax && m.size() < kMax, [&]() { lv ? v.emplace_back(x) : v.emplace_back(std::move(x)); })) {
          m.push_back(y);
          total += y.size();
        }
        break;
      }
      case 1: {
        auto const k = amount();
        c.log("add_back_sized(%zu)", k);
        if (attempt(total + k <= kMax && m.size() < kMax, [&]() { v.add_back_sized(k); })) {
          m.emplace_back(k);
          total += k;
        }
        break;
      }
      case 2:
        c.log("emplace_back({1, 2})");
        if (attempt(total + 2U <= kMax && m.size() < kMax, [&]() { v.emplace_back({T{1}, T{2}}); })) {
          m.push_back({T{1}, T{2}});
          total += 2U;
        }
        break;
      case 3:
        if (!m.empty()) {
          auto const k = c.idx(m.size());
          c.log("[%zu].push_back", k);
          if (attempt(total < kMax, [&]() { v[key(k)].push_back(T{3}); })) {
            m[k].push_back(T{3});
            ++total;
          }
        }
        break;
      case 4:
        if (!m.empty()) {
          auto const k = c.idx(m.size());
          auto const more = amount();
          c.log("[%zu].grow by %zu", k, more);
          if (attempt(total + more <= kMax, [&]() { v[key(k)].grow(m[k].size() + more, T{4}); })) {
            m[k].insert(m[k].end(), more, T{4});
            total += more;
          }
        }
        break;
      default: {
        auto const k = c.chance(1, 3) ? kMax - 1U + c.u(3U) : static_cast<std::size_t>(c.u(9U));
        c.log("resize(%zu)", k);
        if (attempt(k <= kMax, [&]() { v.resize(k); })) {
          for (auto i = k; i < m.size(); ++i) {
            total -= m[i].size();
          }
          m.resize(k);
        }
      }
    }
    PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
    PBT_EQ(static_cast<std::size_t>(v.data_.size()), total);
    for (std::size_t k = 0; k != m.size(); ++k) {
      auto const x = v[key(k)];
      PBT_EQ(static_cast<std::size_t>(x.size()), m[k].size());
      PBT_CHECK(std::equal(x.begin(), x.end(), m[k].begin(), m[k].end()), "bucket %zu", k);
    }
  }
  c.nontrivial_if(refused != 0U && ok > 1U);
}
using vv_idx8 = r::vecvec<cista::strong<std::uint8_t, struct idx8_key_>, char>;
using vv_idx16 = o::vecvec<cista::strong<std::uint16_t, struct idx16_key_>, std::uint32_t>;
PBT_REG(vecvec_idx8, "vecvec_idx8_r", (index_limits<vv_idx8, std::uint8_t>), 1500, 100000)
PBT_REG(vecvec_idx16, "vecvec_idx16_o", (index_limits<vv_idx16, std::uint16_t>), 60, 4000)

// The same for the nested ones of nvec.
PBT_TARGET(nvec_idx8, 800, 60000) {
  using key = cista::strong<std::uint8_t, struct nvec_idx8_key_>;
  using NV = r::nvec<key, std::uint16_t, 2>;
  NV v;
  std::vector<mvv<std::uint16_t>> m;
  auto data = std::size_t{0U}, inner = std::size_t{0U};
  auto refused = 0U, ok = 0U;
  auto val = 0U;
  for (auto n = 2U + c.u(12U); n != 0U; --n) {
    mvv<std::uint16_t> x(c.chance(1, 3) ? c.u(270U) : c.u(6U));
    auto const each = c.pick({std::uint64_t{0U}, std::uint64_t{1U}, std::uint64_t{3U}, std::uint64_t{60U}});
    auto d = std::size_t{0U};
    for (auto& y : x) {
      y.resize(c.u(each));
      d += y.size();
      for (auto& e : y) {
        e = static_cast<std::uint16_t>(++val);
      }
    }
    c.log("emplace_back(%zu buckets, %zu elements)", x.size(), d);
    auto const fits = data + d <= 255U && inner + x.size() <= 255U && m.size() < 255U;
    auto threw = false;
    try {
      v.emplace_back(x);
    } catch (std::exception const&) {
      threw = true;
    }
    PBT_CHECK(threw != fits, "%s", threw ? "refused although it can be counted" : "accepted although it cannot be counted");
    if (fits) {
      m.push_back(x);
      data += d;
      inner += x.size();
      ++ok;
    } else {
      ++refused;
    }
    PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
    for (std::size_t i = 0; i != m.size(); ++i) {
      auto const k = key{static_cast<std::uint8_t>(i)};
      PBT_EQ(static_cast<std::size_t>(v.size(k)), m[i].size());
      for (std::size_t j = 0; j != m[i].size(); ++j) {
        auto const b = v.at(k, static_cast<std::uint8_t>(j));
        PBT_EQ(static_cast<std::size_t>(b.size()), m[i][j].size());
        PBT_CHECK(std::equal(b.begin(), b.end(), m[i][j].begin(), m[i][j].end()), "bucket (%zu, %zu)", i, j);
      }
    }
  }
  c.nontrivial_if(refused != 0U && ok > 1U);
}
#endif

#if GROUP == 4
// ---------------------------------------------------------------- matrix
template <typename M, typename T, typename Make>
void run_matrix(Ctx& c, Make make) {
  auto const leak = no_tracked_leak{};
  using S = typename M::size_type;
  auto rows = c.len(8), cols = c.len(8);
  auto const init = el<T>::gen(c);
  c.log("%zu x %zu", static_cast<std::size_t>(rows), static_cast<std::size_t>(cols));
  M x = make(static_cast<std::uint32_t>(rows), static_cast<std::uint32_t>(cols), el<T>::mk(init));
  mvv<T> m(rows, mv<T>(cols, init));
  auto writes = 0U, resized = 0U;
  auto const check = [&](M& a) {
    auto const& ca = a;
    PBT_EQ(static_cast<std::size_t>(a.n_rows_), m.size());
    std::size_t flat = 0;
    for (std::size_t i = 0; i != m.size(); ++i) {
      auto const cr = ca[static_cast<S>(i)];
      auto r = a[static_cast<S>(i)];
      auto const ar = a.at(static_cast<S>(i));
      auto const acr = ca.at(static_cast<S>(i));
      PBT_EQ(static_cast<std::size_t>(cr.end() - cr.begin()), m[i].size());
      PBT_EQ(static_cast<std::size_t>(r.end() - r.begin()), m[i].size());
      for (std::size_t j = 0; j != m[i].size(); ++j, ++flat) {
        PBT_CHECK(el<T>::un(r[static_cast<S>(j)]) == m[i][j], "row %zu col %zu", i, j);
        PBT_CHECK(el<T>::un(cr[static_cast<S>(j)]) == m[i][j], "const row %zu col %zu", i, j);
        PBT_CHECK(&acr[static_cast<S>(j)] == &cr[static_cast<S>(j)], "at row %zu col %zu", i, j);
        PBT_CHECK(&a(static_cast<S>(i), static_cast<S>(j)) == &cr[static_cast<S>(j)], "(%zu,%zu)", i, j);
        PBT_CHECK(&a.entries_[static_cast<S>(flat)] == &cr[static_cast<S>(j)], "row-major order");
      }
      std::size_t j = 0;
      for (auto const& e : cr) {
        PBT_CHECK(el<T>::un(e) == m[i][j++], "const row iteration");
      }
      j = 0;
      for (auto& e : r) {
        PBT_CHECK(el<T>::un(e) == m[i][j++], "row iteration");
      }
      j = 0;
      for (auto const& e : ar) {
        PBT_CHECK(el<T>::un(e) == m[i][j++], "row iteration (const row)");
      }
      PBT_EQ(static_cast<std::size_t>(std::distance(begin(cr), end(cr))), m[i].size());
      PBT_EQ(static_cast<std::size_t>(std::distance(begin(r), end(r))), m[i].size());
    }
    if (c.chance(1, 4)) {
      PBT_THROWS(a.at(static_cast<S>(m.size())));
      PBT_THROWS(ca.at(static_cast<S>(m.size() + c.u(2))));
    }
  };
  check(x);
  for (unsigned step = 0; step < 20 && c.more(10); ++step) {
    switch (c.u(8)) {
      case 0:
      case 1:
      case 2:
        if (!m.empty() && !m[0].empty()) {
          auto const i = c.idx(m.size()), j = c.idx(m[0].size());
          auto const e = el<T>::gen(c);
          c.log("(%zu, %zu) = x", i, j);
          switch (c.u(4)) {
            case 0: assign<T>(x[static_cast<S>(i)][static_cast<S>(j)], e); break;
            case 1: assign<T>(x(static_cast<S>(i), static_cast<S>(j)), e); break;
            case 2: assign<T>(x.at(static_cast<S>(i))[static_cast<S>(j)], e); break;
            default: assign<T>(*(x[static_cast<S>(i)].begin() + static_cast<std::ptrdiff_t>(j)), e); break;
          }
          m[i][j] = e;
          ++writes;
        }
        break;
      case 3: {
        auto const e = el<T>::gen(c);
        c.log("reset");
        x.reset(el<T>::mk(e));
        for (auto& row : m) {
          std::fill(row.begin(), row.end(), e);
        }
        break;
      }
      case 4: {
        auto const n = c.len(8);
        auto const k = c.chance(1, 3) ? c.len(8) : cols;
        c.log("resize(%zu, %zu)", static_cast<std::size_t>(n), static_cast<std::size_t>(k));
        // resizing keeps the row-major sequence of entries, new ones are T{}
        mv<T> flat;
        for (auto const& row : m) {
          flat.insert(flat.end(), row.begin(), row.end());
        }
        flat.resize(n * k, el<T>::un(T{}));
        x.resize(static_cast<S>(n), k);
        m.assign(n, mv<T>(k, el<T>::un(T{})));
        for (std::size_t q = 0; q != flat.size(); ++q) {
          m[q / k][q % k] = flat[q];
        }
        cols = k;
        ++resized;
        break;
      }
      case 5: {
        c.log("copy/move");
        auto y = x;
        check(y);
        x = std::move(y);
        break;
      }
      case 7: {  // more entries than can be counted are refused
        auto const sh = 1U + c.u(30U);
        auto const n = std::size_t{1U} << sh;
        auto const k = c.chance(1, 3) ? (std::size_t{1U} << 32U) + c.u(8U)
                                      : (std::size_t{1U} << (32U - sh)) + (sh <= 12U ? c.u(3U) : 0U);
        c.log("resize(%zu, %zu)", n, k);
        PBT_THROWS(x.resize(static_cast<S>(n), k));
        if (k >> 32U == 0U) {
          PBT_THROWS(make(static_cast<std::uint32_t>(n), static_cast<std::uint32_t>(k), T{}));
        }
        break;
      }
      case 6: {
        c.log("write row by iteration");
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          std::size_t j = 0;
          for (auto& e : x[static_cast<S>(i)]) {
            m[i][j] = el<T>::gen(c);
            assign<T>(e, m[i][j]);
            ++j;
          }
        }
        break;
      }
      default:
        if constexpr (std::is_trivially_copyable_v<T>) {
          c.log("serialize");
          auto buf = cista::serialize(x);
          auto* y = cista::deserialize<M>(buf);
          check(*y);
        }
    }
    check(x);
  }
  c.nontrivial_if(writes >= 2 && resized >= 1);
}
PBT_TARGET(matrix_u32_o, 2250, 450000) {
  run_matrix<o::flat_matrix<std::uint32_t>, std::uint32_t>(c, [](std::uint32_t a, std::uint32_t b, std::uint32_t x) { return o::make_flat_matrix<std::uint32_t>(a, b, x); });
}
PBT_TARGET(matrix_char_r, 2250, 450000) {
  run_matrix<r::flat_matrix<char>, char>(c, [](std::uint32_t a, std::uint32_t b, char x) { return r::make_flat_matrix<char>(a, b, x); });
}
PBT_TARGET(matrix_tracked_r, 2250, 450000) {
  run_matrix<r::flat_matrix<tracked>, tracked>(c, [](std::uint32_t a, std::uint32_t b, tracked const& x) { return r::make_flat_matrix<tracked>(a, b, x); });
}
PBT_TARGET(matrix_str_r, 1500, 300000) {
  run_matrix<r::flat_matrix<r::string>, r::string>(c, [](std::uint32_t a, std::uint32_t b, r::string const& x) { return r::make_flat_matrix<r::string>(a, b, x); });
}
#endif
}  // namespace
