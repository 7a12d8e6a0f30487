// C09: cista vectors against std::vector
#include <list>
#include <sstream>

#include "elems.h"

#include "cista/containers/string.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/vector.h"
#include "cista/strong.h"

namespace {

// element factories: mk(v) builds the element for model value v, key() maps back
struct e_int {
  using T = int;
  static constexpr bool copyable = true;
  static T mk(std::int64_t v) { return static_cast<int>(v); }
  static std::int64_t key(T const& t) { return t; }
};
struct e_u8 {
  using T = std::uint8_t;
  static constexpr bool copyable = true;
  static T mk(std::int64_t v) { return static_cast<T>(v); }
  static std::int64_t key(T const& t) { return t; }
};
struct pod {
  std::uint64_t a_;
  std::uint8_t b_;
  friend bool operator==(pod const& x, pod const& y) { return x.a_ == y.a_; }
  friend bool operator<(pod const& x, pod const& y) { return x.a_ < y.a_; }
};
struct e_pod {
  using T = pod;
  static constexpr bool copyable = true;
  static T mk(std::int64_t v) {
    return T{static_cast<std::uint64_t>(v), static_cast<std::uint8_t>(v)};
  }
  static std::int64_t key(T const& t) {
    PBT_CHECK(t.b_ == static_cast<std::uint8_t>(t.a_));
    return static_cast<std::int64_t>(t.a_);
  }
};
struct e_tracked {
  using T = tracked;
  static constexpr bool copyable = true;
  static T mk(std::int64_t v) { return T{v}; }
  static std::int64_t key(T const& t) { return t.get(); }
};
// even values are stored inline, odd ones on the heap
template <typename S>
struct e_str {
  using T = S;
  static constexpr bool copyable = true;
  static std::string text(std::int64_t v) {
    auto s = std::to_string(1000 + v);
    if (v % 2 != 0) {
      s += "-some-longer-text-on-the-heap";
    }
    return v == 0 ? std::string{} : s;
  }
  static T mk(std::int64_t v) { return T{text(v)}; }
  static std::int64_t key(T const& t) {
    if (t.empty()) {
      return 0;
    }
    auto const v = std::stoll(std::string{t.view()}) - 1000;
    PBT_EQ(std::string{t.view()}, text(v));
    return v;
  }
};
template <template <typename> typename V>
struct e_vec {
  using T = V<std::int32_t>;
  static constexpr bool copyable = true;
  static T mk(std::int64_t v) {
    T t;
    if (v != 0) {
      for (auto i = 0; i <= v % 3; ++i) {
        t.push_back(static_cast<std::int32_t>(v));
      }
    }
    return t;
  }
  static std::int64_t key(T const& t) {
    if (t.empty()) {
      return 0;
    }
    PBT_EQ(static_cast<std::int64_t>(t.size()), t[0] % 3 + 1);
    for (auto const x : t) {
      PBT_EQ(x, t[0]);
    }
    return t[0];
  }
};
template <template <typename> typename U>
struct e_uniq {
  using T = U<std::int64_t>;
  static constexpr bool copyable = false;
  static T mk(std::int64_t v) {
    return v == 0 ? T{} : T{new (std::malloc(8)) std::int64_t{v}};
  }
  static std::int64_t key(T const& t) { return t ? *t : 0; }
};
template <typename T>
using raw_uniq = cista::raw::unique_ptr<T>;
template <typename T>
using off_uniq = cista::offset::unique_ptr<T>;

// a single-pass input iterator producing elements
template <typename E>
struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = typename E::T;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type*;
  using reference = value_type;
  input_it& operator++() {
    ++pos_;
    return *this;
  }
  value_type operator*() const { return E::mk((*v_)[pos_]); }
  friend bool operator==(input_it const& a, input_it const& b) {
    return a.pos_ == b.pos_;
  }
  friend bool operator!=(input_it const& a, input_it const& b) {
    return a.pos_ != b.pos_;
  }
  std::vector<std::int64_t> const* v_;
  std::size_t pos_;
};

using model = std::vector<std::int64_t>;

template <typename E, typename V>
void check_same(V const& v, model const& m) {
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
  PBT_EQ(v.empty(), m.empty());
  PBT_EQ(static_cast<std::size_t>(std::distance(v.begin(), v.end())), m.size());
  auto i = std::size_t{0};
  for (auto const& el : v) {
    PBT_EQ(E::key(el), m[i], "at index %zu of %zu", i, m.size());
    ++i;
  }
  if (!m.empty()) {
    PBT_EQ(E::key(v.front()), m.front());
    PBT_EQ(E::key(v.back()), m.back());
    PBT_CHECK(v.data() == v.begin());
    using A = typename V::access_type;
    auto const last = m.size() - 1;
    PBT_EQ(E::key(v[A(static_cast<typename V::size_type>(last))]), m.back());
    PBT_EQ(E::key(v.at(A(static_cast<typename V::size_type>(last / 2)))),
           m[last / 2]);
    PBT_CHECK(v.contains(&v.back()));
    PBT_CHECK(v.index_of(&v.back()) == last);
  }
  PBT_CHECK(!v.contains(v.end()));
  PBT_CHECK(v.cbegin() == v.begin() && v.cend() == v.end());
}

template <typename E, typename V>
void vec_case(pbt::Ctx& c) {
  using T = typename E::T;
  using S = typename V::size_type;
  auto const guard = no_tracked_leak{};
  static constexpr auto const max_s = static_cast<std::uint64_t>(
      std::numeric_limits<S>::max());
  auto const cap = static_cast<std::size_t>(std::min<std::uint64_t>(
      max_s, c.chance(1, 4) ? (c.chance(1, 5) ? 3000 : 300) : 40));
  std::int64_t next = 1;
  auto val = [&]() -> std::int64_t {
    auto const v = c.chance(1, 6) ? static_cast<std::int64_t>(c.u(3)) : next++;
    return v & 0xFF;  // every element type holds it
  };

  {
    V a, b;
    model ma, mb;
    unsigned n_grow = 0, n_mid = 0, n_own = 0;
    auto const ops = 2 + c.len(60);
    for (auto step = std::size_t{0}; step != ops; ++step) {
      auto const second = c.chance(1, 4);
      auto& v = second ? b : a;
      auto& m = second ? mb : ma;
      auto& w = second ? a : b;
      auto& mw = second ? ma : mb;
      auto const op = c.u(29);
      auto const room = cap - std::min(cap, m.size());
      auto const old_begin = v.begin();
      c.log("%c.op%d(size=%zu)", second ? 'b' : 'a', static_cast<int>(op),
            m.size());
      switch (op) {
        case 0:
        case 1:
        case 2: {
          if (room == 0) break;
          auto const x = val();
          v.push_back(E::mk(x));
          m.push_back(x);
          break;
        }
        case 3:
        case 4: {
          if (room == 0) break;
          if (!m.empty() && c.chance(1, 3)) {  // an element of its own
            auto const k = c.u(m.size() - 1);
            n_own += 1U;
            if constexpr (E::copyable) {
              if (c.flip()) {
                v.push_back(v.begin()[k]);
                m.push_back(m[k]);
                break;
              }
            }
            auto const y = val();
            v.push_back(std::move(v.begin()[k]));
            m.push_back(m[k]);
            v.begin()[k] = E::mk(y);
            m[k] = y;
            break;
          }
          auto const x = val();
          if constexpr (E::copyable) {
            auto const el = E::mk(x);
            v.push_back(el);
          } else {
            v.push_back(E::mk(x));
          }
          m.push_back(x);
          break;
        }
        case 5: {
          if (room == 0) break;
          if constexpr (E::copyable) {
            if (!m.empty() && c.chance(1, 3)) {
              auto const k = c.u(m.size() - 1);
              n_own += 1U;
              auto& r = v.emplace_back(v.begin()[k]);
              m.push_back(m[k]);
              PBT_CHECK(&r == &v.back());
              break;
            }
          }
          auto const x = val();
          auto& r = v.emplace_back(E::mk(x));
          m.push_back(x);
          PBT_CHECK(&r == &v.back());
          break;
        }
        case 6:
        case 7: {  // insert one
          if (room == 0) break;
          auto const x = val();
          auto const pos = c.u(m.size());
          T* it = nullptr;
          if constexpr (E::copyable) {
            if (!m.empty() && c.chance(1, 3)) {
              auto const k = c.u(m.size() - 1);
              auto const y = m[k];
              n_own += 1U;
              it = v.insert(v.begin() + pos, v.begin()[k]);
              n_mid += pos < m.size() ? 1U : 0U;
              m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), y);
              PBT_EQ(static_cast<std::size_t>(it - v.begin()), pos);
              break;
            }
            if (c.flip()) {
              auto const el = E::mk(x);
              it = v.insert(v.begin() + pos, el);
            } else {
              it = v.insert(v.begin() + pos, E::mk(x));
            }
          } else {
            it = v.insert(v.begin() + pos, E::mk(x));
          }
          n_mid += pos < m.size() ? 1U : 0U;
          m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), x);
          PBT_EQ(static_cast<std::size_t>(it - v.begin()), pos);
          break;
        }
        case 8: {  // insert n copies
          if constexpr (E::copyable) {
            auto const n = c.u(std::min<std::size_t>(room, c.len_big(20, 600)));
            auto x = val();
            auto const pos = c.u(m.size());
            auto const own = !m.empty() && c.chance(1, 3);
            auto const k = own ? c.u(m.size() - 1) : 0U;
            auto const el = E::mk(x);
            if (own) {
              x = m[k];
              n_own += 1U;
            }
            auto it = v.insert(v.begin() + pos, static_cast<std::size_t>(n),
                               own ? v.begin()[k] : el);
            n_mid += pos < m.size() ? 1U : 0U;
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), n, x);
            PBT_EQ(static_cast<std::size_t>(it - v.begin()), pos);
          }
          break;
        }
        case 9:
        case 10:
        case 11: {  // insert a range
          auto const n = c.u(std::min<std::size_t>(room, c.len_big(20, 600)));
          auto const pos = c.u(m.size());
          model src;
          for (auto i = std::size_t{0}; i != n; ++i) src.push_back(val());
          T* it = nullptr;
          auto const kind = c.u(3);
          auto const p = v.begin() + pos;
          if (kind == 0 || !E::copyable) {
            if (kind == 1) {
              std::vector<T> s;
              for (auto const x : src) s.push_back(E::mk(x));
              it = v.insert(p, std::make_move_iterator(s.begin()),
                            std::make_move_iterator(s.end()));
            } else {
              it = v.insert(p, input_it<E>{&src, 0},
                            input_it<E>{&src, src.size()});
            }
          } else if constexpr (E::copyable) {
            if (kind == 1) {
              std::vector<T> s;
              for (auto const x : src) s.push_back(E::mk(x));
              it = v.insert(p, s.begin(), s.end());
            } else if (kind == 2) {
              std::list<T> s;
              for (auto const x : src) s.push_back(E::mk(x));
              it = v.insert(p, s.begin(), s.end());
            } else {
              V s;
              for (auto const x : src) s.push_back(E::mk(x));
              it = v.insert(p, s.begin(), s.end());
              check_same<E>(s, src);
            }
          }
          n_mid += pos < m.size() && n != 0 ? 1U : 0U;
          m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), src.begin(),
                   src.end());
          PBT_EQ(static_cast<std::size_t>(it - v.begin()), pos);
          break;
        }
        case 12:
        case 13: {
          if (m.empty()) break;
          auto const pos = c.idx(m.size());
          auto const it = v.erase(v.begin() + pos);
          n_mid += pos + 1 < m.size() ? 1U : 0U;
          m.erase(m.begin() + static_cast<std::ptrdiff_t>(pos));
          PBT_EQ(static_cast<std::size_t>(it - v.begin()), pos);
          break;
        }
        case 14: {
          auto const from = c.u(m.size());
          auto const to = from + c.u(m.size() - from);
          auto const it = v.erase(v.begin() + from, v.begin() + to);
          n_mid += to < m.size() ? 1U : 0U;
          m.erase(m.begin() + static_cast<std::ptrdiff_t>(from),
                  m.begin() + static_cast<std::ptrdiff_t>(to));
          PBT_EQ(static_cast<std::size_t>(it - v.begin()), from);
          break;
        }
        case 15:
          if (m.empty()) break;
          v.pop_back();
          m.pop_back();
          break;
        case 16:
          v.clear();
          m.clear();
          break;
        case 17: {
          auto const n = c.u(std::min<std::size_t>(cap, m.size() + (c.chance(1, 20) ? 300 : 12)));
          v.resize(static_cast<S>(n));
          m.resize(n);
          break;
        }
        case 18: {
          if constexpr (E::copyable) {
            auto const n = c.u(std::min<std::size_t>(cap, m.size() + (c.chance(1, 20) ? 300 : 12)));
            auto const x = val();
            v.resize(static_cast<S>(n), E::mk(x));
            m.resize(n, x);
          }
          break;
        }
        case 19: {
          auto const n = c.u(cap);
          v.reserve(static_cast<S>(n));
          auto const p = v.begin();
          auto i = m.size();
          for (; i < n && c.more(6); ++i) {  // no move below the reservation
            auto const x = val();
            v.push_back(E::mk(x));
            m.push_back(x);
          }
          PBT_CHECK(v.begin() == p);
          break;
        }
        case 20: {
          if constexpr (E::copyable) {
            V copy{v};
            check_same<E>(copy, m);
            if (!m.empty()) {  // independent
              copy.pop_back();
              copy.push_back(E::mk(250));
            }
            check_same<E>(v, m);
          }
          break;
        }
        case 21:
        case 22: {
          if constexpr (E::copyable) {
            v = w;
            m = mw;
          }
          break;
        }
        case 23: {
          V moved{std::move(v)};
          check_same<E>(moved, m);
          PBT_CHECK(v.empty());
          m.clear();
          if (c.flip()) {
            v = std::move(moved);
            m = {};
            for (auto const& el : v) m.push_back(E::key(el));
          }
          break;
        }
        case 24:
          v = std::move(w);
          m = std::move(mw);
          mw.clear();
          PBT_CHECK(w.empty());
          break;
        case 25: {
          model src;
          auto const n = c.len_big(std::min<std::size_t>(cap, 30), std::min<std::size_t>(cap, 600));
          for (auto i = std::size_t{0}; i != n; ++i) src.push_back(val());
          std::vector<T> s;
          for (auto const x : src) s.push_back(E::mk(x));
          if constexpr (E::copyable) {
            if (c.flip()) {
              v.set(s.begin(), s.end());
            } else {
              v = V(s.begin(), s.end());
            }
          } else {
            v.set(std::make_move_iterator(s.begin()),
                  std::make_move_iterator(s.end()));
          }
          m = src;
          break;
        }
        case 26:
          std::swap(v, w);
          std::swap(m, mw);
          break;
        case 27: {
          auto const past = m.size() + c.u(2);
          if (past <= max_s) {
            using A = typename V::access_type;
            PBT_THROWS(v.at(A(static_cast<S>(past))));
            V const& cv = v;
            PBT_THROWS(cv.at(A(static_cast<S>(past))));
          }
          break;
        }
        case 28: {
          model r;
          for (auto it = v.rbegin(); it != v.rend(); ++it) {
            r.push_back(E::key(*it));
          }
          auto mr = m;
          std::reverse(mr.begin(), mr.end());
          PBT_CHECK(r == mr);
          break;
        }
        default: {
          if constexpr (E::copyable) {
            if (c.flip()) {
              auto const n = c.u(std::min<std::size_t>(cap, 9));
              auto const x = val();
              v = V(static_cast<S>(n), E::mk(x));
              m = model(n, x);
            } else {
              v = V{E::mk(7), E::mk(8), E::mk(9)};
              m = {7, 8, 9};
            }
          } else {
            auto const n = c.u(std::min<std::size_t>(cap, 9));
            v = V(static_cast<S>(n));
            m = model(n, 0);
          }
          break;
        }
      }
      n_grow += old_begin != v.begin() && old_begin != nullptr ? 1U : 0U;
      check_same<E>(v, m);
      check_same<E>(w, mw);
      if constexpr (E::copyable) {
        // values compare as the models do (factories preserve order only for
        // numbers; equality always)
        PBT_EQ(a == b, ma == mb);
        PBT_EQ(a != b, ma != mb);
        if constexpr (std::is_same_v<E, e_int> || std::is_same_v<E, e_u8> ||
                      std::is_same_v<E, e_pod> ||
                      std::is_same_v<E, e_tracked>) {
          PBT_EQ(a < b, ma < mb);
          PBT_EQ(a > b, ma > mb);
          PBT_EQ(a <= b, ma <= mb);
          PBT_EQ(a >= b, ma >= mb);
        }
      }
    }
    if (n_grow != 0) c.label("reallocated");
    if (n_own != 0) c.label("inserted an element of its own");
    if (n_mid != 0) c.label("middle insert/erase");
    if (std::max(ma.size(), mb.size()) > 128) c.label("more than 128 elements");
    c.nontrivial_if(n_mid != 0 && n_grow != 0);
  }
}

template <typename T>
using small_map_vec = cista::raw::vector_map<std::uint8_t, T>;
template <typename T>
using small_map_vec_off = cista::offset::vector_map<std::uint8_t, T>;
struct idx_tag {};
using idx_t = cista::strong<std::uint16_t, idx_tag>;
template <typename T>
using strong_map_vec = cista::offset::vector_map<idx_t, T>;

// Counts beyond the size type are refused, and nothing is lost by asking.
template <typename E, typename V>
void vec_limits(pbt::Ctx& c) {
  using T = typename E::T;
  using S = typename V::size_type;
  using A = std::conditional_t<std::is_same_v<V, strong_map_vec<T>>, idx_t, S>;
  auto const guard = no_tracked_leak{};
  constexpr auto const kMax = static_cast<std::size_t>(std::numeric_limits<S>::max());
  auto refused = 0U, ok = 0U;
  {
    V v;
    model m;
    auto next = std::int64_t{0};
    auto const val = [&]() { return ++next & 0xFF; };
    auto const amount = [&]() {
      auto const left = kMax - m.size();
      switch (c.u(3)) {
        case 0: return left + c.u(3);
        case 1: return left - std::min<std::size_t>(left, c.u(3));
        case 2: return static_cast<std::size_t>(c.u(left));
        default: return static_cast<std::size_t>(c.u(4));
      }
    };
    auto const attempt = [&](bool const fits, auto&& f) {
      auto threw = false;
      try {
        f();
      } catch (std::exception const&) {
        threw = true;
      }
      PBT_CHECK(threw != fits, "%s", threw ? "refused although it can be counted" : "accepted although it cannot be counted");
      threw ? ++refused : ++ok;
      return !threw;
    };
    for (auto n = 2 + c.u(12); n != 0; --n) {
      auto const op = c.u(8);
      c.log("op%d(size=%zu)", static_cast<int>(op), m.size());
      auto const at = static_cast<std::ptrdiff_t>(c.u(m.size()));
      switch (op) {
        case 0:
        case 1:
        case 2:
        case 3: {
          auto const x = val();
          auto const pos = op == 3 ? at : static_cast<std::ptrdiff_t>(m.size());
          if (attempt(m.size() < kMax, [&]() {
                auto e = E::mk(x);
                switch (op) {
                  case 0: v.push_back(e); break;
                  case 1: v.push_back(std::move(e)); break;
                  case 2: PBT_CHECK(&v.emplace_back(std::move(e)) == &v.back(), "what it returns"); break;
                  default: v.insert(v.begin() + pos, std::move(e));
                }
              })) {
            m.insert(m.begin() + pos, x);
          }
          break;
        }
        case 4: {
          auto const k = amount();
          auto const x = val();
          c.log("insert(%zu times)", k);
          if (k <= kMax &&
              attempt(m.size() + k <= kMax, [&]() { v.insert(v.begin() + at, static_cast<S>(k), E::mk(x)); })) {
            m.insert(m.begin() + at, k, x);
          }
          break;
        }
        case 5: {
          std::vector<T> x;
          model mx;
          for (auto k = amount(); k != 0; --k) {
            mx.push_back(val());
            x.push_back(E::mk(mx.back()));
          }
          c.log("insert(range of %zu)", mx.size());
          if (attempt(m.size() + mx.size() <= kMax, [&]() { v.insert(v.begin() + at, x.begin(), x.end()); })) {
            m.insert(m.begin() + at, mx.begin(), mx.end());
          }
          break;
        }
        case 6: {
          std::vector<T> x;
          model mx;
          for (auto k = c.chance(1, 2) ? kMax - 1 + c.u(3) : c.u(9); k != 0; --k) {
            mx.push_back(val());
            x.push_back(E::mk(mx.back()));
          }
          c.log("set(range of %zu)", mx.size());
          if (attempt(mx.size() <= kMax, [&]() { v.set(x.begin(), x.end()); })) {
            m = mx;
          }
          break;
        }
        case 7: {
          auto const k = std::min(kMax, m.size() + amount());
          c.log("resize(%zu)", k);
          auto const x = val();
          v.resize(static_cast<S>(k), E::mk(x));
          m.resize(k, x);
          break;
        }
        default: {
          auto const k = c.u(m.size());
          v.erase(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(k));
          m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(k));
        }
      }
      PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
      PBT_CHECK(v.allocated_size_ >= v.size(), "more elements than storage");
      for (std::size_t i = 0; i != m.size(); ++i) {
        PBT_EQ(E::key(v.begin()[i]), m[i]);
      }
      if (!m.empty()) {
        PBT_EQ(E::key(v[A(static_cast<S>(m.size() - 1))]), m.back());
      }
    }
  }
  c.nontrivial_if(refused != 0 && ok > 1);
}

using RV = e_vec<cista::raw::vector>;
using OV = e_vec<cista::offset::vector>;

#define V_REG(ID, E, V, Q) \
  PBT_REG(ID, "vector_" #ID, (vec_case<E, V>), Q * 4, Q * 150)

using v1 = cista::raw::vector<int>;
using v2 = cista::offset::vector<int>;
using v3 = cista::raw::vector<tracked>;
using v4 = cista::offset::vector<tracked>;
using v5 = cista::raw::vector<cista::raw::string>;
using v6 = cista::offset::vector<cista::offset::string>;
using v7 = cista::raw::vector<cista::raw::vector<std::int32_t>>;
using v8 = cista::offset::vector<cista::offset::vector<std::int32_t>>;
using v9 = cista::raw::vector<raw_uniq<std::int64_t>>;
using v10 = cista::offset::vector<off_uniq<std::int64_t>>;
using v11 = small_map_vec<std::uint8_t>;
using v12 = small_map_vec_off<tracked>;
using v13 = strong_map_vec<pod>;
using v14 = cista::offset::indexed_vector<tracked>;
using v15 = cista::raw::indexed_vector<cista::raw::string>;

PBT_REG(lim_u8, "limits_u8", (vec_limits<e_u8, v11>), 1500, 100000)
PBT_REG(lim_tr, "limits_tracked", (vec_limits<e_tracked, v12>), 1500, 100000)
PBT_REG(lim_pod, "limits_strong16", (vec_limits<e_pod, v13>), 40, 3000)
V_REG(raw_int, e_int, v1, 6000)
V_REG(offset_int, e_int, v2, 6000)
V_REG(raw_tracked, e_tracked, v3, 6000)
V_REG(offset_tracked, e_tracked, v4, 6000)
V_REG(raw_string, e_str<cista::raw::string>, v5, 4000)
V_REG(offset_string, e_str<cista::offset::string>, v6, 4000)
V_REG(raw_nested, RV, v7, 4000)
V_REG(offset_nested, OV, v8, 4000)
V_REG(raw_unique, e_uniq<raw_uniq>, v9, 4000)
V_REG(offset_unique, e_uniq<off_uniq>, v10, 4000)
V_REG(map_u8, e_u8, v11, 4000)
V_REG(map_u8_tracked, e_tracked, v12, 4000)
V_REG(map_strong, e_pod, v13, 4000)
V_REG(indexed_tracked, e_tracked, v14, 3000)
V_REG(indexed_string, e_str<cista::raw::string>, v15, 3000)

PBT_TARGET(vector_helpers, 2000, 50000) {
  // to_vec / to_indexed_vec and stream output
  std::vector<int> src;
  auto const n = c.len(40);
  for (auto i = std::size_t{0}; i != n; ++i) {
    src.push_back(static_cast<int>(c.num<std::int16_t>()));
  }
  auto const f = [](int const x) { return std::int64_t{x} * 3; };
  auto const same = [&](auto const& v, auto&& g) {
    PBT_EQ(static_cast<std::size_t>(v.size()), src.size());
    for (auto i = std::size_t{0}; i != src.size(); ++i) {
      PBT_EQ(static_cast<std::int64_t>(v[static_cast<std::uint32_t>(i)]),
             g(src[i]));
    }
  };
  auto const id = [](int const x) { return std::int64_t{x}; };
  same(cista::raw::to_vec(src), id);
  same(cista::offset::to_vec(src), id);
  same(cista::raw::to_vec(src, f), f);
  same(cista::offset::to_vec(src, f), f);
  same(cista::raw::to_vec(src.begin(), src.end(), f), f);
  same(cista::offset::to_vec(src.begin(), src.end(), f), f);
  same(cista::raw::to_indexed_vec(src), id);
  same(cista::offset::to_indexed_vec(src), id);
  same(cista::raw::to_indexed_vec(src, f), f);
  same(cista::offset::to_indexed_vec(src, f), f);
  same(cista::raw::to_indexed_vec(src.begin(), src.end(), f), f);
  same(cista::offset::to_indexed_vec(src.begin(), src.end(), f), f);
  std::stringstream ss, expect;
  ss << cista::raw::to_vec(src);
  expect << "[\n  ";
  for (auto i = std::size_t{0}; i != src.size(); ++i) {
    expect << (i ? ",\n  " : "") << src[i];
  }
  expect << "\n]";
  PBT_EQ(ss.str(), expect.str());
  c.log("n=%zu", n);
  c.nontrivial_if(n > 2);
}

}  // namespace
