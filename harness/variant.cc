// C17: variants against a model (index and value of the last assignment).
#include <array>
#include <memory>
#include <vector>

#include "elems.h"

#include "cista/containers.h"

namespace {
using pbt::Ctx;

struct boom {};
// throws from its constructors and assignments when the countdown ends
struct thrower : tracked {
  static int& countdown() {
    static int n = -1;
    return n;
  }
  static std::int64_t tick(std::int64_t v) {
    if (countdown() >= 0 && countdown()-- == 0) {
      throw boom{};
    }
    return v;
  }
  thrower() = default;
  explicit thrower(std::int64_t v) : tracked{tick(v)} {}
  thrower(thrower const& o) : tracked{tick(o.get())} {}
  thrower(thrower&& o) : tracked{tick(o.get())} {}
  thrower& operator=(thrower const& o) {
    v_ = tick(o.get());
    return *this;
  }
  thrower& operator=(thrower&& o) {
    v_ = tick(o.get());
    return *this;
  }
};
template <int I>
struct tag : tracked {
  using tracked::tracked;
};
template <int I>
struct plain {
  std::int16_t v_;
  friend bool operator==(plain const& a, plain const& b) { return a.v_ == b.v_; }
  friend bool operator!=(plain const& a, plain const& b) { return a.v_ != b.v_; }
  friend bool operator<(plain const& a, plain const& b) { return a.v_ < b.v_; }
  friend bool operator>(plain const& a, plain const& b) { return a.v_ > b.v_; }
  friend bool operator<=(plain const& a, plain const& b) { return a.v_ <= b.v_; }
  friend bool operator>=(plain const& a, plain const& b) { return a.v_ >= b.v_; }
};
}  // namespace
// the remaining comparisons of tracked
static bool operator>(tracked const& a, tracked const& b) { return b < a; }
static bool operator<=(tracked const& a, tracked const& b) { return !(b < a); }
static bool operator>=(tracked const& a, tracked const& b) { return !(a < b); }
namespace {

std::string text(std::int64_t v) {
  auto s = std::to_string(v);
  return v % 3 == 0 ? s + "-a-longer-text-stored-on-the-heap" : s;
}
// how alternative T represents v
template <typename T, typename = void>
struct alt {  // tracked and derived
  static T mk(std::int64_t v) { return T(v); }
  static std::int64_t rep(std::int64_t v) { return v; }
  static std::int64_t of(T const& t) { return t.get(); }
};
template <typename T>
struct alt<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
  static T mk(std::int64_t v) { return static_cast<T>(v); }
  static T rep(std::int64_t v) { return mk(v); }
  static T of(T const& t) { return t; }
};
template <int I>
struct alt<plain<I>> {
  static plain<I> mk(std::int64_t v) { return {static_cast<std::int16_t>(v)}; }
  static std::int16_t rep(std::int64_t v) { return static_cast<std::int16_t>(v); }
  static std::int16_t of(plain<I> const& t) { return t.v_; }
};
template <typename S>
struct alt_str {
  static S mk(std::int64_t v) { return S{text(v)}; }
  static std::string rep(std::int64_t v) { return text(v); }
  static std::string of(S const& t) { return std::string{t.data(), t.size()}; }
};
template <>
struct alt<std::string> : alt_str<std::string> {};
template <>
struct alt<cista::raw::string> : alt_str<cista::raw::string> {};
template <>
struct alt<cista::offset::string> : alt_str<cista::offset::string> {};
template <typename V>
struct alt_vec {
  static V mk(std::int64_t v) {
    V x;
    for (auto i = 0; i <= v % 5; ++i) {
      x.push_back(static_cast<std::uint32_t>(v % 3 + i));
    }
    return x;
  }
  static std::vector<std::uint32_t> rep(std::int64_t v) { return alt_vec<std::vector<std::uint32_t>>::mk(v); }
  static std::vector<std::uint32_t> of(V const& t) { return {t.begin(), t.end()}; }
};
template <>
struct alt<cista::offset::vector<std::uint32_t>> : alt_vec<cista::offset::vector<std::uint32_t>> {};
template <>
struct alt<cista::raw::vector<std::uint32_t>> : alt_vec<cista::raw::vector<std::uint32_t>> {};
template <typename U>
struct alt_uniq {
  static U mk(std::int64_t v) { return U{new tracked{v}, true}; }
  static std::int64_t rep(std::int64_t v) { return v; }
  static std::int64_t of(U const& t) { return t ? t->get() : -1; }
};
template <>
struct alt<cista::raw::unique_ptr<tracked>> : alt_uniq<cista::raw::unique_ptr<tracked>> {};
template <>
struct alt<cista::offset::unique_ptr<tracked>> : alt_uniq<cista::offset::unique_ptr<tracked>> {};
template <>
struct alt<std::unique_ptr<tracked>> {
  static std::unique_ptr<tracked> mk(std::int64_t v) { return std::make_unique<tracked>(v); }
  static std::int64_t rep(std::int64_t v) { return v; }
  static std::int64_t of(std::unique_ptr<tracked> const& t) { return t ? t->get() : -1; }
};

// Copy, Cmp, Dup: copyable / comparable / an alternative occurs twice
template <bool Copy, bool Cmp, bool Dup, bool Throws, bool Hash, typename... T>
struct kind {
  using V = cista::variant<T...>;
  static constexpr auto N = sizeof...(T);
  template <std::size_t I>
  using A = std::tuple_element_t<I, std::tuple<T...>>;

  struct model {
    int idx_{-1};
    std::int64_t v_{0};
  };

  template <typename F, std::size_t... I>
  static void at_(std::size_t k, F&& f, std::index_sequence<I...>) {
    ((k == I ? f(std::integral_constant<std::size_t, I>{}) : void()), ...);
  }
  template <typename F>
  static void at(std::size_t k, F&& f) {
    at_(k, f, std::make_index_sequence<N>{});
  }

  template <std::size_t I>
  static constexpr std::size_t first_of() {  // first alternative of this type
    return cista::index_of_type<A<I>, T...>();
  }

  static void check(V& v, model const& m) {
    auto const& cv = v;
    PBT_EQ(v.valid(), m.idx_ >= 0);
    PBT_EQ(static_cast<bool>(v), m.idx_ >= 0);
    if (m.idx_ < 0) {
      PBT_THROWS(v.apply([](auto&&) {}));
      PBT_THROWS(cv.apply([](auto&&) {}));
      for (std::size_t k = 0; k < N; k += 1 + N / 8) {
        at(k, [&](auto i) {
          constexpr auto I = decltype(i)::value;
          PBT_CHECK(cista::get_if<I>(v) == nullptr && cista::get_if<I>(cv) == nullptr);
          PBT_CHECK(!cista::holds_alternative<A<I>>(v));
        });
      }
      return;
    }
    PBT_EQ(v.index(), static_cast<std::size_t>(m.idx_));
    at(static_cast<std::size_t>(m.idx_), [&](auto i) {
      constexpr auto I = decltype(i)::value;
      using X = A<I>;
      PBT_CHECK(alt<X>::of(cista::get<I>(cv)) == alt<X>::rep(m.v_), "value differs");
      PBT_CHECK(&cista::get<I>(v) == &cista::get<I>(cv));
      PBT_CHECK(cista::get_if<I>(v) == &cista::get<I>(v));
      PBT_CHECK(cista::get_if<I>(cv) == &cista::get<I>(cv));
      if (first_of<I>() == I) {
        PBT_CHECK(cista::holds_alternative<X>(v));
        PBT_CHECK(&cista::get<X>(v) == &cista::get<I>(v) && &cista::get<X>(cv) == &cista::get<I>(v));
        PBT_CHECK(cista::get_if<X>(v) == &cista::get<I>(v) && cista::get_if<X>(cv) == &cista::get<I>(v));
      }
      PBT_CHECK(reinterpret_cast<std::uintptr_t>(&cista::get<I>(v)) % alignof(X) == 0);
      auto const b = reinterpret_cast<std::uintptr_t>(&cista::get<I>(v)) - reinterpret_cast<std::uintptr_t>(&v);
      PBT_CHECK(b + sizeof(X) <= sizeof(V));
      auto calls = 0;
      v.apply([&](auto&& x) {
        ++calls;
        PBT_CHECK((std::is_same_v<decltype(x), X&>), "visited as another type");
        PBT_CHECK(static_cast<void const*>(&x) == &cista::get<I>(cv));
      });
      PBT_EQ(calls, 1);
      cv.apply([&](auto&& x) {
        ++calls;
        PBT_CHECK((std::is_same_v<decltype(x), X const&>), "visited as another type");
        PBT_CHECK(static_cast<void const*>(&x) == &cista::get<I>(cv));
      });
      PBT_EQ(calls, 2);
      auto const visited = std::visit(
          [&](auto&& x) {
            PBT_CHECK((std::is_same_v<std::decay_t<decltype(x)>, X>), "visited as another type");
            return static_cast<void const*>(&x);
          },
          std::move(v));  // nothing takes its value
      PBT_CHECK(visited == static_cast<void const*>(&cista::get<I>(cv)), "result of std::visit");
    });
    for (std::size_t k = 0; k < N; k += 1 + N / 8) {
      if (k != static_cast<std::size_t>(m.idx_)) {
        at(k, [&](auto i) {
          constexpr auto I = decltype(i)::value;
          PBT_CHECK(cista::get_if<I>(v) == nullptr && cista::get_if<I>(cv) == nullptr);
          if constexpr (!Dup) {
            PBT_CHECK(!cista::holds_alternative<A<I>>(v));
            PBT_CHECK(cista::get_if<A<I>>(v) == nullptr && cista::get_if<A<I>>(cv) == nullptr);
          }
        });
      }
    }
  }

  static void compare(V const& a, V const& b, model const& m, model const& n) {
    if constexpr (Cmp) {
      auto eq = m.idx_ == n.idx_;
      auto lt = m.idx_ < n.idx_, gt = m.idx_ > n.idx_;
      if (eq && m.idx_ >= 0) {
        at(static_cast<std::size_t>(m.idx_), [&](auto i) {
          using X = A<decltype(i)::value>;
          auto const x = alt<X>::rep(m.v_), y = alt<X>::rep(n.v_);
          eq = x == y;
          lt = x < y;
          gt = y < x;
        });
      } else if (!eq && (m.idx_ < 0 || n.idx_ < 0)) {
        // a variant without value is ordered before or behind all others
        PBT_CHECK((a < b) != (b < a));
        V const empty;
        lt = (empty < (m.idx_ < 0 ? b : a)) == (m.idx_ < 0);
        gt = !lt;
      }
      PBT_EQ(a == b, eq);
      PBT_EQ(a != b, !eq);
      PBT_EQ(a < b, lt);
      PBT_EQ(a > b, gt);
      PBT_EQ(a <= b, !gt);
      PBT_EQ(a >= b, !lt);
      if constexpr (Hash) {
        if (eq) {
          PBT_CHECK(a.hash() == b.hash(), "equal variants with different hashes");
          PBT_CHECK(cista::hashing<V>{}(a) == cista::hashing<V>{}(b));
        }
      }
    } else {
      (void)a, (void)b, (void)m, (void)n;
    }
  }

  // runs f; returns false if it threw
  template <typename F>
  static bool guarded(Ctx& c, F&& f) {
    if constexpr (Throws) {
      thrower::countdown() = c.chance(1, 3) ? static_cast<int>(c.u(3)) : -1;
      try {
        f();
        thrower::countdown() = -1;
        return true;
      } catch (boom const&) {
        thrower::countdown() = -1;
        c.label("threw");
        return false;
      }
    } else {
      f();
      return true;
    }
  }
  // after an exception the variant is unchanged, or empty
  static void after_throw(V& v, model& m) {
    if (!v.valid()) {
      m.idx_ = -1;
    }
    check(v, m);
  }

  static void run(Ctx& c) {
    no_tracked_leak leak;
    auto same = 0U, other = 0U, moves = 0U;
    {
      std::array<V, 3> v;
      std::array<model, 3> m;
      auto const set = [&](std::size_t i, std::size_t k, std::int64_t x) {
        at(k, [&](auto ic) {
          constexpr auto I = decltype(ic)::value;
          using X = A<I>;
          constexpr auto F = first_of<I>();
          auto const op = Copy ? c.u(7) : 4 + c.u(2);
          auto val = alt<X>::mk(x);
          c.log("v%zu = alt%zu(%lld) op%d", i, I, static_cast<long long>(x), static_cast<int>(op));
          model n{static_cast<int>(F), x};
          (m[i].idx_ == static_cast<int>(F) ? same : other)++;
          auto const ok = guarded(c, [&]() {
            switch (op) {
              case 0:
                if constexpr (Copy) {
                  v[i] = val;
                }
                break;
              case 1:
                if constexpr (Copy) {
                  X const& cval = val;
                  v[i] = cval;
                }
                break;
              case 2:
                if constexpr (Copy) {
                  V t{val};
                  check(t, n);
                  v[i] = t;
                }
                break;
              case 3:
                if constexpr (Copy) {
                  X const& cval = val;
                  V const t{cval};
                  v[i] = t;
                  compare(v[i], t, n, n);
                }
                break;
              case 4: v[i] = std::move(val); break;
              case 5: {
                V t{std::move(val)};
                check(t, n);
                v[i] = std::move(t);
                break;
              }
              case 6: {
                auto& r = v[i].template emplace<I>(std::move(val));
                PBT_CHECK(static_cast<void const*>(&r) == &cista::get<I>(v[i]));
                n.idx_ = static_cast<int>(I);
                break;
              }
              default: {
                auto& r = v[i].template emplace<X>(std::move(val));
                PBT_CHECK(static_cast<void const*>(&r) == &cista::get<F>(v[i]));
                break;
              }
            }
          });
          if (ok) {
            if constexpr (Copy) {
              if (op < 4) {
                PBT_CHECK(alt<X>::of(val) == alt<X>::rep(x), "assigning a copy changed the source");
              }
            }
            m[i] = n;
          } else {
            after_throw(v[i], m[i]);
          }
        });
      };
      for (auto k = c.u(24) + 1; k != 0; --k) {
        auto const i = c.idx(3), j = c.idx(3);
        switch (c.u(7)) {
          case 0:
          case 1:
          case 2: set(i, c.idx(N), c.range(0, 40)); break;
          case 3:  // copy assignment (also of itself)
            if constexpr (Copy) {
              c.log("v%zu = v%zu", i, j);
              (m[i].idx_ == m[j].idx_ ? same : other)++;
              if (guarded(c, [&]() { v[i] = static_cast<V const&>(v[j]); })) {
                m[i] = m[j];
              } else {
                after_throw(v[i], m[i]);
              }
            }
            break;
          case 4: {  // move assignment, and construction
            if (i == j) {
              break;
            }
            c.log("v%zu = move(v%zu)", i, j);
            ++moves;
            if (c.flip()) {
              if (guarded(c, [&]() { v[i] = std::move(v[j]); })) {
                m[i] = m[j];
              } else {
                after_throw(v[i], m[i]);
                break;
              }
            } else {
              if (guarded(c, [&]() {
                    V t{std::move(v[j])};
                    check(t, m[j]);
                  })) {
              } else {
                break;
              }
            }
            check(v[i], m[i]);
            PBT_CHECK(v[j].valid() == (m[j].idx_ >= 0), "moving from a variant changed whether it has a value");
            if (m[j].idx_ >= 0) {  // its value is unspecified
              PBT_EQ(v[j].index(), static_cast<std::size_t>(m[j].idx_));
              m[j].idx_ = -1;
              auto const n = static_cast<std::size_t>(v[j].index());
              m[j].idx_ = static_cast<int>(n);
              if constexpr (Throws) {
                v[j].template emplace<0>(A<0>(7));
                m[j] = {0, 7};
              } else {
                set(j, c.flip() ? n : c.idx(N), c.range(0, 40));
              }
            }
            break;
          }
          case 5:
            if constexpr (!Throws) {
              c.log("swap(v%zu, v%zu)", i, j);
              if (i != j || m[i].idx_ < 0) {
                if (c.flip()) {
                  v[i].swap(v[j]);
                } else {
                  using std::swap;
                  swap(v[i], v[j]);
                }
                std::swap(m[i], m[j]);
              }
            }
            break;
          case 6:  // written through a visit
            if (m[i].idx_ >= 0) {
              auto const x = c.range(0, 40);
              c.log("visit v%zu: %lld", i, static_cast<long long>(x));
              v[i].apply([&](auto& el) { el = alt<std::decay_t<decltype(el)>>::mk(x); });
              m[i].v_ = x;
            }
            break;
          default:  // replaced by an empty one, or a copy constructed
            if (c.chance(1, 3)) {
              c.log("v%zu = {}", i);
              v[i] = V{};
              m[i] = {};
            } else if constexpr (Copy) {
              c.log("V{v%zu}", i);
              guarded(c, [&]() {
                V t{static_cast<V const&>(v[i])};
                check(t, m[i]);
                compare(t, v[i], m[i], m[i]);
                V u{v[i]};  // of a non-const lvalue
                check(u, m[i]);
              });
            }
        }
        for (auto x = 0U; x != 3; ++x) {
          check(v[x], m[x]);
          for (auto y = 0U; y != 3; ++y) {
            compare(v[x], v[y], m[x], m[y]);
          }
        }
        // visiting two variants that hold the same alternative
        if (m[i].idx_ == m[j].idx_ && m[i].idx_ >= 0) {
          auto n = 0;
          V::apply(
              [&](auto&& a, auto&& b) {
                ++n;
                PBT_CHECK((std::is_same_v<decltype(a), decltype(b)>));
              },
              v[i].idx_, v[i], v[j]);
          PBT_EQ(n, 1);
        }
      }
    }
    c.nontrivial_if(same >= 2 && other >= 2 && moves >= 1);
  }
};

template <typename... T>
using simple = kind<true, true, false, false, true, T...>;
template <typename... T>
using move_only = kind<false, false, false, false, false, T...>;
using cista::offset::vector;

template <int... I>
auto many(std::integer_sequence<int, I...>) -> kind<true, true, false, false, false, plain<I>...>;

using k_lifetime = simple<std::int32_t, tracked, std::string>;
using k_trivial = simple<std::uint8_t, bool, double, std::uint64_t, std::int16_t>;
using k_heap = kind<true, true, false, false, true, cista::offset::string, vector<std::uint32_t>, tracked, tag<1>, std::int64_t>;
using k_heap_raw = kind<true, true, false, false, true, cista::raw::string, cista::raw::vector<std::uint32_t>, tag<0>>;
using k_one = simple<tracked>;
using k_move_only = move_only<tracked, cista::raw::unique_ptr<tracked>, std::unique_ptr<tracked>, int>;
using k_move_only_o = move_only<cista::offset::unique_ptr<tracked>, tag<2>>;
using k_throw = kind<true, false, false, true, false, thrower, tracked, std::string>;
using k_dup = kind<true, true, true, false, false, int, tracked, int, tracked, std::string>;
using k_15 = simple<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>, tag<6>, tag<7>, tag<8>, tag<9>, tag<10>, tag<11>, tag<12>, tag<13>, int>;
using k_16 = simple<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>, tag<6>, tag<7>, tag<8>, tag<9>, tag<10>, tag<11>, tag<12>, tag<13>, int, tag<15>>;
using k_17 = simple<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>, tag<6>, tag<7>, tag<8>, tag<9>, tag<10>, tag<11>, tag<12>, tag<13>, int, tag<15>, tag<16>>;
using k_40 = decltype(many(std::make_integer_sequence<int, 40>{}));
}  // namespace

#define V(K, Q) PBT_REG(var_##K, "var_" #K, k_##K::run, Q * 6 / 10, Q * 60)
#if GROUP == 1
V(lifetime, 8000)
V(trivial, 8000)
V(heap, 8000)
V(move_only, 8000)
V(throw, 8000)
V(dup, 6000)
#else
V(heap_raw, 6000)
V(one, 4000)
V(move_only_o, 6000)
V(15, 4000)
V(16, 4000)
V(17, 4000)
V(40, 4000)
#endif
