// C18: optionals, unique pointers, tuples and pairs against their standard
// counterparts, with elements that notice leaks and bytewise copies.
#include <memory>
#include <optional>
#include <tuple>
#include <utility>
#include <vector>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/tuple.h"
#include "elems.h"

namespace {
using pbt::Ctx;

struct alignas(32) wide {
  bool operator==(wide const& o) const { return v_ == o.v_; }
  std::int64_t v_;
};

// value of an element <-> number
template <typename T>
struct conv {
  static T mk(std::int64_t const v) { return T(v); }
  static std::int64_t val(T const& t) {
    if constexpr (std::is_same_v<T, tracked>) {
      return t.get();
    } else {
      return static_cast<std::int64_t>(t);
    }
  }
};
template <>
struct conv<wide> {
  static wide mk(std::int64_t const v) { return wide{v}; }
  static std::int64_t val(wide const& t) { return t.v_; }
};
template <typename P>
struct conv_str {
  static P mk(std::int64_t const v) {
    auto s = std::to_string(v);
    if (v % 2 != 0) {
      s = "a longer text that is stored on the heap: " + s;
    }
    return P{s};
  }
  static std::int64_t val(P const& t) {
    auto const s = std::string{t.view()};
    auto const p = s.rfind(' ');
    auto const v = std::stoll(p == std::string::npos ? s : s.substr(p + 1));
    PBT_CHECK((p != std::string::npos) == (v % 2 != 0), "damaged text %s", s.c_str());
    return v;
  }
};
template <>
struct conv<cista::raw::string> : conv_str<cista::raw::string> {};
template <>
struct conv<cista::offset::string> : conv_str<cista::offset::string> {};
template <typename T>
struct conv_vec {
  static T mk(std::int64_t const v) {
    T t;
    for (std::int64_t i = 0; i != (v < 0 ? -v : v) % 4 + 1; ++i) {
      t.push_back(v + i);
    }
    return t;
  }
  static std::int64_t val(T const& t) {
    PBT_CHECK(!t.empty(), "elements lost");
    auto const v = conv<std::decay_t<decltype(t[0])>>::val(t[0]);
    PBT_EQ(t.size(), static_cast<std::size_t>((v < 0 ? -v : v) % 4 + 1));
    for (unsigned i = 0; i != t.size(); ++i) {
      PBT_EQ(conv<std::decay_t<decltype(t[0])>>::val(t[i]), v + static_cast<std::int64_t>(i));
    }
    return v;
  }
};
template <>
struct conv<cista::offset::vector<tracked>> : conv_vec<cista::offset::vector<tracked>> {};
template <>
struct conv<cista::raw::vector<std::int64_t>> : conv_vec<cista::raw::vector<std::int64_t>> {};
template <typename P>
struct conv_up {
  static P mk(std::int64_t const v) { return P{new tracked{v}}; }
  static std::int64_t val(P const& t) {
    PBT_CHECK(t.get() != nullptr, "object lost");
    return t->get();
  }
};
template <>
struct conv<cista::raw::unique_ptr<tracked>> : conv_up<cista::raw::unique_ptr<tracked>> {};
template <>
struct conv<cista::offset::unique_ptr<tracked>> : conv_up<cista::offset::unique_ptr<tracked>> {};
template <typename T>
struct conv<cista::optional<T>> {
  static cista::optional<T> mk(std::int64_t const v) { return v % 5 == 0 ? cista::optional<T>{} : cista::optional<T>{conv<T>::mk(v)}; }
  static std::int64_t val(cista::optional<T> const& t) { return t.has_value() ? conv<T>::val(*t) : 0; }
};
template <typename A, typename B>
struct conv<cista::pair<A, B>> {
  static cista::pair<A, B> mk(std::int64_t const v) { return {conv<A>::mk(v), conv<B>::mk(v)}; }
  static std::int64_t val(cista::pair<A, B> const& t) {
    PBT_EQ(conv<A>::val(t.first), conv<B>::val(t.second));
    return conv<A>::val(t.first);
  }
};
template <typename A, typename B>
struct conv<cista::tuple<A, B>> {
  static cista::tuple<A, B> mk(std::int64_t const v) { return {conv<A>::mk(v), conv<B>::mk(v)}; }
  static std::int64_t val(cista::tuple<A, B> const& t) {
    PBT_EQ(conv<A>::val(cista::get<0>(t)), conv<B>::val(cista::get<1>(t)));
    return conv<A>::val(cista::get<0>(t));
  }
};

std::int64_t number(Ctx& c) { return c.flip() ? c.range(1, 9) : c.range(-100, 100); }

// ---------------------------------------------------------------- optional
template <typename T>
void optionals(Ctx& c) {
  constexpr auto copyable = std::is_copy_constructible_v<T> && !std::is_same_v<T, cista::raw::unique_ptr<tracked>> && !std::is_same_v<T, cista::offset::unique_ptr<tracked>>;
  using O = cista::optional<T>;
  using C = conv<T>;
  // a value as the element type represents it
  auto const norm = [](std::int64_t const v) { return C::val(C::mk(v)); };
  no_tracked_leak leak;
  {
    constexpr auto N = 3U;
    O o[N];
    std::optional<std::int64_t> m[N];
    auto const check = [&](unsigned const i) {
      O const& k = o[i];
      PBT_EQ(k.has_value(), m[i].has_value());
      PBT_EQ(static_cast<bool>(k), m[i].has_value());
      PBT_CHECK(reinterpret_cast<std::uintptr_t>(&*k) % alignof(T) == 0, "misaligned value");
      if (m[i].has_value()) {
        PBT_EQ(C::val(*k), *m[i]);
        PBT_CHECK(&*k == k.operator->() && &*k == &k.value() && &*o[i] == &*k && o[i].operator->() == &*k && &o[i].value() == &*k, "accessors disagree");
      }
    };
    auto set = 0U, cleared = 0U;
    for (unsigned step = 0; step < 40 && c.more(20); ++step) {
      auto const i = static_cast<unsigned>(c.u(N - 1)), j = static_cast<unsigned>(c.u(N - 1));
      auto const had = m[i].has_value();
      switch (c.u(12)) {
        case 0:
        case 1: {
          auto const v = number(c);
          c.log("o%u = value %lld", i, (long long)v);
          o[i] = C::mk(v);
          m[i] = norm(v);
          break;
        }
        case 2:
          if constexpr (copyable) {
            auto const v = number(c);
            c.log("o%u = lvalue %lld", i, (long long)v);
            auto const t = C::mk(v);
            o[i] = t;
            m[i] = norm(v);
            PBT_EQ(C::val(t), norm(v));
          }
          break;
        case 3:
          c.log("o%u = nullopt", i);
          o[i] = std::nullopt;
          m[i] = std::nullopt;
          break;
        case 4:
          c.log("o%u.reset", i);
          o[i].reset();
          m[i].reset();
          break;
        case 5:
          if constexpr (copyable) {
            c.log("o%u = o%u", i, j);
            o[i] = static_cast<O const&>(o[j]);
            m[i] = m[j];
          }
          break;
        case 6:
          if constexpr (copyable) {
            c.log("copy-construct o%u from o%u", i, j);
            O t{static_cast<O const&>(o[j])};
            m[i] = m[j];
            o[i] = std::move(t);
          }
          break;
        case 7:
          if (i != j) {
            c.log("o%u = move(o%u)", i, j);
            o[i] = std::move(o[j]);
            m[i] = m[j];
            // the source has an unspecified value
            o[j] = std::nullopt;
            m[j] = std::nullopt;
          }
          break;
        case 8:
          c.log("move-construct from o%u, back", i);
          {
            O t{std::move(o[i])};
            o[i] = C::mk(77);
            PBT_EQ(t.has_value(), m[i].has_value());
            o[i] = std::move(t);
          }
          break;
        case 9:
          c.log("swap o%u o%u", i, j);
          if (i != j) {
            std::swap(o[i], o[j]);
            std::swap(m[i], m[j]);
          }
          break;
        case 10:
          if (m[i].has_value()) {
            auto const v = number(c);
            c.log("*o%u = %lld", i, (long long)v);
            if (c.flip()) {
              *o[i] = C::mk(v);
            } else {
              o[i].value() = C::mk(v);
            }
            m[i] = norm(v);
          } else if (c.chance(1, 4)) {
            PBT_THROWS(o[i].value());
            PBT_THROWS(static_cast<O const&>(o[i]).value());
          }
          break;
        case 11: {
          c.log("construct from value / nullopt");
          auto const v = number(c);
          O t{C::mk(v)};
          PBT_CHECK(t.has_value(), "no value");
          PBT_EQ(C::val(*t), norm(v));
          O e{std::nullopt};
          PBT_CHECK(!e.has_value(), "has a value");
          o[i] = std::move(t);
          m[i] = norm(v);
          o[j] = std::move(e);
          m[j] = std::nullopt;
          break;
        }
        default: {
          c.log("vector of optionals");
          cista::raw::vector<O> v;
          std::vector<std::optional<std::int64_t>> w;
          for (auto n = c.u(6); n != 0; --n) {
            auto const x = number(c);
            if (c.flip()) {
              v.emplace_back(C::mk(x));
              w.emplace_back(norm(x));
            } else {
              v.emplace_back();
              w.emplace_back();
            }
          }
          PBT_EQ(v.size(), w.size());
          for (unsigned k = 0; k != v.size(); ++k) {
            PBT_EQ(v[k].has_value(), w[k].has_value());
            if (w[k].has_value()) {
              PBT_EQ(C::val(*v[k]), *w[k]);
            }
          }
        }
      }
      set += m[i].has_value() ? 1 : 0;
      cleared += had && !m[i].has_value() ? 1 : 0;
      for (auto k = 0U; k != N; ++k) {
        check(k);
      }
      if constexpr (copyable) {
        // comparison as std::optional compares
        PBT_CHECK((o[i] == o[j]) == (m[i] == m[j]) && (o[i] != o[j]) == (m[i] != m[j]), "== and != of optionals");
        if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, tracked>) {
          PBT_CHECK((o[i] < o[j]) == (m[i] < m[j]) && (o[i] > o[j]) == (m[i] > m[j]) && (o[i] <= o[j]) == (m[i] <= m[j]) && (o[i] >= o[j]) == (m[i] >= m[j]), "order of optionals");
        }
      }
    }
    c.nontrivial_if(set >= 3 && cleared >= 1);
  }
}

// an element whose copies fail when the countdown ends
struct boom {};
struct frail : tracked {
  static int& countdown() {
    static int n = -1;
    return n;
  }
  static std::int64_t tick(std::int64_t const v) {
    if (countdown() >= 0 && countdown()-- == 0) {
      throw boom{};
    }
    return v;
  }
  explicit frail(std::int64_t const v) : tracked{v} {}
  frail(frail const& o) : tracked{tick(o.get())} {}
  frail(frail&& o) noexcept : tracked{std::move(o)} {}
  frail& operator=(frail const& o) {
    tick(0);
    tracked::operator=(o);
    return *this;
  }
  frail& operator=(frail&&) = default;
};
void failing_copies(Ctx& c) {
  no_tracked_leak leak;
  {
    using O = cista::optional<frail>;
    constexpr auto N = 3U;
    O o[N];
    std::optional<std::int64_t> m[N];
    auto failed = 0U, ok = 0U;
    auto const check = [&]() {
      for (auto k = 0U; k != N; ++k) {
        PBT_EQ(o[k].has_value(), m[k].has_value());
        if (m[k].has_value()) {
          PBT_EQ((*o[k]).get(), *m[k]);
        }
      }
    };
    for (unsigned step = 0; step < 30 && c.more(14); ++step) {
      auto const i = static_cast<unsigned>(c.u(N - 1)), j = static_cast<unsigned>(c.u(N - 1));
      auto const v = number(c);
      frail const x{v};
      frail::countdown() = c.chance(1, 2) ? static_cast<int>(c.u(1)) : -1;
      auto const op = c.u(4);
      c.log("op%d o%u o%u value %lld countdown %d", static_cast<int>(op), i, j, static_cast<long long>(v), frail::countdown());
      try {
        switch (op) {
          case 0:
            o[i] = static_cast<O const&>(o[j]);
            m[i] = m[j];
            break;
          case 1: {
            O t{static_cast<O const&>(o[j])};
            PBT_EQ(t.has_value(), m[j].has_value());
            o[i] = std::move(t);
            m[i] = m[j];
            break;
          }
          case 2: {
            O t{x};
            PBT_CHECK(t.has_value() && (*t).get() == v, "value differs");
            break;
          }
          case 3:
            o[i] = x;
            m[i] = v;
            break;
          default:
            o[i] = O{frail{v}};
            m[i] = v;
        }
        ++ok;
      } catch (boom const&) {
        ++failed;
        // assigning to it failed: unchanged, or empty
        if (!o[i].has_value()) {
          m[i].reset();
        }
      }
      frail::countdown() = -1;
      check();
    }
    c.nontrivial_if(failed >= 1 && ok >= 2);
  }
}
PBT_REG(failing_copies, "optional_failing_copies", failing_copies, 4000, 1000000)

// -------------------------------------------------------------- unique_ptr
template <typename P>
P make(std::int64_t v);
template <>
cista::raw::unique_ptr<tracked> make(std::int64_t const v) {
  return cista::raw::make_unique<tracked>(v);
}
template <>
cista::offset::unique_ptr<tracked> make(std::int64_t const v) {
  return cista::offset::make_unique<tracked>(v);
}

template <typename P>
void pointers(Ctx& c) {
  no_tracked_leak leak;
  tracked other{4711};
  {
    constexpr auto N = 3U;
    struct state {
      tracked* p_{nullptr};
      std::int64_t v_{0};
      bool own_{false};
    };
    auto const base = tracked::live();
    P p[N];
    state m[N];
    auto const check = [&]() {
      auto owned = 0;
      for (auto k = 0U; k != N; ++k) {
        P const& q = p[k];
        PBT_EQ(static_cast<bool>(q), m[k].p_ != nullptr);
        PBT_CHECK((q == nullptr) == (m[k].p_ == nullptr) && (nullptr == q) == (m[k].p_ == nullptr) && (q != nullptr) == (m[k].p_ != nullptr) && (nullptr != q) == (m[k].p_ != nullptr), "comparison with nullptr");
        PBT_CHECK(q.get() == m[k].p_ && q.operator->() == m[k].p_ && p[k].operator->() == m[k].p_, "pointer differs");
        if (m[k].p_ != nullptr) {
          PBT_CHECK(&*q == m[k].p_ && &*p[k] == m[k].p_, "dereferencing");
          PBT_EQ(q->get(), m[k].v_);
        }
        owned += m[k].own_ ? 1 : 0;
      }
      PBT_EQ(tracked::live() - base, static_cast<std::int64_t>(owned));
    };
    auto made = 0U, moves = 0U;
    for (unsigned step = 0; step < 40 && c.more(20); ++step) {
      auto const i = static_cast<unsigned>(c.u(N - 1)), j = static_cast<unsigned>(c.u(N - 1));
      auto const v = number(c);
      switch (c.u(10)) {
        case 0:
        case 1:
          c.log("p%u = make_unique(%lld)", i, (long long)v);
          p[i] = make<P>(v);
          m[i] = {p[i].get(), v, true};
          ++made;
          break;
        case 2: {
          c.log("p%u takes a new object", i);
          auto* const t = new tracked{v};
          p[i] = P{t};
          m[i] = {t, v, true};
          ++made;
          break;
        }
        case 3:
          c.log("p%u does not own", i);
          p[i] = P{&other, false};
          m[i] = {&other, other.get(), false};
          break;
        case 4:
          c.log("p%u = move(p%u)", i, j);
          p[i] = std::move(p[j]);
          if (i != j) {
            m[i] = m[j];
            m[j] = {};
          }
          ++moves;
          break;
        case 5: {
          c.log("move-construct from p%u", i);
          P t{std::move(p[i])};
          PBT_CHECK(p[i].get() == nullptr && t.get() == m[i].p_, "ownership not transferred");
          if (c.flip()) {
            p[i] = std::move(t);
          } else {
            m[i] = {};
          }
          ++moves;
          break;
        }
        case 6:
          c.log("p%u.reset", i);
          p[i].reset();
          m[i] = {};
          break;
        case 7:
          c.log("p%u = nullptr", i);
          p[i] = nullptr;
          m[i] = {};
          break;
        case 8:
          c.log("swap p%u p%u", i, j);
          std::swap(p[i], p[j]);
          std::swap(m[i], m[j]);
          break;
        case 9: {
          c.log("null pointers");
          P a{nullptr}, b{static_cast<tracked*>(nullptr)}, d{static_cast<tracked*>(nullptr), false};
          PBT_CHECK(!a && !b && !d, "null pointer");
          a.reset();
          a = std::move(b);
          p[i] = std::move(a);
          m[i] = {};
          break;
        }
        default: {
          c.log("vector of pointers");
          cista::raw::vector<P> w;
          std::vector<std::int64_t> e;
          for (auto n = c.u(7); n != 0; --n) {
            if (!e.empty() && c.chance(1, 4)) {
              auto const k = c.idx(e.size());
              w.erase(w.begin() + static_cast<std::ptrdiff_t>(k));
              e.erase(e.begin() + static_cast<std::ptrdiff_t>(k));
            } else {
              w.emplace_back(make<P>(v + static_cast<std::int64_t>(n)));
              e.push_back(v + static_cast<std::int64_t>(n));
            }
          }
          PBT_EQ(w.size(), e.size());
          for (unsigned k = 0; k != e.size(); ++k) {
            PBT_EQ(w[k]->get(), e[k]);
          }
        }
      }
      check();
      if (m[i].p_ != nullptr && m[i].own_ && c.flip()) {
        *p[i] = tracked{v + 1};
        m[i].v_ = v + 1;
        check();
      }
    }
    c.nontrivial_if(made >= 2 && moves >= 1);
  }
}

// ------------------------------------------------------------------- tuple
template <typename... Ts>
struct tup {
  using T = cista::tuple<Ts...>;
  static constexpr auto K = sizeof...(Ts);
  using M = std::array<std::int64_t, K>;
  static constexpr auto copyable = (... && (!std::is_same_v<Ts, cista::raw::unique_ptr<tracked>> && !std::is_same_v<Ts, cista::offset::unique_ptr<tracked>>));

  template <typename E>
  static std::int64_t norm(std::int64_t const v) {
    return conv<E>::val(conv<E>::mk(v));
  }
  static T mk(M const& m) { return mk_impl(m, std::make_index_sequence<K>{}); }
  template <std::size_t... I>
  static T mk_impl(M const& m, std::index_sequence<I...>) {
    return T{conv<Ts>::mk(m[I])...};
  }
  template <std::size_t... I>
  static M zero(std::index_sequence<I...>) {
    return M{(0 * I)...};
  }
  static void check(T const& t, M const& m) {
    check_impl(t, m, std::make_index_sequence<K>{});
    auto i = 0U;
    cista::apply([&](auto&&... e) { ((check_eq(conv<std::decay_t<decltype(e)>>::val(e), m[i]), ++i), ...); }, t);
    PBT_EQ(i, static_cast<unsigned>(K));
  }
  static void check_eq(std::int64_t const a, std::int64_t const b) { PBT_EQ(a, b); }
  template <std::size_t... I>
  static void check_impl(T const& t, M const& m, std::index_sequence<I...>) {
    (check_eq(conv<Ts>::val(cista::get<I>(t)), m[I]), ...);
    // aligned, in order, inside and not overlapping
    std::uintptr_t end = reinterpret_cast<std::uintptr_t>(&t);
    auto const limit = end + sizeof(T);
    auto const place = [&](auto const& e) {
      auto const p = reinterpret_cast<std::uintptr_t>(&e);
      PBT_CHECK(p % alignof(std::decay_t<decltype(e)>) == 0 && p >= end && p + sizeof(e) <= limit, "element of a tuple misplaced");
      end = p + sizeof(e);
    };
    (place(cista::get<I>(t)), ...);
  }
  template <std::size_t I>
  static void set(T& t, M& m, std::int64_t const v) {
    using E = std::tuple_element_t<I, T>;
    cista::get<I>(t) = conv<E>::mk(v);
    m[I] = norm<E>(v);
  }
  template <std::size_t... I>
  static void set_at(T& t, M& m, std::size_t const k, std::int64_t const v, std::index_sequence<I...>) {
    ((k == I ? set<I>(t, m, v) : void()), ...);
  }
  template <std::size_t... I>
  static M norm_all(M const& m, std::index_sequence<I...>) {
    return M{norm<Ts>(m[I])...};
  }

  static void run(Ctx& c) {
    no_tracked_leak leak;
    static_assert(cista::tuple_size_v<T> == K && std::tuple_size_v<T> == K);
    static_assert((std::is_same_v<Ts, std::tuple_element_t<0, cista::tuple<Ts>>> && ...));
    {
      auto const gen = [&]() {
        M m{};
        for (auto& x : m) {
          x = c.flip() ? c.range(1, 3) : number(c);
        }
        return m;
      };
      auto const seq = std::make_index_sequence<K>{};
      constexpr auto N = 3U;
      M m[N];
      for (auto& x : m) {
        x = norm_all(gen(), seq);
      }
      T t[N]{mk(m[0]), mk(m[1]), mk(m[2])};
      auto copies = 0U, moved = 0U;
      for (unsigned step = 0; step < 30 && c.more(12); ++step) {
        auto const i = static_cast<unsigned>(c.u(N - 1)), j = static_cast<unsigned>(c.u(N - 1));
        switch (c.u(6)) {
          case 0: {
            c.log("t%u = new values", i);
            m[i] = norm_all(gen(), seq);
            t[i] = mk(m[i]);
            break;
          }
          case 1: {
            auto const k = c.idx(K);
            auto const v = number(c);
            c.log("get<%u>(t%u) = %lld", static_cast<unsigned>(k), i, (long long)v);
            set_at(t[i], m[i], k, v, seq);
            break;
          }
          case 2:
            if constexpr (copyable) {
              c.log("t%u = t%u", i, j);
              t[i] = static_cast<T const&>(t[j]);
              m[i] = m[j];
              ++copies;
            }
            break;
          case 3:
            if constexpr (copyable) {
              c.log("t%u copied", i);
              T x{static_cast<T const&>(t[i])};
              check(x, m[i]);
              ++copies;
              if (c.flip()) {
                auto mm = m[i];
                set_at(x, mm, c.idx(K), number(c), seq);
                check(x, mm);
              }
            }
            break;
          case 4:
            if (i != j) {
              c.log("t%u = move(t%u)", i, j);
              t[i] = std::move(t[j]);
              m[i] = m[j];
              m[j] = norm_all(gen(), seq);
              t[j] = mk(m[j]);
              ++copies;
            }
            break;
          case 5: {
            c.log("t%u moved out and back", i);
            ++moved;
            T x{std::move(t[i])};
            check(x, m[i]);
            t[i] = std::move(x);
            break;
          }
          default:
            c.log("swap");
            if (i != j) {
              std::swap(t[i], t[j]);
              std::swap(m[i], m[j]);
            }
        }
        for (auto k = 0U; k != N; ++k) {
          check(t[k], m[k]);
        }
        if constexpr (copyable) {
          T const &a = t[i], &b = t[j];
          PBT_CHECK((a == b) == (m[i] == m[j]), "==");
          PBT_CHECK((a != b) == (m[i] != m[j]), "!=");
          if constexpr (ordered) {
            PBT_CHECK((a < b) == (m[i] < m[j]), "<");
            PBT_CHECK((a <= b) == (m[i] <= m[j]), "<=");
            PBT_CHECK((a > b) == (m[i] > m[j]), ">");
            PBT_CHECK((a >= b) == (m[i] >= m[j]), ">=");
          }
        }
      }
      c.nontrivial_if(copies >= 2 || moved >= 2);
    }
    if constexpr ((std::is_arithmetic_v<Ts> && ...)) {
      T z{};
      check(z, zero(std::make_index_sequence<K>{}));
    } else if constexpr ((std::is_default_constructible_v<Ts> && ...)) {
      T z{};
      auto const base = tracked::live();
      { T y{}; }
      PBT_EQ(tracked::live(), base);
    }
  }
  template <typename E>
  static constexpr bool plain = std::is_arithmetic_v<E> || std::is_same_v<E, tracked>;
  static constexpr bool ordered = (plain<Ts> && ...);
};

// -------------------------------------------------------------------- pair
template <typename A, typename B>
void pairs(Ctx& c) {
  no_tracked_leak leak;
  {
    using P = cista::pair<A, B>;
    auto const gen = [&]() { return std::pair<std::int64_t, std::int64_t>{c.range(1, 3), c.range(1, 3)}; };
    auto const mk = [](std::pair<std::int64_t, std::int64_t> const m) { return P{conv<A>::mk(m.first), conv<B>::mk(m.second)}; };
    auto const check = [](P const& p, std::pair<std::int64_t, std::int64_t> const& m) { PBT_CHECK(conv<A>::val(p.first) == m.first && conv<B>::val(p.second) == m.second, "pair differs"); };
    auto ma = gen(), mb = gen();
    auto a = mk(ma), b = mk(mb);
    for (unsigned step = 0; step < 20 && c.more(8); ++step) {
      switch (c.u(5)) {
        case 0: ma = gen(), a = mk(ma); break;
        case 1: mb = gen(), b = mk(mb); break;
        case 2: a = b, ma = mb; break;
        case 3: std::swap(a, b), std::swap(ma, mb); break;
        case 4: a.second = conv<B>::mk(2), ma.second = 2; break;
        default: {
          auto x = cista::pair{conv<A>::mk(ma.first), conv<B>::mk(ma.second)};
          static_assert(std::is_same_v<decltype(x), P>);
          check(x, ma);
          P y{a};
          check(y, ma);
          P z{std::move(y)};
          check(z, ma);
          auto const& [f, s] = z;
          PBT_CHECK(conv<A>::val(f) == ma.first && conv<B>::val(s) == ma.second, "structured binding");
        }
      }
      check(a, ma);
      check(b, mb);
      PBT_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb), "equality of pairs");
      PBT_CHECK((a < b) == (ma < mb) && (a <= b) == (ma <= mb) && (a > b) == (ma > mb) && (a >= b) == (ma >= mb), "order of pairs");
    }
    c.nontrivial_if(ma != mb);
  }
}

#define OPT(N, ...)                                     \
  void optional_##N(Ctx& c) { optionals<__VA_ARGS__>(c); } \
  PBT_REG(optional_##N, "optional_" #N, optional_##N, 4000, 1000000)
OPT(int64, std::int64_t)
OPT(int8, std::int8_t)
OPT(wide, wide)
OPT(tracked, tracked)
OPT(rstring, cista::raw::string)
OPT(ostring, cista::offset::string)
OPT(vector, cista::offset::vector<tracked>)
OPT(nested, cista::optional<tracked>)
OPT(unique, cista::raw::unique_ptr<tracked>)
OPT(ounique, cista::offset::unique_ptr<tracked>)
OPT(pair, cista::pair<tracked, cista::raw::string>)
OPT(tuple, cista::tuple<std::int8_t, tracked>)
PBT_REG(unique_raw, "unique_raw", pointers<cista::raw::unique_ptr<tracked>>, 6000, 2000000)
PBT_REG(unique_offset, "unique_offset", pointers<cista::offset::unique_ptr<tracked>>, 6000, 2000000)
#define TUP(N, ...)                                \
  void tup_##N(Ctx& c) { tup<__VA_ARGS__>::run(c); } \
  PBT_REG(tuple_##N, "tuple_" #N, tup_##N, 4000, 1000000)
TUP(one, tracked)
TUP(nums, std::int8_t, std::int64_t, std::int16_t)
TUP(nums2, std::int8_t, double, std::int8_t, std::int32_t, float, std::int8_t)
TUP(nums3, std::int32_t, std::int8_t, std::int32_t, std::int16_t)
TUP(nums4, std::int16_t, std::int8_t, std::int32_t, std::int8_t, std::int16_t, std::int8_t, std::int64_t, std::int8_t)
TUP(nums5, std::int8_t, std::int8_t, std::int8_t, std::int16_t, std::int32_t, std::int8_t, double)
TUP(nums6, std::int64_t, std::int32_t, std::int16_t, std::int8_t, std::int8_t)
TUP(nums7, std::int16_t, std::int16_t, std::int8_t, std::int16_t, std::int8_t, std::int8_t, std::int32_t, std::int32_t, std::int64_t)
TUP(tracked, tracked, std::int8_t, tracked)
TUP(wide, std::int8_t, wide, std::int8_t)
TUP(strings, cista::raw::string, std::int16_t, cista::offset::string)
TUP(move, cista::raw::unique_ptr<tracked>, std::int8_t, cista::offset::unique_ptr<tracked>)
TUP(mixed, cista::optional<tracked>, cista::raw::vector<std::int64_t>, std::int8_t, tracked)
TUP(nested, cista::tuple<std::int8_t, std::int64_t>, std::int8_t, cista::pair<std::int16_t, tracked>)
#define PAIR(N, ...)                                     \
  void pair_##N(Ctx& c) { pairs<__VA_ARGS__>(c); } \
  PBT_REG(pair_##N, "pair_" #N, pair_##N, 4000, 1000000)
PAIR(nums, std::int8_t, std::int64_t)
PAIR(tracked, tracked, tracked)
PAIR(nested, cista::pair<std::int16_t, std::int16_t>, tracked)
PAIR(tuple, cista::tuple<std::int8_t, std::int64_t>, std::int16_t)
}  // namespace
