// C19: equality, hashing and ordering of generated values, built in different
// ways, against equality and order of the plain values they stand for.
#include <chrono>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/tuple.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#include "cista/serialization.h"
#include "cista/strong.h"

namespace hq {
using pbt::Ctx;

enum class color : std::uint8_t { red, green, blue };
using key = cista::strong<std::uint32_t, struct key_>;

// aggregates: reflected, with the comparison macros, with listed members
struct agg {
  std::int32_t a_;
  cista::offset::string b_;
  cista::offset::vector<std::int16_t> c_;
};
struct ints {
  bool operator==(ints const& o) const { return a_ == o.a_ && b_ == o.b_ && c_ == o.c_; }
  std::int8_t a_;
  std::int64_t b_;
  std::uint16_t c_;
};
struct nest {
  ints a_;
  std::int8_t b_;
  cista::array<ints, 2> c_;
};
struct frnd {
  CISTA_FRIEND_COMPARABLE(frnd)
  std::int8_t a_;
  std::int64_t b_;
  cista::raw::string c_;
};
struct memb {
  memb() = default;
  memb(std::int32_t a, std::int8_t b, std::int32_t d) : a_{a}, b_{b}, d_{d} {}
  auto cista_members() { return std::tie(a_, b_, d_); }
  CISTA_COMPARABLE()
  std::int32_t a_{0};
  std::int8_t b_{0};
  std::int32_t unlisted_{0};
  std::int32_t d_{0};
};
struct deriv : memb {
  deriv() = default;
  auto cista_members() { return std::tie(*static_cast<memb*>(this), e_); }
  CISTA_COMPARABLE()
  std::int16_t e_{0};
};

// How to generate and build values of type T: `spec` is the plain value;
// `kTold` says that unequal values must have unequal hashes; `kOps` that T has
// the six comparison operators, ordering like the spec.
template <typename T, typename = void>
struct form;

template <typename T, typename = void>
struct extras {
  static constexpr bool kTold = false, kOps = false, kEq = true;
};

template <typename T>
struct form<T, std::enable_if_t<std::is_integral_v<T>>> {
  using spec = T;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) {
    switch (c.u(3)) {
      case 0: return static_cast<T>(c.u(1));
      case 1: return static_cast<T>(c.num<std::uint64_t>());
      case 2: return c.flip() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
      default: return static_cast<T>(c.u(4));
    }
  }
  static T make(Ctx&, spec const& s) { return s; }
};
template <typename T>
struct form<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using spec = T;
  static constexpr bool kTold = false, kOps = true, kEq = true;
  static spec gen(Ctx& c) {
    switch (c.u(5)) {
      case 0: return static_cast<T>(c.range(-3, 3));
      case 1: return static_cast<T>(c.range(-100, 100)) / T{8};
      case 2: return std::ldexp(static_cast<T>(c.range(-3, 3)), static_cast<int>(c.range(-130, 120)));
      case 3: return c.pick({std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()});
      default: return T{0};
    }
  }
  // both zeros are the same value
  static T make(Ctx& c, spec const& s) { return s == T{0} ? (c.flip() ? -T{0} : T{0}) : s; }
};
template <typename T>
struct form<T, std::enable_if_t<std::is_enum_v<T>>> {
  using spec = T;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) { return static_cast<T>(c.u(2)); }
  static T make(Ctx&, spec const& s) { return s; }
};
template <>
struct form<key> {
  using spec = std::uint32_t;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) { return form<std::uint32_t>::gen(c); }
  static key make(Ctx&, spec const& s) { return key{s}; }
};
template <typename Rep, typename Period>
struct form<std::chrono::duration<Rep, Period>> {
  using T = std::chrono::duration<Rep, Period>;
  using spec = Rep;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) { return c.range(-5, 5); }
  static T make(Ctx&, spec const& s) { return T{s}; }
};
template <typename Clock, typename D>
struct form<std::chrono::time_point<Clock, D>> {
  using T = std::chrono::time_point<Clock, D>;
  using spec = typename D::rep;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) { return c.range(-5, 5); }
  static T make(Ctx&, spec const& s) { return T{D{s}}; }
};

// --- pointers: identity
inline std::int32_t targets[4];
template <typename P>
struct form_ptr {
  using spec = int;
  static constexpr bool kTold = true, kOps = false, kEq = true;
  static spec gen(Ctx& c) { return static_cast<int>(c.u(4)); }
  static P make(Ctx&, spec const& s) { return s == 4 ? P{nullptr} : P{&targets[s]}; }
};
template <>
struct form<std::int32_t*> : form_ptr<std::int32_t*> {};
template <>
struct form<cista::offset::ptr<std::int32_t>> : form_ptr<cista::offset::ptr<std::int32_t>> {};

// --- strings
inline std::string text(Ctx& c) {
  static char const* const kWords[] = {"", "a", "b", "ab", "ba", "0123456789abcde", "0123456789abcdef", "0123456789abcdeg", "the quick brown fox jumps over the lazy dog"};
  if (c.chance(2, 3)) {
    return kWords[c.u(8)];
  }
  auto s = c.str(24, true);
  s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
  if (!s.empty() && c.chance(1, 5)) {
    s[c.idx(s.size())] = '\0';
  }
  return s;
}
template <typename T, typename = void>
struct has_set_non_owning : std::false_type {};
template <typename T>
struct has_set_non_owning<T, std::void_t<decltype(std::declval<T>().set_non_owning(std::declval<std::string_view>()))>> : std::true_type {};
// texts that views can refer to
inline std::string_view keep(std::string const& s) {
  static std::set<std::string> pool;
  if (pool.size() > 2000) {
    pool.clear();
  }
  return *pool.insert(s).first;
}
inline std::string_view other_copy(std::string const& s) {
  static std::set<std::string> pool;
  if (pool.size() > 2000) {
    pool.clear();
  }
  return *pool.insert(s).first;
}
template <typename T>
struct form_str {
  using spec = std::string;
  static constexpr bool kTold = true, kOps = true, kEq = true;
  static spec gen(Ctx& c) { return text(c); }
  static T make(Ctx& c, spec const& s) {
    auto const v = c.flip() ? keep(s) : other_copy(s);
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) {
      return T{v};
    } else {
      switch (c.u(3)) {
        case 0: return T{v};
        case 1: {
          T t{std::string_view{"something else that is long enough for the heap"}};
          t = v;
          return t;
        }
        case 2: {
          T t{v};
          T u{t};
          return u;
        }
        default: {
          T t{v};
          T u;
          u = std::move(t);
          return u;
        }
      }
    }
  }
};
#define FORM_STR(...) \
  template <>         \
  struct form<__VA_ARGS__> : form_str<__VA_ARGS__> {};
FORM_STR(std::string)
FORM_STR(std::string_view)
FORM_STR(cista::raw::string)
FORM_STR(cista::offset::string)
FORM_STR(cista::raw::string_view)
FORM_STR(cista::offset::string_view)
FORM_STR(cista::offset::cstring)
FORM_STR(cista::basic_cstring_view<cista::offset::ptr<char const>>)

// --- sequences
template <typename V, typename E>
struct form_vec {
  using spec = std::vector<typename form<E>::spec>;
  static constexpr bool kTold = false, kOps = form<E>::kOps, kEq = true;
  static spec gen(Ctx& c) {
    spec s;
    while (s.size() < 6 && c.more(2)) {
      s.push_back(form<E>::gen(c));
    }
    return s;
  }
  static V make(Ctx& c, spec const& s) {
    V v;
    auto const how = c.u(4);
    if constexpr (!std::is_same_v<V, std::vector<bool>>) {
      if (how == 1) {
        v.reserve(static_cast<unsigned>(s.size() + c.u(20)));
      } else if (how == 2) {
        // removed elements leave traces in the unused storage
        for (auto n = c.u(12); n != 0; --n) {
          v.emplace_back(form<E>::make(c, form<E>::gen(c)));
        }
        if (c.flip()) {
          v.clear();
        } else {
          while (!v.empty()) {
            v.erase(v.begin());
          }
        }
      }
    }
    for (auto const& e : s) {
      v.push_back(form<E>::make(c, e));
    }
    if (how == 3 && !v.empty()) {
      v.push_back(form<E>::make(c, s[0]));
      v.erase(v.begin());
      v.erase(v.begin(), v.end());
      for (auto const& e : s) {
        v.push_back(form<E>::make(c, e));
      }
    }
    if (c.flip()) {
      V w{v};
      return w;
    }
    return v;
  }
};
template <typename E>
struct form<std::vector<E>> : form_vec<std::vector<E>, E> {};
template <typename E>
struct form<cista::raw::vector<E>> : form_vec<cista::raw::vector<E>, E> {};
template <typename E>
struct form<cista::offset::vector<E>> : form_vec<cista::offset::vector<E>, E> {};
template <typename A, typename E, std::size_t N>
struct form_arr {
  using spec = std::vector<typename form<E>::spec>;
  static constexpr bool kTold = false, kOps = form<E>::kOps, kEq = true;
  static spec gen(Ctx& c) {
    spec s;
    for (auto i = 0U; i != N; ++i) {
      s.push_back(form<E>::gen(c));
    }
    return s;
  }
  static A make(Ctx& c, spec const& s) {
    A a;
    for (auto i = 0U; i != N; ++i) {
      a[i] = form<E>::make(c, s[i]);
    }
    return a;
  }
};
template <typename E, std::size_t N>
struct form<std::array<E, N>> : form_arr<std::array<E, N>, E, N> {};

// --- pairs and tuples
template <typename P, typename A, typename B, bool Ops>
struct form_pair {
  using spec = std::pair<typename form<A>::spec, typename form<B>::spec>;
  static constexpr bool kTold = false, kOps = Ops && form<A>::kOps && form<B>::kOps, kEq = true;
  static spec gen(Ctx& c) {
    auto a = form<A>::gen(c);
    auto b = form<B>::gen(c);
    return {a, b};
  }
  static P make(Ctx& c, spec const& s) { return P{form<A>::make(c, s.first), form<B>::make(c, s.second)}; }
};
template <typename A, typename B>
struct form<cista::pair<A, B>> : form_pair<cista::pair<A, B>, A, B, true> {};
template <typename A, typename B>
struct form<std::pair<A, B>> : form_pair<std::pair<A, B>, A, B, true> {};
template <typename A, typename B>
struct form<cista::tuple<A, B>> : form_pair<cista::tuple<A, B>, A, B, true> {};
template <typename A, typename B>
struct form<std::tuple<A, B>> : form_pair<std::tuple<A, B>, A, B, true> {};

// --- optionals and variants
template <typename O, typename E>
struct form_opt {
  using spec = std::optional<typename form<E>::spec>;
  static constexpr bool kTold = std::is_integral_v<E>, kOps = form<E>::kOps, kEq = true;
  static spec gen(Ctx& c) { return c.chance(1, 3) ? spec{} : spec{form<E>::gen(c)}; }
  static O make(Ctx& c, spec const& s) {
    if (!s.has_value()) {
      O o;
      if (c.flip()) {
        o = form<E>::make(c, form<E>::gen(c));
        o = std::nullopt;
      }
      return o;
    }
    return O{form<E>::make(c, *s)};
  }
};
template <typename E>
struct form<std::optional<E>> : form_opt<std::optional<E>, E> {};
template <typename E>
struct form<cista::optional<E>> : form_opt<cista::optional<E>, E> {};
template <typename V, typename A, typename B>
struct form_var {
  using spec = std::variant<typename form<A>::spec, typename form<B>::spec>;
  static constexpr bool kTold = std::is_integral_v<A> && std::is_integral_v<B>, kOps = form<A>::kOps && form<B>::kOps, kEq = true;
  static spec gen(Ctx& c) { return c.flip() ? spec{std::in_place_index<0>, form<A>::gen(c)} : spec{std::in_place_index<1>, form<B>::gen(c)}; }
  static V make(Ctx& c, spec const& s) {
    V v{form<A>::make(c, form<A>::gen(c))};
    if (c.flip()) {
      v = form<B>::make(c, form<B>::gen(c));
    }
    if (s.index() == 0) {
      v = form<A>::make(c, std::get<0>(s));
    } else {
      v = form<B>::make(c, std::get<1>(s));
    }
    return v;
  }
};
template <typename A, typename B>
struct form<std::variant<A, B>> : form_var<std::variant<A, B>, A, B> {};
template <typename A, typename B>
struct form<cista::variant<A, B>> : form_var<cista::variant<A, B>, A, B> {};

// --- bits
template <std::size_t N>
struct form<cista::bitset<N>> {
  using T = cista::bitset<N>;
  using spec = std::vector<bool>;
  static constexpr bool kTold = true, kOps = false, kEq = true;
  static spec gen(Ctx& c) {
    spec s(N, c.flip());
    for (auto n = c.u(2); n != 0; --n) {
      s[c.idx(N)] = c.flip();
    }
    return s;
  }
  static T make(Ctx& c, spec const& s) {
    T t;
    auto const how = c.u(4);
    auto const inv = how == 1;
    if (how == 2) {
      t = ~t;
    }
    for (auto i = 0U; i != N; ++i) {
      t.set(i, s[i] != inv);
    }
    if (inv) {
      t = ~t;
    }
    if (how == 3) {
      t ^= T{};
      t |= t;
      t &= ~T{};
    }
    if (how == 4) {
      auto u = T{};
      u = ~u;
      t &= u;
    }
    return t;
  }
};
template <typename B>
struct form_bitvec {
  using spec = std::vector<bool>;
  static constexpr bool kTold = false, kOps = false, kEq = true;
  static spec gen(Ctx& c) {
    spec s(c.pick({1U, 2U, 63U, 64U, 65U, 130U}), c.flip());
    for (auto n = c.u(2); n != 0; --n) {
      s[c.idx(s.size())] = c.flip();
    }
    return s;
  }
  static B make(Ctx& c, spec const& s) {
    B t;
    auto const how = c.u(4);
    if (how == 1) {
      t.resize(200);
      t.one_out();
    } else if (how == 2) {
      t.resize(static_cast<unsigned>(s.size()));
      t.one_out();
    }
    t.resize(static_cast<unsigned>(s.size()));
    for (auto i = 0U; i != s.size(); ++i) {
      t.set(i, how == 3 ? !s[i] : s[i]);
    }
    if (how == 3) {
      t = ~t;
    }
    if (how == 4) {
      B u{t};
      return u;
    }
    return t;
  }
};
template <>
struct form<cista::raw::bitvec> : form_bitvec<cista::raw::bitvec> {};
template <>
struct form<cista::offset::bitvec> : form_bitvec<cista::offset::bitvec> {};

// --- hash tables, built in different orders, with removed entries, rehashed
template <typename M, typename K, typename V>
struct form_map {
  using spec = std::map<typename form<K>::spec, typename form<V>::spec>;
  static constexpr bool kTold = false, kOps = false, kEq = true;
  static spec gen(Ctx& c) {
    spec s;
    for (auto n = c.u(6); n != 0; --n) {
      auto k = form<K>::gen(c);
      s[k] = form<V>::gen(c);
    }
    return s;
  }
  static M make(Ctx& c, spec const& s) {
    M m;
    for (auto n = c.u(20); n != 0; --n) {
      m.emplace(form<K>::make(c, form<K>::gen(c)), form<V>::make(c, form<V>::gen(c)));
    }
    m.clear();
    std::vector<std::pair<typename form<K>::spec, typename form<V>::spec>> order(s.begin(), s.end());
    for (std::size_t i = order.size(); i > 1; --i) {
      std::swap(order[i - 1], order[c.idx(i)]);
    }
    for (auto const& [k, v] : order) {
      m.emplace(form<K>::make(c, k), form<V>::make(c, v));
    }
    return m;
  }
};
template <typename K, typename V>
struct form<cista::raw::hash_map<K, V>> : form_map<cista::raw::hash_map<K, V>, K, V> {};
template <typename K, typename V>
struct form<cista::offset::hash_map<K, V>> : form_map<cista::offset::hash_map<K, V>, K, V> {};
template <typename S, typename K>
struct form_set {
  using spec = std::set<typename form<K>::spec>;
  static constexpr bool kTold = false, kOps = false, kEq = true;
  static spec gen(Ctx& c) {
    spec s;
    for (auto n = c.u(6); n != 0; --n) {
      s.insert(form<K>::gen(c));
    }
    return s;
  }
  static S make(Ctx& c, spec const& s) {
    S m;
    for (auto n = c.u(20); n != 0; --n) {
      m.insert(form<K>::make(c, form<K>::gen(c)));
    }
    if (c.flip()) {
      m.clear();
    }
    std::vector<typename form<K>::spec> order(s.begin(), s.end());
    for (std::size_t i = order.size(); i > 1; --i) {
      std::swap(order[i - 1], order[c.idx(i)]);
    }
    for (auto const& k : order) {
      m.insert(form<K>::make(c, k));
    }
    // whatever was there before and is not wanted
    for (auto it = m.begin(); it != m.end();) {
      auto wanted = false;
      for (auto const& k : order) {
        wanted = wanted || *it == form<K>::make(c, k);
      }
      if (wanted) {
        ++it;
      } else {
        m.erase(it);
        it = m.begin();
      }
    }
    PBT_EQ(static_cast<std::size_t>(m.size()), s.size());
    return m;
  }
};
template <typename K>
struct form<cista::raw::hash_set<K>> : form_set<cista::raw::hash_set<K>, K> {};
template <typename K>
struct form<cista::offset::hash_set<K>> : form_set<cista::offset::hash_set<K>, K> {};

// --- aggregates
template <>
struct form<agg> {
  using spec = std::tuple<std::int32_t, std::string, std::vector<std::int16_t>>;
  static constexpr bool kTold = false, kOps = false, kEq = false;
  static spec gen(Ctx& c) {
    auto a = static_cast<std::int32_t>(c.u(1));
    auto b = c.flip() ? std::string{"x"} : text(c);
    auto d = form<cista::offset::vector<std::int16_t>>::gen(c);
    return {a, b, d};
  }
  static agg make(Ctx& c, spec const& s) { return {std::get<0>(s), form<cista::offset::string>::make(c, std::get<1>(s)), form<cista::offset::vector<std::int16_t>>::make(c, std::get<2>(s))}; }
};
template <>
struct form<ints> {
  using spec = std::tuple<std::int8_t, std::int64_t, std::uint16_t>;
  static constexpr bool kTold = false, kOps = false, kEq = true;
  static spec gen(Ctx& c) {
    auto a = static_cast<std::int8_t>(c.u(2));
    auto b = form<std::int64_t>::gen(c);
    auto d = static_cast<std::uint16_t>(c.u(2));
    return {a, b, d};
  }
  // the padding between the members is arbitrary
  static ints make(Ctx& c, spec const& s) {
    ints i;
    std::memset(&i, static_cast<int>(c.u(255)), sizeof(i));
    i.a_ = std::get<0>(s);
    i.b_ = std::get<1>(s);
    i.c_ = std::get<2>(s);
    return i;
  }
};
template <>
struct form<nest> {
  using spec = std::tuple<form<ints>::spec, std::int8_t, form<ints>::spec, form<ints>::spec>;
  static constexpr bool kTold = false, kOps = false, kEq = false;
  static spec gen(Ctx& c) {
    auto const base = form<ints>::gen(c);
    auto s = spec{base, 0, base, base};
    switch (c.u(4)) {
      case 0: std::get<0>(s) = form<ints>::gen(c); break;
      case 1: std::get<1>(s) = 1; break;
      case 2: std::get<2>(s) = form<ints>::gen(c); break;
      case 3: std::get<3>(s) = form<ints>::gen(c); break;
      default: break;
    }
    return s;
  }
  static nest make(Ctx& c, spec const& s) {
    nest n;
    std::memset(&n, static_cast<int>(c.u(255)), sizeof(n));
    n.a_ = form<ints>::make(c, std::get<0>(s));
    n.b_ = std::get<1>(s);
    n.c_[0] = form<ints>::make(c, std::get<2>(s));
    n.c_[1] = form<ints>::make(c, std::get<3>(s));
    return n;
  }
};
template <>
struct form<frnd> {
  using spec = std::tuple<std::int8_t, std::int64_t, std::string>;
  static constexpr bool kTold = false, kOps = true, kEq = true;
  static spec gen(Ctx& c) {
    auto a = static_cast<std::int8_t>(c.range(-1, 1));
    auto b = c.range(-1, 1);
    auto d = text(c);
    return {a, b, d};
  }
  static frnd make(Ctx& c, spec const& s) { return {std::get<0>(s), std::get<1>(s), form<cista::raw::string>::make(c, std::get<2>(s))}; }
};
template <>
struct form<memb> {
  using spec = std::tuple<std::int32_t, std::int8_t, std::int32_t>;
  static constexpr bool kTold = false, kOps = true, kEq = true;
  static spec gen(Ctx& c) {
    auto a = static_cast<std::int32_t>(c.range(-1, 1));
    auto b = static_cast<std::int8_t>(c.range(-1, 1));
    auto d = static_cast<std::int32_t>(c.range(-1, 1));
    return {a, b, d};
  }
  static memb make(Ctx& c, spec const& s) {
    memb m{std::get<0>(s), std::get<1>(s), std::get<2>(s)};
    m.unlisted_ = c.num<std::int32_t>();  // not a member, as far as cista is told
    return m;
  }
};
template <>
struct form<deriv> {
  using spec = std::pair<form<memb>::spec, std::int16_t>;
  static constexpr bool kTold = false, kOps = true, kEq = true;
  static spec gen(Ctx& c) {
    auto a = form<memb>::gen(c);
    return {a, static_cast<std::int16_t>(c.range(-1, 1))};
  }
  static deriv make(Ctx& c, spec const& s) {
    deriv d;
    static_cast<memb&>(d) = form<memb>::make(c, s.first);
    d.e_ = s.second;
    return d;
  }
};

template <typename T, typename = void>
struct is_hashable : std::true_type {};
template <typename E>
struct is_hashable<cista::optional<E>> : std::false_type {};
template <typename A, typename B>
struct is_hashable<cista::tuple<A, B>> : std::false_type {};

template <typename T, typename = void>
struct has_ne : std::false_type {};
template <typename T>
struct has_ne<T, std::void_t<decltype(std::declval<T const&>() != std::declval<T const&>())>> : std::true_type {};

template <typename T>
void relations(Ctx& c) {
  using F = form<T>;
  using S = typename F::spec;
  S s[3] = {F::gen(c), F::gen(c), F::gen(c)};
  if (c.flip()) {
    s[1] = s[0];
  }
  if (c.chance(1, 3)) {
    s[2] = s[0];
  }
  T const v[3] = {F::make(c, s[0]), F::make(c, s[1]), F::make(c, s[2])};
  T const again = F::make(c, s[0]);
  auto const eq = cista::equal_to<T>{};
  PBT_CHECK(eq(v[0], v[0]) && eq(v[0], again) && eq(again, v[0]), "a value differs from the same value built again");
  for (auto i = 0U; i != 3; ++i) {
    for (auto j = 0U; j != 3; ++j) {
      PBT_CHECK(eq(v[i], v[j]) == (s[i] == s[j]), "equal_to says %d", eq(v[i], v[j]) ? 1 : 0);
      if constexpr (F::kEq) {
        PBT_CHECK((v[i] == v[j]) == (s[i] == s[j]), "== says %d", (v[i] == v[j]) ? 1 : 0);
        if constexpr (has_ne<T>::value) {
          PBT_CHECK((v[i] != v[j]) == (s[i] != s[j]), "!= says %d", (v[i] != v[j]) ? 1 : 0);
        }
      }
      if constexpr (F::kOps) {
        PBT_CHECK((v[i] < v[j]) == (s[i] < s[j]) && (v[i] > v[j]) == (s[i] > s[j]) && (v[i] <= v[j]) == (s[i] <= s[j]) && (v[i] >= v[j]) == (s[i] >= s[j]), "order: < %d > %d <= %d >= %d, expected %d %d", v[i] < v[j] ? 1 : 0, v[i] > v[j] ? 1 : 0, v[i] <= v[j] ? 1 : 0, v[i] >= v[j] ? 1 : 0, s[i] < s[j] ? 1 : 0, s[i] > s[j] ? 1 : 0);
      }
    }
  }
  if constexpr (is_hashable<T>::value) {
    auto const seed = c.flip() ? cista::BASE_HASH : static_cast<cista::hash_t>(c.num<std::uint64_t>());
    auto const h = [&](T const& x) { return cista::hashing<T>{}(x, seed); };
    PBT_EQ(h(v[0]), h(again));
    PBT_EQ(cista::hashing<T>{}(v[0]), cista::hashing<T>{}(v[0], cista::BASE_HASH));
    for (auto i = 0U; i != 3; ++i) {
      for (auto j = 0U; j != i; ++j) {
        if (s[i] == s[j]) {
          PBT_EQ(h(v[i]), h(v[j]));
        } else if constexpr (F::kTold) {
          // (seeds can be chosen so that hashes of two values collide)
          PBT_CHECK(cista::hashing<T>{}(v[i]) != cista::hashing<T>{}(v[j]), "different values have the same hash");
        }
      }
    }
  }
  c.nontrivial_if(!(s[0] == s[1]) || !(s[0] == s[2]));
}

// the same text in every form a string key can have
void text_forms(Ctx& c) {
  auto const a = text(c), b = c.flip() ? a : text(c);
  auto const seed = c.flip() ? cista::BASE_HASH : static_cast<cista::hash_t>(c.num<std::uint64_t>());
  auto const want = cista::hashing<std::string_view>{}(std::string_view{a}, seed);
  auto const one = [&](auto const& x, auto const& y) {
    using X = std::decay_t<decltype(x)>;
    using Y = std::decay_t<decltype(y)>;
    PBT_EQ((cista::hashing<X>{}(x, seed)), want);
    PBT_EQ((cista::hashing<X>::template create<Y>()(y, seed) == want), a == b);
    PBT_EQ((cista::equal_to<X>{}(x, y)), a == b);
    PBT_EQ((cista::equal_to<Y>{}(y, x)), a == b);
    PBT_EQ((x == y), a == b);
    PBT_EQ((y == x), a == b);
  };
  auto const two = [&](auto const& x) {
    one(x, std::string{b});
    one(x, std::string_view{b});
  };
  two(std::string{a});
  two(std::string_view{a});
  two(cista::raw::string{a});
  two(cista::offset::string{a});
  two(cista::raw::string_view{std::string_view{a}});
  two(cista::offset::string_view{std::string_view{a}});
  two(cista::offset::cstring{std::string_view{a}});
  one(cista::raw::string{a}, cista::raw::string_view{std::string_view{b}});
  one(cista::offset::string{a}, cista::offset::string_view{std::string_view{b}});
  PBT_EQ((cista::equal_to<cista::raw::string>{}(cista::raw::string{a}, cista::offset::string{b})), a == b);
  auto const no_zero = a.find('\0') == std::string::npos;
  if (no_zero) {
    PBT_EQ((cista::hashing<char const*>{}(a.c_str(), seed)), want);
  }
  if (!a.empty()) {
    PBT_EQ((cista::hash(std::string_view{a}, seed)), want);
  }
  if (a.size() == 2 && no_zero) {
    char arr[3] = {a[0], a[1], '\0'};
    PBT_EQ((cista::hashing<char[3]>{}(arr, seed)), want);
  }
  if constexpr (cista::HASH_IS_INCREMENTAL) {
    auto const k = c.u(a.size());
    PBT_EQ(cista::hash(std::string_view{a}.substr(k), cista::hash(std::string_view{a}.substr(0, k), seed)), want);
  }
  c.nontrivial_if(a != b);
}

// the same sequence in different containers
void sequence_forms(Ctx& c) {
  using V = cista::raw::vector<std::int32_t>;
  auto const a = form<V>::gen(c), b = c.flip() ? a : form<V>::gen(c);
  auto const x = form<V>::make(c, a);
  auto const y = form<cista::offset::vector<std::int32_t>>::make(c, b);
  auto const z = std::vector<std::int32_t>(b.begin(), b.end());
  PBT_EQ((cista::equal_to<V>{}(x, y)), a == b);
  PBT_EQ((cista::equal_to<V>{}(x, z)), a == b);
  PBT_EQ((cista::equal_to<std::vector<std::int32_t>>{}(z, x)), a == b);
  PBT_EQ((cista::hashing<V>{}(x) == cista::hashing<std::vector<std::int32_t>>{}(z)), a == b);
  auto buf = cista::serialize(y);
  auto const* w = cista::deserialize<cista::offset::vector<std::int32_t>>(buf);
  PBT_EQ((cista::hashing<cista::offset::vector<std::int32_t>>{}(*w) == cista::hashing<V>{}(x)), a == b);
  PBT_EQ((cista::build_hash(x) == cista::build_hash(*w)), a == b);
  // build_hash folds its arguments one after the other
  auto const i = c.num<std::int32_t>();
  PBT_EQ(cista::build_hash(i, x), cista::hashing<V>{}(x, cista::hashing<std::int32_t>{}(i)));
  c.nontrivial_if(a != b);
}

// The hash takes every element, its position and the number of elements into
// account: short sequences of small numbers are told apart.  (Large or
// negative numbers can collide by construction of the hash functions.)
void told(Ctx& c) {
  std::vector<std::uint32_t> a, b;
  while (a.size() < 6 && c.more(3)) {
    a.push_back(static_cast<std::uint32_t>(c.u(5)));
  }
  b = a;
  switch (c.u(4)) {
    case 0:
      b.push_back(0);
      break;
    case 1:
      if (!b.empty()) {
        b.pop_back();
      }
      break;
    case 2:
      if (b.size() > 1) {
        std::swap(b[c.idx(b.size())], b[c.idx(b.size())]);
      }
      break;
    default:
      if (!b.empty()) {
        b[c.idx(b.size())] = static_cast<std::uint32_t>(c.u(5));
      }
  }
  auto const check = [&](auto const& x, auto const& y) {
    using T = std::decay_t<decltype(x)>;
    PBT_EQ((cista::hashing<T>{}(x) == cista::hashing<T>{}(y)), a == b);
    PBT_EQ((cista::equal_to<T>{}(x, y)), a == b);
  };
  check(a, b);
  check(form<cista::raw::vector<std::uint32_t>>::make(c, a), form<cista::raw::vector<std::uint32_t>>::make(c, b));
  auto const bytes = [](std::vector<std::uint32_t> const& v) {
    cista::offset::vector<std::int8_t> r;
    for (auto const e : v) {
      r.push_back(static_cast<std::int8_t>(e));
    }
    return r;
  };
  check(bytes(a), bytes(b));
  if (a.size() >= 3 && b.size() >= 3) {
    a.resize(3);
    b.resize(3);
    auto const get = [](auto const& v, auto const i) { return static_cast<std::int16_t>(v[i]); };
    check(cista::array<std::uint32_t, 3>{a[0], a[1], a[2]}, cista::array<std::uint32_t, 3>{b[0], b[1], b[2]});
    check(std::tuple{a[0], get(a, 1), a[2]}, std::tuple{b[0], get(b, 1), b[2]});
    check(memb{static_cast<std::int32_t>(a[0]), static_cast<std::int8_t>(a[1]), static_cast<std::int32_t>(a[2])}, memb{static_cast<std::int32_t>(b[0]), static_cast<std::int8_t>(b[1]), static_cast<std::int32_t>(b[2])});
    check(cista::pair<std::uint32_t, cista::pair<std::uint32_t, std::uint32_t>>{a[0], {a[1], a[2]}}, cista::pair<std::uint32_t, cista::pair<std::uint32_t, std::uint32_t>>{b[0], {b[1], b[2]}});
    check(cista::raw::vector<ints>{ints{1, a[0], static_cast<std::uint16_t>(a[1])}, ints{0, a[2], 0}}, cista::raw::vector<ints>{ints{1, b[0], static_cast<std::uint16_t>(b[1])}, ints{0, b[2], 0}});
  }
  c.nontrivial_if(a != b);
}

// aggregates as keys of hash tables, deduced hash and equality
void keyed(Ctx& c) {
  cista::offset::hash_map<agg, int> m;
  std::map<form<agg>::spec, int> w;
  for (auto n = c.u(40); n != 0; --n) {
    auto const s = form<agg>::gen(c);
    auto const v = static_cast<int>(c.u(9));
    if (c.chance(3, 4)) {
      m[form<agg>::make(c, s)] = v;
      w[s] = v;
    } else {
      PBT_EQ(static_cast<std::size_t>(m.erase(form<agg>::make(c, s))), w.erase(s));
    }
    PBT_EQ(static_cast<std::size_t>(m.size()), w.size());
    auto const q = form<agg>::gen(c);
    auto const it = m.find(form<agg>::make(c, q));
    PBT_EQ(it != m.end(), w.count(q) != 0);
  }
  for (auto const& [k, v] : w) {
    auto const it = m.find(form<agg>::make(c, k));
    PBT_CHECK(it != m.end() && it->second == v, "key not found");
  }
  c.nontrivial_if(w.size() > 4);
}

#if defined(CISTA_FNV1A)
// One scalar changed anywhere in a deep value changes its hash (every step of
// the default hash is a bijection in the hash so far, so a change is never
// lost on the way).
struct inner_wide {
  auto cista_members() { return std::tie(a_, b_, c_); }
  std::uint16_t a_{0U};
  cista::raw::vector<std::uint8_t> b_;
  std::int64_t c_{0};
};
struct wide {
  auto cista_members() {
    return std::tie(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_, l_, m_, n_, o_, p_, q_, r_, s_, t_, u_, v_, z_);
  }
  std::uint8_t a_{0U};
  cista::raw::vector<std::uint32_t> b_;
  cista::raw::string c_;
  cista::offset::vector<std::int16_t> d_;
  std::array<std::uint16_t, 3> e_{};
  cista::pair<cista::raw::vector<std::uint8_t>, cista::raw::string> f_;
  std::pair<std::uint32_t, std::vector<std::uint32_t>> g_{};
  std::tuple<cista::raw::string, std::uint8_t> h_{};
  std::optional<cista::raw::vector<std::uint32_t>> i_;
  std::variant<std::uint32_t, cista::raw::string> j_;
  cista::raw::hash_map<std::uint32_t, std::uint32_t> k_;
  cista::offset::hash_set<std::uint32_t> l_;
  cista::bitset<70> m_;
  cista::raw::bitvec n_;
  color o_{};
  key p_{};
  std::chrono::seconds q_{};
  cista::raw::vector<cista::raw::vector<std::uint8_t>> r_;
  cista::variant<std::uint32_t, cista::raw::string> s_;
  std::string t_;
  inner_wide u_;
  cista::array<inner_wide, 2> v_;
  std::uint64_t z_{0U};
};
wide make_wide(Ctx& c) {
  wide w;
  auto const ints = [&](auto& v, std::size_t const max) {
    for (auto n = c.u(max); n != 0U; --n) {
      v.push_back(static_cast<std::decay_t<decltype(v[0])>>(c.num<std::uint32_t>()));
    }
  };
  auto const inner = [&](inner_wide& x) {
    x.a_ = c.num<std::uint16_t>();
    ints(x.b_, 3U);
    x.c_ = c.num<std::int64_t>();
  };
  w.a_ = c.num<std::uint8_t>();
  ints(w.b_, 4U);
  w.c_ = c.str(30U, true);
  ints(w.d_, 4U);
  for (auto& x : w.e_) {
    x = c.num<std::uint16_t>();
  }
  ints(w.f_.first, 3U);
  w.f_.second = c.str(20U, true);
  w.g_.first = c.num<std::uint32_t>();
  ints(w.g_.second, 3U);
  std::get<0>(w.h_) = c.str(20U, true);
  std::get<1>(w.h_) = c.num<std::uint8_t>();
  if (c.flip()) {
    w.i_.emplace();
    ints(*w.i_, 3U);
  }
  if (c.flip()) {
    w.j_ = cista::raw::string{c.str(20U, true)};
    w.s_ = c.num<std::uint32_t>();
  } else {
    w.j_ = c.num<std::uint32_t>();
    w.s_ = cista::raw::string{c.str(20U, true)};
  }
  for (auto n = c.u(4U); n != 0U; --n) {
    w.k_[c.num<std::uint32_t>()] = c.num<std::uint32_t>();
    w.l_.insert(c.num<std::uint32_t>());
    w.m_.set(c.u(69U), true);
  }
  w.n_.resize(static_cast<unsigned>(c.u(130U)));
  for (auto n = w.n_.size() == 0U ? 0U : c.u(4U); n != 0U; --n) {
    w.n_.set(static_cast<unsigned>(c.idx(w.n_.size())), true);
  }
  w.o_ = form<color>::make(c, form<color>::gen(c));
  w.p_ = form<key>::make(c, form<key>::gen(c));
  w.q_ = std::chrono::seconds{c.num<std::int32_t>()};
  for (auto n = c.u(3U); n != 0U; --n) {
    w.r_.emplace_back();
    ints(w.r_.back(), 3U);
  }
  w.t_ = c.str(20U, true);
  inner(w.u_);
  inner(w.v_[0]);
  inner(w.v_[1]);
  w.z_ = c.num<std::uint64_t>();
  return w;
}
void sensitive(Ctx& c) {
  auto const a = make_wide(c);
  auto b = a;
  auto const scalar = [&](auto& x) {
    using T = std::decay_t<decltype(x)>;
    auto d = static_cast<T>(c.num<std::make_unsigned_t<T>>());
    x = static_cast<T>(x ^ (d == T{0} ? T{1} : d));
    return true;
  };
  auto const seq = [&](auto& v) { return v.size() != 0U && scalar(v[static_cast<unsigned>(c.idx(v.size()))]); };
  auto const text = [&](auto& s) {
    auto x = std::string{s.data(), s.size()};
    if (x.empty()) {
      return false;
    }
    auto& ch = x[c.idx(x.size())];
    ch = static_cast<char>(ch ^ static_cast<char>(1 + c.u(254U)));
    s = x;
    return true;
  };
  auto const in = [&](inner_wide& x) {
    switch (c.u(2U)) {
      case 0: return scalar(x.a_);
      case 1: return seq(x.b_);
      default: return scalar(x.c_);
    }
  };
  auto const which = c.u(24U);
  auto changed = false;
  switch (which) {
    case 0: changed = scalar(b.a_); break;
    case 1: changed = seq(b.b_); break;
    case 2: changed = text(b.c_); break;
    case 3: changed = seq(b.d_); break;
    case 4: changed = seq(b.e_); break;
    case 5: changed = seq(b.f_.first); break;
    case 6: changed = text(b.f_.second); break;
    case 7: changed = scalar(b.g_.first); break;
    case 8: changed = seq(b.g_.second); break;
    case 9: changed = text(std::get<0>(b.h_)); break;
    case 10: changed = scalar(std::get<1>(b.h_)); break;
    case 11: changed = b.i_.has_value() && seq(*b.i_); break;
    case 12: changed = b.j_.index() == 0U ? scalar(std::get<0>(b.j_)) : text(std::get<1>(b.j_)); break;
    case 13:
      if (!b.k_.empty()) {
        changed = scalar(b.k_.begin()->second);
      }
      break;
    case 14: changed = b.l_.insert(c.num<std::uint32_t>()).second; break;
    case 15: {
      auto const i = c.u(69U);
      b.m_.set(i, !b.m_.test(i));
      changed = true;
      break;
    }
    case 16:
      if (b.n_.size() != 0U) {
        auto const i = static_cast<unsigned>(c.idx(b.n_.size()));
        b.n_.set(i, !b.n_.test(i));
        changed = true;
      }
      break;
    case 17: b.o_ = form<color>::make(c, form<color>::gen(c)); changed = b.o_ != a.o_; break;
    case 18: b.p_ = form<key>::make(c, form<key>::gen(c)); changed = b.p_ != a.p_; break;
    case 19: b.q_ += std::chrono::seconds{1 + static_cast<int>(c.u(1000U))}; changed = true; break;
    case 20: changed = b.r_.size() != 0U && seq(b.r_[static_cast<unsigned>(c.idx(b.r_.size()))]); break;
    case 21:
      if (b.s_.index() == 0U) {
        changed = scalar(cista::get<std::uint32_t>(b.s_));
      } else {
        changed = text(cista::get<cista::raw::string>(b.s_));
      }
      break;
    case 22: changed = text(b.t_); break;
    case 23: changed = c.flip() ? in(b.u_) : in(b.v_[c.u(1U)]); break;
    default: changed = scalar(b.z_); break;
  }
  c.log("member %u %s", static_cast<unsigned>(which), changed ? "changed" : "left");
  auto const seed = c.flip() ? cista::BASE_HASH : static_cast<cista::hash_t>(c.num<std::uint64_t>());
  auto const ha = cista::hashing<wide>{}(a, seed), hb = cista::hashing<wide>{}(b, seed);
  PBT_CHECK((ha != hb) == changed, "the hash %s", changed ? "ignores the change" : "of a copy differs");
  PBT_CHECK(cista::equal_to<wide>{}(a, b) == !changed, "equal_to %s", changed ? "ignores the change" : "tells a copy apart");
  // two members that swap their values
  auto const x = c.num<std::uint16_t>(), y = c.num<std::uint16_t>();
  auto const p = [&](std::uint16_t const s, std::uint16_t const t) {
    return cista::hashing<std::tuple<std::uint16_t, cista::pair<std::uint16_t, std::uint8_t>>>{}({s, {t, 1U}}, cista::BASE_HASH);
  };
  PBT_CHECK((p(x, y) == p(y, x)) == (x == y), "the hash of swapped members");
  // different seeds
  PBT_CHECK(cista::hashing<wide>{}(a, cista::BASE_HASH) != cista::hashing<wide>{}(a, cista::BASE_HASH + 1U + c.num<std::uint16_t>()),
            "the seed does not matter");
  // the default hash of bytes is FNV-1a
  auto const bytes = c.str(40U, true);
  auto want = std::uint64_t{seed};
  for (auto const ch : bytes) {
    want = (want ^ static_cast<unsigned char>(ch)) * std::uint64_t{1099511628211U};
  }
  PBT_EQ(cista::hash(std::string_view{bytes}, seed), want);
  PBT_EQ(cista::hash(bytes, seed), want);
  PBT_EQ(cista::hash(std::vector<std::uint8_t>(bytes.begin(), bytes.end()), seed), want);
  PBT_EQ(cista::hashing<cista::offset::string>{}(cista::offset::string{bytes}, seed), want);
  c.nontrivial_if(changed);
}
#endif

#define REL(N, Q, ...)                               \
  void rel_##N(Ctx& c) { relations<__VA_ARGS__>(c); } \
  PBT_REG(rel_##N, #N, rel_##N, Q, Q * 300)

#if GROUP == 1
REL(bool_, 500, bool)
REL(int8, 1500, std::int8_t)
REL(uint16, 1500, std::uint16_t)
REL(int32, 1500, std::int32_t)
REL(int64, 1500, std::int64_t)
REL(uint64, 1500, std::uint64_t)
REL(float_, 3000, float)
REL(double_, 3000, double)
REL(enum_, 500, color)
REL(strong, 1500, key)
REL(duration, 500, std::chrono::seconds)
REL(time_point, 500, std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>)
REL(pointer, 500, std::int32_t*)
REL(offset_ptr, 500, cista::offset::ptr<std::int32_t>)
REL(std_string, 1500, std::string)
REL(std_view, 1500, std::string_view)
REL(raw_string, 3000, cista::raw::string)
REL(string, 3000, cista::offset::string)
REL(raw_view, 1500, cista::raw::string_view)
REL(view, 1500, cista::offset::string_view)
REL(cstring_view, 1500, cista::basic_cstring_view<cista::offset::ptr<char const>>)
REL(cstring, 3000, cista::offset::cstring)
REL(bitset70, 3000, cista::bitset<70>)
REL(bitset64, 2000, cista::bitset<64>)
REL(bitset5, 2000, cista::bitset<5>)
REL(raw_bitvec, 3000, cista::raw::bitvec)
REL(bitvec, 3000, cista::offset::bitvec)
PBT_REG(text_forms, "text_forms", text_forms, 5000, 1000000)
PBT_REG(sequence_forms, "sequence_forms", sequence_forms, 5000, 1000000)
PBT_REG(told, "told", told, 8000, 2000000)
#if defined(CISTA_FNV1A)
PBT_REG(sensitive, "sensitive", sensitive, 6000, 1000000)
#endif
PBT_REG(keyed, "keyed", keyed, 2000, 400000)
#else
REL(vec_int, 3000, cista::offset::vector<std::int32_t>)
REL(rvec_int8, 3000, cista::raw::vector<std::int8_t>)
REL(vec_string, 3000, cista::offset::vector<cista::offset::string>)
REL(vec_vec, 3000, cista::raw::vector<cista::offset::vector<std::int16_t>>)
REL(vec_pair, 3000, cista::raw::vector<cista::pair<std::int8_t, cista::raw::string>>)
REL(std_vec, 3000, std::vector<std::int64_t>)
REL(std_vec_agg, 2000, std::vector<frnd>)
REL(array_int, 3000, cista::array<std::int32_t, 4>)
REL(array_string, 2000, cista::array<cista::offset::string, 3>)
REL(pair_int, 3000, cista::pair<std::int8_t, std::int64_t>)
REL(pair_string, 3000, cista::pair<cista::raw::string, std::int16_t>)
REL(std_pair, 3000, std::pair<std::int16_t, std::int16_t>)
REL(tuple, 3000, cista::tuple<std::int8_t, cista::offset::string>)
REL(std_tuple, 3000, std::tuple<std::int16_t, std::int32_t>)
REL(std_optional, 3000, std::optional<std::int32_t>)
REL(std_optional_s, 3000, std::optional<cista::raw::string>)
REL(optional, 3000, cista::optional<std::int32_t>)
REL(optional_s, 3000, cista::optional<cista::offset::string>)
REL(variant, 3000, cista::variant<std::int32_t, std::int64_t>)
REL(variant_s, 3000, cista::variant<cista::raw::string, double>)
REL(std_variant, 3000, std::variant<std::int32_t, std::int64_t>)
REL(map, 2000, cista::offset::hash_map<std::int32_t, std::int8_t>)
REL(rmap, 2000, cista::raw::hash_map<cista::raw::string, cista::raw::vector<std::int8_t>>)
REL(set, 2000, cista::offset::hash_set<cista::offset::string>)
REL(rset, 2000, cista::raw::hash_set<std::int32_t>)
REL(vec_set, 1000, cista::raw::vector<cista::raw::hash_set<std::int32_t>>)
REL(agg, 3000, agg)
REL(ints, 3000, ints)
REL(nest, 3000, nest)
REL(friend_cmp, 3000, frnd)
REL(member_cmp, 3000, memb)
REL(derived_cmp, 3000, deriv)
#endif
}  // namespace hq
