// Generators and canonical dumps for every serializable kind of value.
//   gen_value(c, t, depth)  fills t with a generated value
//   dump_value(t, out)      appends a canonical description of the value that
//                           does not depend on its representation (inline or
//                           heap storage, capacity, table layout, history)
// Two values are considered equal iff their dumps are equal; this does not use
// any comparison, hashing or reflection code of the library under test.
#pragma once

#include <array>
#include <chrono>
#include <deque>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"
#include "cista/containers/vecvec.h"
#include "cista/indexed.h"
#include "cista/strong.h"

namespace gen {

using pbt::Ctx;

// backing memory of generated non-owning strings (cleared per case)
inline std::deque<std::string>& arena() {
  static std::deque<std::string> a;
  return a;
}
inline std::deque<std::u16string>& arena16() {
  static std::deque<std::u16string> a;
  return a;
}
inline std::deque<std::u32string>& arena32() {
  static std::deque<std::u32string> a;
  return a;
}
struct arena_guard {
  arena_guard() { clear(); }
  ~arena_guard() { clear(); }
  static void clear() {
    std::deque<std::string>{}.swap(arena());
    std::deque<std::u16string>{}.swap(arena16());
    std::deque<std::u32string>{}.swap(arena32());
  }
};

// statistics of the current case (for the non-triviality rule)
struct stats_t {
  unsigned heap_{0}, elems_{0}, containers_{0};
};
inline stats_t& stats() {
  static stats_t s;
  return s;
}

template <typename T, typename = void>
struct io;

template <typename T>
void gen_value(Ctx& c, T& t, int depth) {
  io<T>::gen(c, t, depth);
}
template <typename T>
void dump_value(T const& t, std::string& o) {
  io<std::remove_const_t<T>>::dump(t, o);
}
template <typename T>
std::string dump_of(T const& t) {
  std::string s;
  dump_value(t, s);
  return s;
}

inline std::size_t gen_len(Ctx& c, int depth) {
  auto const n = depth <= 0 ? c.len(24) : depth == 1 ? c.len(7) : depth == 2 ? c.len(3) : c.u(1);
  stats().elems_ += static_cast<unsigned>(n);
  stats().containers_ += n != 0;
  return n;
}

// --- scalars ---
template <typename T>
struct io<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static void gen(Ctx& c, T& t, int) {
    if constexpr (std::is_same_v<T, char16_t>) {
      t = static_cast<T>(c.num<std::uint16_t>());
    } else if constexpr (std::is_same_v<T, char32_t>) {
      t = static_cast<T>(c.num<std::uint32_t>());
    } else {
      t = c.num<T>();
    }
  }
  static void dump(T const& t, std::string& o) {
    if constexpr (std::is_signed_v<T>) {
      o += std::to_string(static_cast<long long>(t));
    } else {
      o += std::to_string(static_cast<unsigned long long>(t));
    }
    o += ' ';
  }
};
template <>
struct io<bool> {
  static void gen(Ctx& c, bool& t, int) { t = c.flip(); }
  static void dump(bool const& t, std::string& o) {
    std::uint8_t b;
    std::memcpy(&b, &t, 1);
    o += b == 0 ? "f " : b == 1 ? "t " : "BADBOOL ";
  }
};
template <typename T>
struct io<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using bits = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
  static void gen(Ctx& c, T& t, int) {
    if (c.flip()) {
      auto const b = c.num<bits>();
      std::memcpy(&t, &b, sizeof(t));
    } else {
      t = static_cast<T>(c.range(-1000, 1000)) / static_cast<T>(8);
    }
  }
  static void dump(T const& t, std::string& o) {
    bits b;
    std::memcpy(&b, &t, sizeof(t));
    o += "x" + std::to_string(b) + " ";
  }
};
template <typename T>
struct io<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static void gen(Ctx& c, T& t, int) { t = static_cast<T>(c.num<U>()); }
  static void dump(T const& t, std::string& o) {
    o += "e";
    dump_value(static_cast<U>(t), o);
  }
};
template <typename T, typename Tag>
struct io<cista::strong<T, Tag>> {
  static void gen(Ctx& c, cista::strong<T, Tag>& t, int d) { gen_value(c, t.v_, d); }
  static void dump(cista::strong<T, Tag> const& t, std::string& o) { dump_value(t.v_, o); }
};
template <typename R, typename P>
struct io<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static void gen(Ctx& c, T& t, int d) {
    R r;
    gen_value(c, r, d);
    t = T{r};
  }
  static void dump(T const& t, std::string& o) { dump_value(t.count(), o); }
};
template <typename C, typename D>
struct io<std::chrono::time_point<C, D>> {
  using T = std::chrono::time_point<C, D>;
  static void gen(Ctx& c, T& t, int d) {
    D x;
    gen_value(c, x, d);
    t = T{x};
  }
  static void dump(T const& t, std::string& o) { dump_value(t.time_since_epoch(), o); }
};

// --- aggregates: struct with EACH(members...) ---
#define EACH(...)                              \
  auto each() { return std::tie(__VA_ARGS__); } \
  auto each() const { return std::tie(__VA_ARGS__); }
template <typename T>
struct io<T, std::void_t<decltype(std::declval<T&>().each())>> {
  static void gen(Ctx& c, T& t, int d) {
    std::apply([&](auto&... x) { (gen_value(c, x, d), ...); }, t.each());
  }
  static void dump(T const& t, std::string& o) {
    o += '{';
    std::apply([&](auto const&... x) { (dump_value(x, o), ...); }, t.each());
    o += '}';
  }
};
template <typename A, typename B>
struct io<cista::pair<A, B>> {
  static void gen(Ctx& c, cista::pair<A, B>& t, int d) {
    gen_value(c, t.first, d);
    gen_value(c, t.second, d);
  }
  static void dump(cista::pair<A, B> const& t, std::string& o) {
    o += '(';
    dump_value(t.first, o);
    dump_value(t.second, o);
    o += ')';
  }
};
template <typename A, typename B>
struct io<std::pair<A, B>> {
  static void gen(Ctx& c, std::pair<A, B>& t, int d) {
    gen_value(c, t.first, d);
    gen_value(c, t.second, d);
  }
  static void dump(std::pair<A, B> const& t, std::string& o) {
    o += '(';
    dump_value(t.first, o);
    dump_value(t.second, o);
    o += ')';
  }
};
template <typename... Ts>
struct io<cista::tuple<Ts...>> {
  using T = cista::tuple<Ts...>;
  template <std::size_t... I>
  static void g(Ctx& c, T& t, int d, std::index_sequence<I...>) {
    (gen_value(c, cista::get<I>(t), d), ...);
  }
  template <std::size_t... I>
  static void w(T const& t, std::string& o, std::index_sequence<I...>) {
    (dump_value(cista::get<I>(t), o), ...);
  }
  static void gen(Ctx& c, T& t, int d) { g(c, t, d, std::index_sequence_for<Ts...>{}); }
  static void dump(T const& t, std::string& o) {
    o += "T(";
    w(t, o, std::index_sequence_for<Ts...>{});
    o += ')';
  }
};
template <typename X, std::size_t N>
struct io<cista::array<X, N>> {
  using T = cista::array<X, N>;
  static void gen(Ctx& c, T& t, int d) {
    for (std::size_t i = 0; i != N; ++i) {
      gen_value(c, t[i], d + 1);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += 'A';
    for (std::size_t i = 0; i != N; ++i) {
      dump_value(t[i], o);
    }
  }
};

// --- strings ---
template <typename S>
S gen_long(Ctx& c) {  // from a formula
  auto const n = c.pick({63U, 64U, 127U, 128U, 255U, 256U, 511U, 1024U, 4096U, 5000U}) - 1 + c.u(2);
  auto x = static_cast<std::uint32_t>(c.u(1000));
  S s;
  for (std::size_t i = 0; i != n; ++i) {
    x = x * 1103515245U + 12345U;
    s.push_back(static_cast<typename S::value_type>(1U + (x >> 16U) % (sizeof(typename S::value_type) == 1 ? 255U : 40000U)));
  }
  stats().heap_ += 1;
  return s;
}
inline std::string gen_text(Ctx& c) {
  if (c.chance(1, 250)) {
    return gen_long<std::string>(c);
  }
  // lengths around the inline limits (15 bytes)
  auto const n = c.chance(1, 2) ? c.u(14) : c.chance(1, 2) ? 13 + c.u(5) : c.u(60);
  std::string s;
  auto const bin = c.flip();
  for (std::size_t i = 0; i != n; ++i) {
    s.push_back(bin ? static_cast<char>(1 + c.u(254)) : static_cast<char>('a' + c.u(3)));
  }
  if (bin && n != 0 && c.chance(1, 4)) {
    s[c.idx(s.size())] = '\0';
  }
  stats().heap_ += n > 15;
  return s;
}
template <typename S>
S gen_wide(Ctx& c) {
  if (c.chance(1, 250)) {
    return gen_long<S>(c);
  }
  auto const n = c.chance(1, 2) ? c.u(8) : c.u(40);
  S s;
  for (std::size_t i = 0; i != n; ++i) {
    s.push_back(static_cast<typename S::value_type>(
        1 + c.u(sizeof(typename S::value_type) == 2 ? 65534U : 0x10FFFEU)));
  }
  if (n != 0 && c.chance(1, 8)) {
    s[c.idx(s.size())] = typename S::value_type{};
  }
  stats().heap_ += n > 7;
  return s;
}
template <typename V>
void dump_text(V const& v, std::string& o) {
  o += '"';
  o += std::to_string(v.size());
  o += ':';
  for (auto const x : v) {
    if constexpr (sizeof(x) == 1) {
      o += x;
    } else {
      o += std::to_string(static_cast<std::uint32_t>(x)) + ",";
    }
  }
  o += '"';
}
template <typename Ptr>
struct io<cista::basic_string<Ptr>> {
  using T = cista::basic_string<Ptr>;
  using C = typename T::CharT;
  static void gen(Ctx& c, T& t, int) {
    if constexpr (sizeof(C) == 1) {
      t = gen_text(c);
    } else {
      t = gen_wide<std::basic_string<C>>(c);
    }
  }
  static void dump(T const& t, std::string& o) {
    PBT_CHECK(t.size() == t.view().size() && t.empty() == (t.size() == 0));
    dump_text(std::basic_string_view<C>{t.data(), t.size()}, o);
  }
};
template <typename Ptr>
struct io<cista::basic_string_view<Ptr>> {
  using T = cista::basic_string_view<Ptr>;
  using C = typename T::CharT;
  static void gen(Ctx& c, T& t, int) {
    if constexpr (sizeof(C) == 1) {
      arena().push_back(gen_text(c));
      t = std::string_view{arena().back()};
    } else if constexpr (sizeof(C) == 2) {
      arena16().push_back(gen_wide<std::u16string>(c));
      t = std::u16string_view{arena16().back()};
    } else {
      arena32().push_back(gen_wide<std::u32string>(c));
      t = std::u32string_view{arena32().back()};
    }
  }
  static void dump(T const& t, std::string& o) {
    dump_text(std::basic_string_view<C>{t.data(), t.size()}, o);
  }
};
// generic_string: owning or not, decided at run time
template <typename Ptr>
struct io<cista::generic_string<Ptr>> {
  using T = cista::generic_string<Ptr>;
  static void gen(Ctx& c, T& t, int) {
    auto s = gen_text(c);
    if (c.flip()) {
      t.set_owning(s);
    } else {
      arena().push_back(std::move(s));
      t.set_non_owning(arena().back());
    }
  }
  static void dump(T const& t, std::string& o) {
    dump_text(std::string_view{t.data(), t.size()}, o);
  }
};
template <typename Ptr>
struct io<cista::basic_cstring<Ptr>> {
  using T = cista::basic_cstring<Ptr>;
  static void gen(Ctx& c, T& t, int) {
    auto s = gen_text(c);
    if (c.chance(1, 3)) {
      arena().push_back(std::move(s));
      auto const whole = std::string_view{arena().back()};
      if (c.flip()) {
        t.set_non_owning(whole);
      } else {  // part of a longer text: not zero-terminated
        auto const from = c.idx(whole.size() + 1U);
        t.set_non_owning(whole.substr(from, c.idx(whole.size() - from + 1U)));
      }
    } else {
      t.set_owning(s);
    }
  }
  static bool part_of_longer_text(T const& t) {
    for (auto const& s : arena()) {
      if (t.data() >= s.data() && t.data() + t.size() < s.data() + s.size()) {
        return true;
      }
    }
    return false;
  }
  static void dump(T const& t, std::string& o) {
    PBT_CHECK((!t.is_owning() && part_of_longer_text(t)) ||
                  t.data()[t.size()] == '\0',
              "cstring not zero-terminated");
    dump_text(std::string_view{t.data(), t.size()}, o);
  }
};

// --- vector ---
template <typename X, template <typename> typename P, bool Idx, typename S>
struct io<cista::basic_vector<X, P, Idx, S>> {
  using T = cista::basic_vector<X, P, Idx, S>;
  static void gen(Ctx& c, T& t, int d) {
    auto n = gen_len(c, d);
    stats().heap_ += n != 0;
    if (c.chance(1, 6)) {
      t.reserve(static_cast<typename T::size_type>(n + c.u(5)));
    }
    for (std::size_t i = 0; i != n; ++i) {
      t.emplace_back();
      gen_value(c, t.back(), d + 1);
    }
    if (n != 0 && c.chance(1, 10)) {  // spare capacity, or emptied
      if (c.flip()) {
        t.clear();
      } else {
        t.pop_back();
      }
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "[" + std::to_string(static_cast<std::uint64_t>(cista::to_idx(t.size()))) + ":";
    std::size_t n = 0;
    for (auto const& x : t) {
      dump_value(x, o);
      ++n;
    }
    PBT_EQ(n, static_cast<std::size_t>(t.size()));
    PBT_EQ(t.empty(), n == 0);
    o += ']';
  }
};
template <typename X>
struct io<cista::indexed<X>> {
  static void gen(Ctx& c, cista::indexed<X>& t, int d) {
    gen_value(c, static_cast<X&>(t), d);
  }
  static void dump(cista::indexed<X> const& t, std::string& o) {
    dump_value(static_cast<X const&>(t), o);
  }
};

// --- optional, variant, unique_ptr ---
template <typename X>
struct io<cista::optional<X>> {
  using T = cista::optional<X>;
  static void gen(Ctx& c, T& t, int d) {
    if (d < 4 && c.flip()) {
      X x{};
      gen_value(c, x, d + 1);
      t = std::move(x);
    }
  }
  static void dump(T const& t, std::string& o) {
    if (t.has_value()) {
      o += "some ";
      dump_value(*t, o);
    } else {
      o += "none ";
    }
  }
};
template <typename... X>
struct io<cista::variant<X...>> {
  using T = cista::variant<X...>;
  template <std::size_t I>
  static void set(Ctx& c, T& t, int d) {
    using A = std::tuple_element_t<I, std::tuple<X...>>;
    A a{};
    gen_value(c, a, d + 1);
    t.template emplace<A>(std::move(a));
  }
  template <std::size_t... I>
  static void g(Ctx& c, T& t, int d, std::index_sequence<I...>) {
    auto const k = c.idx(sizeof...(X));
    ((k == I ? set<I>(c, t, d) : void()), ...);
  }
  template <std::size_t I>
  static void get(T const& t, std::string& o) {
    using A = std::tuple_element_t<I, std::tuple<X...>>;
    PBT_CHECK(cista::holds_alternative<A>(t));
    dump_value(cista::get<A>(t), o);
  }
  template <std::size_t... I>
  static void w(T const& t, std::string& o, std::index_sequence<I...>) {
    ((t.index() == I ? get<I>(t, o) : void()), ...);
  }
  static void gen(Ctx& c, T& t, int d) { g(c, t, d, std::index_sequence_for<X...>{}); }
  static void dump(T const& t, std::string& o) {
    o += "V" + std::to_string(static_cast<std::uint64_t>(t.index())) + " ";
    PBT_CHECK(t.index() < sizeof...(X));
    w(t, o, std::index_sequence_for<X...>{});
  }
};
template <typename X, typename P>
struct io<cista::basic_unique_ptr<X, P>> {
  using T = cista::basic_unique_ptr<X, P>;
  static void gen(Ctx& c, T& t, int d) {
    if (d < 4 && c.chance(2, 3)) {
      t = T{new X{}, true};
      gen_value(c, *t, d + 1);
      stats().heap_++;
    }
  }
  static void dump(T const& t, std::string& o) {
    if (static_cast<bool>(t)) {
      o += "*";
      dump_value(*t, o);
    } else {
      o += "null ";
    }
  }
};

// --- hash tables ---
template <typename X, template <typename> typename P, typename GK, typename GV,
          typename H, typename E>
struct io<cista::hash_storage<X, P, GK, GV, H, E>> {
  using T = cista::hash_storage<X, P, GK, GV, H, E>;
  using K = std::remove_cv_t<std::remove_reference_t<decltype(GK{}(std::declval<X const&>()))>>;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = d <= 0 && c.chance(1, 8) ? c.u(60) : gen_len(c, d);
    stats().heap_ += n != 0;
    std::vector<K> erased;
    for (std::size_t i = 0; i != n; ++i) {
      X x{};
      gen_value(c, x, d + 1);
      if constexpr (std::is_copy_constructible_v<K>) {
        if (c.chance(1, 8)) {
          erased.push_back(GK{}(x));
        }
      }
      t.emplace(std::move(x));
    }
    for (auto const& k : erased) {
      t.erase(k);
    }
    if (c.chance(1, 30)) {
      t.clear();
    }
  }
  static void dump(T const& t, std::string& o) {
    std::vector<std::string> v;
    for (auto const& x : t) {
      auto const it = t.find(GK{}(x));
      PBT_CHECK(it != t.end() && &*it == &x, "stored key not found by lookup");
      v.push_back(dump_of(x));
    }
    std::sort(v.begin(), v.end());
    PBT_EQ(v.size(), static_cast<std::size_t>(t.size()));
    o += "H" + std::to_string(v.size()) + "<";
    for (auto const& x : v) {
      o += x + ";";
    }
    o += '>';
  }
};

// --- bits ---
template <std::size_t N>
struct io<cista::bitset<N>> {
  using T = cista::bitset<N>;
  static void gen(Ctx& c, T& t, int) {
    auto const dense = c.flip();
    if (dense) {
      for (std::size_t i = 0; i != N; ++i) {
        t.set(i);
      }
    }
    for (auto k = c.u(8); k != 0; --k) {
      t.set(c.idx(N), !dense);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "B";
    for (std::size_t i = 0; i != N; ++i) {
      o += t.test(i) ? '1' : '0';
    }
    o += ' ';
  }
};
template <typename V, typename K>
struct io<cista::basic_bitvec<V, K>> {
  using T = cista::basic_bitvec<V, K>;
  static void gen(Ctx& c, T& t, int) {
    auto const n = c.chance(1, 4) ? c.pick({63U, 64U, 65U, 128U}) : static_cast<unsigned>(c.u(150));
    t.resize(n);
    stats().heap_ += n != 0;
    for (auto k = n == 0 ? 0 : c.u(8); k != 0; --k) {
      t.set(K(static_cast<unsigned>(c.idx(n))), true);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "b" + std::to_string(static_cast<std::uint64_t>(t.size())) + ":";
    for (std::size_t i = 0; i != t.size(); ++i) {
      o += t.test(K(static_cast<unsigned>(i))) ? '1' : '0';
    }
    o += ' ';
  }
};

// --- nested vectors ---
template <typename K, typename D, typename I>
struct io<cista::basic_vecvec<K, D, I>> {
  using T = cista::basic_vecvec<K, D, I>;
  using X = typename D::value_type;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = gen_len(c, d);
    for (std::size_t i = 0; i != n; ++i) {
      std::vector<X> b(gen_len(c, d + 1));
      for (auto& x : b) {
        gen_value(c, x, d + 2);
      }
      t.emplace_back(b);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "vv" + std::to_string(static_cast<std::uint64_t>(cista::to_idx(t.size()))) + ":";
    for (std::size_t i = 0; i != t.size(); ++i) {
      auto const b = t[K(static_cast<cista::base_t<K>>(i))];
      o += "[" + std::to_string(static_cast<std::uint64_t>(b.size())) + ":";
      for (auto const& x : b) {
        dump_value(x, o);
      }
      o += "]";
    }
  }
};
template <typename K, typename D, typename I, typename S>
struct io<cista::basic_nvec<K, D, I, 2, S>> {
  using T = cista::basic_nvec<K, D, I, 2, S>;
  using X = typename D::value_type;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = gen_len(c, d);
    for (std::size_t i = 0; i != n; ++i) {
      std::vector<std::vector<X>> b(gen_len(c, d + 1));
      for (auto& x : b) {
        x.resize(gen_len(c, d + 2));
        for (auto& y : x) {
          gen_value(c, y, d + 3);
        }
      }
      t.emplace_back(b);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "nv" + std::to_string(static_cast<std::uint64_t>(t.size())) + ":";
    for (auto const& b : t) {
      o += "[" + std::to_string(static_cast<std::uint64_t>(b.size())) + ":";
      for (auto const& x : b) {
        o += "[" + std::to_string(static_cast<std::uint64_t>(x.size())) + ":";
        for (auto const& y : x) {
          dump_value(y, o);
        }
        o += "]";
      }
      o += "]";
    }
  }
};
template <typename I, typename P, typename K>
struct io<cista::paged_vecvec<I, P, K>> {
  using T = cista::paged_vecvec<I, P, K>;
  using X = typename P::value_type;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = gen_len(c, d);
    for (std::size_t i = 0; i != n; ++i) {
      std::vector<X> b(gen_len(c, d));
      for (auto& x : b) {
        gen_value(c, x, d + 2);
      }
      t.emplace_back(b);
    }
    for (auto k = n == 0 ? 0 : c.u(12); k != 0; --k) {
      X x;
      gen_value(c, x, d + 2);
      t[K(static_cast<cista::base_t<K>>(c.idx(n)))].push_back(x);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "pv" + std::to_string(static_cast<std::uint64_t>(t.size())) + ":";
    for (std::size_t i = 0; i != t.size(); ++i) {
      auto const b = t[K(static_cast<cista::base_t<K>>(i))];
      o += "[" + std::to_string(static_cast<std::uint64_t>(b.size())) + ":";
      for (auto const& x : b) {
        dump_value(x, o);
      }
      o += "]";
    }
  }
};
template <typename D, typename I>
struct io<cista::fws_multimap<D, I>> {
  using T = cista::fws_multimap<D, I>;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = gen_len(c, d);
    for (std::size_t i = 0; i != n; ++i) {
      auto const m = gen_len(c, d + 1);
      for (std::size_t j = 0; j != m; ++j) {
        typename D::value_type x{};
        gen_value(c, x, d + 2);
        t.push_back(x);
      }
      t.finish_key();
    }
    t.finish_map();
  }
  static void dump(T const& t, std::string& o) {
    PBT_CHECK(t.finished() && t.index_size() != 0);
    o += "mm" + std::to_string(t.index_size()) + ":";
    for (std::size_t i = 0; i + 1 < t.index_size(); ++i) {
      o += "[";
      for (auto const& x : t[static_cast<typename T::index_t>(i)]) {
        dump_value(x, o);
      }
      o += "]";
    }
  }
};
template <typename X, typename S, template <typename> typename V, std::size_t L>
struct io<cista::dynamic_fws_multimap_base<X, S, V, L>> {
  using T = cista::dynamic_fws_multimap_base<X, S, V, L>;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = gen_len(c, d);
    for (std::size_t i = 0; i != 2 * n; ++i) {
      X x{};
      gen_value(c, x, d + 2);
      t[S(static_cast<cista::base_t<S>>(c.idx(n)))].push_back(x);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "dm" + std::to_string(t.element_count()) + "," + std::to_string(t.size()) + ":";
    for (std::size_t i = 0; i != t.size(); ++i) {
      auto const b = t[S(static_cast<cista::base_t<S>>(i))];
      o += "[" + std::to_string(static_cast<std::uint64_t>(b.size())) + ":";
      for (auto const& x : b) {
        dump_value(x, o);
      }
      o += "]";
    }
  }
};
template <typename V>
struct io<cista::base_flat_matrix<V>> {
  using T = cista::base_flat_matrix<V>;
  static void gen(Ctx& c, T& t, int d) {
    auto const r = c.u(4), k = c.u(4);
    t.resize(static_cast<typename T::size_type>(r), static_cast<std::size_t>(k));
    for (auto& x : t.entries_) {
      gen_value(c, x, d + 1);
    }
  }
  static void dump(T const& t, std::string& o) {
    o += "fm" + std::to_string(t.n_rows_) + "x" + std::to_string(t.n_columns_) + ":";
    for (std::size_t i = 0; i != t.n_rows_; ++i) {
      for (std::size_t j = 0; j != t.n_columns_; ++j) {
        dump_value(t[static_cast<typename T::size_type>(i)][static_cast<typename T::size_type>(j)], o);
      }
    }
  }
};
template <typename D, template <typename, typename> typename VM,
          std::uint32_t Dims, typename N, std::uint32_t M, typename S>
struct io<cista::basic_rtree<D, VM, Dims, N, M, S>> {
  using T = cista::basic_rtree<D, VM, Dims, N, M, S>;
  using coord = typename T::coord_t;
  static void gen(Ctx& c, T& t, int d) {
    auto const n = c.u(d <= 0 ? 40 : 4);
    for (std::size_t i = 0; i != n; ++i) {
      coord lo, hi;
      for (std::size_t k = 0; k != Dims; ++k) {
        lo[k] = static_cast<N>(c.range(-20, 20));
        hi[k] = lo[k] + static_cast<N>(c.u(5));
      }
      D x{};
      gen_value(c, x, d + 2);
      t.insert(lo, hi, x);
    }
  }
  static void dump(T const& t, std::string& o) {
    coord lo, hi;
    for (std::size_t k = 0; k != Dims; ++k) {
      lo[k] = std::numeric_limits<N>::lowest();
      hi[k] = std::numeric_limits<N>::max();
    }
    std::vector<std::string> v;
    t.search(lo, hi, [&](coord const& a, coord const& b, D const& x) {
      std::string s;
      dump_value(a, s);
      dump_value(b, s);
      dump_value(x, s);
      v.push_back(std::move(s));
      return true;
    });
    std::sort(v.begin(), v.end());
    o += "R" + std::to_string(v.size()) + "<";
    for (auto const& x : v) {
      o += x + ";";
    }
    o += '>';
  }
};

}  // namespace gen
