// C20: reflection.  The types come from gen_reflect.py (a fresh family per seed)
// together with an explicit description of their members.
#include <array>
#include <chrono>
#include <cstddef>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "cista/cista_member_offset.h"
#include "cista/containers.h"
#include "cista/reflection/for_each_field.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/printable.h"

#include "pbt.h"

namespace rt {

enum class e8 : std::uint8_t { A = 65, B = 66, C = 200 };
enum e32 { X, Y = -5, Z = 1000000 };
enum class e64 : std::int64_t { MIN = std::numeric_limits<std::int64_t>::min(), ZERO = 0, ONE = 1 };
struct empty {};
struct single {
  int v_{};
};
struct two {
  std::uint8_t a_{};
  double b_{};
};
struct priv {
  priv() = default;
  priv(priv const&) = default;
  priv& operator=(priv const&) = default;
  void set(int x) { v_ = x; }
  int get() const { return v_; }

private:
  int v_{};
};
using idx = cista::strong<std::uint32_t, struct idx_>;

template <typename... T>
struct tl {};
template <typename T>
struct info {
  static constexpr bool none = true;
};
template <typename T, typename = void>
struct described : std::false_type {};
template <typename T>
struct described<T, std::void_t<decltype(info<T>::n)>> : std::true_type {};
template <typename T>
struct print_names;

template <typename S, typename M>
std::size_t dist(S const* s, M const* m) {
  return static_cast<std::size_t>(reinterpret_cast<std::uintptr_t>(m) - reinterpret_cast<std::uintptr_t>(s));
}

#include FAMILY_HEADER

#ifndef CONTROL

// ---------------------------------------------------------------- values
template <typename T, typename = void>
struct ops;

template <typename T>
void fill(pbt::Ctx& c, T& t) {
  ops<T>::fill(c, t);
}
template <typename T>
std::string fp(T const& t) {
  return ops<T>::fp(t);
}

template <typename T>
struct ops<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
  static void fill(pbt::Ctx& c, T& t) {
    if constexpr (std::is_same_v<T, bool>) {
      t = c.flip();
    } else if constexpr (std::is_floating_point_v<T>) {
      t = static_cast<T>(static_cast<int>(c.u(2000)) - 1000) / T{8};
    } else {
      t = c.num<T>();
    }
  }
  static std::string fp(T const& t) { return std::to_string(t); }
};
template <typename T>
struct ops<T, std::enable_if_t<std::is_enum_v<T>>> {
  static void fill(pbt::Ctx& c, T& t) {
    if constexpr (std::is_same_v<T, e8>) {
      t = c.pick({e8::A, e8::B, e8::C});
    } else if constexpr (std::is_same_v<T, e32>) {
      t = c.pick({X, Y, Z});
    } else {
      t = c.pick({e64::MIN, e64::ZERO, e64::ONE});
    }
  }
  static std::string fp(T const& t) { return std::to_string(static_cast<long long>(t)); }
};
inline int dummies[16];
template <>
struct ops<int*> {
  static void fill(pbt::Ctx& c, int*& t) { t = c.flip() ? nullptr : &dummies[c.idx(16)]; }
  static std::string fp(int* const& t) { return t == nullptr ? "null" : std::to_string(t - dummies); }
};
template <>
struct ops<void const*> {
  static void fill(pbt::Ctx& c, void const*& t) { t = c.flip() ? nullptr : &dummies[c.idx(16)]; }
  static std::string fp(void const* const& t) { return t == nullptr ? "null" : std::to_string(static_cast<int const*>(t) - dummies); }
};
template <>
struct ops<cista::offset::ptr<int>> {
  static void fill(pbt::Ctx& c, cista::offset::ptr<int>& t) { t = c.flip() ? nullptr : &dummies[c.idx(16)]; }
  static std::string fp(cista::offset::ptr<int> const& t) {
    return t == nullptr ? "null" : std::to_string(t.get() - dummies);
  }
};
template <>
struct ops<idx> {
  static void fill(pbt::Ctx& c, idx& t) { t = idx{c.num<std::uint32_t>()}; }
  static std::string fp(idx const& t) { return std::to_string(t.v_); }
};
template <>
struct ops<std::chrono::duration<std::int32_t>> {
  static void fill(pbt::Ctx& c, std::chrono::duration<std::int32_t>& t) { t = std::chrono::duration<std::int32_t>{c.num<std::int32_t>()}; }
  static std::string fp(std::chrono::duration<std::int32_t> const& t) { return std::to_string(t.count()); }
};
template <typename T, std::size_t N>
struct ops<std::array<T, N>> {
  static void fill(pbt::Ctx& c, std::array<T, N>& t) {
    for (auto& x : t) {
      rt::fill(c, x);
    }
  }
  static std::string fp(std::array<T, N> const& t) {
    std::string s;
    for (auto const& x : t) {
      s += rt::fp(x) + ",";
    }
    return s;
  }
};
template <>
struct ops<empty> {
  static void fill(pbt::Ctx&, empty&) {}
  static std::string fp(empty const&) { return "e"; }
};
template <>
struct ops<single> {
  static void fill(pbt::Ctx& c, single& t) { t.v_ = c.num<int>(); }
  static std::string fp(single const& t) { return std::to_string(t.v_); }
};
template <>
struct ops<two> {
  static void fill(pbt::Ctx& c, two& t) {
    t.a_ = c.num<std::uint8_t>();
    t.b_ = static_cast<double>(c.u(1000));
  }
  static std::string fp(two const& t) { return std::to_string(t.a_) + "/" + std::to_string(t.b_); }
};
template <>
struct ops<priv> {
  static void fill(pbt::Ctx& c, priv& t) { t.set(c.num<int>()); }
  static std::string fp(priv const& t) { return std::to_string(t.get()); }
};
template <typename T>
struct str_ops {
  static void fill(pbt::Ctx& c, T& t) {
    auto const s = c.str(20, false);
    t = T{std::string_view{s}};
  }
  static std::string fp(T const& t) { return std::string{t.data(), t.size()}; }
};
template <>
struct ops<std::string> : str_ops<std::string> {};
template <>
struct ops<cista::offset::string> : str_ops<cista::offset::string> {};
template <>
struct ops<cista::raw::string> : str_ops<cista::raw::string> {};
template <typename T>
struct vec_ops {
  static void fill(pbt::Ctx& c, T& t) {
    t = T{};
    for (auto i = c.u(4); i != 0; --i) {
      typename T::value_type v{};
      rt::fill(c, v);
      t.push_back(v);
    }
  }
  static std::string fp(T const& t) {
    auto s = std::string{"["};
    for (auto const& x : t) {
      s += rt::fp(x) + ",";
    }
    return s + "]";
  }
};
template <>
struct ops<cista::offset::vector<int>> : vec_ops<cista::offset::vector<int>> {};
template <>
struct ops<cista::raw::vector<std::uint8_t>> : vec_ops<cista::raw::vector<std::uint8_t>> {};
template <typename T>
struct ops<std::vector<T>> : vec_ops<std::vector<T>> {};
template <typename T>
struct opt_ops {
  static void fill(pbt::Ctx& c, T& t) {
    if (c.flip()) {
      t = T{c.num<int>()};
    } else {
      t = T{};
    }
  }
  static std::string fp(T const& t) { return t.has_value() ? std::to_string(*t) : "none"; }
};
template <>
struct ops<cista::optional<int>> : opt_ops<cista::optional<int>> {};
template <>
struct ops<std::optional<int>> : opt_ops<std::optional<int>> {};
template <typename T>
struct pair_ops {
  static void fill(pbt::Ctx& c, T& t) {
    rt::fill(c, t.first);
    rt::fill(c, t.second);
  }
  static std::string fp(T const& t) { return rt::fp(t.first) + "|" + rt::fp(t.second); }
};
template <>
struct ops<cista::pair<int, cista::offset::string>> : pair_ops<cista::pair<int, cista::offset::string>> {};
template <>
struct ops<std::pair<int, std::string>> : pair_ops<std::pair<int, std::string>> {};
using tup = cista::tuple<int, std::uint8_t, double>;
template <>
struct ops<tup> {
  static void fill(pbt::Ctx& c, tup& t) {
    cista::get<0>(t) = c.num<int>();
    cista::get<1>(t) = c.num<std::uint8_t>();
    cista::get<2>(t) = static_cast<double>(c.u(100));
  }
  static std::string fp(tup const& t) {
    return std::to_string(cista::get<0>(t)) + std::to_string(cista::get<1>(t)) + std::to_string(cista::get<2>(t));
  }
};
template <>
struct ops<cista::bitset<5>> {
  static void fill(pbt::Ctx& c, cista::bitset<5>& t) {
    for (auto i = 0U; i != 5U; ++i) {
      t.set(i, c.flip());
    }
  }
  static std::string fp(cista::bitset<5> const& t) { return t.to_string(); }
};
template <>
struct ops<cista::offset::bitvec> {
  static void fill(pbt::Ctx& c, cista::offset::bitvec& t) {
    t.resize(static_cast<unsigned>(c.u(70)));
    for (auto i = 0U; i != t.size(); ++i) {
      t.set(i, c.flip());
    }
  }
  static std::string fp(cista::offset::bitvec const& t) {
    std::string s;
    for (auto i = 0U; i != t.size(); ++i) {
      s += t[i] ? '1' : '0';
    }
    return s;
  }
};
using hm = cista::raw::hash_map<int, int>;
template <>
struct ops<hm> {
  static void fill(pbt::Ctx& c, hm& t) {
    t.clear();
    for (auto i = c.u(3); i != 0; --i) {
      t[static_cast<int>(c.u(100))] = c.num<int>();
    }
  }
  static std::string fp(hm const& t) {
    std::vector<std::pair<int, int>> v;
    for (auto const& [a, b] : t) {
      v.emplace_back(a, b);
    }
    std::sort(v.begin(), v.end());
    return rt::fp(std::vector<int>(1, static_cast<int>(v.size()))) +
           (v.empty() ? "" : std::to_string(v[0].first) + ":" + std::to_string(v[0].second));
  }
};
using var = cista::variant<int, double>;
template <>
struct ops<var> {
  static void fill(pbt::Ctx& c, var& t) {
    if (c.flip()) {
      t = c.num<int>();
    } else {
      t = static_cast<double>(c.u(100));
    }
  }
  static std::string fp(var const& t) {
    return t.index() == 0U ? std::to_string(cista::get<int>(t))
           : t.index() == 1U ? std::to_string(cista::get<double>(t))
                             : std::string{"-"};
  }
};
using vv = cista::raw::vecvec<std::uint32_t, int>;
template <>
struct ops<vv> {
  static void fill(pbt::Ctx& c, vv& t) {
    t = vv{};
    for (auto i = c.u(3); i != 0; --i) {
      std::vector<int> x;
      rt::fill(c, x);
      t.emplace_back(x);
    }
  }
  static std::string fp(vv const& t) {
    std::string s;
    for (auto const& b : t) {
      for (auto const& x : b) {
        s += std::to_string(x) + ",";
      }
      s += ";";
    }
    return s;
  }
};
template <typename T>
struct up_ops {
  static void fill(pbt::Ctx& c, T& t) {
    if (c.flip()) {
      if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
        t = std::make_unique<int>(c.num<int>());
      } else {
        t = cista::offset::make_unique<int>(c.num<int>());
      }
    } else {
      t = T{};
    }
  }
  static std::string fp(T const& t) { return t.get() == nullptr ? std::string{"null"} : std::to_string(*t.get()); }
};
template <>
struct ops<std::unique_ptr<int>> : up_ops<std::unique_ptr<int>> {};
template <>
struct ops<cista::offset::unique_ptr<int>> : up_ops<cista::offset::unique_ptr<int>> {};

template <typename T>
struct ops<T, std::enable_if_t<described<T>::value>> {
  static void fill(pbt::Ctx& c, T& t) {
    info<T>::all(t, [&](auto& m) { rt::fill(c, m); });
  }
  static std::string fp(T const& t) {
    auto s = std::string{"{"};
    info<T>::all(const_cast<T&>(t), [&](auto& m) { s += rt::fp(m) + ";"; });
    return s + "}";
  }
};

// ---------------------------------------------------------------- checks
template <typename A, typename B>
struct same_refs : std::false_type {};
template <typename... A, typename... B>
struct same_refs<std::tuple<A...>, tl<B...>>
    : std::bool_constant<std::is_same_v<std::tuple<A...>, std::tuple<B&...>>> {};
template <typename A, typename B>
struct same_crefs : std::false_type {};
template <typename... A, typename... B>
struct same_crefs<std::tuple<A...>, tl<B...>>
    : std::bool_constant<std::is_same_v<std::tuple<A...>, std::tuple<B const&...>> ||
                         // an explicit member list may wrap
                         std::is_same_v<std::tuple<A...>, std::tuple<std::reference_wrapper<B const>...>>> {};
template <typename A, typename B>
struct same_ptrs : std::false_type {};
template <typename... A, typename... B>
struct same_ptrs<std::tuple<A...>, tl<B...>>
    : std::bool_constant<std::is_same_v<std::tuple<A...>, std::tuple<B*...>>> {};

template <typename M>
void const* addr_of(M const& m) {
  return std::addressof(m);
}
template <typename M>
void const* addr_of(std::reference_wrapper<M> const& m) {
  return std::addressof(m.get());
}

// function objects shared by all types (fewer instantiations than lambdas)
struct collect {
  template <typename M>
  void operator()(M&& m) {
    v_.push_back(addr_of(m));
  }
  std::vector<void const*>& v_;
};
struct collect_ptr {
  template <typename M>
  void operator()(M* m) {
    v_.push_back(m);
  }
  std::vector<void const*>& v_;
};
struct count {
  template <typename M>
  void operator()(M&&) {
    ++n_;
  }
  std::size_t& n_;
};
struct fingerprints {
  template <typename M>
  void operator()(M& m) {
    v_.push_back(fp(m));
  }
  std::vector<std::string>& v_;
};
struct writer {
  template <typename M>
  void operator()(M& m) {
    if (k_++ == which_) {
      fill(c_, m);
      fps_[which_] = fp(m);
    }
  }
  pbt::Ctx& c_;
  std::size_t which_;
  std::vector<std::string>& fps_;
  std::size_t k_{0U};
};
struct ptr_writer {
  template <typename M>
  void operator()(M* m) {
    w_(*m);
  }
  writer& w_;
};
struct collect_all {
  template <typename... M>
  void operator()(M&&... x) {
    (v_.push_back(addr_of(x)), ...);
  }
  std::vector<void const*>& v_;
};
struct collect_all_ptr {
  template <typename... M>
  void operator()(M*... x) {
    (v_.push_back(x), ...);
  }
  std::vector<void const*>& v_;
};

template <typename Tuple>
std::vector<void const*> tuple_addrs(Tuple const& t) {
  std::vector<void const*> v;
  std::apply(collect_all{v}, t);
  return v;
}

template <typename S>
constexpr bool has_list = cista::detail::has_cista_members_v<S>;

#define SAME_ADDRS(got, what)                                                                              \
  do {                                                                                                     \
    auto const g = (got);                                                                                  \
    PBT_CHECK(g.size() == want.size(), "%s of %s yields %zu members instead of %zu", what, info<S>::name,  \
              g.size(), want.size());                                                                      \
    for (auto i = std::size_t{0U}; i != want.size(); ++i) {                                                \
      PBT_CHECK(g[i] == want[i], "%s of %s: entry %zu is not member %zu", what, info<S>::name, i, i);      \
    }                                                                                                      \
  } while (false)

template <typename S>
void check_type(pbt::Ctx& c) {
  using types = typename info<S>::types;
  auto obj = std::make_unique<S>();
  auto& s = *obj;
  auto const& cs = s;
  fill(c, s);
  auto const before = fp(s);
  auto const want = info<S>::addrs(s);
  c.log("%s with %zu members\n", info<S>::name, want.size());
  c.nontrivial_if(want.size() >= 2U);

  if constexpr (!has_list<S>) {
    PBT_EQ(cista::arity<S>(), info<S>::n, "arity of %s", info<S>::name);
    PBT_EQ(cista::arity<S const&>(), info<S>::n, "arity of %s const&", info<S>::name);
  }
  SAME_ADDRS(tuple_addrs(cista::to_tuple(s)), "to_tuple");
  SAME_ADDRS(tuple_addrs(cista::to_tuple(cs)), "to_tuple of a constant");
  PBT_CHECK((same_refs<decltype(cista::to_tuple(s)), types>::value), "types of to_tuple of %s", info<S>::name);
  PBT_CHECK((same_crefs<decltype(cista::to_tuple(cs)), types>::value), "types of to_tuple of a constant %s",
            info<S>::name);

  {
    auto const ptrs = cista::to_ptr_tuple(s);
    PBT_CHECK((same_ptrs<std::decay_t<decltype(ptrs)>, types>::value), "types of to_ptr_tuple of %s", info<S>::name);
    std::vector<void const*> v;
    std::apply(collect_all_ptr{v}, ptrs);
    SAME_ADDRS(v, "to_ptr_tuple");
  }
  {
    std::vector<void const*> v;
    cista::for_each_ptr_field(s, collect_ptr{v});
    SAME_ADDRS(v, "for_each_ptr_field");
  }
  {
    std::vector<void const*> v, w, x;
    cista::for_each_field(s, collect{v});
    SAME_ADDRS(v, "for_each_field");
    cista::for_each_field(cs, collect{w});
    SAME_ADDRS(w, "for_each_field of a constant");
    auto* p = &s;
    cista::for_each_field(p, collect{x});
    SAME_ADDRS(x, "for_each_field of a pointer");
    S* none = nullptr;
    auto calls = std::size_t{0U};
    cista::for_each_field(none, count{calls});
    cista::for_each_ptr_field(none, count{calls});
    PBT_CHECK(calls == 0U, "iteration over a null pointer visited %zu fields", calls);
    cista::for_each_field<S>(count{calls});
    PBT_EQ(calls, info<S>::n, "for_each_field<T>() of %s", info<S>::name);
  }
  PBT_CHECK(fp(s) == before, "reflection changed a value of %s", info<S>::name);

  for (auto const& [expect, got] : info<S>::index()) {
    PBT_CHECK(got == expect, "member_index of %s is %zu, not %zu", info<S>::name, got, expect);
  }
  if constexpr (info<S>::has_offsets) {
    for (auto const& [expect, got] : info<S>::template offsets<S>(s)) {
      PBT_CHECK(static_cast<cista::offset_t>(expect) == got, "a member offset of %s is %lld, not %zu", info<S>::name,
                static_cast<long long>(got), expect);
    }
  }

  // write through the view: the named member changes, and no other
  std::vector<std::string> fps;
  info<S>::each(s, fingerprints{fps});
  auto const which = c.idx(info<S>::n + 1U);
  auto w = writer{c, which, fps};
  if (c.flip()) {
    cista::for_each_ptr_field(s, ptr_writer{w});
  } else {
    cista::for_each_field(s, w);
  }
  std::vector<std::string> after;
  info<S>::each(s, fingerprints{after});
  for (auto k = std::size_t{0U}; k != after.size(); ++k) {
    PBT_CHECK(after[k] == fps[k], "after writing member %zu of %s through the view, member %zu has value %s, not %s",
              which, info<S>::name, k, after[k].c_str(), fps[k].c_str());
  }
}

// ---------------------------------------------------------------- printing
template <typename T>
std::string printed(T const& t);

template <typename S>
std::string expect_print(S const& cs) {
  auto const names = print_names<S>::get();
  auto out = std::string{"{"};
  std::size_t i = 0U;
  info<S>::each(const_cast<S&>(cs), [&](auto& m) {
    if (i != 0U) {
      out += ", ";
    }
    if (i < names.size()) {
      out += names[i] + "=";
    }
    out += printed(m);
    ++i;
  });
  return out + "}";
}
template <typename T, typename = void>
struct printer {
  static std::string get(T const& t) {
    std::ostringstream o;
    o << t;
    return o.str();
  }
};
template <typename T>
struct printer<T, std::enable_if_t<described<T>::value>> {
  static std::string get(T const& t) { return expect_print(t); }
};
template <typename T>
struct printer<T, std::enable_if_t<std::is_enum_v<T>>> {
  static std::string get(T const& t) {
    std::ostringstream o;
    o << static_cast<std::underlying_type_t<T>>(t);
    return o.str();
  }
};
template <typename T>
struct printer<std::vector<T>> {
  static std::string get(std::vector<T> const& t) {
    auto s = std::string{"[\n  "};
    for (auto i = std::size_t{0U}; i != t.size(); ++i) {
      s += (i != 0U ? ",\n  " : "") + printer<T>::get(t[i]);
    }
    return s + "\n]";
  }
};
template <>
struct printer<idx> {
  static std::string get(idx const& t) { return std::to_string(t.v_); }
};
template <typename T>
std::string printed(T const& t) {
  return printer<T>::get(t);
}

template <typename S>
void check_print(pbt::Ctx& c) {
  auto s = S{};
  fill(c, s);
  auto const want = expect_print(s);
  c.log("%s\n", want.c_str());
  c.nontrivial_if(info<S>::n >= 2U);
  std::ostringstream o;
  o << s;
  PBT_CHECK(o.str() == want, "a %s prints as\n%s\ninstead of\n%s", info<S>::name, o.str().c_str(), want.c_str());
  std::ostringstream v;
  v << std::vector<int>{1, 2} << 7;
  PBT_CHECK(v.str() == "[\n  1,\n  2\n]7", "vector prints as %s", v.str().c_str());
}

using fn_t = void (*)(pbt::Ctx&);
#define ENTRY(S) &check_type<S>,
#define PENTRY(S) &check_print<S>,
fn_t const all_types[] = {ALL_TYPES(ENTRY)};
fn_t const print_types[] = {PRINT_TYPES(PENTRY)};

// scalars are one field
void scalars(pbt::Ctx& c) {
  auto i = c.num<int>();
  auto const v = i;
  auto n = 0;
  void const* at = nullptr;
  cista::for_each_field(i, [&](auto& x) {
    ++n;
    at = &x;
  });
  cista::for_each_ptr_field(i, [&](auto& x) {
    ++n;
    PBT_CHECK(static_cast<void const*>(&x) == static_cast<void const*>(&i), "scalar field address");
  });
  PBT_CHECK(n == 2 && at == &i && i == v, "iteration over a scalar");
  auto e = e8::A;
  cista::for_each_field(e, [&](auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, e8>) {
      x = e8::C;
    }
  });
  PBT_CHECK(e == e8::C, "writing a scalar enum through the view");
  auto p = &i;
  auto q = &p;
  cista::for_each_field(q, [&](auto& x) { x = 17; });
  PBT_CHECK(i == 17, "writing through a pointer to a pointer");
}

PBT_TARGET(reflect_members, 12000, 200000) { all_types[c.idx(std::size(all_types))](c); }
PBT_TARGET(reflect_print, 6000, 100000) { print_types[c.idx(std::size(print_types))](c); }
PBT_TARGET(reflect_scalars, 500, 2000) { scalars(c); }

#endif

}  // namespace rt

#ifdef CONTROL
PBT_TARGET(control, 1, 1) { (void)c; }
#endif
