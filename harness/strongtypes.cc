// C25: strong types against their underlying type, operation by operation.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <iomanip>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

#include "cista/containers.h"
#include "cista/containers/bitvec.h"
#include "cista/hashing.h"
#include "cista/serialization.h"
#include "cista/strong.h"

#include "pbt.h"

#if defined(CISTA_FMT)
#include "fmt/format.h"
#endif

namespace {

using pbt::Ctx;
template <typename T>
using st = cista::strong<T, struct st_tag>;

template <typename T>
T operand(Ctx& c) {
  if constexpr (std::is_floating_point_v<T>) {
    using lim = std::numeric_limits<T>;
    switch (c.u(9)) {
      case 0: return lim::quiet_NaN();
      case 1: return c.flip() ? lim::infinity() : -lim::infinity();
      case 2: return c.flip() ? T{0} : -T{0};
      case 3: return c.flip() ? lim::max() : lim::lowest();
      case 4: return c.flip() ? lim::min() : lim::denorm_min();
      default: return static_cast<T>(c.num<std::int32_t>()) / static_cast<T>(1U + c.u(8));
    }
  } else {
    using lim = std::numeric_limits<T>;
    switch (c.u(5)) {
      case 0: return lim::max();
      case 1: return lim::min();
      case 2: return static_cast<T>(lim::max() - static_cast<T>(c.u(3)));
      case 3: return static_cast<T>(c.u(40));
      default: return static_cast<T>(c.num<std::make_unsigned_t<T>>());
    }
  }
}

// same value, including the sign of zero; any NaN is the same as any other
template <typename T>
bool eq(T const a, T const b) {
  if constexpr (std::is_floating_point_v<T>) {
    return std::isnan(a) || std::isnan(b) ? std::isnan(a) && std::isnan(b) : a == b && std::signbit(a) == std::signbit(b);
  } else {
    return a == b;
  }
}

template <typename T>
std::string show(T const t) { return std::to_string(t); }

// result on the underlying type, nothing if the operation is undefined there
template <typename T>
std::optional<T> ref_op(unsigned const op, T const a, T const b) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (op) {
      case 0: return a + b;
      case 1: return a - b;
      case 2: return a * b;
      default: return b == T{0} ? std::nullopt : std::optional{a / b};  // division by zero: undefined
    }
  } else {
    using P = decltype(a + b);  // promoted
    auto r = P{};
    switch (op) {
      case 0: if (__builtin_add_overflow(P{a}, P{b}, &r) && std::is_signed_v<P>) { return std::nullopt; } break;
      case 1: if (__builtin_sub_overflow(P{a}, P{b}, &r) && std::is_signed_v<P>) { return std::nullopt; } break;
      case 2: if (__builtin_mul_overflow(P{a}, P{b}, &r) && std::is_signed_v<P>) { return std::nullopt; } break;
      default:
        if (b == T{0} || (std::is_signed_v<P> && P{a} == std::numeric_limits<P>::min() && P{b} == P(-1))) {
          return std::nullopt;
        }
        r = P{a} / P{b};
    }
    return static_cast<T>(r);
  }
}

template <typename T>
std::optional<T> ref_shift(bool const left, T const a, T const n) {
  using P = decltype(a + a);
  if (n < T{0} || static_cast<std::uint64_t>(n) >= sizeof(P) * 8U) { return std::nullopt; }
  auto const s = static_cast<unsigned>(n);
  if (!left) { return static_cast<T>(P{a} >> s); }
  if (std::is_signed_v<P>) {
    if (a < T{0}) { return std::nullopt; }
    if ((static_cast<unsigned __int128>(a) << s) > static_cast<unsigned __int128>(std::numeric_limits<P>::max())) { return std::nullopt; }
  }
  return static_cast<T>(P{a} << s);
}

#define SAME(EXPR, WANT)                                                                              \
  do {                                                                                                \
    auto const got_ = (EXPR);                                                                         \
    static_assert(std::is_same_v<std::decay_t<decltype(got_)>, S>, "result is of the strong type");   \
    PBT_CHECK(eq<T>(got_.v_, (WANT)), "%s: a=%s b=%s gives %s instead of %s", #EXPR, show(a).c_str(), show(b).c_str(), \
              show(got_.v_).c_str(), show(static_cast<T>(WANT)).c_str());                             \
  } while (false)

template <typename T>
void arithmetic_case(Ctx& c) {
  using S = st<T>;
  auto const a = operand<T>(c);
  auto const b = c.chance(1, 8) ? a : operand<T>(c);
  auto const sa = S{a};
  auto const sb = S{b};
  c.log("%zu bytes, a=%s b=%s", sizeof(T), show(a).c_str(), show(b).c_str());
  auto const op = c.u(3);
  if (auto const r = ref_op(op, a, b); r.has_value()) {
    switch (op) {
      case 0: {
        SAME(sa + sb, *r); SAME(sa + b, *r);
        auto x = sa;
        auto& ref = (x += b);
        PBT_CHECK(&ref == &x, "+= returns another object");
        SAME(x, *r);
        break;
      }
      case 1: {
        SAME(sa - sb, *r); SAME(sa - b, *r);
        auto x = sa;
        auto& ref = (x -= b);
        PBT_CHECK(&ref == &x, "-= returns another object");
        SAME(x, *r);
        break;
      }
      case 2: SAME(sa * sb, *r); SAME(sa * b, *r); break;
      default: SAME(sa / sb, *r); SAME(sa / b, *r); break;
    }
    c.nontrivial_if(a != T{0} && b != T{0});
  }
  // operands are not changed
  PBT_CHECK(eq(sa.v_, a) && eq(sb.v_, b), "operand changed");

  // increment, decrement
  auto const inc = ref_op(0U, a, T{1});
  if (inc.has_value()) {
    auto x = sa;
    auto& ref = ++x;
    PBT_CHECK(&ref == &x, "++ returns another object");
    SAME(x, *inc);
    auto y = sa;
    SAME(y++, a);
    SAME(y, *inc);
  }
  auto const dec = ref_op(1U, a, T{1});
  if (dec.has_value()) {
    auto x = sa;
    auto& ref = --x;
    PBT_CHECK(&ref == &x, "-- returns another object");
    SAME(x, *dec);
    auto y = sa;
    SAME(y--, a);
    SAME(y, *dec);
  }
}

template <typename T>
void bits_case(Ctx& c) {
  using S = st<T>;
  auto const a = operand<T>(c);
  auto b = operand<T>(c);
  auto const sa = S{a};
  c.log("%zu bytes, a=%s b=%s", sizeof(T), show(a).c_str(), show(b).c_str());
  {
    auto x = sa;
    auto& ref = (x |= S{b});
    PBT_CHECK(&ref == &x, "|= returns another object");
    SAME(x, static_cast<T>(a | b));
    auto y = sa;
    auto& ref2 = (y &= S{b});
    PBT_CHECK(&ref2 == &y, "&= returns another object");
    SAME(y, static_cast<T>(a & b));
  }
  b = static_cast<T>(c.u(static_cast<unsigned>(std::max(sizeof(T), sizeof(int)) * 8U - 1U)));
  auto const sb = S{b};
  if (auto const r = ref_shift(true, a, b); r.has_value()) {
    SAME(sa << b, *r); SAME(sa << sb, *r);
    c.nontrivial_if(a != T{0});
  }
  if (auto const r = ref_shift(false, a, b); r.has_value()) {
    SAME(sa >> b, *r); SAME(sa >> sb, *r);
    c.nontrivial_if(a != T{0});
  }
  PBT_CHECK(eq(sa.v_, a) && eq(sb.v_, b), "operand changed");
}

template <typename T>
void compare_case(Ctx& c) {
  using S = st<T>;
  auto const a = operand<T>(c);
  auto const b = c.chance(1, 3) ? a : c.chance(1, 3) && a != std::numeric_limits<T>::max() ? static_cast<T>(a + T{1}) : operand<T>(c);
  auto const sa = S{a};
  auto const sb = S{b};
  c.log("%zu bytes, a=%s b=%s", sizeof(T), show(a).c_str(), show(b).c_str());
#define CMP(OP) \
  PBT_CHECK((sa OP sb) == (a OP b), "a " #OP " b: %s, %s", show(a).c_str(), show(b).c_str()); \
  PBT_CHECK((sa OP b) == (a OP b), "a " #OP " plain b: %s, %s", show(a).c_str(), show(b).c_str())
  CMP(==); CMP(!=); CMP(<); CMP(<=); CMP(>); CMP(>=);
#undef CMP
  PBT_EQ(std::hash<S>{}(sa), std::hash<T>{}(a));
  // cista::hashing prefers std::hash, i.e. it is a function of the value (but
  // not the one of the plain type)
  auto const seed = c.num<std::uint64_t>();
  PBT_EQ(cista::hashing<S>{}(sa, seed), cista::hashing<S>{}(S{a}, seed));
  if (a == b) { PBT_EQ(cista::hashing<S>{}(sa, seed), cista::hashing<S>{}(sb, seed)); }
  if constexpr (std::is_integral_v<T>) {
    if (a != b) { PBT_CHECK(cista::hashing<S>{}(sa) != cista::hashing<S>{}(sb) || sizeof(T) == 8U || a < T{0} || b < T{0}, "%s and %s collide", show(a).c_str(), show(b).c_str()); }
  }
  // printing
  std::ostringstream os, ot;
  if (c.flip()) { os << std::hex; ot << std::hex; }
  if (c.flip()) { os << std::showbase; ot << std::showbase; }
  auto const w = static_cast<int>(c.u(20));
  os << std::setw(w) << std::setfill('*') << sa << "|" << sb;
  ot << std::setw(w) << std::setfill('*') << a << "|" << b;
  PBT_CHECK(os.str() == ot.str(), "prints '%s' instead of '%s'", os.str().c_str(), ot.str().c_str());
#if defined(CISTA_FMT)
  std::ostringstream of;
  of << a;
  PBT_EQ(fmt::format("{}", sa), of.str());
  PBT_EQ(fmt::format("{0:*^14}|{0:<3}|{0}", sa), fmt::format("{0:*^14}|{0:<3}|{0}", of.str()));
  PBT_EQ(fmt::format("{:.2}", sa), fmt::format("{:.2}", of.str()));
#endif
  // limits, invalid
  PBT_CHECK(std::numeric_limits<S>::min().v_ == std::numeric_limits<T>::min(), "min");
  PBT_CHECK(std::numeric_limits<S>::max().v_ == std::numeric_limits<T>::max(), "max");
  PBT_CHECK(std::numeric_limits<S>::is_integer == std::numeric_limits<T>::is_integer, "is_integer");
  auto const is_max = a == std::numeric_limits<T>::max();
  PBT_CHECK((sa == S::invalid()) == is_max, "%s and invalid: equal", show(a).c_str());
  PBT_CHECK((sa != S::invalid()) == !is_max, "%s and invalid: different", show(a).c_str());
  c.nontrivial_if(a != b);
}

template <typename T, typename X>
void convert_from(Ctx& c) {
  using S = st<T>;
  auto x = operand<X>(c);
  if constexpr (std::is_floating_point_v<T>) {
    (void)x;
  } else {
    auto const want = static_cast<T>(x);
    auto const from_const = S{static_cast<X const&>(x)};
    auto const from_lvalue = S{x};
    auto const from_temporary = S{static_cast<X>(x)};
    PBT_CHECK(from_const.v_ == want && from_lvalue.v_ == want && from_temporary.v_ == want,
              "construction from %s gives %s", show(x).c_str(), show(from_lvalue.v_).c_str());
  }
}

template <typename T>
void convert_case(Ctx& c) {
  using S = st<T>;
  auto const a = operand<T>(c);
  auto b = a;
  auto const s = S{a};
  auto const s2 = S{b};
  auto const s3 = S{std::move(b)};
  PBT_CHECK(eq(s.v_, a) && eq(s2.v_, a) && eq(s3.v_, a), "construction");
  PBT_CHECK(eq(static_cast<T>(s), a) && eq(static_cast<T const&>(s), a), "conversion");
  PBT_CHECK(&static_cast<T const&>(s) == &s.v_, "conversion refers to a copy");
  PBT_CHECK(eq(cista::to_idx(s), a) && eq(cista::to_idx(a), a), "to_idx");
  static_assert(std::is_same_v<decltype(cista::to_idx(s)), T> && std::is_same_v<decltype(cista::to_idx(a)), T>);
  static_assert(std::is_same_v<cista::base_t<S>, T> && std::is_same_v<cista::base_t<T>, T>);
  static_assert(std::is_same_v<typename S::value_t, T>);
  static_assert(cista::is_strong_v<S> && !cista::is_strong_v<T>);
  static_assert(sizeof(S) == sizeof(T) && alignof(S) == alignof(T) && std::is_trivially_copyable_v<S>);
  // no implicit mixing with other strong types or plain values
  using other = cista::strong<T, struct other_tag>;
  static_assert(!std::is_convertible_v<T, S> && !std::is_convertible_v<S, T> && !std::is_convertible_v<other, S>);
  auto copy = s;
  auto mcopy = S{};
  mcopy = copy;
  auto x = S{copy};  // from a non-const object
  auto y = S{std::move(copy)};
  PBT_CHECK(eq(mcopy.v_, a) && eq(x.v_, a) && eq(y.v_, a), "copies");
  x = S{operand<T>(c)};
  x = std::move(y);
  PBT_CHECK(eq(x.v_, a), "assignment");
  PBT_CHECK(S{}.v_ == T{}, "value initialization");
  convert_from<T, std::uint8_t>(c); convert_from<T, std::int8_t>(c);
  convert_from<T, std::int16_t>(c); convert_from<T, std::uint16_t>(c);
  convert_from<T, std::int32_t>(c); convert_from<T, std::uint32_t>(c);
  convert_from<T, std::int64_t>(c); convert_from<T, std::uint64_t>(c);
  c.nontrivial_if(a != T{});
}

template <typename T>
void constexpr_checks() {
  using S = st<T>;
  static_assert((S{T{3}} + S{T{4}}).v_ == T{7} && (S{T{9}} - T{4}).v_ == T{5} && S{T{3}} < S{T{4}} && S::invalid().v_ == std::numeric_limits<T>::max());
  static_assert((S{T{3}} << T{2}).v_ == T{12} && (S{T{12}} >> S{T{2}}).v_ == T{3});
}

template <typename T>
void integers(Ctx& c) {
  constexpr_checks<T>();
  switch (c.u(3)) {
    case 0: arithmetic_case<T>(c); break;
    case 1: bits_case<T>(c); break;
    case 2: compare_case<T>(c); break;
    default: convert_case<T>(c); break;
  }
}
template <typename T>
void floats(Ctx& c) {
  switch (c.u(2)) {
    case 0: arithmetic_case<T>(c); break;
    case 1: compare_case<T>(c); break;
    default: convert_case<T>(c); break;
  }
}

void values(Ctx& c) {
  for (auto i = 0; i != 6; ++i) {
    switch (c.u(10)) {
      case 0: integers<std::uint8_t>(c); break;
      case 1: integers<std::int8_t>(c); break;
      case 2: integers<std::uint16_t>(c); break;
      case 3: integers<std::int16_t>(c); break;
      case 4: integers<std::uint32_t>(c); break;
      case 5: integers<std::int32_t>(c); break;
      case 6: integers<std::uint64_t>(c); break;
      case 7: integers<std::int64_t>(c); break;
      case 8: floats<float>(c); break;
      case 9: floats<double>(c); break;
      default: integers<unsigned long long>(c); break;
    }
  }
}

// --- as index and key -------------------------------------------------
template <typename T, template <typename, typename> class VM, template <typename, typename> class HM, template <typename> class HS>
void keys_case(Ctx& c) {
  using S = st<T>;
  VM<S, std::uint32_t> v;
  std::vector<std::uint32_t> rv;
  HM<S, int> hm;
  HS<S> hs;
  std::map<T, int> rm;
  std::set<T> rs;
  std::map<S, int> om;
  std::unordered_map<S, int> um;
  auto const max = static_cast<std::size_t>(std::min<std::uint64_t>(100U, static_cast<std::uint64_t>(std::numeric_limits<T>::max())));
  while (c.more(24)) {
    auto const k = c.chance(1, 2) ? static_cast<T>(c.u(12)) : operand<T>(c);
    switch (c.u(7)) {
      case 0: case 1:
        if (rv.size() < max) { auto const x = c.num<std::uint32_t>(); v.push_back(x); rv.push_back(x); }
        break;
      case 2: if (!rv.empty()) { auto const i = c.idx(rv.size()); auto const x = c.num<std::uint32_t>(); v[S{i}] = x; rv[i] = x; } break;
      case 3: { auto const x = static_cast<int>(c.u(1000)); hm[S{k}] = x; rm[k] = x; om[S{k}] = x; um[S{k}] = x; break; }
      case 4: hm.erase(S{k}); rm.erase(k); om.erase(S{k}); um.erase(S{k}); break;
      case 5: PBT_EQ(hs.emplace(S{k}).second, rs.insert(k).second); break;
      case 6: PBT_EQ(static_cast<std::size_t>(hs.erase(S{k})), rs.erase(k)); break;
      default: if (!rv.empty()) { auto const n = c.idx(max); v.resize(static_cast<decltype(v.size())>(n)); rv.resize(n); } break;
    }
    PBT_EQ(static_cast<std::size_t>(v.size()), rv.size());
    for (auto i = std::size_t{0U}; i != rv.size(); ++i) {
      auto const& cv = v;
      PBT_EQ(v[S{i}], rv[i]);
      PBT_EQ(cv[S{i}], rv[i]);
      PBT_EQ(v.at(S{i}), rv[i]);
    }
    PBT_EQ(static_cast<std::size_t>(hm.size()), rm.size());
    for (auto const& [key, val] : rm) {
      auto const it = hm.find(S{key});
      PBT_CHECK(it != hm.end() && it->second == val && it->first == S{key}, "key %s", show(key).c_str());
      PBT_EQ(hm.at(S{key}), val);
      PBT_EQ(um.at(S{key}), val);
    }
    PBT_EQ(hm.find(S{k}) != hm.end(), rm.count(k) != 0U);
    PBT_EQ(hs.find(S{k}) != hs.end(), rs.count(k) != 0U);
    PBT_CHECK(om.size() == rm.size() && std::equal(om.begin(), om.end(), rm.begin(), [](auto&& a, auto&& b) {
      return a.first.v_ == b.first && a.second == b.second;
    }), "order of strong keys");
  }
  c.nontrivial_if(rv.size() > 1U && !rm.empty());
}

template <typename K, typename V> using rvm = cista::raw::vector_map<K, V>;
template <typename K, typename V> using ovm = cista::offset::vector_map<K, V>;
template <typename K, typename V> using rhm = cista::raw::hash_map<K, V>;
template <typename K, typename V> using ohm = cista::offset::hash_map<K, V>;
template <typename K> using rhs = cista::raw::hash_set<K>;
template <typename K> using ohs = cista::offset::hash_set<K>;

void keys(Ctx& c) {
  switch (c.u(6)) {
    case 0: keys_case<std::uint8_t, rvm, rhm, rhs>(c); break;
    case 1: keys_case<std::uint16_t, ovm, ohm, ohs>(c); break;
    case 2: keys_case<std::uint32_t, rvm, rhm, rhs>(c); break;
    case 3: keys_case<std::uint64_t, ovm, ohm, ohs>(c); break;
    case 4: keys_case<std::int32_t, ovm, rhm, ohs>(c); break;
    case 5: keys_case<std::int64_t, rvm, ohm, rhs>(c); break;
    default: keys_case<std::uint32_t, ovm, ohm, ohs>(c); break;
  }
}

// --- serialized as the underlying value --------------------------------
template <template <typename> class W, template <typename> class Vec>
struct rec {
  W<std::uint8_t> a_{};
  W<std::int32_t> b_{};
  W<std::uint64_t> c_{};
  Vec<W<std::uint16_t>> d_;
  W<std::int16_t> e_{};
  Vec<Vec<W<std::int64_t>>> f_;
  cista::pair<W<std::uint32_t>, W<std::int8_t>> g_{};
};
template <typename T> using plain = T;

template <cista::mode M, template <typename> class Vec>
void serialize_case(Ctx& c) {
  using S = rec<st, Vec>;
  using P = rec<plain, Vec>;
  S s;
  P p;
  auto const set = [&](auto& x, auto& y) {
    y = operand<std::decay_t<decltype(y)>>(c);
    x = std::decay_t<decltype(x)>{y};
  };
  set(s.a_, p.a_); set(s.b_, p.b_); set(s.c_, p.c_); set(s.e_, p.e_); set(s.g_.first, p.g_.first); set(s.g_.second, p.g_.second);
  for (auto n = c.u(5); n != 0U; --n) { s.d_.emplace_back(); p.d_.emplace_back(); set(s.d_.back(), p.d_.back()); }
  for (auto n = c.u(3); n != 0U; --n) {
    s.f_.emplace_back(); p.f_.emplace_back();
    for (auto k = c.u(3); k != 0U; --k) {
      s.f_.back().emplace_back(); p.f_.back().emplace_back();
      set(s.f_.back().back(), p.f_.back().back());
    }
  }
  auto sb = cista::serialize<M>(s);
  auto pb = cista::serialize<M>(p);
  PBT_EQ(sb.size(), pb.size());
  auto const same = [](auto const& x, auto const& y) {  // strong, plain
    if (x.a_.v_ != y.a_ || x.b_.v_ != y.b_ || x.c_.v_ != y.c_ || x.e_.v_ != y.e_ || x.g_.first.v_ != y.g_.first ||
        x.g_.second.v_ != y.g_.second || x.d_.size() != y.d_.size() || x.f_.size() != y.f_.size()) { return false; }
    for (auto i = 0U; i != x.d_.size(); ++i) { if (x.d_[i].v_ != y.d_[i]) { return false; } }
    for (auto i = 0U; i != x.f_.size(); ++i) {
      if (x.f_[i].size() != y.f_[i].size()) { return false; }
      for (auto k = 0U; k != x.f_[i].size(); ++k) { if (x.f_[i][k].v_ != y.f_[i][k]) { return false; } }
    }
    return true;
  };
  // each can be read as the other one
  auto sb2 = pb;
  auto pb2 = sb;
  PBT_CHECK(same(*cista::deserialize<S, M>(sb), *cista::deserialize<P, M>(pb2)), "read as plain type");
  PBT_CHECK(same(*cista::deserialize<S, M>(sb2), *cista::deserialize<P, M>(pb)), "read as strong type");
  c.nontrivial_if(!s.d_.empty() && !s.f_.empty());
}

template <template <typename> class Vec>
void serialize_modes(Ctx& c) {
  using cista::mode;
  switch (c.u(3)) {
    case 0: serialize_case<mode::NONE, Vec>(c); break;
    case 1: serialize_case<mode::WITH_INTEGRITY, Vec>(c); break;
    case 2: serialize_case<mode::SERIALIZE_BIG_ENDIAN, Vec>(c); break;
    default: serialize_case<mode::SERIALIZE_BIG_ENDIAN | mode::WITH_INTEGRITY | mode::DEEP_CHECK, Vec>(c); break;
  }
}
template <typename K> using rv = cista::raw::vector<K>;
template <typename K> using ov = cista::offset::vector<K>;
void serialized(Ctx& c) {
  if (c.flip()) { serialize_modes<rv>(c); } else { serialize_modes<ov>(c); }
}

PBT_REG(values, "values", values, 60000, 3000000)
PBT_REG(keys, "keys", keys, 4000, 150000)
PBT_REG(serialized, "serialized", serialized, 4000, 150000)

}  // namespace
