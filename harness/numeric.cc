// C24: bit counting, rounding, byte swapping, chunking, aligned memory and
// unaligned reads against bit-by-bit / byte-by-byte definitions.
#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "cista/aligned_alloc.h"
#include "cista/aligned_allocator.h"
#include "cista/bit_counting.h"
#include "cista/chunk.h"
#include "cista/containers.h"
#include "cista/endian/conversion.h"
#include "cista/next_power_of_2.h"
#include "cista/serialization.h"

#include "pbt.h"

namespace {

using pbt::Ctx;

// operands: sparse, dense, contiguous runs, neighbours of powers of two
template <typename T>
T operand(Ctx& c) {
  auto const W = static_cast<unsigned>(sizeof(T) * 8U);
  auto const bit = [&] { return static_cast<T>(T{1} << c.u(W - 1U)); };
  switch (c.u(5)) {
    case 0: return bit();
    case 1: return static_cast<T>(bit() | bit());
    case 2: return static_cast<T>(bit() - T{1});
    case 3: return static_cast<T>(~bit());
    case 4: return static_cast<T>(static_cast<T>(~T{0}) << c.u(W - 1U));
    default: return c.num<T>();
  }
}

template <typename T>
unsigned width() { return static_cast<unsigned>(sizeof(T) * 8U); }
template <typename T>
bool bit_at(T const t, unsigned const i) { return ((static_cast<std::uint64_t>(t) >> i) & 1U) != 0U; }
template <typename T>
unsigned ref_tz(T const t) {
  auto i = 0U;
  while (i != width<T>() && !bit_at(t, i)) { ++i; }
  return i;
}
template <typename T>
unsigned ref_lz(T const t) {
  auto i = 0U;
  while (i != width<T>() && !bit_at(t, width<T>() - 1U - i)) { ++i; }
  return i;
}

template <typename T>
void check_counts(Ctx& c) {
  auto const t = operand<T>(c);
  c.log("u%u %llx", width<T>(), static_cast<unsigned long long>(t));
  if (t != 0U) {
    PBT_EQ(cista::constexpr_trailing_zeros(t), ref_tz(t));
    c.nontrivial();
  }
  if constexpr (sizeof(T) >= 4U) {
    PBT_EQ(cista::trailing_zeros(t), ref_tz(t));
    PBT_EQ(cista::leading_zeros(t), ref_lz(t));
  }
  auto n = std::size_t{0U};
  for (auto i = 0U; i != width<T>(); ++i) { n += bit_at(t, i); }
  PBT_EQ(cista::popcount(t), n);
  auto const half = static_cast<T>(T{1} << (width<T>() - 1U));
  auto const p = static_cast<T>(t > half ? t & static_cast<T>(half - T{1}) : t);
  if (p != 0U) {
    auto want = std::uint64_t{1U};
    while (want < p) { want *= 2U; }
    PBT_EQ(static_cast<std::uint64_t>(cista::next_power_of_two(p)), want);
  }
}

void counts(Ctx& c) {
  for (auto i = 0; i != 8; ++i) {
    switch (c.u(3)) {
      case 0: check_counts<std::uint8_t>(c); break;
      case 1: check_counts<std::uint16_t>(c); break;
      case 2: check_counts<std::uint32_t>(c); break;
      default: check_counts<std::uint64_t>(c); break;
    }
  }
}

template <typename A, typename B>
void check_multiple(Ctx& c) {
  // the result has to be representable
  auto const m = static_cast<B>(std::max<B>(B{1}, static_cast<B>(operand<B>(c) >> c.u(width<B>() - 1U))));
  auto const n = operand<A>(c);
  auto const max = static_cast<unsigned __int128>(std::numeric_limits<A>::max());
  auto want = static_cast<unsigned __int128>(n) / m * m;
  if (want < n) { want += m; }
  if (want > max || static_cast<unsigned __int128>(n) + m > std::numeric_limits<std::common_type_t<A, B, unsigned>>::max()) {
    return;
  }
  c.log("to_next_multiple(%llu,%llu)", static_cast<unsigned long long>(n), static_cast<unsigned long long>(m));
  auto const got = cista::to_next_multiple(n, m);
  PBT_CHECK(got == static_cast<A>(want), "got %llu want %llu", static_cast<unsigned long long>(got),
            static_cast<unsigned long long>(want));
  c.nontrivial_if(n % m != 0U);
}

void multiples(Ctx& c) {
  for (auto i = 0; i != 8; ++i) {
    switch (c.u(4)) {
      case 0: check_multiple<std::uint32_t, std::uint32_t>(c); break;
      case 1: check_multiple<std::uint64_t, std::uint64_t>(c); break;
      case 2: check_multiple<std::uint64_t, std::uint32_t>(c); break;
      case 3: check_multiple<std::uint32_t, std::uint64_t>(c); break;
      default: check_multiple<std::size_t, std::uint16_t>(c); break;
    }
  }
}

// --- byte order -------------------------------------------------------
struct s1 { std::uint8_t a_; };
struct s2 { std::uint8_t a_, b_; };
struct s4 { std::uint16_t a_; std::uint8_t b_, c_; };
struct s8 { std::uint32_t a_; std::uint16_t b_; std::uint8_t c_, d_; };
enum class e1 : std::uint8_t {};
enum class e2 : std::int16_t {};
enum class e4 : std::uint32_t {};
enum class e8 : std::int64_t {};

template <typename T>
void check_swap(Ctx& c) {
  std::array<unsigned char, sizeof(T)> in{}, want{}, got{};
  for (auto& b : in) { b = static_cast<unsigned char>(c.u(255)); }
  if (std::is_floating_point_v<T>) {
    // quiet a signalling pattern: passing one by value may change it
    in[sizeof(T) - 1U] = static_cast<unsigned char>(in[sizeof(T) - 1U] & 0x3FU);
    in[0] = static_cast<unsigned char>(in[0] & 0x3FU);
  }
  T t;
  std::memcpy(static_cast<void*>(&t), in.data(), sizeof(T));
  std::reverse_copy(in.begin(), in.end(), want.begin());
  auto const s = cista::endian_swap(t);
  std::memcpy(got.data(), &s, sizeof(T));
  PBT_CHECK(got == want, "swapping %zu bytes", sizeof(T));
  auto const back = cista::endian_swap(s);
  PBT_CHECK(std::memcmp(&back, in.data(), sizeof(T)) == 0, "swapping %zu bytes twice", sizeof(T));
  auto const be = cista::convert_endian<cista::mode::SERIALIZE_BIG_ENDIAN>(t);
  PBT_CHECK(std::memcmp(&be, want.data(), sizeof(T)) == 0, "big endian, %zu bytes", sizeof(T));
  auto const le = cista::convert_endian<cista::mode::NONE>(t);
  PBT_CHECK(std::memcmp(&le, in.data(), sizeof(T)) == 0, "little endian, %zu bytes", sizeof(T));
  auto const be2 = cista::convert_endian<cista::mode::SERIALIZE_BIG_ENDIAN | cista::mode::WITH_INTEGRITY |
                                         cista::mode::WITH_VERSION>(t);
  PBT_CHECK(std::memcmp(&be2, want.data(), sizeof(T)) == 0, "big endian combined, %zu bytes", sizeof(T));
  c.nontrivial_if(sizeof(T) > 1U && in != want);
}

void byte_order(Ctx& c) {
  for (auto i = 0; i != 6; ++i) {
    switch (c.u(17)) {
      case 0: check_swap<std::uint8_t>(c); break;
      case 1: check_swap<std::int8_t>(c); break;
      case 2: check_swap<std::uint16_t>(c); break;
      case 3: check_swap<std::int16_t>(c); break;
      case 4: check_swap<std::uint32_t>(c); break;
      case 5: check_swap<std::int32_t>(c); break;
      case 6: check_swap<std::uint64_t>(c); break;
      case 7: check_swap<std::int64_t>(c); break;
      case 8: check_swap<float>(c); break;
      case 9: check_swap<double>(c); break;
      case 10: check_swap<s1>(c); break;
      case 11: check_swap<s2>(c); break;
      case 12: check_swap<s4>(c); break;
      case 13: check_swap<s8>(c); break;
      case 14: check_swap<e2>(c); break;
      case 15: check_swap<e4>(c); break;
      case 16: check_swap<e8>(c); break;
      default: check_swap<e1>(c); check_swap<char16_t>(c); check_swap<char32_t>(c); break;
    }
  }
}

// --- chunks -----------------------------------------------------------
void chunks(Ctx& c) {
  auto const size = static_cast<unsigned>(
      c.chance(1, 4) ? 1U + c.u(16) : std::max<std::uint32_t>(1U, operand<std::uint32_t>(c)));
  auto total = std::uint64_t{0U};
  switch (c.u(3)) {
    case 0: total = c.u(4) * std::uint64_t{size}; break;  // multiples
    case 1: total = c.u(1000) * std::uint64_t{size} + c.u(2); break;
    case 2: total = operand<std::uint64_t>(c) >> c.u(63); break;
    default: total = c.u(300); break;
  }
  total = std::min(total, std::uint64_t{size} * 1000U);
  c.log("chunk(%u, %llu)", size, static_cast<unsigned long long>(total));
  auto expected = std::uint64_t{0U};
  auto calls = 0U;
  cista::chunk(size, static_cast<std::size_t>(total), [&](auto const from, auto const n) {
    PBT_CHECK(static_cast<std::uint64_t>(from) == expected, "chunk %u starts at %llu instead of %llu", calls,
              static_cast<unsigned long long>(from), static_cast<unsigned long long>(expected));
    PBT_CHECK(n != 0U && n <= size, "chunk %u has size %llu", calls, static_cast<unsigned long long>(n));
    expected += n;
    PBT_CHECK(expected <= total, "chunk %u exceeds the range", calls);
    ++calls;
  });
  PBT_CHECK(expected == total, "covered %llu", static_cast<unsigned long long>(expected));
  PBT_EQ(static_cast<std::uint64_t>(calls), (total + size - 1U) / size);
  c.nontrivial_if(calls > 1U);
}

// --- aligned memory ---------------------------------------------------
void aligned_memory(Ctx& c) {
  struct block { unsigned char* p_; std::size_t a_, n_; unsigned char v_; };
  std::vector<block> live;
  auto const verify_block = [](block const& b) {
    for (auto i = std::size_t{0U}; i != b.n_; ++i) {
      PBT_CHECK(b.p_[i] == b.v_, "byte %zu of %zu changed", i, b.n_);
    }
  };
  auto steps = 0U;
  while (c.more(16)) {
    if (!live.empty() && c.chance(1, 3)) {
      auto const i = c.idx(live.size());
      verify_block(live[i]);
      CISTA_ALIGNED_FREE(live[i].a_, live[i].p_);
      live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
      continue;
    }
    auto const a = c.chance(2, 3) ? std::size_t{1U} << c.u(12) : std::size_t{1U} + c.u(300);
    auto const n = c.chance(1, 2) ? 1U + c.u(64) : 1U + c.u(5000);
    auto want_align = std::size_t{1U};
    while (want_align < a) { want_align *= 2U; }
    c.log("alloc align=%zu size=%zu", a, static_cast<std::size_t>(n));
    auto const p = static_cast<unsigned char*>(CISTA_ALIGNED_ALLOC(a, static_cast<std::size_t>(n)));
    PBT_CHECK(p != nullptr, "no memory");
    auto const b = block{p, a, static_cast<std::size_t>(n), static_cast<unsigned char>(c.u(255))};
    auto const mis = reinterpret_cast<std::uintptr_t>(p) % want_align;
    std::memset(p, b.v_, b.n_);
    live.push_back(b);
    PBT_CHECK(mis == 0U, "misaligned by %zu", static_cast<std::size_t>(mis));
    ++steps;
  }
  for (auto const& b : live) { verify_block(b); }
  for (auto const& b : live) { CISTA_ALIGNED_FREE(b.a_, b.p_); }
  c.nontrivial_if(steps > 1U);
}

template <typename T, std::size_t N>
void allocator_case(Ctx& c) {
  using alloc_t = cista::aligned_allocator<T, N>;
  std::vector<T, alloc_t> v;
  std::vector<T> ref;
  using big = cista::aligned_allocator<T, N>;
  auto const val = [&] {
    if constexpr (std::is_same_v<T, std::string>) { return c.str(30, true); } else { return static_cast<T>(c.num<std::uint16_t>()); }
  };
  auto const same = [&] {
    PBT_EQ(v.size(), ref.size());
    PBT_CHECK(std::equal(v.begin(), v.end(), ref.begin()), "contents differ");
    PBT_CHECK(v.capacity() == 0U || reinterpret_cast<std::uintptr_t>(v.data()) % N == 0U, "data misaligned (%zu)", N);
  };
  while (c.more(16)) {
    switch (c.u(6)) {
      case 0: case 1: { auto const x = val(); v.push_back(x); ref.push_back(x); break; }
      case 2: { auto const n = c.u(100); v.resize(n); ref.resize(n); break; }
      case 3: v.shrink_to_fit(); break;
      case 4: { auto w = v; v = std::move(w); break; }
      case 5: { std::vector<T, alloc_t> w; std::swap(v, w); v = w; v = std::vector<T, alloc_t>(ref.begin(), ref.end()); break; }
      default: if (!ref.empty()) { auto const i = static_cast<std::ptrdiff_t>(c.idx(ref.size())); v.erase(v.begin() + i); ref.erase(ref.begin() + i); } break;
    }
    same();
  }
  // node based container: rebinding
  std::list<T, alloc_t> l;
  for (auto const& x : ref) {
    l.push_back(x);
    PBT_CHECK(reinterpret_cast<std::uintptr_t>(&l.back()) % alignof(T) == 0U, "node misaligned");
  }
  PBT_CHECK(std::equal(l.begin(), l.end(), ref.begin(), ref.end()), "list differs");
  std::map<T, int, std::less<>, typename alloc_t::template rebind<std::pair<T const, int>>::other> m;
  std::map<T, int> rm;
  for (auto const& x : ref) { ++m[x]; ++rm[x]; }
  PBT_CHECK(std::equal(m.begin(), m.end(), rm.begin(), rm.end()), "map differs");

  alloc_t const a{typename alloc_t::template rebind<char>::other{}};
  PBT_CHECK(a == alloc_t{} && !(a != alloc_t{}), "allocators differ");
  // raw use: all of the requested memory can be used, sizes that cannot be
  // represented are rejected
  auto const n = 1U + c.u(40);
  auto const p = a.allocate(n);
  auto const ok = reinterpret_cast<std::uintptr_t>(p) % N == 0U;
  std::memset(static_cast<void*>(p), 0xA5, n * sizeof(T));
  a.deallocate(p, n);
  PBT_CHECK(ok, "allocate: misaligned");
  if (sizeof(T) > 1U) {
    auto const limit = std::numeric_limits<std::size_t>::max() / sizeof(T);
    auto const huge = limit + 1U + static_cast<std::size_t>(c.u(1000));
    c.log("allocate(%zu) of %zu", huge, sizeof(T));
    auto thrown = false;
    T* q = nullptr;
    try { q = a.allocate(huge); } catch (std::bad_alloc const&) { thrown = true; }
    if (q != nullptr) { a.deallocate(q, huge); }
    PBT_CHECK(thrown, "allocating %zu elements of size %zu succeeded", huge, sizeof(T));
  }
  c.nontrivial_if(!ref.empty());
  static_assert(std::is_same_v<big, alloc_t>);
}

void allocators(Ctx& c) {
  switch (c.u(7)) {
    case 0: allocator_case<char, 16>(c); break;
    case 1: allocator_case<std::uint32_t, 16>(c); break;
    case 2: allocator_case<std::uint64_t, 64>(c); break;
    case 3: allocator_case<std::string, 16>(c); break;
    case 4: allocator_case<std::string, 128>(c); break;
    case 5: allocator_case<std::uint16_t, 4096>(c); break;
    case 6: allocator_case<double, 32>(c); break;
    default: allocator_case<std::uint8_t, 64>(c); break;
  }
}

#if defined(NO_SAN)
// more than 4 GB of (untouched) memory
void large_allocation(Ctx& c) {
  auto const bytes = (std::size_t{4U} << 30U) + c.u(1U << 20U);
  std::vector<std::uint64_t, cista::aligned_allocator<std::uint64_t, 64>> v;
  v.reserve(bytes / 8U + 1U);
  PBT_CHECK(v.capacity() * 8U >= bytes, "capacity");
  PBT_CHECK(reinterpret_cast<std::uintptr_t>(v.data()) % 64U == 0U, "misaligned");
  v.push_back(c.num<std::uint64_t>());
  auto const a = cista::aligned_allocator<std::uint64_t, 64>{};
  auto const p = a.allocate(bytes / 8U + 1U);
  p[bytes / 8U] = 7U;  // the last element
  p[0] = v[0];
  PBT_CHECK(p[bytes / 8U] == 7U && p[0] == v[0], "last element");
  a.deallocate(p, bytes / 8U + 1U);
  c.nontrivial();
}
#endif

// --- unaligned reads --------------------------------------------------
struct u1 { std::uint8_t a_{}; };
struct u2 { std::uint32_t a_{}; std::uint16_t b_{}; std::uint8_t c_{}; };
struct u3 { std::uint8_t x_{}; std::uint64_t a_{}; u2 in_{}; double d_{}; std::int16_t e_{}; };
struct u4 { cista::array<std::uint16_t, 5> a_{}; std::int64_t b_{}; e4 e_{}; };
struct u5 {
  std::uint8_t pre_{};
  cista::offset::vector<std::uint32_t> v_;
  cista::offset::string s_;
  cista::offset::vector<cista::offset::string> vs_;
};

void fill(Ctx& c, u1& x) { x.a_ = c.num<std::uint8_t>(); }
void fill(Ctx& c, u2& x) { x.a_ = c.num<std::uint32_t>(); x.b_ = c.num<std::uint16_t>(); x.c_ = c.num<std::uint8_t>(); }
void fill(Ctx& c, u3& x) {
  x.x_ = c.num<std::uint8_t>(); x.a_ = c.num<std::uint64_t>(); fill(c, x.in_);
  x.d_ = c.num<std::int32_t>(); x.e_ = c.num<std::int16_t>();
}
void fill(Ctx& c, u4& x) {
  for (auto& y : x.a_) { y = c.num<std::uint16_t>(); }
  x.b_ = c.num<std::int64_t>(); x.e_ = static_cast<e4>(c.num<std::uint32_t>());
}
void fill(Ctx& c, u5& x) {
  x.pre_ = c.num<std::uint8_t>();
  for (auto n = c.u(6); n != 0U; --n) { x.v_.push_back(c.num<std::uint32_t>()); }
  x.s_ = std::string_view{c.str(40, false)};
  for (auto n = c.u(3); n != 0U; --n) { x.vs_.emplace_back(std::string_view{c.str(30, false)}); }
}
bool eq(u1 const& a, u1 const& b) { return a.a_ == b.a_; }
bool eq(u2 const& a, u2 const& b) { return a.a_ == b.a_ && a.b_ == b.b_ && a.c_ == b.c_; }
bool eq(u3 const& a, u3 const& b) { return a.x_ == b.x_ && a.a_ == b.a_ && eq(a.in_, b.in_) && a.d_ == b.d_ && a.e_ == b.e_; }
bool eq(u4 const& a, u4 const& b) { return std::equal(a.a_.begin(), a.a_.end(), b.a_.begin()) && a.b_ == b.b_ && a.e_ == b.e_; }
bool eq(u5 const& a, u5 const& b) { return a.pre_ == b.pre_ && a.v_ == b.v_ && a.s_ == b.s_ && a.vs_ == b.vs_; }

template <typename T, cista::mode M>
void unaligned_case(Ctx& c) {
  T x;
  fill(c, x);
  auto const bytes = cista::serialize<M>(x);
  auto const off = c.u(64);
  // exactly as much memory as needed, at every offset from an alignment
  // boundary
  auto const mem = std::unique_ptr<unsigned char, decltype(&std::free)>{
      static_cast<unsigned char*>(std::aligned_alloc(64U, (off + bytes.size() + 63U) / 64U * 64U)), &std::free};
  std::memset(mem.get(), 0xEE, off);
  std::memcpy(mem.get() + off, bytes.data(), bytes.size());
  auto const view = std::string_view{reinterpret_cast<char const*>(mem.get()) + off, bytes.size()};
  c.log("offset %u, %zu bytes", static_cast<unsigned>(off), bytes.size());
  for (auto i = 0; i != 2; ++i) {
    auto const y = cista::copy_from_potentially_unaligned<T, M>(view);
    PBT_CHECK(eq(x, y), "value read at offset %u differs", static_cast<unsigned>(off));
    PBT_CHECK(std::memcmp(view.data(), bytes.data(), bytes.size()) == 0, "reading modified the input");
  }
  // a truncated buffer is rejected (or read as the same value if what is
  // missing is not part of the value)
  auto const cut = c.idx(bytes.size());
  if (cut < sizeof(T)) {
    auto const exact = std::unique_ptr<char[]>{new char[cut + 1U]};
    std::memcpy(exact.get(), bytes.data(), cut);
    PBT_THROWS((cista::copy_from_potentially_unaligned<T, M>(std::string_view{exact.get(), cut})));
  }
  c.nontrivial_if(off % alignof(T) != 0U);
}

template <typename T>
void unaligned_modes(Ctx& c) {
  using cista::mode;
  switch (c.u(5)) {
    case 0: unaligned_case<T, mode::NONE>(c); break;
    case 1: unaligned_case<T, mode::WITH_VERSION>(c); break;
    case 2: unaligned_case<T, mode::WITH_INTEGRITY>(c); break;
    case 3: unaligned_case<T, mode::WITH_STATIC_VERSION>(c); break;
    case 4: unaligned_case<T, mode::WITH_VERSION | mode::WITH_INTEGRITY>(c); break;
    default: unaligned_case<T, mode::WITH_STATIC_VERSION | mode::WITH_INTEGRITY | mode::DEEP_CHECK>(c); break;
  }
}

void unaligned(Ctx& c) {
  switch (c.u(4)) {
    case 0: unaligned_modes<u1>(c); break;
    case 1: unaligned_modes<u2>(c); break;
    case 2: unaligned_modes<u3>(c); break;
    case 3: unaligned_modes<u4>(c); break;
    default: unaligned_modes<u5>(c); break;
  }
}

PBT_REG(counts, "counts", counts, 60000, 3000000)
PBT_REG(multiples, "multiples", multiples, 30000, 1500000)
PBT_REG(byte_order, "byte_order", byte_order, 30000, 1500000)
PBT_REG(chunks, "chunks", chunks, 10000, 300000)
PBT_REG(aligned_memory, "aligned_memory", aligned_memory, 6000, 200000)
PBT_REG(allocators, "allocators", allocators, 6000, 200000)
PBT_REG(unaligned, "unaligned", unaligned, 12000, 400000)
#if defined(NO_SAN)
PBT_REG(large_allocation, "large_allocation", large_allocation, 20, 200)
#endif

}  // namespace
