// C01 / C04: serialize + deserialize gives an equal value, for every type of the
// family and every mode combination; the source is unchanged; big-endian data
// is stored in big-endian order.
#include "types.h"

#include "cista/serialization.h"
#ifdef BIG_ENDIAN_CHECK
#include "walk.h"
#endif

using cista::mode;
using pbt::Ctx;

namespace {

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const DC = mode::DEEP_CHECK;
constexpr auto const UN = mode::UNCHECKED;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const SKI = mode::SKIP_INTEGRITY;
constexpr auto const SKV = mode::SKIP_VERSION;

// copy of the bytes at an address aligned to 64, exactly as large as the data,
// so that AddressSanitizer sees any access outside of it
struct exact_buf {
  explicit exact_buf(cista::byte_buf const& b) : n_{b.size()} {
    PBT_CHECK(posix_memalign(&p_, 64, n_ == 0 ? 1 : n_) == 0);
    std::memcpy(p_, b.data(), n_);
  }
  ~exact_buf() { std::free(p_); }
  std::uint8_t* begin() { return static_cast<std::uint8_t*>(p_); }
  std::uint8_t* end() { return begin() + n_; }
  void* p_{nullptr};
  std::size_t n_;
};


#ifdef BIG_ENDIAN_CHECK
std::uint64_t get64(cista::byte_buf const& b, std::size_t at, bool be) {
  std::uint64_t v = 0;
  for (std::size_t i = 0; i != 8; ++i) {
    v |= static_cast<std::uint64_t>(b.at(at + (be ? 7 - i : i))) << (8 * i);
  }
  return v;
}

template <typename T, mode S, mode D>
void check_big_endian(T& value, char const* name) {
  auto constexpr const M = static_cast<mode>(static_cast<unsigned>(S) & ~static_cast<unsigned>(BE));
  auto constexpr const R = static_cast<mode>(static_cast<unsigned>(D) & ~static_cast<unsigned>(BE));
  auto const native = cista::serialize<M>(value);
  auto const big = cista::serialize<S>(value);
  PBT_EQ(native.size(), big.size());
  constexpr auto const has_version =
      cista::is_mode_enabled(S, V) || cista::is_mode_enabled(S, SV);
  if constexpr (has_version) {
    PBT_CHECK(get64(native, 0, false) == get64(big, 0, true),
              "version not stored in big-endian order (%s)", name);
  }
  if constexpr (cista::is_mode_enabled(S, I)) {
    auto const at = has_version ? 8U : 0U;
    auto const sum = [&](cista::byte_buf const& b) {
      return cista::hash(std::string_view{
          reinterpret_cast<char const*>(b.data()) + at + 8, b.size() - at - 8});
    };
    PBT_CHECK(get64(native, at, false) == sum(native), "native checksum");
    PBT_CHECK(get64(big, at, true) == sum(big),
              "checksum not stored in big-endian order (%s)", name);
  }
  exact_buf b{native};
  auto const* d = cista::deserialize<T, R>(b.begin(), b.end());
  struct : wk::visitor {
    void swapped(void const* p, std::size_t n) {
      auto const at = static_cast<std::size_t>(static_cast<std::uint8_t const*>(p) - base_);
      PBT_CHECK(at + n <= native_->size());
      for (std::size_t i = 0; i != n; ++i) {
        PBT_CHECK((*native_)[at + i] == (*big_)[at + n - 1 - i],
                  "%zu byte integer at %zu is not stored in big-endian order", n, at);
      }
    }
    void num(void const* p, std::size_t n, bool is_int) override {
      if (is_int) {
        swapped(p, n);
      }
    }
    void meta(void const* p, std::size_t n, wk::kind k) override {
      if (k == wk::kind::SIZE || k == wk::kind::PTR || k == wk::kind::INDEX) {
        swapped(p, n);
      }
    }
    std::uint8_t const* base_;
    cista::byte_buf const *native_, *big_;
  } f;
  f.base_ = b.begin();
  f.native_ = &native;
  f.big_ = &big;
  wk::walk(*d, f);
}
#endif

template <typename T, mode S, mode D>
void check_mode(Ctx& c, T& value, std::string const& want, char const* name) {
  c.label(name);
  c.log("mode %s", name);
  auto const buf = cista::serialize<S>(value);
  PBT_CHECK(gen::dump_of(value) == want, "source changed by serialize (%s)", name);
#ifdef BIG_ENDIAN_CHECK
  check_big_endian<T, S, D>(value, name);
#endif
  exact_buf b{buf};
  try {
    auto const* d = cista::deserialize<T, D>(b.begin(), b.end());
    auto const got = gen::dump_of(*d);
    if (got != want) {
      PBT_FAIL("round trip in mode %s differs:\n got %.1500s\nwant %.1500s", name,
               got.c_str(), want.c_str());
    }
  } catch (std::exception const& e) {
    PBT_FAIL("deserializing an untouched buffer in mode %s threw: %s", name, e.what());
  }
  if constexpr (S != mode::NONE && D != UN &&
                std::is_same_v<ty::data::ptr<int>, cista::offset_ptr<int>> &&
                !cista::endian_conversion_necessary<S>()) {
    // const input, and CAST
    exact_buf b2{buf};
    try {
      auto const* d = cista::deserialize<T, D>(
          static_cast<std::uint8_t const*>(b2.begin()),
          static_cast<std::uint8_t const*>(b2.end()));
      PBT_CHECK(gen::dump_of(*d) == want, "const round trip differs");
      PBT_CHECK(std::memcmp(b2.begin(), buf.data(), buf.size()) == 0,
                "reading modified the buffer");
      auto const* d1 = cista::deserialize<T, D>(
          std::string_view{reinterpret_cast<char const*>(b2.begin()), b2.n_});
      PBT_CHECK(gen::dump_of(*d1) == want, "round trip through a view differs");
    } catch (std::exception const& e) {
      PBT_FAIL("deserializing an untouched const buffer in mode %s threw: %s", name, e.what());
    }
    auto const* cast = cista::deserialize<T, D | mode::CAST>(
        static_cast<std::uint8_t const*>(b2.begin()) + (cista::data_start(S) + alignof(T) - 1) / alignof(T) * alignof(T));
    PBT_CHECK(gen::dump_of(*cast) == want, "cast round trip differs");
  }
}

#ifndef ALL_MODES
#define ALL_MODES 0
#endif
// 0: four pairs of modes, 1: three others, 2: all
template <typename T, mode X, int Modes>
void one_mode(Ctx& c, T& v, std::string const& w, unsigned k) {
  if constexpr (Modes == 0) {
    switch (k % 4) {
      case 0: return check_mode<T, mode::NONE | X, mode::NONE | X>(c, v, w, "none");
      case 1: return check_mode<T, V | I | X, V | I | DC | X>(c, v, w, "version+integrity/deep");
      case 2: return check_mode<T, mode::NONE | X, UN | X>(c, v, w, "none/unchecked");
      default: return check_mode<T, I | X, SKI | X>(c, v, w, "integrity/skip");
    }
  }
  if constexpr (Modes == 1) {
    switch (k % 3) {
      case 0: return check_mode<T, SV | I | X, SV | I | X>(c, v, w, "static version+integrity");
      case 1: return check_mode<T, V | X, SKV | X>(c, v, w, "version/skip");
      default: return check_mode<T, mode::NONE | X, DC | X>(c, v, w, "none/deep");
    }
  }
  if constexpr (Modes == 2) {
  switch (k) {
    case 0: return check_mode<T, mode::NONE | X, mode::NONE | X>(c, v, w, "none");
    case 1: return check_mode<T, mode::NONE | X, UN | X>(c, v, w, "none/unchecked");
    case 2: return check_mode<T, mode::NONE | X, DC | X>(c, v, w, "none/deep");
    case 3: return check_mode<T, V | X, V | X>(c, v, w, "version");
    case 4: return check_mode<T, I | X, I | X>(c, v, w, "integrity");
    case 5: return check_mode<T, V | I | X, V | I | DC | X>(c, v, w, "version+integrity/deep");
    case 6: return check_mode<T, SV | I | X, SV | I | X>(c, v, w, "static version+integrity");
    case 7: return check_mode<T, SV | X, SV | UN | X>(c, v, w, "static version/unchecked");
    case 8: return check_mode<T, V | I | X, SKV | SKI | X>(c, v, w, "version+integrity/skip both");
    case 9: return check_mode<T, V | I | X, V | SKI | X>(c, v, w, "version+integrity/skip integrity");
    case 10: return check_mode<T, SV | I | X, SKV | I | X>(c, v, w, "static version+integrity/skip version");
    default: return check_mode<T, I | X, SKI | UN | X>(c, v, w, "integrity/skip unchecked");
  }
  }
}

#ifdef BIG_ENDIAN_CHECK
constexpr auto const X = BE;
#else
constexpr auto const X = mode::NONE;
#endif

template <typename T, int Modes = 0>
void round_trip(Ctx& c) {
  gen::arena_guard g;
  gen::stats() = {};
  T value{};
  gen::gen_value(c, value, 0);
  auto const want = gen::dump_of(value);
  c.nontrivial_if(want.size() > 30 && (gen::stats().containers_ == 0 || gen::stats().elems_ > 1));
  c.log("value %.400s", want.c_str());
  one_mode<T, X, Modes>(c, value, want, static_cast<unsigned>(c.u(11)));
}

template <typename T>
void round_trip_plain(Ctx& c) {
  gen::arena_guard g;
  gen::stats() = {};
  T value{};
  gen::gen_value(c, value, 0);
  auto const want = gen::dump_of(value);
  c.nontrivial_if(want.size() > 60);
  c.log("value %.400s", want.c_str());
  switch (c.u(2)) {
    case 0: return check_mode<T, mode::NONE | X, mode::NONE | X>(c, value, want, "none");
    case 1: return check_mode<T, I | X, I | X>(c, value, want, "integrity");
    default: return check_mode<T, I | X, SKI | UN | X>(c, value, want, "integrity/skip unchecked");
  }
}

}  // namespace

#define RT(T, Q) PBT_REG(rt_##T, "rt_" #T, round_trip<ty::T>, Q, Q * 60)
#define RT_ALL(T, Q) PBT_REG(rt_##T, "rt_" #T, (round_trip<ty::T, 2>), Q, Q * 60)
#define RT_1(T, Q) PBT_REG(rt_##T, "rt_" #T, (round_trip<ty::T, 1>), Q, Q * 60)
#if GROUP == 1
using ty_flat_vec = ty::data::vector<ty::flat>;
namespace ty {
using v_i32 = data::vector<std::int32_t>;
using v_str = data::vector<data::string>;
using str = data::string;
using u64 = std::uint64_t;
using up = data::unique_ptr<small>;
using opt = cista::optional<std::uint16_t>;
using var = cista::variant<std::uint8_t, std::uint32_t, data::string>;
using tup = cista::tuple<std::uint8_t, data::string, std::uint32_t>;
using hm = data::hash_map<data::string, std::uint32_t>;
using bs = cista::bitset<70>;
using prs = cista::pair<std::uint16_t, data::string>;
using arr = cista::array<data::string, 2>;
using bv = data::bitvec;
}  // namespace ty
RT_ALL(flat, 2500)
RT(comp, 4000)
RT_1(small, 1000)
RT(one, 1000)
RT_ALL(big_align, 1000)
RT_1(empty_first, 1000)
RT(u64, 300)
RT_1(v_i32, 2000)
RT_ALL(v_str, 2000)
RT(str, 2000)
RT_1(up, 500)
RT(opt, 500)
RT_1(var, 1000)
RT(tup, 1000)
RT_ALL(hm, 2000)
RT(bs, 500)
RT_1(prs, 500)
RT(arr, 500)
RT_1(bv, 1000)
#elif GROUP == 2
RT(strs, 3500)
RT(vecs, 3000)
#elif GROUP == 3
RT(alts, 3000)
RT(hashes, 3000)
#elif GROUP == 4
RT(nested, 3500)
#ifndef BIG_ENDIAN_CHECK
PBT_REG(rt_r1, "rt_rtree", round_trip_plain<ty::data::rtree<std::uint32_t>>, 1500, 90000)
using rt3 = ty::data::rtree<std::uint64_t, 3, double, 6>;
PBT_REG(rt_r2, "rt_rtree3", round_trip_plain<rt3>, 2000, 90000)
#endif
#elif GROUP == 5
RT(all, 2500)
RT(big, 120)
PBT_REG(rt_cstrs, "rt_cstrs", round_trip_plain<ty::cstrs>, 3000, 300000)
#endif
