// C05: the integrity check accepts exactly the data that was written.
#include "types.h"

#include "cista/serialization.h"

using cista::mode;
using pbt::Ctx;

namespace {

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const DC = mode::DEEP_CHECK;
constexpr auto const UN = mode::UNCHECKED;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const SKI = mode::SKIP_INTEGRITY;
constexpr auto const SKV = mode::SKIP_VERSION;

struct mem {
  explicit mem(std::vector<std::uint8_t> const& b) : n_{b.size()} {
    PBT_CHECK(posix_memalign(&p_, 64, n_ == 0 ? 1 : n_) == 0);
    if (n_ != 0) {
      std::memcpy(p_, b.data(), n_);
    }
  }
  ~mem() { std::free(p_); }
  std::uint8_t* begin() { return static_cast<std::uint8_t*>(p_); }
  std::uint8_t* end() { return begin() + n_; }
  void* p_{nullptr};
  std::size_t n_;
};

// the first byte covered by the checks: version header (if there), checksum, payload
template <typename T, mode S, mode D>
void must_reject(std::vector<std::uint8_t> const& bytes, char const* how) {
  mem m{bytes};
  bool thrown = false;
  try {
    (void)cista::deserialize<T, D>(m.begin(), m.end());
  } catch (std::exception const&) {
    thrown = true;
  }
  PBT_CHECK(thrown, "corrupted data accepted (%s)", how);
  PBT_CHECK(bytes.empty() || std::memcmp(m.begin(), bytes.data(), bytes.size()) == 0,
            "rejected data was modified (%s)", how);
}
template <typename T, mode D>
void must_accept(std::vector<std::uint8_t> const& bytes, std::string const& want, char const* how) {
  mem m{bytes};
  try {
    auto const got = gen::dump_of(*cista::deserialize<T, D>(m.begin(), m.end()));
    PBT_CHECK(got == want, "value differs (%s)", how);
  } catch (std::exception const& e) {
    PBT_FAIL("data rejected (%s): %s", how, e.what());
  }
}

template <typename T, mode S, mode D, mode Skip>
void check(Ctx& c, T& v, std::string const& want, char const* name) {
  c.log("mode %s", name);
  auto const buf = cista::serialize<S>(v);
  auto const orig = std::vector<std::uint8_t>(buf.begin(), buf.end());
  must_accept<T, D>(orig, want, "untouched");

  constexpr auto const versioned = cista::is_mode_enabled(S, V) || cista::is_mode_enabled(S, SV);
  constexpr auto const sum_at = std::size_t{versioned ? 8U : 0U};
  constexpr auto const version_read = cista::is_mode_enabled(D, V) || cista::is_mode_enabled(D, SV);
  constexpr auto const first = std::size_t{version_read ? 0U : sum_at};

  for (auto round = 0U; round != 6U; ++round) {
    auto x = orig;
    auto const any = [&]() {
      switch (c.u(3)) {
        case 0: return first + c.u(std::min<std::size_t>(x.size(), sum_at + 24) - first - 1);  // front
        case 1: return x.size() - 1 - c.u(std::min<std::size_t>(7, x.size() - 1 - first));      // back
        default: return first + c.u(x.size() - 1 - first);
      }
    };
    auto const damage = [&](std::vector<std::uint8_t>& y) {
      auto const at = any();
      y[at] = static_cast<std::uint8_t>(y[at] ^ (c.flip() ? 1U << c.u(7) : 1 + c.u(254)));
      c.log("byte %zu", at);
    };
    switch (c.u(7)) {
      case 0:
      case 1: damage(x); break;
      case 2:
        for (auto k = 2 + c.u(6); k != 0; --k) {
          damage(x);
        }
        break;
      case 3:
        x.resize(c.u(x.size() - 1));
        c.log("truncate to %zu", x.size());
        break;
      case 4:
        x.resize(x.size() - 1 - c.u(std::min<std::size_t>(7, x.size() - 1)));
        c.log("truncate to %zu", x.size());
        break;
      case 5:
        for (auto k = 1 + c.u(c.flip() ? 7 : 100); k != 0; --k) {
          x.push_back(c.flip() ? 0 : static_cast<std::uint8_t>(c.u(255)));
        }
        c.log("extend to %zu", x.size());
        break;
      case 6: {  // swap two regions
        auto const n = 1 + c.u(15);
        if (x.size() >= first + 2 * n) {
          auto const a = first + c.u(x.size() - first - 2 * n);
          auto const b = a + n + c.u(x.size() - a - 2 * n);
          std::swap_ranges(begin(x) + static_cast<long>(a), begin(x) + static_cast<long>(a + n),
                           begin(x) + static_cast<long>(b));
          c.log("swap %zu and %zu", a, b);
        }
        break;
      }
      default: {  // drop bytes from the middle of the payload
        auto const a = sum_at + 8 + c.u(x.size() - sum_at - 9);
        auto const n = 1 + c.u(std::min<std::size_t>(15, x.size() - a - 1));
        x.erase(begin(x) + static_cast<long>(a), begin(x) + static_cast<long>(a + n));
        c.log("drop %zu bytes at %zu", n, a);
        break;
      }
    }
    if (x == orig) {
      continue;
    }
    c.nontrivial();
    must_reject<T, S, D>(x, name);
  }
  {  // the checksum does not matter if it is skipped
    auto x = orig;
    for (auto i = 0U; i != 8U; ++i) {
      x[sum_at + i] = static_cast<std::uint8_t>(c.u(255));
    }
    must_accept<T, Skip>(x, want, "skipped integrity check");
  }
}

template <typename T>
void integrity(Ctx& c) {
  gen::arena_guard g;
  gen::stats() = {};
  T v{};
  gen::gen_value(c, v, 0);
  auto const want = gen::dump_of(v);
  c.log("value %.200s", want.c_str());
  switch (c.u(5)) {
    case 0: check<T, I, I, SKI>(c, v, want, "integrity"); break;
    case 1: check<T, V | I, V | I | DC, V | SKI>(c, v, want, "version+integrity/deep"); break;
#ifdef CISTA_FNV1A  // the static type hash needs a constexpr hash function
    case 2: check<T, SV | I, SV | I, SKV | SKI>(c, v, want, "static version+integrity"); break;
#endif
    case 3: check<T, I | BE, I | BE, SKI | BE>(c, v, want, "big endian+integrity"); break;
    case 4: check<T, I, I | UN, SKI | UN>(c, v, want, "integrity/unchecked"); break;
    default: check<T, V | I, SKV | I, SKV | SKI | DC>(c, v, want, "version+integrity/skip version"); break;
  }
}

}  // namespace

#if GROUP == 1
PBT_REG(i_flat, "integrity_flat", integrity<ty::flat>, 2500, 300000)
PBT_REG(i_one, "integrity_one", integrity<ty::one>, 1500, 100000)
PBT_REG(i_align, "integrity_big_align", integrity<ty::big_align>, 800, 100000)
#else
PBT_REG(i_strs, "integrity_strs", integrity<ty::strs>, 2000, 200000)
PBT_REG(i_alts, "integrity_alts", integrity<ty::alts>, 1500, 150000)
#endif
