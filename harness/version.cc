// C06: type hashes and the version check, over a generated family of types.
#include <chrono>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/serialization.h"
#include "cista/strong.h"

#ifndef NS
#define NS cista::offset
#endif
namespace data = NS;

enum class ea : std::uint8_t { X };
enum class eb : std::uint8_t { X };
enum class ec : std::uint16_t { X };
enum class ed : std::int32_t { X };
struct ta;
struct tb;

#include FAMILY_HEADER

using cista::mode;
using pbt::Ctx;

namespace {

struct entry {
  char const *name_, *dyn_tokens_, *static_tokens_, *expr_;
  int group_;
  bool static_ok_;
  cista::hash_t (*dyn_)();
  cista::hash_t (*static_)();
  cista::byte_buf (*write_)(int mode);
  // 0: accepted, 1: rejected because of the version, 2: rejected otherwise
  int (*read_)(int mode, std::uint8_t*, std::uint8_t*);
};

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN;

template <typename T, bool Static>
struct fns {
  static cista::hash_t dyn() { return cista::type_hash<T>(); }
  static cista::hash_t stat() {
    if constexpr (Static) {
      constexpr auto const h = cista::static_type_hash<T>();
      return h;
    } else {
      return 0;
    }
  }
#ifdef HEADERS
  static cista::byte_buf write(int m) {
    auto t = T{};
    switch (m) {
      case 0: return cista::serialize<V>(t);
      case 1: return cista::serialize<V | I>(t);
      case 2: return cista::serialize<V | BE>(t);
      default:
        if constexpr (Static) {
          return cista::serialize<SV>(t);
        }
    }
    return {};
  }
  static int read(int m, std::uint8_t* from, std::uint8_t* to) {
    try {
      switch (m) {
        case 0: (void)cista::deserialize<T, V>(from, to); break;
        case 1: (void)cista::deserialize<T, V | I>(from, to); break;
        case 2: (void)cista::deserialize<T, V | BE>(from, to); break;
        default:
          if constexpr (Static) {
            (void)cista::deserialize<T, SV>(from, to);
          }
      }
    } catch (std::exception const& e) {
      return std::strstr(e.what(), "version") != nullptr ? 1 : 2;
    }
    return 0;
  }
#else
  static constexpr auto const write = nullptr;
  static constexpr auto const read = nullptr;
#endif
};

#define ENTRY(T, G, S, DT, ST, E) \
  {#T, DT, ST, E, G, S != 0, fns<T, S>::dyn, fns<T, S>::stat, fns<T, S>::write, fns<T, S>::read},
entry const fam[] = {FAMILY(ENTRY)};
constexpr auto const N = sizeof(fam) / sizeof(fam[0]);

#ifndef DUMP_HASHES
void compare(entry const& a, entry const& b) {
  auto const same_d = std::strcmp(a.dyn_tokens_, b.dyn_tokens_) == 0;
  auto const ha = a.dyn_(), hb = b.dyn_();
  if (a.group_ == b.group_) {
    PBT_CHECK(ha == hb, "dynamic hashes of equal structures differ: %s and %s", a.expr_, b.expr_);
  } else if (!same_d) {
    PBT_CHECK(ha != hb, "dynamic hashes of different structures are equal: %s and %s", a.expr_, b.expr_);
  }
  if (!a.static_ok_ || !b.static_ok_) {
    return;
  }
  auto const same_s = std::strcmp(a.static_tokens_, b.static_tokens_) == 0;
  if (a.group_ == b.group_) {
    PBT_CHECK(a.static_() == b.static_(), "static hashes of equal structures differ: %s and %s", a.expr_, b.expr_);
  } else if (!same_s) {
    PBT_CHECK(a.static_() != b.static_(), "static hashes of different structures are equal: %s and %s", a.expr_,
              b.expr_);
  }
}

std::pair<std::size_t, std::size_t> pick(Ctx& c) {
  auto const i = c.idx(N);
  auto j = c.idx(N);
  if (c.flip()) {  // neighbours: the copy and the mutants of the same base type
    auto const lo = i < 5 ? 0 : i - 5;
    j = lo + c.idx(std::min<std::size_t>(N, i + 6) - lo);
  }
  return {i, j};
}

#endif
}  // namespace

#ifdef DUMP_HASHES
int main() {
  for (auto const& a : fam) {
    std::printf("%llu\n", static_cast<unsigned long long>(a.dyn_()));
  }
}
#elif defined(OTHER_COMPILER)
// data may be written by a program built with another compiler
std::uint64_t const other[] = {OTHER_COMPILER};
static_assert(sizeof(other) / sizeof(other[0]) == N);
PBT_TARGET(hash_other_compiler, 2000, 2000) {
  auto const i = c.idx(N);
  c.log("%s", fam[i].expr_);
  PBT_CHECK(static_cast<std::uint64_t>(fam[i].dyn_()) == other[i], "the type hash depends on the compiler: %s", fam[i].expr_);
  c.nontrivial_if(std::strlen(fam[i].dyn_tokens_) > 6U);
}
#elif !defined(HEADERS)
PBT_TARGET(hash_pairs, 6000, 60000) {
  auto const [i, j] = pick(c);
  c.log("%s and %s", fam[i].expr_, fam[j].expr_);
  c.nontrivial_if(i != j);
  PBT_CHECK(fam[i].dyn_() == fam[i].dyn_(), "type hash is not repeatable");
  compare(fam[i], fam[j]);
  // deserializing as const or through a reference is the same type
  PBT_CHECK(fam[i].static_() == fam[i].static_());
}
PBT_TARGET(hash_all_pairs, 1, 1) {
  for (auto const& a : fam) {
    for (auto const& b : fam) {
      compare(a, b);
    }
  }
  c.nontrivial();
}
// The "same" enum before and after its underlying type was changed (types local
// to a function have the same name as far as clang's type names are concerned).
namespace same_name {
auto e8() { enum class evolving : std::uint8_t { X }; return evolving{}; }
auto e16() { enum class evolving : std::uint16_t { X }; return evolving{}; }
auto e32() { enum class evolving : std::int32_t { X }; return evolving{}; }
auto e64() { enum class evolving : std::uint64_t { X }; return evolving{}; }
template <typename E>
struct holder {
  std::uint8_t a_;
  E b_;
  data::vector<E> c_;
};
template <typename E>
std::array<cista::hash_t, 6> hashes() {
  return {cista::type_hash<E>(), cista::type_hash<holder<E>>(), cista::type_hash<cista::array<E, 3>>(),
          cista::static_type_hash<E>(), cista::static_type_hash<holder<E>>(), cista::static_type_hash<cista::array<E, 3>>()};
}
}  // namespace same_name
PBT_TARGET(same_named_enums, 30, 30) {
  using namespace same_name;
  std::array<cista::hash_t, 6> const h[] = {hashes<decltype(e8())>(), hashes<decltype(e16())>(), hashes<decltype(e32())>(),
                                            hashes<decltype(e64())>()};
  auto const i = c.idx(4U), j = c.idx(4U), k = c.idx(6U);
  c.log("enum of %u and %u bits, type %zu", 8U << i, 8U << j, static_cast<std::size_t>(k));
  PBT_CHECK((h[i][k] == h[j][k]) == (i == j), "type hash of an enum with another underlying type");
  c.nontrivial_if(i != j);
}
#else
PBT_TARGET(version_header, 5000, 100000) {
  auto const [i, j] = pick(c);
  auto const &a = fam[i], &b = fam[j];
  auto const m = static_cast<int>(c.u(3));
  if (m == 3 && (!a.static_ok_ || !b.static_ok_)) {
    return;
  }
  auto const equal = a.group_ == b.group_;
  auto const unknown = !equal && std::strcmp(m == 3 ? a.static_tokens_ : a.dyn_tokens_,
                                             m == 3 ? b.static_tokens_ : b.dyn_tokens_) == 0;
  if (unknown) {
    return;
  }
  c.nontrivial_if(i != j);
  c.log("mode %d: write %s, read %s", m, a.expr_, b.expr_);
  auto buf = a.write_(m);
  void* mem = nullptr;
  PBT_CHECK(posix_memalign(&mem, 64, buf.size()) == 0);
  auto* p = static_cast<std::uint8_t*>(mem);
  std::memcpy(p, buf.data(), buf.size());
  auto const rc = b.read_(m, p, p + buf.size());
  if (equal) {
    PBT_CHECK(rc == 0, "data of the same structure rejected");
  } else {
    PBT_CHECK(rc != 0, "data of a different structure accepted: %s as %s", a.expr_, b.expr_);
    PBT_CHECK(std::memcmp(p, buf.data(), buf.size()) == 0, "rejected data was changed");
  }
  // a damaged version
  std::memcpy(p, buf.data(), buf.size());
  auto const at = c.u(7);
  p[at] = static_cast<std::uint8_t>(p[at] ^ (1U << c.u(7)));
  PBT_CHECK(a.read_(m, p, p + buf.size()) != 0, "data with a damaged version accepted");
  // too short for a header
  std::memcpy(p, buf.data(), buf.size());
  auto const cut = c.u(8);
  auto* q = static_cast<std::uint8_t*>(std::malloc(cut == 0 ? 1 : cut));
  std::memcpy(q, buf.data(), cut);
  PBT_CHECK(a.read_(m, q, q + cut) != 0, "data without payload accepted");
  std::free(q);
  std::free(mem);
}
#endif

#ifndef DUMP_HASHES
// known finding: the boundaries of nested structs are not part of the hash
namespace known {
struct s1 {
  std::int64_t a_;
  std::int8_t b_;
};
struct a {
  s1 a_;
  std::int8_t b_;
};
struct s2 {
  std::int64_t a_;
};
struct b {
  s2 a_;
  std::int8_t b_, c_;
};
}  // namespace known
PBT_TARGET(known_struct_boundary, 0, 0) {
  (void)c;
  PBT_CHECK(cista::type_hash<known::a>() != cista::type_hash<known::b>(),
            "{{i64 i8} i8} and {{i64} i8 i8} have the same type hash");
}
#endif
