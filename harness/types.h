// The family of serializable types used by the serialization checks.
// NS selects the representation (cista::offset or cista::raw).
#pragma once
#include "gen.h"

#ifndef NS
#define NS cista::offset
#endif

namespace ty {
namespace data = NS;

enum class e8 : std::uint8_t { A, B };
enum class e32 : std::int32_t { X = -1, Y = 7 };
using s32 = cista::strong<std::uint32_t, struct s32_>;
using s16 = cista::strong<std::uint16_t, struct s16_>;
using s64 = cista::strong<std::int64_t, struct s64_>;


using sys_ms = std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>;

// --- scalars with interesting padding ---
struct flat {
  EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_, l_, m_, n_, o_)
  std::uint8_t a_{};
  std::int64_t b_{};
  bool c_{};
  std::int16_t d_{};
  float e_{};
  e8 f_{};
  double g_{};
  e32 h_{};
  s16 i_{};
  std::uint32_t j_{};
  s32 k_{};
  char l_{};
  std::uint64_t m_{};
  std::chrono::seconds n_{};
  sys_ms o_{};
};
struct small {
  EACH(a_, b_)
  std::uint8_t a_{};
  std::uint32_t b_{};
};
struct one {
  EACH(a_)
  std::int32_t a_{};
};
struct empty_first {
  EACH(a_, b_, c_)
  std::int8_t a_{};
  small b_{};
  std::uint16_t c_{};
};
struct alignas(16) big_align {
  EACH(a_, b_)
  std::uint64_t a_{};
  std::uint8_t b_{};
};
struct comp {  // composite scalars without own heap storage
  EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_)
  cista::array<std::uint16_t, 3> a_{};
  cista::pair<std::uint8_t, std::uint64_t> b_{};
  cista::pair<std::int32_t, bool> c_{};
  cista::tuple<std::uint8_t, std::uint32_t, std::int16_t> d_{};
  cista::bitset<7> e_{};
  cista::bitset<64> f_{};
  cista::bitset<129> g_{};
  cista::array<small, 2> h_{};
  flat i_{};
  cista::array<cista::pair<s32, e8>, 2> j_{};
  cista::tuple<bool> k_{};
};

// --- strings ---
struct strs {
  EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_)
  data::string a_{};
  data::string_view b_{};
  std::uint8_t c_{};
  data::u16string d_{};
  data::u32string e_{};
  data::u16string_view f_{};
  data::generic_string g_{};
  data::vector<data::string> h_{};
  data::u32string_view i_{};
};
struct cstrs {
  EACH(a_, b_, c_, d_, e_, f_)
  data::cstring a_{};
  std::uint8_t b_{};
  data::vector<data::cstring> c_{};
  cista::pair<data::cstring, std::uint16_t> d_{};
  std::pair<std::int32_t, bool> e_{};
  std::pair<std::uint16_t, std::pair<data::string, std::int32_t>> f_{};
};

// --- vectors ---
struct elem {
  EACH(a_, b_, c_)
  std::uint8_t a_{};
  data::string b_{};
  data::vector<std::uint16_t> c_{};
};
struct vecs {
  EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_, k_, l_, m_)
  data::vector<std::int32_t> a_{};
  data::vector<std::uint8_t> b_{};
  data::vector<std::uint64_t> c_{};
  data::vector<data::vector<data::vector<std::int16_t>>> d_{};
  data::vector_map<s16, small> e_{};
  data::indexed_vector<data::string> f_{};
  data::vector<elem> g_{};
  data::vector<bool> h_{};
  data::vector<data::unique_ptr<std::uint32_t>> i_{};
  cista::basic_vector<std::uint32_t, data::ptr, false, std::uint8_t> j_{};
  cista::basic_vector<data::string, data::ptr, false, std::uint64_t> k_{};
  data::vector<cista::pair<std::uint8_t, double>> l_{};
  data::vector<flat> m_{};
};

// --- optional, variant, tuple, unique_ptr ---
struct alts {
  EACH(a_, b_, c_, d_, e_, f_, g_, h_, i_, j_)
  cista::optional<std::uint32_t> a_{};
  cista::optional<data::string> b_{};
  cista::variant<std::uint8_t, std::uint64_t, data::string> c_{};
  data::vector<cista::variant<data::vector<std::uint32_t>, bool, elem>> d_{};
  cista::tuple<std::uint8_t, data::string, std::uint16_t, data::vector<std::uint64_t>> e_{};
  data::unique_ptr<elem> f_{};
  data::unique_ptr<data::unique_ptr<std::int64_t>> g_{};
  cista::pair<data::string, cista::optional<data::vector<std::uint8_t>>> h_{};
  data::vector<cista::optional<data::unique_ptr<small>>> i_{};
  cista::array<cista::optional<std::uint16_t>, 3> j_{};
};

// --- hash tables ---
struct hashes {
  EACH(a_, b_, c_, d_, e_, f_, g_)
  data::hash_map<std::uint32_t, std::uint64_t> a_{};
  data::hash_set<data::string> b_{};
  data::hash_map<data::string, data::vector<data::string>> c_{};
  data::hash_set<std::uint8_t> d_{};
  data::hash_map<std::uint64_t, data::hash_map<std::uint8_t, data::string>> e_{};
  data::hash_map<cista::pair<std::uint8_t, std::uint8_t>, data::unique_ptr<small>> f_{};
  data::vector<data::hash_set<std::int16_t>> g_{};
};

// --- nested containers ---
using pvv = cista::paged_vecvec<
    data::vector<typename cista::paged<data::vector<std::uint32_t>>::page_t>,
    cista::paged<data::vector<std::uint32_t>>, s32>;
struct nested {
  EACH(a_, b_, c_, d_, e_, f_, g_, h_)
  data::bitvec a_{};
  data::vecvec<s32, std::uint32_t> b_{};
  data::vecvec<std::uint32_t, data::string> c_{};
  data::nvec<std::uint32_t, std::uint16_t, 2> d_{};
  pvv e_{};
  data::fws_multimap<std::uint32_t, std::uint64_t> f_{};
  data::mutable_fws_multimap<std::uint32_t, std::uint32_t> g_{};
  data::flat_matrix<std::uint16_t> h_{};
};
// --- everything, and recursive ---
struct node {
  EACH(name_, kids_, next_, props_, val_)
  data::string name_{};
  data::vector<node> kids_{};
  data::unique_ptr<node> next_{};
  data::hash_map<std::uint16_t, data::string> props_{};
  cista::variant<std::uint8_t, data::string, data::vector<std::uint32_t>> val_{};
};
struct all {
  EACH(tag_, nodes_, root_, table_, opt_, tail_)
  std::uint8_t tag_{};
  data::vector<node> nodes_{};
  data::unique_ptr<node> root_{};
  data::hash_map<data::string, data::vector<cista::optional<elem>>> table_{};
  cista::optional<cista::tuple<data::string, std::uint8_t, data::hash_set<std::uint32_t>>> opt_{};
  cista::array<data::vector<data::string>, 2> tail_{};
};

// large containers, filled from a formula
struct big {
  data::vector<std::uint16_t> a_{};
  data::string b_{};
  data::hash_map<std::uint32_t, std::uint32_t> c_{};
  data::vector<data::string> d_{};
  data::vector<data::vector<std::uint32_t>> e_{};
};

}  // namespace ty
namespace gen {
template <>
struct io<ty::big> {
  static std::size_t n(Ctx& c, std::size_t max) { return c.chance(1, 3) ? c.u(max) : c.u(3000); }
  static void gen(Ctx& c, ty::big& t, int) {
    auto x = c.num<std::uint32_t>();
    auto const next = [&]() { return x = x * 1664525U + 1013904223U; };
    t.a_.resize(static_cast<std::uint32_t>(n(c, 120000)));
    for (auto& v : t.a_) {
      v = static_cast<std::uint16_t>(next() >> 8U);
    }
    auto s = std::string(n(c, 100000), 'x');
    for (auto& v : s) {
      v = static_cast<char>('a' + (next() >> 24U) % 26);
    }
    t.b_ = s;
    for (auto k = n(c, 12000); k != 0; --k) {
      auto const key = next();
      t.c_[key] = next();
    }
    for (auto k = n(c, 3000); k != 0; --k) {
      t.d_.emplace_back(s.substr(next() % (s.size() + 1), next() % 40));
    }
    for (auto k = n(c, 3000); k != 0; --k) {
      t.e_.emplace_back().resize(next() % 9, next());
    }
    stats().elems_ = 1000;
  }
  static void dump(ty::big const& t, std::string& o) {
    dump_value(t.a_, o);
    dump_value(t.b_, o);
    dump_value(t.c_, o);
    dump_value(t.d_, o);
    dump_value(t.e_, o);
  }
};
}  // namespace gen
