// C07: checked deserialization of arbitrary bytes throws or yields a value that
// lies completely inside the buffer.
#include "types.h"

#include "cista/serialization.h"
#include "walk.h"

using cista::mode;
using pbt::Ctx;

namespace ty {
// plain pointers of several types to elements of indexed vectors
struct refs {
  data::ptr<small> one_{nullptr};
  data::indexed_vector<small> smalls_{};
  data::vector<data::ptr<small>> many_{};
  data::indexed_vector<data::string> strs_{};
  std::uint8_t pad_{};
  data::ptr<data::string> str_{nullptr};
  data::indexed_vector<data::vector<data::string>> deep_{};
  data::vector<data::ptr<data::vector<data::string>>> deeps_{};
  cista::optional<data::ptr<small>> opt_{};
  cista::array<data::ptr<data::string>, 2> arr_{};
};
struct nums {  // containers without own pointers inside
  EACH(a_, b_, c_)
  data::vector<std::uint32_t> a_{};
  cista::array<std::uint16_t, 3> b_{};
  cista::basic_vector<std::uint64_t, data::ptr, false, std::uint8_t> c_{};
};
using str = data::string;
using cstr = data::cstring;
using hm = data::hash_map<std::uint32_t, std::uint8_t>;
using hs = data::hash_set<data::string>;
using vvv = data::vector<data::vector<std::uint16_t>>;
using opt = cista::optional<cista::pair<std::uint8_t, data::string>>;
using var = cista::variant<std::uint8_t, data::unique_ptr<std::uint64_t>, data::string>;
using wide = cista::basic_vector<std::uint64_t, data::ptr, false, std::uint64_t>;
}  // namespace ty
namespace gen {
template <>
struct io<ty::refs> {
  static void gen(Ctx& c, ty::refs& t, int) {
    gen_value(c, t.smalls_, 1);
    gen_value(c, t.strs_, 1);
    gen_value(c, t.deep_, 1);
    auto const to = [&](auto& v, auto& p) {
      if (!v.empty() && c.chance(4, 5)) {
        p = &v[static_cast<unsigned>(c.idx(v.size()))];
      }
    };
    to(t.smalls_, t.one_);
    for (auto k = c.u(4); k != 0; --k) {
      to(t.smalls_, t.many_.emplace_back(nullptr));
    }
    to(t.strs_, t.str_);
    for (auto k = c.u(2); k != 0; --k) {
      to(t.deep_, t.deeps_.emplace_back(nullptr));
    }
    if (c.flip()) {
      t.opt_ = ty::data::ptr<ty::small>{nullptr};
      to(t.smalls_, *t.opt_);
    }
    to(t.strs_, t.arr_[0]);
    to(t.strs_, t.arr_[1]);
  }
};
}  // namespace gen

namespace {

constexpr auto const V = mode::WITH_VERSION;
constexpr auto const SV = mode::WITH_STATIC_VERSION;
constexpr auto const I = mode::WITH_INTEGRITY;
constexpr auto const DC = mode::DEEP_CHECK;

using bytes = std::vector<std::uint8_t>;
struct mem {
  explicit mem(bytes const& b) : n_{b.size()} {
    PBT_CHECK(posix_memalign(&p_, 64, n_ == 0 ? 1 : n_) == 0);
    if (n_ != 0) {
      std::memcpy(p_, b.data(), n_);
    }
  }
  ~mem() { std::free(p_); }
  std::uint8_t* begin() { return static_cast<std::uint8_t*>(p_); }
  std::uint8_t* end() { return begin() + n_; }
  void* p_{nullptr};
  std::size_t n_;
};

// where the fields of a good value are
struct sites : wk::visitor {
  struct field {
    std::size_t at_, n_;
    int kind_;
  };
  struct grp {
    std::size_t ptr_, a_, b_, width_, elem_;
    std::size_t ctrl_{0}, n_ctrl_{0};  // hash tables
  };
  std::size_t pos(void const* p) const {
    auto const at = static_cast<std::size_t>(static_cast<std::uint8_t const*>(p) - base_);
    PBT_CHECK(at < n_);
    return at;
  }
  void num(void const* p, std::size_t n, bool) override {
    if (nums_.size() < 200) {
      nums_.push_back({pos(p), n, 9});
    }
  }
  void meta(void const* p, std::size_t n, wk::kind k) override {
    (k == wk::kind::CTRL ? ctrls_ : metas_).push_back({pos(p), n, static_cast<int>(k)});
    if (k == wk::kind::CTRL && !groups_.empty()) {
      auto& g = groups_.back();
      g.ctrl_ = g.n_ctrl_ == 0 ? pos(p) : g.ctrl_;
      ++g.n_ctrl_;
    }
  }
  void group(void const* p, void const* a, void const* b, std::size_t w, std::size_t e) override {
    groups_.push_back({pos(p), pos(a), pos(b), w, e});
  }
  std::uint8_t const* base_;
  std::size_t n_;
  std::vector<field> nums_, metas_, ctrls_;
  std::vector<grp> groups_;
};

// everything reachable is inside the buffer and aligned
struct inside : wk::visitor {
  void range(void const* p, std::size_t n, std::size_t align) override {
    PBT_CHECK(++seen_ranges_ < 3000000, "value does not end");
    auto const x = reinterpret_cast<std::uintptr_t>(p);
    PBT_CHECK(x >= from_ && x <= to_ && n <= to_ - x,
              "accepted value refers to %zu bytes at %td in a buffer of %zu bytes", n,
              static_cast<std::ptrdiff_t>(x - from_), static_cast<std::size_t>(to_ - from_));
    PBT_CHECK(x % align == 0, "accepted value refers to a misaligned object");
  }
  std::uintptr_t from_, to_;
  std::size_t seen_ranges_{0};
};

void put(bytes& b, std::size_t at, std::size_t n, std::uint64_t v) {
  for (std::size_t i = 0; i != n && at + i < b.size(); ++i) {
    b[at + i] = static_cast<std::uint8_t>(v >> (8 * i));
  }
}
std::uint64_t get(bytes const& b, std::size_t at, std::size_t n) {
  std::uint64_t v = 0;
  for (std::size_t i = 0; i != n && at + i < b.size(); ++i) {
    v |= static_cast<std::uint64_t>(b[at + i]) << (8 * i);
  }
  return v;
}

void mutate(Ctx& c, bytes& b, sites const& s) {
  if (b.empty()) {
    return;
  }
  auto const target = [&](std::size_t at) -> std::uint64_t {
    auto const n = b.size();
    switch (c.u(11)) {
      case 10:
      case 11: {  // where another pointer leads
        if (s.metas_.empty()) {
          return 0;
        }
        auto i = c.idx(s.metas_.size());
        for (std::size_t k = 0; k != s.metas_.size() && s.metas_[i].kind_ != static_cast<int>(wk::kind::PTR); ++k) {
          i = (i + 1) % s.metas_.size();
        }
        return get(b, s.metas_[i].at_, 8) + s.metas_[i].at_ - at;
      }
      case 0: return n - at;                                  // the end
      case 1: return (n - 1 - c.u(std::min<std::size_t>(n - 1, 24))) - at;
      case 2: return static_cast<std::uint64_t>(0) - at;      // the beginning
      case 3: return c.num<std::uint64_t>();
      case 4: return 1ULL << 63U;                             // null
      case 5: return s.metas_.empty() ? 0 : c.pick(s.metas_).at_ - at;
      case 6: return s.groups_.empty() ? 8 : c.pick(s.groups_).ptr_ - at;
      case 7: return (c.u(n / 8 + 2) * 8) - at;               // aligned, inside or just behind
      case 8: return n - at + c.u(64);
      default: return (static_cast<std::uint64_t>(0) - at) - c.u(64);
    }
  };
  auto const size = [&](std::uint64_t old, std::size_t elem) -> std::uint64_t {
    switch (c.u(8)) {
      case 0: return 0;
      case 1: return old + 1;
      case 2: return old - 1;
      case 3: return old * 2 + c.u(2);
      case 4: return old + c.u(40);
      case 5: return ~0ULL;
      case 6: return (c.flip() ? (1ULL << 32U) : 0) / elem + c.u(3) - 1;
      case 7: return b.size() / elem + c.u(4) - 2;
      default: return c.num<std::uint64_t>();
    }
  };
  switch (c.u(17)) {
    case 14:
    case 15:  // ends exactly at the end of the buffer, or one or two elements behind
      if (!s.groups_.empty() && b.size() >= 8U) {
        auto const& g = c.pick(s.groups_);
        auto const align = std::min<std::size_t>(8U, g.elem_ & (~g.elem_ + 1U));
        auto start = b.size() / align * align;
        start -= std::min<std::size_t>(start, c.u(8U) * std::max(align, g.elem_ / align * align));
        if (c.flip()) {  // leave it where it is
          auto const at = get(b, g.ptr_, 8) + g.ptr_;
          start = at <= b.size() ? at : start;
        }
        auto const n = (b.size() - start) / g.elem_ + c.u(2U);
        put(b, g.ptr_, 8, start - g.ptr_);
        put(b, g.a_, g.width_, n);
        put(b, g.b_, g.width_, n);
        c.log("group at %zu ends near the end", g.ptr_);
        break;
      }
      [[fallthrough]];
    case 0:
    case 1:
    case 2:  // one internal field
      if (!s.metas_.empty()) {
        auto const& f = c.pick(s.metas_);
        if (f.kind_ == static_cast<int>(wk::kind::PTR)) {
          put(b, f.at_, 8, target(f.at_));
        } else if (f.kind_ == static_cast<int>(wk::kind::SIZE)) {
          put(b, f.at_, f.n_, size(get(b, f.at_, f.n_), 1));
        } else {
          put(b, f.at_, f.n_, c.pick({0U, 1U, 2U, 3U, 15U, 16U, 127U, 128U, 254U, 255U}));
        }
        c.log("field kind %d at %zu", f.kind_, f.at_);
        break;
      }
      [[fallthrough]];
    case 3:
    case 4:  // consistent sizes
    case 5:
      if (!s.groups_.empty()) {
        auto const& g = c.pick(s.groups_);
        auto const n = size(get(b, g.a_, g.width_), g.elem_);
        put(b, g.a_, g.width_, n);
        put(b, g.b_, g.width_, n);
        if (c.flip()) {
          put(b, g.ptr_, 8, target(g.ptr_));
        }
        c.log("group at %zu", g.ptr_);
        break;
      }
      [[fallthrough]];
    case 6:  // data that may be reinterpreted
      if (!s.nums_.empty()) {
        auto const& f = c.pick(s.nums_);
        put(b, f.at_, f.n_, c.num<std::uint64_t>());
        c.log("data at %zu", f.at_);
        break;
      }
      [[fallthrough]];
    case 16:
    case 17: {  // slots of a table, with everything else consistent or nearly so
      std::vector<sites::grp> tables;
      std::copy_if(s.groups_.begin(), s.groups_.end(), std::back_inserter(tables),
                   [](auto const& g) { return g.n_ctrl_ > 9; });
      if (tables.empty()) {
        break;
      }
      auto const& g = c.pick(tables);
      auto const cap = g.n_ctrl_ - 9U;
      if (g.ctrl_ + g.n_ctrl_ > b.size()) {
        break;
      }
      auto const what = c.u(3);
      if (what == 0) {  // no empty slot left
        for (std::size_t i = 0; i != cap; ++i) {
          auto& x = b[g.ctrl_ + i];
          x = x < 128U ? x : c.flip() ? 0xFE : static_cast<std::uint8_t>(c.u(127));
        }
      } else {
        for (auto k = 1 + c.u(3); k != 0; --k) {
          b[g.ctrl_ + c.idx(cap)] = c.chance(1, 3) ? c.pick({0x80, 0xFE}) : static_cast<std::uint8_t>(c.u(127));
        }
      }
      auto full = 0U, deleted = 0U;
      for (std::size_t i = 0; i != cap; ++i) {
        full += b[g.ctrl_ + i] < 128U;
        deleted += b[g.ctrl_ + i] == 0xFE;
      }
      if (!c.chance(1, 8)) {
        for (std::size_t i = 0; i != 8 && i != cap; ++i) {
          b[g.ctrl_ + cap + 1 + i] = b[g.ctrl_ + i];
        }
      }
      if (!c.chance(1, 8)) {
        put(b, g.a_, g.width_, full);
      }
      auto const room = cap == 7U ? 6U : cap - cap / 8U;
      put(b, g.b_ + g.width_, g.width_, room > full + deleted ? room - full - deleted : 0);
      c.log("slots of a table of %zu: %u full, %u deleted", cap, full, deleted);
      break;
    }
    case 7:
      if (!s.ctrls_.empty()) {
        for (auto k = 1 + c.u(3); k != 0; --k) {
          auto const& f = c.pick(s.ctrls_);
          b[std::min(f.at_, b.size() - 1)] = c.chance(1, 3) ? c.pick({0x80, 0xFE, 0xFF, 0x81})
                                                            : static_cast<std::uint8_t>(c.u(255));
        }
        c.log("control byte");
        break;
      }
      [[fallthrough]];
    case 8: {
      auto const at = c.idx(b.size());
      b[at] = static_cast<std::uint8_t>(c.u(255));
      c.log("byte at %zu", at);
      break;
    }
    case 9: {  // a word
      auto const at = c.u(b.size() / 8) * 8;
      put(b, at, 8, c.flip() ? target(at) : c.num<std::uint64_t>());
      c.log("word at %zu", at);
      break;
    }
    case 10:
      b.resize(c.flip() ? b.size() - 1 - c.u(std::min<std::size_t>(b.size() - 1, 16)) : c.u(b.size() - 1));
      c.log("truncate to %zu", b.size());
      break;
    case 11:
      for (auto k = 1 + c.u(32); k != 0; --k) {
        b.push_back(c.flip() ? 0 : static_cast<std::uint8_t>(c.u(255)));
      }
      c.log("extend to %zu", b.size());
      break;
    case 12: {  // copy a region over another
      auto const n = std::min<std::size_t>(b.size(), c.flip() ? 8 : c.pick({16U, 24U, 32U}));
      auto const from = c.u((b.size() - n) / 8) * 8, to = c.u((b.size() - n) / 8) * 8;
      std::memmove(&b[to], &b[from], n);
      c.log("copy %zu bytes from %zu to %zu", n, from, to);
      break;
    }
    default: {  // swap two fields of a kind
      if (s.metas_.size() > 1) {
        auto const& x = c.pick(s.metas_);
        auto const& y = c.pick(s.metas_);
        auto const n = std::min(x.n_, y.n_);
        auto const u = get(b, x.at_, n), v = get(b, y.at_, n);
        put(b, x.at_, n, v);
        put(b, y.at_, n, u);
        c.log("swap fields");
      }
    }
  }
}

template <typename T, mode M>
void feed(Ctx& c, bytes const& b) {
  mem m{b};
  T* d = nullptr;
  try {
    d = cista::deserialize<T, M>(m.begin(), m.end());
  } catch (std::exception const& e) {
    c.log("rejected: %s", e.what());
    c.label("rejected");
    return;
  }
  c.log("accepted");
  c.label("accepted");
  c.nontrivial();
  inside i;
  i.from_ = reinterpret_cast<std::uintptr_t>(m.begin());
  i.to_ = reinterpret_cast<std::uintptr_t>(m.end());
  i.follow_plain_pointers_ = cista::is_mode_enabled(M, DC);
  i.lookups_ = true;
  i.range(d, sizeof(T), alignof(T));
  wk::walk(*d, i);
}

template <typename T, mode M, bool Raw = !std::is_same_v<ty::data::ptr<int>, cista::offset_ptr<int>>>
void hostile(Ctx& c) {
  gen::arena_guard g;
  gen::stats() = {};
  constexpr auto const head = cista::data_start(M);
  bytes b;
  if (c.chance(1, 12)) {  // no structure at all
    for (auto k = c.u(c.flip() ? 400 : static_cast<unsigned>(sizeof(T)) + 16); k != 0; --k) {
      b.push_back(c.flip() ? 0 : static_cast<std::uint8_t>(c.u(255)));
    }
    c.log("random bytes");
  } else {
    T value{};
    gen::gen_value(c, value, 1);
    auto const buf = cista::serialize<static_cast<mode>(static_cast<unsigned>(M) & ~static_cast<unsigned>(DC))>(value);
    b.assign(buf.begin(), buf.end());
    if (b.size() > 3000) {
      b.resize(3000);
    }
    sites s;
    {
      mem m{bytes{buf.begin(), buf.end()}};
      s.base_ = m.begin();
      s.n_ = m.n_;
      T* d = nullptr;
      try {
        d = cista::deserialize<T, M>(m.begin(), m.end());
      } catch (std::exception const& e) {
        PBT_FAIL("untouched data rejected: %s", e.what());
      }
      wk::walk(*d, s);
    }
    for (auto k = 1 + c.u(c.flip() ? 0 : 5); k != 0; --k) {
      mutate(c, b, s);
    }
  }
  // make the header valid, so that the payload is looked at
  if constexpr (head != 0) {
    if (b.size() >= static_cast<std::size_t>(head) && c.chance(7, 8)) {
      auto at = std::size_t{0};
      if constexpr (cista::is_mode_enabled(M, V)) {
        put(b, 0, 8, cista::type_hash<T>());
        at = 8;
      }
      if constexpr (cista::is_mode_enabled(M, I)) {
        put(b, at, 8,
            cista::hash(std::string_view{reinterpret_cast<char const*>(b.data()) + at + 8, b.size() - at - 8}));
      }
    }
  }
  feed<T, M>(c, b);
}

}  // namespace

#define H(T, Q)                                                                     \
  PBT_REG(n_##T, #T, (hostile<ty::T, mode::NONE>), Q, Q * 100)                      \
  PBT_REG(d_##T, #T "_deep", (hostile<ty::T, DC>), Q, Q * 100)                      \
  PBT_REG(h_##T, #T "_header", (hostile<ty::T, V | I | DC>), Q / 3, Q * 30)
// representation with raw pointers: what overlapping objects end up with is only
// checked by the second pass of the deep check
#define HD(T, Q) PBT_REG(d_##T, #T "_deep", (hostile<ty::T, DC>), Q, Q * 100)
#define HN(T, Q) PBT_REG(n_##T, #T, (hostile<ty::T, mode::NONE>), Q, Q * 100)

#ifndef RAW
#define BOTH(T, Q) H(T, Q)
#define NOVER(T, Q) HN(T, Q) HD(T, Q)  // no type hash for this type
#else
#define BOTH(T, Q) HD(T, Q)
#define NOVER(T, Q) HD(T, Q)
#endif
#ifdef RAW
HN(nums, 6000)
HN(str, 3000)
HN(comp, 1000)
HN(flat, 1000)
#endif
#if GROUP == 1
BOTH(strs, 12000)
NOVER(cstrs, 8000)
BOTH(flat, 1500)
NOVER(comp, 1500)
BOTH(str, 4000)
NOVER(cstr, 4000)
#elif GROUP == 2
BOTH(vecs, 14000)
BOTH(vvv, 8000)
BOTH(wide, 5000)
BOTH(nums, 5000)
BOTH(refs, 14000)
#else
NOVER(alts, 12000)
BOTH(opt, 4000)
BOTH(var, 4000)
BOTH(hashes, 14000)
BOTH(hm, 10000)
BOTH(hs, 10000)
#endif
