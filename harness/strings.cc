// C10: strings, string views and C strings against std::basic_string.
#include <deque>
#include <memory>
#include <sstream>

#include <sys/mman.h>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/serialization.h"

namespace {

using pbt::Ctx;

enum kind { OWN, VIEW, GENERIC };

// T: type under test; K: what plain assignment means; C: is it a C string
template <typename T, kind K, bool C>
struct run {
  using ch = typename T::value_type;
  using str = std::basic_string<ch>;
  using sv = std::basic_string_view<ch>;
  static constexpr std::size_t inline_limit = 15U / sizeof(ch);

  // memory of the caller, each piece exactly as long as needed
  struct piece {
    explicit piece(str const& s) : p_{new ch[s.size() + 1]}, n_{s.size()} {
      std::memcpy(p_.get(), s.c_str(), (s.size() + 1) * sizeof(ch));
    }
    std::unique_ptr<ch[]> p_;
    std::size_t n_;
    sv view() const { return {p_.get(), n_}; }
  };

  struct model {
    str s_;
    bool external_{false};     // refers to memory of the caller
    ch const* where_{nullptr};  // if external
  };

  // Is it stored in place? (only C strings know their size then)
  static bool fits_inline(sv s) {
    return s.size() <= inline_limit && (C || s.find(ch{0}) == sv::npos);
  }

  static str text(Ctx& c) {
    auto s = text_without_zero(c);
    if (!C && !s.empty() && c.chance(1, 6)) {
      for (auto n = 1U + c.u(1U); n != 0U; --n) {
        s[c.idx(s.size())] = ch{0};
      }
    }
    return s;
  }

  static str text_without_zero(Ctx& c) {
    auto const L = static_cast<std::uint64_t>(inline_limit);
    auto n = std::uint64_t{0};
    switch (c.u(4)) {
      case 0: n = c.u(L); break;
      case 1: n = L - 1 + c.u(3); break;
      case 2: n = c.u(3); break;
      default: n = c.u(50);
    }
    if (c.chance(1, 40)) {  // long, filled from a formula
      n = c.pick({63U, 64U, 127U, 128U, 255U, 256U, 511U, 1024U, 4096U, 5000U, 65536U}) - 1 + c.u(2);
      if (n > 6000 && !c.chance(1, 5)) {
        n = 300 + n % 100;
      }
      auto x = static_cast<unsigned>(c.u(1000));
      str s;
      for (auto i = std::uint64_t{0}; i != n; ++i) {
        x = x * 1103515245U + 12345U;
        s.push_back(static_cast<ch>(1U + (x >> 16U) % (sizeof(ch) == 1 ? 255U : 40000U)));
      }
      return s;
    }
    str s;
    auto const narrow = c.chance(2, 3);
    for (auto i = std::uint64_t{0}; i != n; ++i) {
      if (narrow) {
        s.push_back(static_cast<ch>('a' + c.u(2)));
      } else if constexpr (sizeof(ch) == 1) {
        s.push_back(static_cast<ch>(C ? c.u(255) : 1 + c.u(254)));
      } else {
        s.push_back(static_cast<ch>(1 + c.u(sizeof(ch) == 2 ? 65534U : 0x10FFFEU)));
      }
    }
    return s;
  }

  static void same(T const& t, model const& m) {
    PBT_EQ(static_cast<std::size_t>(t.size()), m.s_.size());
    PBT_EQ(t.empty(), m.s_.empty());
    PBT_CHECK(t.view() == sv{m.s_}, "view differs");
    PBT_CHECK(t.str() == m.s_ && static_cast<sv>(t) == sv{m.s_});
    PBT_CHECK(str(t.begin(), t.end()) == m.s_, "iteration differs");
    PBT_CHECK(t.end() - t.begin() == static_cast<std::ptrdiff_t>(m.s_.size()));
    for (std::size_t i = 0; i != m.s_.size(); ++i) {
      PBT_CHECK(t[i] == m.s_[i] && t.data()[i] == m.s_[i]);
    }
    if constexpr (C) {
      PBT_CHECK(t.data()[t.size()] == 0 && t.c_str() == t.data(), "not zero-terminated");
      if (m.external_) {
        PBT_CHECK(t.data() == m.where_, "does not refer to the memory of the caller");
      }
    } else if (m.external_) {
      PBT_CHECK(t.data() == m.where_, "does not refer to the memory of the caller");
    }
  }

  // moved-from strings are valid: they can be read, assigned, destroyed
  static void readable(T const& t) {
    volatile unsigned sum = 0U;
    for (auto const x : t) {
      sum = sum + static_cast<unsigned>(x);
    }
    auto const v = t.view();
    PBT_CHECK(v.size() == t.size() && static_cast<std::size_t>(t.end() - t.begin()) == v.size());
    PBT_CHECK(str{v}.size() == v.size(), "moved-from string");
    if constexpr (C) {
      PBT_CHECK(t.data()[t.size()] == 0, "moved-from string is not zero-terminated");
    }
  }

  template <typename A, typename B>
  static void compare(A const& a, B const& b, int want) {
    PBT_EQ(a == b, want == 0);
    PBT_EQ(a != b, want != 0);
    PBT_EQ(a < b, want < 0);
    PBT_EQ(a > b, want > 0);
    PBT_EQ(a <= b, want <= 0);
    PBT_EQ(a >= b, want >= 0);
  }
  static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

  static void queries(Ctx& c, T const& a, model const& ma, T const& b, model const& mb) {
    auto const want = sign(ma.s_.compare(mb.s_));
    compare(a, b, want);
    compare(a, sv{mb.s_}, want);
    compare(sv{mb.s_}, a, -want);
    if (mb.s_.find(ch{0}) == str::npos) {
      compare(a, mb.s_.c_str(), want);
      compare(mb.s_.c_str(), a, -want);
    }
    if constexpr (!C) {
      auto part = mb.s_;
      if (c.flip() && !ma.s_.empty()) {
        part = c.flip() ? ma.s_.substr(0, c.u(ma.s_.size())) : ma.s_.substr(c.u(ma.s_.size()));
        if (!part.empty() && c.chance(1, 4)) {
          part[c.idx(part.size())] = 'z';
        }
      }
      auto const starts = part.size() <= ma.s_.size() && ma.s_.compare(0, part.size(), part) == 0;
      auto const ends = part.size() <= ma.s_.size() &&
                        ma.s_.compare(ma.s_.size() - part.size(), part.size(), part) == 0;
      PBT_EQ(a.starts_with(sv{part}), starts);
      PBT_EQ(a.ends_with(sv{part}), ends);
      PBT_EQ(a.starts_with(part.c_str()), part.find(ch{0}) == str::npos ? starts : a.starts_with(part.c_str()));
      PBT_EQ(a.ends_with(part.c_str(), static_cast<std::uint32_t>(part.size())), ends);
      PBT_EQ(a.starts_with(part.c_str(), static_cast<std::uint32_t>(part.size())), starts);
      T p{K == GENERIC ? T{} : T{}};
      p.set_owning(part);
      PBT_EQ(a.starts_with(p), starts);
      PBT_EQ(a.ends_with(p), ends);
      auto const x = static_cast<ch>('a' + c.u(2));
      PBT_EQ(a.starts_with(x), !ma.s_.empty() && ma.s_.front() == x);
      PBT_EQ(a.ends_with(x), !ma.s_.empty() && ma.s_.back() == x);
    }
    if constexpr (sizeof(ch) == 1) {
      std::stringstream ss;
      ss << a;
      PBT_CHECK(ss.str() == ma.s_, "printed differently");
      PBT_CHECK(cista::hashing<T>{}(a) == cista::hashing<std::string>{}(ma.s_), "hash differs from std::string's");
      PBT_CHECK(cista::hashing<T>{}(a) == cista::hashing<std::string_view>{}(ma.s_), "hash");
      PBT_CHECK(want != 0 || cista::hashing<T>{}(a) == cista::hashing<T>{}(b), "equal strings, different hashes");
    }
    PBT_EQ(cista::equal_to<T>{}(a, b), want == 0);
  }

  static void history(Ctx& c) {
    std::deque<piece> pieces;
    auto n_heap = 0U, n_inline = 0U;
    {
      T v[3];
      model m[3];
      auto const ops = 2 + c.len(40);
      for (std::size_t step = 0; step != ops; ++step) {
        auto const i = c.idx(3), j = c.idx(3);
        auto const op = c.u(20);
        auto& t = v[i];
        c.log("%zu.%d(%zu)", i, static_cast<int>(op), j);
        auto const make_piece = [&](bool zero_free) {
          auto s = text(c);
          if (zero_free) {
            s.erase(std::remove(begin(s), end(s), ch{0}), end(s));
          }
          n_heap += s.size() > inline_limit;
          n_inline += s.size() <= inline_limit;
          c.log("len %zu", s.size());
          pieces.emplace_back(s);
          return sv{pieces.back().view()};
        };
        auto const became = [&](model& x, sv s, bool view) {
          x.s_ = str{s};
          x.external_ = view && (C || !fits_inline(s));
          x.where_ = x.external_ ? s.data() : nullptr;
        };
        // an owning string keeps its value if the memory of the caller changes
        auto const scribble = [&](bool view) {
          if (!view) {
            auto& p = pieces.back();
            for (std::size_t k = 0; k != p.n_; ++k) {
              p.p_[k] = 'X';
            }
          }
        };
        switch (op) {
          case 0:
          case 1:  // assign a view
            if constexpr (K != GENERIC) {
              auto const s = make_piece(false);
              t = s;
              became(m[i], s, K == VIEW);
              scribble(K == VIEW);
              break;
            }
            [[fallthrough]];
          case 2: {
            auto const s = make_piece(false);
            if (c.flip()) {
              t.set_owning(s);
            } else {
              t.set_owning(s.data(), static_cast<std::uint32_t>(s.size()));
            }
            became(m[i], s, false);
            scribble(false);
            break;
          }
          case 3: {  // zero-terminated
            auto const s = make_piece(true);
            if constexpr (K == GENERIC) {
              if (c.flip()) {
                t.set_owning(s.data());
                became(m[i], s, false);
              } else {
                t.set_non_owning(s.data());
                became(m[i], s, true);
              }
            } else {
              t = s.data();
              became(m[i], s, K == VIEW);
            }
            break;
          }
          case 4:
            if constexpr (K != GENERIC) {
              auto s = str{make_piece(false)};
              if constexpr (K == OWN) {
                t = s;
                became(m[i], s, false);
                s.assign(s.size(), 'Y');
              }
            }
            break;
          case 5: {
            auto const s = make_piece(false);
            if (c.flip()) {
              t.set_non_owning(s);
            } else {
              t.set_non_owning(s.data(), static_cast<std::uint32_t>(s.size()));
            }
            became(m[i], s, true);
            break;
          }
          case 6:
            t.reset();
            m[i] = {};
            break;
          case 7:
          case 8:  // copy assignment, including to itself
            if constexpr (K != GENERIC || !C) {
              if (C && K == VIEW && !m[j].external_) {
                break;  // would refer to the inside of the other view
              }
              t = v[j];
              if (i != j) {
                m[i] = m[j];
                if (K == OWN) {
                  m[i].external_ = false;
                }
                if (K == VIEW && !m[j].external_) {  // would refer to the other string
                  t.set_owning(str{t.view()});
                }
              }
            }
            break;
          case 9:
          case 10:
            if constexpr (K == OWN || (K == GENERIC && !C)) {
              t = std::move(v[j]);
              if (i != j) {
                m[i] = m[j];
                readable(v[j]);
                if (c.flip()) {
                  v[j].reset();
                  m[j] = {};
                } else {
                  auto const s = make_piece(false);
                  v[j].set_owning(s);
                  became(m[j], s, false);
                }
              }
            }
            break;
          case 11:
            if constexpr (K != GENERIC || !C) {
              if (C && K == VIEW && !m[j].external_) {
                break;
              }
              T x{v[j]};
              auto mx = m[j];
              if (K == OWN) {
                mx.external_ = false;
              }
              same(x, mx);
              if (K != VIEW && !mx.external_ && !mx.s_.empty()) {  // independent
                x[0] = 'Q';
              }
            }
            break;
          case 12:
            if constexpr (K == OWN || (K == GENERIC && !C)) {
              T x{std::move(v[j])};
              same(x, m[j]);
              readable(v[j]);
              if (c.flip()) {
                v[j] = std::move(x);
              } else {
                v[j].reset();
                m[j] = {};
              }
            }
            break;
          case 13:
            if constexpr (K == OWN) {
              if (i != j) {
                std::swap(v[i], v[j]);
                std::swap(m[i], m[j]);
              }
            }
            break;
          case 14: {  // constructors
            auto const s = make_piece(true);
            if constexpr (K != GENERIC) {
              switch (c.u(3)) {
                case 0: check_made(T{s}, s); break;
                case 1: check_made(T{s.data()}, s); break;
                case 2: check_made(T{s.data(), static_cast<std::uint32_t>(s.size())}, s); break;
                default: {
                  auto const x = str{s};
                  check_made(T{x}, x);
                }
              }
            } else {
              check_made(T{s, T::owning}, s);
              check_made(T{s, T::non_owning}, s);
              check_made(T{s.data(), T::owning}, s);
              check_made(T{s.data(), T::non_owning}, s);
            }
            break;
          }
          case 15:
            if constexpr (!C) {
              {
                auto const pos = c.u(m[i].s_.size());
                auto const n = c.u(m[i].s_.size() - pos);
                auto const before = pieces.empty() ? str{} : str{pieces.back().view()};
                t.erase(static_cast<std::uint32_t>(pos), static_cast<std::uint32_t>(n));
                m[i].external_ = false;  // now has its own copy
                m[i].s_.erase(pos, n);
                PBT_CHECK(pieces.empty() || str{pieces.back().view()} == before, "memory of the caller changed");
              }
            }
            break;
          case 16:
            if (!m[i].s_.empty() && !m[i].external_) {
              auto const at = c.idx(m[i].s_.size());
              t[at] = 'w';
              m[i].s_[at] = 'w';
            }
            break;
          case 17:
            queries(c, v[i], m[i], v[j], m[j]);
            break;
          case 20: {  // a part of its own
            auto const pos = c.u(m[i].s_.size());
            auto const n = c.flip() ? c.u(m[i].s_.size() - pos) : m[i].s_.size() - pos;
            auto const s = sv{t.view()}.substr(pos, n);
            auto const want = str{s};
            auto const stays = K == VIEW && !C && (m[i].external_ || fits_inline(s));
            c.log("own [%zu, +%zu)", static_cast<std::size_t>(pos), static_cast<std::size_t>(n));
            if constexpr (K != GENERIC) {
              if (K == OWN || stays) {
                if (c.flip()) {
                  t = s;
                  auto const where = s.data();
                  became(m[i], want, K == VIEW);
                  m[i].where_ = m[i].external_ ? where : nullptr;
                  break;
                }
              }
            }
            t.set_owning(s.data(), static_cast<std::uint32_t>(s.size()));
            became(m[i], want, false);
            break;
          }
          case 19:  // copies and moves that keep what is owned and what is not
            if (i == j) {
              c.flip() ? t.copy_from(v[i]) : t.move_from(std::move(v[i]));
            } else {
              if (c.flip()) {
                t.copy_from(v[j]);
                m[i] = m[j];
              } else {
                t.move_from(std::move(v[j]));
                m[i] = m[j];
                readable(v[j]);
                auto const s = make_piece(false);
                v[j].set_owning(s);
                became(m[j], s, false);
                scribble(false);
              }
            }
            break;
          default:
            if constexpr (!(C && K != OWN)) {  // through the serializer
              if (op == 18) {
                auto x = cista::serialize(v[i]);
                auto const* d = cista::deserialize<T>(x);
                PBT_CHECK(d->view() == sv{m[i].s_}, "round trip differs");
              }
            }
        }
        for (auto k = 0; k != 3; ++k) {
          same(v[k], m[k]);
        }
        queries(c, v[i], m[i], v[j], m[j]);
      }
    }
    c.nontrivial_if(n_heap > 1 && n_inline > 1);
  }

  static void check_made(T const& t, sv s) {
    PBT_CHECK(t.view() == s, "constructed string differs");
    T x;
    x.set_owning(s);
    PBT_CHECK(t == x);
    if constexpr (C) {
      PBT_CHECK(t.data()[t.size()] == 0);
    }
  }
};

template <typename T, kind K, bool C>
void strings(Ctx& c) {
  run<T, K, C>::history(c);
}

// More characters than the length can hold (the pages are never touched).
template <typename T, kind K, bool C>
void too_long(Ctx& c) {
  using ch = typename T::value_type;
  using sv = std::basic_string_view<ch>;
  constexpr auto const kMax = std::uint64_t{0xFFFFFFFFU};
  static auto const mem = []() -> ch* {
    auto const p = mmap(nullptr, (kMax + 4096U) * sizeof(ch), PROT_READ,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : static_cast<ch*>(p);
  }();
  if (mem == nullptr) {
    return;  // no address space for it
  }
  auto refused = 0U, ok = 0U;
  auto m = std::basic_string<ch>{};
  auto where = static_cast<ch const*>(nullptr);
  auto n_where = std::size_t{0U};
  auto keep = std::basic_string<ch>{};
  T t;
  for (auto n = 1U + c.u(8U); n != 0U; --n) {
    auto const over = c.chance(2, 3);
    auto const len = static_cast<std::size_t>(over ? kMax + 1U + c.u(c.flip() ? 40U : 4000U)
                                                   : (sizeof(ch) == 1U ? kMax : 5000U) - c.u(40U));
    auto const x = sv{mem + c.u(50U), len};
    c.log("%zu characters", len);
    auto const attempt = [&](auto&& f) {
      auto threw = false;
      try {
        f();
      } catch (std::exception const&) {
        threw = true;
      }
      PBT_CHECK(threw == over, "%s", threw ? "refused although it fits" : "accepted although the length cannot be stored");
      threw ? ++refused : ++ok;
    };
    switch (c.u(4U)) {
      case 0:
        if (over) {  // (owning them would take gigabytes otherwise)
          attempt([&]() { t.set_owning(x); });
        }
        break;
      case 1:
        attempt([&]() { t.set_non_owning(x); });
        if (!over) {
          where = x.data();
          n_where = len;
        }
        break;
      case 2:
        if (over || K == VIEW) {
          if constexpr (K == OWN || K == VIEW) {
            attempt([&]() { t = x; });
            if (!over) {
              where = x.data();
              n_where = len;
            }
          }
        }
        break;
      case 3:
        attempt([&]() {
          if constexpr (K == VIEW) {
            auto const u = T{x};
            PBT_EQ(static_cast<std::size_t>(u.size()), len);
          } else {
            auto const u = T{x, T::non_owning};
            PBT_EQ(static_cast<std::size_t>(u.size()), len);
            if (over) {
              auto const w = T{x, T::owning};
            }
          }
        });
        break;
      default:
        where = nullptr;
        keep.assign(c.u(40U), static_cast<ch>('a'));
        m = keep;
        t.set_owning(sv{keep});
    }
    if (where != nullptr) {
      PBT_EQ(static_cast<std::size_t>(t.size()), n_where);
      PBT_CHECK(t.data() == where, "refers to other memory");
    } else {
      PBT_EQ(static_cast<std::size_t>(t.size()), m.size());
      PBT_CHECK(sv(t.data(), t.size()) == sv{m}, "the content has changed");
      if constexpr (!C) {
        PBT_CHECK(!t.starts_with(x) && !t.ends_with(x), "begins or ends with more than it has");
      }
    }
  }
  c.nontrivial_if(refused != 0U && ok != 0U);
}

namespace r = cista::raw;
namespace o = cista::offset;
using o_cview = cista::basic_cstring_view<cista::offset::ptr<char const>>;
using r_cstring = cista::basic_cstring<char const*>;
using r_cview = cista::basic_cstring_view<char const*>;

}  // namespace

#define ST(ID, T, K, C, Q)                                 \
  PBT_REG(ID, #ID, (strings<T, K, C>), Q, Q * 60)           \
  PBT_REG(ID##_long, #ID "_too_long", (too_long<T, K, C>), 300, 20000)
#if GROUP == 1
ST(string_r, r::string, OWN, false, 8000)
ST(string_o, o::string, OWN, false, 8000)
ST(view_r, r::string_view, VIEW, false, 6000)
ST(view_o, o::string_view, VIEW, false, 6000)
ST(generic_r, r::generic_string, GENERIC, false, 6000)
ST(generic_o, o::generic_string, GENERIC, false, 6000)
#else
ST(u16_r, r::u16string, OWN, false, 5000)
ST(u32_o, o::u32string, OWN, false, 5000)
ST(u32view_r, r::u32string_view, VIEW, false, 4000)
ST(u16view_o, o::u16string_view, VIEW, false, 4000)
ST(cstring_o, o::cstring, OWN, true, 8000)
ST(cstring_p, r_cstring, OWN, true, 6000)
ST(cview_o, o_cview, VIEW, true, 5000)
ST(cview_p, r_cview, VIEW, true, 5000)
#endif
