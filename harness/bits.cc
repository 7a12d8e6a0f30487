// C12: bitsets against std::bitset.  C13: bit vectors against std::vector<bool>.
#include <bitset>
#include <sstream>
#include <vector>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"
#include "cista/hashing.h"
#include "cista/serialization.h"
#include "cista/strong.h"

namespace {
using pbt::Ctx;
using bits = std::vector<bool>;

std::string text(bits const& m) {
  std::string s;
  for (auto i = m.size(); i-- != 0;) {
    s.push_back(m[i] ? '1' : '0');
  }
  return s;
}
bits shifted_left(bits const& m, std::size_t k) {
  bits r(m.size());
  for (std::size_t i = 0; i != m.size(); ++i) {
    r[i] = i >= k && m[i - k];
  }
  return r;
}
bits shifted_right(bits const& m, std::size_t k) {
  bits r(m.size());
  for (std::size_t i = 0; i != m.size(); ++i) {
    r[i] = k < m.size() - i && m[i + k];
  }
  return r;
}
std::size_t pick_shift(Ctx& c, std::size_t n) {
  switch (c.u(5)) {
    case 0: return c.u(3);
    case 1: return 64 * c.u(n / 64 + 1);
    case 2: return 62 + c.u(4);
    case 3: return n - std::min<std::size_t>(n, 2) + c.u(5);
    case 4: return c.chance(1, 8) ? c.pick({std::size_t{1} << 31U, std::size_t{1} << 32U, ~std::size_t{0}}) : c.u(n);
    default: return c.u(n + 70);
  }
}
void fill(Ctx& c, bits& m) {
  auto const dense = c.flip();
  std::fill(m.begin(), m.end(), dense);
  for (auto k = m.empty() ? 0 : c.u(6); k != 0; --k) {
    m[c.idx(m.size())] = !dense;
  }
}

#if GROUP == 12
template <std::size_t N>
void run(Ctx& c) {
  using B = cista::bitset<N>;
  std::array<B, 3> b;
  std::array<bits, 3> m;
  for (auto& x : m) {
    x.resize(N);
  }
  // bits beyond the size that the storage has room for were set
  auto dirty = false;
  auto complemented = 0U, shifted = 0U, mixed = 0U;
  auto const check = [&](B const& x, bits const& y) {
    std::bitset<N> s;
    std::vector<std::size_t> on, got;
    for (std::size_t i = 0; i != N; ++i) {
      s[i] = y[i];
      PBT_CHECK(x.test(i) == y[i] && x[i] == y[i], "bit %zu of %zu", i, N);
      if (y[i]) {
        on.push_back(i);
      }
    }
    for (auto i = N; i != N + 70; ++i) {
      PBT_CHECK(!x.test(i), "bit %zu of %zu is set", i, N);
    }
    PBT_EQ(x.size(), N);
    PBT_EQ(x.count(), s.count());
    PBT_EQ(x.any(), s.any());
    PBT_EQ(x.none(), s.none());
    PBT_EQ(x.to_string(), s.to_string());
    std::ostringstream out;
    out << x;
    PBT_EQ(out.str(), s.to_string());
    x.for_each_set_bit([&](std::size_t i) { got.push_back(i); });
    PBT_CHECK(got == on, "for_each_set_bit visits other bits");
  };
  for (auto k = c.u(14) + 1; k != 0; --k) {
    auto const i = c.idx(3), j = c.idx(3);
    auto const n = c.u(17);
    c.log("op%d b%zu b%zu", static_cast<int>(n), i, j);
    switch (n) {
      case 0:
        for (auto x = c.u(5); x != 0; --x) {
          auto const at = c.idx(N);
          auto const v = c.flip();
          b[i].set(at, v);
          m[i][at] = v;
        }
        break;
      case 1: {
        auto const at = c.idx(N);
        b[i].set(at);
        m[i][at] = true;
        break;
      }
      case 2: {  // from a string of at most N digits
        bits x(c.chance(1, 2) ? N : c.u(N));
        fill(c, x);
        auto const s = text(x);
        if (c.flip()) {
          b[i] = B{std::string_view{s}};
          std::fill(m[i].begin(), m[i].end(), false);
        } else {
          b[i].set(std::string_view{s});
        }
        std::copy(x.begin(), x.end(), m[i].begin());
        break;
      }
      case 3:
        b[i].reset();
        std::fill(m[i].begin(), m[i].end(), false);
        break;
      case 4:
        b[i] = ~b[j];
        m[i] = m[j];
        m[i].flip();
        ++complemented;
        break;
      case 5:
        b[i] = B::max();
        m[i].assign(N, true);
        ++complemented;
        break;
      case 6:
      case 7:
      case 8: {
        bits r(N);
        for (std::size_t x = 0; x != N; ++x) {
          r[x] = n == 6 ? m[i][x] && m[j][x] : n == 7 ? m[i][x] || m[j][x] : m[i][x] != m[j][x];
        }
        if (c.flip()) {
          n == 6 ? b[i] &= b[j] : n == 7 ? b[i] |= b[j] : b[i] ^= b[j];
          m[i] = r;
        } else {
          auto const o = c.idx(3);
          b[o] = n == 6 ? b[i] & b[j] : n == 7 ? b[i] | b[j] : b[i] ^ b[j];
          m[o] = r;
        }
        ++mixed;
        break;
      }
      case 9: {
        auto const x = pick_shift(c, N);
        c.log("<<= %zu", x);
        b[i] <<= x;
        m[i] = shifted_left(m[i], x);
        ++shifted;
        break;
      }
      case 10: {
        auto const x = pick_shift(c, N);
        c.log(">>= %zu", x);
        b[i] >>= x;
        m[i] = shifted_right(m[i], x);
        ++shifted;
        break;
      }
      case 11: {
        auto const x = pick_shift(c, N);
        b[i] = b[j] << x;
        m[i] = shifted_left(m[j], x);
        ++shifted;
        break;
      }
      case 12: {
        auto const x = pick_shift(c, N);
        b[i] = b[j] >> x;
        m[i] = shifted_right(m[j], x);
        ++shifted;
        break;
      }
      case 13:
        b[i] = b[j];
        m[i] = m[j];
        break;
      case 14: {  // all bits one by one
        fill(c, m[i]);
        for (std::size_t x = 0; x != N; ++x) {
          b[i].set(x, m[i][x]);
        }
        break;
      }
      case 15:  // a longer string: its low-order digits count
      {
        bits x(N + c.u(130));
        fill(c, x);
        c.log("%zu digits", x.size());
        auto const s = text(x);
        if (c.flip()) {
          b[i] = B{std::string_view{s}};
        } else {
          b[i].set(std::string_view{s});
        }
        std::copy_n(x.begin(), N, m[i].begin());
        break;
      }
      case 16:  // bits that the storage has room for, but not the bitset
        if (N % 64 != 0) {
          auto const at = N + c.idx(64 - N % 64);
          c.log("set %zu of %zu", at, N);
          b[i].set(at, c.chance(3, 4));
          dirty = true;
          c.label("bit beyond the size set");
        }
        break;
      default: {
        auto buf = cista::serialize(b[i]);
        b[i] = *cista::deserialize<B>(buf);
        break;
      }
    }
    for (std::size_t x = 0; x != 3; ++x) {
      check(b[x], m[x]);
      for (std::size_t y = 0; y != 3; ++y) {
        auto const s = text(m[x]), t = text(m[y]);
        PBT_EQ(b[x] == b[y], s == t);
        PBT_EQ(b[x] != b[y], s != t);
        PBT_EQ(b[x] < b[y], s < t);
        PBT_EQ(b[x] > b[y], s > t);
        PBT_EQ(b[x] <= b[y], s <= t);
        PBT_EQ(b[x] >= b[y], s >= t);
        if (s == t && !dirty) {  // hashes include the whole storage
          PBT_CHECK(cista::hashing<B>{}(b[x]) == cista::hashing<B>{}(b[y]), "equal bitsets, different hashes");
        }
      }
    }
  }
  c.nontrivial_if(complemented >= 1 && shifted >= 1 && mixed >= 1);
}
#define BS(N) PBT_REG(bitset_##N, "bitset_" #N, run<N>, N > 300 ? 800 : 1600, N > 300 ? 100000 : 200000)
BS(1) BS(2) BS(7) BS(31) BS(32) BS(33) BS(63) BS(64) BS(65) BS(100) BS(127) BS(128) BS(129) BS(191)
BS(192) BS(193) BS(255) BS(256) BS(320) BS(513)
#endif

#if GROUP == 13
template <typename B, typename Key>
void run(Ctx& c) {
  using S = typename B::size_type;
  constexpr auto W = static_cast<std::size_t>(B::bits_per_block);
  constexpr auto strong_key = !std::is_same_v<Key, S>;  // no text conversion, no next_set_bit
  struct obj {
    B b_;
    bits m_;
    bool dirty_{false};  // built from storage with bits beyond the size
  };
  std::array<obj, 3> o;
  auto resized = 0U, complemented = 0U, shifted = 0U, mixed = 0U;
  auto const pick_size = [&]() -> std::size_t {
    switch (c.u(3)) {
      case 0: return c.u(8);
      case 1: return W * c.u(4) + c.u(2);
      case 2: return W * (1 + c.u(3)) - 1;
      default: return c.u(300);
    }
  };
  auto const key = [](std::size_t i) { return Key(static_cast<cista::base_t<Key>>(i)); };
  auto const check = [&](obj const& x) {
    auto const& b = x.b_;
    auto const& m = x.m_;
    std::vector<std::size_t> on, got;
    PBT_EQ(static_cast<std::size_t>(b.size()), m.size());
    PBT_EQ(b.empty(), m.empty());
    for (std::size_t i = 0; i != m.size(); ++i) {
      PBT_CHECK(b.test(key(i)) == m[i] && b[key(i)] == m[i], "bit %zu of %zu", i, m.size());
      if (m[i]) {
        on.push_back(i);
      }
    }
    for (auto i = m.size(); i != m.size() + W + 3; ++i) {
      PBT_CHECK(!b.test(key(i)), "bit %zu of %zu is set", i, m.size());
    }
    PBT_EQ(b.count(), on.size());
    PBT_EQ(b.any(), !on.empty());
    PBT_EQ(b.none(), on.empty());
    if constexpr (!strong_key) {
      PBT_EQ(b.str(), text(m));
      std::ostringstream out;
      out << b;
      PBT_EQ(out.str(), text(m));
    }
    b.for_each_set_bit([&](Key i) { got.push_back(static_cast<std::size_t>(cista::to_idx(i))); });
    PBT_CHECK(got == on, "for_each_set_bit visits other bits");
    auto it = on.begin();
    for (std::size_t i = 0; i <= m.size() + 2; ++i) {
      while (it != on.end() && *it < i) {
        ++it;
      }
      auto const n = b.next_set_bit(static_cast<S>(i));
      PBT_CHECK(n.has_value() == (it != on.end()), "next_set_bit(%zu) of %zu", i, m.size());
      if (n.has_value()) {
        PBT_EQ(static_cast<std::size_t>(cista::to_idx(*n)), *it, "next_set_bit");
      }
    }
    if constexpr (std::is_same_v<Key, S>) {
      std::atomic_size_t next{0};
      for (auto const i : on) {
        auto const n = b.get_next(next);
        PBT_CHECK(n.has_value() && static_cast<std::size_t>(*n) == i, "get_next");
      }
      PBT_CHECK(!b.get_next(next).has_value(), "get_next");
    }
  };
  for (auto k = c.u(18) + 1; k != 0; --k) {
    auto const i = c.idx(3), j = c.idx(3);
    auto& x = o[i];
    auto& y = o[j];
    auto const n = c.u(22);
    auto const same = x.m_.size() == y.m_.size();
    auto const size = x.m_.size();
    c.log("op%d o%zu(%zu) o%zu(%zu)", static_cast<int>(n), i, size, j, y.m_.size());
    switch (n) {
      case 0:
      case 1:
      case 2: {
        auto const s = pick_size();
        c.log("resize %zu", s);
        x.b_.resize(static_cast<S>(s));
        x.m_.resize(s);
        ++resized;
        break;
      }
      case 3:
      case 4:
        for (auto q = size == 0 ? 0 : c.u(5); q != 0; --q) {
          auto const at = c.idx(size);
          auto const v = c.flip();
          switch (c.u(2)) {
            case 0: x.b_.set(key(at), v); break;
            case 1:
              if constexpr (W == 64) {
                x.b_.template set<true>(key(at), v);
                break;
              }
              [[fallthrough]];
            default: x.b_.template set<false>(key(at), v);
          }
          x.m_[at] = v;
        }
        break;
      case 5:
        if (size != 0) {
          auto const at = c.idx(size);
          x.b_.set(key(at));
          x.m_[at] = true;
        }
        break;
      case 6:
        if constexpr (!strong_key) {
          bits z(pick_size());
          fill(c, z);
          auto const s = text(z);
          if (c.flip()) {
            x.b_ = B{std::string_view{s}};
            x.dirty_ = false;
          } else {
            x.b_.set(std::string_view{s});
          }
          x.m_ = z;
        }
        break;
      case 7: {
        auto const s = pick_size();
        if (c.flip()) {
          x.b_ = B{static_cast<S>(s)};
          x.m_.assign(s, false);
        } else {
          x.b_ = B::max(s);
          x.m_.assign(s, true);
          ++complemented;
        }
        x.dirty_ = false;
        break;
      }
      case 8:
        x.b_.zero_out();
        x.m_.assign(size, false);
        break;
      case 9:
        x.b_.one_out();
        x.m_.assign(size, true);
        ++complemented;
        break;
      case 10:
        x.b_.reset();
        x.m_.assign(size, false);
        break;
      case 11:
        x.b_ = ~y.b_;
        x.m_ = y.m_;
        x.m_.flip();
        x.dirty_ = y.dirty_;
        ++complemented;
        break;
      case 12:
      case 13:
      case 14:
        if (same) {
          bits r(size);
          for (std::size_t q = 0; q != size; ++q) {
            r[q] = n == 12 ? x.m_[q] && y.m_[q] : n == 13 ? x.m_[q] || y.m_[q] : x.m_[q] != y.m_[q];
          }
          if (c.flip()) {
            n == 12 ? x.b_ &= y.b_ : n == 13 ? x.b_ |= y.b_ : x.b_ ^= y.b_;
            x.m_ = r;
            x.dirty_ = x.dirty_ || y.dirty_;
          } else {
            auto& z = o[c.idx(3)];
            z.b_ = n == 12 ? x.b_ & y.b_ : n == 13 ? x.b_ | y.b_ : x.b_ ^ y.b_;
            z.m_ = r;
            z.dirty_ = x.dirty_ || y.dirty_;
          }
          ++mixed;
        } else {  // make them the same size
          y.b_.resize(static_cast<S>(size));
          y.m_.resize(size);
          ++resized;
        }
        break;
      case 15: {
        auto const s = pick_shift(c, size);
        c.log("<<= %zu", s);
        x.b_ <<= s;
        x.m_ = shifted_left(x.m_, s);
        ++shifted;
        break;
      }
      case 16: {
        auto const s = pick_shift(c, size);
        c.log(">>= %zu", s);
        x.b_ >>= s;
        x.m_ = shifted_right(x.m_, s);
        ++shifted;
        break;
      }
      case 17: {
        auto const s = pick_shift(c, y.m_.size());
        auto const left = c.flip();
        x.b_ = left ? y.b_ << s : y.b_ >> s;
        x.m_ = left ? shifted_left(y.m_, s) : shifted_right(y.m_, s);
        x.dirty_ = y.dirty_;
        ++shifted;
        break;
      }
      case 18:
        if (i != j) {
          x = y;
        }
        break;
      case 19:
        if (i != j) {
          std::swap(x, y);
        } else {
          auto t = std::move(x);
          x = std::move(t);
        }
        break;
      case 20: {  // built from storage
        auto const s = 1 + pick_size();
        decltype(B::blocks_) v;
        v.resize(static_cast<decltype(v.size())>((s + W - 1) / W));
        auto const d = c.flip() && s % W != 0;
        bits z(v.size() * W);
        fill(c, z);
        for (std::size_t q = 0; q != z.size(); ++q) {
          if (z[q] && (d || q < s)) {
            v[static_cast<decltype(v.size())>(q / W)] |= typename B::block_t{1} << (q % W);
          }
        }
        z.resize(s);
        x.b_ = B{std::move(v), static_cast<S>(s)};
        x.m_ = z;
        x.dirty_ = d;
        break;
      }
      case 21: {
        bits z(size);
        fill(c, z);
        for (std::size_t q = 0; q != size; ++q) {
          x.b_.set(key(q), z[q]);
        }
        x.m_ = z;
        break;
      }
      default: {
        auto buf = cista::serialize(x.b_);
        x.b_ = *cista::deserialize<B>(buf);
        break;
      }
    }
    for (std::size_t p = 0; p != 3; ++p) {
      check(o[p]);
      for (std::size_t q = 0; q != 3; ++q) {
        auto const &a = o[p], &b = o[q];
        PBT_EQ(a.b_ == b.b_, a.m_ == b.m_);
        PBT_EQ(a.b_ != b.b_, a.m_ != b.m_);
        if (a.m_.size() == b.m_.size()) {
          auto const s = text(a.m_), t = text(b.m_);
          PBT_EQ(a.b_ < b.b_, s < t);
          PBT_EQ(a.b_ > b.b_, s > t);
          PBT_EQ(a.b_ <= b.b_, s <= t);
          PBT_EQ(a.b_ >= b.b_, s >= t);
        }
        if (a.m_ == b.m_ && !a.dirty_ && !b.dirty_) {
          PBT_CHECK(cista::hashing<B>{}(a.b_) == cista::hashing<B>{}(b.b_), "equal bit vectors, different hashes");
        }
      }
    }
  }
  c.nontrivial_if(resized >= 2 && complemented >= 1 && shifted + mixed >= 1);
}
using skey = cista::strong<std::uint32_t, struct skey_>;
using bv_o = cista::offset::bitvec;
using bv_r = cista::raw::bitvec;
using bv_32 = cista::basic_bitvec<cista::raw::vector<std::uint32_t>>;
using bv_s = cista::basic_bitvec<cista::offset::vector<std::uint64_t>, skey>;
#define BV(T, K, Q) PBT_REG(bitvec_##T, "bitvec_" #T, (run<T, K>), Q, Q * 150)
BV(bv_o, bv_o::size_type, 5000)
BV(bv_r, bv_r::size_type, 5000)
BV(bv_32, bv_32::size_type, 4000)
BV(bv_s, skey, 3000)
#endif
}  // namespace
