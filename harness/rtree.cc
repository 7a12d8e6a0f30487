// C16: the spatial index against a list of entries searched by brute force.
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <vector>

#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/rtree.h"
#include "cista/serialization.h"

namespace {
using pbt::Ctx;

struct pod {
  bool operator==(pod const& o) const { return a_ == o.a_ && b_ == o.b_; }
  std::uint64_t a_;
  std::uint16_t b_;
};
template <typename D>
D mk(std::uint32_t const id) {
  if constexpr (std::is_same_v<D, pod>) {
    return pod{id * 1000003ULL, static_cast<std::uint16_t>(id)};
  } else {
    return static_cast<D>(id);
  }
}
template <typename D>
std::uint32_t id_of(D const& d) {
  if constexpr (std::is_same_v<D, pod>) {
    PBT_CHECK(d.a_ % 1000003ULL == 0 && d.b_ == static_cast<std::uint16_t>(d.a_ / 1000003ULL), "data of an entry is corrupt");
    return static_cast<std::uint32_t>(d.a_ / 1000003ULL);
  } else {
    return static_cast<std::uint32_t>(d);
  }
}

template <typename R>
struct rt;
template <typename D, template <typename, typename...> typename V, std::uint32_t Dims, typename N, std::uint32_t Max, typename S>
struct rt<cista::basic_rtree<D, V, Dims, N, Max, S>> {
  static constexpr auto kDims = Dims;
  static constexpr auto kMax = Max;
  using data = D;
  using num = N;
};

template <typename R>
struct model {
  using N = typename rt<R>::num;
  using D = typename rt<R>::data;
  static constexpr auto Dims = rt<R>::kDims;
  using coord = typename R::coord_t;
  struct entry {
    coord min_, max_;
    std::uint32_t id_;
  };
  static bool eq(coord const& a, coord const& b) {
    for (auto d = 0U; d != Dims; ++d) {
      if (!(a[d] == b[d])) {
        return false;
      }
    }
    return true;
  }
  static bool intersects(entry const& e, coord const& min, coord const& max) {
    for (auto d = 0U; d != Dims; ++d) {
      if (e.min_[d] > max[d] || e.max_[d] < min[d]) {
        return false;
      }
    }
    return true;
  }

  // coordinates from several distributions; unsigned types stay positive
  N base(Ctx& c, unsigned const kind) {
    constexpr auto const lo = std::is_unsigned_v<N> ? 0 : -100;
    auto v = N{};
    switch (kind) {
      case 0: v = static_cast<N>(c.range(lo, 100)); break;
      case 1: v = static_cast<N>(c.range(0, 4)); break;  // many duplicates
      case 2: v = static_cast<N>(step_ % 200); break;  // increasing
      case 3: v = static_cast<N>(c.u(9) * 20); break;  // grid
      case 4: v = std::is_floating_point_v<N> ? static_cast<N>(std::ldexp(1.0, static_cast<int>(step_ % 60))) : static_cast<N>(1U << (step_ % 8)); break;  // exponential
      default: v = static_cast<N>(static_cast<int>(step_ * 37 % 200)); break;
    }
    if constexpr (std::is_floating_point_v<N>) {
      if (c.chance(1, 4)) {
        v += static_cast<N>(c.u(1000)) / static_cast<N>(997);
      }
      if (c.chance(1, 64)) {
        v = -N{0};
      }
    }
    return v;
  }
  entry gen(Ctx& c, unsigned const kind) {
    entry e;
    ++step_;
    auto const point = c.flip();
    for (auto d = 0U; d != Dims; ++d) {
      e.min_[d] = base(c, kind);
      e.max_[d] = point ? e.min_[d] : static_cast<N>(e.min_[d] + static_cast<N>(c.u(kind == 1 ? 2 : 30)));
      if (c.chance(1, 16)) {
        e.min_[d] = d == 0 && kind != 4 ? e.min_[d] : std::min(e.min_[d], static_cast<N>(1));
      }
    }
    e.id_ = c.chance(1, 8) ? next_ : ++next_;
    return e;
  }

  template <typename T>
  void query(Ctx& c, T const& r, coord const& min, coord const& max) const {
    std::vector<entry> got, want;
    r.search(min, max, [&](coord const& a, coord const& b, D const& d) {
      got.push_back(entry{a, b, id_of(d)});
      return true;
    });
    for (auto const& e : v_) {
      if (intersects(e, min, max)) {
        want.push_back(e);
      }
    }
    PBT_EQ(got.size(), want.size());
    auto const less = [](entry const& a, entry const& b) {
      if (a.id_ != b.id_) {
        return a.id_ < b.id_;
      }
      for (auto d = 0U; d != Dims; ++d) {
        if (a.min_[d] != b.min_[d]) {
          return a.min_[d] < b.min_[d];
        }
        if (a.max_[d] != b.max_[d]) {
          return a.max_[d] < b.max_[d];
        }
      }
      return false;
    };
    std::sort(got.begin(), got.end(), less);
    std::sort(want.begin(), want.end(), less);
    for (std::size_t i = 0; i != got.size(); ++i) {
      PBT_CHECK(got[i].id_ == want[i].id_ && eq(got[i].min_, want[i].min_) && eq(got[i].max_, want[i].max_), "entry %zu of the result differs (id %u, expected %u)", i, got[i].id_, want[i].id_);
    }
    // the visitor stops the search
    auto const limit = 1 + c.u(std::min<std::size_t>(want.size(), 8));
    std::size_t calls = 0;
    r.search(min, max, [&](coord const&, coord const&, D const&) { return ++calls < limit; });
    std::size_t const expected = std::min<std::size_t>(limit, want.size());
    PBT_EQ(calls, expected);
  }
  template <typename T>
  void check(Ctx& c, T const& r) const {
    coord all_min, all_max;
    for (auto d = 0U; d != Dims; ++d) {
      all_min[d] = std::numeric_limits<N>::lowest();
      all_max[d] = std::numeric_limits<N>::max();
    }
    query(c, r, all_min, all_max);
    for (auto k = 0; k != 3; ++k) {
      coord a, b;
      for (auto d = 0U; d != Dims; ++d) {
        if (!v_.empty() && c.flip()) {
          // the edges of stored entries
          auto const& e = v_[c.idx(v_.size())];
          a[d] = c.flip() ? e.min_[d] : e.max_[d];
          b[d] = static_cast<N>(a[d] + static_cast<N>(c.u(2) == 0 ? 0 : c.u(20)));
        } else {
          a[d] = static_cast<N>(c.u(150));
          b[d] = static_cast<N>(a[d] + static_cast<N>(c.u(60)));
        }
      }
      query(c, r, a, b);
    }
  }
  template <typename T>
  void insert(Ctx& c, T& r, unsigned const kind) {
    auto const e = gen(c, kind);
    r.insert(e.min_, e.max_, mk<D>(e.id_));
    v_.push_back(e);
  }
  template <typename T>
  void remove(Ctx& c, T& r) {
    if (v_.empty() || c.chance(1, 20)) {
      // nothing matches
      auto const e = gen(c, 0);
      r.delete_element(e.min_, e.max_, mk<D>(++next_ + 1000000U));
      if (!v_.empty()) {
        auto const& o = v_[c.idx(v_.size())];
        r.delete_element(o.min_, o.max_, mk<D>(o.id_ + 1000000U));
      }
      return;
    }
    auto const i = c.flip() ? c.idx(v_.size()) : c.flip() ? 0 : v_.size() - 1;
    auto const e = v_[i];
    if (c.chance(1, 3)) {
      // any entry with that rectangle and an identifier of that parity
      auto matches = std::count_if(v_.begin(), v_.end(), [&](entry const& x) { return eq(x.min_, e.min_) && eq(x.max_, e.max_) && x.id_ % 2 == e.id_ % 2; });
      auto removed = std::vector<std::uint32_t>{};
      r.delete_element_with_function(e.min_, e.max_, [&](coord const& a, coord const& b, D const& d) {
        auto const hit = eq(a, e.min_) && eq(b, e.max_) && id_of(d) % 2 == e.id_ % 2;
        if (hit) {
          removed.push_back(id_of(d));
        }
        return hit;
      });
      PBT_CHECK(matches >= 1 && removed.size() == 1, "%zu entries selected", removed.size());
      auto const it = std::find_if(v_.begin(), v_.end(), [&](entry const& x) { return x.id_ == removed[0] && eq(x.min_, e.min_) && eq(x.max_, e.max_); });
      PBT_CHECK(it != v_.end(), "removed entry unknown");
      v_.erase(it);
    } else {
      r.delete_element(e.min_, e.max_, mk<D>(e.id_));
      v_.erase(std::find_if(v_.begin(), v_.end(), [&](entry const& x) { return x.id_ == e.id_ && eq(x.min_, e.min_) && eq(x.max_, e.max_); }));
    }
  }

  std::vector<entry> v_;
  std::uint32_t next_{0};
  std::uint64_t step_{0};
};

template <typename R>
void run(Ctx& c) {
  R r;
  model<R> m;
  m.check(c, r);
  auto inserted = 0U, removed = 0U, moved = 0U;
  for (unsigned step = 0; step < 12 && c.more(10); ++step) {
    auto const kind = static_cast<unsigned>(c.u(5));
    switch (c.u(9)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        auto const n = 1 + c.u(c.flip() ? 5 : 2 * rt<R>::kMax + 20);
        c.log("insert %u (kind %u)", static_cast<unsigned>(n), kind);
        for (std::size_t i = 0; i != n; ++i) {
          m.insert(c, r, kind);
        }
        inserted += static_cast<unsigned>(n);
        break;
      }
      case 4:
      case 5:
      case 6: {
        auto const n = c.chance(1, 4) ? m.v_.size() + 1 : c.u(m.v_.size() / 2 + 3);
        c.log("delete %u", static_cast<unsigned>(n));
        for (std::size_t i = 0; i != n; ++i) {
          m.remove(c, r);
        }
        removed += static_cast<unsigned>(n);
        break;
      }
      case 7: {
        auto const n = c.u(40);
        c.log("mixed %u", static_cast<unsigned>(n));
        for (std::size_t i = 0; i != n; ++i) {
          if (c.flip()) {
            m.insert(c, r, kind);
          } else {
            m.remove(c, r);
          }
        }
        break;
      }
      case 8: {
        c.log("copy/move");
        auto q = r;
        m.check(c, q);
        r = R{};
        r = std::move(q);
        break;
      }
      default: {
        c.log("serialize");
        auto buf = cista::serialize<cista::mode::WITH_INTEGRITY>(r);
        auto* q = cista::deserialize<R, cista::mode::WITH_INTEGRITY>(buf);
        m.check(c, *q);
        if (c.flip()) {
          // changing the deserialized tree
          auto mm = m;
          for (auto n = c.u(20); n != 0; --n) {
            if (c.flip()) {
              mm.insert(c, *q, kind);
            } else {
              mm.remove(c, *q);
            }
          }
          mm.check(c, *q);
          m = mm;
        }
        r = *q;
        if constexpr (std::is_destructible_v<R>) {
          q->~R();
          new (q) R{};
        }
        ++moved;
      }
    }
    m.check(c, r);
  }
  c.nontrivial_if(inserted > rt<R>::kMax && removed >= 2);
}

using u2_8 = cista::offset::rtree<std::uint32_t, 2U, float, 8U>;
using u2_64 = cista::raw::rtree<std::uint32_t>;
using p3_4 = cista::raw::rtree<pod, 3U, double, 4U>;
using u1_3 = cista::offset::rtree<std::uint64_t, 1U, std::int32_t, 3U>;
using u2_3 = cista::raw::rtree<std::uint32_t, 2U, float, 3U>;
using p2_5i = cista::offset::rtree<pod, 2U, std::int32_t, 5U, std::uint64_t>;
using u2_4u = cista::raw::rtree<std::uint32_t, 2U, std::uint32_t, 4U>;
#define RT(T, Q) PBT_REG(rtree_##T, "rtree_" #T, run<T>, Q, Q * 200)
RT(u2_8, 1500)
RT(u2_64, 600)
RT(p3_4, 1500)
RT(u1_3, 1500)
RT(u2_3, 1500)
RT(p2_5i, 1500)
RT(u2_4u, 1500)

// trees over mapped files, closed and opened again
PBT_TARGET(rtree_mapped, 250, 20000) {
  using R = cista::mm_rtree<pod, 2U, float, 6U>;
  using vec = typename R::vector_t;
  auto const dir = std::filesystem::path{pbt::scratch_dir()};
  auto const data = (dir / "rtree_nodes.bin").string();
  auto const meta = dir / "rtree_meta.bin";
  std::filesystem::remove(data);
  std::filesystem::remove(meta);
  model<R> m;
  auto opened = 0U;
  for (unsigned round = 0; round != 3; ++round) {
    auto r = R{{}, vec{cista::mmap{data.c_str(), round == 0 ? cista::mmap::protection::WRITE : cista::mmap::protection::MODIFY}}};
    if (round != 0) {
      r.read_meta(meta);
      ++opened;
    }
    m.check(c, r);
    for (auto n = c.u(60); n != 0; --n) {
      if (c.chance(2, 3)) {
        m.insert(c, r, static_cast<unsigned>(c.u(5)));
      } else {
        m.remove(c, r);
      }
    }
    m.check(c, r);
    c.log("round %u: %zu entries", round, m.v_.size());
    r.write_meta(meta);
  }
  {
    auto r = R{{}, vec{cista::mmap{data.c_str(), cista::mmap::protection::READ}}};
    r.read_meta(meta);
    m.check(c, r);
  }
  c.nontrivial_if(opened >= 2 && m.v_.size() > 20);
}

// tall trees
PBT_TARGET(rtree_tall, 100, 6000) {
  using R = cista::raw::rtree<std::uint32_t, 1U, float, 3U>;
  R r;
  auto const n = 200U + static_cast<std::uint32_t>(c.u(200));
  auto const kind = c.u(3);
  c.log("%u entries (kind %u)", n, static_cast<unsigned>(kind));
  auto const pos = [&](std::uint32_t const i) { return static_cast<float>(kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? i * 7919ULL % n : i < 100 ? 5 : i % 3); };
  for (auto i = 0U; i != n; ++i) {
    r.insert({pos(i)}, {pos(i)}, i);
  }
  for (auto k = 0; k != 200; ++k) {
    auto const i = static_cast<std::uint32_t>(c.u(n - 1));
    auto hits = 0U, others = 0U;
    r.search({pos(i)}, {pos(i)}, [&](auto const&, auto const&, std::uint32_t const j) {
      ++(j == i ? hits : others);
      PBT_CHECK(pos(j) == pos(i), "entry %u", j);
      return true;
    });
    PBT_CHECK(hits == 1 && (kind >= 2 || others == 0), "%u hits, %u others", hits, others);
  }
  auto total = 0U;
  r.search({-1.0F}, {static_cast<float>(n) + 1.0F}, [&](auto const&, auto const&, auto const&) {
    ++total;
    return true;
  });
  PBT_EQ(total, n);
  for (auto k = 0; k != 200; ++k) {
    auto const i = static_cast<std::uint32_t>(k);
    r.delete_element({pos(i)}, {pos(i)}, i);
  }
  total = 0U;
  r.search({-1.0F}, {static_cast<float>(n) + 1.0F}, [&](auto const&, auto const&, auto const&) {
    ++total;
    return true;
  });
  PBT_EQ(total, n - 200U);
  c.log("height %u", static_cast<unsigned>(r.m_.height_));
  c.nontrivial_if(r.m_.height_ > 16);
}
}  // namespace
