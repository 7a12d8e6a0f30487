// C22: offset pointers against plain pointers; blocks that hold offset pointers
// into themselves are moved as a whole.
#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "cista/containers/offset_ptr.h"
#include "cista/containers/ptr.h"
#include "cista/strong.h"

#include "pbt.h"

namespace {

using pbt::Ctx;
using step_t = cista::strong<std::uint32_t, struct step_tag>;

struct base1 {
  int x_{1};
};
struct base2 {
  int y_{2};
};
struct node : base1, base2 {
  cista::offset_ptr<node> next_;  // at some offset
  int v_{};
};
struct head {  // the pointer comes first: a pointer to its own head has offset 0
  cista::offset_ptr<head> self_;
  cista::offset_ptr<head> other_;
  std::uint64_t v_{};
};

constexpr auto const N = 6U;   // nodes
constexpr auto const P = 5U;   // pointers of every kind
constexpr auto const H = 4U;

struct block {
  std::array<cista::offset_ptr<node>, P> p_;
  std::array<node, N> nodes_;
  std::array<cista::offset_ptr<node const>, P> cp_;
  std::array<cista::offset_ptr<void>, P> vp_;
  std::array<head, H> heads_;
  std::array<std::uint8_t, 16> bytes_{};
  std::array<cista::offset_ptr<std::uint8_t>, P> bp_;
  std::array<cista::offset_ptr<cista::offset_ptr<node>>, P> pp_;
};
static_assert(!std::is_polymorphic_v<block>);

// Every pointer of the block has a plain twin.
struct twin {
  std::array<node*, P> p_{};
  std::array<node*, N> next_{};
  std::array<node const*, P> cp_{};
  std::array<void*, P> vp_{};
  std::array<head*, H> self_{}, other_{};
  std::array<std::uint8_t*, P> bp_{};
  std::array<cista::offset_ptr<node>*, P> pp_{};

  template <typename Fn>
  void each(Fn&& f) {
    auto const all = [&](auto& a) {
      for (auto& x : a) {
        f(x);
      }
    };
    all(p_), all(next_), all(cp_), all(vp_), all(self_), all(other_), all(bp_), all(pp_);
  }
};

node g_outside[3];

template <typename T, typename Q>
void same_ptr(cista::offset_ptr<T> const& o, Q* raw, char const* what, unsigned const i) {
  PBT_CHECK(o.get() == raw, "%s %u: %p instead of %p", what, i, static_cast<void const*>(o.get()),
            static_cast<void const*>(raw));
  PBT_CHECK(static_cast<bool>(o) == (raw != nullptr), "%s %u: bool", what, i);
  PBT_CHECK((o == nullptr) == (raw == nullptr) && (o != nullptr) == (raw != nullptr) &&
                (nullptr == o) == (raw == nullptr) && (nullptr != o) == (raw != nullptr),
            "%s %u: comparison with null", what, i);
  PBT_CHECK(static_cast<void const*>(o) == raw, "%s %u: conversion to void const*", what, i);
}

void same(block& b, twin& t) {
  for (auto i = 0U; i != P; ++i) {
    same_ptr(b.p_[i], t.p_[i], "pointer", i);
    same_ptr(b.cp_[i], t.cp_[i], "pointer to constant", i);
    same_ptr(b.vp_[i], t.vp_[i], "void pointer", i);
    same_ptr(b.bp_[i], t.bp_[i], "byte pointer", i);
    same_ptr(b.pp_[i], t.pp_[i], "pointer to pointer", i);
  }
  for (auto i = 0U; i != N; ++i) {
    same_ptr(b.nodes_[i].next_, t.next_[i], "next", i);
  }
  for (auto i = 0U; i != H; ++i) {
    same_ptr(b.heads_[i].self_, t.self_[i], "self", i);
    same_ptr(b.heads_[i].other_, t.other_[i], "other", i);
  }
}

template <typename T>
T by_value(T x) {
  return x;
}

}  // namespace

PBT_TARGET(offset_ptr_history, 120000, 600000) {
  // two areas with room to place the block at several (overlapping) places
  constexpr auto const room = sizeof(block) + 256U;
  std::vector<std::uint64_t> area[2] = {std::vector<std::uint64_t>(room / 8U + 1U), std::vector<std::uint64_t>(room / 8U + 1U)};
  auto const place = [&](unsigned const a, std::size_t const off) {
    return reinterpret_cast<std::uint8_t*>(area[a].data()) + off * 8U;
  };
  auto* b = new (place(0, c.idx(32))) block{};
  auto t = twin{};
  auto relocations = 0U, ops = 0U;
  for (auto i = 0U; i != N; ++i) {
    b->nodes_[i].v_ = static_cast<int>(i) * 10;
  }
  for (auto i = 0U; i != 16U; ++i) {
    b->bytes_[i] = static_cast<std::uint8_t>(i);
  }

  auto const inside = [&](void const* x) {
    auto const* p = static_cast<std::uint8_t const*>(x);
    auto const* s = reinterpret_cast<std::uint8_t const*>(b);
    return p >= s && p <= s + sizeof(block);
  };
  // any place a typed pointer may have: null, an element, the end, outside
  auto const node_place = [&](bool const deref) -> node* {
    switch (c.u(6)) {
      case 0: return deref ? &b->nodes_[0] : nullptr;
      case 1: return deref ? &b->nodes_[N - 1U] : b->nodes_.data() + N;
      case 2: return &g_outside[c.idx(3U)];
      default: return &b->nodes_[c.idx(N)];
    }
  };

  // arithmetic of a pointer into a range, or to its end
  auto const walk = [&](auto& o, auto*& r, auto const& o2, auto* const r2, auto* const first, std::ptrdiff_t const count,
                        char const* name, std::size_t const i, auto&& touch) {
    if (r == nullptr || r < first || r > first + count) {
      return;
    }
    auto const lo = r - first, hi = count - lo;
    switch (c.u(7)) {
      case 0:
        if (hi > 0) {
          c.log("++%s%u", name, static_cast<unsigned>(i));
          auto& self = ++o;
          ++r;
          PBT_CHECK(&self == &o, "++ returns another object");
        }
        break;
      case 1:
        if (lo > 0) {
          c.log("--%s%u", name, static_cast<unsigned>(i));
          auto& self = --o;
          --r;
          PBT_CHECK(&self == &o, "-- returns another object");
        }
        break;
      case 2:
        if (hi > 0) {
          c.log("%s%u++", name, static_cast<unsigned>(i));
          auto const old = o++;
          auto* const old_r = r++;
          PBT_CHECK(old == old_r, "result of a post increment");
        }
        break;
      case 3:
        if (lo > 0) {
          c.log("%s%u--", name, static_cast<unsigned>(i));
          auto const old = o--;
          auto* const old_r = r--;
          PBT_CHECK(old == old_r, "result of a post decrement");
        }
        break;
      case 4: {
        auto const d = static_cast<int>(c.u(static_cast<std::uint64_t>(hi)));
        c.log("%s%u = %s%u + %d", name, static_cast<unsigned>(i), name, static_cast<unsigned>(i), d);
        PBT_CHECK(o + static_cast<std::size_t>(d) == r + d && o + static_cast<std::int8_t>(d) == r + d &&
                      o + step_t{static_cast<std::uint32_t>(d)} == r + d &&
                      std::as_const(o) + step_t{static_cast<std::uint32_t>(d)} == r + d,
                  "sum with %d", d);
        o = o + d;
        r = r + d;
        break;
      }
      case 5: {
        auto const d = static_cast<int>(c.u(static_cast<std::uint64_t>(lo)));
        c.log("%s%u = %s%u - %d", name, static_cast<unsigned>(i), name, static_cast<unsigned>(i), d);
        PBT_CHECK(o - static_cast<std::size_t>(d) == r - d && o - static_cast<std::int16_t>(d) == r - d &&
                      o - step_t{static_cast<std::uint32_t>(d)} == r - d && o + (-d) == r - d,
                  "difference with %d", d);
        o = o - d;
        r = r - d;
        break;
      }
      case 6:
        if (r2 != nullptr && r2 >= first && r2 <= first + count) {
          PBT_EQ(o - o2, r - r2, "distance of two offset pointers");
          PBT_EQ(o - r2, r - r2, "distance to a plain pointer");
          PBT_EQ(r2 - o, r2 - r, "distance from a plain pointer");
        }
        break;
      default:
        if (hi > 0) {
          auto const k = c.idx(static_cast<std::uint64_t>(hi));
          PBT_CHECK(&o[k] == &r[k] && &*o == r, "access through a pointer");
          touch(o[k], r[k]);
        }
        break;
    }
  };

  same(*b, t);
  for (auto step = 0U; step < 80U && c.more(25); ++step) {
    ++ops;
    auto const i = c.idx(P), j = c.idx(P);
    switch (c.u(19)) {
      case 0: {
        auto* const x = node_place(false);
        c.log("p%u = %s", static_cast<unsigned>(i), x == nullptr ? "null" : inside(x) ? "inside" : "outside");
        if (x == nullptr && c.flip()) {
          b->p_[i] = nullptr;
        } else {
          b->p_[i] = x;
        }
        t.p_[i] = x;
        break;
      }
      case 1: {
        c.log("p%u = p%u", static_cast<unsigned>(i), static_cast<unsigned>(j));
        if (c.flip()) {
          auto const& src = b->p_[j];
          b->p_[i] = src;
        } else {
          b->p_[i] = std::move(b->p_[j]);  // pointers: the source keeps its value
        }
        t.p_[i] = t.p_[j];
        break;
      }
      case 2: {
        c.log("swap p%u p%u", static_cast<unsigned>(i), static_cast<unsigned>(j));
        std::swap(b->p_[i], b->p_[j]);
        std::swap(t.p_[i], t.p_[j]);
        break;
      }
      case 3: {  // through the stack, the heap and by value
        c.log("round trip p%u", static_cast<unsigned>(i));
        auto const on_stack = b->p_[i];
        same_ptr(on_stack, t.p_[i], "stack copy", 0U);
        auto const heap = std::make_unique<cista::offset_ptr<node>>(on_stack);
        same_ptr(*heap, t.p_[i], "heap copy", 0U);
        auto const v = by_value(by_value(*heap));
        same_ptr(v, t.p_[i], "value copy", 0U);
        b->p_[j] = v;
        t.p_[j] = t.p_[i];
        break;
      }
      case 4: {
        c.log("other pointer types from p%u", static_cast<unsigned>(i));
        b->cp_[j] = b->p_[i].get();
        t.cp_[j] = t.p_[i];
        b->vp_[j] = cista::offset_ptr<void>{b->p_[i].get()};
        t.vp_[j] = t.p_[i];
        break;
      }
      case 5: {
        c.log("p%u from a const / void pointer", static_cast<unsigned>(i));
        if (c.flip()) {
          auto const* const x = t.cp_[j];
          b->p_[i] = b->cp_[j];  // const is not kept, by construction from T const*
          t.p_[i] = const_cast<node*>(x);
        } else if (t.vp_[j] == nullptr || t.vp_[j] >= static_cast<void*>(b->nodes_.data())) {
          b->cp_[i] = static_cast<node const*>(t.cp_[j]);
          t.cp_[i] = t.cp_[j];
        }
        break;
      }
      case 6: {
        void* const targets[] = {nullptr, b, &b->vp_[i], &b->vp_[j], &b->nodes_[1], &b->bytes_[3], g_outside,
                                 reinterpret_cast<std::uint8_t*>(b) + sizeof(block)};
        auto* const x = targets[c.idx(8U)];
        c.log("v%u = %s", static_cast<unsigned>(i), x == nullptr ? "null" : x == &b->vp_[i] ? "itself" : "some place");
        if (x == nullptr && c.flip()) {
          b->vp_[i] = nullptr;
        } else {
          b->vp_[i] = x;
        }
        t.vp_[i] = x;
        break;
      }
      case 7: {
        c.log("v%u = v%u", static_cast<unsigned>(i), static_cast<unsigned>(j));
        auto const copy = b->vp_[j];
        same_ptr(copy, t.vp_[j], "copy of a void pointer", 0U);
        if (c.flip()) {
          b->vp_[i] = copy;
        } else {
          b->vp_[i] = std::move(b->vp_[j]);
        }
        t.vp_[i] = t.vp_[j];
        break;
      }
      case 8: {  // comparisons
        PBT_EQ(b->vp_[i] == b->vp_[j], t.vp_[i] == t.vp_[j], "== of void pointers");
        PBT_EQ(b->vp_[i] != b->vp_[j], t.vp_[i] != t.vp_[j], "!= of void pointers");
        PBT_EQ(b->p_[i] == b->p_[j], t.p_[i] == t.p_[j], "==");
        PBT_EQ(b->p_[i] != b->p_[j], t.p_[i] != t.p_[j], "!=");
        PBT_EQ(b->p_[i] < b->p_[j], t.p_[i] < t.p_[j], "<");
        PBT_EQ(b->p_[i] <= b->p_[j], t.p_[i] <= t.p_[j], "<=");
        PBT_EQ(b->p_[i] > b->p_[j], t.p_[i] > t.p_[j], ">");
        PBT_EQ(b->p_[i] >= b->p_[j], t.p_[i] >= t.p_[j], ">=");
        PBT_EQ(b->p_[i] == t.p_[j], t.p_[i] == t.p_[j], "== plain");
        PBT_EQ(t.p_[i] == b->p_[j], t.p_[i] == t.p_[j], "plain ==");
        PBT_EQ(b->p_[i] < t.p_[j], t.p_[i] < t.p_[j], "< plain");
        PBT_EQ(b->cp_[i] == b->cp_[j], t.cp_[i] == t.cp_[j], "== of constants");
        PBT_EQ(cista::ptr_cast<node>(b->p_[i]) == t.p_[i], true, "ptr_cast");
        PBT_EQ(cista::ptr_cast<node>(t.p_[i]) == t.p_[i], true, "ptr_cast of a plain pointer");
        break;
      }
      case 9: {  // bytes: arithmetic over a whole range
        auto* const x = &b->bytes_[0] + c.u(16U);
        c.log("b%u = byte %td", static_cast<unsigned>(i), x - &b->bytes_[0]);
        b->bp_[i] = x;
        t.bp_[i] = x;
        break;
      }
      case 10:
        walk(b->bp_[i], t.bp_[i], b->bp_[j], t.bp_[j], b->bytes_.data(), 16, "b", i, [&](std::uint8_t& x, std::uint8_t& y) {
          x = static_cast<std::uint8_t>(c.u(255));
          PBT_EQ(x, y, "write through a byte pointer");
        });
        break;
      case 11:
        walk(b->p_[i], t.p_[i], b->p_[j], t.p_[j], b->nodes_.data(), static_cast<std::ptrdiff_t>(N), "p", i, [&](node& x, node& y) {
          x.v_ = static_cast<int>(c.u(1000));
          PBT_EQ(x.v_, y.v_, "write through a pointer");
        });
        break;
      case 12: {  // dereference
        auto* const x = node_place(true);
        b->p_[i] = x;
        t.p_[i] = x;
        auto const& o = b->p_[i];
        auto const e = static_cast<int>(c.u(1000));
        c.log("p%u->v = %d", static_cast<unsigned>(i), e);
        o->v_ = e;
        PBT_CHECK(x->v_ == e && (*o).v_ == e && o[0].v_ == e && &*o == x && o.operator->() == x, "dereference");
        base2* const up = o;  // the pointer conversion adjusts the address
        PBT_CHECK(up == static_cast<base2*>(x) && up->y_ == 2, "conversion to a base class pointer");
        cista::offset_ptr<base2> const ob{static_cast<base2*>(o)};
        PBT_CHECK(ob == up && ob->y_ == 2, "offset pointer to a base class");
        break;
      }
      case 13: {
        auto const k = c.idx(N);
        auto* const x = c.chance(1, 4) ? &b->nodes_[k] : node_place(false);
        c.log("node %u next", static_cast<unsigned>(k));
        b->nodes_[k].next_ = x;
        t.next_[k] = x;
        break;
      }
      case 14: {
        auto const k = c.idx(H), l = c.idx(H);
        c.log("head %u self, other = head %u", static_cast<unsigned>(k), static_cast<unsigned>(l));
        b->heads_[k].self_ = &b->heads_[k];  // offset zero is not null
        t.self_[k] = &b->heads_[k];
        b->heads_[k].other_ = b->heads_[l].self_;
        t.other_[k] = t.self_[l];
        if (c.chance(1, 4)) {
          b->heads_[l].self_ = nullptr;
          t.self_[l] = nullptr;
        }
        break;
      }
      case 15: {  // pointer to a pointer
        auto* const x = &b->p_[j];
        c.log("pp%u = &p%u", static_cast<unsigned>(i), static_cast<unsigned>(j));
        b->pp_[i] = x;
        t.pp_[i] = x;
        same_ptr(*b->pp_[i], t.p_[j], "pointer behind a pointer", 0U);
        if (c.flip()) {
          auto* const y = node_place(false);
          *b->pp_[i] = y;
          t.p_[j] = y;
        }
        break;
      }
      case 16: {  // containers of offset pointers move and copy their elements
        c.log("sort and grow");
        std::vector<cista::offset_ptr<node>> v;
        std::vector<node*> w;
        for (auto k = 0U; k != P; ++k) {
          v.push_back(b->p_[k]);
          w.push_back(t.p_[k]);
        }
        v.insert(v.begin() + 1, b->p_[j]);
        w.insert(w.begin() + 1, t.p_[j]);
        std::sort(v.begin(), v.end());
        std::sort(w.begin(), w.end());
        auto const moved = std::move(v);
        for (auto k = 0U; k != w.size(); ++k) {
          same_ptr(moved[k], w[k], "sorted pointer", k);
        }
        break;
      }
      default: {  // relocation
        t.each([&](auto*& x) {
          if (x != nullptr && !inside(x)) {
            x = nullptr;  // pointers out of the block are not kept
          }
        });
        for (auto k = 0U; k != P; ++k) {
          b->p_[k] = t.p_[k];
          b->cp_[k] = t.cp_[k];
          b->vp_[k] = t.vp_[k];
        }
        for (auto k = 0U; k != N; ++k) {
          b->nodes_[k].next_ = t.next_[k];
        }
        auto* const to = place(static_cast<unsigned>(c.idx(2U)), c.idx(32U));
        auto const* const from = reinterpret_cast<std::uint8_t*>(b);
        c.log("move the block by %td bytes", to - from);
        auto const old = reinterpret_cast<std::uintptr_t>(b);
        auto image = std::vector<std::uint8_t>(from, from + sizeof(block));
        for (auto& a : area) {
          std::memset(static_cast<void*>(a.data()), 0xA5, a.size() * 8U);
        }
        std::memcpy(to, image.data(), sizeof(block));
        b = reinterpret_cast<block*>(to);
        t.each([&](auto*& x) {
          if (x != nullptr) {
            x = reinterpret_cast<std::remove_reference_t<decltype(x)>>(reinterpret_cast<std::uintptr_t>(x) - old +
                                                                        reinterpret_cast<std::uintptr_t>(b));
          }
        });
        ++relocations;
        break;
      }
    }
    same(*b, t);
  }
  c.nontrivial_if(ops >= 5U && relocations != 0U);
  if (relocations > 1U) {
    c.label("moved twice");
  }
}

// a linked structure of random shape keeps its shape
PBT_TARGET(offset_ptr_graph, 20000, 100000) {
  auto const n = 1U + static_cast<unsigned>(c.u(20));
  std::vector<head> mem(n);
  std::vector<std::pair<int, int>> want(n);
  for (auto i = 0U; i != n; ++i) {
    auto const target = [&](cista::offset_ptr<head>& p) {
      auto const x = static_cast<int>(c.u(n)) - 1;
      if (x >= 0) {
        p = &mem[static_cast<unsigned>(x)];
      }
      return x;
    };
    want[i] = {target(mem[i].self_), target(mem[i].other_)};
    mem[i].v_ = i;
  }
  auto const check = [&](head const* h, char const* what) {
    for (auto i = 0U; i != n; ++i) {
      auto const at = [&](cista::offset_ptr<head> const& p) {
        return p == nullptr ? -1 : static_cast<int>(p - h);
      };
      PBT_CHECK(at(h[i].self_) == want[i].first && at(h[i].other_) == want[i].second, "%s: links of %u", what, i);
      PBT_CHECK(h[i].self_ == nullptr || h[i].self_->v_ == static_cast<unsigned>(want[i].first), "%s: value behind %u",
                what, i);
    }
  };
  check(mem.data(), "original");
  auto copy = std::vector<std::uint64_t>(mem.size() * sizeof(head) / 8U + 40U);
  for (auto k = 0U; k != 4U; ++k) {
    auto* const to = copy.data() + c.idx(40U);
    std::memcpy(static_cast<void*>(to), static_cast<void const*>(mem.data()), n * sizeof(head));
    check(reinterpret_cast<head const*>(to), "copied block");
  }
  // a copy made member by member keeps pointing to the original
  auto const v = mem;
  for (auto i = 0U; i != n; ++i) {
    PBT_CHECK(v[i].self_ == mem[i].self_ && v[i].other_ == mem[i].other_, "copied elements point elsewhere");
  }
  c.nontrivial_if(n >= 3U);
}

static_assert(cista::is_pointer_v<cista::offset_ptr<int>> && cista::is_pointer_v<int*> && !cista::is_pointer_v<int>);
static_assert(cista::is_pointer_v<cista::offset_ptr<int> const> && cista::is_pointer_v<cista::offset_ptr<void>>);
static_assert(std::is_same_v<cista::remove_pointer_t<cista::offset_ptr<int>>, int> &&
              std::is_same_v<cista::remove_pointer_t<int const*>, int const>);
