// Random modifications of a value of any serializable type.
//   edit_value(c, t, depth)   changes t in place; which change is a function of
//                             the choices and of the (canonical) value of t
// Two values with equal dumps, edited with equal choices, must stay equal.
#pragma once
#include "gen.h"

namespace ed {

using gen::dump_of;
using gen::gen_value;
using pbt::Ctx;

// really copyable (std::is_copy_constructible is true for a vector of move-only
// elements)
template <typename T, typename = void>
struct cp : std::is_copy_constructible<T> {};
template <typename T>
inline constexpr bool copyable = cp<T>::value;
template <typename T>
struct cp_tie;
template <typename... X>
struct cp_tie<std::tuple<X&...>> : std::bool_constant<(cp<std::remove_const_t<X>>::value && ...)> {};
template <typename T>
struct cp<T, std::void_t<decltype(std::declval<T&>().each())>> : cp_tie<decltype(std::declval<T&>().each())> {};
template <typename X, template <typename> typename P, bool I, typename S>
struct cp<cista::basic_vector<X, P, I, S>> : cp<X> {};
template <typename X, template <typename> typename P, typename GK, typename GV, typename H, typename E>
struct cp<cista::hash_storage<X, P, GK, GV, H, E>> : cp<X> {};
template <typename X>
struct cp<cista::optional<X>> : cp<X> {};
template <typename... X>
struct cp<cista::variant<X...>> : std::bool_constant<(cp<X>::value && ...)> {};
template <typename... X>
struct cp<cista::tuple<X...>> : std::bool_constant<(cp<X>::value && ...)> {};
template <typename A, typename B>
struct cp<cista::pair<A, B>> : std::bool_constant<cp<A>::value && cp<B>::value> {};
template <typename A, typename B>
struct cp<std::pair<A, B>> : std::bool_constant<cp<A>::value && cp<B>::value> {};
template <typename X, std::size_t N>
struct cp<cista::array<X, N>> : cp<X> {};
template <typename X, typename P>
struct cp<cista::basic_unique_ptr<X, P>> : std::false_type {};

template <typename T, typename = void>
struct edit {
  static void go(Ctx& c, T& t, int d);
};
template <typename T>
void edit_value(Ctx& c, T& t, int d) {
  edit<T>::go(c, t, d);
}
template <typename T>
T fresh(Ctx& c, int d) {
  T x{};
  gen_value(c, x, d);
  return x;
}
// changes every kind of value supports; k in [0,4)
template <typename T>
void whole(Ctx& c, T& t, int d, unsigned k) {
  switch (k) {
    case 0: {  // replace by move assignment
      auto x = fresh<T>(c, d + 1);
      t = std::move(x);
      break;
    }
    case 1: {  // moved out and back
      auto const before = dump_of(t);
      T x{std::move(t)};
      PBT_EQ(dump_of(x), before);
      t = std::move(x);
      break;
    }
    case 2:  // replaced by a copy
      if constexpr (copyable<T>) {
        T const x = fresh<T>(c, d + 1);
        t = x;
        PBT_EQ(dump_of(t), dump_of(x));
      }
      break;
    default:  // copied out and assigned back
      if constexpr (copyable<T>) {
        auto const before = dump_of(t);
        T x{t};
        PBT_EQ(dump_of(x), before);
        t = fresh<T>(c, d + 1);
        PBT_EQ(dump_of(x), before);
        t = x;
      }
      break;
  }
}

template <typename T>
struct edit<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void go(Ctx& c, T& t, int d) { gen_value(c, t, d); }
};
template <typename T, typename Tag>
struct edit<cista::strong<T, Tag>> {
  static void go(Ctx& c, cista::strong<T, Tag>& t, int d) { gen_value(c, t, d); }
};
template <typename R, typename P>
struct edit<std::chrono::duration<R, P>> {
  static void go(Ctx& c, std::chrono::duration<R, P>& t, int d) { gen_value(c, t, d); }
};
template <typename C, typename D>
struct edit<std::chrono::time_point<C, D>> {
  static void go(Ctx& c, std::chrono::time_point<C, D>& t, int d) { gen_value(c, t, d); }
};

template <typename... X>
void edit_one(Ctx& c, int d, X&... x) {
  auto k = c.idx(sizeof...(X));
  ((k-- == 0 ? edit_value(c, x, d) : void()), ...);
}
// aggregates
template <typename T, typename E>
void edit<T, E>::go(Ctx& c, T& t, int d) {
  if (c.chance(1, 8)) {
    return whole(c, t, d, static_cast<unsigned>(c.u(3)));
  }
  std::apply([&](auto&... x) { edit_one(c, d, x...); }, t.each());
}
template <typename A, typename B>
struct edit<cista::pair<A, B>> {
  static void go(Ctx& c, cista::pair<A, B>& t, int d) {
    c.chance(1, 5) ? whole(c, t, d, static_cast<unsigned>(c.u(3))) : edit_one(c, d, t.first, t.second);
  }
};
template <typename A, typename B>
struct edit<std::pair<A, B>> {
  static void go(Ctx& c, std::pair<A, B>& t, int d) { edit_one(c, d, t.first, t.second); }
};
template <typename... X>
struct edit<cista::tuple<X...>> {
  using T = cista::tuple<X...>;
  template <std::size_t... I>
  static void e(Ctx& c, T& t, int d, std::index_sequence<I...>) {
    edit_one(c, d, cista::get<I>(t)...);
  }
  static void go(Ctx& c, T& t, int d) {
    c.chance(1, 5) ? whole(c, t, d, static_cast<unsigned>(c.u(3)))
                   : e(c, t, d, std::index_sequence_for<X...>{});
  }
};
template <typename X, std::size_t N>
struct edit<cista::array<X, N>> {
  static void go(Ctx& c, cista::array<X, N>& t, int d) { edit_value(c, t[c.idx(N)], d + 1); }
};
template <std::size_t N>
struct edit<cista::bitset<N>> {
  static void go(Ctx& c, cista::bitset<N>& t, int) {
    switch (c.u(4)) {
      case 0: t = ~t; break;
      case 1: t <<= c.u(N + 1); break;
      case 2: t.reset(); break;
      default: t.set(c.idx(N), c.flip());
    }
  }
};

// strings
template <typename Ptr>
struct edit<cista::basic_string<Ptr>> {
  using T = cista::basic_string<Ptr>;
  using C = typename T::CharT;
  static void go(Ctx& c, T& t, int d) {
    switch (c.u(5)) {
      case 0:
        if (t.size() != 0) {
          t.data()[c.idx(t.size())] = static_cast<C>('Z');
        }
        break;
      case 1: {
        if (t.size() == 0) {
          break;
        }
        auto const p = static_cast<typename T::msize_t>(c.u(t.size()));
        t.erase(p, static_cast<typename T::msize_t>(c.u(t.size() - p)));
        break;
      }
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename Ptr>
struct edit<cista::basic_cstring<Ptr>> {
  using T = cista::basic_cstring<Ptr>;
  static void go(Ctx& c, T& t, int d) {
    if (t.size() != 0 && c.chance(1, 4)) {
      t.data()[c.idx(t.size())] = 'Z';
    } else {
      whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};

template <typename X, template <typename> typename P, bool Idx, typename S>
struct edit<cista::basic_vector<X, P, Idx, S>> {
  using T = cista::basic_vector<X, P, Idx, S>;
  using sz = typename T::size_type;
  static std::size_t n(T const& t) { return static_cast<std::size_t>(t.size()); }
  static void go(Ctx& c, T& t, int d) {
    auto const room = n(t) < 100;
    switch (c.u(14)) {
      case 0:
        if (room) {
          t.push_back(fresh<X>(c, d + 1));
        }
        break;
      case 1:
        if (room) {
          t.emplace_back();
          gen_value(c, t.back(), d + 1);
        }
        break;
      case 2:
        if (n(t) != 0) {
          t.pop_back();
        }
        break;
      case 3:
        if (room) {
          auto const at = c.u(n(t));
          auto x = fresh<X>(c, d + 1);
          auto const want = dump_of(x);
          auto it = t.insert(t.begin() + static_cast<std::ptrdiff_t>(at), std::move(x));
          PBT_EQ(static_cast<std::size_t>(it - t.begin()), static_cast<std::size_t>(at));
          PBT_EQ(dump_of(*it), want);
        }
        break;
      case 4:
        if (n(t) != 0) {
          t.erase(t.begin() + static_cast<std::ptrdiff_t>(c.idx(n(t))));
        }
        break;
      case 5: {
        auto const a = c.u(n(t)), b = a + c.u(n(t) - a);
        t.erase(t.begin() + static_cast<std::ptrdiff_t>(a), t.begin() + static_cast<std::ptrdiff_t>(b));
        break;
      }
      case 6:
        if constexpr (copyable<X> && !std::is_same_v<X, bool>) {
          auto const m = static_cast<sz>(room ? c.u(n(t) + 6) : c.u(n(t)));
          t.resize(m, fresh<X>(c, d + 1));
        }
        break;
      case 7: t.reserve(static_cast<sz>(std::min<std::size_t>(c.u(2 * n(t) + 3), 200))); break;
      case 8:
        if (c.chance(1, 3)) {
          t.clear();
        }
        break;
      case 9:
      case 10:
      case 11:
        if (n(t) != 0) {
          edit_value(c, t.begin()[c.idx(n(t))], d + 1);
        }
        break;
      case 12: {
        auto x = fresh<T>(c, d + 1);
        auto const a = dump_of(x), b = dump_of(t);
        using std::swap;
        swap(x, t);
        PBT_EQ(dump_of(x), b);
        PBT_EQ(dump_of(t), a);
        if (c.flip()) {
          swap(t, x);
        }
        break;
      }
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};

template <typename X, template <typename> typename P, typename GK, typename GV, typename H, typename E>
struct edit<cista::hash_storage<X, P, GK, GV, H, E>> {
  using T = cista::hash_storage<X, P, GK, GV, H, E>;
  static typename T::iterator nth(T& t, std::size_t k) {
    std::vector<std::pair<std::string, typename T::iterator>> v;
    for (auto it = t.begin(); it != t.end(); ++it) {
      v.emplace_back(dump_of(GK{}(*it)), it);
    }
    std::nth_element(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(k), v.end(),
                     [](auto const& a, auto const& b) { return a.first < b.first; });
    return v[k].second;
  }
  static void go(Ctx& c, T& t, int d) {
    auto const n = static_cast<std::size_t>(t.size());
    switch (c.u(8)) {
      case 0:
      case 1:
      case 2:
        if (n < 100) {
          auto x = fresh<X>(c, d + 1);
          auto const had = t.find(GK{}(x)) != t.end();
          PBT_EQ(t.emplace(std::move(x)).second, !had);
          PBT_EQ(static_cast<std::size_t>(t.size()), n + (had ? 0 : 1));
        }
        break;
      case 3:
        if (n != 0) {
          t.erase(nth(t, c.idx(n)));
          PBT_EQ(static_cast<std::size_t>(t.size()), n - 1);
        }
        break;
      case 4:
        if (n != 0) {
          auto const it = nth(t, c.idx(n));
          PBT_EQ(static_cast<std::size_t>(t.erase(GK{}(*it))), std::size_t{1});
          PBT_EQ(static_cast<std::size_t>(t.size()), n - 1);
        }
        break;
      case 5:
      case 6:
        if constexpr (!std::is_same_v<GK, GV>) {
          if (n != 0) {
            edit_value(c, nth(t, c.idx(n))->second, d + 1);
          }
        }
        break;
      case 7:
        if (c.chance(1, 4)) {
          t.clear();
        } else {
          t.rehash();
        }
        break;
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};

template <typename X, typename P>
struct edit<cista::basic_unique_ptr<X, P>> {
  using T = cista::basic_unique_ptr<X, P>;
  static void go(Ctx& c, T& t, int d) {
    switch (c.u(5)) {
      case 0: {
        auto x = fresh<T>(c, d + 1);
        t = std::move(x);
        break;
      }
      case 1: {
        T x{std::move(t)};
        PBT_CHECK(!t);
        t = std::move(x);
        break;
      }
      case 2:
        if (c.chance(1, 3)) {
          t = T{};
        }
        break;
      default:
        if (t) {
          edit_value(c, *t, d + 1);
        }
    }
  }
};
template <typename X>
struct edit<cista::optional<X>> {
  using T = cista::optional<X>;
  static void go(Ctx& c, T& t, int d) {
    switch (c.u(4)) {
      case 0: t = fresh<X>(c, d + 1); break;
      case 1:
        if (t.has_value()) {
          edit_value(c, *t, d + 1);
        }
        break;
      case 2:
        if (c.chance(1, 2)) {
          t = T{};
        }
        break;
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename... X>
struct edit<cista::variant<X...>> {
  using T = cista::variant<X...>;
  template <std::size_t... I>
  static void e(Ctx& c, T& t, int d, std::index_sequence<I...>) {
    ((t.index() == I ? edit_value(c, cista::get<X>(t), d + 1) : void()), ...);
  }
  static void go(Ctx& c, T& t, int d) {
    switch (c.u(3)) {
      case 0: gen_value(c, t, d + 1); break;
      case 1: whole(c, t, d, static_cast<unsigned>(c.u(3))); break;
      default: e(c, t, d, std::index_sequence_for<X...>{});
    }
  }
};

// nested containers
template <typename V, typename K>
struct edit<cista::basic_bitvec<V, K>> {
  using T = cista::basic_bitvec<V, K>;
  static void go(Ctx& c, T& t, int d) {
    auto const n = static_cast<std::size_t>(t.size());
    switch (c.u(5)) {
      case 0: t.resize(static_cast<typename T::size_type>(c.u(n + 70))); break;
      case 1:
      case 2:
        if (n != 0) {
          t.set(K(static_cast<unsigned>(c.idx(n))), c.flip());
        }
        break;
      case 3: t.one_out(); break;
      case 4: t.zero_out(); break;
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename K, typename D, typename I>
struct edit<cista::basic_vecvec<K, D, I>> {
  using T = cista::basic_vecvec<K, D, I>;
  using X = typename D::value_type;
  static void go(Ctx& c, T& t, int d) {
    auto const n = static_cast<std::size_t>(cista::to_idx(t.size()));
    switch (c.u(5)) {
      case 0:
        if (n < 60) {
          std::vector<X> b(c.u(5));
          for (auto& x : b) {
            gen_value(c, x, d + 2);
          }
          t.emplace_back(b);
        }
        break;
      case 1:
        if (n != 0) {
          t.back().push_back(fresh<X>(c, d + 2));
        }
        break;
      case 2:
        if (n != 0) {
          t[K(static_cast<cista::base_t<K>>(c.idx(n)))].push_back(fresh<X>(c, d + 2));
        }
        break;
      case 3:
      case 4:
        if (n != 0) {
          auto b = t[K(static_cast<cista::base_t<K>>(c.idx(n)))];
          if (b.size() != 0) {
            edit_value(c, b.begin()[static_cast<std::ptrdiff_t>(c.idx(b.size()))], d + 2);
          }
        }
        break;
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename K, typename D, typename I, typename S>
struct edit<cista::basic_nvec<K, D, I, 2, S>> {
  using T = cista::basic_nvec<K, D, I, 2, S>;
  using X = typename D::value_type;
  static void go(Ctx& c, T& t, int d) {
    if (t.size() < 40 && c.flip()) {
      std::vector<std::vector<X>> b(c.u(4));
      for (auto& x : b) {
        x.resize(c.u(4));
        for (auto& y : x) {
          gen_value(c, y, d + 3);
        }
      }
      t.emplace_back(b);
    } else {
      whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename I, typename P, typename K>
struct edit<cista::paged_vecvec<I, P, K>> {
  using T = cista::paged_vecvec<I, P, K>;
  using X = typename P::value_type;
  static void go(Ctx& c, T& t, int d) {
    auto const n = static_cast<std::size_t>(t.size());
    if (n < 40 && c.chance(1, 3)) {
      std::vector<X> b(c.u(20));
      for (auto& x : b) {
        gen_value(c, x, d + 2);
      }
      t.emplace_back(b);
    } else if (n != 0 && c.chance(2, 3)) {
      auto const k = K(static_cast<cista::base_t<K>>(c.idx(n)));
      for (auto i = c.u(9); i != 0; --i) {
        t[k].push_back(fresh<X>(c, d + 2));
      }
    } else {
      whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename D, typename I>
struct edit<cista::fws_multimap<D, I>> {
  using T = cista::fws_multimap<D, I>;
  static void go(Ctx& c, T& t, int d) {
    whole(c, t, d, static_cast<unsigned>(c.u(3)));
  }
};
template <typename X, typename S, template <typename> typename V, std::size_t L>
struct edit<cista::dynamic_fws_multimap_base<X, S, V, L>> {
  using T = cista::dynamic_fws_multimap_base<X, S, V, L>;
  static void go(Ctx& c, T& t, int d) {
    auto const n = t.size();
    auto const key = [&](std::size_t k) { return S(static_cast<cista::base_t<S>>(k)); };
    switch (c.u(6)) {
      case 0:
      case 1:
        if (t.element_count() < 200) {
          auto const k = key(c.u(std::min<std::size_t>(n, 40)));
          for (auto i = c.u(5); i != 0; --i) {
            t[k].push_back(fresh<X>(c, d + 2));
          }
        }
        break;
      case 2:
        if (n != 0) {
          auto b = t[key(c.idx(n))];
          if (!b.empty()) {
            b.pop_back();
          }
        }
        break;
      case 3:
        if (n != 0) {
          auto b = t[key(c.idx(n))];
          if (!b.empty()) {
            edit_value(c, b[static_cast<typename T::size_type>(c.idx(b.size()))], d + 2);
          }
        }
        break;
      case 4:
        if (n != 0) {
          t[key(c.idx(n))].clear();
        }
        break;
      case 5:
        if (n != 0) {
          auto b = t[key(c.idx(n))];
          b.resize(static_cast<typename T::size_type>(c.u(b.size() + 3)));
        }
        break;
      default: whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename V>
struct edit<cista::base_flat_matrix<V>> {
  using T = cista::base_flat_matrix<V>;
  static void go(Ctx& c, T& t, int d) {
    if (t.n_rows_ != 0 && t.n_columns_ != 0 && c.flip()) {
      edit_value(c, t[static_cast<typename T::size_type>(c.idx(t.n_rows_))]
                     [static_cast<typename T::size_type>(c.idx(t.n_columns_))], d + 1);
    } else {
      whole(c, t, d, static_cast<unsigned>(c.u(3)));
    }
  }
};
template <typename D, template <typename, typename> typename VM,
          std::uint32_t Dims, typename N, std::uint32_t M, typename S>
struct edit<cista::basic_rtree<D, VM, Dims, N, M, S>> {
  using T = cista::basic_rtree<D, VM, Dims, N, M, S>;
  using coord = typename T::coord_t;
  static void go(Ctx& c, T& t, int d) {
    coord lo, hi;
    for (std::size_t k = 0; k != Dims; ++k) {
      lo[k] = static_cast<N>(c.range(-20, 20));
      hi[k] = lo[k] + static_cast<N>(c.u(5));
    }
    t.insert(lo, hi, fresh<D>(c, d + 2));
  }
};

}  // namespace ed
