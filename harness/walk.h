// Visits every scalar, every internal field (pointers, sizes, flags, control
// bytes) and every piece of storage of a serializable value.
#pragma once
#include <set>

#include "gen.h"

namespace wk {

enum class kind { PTR, SIZE, FLAG, CTRL, INDEX };

struct visitor {
  virtual ~visitor() = default;
  virtual void num(void const*, std::size_t, bool /* is integer */) {}
  virtual void meta(void const*, std::size_t, kind) {}
  // storage of n bytes, referenced by the object being visited
  virtual void range(void const*, std::size_t /* n */, std::size_t /* alignment */) {}
  // the same, only for storage outside of the object
  virtual void storage(void const*, std::size_t /* n */, std::size_t /* alignment */) {}
  // fields that only make sense together: (pointer, two sizes)
  virtual void group(void const*, void const*, void const*, std::size_t /* width */, std::size_t /* element */) {}
  // called once per table with the number of elements
  virtual void count(std::size_t) {}
  bool follow_plain_pointers_{false};
  bool internals_{false};  // bookkeeping that cannot be validated, too
  bool lookups_{false};  // also look every key of a hash table up
  std::set<std::pair<void const*, void const*>> seen_;  // address, type
};

template <typename T, typename = void>
struct has_each : std::false_type {};
template <typename T>
struct has_each<T, std::void_t<decltype(std::declval<T const&>().each())>> : std::true_type {};

template <typename T, typename = void>
struct wk {
  static void go(T const& t, visitor& f);
};
template <typename T>
void walk(T const& t, visitor& f) {
  wk<T>::go(t, f);
}
template <typename T, typename E>
void wk<T, E>::go(T const& t, visitor& f) {
  if constexpr (has_each<T>::value) {
    std::apply([&](auto const&... x) { (walk(x, f), ...); }, t.each());
  } else {
    cista::for_each_field(t, [&](auto const& x) { walk(x, f); });
  }
}

template <typename T>
struct wk<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void go(T const& t, visitor& f) { f.num(&t, sizeof(T), std::is_integral_v<T>); }
};
template <typename T, typename G>
struct wk<cista::strong<T, G>> {
  static void go(cista::strong<T, G> const& t, visitor& f) { walk(t.v_, f); }
};
template <typename R, typename P>
struct wk<std::chrono::duration<R, P>> {
  static void go(std::chrono::duration<R, P> const& t, visitor& f) { f.num(&t, sizeof(t), true); }
};
template <typename C, typename D>
struct wk<std::chrono::time_point<C, D>> {
  static void go(std::chrono::time_point<C, D> const& t, visitor& f) { f.num(&t, sizeof(t), true); }
};
template <typename T>
void const* type_tag() {
  static char const t{};
  return &t;
}
template <typename P>
void plain(P const& p, visitor& f) {
  f.meta(&p, sizeof(p), kind::PTR);
  auto const* x = cista::ptr_cast(p);
  using X = std::remove_const_t<std::remove_pointer_t<decltype(x)>>;
  if (x != nullptr) {
    f.range(x, sizeof(X), alignof(X));
    if (f.follow_plain_pointers_ && f.seen_.emplace(x, type_tag<X>()).second) {
      walk(*x, f);
    }
  }
}
template <typename T>
struct wk<cista::offset_ptr<T>> {
  static void go(cista::offset_ptr<T> const& t, visitor& f) { plain(t, f); }
};
template <typename T>
struct wk<T*> {
  static void go(T* const& t, visitor& f) { plain(t, f); }
};
template <typename Ptr>
void walk_str(cista::generic_string<Ptr> const& t, visitor& f) {
  using C = typename cista::generic_string<Ptr>::CharT;
  f.meta(&t.s_.is_short_, 1, kind::FLAG);
  if (!t.is_short()) {
    f.meta(&t.h_.ptr_, sizeof(t.h_.ptr_), kind::PTR);
    f.meta(&t.h_.size_, sizeof(t.h_.size_), kind::SIZE);
    f.meta(&t.h_.self_allocated_, 1, kind::FLAG);
    f.group(&t.h_.ptr_, &t.h_.size_, &t.h_.size_, sizeof(t.h_.size_), sizeof(C));
    if (t.size() != 0) {
      f.storage(t.data(), t.size() * sizeof(C), alignof(C));
    }
  }
  if (t.size() != 0) {
    f.range(t.data(), t.size() * sizeof(C), alignof(C));
  }
  for (std::size_t i = 0; i != t.size(); ++i) {
    f.num(t.data() + i, sizeof(C), true);
  }
}
#define WK_STR(S)                                                            \
  template <typename Ptr>                                                    \
  struct wk<cista::S<Ptr>> {                                                 \
    static void go(cista::generic_string<Ptr> const& t, visitor& f) { walk_str(t, f); } \
  };
WK_STR(generic_string)
WK_STR(basic_string)
WK_STR(basic_string_view)
#undef WK_STR
template <typename Ptr>
struct wk<cista::basic_cstring<Ptr>> {
  static void go(cista::basic_cstring<Ptr> const& t, visitor& f) {
    if (t.is_short()) {
      f.meta(&t.s_.remaining_, 1, kind::FLAG);
      f.range(t.data(), t.size() + 1, 1);
    } else {
      f.meta(&t.h_.ptr_, sizeof(t.h_.ptr_), kind::PTR);
      f.meta(&t.h_.size_, sizeof(t.h_.size_), kind::SIZE);
      f.meta(&t.h_.self_allocated_, 1, kind::FLAG);
      f.meta(&t.h_.minus_one_, 1, kind::FLAG);
      f.group(&t.h_.ptr_, &t.h_.size_, &t.h_.size_, sizeof(t.h_.size_), 1);
      f.storage(t.data(), t.size() + 1, 1);
      f.range(t.data(), t.size() + 1, 1);
    }
    for (std::size_t i = 0; i != t.size() + 1; ++i) {
      f.num(t.data() + i, 1, true);
    }
  }
};
template <typename E, template <typename> typename P, bool Idx, typename S>
struct wk<cista::basic_vector<E, P, Idx, S>> {
  static void go(cista::basic_vector<E, P, Idx, S> const& t, visitor& f) {
    f.meta(&t.el_, sizeof(t.el_), kind::PTR);
    f.meta(&t.used_size_, sizeof(t.used_size_), kind::SIZE);
    f.meta(&t.allocated_size_, sizeof(t.allocated_size_), kind::SIZE);
    f.meta(&t.self_allocated_, 1, kind::FLAG);
    f.group(&t.el_, &t.used_size_, &t.allocated_size_, sizeof(t.used_size_), sizeof(E));
    if (!t.empty()) {
      f.range(t.data(), t.size() * sizeof(E), alignof(E)); f.storage(t.data(), t.size() * sizeof(E), alignof(E));
    }
    for (auto const& e : t) {
      walk(e, f);
    }
  }
};
template <typename E>
struct wk<cista::indexed<E>> {
  static void go(cista::indexed<E> const& t, visitor& f) { walk(static_cast<E const&>(t), f); }
};
template <typename E>
struct wk<cista::optional<E>> {
  static void go(cista::optional<E> const& t, visitor& f) {
    f.meta(&t.valid_, 1, kind::FLAG);
    if (t.has_value()) {
      walk(*t, f);
    }
  }
};
template <typename E, typename P>
struct wk<cista::basic_unique_ptr<E, P>> {
  static void go(cista::basic_unique_ptr<E, P> const& t, visitor& f) {
    f.meta(&t.el_, sizeof(t.el_), kind::PTR);
    f.meta(&t.self_allocated_, 1, kind::FLAG);
    if (static_cast<bool>(t)) {
      f.range(&*t, sizeof(E), alignof(E)); f.storage(&*t, sizeof(E), alignof(E));
      walk(*t, f);
    }
  }
};
template <typename... E>
struct wk<cista::variant<E...>> {
  static void go(cista::variant<E...> const& t, visitor& f) {
    f.meta(&t.idx_, sizeof(t.idx_), kind::INDEX);
    t.apply([&](auto const& x) { walk(x, f); });
  }
};
template <typename... E>
struct wk<cista::tuple<E...>> {
  static void go(cista::tuple<E...> const& t, visitor& f) {
    cista::apply([&](auto const&... x) { (walk(x, f), ...); }, t);
  }
};
template <typename E, std::size_t N>
struct wk<cista::array<E, N>> {
  static void go(cista::array<E, N> const& t, visitor& f) {
    for (auto const& e : t) {
      walk(e, f);
    }
  }
};
template <typename A, typename B>
struct wk<cista::pair<A, B>> {
  static void go(cista::pair<A, B> const& t, visitor& f) {
    walk(t.first, f);
    walk(t.second, f);
  }
};
template <typename A, typename B>
struct wk<std::pair<A, B>> {
  static void go(std::pair<A, B> const& t, visitor& f) {
    walk(t.first, f);
    walk(t.second, f);
  }
};
template <typename E, template <typename> typename P, typename GK, typename GV, typename H, typename Q>
struct wk<cista::hash_storage<E, P, GK, GV, H, Q>> {
  static void go(cista::hash_storage<E, P, GK, GV, H, Q> const& t, visitor& f) {
    using T = cista::hash_storage<E, P, GK, GV, H, Q>;
    f.meta(&t.entries_, sizeof(t.entries_), kind::PTR);
    f.meta(&t.ctrl_, sizeof(t.ctrl_), kind::PTR);
    f.meta(&t.size_, sizeof(t.size_), kind::SIZE);
    f.meta(&t.capacity_, sizeof(t.capacity_), kind::SIZE);
    f.meta(&t.growth_left_, sizeof(t.growth_left_), kind::SIZE);
    f.meta(&t.self_allocated_, 1, kind::FLAG);
    f.group(&t.entries_, &t.size_, &t.capacity_, sizeof(t.size_), sizeof(E));
    auto const n_ctrl = static_cast<std::size_t>(t.capacity_) + 1 + T::WIDTH;
    f.range(cista::ptr_cast(t.ctrl_), n_ctrl, 1); f.storage(cista::ptr_cast(t.ctrl_), n_ctrl, 1);
    for (std::size_t i = 0; i != n_ctrl; ++i) {
      f.meta(cista::ptr_cast(t.ctrl_) + i, 1, kind::CTRL);
    }
    if (t.entries_ != nullptr) {
      f.range(cista::ptr_cast(t.entries_), t.capacity_ * sizeof(E), alignof(E)); f.storage(cista::ptr_cast(t.entries_), t.capacity_ * sizeof(E), alignof(E));
    }
    std::size_t n = 0;
    for (auto const& e : t) {
      PBT_CHECK(n++ <= t.capacity_, "endless iteration");
      walk(e, f);
      if (f.lookups_) {
        auto const it = t.find(GK{}(e));
        PBT_CHECK(it == t.end() || (it.inner_.ctrl_ >= cista::ptr_cast(t.ctrl_) &&
                                    it.inner_.ctrl_ < cista::ptr_cast(t.ctrl_) + t.capacity_),
                  "lookup leads outside of the table");
        if (it != t.end()) {
          walk(*it, f);
        }
      }
    }
    f.count(n);
    if (f.lookups_) {  // keys that are (probably) not contained
      using K = std::decay_t<decltype(GK{}(std::declval<E const&>()))>;
      for (auto i = 0U; i != 48U; ++i) {
        auto it = t.end();
        if constexpr (std::is_arithmetic_v<K> || std::is_enum_v<K>) {
          it = t.find(static_cast<K>(i * 2654435761U + 7U));
        } else if constexpr (std::is_constructible_v<K, std::string_view>) {
          it = t.find(K{std::string_view{"a key that is too long to be inline"}.substr(0, i)});
        }
        PBT_CHECK(it == t.end() || (it.inner_.ctrl_ >= cista::ptr_cast(t.ctrl_) &&
                                    it.inner_.ctrl_ < cista::ptr_cast(t.ctrl_) + t.capacity_),
                  "lookup leads outside of the table");
      }
    }
  }
};
template <std::size_t N>
struct wk<cista::bitset<N>> {
  static void go(cista::bitset<N> const& t, visitor& f) { walk(t.blocks_, f); }
};
template <typename E, typename S, template <typename> typename V, std::size_t L>
struct wk<cista::dynamic_fws_multimap_base<E, S, V, L>> {
  static void go(cista::dynamic_fws_multimap_base<E, S, V, L> const& t, visitor& f) {
    walk(t.element_count_, f);
    if (f.internals_) {
      walk(t.index_, f);
    }
    walk(t.data_, f);
    if (f.internals_) {
      walk(t.free_buckets_, f);
    }
  }
};

}  // namespace wk
