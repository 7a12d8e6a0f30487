// C01/C04: a variant of more than 256 alternatives (its index has two bytes).
#include "pbt.h"

#include "cista/serialization.h"
#include "cista/containers.h"

namespace {

namespace data = NS;
using pbt::Ctx;
using cista::mode;

// distinct scalar types: cheap to compile
template <int>
struct enums {
  enum class type : std::uint16_t {};
};
template <int I>
using A = typename enums<I>::type;
template <typename>
struct V_;
template <int... I>
struct V_<std::integer_sequence<int, I...>> {
  using type = cista::variant<data::string, A<I>..., data::vector<std::uint32_t>>;
};
struct many {
  auto cista_members() { return std::tie(a_, b_); }
  std::uint16_t a_{};
  V_<std::make_integer_sequence<int, 258>>::type b_{};
};

#ifdef BIG_ENDIAN_CHECK
constexpr auto const M = mode::WITH_INTEGRITY | mode::SERIALIZE_BIG_ENDIAN;
#else
constexpr auto const M = mode::WITH_INTEGRITY;
#endif

PBT_TARGET(rt_many_alts, 4000, 200000) {
  many v{};
  v.a_ = c.num<std::uint16_t>();
  auto const n = c.num<std::uint16_t>();
  auto const s = c.str(40, true);
  auto nums = std::vector<std::uint32_t>{};
  auto const which = c.u(7);
  c.nontrivial_if(which != 0);
  c.log("alternative kind %zu, %u", static_cast<std::size_t>(which), n);
  switch (which) {
    case 0: v.b_ = A<0>{n}; break;
    case 1: v.b_ = A<126>{n}; break;
    case 2: v.b_ = A<253>{n}; break;
    case 3: v.b_ = A<254>{n}; break;
    case 4: v.b_ = A<255>{n}; break;
    case 5: v.b_ = A<257>{n}; break;
    case 6: v.b_ = data::string{s}; break;
    default: {
      auto x = data::vector<std::uint32_t>{};
      for (auto k = c.len(20); k != 0; --k) {
        nums.push_back(c.num<std::uint32_t>());
        x.push_back(nums.back());
      }
      v.b_ = std::move(x);
    }
  }
  auto const index = v.b_.index();
  auto buf = cista::serialize<M>(v);
  PBT_CHECK(v.b_.index() == index, "source changed");
#ifdef BIG_ENDIAN_CHECK
  auto const le = cista::serialize<mode::WITH_INTEGRITY>(v);
  PBT_CHECK(le.size() == buf.size());
  auto const at = 8 + static_cast<std::size_t>(reinterpret_cast<char const*>(&v.b_.idx_) -
                                              reinterpret_cast<char const*>(&v));
  // the index has two bytes
  PBT_CHECK(buf[at] == index >> 8U && buf[at + 1] == (index & 0xFFU),
            "index not stored in big-endian order");
  PBT_CHECK(le[at] == (index & 0xFFU) && le[at + 1] == index >> 8U);
#endif
  many const* d = nullptr;
  try {
    d = cista::deserialize<many, M>(buf);
  } catch (std::exception const& e) {
    PBT_FAIL("reading an untouched buffer threw: %s (alternative %u)", e.what(),
             static_cast<unsigned>(index));
  }
  PBT_CHECK(d->a_ == v.a_);
  PBT_CHECK(d->b_.index() == index, "alternative %u became %u",
            static_cast<unsigned>(index), static_cast<unsigned>(d->b_.index()));
  auto const num = [&](auto const& x) {
    PBT_CHECK(static_cast<std::uint16_t>(x) == n, "content of the alternative");
  };
  switch (which) {
    case 0: num(d->b_.as<A<0>>()); break;
    case 1: num(d->b_.as<A<126>>()); break;
    case 2: num(d->b_.as<A<253>>()); break;
    case 3: num(d->b_.as<A<254>>()); break;
    case 4: num(d->b_.as<A<255>>()); break;
    case 5: num(d->b_.as<A<257>>()); break;
    case 6: PBT_CHECK(d->b_.as<data::string>().view() == v.b_.as<data::string>().view(), "string"); break;
    default: {
      auto const& x = d->b_.as<data::vector<std::uint32_t>>();
      PBT_CHECK(std::equal(begin(x), end(x), begin(nums), end(nums)), "vector");
    }
  }
}

}  // namespace
