// C08: a deserialized value is modified like a freshly built one.  The same
// random edits are applied to the value a buffer was made from and to the value
// deserialized from it; they stay equal, the buffer is neither freed nor
// overrun, copies survive it and the edited value serializes again.
#include "types.h"

#include "cista/serialization.h"
#include "edit.h"

using cista::mode;
using pbt::Ctx;

template <>
struct ed::cp<ty::node> : std::false_type {};  // recursive, holds unique pointers

namespace {

struct exact_buf {
  explicit exact_buf(cista::byte_buf const& b) : n_{b.size()} {
    PBT_CHECK(posix_memalign(&p_, 64, n_ == 0 ? 1 : n_) == 0);
    std::memcpy(p_, b.data(), n_);
  }
  ~exact_buf() {
    std::memset(p_, 0xDD, n_);
    std::free(p_);
  }
  std::uint8_t* begin() { return static_cast<std::uint8_t*>(p_); }
  std::uint8_t* end() { return begin() + n_; }
  void* p_{nullptr};
  std::size_t n_;
};

// runs fn twice with equal choices
template <typename A, typename B>
void twice(Ctx& c, A&& fn_a, B&& fn_b) {
  static std::vector<std::uint64_t> rec;
  static auto slot = std::make_unique<pbt::shm_slot>();
  auto const from = c.pos_;
  fn_a(c);
  PBT_CHECK(c.pos_ <= pbt::kMaxChoices);
  rec.assign(c.slot_->choices + from, c.slot_->choices + c.pos_);
  Ctx r;
  r.slot_ = slot.get();
  r.replay_ = true;
  r.in_ = rec.data();
  r.n_replay_ = rec.size();
  fn_b(r);
  PBT_EQ(r.pos_, rec.size());
}

template <typename T, mode M>
void modify(Ctx& c) {
  c.no_leak_check();  // strings assigned to elements in the buffer are never freed
  gen::arena_guard g;
  gen::stats() = {};
  auto a = std::make_unique<T>();
  gen::gen_value(c, *a, 0);
  auto const first = gen::dump_of(*a);
  c.log("value %.300s", first.c_str());

  std::vector<std::unique_ptr<T>> copies;
  std::vector<std::string> copy_dumps;
  {
    exact_buf buf{cista::serialize<M>(*a)};
    T* b = nullptr;
    try {
      b = cista::deserialize<T, M>(buf.begin(), buf.end());
    } catch (std::exception const& e) {
      PBT_FAIL("deserialize threw: %s", e.what());
    }
    PBT_EQ(gen::dump_of(*b), first);
    auto changes = 0U;
    auto now = first;
    for (auto k = 1 + c.u(11); k != 0; --k) {
      if constexpr (ed::copyable<T>) {
        if (c.chance(1, 10)) {
          copies.push_back(std::make_unique<T>(*b));
          copy_dumps.push_back(now);
        }
      }
      twice(
          c, [&](Ctx& x) { ed::edit_value(x, *a, 0); }, [&](Ctx& x) { ed::edit_value(x, *b, 0); });
      auto const da = gen::dump_of(*a), db = gen::dump_of(*b);
      if (da != db) {
        PBT_FAIL("after an edit, the fresh value is %.1500s\nthe deserialized one %.1500s",
                 da.c_str(), db.c_str());
      }
      changes += da != now;
      now = da;
      c.log("edit to %.200s", now.c_str());
    }
    if constexpr (ed::copyable<T>) {
      copies.push_back(std::make_unique<T>(*b));
      copy_dumps.push_back(now);
    }
    {
      exact_buf again{cista::serialize<M>(*b)};
      try {
        auto const* d = cista::deserialize<T, M>(again.begin(), again.end());
        auto const got = gen::dump_of(*d);
        if (got != now) {
          PBT_FAIL("second round trip: got %.1500s\nwant %.1500s", got.c_str(), now.c_str());
        }
      } catch (std::exception const& e) {
        PBT_FAIL("deserializing the edited value threw: %s", e.what());
      }
    }
    PBT_EQ(gen::dump_of(*b), now);
    b->~T();
    c.nontrivial_if(changes >= 3 && gen::stats().heap_ > 2);
  }
  for (std::size_t i = 0; i != copies.size(); ++i) {
    auto const d = gen::dump_of(*copies[i]);
    if (d != copy_dumps[i]) {
      PBT_FAIL("copy changed with the buffer: got %.1500s\nwant %.1500s", d.c_str(), copy_dumps[i].c_str());
    }
    // the copies can be modified as well
    ed::edit_value(c, *copies[i], 0);
    gen::dump_of(*copies[i]);
  }
}
constexpr auto const N = mode::NONE;
constexpr auto const D = mode::DEEP_CHECK;
constexpr auto const VI = mode::WITH_VERSION | mode::WITH_INTEGRITY;
}  // namespace

namespace ty {
using v_i32 = data::vector<std::int32_t>;
using v_str = data::vector<data::string>;
using vv_str = data::vector<data::vector<data::string>>;
using hm = data::hash_map<data::string, data::string>;
using hmv = data::hash_map<std::uint8_t, data::vector<data::string>>;
using hs = data::hash_set<std::uint16_t>;
struct texts {
  EACH(a_, b_, c_, d_, e_)
  data::string a_{};
  data::u16string b_{};
  data::u32string c_{};
  data::vector<data::cstring> d_{};
  data::vector<data::u16string> e_{};
};
struct rt {
  EACH(a_, b_)
  data::rtree<std::uint32_t, 2, float, 4> a_{};
  data::vector<std::uint8_t> b_{};
};
}  // namespace ty

#define MOD(T, M, Q) PBT_REG(mod_##T, "mod_" #T, (modify<ty::T, M>), Q * 6 / 10, Q * 40)
#if GROUP == 1
MOD(v_i32, N, 3000)
MOD(v_str, D, 3000)
MOD(vv_str, N, 2000)
MOD(hm, VI, 3000)
MOD(hs, N, 3000)
MOD(texts, N, 3000)
MOD(vecs, N, 1500)
#else
MOD(hmv, D, 2500)
MOD(hashes, N, 1500)
MOD(alts, N, 2500)
MOD(node, N, 2500)
MOD(nested, N, 2500)
MOD(all, D, 1200)
#endif
