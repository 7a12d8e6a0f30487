// C26: serialized data does not depend on its address, nothing is modified by
// reading native offset data, objects are placed at their alignment, do not
// overlap and leave no unexplained gaps.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "types.h"

#include "cista/serialization.h"
#include "cista/serialized_size.h"
#include "cista/targets/buf.h"

#include "walk.h"

using cista::mode;
using pbt::Ctx;

namespace {

constexpr auto const OFFSET = std::is_same_v<ty::data::ptr<int>, cista::offset_ptr<int>>;

struct piece {
  std::size_t at_, n_, align_;
  bool operator<(piece const& o) const { return at_ < o.at_; }
};

template <typename T, mode M>
constexpr std::size_t root_at() {
  return (static_cast<std::size_t>(cista::data_start(M)) + alignof(T) - 1U) / alignof(T) * alignof(T);
}

// placement of everything reachable from the root
template <typename T, mode M>
std::vector<piece> layout(T const& root, std::uint8_t const* const base, std::size_t const n) {
  struct : wk::visitor {
    void storage(void const* p, std::size_t const n, std::size_t const align) override {
      pieces_.push_back({static_cast<std::size_t>(static_cast<std::uint8_t const*>(p) - base_), n, align});
      PBT_CHECK(pieces_.back().at_ <= n_ && n <= n_ - pieces_.back().at_, "%zu bytes at %zu are outside of the %zu bytes written", n,
                pieces_.back().at_, n_);
      PBT_CHECK(pieces_.back().at_ % align == 0U, "%zu bytes at %zu: not aligned to %zu", n, pieces_.back().at_, align);
      PBT_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0U, "address not aligned to %zu", align);
    }
    std::uint8_t const* base_;
    std::size_t n_;
    std::vector<piece> pieces_;
  } f;
  f.base_ = base;
  f.n_ = n;
  f.internals_ = true;
  PBT_CHECK(reinterpret_cast<std::uint8_t const*>(&root) == base + (root_at<T, M>()), "root is at %td",
            reinterpret_cast<std::uint8_t const*>(&root) - base);
  f.storage(&root, cista::serialized_size<T>(), alignof(T));
  wk::walk(root, f);
  std::sort(f.pieces_.begin(), f.pieces_.end());
  auto end = static_cast<std::size_t>(cista::data_start(M));
  for (auto const& p : f.pieces_) {
    PBT_CHECK(p.at_ >= end, "%zu bytes at %zu overlap what ends at %zu", p.n_, p.at_, end);
    PBT_CHECK(p.at_ - end < 16U, "gap of %zu bytes before %zu", p.at_ - end, p.at_);
    end = p.at_ + p.n_;
  }
  PBT_CHECK(n - end < 16U, "%zu unused bytes at the end", n - end);
  return f.pieces_;
}

// n bytes at a chosen distance from a 64 byte boundary, surrounded by noise
struct place {
  place(Ctx& c, std::uint8_t const* data, std::size_t const n, std::size_t const slack) : n_{n} {
    before_ = 16U * c.u(7);
    after_ = slack + c.u(40);
    all_ = before_ + n + after_;
    PBT_CHECK(posix_memalign(&p_, 64, all_ == 0U ? 1U : all_) == 0);
    std::memset(p_, 0xE7, all_);
    std::memcpy(begin(), data, n);
  }
  place(place const&) = delete;
  place& operator=(place const&) = delete;
  ~place() { std::free(p_); }
  std::uint8_t* begin() { return static_cast<std::uint8_t*>(p_) + before_; }
  std::uint8_t* end() { return begin() + n_; }
  void surroundings() {
    auto const* a = static_cast<std::uint8_t const*>(p_);
    for (auto i = std::size_t{0U}; i != all_; ++i) {
      PBT_CHECK((i >= before_ && i < before_ + n_) || a[i] == 0xE7, "byte outside of the data was modified");
    }
  }
  void* p_{nullptr};
  std::size_t n_, before_, after_, all_;
};

template <typename T, mode M>
std::string read_at(std::uint8_t* from, std::uint8_t* to) {
  return gen::dump_of(*cista::deserialize<T, M>(from, to));
}

template <typename T, mode M>
void relocate(Ctx& c, T& value, std::string const& want, char const* name) {
  constexpr auto const SWAP = cista::endian_conversion_necessary<M>();
  static_assert(cista::serialized_size<T>() == sizeof(T) && cista::serialized_size<T const&>() == sizeof(T));
  c.label(name);
  auto const bytes = cista::serialize<M>(value);
  c.log("mode %s, %zu bytes", name, bytes.size());
  PBT_CHECK(bytes.size() >= (root_at<T, M>()) + cista::serialized_size<T>(), "root not contained");
  auto const untouched = [&](std::uint8_t const* p) {
    if constexpr (OFFSET && !SWAP) {
      PBT_CHECK(std::memcmp(p, bytes.data(), bytes.size()) == 0, "reading modified the data");
    }
  };

  // three independent copies at different positions
  std::vector<piece> first;
  for (auto i = 0; i != 3; ++i) {
    place p{c, bytes.data(), bytes.size(), 0U};
    auto const* d = cista::deserialize<T, M>(p.begin(), p.end());
    auto const got = gen::dump_of(*d);
    PBT_CHECK(got == want, "copy %d in mode %s reads\n%.1000s instead of\n%.1000s", i, name, got.c_str(), want.c_str());
    p.surroundings();
    untouched(p.begin());
    auto const l = layout<T, M>(*d, p.begin(), bytes.size());
    if (i == 0) {
      first = l;
    }
    PBT_CHECK(l.size() == first.size() && std::equal(l.begin(), l.end(), first.begin(), [](piece const& a, piece const& b) {
      return a.at_ == b.at_ && a.n_ == b.n_;
    }), "placement depends on the address");
    if constexpr (OFFSET && !SWAP) {
      // again, in place
      PBT_CHECK((read_at<T, M>(p.begin(), p.end())) == want, "second read differs");
      untouched(p.begin());
    }
  }
  if constexpr (OFFSET) {
    // data that has been read is moved around, its old place disappears
    auto p = std::make_unique<place>(c, bytes.data(), bytes.size(), 256U);
    (void)cista::deserialize<T, M>(p->begin(), p->end());
    auto const again = [&](std::uint8_t* at) {
      if constexpr (SWAP) {
        return gen::dump_of(*reinterpret_cast<T const*>(at + (root_at<T, M>())));
      } else {
        return read_at<T, M>(at, at + bytes.size());
      }
    };
    auto const steps = 1U + c.u(2);
    for (auto i = 0U; i != steps; ++i) {
      if (c.flip()) {
        auto q = std::make_unique<place>(c, p->begin(), bytes.size(), 256U);
        std::memset(p->p_, 0xDD, p->all_);
        p = std::move(q);
        PBT_CHECK(again(p->begin()) == want, "differs after move %u to other memory", i);
      } else {
        // overlapping
        auto const by = 16U * (1U + c.u(15));
        std::memmove(p->begin() + by, p->begin(), bytes.size());
        std::memset(p->begin(), 0xDD, by);
        PBT_CHECK(again(p->begin() + by) == want, "differs after shifting by %u", static_cast<unsigned>(by));
        std::memmove(p->begin(), p->begin() + by, bytes.size());
        std::memset(p->begin() + bytes.size(), 0xDD, by);
        PBT_CHECK(again(p->begin()) == want, "differs after shifting back by %u", static_cast<unsigned>(by));
      }
    }
    // several values one after another in one target
    {
      auto t = cista::buf<cista::byte_buf>{};
      auto const pad = std::string(64U, '#');
      auto const skip = 16U * c.u(3);
      if (skip != 0U) {
        t.write(pad.data(), skip);
      }
      auto const n = 1U + c.u(2);
      std::vector<std::pair<std::size_t, std::size_t>> parts;
      for (auto i = 0U; i != n; ++i) {
        auto const from = t.size();
        cista::serialize<M>(t, value);
        parts.emplace_back(from, t.size());
        if (t.size() % 16U != 0U) {
          t.write(pad.data(), 16U - t.size() % 16U);
        }
      }
      place q{c, t.buf_.data(), t.size(), 0U};
      for (auto const& [from, to] : parts) {
        PBT_CHECK(to - from == bytes.size(), "size depends on the position: %zu, %zu", to - from, bytes.size());
        auto const* d = cista::deserialize<T, M>(q.begin() + from, q.begin() + to);
        PBT_CHECK(gen::dump_of(*d) == want, "value at %zu of a target with several values differs", from);
        layout<T, M>(*d, q.begin() + from, to - from);
      }
      q.surroundings();
      c.nontrivial_if(n > 1U && first.size() > 3U);
    }
    // mapped at two addresses, read only
    if constexpr (!SWAP) {
      if (c.chance(1, 4)) {
        static auto const name_ = pbt::scratch_dir() + "/mapped";
        auto const fd = ::open(name_.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        PBT_CHECK(fd >= 0 && ::write(fd, bytes.data(), bytes.size()) == static_cast<ssize_t>(bytes.size()), "scratch file");
        void* m[2];
        for (auto& x : m) {
          x = ::mmap(nullptr, bytes.size(), PROT_READ, MAP_SHARED, fd, 0);
        }
        ::close(fd);
        std::string got[2], cst[2];
        for (auto i = 0; i != 2; ++i) {
          PBT_CHECK(m[i] != MAP_FAILED, "mmap");
          auto* const at = static_cast<std::uint8_t*>(m[i]);
          got[i] = read_at<T, M>(at, at + bytes.size());
          cst[i] = gen::dump_of(*cista::deserialize<T const, M>(static_cast<std::uint8_t const*>(at),
                                                                static_cast<std::uint8_t const*>(at) + bytes.size()));
        }
        for (auto& x : m) {
          ::munmap(x, bytes.size());
        }
        PBT_CHECK(got[0] == want && got[1] == want && cst[0] == want && cst[1] == want, "mapped data differs");
        c.label("mapped");
      }
    }
  } else {
    c.nontrivial_if(first.size() > 3U);
  }
}

template <typename T, bool Simple = false>
void position(Ctx& c) {
  gen::arena_guard g;
  gen::stats() = {};
  T value{};
  gen::gen_value(c, value, 0);
  auto const want = gen::dump_of(value);
  c.log("value %.400s", want.c_str());
  if constexpr (Simple) {
    if (c.flip()) {
      relocate<T, mode::NONE>(c, value, want, "none");
    } else {
      relocate<T, mode::WITH_INTEGRITY | mode::SERIALIZE_BIG_ENDIAN>(c, value, want, "big endian");
    }
  } else {
    switch (c.u(2)) {
      case 0: relocate<T, mode::NONE>(c, value, want, "none"); break;
      case 1: relocate<T, mode::WITH_VERSION | mode::WITH_INTEGRITY>(c, value, want, "version+integrity"); break;
      default: relocate<T, mode::SERIALIZE_BIG_ENDIAN | mode::WITH_STATIC_VERSION>(c, value, want, "big endian, version"); break;
    }
  }
}

}  // namespace

#define POS(T, Q) PBT_REG(pos_##T, "pos_" #T, position<ty::T>, Q, Q * 60)
#define POS_S(T, Q) PBT_REG(pos_##T, "pos_" #T, (position<ty::T, true>), Q, Q * 60)
#if GROUP == 1
namespace ty {
using v_i32 = data::vector<std::int32_t>;
using v_str = data::vector<data::string>;
using str = data::string;
using up = data::unique_ptr<small>;
using var = cista::variant<std::uint8_t, std::uint32_t, data::string>;
using hm = data::hash_map<data::string, std::uint32_t>;
using v_big = data::vector<big_align>;
}  // namespace ty
POS(flat, 300)
POS(comp, 300)
POS(one, 100)
POS(big_align, 300)
POS(empty_first, 200)
POS(v_i32, 400)
POS(v_str, 600)
POS(str, 400)
POS(up, 200)
POS(var, 200)
POS(hm, 500)
POS(v_big, 400)
#elif GROUP == 2
POS(strs, 700)
POS(vecs, 700)
#elif GROUP == 3
POS(alts, 600)
POS(hashes, 600)
#elif GROUP == 4
POS(nested, 600)
POS_S(all, 500)
POS_S(big, 40)
#endif
