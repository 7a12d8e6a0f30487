// C03: buffer, memory mapped and file targets are equivalent.
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>

#include "types.h"

#include "cista/mmap.h"
#include "cista/serialization.h"
#include "cista/targets/file.h"

using cista::mode;
using pbt::Ctx;

namespace {

std::string path(char const* n) { return pbt::scratch_dir() + "/" + n; }

int next_fd() {
  auto const fd = ::open("/dev/null", O_RDONLY);
  ::close(fd);
  return fd;
}

std::string slurp(std::string const& p) {
  std::string s;
  auto* f = std::fopen(p.c_str(), "rb");
  PBT_CHECK(f != nullptr, "cannot reopen file");
  char b[65536];
  for (std::size_t n; (n = std::fread(b, 1, sizeof(b), f)) != 0;) {
    s.append(b, n);
  }
  std::fclose(f);
  return s;
}

std::string_view sv(cista::buffer const& b) {
  return {reinterpret_cast<char const*>(b.data()), b.size()};
}
std::string_view sv(cista::byte_buf const& b) {
  return {reinterpret_cast<char const*>(b.data()), b.size()};
}

void same(std::string_view got, std::string_view want, char const* what) {
  if (got == want) {
    return;
  }
  auto i = std::size_t{0};
  while (i < got.size() && i < want.size() && got[i] == want[i]) {
    ++i;
  }
  PBT_FAIL("%s differs: %zu vs %zu bytes, first difference at %zu", what, got.size(), want.size(), i);
}

// All the ways to read a file back.
void read_back(Ctx& c, std::string const& p, std::string_view want) {
  same(slurp(p), want, "file on disk");
  {
    cista::file f{p.c_str(), "r"};
    PBT_EQ(f.size(), want.size());
    auto const a = f.content();
    same(sv(a), want, "file::content");
    auto const b = f.content();
    same(sv(b), want, "file::content read again");
    auto const from = c.u(want.size());
    PBT_CHECK(f.checksum(static_cast<cista::offset_t>(from)) == cista::hash(want.substr(from)),
              "checksum of a file from %zu of %zu", static_cast<std::size_t>(from), want.size());
    auto const d = f.content();
    same(sv(d), want, "file::content after checksum");
  }
  auto const prot = c.flip() ? cista::mmap::protection::READ : cista::mmap::protection::MODIFY;
  {
    cista::mmap m{p.c_str(), prot};
    same(m.view(), want, "mmap view");
    PBT_EQ(static_cast<std::size_t>(m.end() - m.begin()), want.size());
  }
  same(slurp(p), want, "file after mapping it");
}

struct pod3 {
  std::uint8_t a_, b_, c_;
};
struct pod16 {
  std::uint64_t a_;
  std::uint32_t b_;
  std::uint16_t c_[2];
};

struct three {
  explicit three(std::string const& fp, std::string const& mp)
      : f_{fp.c_str(), "w+"}, m_{cista::mmap{mp.c_str()}} {}

  template <typename F>
  void each(F&& f) {
    f(b_, "buffer");
    f(f_, "file");
    f(m_, "mmap");
  }

  cista::buf<> b_;
  cista::file f_;
  cista::buf<cista::mmap> m_;
};

template <typename T>
void patch(Ctx& c, three& t, std::string& model, T const& v) {
  if (c.chance(1, 12)) {  // beyond the end: refused, nothing is changed
    auto const first_bad = model.size() < sizeof(T) ? std::size_t{0U} : model.size() - sizeof(T) + 1U;
    auto const pos = first_bad + static_cast<std::size_t>(c.u(c.flip() ? 0U : 40U));
    c.log("write(%zu, %zu bytes), out of bounds", pos, sizeof(T));
    PBT_THROWS(t.b_.write(pos, v));
    PBT_THROWS(t.m_.write(pos, v));
    same(sv(t.b_.buf_), model, "buffer target after a refused write");
    same(t.m_.buf_.view(), model, "mmap target after a refused write");
    return;
  }
  if (model.size() < sizeof(T)) {
    return;
  }
  auto const room = model.size() - sizeof(T);
  auto const pos = c.chance(1, 4) ? room : c.u(room);
  c.log("write(%zu, %zu bytes)", static_cast<std::size_t>(pos), sizeof(T));
  t.each([&](auto& x, char const*) { x.write(static_cast<std::size_t>(pos), v); });
  std::memcpy(&model[pos], &v, sizeof(T));
}

// Moves, closes and reopens the targets in the middle of the writing: whatever
// comes next continues where the previous owner stopped.
void carry_over(Ctx& c, three& t, std::string& model, std::string const& fp, std::string const& mp) {
  auto const fd = next_fd();
  switch (c.u(6)) {
    case 0: {
      c.log("move-construct the file target");
      cista::file g{std::move(t.f_)};
      PBT_CHECK(t.f_.f_ == nullptr && t.f_.size() == 0U, "moved-from file still open");
      if (!model.empty()) {
        PBT_CHECK(g.checksum() == cista::hash(std::string_view{model}), "checksum through the new owner");
      }
      t.f_ = std::move(g);
      PBT_CHECK(g.f_ == nullptr, "moved-from file still open");
      break;
    }
    case 1: {
      c.log("move-assign the file target over an open file");
      auto const other = path("other.bin");
      {
        cista::file g{other.c_str(), "w+"};
        g.write("other", 5U, 0U);
        g = std::move(t.f_);
        PBT_CHECK(slurp(other) == "other", "the file assigned over was not written and closed");
        t.f_ = std::move(g);
      }
      std::remove(other.c_str());
      break;
    }
    case 2: {
      c.log("close and reopen the file target");
      t.f_ = cista::file{};
      same(slurp(fp), model, "closed file");
      t.f_ = cista::file{fp.c_str(), "r+"};
      PBT_EQ(t.f_.size(), model.size());
      break;
    }
    case 3: {
      c.log("move the memory targets");
      cista::buf<> b{std::move(t.b_.buf_)};
      auto const at = b.size() == 0U ? nullptr : b.base();
      t.b_ = cista::buf<>{};
      t.b_ = std::move(b);
      PBT_CHECK(at == nullptr || at == t.b_.base(), "moving a buffer target copied it");
      cista::buf<cista::mmap> m{std::move(t.m_)};
      t.m_ = std::move(m);
      break;
    }
    case 4: {
      c.log("close and reopen the mmap target");
      if (model.empty()) {
        break;  // nothing to map
      }
      t.m_ = cista::buf<cista::mmap>{};
      same(slurp(mp), model, "closed mapping");
      t.m_ = cista::buf<cista::mmap>{cista::mmap{mp.c_str(), cista::mmap::protection::MODIFY}};
      PBT_EQ(t.m_.size(), model.size());
      break;
    }
    case 5: {
      c.log("through operator[] and addr");
      if (!model.empty()) {
        auto const i = c.idx(model.size());
        PBT_CHECK(std::as_const(t.b_)[i] == static_cast<std::uint8_t>(model[i]), "buf[%zu]", i);
        PBT_CHECK(std::as_const(t.m_)[i] == static_cast<std::uint8_t>(model[i]), "buf<mmap>[%zu]", i);
        auto const v = c.num<std::uint8_t>();
        t.b_[i] = v;
        *t.m_.addr(static_cast<cista::offset_t>(i)) = v;
        t.f_.write(i, v);
        model[i] = static_cast<char>(v);
      }
      break;
    }
    default: {
      c.log("file from its own content");
      auto const b = t.f_.content();
      same(sv(b), model, "content of the open file");
      cista::buf<> fresh;
      fresh.write("garbage", 7U);
      fresh.reset();
      PBT_EQ(fresh.size(), 0U);
      if (b.size() != 0U) {
        PBT_EQ(fresh.write(b.data(), b.size()), cista::offset_t{0});
      }
      t.b_ = std::move(fresh);
      break;
    }
  }
  PBT_CHECK(next_fd() == fd, "file descriptor leaked or lost");
}

}  // namespace

// A file system that is full: whatever does not fit is reported.
PBT_TARGET(file_size_limit, 250, 8000) {
  auto const fd = next_fd();
  auto const fp = path("full.bin");
  auto const limit = static_cast<std::size_t>(c.u(60000U));
  auto payload = c.str(200U, true);
  while (payload.size() < limit + 70000U && c.more(12U)) {
    payload += payload + "x";
  }
  auto const piece = 1U + static_cast<std::size_t>(c.u(c.flip() ? 50000U : 300U));
  c.log("limit %zu, %zu bytes in pieces of %zu", limit, payload.size(), piece);
  auto thrown = false;
  auto written = std::size_t{0U};
  {
    cista::file f{fp.c_str(), "w+"};
    {
      struct limited {
        explicit limited(std::size_t const n) {
          std::signal(SIGXFSZ, SIG_IGN);
          ::getrlimit(RLIMIT_FSIZE, &old_);
          auto r = old_;
          r.rlim_cur = n;
          PBT_CHECK(::setrlimit(RLIMIT_FSIZE, &r) == 0, "setrlimit");
        }
        ~limited() { ::setrlimit(RLIMIT_FSIZE, &old_); }
        struct rlimit old_;
      } guard{limit};
      try {
        for (; written < payload.size(); written += piece) {
          auto const n = std::min(piece, payload.size() - written);
          auto const at = f.write(payload.data() + written, n, 0U);
          PBT_CHECK(at == static_cast<cista::offset_t>(written), "append at the wrong position");
          struct stat st;
          PBT_CHECK(::stat(fp.c_str(), &st) == 0, "stat");
          PBT_CHECK(static_cast<std::size_t>(st.st_size) >= written + n,
                    "%zu bytes written without an error, %zu on disk", written + n, static_cast<std::size_t>(st.st_size));
        }
        auto const size = f.checksum();  // seeks: everything has to be written
        PBT_CHECK(size == cista::hash(std::string_view{payload}), "checksum of the file");
      } catch (std::exception const&) {
        thrown = true;
      }
    }
    PBT_CHECK(payload.size() <= limit || thrown, "%zu bytes did not fit into %zu, no error", payload.size(), limit);
    PBT_CHECK(payload.size() > limit || !thrown, "error although everything fits");
  }
  c.nontrivial_if(thrown);
  if (!thrown) {
    same(slurp(fp), payload, "file on disk");
  }
  PBT_CHECK(next_fd() == fd, "file descriptor leaked");
  std::remove(fp.c_str());
}

// random appends (aligned or not), back-patches and checksums
PBT_TARGET(target_ops, 2500, 150000) {
  auto const fd = next_fd();
  auto const fp = path("ops.bin"), mp = path("ops.map");
  std::string model;
  std::vector<std::uint8_t> data;
  {
    three t{fp, mp};
    auto const huge = c.chance(1, 25);
    auto const n = 1 + c.u(huge ? 12 : 30);
    unsigned appends = 0, patches = 0;
    for (std::size_t i = 0; i != n; ++i) {
      if (c.chance(1, 8)) {
        carry_over(c, t, model, fp, mp);
        continue;
      }
      switch (c.u(5)) {
        case 0:
        case 1:
        case 2: {
          std::size_t len = 0;
          switch (c.u(4)) {
            case 0: len = c.u(4); break;
            case 1: len = c.u(64); break;
            case 2: len = c.u(5000); break;
            case 3: len = 8192 * c.u(3) + c.u(6) - (c.flip() ? 3 : 0); break;
            default: len = huge ? 512 * 1024 * c.u(2) + c.u(6) : c.u(20000); break;
          }
          len = std::max<std::size_t>(1, std::min<std::size_t>(len, 1100000));
          auto const align = std::size_t{1} << c.u(4);
          auto const a = c.flip() ? align : std::size_t{0};
          data.resize(len + 1);
          auto x = c.num<std::uint32_t>();
          for (auto& d : data) {
            x = x * 1664525U + 1013904223U;
            d = static_cast<std::uint8_t>(x >> 24U);
          }
          auto start = model.size();
          if (a > 1) {
            start = (start + a - 1) / a * a;
          }
          c.log("write(%zu bytes, align %zu) at %zu", len, a, model.size());
          t.each([&](auto& tgt, char const* name) {
            auto const at = tgt.write(data.data(), len, a);
            PBT_CHECK(at == static_cast<cista::offset_t>(start), "%s: append at %lld instead of %zu", name,
                      static_cast<long long>(at), start);
          });
          {
            model.resize(start);
            model.append(reinterpret_cast<char const*>(data.data()), len);
          }
          ++appends;
          break;
        }
        case 3:
          if (model.empty()) {
            break;
          }
          ++patches;
          switch (c.u(5)) {
            case 0: patch(c, t, model, c.num<std::uint8_t>()); break;
            case 1: patch(c, t, model, c.num<std::uint16_t>()); break;
            case 2: patch(c, t, model, c.num<std::uint32_t>()); break;
            case 3: patch(c, t, model, c.num<std::uint64_t>()); break;
            case 4: patch(c, t, model, pod3{1, 2, c.num<std::uint8_t>()}); break;
            default: patch(c, t, model, pod16{c.num<std::uint64_t>(), 5, {7, 8}}); break;
          }
          break;
        case 4: {
          if (model.empty()) {
            break;
          }
          auto const from = c.u(model.size() - 1);
          c.log("checksum(%zu)", static_cast<std::size_t>(from));
          auto const want = cista::hash(std::string_view{model}.substr(from));
          t.each([&](auto& x, char const* name) {
            PBT_CHECK(x.checksum(static_cast<cista::offset_t>(from)) == want, "%s: checksum differs", name);
          });
          break;
        }
        default: {
          if (model.empty()) {
            break;
          }
          PBT_EQ(t.b_.size(), model.size());
          PBT_EQ(t.m_.size(), model.size());
          same(sv(t.b_.buf_), model, "buffer target");
          same(t.m_.buf_.view(), model, "mmap target");
          if (c.flip()) {  // reading back while the file is still open
            auto const b = t.f_.content();
            same(sv(b), model, "content of the open file");
          }
          break;
        }
      }
    }
    same(sv(t.b_.buf_), model, "buffer target");
    c.nontrivial_if(appends > 2 && patches > 0);
  }
  read_back(c, fp, model);
  same(slurp(mp), model, "mapped file on disk");
  PBT_CHECK(next_fd() == fd, "file descriptor leaked");
  std::remove(fp.c_str());
  std::remove(mp.c_str());
}

namespace {

template <typename T, mode M, mode D>
void value_mode(Ctx& c, T& v, std::string const& want, char const* name) {
  c.log("mode %s", name);
  auto const fp = path("val.bin"), mp = path("val.map");
  auto const bytes = cista::serialize<M>(v);
  {
    cista::file f{fp.c_str(), "w+"};
    cista::serialize<M>(f, v);
  }
  {
    cista::buf<cista::mmap> m{cista::mmap{mp.c_str()}};
    cista::serialize<M>(m, v);
    same(m.buf_.view(), sv(bytes), "mmap target");
  }
  read_back(c, fp, sv(bytes));
  same(slurp(mp), sv(bytes), "mapped file on disk");
  {
    auto b = cista::file{fp.c_str(), "r"}.content();
    PBT_CHECK(gen::dump_of(*cista::deserialize<T, D>(b.begin(), b.end())) == want, "value read from file");
  }
  if constexpr (!cista::endian_conversion_necessary<M>()) {
    auto const m = cista::mmap{mp.c_str(), cista::mmap::protection::READ};
    PBT_CHECK(gen::dump_of(*cista::deserialize<T, D>(m)) == want, "value read through a mapping");
  } else {
    auto m = cista::mmap{mp.c_str(), cista::mmap::protection::MODIFY};
    PBT_CHECK(gen::dump_of(*cista::deserialize<T, D>(m)) == want, "value read through a mapping");
  }
  std::remove(fp.c_str());
  std::remove(mp.c_str());
}

template <typename T>
void value(Ctx& c) {
  auto const fd = next_fd();
  gen::arena_guard g;
  gen::stats() = {};
  T v{};
  gen::gen_value(c, v, 0);
  auto const want = gen::dump_of(v);
  c.log("value %.300s", want.c_str());
  c.nontrivial_if(want.size() > 60);
  constexpr auto const VI = mode::WITH_VERSION | mode::WITH_INTEGRITY;
  constexpr auto const BE = mode::SERIALIZE_BIG_ENDIAN | mode::WITH_INTEGRITY;
  switch (c.u(2)) {
    case 0: value_mode<T, mode::NONE, mode::NONE>(c, v, want, "none"); break;
    case 1: value_mode<T, VI, VI | mode::DEEP_CHECK>(c, v, want, "version+integrity"); break;
    default: value_mode<T, BE, BE>(c, v, want, "big endian+integrity"); break;
  }
  PBT_CHECK(next_fd() == fd, "file descriptor leaked");
}

}  // namespace

#ifdef CISTA_FNV1A
PBT_REG(v_vecs, "value_vecs", value<ty::vecs>, 500, 30000)
PBT_REG(v_all, "value_all", value<ty::all>, 500, 30000)
PBT_REG(v_strs, "value_strs", value<ty::strs>, 300, 30000)
#endif
PBT_REG(v_big, "value_big", value<ty::big>, 60, 4000)
