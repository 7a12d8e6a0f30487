// C29 (files): a system call that fails while a file is written, read or
// mapped is reported, what was there before stays as it was, nothing leaks.
#include <cstdio>
#include <fstream>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include "fault.h"
#include "pbt.h"

#include "cista/containers.h"
#include "cista/containers/mmap_vec.h"
#include "cista/io.h"
#include "cista/mmap.h"
#include "cista/serialization.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"

namespace {
long files = 0, maps = 0;  // opened / mapped by the library and not closed yet
char const* what = "";     // the call that failed
bool io_fails(char const* name) {
  if (fault::fails()) {
    what = name;
    return true;
  }
  return false;
}
}  // namespace

extern "C" {
FILE* __real_fopen(char const*, char const*);
FILE* __wrap_fopen(char const* p, char const* m) {
  if (io_fails("fopen")) {
    return nullptr;
  }
  auto const f = __real_fopen(p, m);
  files += f != nullptr;
  return f;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
  --files;
  return __real_fclose(f);
}
std::size_t __real_fread(void*, std::size_t, std::size_t, FILE*);
std::size_t __wrap_fread(void* p, std::size_t s, std::size_t n, FILE* f) {
  return n != 0U && io_fails("fread") ? __real_fread(p, s, n - 1U, f) : __real_fread(p, s, n, f);
}
std::size_t __real_fwrite(void const*, std::size_t, std::size_t, FILE*);
std::size_t __wrap_fwrite(void const* p, std::size_t s, std::size_t n, FILE* f) {
  return n != 0U && io_fails("fwrite") ? __real_fwrite(p, s, n - 1U, f) : __real_fwrite(p, s, n, f);
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) { return io_fails("fflush") ? EOF : __real_fflush(f); }
int __real_fseek(FILE*, long, int);
int __wrap_fseek(FILE* f, long o, int w) { return io_fails("fseek") ? -1 : __real_fseek(f, o, w); }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int f, struct stat* s) { return io_fails("fstat") ? -1 : __real_fstat(f, s); }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int f, off_t n) { return io_fails("ftruncate") ? -1 : __real_ftruncate(f, n); }
int __real_msync(void*, std::size_t, int);
int __wrap_msync(void* p, std::size_t n, int f) { return io_fails("msync") ? -1 : __real_msync(p, n, f); }
void* __real_mmap(void*, std::size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, std::size_t n, int p, int f, int d, off_t o) {
  if (io_fails("mmap")) {
    return MAP_FAILED;
  }
  auto const r = __real_mmap(a, n, p, f, d, o);
  maps += r != MAP_FAILED;
  return r;
}
int __real_munmap(void*, std::size_t);
int __wrap_munmap(void* a, std::size_t n) {
  --maps;
  return __real_munmap(a, n);
}
}

namespace {
using pbt::Ctx;
namespace O = cista::offset;

std::string path(char const* n) { return pbt::scratch_dir() + "/" + n; }

std::string slurp(std::string const& p) {
  std::ifstream in{p, std::ios::binary};
  return {std::istreambuf_iterator<char>{in}, std::istreambuf_iterator<char>{}};
}

struct value {
  auto cista_members() { return std::tie(n_, names_, map_, bits_); }
  std::uint64_t n_{};
  O::vector<O::string> names_;
  O::hash_map<std::uint32_t, O::vector<std::uint32_t>> map_;
  O::bitvec bits_;
};

value make(Ctx& c) {
  value v;
  v.n_ = c.num<std::uint64_t>();
  for (auto i = c.len_big(5, 60); i != 0U; --i) {
    v.names_.emplace_back(c.str(40U, false));
  }
  for (auto i = c.len_big(5, 60); i != 0U; --i) {
    auto& x = v.map_[static_cast<std::uint32_t>(c.u(100U))];
    x.resize(static_cast<std::uint32_t>(c.u(5U)), 7U);
  }
  v.bits_.resize(static_cast<std::uint32_t>(c.u(300U)));
  return v;
}

bool equal(value const& a, value const& b) {
  return a.n_ == b.n_ && a.names_ == b.names_ && a.map_ == b.map_ && a.bits_ == b.bits_;
}

// Runs f with one of its calls failing; true: that was reported.
template <typename F>
bool attempt(Ctx& c, char const* name, std::size_t const at, F&& f) {
  auto threw = false;
  {
    auto const a = fault::armed{at};
    try {
      f();
    } catch (std::exception const&) {
      threw = true;
    }
  }
  auto const hit = fault::st().hit_;
  if (hit) {
    c.log("%s: call %zu (%s) fails", name, at, what);
  } else {
    c.log("%s", name);
  }
  PBT_CHECK(!threw || hit, "%s: error although nothing failed", name);
  PBT_CHECK(threw || !hit, "%s: %s failed without an error", name, what);
  return threw;
}

std::size_t when(Ctx& c) {
  return c.chance(1, 4) ? 0U : 1U + (c.flip() ? c.u(3U) : c.u(40U));
}

struct balance {
  balance() : files_{files}, maps_{maps}, live_{fault::st().live_} {}
  void check() const {
    PBT_EQ(files, files_, "open files");
    PBT_EQ(maps, maps_, "mapped regions");
    PBT_EQ(fault::st().live_, live_, "allocated blocks");
  }
  long files_, maps_, live_;
};

template <cista::mode Mode>
void save_load(Ctx& c) {
  auto const b = balance{};
  auto failed = 0U, ok = 0U;
  {
    auto v = make(c);
    auto const bytes = cista::serialize<Mode>(v);
    auto const expected = std::string{reinterpret_cast<char const*>(bytes.data()), bytes.size()};
    auto const p = path("value.bin");
    for (auto n = 2U + c.u(6U); n != 0U; --n) {
      auto bad = false;
      auto const at = when(c);
      if (c.flip()) {
        std::ofstream{p, std::ios::binary | std::ios::trunc};
        bad = attempt(c, "serialize to a file", at, [&]() {
          auto f = cista::file{p.c_str(), "w+"};
          cista::serialize<Mode>(f, v);
        });
        if (!bad) {
          PBT_CHECK(slurp(p) == expected, "the file is not what was serialized");
        }
      } else {
        // its destructor writes, and cannot report: not part of the attempt
        auto m = cista::buf<cista::mmap>{};
        bad = attempt(c, "serialize to a mapping", at, [&]() {
          m.buf_ = cista::mmap{p.c_str(), cista::mmap::protection::WRITE};
          cista::serialize<Mode>(m, v);
          m.buf_.sync();
        });
        if (!bad) {
          PBT_EQ(m.size(), expected.size());
          PBT_CHECK(std::string(m.buf_.view()) == expected, "the mapping is not what was serialized");
        }
        m = cista::buf<cista::mmap>{};
        if (!bad) {
          PBT_CHECK(slurp(p) == expected, "the file is not what was mapped");
        }
      }
      bad ? ++failed : ++ok;
      PBT_CHECK(equal(v, *cista::deserialize<value const, Mode>(expected)), "the value has changed");

      { std::ofstream{p, std::ios::binary | std::ios::trunc}.write(expected.data(), static_cast<long>(expected.size())); }
      auto const at2 = when(c);
      switch (c.u(2U)) {
        case 0:
          bad = attempt(c, "read", at2, [&]() {
            auto const r = cista::read<value, Mode>(p);
            PBT_CHECK(equal(*r, v), "read something else");
          });
          break;
        case 1:
        {
          auto r = std::optional<cista::wrapped<value const>>{};
          bad = attempt(c, "read mapped", at2, [&]() {
            r.emplace(cista::read_mmap<value const, Mode>(p));
            PBT_CHECK(equal(**r, v), "read something else");
          });
        }
          break;
        default: {
          auto const from = c.u(expected.size());
          bad = attempt(c, "content and checksum", at2, [&]() {
            auto f = cista::file{p.c_str(), "r"};
            PBT_EQ(f.checksum(static_cast<cista::offset_t>(from)),
                   cista::hash(std::string_view{expected}.substr(from)));
            auto const x = f.content();
            PBT_CHECK((std::string{reinterpret_cast<char const*>(x.data()), x.size()}) == expected, "content");
            PBT_EQ(f.checksum(), cista::hash(std::string_view{expected}));
          });
        }
      }
      bad ? ++failed : ++ok;
    }
  }
  b.check();
  c.nontrivial_if(failed > 1U && ok > 1U);
}

void mapping(Ctx& c) {
  auto const b = balance{};
  auto failed = 0U, ok = 0U;
  auto const p = path("map.bin");
  std::string model;
  {
    auto m = cista::mmap{p.c_str(), cista::mmap::protection::WRITE};
    for (auto n = 3U + c.u(20U); n != 0U; --n) {
      auto const want = c.len_big(40, 20000);
      auto bad = false;
      if (c.u(4U) != 0U) {
        if (!(bad = attempt(c, "resize", when(c), [&]() { m.resize(want); }))) {
          auto const old = model.size();
          model.resize(want);
          for (auto i = old; i < want; ++i) {
            m[i] = static_cast<std::uint8_t>(i * 7U);
            model[i] = static_cast<char>(i * 7U);
          }
        }
      } else if (c.flip()) {
        bad = attempt(c, "reserve", when(c), [&]() { m.reserve(want); });
      } else {
        bad = attempt(c, "sync", when(c), [&]() { m.sync(); });
      }
      bad ? ++failed : ++ok;
      PBT_EQ(m.size(), model.size());
      PBT_CHECK(m.view() == model, "the content has changed");
    }
  }
  PBT_CHECK(slurp(p) == model, "the file is not what was mapped");
  b.check();
  c.nontrivial_if(failed > 1U && ok > 1U);
}

void mvec(Ctx& c) {
  auto const b = balance{};
  auto failed = 0U, ok = 0U;
  auto const p = path("vec.bin");
  std::vector<std::uint64_t> m;
  {
    auto v = cista::mmap_vec<std::uint64_t>{cista::mmap{p.c_str(), cista::mmap::protection::WRITE}};
    auto val = std::uint64_t{0U};
    for (auto n = 3U + c.u(40U); n != 0U; --n) {
      auto bad = false;
      ++val;
      switch (c.u(4U)) {
        case 0:
          if (!(bad = attempt(c, "push_back", when(c), [&]() { v.push_back(val); }))) {
            m.push_back(val);
          }
          break;
        case 1:
          if (!(bad = attempt(c, "emplace_back", when(c), [&]() { v.emplace_back(val); }))) {
            m.push_back(val);
          }
          break;
        case 2: {
          auto const want = m.size() + c.u(20U);
          if (!(bad = attempt(c, "resize", when(c), [&]() { v.resize(static_cast<unsigned>(want)); }))) {
            m.resize(want);
          }
          break;
        }
        case 3: {
          auto const at = c.idx(m.size() + 1U);
          if (!(bad = attempt(c, "insert", when(c), [&]() { v.insert(v.begin() + at, val); }))) {
            m.insert(m.begin() + static_cast<long>(at), val);
          }
          break;
        }
        default:
          bad = attempt(c, "reserve", when(c), [&]() { v.reserve(static_cast<unsigned>(c.u(100U))); });
      }
      bad ? ++failed : ++ok;
      PBT_EQ(static_cast<std::size_t>(v.size()), m.size());
      PBT_CHECK(std::equal(v.begin(), v.end(), m.begin()), "the content has changed");
    }
  }
  auto const file = slurp(p);
  PBT_CHECK(file.size() == m.size() * 8U && std::equal(m.begin(), m.end(), reinterpret_cast<std::uint64_t const*>(file.data())),
            "the file is not what was in the vector");
  b.check();
  c.nontrivial_if(failed > 1U && ok > 1U);
}

PBT_REG(sl_none, "save_load", save_load<cista::mode::NONE>, 1500, 80000)
PBT_REG(sl_full, "save_load_checked",
        (save_load<cista::mode::WITH_INTEGRITY | cista::mode::WITH_STATIC_VERSION>), 1500, 80000)
PBT_REG(map_, "mapping", mapping, 1500, 80000)
PBT_REG(mvec_, "mapped_vector", mvec, 1500, 80000)
}  // namespace
