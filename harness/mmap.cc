// C21: mapped files, mapped vectors and what is built on them, against byte
// arrays and std::vector, across closing and reopening.
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "cista/io.h"
#include "cista/serialization.h"

#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vecvec.h"

#include "pbt.h"

namespace {

struct sync_call {
  void* at_{nullptr};
  std::size_t size_{0U};
  int flags_{0};
  unsigned n_{0U};
};
sync_call last_sync;

}  // namespace

// Whether the data was forced to the disk cannot be seen without a power
// failure: record the request and pass it on.
extern "C" int msync(void* const at, std::size_t const size, int const flags) {
  last_sync = {at, size, flags, last_sync.n_ + 1U};
  return static_cast<int>(::syscall(SYS_msync, at, size, flags));
}

namespace {

using prot = cista::mmap::protection;
using pbt::Ctx;

std::string file_path(unsigned const i) { return pbt::scratch_dir() + "/m" + std::to_string(i); }

std::string slurp(std::string const& p) {
  std::ifstream f{p, std::ios::binary};
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void spit(std::string const& p, std::string const& s) {
  std::ofstream f{p, std::ios::binary | std::ios::trunc};
  f << s;
}
bool exists(std::string const& p) {
  struct stat st;
  return ::stat(p.c_str(), &st) == 0;
}
std::size_t disk_size(std::string const& p) {
  struct stat st;
  return ::stat(p.c_str(), &st) == 0 ? static_cast<std::size_t>(st.st_size) : ~std::size_t{0};
}
int next_fd() {
  auto const fd = ::dup(0);
  ::close(fd);
  return fd;
}

// Number of mappings of files in the scratch directory.
unsigned file_mappings() {
  std::ifstream f{"/proc/self/maps"};
  auto n = 0U;
  for (std::string l; std::getline(f, l);) {
    n += l.find(pbt::scratch_dir()) != std::string::npos ? 1U : 0U;
  }
  return n;
}

void same_bytes(std::string_view got, std::string_view want, char const* what) {
  PBT_CHECK(got.size() == want.size(), "%s: %zu bytes instead of %zu", what, got.size(), want.size());
  for (auto i = std::size_t{0U}; i != got.size(); ++i) {
    PBT_CHECK(got[i] == want[i], "%s: byte %zu is %u, not %u", what, i, static_cast<unsigned char>(got[i]),
              static_cast<unsigned char>(want[i]));
  }
}

std::size_t some_size(Ctx& c) {
  switch (c.u(3)) {
    case 0: return static_cast<std::size_t>(c.u(40));
    case 1: {
      auto const base = c.pick({std::size_t{1}, std::size_t{16}, std::size_t{1024}, std::size_t{4096}, std::size_t{8192}, std::size_t{65536}});
      return base - 1U + static_cast<std::size_t>(c.u(2));
    }
    case 2: return static_cast<std::size_t>(c.u(5000));
    default: return static_cast<std::size_t>(c.u(30000));
  }
}

// ------------------------------------------------------------------ mmap
struct slot {
  std::optional<cista::mmap> m_;
  unsigned file_{0U};
  prot prot_{prot::READ};
  std::string bytes_;    // logical contents
  std::size_t high_{0};  // everything from here on has never been used
};

void check_slot(slot& s) {
  auto& m = *s.m_;
  auto const& cm = m;
  PBT_EQ(m.size(), s.bytes_.size(), "size of mapping of file %u", s.file_);
  same_bytes(m.view(), s.bytes_, "mapping");
  PBT_CHECK(m.begin() == m.data() && cm.begin() == cm.data() && m.data() == cm.data(), "begin of mapping");
  PBT_CHECK(m.end() == m.begin() + m.size() && cm.end() == cm.begin() + m.size(), "end of mapping");
  if (m.size() != 0U) {
    PBT_CHECK(&m[m.size() - 1U] == m.end() - 1 && &cm[0] == cm.begin(), "index of mapping");
  }
}

}  // namespace

PBT_TARGET(mmap_history, 12500, 160000) {
  constexpr auto const n_files = 3U;
  auto const fd = next_fd();
  std::vector<std::optional<std::string>> disk(n_files);  // what closed files hold
  for (auto i = 0U; i != n_files; ++i) {
    ::unlink(file_path(i).c_str());
    if (c.chance(1, 3)) {
      disk[i] = c.str(60, true);
      spit(file_path(i), *disk[i]);
    }
  }
  std::vector<slot> slots(2U);
  auto closes_with_content = 0U, reopened = 0U;

  auto const closed = [&](slot& s) {  // s.m_ is gone: its file must be exact
    auto const f = file_path(s.file_);
    PBT_EQ(disk_size(f), s.bytes_.size(), "size of the closed file %u", s.file_);
    same_bytes(slurp(f), s.bytes_, "closed file");
    disk[s.file_] = s.bytes_;
    closes_with_content += s.bytes_.empty() ? 0U : 1U;
  };
  auto const in_use = [&](unsigned const file) {
    for (auto& s : slots) {
      if (s.m_.has_value() && s.file_ == file) {
        return true;
      }
    }
    return false;
  };

  for (auto step = 0U; step < 60U && c.more(14); ++step) {
    auto& s = slots[c.idx(2U)];
    if (!s.m_.has_value()) {
      auto const f = static_cast<unsigned>(c.idx(n_files));
      if (in_use(f)) {
        continue;
      }
      auto const p = c.pick({prot::WRITE, prot::MODIFY, prot::READ});
      c.log("open file %u %s", f, p == prot::WRITE ? "WRITE" : p == prot::MODIFY ? "MODIFY" : "READ");
      if (p != prot::WRITE && !disk[f].has_value()) {
        PBT_THROWS(cista::mmap(file_path(f).c_str(), p));
        PBT_CHECK(!exists(file_path(f)), "a failed open created the file");
        continue;
      }
      s.file_ = f;
      s.prot_ = p;
      s.bytes_ = p == prot::WRITE ? std::string{} : *disk[f];
      s.high_ = s.bytes_.size();
      reopened += p != prot::WRITE && !s.bytes_.empty() ? 1U : 0U;
      s.m_.emplace(file_path(f).c_str(), p);
      check_slot(s);
      continue;
    }
    auto& m = *s.m_;
    auto const writable = s.prot_ != prot::READ;
    switch (c.u(9)) {
      case 0:
      case 1: {
        auto const n = some_size(c);
        c.log("resize %zu", n);
        if (!writable) {
          PBT_THROWS(m.resize(n));
          break;
        }
        auto const old = s.bytes_.size();
        m.resize(n);
        s.bytes_.resize(n);
        PBT_EQ(m.size(), n, "size after resize");
        for (auto i = old; i < n; ++i) {
          if (i < s.high_) {
            s.bytes_[i] = static_cast<char>(m[i]);  // used before: any value
          } else {
            PBT_CHECK(m[i] == 0U, "byte %zu is new but not zero", i);
          }
        }
        s.high_ = std::max(s.high_, n);
        break;
      }
      case 2: {
        auto const n = some_size(c);
        c.log("reserve %zu", n);
        if (!writable) {
          PBT_THROWS(m.reserve(n));
          break;
        }
        m.reserve(n);
        // the reserved bytes exist
        if (n > s.bytes_.size() && n != 0U) {
          m.data()[n - 1U] = m.data()[n - 1U];
        }
        break;
      }
      case 3:
      case 4:
      case 5: {
        if (!writable || s.bytes_.empty()) {
          break;
        }
        auto const at = c.chance(1, 3) ? s.bytes_.size() - 1U : static_cast<std::size_t>(c.u(s.bytes_.size() - 1U));
        auto const n = 1U + static_cast<std::size_t>(c.u(std::min<std::size_t>(s.bytes_.size() - at, 300U) - 1U));
        auto const v = static_cast<unsigned char>(c.u(255));
        c.log("write %zu bytes at %zu", n, at);
        for (auto i = std::size_t{0U}; i != n; ++i) {
          m[at + i] = static_cast<std::uint8_t>(v + i * 7U);
          s.bytes_[at + i] = static_cast<char>(v + i * 7U);
        }
        break;
      }
      case 6: {
        c.log("sync");
        auto const before = last_sync.n_;
        m.sync();
        if (writable && !s.bytes_.empty()) {
          PBT_CHECK(last_sync.n_ == before + 1U && last_sync.at_ == m.data() && last_sync.size_ >= s.bytes_.size() &&
                        (last_sync.flags_ & MS_SYNC) != 0,
                    "sync() did not write the whole mapping to the disk");
        }
        auto const d = slurp(file_path(s.file_));
        PBT_CHECK(d.size() >= s.bytes_.size(), "file has %zu bytes after sync, mapping %zu", d.size(), s.bytes_.size());
        same_bytes(std::string_view{d}.substr(0, s.bytes_.size()), s.bytes_, "synced file");
        break;
      }
      case 7: {
        c.log("close");
        s.m_.reset();
        closed(s);
        break;
      }
      case 8: {
        auto& o = slots[&s == &slots[0] ? 1U : 0U];
        if (o.m_.has_value() && c.flip()) {  // move over an open mapping
          c.log("move assign over open file %u", o.file_);
          *o.m_ = std::move(m);
          s.m_.reset();
          closed(o);
        } else if (!o.m_.has_value()) {
          c.log("move");
          if (c.flip()) {
            o.m_.emplace(std::move(m));
          } else {
            o.m_.emplace();
            PBT_CHECK(o.m_->size() == 0U && o.m_->data() == nullptr, "default mapping is not empty");
            *o.m_ = std::move(m);
          }
          s.m_.reset();
        } else {
          break;
        }
        std::tie(o.file_, o.prot_, o.bytes_, o.high_) = std::tie(s.file_, s.prot_, s.bytes_, s.high_);
        PBT_CHECK(s.file_ == o.file_, "model");
        if (disk_size(file_path(o.file_)) < o.bytes_.size()) {
          PBT_FAIL("the file shrank when its mapping was moved");
        }
        check_slot(o);
        break;
      }
      default: {
        c.log("self move");
        auto& self = m;
        m = std::move(self);
        break;
      }
    }
    if (s.m_.has_value()) {
      check_slot(s);
    }
  }
  for (auto& s : slots) {
    if (s.m_.has_value()) {
      s.m_.reset();
      closed(s);
    }
  }
  PBT_EQ(file_mappings(), 0U, "mappings that are left after closing everything");
  for (auto i = 0U; i != n_files; ++i) {
    if (disk[i].has_value()) {
      same_bytes(slurp(file_path(i)), *disk[i], "file at the end");
      cista::mmap const m{file_path(i).c_str(), prot::READ};
      same_bytes(m.view(), *disk[i], "final read-only mapping");
    } else {
      PBT_CHECK(!exists(file_path(i)), "file %u appeared", i);
    }
  }
  PBT_EQ(next_fd(), fd, "file descriptors");
  c.nontrivial_if(closes_with_content != 0U && reopened != 0U);
  if (reopened != 0U) {
    c.label("reopened");
  }
}

// -------------------------------------------------------------- mmap_vec
namespace {

struct rec {
  friend bool operator==(rec const& a, rec const& b) { return a.a_ == b.a_ && a.b_ == b.b_; }
  std::uint32_t a_{7U};
  std::uint64_t b_{9U};
};
using key_t_ = cista::strong<std::uint32_t, struct key_tag_>;

template <typename T>
T value(Ctx& c) {
  if constexpr (std::is_same_v<T, rec>) {
    return rec{c.num<std::uint32_t>(), c.num<std::uint64_t>()};
  } else {
    return static_cast<T>(c.num<std::make_unsigned_t<T>>());
  }
}
std::string show(rec const& r) { return std::to_string(r.a_) + "/" + std::to_string(r.b_); }
template <typename T>
std::string show(T const& x) {
  return std::to_string(x);
}

template <typename T>
struct input_it {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const& operator*() const { return *p_; }
  input_it& operator++() {
    ++p_;
    return *this;
  }
  input_it operator++(int) {
    auto x = *this;
    ++p_;
    return x;
  }
  friend bool operator==(input_it a, input_it b) { return a.p_ == b.p_; }
  friend bool operator!=(input_it a, input_it b) { return a.p_ != b.p_; }
  T const* p_;
};

template <typename Vec, typename T>
void same_vec(Vec& v, std::vector<T> const& want, char const* what) {
  auto const& cv = v;
  using Key = typename Vec::access_type;
  PBT_EQ(static_cast<std::size_t>(v.size()), want.size(), "%s: size", what);
  PBT_EQ(v.empty(), want.empty(), "%s: empty", what);
  PBT_CHECK(v.begin() + want.size() == v.end() && cv.begin() + want.size() == cv.end() && cv.cbegin() == cv.begin() &&
                cv.cend() == cv.end() && v.data() == v.begin() && cv.data() == cv.begin() && begin(v) == v.begin() &&
                end(cv) == cv.end(),
            "%s: iterators", what);
  for (auto i = std::size_t{0U}; i != want.size(); ++i) {
    auto const k = Key{static_cast<typename Vec::size_type>(i)};
    PBT_CHECK(v[k] == want[i], "%s: element %zu is %s, not %s", what, i, show(v[k]).c_str(), show(want[i]).c_str());
    PBT_CHECK(&v[k] == v.begin() + i && &cv[k] == cv.begin() + i, "%s: index %zu", what, i);
  }
}

template <typename T>
std::string bytes_of(std::vector<T> const& v) {
  auto s = std::string(v.size() * sizeof(T), '\0');
  if (!v.empty()) {
    std::memcpy(s.data(), v.data(), s.size());
  }
  return s;
}
// no padding comparisons: element-wise
template <typename T>
std::vector<T> from_bytes(std::string const& s) {
  std::vector<T> v(s.size() / sizeof(T));
  if (!v.empty()) {
    std::memcpy(v.data(), s.data(), v.size() * sizeof(T));
  }
  return v;
}

template <typename Vec>
void vec_history(Ctx& c) {
  using T = typename Vec::value_type;
  using Key = typename Vec::access_type;
  using size_type = typename Vec::size_type;
  auto const fd = next_fd();
  auto const path = file_path(7U);
  ::unlink(path.c_str());
  std::vector<T> model;
  std::optional<Vec> v;
  auto prot_ = prot::WRITE;
  v.emplace(cista::mmap{path.c_str(), prot_});
  auto reopened = 0U, writes = 0U, ro = 0U;

  auto const reopen = [&] {
    v.reset();
    auto const d = slurp(path);
    PBT_EQ(d.size(), model.size() * sizeof(T), "bytes of the closed file");
    PBT_CHECK(from_bytes<T>(d) == model, "contents of the closed file");
    prot_ = c.chance(1, 4) ? prot::READ : prot::MODIFY;
    c.log("reopen %s", prot_ == prot::READ ? "READ" : "MODIFY");
    v.emplace(cista::mmap{path.c_str(), prot_});
    same_vec(*v, model, "reopened");
    reopened += model.empty() ? 0U : 1U;
  };

  for (auto step = 0U; step < 80U && c.more(20); ++step) {
    auto const n = model.size();
    auto const writable = prot_ != prot::READ;
    if (!writable && c.flip()) {
      reopen();
      continue;
    }
    auto const rd = [&](char const* what) {
      ++ro;
      c.log("%s (read only)", what);
    };
    switch (c.u(12)) {
      case 0:
      case 1: {
        auto const x = value<T>(c);
        if (!writable) {
          rd("push_back");
          PBT_THROWS(v->push_back(x));
          break;
        }
        c.log("push_back %s", show(x).c_str());
        v->push_back(x);
        model.push_back(x);
        break;
      }
      case 2: {
        auto const x = value<T>(c);
        if (!writable) {
          rd("emplace_back");
          PBT_THROWS(v->emplace_back(x));
          break;
        }
        c.log("emplace_back %s", show(x).c_str());
        auto& r = v->emplace_back(x);
        PBT_CHECK(r == x && &r == v->end() - 1, "emplace_back returned another element");
        model.push_back(x);
        break;
      }
      case 3: {
        auto const m = c.chance(1, 3) ? some_size(c) / sizeof(T) : static_cast<std::size_t>(c.u(n + 5U));
        if (!writable) {
          rd("resize");
          PBT_THROWS(v->resize(static_cast<size_type>(m)));
          break;
        }
        c.log("resize %zu", m);
        v->resize(static_cast<size_type>(m));
        model.resize(m);
        break;
      }
      case 4: {
        auto const m = c.flip() ? some_size(c) / sizeof(T) : static_cast<std::size_t>(c.u(n + 5U));
        if (!writable) {
          rd("reserve");
          PBT_THROWS(v->reserve(static_cast<size_type>(m)));
          break;
        }
        c.log("reserve %zu", m);
        v->reserve(static_cast<size_type>(m));
        if (m > n && m < 70000U) {  // room for m elements: nothing moves, nothing is remapped
          auto const at = v->data();
          auto const last = reinterpret_cast<std::uint8_t volatile*>(at + m) - 1;
          *last = *last;
          v->push_back(T{});
          model.push_back(T{});
          PBT_CHECK(v->data() == at, "append within the reserved size moved the elements");
        }
        break;
      }
      case 5: {
        std::vector<T> src(static_cast<std::size_t>(c.u(20)));
        for (auto& x : src) {
          x = value<T>(c);
        }
        if (!writable) {
          rd("set");
          PBT_THROWS(v->set(src.begin(), src.end()));
          break;
        }
        c.log("set %zu", src.size());
        v->set(src.begin(), src.end());
        model = src;
        break;
      }
      case 6:
      case 7: {
        auto const at = static_cast<std::size_t>(c.u(n));
        auto const x = value<T>(c);
        if (!writable) {
          rd("insert");
          PBT_THROWS(v->insert(v->begin() + at, x));
          break;
        }
        c.log("insert %s at %zu", show(x).c_str(), at);
        auto* const it = v->insert(v->begin() + at, x);
        model.insert(model.begin() + static_cast<std::ptrdiff_t>(at), x);
        PBT_EQ(static_cast<std::size_t>(it - v->begin()), at, "insert returned another position");
        break;
      }
      case 8: {
        auto const at = static_cast<std::size_t>(c.u(n));
        std::vector<T> src(static_cast<std::size_t>(c.u(8)));
        for (auto& x : src) {
          x = value<T>(c);
        }
        auto const input = c.flip();
        if (!writable) {
          if (src.empty()) {
            break;  // nothing to write: need not throw
          }
          rd("insert range");
          PBT_THROWS(v->insert(v->begin() + at, src.begin(), src.end()));
          break;
        }
        c.log("insert %zu %s elements at %zu", src.size(), input ? "input" : "forward", at);
        auto* const it = input ? v->insert(v->begin() + at, input_it<T>{src.data()}, input_it<T>{src.data() + src.size()})
                               : v->insert(v->begin() + at, src.begin(), src.end());
        model.insert(model.begin() + static_cast<std::ptrdiff_t>(at), src.begin(), src.end());
        PBT_EQ(static_cast<std::size_t>(it - v->begin()), at, "insert range returned another position");
        break;
      }
      case 9:
        if (n != 0U && writable) {
          auto const at = c.idx(n);
          auto const x = value<T>(c);
          c.log("[%zu] = %s", static_cast<std::size_t>(at), show(x).c_str());
          (*v)[Key{static_cast<size_type>(at)}] = x;
          model[at] = x;
        }
        break;
      case 10:
        if (n != 0U && writable) {
          auto const at = c.idx(n);
          c.log("own element %zu", static_cast<std::size_t>(at));
          auto const x = T{model[at]};
          auto const& own = (*v)[Key{static_cast<size_type>(at)}];
          switch (c.u(2)) {
            case 0:
              v->push_back(own);
              model.push_back(x);
              break;
            case 1:
              v->emplace_back(own);
              model.push_back(x);
              break;
            default: {
              auto const to = c.u(n);
              v->insert(v->begin() + to, own);
              model.insert(model.begin() + static_cast<std::ptrdiff_t>(to), x);
            }
          }
        }
        break;
      case 11: {
        c.log("move");
        auto w = Vec{std::move(*v)};
        if (c.flip()) {
          v.reset();
          v.emplace(std::move(w));
        } else {
          *v = std::move(w);
        }
        break;
      }
      default: reopen(); break;
    }
    same_vec(*v, model, "mapped vector");
    ++writes;
  }
  v.reset();
  auto const d = slurp(path);
  PBT_EQ(d.size(), model.size() * sizeof(T), "bytes of the file");
  PBT_CHECK(from_bytes<T>(d) == model, "contents of the file");
  PBT_EQ(next_fd(), fd, "file descriptors");
  c.nontrivial_if(reopened != 0U && writes > 2U);
  if (ro != 0U) {
    c.label("read only");
  }
}

}  // namespace

PBT_TARGET(mmap_vec_u8, 4500, 80000) { vec_history<cista::mmap_vec<std::uint8_t>>(c); }
PBT_TARGET(mmap_vec_u32, 4500, 80000) { vec_history<cista::mmap_vec<std::uint32_t>>(c); }
PBT_TARGET(mmap_vec_rec, 4500, 80000) { vec_history<cista::mmap_vec<rec>>(c); }
PBT_TARGET(mmap_vec_map, 4500, 80000) { vec_history<cista::mmap_vec_map<key_t_, rec>>(c); }
PBT_TARGET(mmap_vec_key64, 4500, 80000) {
  vec_history<cista::basic_mmap_vec<std::int16_t, cista::strong<std::uint64_t, struct k64_>>>(c);
}

// A file that does not hold a whole number of elements: the vector has the
// complete ones, nothing is written before it is modified.
namespace {

template <typename T>
void ragged(Ctx& c) {
  auto const path = file_path(6U);
  auto const bytes = c.str(static_cast<std::size_t>(c.chance(1, 10) ? 9000U : 60U), true);
  spit(path, bytes);
  auto model = from_bytes<T>(bytes);
  c.nontrivial_if(bytes.size() % sizeof(T) != 0U);
  c.log("file of %zu bytes, elements of %zu", bytes.size(), sizeof(T));
  {
    cista::mmap_vec<T> v{cista::mmap{path.c_str(), prot::READ}};
    same_vec(v, model, "ragged, read only");
  }
  same_bytes(slurp(path), bytes, "ragged file after reading");
  {
    cista::mmap_vec<T> v{cista::mmap{path.c_str(), prot::MODIFY}};
    same_vec(v, model, "ragged");
    for (auto n = c.len(6U); n != 0U; --n) {
      auto const x = value<T>(c);
      v.push_back(x);
      model.push_back(x);
      same_vec(v, model, "ragged, appended");
    }
    if (c.flip()) {
      auto const n = static_cast<std::size_t>(c.u(40));
      v.resize(static_cast<std::uint32_t>(n));
      model.resize(n, T{});
      same_vec(v, model, "ragged, resized");
    }
    v.mmap_.resize(v.size() * sizeof(T));
  }
  auto const d = slurp(path);
  PBT_EQ(d.size(), model.size() * sizeof(T), "size of the rewritten file");
  PBT_CHECK(from_bytes<T>(d) == model, "contents of the rewritten file");
}

}  // namespace

PBT_TARGET(mmap_vec_ragged, 6000, 80000) {
  switch (c.u(2)) {
    case 0: return ragged<std::uint32_t>(c);
    case 1: return ragged<std::int16_t>(c);
    default: return ragged<rec>(c);
  }
}

// ------------------------------------------- nested containers over mappings
namespace {

using vv_key = cista::strong<std::uint32_t, struct vv_key_>;
using vv_idx = cista::mmap_vec<std::uint32_t>;
using vv_data = cista::mmap_vec<std::uint16_t>;
using vv = cista::basic_vecvec<vv_key, vv_data, vv_idx>;
using pv_data = cista::paged<cista::mmap_vec<std::uint16_t>>;
using pv_idx = cista::mmap_vec<pv_data::page_t>;
using pv = cista::paged_vecvec<pv_idx, pv_data, vv_key>;

using vmodel = std::vector<std::vector<std::uint16_t>>;

template <typename V>
void same_nested(V& v, vmodel const& m) {
  PBT_EQ(static_cast<std::size_t>(v.size()), m.size(), "number of buckets");
  for (auto i = std::size_t{0U}; i != m.size(); ++i) {
    auto const b = v[vv_key{static_cast<std::uint32_t>(i)}];
    PBT_EQ(static_cast<std::size_t>(b.size()), m[i].size(), "size of bucket %zu", i);
    PBT_CHECK(std::equal(b.begin(), b.end(), m[i].begin(), m[i].end()), "contents of bucket %zu", i);
  }
}

template <typename V, typename Open>
void nested_history(Ctx& c, Open&& open, bool const reopenable) {
  auto const fd = next_fd();
  ::unlink(file_path(8U).c_str());
  ::unlink(file_path(9U).c_str());
  vmodel m;
  std::optional<V> v;
  v.emplace(open(prot::WRITE));
  auto reopened = 0U;
  for (auto step = 0U; step < 60U && c.more(16); ++step) {
    switch (c.u(6)) {
      case 0:
      case 1:
      case 2: {
        std::vector<std::uint16_t> x(static_cast<std::size_t>(c.chance(1, 8) ? c.u(3000) : c.u(9)));
        auto s = c.num<std::uint16_t>();
        for (auto& e : x) {
          e = s++;
        }
        c.log("emplace_back %zu elements", x.size());
        v->emplace_back(x);
        m.push_back(x);
        break;
      }
      case 3:
      case 4:
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          auto const e = c.num<std::uint16_t>();
          c.log("bucket %zu push_back", static_cast<std::size_t>(i));
          (*v)[vv_key{static_cast<std::uint32_t>(i)}].push_back(e);
          m[i].push_back(e);
        }
        break;
      case 5:
        if (!m.empty()) {
          auto const i = c.idx(m.size());
          if (!m[i].empty()) {
            auto const j = c.idx(m[i].size());
            auto const e = c.num<std::uint16_t>();
            c.log("bucket %zu [%zu] =", static_cast<std::size_t>(i), static_cast<std::size_t>(j));
            (*v)[vv_key{static_cast<std::uint32_t>(i)}][static_cast<std::uint32_t>(j)] = e;
            m[i][j] = e;
          }
        }
        break;
      default:
        if (reopenable) {
          c.log("reopen");
          v.reset();
          v.emplace(open(prot::MODIFY));
          reopened += m.empty() ? 0U : 1U;
        }
        break;
    }
    same_nested(*v, m);
  }
  if (reopenable) {
    v.reset();
    v.emplace(open(prot::READ));
    same_nested(*v, m);
  }
  v.reset();
  PBT_EQ(next_fd(), fd, "file descriptors");
  c.nontrivial_if(m.size() >= 2U && (reopened != 0U || !reopenable));
}

}  // namespace

PBT_TARGET(mmap_vecvec, 4500, 60000) {
  nested_history<vv>(
      c,
      [](prot const p) {
        return vv{vv_data{cista::mmap{file_path(8U).c_str(), p}}, vv_idx{cista::mmap{file_path(9U).c_str(), p}}};
      },
      true);
}
PBT_TARGET(mmap_paged_vecvec, 4500, 60000) {
  nested_history<pv>(
      c,
      [](prot const p) {
        return pv{pv_data{cista::mmap_vec<std::uint16_t>{cista::mmap{file_path(8U).c_str(), p}}},
                  pv_idx{cista::mmap{file_path(9U).c_str(), p}}};
      },
      true);
}

// ------------------------------------------------ values in files, holders
namespace {

struct doc {
  auto cista_members() { return std::tie(id_, names_, map_, next_); }
  std::uint32_t id_{};
  cista::offset::vector<cista::offset::string> names_;
  cista::offset::hash_map<std::uint32_t, cista::offset::vector<std::uint16_t>> map_;
  cista::offset::unique_ptr<cista::offset::string> next_;
};

struct doc_model {
  std::uint32_t id_{};
  std::vector<std::string> names_;
  std::map<std::uint32_t, std::vector<std::uint16_t>> map_;
  std::optional<std::string> next_;
};

doc_model gen_doc(Ctx& c) {
  doc_model m;
  m.id_ = c.num<std::uint32_t>();
  for (auto i = c.u(5); i != 0U; --i) {
    auto s = c.str(40, false);
    m.names_.push_back(s);
  }
  for (auto i = c.u(5); i != 0U; --i) {
    auto& v = m.map_[static_cast<std::uint32_t>(c.u(50))];
    for (auto j = c.u(5); j != 0U; --j) {
      v.push_back(c.num<std::uint16_t>());
    }
  }
  if (c.flip()) {
    m.next_ = c.str(40, false);
  }
  return m;
}

doc build(doc_model const& m) {
  doc d;
  d.id_ = m.id_;
  for (auto const& s : m.names_) {
    d.names_.emplace_back(std::string_view{s});
  }
  for (auto const& [k, v] : m.map_) {
    auto& x = d.map_[k];
    for (auto const e : v) {
      x.push_back(e);
    }
  }
  if (m.next_.has_value()) {
    d.next_ = cista::offset::make_unique<cista::offset::string>(std::string_view{*m.next_});
  }
  return d;
}

void same_doc(doc const& d, doc_model const& m, char const* what) {
  PBT_EQ(d.id_, m.id_, "%s: id", what);
  PBT_EQ(static_cast<std::size_t>(d.names_.size()), m.names_.size(), "%s: names", what);
  for (auto i = 0U; i != m.names_.size(); ++i) {
    PBT_CHECK(d.names_[i].view() == m.names_[i], "%s: name %u", what, i);
  }
  PBT_EQ(static_cast<std::size_t>(d.map_.size()), m.map_.size(), "%s: map size", what);
  for (auto const& [k, v] : m.map_) {
    auto const it = d.map_.find(k);
    PBT_CHECK(it != d.map_.end(), "%s: key %u missing", what, k);
    PBT_CHECK(std::equal(v.begin(), v.end(), it->second.begin(), it->second.end()), "%s: map value of %u", what, k);
  }
  PBT_CHECK((d.next_ != nullptr) == m.next_.has_value(), "%s: pointer", what);
  if (m.next_.has_value()) {
    PBT_CHECK(d.next_->view() == *m.next_, "%s: pointed to string", what);
  }
}

template <cista::mode Mode>
void io_history(Ctx& c) {
  auto const fd = next_fd();
  struct held {
    cista::wrapped<doc> w_;
    std::optional<doc_model> m_;
    int file_{-1};  // mapped file
  };
  {
    std::vector<std::optional<doc_model>> files(2U);
    std::vector<held> h(3U);
    for (auto i = 0U; i != 2U; ++i) {
      ::unlink(file_path(20U + i).c_str());
    }
    auto loads = 0U, moves = 0U;
    for (auto step = 0U; step < 30U && c.more(10); ++step) {
      auto const fi = static_cast<unsigned>(c.idx(2U));
      auto& x = h[c.idx(3U)];
      auto const path = file_path(20U + fi);
      auto const mapped = std::any_of(h.begin(), h.end(), [&](held const& y) { return y.file_ == static_cast<int>(fi); });
      switch (c.u(6)) {
        case 0:
        case 1: {
          if (mapped) {
            break;  // truncating a mapped file is not allowed
          }
          if (x.m_.has_value() && c.flip()) {
            c.log("write holder to %u", fi);
            cista::write<Mode>(path, x.w_);
            files[fi] = x.m_;
          } else {
            auto const m = gen_doc(c);
            c.log("write new value to %u", fi);
            auto const d = build(m);
            cista::write<Mode>(path, d);
            files[fi] = m;
            if constexpr ((Mode & cista::mode::CAST) == cista::mode::NONE) {
              auto d1 = build(m);
              auto const bytes = cista::serialize<Mode>(d1);
              PBT_EQ(disk_size(path), bytes.size(), "bytes of the written file");
            }
          }
          break;
        }
        case 2:
        case 3: {
          if (!files[fi].has_value()) {
            PBT_THROWS((cista::read<doc, Mode>(path)));
            PBT_THROWS((cista::read_mmap<doc, Mode>(path)));
            break;
          }
          auto const before = slurp(path);
          auto const map = c.flip();
          c.log("%s %u", map ? "read_mmap" : "read", fi);
          x.w_ = map ? cista::read_mmap<doc, Mode>(path) : cista::read<doc, Mode>(path);
          x.m_ = files[fi];
          x.file_ = map ? static_cast<int>(fi) : -1;
          same_bytes(slurp(path), before, "file after reading it");
          ++loads;
          break;
        }
        case 4: {
          auto& y = h[c.idx(3U)];
          if (&x != &y) {
            c.log("move holder");
            if (c.flip()) {
              y.w_ = std::move(x.w_);
            } else {
              auto tmp = cista::wrapped<doc>{std::move(x.w_)};
              y.w_ = std::move(tmp);
            }
            y.m_ = x.m_;
            y.file_ = x.file_;
            x.m_.reset();
            x.file_ = -1;
            x.w_ = cista::wrapped<doc>{};
            ++moves;
          }
          break;
        }
        case 5: {
          auto const m = gen_doc(c);
          c.log("holder of an owned value");
          auto p = cista::raw::make_unique<doc>(build(m));
          x.w_ = cista::wrapped<doc>{std::move(p)};
          x.m_ = m;
          x.file_ = -1;
          break;
        }
        default: {
          if (x.file_ != -1) {
            break;  // values in read-only mappings cannot be destroyed
          }
          c.log("reset holder");
          x.w_.reset();
          x.m_.reset();
          break;
        }
      }
      for (auto const& y : h) {
        PBT_CHECK(static_cast<bool>(y.w_) == y.m_.has_value() && (y.w_ == nullptr) == !y.m_.has_value(),
                  "holder %s", y.m_.has_value() ? "is empty" : "is not empty");
        if (y.m_.has_value()) {
          same_doc(*y.w_, *y.m_, "held value");
          PBT_CHECK(y.w_.get() == &*y.w_ && y.w_.operator->() == y.w_.get(), "holder access");
        }
      }
    }
    c.nontrivial_if(loads != 0U);
    if (moves != 0U) {
      c.label("moved holders");
    }
  }
  PBT_EQ(next_fd(), fd, "file descriptors");
}

}  // namespace

PBT_TARGET(io_default, 7500, 80000) { io_history<cista::kDefaultMode>(c); }
PBT_TARGET(io_plain, 4000, 80000) { io_history<cista::mode::NONE>(c); }
PBT_TARGET(io_checked, 4000, 80000) {
  io_history<cista::mode::WITH_VERSION | cista::mode::WITH_INTEGRITY | cista::mode::DEEP_CHECK>(c);
}

// destructions through a holder
namespace {
struct counted {
  static int& alive() {
    static int n = 0;
    return n;
  }
  counted() : s_{"some string that does not fit anywhere inline"} { ++alive(); }
  ~counted() { --alive(); }
  std::string s_;
};
}  // namespace
PBT_TARGET(holder_destroys_once, 200, 4000) {
  counted::alive() = 0;
  {
    auto w = cista::wrapped<counted>{};
    for (auto i = c.u(5); i != 0U; --i) {
      switch (c.u(3)) {
        case 0: w = cista::wrapped<counted>{cista::raw::make_unique<counted>()}; break;
        case 1: {
          auto b = cista::buffer{sizeof(counted)};
          auto* p = new (b.data()) counted{};
          if (w) {
            w.reset();
          }
          w = cista::wrapped<counted>{cista::memory_holder{std::move(b)}, p};
          PBT_CHECK(w->s_.size() == 45U, "value in the held buffer");
          w.reset();
          break;
        }
        case 2: w.reset(); break;
        default: {
          auto x = std::move(w);
          w = std::move(x);
          break;
        }
      }
      PBT_CHECK(counted::alive() == (w ? 1 : 0), "%d values alive", counted::alive());
    }
    c.nontrivial();
  }
  PBT_CHECK(counted::alive() == 0, "%d values alive at the end", counted::alive());
}

// -------------------------------------------------------------- buffers
// ----------------------------------------- positions of more than 32 bits
struct far {
  auto cista_members() { return std::tie(a_, v_, u_, p_); }
  std::uint64_t a_{0U};
  cista::offset::vector<cista::offset::string> v_;
  cista::offset::unique_ptr<std::uint64_t> u_;
  cista::offset::ptr<std::uint64_t> p_{nullptr};
};

template <cista::mode Mode, typename Target>
void append_far(Ctx& c, Target& t, std::vector<std::string> const& texts, std::uint64_t const x) {
  c.log("serialize %zu texts", texts.size());
  far f;
  f.a_ = x;
  for (auto const& s : texts) {
    f.v_.emplace_back(std::string_view{s});
  }
  f.u_ = cista::offset::make_unique<std::uint64_t>(x + 1U);
  f.p_ = f.u_.get();
  cista::serialize<Mode>(t, f);
}
template <cista::mode Mode>
void check_far(std::uint8_t* from, std::uint8_t* to, std::vector<std::string> const& texts, std::uint64_t const x) {
  auto const& f = *cista::deserialize<far, Mode>(from, to);
  PBT_EQ(f.a_, x);
  PBT_EQ(*f.u_, x + 1U);
  PBT_CHECK(f.p_.get() == f.u_.get());
  PBT_EQ(static_cast<std::size_t>(f.v_.size()), texts.size());
  for (auto i = 0U; i != texts.size(); ++i) {
    PBT_CHECK(f.v_[i].view() == texts[i], "text %u", i);
  }
}

// Files with holes: they have large sizes and use little space.
PBT_TARGET(beyond_4g, 40, 2000) {
  constexpr auto const k4G = std::size_t{1U} << 32U;
  constexpr auto const kMode = cista::mode::WITH_INTEGRITY | cista::mode::WITH_VERSION;
  auto const p = file_path(0U);
  ::unlink(p.c_str());
  {
    auto const f = ::fopen(p.c_str(), "w");
    struct stat st {};
    auto const ok = f != nullptr && ::ftruncate(::fileno(f), static_cast<off_t>(4U * k4G)) == 0 &&
                    ::fstat(::fileno(f), &st) == 0 && st.st_blocks < 1000;
    if (f != nullptr) {
      ::fclose(f);
    }
    ::unlink(p.c_str());
    if (!ok) {
      c.label("no files with holes here");
      return;
    }
  }
  std::map<std::size_t, std::uint8_t> marks;
  auto size = k4G + 8U * (1U + c.u(4000U));
  auto const at = [&]() -> std::size_t {
    switch (c.u(4U)) {
      case 0: return c.u(5000U);
      case 1: return k4G - 1U - c.u(3U);
      case 2: return k4G + c.u(7U);
      case 3: return size - 1U - c.u(5U);
      default: return static_cast<std::size_t>(c.u(size - 1U));
    }
  };
  auto const check = [&](std::uint8_t const* data) {
    for (auto const& [pos, x] : marks) {
      PBT_EQ(data[pos], x, "byte %zu", pos);
      // positions that differ in the upper half only
      for (auto const other : {pos & (k4G - 1U), pos + k4G}) {
        if (other < size && marks.count(other) == 0U) {
          PBT_EQ(data[other], std::uint8_t{0U}, "byte %zu, never written", other);
        }
      }
    }
  };
  auto const mark = [&](std::uint8_t* data) {
    for (auto n = 1U + c.u(6U); n != 0U; --n) {
      auto const pos = at();
      auto const x = static_cast<std::uint8_t>(1U + c.u(254U));
      c.log("[%zu] = %u", pos, x);
      data[pos] = x;
      marks[pos] = x;
    }
  };
  std::vector<std::string> texts(c.u(4U));
  for (auto& t : texts) {
    t = c.str(40U, true);
  }
  auto const x = c.num<std::uint64_t>();
  auto base = std::size_t{0U};
  {
    auto m = cista::mmap{p.c_str(), prot::WRITE};
    if (c.flip()) {
      m.reserve(size);
      PBT_EQ(m.size(), std::size_t{0U});
      auto const* const before = m.data();
      m.resize(size);
      PBT_CHECK(m.data() == before, "moved although the space was reserved");
    }
    m.resize(size);
    PBT_EQ(m.size(), size);
    PBT_EQ(m.view().size(), size);
    PBT_CHECK(m.end() == m.begin() + size);
    mark(m.data());
    if (c.flip()) {
      m.sync();
    }
    if (c.flip()) {
      size += 8U * c.u(700U);
      m.resize(size);
      mark(m.data());
    }
    check(m.data());
    auto moved = std::move(m);
    check(moved.data());
    if (c.flip()) {
      base = moved.size();
      auto b = cista::buf<cista::mmap>{std::move(moved)};
      append_far<kMode>(c, b, texts, x);
      size = b.size();
      PBT_CHECK(size > base + sizeof(far), "%zu bytes after appending to %zu", size, base);
      check(b.base());
      check_far<kMode>(b.base() + base, b.base() + size, texts, x);
      auto const from = base + 8U;
      PBT_EQ(b.checksum(static_cast<cista::offset_t>(from)),
             cista::hash(std::string_view{reinterpret_cast<char const*>(b.base()) + from, size - from}));
    }
  }
  PBT_EQ(disk_size(p), size);
  if (base == 0U) {
    c.log("file");
    auto f = cista::file{p.c_str(), "r+"};
    PBT_EQ(f.size(), size);
    auto const pos = k4G + 8U * c.u((size - k4G) / 8U - 1U);
    if (c.flip()) {
      f.write(pos, std::uint64_t{0x0102030405060708ULL});
      for (auto i = 0U; i != 8U; ++i) {
        marks[pos + i] = static_cast<std::uint8_t>(8U - i);
      }
    }
    base = size;
    append_far<kMode>(c, f, texts, x);
    size = f.size();
    PBT_CHECK(size > base + sizeof(far), "%zu bytes after appending to %zu", size, base);
    auto const from = base + 8U;
    std::string tail(size - from, ' ');
    auto const r = ::fopen(p.c_str(), "r");
    auto const read = ::fseeko(r, static_cast<off_t>(from), SEEK_SET) == 0 && ::fread(tail.data(), 1U, tail.size(), r) == tail.size();
    ::fclose(r);
    PBT_CHECK(read, "the file is too short");
    PBT_EQ(f.checksum(static_cast<cista::offset_t>(from)), cista::hash(tail));
  }
  PBT_EQ(disk_size(p), size);
  {
    auto m = cista::mmap{p.c_str(), c.flip() ? prot::READ : prot::MODIFY};
    PBT_EQ(m.size(), size);
    check(m.data());
    check_far<kMode>(m.data() + base, m.data() + size, texts, x);
  }
  auto const as_vector = [&](auto&& v) {
    using V = std::decay_t<decltype(v)>;
    using T = typename V::value_type;
    auto const n = size / sizeof(T);
    PBT_EQ(static_cast<std::size_t>(v.size()), n);
    PBT_CHECK(v.end() == v.begin() + n && !v.empty());
    for (auto const& [pos, m] : marks) {
      if (pos / sizeof(T) < n) {
        auto const& el = v[static_cast<typename V::access_type>(pos / sizeof(T))];
        PBT_EQ(reinterpret_cast<std::uint8_t const*>(&el)[pos % sizeof(T)], m, "byte %zu", pos);
      }
    }
    auto const add = 1U + c.u(5U);
    for (auto i = 0U; i != add; ++i) {
      i % 2U == 0U ? v.push_back(static_cast<T>(i + 1U)) : static_cast<void>(v.emplace_back(static_cast<T>(i + 1U)));
    }
    PBT_EQ(static_cast<std::size_t>(v.size()), n + add);
    for (auto i = 0U; i != add; ++i) {
      PBT_EQ(v.begin()[n + i], static_cast<T>(i + 1U));
    }
    check(reinterpret_cast<std::uint8_t const*>(v.begin()));
    auto const less = n - c.u(20U);
    v.resize(less);
    PBT_EQ(static_cast<std::size_t>(v.size()), less);
    size = less * sizeof(T);
    marks.erase(marks.lower_bound(size), marks.end());
  };
  switch (c.u(2U)) {
    case 0: as_vector(cista::basic_mmap_vec<std::uint8_t, std::uint64_t>{cista::mmap{p.c_str(), prot::MODIFY}}); break;
    case 1: as_vector(cista::basic_mmap_vec<std::uint64_t, std::uint64_t>{cista::mmap{p.c_str(), prot::MODIFY}}); break;
    default: as_vector(cista::mmap_vec<std::uint64_t>{cista::mmap{p.c_str(), prot::MODIFY}});
  }
  PBT_EQ(disk_size(p), size);
  ::unlink(p.c_str());
  PBT_EQ(file_mappings(), 0U);
  c.nontrivial_if(marks.size() > 1U);
}

PBT_TARGET(buffer_history, 7500, 80000) {
  struct b {
    cista::buffer b_;
    std::optional<std::string> m_;
  };
  std::vector<b> v(3U);
  auto moved = 0U;
  for (auto step = 0U; step < 40U && c.more(12); ++step) {
    auto& x = v[c.idx(3U)];
    switch (c.u(4)) {
      case 0: {
        auto const s = c.str(80, true);
        x.b_ = cista::buffer{s.data(), s.size()};
        x.m_ = s;
        break;
      }
      case 1: {
        auto const s = c.str(30, false);
        x.b_ = cista::buffer{s.c_str()};
        x.m_ = std::string{s.c_str()};
        break;
      }
      case 2: {
        auto& y = v[c.idx(3U)];
        if (c.flip()) {
          y.b_ = std::move(x.b_);
        } else {
          auto t = cista::buffer{std::move(x.b_)};
          PBT_CHECK(&x == &y || x.b_.size() == 0U, "moved-from buffer");
          y.b_ = std::move(t);
        }
        if (&x != &y) {
          y.m_ = x.m_;
          x.m_.reset();
        }
        ++moved;
        break;
      }
      case 3:
        if (x.m_.has_value() && !x.m_->empty()) {
          auto const i = c.idx(x.m_->size());
          auto const e = static_cast<std::uint8_t>(c.u(255));
          x.b_[i] = e;
          (*x.m_)[i] = static_cast<char>(e);
        }
        break;
      default:
        x.b_.free();
        x.m_.reset();
        break;
    }
    for (auto& y : v) {
      auto const& cb = y.b_;
      auto const want = y.m_.value_or("");
      PBT_EQ(cb.size(), want.size(), "size of a buffer");
      PBT_CHECK(cb.end() - cb.begin() == static_cast<std::ptrdiff_t>(want.size()) && cb.begin() == y.b_.begin(),
                "iterators of a buffer");
      same_bytes({reinterpret_cast<char const*>(cb.data()), cb.size()}, want, "buffer");
    }
  }
  c.nontrivial_if(moved != 0U);
}
