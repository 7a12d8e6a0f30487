// Injection of failing allocations: the executable is linked with
// --wrap=malloc,aligned_alloc,free, so that every allocation the library's
// headers make comes through here. Allocations of the standard library's own
// containers go through operator new in another object and are not affected
// (see fault_new.h for those).
#pragma once

#include <cerrno>
#include <cstdlib>
#include <new>
#include <stdexcept>

#include "pbt.h"

namespace fault {

struct state {
  bool armed_{false}, hit_{false};
  std::size_t calls_{0U}, fail_at_{0U};
  long live_{0};  // blocks allocated and not yet freed by the library
};

inline state& st() {
  static state s;
  return s;
}

inline bool fails() {
  auto& s = st();
  if (!s.armed_) {
    return false;
  }
  ++s.calls_;
  if (s.calls_ == s.fail_at_) {
    s.hit_ = true;
    errno = ENOMEM;
    return true;
  }
  return false;
}

struct armed {
  explicit armed(std::size_t const fail_at) {
    auto& s = st();
    s.armed_ = true;
    s.hit_ = false;
    s.calls_ = 0U;
    s.fail_at_ = fail_at;
  }
  ~armed() { st().armed_ = false; }
};

// Runs f with (half of the time) one of its first allocations failing.
// True: it failed, was reported, and f has to be judged accordingly.
template <typename F>
bool attempt(pbt::Ctx& c, char const* name, F&& f) {
  auto const at = c.flip() ? std::size_t{1U} + (c.chance(2, 3) ? 0U : c.u(4U)) : std::size_t{0U};
  auto threw = false;
  {
    auto const a = armed{at};
    try {
      f();
    } catch (std::bad_alloc const&) {
      threw = true;
    }
  }
  auto const hit = st().hit_;
  if (hit) {
    c.log("%s: allocation %zu fails", name, at);
  } else {
    c.log("%s", name);
  }
  PBT_CHECK(threw == hit, "%s: %s", name,
            threw ? "failed without a failed allocation" : "a failed allocation was not reported");
  return threw;
}

}  // namespace fault

extern "C" {
void* __real_malloc(std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
void __real_free(void*);

inline __attribute__((used)) void* __wrap_malloc(std::size_t const n) {
  if (fault::fails()) {
    return nullptr;
  }
  auto const p = __real_malloc(n);
  fault::st().live_ += p != nullptr;
  return p;
}

inline __attribute__((used)) void* __wrap_aligned_alloc(std::size_t const a, std::size_t const n) {
  if (fault::fails()) {
    return nullptr;
  }
  auto const p = __real_aligned_alloc(a, n);
  fault::st().live_ += p != nullptr;
  return p;
}

inline __attribute__((used)) void __wrap_free(void* const p) {
  fault::st().live_ -= p != nullptr;
  __real_free(p);
}
}
