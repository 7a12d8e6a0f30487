// Element types used by the container harnesses.
#pragma once
#include <cstdint>
#include <memory>
#include <string>

#include "pbt.h"

// An element that notices being copied bytewise, used after destruction,
// destroyed twice, or constructed over a live element.
struct tracked {
  static std::int64_t& live() {
    static std::int64_t n = 0;
    return n;
  }
  static constexpr std::uint32_t kAlive = 0xA11CE5U;
  static constexpr std::uint32_t kDead = 0xDEADU;

  tracked() : tracked(0) {}
  tracked(std::int64_t v) : self_{this}, v_{v}, magic_{kAlive} { ++live(); }
  tracked(tracked const& o) : tracked(o.get()) {}
  tracked(tracked&& o) noexcept : tracked(o.get()) { o.v_ = -77777; }
  tracked& operator=(tracked const& o) {
    check();
    v_ = o.get();
    return *this;
  }
  tracked& operator=(tracked&& o) noexcept {
    check();
    auto const v = o.get();
    if (this != &o) {
      o.v_ = -77777;
    }
    v_ = v;
    return *this;
  }
  ~tracked() {
    check();
    magic_ = kDead;
    self_ = nullptr;
    --live();
  }
  void check() const {
    if (magic_ != kAlive || self_ != this) {
      PBT_FAIL("element used outside its lifetime or moved bytewise");
    }
  }
  std::int64_t get() const {
    check();
    return v_;
  }
  friend bool operator==(tracked const& a, tracked const& b) {
    return a.get() == b.get();
  }
  friend bool operator!=(tracked const& a, tracked const& b) {
    return !(a == b);
  }
  friend bool operator<(tracked const& a, tracked const& b) {
    return a.get() < b.get();
  }
  std::uint64_t hash() const { return static_cast<std::uint64_t>(get() % 7); }

  tracked* self_;
  std::int64_t v_;
  std::uint32_t magic_;
};

struct no_tracked_leak {
  no_tracked_leak() : before_{tracked::live()} {}
  ~no_tracked_leak() {
    if (tracked::live() != before_) {
      PBT_FAIL("%lld element(s) constructed but never destroyed (or destroyed "
               "twice)",
               static_cast<long long>(tracked::live() - before_));
    }
  }
  std::int64_t before_;
};
