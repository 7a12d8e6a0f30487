// C02: pointers keep identity, sharing, cycles and null.
// A random object graph is serialized and deserialized; every object has a
// label (its position in the ownership tree) and every pointer is described by
// the label of the object it points to.  The descriptions before and after must
// be equal, except that pointers to objects outside the graph become null.
#include <unordered_map>

#include "gen.h"

#include "cista/serialization.h"

using cista::mode;
using pbt::Ctx;
namespace data = NS;

namespace {

struct leaf {
  std::uint16_t n_{0};
  data::string s_{};
};
struct gnode {
  std::uint32_t id_{0};
  data::ptr<gnode> a_{nullptr};
  data::ptr<leaf> l_{nullptr};
  cista::indexed<leaf> leaf_{};
  std::uint8_t pad_{0};
  data::ptr<gnode> b_{nullptr};
  data::unique_ptr<gnode> own_{};
  data::unique_ptr<leaf> oleaf_{};
  data::ptr<std::uint32_t> pid_{nullptr};
  data::ptr<void> v_{nullptr};
};
struct groot {
  data::ptr<gnode> first_{nullptr};
  data::vector<data::ptr<leaf>> lrefs_{};
  data::indexed_vector<gnode> nodes_{};
  data::vector<data::ptr<gnode>> refs_{};
  data::indexed_vector<leaf> leaves_{};
  data::hash_map<std::uint32_t, data::ptr<gnode>> table_{};
  data::vector<data::unique_ptr<gnode>> owned_{};
  cista::array<data::ptr<gnode>, 2> arr_{};
  cista::optional<data::ptr<leaf>> opt_{};
  data::vector<cista::variant<std::uint32_t, data::ptr<gnode>>> alts_{};
  data::indexed_vector<std::uint32_t> nums_{};
  data::vector<data::ptr<std::uint32_t>> nrefs_{};
  cista::pair<std::uint8_t, data::ptr<leaf>> pr_{};
  cista::indexed<leaf> single_{};
  data::hash_map<std::uint32_t, data::unique_ptr<gnode>> omap_{};
  cista::tuple<std::uint8_t, data::ptr<gnode>> tup_{};
};

gnode* outside_node() {
  static auto* n = new gnode{};
  return n;
}
leaf* outside_leaf() {
  static auto* n = new leaf{};
  return n;
}
std::uint32_t* outside_num() {
  static auto* n = new std::uint32_t{};
  return n;
}

// --- description -----------------------------------------------------------
struct describe {
  std::unordered_map<void const*, std::string> nodes_, leaves_, nums_;
  std::vector<gnode const*> all_;
  std::string o_;

  template <typename P>
  static void const* addr(P const& p) {
    return static_cast<void const*>(cista::ptr_cast(p));
  }
  void reg_node(gnode const& n, std::string const& path) {
    nodes_[&n] = path;
    nums_[&n.id_] = path + ".id";
    leaves_[&n.leaf_] = path + ".leaf";
    all_.push_back(&n);
    if (n.oleaf_) {
      leaves_[&*n.oleaf_] = path + ".oleaf";
    }
    if (n.own_) {
      reg_node(*n.own_, path + ".own");
    }
  }
  template <typename P>
  void p(std::unordered_map<void const*, std::string> const& m, P const& ptr) {
    auto const a = addr(ptr);
    if (a == nullptr) {
      o_ += "null ";
      return;
    }
    auto const it = m.find(a);
    o_ += it == end(m) ? "outside " : it->second + " ";
  }
  void node(gnode const& n) {
    o_ += "{" + std::to_string(n.id_) + " ";
    p(nodes_, n.a_);
    p(leaves_, n.l_);
    lf(n.leaf_);
    o_ += std::to_string(n.pad_) + " ";
    p(nodes_, n.b_);
    o_ += n.own_ ? "own " : "- ";
    if (n.oleaf_) {
      lf(*n.oleaf_);
    }
    p(nums_, n.pid_);
    o_ += addr(n.v_) == nullptr ? "null" : "void";
    o_ += "}\n";
  }
  void lf(leaf const& l) {
    o_ += "(" + std::to_string(l.n_) + " " + std::string{l.s_.view()} + ") ";
  }
  std::string run(groot const& r) {
    for (auto i = 0U; i != r.nodes_.size(); ++i) {
      reg_node(r.nodes_[i], "nodes" + std::to_string(i));
    }
    for (auto i = 0U; i != r.owned_.size(); ++i) {
      if (r.owned_[i]) {
        reg_node(*r.owned_[i], "owned" + std::to_string(i));
      }
    }
    std::map<std::uint32_t, gnode const*> om;
    for (auto const& [k, v] : r.omap_) {
      om[k] = v ? &*v : nullptr;
    }
    for (auto const& [k, v] : om) {
      if (v != nullptr) {
        reg_node(*v, "omap" + std::to_string(k));
      }
    }
    for (auto i = 0U; i != r.leaves_.size(); ++i) {
      leaves_[&r.leaves_[i]] = "leaves" + std::to_string(i);
    }
    leaves_[&r.single_] = "single";
    for (auto i = 0U; i != r.nums_.size(); ++i) {
      nums_[&r.nums_[i]] = "nums" + std::to_string(i);
    }
    o_ += std::to_string(r.nodes_.size()) + " " + std::to_string(r.owned_.size()) + " first ";
    p(nodes_, r.first_);
    o_ += "\nlrefs ";
    for (auto const& x : r.lrefs_) {
      p(leaves_, x);
    }
    o_ += "\nrefs ";
    for (auto const& x : r.refs_) {
      p(nodes_, x);
    }
    o_ += "\ntable ";
    std::map<std::uint32_t, std::string> t;
    for (auto const& [k, v] : r.table_) {
      describe d{nodes_, leaves_, nums_, {}, {}};
      d.p(nodes_, v);
      t[k] = d.o_;
    }
    for (auto const& [k, v] : t) {
      o_ += std::to_string(k) + ":" + v + " ";
    }
    o_ += "\nomap ";
    for (auto const& [k, v] : om) {
      o_ += std::to_string(k) + (v == nullptr ? ":null " : " ");
    }
    o_ += "\nmisc ";
    p(nodes_, r.arr_[0]);
    p(nodes_, r.arr_[1]);
    if (r.opt_.has_value()) {
      p(leaves_, *r.opt_);
    } else {
      o_ += "none ";
    }
    p(leaves_, r.pr_.second);
    p(nodes_, cista::get<1>(r.tup_));
    lf(r.single_);
    o_ += "\nalts ";
    for (auto const& x : r.alts_) {
      if (x.index() == 0) {
        o_ += std::to_string(cista::get<std::uint32_t>(x)) + " ";
      } else {
        p(nodes_, cista::get<data::ptr<gnode>>(x));
      }
    }
    o_ += "\nnums ";
    for (auto const& x : r.nums_) {
      o_ += std::to_string(x) + " ";
    }
    for (auto const& x : r.nrefs_) {
      p(nums_, x);
    }
    o_ += "\nleaves ";
    for (auto const& x : r.leaves_) {
      lf(x);
    }
    o_ += "\n";
    for (auto const* n : all_) {
      o_ += nodes_[n] + " ";
      node(*n);
    }
    return o_;
  }
};

void fill_leaf(Ctx& c, leaf& l) {
  l.n_ = static_cast<std::uint16_t>(c.u(99));
  if (c.flip()) {
    l.s_ = c.str(40);
  }
}
void fill_node(Ctx& c, gnode& n, int depth) {
  n.id_ = static_cast<std::uint32_t>(c.u(999));
  n.pad_ = static_cast<std::uint8_t>(c.u(255));
  fill_leaf(c, n.leaf_);
  if (c.chance(1, 4)) {
    n.oleaf_ = data::unique_ptr<leaf>{new leaf{}, true};
    fill_leaf(c, *n.oleaf_);
  }
  if (depth < 4 && c.chance(1, 3)) {
    n.own_ = data::unique_ptr<gnode>{new gnode{}, true};
    fill_node(c, *n.own_, depth + 1);
  }
}

struct targets {
  std::vector<gnode*> nodes_;
  std::vector<leaf*> leaves_;
  std::vector<std::uint32_t*> nums_;
  bool end_ptrs_{false};

  void add(gnode& n) {
    nodes_.push_back(&n);
    leaves_.push_back(&n.leaf_);
    if (n.oleaf_) {
      leaves_.push_back(&*n.oleaf_);
    }
    if (n.own_) {
      add(*n.own_);
    }
  }
  unsigned outside_{0}, set_{0};
  template <typename T>
  T* pick(Ctx& c, std::vector<T*> const& v, T* out) {
    auto const k = c.u(11);
    if (k == 0 || v.empty()) {
      return nullptr;
    }
    if (k == 1) {
      ++outside_;
      return out;
    }
    ++set_;
    return v[c.idx(v.size())];
  }
  gnode* node(Ctx& c) { return pick(c, nodes_, outside_node()); }
  leaf* lf(Ctx& c) { return pick(c, leaves_, outside_leaf()); }
  std::uint32_t* num(Ctx& c) { return pick(c, nums_, outside_num()); }
  void link(Ctx& c, gnode& n) {
    n.a_ = node(c);
    n.b_ = node(c);
    n.l_ = lf(c);
    n.pid_ = num(c);
    switch (c.u(3)) {
      case 0: n.v_ = nullptr; break;
      case 1: n.v_ = static_cast<void*>(outside_num()); break;
      default: n.v_ = static_cast<void*>(&n); break;
    }
    if (n.own_) {
      link(c, *n.own_);
    }
  }
};

std::string expected(std::string s) {
  for (auto const* w : {"outside ", "void}"}) {
    for (std::size_t at; (at = s.find(w)) != std::string::npos;) {
      s.replace(at, std::strlen(w), w[0] == 'v' ? "null}" : "null ");
    }
  }
  return s;
}

template <mode S, mode D>
void run(groot const& r, std::string const& want, char const* name) {
  auto buf = cista::serialize<S>(r);
  void* mem = nullptr;
  PBT_CHECK(posix_memalign(&mem, 64, buf.size()) == 0);
  std::memcpy(mem, buf.data(), buf.size());
  auto* from = static_cast<std::uint8_t*>(mem);
  try {
    auto const* d = cista::deserialize<groot, D>(from, from + buf.size());
    auto const got = describe{}.run(*d);
    PBT_CHECK(got == want, "graph differs after round trip (%s):\ngot %.1800s\nwant %.1800s", name,
              got.c_str(), want.c_str());
  } catch (std::exception const& e) {
    PBT_FAIL("deserialize threw %s (%s)", e.what(), name);
  }
  std::free(mem);
}

}  // namespace

PBT_TARGET(graph, 9000, 600000) {
  if (static auto silenced = false; !silenced) {  // "dangling pointer" warnings
    silenced = true;
    std::freopen("/dev/null", "w", stdout);
  }
  groot r{};
  outside_node();
  outside_leaf();
  outside_num();
  auto const n_nodes = c.len(9);
  r.nodes_.reserve(static_cast<unsigned>(n_nodes + c.u(2)));
  for (std::size_t i = 0; i != n_nodes; ++i) {
    fill_node(c, r.nodes_.emplace_back(), 1);
  }
  auto const n_leaves = c.len(6);
  for (std::size_t i = 0; i != n_leaves; ++i) {
    fill_leaf(c, r.leaves_.emplace_back());
  }
  auto const n_owned = c.len(5);
  for (std::size_t i = 0; i != n_owned; ++i) {
    auto& x = r.owned_.emplace_back();
    if (!c.chance(1, 5)) {
      x = data::unique_ptr<gnode>{new gnode{}, true};
      fill_node(c, *x, 2);
    }
  }
  for (auto k = c.len(5); k != 0; --k) {
    auto& x = r.omap_[static_cast<std::uint32_t>(c.u(50))];
    if (!c.chance(1, 4)) {
      x = data::unique_ptr<gnode>{new gnode{}, true};
      fill_node(c, *x, 3);
    }
  }
  fill_leaf(c, r.single_);
  for (auto k = c.len(6); k != 0; --k) {
    r.nums_.push_back(static_cast<std::uint32_t>(c.u(999)));
  }

  // all objects are in place: link them
  targets t;
  for (auto& n : r.nodes_) {
    t.add(n);
    t.nums_.push_back(&n.id_);  // member of an element of an indexed vector
  }
  for (auto& n : r.owned_) {
    if (n) {
      t.add(*n);
    }
  }
  for (auto& [k, v] : r.omap_) {
    if (v) {
      t.add(*v);
    }
  }
  for (auto& l : r.leaves_) {
    t.leaves_.push_back(&l);
  }
  t.leaves_.push_back(&r.single_);
  for (auto& n : r.nums_) {
    t.nums_.push_back(&n);
  }
  for (auto& n : r.nodes_) {
    t.link(c, n);
  }
  for (auto& n : r.owned_) {
    if (n) {
      t.link(c, *n);
    }
  }
  for (auto& [k, v] : r.omap_) {
    if (v) {
      t.link(c, *v);
    }
  }
  r.first_ = t.node(c);
  r.arr_[0] = t.node(c);
  r.arr_[1] = t.node(c);
  if (c.flip()) {
    r.opt_ = data::ptr<leaf>{t.lf(c)};
  }
  r.pr_.second = t.lf(c);
  cista::get<1>(r.tup_) = t.node(c);
  for (auto k = c.len(5); k != 0; --k) {
    r.refs_.emplace_back(t.node(c));
  }
  for (auto k = c.len(5); k != 0; --k) {
    r.lrefs_.emplace_back(t.lf(c));
  }
  for (auto k = c.len(5); k != 0; --k) {
    r.nrefs_.emplace_back(t.num(c));
  }
  for (auto k = c.len(5); k != 0; --k) {
    r.table_[static_cast<std::uint32_t>(c.u(50))] = t.node(c);
  }
  for (auto k = c.len(4); k != 0; --k) {
    if (c.flip()) {
      r.alts_.emplace_back(static_cast<std::uint32_t>(c.u(9)));
    } else {
      r.alts_.emplace_back(data::ptr<gnode>{t.node(c)});
    }
  }
  if (c.chance(1, 6)) {  // one past the end of an indexed vector is no object
    c.label("end pointer");
    if (!r.nums_.empty()) {
      r.nrefs_.emplace_back(r.nums_.data() + r.nums_.size());
    }
    if (!r.nodes_.empty()) {
      r.refs_.emplace_back(r.nodes_.data() + r.nodes_.size());
    }
  }
  c.nontrivial_if(t.set_ > 4 && t.nodes_.size() > 2);

  auto const before = describe{}.run(r);
  auto const want = expected(before);
  c.log("%.1200s", before.c_str());
  switch (c.u(5)) {
    case 0: run<mode::NONE, mode::NONE>(r, want, "none"); break;
    case 1: run<mode::NONE, mode::DEEP_CHECK>(r, want, "deep"); break;
    case 2: run<mode::NONE, mode::UNCHECKED>(r, want, "unchecked"); break;
    case 3:
      run<mode::WITH_VERSION | mode::WITH_INTEGRITY,
          mode::WITH_VERSION | mode::WITH_INTEGRITY | mode::DEEP_CHECK>(r, want, "version+integrity/deep");
      break;
    case 4:
      run<mode::SERIALIZE_BIG_ENDIAN, mode::SERIALIZE_BIG_ENDIAN>(r, want, "big endian");
      break;
    default:
      run<mode::SERIALIZE_BIG_ENDIAN | mode::WITH_INTEGRITY,
          mode::SERIALIZE_BIG_ENDIAN | mode::WITH_INTEGRITY | mode::DEEP_CHECK>(r, want, "big endian deep");
  }
  PBT_CHECK(describe{}.run(r) == before, "source changed");
}
