// C28: the single header is equivalent to the headers it is made from.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cstdio>
#include <exception>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.h"

#include FAMILY_HEADER  // UNITER_EXE

namespace {

namespace fs = std::filesystem;
using pbt::Ctx;

void write(fs::path const& p, std::string const& text) {
  fs::create_directories(p.parent_path());
  std::ofstream{p, std::ios::binary} << text;
}

std::string read(fs::path const& p) {
  std::ifstream f{p, std::ios::binary};
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

std::string unite(std::string const& license, std::string const& inc, std::vector<std::string> const& roots, fs::path const& out) {
  std::vector<char const*> argv{UNITER_EXE, license.c_str(), inc.c_str()};
  for (auto const& r : roots) {
    argv.push_back(r.c_str());
  }
  argv.push_back(nullptr);
  auto const pid = fork();
  if (pid == 0) {
    auto const fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    execv(argv[0], const_cast<char**>(argv.data()));
    _exit(90);
  }
  auto status = 0;
  waitpid(pid, &status, 0);
  PBT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "uniter fails with status %d", status);
  return read(out);
}

std::vector<std::string> lines(std::string const& text) {
  std::vector<std::string> v;
  std::istringstream ss{text};
  for (std::string l; std::getline(ss, l);) {
    v.push_back(l);
  }
  return v;
}

// What comes out of the preprocessor, as one line; nothing if it fails.
std::string preprocessed(std::string const& cmd, fs::path const& dir, bool& ok) {
  auto const out = dir / "out.i";
  ok = std::system((cmd + " -E -P -w -Wno-builtin-macro-redefined -D__LINE__=0 '-D__FILE__=\"\"' -o " + out.string() + " 2> " + (dir / "err").string()).c_str()) == 0;
  std::istringstream ss{read(out)};
  std::string r;
  for (std::string t; ss >> t;) {
    r += t;
    r += ' ';
  }
  return r;
}

void same_tokens(std::string const& a, std::string const& b, char const* what) {
  if (a == b) {
    return;
  }
  auto const at = static_cast<std::size_t>(std::mismatch(a.begin(), a.begin() + static_cast<std::ptrdiff_t>(std::min(a.size(), b.size())), b.begin()).first - a.begin());
  auto const from = at < 60U ? 0U : at - 60U;
  PBT_FAIL("%s: the single header gives '...%s', the headers give '...%s'", what, b.substr(from, 160U).c_str(), a.substr(from, 160U).c_str());
}

struct tree {
  fs::path dir_;
  std::string inc_;
  std::vector<std::string> names_;
  std::vector<std::vector<unsigned>> needs_;
  std::vector<std::vector<std::string>> text_;  // lines, "@n" = includes file n
  std::vector<unsigned> roots_;
  std::vector<std::string> license_;
};

// Headers that include each other, with code that depends on the position in
// the expanded text.
tree make_tree(Ctx& c) {
  tree t;
  t.dir_ = pbt::scratch_dir() + "/tree";
  fs::remove_all(t.dir_);
  t.inc_ = (t.dir_ / "include").string();
  auto const n = 1U + static_cast<unsigned>(c.u(9));
  auto const cycles = c.chance(1, 4);
  static constexpr char const* dirs[] = {"", "lib/", "lib/detail/", "lib/a-b/", "x/"};
  for (auto i = 0U; i != n; ++i) {
    // names that are part of each other
    t.names_.push_back(std::string{dirs[c.idx(5U)]} + (c.chance(1, 5) ? "xx" : "x") + std::to_string(i) + (c.chance(1, 6) ? ".hpp" : ".h"));
  }
  t.text_.resize(n);
  for (auto i = 0U; i != n; ++i) {
    auto& x = t.text_[i];
    auto const id = std::to_string(i);
    if (c.chance(1, 6)) {
      x.push_back("// the file " + id);
    }
    if (c.chance(7, 8)) {
      x.push_back(c.chance(1, 8) ? "#pragma once  // once" : "#pragma once");
    } else {
      x.push_back("#pragma once");
      x.push_back("#pragma once");
    }
    auto k = 0U;
    while (c.more(6)) {
      auto const nr = std::to_string(k++);
      switch (c.u(12)) {
        case 11: x.push_back(c.pick({"#pragma pack(push, 1)", "#pragma GCC diagnostic push", "#pragma omp once", "#define once once"})); break;
        case 0: case 1: case 2:
          if (cycles || i != 0U) {
            x.push_back("@" + std::to_string(cycles ? c.idx(n) : c.idx(i)) + (c.chance(1, 6) ? "  // needed" : ""));
          }
          break;
        case 3: x.push_back(""); break;
        case 4: x.push_back("int v" + id + "_" + nr + " = " + std::to_string(c.u(1000)) + ";"); break;
        case 5: x.push_back("  char const* s" + id + "_" + nr + " = \"#include \\\"" + t.names_[c.idx(n)] + "\\\"\";"); break;
        case 6: x.push_back("#include <sys" + std::to_string(c.u(2)) + ".h>"); break;
        case 7: x.push_back("#include \"" + std::string{c.flip() ? "ext" : "ext/deep"} + std::to_string(c.u(2)) + ".h\""); break;
        case 8:
          x.push_back("#if defined(ON" + std::to_string(c.u(3)) + ")");
          x.push_back(c.chance(1, 3) ? "#include \"ext" + std::to_string(c.u(2)) + ".h\"" : "int on" + id + "_" + nr + ";");
          x.push_back("#else");
          x.push_back("int off" + id + "_" + nr + ";");
          x.push_back("#endif");
          break;
        case 9:
          x.push_back("#ifndef M");
          x.push_back("#define M " + id);
          x.push_back("#endif");
          break;
        case 10:
          x.push_back("#undef LAST");
          x.push_back("#define LAST f" + id + "_" + nr + " \\");
          x.push_back("  + M");
          break;
        default: x.push_back("long l" + id + "_" + nr + " = LAST;"); break;
      }
    }
  }
  for (auto k = 1U + c.u(3); k != 0U; --k) {
    t.roots_.push_back(static_cast<unsigned>(c.flip() ? n - 1U : c.idx(n)));
  }
  for (auto k = c.u(4); k != 0U; --k) {
    t.license_.push_back(c.pick({"Permission is hereby granted", "", "  to #include \"x0.h\"", "#pragma once", "* THE SOFTWARE *"}));
  }
  for (auto i = 0U; i != n; ++i) {
    std::string s;
    for (auto const& l : t.text_[i]) {
      auto l1 = l;
      if (l[0] == '@') {
        auto const rest = l.find(' ') == std::string::npos ? std::string{} : l.substr(l.find(' '));
        l1 = "#include \"" + t.names_[static_cast<unsigned>(std::stoi(l.substr(1)))] + "\"" + rest;
      }
      s += l1 + "\n";
    }
    if (!s.empty() && c.chance(1, 5)) {
      s.pop_back();  // no newline at the end
    }
    write(t.dir_ / "include" / t.names_[i], s);
  }
  std::string s;
  for (auto const& l : t.license_) {
    s += l + "\n";
  }
  write(t.dir_ / "LICENSE", s);
  return t;
}

void expand(tree const& t, unsigned const i, std::set<unsigned>& seen, std::vector<std::string>& out) {
  if (!seen.insert(i).second) {
    return;
  }
  for (auto const& l : t.text_[i]) {
    if (!l.empty() && l[0] == '@') {
      expand(t, static_cast<unsigned>(std::stoi(l.substr(1))), seen, out);
    } else if (l.rfind("#pragma once", 0) != 0 && l.rfind("//", 0) != 0 && !l.empty()) {
      out.push_back(l);
    }
  }
}

std::vector<std::string> root_paths(tree const& t) {
  std::vector<std::string> v;
  for (auto const r : t.roots_) {
    v.push_back(t.inc_ + "/" + t.names_[r]);
  }
  return v;
}

void log(Ctx& c, tree const& t) {
  for (auto i = 0U; i != t.names_.size(); ++i) {
    c.log("%s: %zu lines", t.names_[i].c_str(), t.text_[i].size());
  }
  for (auto const r : t.roots_) {
    c.log("root %u", r);
  }
}

// every line of every file once, what a file needs before it
void trees(Ctx& c) {
  auto const t = make_tree(c);
  log(c, t);
  auto const got = lines(unite((t.dir_ / "LICENSE").string(), t.inc_, root_paths(t), t.dir_ / "single.h"));
  std::vector<std::string> want;
  std::set<unsigned> seen;
  for (auto const r : t.roots_) {
    expand(t, r, seen, want);
  }
  // the license, as a comment
  auto const end = std::find_if(got.begin(), got.end(), [](auto&& l) { return l.find("*/") != std::string::npos; });
  PBT_CHECK(!got.empty() && got[0].rfind("/*", 0) == 0 && end != got.end(), "no comment at the start");
  auto at = got.begin();
  for (auto const& l : t.license_) {
    at = std::find(at, end, l);
    PBT_CHECK(at != end, "line '%s' of the license is missing", l.c_str());
    ++at;
  }
  std::vector<std::string> code;
  auto once = 0U;
  for (auto i = end + 1; i != got.end(); ++i) {
    if (i->rfind("#pragma once", 0) == 0) {
      ++once;
    } else if (!i->empty() && i->rfind("//", 0) != 0) {
      code.push_back(*i);
    }
  }
  PBT_CHECK(once == 1U, "%u times #pragma once", once);
  for (auto i = 0U; i != std::max(code.size(), want.size()); ++i) {
    PBT_CHECK(i < code.size() && i < want.size() && code[i] == want[i], "line %u is '%s' instead of '%s'", i,
              i < code.size() ? code[i].c_str() : "missing", i < want.size() ? want[i].c_str() : "nothing");
  }
  c.nontrivial_if(seen.size() >= 2U && want.size() > 4U);
}

// the preprocessor sees the same tokens
void tokens(Ctx& c) {
  auto const t = make_tree(c);
  log(c, t);
  auto const sys = t.dir_ / "sys";
  for (auto i = 0U; i != 3U; ++i) {
    auto const nr = std::to_string(i);
    write(sys / ("sys" + nr + ".h"), "int sys" + nr + ";\n");
    write(sys / ("ext" + nr + ".h"), "#pragma once\nint ext" + nr + ";\n#define LAST ext" + nr + "\n");
    write(sys / ("ext/deep" + nr + ".h"), "int deep" + nr + " = M;\n");
  }
  unite((t.dir_ / "LICENSE").string(), t.inc_, root_paths(t), t.dir_ / "single.h");
  std::string multi;
  for (auto const r : t.roots_) {
    multi += "#include \"" + t.names_[r] + "\"\n";
  }
  write(t.dir_ / "multi.cc", multi);
  write(t.dir_ / "single.cc", "#include \"" + (t.dir_ / "single.h").string() + "\"\n" + (c.flip() ? "#include \"" + (t.dir_ / "single.h").string() + "\"\n" : ""));
  auto cmd = std::string{c.flip() ? "g++" : "clang++"} + " -I" + sys.string();
  for (auto i = 0; i != 4; ++i) {
    if (c.flip()) {
      cmd += " -DON" + std::to_string(i);
    }
  }
  auto ok1 = false, ok2 = false;
  auto const a = preprocessed(cmd + " -I" + t.inc_ + " " + (t.dir_ / "multi.cc").string(), t.dir_, ok1);
  if (!ok1) {
    c.label("discarded");
    return;
  }
  auto const b = preprocessed(cmd + " " + (t.dir_ / "single.cc").string(), t.dir_, ok2);
  PBT_CHECK(ok2, "the single header cannot be preprocessed: %s", read(t.dir_ / "err").substr(0, 300).c_str());
  same_tokens(a, b, "generated headers");
  c.nontrivial_if(a.size() > 60U);
}

// the headers of the library
void library(Ctx& c) {
  static auto const all = [] {
    std::vector<std::string> v;
    for (auto const& e : fs::recursive_directory_iterator(fs::path{REPO_DIR} / "include" / "cista")) {
      if (e.is_regular_file() && e.path().extension() == ".h") {
        v.push_back(fs::relative(e.path(), fs::path{REPO_DIR} / "include").string());
      }
    }
    std::sort(v.begin(), v.end());
    return v;
  }();
  auto const dir = fs::path{pbt::scratch_dir()} / "lib";
  fs::remove_all(dir);
  fs::create_directories(dir);
  write(dir / "stub/mimalloc.h", "#pragma once\nint mimalloc_stub;\n");
  std::vector<std::string> roots;
  if (c.chance(1, 3)) {  // what is published
    roots = {"cista/serialization.h", "cista/reflection/comparable.h", "cista/reflection/printable.h", "cista/reflection/member_index.h"};
  } else {
    for (auto k = 1U + c.u(4); k != 0U; --k) {
      roots.push_back(c.chance(1, 4) ? std::string{c.pick({"cista/serialization.h", "cista/containers.h", "cista/mmap.h", "cista/containers/hash_map.h"})} : all[c.idx(all.size())]);
    }
  }
  std::string multi;
  std::vector<std::string> paths;
  for (auto const& r : roots) {
    c.log("%s", r.c_str());
    multi += "#include \"" + r + "\"\n";
    paths.push_back(std::string{REPO_DIR} + "/include/" + r);
  }
  write(dir / "multi.cc", multi);
  write(dir / "single.cc", "#include \"single.h\"\n");
  unite(std::string{REPO_DIR} + "/LICENSE", std::string{REPO_DIR} + "/include", paths, dir / "single.h");
  auto cmd = std::string{c.flip() ? "g++" : "clang++"} + " -std=" + c.pick({"c++17", "c++20", "c++23"});
  cmd += c.pick({"", " -DCISTA_FNV1A", " -DCISTA_XXH3", " -DCISTA_WYHASH", " -DCISTA_WYHASH_FASTEST"});
  for (auto const* d : {" -DCISTA_FMT", " -DCISTA_USE_MIMALLOC", " -DNDEBUG", " -DCISTA_ZERO_OUT=1", " -U__SIZEOF_INT128__", " -fno-exceptions", " -D__EMSCRIPTEN__"}) {
    if (c.chance(1, 3)) {
      cmd += d;
    }
  }
  c.log("%s", cmd.c_str());
  cmd += " -I" + (dir / "stub").string() + " -I" + std::string{REPO_DIR} + "/tools/wyhash -I" + std::string{REPO_DIR} + "/tools/xxh3";
  auto ok1 = false, ok2 = false;
  auto const a = preprocessed(cmd + " -I" + std::string{REPO_DIR} + "/include " + (dir / "multi.cc").string(), dir, ok1);
  if (!ok1) {
    c.label("discarded");
    return;
  }
  auto const b = preprocessed(cmd + " " + (dir / "single.cc").string(), dir, ok2);
  PBT_CHECK(ok2, "the single header cannot be preprocessed: %s", read(dir / "err").substr(0, 300).c_str());
  same_tokens(a, b, "headers of the library");
  c.nontrivial_if(a.size() > 1000U);
}

PBT_REG(trees, "trees", trees, 6000, 200000)
PBT_REG(tokens, "tokens", tokens, 300, 8000)
PBT_REG(library, "library", library, 90, 1500)

}  // namespace
