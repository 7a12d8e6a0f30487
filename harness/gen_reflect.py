#!/usr/bin/env python3
"""Generates aggregate types for the reflection check (C20).

usage: gen_reflect.py SEED PART PARTS OUT.h
One aggregate per arity in PART's share of 0..64, plus small printable types,
types with explicit member lists and types with a base class.  For every type
an info<T> names the members explicitly (count, types, addresses, offsets,
member indices): that is the oracle.
"""
import random, sys

PLAIN = ["std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t",
         "std::int64_t", "std::uint64_t", "bool", "char", "float", "double", "e8", "e32", "e64", "int*",
         "void const*", "idx", "std::chrono::duration<std::int32_t>", "std::array<std::int16_t, 3>",
         "std::array<std::uint8_t, 1>", "empty", "single", "two", "priv"]
RICH = ["std::string", "cista::offset::string", "cista::raw::string", "cista::offset::vector<int>",
        "cista::raw::vector<std::uint8_t>", "cista::optional<int>", "cista::pair<int, cista::offset::string>",
        "cista::tuple<int, std::uint8_t, double>", "cista::bitset<5>", "cista::raw::hash_map<int, int>",
        "cista::variant<int, double>", "std::optional<int>", "std::vector<int>", "std::pair<int, std::string>",
        "cista::offset::ptr<int>", "cista::offset::bitvec", "cista::raw::vecvec<std::uint32_t, int>"]
MOVEONLY = ["std::unique_ptr<int>", "cista::offset::unique_ptr<int>"]
PRINT = ["std::int8_t", "std::uint8_t", "std::int32_t", "std::uint64_t", "bool", "char", "double", "e8", "e32",
         "e64", "idx", "std::string", "cista::offset::string", "cista::raw::string", "std::vector<int>",
         "std::vector<std::string>", "std::vector<e8>"]


def main():
    seed, part, parts, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    r = random.Random("%s/%s" % (seed, part))
    o = []
    structs = []      # (name, members) usable as members of later types
    names = []
    printable = []

    def ty(lim=True):
        k = r.random()
        if k < 0.55:
            return r.choice(PLAIN)
        if k < 0.85:
            return r.choice(RICH)
        if k < 0.9:
            return r.choice(MOVEONLY)
        return r.choice(structs) if structs else "two"

    def info(n, mem, listed, trivial, seen_by_cista=None, base=None, all_idx=True):
        """mem: [(name, type)] all members; listed: what the reflection must see, in order."""
        o.append("template <> struct info<%s> {" % n)
        o.append("  static constexpr auto const n = std::size_t{%d};" % len(listed))
        o.append("  using types = tl<%s>;" % ", ".join(t for _, t in listed))
        o.append("  static constexpr char const* name = \"%s\";" % n)
        acc = lambda m: "static_cast<%s&>(s)" % base if m == "<base>" else "s." + m
        cacc = lambda m: "static_cast<%s const&>(s)" % base if m == "<base>" else "s." + m
        o.append("  static std::vector<void const*> addrs(%s const& s) { (void)s; return {%s}; }" %
                 (n, ", ".join("static_cast<void const*>(std::addressof(%s))" % cacc(m) for m, _ in listed)))
        o.append("  template <typename Fn> static void each(%s& s, Fn&& f) { (void)s; (void)f; %s }" %
                 (n, " ".join("f(%s);" % acc(m) for m, _ in listed)))
        o.append("  template <typename Fn> static void all(%s& s, Fn&& f) { (void)s; (void)f; %s }" %
                 (n, " ".join("f(%s);" % acc(m) for m, _ in ([("<base>", "")] if base else []) + mem)))
        lis = [m for m, _ in listed]
        pick = mem if len(mem) <= 10 else r.sample(mem, 4)
        o.append("#ifndef CONTROL")
        o.append("  static std::vector<std::pair<std::size_t, std::size_t>> index() { return {%s}; }" % ", ".join(
            "{%sU, cista::member_index(&%s::%s)}" %
            (lis.index(m) if m in lis else "std::numeric_limits<unsigned>::max() + 0", n, m) for m, _ in pick))
        if trivial == "std":
            cond = "std::is_standard_layout_v<%s>" % n
        else:
            cond = "std::is_standard_layout_v<%s> || std::is_trivially_copyable_v<%s>" % (n, n)
        o.append("  static constexpr bool has_offsets = %s;" % cond)
        o.append("  template <typename X> static std::vector<std::pair<std::size_t, cista::offset_t>> offsets(X const& s) {")
        o.append("    (void)s; std::vector<std::pair<std::size_t, cista::offset_t>> v;")
        o.append("    if constexpr (has_offsets) {")
        for m, _ in mem:
            o.append("      v.emplace_back(dist(&s, std::addressof(s.%s)), cista_member_offset(X, %s));" % (m, m))
        o.append("      if constexpr (std::is_trivially_copyable_v<X>) {")
        for m, _ in mem[:6]:
            o.append("      v.emplace_back(dist(&s, std::addressof(s.%s)), cista::member_offset(&s, &X::%s));" % (m, m))
            o.append("      v.emplace_back(dist(&s, std::addressof(s.%s)), cista::member_offset(&s, std::addressof(s.%s)));" % (m, m))
        o.append("      }")
        o.append("    }")
        o.append("    return v;")
        o.append("  }")
        o.append("#endif")
        o.append("};")
        names.append(n)

    def plain(a, simple=False):
        n = "s%d_%d" % (a, len(names))
        mem = [("m%d_" % i, r.choice(PLAIN) if simple else ty()) for i in range(a)]
        o.append("struct %s {" % n)
        for m, t in mem:
            o.append("  %s %s%s;" % (t, m, "" if r.random() < 0.0 else "{}"))
        o.append("};")
        info(n, mem, mem, "std")
        if a <= 5:
            structs.append(n)

    def simple_no_init(a):
        n = "u%d_%d" % (a, len(names))
        mem = [("m%d_" % i, r.choice(PLAIN)) for i in range(a)]
        o.append("struct %s { %s };" % (n, " ".join("%s %s;" % (t, m) for m, t in mem)))
        info(n, mem, mem, "std")
        structs.append(n)

    def with_list():
        a = r.randint(1, 9)
        n = "l%d_%d" % (a, len(names))
        mem = [("m%d_" % i, ty()) for i in range(a)]
        lst = list(mem)
        if r.random() < 0.6:
            r.shuffle(lst)
        if r.random() < 0.6:
            lst = lst[:r.randint(1, a)]
        o.append("struct %s {" % n)
        if r.random() < 0.5:
            o.append("  %s() {}" % n)       # not an aggregate
        o.append("  auto cista_members() { return std::tie(%s); }" % ", ".join(m for m, _ in lst))
        for m, t in mem:
            o.append("  %s %s{};" % (t, m))
        o.append("};")
        info(n, mem, lst, "any")
        structs.append(n)

    def with_base():
        if not structs:
            return
        b = r.choice(structs)
        a = r.randint(1, 5)
        n = "d%d_%d" % (a, len(names))
        mem = [("z%d_" % i, ty()) for i in range(a)]
        o.append("struct %s : %s {" % (n, b))
        o.append("  auto cista_members() { return std::tie(*static_cast<%s*>(this), %s); }" %
                 (b, ", ".join(m for m, _ in mem)))
        for m, t in mem:
            o.append("  %s %s{};" % (t, m))
        o.append("};")
        info(n, mem, [("<base>", b)] + mem, "any", base=b)

    def print_type():
        a = r.randint(0 if r.random() < 0.1 else 1, 8)
        n = "p%d_%d" % (a, len(names))
        mem = [("m%d_" % i, r.choice(PRINT + [p[0] for p in printable[-3:]] * 2)) for i in range(a)]
        k = a if r.random() < 0.6 else r.randint(0, a)
        lst = list(mem)
        own = r.random() < 0.3 and a > 0
        nm = ["n%d" % r.randint(0, 99) for _ in range(k)]
        o.append("struct %s {" % n)
        if own:
            r.shuffle(lst)
            o.append("  auto cista_members() { return std::tie(%s); }" % ", ".join(m for m, _ in lst))
        # (a list of no names does not compile: to_str_array of nothing has no type mismatch, but
        #  std::array<char const*, 0> is fine)
        o.append("  CISTA_PRINTABLE(%s%s)" % (n, "".join(", \"%s\"" % x for x in nm)))
        for m, t in mem:
            o.append("  %s %s{};" % (t, m))
        o.append("};")
        info(n, mem, lst, "any" if own else "std")
        o.append("template <> struct print_names<%s> { static std::vector<std::string> get() { return {%s}; } };" %
                 (n, ", ".join("\"%s\"" % x for x in nm)))
        printable.append((n, mem))

    for a in (1, 2):
        plain(a)
    for a in range(65):
        if a % parts == part:
            plain(a, simple=r.random() < 0.2)
    for _ in range(3):
        simple_no_init(r.randint(1, 6))
    for _ in range(5):
        with_list()
    for _ in range(3):
        with_base()
    for _ in range(6):
        print_type()
    o.append("#define ALL_TYPES(X) %s" % " ".join("X(%s)" % n for n in names))
    o.append("#define PRINT_TYPES(X) %s" % " ".join("X(%s)" % n for n, _ in printable))
    open(out, "w").write("\n".join(o) + "\n")


main()
