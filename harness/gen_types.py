#!/usr/bin/env python3
"""Generates a family of C++ types for the version check (C06).

usage: gen_types.py SEED N [novar] OUT.h
Every base type comes with a structural copy (all structs renamed) and several
mutants (one local structural change each).  For every type the tokens are
emitted that describe its structure in pre-order, a repeated type being replaced
by its number ("#k"); two types are structurally different iff these differ.
(Trees whose tokens coincide although they differ - nested structs whose
boundaries are ambiguous, integers of different signedness - are not compared.)
"""
import copy, random, sys

INTS = {"std::uint8_t": 1, "std::uint16_t": 2, "std::uint32_t": 4, "std::uint64_t": 8,
        "std::int16_t": 2, "std::int32_t": 4, "std::int64_t": 8, "bool": 1}
ENUMS = {"ea": "std::uint8_t", "eb": "std::uint8_t", "ec": "std::uint16_t", "ed": "std::int32_t"}
STRS = [None, "data::u16string", "data::u32string", "data::string_view", "data::u16string_view"]
SIZES = [None, "std::uint8_t", "std::uint16_t", "std::uint64_t"]
# written in full; no two of them have the same structure
RAW = ["cista::bitset<64>", "cista::bitset<128>", "cista::bitset<129>", "data::bitvec", "data::vecvec<std::uint32_t, std::int32_t>",
       "data::vecvec<std::uint32_t, std::int64_t>", "data::nvec<std::uint32_t, std::int32_t, 2>",
       "data::nvec<std::uint32_t, std::int32_t, 3>", "data::nvec<std::uint32_t, std::int64_t, 2>",
       "data::fws_multimap<std::uint32_t, std::int32_t>", "data::fws_multimap<std::uint32_t, std::int64_t>",
       "data::mutable_fws_multimap<std::uint32_t, std::int32_t>", "data::mutable_fws_multimap<std::uint32_t, std::int64_t>",
       "data::mutable_fws_multimap<std::uint32_t, std::int32_t, 12>", "data::mutable_fws_multimap<std::uint64_t, std::int32_t>",
       "data::nvec<std::uint64_t, std::int32_t, 2>", "data::vecvec<std::uint32_t, std::int32_t, std::uint64_t>",
       "cista::paged_vecvec<data::vector<typename cista::paged<data::vector<std::int32_t>>::page_t>, cista::paged<data::vector<std::int32_t>>, std::uint32_t>",
       "cista::paged_vecvec<data::vector<typename cista::paged<data::vector<std::int64_t>>::page_t>, cista::paged<data::vector<std::int64_t>>, std::uint32_t>",
       "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t>>",
       "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int32_t>>",
       "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t, std::milli>>",
       "std::chrono::time_point<std::chrono::steady_clock, std::chrono::duration<std::int64_t>>"]
PERIODS = ["std::ratio<1>", "std::milli", "std::ratio<60>"]


class Node:
    def __init__(self, kind, kids=(), val=None):
        self.kind, self.kids, self.val = kind, list(kids), val
        self.name = None


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def struct(self, kids):
        s = Node("struct", kids)
        self.rename(s)
        return s

    def rename(self, s):
        s.name = "s%d" % self.n
        self.n += 1

    def key(self):
        k = self.r.random()
        if k < 0.5:
            return Node("int", val=self.r.choice(list(INTS)[:7]))
        if k < 0.9:
            return Node("string")
        return Node("int", val="std::uint64_t")

    def leaf(self):
        k = self.r.random()
        if k < 0.55:
            return Node("int", val=self.r.choice(list(INTS)))
        if k < 0.65:
            return Node("fp", val=self.r.choice(["float", "double"]))
        if k < 0.78:
            return Node("enum", val=self.r.choice(list(ENUMS)))
        if k < 0.9:
            return Node("string", val=self.r.choice([None] * 6 + STRS[1:]))
        if k < 0.95:
            return Node("strong", [Node("int", val=self.r.choice(list(INTS)[:4]))], self.r.choice(["ta", "tb"]))
        return Node("dur", [Node("int", val=self.r.choice(["std::int32_t", "std::int64_t"]))], self.r.choice(PERIODS))

    def distinct(self, kids):
        seen, out = set(), []
        for k in kids:
            t = cpp(k)
            if t not in seen:
                seen.add(t)
                out.append(k)
        return out

    def tree(self, d, parents, shared):
        r = self.r.random()
        if d <= 0 or r < 0.35:
            return self.leaf()
        sub = lambda: self.tree(d - 1, parents, shared)
        k = self.r.choice(["vec", "vec", "opt", "uptr", "arr", "var", "tup", "pair", "set", "map", "ptr",
                           "struct", "struct", "share", "rec"])
        if k in ("vec", "opt", "uptr"):
            return Node(k, [sub()], self.r.choice([None] * 8 + SIZES[1:]) if k == "vec" else None)
        if k == "ptr":
            return Node(k, [sub()])
        if k == "arr":
            return Node(k, [sub()], self.r.randint(1, 4))
        if k in ("tup",):
            return Node(k, [sub() for _ in range(self.r.randint(1, 3))])
        if k == "var":
            return Node(k, self.distinct([sub() for _ in range(self.r.randint(1, 3))]))
        if k == "pair":
            return Node(k, [sub(), sub()])
        if k == "set":
            return Node(k, [self.key()])
        if k == "map":
            return Node(k, [self.key(), sub()])
        if k == "share" and shared:
            return self.r.choice(shared)
        if k == "rec" and parents:
            return Node(self.r.choice(["vec", "uptr", "ptr"]), [self.r.choice(parents)])
        s = self.struct([])
        for _ in range(self.r.randint(1, 4)):
            s.kids.append(self.tree(d - 1, parents + [s], shared))
        shared.append(s)
        return s

    def base(self):
        s = self.struct([])
        shared = []
        for _ in range(self.r.randint(1, 5)):
            s.kids.append(self.tree(self.r.randint(1, 4), [s], shared))
        return s

    def clone(self, t):
        c = copy.deepcopy(t)
        for n in nodes(c):
            if n.kind == "struct":
                self.rename(n)
        return c

    def mutate(self, t):
        """one local structural change of a renamed copy"""
        c = self.clone(t)
        ns = nodes(c)
        for _ in range(50):
            n = self.r.choice(ns)
            how = self.r.choice(["swap", "drop", "add", "leaf", "kind", "wrap", "size", "param", "inline"])
            if how == "param" and n.kind in ("dur", "strong", "vec", "string"):
                if n.kind == "string" and self.is_key(c, n):
                    continue
                vals = {"dur": PERIODS, "strong": ["ta", "tb"], "vec": SIZES, "string": STRS}[n.kind]
                n.val = self.r.choice([v for v in vals if v != n.val])
                if self.bad(c):
                    return None
                return c
            if how == "swap" and n.kind in ("struct", "tup", "var", "pair") and len(n.kids) > 1:
                i = self.r.randrange(len(n.kids) - 1)
                if cpp(n.kids[i]) == cpp(n.kids[i + 1]):
                    continue
                n.kids[i], n.kids[i + 1] = n.kids[i + 1], n.kids[i]
                return c
            if how == "drop" and n.kind in ("struct", "tup", "var") and len(n.kids) > 1:
                del n.kids[self.r.randrange(len(n.kids))]
                return c
            if how == "add" and n.kind in ("struct", "tup"):
                n.kids.insert(self.r.randint(0, len(n.kids)), self.leaf())
                return c
            if how == "leaf" and n.kind in ("int", "fp", "enum", "string") and n is not c:
                o = self.leaf()
                if o.kind == n.kind and o.val == n.val:
                    continue
                if self.is_key(c, n) and (o.kind not in ("int", "string") or o.kind == "string" and o.val):
                    continue
                if o.kind != "int" and any(p.kind in ("dur", "strong") and p.kids[0] is n for p in nodes(c)):
                    continue
                n.kind, n.kids, n.val = o.kind, o.kids, o.val
                if self.bad(c):
                    return None
                return c
            if how == "kind" and n.kind in ("vec", "opt", "uptr", "ptr", "arr"):
                ks = ["vec", "uptr", "ptr"] if any(k.kind == "struct" for k in n.kids) else ["vec", "opt", "uptr", "ptr", "arr"]
                n.kind = self.r.choice([k for k in ks if k != n.kind])
                n.val = 2 if n.kind == "arr" else None
                return c
            if how == "wrap" and n.kind == "struct":
                i = self.r.randrange(len(n.kids))
                w = self.r.choice(["vec", "opt", "uptr", "arr", "tup"])
                n.kids[i] = Node(w, [n.kids[i]], 1 if w == "arr" else None)
                if self.bad(c):
                    return None
                return c
            if how == "inline" and n.kind in ("struct", "tup"):
                # the members of a member become members
                i = self.r.randrange(len(n.kids))
                if n.kids[i].kind in ("pair", "tup", "map", "var", "vec", "opt", "uptr", "ptr", "set", "arr"):
                    n.kids[i:i + 1] = n.kids[i].kids
                    return c
                continue
            if how == "size" and n.kind == "arr":
                n.val += 1
                return c
        return None

    def is_key(self, root, n):
        return any(p.kind in ("set", "map") and p.kids[0] is n for p in nodes(root))

    def bad(self, root):
        return any(n.kind == "var" and len(self.distinct(n.kids)) != len(n.kids) for n in nodes(root))


def nodes(t):
    out, seen = [], set()

    def go(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        out.append(n)
        for k in n.kids:
            go(k)
    go(t)
    return out


def cpp(n):
    k = n.kind
    a = [cpp(x) for x in n.kids] if k != "struct" else []
    if k == "struct":
        return n.name
    if k in ("int", "fp", "enum", "raw"):
        return n.val
    return {
        "string": lambda: n.val or "data::string",
        "strong": lambda: "cista::strong<%s, %s>" % (a[0], n.val),
        "dur": lambda: "std::chrono::duration<%s, %s>" % (a[0], n.val),
        "vec": lambda: "data::vector<%s>" % a[0] if n.val is None else "cista::basic_vector<%s, data::ptr, false, %s>" % (a[0], n.val),
        "opt": lambda: "cista::optional<%s>" % a[0],
        "uptr": lambda: "data::unique_ptr<%s>" % a[0],
        "ptr": lambda: "data::ptr<%s>" % a[0],
        "arr": lambda: "cista::array<%s, %d>" % (a[0], n.val),
        "tup": lambda: "cista::tuple<%s>" % ", ".join(a),
        "var": lambda: "cista::variant<%s>" % ", ".join(a),
        "pair": lambda: "cista::pair<%s, %s>" % (a[0], a[1]),
        "set": lambda: "data::hash_set<%s>" % a[0],
        "map": lambda: "data::hash_map<%s, %s>" % (a[0], a[1]),
    }[k]()


def recursive(t):
    path = []

    def go(n):
        if n.kind == "struct" and n in path:
            return True
        path.append(n)
        r = any(go(k) for k in n.kids)
        path.pop()
        return r
    return go(t)


def legal(t):
    """no struct contains itself by value, also not through optional, array, ..."""
    def go(n, path):
        if n.kind == "struct":
            if n in path:
                return False
            path = path + [n]
        if n.kind in ("vec", "uptr", "ptr", "set", "map"):
            path = []
        return all(go(k, path) for k in n.kids) if not (n.kind in ("vec", "uptr", "ptr", "map")) else True
    return all(go(n, []) for n in nodes(t) if n.kind == "struct") and go(t, [])


def tokens(t, static):
    done, out = {}, []

    def named(key):
        if key in done:
            out.append("#%d" % done[key])
            return False
        done[key] = len(done)
        return True

    def go(n):
        k = n.kind
        if k == "struct":
            if named(n.name):
                out.append("struct")
                for x in n.kids:
                    go(x)
        elif k == "int":
            if named(n.val):
                out.append("i%d" % INTS[n.val])
        elif k in ("fp", "enum"):
            if named(n.val):
                out.append(n.val)
        elif k == "raw":
            out.append(n.val)
        elif k == "string":
            out.append("string")
            if n.val and "u16" in n.val or n.val and "u32" in n.val:
                out.append("c%d" % (2 if "u16" in n.val else 4))
        elif k == "vec":
            out.append("vector")
            if n.val is not None:
                out.append("z%d" % INTS[n.val])
            go(n.kids[0])
        elif k == "strong":
            if static:
                go(n.kids[0])
            else:
                out.append("strong")
                go(n.kids[0])
                out.append(n.val)
        elif k == "dur":
            out.append("duration")
            go(n.kids[0])
            out.append(n.val)
        elif k == "ptr":
            if named(cpp(n)):
                out.append("pointer")
                go(n.kids[0])
        elif k == "arr":
            if static:
                go(n.kids[0])
                out.extend(["array", "n%d" % n.val])
            else:
                out.extend(["array", "n%d" % n.val])
                go(n.kids[0])
        elif k == "pair" or k == "map":
            if k == "map":
                out.append("hash")
            if static:
                if named("pair<%s>" % ",".join(cpp(x) for x in n.kids)):
                    out.append("struct")
                    go(n.kids[0])
                    go(n.kids[1])
            else:
                go(n.kids[0])
                go(n.kids[1])
                out.append("pair")
        elif k == "set":
            out.append("hash")
            go(n.kids[0])
        else:
            out.append({"opt": "optional", "uptr": "unique_ptr", "tup": "tuple", "var": "variant"}[k])
            for x in n.kids:
                go(x)
    go(t)
    return " ".join(out)


def expr(t):
    seen = set()

    def go(n):
        if n.kind == "struct":
            if n.name in seen:
                return n.name
            seen.add(n.name)
            return n.name + "{" + "; ".join(go(k) for k in n.kids) + "}"
        if n.kind in ("int", "fp", "enum", "string", "raw"):
            return (n.val or n.kind).replace("std::", "")
        return n.kind + (str(n.val) if n.kind == "arr" else "") + "<" + ", ".join(go(k) for k in n.kids) + ">"
    return go(t)


def systematic(g):
    i = lambda n=32: Node("int", val="std::%sint%d_t" % ("u" if n == 8 else "", n))
    leaves = [lambda v=v: Node("int", val=v) for v in ("bool", "std::uint16_t", "std::int32_t", "std::uint64_t")]
    leaves += [lambda v=v: Node("fp", val=v) for v in ("float", "double")]
    leaves += [lambda v=v: Node("enum", val=v) for v in ENUMS]
    leaves += [lambda v=v: Node("string", val=v) for v in STRS]
    leaves += [lambda v=v: Node("raw", val=v) for v in RAW]
    leaves += [lambda b=b, t=t: Node("strong", [Node("int", val=b)], t)
               for b in ("std::uint16_t", "std::uint32_t") for t in ("ta", "tb")]
    leaves += [lambda b=b, v=v: Node("dur", [i(b)], v) for b in (32, 64) for v in PERIODS]
    wraps = [lambda k=k: Node(k, [i()]) for k in ("vec", "opt", "uptr", "ptr", "set", "tup", "var")]
    wraps += [lambda v=v: Node("vec", [i()], v) for v in SIZES[1:]]
    wraps += [lambda n=n: Node("arr", [i()], n) for n in (1, 2, 3, 256, 258)]
    wraps += [lambda: Node("tup", [i(), i()]), lambda: Node("pair", [i(), i()]), lambda: Node("map", [i(), i()]),
              lambda: Node("var", [i(), i(64)]), lambda: Node("var", [i(64), i()]), lambda: Node("tup", [i(), i(), i()]),
              lambda: Node("pair", [i(), i(64)]), lambda: Node("pair", [i(64), i()]), lambda: Node("map", [i(), i(64)]),
              lambda: Node("map", [i(64), i()]), lambda: Node("vec", [Node("vec", [i()])]), lambda: Node("opt", [Node("opt", [i()])]),
              lambda: Node("vec", [Node("opt", [i()])]), lambda: Node("opt", [Node("vec", [i()])])]
    flat = [[i()], [i(64)], [i(), i()], [i(), i(64)], [i(64), i()], [i(), i(), i()]]
    ctx = [lambda t: [t], lambda t: [i(8), Node("vec", [t]), Node("string")], lambda t: [Node("uptr", [t]), t, i(64)]]
    # structs that share a member type twice, directly and behind a container
    return [g.struct(c(t())) for t in leaves + wraps for c in ctx] + [g.struct(f) for f in flat]


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[-1]
    novar = "novar" in sys.argv  # a default-constructed variant has no value to write
    g = Gen(seed)
    fam = []  # (tree, group)
    group = 0
    if "leaves" in sys.argv:  # all pairs of types that differ in a single leaf or wrapper
        fam = [(t, i) for i, t in enumerate(systematic(g))]
    while len(fam) < count and "leaves" not in sys.argv:
        b = g.base()
        if g.bad(b) or not legal(b) or len(nodes(b)) > 40 or (
                novar and any(n.kind == "var" for n in nodes(b))):
            continue
        fam.append((b, group))
        fam.append((g.clone(b), group))
        group += 1
        for _ in range(4):
            m = g.mutate(b)
            if m is not None and legal(m) and not g.bad(m):
                fam.append((m, group))
                group += 1
    fam = fam[:count] if "leaves" not in sys.argv else fam
    defs, emitted = [], {}

    def emit(n):
        # definitions in dependency order; recursive uses only need a declaration
        if n.kind == "struct":
            if n.name in emitted:
                return
            emitted[n.name] = True
            for k in n.kids:
                emit(k)
            defs.append("struct %s {\n%s};" % (n.name, "".join(
                "  %s f%d_{};\n" % (cpp(k), i) for i, k in enumerate(n.kids))))
        else:
            for k in n.kids:
                emit(k)
    decls = set()
    for t, _ in fam:
        emit(t)
        for n in nodes(t):
            if n.kind == "struct":
                decls.add(n.name)
    with open(out, "w") as f:
        f.write("".join("struct %s;\n" % d for d in sorted(decls)))
        f.write("\n".join(defs) + "\n")
        f.write("#define FAMILY(X) \\\n")
        for t, gr in fam:
            f.write("  X(%s, %d, %s, \"%s\", \"%s\", \"%s\") \\\n" %
                    (t.name, gr, "0" if recursive(t) else "1", tokens(t, False),
                     "" if recursive(t) else tokens(t, True), expr(t)))
        f.write("\n")


main()
