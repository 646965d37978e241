"""Random protocol descriptions, their textual form, and the independent model of ids.

Model of the language (from the documentation, tests and parser of the generator):
  struct Name { <type>[[]] name[?]; ... }      enum Name { <type>[[]] item; | item; ... }
  group Name { struct/enum/group ... }
References name an already closed entity, relative to the own group or from the root.
Ids are handed out in textual order from one counter to structs, enums, groups and fields.
"""
import random

PRIMS = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str"]


class Ty:
    def __init__(self, prim=None, ref=None, text=None):
        self.prim, self.ref, self.text = prim, ref, text or prim


class Field:
    def __init__(self, name, ty, rep=False, opt=False, bare=False):
        self.name, self.ty, self.rep, self.opt, self.bare = name, ty, rep, opt, bare
        self.id = None


class Ent:
    """kind: struct | enum | group"""
    def __init__(self, kind, name, parent=None):
        self.kind, self.name, self.parent = kind, name, parent
        self.fields = []     # struct fields / enum items
        self.items = []      # group children
        self.id = None

    @property
    def path(self):
        p, e = [], self
        while e is not None and e.name is not None:
            p.append(e.name)
            e = e.parent
        return list(reversed(p))

    def full(self, sep="."):
        return sep.join(self.path)


class Schema:
    def __init__(self):
        self.root = Ent("group", None)

    def walk(self, g=None):
        """Every entity (including groups) in textual order."""
        for e in (g or self.root).items:
            yield e
            if e.kind == "group":
                yield from self.walk(e)

    def messages(self):
        return [e for e in self.walk() if e.kind != "group"]

    def number(self, start=0):
        """Independent model of the id assignment. Returns the last id used."""
        n = start

        def go(g):
            nonlocal n
            for e in g.items:
                n += 1
                e.id = n
                if e.kind == "struct":
                    for f in e.fields:
                        n += 1
                        f.id = n
                elif e.kind == "group":
                    go(e)
        go(self.root)
        return n

    def by_id(self):
        return {e.id: e for e in self.messages()}

    def find(self, full):
        for e in self.walk():
            if e.full() == full:
                return e
        return None

    # ---- printing
    def text(self, rng=None, style="plain"):
        toks = self.tokens()
        return layout(toks, rng, style)

    def tokens(self):
        out = []

        def go(g):
            for e in g.items:
                out.extend([e.kind, e.name, "{"])
                if e.kind == "group":
                    go(e)
                else:
                    for f in e.fields:
                        if f.bare:
                            out.extend([f.name, ";"])
                            continue
                        t = f.ty.text
                        if f.rep:
                            t += "[]"
                        out.append(t)
                        out.append(f.name)
                        if f.opt:
                            out.append("?")
                        out.append(";")
                out.append("}")
        go(self.root)
        return out


GLUE_BEFORE = {"?", ";"}


def layout(toks, rng=None, style="plain"):
    """Joins tokens. style plain: one statement per line; random: random whitespace
    (where the plain form has some, and around punctuation, where it is optional);
    oneline: minimal whitespace."""
    if style == "plain":
        s, depth, start = [], 0, True
        for t in toks:
            if t == "}":
                depth -= 1
            if start:
                s.append("    " * depth)
                start = False
            elif t not in GLUE_BEFORE:
                s.append(" ")
            s.append(t)
            if t == "{":
                depth += 1
            if t in ("{", "}", ";"):
                s.append("\n")
                start = True
        return "".join(s)

    def ws(min0):
        if style == "oneline":
            return "" if min0 else " "
        n = rng.randint(0 if min0 else 1, 3)
        return "".join(rng.choice([" ", "\n", "\t", "\r\n", "  ", "\f", "\r"]) for _ in range(n))

    def rare():
        return ws(True) if style == "random" and rng.random() < 0.25 else ""

    def inner(t):
        # a path or a type with its mark: symbols stand on their own
        if style != "random" or t.isalnum():
            return t
        return "".join(rare() + x + rare() if x in ".[" else rare() + x if x == "]" else x for x in t)
    s = ""
    prev = None
    for t in toks:
        if prev is not None:
            if prev in ("{", "}", ";") or t in ("{", "}"):
                s += ws(True)
            elif t in (";", "?"):
                s += rare()
            else:
                s += ws(False)
        s += inner(t)
        prev = t
    return s + ("\n" if style != "oneline" else "")


RESERVED = {x.lower() for x in """as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod
move mut pub ref return self static struct super trait true type union unsafe use where while abstract become box do final macro override
priv typeof unsized virtual yield try var function class new delete this null undefined void with package private protected public
interface implements arguments eval export import default switch case throw catch finally instanceof number string boolean any symbol
bool char str u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 usize isize group defaults option vec result ok err some none box self constructor
name length prototype caller encode decode pack get set from scheme signature getid getsignature getvalidator collect getbuffer
getbufferfrombuf getstorage getvalue encodeselfarray decodeselfarray hash protocol primitives convertor enum storage error buffer array
object map date json math promise infinity nan""".split()}

TYPE_NAMES = ["Msg", "Data", "Item", "User", "Node", "Event", "Point", "Rec", "Info", "State", "Call", "Ack", "Login", "Frame", "Entry"]
FIELD_NAMES = ["a", "b", "count", "uuid", "size_of", "Value", "x1", "kind", "payload", "items", "_inner", "isOn", "ts", "longFieldName_1", "data2"]
ITEM_NAMES = ["First", "second", "Option_a", "C", "Err0", "Accept", "deny", "V_1", "Nothing"]


class Gen:
    def __init__(self, rng, max_ents=10, depth=3, max_fields=7, big=False, cross=True, empty_struct=True, forward=True,
                 same_names=False, enum_refs=True, ts=False):
        # ts: only constructs the TypeScript output supports (see known findings)
        self.ts = ts
        self.r = rng
        self.max_ents, self.depth, self.max_fields = max_ents, depth, max_fields
        self.cross, self.empty_struct, self.forward = cross, empty_struct, forward
        self.same_names, self.enum_refs = same_names, enum_refs
        self.twins = same_names

    def tname(self, siblings, prefix=""):
        names = {x.lower() for x in siblings}
        while True:
            pool = sorted(x for x in self.exact if (x[0] == "G") == (prefix == "G"))
            if self.twins and pool and self.r.random() < 0.4:
                name = self.r.choice(pool)
                if name.lower() not in names:
                    return name
            self.n += 1
            base = prefix + self.r.choice(TYPE_NAMES)
            k = self.r.random()
            name = base if k < 0.3 else base + str(self.n) if k < 0.8 else base + "_" + str(self.n)
            if name.lower() in RESERVED or name in siblings:
                continue
            if name.lower() in self.used:
                continue
            self.used.add(name.lower())
            self.exact.add(name)
            return name

    def schema(self):
        while True:
            s = self.attempt()
            if not self.twins or self.clear(s):
                return s

    def clear(self, s):
        """Every reference means the same read outwards from where it stands and read from the
        own group and then the root: what it names in the own group, or the only thing it names."""
        for e in s.messages():
            for f in e.fields:
                if f.ty.ref is None:
                    continue
                parts = f.ty.text.split(".")
                hits, own = set(), None
                for g in self.open_groups(e.parent):
                    x = g
                    for p in parts:
                        x = next((y for y in x.items if y.name == p), None) if x is not None and x.kind == "group" else None
                    if x is not None:
                        hits.add(x.full())
                        own = own or (g is e.parent and x.full()) or None
                first = next((y for g in self.open_groups(e.parent) for y in g.items if y.name == parts[0]), None)
                if own != f.ty.ref.full() and hits != {f.ty.ref.full()} or first is None or first.full() != ".".join(f.ty.ref.full().split(".")[:len(f.ty.ref.full().split(".")) - len(parts) + 1]):
                    return self.again()
        # default values are written out with all they contain: full paths read from inside a group
        for e in s.messages():
            todo, seen = [e] + [f.ty.ref for f in e.fields if f.ty.ref is not None], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                parts = x.full().split(".")
                first = next((y for g in self.open_groups(e.parent) for y in g.items if y.name == parts[0]), None)
                if first is None or first.full() != parts[0]:
                    return self.again()
                if x.kind == "struct":
                    todo += [f.ty.ref for f in x.fields if f.ty.ref is not None]
        return True

    def again(self):
        self.twins = self.twins and self.r.random() < 0.8
        return False

    def attempt(self):
        self.used, self.exact, self.n = set(), set(), 0
        s = Schema()
        self.s = s
        self.left = self.max_ents
        self.fill(s.root, 0)
        if not s.messages():
            self.add_struct(s.root)
        s.number()
        return s

    def fill(self, g, depth):
        n = self.r.randint(1, max(1, min(self.left, 6 if depth else 10)))
        for _ in range(n):
            if self.left <= 0:
                break
            self.left -= 1
            k = self.r.random()
            if k < 0.55:
                self.add_struct(g)
            elif k < 0.78:
                self.add_enum(g)
            elif depth < self.depth:
                e = Ent("group", self.tname([x.name for x in g.items], "G"), g)
                g.items.append(e)
                self.fill(e, depth + 1)
            else:
                self.add_struct(g)

    def reachable(self, g, want):
        """References usable from inside group g, as (entity, text)."""
        out = []

        def collect(base, prefix):
            for e in base.items:
                if e.kind == "group":
                    collect(e, prefix + [e.name])
                elif want == "any" or e.kind == want:
                    out.append((e, ".".join(prefix + [e.name])))
        collect(g, [])
        if self.cross and g is not self.s.root:
            root = []

            def collect_abs(base, prefix):
                for e in base.items:
                    if e.kind == "group":
                        collect_abs(e, prefix + [e.name])
                    elif want == "any" or e.kind == want:
                        root.append((e, ".".join(prefix + [e.name])))
            collect_abs(self.s.root, [])
            out.extend(root)
        return out

    def open_groups(self, g):
        o = []
        while g is not None:
            o.append(g)
            g = g.parent
        return o

    def ty(self, g, allow_ref=True):
        if allow_ref and self.r.random() < 0.4:
            refs = self.reachable(g, "any" if self.enum_refs else "struct")
            if refs:
                # a name which another group uses as well
                own = [x for x in refs if self.twins and x[0].parent is g and len([1 for o in self.open_groups(g) for y in o.items if y.name == x[0].name]) > 1]
                e, text = self.r.choice(own if own and self.r.random() < 0.8 else refs)
                return Ty(ref=e, text=text)
        return Ty(prim=self.r.choice(PRIMS))

    def add_struct(self, g):
        e = Ent("struct", self.tname([x.name for x in g.items]), g)
        lo = 0 if self.empty_struct and self.r.random() < 0.12 else 1
        names = set()
        for i in range(self.r.randint(lo, self.max_fields) if lo else 0):
            nm = self.r.choice(FIELD_NAMES)
            while nm in names or nm.lower() in RESERVED:
                nm = self.r.choice(FIELD_NAMES) + str(self.r.randint(1, 99))
            names.add(nm)
            t = self.ty(g)
            rep = self.r.random() < 0.3
            if self.ts and t.ref is not None and t.ref.kind == "enum":
                rep = False
            e.fields.append(Field(nm, t, rep=rep, opt=self.r.random() < 0.3))
        g.items.append(e)
        return e

    def add_enum(self, g):
        e = Ent("enum", self.tname([x.name for x in g.items], "E"), g)
        names = set()
        simple = self.r.random() < 0.25
        for i in range(self.r.randint(1, 6)):
            nm = self.r.choice(ITEM_NAMES)
            while nm in names or nm.lower() in RESERVED:
                nm = self.r.choice(ITEM_NAMES) + str(self.r.randint(1, 99))
            names.add(nm)
            if simple or self.r.random() < 0.15:
                e.fields.append(Field(nm, Ty(prim="str"), bare=True))
            else:
                t = self.ty(g)
                rep = self.r.random() < 0.25
                if t.ref is not None and (t.ref.kind == "enum" or rep):
                    t = Ty(prim=self.r.choice(PRIMS))
                e.fields.append(Field(nm, t, rep=rep))
        g.items.append(e)
        return e


def build_schema(desc):
    """desc: nested list [(kind, name, members)]; a member of struct/enum is (typetext, name, flags)
    with flags from "r" (repeated), "o" (optional), "b" (bare item)."""
    s = Schema()

    def lookup(g, text):
        while g is not None:
            e = g
            for part in text.split("."):
                e = next((x for x in e.items if x.name == part), None) if e is not None and e.kind == "group" else None
            if e is not None:
                return e
            g = g.parent
        raise KeyError(text)

    def go(g, items):
        for kind, name, members in items:
            e = Ent(kind, name, g)
            if kind == "group":
                g.items.append(e)
                go(e, members)
                continue
            for m in members:
                t, n, fl = m[0], m[1], m[2] if len(m) > 2 else ""
                ty = Ty(prim=t) if t in PRIMS else Ty(ref=lookup(g, t), text=t)
                e.fields.append(Field(n, ty, rep="r" in fl, opt="o" in fl, bare="b" in fl))
            g.items.append(e)
    go(s.root, desc)
    s.number()
    return s


def sink(ts):
    """Every kind of member the language knows (for ts: that the TypeScript output supports)."""
    names = {"bool": "flag", "str": "text"}

    def nm(p):
        return names.get(p, "v" + p)
    refs = [("Leaf", "l"), ("Leaf", "lo", "o"), ("Leaf", "lr", "r"), ("Leaf", "lor", "ro"), ("Empty", "e"), ("Empty", "eo", "o"),
            ("Empty", "er", "r"), ("Plain", "p"), ("Plain", "po", "o"), ("Mixed", "m"), ("Mixed", "mo", "o")]
    if not ts:
        refs += [("Plain", "pr", "r"), ("Plain", "por", "ro"), ("Mixed", "mr", "r"), ("Mixed", "mor", "ro")]
    return build_schema([
        ("struct", "Leaf", [("u8", "a"), ("str", "b"), ("f64", "c", "o")]),
        ("struct", "Empty", []),
        ("enum", "Plain", [("str", "A", "b"), ("str", "B", "b"), ("str", "C_long_name", "b")]),
        ("enum", "Mixed", [(p, "One_" + p) for p in PRIMS] + [(p, "Many_" + p, "r") for p in PRIMS] + [("Leaf", "Ref"), ("Empty", "Nothing"), ("str", "Bare", "b")]),
        ("struct", "Prims", [(p, nm(p)) for p in PRIMS]),
        ("struct", "Opts", [(p, nm(p), "o") for p in PRIMS]),
        ("struct", "Reps", [(p, nm(p), "r") for p in PRIMS]),
        ("struct", "OptReps", [(p, nm(p), "ro") for p in PRIMS]),
        ("struct", "Refs", refs),
        ("group", "GroupA", [
            ("struct", "Inner", [("Leaf", "l"), ("u16", "n", "o"), ("Plain", "p", "o")]),
            ("enum", "EInner", [("Inner", "X"), ("bool", "Y"), ("Leaf", "Z")]),
            ("group", "Deep", [
                ("struct", "Dee", [("GroupA.Inner", "x"), ("GroupA.EInner", "y"), ("GroupA.Inner", "z", "r"), ("GroupA.EInner", "w", "o")]),
                ("enum", "EDee", [("GroupA.Inner", "P"), ("Dee", "Q"), ("u64", "R", "r")]),
                ("struct", "Last", [("EDee", "e"), ("Dee", "d", "ro")]),
                ("group", "Deeper", [
                    ("struct", "Four", [("GroupA.Deep.EDee", "e", "o"), ("i8", "n")]),
                    ("enum", "EFour", [("Four", "P"), ("GroupA.Deep.Dee", "Q"), ("str", "R")]),
                    ("group", "Deepest", [
                        ("struct", "Five", [("GroupA.Deep.Deeper.EFour", "e"), ("GroupA.Deep.Deeper.Four", "f", "r")]),
                        ("enum", "EFive", [("Five", "P"), ("GroupA.Deep.Deeper.Four", "Q"), ("i64", "R", "r")]),
                    ]),
                ]),
            ]),
        ]),
        ("group", "GroupB", [
            # a group of the same name holding types of the same names
            ("group", "Deep", [("struct", "Dee", [("str", "own"), ("bool", "flag", "o")]), ("enum", "EDee", [("u16", "U"), ("Dee", "P")])]),
            ("struct", "Both", [("Deep.Dee", "a"), ("Deep.EDee", "b"), ("GroupA.Deep.Dee", "c"), ("Deep.Dee", "d", "r")]),
            ("struct", "Cross", [("GroupA.Inner", "i", "o"), ("GroupA.Deep.Dee", "d"), ("GroupA.Deep.EDee", "e", "o"), ("Leaf", "l", "r")]),
        ]),
        # names of the root taken again: inside the group they mean the group's own types
        ("group", "Twin", [
            ("struct", "Leaf", [("str", "other"), ("i64", "more", "r")]),
            ("enum", "Plain", [("bool", "Is"), ("Leaf", "Own")]),
            ("struct", "Uses", [("Leaf", "l"), ("Leaf", "lo", "o"), ("Leaf", "lr", "r"), ("Plain", "p"), ("Plain", "po", "o")]),
            ("enum", "EUses", [("Leaf", "First"), ("Uses", "Second")]),
        ]),
        ("struct", "After", [("Twin.Uses", "t", "o"), ("GroupB.Deep.Dee", "n"), ("GroupB.Deep.EDee", "m", "o"), ("GroupA.Deep.Last", "a"), ("GroupB.Cross", "b", "o"), ("GroupA.EInner", "c")]),
        ("struct", "Bottom", [("GroupA.Deep.Deeper.EFour", "a", "o"), ("GroupA.Deep.Deeper.Deepest.Five", "b"), ("GroupA.Deep.Deeper.Deepest.EFive", "c"),
                              ("GroupA.Deep.Deeper.Deepest.EFive", "d", "o"), ("GroupA.Deep.Deeper.Deepest.Five", "e", "ro")]),
    ])


def wide(ts, n=330):
    """More than 256 and (in total) more than 512 ids."""
    fs = [(PRIMS[i % len(PRIMS)], "f%d" % i, ["", "o", "r", "ro"][i // 12 % 4]) for i in range(n)]
    return build_schema([
        ("struct", "Head", [("u8", "a"), ("str", "b")]),
        ("struct", "Wide", fs),
        ("enum", "Many", [("u32", "I%d" % i) for i in range(300)]),
        ("group", "Tail", [("struct", "T%d" % i, [("Head", "h"), ("u16", "n", "o"), ("Many", "m")]) for i in range(40)]),
        ("struct", "End", [("Tail.T39", "t"), ("Wide", "w", "o")]),
    ])
