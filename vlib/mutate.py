"""Wrong descriptions: edits of a valid protocol or workflow that make it invalid for certain.
Each mutant is (kind, text) or None when the edit does not apply."""
import copy
from . import schema as S
from . import flow as F

BAD_PROT = list("!@$%^&*()-+=<>/\\|,:\"'~`#") + ["é", "中", "\u00a0", "\u2028", "😀"]
BAD_FLOW = list("$%^*-+=</\\|\"'~`[]") + ["é", "中", "\u00a0", "😀"]


def ents(s, kinds):
    return [e for e in s.walk() if e.kind in kinds]


def with_fields(s, kinds=("struct", "enum")):
    return [e for e in ents(s, kinds) if e.fields]


def raw(text):
    t = S.Ty(prim="u8")
    t.text = text
    return t


def p_unknown_type(r, s):
    l = [(e, f) for e in with_fields(s) for f in e.fields if not f.bare]
    if not l:
        return None
    e, f = r.choice(l)
    f.ty = raw(r.choice(["Nope", "Nope.Deep", "u128", "string", "int", "U8", "Bool", "char8", "float", "void", "u8.x", "Foo.Bar.Baz"]))
    return s.text()


def p_native(r, s):
    """types the outputs cannot represent"""
    l = [(e, f) for e in with_fields(s) for f in e.fields if not f.bare]
    if not l:
        return None
    e, f = r.choice(l)
    f.ty = raw(r.choice(["char", "isize", "usize"]))
    return s.text()


def p_wrong_path(r, s):
    l = [(e, f) for e in with_fields(s) for f in e.fields if f.ty.ref is not None]
    if not l:
        return None
    e, f = r.choice(l)
    ref = f.ty.ref
    parts = f.ty.text.split(".")
    k = r.choice(["case", "prefix", "member", "cut", "group"])
    if k == "case":
        parts[-1] = parts[-1].swapcase()
    elif k == "prefix":
        parts.insert(r.randint(0, len(parts) - 1), "Nowhere")
    elif k == "member":
        parts.append(ref.fields[0].name if ref.fields else "x")
    elif k == "cut":
        parts[-1] = parts[-1][:-1] or "Zz"
    else:
        g = [x for x in ents(s, ("group",))]
        if not g:
            return None
        parts = r.choice(g).full().split(".")
    f.ty = raw(".".join(parts))
    # must not name anything by accident
    t = f.ty.text
    for e2 in s.messages():
        if e2.full() == t or e2.full().endswith("." + t):
            return None
    return s.text()


def p_forward(r, s):
    """a reference to something declared later, or to itself"""
    ms = s.messages()
    l = [(i, e) for i, e in enumerate(ms) if e.kind == "struct"]
    if not l:
        return None
    i, e = r.choice(l)
    t = r.choice(ms[i:])
    e.fields.append(S.Field("fwd_member", raw(t.full())))
    return s.text()


def p_dup_entity(r, s):
    gs = [s.root] + ents(s, ("group",))
    gs = [g for g in gs if g.items]
    g = r.choice(gs)
    a = r.choice(g.items)
    kind = r.choice(["struct", "enum", "group"])
    n = S.Ent(kind, a.name, g)
    if kind == "enum":
        n.fields.append(S.Field("X", S.Ty(prim="u8")))
    elif kind == "struct":
        n.fields.append(S.Field("x", S.Ty(prim="u8")))
    else:
        k = S.Ent("struct", "InnerOfDup", n)
        n.items.append(k)
    g.items.insert(r.randint(0, len(g.items)), n)
    return s.text()


def p_primitive_name(r, s):
    """an entity named as a primitive type: a reference to it would mean that type"""
    g = r.choice([s.root] + ents(s, ("group",)))
    kind = r.choice(["struct", "enum", "group"])
    n = S.Ent(kind, r.choice(S.PRIMS), g)
    k = n
    if kind == "group":
        k = S.Ent("struct", "Inner", n)
        n.items.append(k)
    k.fields.append(S.Field("x", S.Ty(prim="u16")))
    g.items.insert(r.randint(0, len(g.items)), n)
    l = [e for e in ents(s, ("struct",)) if e is not k]
    if l and kind != "group" and r.random() < 0.5:
        # with a member of that type
        e = S.Ent("struct", "UsesIt", s.root)
        e.fields.append(S.Field("x", raw(n.full())))
        s.root.items.append(e)
    return s.text()


def service_group(r, s):
    """a protocol which takes a name the messages of a workflow need"""
    kind = r.choice(["group", "group", "struct", "enum"])
    if any(x.name == "InternalServiceGroup" for x in s.root.items):
        return None
    g = S.Ent(kind, "InternalServiceGroup", s.root)
    if kind == "group":
        k = S.Ent(r.choice(["struct", "enum"]), r.choice(["HashRequest", "HashResponse", "BeaconConfirmation", "ConnectConfirmationBeacon"]), g)
        g.items.append(k)
    else:
        k = g
    k.fields.append(S.Field("x", S.Ty(prim="u16")))
    s.root.items.insert(r.randint(0, len(s.root.items)), g)
    return s.text()


def p_dup_member(r, s):
    l = with_fields(s)
    if not l:
        return None
    e = r.choice(l)
    f = copy.copy(r.choice(e.fields))
    if not f.bare and r.random() < 0.5:
        f.ty, f.rep = S.Ty(prim=r.choice(S.PRIMS)), False
    if e.kind == "enum" and not f.bare and r.random() < 0.3:
        f.ty, f.rep, f.bare = S.Ty(prim="str"), False, True
    e.fields.insert(r.randint(0, len(e.fields)), f)
    return s.text()


def p_truncate(r, s):
    t = s.text()
    depth, cuts, stmt = 0, [], False
    for i, ch in enumerate(t):
        if depth > 0 or stmt:
            cuts.append(i)
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            stmt = False
        elif not ch.isspace():
            stmt = True
    return t[:r.choice(cuts)] if cuts else None


def p_truncate_token(r, s):
    """ends right after a complete statement inside an open entity"""
    tk = s.tokens()
    depth, cuts = 0, []
    for i, x in enumerate(tk):
        depth += {"{": 1, "}": -1}.get(x, 0)
        if depth > 0 and x in ("{", ";", "}"):
            cuts.append(i + 1)
    return S.layout(tk[:r.choice(cuts)]) + ("\n" if r.random() < 0.5 else "")


def p_drop(r, s):
    tk = s.tokens()
    c = [i for i, x in enumerate(tk) if x in ("{", "}", ";")]
    i = r.choice(c)
    return S.layout(tk[:i] + tk[i + 1:])


def p_extra(r, s):
    tk = s.tokens()
    i = r.randint(0, len(tk))
    x = r.choice(["}", "{"])
    return S.layout(tk[:i] + [x] + tk[i:])


def p_extra_semi(r, s):
    tk = s.tokens()
    c = [i + 1 for i, x in enumerate(tk) if x in ("struct", "enum", "group", "{", ";", "}")] + [0]
    i = r.choice(c)
    if i == 0:
        return ";\n" + S.layout(tk)
    return S.layout(tk[:i]) + " ; " + S.layout(tk[i:])


def p_missing_name(r, s):
    l = [e for e in s.walk()]
    k = r.choice(["entity", "field", "type"])
    tk = s.tokens()
    if k == "entity":
        i = r.choice([i for i, x in enumerate(tk) if x in ("struct", "enum", "group")]) + 1
        return S.layout(tk[:i] + tk[i + 1:])
    fs = [e for e in with_fields(s, ("struct",))]
    if not fs:
        return None
    f = r.choice(r.choice(fs).fields)
    if k == "field":
        f.name = " "
    else:
        f.ty, f.rep = raw(" "), False
    return s.text()


def p_bad_char(r, s):
    t = s.text()
    i = r.randint(0, len(t))
    return t[:i] + r.choice(BAD_PROT) + t[i:]


def p_bracket(r, s):
    tk = s.tokens()
    c = [i for i, x in enumerate(tk) if x.endswith("[]")]
    k = r.random()
    if c and k < 0.6:
        i = r.choice(c)
        b = tk[i][:-2]
        tk[i] = b + r.choice(["[", "]", "[x]", "][", "[1]", "[][]", "[[]", "[]]", "[.]", "[;]"])
        return S.layout(tk)
    i = r.randint(0, len(tk))
    x = r.choice(["[", "]"])
    return S.layout(tk[:i] + [x] + tk[i:])


def p_digit(r, s):
    es = list(s.walk())
    if r.random() < 0.5:
        e = r.choice(es)
        e.name = r.choice("0123456789") + e.name
    else:
        l = with_fields(s)
        if not l:
            return None
        f = r.choice(r.choice(l).fields)
        f.name = r.choice("0123456789") + f.name
    return s.text()


def p_keyword(r, s):
    tk = s.tokens()
    i = r.choice([i for i, x in enumerate(tk) if x in ("struct", "enum", "group")])
    tk[i] = r.choice(["structure", "Struct", "message", "class", "enumeration", "Group", "module", "", "struct struct"])
    return S.layout(tk)


def p_stray_field(r, s):
    gs = [s.root] + ents(s, ("group",))
    g = r.choice(gs)
    tk = s.tokens()
    # positions directly inside a group (or at top level)
    pos, stack = [0], []
    kind = None
    for i, x in enumerate(tk):
        if x in ("struct", "enum", "group") and (i == 0 or tk[i - 1] in ("{", "}", ";")):
            kind = x
        if x == "{":
            stack.append(kind)
        elif x == "}":
            stack.pop()
        if x in ("{", "}") and all(y == "group" for y in stack):
            pos.append(i + 1)
    i = r.choice(pos)
    return S.layout(tk[:i] + r.choice([["u8", "stray", ";"], ["stray", ";"], ["str", "a", "?", ";"], ["stray"]]) + tk[i:])


def p_nested(r, s):
    l = ents(s, ("struct", "enum"))
    e = r.choice(l)
    tk = s.tokens()
    i = [k for k in range(len(tk) - 2) if tk[k] == e.kind and tk[k + 1] == e.name and tk[k + 2] == "{"][0] + 3
    ins = r.choice([["struct", "Nested", "{", "}"], ["enum", "Nested", "{", "A", ";", "}"], ["group", "Nested", "{", "}"]])
    n = 0
    while n < len(e.fields) and r.random() < 0.5:
        while tk[i] != ";":
            i += 1
        i += 1
        n += 1
    return S.layout(tk[:i] + ins + tk[i:])


def p_marks(r, s):
    tk = s.tokens()
    ss = [f for e in with_fields(s, ("struct",)) for f in e.fields]
    en = [f for e in with_fields(s, ("enum",)) for f in e.fields if not f.bare]
    k = r.choice(["opt2", "optfirst", "reprep", "repname", "optenum", "two", "dots"])
    if k == "optenum":
        if not en:
            return None
        f = r.choice(en)
        f.name += "?"
        return s.text()
    if not ss:
        return None
    f = r.choice(ss)
    if k == "opt2":
        f.name += "??"
    elif k == "optfirst":
        f.ty = raw(f.ty.text + "?")
    elif k == "reprep":
        f.ty, f.rep = raw(f.ty.text + "[][]"), False
    elif k == "repname":
        f.name += "[]"
    elif k == "two":
        f.name += " " + r.choice(["again", "more_1"])
    else:
        f.ty = raw(r.choice([f.ty.text + ".", "." + f.ty.text, f.ty.text + "..x"]))
    return s.text()


def p_binary(r, s):
    b = s.text().encode()
    i = r.randint(0, len(b))
    return b[:i] + bytes([r.choice([0x80, 0xff, 0xc3])]) + b[i:]


PROTOCOL = [p_unknown_type, p_native, p_wrong_path, p_forward, p_dup_entity, p_primitive_name, p_dup_member, p_truncate, p_truncate_token, p_drop, p_extra,
            p_extra_semi, p_missing_name, p_bad_char, p_bracket, p_digit, p_keyword, p_stray_field, p_nested, p_marks, p_binary]


# ---------------------------------------------------------------- workflow
def undeclared(r, s):
    paths = [e.full() for e in s.messages()]
    have = set(paths)
    groups = [e.full() for e in s.walk() if e.kind == "group"]
    for _ in range(20):
        p = r.choice(paths)
        x = r.choice(["Nope", p + "x", p[:-1] + "Zq", "Nowhere." + p, p + ".Deep", p.swapcase(), p.split(".")[-1]] + groups)
        if x not in have and x not in ("connected", "disconnected", "beacons", "config"):
            return x
    return "NotExistStruct"


def f_undeclared(r, s, f):
    sites = [("self", None), ("assigned", None)]
    for q in f.requests:
        sites += [("request", q), ("error", q)]
        for a in q.actions:
            sites.append(("response", a))
            sites += [("bcast", b) for b in a.bcasts]
    for e in f.events:
        if not e.default:
            sites.append(("event", e))
        sites += [("bcast", b) for b in e.bcasts]
    sites += [("beacon", i) for i in range(len(f.beacons))]
    k, o = r.choice(sites)
    u = undeclared(r, s)
    if k == "self":
        f.self_key = u
    elif k == "assigned":
        f.assigned_key = u
    elif k in ("request", "bcast", "event"):
        o.ref = u
    elif k == "error":
        o.err = u
    elif k == "response":
        o.response = u
    else:
        f.beacons[o] = u
    return k, f.text()


def f_relative(r, s, f):
    """a reference by a part of the path: as seen from the group of the message it belongs to, or without its group"""
    have = {e.full() for e in s.messages()}
    out = []

    def add(kind, owner, cur, put):
        for k in range(1, owner.count(".") + 1):
            base = ".".join(owner.split(".")[:k]) + "."
            out.extend((kind, put, p[len(base):]) for p in have if p.startswith(base) and p[len(base):] not in have)
        t = cur.split(".")
        out.extend((kind + "-tail", put, ".".join(t[k:])) for k in range(1, len(t)) if ".".join(t[k:]) not in have)
    for q in f.requests:
        add("error", q.ref, q.err, lambda x, q=q: setattr(q, "err", x))
        for a in q.actions:
            add("response", q.ref, a.response, lambda x, a=a: setattr(a, "response", x))
            for b in a.bcasts:
                add("bcast", q.ref, b.ref, lambda x, b=b: setattr(b, "ref", x))
    for e in f.events:
        for b in e.bcasts:
            add("event-bcast", "" if e.default else e.ref, b.ref, lambda x, b=b: setattr(b, "ref", x))
    for i in range(len(f.beacons)):
        add("beacon", "", f.beacons[i], lambda x, i=i: f.beacons.__setitem__(i, x))
    out = [o for o in out if o[2] not in ("connected", "disconnected")]
    if not out:
        return None
    kind = r.choice(sorted({o[0] for o in out}))
    kind, put, x = r.choice(sorted((o for o in out if o[0] == kind), key=lambda o: o[2]))
    put(x)
    return kind, f.text()


def f_dup(r, s, f):
    k = r.choice(["request", "event", "beacon", "config", "conclusion", "broadcast", "target", "selfkey", "assigned", "producer", "beaconreq"])
    if k == "request" and f.requests:
        q = copy.deepcopy(r.choice(f.requests))
        f.requests.insert(r.randint(0, len(f.requests)), q)
        return k, f.text()
    if k == "event" and f.events:
        f.events.insert(r.randint(0, len(f.events)), copy.deepcopy(r.choice(f.events)))
        return k, f.text()
    if k == "beacon" and f.beacons:
        f.beacons.insert(r.randint(0, len(f.beacons)), r.choice(f.beacons))
        return k, f.text()
    if k == "beaconreq" and f.requests:
        f.beacons.insert(r.randint(0, len(f.beacons)), r.choice(f.requests).ref)
        return k, f.text()
    if k == "conclusion":
        l = [q for q in f.requests if len([a for a in q.actions if a.conclusion]) > 1]
        if l:
            q = r.choice(l)
            a, b = r.sample([a for a in q.actions if a.conclusion], 2)
            a.conclusion = b.conclusion
            return k, f.text()
    if k == "broadcast":
        l = [a for q in f.requests for a in q.actions if a.bcasts]
        if l:
            a = r.choice(l)
            a.bcasts.append(copy.copy(r.choice(a.bcasts)))
            a.bcasts[-1].opt ^= r.random() < 0.5
            return k, f.text()
    t = f.tokens()
    c = [i for i, x in enumerate(t) if x[0] == "&config"][0]
    if k == "config":
        t.insert(r.randint(0, len(t)), list(t[c]))
    elif k == "target":
        j = r.choice([j for j, x in enumerate(t[c]) if x in ("rust", "typescript")])
        t[c].insert(j, t[c][j])
    elif k in ("selfkey", "assigned"):
        p = r.choice([e.full() for e in s.messages()])
        key = {"selfkey": "SelfKey", "assigned": "AssignedKey"}[k]
        n = 1 if key in t[c] else 2
        for _ in range(n):
            t[c][2:2] = [key, ":", p, ";"]
    elif k == "producer":
        w = r.choice(["Producer", "Consumer"])
        t[c][2:2] = [w, ":", r.choice(["rust", "typescript"]), ";"]
    else:
        return None
    return k, join(t)


def join(t):
    return "\n".join(F.flow_layout(x, None, "plain") for x in t) + "\n"


def f_config(r, s, f):
    t = f.tokens()
    c = [i for i, x in enumerate(t) if x[0] == "&config"][0]
    k = r.choice(["none", "producer", "consumer", "target", "empty", "unknown", "novalue", "nosemi", "keyword"])
    if k == "none":
        t.pop(c)
    elif k in ("producer", "consumer"):
        w = k.capitalize()
        i = t[c].index(w)
        j = t[c].index(";", i)
        t[c] = t[c][:i] + t[c][j + 1:]
    elif k == "target":
        j = r.choice([j for j, x in enumerate(t[c]) if x in ("rust", "typescript")])
        t[c][j] = r.choice(["Rust", "go", "js", "ts", "rs", "typescrip"])
    elif k == "empty":
        t[c] = ["&config", "{", "}"]
    elif k == "unknown":
        t[c][2:2] = [r.choice(["Target", "producer", "Selfkey", "Key"]), ":", "rust", ";"]
    elif k == "novalue":
        w = r.choice(["Producer", "Consumer"])
        i = t[c].index(w)
        j = t[c].index(";", i)
        t[c] = t[c][:i + 2] + t[c][j:]
    elif k == "nosemi":
        i = r.choice([i for i, x in enumerate(t[c]) if x == ";"])
        t[c].pop(i)
    else:
        t[c][0] = r.choice(["config", "@config", "&conf", "&Config", "&"])
    return k, join(t)


def f_structure(r, s, f):
    """requests without error or with several responses but no conclusion, events without broadcasts"""
    k = r.choice(["noerror", "noconclusion", "emptyrequest", "emptyevent", "emptybeacons", "noresponse", "bcastnoconcl", "emptyerr", "onlyname", "onlynameev"])
    t = f.tokens()
    reqs = [i for i, x in enumerate(t) if x[0] != "&config" and not x[0].startswith("@")]
    evs = [i for i, x in enumerate(t) if x[0].startswith("@") and x[0] != "@beacons"]
    if k in ("noerror", "noconclusion", "emptyrequest", "noresponse", "bcastnoconcl", "emptyerr", "onlyname"):
        if not reqs:
            return None
        i = r.choice(reqs)
        x = t[i]
        if k == "noerror":
            t[i] = [x[0]] + x[3:]
        elif k == "emptyerr":
            t[i] = [x[0], "!"] + x[3:]
        elif k == "emptyrequest":
            t[i] = x[:4] + ["}"]
        elif k == "noresponse":
            j = x.index("(")
            e = x.index(")")
            t[i] = x[:j + 1] + x[e:]
        elif k == "onlyname":
            t[i] = [x[0]] + r.choice([[";"], ["{", "}"], ["!", x[2], ";"], ["!", x[2]], []])
            if t[i][1:] == [";"] :
                pass
        elif k == "noconclusion":
            c = [j for j, y in enumerate(x) if y == "(" and x[j + 2] == ">"]
            if len([y for y in x if y == "("]) < 2 or not c:
                return None
            j = r.choice(c)
            e = x.index(")", j)
            # only the response is left; its broadcasts, if any, are a second mistake
            t[i] = x[:j + 1] + x[j + 3:]
        else:
            if len([y for y in x if y == "("]) != 1 or x[6] == ">" or x[x.index(")") + 1] != ";":
                return None
            j = x.index(")")
            t[i] = x[:j + 1] + [">", r.choice([e.full() for e in s.messages()]), ";", "}"]
    elif k in ("emptyevent", "onlynameev"):
        if not evs:
            return None
        i = r.choice(evs)
        t[i] = t[i][:2] + ["}"] if k == "emptyevent" else [t[i][0]] + r.choice([[";"], []])
    else:
        t = [x for x in t if x[0] != "@beacons"] + [["@beacons", "{", "}"]]
    return k, join(t)


def flat(f):
    return [x for st in f.tokens() for x in st]


def lay(tk):
    return F.flow_layout(tk, None, "plain")


def f_drop(r, s, f):
    tk = flat(f)
    k = r.choice("{ } ( ) ; > ! : @".split())
    if k == "@":
        c = [i for i, x in enumerate(tk) if x.startswith("@")]
        if not c:
            return None
        i = r.choice(c)
        if tk[i] == "@beacons" or True:
            tk[i] = tk[i][1:]
        return "at", lay(tk)
    c = [i for i, x in enumerate(tk) if x == k]
    if k == ">":
        # a conclusion's arrow cannot be told from a path written with a space
        c = [i for i in c if tk[i - 2] != "("]
    if not c:
        return None
    i = r.choice(c)
    return {"{": "open", "}": "close", "(": "lpar", ")": "rpar", ";": "semi", ">": "arrow", "!": "excl", ":": "colon"}[k], lay(tk[:i] + tk[i + 1:])


def f_extra(r, s, f):
    tk = flat(f)
    i = r.randint(0, len(tk))
    x = r.choice(["{", "}", "(", ")", "!", ":", ">", "@", "&"])
    if x in "@&":
        if i < len(tk) and tk[i][0].isalnum():
            x = x + x
        else:
            x += r.choice(["zzz", ""])
    return {"{": "open", "}": "close", "(": "lpar", ")": "rpar", "!": "excl", ":": "colon", ">": "arrow"}.get(x, "mark"), lay(tk[:i] + [x] + tk[i:])


def f_stray(r, s, f):
    """a word where no word may be: between statements"""
    tk = flat(f)
    c = [i + 1 for i, x in enumerate(tk) if x in (";", "{", ")")]
    i = r.choice(c)
    return "word", lay(tk[:i] + [r.choice(["stray", "Stray", "x1"])] + tk[i:])


def f_truncate(r, s, f):
    t = f.text()
    depth, cuts, stmt = 0, [], False
    for i, ch in enumerate(t):
        if depth > 0 or stmt:
            cuts.append(i)
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
            stmt = False
        elif not ch.isspace():
            stmt = True
    i = r.choice(cuts)
    return "cut", t[:i]


def f_truncate_token(r, s, f):
    tk = flat(f)
    depth, cuts = 0, []
    for i, x in enumerate(tk):
        depth += {"{": 1, "}": -1}.get(x, 0)
        if depth > 0:
            cuts.append(i + 1)
    return "cut", lay(tk[:r.choice(cuts)]) + r.choice(["", "\n", " "])


def f_bad_char(r, s, f):
    t = f.text()
    i = r.randint(0, len(t))
    return "char", t[:i] + r.choice(BAD_FLOW) + t[i:]


def f_digit(r, s, f):
    tk = flat(f)
    i = r.choice([i for i, x in enumerate(tk) if x[0].isalnum()])
    tk[i] = r.choice("0123456789") + tk[i]
    return "digit", lay(tk)


def f_binary(r, s, f):
    b = f.text().encode()
    i = r.randint(0, len(b))
    return "binary", b[:i] + bytes([r.choice([0x80, 0xff, 0xc3])]) + b[i:]


def f_path(r, s, f):
    tk = flat(f)
    c = [i for i, x in enumerate(tk) if x[0].isalnum() and x not in ("Producer", "Consumer", "SelfKey", "AssignedKey", "rust", "typescript")
         and tk[i - 1] != "(" and i > 0]
    if not c:
        return None
    i = r.choice(c)
    tk[i] = r.choice([tk[i] + ".", tk[i] + "..x", tk[i] + ". .x"])
    return "dots", lay(tk)


WORKFLOW = [f_undeclared, f_undeclared, f_relative, f_relative, f_relative, f_dup, f_dup, f_config, f_structure, f_structure, f_drop, f_drop, f_extra, f_stray, f_truncate, f_truncate_token,
            f_bad_char, f_digit, f_binary, f_path]


def protocol_mutant(r, s, fn):
    s2 = copy.deepcopy(s)
    base = s.text()
    t = fn(r, s2)
    if t is None or t == base:
        return None
    return fn.__name__[2:], t


def workflow_mutant(r, s, f, fn):
    f2 = copy.deepcopy(f)
    f2.schema = s
    base = f.text()
    x = fn(r, s, f2)
    if x is None or x[1] == base:
        return None
    return fn.__name__[2:] + "-" + x[0], x[1]
