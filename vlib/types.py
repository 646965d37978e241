"""Monitors over ids and declared types: C07, C08."""
import copy, json, os, random, re, shutil
from . import build, codec, flow, gen, outputs, proj, rsglue, schema, tsglue, wire
from .build import HarnessError
from .mon import pmap


# ---------------------------------------------------------------- C07
def field_ids(body):
    """ids of the top level fields of a struct body, in order"""
    out, p = [], 0
    while p < len(body):
        if p + 3 > len(body):
            return None
        out.append(int.from_bytes(body[p:p + 2], "little"))
        n = body[p + 2] // 8
        if n not in (1, 2, 4, 8):
            return None
        p += 3 + n + int.from_bytes(body[p + 3:p + 3 + n], "little")
    return out if p == len(body) else None


class Out:
    """one generated protocol file"""
    def __init__(self, name, target, path, s):
        self.name, self.target, self.path, self.s = name, target, path, s
        self.drv = self.fail = None

    def prepare(self, d, cache):
        text = proj.read(self.path)
        k = (self.target, text, len(self.s.messages()))
        if k in cache:
            return cache[k]
        dd = os.path.join(d, re.sub(r"\W", "_", self.name))
        os.makedirs(dd, exist_ok=True)
        if self.target == "rust":
            exe, p = rsglue.compile_driver(self.s, dd, text.decode())
            drv = rsglue.Driver([exe])
        else:
            shutil.copy(self.path, dd + "/protocol.ts")
            argv, p = tsglue.compile_driver(self.s, dd, dd + "/protocol.ts")
            drv = rsglue.Driver(argv)
        if p.returncode:
            raise HarnessError("%s does not compile (see C08): %s" % (self.name, p.stderr[-800:]))
        cache[k] = drv
        return drv


def ids_of(c, out, drv, r, per, tag, data):
    """{message: (id, field ids)} as seen on the wire; None if something is wrong"""
    items = []
    ms = out.s.messages()
    for k, e in enumerate(ms):
        n = per if e.kind == "struct" else max(per, len(e.fields))
        for j in range(n):
            v = wire.rand_ent(r, e)
            if e.kind == "enum":
                v = (j % len(e.fields), wire.rand_field(r, e.fields[j % len(e.fields)], 1, False))
            items.append((k, v, r.getrandbits(32)))
    cmds, ans = codec.pack_all(drv, items, ms)
    tab = {}
    for (k, v, q), (a, note) in zip(items, ans):
        e = ms[k]
        if not a.startswith("OK "):
            c.violation("pack-" + out.target, "%s: %s cannot be packed: %s" % (out.name, e.full(), a[:200]), data)
            return None
        b = bytes.fromhex(a[3:].strip())
        h = wire.parse_header(b)
        f = tuple(field_ids(b[wire.HEADER:]) or ()) if e.kind == "struct" else None
        if e.kind == "struct" and (len(f) != len(e.fields) or len(set(f)) != len(f)):
            c.violation("fields-" + out.target, "%s: body of %s has field ids %s for %d fields" % (out.name, e.full(), f, len(e.fields)), data)
            return None
        x = (h["id"], f)
        if tab.setdefault(e.full(), x) != x:
            c.violation("unstable-" + out.target, "%s: two packages of %s carry %s and %s" % (out.name, e.full(), tab[e.full()], x), data)
            return None
        c.seen("packages whose ids were read")
    seen = {}
    for n, (i, f) in tab.items():
        if i in seen:
            c.violation("duplicate-" + out.target, "%s: %s and %s have the same id %d" % (out.name, n, seen[i], i), data)
            return None
        seen[i] = n
    return tab, items, ans


def c07_case(c, d, r, i):
    os.makedirs(d)
    if i == 0:
        s = schema.wide(True)
        f = flow.FlowGen(r, s).flow()
    elif i == 1:
        s = schema.sink(True)
        f = flow.FlowGen(r, s).flow()
    else:
        s, f = gen.flow_for(r, gen.TARGETS[0], ents=r.choice([5, 14, 40]))
    f.producer = f.consumer = ["rust", "typescript"]
    data = dict(protocol=s.text(), workflow=f.text())
    ws = flow.with_service(f)
    outs = []
    for k in range(2):
        D = os.path.join(d, "g%d" % k)
        proj.make(D, s.text(), f.text())
        p1 = build.run([build.cli(), "-s", "p.prot", "-rs", "o.rs", "-ts", "o.ts", "--em", "-o"], cwd=D, timeout=60)
        p2 = proj.generate(D, extra=("-rs", "w.rs", "-ts", "w.ts", "--em", "-o"))
        if not (outputs.valid(c, p1, s, None, "protocol") and outputs.valid(c, p2, s, f)):
            return
        outs += [Out("protocol/rust/%d" % k, "rust", D + "/o.rs", s), Out("protocol/typescript/%d" % k, "typescript", D + "/o.ts", s)]
        outs += [Out("workflow/rust/%d" % k, "rust", D + "/w.rs", ws), Out("workflow/typescript/%d" % k, "typescript", D + "/w.ts", ws)]
        for side in ("consumer", "producer"):
            b = D + "/%s/src/%s/" % (side, side)
            outs.append(Out("%s/rust/%d" % (side, k), "rust", b + "rust/implementation/protocol/mod.rs", ws))
            outs.append(Out("%s/typescript/%d" % (side, k), "typescript", b + ("typescript/protocol/protocol.ts" if side == "consumer" else "typescript/implementation/protocol/index.ts"), ws))
    for o in outs:
        if not os.path.exists(o.path):
            raise HarnessError("no protocol at " + o.path)
    cache, judged, ref = {}, set(), None
    packs = {}
    for o in outs:
        drv = o.prepare(d, cache)
        if id(drv) in judged:
            c.seen("outputs identical to a judged one")
            continue
        judged.add(id(drv))
        x = ids_of(c, o, drv, r, 3, o.name, data)
        if x is None:
            return
        tab, items, ans = x
        if ref is None:
            ref, refname = dict(tab), o.name
        for n, v in tab.items():
            if n not in ref:
                ref[n] = v
                if v[0] in [y[0] for m, y in ref.items() if m != n]:
                    c.violation("service-id", "%s: %s takes an id in use: %d" % (o.name, n, v[0]), data)
                    return
            elif ref[n] != v:
                c.violation("differs-%s" % o.name.split("/")[0], "%s has ids %s in %s and %s in %s" % (n, ref[n], refname, v, o.name), data)
                return
        c.ok("ids %s %d %s" % (o.target, len(tab), o.name.split("/")[0]), sample="%s: %d messages, ids unique and equal in %s" % (o.name, len(tab), refname))
        c.seen("outputs judged")
        packs[o.name] = (o, drv, items, ans)
    # dispatch: every output reads what every other one packed as the type that declares the id
    l = list(packs.values())
    for a, da, items, ans in l:
        for b, db, _, _ in l:
            ms = a.s.messages()
            known = {e.full() for e in b.s.messages()}
            cmds, exp = ["new 0"], []
            for (k, v, q), (t, _) in zip(items, ans):
                cmds += ["chunk 0 - b" + t[3:].strip(), "next 0"]
                exp.append((ms[k].full(), q))
            out = db.batch(cmds)
            if out and out[-1][0] == "DIED":
                c.violation("dispatch-died", "%s died reading %s: %s" % (b.name, a.name, out[-1][1]), data)
                return
            for j, (n, q) in enumerate(exp):
                x = codec.parse_msg(out[2 + 2 * j][0])
                got = x["body"].split(" ")[0] if x else None
                want = n if n in known else None
                if got != want or (x and x["seq"] != q):
                    c.violation("dispatch-%s-%s" % (a.target, b.target), "%s packed by %s is dispatched as %s by %s" % (n, a.name, got, b.name), data)
                    return
                c.seen("messages dispatched to the declaring type" if want else "messages of the service group refused without workflow")
            c.ok("dispatch %s %s %d" % (a.name[:-2], b.name[:-2], len(exp)))


def c07(c):
    with build.Scratch("C07") as d:
        pmap(lambda i: c07_case(c, os.path.join(d, "d%d" % i), c.rng(i), i), range(c.pick(9, 110)), 8)


# ---------------------------------------------------------------- C08: protocol types
def rs_type(f):
    t = rsglue.path(f.ty.ref) if f.ty.ref is not None else rsglue.rt(f.ty.prim)
    if f.rep:
        t = "Vec<%s>" % t
    if f.opt:
        t = "Option<%s>" % t
    return t


def rs_types_program(s, mod_path):
    """compiles only if the module declares exactly the described types"""
    o = ['#[path = "%s"]\nmod protocol;\nfn main() {}\nfn same<T>(_: T) {}\n' % mod_path]
    for i, e in enumerate(s.messages()):
        p = rsglue.path(e)
        if e.kind == "struct":
            # destructuring without ..: exactly these fields; let with a type: exactly this type
            o.append("fn d%d(v: %s) { let %s { %s } = v; %s }\n" % (
                i, p, p, ", ".join("%s: x%d" % (f.name, k) for k, f in enumerate(e.fields)),
                " ".join("let _: &%s = &x%d; same::<%s>(x%d);" % (rs_type(f), k, rs_type(f), k) for k, f in enumerate(e.fields))))
            o.append("fn c%d(%s) -> %s { %s { %s } }\n" % (i, ", ".join("x%d: %s" % (k, rs_type(f)) for k, f in enumerate(e.fields)), p, p,
                                                        ", ".join("%s: x%d" % (f.name, k) for k, f in enumerate(e.fields))))
        else:
            arms = " ".join("%s::%s(x) => same::<%s>(x)," % (p, f.name, rs_type(f)) for f in e.fields)
            o.append("fn d%d(v: %s) { match v { %s %s::Defaults => {} } }\n" % (i, p, arms, p))
            o.append("".join("fn c%d_%d(x: %s) -> %s { %s::%s(x) }\n" % (i, k, rs_type(f), p, p, f.name) for k, f in enumerate(e.fields)))

    def group(g, mp, n):
        n[0] += 1
        arms = []
        for e in g.items:
            if e.kind == "group":
                arms.append("%s::AvailableMessages::%s(x) => same::<%s::%s::AvailableMessages>(x)," % (mp, e.name, mp, e.name))
            else:
                arms.append("%s::AvailableMessages::%s(x) => same::<%s::%s>(x)," % (mp, e.name, mp, e.name))
        if g.items:
            o.append("fn g%d(v: %s::AvailableMessages) { match v { %s } }\n" % (n[0], mp, " ".join(arms)))
        for e in g.items:
            if e.kind == "group":
                group(e, mp + "::" + e.name, n)
    group(s.root, "protocol", [0])
    return "".join(o)


TS_T = {"bool": "boolean", "str": "string", "i64": "bigint", "u64": "bigint"}


def ts_type(f, opt=True):
    if f.ty.ref is not None:
        e = f.ty.ref
        t = "P." + ".".join(e.path[:-1] + [("I" if e.kind == "enum" else "") + e.name])
    else:
        t = TS_T.get(f.ty.prim, "number")
    if f.rep:
        t = "Array<%s>" % t
    if opt and f.opt:
        t += " | undefined"
    return t


def ts_types_program(s, imp):
    o = ['import * as P from "%s";\n' % imp,
         "type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;\n"]
    n = [0]

    def eq(a, b, what):
        n[0] += 1
        o.append("export const x%d: Eq<%s, %s> = true; // %s\n" % (n[0], a, b, what))
    for e in s.messages():
        pre = "P." + "".join(x + "." for x in e.path[:-1])
        cls, itf = pre + e.name, pre + "I" + e.name
        keys = " | ".join("'%s'" % f.name for f in e.fields) or "never"
        eq("keyof " + itf, keys, e.full())
        for f in e.fields:
            if e.kind == "struct":
                eq("%s['%s']" % (itf, f.name), ts_type(f), e.full() + "." + f.name)
                eq("%s['%s']" % (cls, f.name), ts_type(f), e.full() + "." + f.name)
            else:
                eq("%s['%s']" % (itf, f.name), ts_type(f) + " | undefined", e.full() + "." + f.name)
        if e.kind == "struct":
            n[0] += 1
            o.append("export function f%d(v: %s): %s { return new %s(v); }\n" % (n[0], itf, cls, cls))

    def group(g, mp):
        am = mp + ".IAvailableMessages"
        eq("keyof " + am, " | ".join("'%s'" % e.name for e in g.items) or "never", mp)
        for e in g.items:
            t = mp + "." + e.name
            if e.kind == "group":
                eq("%s['%s']" % (am, e.name), t + ".IAvailableMessages | undefined", t)
                group(e, t)
            elif e.kind == "struct":
                eq("%s['%s']" % (am, e.name), t + " | undefined", t)
            else:
                eq("%s['%s']" % (am, e.name), "%s.I%s | undefined" % (mp, e.name), t)
    group(s.root, "P")
    return "".join(o)


# The installed compiler and node typings are younger than the ones the generated code was written
# for: since TypeScript 5.7 typed arrays and Buffer are not assignable to ArrayBufferLike.
YOUNG = re.compile(r"ArrayBufferLike|SharedArrayBuffer|Uint8Array<|Buffer<|WithImplicitCoercion|No overload matches")


def tsc_project(d, files, paths=None):
    cfg = {"compilerOptions": {"noEmit": True, "target": "es2020", "module": "commonjs", "moduleResolution": "node", "lib": ["es2020", "dom"], "types": ["node"],
                               "typeRoots": [os.path.join(build.NODE_MODULES, "@types")], "strict": True, "skipLibCheck": True, "pretty": False, "baseUrl": ".",
                               "paths": {"clibri": [os.path.join(build.VERIF, "ts/clibri/index.ts")]}}, "files": files}
    cf = os.path.join(d, "tsconfig.json")
    json.dump(cfg, open(cf, "w"))
    p = build.run([build.TSC, "-p", cf], cwd=d, timeout=400)
    out = []
    for l in p.stdout.split("\n"):
        m = re.match(r"^(.+?)\((\d+),(\d+)\): error (TS\d+): (.*)$", l)
        if m:
            if not YOUNG.search(m.group(5)):
                out.append((os.path.normpath(os.path.join(d, m.group(1))), int(m.group(2)), m.group(4), m.group(5)))
        elif re.match(r"^error TS", l):
            raise HarnessError("tsc: " + l)
    if p.returncode not in (0, 1, 2):
        raise HarnessError("tsc ended with %s: %s" % (p.returncode, p.stderr[-300:]))
    return out


def rustc_check(main, d, crates):
    return build.run(build.rustc_cmd(main, os.path.join(d, "x.rmeta"), crates, check_only=True), timeout=300)


def rs_errors(text):
    return re.findall(r"error(?:\[E\d+\])?: [^\n]*\n[^\n]*", text)[:3]


def c08_protocol(c, d, r, i):
    """random protocols: Rust on the full domain, TypeScript on the one it supports"""
    os.makedirs(d)
    if i < 2:
        s = schema.sink(i == 0)
        ts = i == 0
    else:
        ts = i % 2 == 0
        s = schema.Gen(r, max_ents=r.choice([1, 4, 12, 30]), depth=r.choice([1, 2, 4]), max_fields=r.choice([3, 7, 20]), ts=ts, same_names=i % 2 == 1).schema()
    text = s.text(r, r.choice(["plain", "random", "oneline"]))
    proj.write(d + "/p.prot", text)
    p = build.gen_protocol(d + "/p.prot", d + "/o.rs", d + "/o.ts" if ts else None)
    if not outputs.valid(c, p, s, None, "protocol"):
        return None
    data = dict(protocol=text)
    proj.write(d + "/types.rs", rs_types_program(s, d + "/o.rs"))
    p = rustc_check(d + "/types.rs", d, build.PROTO_CRATES)
    if p.returncode:
        c.violation("rust-types", "the Rust output does not declare what is described: %s" % rs_errors(p.stderr), dict(data, output=p.stderr[:4000]))
    else:
        c.ok("rs %s" % shape(s), sample="Rust: %d types as described" % len(s.messages()))
        c.seen("Rust types as described", len(s.messages()))
    if ts:
        proj.write(d + "/types.ts", ts_types_program(s, "./o"))
        # loads in a runtime
        proj.write(d + "/load.ts", 'import * as P from "./o";\nconst w: any = P;\n' + "".join(
            'if (typeof w.%s !== "function") { throw new Error("no class %s"); }\n' % (".".join(e.path), e.full()) for e in s.messages()) + 'console.log("loaded");\n')
        p = build.esbuild(d + "/load.ts", d + "/load.js")
        q = build.run(["node", d + "/load.js"], timeout=60) if p.returncode == 0 else p
        if q.returncode or "loaded" not in q.stdout:
            c.violation("ts-load", "the TypeScript output does not load: %s" % (q.stderr + q.stdout)[:800], data)
        else:
            c.ok("load %s" % shape(s))
            c.seen("TypeScript outputs loaded")
        return (d + "/types.ts", s, data)
    return None


def shape(s):
    return " ".join("%s%s" % (e.kind[0], "".join((f.ty.prim or f.ty.ref.kind)[0] + "?" * f.opt + "+" * f.rep for f in e.fields)) for e in s.messages())[:400]


def c08_workflow(c, d, r, i):
    t = gen.TARGETS[[0, 1, 4, 2, 3][i % 5]]
    s, f = gen.flow_for(r, t, ents=r.choice([5, 14, 25]))
    proj.make(d, s.text(), f.text())
    p = proj.generate(d)
    if not outputs.valid(c, p, s, f):
        return []
    return check_project(c, d, s, f, t)


def check_project(c, d, s, f, t, key=None):
    data = dict(protocol=s.text() if hasattr(s, "text") else s, workflow=f.text())
    files = []
    for side, tg, b in outputs.bases(f):
        if tg == "rust":
            proj.write(d + "/%s_main.rs" % side, '#[path = "%s/mod.rs"]\nmod %s;\nfn main() {}\n' % (os.path.join(d, b), side))
            p = rustc_check(d + "/%s_main.rs" % side, d, build.FLOW_CRATES)
            if p.returncode:
                c.violation(key or "rust-" + side, "the Rust %s does not compile: %s" % (side, rs_errors(p.stderr)), dict(data, output=p.stderr[:4000]))
            else:
                c.ok("rs %s %s" % (side, wshape(f)), sample="Rust %s of %d requests, %d events, %d beacons compiles" % (side, len(f.requests), len(f.events), len(f.beacons)))
                c.seen("Rust %ss compiled" % side)
        else:
            files.append((os.path.join(d, b, "index.ts"), side, f, data))
    return files


def wshape(f):
    return " ".join("".join("%s%s" % ("c" if a.conclusion else "r", "".join("?" if b.opt else "!" for b in a.bcasts)) for a in q.actions) for q in f.requests) + "|" + \
        " ".join("".join("?" if b.opt else "!" for b in e.bcasts) for e in f.events) + "|%d%s%s" % (len(f.beacons), bool(f.self_key), bool(f.assigned_key))


# descriptions the generator accepts although one of its outputs is not usable: known findings
TWINS = [("struct", "A", [("u8", "x")]), ("struct", "Y", [("A", "a")])]
PROBES = [
    ("rust-reserved-name", "rust", [("struct", "A", [("u8", "type")])]),
    ("rust-reserved-name", "rust", [("struct", "A", [("u8", "self")])]),
    ("rust-reserved-name", "rust", [("struct", "Self", [("u8", "a")])]),
    ("rust-reserved-name", "rust", [("group", "crate", [("struct", "A", [("u8", "a")])])]),
    ("rust-shadowed-name", "rust", [("struct", "String", [("u8", "a")]), ("struct", "B", [("str", "a")])]),
    ("rust-shadowed-name", "rust", [("struct", "Option", [("u8", "a")]), ("struct", "B", [("str", "a", "o")])]),
    ("rust-shadowed-name", "rust", [("struct", "Vec", [("u8", "a")]), ("struct", "B", [("str", "a", "r")])]),
    ("rust-shadowed-name", "rust", [("struct", "Buffer", [("u8", "a")])]),
    ("rust-shadowed-name", "rust", [("struct", "AvailableMessages", [("u8", "a")])]),
    ("rust-enum-defaults", "rust", [("enum", "E", [("str", "Defaults", "b")])]),
    ("rust-empty-enum", "rust", [("enum", "E", []), ("struct", "A", [("E", "e")])]),
    ("ts-reserved-name", "typescript", [("struct", "default", [("u8", "a")])]),
    ("ts-reserved-name", "typescript", [("struct", "A", [("u8", "constructor")])]),
    ("ts-reserved-name", "typescript", [("struct", "A", [("u8", "await")])]),
    ("ts-enum-repeated", "typescript", [("enum", "E", [("u8", "A"), ("str", "B")]), ("struct", "S", [("E", "e", "r")])]),
    # a type of the root whose name is taken again by a group: named inside that group, in full or
    # as part of the default value of another type
    ("rust-same-name", "rust", TWINS + [("group", "G", [("struct", "A", [("str", "y")]), ("struct", "X", [("Y", "y")])])]),
    ("rust-same-name", "rust", TWINS + [("group", "G", [("struct", "A", [("str", "y")]), ("group", "H", [("struct", "X", [("A", "a")])])])]),
    ("ts-same-name", "typescript", TWINS + [("group", "G", [("struct", "A", [("str", "y")]), ("struct", "X", [("Y", "y")])])]),
    ("ts-same-name", "typescript", TWINS + [("group", "G", [("struct", "A", [("str", "y")]), ("group", "H", [("struct", "X", [("A", "a")])])])]),
    # a group inside of a group of the same name
    ("rust-nested-same-name", "rust", [("group", "G", [("group", "G", [("struct", "A", [("u8", "x"), ("str", "y", "o")]), ("struct", "B", [("A", "a")])])])]),
    ("ts-nested-same-name", "typescript", [("group", "G", [("group", "G", [("struct", "A", [("u8", "x"), ("str", "y", "o")]), ("struct", "B", [("A", "a")])])])]),
    ("ts-enum-repeated-struct", "typescript", [("struct", "A", [("u8", "a")]), ("enum", "E", [("A", "X", "r")])]),
]


def c08_probe(c, d, k):
    key, target, desc = PROBES[k]
    s = schema.build_schema(desc)
    os.makedirs(d)
    proj.write(d + "/p.prot", s.text())
    rs, ts = target == "rust", target == "typescript"
    p = build.gen_protocol(d + "/p.prot", d + "/o.rs" if rs else None, d + "/o.ts" if ts else None)
    data = dict(protocol=s.text())
    if p.returncode:
        c.ok("probe refused %d" % k)
        return None
    if rs:
        proj.write(d + "/types.rs", rs_types_program(s, d + "/o.rs"))
        p = rustc_check(d + "/types.rs", d, build.PROTO_CRATES)
        if p.returncode:
            c.violation(key, "accepted, but the Rust output does not compile: %s" % rs_errors(p.stderr), data)
        else:
            c.ok("probe %d" % k)
        return None
    proj.write(d + "/types.ts", ts_types_program(s, "./o"))
    proj.write(d + "/load.ts", 'import * as P from "./o";\nconsole.log("loaded", Object.keys(P).length);\n')
    p = build.esbuild(d + "/load.ts", d + "/load.js")
    q = build.run(["node", d + "/load.js"], timeout=60) if p.returncode == 0 else p
    if q.returncode or "loaded" not in q.stdout:
        c.violation(key, "accepted, but the TypeScript output does not load: %s" % (q.stderr + q.stdout)[:500], data)
        return None
    return (d + "/types.ts", s, data, key)


WPROBES = [(k + x, gen.TARGETS[t]) for t, k in ((0, "rust-workflow-enum-"), (1, "ts-workflow-enum-")) for x in ("request", "answer", "broadcast", "beacon")]
# names of messages which differ, but not as names of files or identifiers of the generated code
CLASHES = [("case", "Ask", "ASK"), ("group", "User.Info", "UserInfo"), ("groups", "A.BC", "AB.C"), ("underscore", "G.a_b", "G.a.b")]
WPROBES += [("%s-workflow-clash-%s" % (n, k), gen.TARGETS[t], a, b, x) for t, n in ((0, "rust"), (1, "ts")) for k, a, b in CLASHES for x in ("request", "broadcast", "beacon", "event")]


def clash_flow(a, b, what):
    """A workflow with both messages in the same role."""
    tree = {}
    for n in (a, b):
        t = tree
        for g in n.split(".")[:-1]:
            t = t.setdefault(g, {})
        t[n.split(".")[-1]] = None

    def items(t):
        return [("struct", n, [("u8", "a")]) if x is None else ("group", n, items(x)) for n, x in t.items()]
    s = schema.build_schema(items(tree) + [("struct", n, [("u8", "x")]) for n in ("Q", "Err", "Ans", "B", "C")])
    f = flow.Flow(s)
    pair = [a, b]
    f.requests = [flow.Request(q, "Err", [flow.Action(None, "Ans", [])]) for q in (pair if what == "request" else ["Q"])]
    if what == "broadcast":
        f.requests = [flow.Request("Q", "Err", [flow.Action("Yes", "Ans", [flow.Bcast(x) for x in pair])])]
    f.events = [flow.Event(x, [flow.Bcast("B")]) for x in pair] if what == "event" else []
    f.beacons = pair if what == "beacon" else ["C"]
    return s, f


def enum_flow(key):
    s = schema.build_schema([("struct", "A", [("u8", "a")]), ("enum", "E", [("u8", "X"), ("str", "Y")]), ("struct", "Err", []), ("struct", "B", [("u8", "b")]), ("struct", "C", [("u8", "c")]), ("struct", "Y", [("u8", "y")]), ("struct", "Z", [("u8", "z")])])
    f = flow.Flow(s)
    what = key.split("-")[-1]
    req = "E" if what == "request" else "A"
    ans = "E" if what == "answer" else "Z"
    bc = [flow.Bcast("E" if what == "broadcast" else "B")]
    f.requests = [flow.Request(req, "Err", [flow.Action("Yes", ans, bc), flow.Action("No", "Y", [])])]
    f.beacons = ["E" if what == "beacon" else "C"]
    return s, f


def c08_wprobe(c, d, k):
    key, t = WPROBES[k][:2]
    s, f = clash_flow(*WPROBES[k][2:]) if WPROBES[k][2:] else enum_flow(key)
    f.producer, f.consumer = list(t[0]), list(t[1])
    proj.make(d, s.text(), f.text())
    p = proj.generate(d)
    if p.returncode:
        c.ok("wprobe refused %d" % k)
        return []
    return [x + (key,) for x in check_project(c, d, s, f, t, key=key)]


def c08(c):
    with build.Scratch("C08") as d:
        n, m = c.pick(26, 240), c.pick(13, 120)
        jobs = [("p", i) for i in range(n)] + [("w", i) for i in range(m)] + [("probe", k) for k in range(len(PROBES))] + [("wprobe", k) for k in range(len(WPROBES))]
        jobs.sort(key=lambda x: x[0] == "p")

        def one(j):
            k, i = j
            dd = os.path.join(d, "%s%d" % j)
            if k == "p":
                return k, c08_protocol(c, dd, c.rng("p", i), i)
            if k == "w":
                return k, c08_workflow(c, dd, c.rng("w", i), i)
            if k == "probe":
                return k, c08_probe(c, dd, i)
            return k, c08_wprobe(c, dd, i)
        res = pmap(one, jobs, 8)
        files = {}
        for k, x in res:
            if x is None:
                continue
            for y in ([x] if k in ("p", "probe") else x):
                files[os.path.normpath(y[0])] = (k, y)
        # the type checker, some files at a time
        names = sorted(files)
        chunks = [names[i::6] for i in range(6)] if c.thorough else [names[i::4] for i in range(4)]

        def root_of(e, l):
            x = next((n for n in l if e[0] == n or e[0].startswith(os.path.dirname(n) + "/")), None)
            if x is None:
                raise HarnessError("tsc error outside of the generated files: %s" % (e,))
            return x

        def tsc(j):
            dd = os.path.join(d, "tsc%d" % j)
            os.makedirs(dd)
            l, out = list(chunks[j]), []
            while l:
                errs = tsc_project(dd, l)
                # syntax errors stop the compiler before it checks any type: go on without those files
                syn = {root_of(e, l) for e in errs if re.match(r"TS1\d\d\d$", e[2])}
                if not syn:
                    return out + errs
                out += [e for e in errs if root_of(e, l) in syn]
                l = [n for n in l if n not in syn]
            return out
        errs = [e for l in pmap(tsc, range(len(chunks)), 4) for e in l]
        blamed = {}
        for e in errs:
            blamed.setdefault(root_of(e, names), []).append(e)
        for n in names:
            k, y = files[n]
            if n in blamed:
                e = blamed[n][:4]
                key = y[-1] if k in ("probe", "wprobe") else "ts-types" if k == "p" else "ts-" + y[1]
                data = y[2] if k in ("p", "probe") else y[3]
                line = ""
                try:
                    line = open(e[0][0]).read().split("\n")[e[0][1] - 1].strip()
                except Exception:
                    pass
                c.violation(key, "the TypeScript output does not type check as described: %s; at: %s" % ([(os.path.basename(x[0]),) + x[1:] for x in e], line[:200]), data)
            else:
                c.ok("tsc %s %s" % (k, shape(y[1]) if k in ("p", "probe") else y[1] + wshape(y[2])), sample="TypeScript %s type checks" % ("types" if k == "p" else y[1] if k == "w" else "probe"))
                c.seen("TypeScript programs type checked")

