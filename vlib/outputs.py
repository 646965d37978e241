"""Monitors over what the generator leaves on disk: C10, C11, C12 (fingerprints), C23."""
import copy, json, os, random, re, shutil, tomllib
from . import build, flow, gen, proj, schema
from .build import HarnessError
from .mon import pmap

TG = {"rust": "rust", "typescript": "typescript"}


def valid(c, p, s, f, what="workflow"):
    if p.returncode or "[OK]" not in p.stdout:
        c.violation("valid-refused", "a correct %s is refused: status %s %s" % (what, p.returncode, (p.stdout + p.stderr)[-400:]),
                    dict(protocol=s.text(), workflow=f.text() if f else None))
        return False
    return True


# ---------------------------------------------------------------- C10
def bases(f):
    """[(side, target, directory of the output below the project)]"""
    o = []
    for side, ts in (("consumer", f.consumer), ("producer", f.producer)):
        for t in ts:
            o.append((side, t, "%s/src/%s" % (side, side) + ("/" + t if len(ts) > 1 else "")))
    return o


USER = {
    ("consumer", "rust"): r"(broadcasts|events)/(?!mod\.rs$)[^/]+\.rs|context\.rs",
    ("producer", "rust"): r"(beacons|events|responses)/(?!mod\.rs$)[^/]+\.rs|context\.rs",
    ("producer", "typescript"): r"(beacons|events|responses)/[^/]+\.ts|context\.ts",
    ("consumer", "typescript"): r"(?!)",
}


def user_owned(rel, bs):
    for side, t, b in bs:
        if rel.startswith(b + "/") and re.fullmatch(USER[side, t], rel[len(b) + 1:]):
            return True
    return False


EDITS = ["append", "replace", "empty", "crlf", "bytes", "prepend", "letter", "letter", "shuffled"]


def edit(r, data):
    k = r.choice(EDITS)
    if k == "append":
        return data + b"\n// my code %d\nfn mine() {}\n" % r.randrange(10**6)
    if k == "prepend":
        return b"// mine %d\n" % r.randrange(10**6) + data
    if k == "replace":
        return b"pub struct Mine%d { a: u8 }\n" % r.randrange(10**6)
    if k == "empty":
        return b""
    if k == "letter" and data:
        # same length, one character changed
        i = r.randrange(len(data))
        return data[:i] + (b"x" if data[i:i + 1] != b"x" else b"y") + data[i + 1:]
    if k == "shuffled" and data:
        # same characters in another order
        l = data.split(b"\n")
        r.shuffle(l)
        o = b"\n".join(l)
        return o if o != data else data[::-1] + b"z"
    if k == "crlf":
        return data.replace(b"\n", b"\r\n") + b"\t \r\n"
    return data + bytes(r.randrange(256) for _ in range(40))


STRAY = ["notes.md", "mine.rs", "mine.ts", "events/mine.rs", "events/mine.ts", "responses/helper.rs", "responses/helper.ts", "beacons/own.rs",
         "broadcasts/own.rs", "own/deep/file.rs", "mod.rs.bak", ".hidden", "implementation/notes.txt", "types.d.ts", "data.bin"]
OUTSIDE = ["README.md", "consumer/src/main.rs", "consumer/src/main.ts", "consumer/build.rs", "producer/src/main.rs", "producer/tests/a.rs", "src/consumer/mod.rs",
           "consumer/src/consumer.rs", "producer/src/producer2/mod.rs", "consumer/.env", "producer/tsconfig.json", "o.rs", "o.ts",
           "Cargo.toml", "package.json", "src/package.json"]


def manifest_kept(before, after, fresh, kind):
    """the generator may set its own dependencies and nothing else"""
    if kind == "toml":
        b, a, f = [tomllib.loads(x.decode()) for x in (before, after, fresh)]
    else:
        b, a, f = [json.loads(x.decode()) for x in (before, after, fresh)]
    want = copy.deepcopy(b)
    want.setdefault("dependencies", {})
    for k, v in f.get("dependencies", {}).items():
        want["dependencies"][k] = v
    a.setdefault("dependencies", {})
    return a == want or a == b and all(k in b.get("dependencies", {}) for k in f.get("dependencies", {}))


CRATES = ["serde", "serde_json", "rand", "log", "hex", "uuid-x", "bytes", "tokio", "futures", "async-trait", "clap", "regex", "zz-last", "aaa", "clibri", "toml", "url", "http", "base64", "time"]


def user_cargo(r, x):
    o = '[package]\nname = "%s"\nversion = "0.%d.0"\nedition = "2018"\nauthors = ["A <a@b.c>"]\n' % (x, r.randrange(9))
    o += r.choice(["", '\n[package.metadata.docs]\nall = true\nlist = [1, 2]\n'])
    o += r.choice(["", '\n[lib]\npath = "src/own.rs"\n\n[[bin]]\nname = "one"\npath = "a.rs"\n\n[[bin]]\nname = "two"\npath = "b.rs"\n'])
    l = r.sample(CRATES, r.choice([0, 1, 2, 6, 14, 20]))
    if l or r.random() < 0.5:
        o += "\n[dependencies]\n" + "".join(n + " = " + r.choice(['"1.0"', '{ version = "1.0.0", features = ["rt"] }', '{ path = "../%s", optional = true }' % n, '"=0.1.2"']) + "\n" for n in l)
    o += r.choice(["", '\n[dependencies.extra]\nversion = "2"\ndefault-features = false\n' if l else ""])
    o += r.choice(["", '\n[features]\nown = []\n', '\n[features]\ndefault = ["own"]\nown = []\n\n[workspace]\n'])
    o += r.choice(["", '\n[dev-dependencies]\nrand = "0.8"\ntokio = "0.2"\n', "\n[target.'cfg(unix)'.dependencies]\ntokio = \"1\"\n", '\n[profile.release]\nlto = true\nopt-level = 3\n'])
    return o


def user_package(r, x):
    o = {"name": x, "version": "1.%d.3" % r.randrange(9)}
    for k, v in (("scripts", {"build": "tsc", "a \"b\"": "x && y"}), ("private", True), ("keywords", ["a", "b"]), ("devDependencies", {"x": "2", "typescript": "^4"}),
                 ("dependencies", {n: "1.0.%d" % r.randrange(9) for n in r.sample(["lodash", "uuid", "aaa", "zzz", "ws", "@scope/name", "clibri"], r.randrange(8))}),
                 ("peerDependencies", {"uuid": "1"}), ("engines", {"node": ">=10.0"}), ("own", {"deep": [1, 2.5, None, {"x": "\u00e9"}]}), ("dependencies2", {})):
        if r.random() < 0.6:
            o[k] = v
    return json.dumps(o, indent=r.choice([None, 2, 4]))


def c10_history(c, d, r, i):
    t = gen.TARGETS[i % len(gen.TARGETS)]
    s, f = gen.flow_for(r, t, ents=r.choice([8, 14]))
    P = os.path.join(d, "project")
    proj.make(P, s.text(), f.text())
    # what the user has before the first run, inside and outside of the destinations
    for x in OUTSIDE:
        if r.random() < 0.5:
            proj.write(P + "/" + x, '[workspace]\nmembers = ["consumer", "producer"]\n' if x.endswith("toml") else '{"name": "root", "workspaces": ["consumer"]}' if x.endswith("json") else "user %d\n" % r.randrange(10**6))
    deps = 0
    if r.random() < 0.7:
        deps = 1
        for x in ("consumer", "producer"):
            proj.write(P + "/%s/Cargo.toml" % x, user_cargo(r, x))
            proj.write(P + "/%s/package.json" % x, user_package(r, x))
    log = []
    owned_before = set()
    gen_owned = set()
    steps = r.randint(3, 5)
    for step in range(steps):
        bs = bases(f)
        cur = proj.tree(P)
        if step:
            n = 0
            for k in sorted(cur):
                # edit files of the user, damage files of the generator
                if k in ("p.prot", "p.workflow") or k.endswith((".toml", "package.json")):
                    continue
                if r.random() < 0.45:
                    proj.write(P + "/" + k, edit(r, cur[k]))
                    n += 1
                elif k in gen_owned and r.random() < 0.2:
                    os.unlink(P + "/" + k)
                elif user_owned(k, bs) and r.random() < 0.1:
                    os.unlink(P + "/" + k)
            log.append("step %d: %d files edited" % (step, n))
        for side, tg, b in bs:
            for x in STRAY:
                if r.random() < 0.15:
                    proj.write("%s/%s/%s" % (P, b, x), edit(r, b"own\n"))
        if step and r.random() < 0.8:
            # the description changes: other requests, events, beacons; messages are added at the end
            if r.random() < 0.4:
                f2 = flow.FlowGen(r, s, keys=(f.self_key, f.assigned_key)).flow()
                f2.producer, f2.consumer = f.producer, f.consumer
                f = f2
            else:
                f = copy.deepcopy(f)
                for l in (f.requests, f.events, f.beacons):
                    if l and r.random() < 0.4:
                        l.pop(r.randrange(len(l)))
                    r.shuffle(l)
            if r.random() < 0.25:
                t = r.choice(gen.TARGETS)
                f.producer, f.consumer = list(t[0]), list(t[1])
            log.append("step %d: description changed" % step)
        proj.write(P + "/p.prot", s.text())
        proj.write(P + "/p.workflow", f.text())
        bs = bases(f)
        before = proj.tree(P)
        out_before = proj.tree(d)
        p = proj.generate(P)
        data = dict(protocol=s.text(), workflow=f.text(), history=list(log), step=step)
        if not valid(c, p, s, f):
            return
        F = os.path.join(d, "fresh%d" % step)
        proj.make(F, s.text(), f.text())
        pf = proj.generate(F)
        if not valid(c, pf, s, f):
            return
        fresh, after = proj.tree(F), proj.tree(P)
        shutil.rmtree(F)
        skel = {"consumer/Cargo.toml", "consumer/package.json", "producer/Cargo.toml", "producer/package.json", "p.prot", "p.workflow"}
        for k in sorted(set(before) | set(after) | set(fresh)):
            b, a, fr = before.get(k), after.get(k), fresh.get(k)
            mine = user_owned(k, bs)
            kind = re.sub(r"[^a-z]+", "-", "-".join(k.split("/")[:1] + k.split("/")[3:-1]).lower()) or "root"
            if k in ("p.prot", "p.workflow"):
                good, why = a == b, "description changed"
            elif k in skel:
                try:
                    good = a is not None and manifest_kept(b, a, fr, "toml" if k.endswith("toml") else "json")
                except Exception as e:
                    good = False
                why = "manifest %s: entries of the user changed or dependencies missing: %s" % (k, (a or b"")[:600].decode("utf8", "replace"))
            elif fr is not None and mine:
                good = a == (b if b is not None else fr)
                why = "%s belongs to the user and %s" % (k, "was changed" if a is not None else "was removed") if b is not None else "%s is not created as in a new project" % k
            elif fr is not None:
                good, why = a == fr, "%s belongs to the generator and is not brought up to date" % k
            elif b is None:
                good, why = False, "%s was created although it is not part of the output" % k
            elif k in gen_owned and not mine and k in owned_before and b == owned_before_content.get(k):
                good, why = a is None or a == b, "%s (stale) was changed" % k
            else:
                good, why = a == b, "%s does not belong to the generator and was %s" % (k, "changed" if a is not None else "removed")
            if not good:
                c.violation("%s-%s" % ("user" if mine else "manifest" if k in skel else "file", kind), why + " (step %d)" % step, data)
            else:
                c.seen("files of the user compared" if mine and b is not None else "manifests compared" if k in skel else "files of the generator compared" if fr is not None else "other files compared")
        for k, v in out_before.items():
            if not k.startswith("project/") and proj.read(os.path.join(d, k)) != v:
                c.violation("outside", "%s outside of the project changed" % k, data)
        gen_owned |= {k for k in fresh if not user_owned(k, bs) and k not in skel}
        owned_before = set(fresh)
        owned_before_content = after
        c.ok("%s %d %s %s" % (t, step, len(f.requests), len(f.events)), sample="; ".join(log[-3:]) or "first run")
    c.seen("histories")


def c10_protocol(c, d, r, i):
    """-rs, -ts and -d outputs: overwritten only with -o"""
    s, f = gen.flow_for(r, gen.TARGETS[0])
    proj.make(d, s.text(), f.text())
    cl = build.cli()
    ref = {}
    p = build.run([cl, "-s", "p.prot", "-rs", "ref/o.rs", "-ts", "ref/o.ts", "-o"], cwd=d, timeout=30)
    os.makedirs(d + "/ref", exist_ok=True)
    for name, cmd in [("rs", ["-rs", "o.rs"]), ("ts", ["-ts", "o.ts"]), ("both", ["-rs", "o.rs", "-ts", "o.ts"]), ("rs-existing", ["-rs", "o.rs", "-ts", "n.ts"]),
                      ("ts-existing", ["-rs", "n.rs", "-ts", "o.ts"]), ("em", ["-rs", "o.rs", "-ts", "o.ts", "--em"]), ("diagram", ["-wf", "p.workflow", "-d", "o.puml"]),
                      ("workflow", ["-wf", "p.workflow", "-cd", "consumer/src/consumer", "-pd", "producer/src/producer", "-rs", "o.rs", "-ts", "o.ts"])]:
        for x in ("n.rs", "n.ts"):
            if os.path.exists(d + "/" + x):
                os.unlink(d + "/" + x)
        own = {x: edit(r, b"// text of the user\n") for x in ("o.rs", "o.ts", "o.puml")}
        for x, v in own.items():
            proj.write(d + "/" + x, v)
        before = proj.tree(d)
        p = build.run([cl, "-s", "p.prot"] + cmd, cwd=d, timeout=30)
        after = proj.tree(d)
        for x, v in own.items():
            if after.get(x) != v:
                c.violation("overwrite-" + name, "%s is overwritten without the overwrite option (%s)" % (x, " ".join(cmd)), dict(protocol=s.text(), workflow=f.text(), command=cmd))
            else:
                c.seen("existing outputs kept")
        for k in before:
            if not k.startswith(("consumer/", "producer/")) and before[k] != after.get(k):
                c.violation("outside-" + name, "%s changed by %s" % (k, " ".join(cmd)), dict(command=cmd))
        # with the option exactly the named files change
        p = build.run([cl, "-s", "p.prot"] + cmd + ["-o"], cwd=d, timeout=30)
        after2 = proj.tree(d)
        if p.returncode:
            c.violation("overwrite-fails-" + name, "with the overwrite option: status %s %s" % (p.returncode, (p.stdout + p.stderr)[-300:]), dict(command=cmd))
            continue
        named = {cmd[j + 1] for j in range(len(cmd) - 1) if cmd[j] in ("-rs", "-ts", "-d")}
        for x in after2:
            if x in named and after2[x] == own.get(x):
                c.violation("not-overwritten-" + name, "%s is not brought up to date with the overwrite option" % x, dict(command=cmd))
            if x not in named and not x.startswith(("consumer/", "producer/")) and after2[x] != before.get(x) and x not in ("n.rs", "n.ts"):
                c.violation("other-" + name, "%s changed although not named by %s" % (x, " ".join(cmd)), dict(command=cmd))
        c.ok("overwrite %s %d" % (name, i % 3), sample="%s kept without -o" % " ".join(cmd))


def c10(c):
    with build.Scratch("C10") as d:
        pmap(lambda i: c10_history(c, os.path.join(d, "h%d" % i), c.rng("h", i), i), range(c.pick(40, 500)), 8)
        pmap(lambda i: c10_protocol(c, os.path.join(d, "o%d" % i), c.rng("o", i), i), range(c.pick(6, 60)), 8)


# ---------------------------------------------------------------- C11
HEX = re.compile(rb"\b[0-9A-Fa-f]{64}\b")


def norm(t):
    return {k: HEX.sub(b"FINGERPRINT", v) for k, v in t.items()}


def outputs(d):
    t = proj.tree(d)
    return {k: v for k, v in t.items() if k not in ("p.prot", "p.workflow")}


ENVS = [{}, {"TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8", "LC_ALL": "C"}, {"HOME": "/nonexistent", "COLUMNS": "20", "RUST_BACKTRACE": "1"}]


def full(d, r, absolute=False, extra_env=None, prot="p.prot", wf="p.workflow"):
    """everything the generator can write, into d"""
    pre = d + "/" if absolute else ""
    cl = build.cli()
    out = []
    for cmd in (["-s", pre + prot, "-wf", pre + wf, "-cd", pre + "consumer/src/consumer", "-pd", pre + "producer/src/producer"],
                ["-s", pre + prot, "-rs", pre + "o.rs", "-ts", pre + "o.ts", "-o"],
                ["-s", pre + prot, "-rs", pre + "em.rs", "-ts", pre + "em.ts", "--em", "-o"],
                ["-s", pre + prot, "-wf", pre + wf, "-d", pre + "o.puml", "-o"]):
        out.append(build.run([cl] + cmd, cwd="/tmp" if absolute else d, timeout=60, extra_env=extra_env))
    return out


def c11_case(c, d, r, i):
    t = gen.TARGETS[i % len(gen.TARGETS)]
    s, f = gen.flow_for(r, t, ents=r.choice([6, 14, 30]))
    data = dict(protocol=s.text(), workflow=f.text())

    def make(name, st, ft, **kw):
        D = os.path.join(d, name)
        proj.make(D, st, ft)
        for p in full(D, r, **kw):
            if not valid(c, p, s, f):
                return None
        return outputs(D)
    a = make("a", s.text(), f.text())
    if a is None:
        return
    # again into the same place, in another process environment
    for k in range(2):
        for p in full(os.path.join(d, "a"), r, extra_env=r.choice(ENVS)):
            if not valid(c, p, s, f):
                return
        a2 = outputs(os.path.join(d, "a"))
        if a2 != a:
            c.violation("rerun", "a repeated run into the same place: %s" % proj.diff(a, a2), data)
        else:
            c.ok("rerun %s %s" % (t, len(a)), sample="repeated run of %s, %d files identical" % (t, len(a)))
            c.seen("files compared", len(a))
    # another directory, absolute paths, another environment
    for k in range(2):
        b = make("somewhere else/b%d" % k, s.text(), f.text(), absolute=k == 0, extra_env=r.choice(ENVS))
        if b is None:
            return
        if b != a:
            c.violation("elsewhere", "the same descriptions in another directory: %s" % proj.diff(a, b), data)
        else:
            c.ok("elsewhere %s %s" % (t, k))
            c.seen("files compared", len(a))
    # other layout of the descriptions
    na = norm(a)
    for k, (ps, fs) in enumerate([("random", "plain"), ("plain", "random"), ("oneline", "oneline"), ("random", "random")]):
        pt, ft = s.text(r, ps), f.text(r, fs, comments=fs == "random")
        if ps == "random":
            pt = r.choice(["", "\n", "  \t", "\r\n\n"]) + pt + r.choice(["", "\n\n", " "])
        if fs == "random":
            ft = r.choice(["", "\n", "  \t", "\r\n\n"]) + ft + r.choice(["", "\n\n", " "])
        b = make("l%d" % k, pt, ft)
        if b is None:
            return
        nb = norm(b)
        if nb != na:
            c.violation("layout-%s-%s" % (ps, fs), "the same descriptions in another layout: %s" % proj.diff(na, nb), dict(data, protocol2=pt, workflow2=ft))
        else:
            c.ok("layout %s %s %s %d" % (ps, fs, t, len(s.messages())), sample="layout %s/%s: only fingerprints differ" % (ps, fs))
            c.seen("files compared up to fingerprints", len(a))
    shutil.rmtree(d, ignore_errors=True)


def c11(c):
    with build.Scratch("C11") as d:
        pmap(lambda i: c11_case(c, os.path.join(d, "d%d" % i), c.rng(i), i), range(c.pick(30, 500)), 8)


# ---------------------------------------------------------------- C23
ARROW = re.compile(r"^\s*(\S+)\s+(\S*-\S*>\S*)\s+(\S+)\s*:\s*(.*?)\s*$")


def parse_diagram(text):
    """[(group title, [('==', title) | (from, to, label, is error)])]"""
    if not re.search(r"@startuml", text) or not re.search(r"@enduml", text):
        return None
    out, cur = [], None
    for l in text.split("\n"):
        x = l.strip()
        m = re.match(r"^group\s+(.*)$", x)
        if m:
            if cur is not None:
                return None
            cur = (m.group(1).strip(), [])
            continue
        if x == "end":
            if cur is None:
                return None
            out.append(cur)
            cur = None
            continue
        m = re.match(r"^==\s*(.*?)\s*==$", x)
        if m:
            if cur is None:
                return None
            cur[1].append(("==", m.group(1)))
            continue
        m = ARROW.match(l)
        if m:
            if cur is None:
                return None
            lab = re.sub(r"<[^>]*>", "", m.group(4)).strip()
            cur[1].append((m.group(1), m.group(3), lab, "x" in m.group(2) or "<font" in m.group(4)))
    return out if cur is None else None


def expected_diagram(f):
    out = []
    for q in f.requests:
        b = [("Consumer", "Producer", q.ref, False), ("Producer", "Consumer", q.err, True)]
        for a in q.actions:
            if a.conclusion:
                b.append(("==", a.conclusion))
            b.append(("Producer", "Consumer", a.response, False))
            b += [("Producer", "Consumers", x.ref, False) for x in a.bcasts]
        out.append(("request", q.ref, b))
    for e in f.events:
        out.append(("event", e.ref, [("Producer", "Producer", e.ref, False)] + [("Producer", "Consumer", x.ref, False) for x in e.bcasts]))
    out.append(("beacons", "", [("Consumer", "Producer", "Connected Event", False), ("Consumer", "Producer", "Disconnected Event", False)] +
                [("Consumer", "Producer", x, False) for x in f.beacons]))
    return out


def sections(b):
    """order inside of a group: head, then one section per conclusion; within a section the order is free"""
    out = [("", [])]
    for x in b:
        if x[0] == "==":
            out.append((x[1], []))
        else:
            out[-1][1].append(("Consumer" if x[0] == "Consumers" else x[0], x[1].rstrip("s"), x[2], x[3]))
    if len(out) == 2:
        # a single conclusion needs no section of its own
        out = [("", out[0][1] + out[1][1])]
    return sorted((n, sorted(l)) for n, l in out)


def c23_case(c, d, r, i):
    s, f = gen.flow_for(r, gen.TARGETS[i % len(gen.TARGETS)], ents=r.choice([6, 14, 30]), enums=r.random() < 0.5, max_req=r.choice([3, 9]), max_ev=r.choice([2, 6]), max_be=r.choice([2, 7, 40]), hi=r.choice([4, 4, 4, 40]))
    proj.make(d, s.text(), f.text())
    cmd = [build.cli(), "-s", "p.prot", "-wf", "p.workflow", "-d", "o.puml"]
    if i % 3 == 1:
        proj.write(d + "/o.puml", "previous diagram\ngroup x\nend\n")
        cmd.append("-o")
    p = build.run(cmd, cwd=d, timeout=30)
    data = dict(protocol=s.text(), workflow=f.text())
    if not valid(c, p, s, f):
        return
    if not os.path.exists(d + "/o.puml"):
        c.violation("no-diagram", "no diagram is written", data)
        return
    text = proj.read(d + "/o.puml").decode()
    data["diagram"] = text
    got = parse_diagram(text)
    if got is None:
        c.violation("diagram-syntax", "the diagram is not well formed", data)
        return
    want = [(k, n, sections(b)) for k, n, b in expected_diagram(f)]
    left = [(t, sections(b)) for t, b in got]
    for k, n, b in want:
        hit = next((g for g in left if g[1] == b and (k == "beacons" or g[0].replace(".", "") == n.replace(".", ""))), None)
        if hit is None:
            c.violation("%s-differs" % k, "%s %s of the workflow is not shown as described: expected %s, diagram %s" % (
                k, n, b, [g for g in left if g[0].replace(".", "") == n.replace(".", "")] or [g[0] for g in left]), data)
            continue
        left.remove(hit)
        c.ok("%s %s" % (k, [(x != "", len(y)) for x, y in b]), sample="%s %s: %d arrows" % (k, n, sum(len(y) for x, y in b)))
        c.seen("%s shown" % k)
    if left:
        c.violation("not-described", "the diagram shows what is not described: %s" % left[:3], data)


def c23(c):
    with build.Scratch("C23") as d:
        pmap(lambda i: c23_case(c, os.path.join(d, "d%d" % i), c.rng(i), i), range(c.pick(300, 6000)), 8)
