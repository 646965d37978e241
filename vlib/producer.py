"""Workloads for the generated Rust producer and the checks C13 - C17 (and the running half of C12)."""
import hashlib, json, os, random, re
from . import build, flow, gen, pmodel, proj, rsprod, schema, wire
from .build import HarnessError
from .mon import pmap

IDENT = ["Log", "EmitError", "Disconnect", "EmitErrorAndDisconnect", "Ignore"]
ERRS = ["EmitError", "Disconnect", "EmitErrorAndDisconnect", "Log"]


def fingerprints(d):
    return [hashlib.sha256(proj.read(os.path.join(d, x))).hexdigest().upper() for x in ("p.prot", "p.workflow")]


BASE = dict(conns=(1, 5), msgs=(1, 6), hs=0.2, garbage=0.06, disc=0.3, fault=0.0, gate=0.12, ops=0.2, ctl=0.0, plus=0.35, shutdown=0.15,
            emit=0.15, early=0.05, assign=0.5, ident="mix", errs="mix", auto=0.5, whole=0.3, hashes=False)
FOCUS = {
    "C12": dict(BASE, hs=0.9, hashes=True, msgs=(1, 3), garbage=0.0),
    "C13": dict(BASE, hs=0.65, early=0.2, msgs=(1, 5)),
    "C14": dict(BASE, hs=0.05, msgs=(3, 9), garbage=0.03, ident="serve", gate=0.2),
    "C15": dict(BASE, hs=0.15, fault=0.5, garbage=0.2, disc=0.5),
    "C16": dict(BASE, hs=0.3, ops=0.55, ident="all", msgs=(2, 7), assign=0.6),
    "C17": dict(BASE, hs=0.05, ctl=0.6, emit=0.6, shutdown=0.6, gate=0.25, ident="serve"),
}


# few long cases: many connections at once, a long history of one connection, many connections one after the other
LONG = [dict(conns=(20, 70), msgs=(1, 3), plus=0.1, whole=0.7, gate=0.03, disc=0.15, garbage=0.01, hs=0.05, early=0.0, auto=1.0),
        dict(conns=(1, 3), msgs=(100, 420), plus=0.1, whole=0.6, gate=0.01, garbage=0.01, hs=0.0, disc=0.05, early=0.0, runs=(1, 5, 20, 150)),
        dict(conns=(120, 300), msgs=(1, 1), plus=0.05, whole=1.0, gate=0.0, disc=1.0, garbage=0.0, hs=0.1, early=0.0, auto=1.0, serial=True),
        dict(conns=(258, 300), msgs=(1, 1), plus=0.02, whole=1.0, gate=0.0, disc=0.05, garbage=0.0, hs=0.02, early=0.0, auto=1.0)]


def uuids_txt(us):
    return ",".join(map(str, us)) if us else "-"


class Work:
    def __init__(self, r, sp, hashes, fo):
        self.r, self.sp, self.h, self.fo = r, sp, hashes, fo
        self.gates = 0
        self.vops = {}
        self.n = r.randint(*fo["conns"])
        self.used = {}

    def value(self, ref):
        e = self.sp.find(ref)
        return wire.rand_ent(self.r, e)

    def toks(self, ref):
        return wire.toks(self.sp.find(ref), self.value(ref))

    def pack(self, ref, v=None, seq=None):
        e = self.sp.find(ref)
        return wire.package(e, self.value(ref) if v is None else v, self.r.choice([0, 1, 2, 7, 7, 2**32 - 1, self.r.getrandbits(32)]) if seq is None else seq,
                            self.r.getrandbits(40))

    def bad_hash(self):
        r = self.r
        a, b = self.h
        k = r.randrange(9)
        def flip(x):
            i = r.randrange(len(x))
            return x[:i] + r.choice([c for c in "0123456789ABCDEF" if c != x[i]]) + x[i + 1:]
        return [(flip(a), b), (a, flip(b)), (b, a), (a, ""), ("", b), (a.lower(), b), (a, b + " "), (a[:-1], b), (a, a)][k]

    def garbage(self):
        r, sp = self.r, self.sp
        k = r.randrange(4)
        e = r.choice(sp.ws.messages())
        b = wire.enc_ent(e, self.value(e.full()))
        if k == 0:
            bad = max(sp.byid) + r.randint(1, 9)
            return wire.header(bad, r.getrandbits(16), 0, len(b)) + b
        if k == 1:
            return wire.header(e.id, 3, 0, len(b), r.choice([1, 7, 65535])) + b
        for _ in range(20):
            e = r.choice([x for x in sp.ws.messages() if x.kind == "struct"])
            b = wire.enc_ent(e, self.value(e.full()))
            b = b[:r.randrange(len(b))] if b else b
            try:
                wire.dec_ent(e, b)
            except wire.Bad:
                return wire.header(e.id, 5, 0, len(b)) + b
        return wire.header(max(sp.byid) + 1, 0, 0, 0)

    def script(self, u):
        """the messages connection u sends"""
        r, sp, fo = self.r, self.sp, self.fo
        work = list(sp.req) * 3 + list(sp.bea) * 2
        other = [e.full() for e in sp.ws.messages()]

        def msgs(n):
            o = []
            for _ in range(n):
                ref = r.choice(work) if work and r.random() < 0.93 else r.choice(other)
                o.append(self.pack(ref))
                self.used[ref] = self.used.get(ref, 0) + 1
            return o

        def key():
            return [self.pack(sp.k)]

        def hsh(ok=True):
            a, b = self.h if ok else self.bad_hash()
            return [self.pack(sp.HashRequest, [a, b])]
        n = r.randint(*fo["msgs"])
        if r.random() >= fo["hs"]:
            o = key() + hsh() + msgs(n)
        else:
            k = r.randrange(10) if not fo["hashes"] else r.choice([2, 2, 2, 4, 8, 9])
            if k == 0:
                o = hsh() + msgs(n)
            elif k == 1:
                o = key() + msgs(n)
            elif k == 2:
                o = key() + hsh(False) + (hsh() if r.random() < 0.5 else []) + msgs(n)
            elif k == 3:
                o = msgs(n)
            elif k == 4:
                o = key() + hsh() + msgs(n) + hsh(False) + msgs(2)
            elif k == 5:
                o = key() + key() + hsh() + msgs(n) + key() + msgs(1)
            elif k == 6:
                o = hsh() + key() + msgs(n)
            elif k == 7:
                o = key() + hsh() + msgs(1) + hsh() + msgs(n)
            elif k == 8:
                o = hsh(False) + key() + hsh() + msgs(n)
            else:
                o = key() + hsh() + hsh(r.random() < 0.6) + msgs(n)
            if r.random() < 0.15:
                r.shuffle(o)
        out = []
        for x in o:
            if r.random() < fo["garbage"]:
                out.append(self.garbage())
            out.append(x)
        return out

    def chunks(self, script):
        r = self.r
        if r.random() < self.fo["whole"]:
            # whole messages, several per chunk
            out, i = [], 0
            while i < len(script):
                n = r.choice(self.fo.get("runs", (1, 1, 2, 3, 5, 20)))
                out.append(b"".join(script[i:i + n]))
                i += n
            return out
        s = b"".join(script)
        k = r.choice([0, len(script), 2 * len(script), 3])
        cuts = sorted({r.randrange(1, len(s)) for _ in range(k)}) if len(s) > 1 else []
        out = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
        if r.random() < 0.1:
            out.insert(r.randint(0, len(out)), b"")
        if r.random() < 0.15:
            out = out[:-1]
        return out

    def who(self):
        r = self.r
        us = list(range(1, self.n + 1)) + ([77] if r.random() < 0.2 else [])
        r.shuffle(us)
        return us[:r.randint(0, len(us))]

    def bcasts(self, bs):
        o = []
        for b in bs:
            if b.opt and self.r.random() < 0.35:
                o.append("N")
                continue
            if b.opt:
                o.append("S")
            o.append(uuids_txt(self.who()) + " " + self.toks(b.ref))
        return o

    def decision(self, name):
        r, sp, fo = self.r, self.sp, self.fo
        ref = name[2:]
        ops = []
        named = name[0] in "qb" or ref in ("connected", "disconnected")
        for _ in range(r.choice([1, 1, 2]) if r.random() < fo["ops"] else 0):
            k = r.choice("kkaaSDV" if fo["ops"] < 0.5 else "kkkaaaSV")
            if k in "ka" and named:
                ops.append("%s %d %s" % (k, r.random() < 0.5, self.toks(sp.k if k == "k" else sp.a)))
            elif k == "S":
                ops.append("S %d x%s%s" % (r.choice([self.r.randint(1, self.n), 77]), pmodel.MAGIC_OP, "%06x" % r.getrandbits(24)))
            elif k == "D" and r.random() < 0.4:
                ops.append("D %d" % r.randint(1, self.n))
            elif k == "V" and named:
                c = [i for i, e in enumerate(sp.events) if not e.default]
                if c:
                    i = r.choice(c)
                    self.vops[i] = self.vops.get(i, 0) + 1
                    ops.append("V %d %s" % (i, self.toks(sp.events[i].ref)))
        if name == "e:connected" and r.random() < fo["assign"]:
            ops.append("a 1 " + self.toks(sp.a))
        g = 0
        if r.random() < fo["gate"]:
            self.gates += 1
            g = self.gates
        d = [str(g), str(int(r.random() < 0.3)), str(len(ops))] + ops
        if name[0] == "q":
            q = sp.req[ref]
            if r.random() < 0.2:
                d.append("E " + self.toks(q.err))
            else:
                i = r.randrange(len(q.actions))
                d.append("R %d %s" % (i, self.toks(q.actions[i].response)))
                d += self.bcasts(q.actions[i].bcasts)
        elif r.random() < 0.12:
            d.append("E")
        else:
            d.append("R")
            if name[0] == "e" and ref in sp.ev:
                d += self.bcasts(sp.ev[ref].bcasts)
        return " ".join(d)

    def build(self):
        r, sp, fo = self.r, self.sp, self.fo
        ident = {"mix": r.choice(["Log", "Log", "Ignore", "default", r.choice(IDENT)]), "serve": r.choice(["Log", "Ignore", "default", "Log", "EmitError"]),
                 "all": r.choice(IDENT)}[fo["ident"]]
        errs = r.choice(ERRS + ["default"])
        gone_fails, auto, fs = int(r.random() < 0.5), int(r.random() < fo["auto"]), int(r.random() < 0.1)
        lanes = []
        for u in range(1, self.n + 1):
            lane = []
            early = r.random() < fo["early"]
            lane.append(("+" if early else "", "conn %d" % u))
            for ch in self.chunks(self.script(u)):
                lane.append(("+" if r.random() < fo["plus"] else "", "data %d x%s" % (u, ch.hex())))
            if r.random() < fo["disc"]:
                at = r.randint(1, len(lane))
                if r.random() < 0.5:
                    at = len(lane)
                lane.insert(at, ("+" if r.random() < 0.4 else "", "disc %d" % u))
                if r.random() < 0.6:
                    del lane[at + 1:]
                if r.random() < 0.1:
                    lane.append(("", "disc %d" % u))
            lanes.append(lane)
        extra = []
        evs = [i for i, e in enumerate(sp.events) if not e.default]
        emits = {}

        def emit():
            i = r.choice(evs)
            emits[i] = emits.get(i, 0) + 1
            return "control emit %d %s" % (i, self.toks(sp.events[i].ref))
        for _ in range(r.randint(1, 6)):
            if evs and r.random() < fo["emit"]:
                extra.append(emit())
            if r.random() < fo["ctl"]:
                k = r.randrange(4)
                if k == 0:
                    extra.append("control send %s x%%s" % (r.choice(list(map(str, range(1, self.n + 1))) + ["-", "77"])))
                elif k == 1:
                    extra.append("control broadcast %s x%%s" % uuids_txt(self.who()))
                elif k == 2 and r.random() < 0.5:
                    extra.append("control disconnect %d" % r.randint(1, self.n))
                elif evs:
                    extra.append(emit())
            if r.random() < fo["fault"]:
                u = r.randint(1, self.n)
                k = r.randrange(6)
                if k in (0, 1, 2):
                    extra.append("failsend %d 1" % u)
                    if r.random() < 0.5:
                        extra.append("failsend %d 0" % u)
                elif k == 3:
                    extra.append("faildisc %d 1" % u)
                else:
                    extra.append("err %s %s" % (r.choice(["consumer", "connection", "server"]), r.choice([str(u), "-", "77"])))
        out = []
        while lanes or extra:
            if extra and r.random() < 0.25 or not lanes:
                out.append(("+" if r.random() < fo["plus"] else "", extra.pop(0)))
                continue
            # sometimes a connection goes on for a while
            l = r.choice(lanes[:3] if fo.get("serial") else lanes)
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                out.append(l.pop(0))
                if not l:
                    lanes.remove(l)
                    break
        names = ["q:" + x for x in sp.req] + ["b:" + x for x in sp.bea] + ["e:connected", "e:disconnected"]
        dos = []
        for n in names:
            k = self.n + 2 if n[0] == "e" else self.used.get(n[2:], 0) + 2
            dos += ["do %s %s" % (n, self.decision(n)) for _ in range(k)]
        for i in evs:
            n = "e:" + sp.events[i].ref
            dos += ["do %s %s" % (n, self.decision(n)) for _ in range(emits.get(i, 0) + self.vops.get(i, 0) + 1)]
        opens = list(range(1, self.gates + 1))
        for g in opens:
            if r.random() < 0.8:
                out.insert(r.randint(len(out) // 4, len(out)), ("+" if r.random() < 0.3 else "", "open %d" % g))
        end = ["open %d" % g for g in opens]
        shut = r.random() < fo["shutdown"]
        if shut:
            k = r.choice(["control shutdown 0", "control shutdown 1", "control shutdown 1", "down"])
            at = r.choice([len(out), r.randint(0, len(out))])
            out.insert(at, ("+" if r.random() < 0.4 else "", k))
            if r.random() < 0.2 and k != "down":
                out.insert(r.randint(at, len(out)), ("", "control shutdown %d" % r.randint(0, 1)))
        cmds = ["case %s %s %d %d %d" % (ident, errs, gone_fails, auto, fs)]
        cmds += ["+" + x for x in dos] + ["ready"]
        for p, x in out:
            if x.endswith("x%s"):
                x = x[:-2] + "%s%04x%04x" % (pmodel.MAGIC_APP, len(cmds), r.getrandbits(16))
            cmds.append(p + x)
        cmds += ["+" + x for x in end] + ["settle 60", "settle 60", "end"]
        return cmds


def run_exe(exe, commands, timeout=120):
    p = build.run([exe], input="\n".join(commands) + "\n", timeout=timeout, cpu=100)
    return p


def split_cases(stdout, cases):
    """log lines of each case with command numbers relative to it; None for a case whose log is incomplete"""
    out, i, base, cur, n = [], 0, 0, [], 0
    for l in stdout.split("\n"):
        if l.startswith("A "):
            p = l.split(" ", 2)
            k = int(p[1]) - base
            if k < 0:
                continue
            l = "A %d %s" % (k, p[2])
        if l.startswith("# "):
            cur.append("# %d" % (int(l[2:]) - base))
            n += 1
            if n == len(cases[i]):
                out.append(cur)
                base += n
                i += 1
                cur, n = [], 0
                if i == len(cases):
                    break
            continue
        cur.append(l)
    while len(out) < len(cases):
        out.append(None)
        if len(out) == i + 1 and cur:
            out[-1] = ("partial", cur)
    return out


def focus_flow(r, i, pid):
    """a workflow with something for the property to happen"""
    targets = (("rust",), ("rust",)) if i % 3 else (("rust", "typescript"), ("rust",))
    while True:
        s, f = gen.flow_for(r, targets, ents=r.choice([8, 12, 16]))
        if not f.requests:
            continue
        if pid == "C14" and not any(a.bcasts for q in f.requests for a in q.actions):
            continue
        if pid == "C15" and not f.beacons:
            continue
        if pid == "C17" and not any(not e.default for e in f.events):
            continue
        if pid == "C16" and i % 2 and not (s.find(f.self_key).fields if f.self_key else False):
            continue
        return s, f


def project(c, d, s, f):
    proj.make(d, s.text(), f.text())
    p = proj.generate(d)
    if p.returncode:
        raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
    exe, err = rsprod.build_harness(d, f)
    if exe is None:
        raise HarnessError("the generated producer does not compile: " + err[:1500])
    return exe


def judge(c, sp, hashes, cmds, log, pid, src):
    """one case against the model"""
    if log is None:
        return
    if isinstance(log, tuple):
        c.violation("stopped", "the process ended in the middle of a case: " + " / ".join(log[1][-3:]), dict(commands=cmds, log=log[1], **src))
        return
    pan = [l for l in log if l.startswith("PANIC")]
    if pan:
        c.violation("panic", pan[0][:400], dict(commands=cmds, log=log, **src))
        return
    m = pmodel.Model(sp, hashes, cmds, log)
    res = m.check()
    c.seen("records of the producer", sum(1 for k, v in m.log if k == "r"))
    c.seen("handler calls", sum(1 for k, v in m.log if k == "r" and v.startswith("H ")))
    c.seen("transmissions", sum(1 for k, v in m.log if k == "r" and v[:1] == "S"))
    c.seen("error events and disconnects", sum(1 for k, v in m.log if k == "r" and v[:1] in "XD"))
    c.seen("alternatives searched", m.steps)
    if res is not None:
        if pid in res.tags:
            ctxt = [v if k in ("r", "t") else "%s %s" % (k, v) for k, v in m.log[max(0, res.pos - 4):res.pos + 2]]
            c.violation("trace-" + "-".join(re.findall(r"[a-z]+", res.text)[:6]), res.text[:1200] + "\n    around: " + " | ".join(x[:160] for x in ctxt),
                        dict(commands=cmds, log=log, **src))
        else:
            c.seen("mismatches that belong to other properties")
        return
    for tags, text in m.control():
        if pid in tags:
            c.violation("control-" + "-".join(re.findall(r"[a-z]+", text)[:6]), text, dict(commands=cmds, log=log, **src))
            return
    rel = m.covered
    c.ok((tuple(sorted(map(str, rel)))), "%d commands: %s" % (len(cmds), ", ".join(sorted({str(x[0]) for x in rel}))))
    c.seen("connections", sum(1 for l in cmds if l.lstrip("+").startswith("conn ")))


def check(c, pid, flows=None, per=None):
    nf, per = flows or c.pick(16, 64), per or c.pick(60, 200)

    def one(i):
        r = c.rng("flow", i)
        s, f = focus_flow(r, i, pid)
        sp = pmodel.Spec(f)
        with build.Scratch("prod") as d:
            exe = project(c, d, s, f)
            hs = fingerprints(d)
            cases = [Work(c.rng("case", i, k), sp, hs, FOCUS[pid]).build() for k in range(per)]
            for k in range(c.pick(1, 4)):
                cases.append(Work(c.rng("long", i, k), sp, hs, dict(FOCUS[pid], **LONG[(i + k) % len(LONG)])).build())
            src = dict(protocol=s.text(), workflow=f.text())
            try:
                p = run_exe(exe, [x for cs in cases for x in cs], timeout=200)
                logs = split_cases(p.stdout, cases)
            except HarnessError:
                logs = None
        if logs is None:
            c.violation("hang", "the producer did not come to rest", dict(commands=[x for cs in cases for x in cs], **src))
            return
        if p.returncode and not any(isinstance(l, tuple) for l in logs):
            c.violation("died", "the process ended with status %s: %s" % (p.returncode, p.stderr[-300:]), dict(commands=[x for cs in cases for x in cs], **src))
        return [(sp, hs, cs, lg, src) for cs, lg in zip(cases, logs)]
    for i0 in range(0, nf, 8):
        if c.left() < 60:
            break
        for res in pmap(one, range(i0, min(nf, i0 + 8))):
            for sp, hs, cs, lg, src in res or []:
                judge(c, sp, hs, cs, lg, pid, src)
        c.seen("workflows", min(nf, i0 + 8) - i0)


def c13(c):
    check(c, "C13")


def c14(c):
    check(c, "C14")


def c15(c):
    check(c, "C15")


def c16(c):
    check(c, "C16")


def c17(c):
    check(c, "C17")


# ---------------------------------------------------------------- C12
HEX = re.compile(rb"[\"'`]([0-9A-Fa-f]{32,128})[\"'`]")


def prints_of(d, base):
    """the fingerprints an output embeds"""
    o = set()
    for k, v in proj.tree(os.path.join(d, base)).items():
        o |= set(x.decode() for x in HEX.findall(v))
    return frozenset(o)


def edits(r, text, kind):
    """(name, other content with the same meaning or a compatible one)"""
    lines = text.split("\n")
    out = [("newline at the end", text + "\n"), ("space at the end", text + " "), ("newline at the start", "\n" + text),
           ("CRLF", text.replace("\n", "\r\n")), ("tab", text.replace(" ", "\t", 1))]
    if kind == "workflow":
        out += [("comment at the end", text + "\n# x\n"), ("comment at the start", "# c\n" + text)]
    i = text.rfind(";")
    out.append(("space before the last ;", text[:i] + " " + text[i:]))
    j = text.find("{")
    out.append(("space after the first {", text[:j + 1] + " " + text[j + 1:]))
    k = r.randrange(len(lines))
    out.append(("empty line inside", "\n".join(lines[:k] + [""] + lines[k:])))
    return [(n, t) for n, t in out if t != text]


def c12_static(c, i):
    from . import outputs
    r = c.rng("static", i)
    t = gen.TARGETS[i % len(gen.TARGETS)]
    s, f = gen.flow_for(r, t, ents=r.choice([4, 8, 12]))
    P, W = s.text(), f.text()
    if i % 4 == 3:
        # big files: the fingerprint has to cover all of the file
        P += "".join(" " * (k % 90) + "\n" for k in range(3000))
        W += "".join("# filler line %d of a long description\n" % k for k in range(3000))
    with build.Scratch("c12") as d:
        def fp(tag, prot, wf, separate=False):
            q = os.path.join(d, tag)
            if separate:
                out = {}
                for side in ("consumer", "producer"):
                    w = os.path.join(q, side + " alone")
                    proj.skeleton(w)
                    a, b = ("desc/one.prot", "desc/two.workflow") if side == "consumer" else ("x.prot", "x.workflow")
                    proj.write(os.path.join(w, a), prot)
                    proj.write(os.path.join(w, b), wf)
                    p = proj.generate(w, a, b)
                    if p.returncode:
                        return None
                    out.update({(sd, tg): prints_of(w, base) for sd, tg, base in outputs.bases(f) if sd == side})
                return out
            proj.make(q, prot, wf)
            p = proj.generate(q)
            if p.returncode:
                return None
            return {(sd, tg): prints_of(q, base) for sd, tg, base in outputs.bases(f)}
        src = dict(protocol=P[:20000], workflow=W[:20000])
        a = fp("a", P, W)
        if a is None:
            raise HarnessError("generation failed")
        vals = set(a.values())
        if any(len(v) < 2 for v in vals):
            raise HarnessError("no fingerprints found in %s" % [k for k, v in a.items() if len(v) < 2])
        if len(vals) != 1:
            c.violation("sides-differ", "outputs of one description embed different fingerprints: %s" % {"%s %s" % k: sorted(v) for k, v in a.items()}, src)
            return
        base = next(iter(vals))
        c.ok(("equal", t, len(P) > 65536), "%s: %s" % (t, sorted(base)))
        b = fp("b", P, W, separate=True)
        if b is None or set(b.values()) != {base}:
            c.violation("separate-differ", "the same descriptions generated for each side alone embed other fingerprints: %s instead of %s" % (
                b and {"%s %s" % k: sorted(v) for k, v in b.items()}, sorted(base)), src)
            return
        c.ok(("separate", t))
        es = [("protocol", n, x) for n, x in edits(r, P, "protocol")] + [("workflow", n, x) for n, x in edits(r, W, "workflow")]
        r.shuffle(es)
        gone = {}
        for k, (kind, name, text) in enumerate(es[:c.pick(5, 14)]):
            e = fp("e%d" % k, text if kind == "protocol" else P, text if kind == "workflow" else W)
            if e is None:
                c.seen("edits the generator refuses")
                continue
            ev = set(e.values())
            if len(ev) != 1:
                c.violation("sides-differ", "%s (%s): outputs of one description embed different fingerprints: %s" % (kind, name, {"%s %s" % q: sorted(v) for q, v in e.items()}),
                            dict(src, edited=text[:20000]))
                return
            ev = next(iter(ev))
            lost = base - ev
            if len(lost) != 1 or len(ev) != len(base):
                c.violation("edit-" + kind, "%s changed (%s): fingerprints were %s and are %s" % (kind, name, sorted(base), sorted(ev)), dict(src, edited=text[:20000]))
                return
            gone.setdefault(kind, set()).add(next(iter(lost)))
            c.ok(("edit", kind, name, t), "%s: %s" % (kind, name))
        # the last byte, whatever the size of the file is
        for kind in ("protocol", "workflow"):
            m = r.choice([16, 64, 512, 1024, 4096])
            n = r.choice([0, 1, 1, 2, m - 1])
            t0 = (P if kind == "protocol" else W)
            t0 += "\n" * ((n - len(t0.encode())) % m or m)
            fs = []
            for e, last in enumerate("\n "):
                x = t0[:-1] + last
                e = fp("last%s%d" % (kind, e), x if kind == "protocol" else P, x if kind == "workflow" else W)
                if e is None:
                    raise HarnessError("blanks at the end are refused")
                fs.append(set(e.values()))
            if len(fs[0]) != 1 or len(fs[1]) != 1 or len(next(iter(fs[0])) - next(iter(fs[1]))) != 1:
                c.violation("last-byte-" + kind, "the last byte of a %s of %d bytes changed: fingerprints were %s and are %s" % (kind, len(t0.encode()), fs[0], fs[1]), dict(src, edited=t0[:20000]))
                return
            c.ok(("last", kind, m, n))
        # long tails of blanks which differ in their length or order only
        if i % 2 == 0:
            for kind in ("protocol", "workflow"):
                b = r.choice(" \n\t")
                n = r.choice([2100, 4200, 9000, 20000]) + r.randrange(200)
                m = r.choice([512, 1024, 4096, 8192])
                o = "\n" if b != "\n" else " "
                tails = [b * n, b * (n + 1), b * (n + 1024), b * m + o * m, o * m + b * m, b * m + o * m + b]
                seen = {}
                for e, tail in enumerate(tails):
                    x = (P if kind == "protocol" else W) + "\n" + tail
                    v = fp("tail%s%d" % (kind, e), x if kind == "protocol" else P, x if kind == "workflow" else W)
                    if v is None:
                        raise HarnessError("blanks at the end are refused")
                    v = tuple(sorted(set().union(*v.values())))
                    if v in seen:
                        c.violation("tail-" + kind, "a %s followed by %d and by %d blanks (%r) has the same fingerprints %s" % (kind, len(seen[v]), len(tail), (seen[v][:1], tail[:1]), v), dict(src, tails=[seen[v][:9000], tail[:9000]]))
                        return
                    seen[v] = tail
                c.ok(("tails", kind, b, n // 1000, m))
        if any(len(v) != 1 for v in gone.values()) or len(gone) == 2 and gone["protocol"] == gone["workflow"]:
            c.violation("mixed", "changes of the descriptions change fingerprints %s" % gone, src)


def c12(c):
    pmap(lambda i: c12_static(c, i), range(c.pick(10, 60)))
    check(c, "C12", c.pick(8, 32), c.pick(40, 160))
