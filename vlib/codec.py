"""Monitors over the generated readers and writers (C01 - C07)."""
import os, random
from . import build, rsglue, schema, tsglue, wire
from .build import HarnessError
from .mon import pmap


class Case:
    def __init__(self, name, s, d):
        self.name, self.s, self.d = name, s, d
        self.ms = s.messages()
        self.rs = self.ts = self.rsmw = None
        self.fail = None

    def prepare(self, rs=False, ts=False, mw=False):
        d = os.path.join(self.d, self.name)
        os.makedirs(d, exist_ok=True)
        self.dir = d
        prot = os.path.join(d, "p.prot")
        open(prot, "w").write(self.s.text())
        p = build.gen_protocol(prot, os.path.join(d, "o.rs") if rs or mw else None, os.path.join(d, "o.ts") if ts else None)
        if p.returncode != 0 or ((rs or mw) and not os.path.exists(os.path.join(d, "o.rs"))) or (ts and not os.path.exists(os.path.join(d, "o.ts"))):
            self.fail = "generator: " + (p.stdout + p.stderr)[-500:]
            return self
        if rs or mw:
            text = open(os.path.join(d, "o.rs")).read()
        if rs:
            exe, p = rsglue.compile_driver(self.s, d, text)
            if p.returncode:
                self.fail = "rustc: " + p.stderr[:1500]
                return self
            self.rs = rsglue.Driver([exe])
        if mw:
            exe, p = rsglue.compile_driver(self.s, d, text, middleware=True, name="mw")
            if p.returncode:
                self.fail = "rustc: " + p.stderr[:1500]
                return self
            self.rsmw = rsglue.Driver([exe])
        if ts:
            argv, p = tsglue.compile_driver(self.s, d, os.path.join(d, "o.ts"))
            if p.returncode:
                self.fail = "esbuild: " + p.stderr[:1500]
                return self
            self.ts = rsglue.Driver(argv)
        return self

    def value(self, r, k=None, long=False):
        if k is None:
            k = r.randrange(len(self.ms))
        return k, wire.rand_ent(r, self.ms[k], long=long)


def cases(c, d, n, ts_domain, rs=False, ts=False, mw=False, ents=12):
    """Fixed schemas with every member kind, and n random ones."""
    l = [Case("sink", schema.sink(ts_domain), d), Case("wide", schema.wide(ts_domain), d)]
    for i in range(n):
        r = c.rng("schema", i)
        l.append(Case("r%d" % i, schema.Gen(r, max_ents=r.choice([1, 3, ents, ents, 2 * ents]), depth=r.choice([1, 2, 4]),
                                            max_fields=r.choice([3, 7, 20]), ts=ts_domain, same_names=i % 3 == 1).schema(), d))
    pmap(lambda x: x.prepare(rs, ts, mw), l)
    good = [x for x in l if x.fail is None]
    for x in l:
        if x.fail is not None:
            c.seen("schemas not usable (see C08)")
            c.notes.append((x.name, x.fail))
    if len(good) < max(2, len(l) // 2):
        raise HarnessError("most generated protocols are not usable: " + l[[x.fail is not None for x in l].index(True)].fail)
    c.seen("schemas", len(good))
    c.seen("message types", sum(len(x.ms) for x in good))
    return good


def show(case, k, v):
    return "%s %s" % (case.ms[k].full(), wire.toks(case.ms[k], v))


def rep(case, cmds, out, i, expected):
    """replay data: the protocol and the driver commands up to the failing one"""
    return dict(protocol=case.s.text(), commands=[x[:4000] for x in cmds[max(0, i - 6):i + 1]], got=[list(x) for x in out[max(0, i - 6):i + 1]],
                expected=expected)


def died(c, case, side, cmds, out):
    """True if the driver did not survive; reports"""
    if out and out[-1][0] == "DIED":
        i = len(out) - 1
        what = cmds[i] if i < len(cmds) else "exit"
        c.violation("%s-died" % side, "%s: %s at '%s'" % (side, out[-1][1], what[:200]), rep(case, cmds, out, i, "an answer"))
        return True
    return False


def parse_msg(a):
    """'MSG id sig seq ts len path tokens' -> dict or None"""
    if not a.startswith("MSG "):
        return None
    p = a[4:].split()
    if len(p) < 6:
        return None
    return dict(id=int(p[0]), sig=int(p[1]), seq=int(p[2]), ts=int(p[3]), len=int(p[4]), body=" ".join(p[5:]))


def pack_all(drv, items, ms):
    """items: (k, value, seq) -> list of bytes or None (error)"""
    cmds = ["pack %d %d - %s" % (k, q, wire.toks(ms[k], v)) for k, v, q in items]
    out = drv.batch(cmds)
    return cmds, out


def cross(c, case, writer, reader, wname, rname, items, wire_check=False):
    """pack with one driver, read with the other: one equal message per package"""
    wcmds, wout = pack_all(writer, items, case.ms)
    if died(c, case, wname, wcmds, wout):
        return
    rc, idx = ["new 0"], []
    sig = None
    for i, (k, v, q) in enumerate(items):
        a = wout[i][0]
        e = case.ms[k]
        if not a.startswith("OK "):
            c.violation("%s-pack-%s" % (wname, shape_key(e, v)), "%s refuses to pack %s: %s %s" % (wname, show(case, k, v)[:300], a[:200], wout[i][1]),
                        rep(case, wcmds, wout, i, "OK"))
            continue
        b = a[3:].strip()
        idx.append((i, len(rc), bytes.fromhex(b)))
        rc += ["chunk 0 - b" + b, "stat 0", "next 0", "next 0"]
        if wire_check:
            ref = wire.package(e, v, q)
            g = bytes.fromhex(b)
            if g[:4] + g[6:10] + g[18:] != ref[:4] + ref[6:10] + ref[18:]:
                c.violation("%s-layout-%s" % (wname, shape_key(e, v)), "%s does not follow the documented layout for %s: %s, documented %s" % (
                    wname, show(case, k, v)[:300], g.hex()[:400], ref.hex()[:400]), rep(case, wcmds, wout, i, ref.hex()))
            else:
                c.seen("bodies equal to the documented layout")
    rout = reader.batch(rc)
    if died(c, case, rname, rc, rout):
        return
    for i, p, b in idx:
        k, v, q = items[i]
        e = case.ms[k]
        chunk, stat, nx, nx2 = [rout[p + j][0] for j in range(4)]
        key = "%s-%s-%s" % (wname, rname, shape_key(e, v))
        want = "%s %s" % (e.full(), wire.toks(e, v))
        m = parse_msg(nx)
        exp = dict(chunk="OK", stat="0 1", msg=want, seq=q, id=e.id)
        if chunk != "OK":
            c.violation(key, "%s cannot read what %s packed: %s (%s) for %s" % (rname, wname, chunk, rout[p][1], want[:300]), rep(case, rc, rout, p, exp))
        elif m is None or m["body"] != want.strip():
            c.violation(key, "%s packed %s, %s read %s" % (wname, want[:300], rname, nx[:300]), rep(case, rc, rout, p + 2, exp))
        elif nx2 != "NONE" or stat != "0 1":
            c.violation(key + "-count", "not exactly one message: stat '%s' then '%s'" % (stat, nx2[:100]), rep(case, rc, rout, p + 3, exp))
        elif m["seq"] != q or (rname == "rust" and m["len"] != len(b) - wire.HEADER) or m["id"] != int.from_bytes(b[:4], "little"):
            c.violation(key + "-header", "header %s, packed with sequence %d, body of %d bytes" % (m, q, len(b) - wire.HEADER), rep(case, rc, rout, p + 2, exp))
        else:
            if rname == "rust":
                if sig is None:
                    sig = m["sig"]
                if m["sig"] != sig:
                    c.violation("signature", "messages of one protocol carry signatures %d and %d" % (sig, m["sig"]), rep(case, rc, rout, p + 2, exp))
            c.ok(wname + rname + case.name + wire.size_class(e, v), sample="%s->%s %s" % (wname, rname, want))
            c.seen("%s to %s round trips" % (wname, rname))
            c.seen("bytes", len(b))


def shape_key(e, v):
    """names the member kinds involved, to tell findings apart"""
    return e.kind


def values(c, case, n, tag, long_every=40):
    r = c.rng("values", case.name, tag)
    items = []
    order = list(range(len(case.ms)))
    for i in range(n):
        k = order[i % len(order)] if i < 6 * len(order) else None
        k, v = case.value(r, k, long=(i % long_every == long_every - 1))
        q = r.choice([0, 1, 2**31, 2**32 - 1, r.getrandbits(32), r.randint(0, 1000)])
        items.append((k, v, q))
    return items


def c01(c):
    with build.Scratch("C01") as d:
        l = cases(c, d, c.pick(14, 120), False, rs=True)
        per = c.pick(700, 2500)
        pmap(lambda x: cross(c, x, x.rs, x.rs, "rust", "rust", values(c, x, per, "a")), l, 4)


def c02(c):
    with build.Scratch("C02") as d:
        l = cases(c, d, c.pick(20, 160), True, ts=True)
        per = c.pick(600, 2500)

        def one(x):
            cross(c, x, x.ts, x.ts, "ts", "ts", values(c, x, per, "a"))
            from_checks(c, x, c.pick(250, 800))
        pmap(one, l, 6)


def from_checks(c, case, n):
    r = c.rng("from", case.name)
    r.finite = True
    cmds, exp = [], []
    for i in range(n):
        k, v = case.value(r)
        e = case.ms[k]
        q = r.getrandbits(32)
        t = wire.toks(e, v)
        cmds.append("from %d %d %s" % (k, q, t))
        exp.append(("from", e, v, q, t))
        if e.kind == "struct" and i % 3 == 0:
            b = wire.enc_ent(e, v)
            cmds.append("frombytes %d %s x%s" % (k, r.choice("bua"), b.hex()))
            exp.append(("bytes", e, v, q, t))
        if e.kind == "struct" and e.fields:
            fi = r.randrange(len(e.fields))
            f = e.fields[fi]
            kinds = ["null", "type", "zero", "false"]
            if not f.opt:
                kinds.append("missing")
            if f.rep and (f.ty.ref is None or f.ty.ref.kind == "struct"):
                kinds.append("late")
            if f.rep or f.ty.ref is None or f.ty.ref.kind == "struct":
                kinds.append("item")
            if f.ty.prim and f.ty.prim not in ("str", "bool", "f32", "f64"):
                kinds += ["above", "below", "bigint"]
            if f.ty.prim and f.ty.prim in ("str", "bool", "f32", "f64"):
                kinds += ["bigint"]
            if f.ty.ref is not None and f.ty.ref.kind == "enum":
                if len(f.ty.ref.fields) > 1:
                    kinds.append("two")
                kinds.append("variant")
            kind = r.choice(kinds)
            if kind == "null" and f.ty.ref is not None and f.ty.ref.kind == "enum":
                pass
            cmds.append("frombad %d %d %s %s" % (k, fi, kind, t))
            exp.append(("bad", e, v, kind, f))
    out = case.ts.batch(cmds)
    if died(c, case, "ts", cmds, out):
        return
    for i, (x, (a, note)) in enumerate(zip(exp, out)):
        if x[0] == "from":
            _, e, v, q, t = x
            ref = wire.package(e, v, q)
            g = a.split(" | ")
            ok = a.startswith("OK ") and len(g) == 2 and g[1].split() == t.split()
            if not ok:
                c.violation("from-%s" % e.kind, "from() of a well typed object of %s: %s %s; object %s" % (e.full(), a[:300], note, t[:300]), rep(case, cmds, out, i, "OK"))
            else:
                c.ok("from" + case.name + wire.size_class(e, v))
                c.seen("well typed objects accepted")
        elif x[0] == "bytes":
            _, e, v, q, t = x
            if a.split() != ("OK " + t).split():
                c.violation("frombytes", "from(bytes) of %s: %s, expected %s" % (e.full(), a[:300], t[:300]), rep(case, cmds, out, i, t))
            else:
                c.ok("bytes" + wire.size_class(e, v))
                c.seen("bodies read by from()")
        else:
            _, e, v, kind, f = x
            ft = ("enum" if f.ty.ref.kind == "enum" else "struct") if f.ty.ref is not None else f.ty.prim
            if a != "REFUSED":
                c.violation("from-accepts-%s-%s%s%s" % (kind, ft, "-rep" if f.rep else "", "-opt" if f.opt else ""),
                            "from() of %s with a wrong %s (%s): %s %s" % (e.full(), f.name, kind, a[:200], note), rep(case, cmds, out, i, "REFUSED"))
            else:
                c.ok("bad %s %s %s %s" % (kind, ft, f.rep, f.opt), sample="%s.%s %s refused" % (e.full(), f.name, kind))
                c.seen("wrong objects refused")


def c03(c):
    with build.Scratch("C03") as d:
        l = cases(c, d, c.pick(12, 100), True, rs=True, ts=True)
        per = c.pick(450, 2000)

        def one(x):
            it = values(c, x, per, "a")
            cross(c, x, x.rs, x.ts, "rust", "ts", it, wire_check=True)
            cross(c, x, x.ts, x.rs, "ts", "rust", it, wire_check=True)
        pmap(one, l, 4)


# ---------------------------------------------------------------- C04
def partitions(r, lens):
    """yields lists of chunk lengths covering sum(lens)"""
    total = sum(lens)
    k = r.random()
    if total <= 700 and k < 0.25:
        return [1] * total
    if k < 0.35:
        return [total]
    cuts = set()
    if k < 0.6:
        # around message and header borders
        p = 0
        for n in lens:
            for q in (p, p + n, p + wire.HEADER, p + 3):
                if r.random() < 0.5:
                    cuts.add(q + r.choice([-1, 0, 1, 0]))
            p += n
    else:
        for _ in range(r.choice([1, 3, 10, 40])):
            cuts.add(r.randint(0, total))
    cuts = sorted(x for x in cuts if 0 < x < total)
    out, last = [], 0
    for x in cuts + [total]:
        out.append(x - last)
        last = x
    if r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            out.insert(r.randint(0, len(out)), 0)
    return out


def c04(c):
    with build.Scratch("C04") as d:
        l = cases(c, d, c.pick(6, 60), True, rs=True, ts=True)

        def one(x):
            for side in ("rust", "ts"):
                framing(c, x, side, c.pick(40, 160))
                early(c, x, side, c.pick(40, 160))
        pmap(one, l, 8)
        # one long stream in one chunk, and dribbled
        x = l[0]
        for side in ("rust", "ts"):
            long_stream(c, x, side, c.pick(6000, 40000))


def framing(c, case, side, streams):
    drv = case.rs if side == "rust" else case.ts
    r = c.rng("framing", case.name, side)
    items = []
    plan = []
    for s in range(streams):
        long = s % 13 == 7
        n = r.choice([1, 2, 3, 5, 12, 30]) if not long else r.choice([1, 2, 3])
        plan.append((len(items), n))
        for _ in range(n):
            k, v = case.value(r, long=long)
            items.append((k, v, r.getrandbits(32)))
    cmds, out = pack_all(drv, items, case.ms)
    if died(c, case, side, cmds, out):
        return
    packs = [bytes.fromhex(a[3:]) if a.startswith("OK ") else None for a, _ in out]
    cmds, exp = [], []
    for s, (start, n) in enumerate(plan):
        own = packs[start:start + n]
        if None in own:
            continue
        data = b"".join(own)
        parts = partitions(r, [len(b) for b in own])
        ends = []
        p = 0
        for b in own:
            p += len(b)
            ends.append(p)
        greedy = r.random()
        cmds.append("new %d" % s)
        exp.append(None)
        pos = taken = 0
        for ln in parts:
            chunk = data[pos:pos + ln]
            pos += ln
            cmds.append("chunk %d - %s%s" % (s, r.choice("bua") if side == "ts" else "b", chunk.hex()))
            exp.append(("OK", None))
            done = sum(1 for x in ends if x <= pos)
            buffered = pos - (ends[done - 1] if done else 0)
            if ln == 1 and buffered and r.random() > 0.3:
                continue
            cmds.append("stat %d" % s)
            exp.append(("%d %d" % (buffered, done - taken), None))
            take = done - taken if greedy < 0.4 else r.randint(0, done - taken) if greedy < 0.8 else 0
            for _ in range(take):
                k, v, q = items[start + taken]
                cmds.append("next %d" % s)
                exp.append(("%s %s" % (case.ms[k].full(), wire.toks(case.ms[k], v)), q))
                taken += 1
            if done == taken:
                cmds.append("next %d" % s)
                exp.append(("NONE", None))
        while taken < n:
            k, v, q = items[start + taken]
            cmds.append("next %d" % s)
            exp.append(("%s %s" % (case.ms[k].full(), wire.toks(case.ms[k], v)), q))
            taken += 1
        cmds += ["next %d" % s, "stat %d" % s, "drop %d" % s]
        exp += [("NONE", None), ("0 0", None), None]
        c.ok("%s %s %d %s" % (side, case.name, n, parts[:40]), sample="%s: %d messages of %s bytes in chunks of %s" % (side, n, [len(b) for b in own][:6], parts[:12]))
        c.seen(side + " streams")
        c.seen(side + " chunks", len(parts))
        c.seen(side + " messages", n)
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    for i, (x, (a, note)) in enumerate(zip(exp, out)):
        if x is None:
            continue
        want, q = x
        if q is not None:
            m = parse_msg(a)
            if m is None or m["body"] != want.strip() or m["seq"] != q:
                kind = "missing" if a == "NONE" else "wrong"
                c.violation("%s-%s-message" % (side, kind), "%s reader: got %s, expected %s with sequence %d" % (side, a[:300], want[:300], q), rep(case, cmds, out, i, want))
                return
        elif a != want:
            c.violation("%s-%s" % (side, cmds[i].split()[0]), "%s reader: '%s' answered %s %s, expected %s" % (side, cmds[i][:80], a[:200], note, want), rep(case, cmds, out, i, want))
            return


def early(c, case, side, n):
    """Messages whose length does not fit 32 bits never arrive completely: nothing is delivered
    and all of it stays buffered. A TypeScript reader destroyed within a message starts anew."""
    drv = case.rs if side == "rust" else case.ts
    r = c.rng("early", case.name, side)
    cmds, exp = [], []

    def cmd(x, *want):
        cmds.append(x)
        exp.append(want)
    for s in range(n):
        k, v = case.value(r)
        e = case.ms[k]
        body = wire.enc_ent(e, v)
        whole = wire.header(e.id, 7, 5, len(body)) + body
        text = "%s %s" % (e.full(), wire.toks(e, v))
        cmd("new %d" % s)
        if side == "rust" or s % 2:
            more = len(body) + (1 << r.choice([31, 32, 33, 40, 52, 62]))
            cmd("chunk %d - b%s" % (s, whole.hex()), "OK")
            cmd("chunk %d - b%s" % (s, (wire.header(e.id, 8, 5, more) + body).hex()), "OK")
            cmd("stat %d" % s, "%d 1" % (wire.HEADER + len(body)))
            cmd("next %d" % s, text)
            cmd("next %d" % s, "NONE")
            c.seen(side + " messages without end")
        else:
            cut = r.randrange(1, len(whole))
            cmd("chunk %d - b%s" % (s, (whole * r.choice([0, 1, 3]) + whole[:cut]).hex()), "OK")
            cmd("destroy %d" % s, "OK")
            cmd("stat %d" % s, "0 0")
            cmd("next %d" % s, "NONE")
            cmd("chunk %d - b%s" % (s, whole.hex()), "OK")
            cmd("stat %d" % s, "0 1")
            cmd("next %d" % s, text)
            c.seen(side + " readers destroyed and used again")
        cmd("drop %d" % s)
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    for i, (x, (a, note)) in enumerate(zip(exp, out)):
        if not x:
            continue
        m = parse_msg(a)
        if (m["body"] if m else a) != x[0].strip():
            c.violation("%s-early-%s" % (side, cmds[i].split()[0]), "%s reader: '%s' answered %s %s, expected %s" % (side, cmds[i][:80], a[:200], note, x[0][:200]), rep(case, cmds, out, i, x[0]))
            return
        c.ok("%s early %s" % (side, cmds[i].split()[0]))


def long_stream(c, case, side, n):
    drv = case.rs if side == "rust" else case.ts
    r = c.rng("long", side)
    k = next(i for i, e in enumerate(case.ms) if e.full() == "Leaf")
    pool = [(k, wire.rand_ent(r, case.ms[k]), i) for i in range(300)]
    cmds, out = pack_all(drv, pool, case.ms)
    packs = [bytes.fromhex(a[3:]) for a, _ in out]
    seqs = [r.randrange(300) for _ in range(n)]
    data = b"".join(packs[i] for i in seqs)
    for cut in (len(data), 4096, 1237):
        cmds = ["new 0"] + ["chunk 0 - b" + data[i:i + cut].hex() for i in range(0, len(data), cut)] + ["stat 0", "drain 0", "stat 0"]
        out = drv.batch(cmds)
        if died(c, case, side + "-long", cmds, out):
            return
        got = [parse_msg("MSG " + m) for m in out[-2][0].split("|")[1:]]
        want = ["%s %s" % (case.ms[k].full(), wire.toks(case.ms[k], pool[i][1])) for i in seqs]
        if any(a != "OK" for a, _ in out[:-3]) or out[-3][0] != "0 %d" % n or out[-1][0] != "0 0" or [g and g["body"] for g in got] != [w.strip() for w in want] or [g["seq"] for g in got] != seqs:
            c.violation(side + "-long-stream", "%d messages in chunks of %d: stat %s, %d read" % (n, cut, out[-3][0], len(got)), dict(n=n, cut=cut, stat=out[-3]))
            return
        c.ok("%s long %d %d" % (side, n, cut))
        c.seen(side + " messages", n)


# ---------------------------------------------------------------- C05
def tlvs(b):
    """top level fields of a struct body as (start, head end, end)"""
    out, p = [], 0
    while p < len(b):
        n = b[p + 2] // 8
        ln = int.from_bytes(b[p + 3:p + 3 + n], "little")
        out.append((p, p + 3 + n, p + 3 + n + ln))
        p += 3 + n + ln
    return out


def mutate(r, e, b):
    """(kind, body, must_fail)"""
    k = r.choice(["flip", "cut", "grow", "len", "rank", "id", "dropfield", "dup", "zero", "rand", "ff"])
    if k == "cut" and b:
        n = b[:r.randrange(len(b))]
        return k, n
    if k == "grow":
        return k, b + bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 3, 11, 40])))
    if k == "rand":
        return k, bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 9, 26, 100])))
    if k == "zero":
        return k, bytes(len(b))
    if k == "ff":
        return k, b"\xff" * max(1, len(b))
    if k in ("len", "rank", "id", "dropfield", "dup") and e.kind == "struct" and b:
        t = tlvs(b)
        s, h, n = r.choice(t)
        if k == "len":
            w = h - s - 3
            v = r.choice([(1 << 8 * w) - 1, 1 << (8 * w - 1), n - h + 1, max(0, n - h - 1), len(b), 0x7fffffff]) & ((1 << 8 * w) - 1)
            return k, b[:s + 3] + v.to_bytes(w, "little") + b[h:]
        if k == "rank":
            return k, b[:s + 2] + bytes([r.choice([0, 1, 7, 8, 16, 32, 64, 65, 128, 255])]) + b[s + 3:]
        if k == "id":
            return k, b[:s] + r.getrandbits(16).to_bytes(2, "little") + b[s + 2:]
        if k == "dropfield":
            return k, b[:s] + b[n:]
        return k, b + b[s:n]
    if not b:
        return "grow", b + b"\x01"
    n = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 3, 10])):
        i = r.randrange(len(n))
        n[i] = r.choice([n[i] ^ (1 << r.randrange(8)), 0, 255, r.getrandbits(8)])
    return "flip", bytes(n)


def bendable(f):
    """values misshape() knows how to spoil"""
    if f.ty.ref is not None or f.ty.prim == "str":
        return f.rep
    return wire.SIZES[f.ty.prim] > 1 or not f.rep and not f.opt


def misshape(r, e, v):
    """A body whose every length is consistent except for one value deep inside, which is no
    encoding of its type: a list ending within an item, a list item claiming more bytes than
    there are, a number with too few bytes. (kind, body) or None if v has no such place."""
    spots = []

    def look(f, x, b):
        if bendable(f):
            spots.append(f)
        return b
    wire.enc_ent(e, v, look)
    if not spots:
        return None
    at = [r.randrange(len(spots))]
    what = []

    def spoil(f, x, b):
        t = f.ty
        fixed = t.ref is None and t.prim != "str"
        if bendable(f):
            at[0] -= 1
            if at[0] != -1:
                return b
            if not f.rep:
                what.append("short " + t.prim)
                return b[:r.randrange(1 if f.opt else 0, len(b))]
            if fixed:
                n = wire.SIZES[t.prim]
                what.append("ragged list of " + t.prim)
                return b + bytes(r.getrandbits(8) for _ in range(r.randrange(1, n)))
            k = 4 if t.ref is None else 8
            kind = "str" if t.ref is None else t.ref.kind
            if r.random() < 0.4:
                what.append("cut length in list of " + kind)
                return b + bytes(r.randrange(1, k))
            have = r.choice([0, 1, 5])
            what.append("long item in list of " + kind)
            return b + (have + r.choice([1, 2, 255, 65536, 2**31, 2**32 - 1 - have] + ([2**32, 2**40, 2**53] if k == 8 else []))).to_bytes(k, "little") + b"a" * have
        return b
    body = wire.enc_ent(e, v, spoil)
    return what[0], body


def surely_bad(kind, e, body, orig):
    """situations every strict and every lenient reader has to refuse"""
    if kind == "dropfield":
        return True
    if kind in ("cut",) and e.kind == "struct":
        return True        # some field is missing or incomplete
    if kind == "cut" and e.kind == "enum" and len(body) < 2:
        return True
    return False


def c05(c):
    with build.Scratch("C05") as d:
        l = cases(c, d, c.pick(8, 70), True, rs=True, ts=True)

        def one(x):
            for side in ("rust", "ts"):
                hostile(c, x, side, c.pick(220, 1200))
                garbage(c, x, side, c.pick(150, 900))
        pmap(one, l, 8)


def hostile(c, case, side, streams):
    """bad messages between good ones"""
    drv = case.rs if side == "rust" else case.ts
    r = c.rng("hostile", case.name, side)
    known = {e.id for e in case.ms}
    # the signature the protocol uses
    k, v = case.value(r)
    o = drv.batch(["pack %d 1 - %s" % (k, wire.toks(case.ms[k], v))])
    if not o[0][0].startswith("OK "):
        raise HarnessError("pack failed: " + o[0][0])
    sig = wire.parse_header(bytes.fromhex(o[0][0][3:]))["sig"]
    cmds, exp = [], []
    for s in range(streams):
        n = r.choice([1, 2, 3, 6])
        seqm = []      # (good?, bytes, seq, want, must_fail, kind)
        bads = set(range(n)) if n == 1 else set(r.sample(range(n), r.randint(1, n - 1)))
        # the last message is always good: it proves the reader is not wedged
        for i in range(n + 1):
            k, v = case.value(r)
            e = case.ms[k]
            q = 1000 + i
            body = wire.enc_ent(e, v)
            if i in bads:
                kind = r.choice(["id", "sig", "body", "body", "body", "body"])
                if kind == "id":
                    # among them the ids that equal a known one when cut to fewer bits
                    mid = r.choice([0, max(known) + 1, 2**32 - 1, 2**31, r.getrandbits(32), e.id + (1 << r.choice([8, 16, 24, 31]))]) & 0xffffffff
                    while mid in known:
                        mid = r.getrandbits(32)
                    seqm.append((False, wire.header(mid, q, 5, len(body), sig) + body, q, None, True, "unknown id"))
                elif kind == "sig":
                    seqm.append((False, wire.header(e.id, q, 5, len(body), r.choice([sig ^ 1, sig ^ 0xffff, (sig + 256) & 0xffff])) + body, q, None, True, "foreign signature"))
                else:
                    ms = misshape(r, e, v) if r.random() < 0.4 else None
                    if ms:
                        seqm.append((False, wire.header(e.id, q, 5, len(ms[1]), sig) + ms[1], q, None, True, ms[0]))
                        continue
                    kk, nb = mutate(r, e, body)
                    seqm.append((False, wire.header(e.id, q, 5, len(nb), sig) + nb, q, None, surely_bad(kk, e, nb, body), kk + " " + e.kind))
            else:
                seqm.append((True, wire.header(e.id, q, 5, len(body), sig) + body, q, "%s %s" % (e.full(), wire.toks(e, v)), False, ""))
        data = b"".join(x[1] for x in seqm)
        parts = partitions(r, [len(x[1]) for x in seqm])
        cmds.append("new %d" % s)
        exp.append(None)
        first = len(cmds)
        pos = 0
        chunkends = []
        for ln in parts:
            cmds.append("chunk %d - %s%s" % (s, r.choice("bua") if side == "ts" else "b", data[pos:pos + ln].hex()))
            exp.append(None)
            pos += ln
            chunkends.append(pos)
        cmds += ["stat %d" % s, "drain %d" % s, "stat %d" % s, "drop %d" % s]
        exp += [None, (s, seqm, first, chunkends), None, None]
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    for i, x in enumerate(exp):
        if x is None:
            continue
        s, seqm, first, chunkends = x
        res = [out[first + j] for j in range(len(chunkends))]
        kinds = [y[5] for y in seqm if not y[0]]
        tag = "%s after %s" % (side, kinds)

        def rp(j):
            return rep(case, cmds, out, j, [(y[5] or "good", y[2], y[3]) for y in seqm])
        bad = [j for j, (a, _) in enumerate(res) if not (a == "OK" or a.startswith("ERR"))]
        if bad:
            c.violation("%s-raises" % side, "%s reader: chunk answered %s %s with %s" % (side, res[bad[0]][0], res[bad[0]][1], kinds), rp(first + bad[0]))
            continue
        drained = out[i][0]
        if not drained.startswith("D") or out[i - 1][0].split()[0] != "0" or out[i + 1][0] != "0 0":
            c.violation("%s-residue" % side, "%s reader: after a complete stream: %s; %s; %s (%s)" % (side, out[i - 1][0], drained[:200], out[i + 1][0], tag), rp(i))
            continue
        got = [parse_msg("MSG " + m) for m in drained.split("|")[1:]]
        if None in got:
            c.violation("%s-drain" % side, "%s reader answered %s" % (side, drained[:200]), rp(i))
            continue
        good = [(y[2], y[3].strip()) for y in seqm if y[0]]
        badq = {y[2] for y in seqm if not y[0]}
        g = [(m["seq"], m["body"]) for m in got if m["seq"] not in badq]
        order = [m["seq"] for m in got]
        if g != good:
            c.violation("%s-lost-good" % side, "%s reader: good messages %s, delivered %s with bad ones %s" % (side, [q for q, _ in good], [q for q, _ in g], kinds), rp(i))
            continue
        if order != sorted(set(order)):
            c.violation("%s-order" % side, "%s reader delivered sequences %s" % (side, order), rp(i))
            continue
        # a bad message is either read (the change left it readable) or reported by the chunk completing it
        pos = 0
        fine = True
        need = {}
        for y in seqm:
            pos += len(y[1])
            if y[0]:
                continue
            delivered = y[2] in order
            j = next(j for j, e in enumerate(chunkends) if e >= pos)
            if delivered and y[4]:
                c.violation("%s-accepts-%s" % (side, y[5].replace(" ", "-")), "%s reader delivered a message with %s" % (side, y[5]), rp(i))
                fine = False
                break
            if not delivered:
                need.setdefault(j, []).append(y[5])
                c.seen(side + " bad messages refused")
            else:
                c.seen(side + " changed messages still readable")
        for j, a in enumerate(res):
            if not fine:
                break
            if j in need and not a[0].startswith("ERR"):
                c.violation("%s-silent" % side, "%s reader dropped a message (%s) without an error" % (side, need[j]), rp(first + j))
                fine = False
            if j not in need and a[0].startswith("ERR"):
                c.violation("%s-spurious" % side, "%s reader reported an error for a chunk completing only good messages (%s)" % (side, kinds), rp(first + j))
                fine = False
            if side == "ts" and j in need and a[0].startswith("ERR") and a[0] != "ERR %d" % len(need[j]):
                c.violation("%s-errors" % side, "%s reader reported %s for %s" % (side, a[0], need[j]), rp(first + j))
                fine = False
        if fine:
            c.ok("%s %s %s %d" % (side, case.name, kinds, len(chunkends)), sample="%s: %s in %d chunks, good messages %s delivered" % (side, kinds, len(chunkends), [q for q, _ in good]))
            c.seen(side + " hostile streams")
            c.seen(side + " good messages around bad ones", len(good))


def garbage(c, case, side, n):
    """arbitrary bytes: no panic, hang or unbounded allocation"""
    drv = case.rs if side == "rust" else case.ts
    r = c.rng("garbage", case.name, side)
    ids = [e.id for e in case.ms]
    cmds = []
    for s in range(n):
        cmds.append("new %d" % s)
        for _ in range(r.choice([1, 1, 3])):
            k = r.randrange(5)
            if k == 0:
                b = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 25, 26, 27, 60, 300, 3000])))
            elif k == 1:
                b = bytes(r.choice([0, 0, 0, 1, 8, 64, 255]) for _ in range(r.choice([26, 52, 200, 2000])))
            elif k == 2:
                # valid header, absurd length
                ln = r.choice([2**64 - 1, 2**63, 2**63 - 1, 2**53, 2**32, 2**31, 2**64 - 26, 2**64 - 27, 10**9])
                b = wire.header(r.choice(ids), 1, 1, ln) + bytes(r.choice([0, 10, 100]))
            elif k == 3:
                body = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 4, 12, 40, 400])))
                b = wire.header(r.choice(ids), 1, 1, len(body)) + body
            else:
                # nested absurd lengths inside a valid frame
                kk, v = case.value(r)
                body = bytearray(wire.enc_ent(case.ms[kk], v))
                for _ in range(r.choice([1, 2, 4])):
                    if len(body) >= 8:
                        i = r.randrange(len(body) - 7)
                        body[i:i + 8] = r.choice([b"\xff" * 8, b"\xff\xff\xff\xff\0\0\0\0", b"\xff" * 7 + b"\x7f", b"\0" * 8, b"\0\0\0\0\1\0\0\0"])
                b = wire.header(case.ms[kk].id, 1, 1, len(body)) + bytes(body)
            cmds.append("chunk %d - b%s" % (s, b.hex()))
        cmds += ["drain %d" % s, "drop %d" % s]
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    for i, (a, note) in enumerate(out):
        if a == "PANIC" or a == "BADRESULT":
            c.violation("%s-raises" % side, "%s reader raised on arbitrary bytes: %s" % (side, note), rep(case, cmds, out, i, "no exception"))
            return
        if cmds[i].startswith("chunk"):
            c.seen(side + " garbage chunks")
            c.ok("%s garbage %d %s" % (side, len(cmds[i]) // 8, a[:4]))


# ---------------------------------------------------------------- C06
def mw_enc(body, mid, seq):
    return bytes([seq & 255]) + bytes(x ^ 0x5a for x in body) + bytes([mid & 255])


def c06(c):
    with build.Scratch("C06") as d:
        l = cases(c, d, c.pick(6, 60), True, rs=True, ts=True, mw=True)
        pmap(lambda x: [middleware(c, x, s, c.pick(200, 1200)) for s in ("rust", "ts", "ts-throw")], l, 8)


def middleware(c, case, side, n):
    drv = case.rsmw if side == "rust" else case.ts
    plain = case.rs if side == "rust" else case.ts
    pre = [] if side == "rust" else ["install %s" % ("throw" if side == "ts-throw" else "return")]
    r = c.rng("mw", case.name, side)
    items = []
    for i in range(n):
        k, v = case.value(r)
        q = r.choice([r.getrandbits(31), 0, 1, 255, 256, 0xDDDC0000 + i])
        if i % 9 == 4:
            q = 0xEEEE0000 + i
        if i % 7 == 3:
            q = 0xDDDD0000 + i
        u = r.choice([None, None, "user-%d" % i, "", "ключ%d" % i])
        items.append((k, v, q, u))
    toks = [wire.toks(case.ms[k], v) for k, v, q, u in items]
    pc = ["pack %d %d - %s" % (k, 7, t) for (k, v, q, u), t in zip(items, toks)]
    po = plain.batch(pc)
    if died(c, case, side, pc, po):
        return
    bodies = [bytes.fromhex(a[3:])[wire.HEADER:] if a.startswith("OK ") else None for a, _ in po]
    cmds = list(pre)
    at = []
    ux = lambda u: "-" if u is None else "x" + u.encode().hex()
    live = [i for i in range(n) if bodies[i] is not None]
    for i in live:
        k, v, q, u = items[i]
        at.append((i, len(cmds)))
        cmds += ["pack %d %d %s %s" % (k, q, ux(u), toks[i]), "mw"]
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    wired = {}
    for i, p in at:
        k, v, q, u = items[i]
        e = case.ms[k]
        a, log = out[p][0], out[p + 1][0].split("|")[1:]
        log = [x for x in log if x]
        want = "E x%s %d %d %s" % (bodies[i].hex(), e.id, q, ux(u))
        if log != [want]:
            c.violation("%s-encode-calls" % side, "packing %s called the middleware %d times: %s; expected once with %s" % (e.full(), len(log), [x[:160] for x in log], want[:160]), rep(case, cmds, out, p + 1, want))
            return
        if q >> 16 == 0xEEEE:
            if not a.startswith("ERR"):
                c.violation("%s-encode-error" % side, "middleware refused to encode, pack answered %s" % a[:100], rep(case, cmds, out, p, "ERR"))
                return
            c.seen(side + " refused by encode")
            c.ok("%s enc-refused %s" % (side, e.kind))
            continue
        tb = mw_enc(bodies[i], e.id, q)
        g = bytes.fromhex(a[3:]) if a.startswith("OK ") else b""
        if g[wire.HEADER:] != tb or wire.parse_header(g)["len"] != len(tb):
            c.violation("%s-encode-result" % side, "what the middleware returned is not what is sent: %s" % a[:200], rep(case, cmds, out, p, tb.hex()))
            return
        if q >> 16 == 0xDDDD and len(wired) % 2:
            # refused by the middleware though readable without it
            g = g[:wire.HEADER - 8] + len(bodies[i]).to_bytes(8, "little") + bodies[i]
        wired[i] = g
        c.seen(side + " encode calls")
        c.ok("%s enc %s %s" % (side, wire.size_class(e, v), u is None))
    # reading: several connections, messages of each in order, several messages per chunk
    cmds = list(pre)
    groups = []
    ids = [i for i in sorted(wired)]
    p = 0
    s = 0
    while p < len(ids):
        m = r.choice([1, 2, 5])
        grp = ids[p:p + m]
        p += m
        u = r.choice([None, "conn-%d" % s, "\u00fc", ""])
        groups.append((grp, u, len(cmds)))
        data = b"".join(wired[i] for i in grp)
        cut = r.randint(0, len(data))
        cmds += ["new %d" % s, "chunk %d %s b%s" % (s, ux(u), data[:cut].hex()), "chunk %d %s b%s" % (s, ux(u), data[cut:].hex()), "mw", "drain %d" % s, "stat %d" % s, "drop %d" % s]
        s += 1
    out = drv.batch(cmds)
    if died(c, case, side, cmds, out):
        return
    for grp, u, p in groups:
        log = [x for x in out[p + 3][0].split("|")[1:] if x]
        want = ["D x%s %d %d %s" % (wired[i][wire.HEADER:].hex(), case.ms[items[i][0]].id, items[i][2], ux(u)) for i in grp]
        if log != want:
            c.violation("%s-decode-calls" % side, "reading %d messages called the middleware %d times: %s; expected %s" % (len(grp), len(log), [x[:120] for x in log], [x[:120] for x in want]), rep(case, cmds, out, p + 3, want))
            return
        got = [parse_msg("MSG " + m) for m in out[p + 4][0].split("|")[1:]]
        exp = [(items[i][2], ("%s %s" % (case.ms[items[i][0]].full(), toks[i])).strip()) for i in grp if items[i][2] >> 16 != 0xDDDD]
        if None in got or [(m["seq"], m["body"]) for m in got] != exp:
            c.violation("%s-decode-result" % side, "delivered %s, expected %s" % (out[p + 4][0][:300], str(exp)[:300]), rep(case, cmds, out, p + 4, exp))
            return
        refused = len(grp) - len(exp)
        errs = [a for a, _ in out[p + 1:p + 3] if a.startswith("ERR")]
        if (refused > 0) != (len(errs) > 0) or out[p + 5][0] != "0 0" or any(a not in ("OK",) and not a.startswith("ERR") for a, _ in out[p + 1:p + 3]):
            c.violation("%s-decode-errors" % side, "%d messages refused by the middleware; chunks answered %s, then %s" % (refused, [(a, n) for a, n in out[p + 1:p + 3]], out[p + 5][0]), rep(case, cmds, out, p + 5, None))
            return
        c.seen(side + " decode calls", len(grp))
        c.seen(side + " refused by decode", refused)
        c.ok("%s dec %s %d %d %s" % (side, case.name, len(grp), refused, u is None), sample="%s: %d messages, identity %s, %d refused" % (side, len(grp), u, refused))
