"""C20: generated TypeScript producers under a recording transport (ts/producer.ts), judged record by record.

JavaScript runs one thing at a time, so the record is checked in its order: the records between `E ...` and `e` are the
immediate reaction to one event of the transport or of the application; what follows a handler (answer, broadcasts,
deferred call, error) is a chain of its own that starts with the handler's end `C n` and has to be complete at the end.
"""
import json, os, random, re
from . import build, flow, gen, pmodel, producer, proj, rsprod, tsglue, wire
from .build import HarnessError
from .mon import pmap

LIB = os.path.join(build.VERIF, "ts")
ERRS = ["EmitError", "Disconnect", "EmitErrorAndDisconnect", "Log", "Ignore"]


def low(s):
    return s[:1].lower() + s[1:]


def bname(ref):
    return ref.replace(".", "")


def bcast_code(bs):
    o = []
    for b in bs:
        one = "const u = h.uuids(%s); const m = h.v.get(t, %s); r.broadcast(u).%s(m); h.misuse(r, %s, m);"
        if b.opt:
            o.append("if (t.some()) { %s }" % (one % ("t.s()", json.dumps(b.ref), bname(b.ref), json.dumps(bname(b.ref)))))
        else:
            o.append('{ const w = t.s(); if (w !== "M") { %s } }' % (one % ("w", json.dumps(b.ref), bname(b.ref), json.dumps(bname(b.ref)))))
    return " ".join(o)


def misuse_code(q, answer):
    """calls for the broadcasts of the request which are not described for this answer"""
    ok = set(b.ref for a in q.actions if a.response == answer for b in a.bcasts)
    return " ".join("h.misuse(r, %s, m0);" % json.dumps(bname(x)) for x in sorted(set(b.ref for a in q.actions for b in a.bcasts) - ok))


def request_stub(q):
    m = q.ref.lower()
    o = ['import { Response } from "../implementation/responses/%s";\nimport { h } from "%s/producer";\n' % (m, LIB)]
    o.append("export async function response(request: any, scope: any): Promise<Response> {\n")
    o.append("    const t = await h.enter(%s, scope.consumer, scope.filter, scope.producer, scope, request, %s);\n" % (json.dumps("q:" + q.ref), json.dumps(q.ref)))
    o.append('    const k = t.s();\n    if (k === "T") { throw new Error("refused"); }\n')
    o.append('    if (k === "E") { const m0 = h.v.get(t, %s); const r: any = new Response(m0); %s return r; }\n    switch (t.n()) {\n' % (json.dumps(q.err), misuse_code(q, q.err)))
    for i, a in enumerate(q.actions):
        o.append("        case %d: { const m0 = h.v.get(t, %s); const r: any = new Response(m0); %s %s return r; }\n" % (i, json.dumps(a.response), misuse_code(q, a.response), bcast_code(a.bcasts)))
    o.append('        default: throw new Error("driver: action");\n    }\n}\n')
    return "".join(o)


def event_stub(ref, bcasts, default):
    m = ref.lower()
    o = ['import { h } from "%s/producer";\n' % LIB]
    if bcasts:
        o.append('import { Output } from "../implementation/events/%s";\n' % m)
    o.append("export async function emit(x: any, filter: any, context: any, producer: any): Promise<any> {\n")
    if default:
        o.append("    const t = await h.enter(%s, x, filter, producer, undefined);\n" % json.dumps("e:" + ref))
    else:
        o.append("    const t = await h.enter(%s, undefined, filter, producer, undefined, x, %s);\n" % (json.dumps("e:" + ref), json.dumps(ref)))
    o.append('    if (t.s() === "E") { throw new Error("refused"); }\n')
    if bcasts:
        o.append("    const r: any = new Output(); %s return r;\n" % bcast_code(bcasts))
    o.append("}\n")
    return "".join(o)


def beacon_stub(ref):
    return ('import { h } from "%s/producer";\nexport async function emit(beacon: any, scope: any): Promise<void> {\n'
            "    const t = await h.enter(%s, scope.consumer, scope.filter, scope.producer, scope, beacon, %s);\n"
            '    if (t.s() === "E") { throw new Error("refused"); }\n}\n') % (LIB, json.dumps("b:" + ref), json.dumps(ref))


ERROR = ('import { h } from "%s/producer";\nexport function emit(error: any, context: any, producer: any, consumer: any, filter: any): Promise<void> {\n'
         "    return h.error(error, consumer, filter);\n}\n") % LIB
SIMPLE = ('import { h } from "%s/producer";\nexport function emit(context: any, producer: any): Promise<void> {\n    h.log("%s");\n    return Promise.resolve();\n}\n')


def install(d, f):
    from . import outputs
    base = dict((s, b) for s, t, b in outputs.bases(f) if t == "typescript")["producer"]
    P = os.path.join(d, base)
    schema = flow.with_service(f)
    for q in f.requests:
        proj.write(P + "/responses/%s.ts" % q.ref.lower(), request_stub(q))
    seen = set()
    for e in f.events:
        seen.add(e.ref)
        proj.write(P + "/events/%s.ts" % e.ref.lower(), event_stub(e.ref, e.bcasts, e.default))
    for x in ("connected", "disconnected"):
        if x not in seen:
            proj.write(P + "/events/%s.ts" % x, event_stub(x, [], True))
    for b in f.beacons:
        proj.write(P + "/beacons/%s.ts" % b.lower(), beacon_stub(b))
    proj.write(P + "/events/error.ts", ERROR)
    proj.write(P + "/events/ready.ts", SIMPLE % (LIB, "READY"))
    proj.write(P + "/events/shutdown.ts", SIMPLE % (LIB, "SHUTDOWN"))
    k, a = rsprod.key_refs(f)
    json.dump(tsglue.schema_json(schema), open(d + "/schema.json", "w"))
    evs = [dict(name=low(bname(e.ref)) if not e.default else "", ref=e.ref) for e in f.events]
    proj.write(d + "/main.ts", 'import * as P from "%s/implementation/protocol";\nimport { Producer, Context } from "%s";\nimport { main } from "%s/producer";\n'
               "main(P, Producer, Context, %s, %s, %s, %s);\n" % (P, P, LIB, json.dumps(d + "/schema.json"), json.dumps(k), json.dumps(a), json.dumps(evs)))
    return d + "/main.ts"


def build_harness(d, f):
    js = d + "/producer.js"
    p = build.esbuild(install(d, f), js, {"clibri": os.path.join(LIB, "clibri/index.ts")})
    return (["node", "--max-old-space-size=1024", js] if p.returncode == 0 else None), p.stderr


# ---------------------------------------------------------------- workload
class Work(producer.Work):
    def pack(self, ref, v=None, seq=None):
        # sequences of a case are distinct, so that an answer names its request
        if not hasattr(self, "seqs"):
            self.seqs = set()
        if seq is None:
            while True:
                seq = self.r.choice([0, 1, 2**32 - 1, 2**31, self.r.randint(2, 60), self.r.getrandbits(32), self.r.getrandbits(32)])
                if seq not in self.seqs:
                    break
        self.seqs.add(seq)
        return producer.Work.pack(self, ref, v, seq)

    def bcasts(self, bs):
        o = []
        for b in bs:
            if not b.opt and self.r.random() < 0.03:
                o.append("M")
            else:
                o += producer.Work.bcasts(self, [b])
        return o

    def decision(self, name):
        d = producer.Work.decision(self, name)
        if name[0] == "q" and self.r.random() < 0.06:
            # the handler fails instead
            self.gates += 1
            d = "%d 0 0 T" % (self.gates if self.r.random() < 0.3 else 0)
        return d

    def build(self):
        cmds = producer.Work.build(self)
        r = self.r
        t = cmds[0].split()
        if r.random() < 0.3:
            t[2] = r.choice(ERRS)
        t += [str(int(r.random() < 0.05)), str(r.choice([0, 0, 1, 2, 2, 3]))]
        cmds[0] = " ".join(t)
        out = []
        for x in cmds:
            p, y = ("+", x[1:]) if x.startswith("+") else ("", x)
            if y.startswith("control shutdown"):
                y = "control destroy"
            y = y.replace("control send - ", "control send %d " % r.randint(1, self.n))
            out.append(p + y)
        return out


# ---------------------------------------------------------------- model
class Bad(Exception):
    def __init__(self, key, text):
        Exception.__init__(self, text)
        self.key, self.text = key, text


class Conn:
    def __init__(self, n):
        self.n, self.buf = n, b""
        self.key = self.assigned = None
        self.hash = self.discredited = False


class Call:
    def __init__(self, n, name, u, conn, seq):
        self.n, self.name, self.u, self.conn, self.seq = n, name, u, conn, seq
        self.gate, self.deferred, self.ops = 0, False, []
        self.outcome = None      # tokens after the operations
        self.ended = False
        self.answer = None       # expected (ref, toks)
        self.state = "run"       # run, answer, casts, failed, done
        self.q = False
        self.casts = []          # [(uuid, package)]
        self.opened_at = None
        self.confirm = False     # the confirmation of the connection is due


class Model:
    """Feeds on the log of one case."""
    def __init__(self, sp, hashes, commands, log):
        self.sp, self.hashes, self.commands, self.log = sp, hashes, commands, log
        t = commands[0].split()
        self.ident = "Log" if t[1] == "default" else t[1]
        self.errs = "Log" if t[2] == "default" else t[2]
        self.conns = {}
        self.calls = {}
        self.dec = {}
        self.stack = []          # events being handled: [generator, expected records]
        self.force = []          # records which must come next (operations of the application)
        self.owed = []           # errors of chains to be reported: (u, kind)
        self.due = []            # broadcasts to be seen: dict(call, u, pkt, from, to)
        self.sent = {}           # (u, hex) -> log positions of sends outside of events
        self.tdown = False
        self.gone = False        # destroyed: nothing is subscribed
        self.covered = set()
        self.opened = set()
        self.settled = None
        self.optional_x = {}
        self.used_casts = {}

    # -------------------------------------------------- expectations of one event
    # A generator yields lists of records to come in any order: (regex or function, text, optional)
    def rec(self, v, what):
        return (lambda x: x == v, what, False)

    def want_send(self, u, ref, seq, check):
        e = self.sp.find(ref)

        def f(x):
            p = x.split(" ")
            if p[0] not in ("S", "SF") or p[1] != str(u):
                return False
            b = bytes.fromhex(p[2][1:])
            if len(b) < wire.HEADER:
                return False
            h = wire.parse_header(b)
            if h["id"] != e.id or h["seq"] != seq or h["len"] != len(b) - wire.HEADER:
                return False
            try:
                return check(wire.toks_ent(e, wire.dec_ent(e, b[wire.HEADER:]), []))
            except wire.Bad:
                return False
        return (f, "the transmission of %s with sequence %s to %s" % (ref, seq, u), False)

    def want_d(self, u):
        return (lambda x: re.match(r"DF? %d$" % u, x) is not None, "the disconnection of %d" % u, False)

    def want_x(self, u, opt=False):
        return (lambda x: x.startswith("X %s " % (u if u is not None else "-")), "an error event for %s" % (u if u is not None else "nobody"), opt)

    def err(self, u, c):
        """what the policy for errors asks for"""
        o = []
        if self.errs in ("Disconnect", "EmitErrorAndDisconnect") and c is not None:
            o.append(self.want_d(u))
        if self.errs in ("EmitError", "EmitErrorAndDisconnect"):
            o.append(self.want_x(u if c is not None else None))
        return o

    def discredit(self, c):
        c.discredited = True

    def event(self, t):
        k = t[0]
        if self.gone:
            return
        if k == "ready":
            yield [self.rec("READY", "the ready event")]
        elif k == "down":
            yield [self.rec("SHUTDOWN", "the shutdown event")]
        elif k == "conn":
            u = int(t[1])
            if u in self.conns:
                yield [self.want_x(None)]
                return
            c = self.conns[u] = Conn(u)
            yield [self.handler("e:connected", u, c, None, None)]
        elif k == "disc":
            u = int(t[1])
            c = self.conns.pop(u, None)
            if c is None:
                yield [self.want_x(None)]
                return
            yield [self.handler("e:disconnected", u, c, None, None)]
        elif k == "err":
            yield [(lambda x: x.startswith("X - transport%s " % t[1]), "the error event of the transport", False)]
        elif k == "app":
            e = self.sp.events[int(t[1])]
            yield [self.handler("e:" + e.ref, None, None, e.ref, t[2:])]
        else:
            u = int(t[1])
            yield from self.data(u, self.conns.get(u), bytes.fromhex(t[2][1:]))

    def data(self, u, c, data):
        if c is None:
            e = self.err(u, None)
            if e:
                yield e
            return
        if c.discredited:
            o = [(f, w, True) for f, w, _ in self.err(u, c)]
            if o:
                yield o
            return
        c.buf += data
        msgs, c.buf = wire.split_stream(c.buf)
        good, nbad = [], 0
        for h, body in msgs:
            e = self.sp.byid.get(h["id"])
            try:
                if e is None or h["sig"] != 0:
                    raise wire.Bad("id")
                good.append((e.full(), h["seq"], wire.toks_ent(e, wire.dec_ent(e, body), [])))
            except wire.Bad:
                nbad += 1
        if nbad:
            self.covered.add(("garbage", self.errs))
            o = self.err(u, c)
            if self.errs in ("Disconnect", "EmitErrorAndDisconnect"):
                self.discredit(c)
            if o:
                # one report or one for each
                self.stack[-1][4] = [f for f, _, _ in o] * (nbad - 1)
                yield o
        for ref, seq, toks in good:
            if c.discredited:
                self.covered.add(("dropped",))
                return
            yield from self.message(u, c, ref, seq, toks)

    def message(self, u, c, ref, seq, toks):
        sp = self.sp
        if ref == sp.k and not c.hash:
            c.key = toks
            self.covered.add(("key",))
            yield [self.want_send(u, sp.KeyResponse, seq, lambda x: x == ["s" + pmodel.uuid_text(u).encode().hex()])]
        elif ref == sp.HashRequest:
            good = toks == ["s" + x.encode().hex() for x in self.hashes]
            self.covered.add(("fingerprint", good))
            o = [self.want_send(u, sp.HashResponse, seq, lambda x: (x == ["N"]) == good)]
            if good:
                c.hash = True
            else:
                self.discredit(c)
                o += [self.want_d(u), self.want_x(u)]
            yield o
        elif not c.hash or c.key is None:
            self.covered.add(("refused", c.hash))
            self.discredit(c)
            yield [self.want_d(u), self.want_x(u)]
        elif c.assigned is None and self.ident not in ("Ignore", "Log"):
            self.covered.add(("unassigned", self.ident))
            o = []
            if self.ident != "EmitError":
                o.append(self.want_d(u))
                self.discredit(c)
            if self.ident != "Disconnect":
                o.append(self.want_x(u))
            yield o
        elif ref in sp.req or ref in sp.bea:
            self.covered.add(("served", self.ident, c.assigned is not None))
            yield [self.handler(("q:" if ref in sp.req else "b:") + ref, u, c, ref, toks, seq)]
        else:
            self.covered.add(("unknown", self.errs))
            o = self.err(u, c)
            if self.errs in ("Disconnect", "EmitErrorAndDisconnect"):
                self.discredit(c)
            if o:
                yield o

    HREC = re.compile(r"H (\d+) (\S+) (\S+) K\[ (.*?) ?\] A\[ (.*?) ?\] F\[ (\S*) ?\] V ?(.*)$")

    def filters(self, u):
        cs = self.conns
        me = u if u is not None else 1

        def l(x):
            return ",".join(str(k) for k in sorted(x))
        return "|".join([l(cs), l(k for k in cs if k != me), l(k for k in cs if k not in (me, 1, 3)), l(cs),
                         l(k for k in cs if cs[k].key is not None), l(k for k in cs if cs[k].assigned is not None and k != 2)])

    def handler(self, name, u, c, ref, toks, seq=None):
        def f(x):
            m = self.HREC.match(x)
            if not m or m.group(2) != name:
                return False
            who = str(u) if u is not None else "-"
            if m.group(3) != who:
                raise Bad("handler-identity", "%s is called for %s instead of %s" % (name, m.group(3), who))
            for i, (n, v) in enumerate((("key", c and c.key), ("assigned key", c and c.assigned))):
                want = " ".join(v) if v is not None else "none"
                if m.group(4 + i) != want:
                    raise Bad("handler-identity", "%s sees the %s '%s' of %s instead of '%s'" % (name, n, m.group(4 + i)[:200], who, want[:200]))
            if m.group(6) != self.filters(u):
                raise Bad("handler-filter", "%s for %s: filter returned %s instead of %s" % (name, who, m.group(6), self.filters(u)))
            if m.group(7).split() != (toks or []):
                raise Bad("handler-value", "%s for %s got the value '%s' instead of '%s'" % (name, who, m.group(7)[:200], " ".join(toks or [])[:200]))
            self.called(int(m.group(1)), name, u, c, seq)
            return True
        return (f, "a call of %s for %s" % (name, u), False)

    def called(self, n, name, u, c, seq):
        ds = self.dec.get(name)
        if not ds:
            raise HarnessError("no decision for " + name)
        t = pmodel.Tok(ds.pop(0))
        k = Call(n, name, u, c, seq)
        k.gate, k.deferred = t.n(), t.n() == 1 and name[0] in "qb"
        for _ in range(t.n()):
            op = t.s()
            if op in ("k", "a"):
                ov = t.n()
                k.ops.append("O %d %s %d %s" % (n, op, ov, " ".join(t.ents(self.sp.find(self.sp.k if op == "k" else self.sp.a), None))))
            elif op == "D":
                k.ops.append("O %d D %d" % (n, t.n()))
            elif op == "S":
                k.ops.append("O %d S %d %s" % (n, t.n(), t.s()))
            else:
                i = t.n()
                k.ops.append("O %d V %d" % (n, i))
                t.ents(self.sp.find(self.sp.events[i].ref), None)
        k.t = t
        self.calls[n] = k
        self.covered.add((name, len(self.conns)))

    # -------------------------------------------------- end of a handler: what is due
    def take_casts(self, k, bs):
        t, missing = k.t, False
        for b in bs:
            if b.opt:
                if t.s() == "N":
                    continue
                us = t.s()
            else:
                us = t.s()
                if us == "M":
                    missing = True
                    continue
            us = [] if us == "-" else [int(x) for x in us.split(",")]
            val = t.ents(self.sp.find(b.ref), None)
            k.casts += [(u, b.ref, val) for u in us]
            self.covered.add(("broadcast", b.ref, len(us)))
        return missing

    def ended(self, k, pos):
        k.ended = True
        k.confirm = k.name == "e:connected" and self.conns.get(k.u) is k.conn
        t, sp = k.t, self.sp
        o = t.s()
        ref = k.name[2:]
        if k.name[0] == "q":
            q = sp.req[ref]
            if o == "T":
                return self.fails(k)
            if o == "E":
                k.answer = (q.err, t.ents(sp.find(q.err), None))
            else:
                a = q.actions[t.n()]
                k.answer = (a.response, t.ents(sp.find(a.response), None))
                if self.take_casts(k, a.bcasts):
                    self.covered.add(("required broadcast missing",))
                    k.answer = None
                    return self.fails(k)
            k.state = "answer"
        elif k.name[0] == "b":
            if o == "E":
                return self.fails(k)
            k.answer = (sp.BeaconOk, ["N"])
            k.state = "answer"
        else:
            k.state = "done"
            if o == "E":
                return
            e = sp.ev.get(ref)
            if e is None:
                return
            if self.take_casts(k, e.bcasts):
                k.casts = []
                return
            self.cast(k, pos)
        self.covered.add((k.name, o))

    def fails(self, k):
        k.state = "failed"
        c = k.conn
        o = self.err(k.u, c)
        alive = self.conns.get(k.u) is c and not c.discredited
        for f, w, _ in o:
            self.owed.append([f, w, not alive, k])
        self.covered.add(("failed", k.name[0], self.errs, alive))

    def cast(self, k, pos):
        for n, (u, ref, val) in enumerate(k.casts):
            self.due.append(dict(call=k, u=u, ref=ref, val=val, frm=pos, to=None, got=None, n=n))

    # -------------------------------------------------- the log
    def run(self):
        for pos, l in enumerate(self.log):
            self.pos = pos
            self.one(l, pos)
        self.finish()

    def top(self):
        return self.stack[-1] if self.stack else None

    def advance(self, s):
        """fetches the next group of expected records of the event on top"""
        while not s[1]:
            try:
                s[1] = list(next(s[0]))
            except StopIteration:
                s[2] = True
                return

    def required(self, s):
        self.advance(s)
        while s[1] and all(opt for _, _, opt in s[1]):
            s[1] = []
            self.advance(s)
        return [w for _, w, opt in s[1] if not opt]

    def match(self, s, l):
        while True:
            self.advance(s)
            if not s[1]:
                return False
            for i, (f, w, opt) in enumerate(s[1]):
                if f(l):
                    del s[1][i]
                    return True
            if all(opt for _, _, opt in s[1]):
                s[1] = []
                continue
            return False

    def text(self, l):
        p = l.split(" ")
        if p[0] in ("S", "SF"):
            b = bytes.fromhex(p[2][1:])
            if len(b) >= wire.HEADER:
                h = wire.parse_header(b)
                e = self.sp.byid.get(h["id"])
                return "%s to %s: %s sequence %d %s" % (p[0], p[1], e.full() if e else h["id"], h["seq"], b[wire.HEADER:][:60].hex())
        return l[:300]

    def key(self, l):
        k = l.split(" ")[0]
        return {"S": "send", "SF": "send", "D": "disconnect", "DF": "disconnect", "X": "error-event", "H": "handler", "Q": "deferred"}.get(k, "record")

    def one(self, l, pos):
        k, _, rest = l.partition(" ")
        if k in ("THROWN", "UNHANDLED", "UNCAUGHT"):
            raise Bad("throws", "the producer throws: " + l)
        if k == "NODEC":
            raise HarnessError("no decision")
        if self.force:
            f = self.force.pop(0)
            if not re.match(f, l):
                raise Bad("control-" + self.key(l), "expected %s of the application's operation, got %s" % (f[:200], self.text(l)))
            return
        if k == "#":
            return self.command_end(int(rest), pos)
        if k == "r":
            return self.result(rest)
        if k == "T":
            if rest == "shutdown":
                if not self.may_stop:
                    raise Bad("stops", "the producer stops its transport by itself")
                self.tdown = True
            return
        if k == "G":
            self.opened.add(int(rest))
            return
        if k == "A":
            t = self.commands[int(rest)].lstrip("+").split()
            if t[1] == "send":
                self.force = [r"SF? %s %s$" % (t[2], t[3])]
            elif t[1] == "broadcast":
                us = [] if t[2] == "-" else t[2].split(",")
                self.force = [r"SF? (?:%s) %s$" % ("|".join(us), t[3]) for _ in us]
                self.covered.add(("control broadcast", len(us)))
            elif t[1] == "disconnect":
                self.force = [r"DF? %s$" % t[2]]
            else:
                self.gone = True
                self.force = ["T shutdown$"]
            self.force.append("a$")
            self.covered.add(("control", t[1]))
            return
        if k == "E":
            t = rest.split()
            s = [self.event(t), [], False, l, []]
            self.stack.append(s)
            # state changes of the event belong to its begin
            self.advance(s)
            return
        if k == "e":
            s = self.stack.pop()
            miss = self.required(s)
            if miss:
                raise Bad("missing-" + "-".join(re.findall("[a-z]+", miss[0])[:5]), "'%s' was handled without %s" % (s[3][:120], "; ".join(miss)))
            return
        if k == "O":
            p = rest.split(" ")
            c = self.calls[int(p[0])]
            if not c.ops or c.ops[0] != l:
                raise HarnessError("operation %s, expected %s" % (l[:200], c.ops[:1]))
            c.ops.pop(0)
            if p[1] in ("k", "a"):
                self.identity(c.conn, p[1], p[2] == "1", p[3:])
            elif p[1] == "D":
                self.force = [r"DF? %s$" % p[2]]
            elif p[1] == "S":
                self.force = [r"SF? %s %s$" % (p[2], p[3])]
            return
        if k == "C":
            c = self.calls[int(rest)]
            if c.ops:
                raise HarnessError("operations left: %s" % c.ops)
            return self.ended(c, pos)
        s = self.top()
        if s is not None:
            if self.match(s, l):
                return
            for f in s[4]:
                if f(l):
                    s[4].remove(f)
                    return
            # a chain never runs inside of an event
            raise Bad("extra-" + self.key(l), "'%s': unexpected %s%s" % (s[3][:120], self.text(l), "; expected " + "; ".join(w for _, w, _ in s[1]) if s[1] else ""))
        return self.chain(l, pos)

    def identity(self, c, what, ov, toks):
        name = "key" if what == "k" else "assigned"
        old = getattr(c, name)
        e = self.sp.find(self.sp.k if what == "k" else self.sp.a)
        if old is not None and not ov:
            o, n = pmodel.split_fields(e, old), pmodel.split_fields(e, toks)
            out = []
            for f, a, b in zip(e.fields, o, n):
                out += a if f.opt and b == ["N"] else b
            toks = out
        setattr(c, name, toks)
        self.covered.add(("identity", what, ov, old is None))

    # -------------------------------------------------- records of chains
    def chain(self, l, pos):
        k = l.split(" ")[0]
        if k in ("S", "SF"):
            p = l.split(" ")
            u, b = int(p[1]) if p[1].isdigit() else -1, bytes.fromhex(p[2][1:])
            if len(b) < wire.HEADER:
                raise Bad("extra-send", "unexpected " + self.text(l))
            h = wire.parse_header(b)
            e = self.sp.byid.get(h["id"])
            try:
                val = wire.toks_ent(e, wire.dec_ent(e, b[wire.HEADER:]), []) if e else None
            except wire.Bad:
                raise Bad("broken-send", "unreadable " + self.text(l))
            if e is None or h["sig"] != 0 or h["len"] != len(b) - wire.HEADER:
                raise Bad("broken-send", "wrong header: " + self.text(l))
            for c in self.calls.values():
                if c.state == "answer" and c.u == u and c.answer[0] == e.full() and c.seq == h["seq"] and c.answer[1] == val:
                    if k == "SF":
                        self.covered.add(("failed answer",))
                        return self.fails(c)
                    c.state = "casts" if c.name[0] == "q" else "done"
                    if c.state == "casts":
                        self.cast(c, pos)
                    c.qdue = c.deferred
                    return
            for d in self.due:
                if d["got"] is None and d["u"] == u and d["ref"] == e.full() and d["val"] == val and h["seq"] == 0 and d["call"].state != "closed":
                    d["got"] = pos
                    return
            for c in self.calls.values():
                if e.full() == self.sp.Confirm and c.confirm and c.u == u and h["seq"] == 0:
                    c.confirm = False
                    self.covered.add(("confirmed", k == "SF"))
                    return
            near = [c for c in self.calls.values() if c.state == "answer" and c.seq == h["seq"]]
            raise Bad("extra-send", "nobody asked for %s%s" % (self.text(l), "; that sequence waits for %s %s" % (near[0].answer[0], " ".join(near[0].answer[1])[:200]) if near else ""))
        if k in ("D", "DF", "X"):
            for i, (f, w, opt, c) in enumerate(self.owed):
                if f(l):
                    del self.owed[i]
                    if k != "X":
                        self.discredit(c.conn)
                    return
            raise Bad("extra-" + self.key(l), "nothing asks for " + self.text(l))
        if k == "Q":
            c = self.calls[int(l.split()[1])]
            if not c.deferred or c.q:
                raise Bad("deferred", "deferred call of %d is made again" % c.n)
            if c.state not in ("casts", "done"):
                raise Bad("deferred", "deferred call of %s (%s) before its answer" % (c.n, c.name))
            for d in self.due:
                if d["call"] is c and d["got"] is None:
                    # the same broadcast of another call may have been counted instead
                    for x in self.due:
                        if not x["call"].q and x["call"] is not c and x["got"] is not None and x["got"] > d["frm"] and all(x[n] == d[n] for n in ("u", "ref", "val")):
                            x["got"], d["got"] = None, x["got"]
                            break
            miss = [d for d in self.due if d["call"] is c and d["got"] is None]
            if miss:
                raise Bad("deferred", "deferred call of %s (%s) before its broadcast %s to %s" % (c.n, c.name, miss[0]["ref"], miss[0]["u"]))
            c.q = True
            self.covered.add(("deferred", c.name[0]))
            return
        if k == "H":
            raise Bad("extra-handler", "unexpected call: " + l[:200])
        raise Bad("extra-record", "unexpected record: " + l[:200])

    # -------------------------------------------------- commands
    may_stop = False

    def command_begin(self, i):
        t = self.commands[i].lstrip("+").split()
        if t[0] == "do":
            self.dec.setdefault(t[1], []).append(" ".join(t[2:]))
        elif t[0] == "ready":
            self.may_stop = self.commands[0].split()[-2] == "1"
        self.cur = i

    def command_end(self, i, pos):
        quiet = self.commands[i].startswith("+")
        if self.stack:
            raise HarnessError("an event was not closed")
        t = self.commands[i].lstrip("+").split()
        if not quiet:
            self.complete(pos, i)
        if t[0] == "ready":
            if (i, "listen") not in self.covered and not any(x == ("listen",) for x in self.covered):
                raise Bad("listen", "the listening call did not end")
            if self.may_stop:
                if not self.tdown:
                    raise Bad("listen", "the transport failed to listen and was not stopped")
                self.gone = True
        self.may_stop = False
        if i + 1 < len(self.commands):
            self.command_begin(i + 1)

    def result(self, rest):
        p = rest.split(" ", 2)
        t = self.commands[int(p[0])].lstrip("+").split()
        if t[0] == "ready":
            want = "err" if self.commands[0].split()[-2] == "1" else "ok"
            if p[1] != want:
                raise Bad("listen", "the listening call ended with %s" % rest)
            self.covered.add(("listen",))
            if want == "err":
                self.gone = True

    def complete(self, pos, i):
        """nothing is in flight any more"""
        for c in self.calls.values():
            if c.state == "closed":
                continue
            if not c.ended:
                if c.gate == 0 or c.gate in self.opened:
                    raise Bad("handler-stuck", "handler call %d of %s did not go on" % (c.n, c.name))
                continue
            if c.state == "answer":
                raise Bad("missing-answer", "call %d of %s ended and was not answered with %s, sequence %s" % (c.n, c.name, c.answer[0], c.seq))
            if c.confirm:
                if self.conns.get(c.u) is c.conn:
                    raise Bad("missing-confirmation", "call %d of %s ended and the connection %d was not confirmed" % (c.n, c.name, c.u))
                c.confirm = False
            if c.state in ("casts", "done") and c.deferred and not c.q:
                raise Bad("missing-deferred", "the deferred call of call %d of %s was not made" % (c.n, c.name))
            c.state = "closed"
        for d in self.due:
            if d["got"] is None:
                raise Bad("missing-broadcast", "call %d of %s: its broadcast %s did not go to %d" % (d["call"].n, d["call"].name, d["ref"], d["u"]))
        # order of the broadcasts of a call, as far as its transmissions cannot be mixed up with others
        same, line = {}, {}
        for d in self.due:
            x = (d["u"], d["ref"], tuple(d["val"]))
            same[x] = same.get(x, 0) + 1
        for d in self.due:
            if same[d["u"], d["ref"], tuple(d["val"])] == 1:
                line.setdefault((d["call"].n, d["u"]), []).append(d)
        for l in line.values():
            for a, b in zip(l, l[1:]):
                self.covered.add(("order",))
                if a["got"] > b["got"]:
                    raise Bad("broadcast-order", "call %d of %s: its broadcast %s went to %d before %s" % (a["call"].n, a["call"].name, b["ref"], a["u"], a["ref"]))
        self.due = []
        for f, w, opt, c in self.owed:
            if not opt:
                raise Bad("missing-error", "call %d of %s failed without %s" % (c.n, c.name, w))
        self.owed = []

    def finish(self):
        if not self.log or self.log[-1] != "# %d" % (len(self.commands) - 1):
            raise Bad("died", "the process ended in the middle of a case: %s" % self.log[-2:])


def judge(c, sp, hashes, cmds, log, src, key=None):
    if isinstance(log, tuple):
        c.violation("died", "the process ended in the middle of a case: " + " / ".join(log[1][-3:]), dict(commands=cmds, log=log[1], **src))
        return
    if log is None:
        return
    m = Model(sp, hashes, cmds, log)
    m.command_begin(0)
    try:
        m.run()
    except Bad as b:
        ctxt = log[max(0, m.pos - 4):m.pos + 2]
        c.violation(key or "ts-" + b.key, b.text[:1200] + "\n    around: " + " | ".join(x[:160] for x in ctxt), dict(commands=cmds, log=log, **src))
        return
    c.seen("records", len(log))
    c.seen("handler calls", len(m.calls))
    c.seen("transmissions", sum(1 for l in log if l[:2] in ("S ", "SF")))
    c.seen("error events and disconnects", sum(1 for l in log if l[:2] in ("X ", "D ", "DF")))
    c.ok(tuple(sorted(map(str, m.covered))), "%d commands: %s" % (len(cmds), ", ".join(sorted({str(x[0]) for x in m.covered}))))


FOCI = ["C13", "C14", "C15", "C16", "C17", "C12"]


def ambiguous(f):
    """answers of one request a TypeScript producer cannot tell apart, since it goes by their message"""
    for q in f.requests:
        rs = [a.response for a in q.actions]
        if len(set(rs)) != len(rs):
            return True
        if any(a.response == q.err and any(not b.opt for b in a.bcasts) for a in q.actions):
            return True
    return False


def split_cases(stdout, cases):
    out, i, base, cur, n = [], 0, 0, [], 0
    for l in stdout.split("\n"):
        m = re.match(r"(#|A|r) (\d+)(.*)$", l)
        if m:
            # a result of an earlier case may come late
            k = int(m.group(2)) - base
            if k < 0:
                continue
            l = "%s %d%s" % (m.group(1), k, m.group(3))
        cur.append(l)
        if l.startswith("# "):
            n += 1
            if n == len(cases[i]):
                out.append(cur)
                base += n
                i += 1
                cur, n = [], 0
                if i == len(cases):
                    break
    while len(out) < len(cases):
        out.append(("partial", cur) if len(out) == i and cur else None)
    return out


def shared(c, which):
    """answers of one request which are the same message: the two situations of known-findings.txt"""
    from . import schema as S
    sc = S.Schema()
    for n in ("Ask", "Ans", "Err", "Note"):
        e = S.Ent("struct", n, sc.root)
        e.fields = [S.Field("x", S.Ty(prim="str"))]
        sc.root.items.append(e)
    sc.number()
    f = flow.Flow(sc)
    f.producer, f.consumer = ["typescript"], ["rust"]
    err = "Ans" if which == "error" else "Err"
    acts = [flow.Action("One", "Ans", [flow.Bcast("Note")])]
    if which == "conclusions":
        acts.append(flow.Action("Two", "Ans", []))
    f.requests.append(flow.Request("Ask", err, acts))
    sp = pmodel.Spec(f)
    w = Work(c.rng("shared"), sp, None, producer.BASE)
    with build.Scratch("tsprod") as d:
        proj.make(d, sc.text(), f.text())
        p = proj.generate(d)
        if p.returncode:
            raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
        exe, err = build_harness(d, f)
        hs = producer.fingerprints(d)
        cmds = ["case Log Log 0 0 0 0 0", "+do e:connected 0 0 0 R", "+do q:Ask 0 0 0 " + ("E s41" if which == "error" else "R 1 s41"), "ready", "conn 1",
                "data 1 x" + (w.pack(sp.k) + w.pack(sp.HashRequest, list(hs)) + w.pack("Ask")).hex(), "settle", "end"]
        p = build.run(exe, input="\n".join(cmds) + "\n", timeout=60)
        judge(c, sp, hs, cmds, split_cases(p.stdout, [cmds])[0], dict(protocol=sc.text(), workflow=f.text()), key="ts-shared-" + which)


def c20(c):
    shared(c, "conclusions")
    shared(c, "error")
    nf, per = c.pick(24, 120), c.pick(60, 160)

    def one(i):
        r = c.rng("flow", i)
        targets = (("typescript",), ("rust",)) if i % 3 else (("rust", "typescript"), ("typescript",))
        while True:
            s, f = gen.flow_for(r, targets, ents=r.choice([8, 12, 16]))
            if f.requests and not ambiguous(f):
                break
        sp = pmodel.Spec(f)
        with build.Scratch("tsprod") as d:
            proj.make(d, s.text(), f.text())
            p = proj.generate(d)
            if p.returncode:
                raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
            exe, err = build_harness(d, f)
            if exe is None:
                raise HarnessError("the generated producer does not bundle: " + err[:1500])
            hs = producer.fingerprints(d)
            cases = [Work(c.rng("case", i, k), sp, hs, producer.FOCUS[FOCI[k % len(FOCI)]]).build() for k in range(per)]
            for k in range(c.pick(1, 4)):
                cases.append(Work(c.rng("long", i, k), sp, hs, dict(producer.FOCUS[FOCI[i % len(FOCI)]], **producer.LONG[(i + k) % len(producer.LONG)])).build())
            src = dict(protocol=s.text(), workflow=f.text())
            try:
                p = build.run(exe, input="\n".join(x for cs in cases for x in cs) + "\n", timeout=200, cpu=150)
            except HarnessError:
                c.violation("hang", "the producer did not come to rest", dict(commands=[x for cs in cases for x in cs], **src))
                return []
            if p.returncode:
                if "driver:" in p.stderr:
                    raise HarnessError(p.stderr[-800:])
                c.violation("died", "the process ended with status %s: %s" % (p.returncode, p.stderr[-600:]), dict(commands=[x for cs in cases for x in cs], **src))
            logs = split_cases(p.stdout, cases)
            if p.returncode == 0 and None in logs:
                c.violation("died", "the process ended before all commands were done", dict(commands=cases[logs.index(None)], **src))
            return [(sp, hs, cs, lg, src) for cs, lg in zip(cases, logs)]
    for i0 in range(0, nf, 8):
        if c.left() < 60:
            break
        for res in pmap(one, range(i0, min(nf, i0 + 8))):
            for x in res or []:
                judge(c, *x)
        c.seen("workflows", min(nf, i0 + 8) - i0)
