"""C21: generated TypeScript consumers under an in-memory transport (ts/consumer.ts), judged record by record.

Everything the model knows comes from the record: the bytes delivered to the consumer, the bytes it transmitted, the calls
of the application. Between `E ...` and `e` lies the immediate reaction to one event of the transport, between `s` and `z`
that to one request being sent; promises settle until the end of a command.
"""
import json, os, re
from . import build, flow, gen, pmodel, producer, proj, rsprod, tsglue, wire
from .build import HarnessError
from .mon import pmap
from .tsprod import Bad, LIB, bname, split_cases


def handlers(q):
    """[(name of the setter, message)] of the described outcomes of a request"""
    if len(q.actions) > 1:
        return [(a.conclusion.lower(), a.response) for a in q.actions] + [("err", q.err)]
    return [("response", q.actions[0].response), ("err", q.err)]


def usable(f):
    """two outcomes with one setter cannot be told apart (see known findings)"""
    for q in f.requests:
        ns = [n for n, _ in handlers(q)]
        if len(set(ns)) != len(ns) or set(ns) & {"send", "destroy"}:
            return False
    return True


def install(d, f):
    from . import outputs
    base = dict((s, b) for s, t, b in outputs.bases(f) if t == "typescript")["consumer"]
    P = os.path.join(d, base)
    schema = flow.with_service(f)
    json.dump(tsglue.schema_json(schema), open(d + "/cschema.json", "w"))
    k, _ = rsprod.key_refs(f)
    conf = dict(schema=d + "/cschema.json", key=k,
                requests=[dict(ref=q.ref, cls=bname(q.ref), handlers=[dict(name=n, ref=r) for n, r in handlers(q)]) for q in f.requests],
                beacons=[dict(ref=b, cls="Beacon" + bname(b)) for b in f.beacons],
                broadcasts=[dict(ref=b, name=bname(b)) for b in f.broadcasts()])
    proj.write(d + "/cmain.ts", 'import * as M from "%s";\nimport { main } from "%s/consumer";\nmain(M, %s);\n' % (P, LIB, json.dumps(conf)))
    return d + "/cmain.ts"


def build_harness(d, f):
    js = d + "/consumer.js"
    p = build.esbuild(install(d, f), js, {"clibri": os.path.join(LIB, "clibri/index.ts")})
    return (["node", "--max-old-space-size=1024", js] if p.returncode == 0 else None), p.stderr


# ---------------------------------------------------------------- workload
class Work(producer.Work):
    def __init__(self, r, sp, f, hashes):
        producer.Work.__init__(self, r, sp, hashes, producer.BASE)
        self.f = f
        self.out = []
        self.ids = 0
        self.cast = f.broadcasts()
        self.n_stream = 0
        self.pend = []      # (id, kind, index) probably waiting for an answer
        self.objs = []
        # a connection is confirmed once
        self.plain = [e.full() for e in sp.ws.messages() if e.full() != sp.Confirm]

    def feed(self, name, b):
        self.out.append("+feed %s x%s" % (name, b.hex()))
        self.n_stream += len(b)

    def push(self, n=None, settle=None):
        r = self.r
        n = self.n_stream if n is None else min(n, self.n_stream)
        left = n
        while left > 0:
            k = left if r.random() < 0.5 else r.choice([1, 2, 25, 26, 27, r.randint(1, left), r.randint(1, left)])
            k = min(k, left)
            left -= k
            q = left > 0 and r.random() < 0.5
            self.out.append("%spush %d" % ("+" if q else "", k))
        self.n_stream -= n
        if r.random() < 0.1:
            self.out.append("push 0")

    def maybe_push(self):
        r = self.r
        x = r.random()
        if x < 0.55:
            self.push()
        elif x < 0.75 and self.n_stream:
            self.push(r.randint(1, self.n_stream))

    def broadcast(self):
        if self.cast and self.r.random() < 0.9:
            ref = self.r.choice(self.cast)
        else:
            ref = self.r.choice(self.plain)
        seq = 0 if self.r.random() < 0.9 else self.r.choice([3999999999, 2**32 - 1])
        self.feed("-", self.pack(ref, seq=seq))

    def junk(self):
        self.feed("-", self.garbage())

    def noise(self, p=0.25):
        r = self.r
        while r.random() < p:
            if r.random() < 0.65:
                self.broadcast()
            else:
                self.junk()
            if r.random() < 0.3:
                self.push(r.randint(1, max(1, self.n_stream)))

    def any_msg(self, but=None):
        return self.pack(self.r.choice([x for x in self.plain if x != but]), seq=0)

    def answer(self, x):
        """an answer for a pending request"""
        r = self.r
        i, kind, k = x
        if r.random() < 0.12:
            b = self.any_msg()
        elif kind == "bea":
            b = self.pack("InternalServiceGroup.BeaconConfirmation", None if r.random() < 0.4 else [None], seq=0)
        else:
            hs = handlers(self.f.requests[k])
            b = self.pack(r.choice(hs)[1], seq=0)
        if r.random() < 0.05:
            # the answer is broken: its request goes on waiting
            g = self.garbage()
            self.feed(i, g)
        self.feed(i, b)
        if r.random() < 0.1:
            # once more
            self.feed(i, b if r.random() < 0.5 else self.any_msg())

    def new(self, kind, tail=False):
        self.ids += 1
        i = "%s%d" % ("q" if kind == "req" else "b", self.ids)
        k = self.r.randrange(len(self.f.requests if kind == "req" else self.f.beacons))
        ref = self.f.requests[k].ref if kind == "req" else self.f.beacons[k]
        self.objs.append((i, kind, k))
        t = self.toks(ref)
        return i, "%s %s %d %s" % (kind, i, k, t), k

    def kind(self):
        ks = (["req"] * 3 if self.f.requests else []) + (["bea"] if self.f.beacons else [])
        return self.r.choice(ks) if ks else None

    def request(self):
        kind = self.kind()
        if kind is None:
            return
        i, cmd, k = self.new(kind)
        if self.r.random() < 0.12:
            kk = self.kind()
            j, nc, k2 = self.new(kk)
            on = self.r.choice([i, "cast", "ready"])
            self.out.append("+on %s %s" % (on, nc))
            self.pend.append((j, kk, k2))
        self.out.append(cmd)
        self.pend.insert(self.r.randint(0, len(self.pend)), (i, kind, k))

    def handshake(self):
        r = self.r
        self.n_stream = 0
        self.out.append("up")
        self.noise(0.15)
        if r.random() < 0.04:
            return False
        self.feed("-", self.pack(self.sp.Confirm, seq=0))
        self.noise(0.15)
        self.push()
        x = r.random()
        if x < 0.05:
            return False
        uuid = r.choice(["1b4e28ba-2fa1-11d2-883f-0016d3cca427", "u%d" % r.randint(1, 99), "\u00e9" * 3])
        key = self.pack("InternalServiceGroup.SelfKeyResponse", [uuid], seq=0)
        good = True
        if x < 0.1:
            self.feed("k", self.any_msg("InternalServiceGroup.SelfKeyResponse"))
            good = False
        elif x < 0.13:
            # the answer of nobody
            self.feed("-", key)
            good = False
        else:
            self.feed("k", key)
        self.noise(0.15)
        if r.random() < 0.1:
            self.request()
        self.push()
        if good:
            x = r.random()
            if x < 0.05:
                return False
            if x < 0.2:
                self.feed("h", self.pack("InternalServiceGroup.HashResponse", [("S", r.choice(["", "no", "hash"]))], seq=0))
                good = False
            elif x < 0.25:
                self.feed("h", self.any_msg())
                good = False
            else:
                self.feed("h", self.pack("InternalServiceGroup.HashResponse", [None], seq=0))
            self.noise(0.2)
            self.push()
            if r.random() < 0.1:
                self.feed("h", self.pack("InternalServiceGroup.HashResponse", [None], seq=0))
        return good

    def long(self, total, width):
        """one connection with a long history: requests which wait while many others get their answers; many at once"""
        r = self.r
        self.out = ["case %d %s" % (int(r.random() < 0.25), self.toks(self.sp.k)), "up"]
        self.n_stream = 0
        for name, b in (("-", self.pack(self.sp.Confirm, seq=0)), ("k", self.pack("InternalServiceGroup.SelfKeyResponse", ["u1"], seq=0)),
                        ("h", self.pack("InternalServiceGroup.HashResponse", [None], seq=0))):
            self.feed(name, b)
            self.push(settle=True)
        old, done = [], 0
        while done < total:
            n = min(total - done, r.choice([1, width, r.randint(1, width)]))
            done += n
            self.pend = []
            for k in range(n):
                kind = self.kind()
                i, cmd, q = self.new(kind)
                self.out.append(("+" if k < n - 1 else "") + cmd)
                self.pend.append((i, kind, q))
            r.shuffle(self.pend)
            while self.pend and len(old) < 5 and r.random() < 0.6:
                old.append(self.pend.pop())
            if old and r.random() < 0.02:
                self.pend.append(old.pop(r.randrange(len(old))))
            for x in self.pend:
                self.answer(x)
                if r.random() < 0.03:
                    self.broadcast()
            self.out.append("push %d" % self.n_stream)
            self.n_stream = 0
        for x in old:
            self.answer(x)
        self.push()
        if r.random() < 0.5:
            # the end of all of them at once
            for k in range(width):
                self.out.append("+" + self.new(self.kind())[1])
            self.out.append("down")
        self.out += ["destroy", "settle", "end"]
        return self.out

    def build(self):
        r = self.r
        self.out = ["case %d %s" % (int(r.random() < 0.25), self.toks(self.sp.k))]
        for conn in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.1:
                self.request()
            if r.random() < 0.06:
                self.out.append("failsend 1")
            self.handshake()
            if r.random() < 0.5:
                self.out.append("failsend 0")
            for _ in range(r.randint(1, 9)):
                x = r.random()
                if x < 0.42:
                    for _ in range(r.choice([1, 1, 2, 4])):
                        self.request()
                elif x < 0.78:
                    n = r.choice([1, 1, 2, len(self.pend)])
                    for _ in range(min(n, len(self.pend))):
                        j = 0 if r.random() < 0.2 else r.randrange(len(self.pend))
                        self.answer(self.pend.pop(j))
                        self.noise(0.25)
                elif x < 0.84 and self.objs:
                    o = r.choice(self.objs)
                    self.out.append("again " + o[0])
                    if o not in self.pend:
                        self.pend.append(o)
                elif x < 0.88 and self.objs:
                    self.out.append("kill " + r.choice(self.objs)[0])
                elif x < 0.91:
                    self.out.append("failsend %d" % (r.random() < 0.5))
                elif x < 0.93:
                    self.out.append("err")
                self.noise(0.3)
                self.maybe_push()
            if r.random() < 0.6:
                self.push()
            if r.random() < 0.75:
                self.out.append("down")
                if r.random() < 0.15:
                    self.request()
                if r.random() < 0.6:
                    self.pend = []
            else:
                break
        self.out.append("destroy")
        if r.random() < 0.6:
            self.out.append("up" if r.random() < 0.3 else "down")
            self.request()
            self.broadcast()
            self.push()
        self.out += ["settle", "end"]
        return self.out


# ---------------------------------------------------------------- model
class Obj:
    def __init__(self, i, kind, k, toks):
        self.i, self.kind, self.k, self.toks = i, kind, k, toks
        self.state = "new"       # new, waiting, due (an outcome is to come), dead
        self.dead = False
        self.sends = []          # of every send not settled yet: dict(want, seq)


class Model:
    def __init__(self, sp, f, hashes, commands, log):
        self.sp, self.f, self.hashes, self.commands, self.log = sp, f, hashes, commands, log
        t = commands[0].split()
        self.glob = t[1] == "1"
        self.key = t[2:]
        self.buf = b""
        self.live = self.gone = False
        self.pending = {}       # sequence -> ("k",) / ("h",) / Obj
        self.used = set()
        self.objs = {}
        self.busy = {}
        self.defs = {}          # id -> (kind, index, tokens)
        for x in commands:
            y = x.lstrip("+").split()
            if y[0] == "on":
                y = y[2:]
            if y[0] in ("req", "bea"):
                self.defs[y[1]] = (y[0], int(y[2]), y[3:])
        self.cur = None         # event being handled
        self.sending = None
        self.dest = False
        self.want = []          # records which have to follow: (predicate, text)
        self.expect_hash = self.expect_ready = None
        self.casts = set(f.broadcasts())
        self.covered = set()
        self.conns = 0
        self.nh = 0

    def run(self):
        for self.pos, l in enumerate(self.log):
            self.one(l)
        if not self.log or self.log[-1] != "# %d" % (len(self.commands) - 1):
            raise Bad("died", "the process ended in the middle of a case: %s" % self.log[-2:])

    def parse(self, l):
        b = bytes.fromhex(l.split(" ")[1][1:])
        try:
            h = wire.parse_header(b)
            e = self.sp.byid[h["id"]]
            if h["sig"] != 0 or h["len"] != len(b) - wire.HEADER:
                raise wire.Bad("header")
            return e.full(), h["seq"], wire.toks_ent(e, wire.dec_ent(e, b[wire.HEADER:]), [])
        except (wire.Bad, KeyError, IndexError, ValueError) as x:
            raise Bad("broken-send", "unreadable transmission %s (%s)" % (l[:200], x))
        except Exception as x:
            if type(x).__name__ == "error":
                raise Bad("broken-send", "unreadable transmission %s" % l[:200])
            raise

    def fresh(self, seq, l):
        if seq == 0 or seq in self.pending:
            raise Bad("sequence", "the sequence %d of %s is %s" % (seq, l[:120], "that of broadcasts" if seq == 0 else "the one of a pending request"))
        if seq in self.used:
            raise Bad("sequence-reused", "the sequence %d of %s was used before on this connection" % (seq, l[:120]))
        self.used.add(seq)

    def one(self, l):
        k, _, rest = l.partition(" ")
        if k in ("THROWN", "UNHANDLED", "UNCAUGHT"):
            raise Bad(k.lower(), l)
        if k == "#":
            return self.command_end(int(rest))
        if k == "GET":
            w = "none" if self.nh == 0 else "own"
            self.nh += 1
            if rest != w:
                raise Bad("global", "Consumer.get() gives %s" % rest)
            return
        if k == "WAITED":
            self.covered.add(("waited",))
            return
        if k == "WAITERR":
            raise Bad("global", "Consumer.wait() is refused though there is no consumer")
        if k == "E":
            t = rest.split(" ")
            self.cur = l
            self.want, self.due, self.got = [], [], []
            return self.event(t)
        if k == "e":
            self.broadcasts()
            if self.want:
                raise Bad("missing-" + self.want[0][1].split(" ")[0], "'%s' was handled without %s" % (self.cur[:160], "; ".join(w for _, w in self.want)))
            self.cur = None
            return
        if k == "s":
            kind, n, toks = self.defs[rest]
            o = self.objs.get(rest)
            if o is None:
                o = self.objs[rest] = Obj(rest, kind, n, toks)
            self.sending = [o, False]
            self.busy[rest] = o
            return
        if k == "z":
            o, sent = self.sending
            self.sending = None
            if not sent:
                if not (o.dead or o.sends_waiting() or (self.gone and self.glob)):
                    raise Bad("missing-send", "%s %s was sent and nothing was transmitted" % (o.kind, o.i))
                o.sends.append(dict(want=["fail"], h=None))
                self.covered.add(("refused", "dead" if o.dead else "pending" if o.sends_waiting() else "destroyed"))
            return
        if k in ("S", "SF"):
            return self.transmission(k, l)
        if k == "K":
            if rest in self.objs:
                self.objs[rest].dead = True
            return
        if k == "T":
            if not self.dest:
                raise Bad("extra-destroy", "the consumer destroys its transport")
            self.dest = False
            return
        if k == "A":
            self.dest = True
            self.gone = True
            self.abandon()
            return
        if k == "a":
            if self.dest:
                raise Bad("missing-destroy", "the consumer was destroyed and its transport was not")
            return
        if k == "r":
            if not rest.endswith(" ok"):
                raise Bad("destroy", "destroying the consumer ends with " + rest)
            return
        if k == "h":
            return self.handler(rest.split(" "))
        if k in ("ok", "fail"):
            return self.outcome(k, rest.split(" "))
        if k == "READY":
            u, g = rest.split(" ", 1) if " " in rest else (rest, "")
            if self.expect_ready is None:
                raise Bad("extra-ready", "ready (%s) though fingerprint and key were not accepted on this connection" % rest)
            if u != self.expect_ready or g != self.expect_ready:
                raise Bad("ready", "ready with %s, the producer gave %s" % (rest, self.expect_ready))
            self.expect_ready = None
            self.covered.add(("ready", self.conns))
            return
        if k == "B" and self.cur is not None:
            self.got.append(l.rstrip())
            return
        if k in ("CONNECTED", "DISCONNECTED", "ERROR", "B"):
            if self.cur is not None:
                for x in self.want:
                    if x[0](l):
                        self.want.remove(x)
                        return
            raise Bad("extra-" + k, "%s during %s: unexpected %s; expected %s" % ("nothing" if self.cur is None else "'", self.cur, l[:200], [w for _, w in self.want][:3]))
        raise HarnessError("record " + l[:100])

    def broadcasts(self):
        """the emitted ones are the received ones in their order; those with a foreign sequence may be missing"""
        at = {0}
        for n, l in enumerate(self.got):
            nxt = set()
            for a in at:
                while a < len(self.due):
                    if self.due[a][0] == l:
                        nxt.add(a + 1)
                    if self.due[a][1]:
                        break
                    a += 1
            if not nxt:
                a = max(at)
                raise Bad("broadcast", "'%s': broadcast %s emitted, expected %s" % (self.cur[:160], l[:300], [x[0][:200] for x in self.due[a:a + 2]]))
            at = nxt
        if not any(all(not x[1] for x in self.due[a:]) for a in at):
            raise Bad("missing-broadcast", "'%s': broadcast %s was not emitted" % (self.cur[:160], [x[0][:200] for x in self.due[max(at):] if x[1]][0]))

    def event(self, t):
        if self.gone:
            return
        if t[0] == "up":
            self.live = True
            self.conns += 1
            self.buf = b""
            self.used = set()
            self.expect_hash = self.expect_ready = None
            self.uuid = None
            self.want.append((lambda l: l == "CONNECTED", "CONNECTED"))
        elif t[0] == "down":
            self.live = False
            self.want.append((lambda l: l == "DISCONNECTED", "DISCONNECTED"))
            self.expect_hash = self.expect_ready = None
            self.abandon()
        elif t[0] == "err":
            self.want.append((lambda l: l == "ERROR transport", "ERROR event"))
        elif t[0] == "data":
            self.buf += bytes.fromhex(t[1][1:])
            msgs, self.buf = wire.split_stream(self.buf)
            for h, body in msgs:
                e = self.sp.byid.get(h["id"])
                try:
                    if e is None or h["sig"] != 0:
                        raise wire.Bad("id")
                    self.message(e.full(), h["seq"], wire.toks_ent(e, wire.dec_ent(e, body), []))
                except wire.Bad:
                    self.covered.add(("garbage", len(msgs) > 1, h["seq"] in self.pending))
            if len(msgs) > 2:
                self.covered.add(("several messages in one chunk",))

    def message(self, ref, seq, toks):
        if ref == self.sp.Confirm:
            self.want.append((lambda l: False, "transmission of the key"))
            self.covered.add(("confirmed",))
            return
        x = self.pending.pop(seq, None)
        if x is None:
            if ref not in self.casts:
                self.covered.add(("foreign", seq == 0))
                return
            self.due.append((" ".join(["B", ref] + toks), seq == 0))
            if seq == 0:
                self.covered.add(("broadcast", "pending" if self.pending else "idle", self.expect_ready is None))
            else:
                self.covered.add(("late answer",))
            return
        if x == "k":
            if ref == self.sp.KeyResponse:
                self.uuid = bytes.fromhex(toks[0][1:]).decode()
                self.expect_hash = True
            self.covered.add(("key", ref == self.sp.KeyResponse))
            return
        if x == "h":
            good = ref == self.sp.HashResponse and toks == ["N"]
            if good:
                self.expect_ready = self.uuid
            self.covered.add(("fingerprint", good, ref == self.sp.HashResponse))
            return
        self.answered(x, ref, toks)

    def answered(self, o, ref, toks):
        s = o.waiting
        o.waiting = None
        if o.dead:
            s["want"] = ["fail"]
            self.covered.add(("destroyed request answered",))
        elif o.kind == "bea":
            if ref != self.sp.BeaconOk:
                s["want"], s["h"] = ["fail"], ["err", None, False]
            elif toks == ["N"]:
                s["want"], s["h"] = ["ok"], ["response", "", True]
            else:
                # the application is told what the producer said
                s["want"], s["h"] = ["fail"], ["err", bytes.fromhex(toks[1][1:]).decode(), True]
            self.covered.add(("beacon answer", ref == self.sp.BeaconOk, toks == ["N"]))
        else:
            q = self.f.requests[o.k]
            names = [n for n, r in handlers(q) if r == ref]
            if not names:
                s["want"] = ["fail"]
                self.covered.add(("wrong answer",))
            else:
                s["want"], s["h"] = ["ok " + " ".join([ref] + toks)], [names, " ".join(toks), True]
                self.covered.add(("answer", "err" if names == ["err"] else "cond" if len(q.actions) > 1 else "single", len(self.pending) > 0))
        self.covered.add(("answers waiting", min(3, len(self.pending))))

    def abandon(self):
        for s, x in list(self.pending.items()):
            if isinstance(x, Obj):
                x.waiting["want"] = ["fail"]
                x.waiting = None
                self.covered.add(("lost", self.gone))
        self.pending.clear()

    def transmission(self, k, l):
        ref, seq, toks = self.parse(l)
        if self.sending is not None:
            o = self.sending[0]
            if self.sending[1]:
                raise Bad("extra-send", "sending %s %s transmits more than one message" % (o.kind, o.i))
            self.sending[1] = True
            want = self.f.requests[o.k].ref if o.kind == "req" else self.f.beacons[o.k]
            if ref != want or toks != o.toks:
                raise Bad("request", "%s %s transmits %s %s instead of %s %s" % (o.kind, o.i, ref, " ".join(toks)[:300], want, " ".join(o.toks)[:300]))
            if o.dead or o.waiting is not None:
                raise Bad("extra-send", "%s %s is transmitted though it is %s" % (o.kind, o.i, "destroyed" if o.dead else "waiting for its answer"))
            s = dict(want=None, h=None)
            o.sends.append(s)
            if k == "SF":
                s["want"] = ["fail"]
                self.covered.add(("failed send", self.live))
                return
            self.fresh(seq, l)
            self.pending[seq] = o
            o.waiting = s
            self.covered.add(("sent", o.kind, len(o.sends) > 1, min(3, len(self.pending))))
            return
        if self.gone:
            raise Bad("extra-send", "transmission after destroy: %s" % l[:200])
        if self.cur is not None and ref == self.sp.k:
            for x in self.want:
                if x[1].startswith("transmission"):
                    self.want.remove(x)
                    break
            else:
                raise Bad("extra-send", "the key is transmitted without confirmation of the connection, or again: %s %s" % (ref, toks))
            if toks != self.key:
                raise Bad("key", "the consumer presents %s %s, its key is %s %s" % (ref, " ".join(toks)[:300], self.sp.k, " ".join(self.key)[:300]))
            if k == "S":
                self.fresh(seq, l)
                self.pending[seq] = "k"
            return
        if self.expect_hash and ref == self.sp.HashRequest:
            if toks != ["s" + x.encode().hex() for x in self.hashes]:
                raise Bad("fingerprint", "the consumer presents the fingerprints %s" % toks)
            self.expect_hash = None
            if k == "S":
                self.fresh(seq, l)
                self.pending[seq] = "h"
            return
        raise Bad("extra-send", "nobody asked for %s %s" % (ref, " ".join(toks)[:200]))

    def handler(self, t):
        i, name, val = t[0], t[1], " ".join(t[2:])
        o = self.objs[i]
        if o.kind == "bea" and name == "err":
            val = json.loads(val)
        for s in o.sends:
            if s["h"] is None or s["want"] is None:
                continue
            n, v, _ = s["h"]
            if (name in n if isinstance(n, list) else name == n) and (v is None or v == val):
                s["h"] = None
                return
        raise Bad("extra-callback", "%s %s: the callback %s(%s) does not belong to an answer; expected %s" % (o.kind, i, name, val[:200], [s["h"] for s in o.sends]))

    def outcome(self, k, t):
        o = self.objs[t[0]]
        got = " ".join([k] + t[1:]).strip() if k == "ok" else "fail"
        for s in o.sends:
            if s["want"] is not None and s["want"][0] == got:
                if s["h"] is not None and s["h"][2]:
                    raise Bad("missing-callback", "%s %s settled with %s and its callback %s was not called" % (o.kind, o.i, got[:100], s["h"]))
                o.sends.remove(s)
                return
        raise Bad("extra-outcome", "%s %s settles with %s%s; expected %s" % (o.kind, o.i, got[:200], " (%s)" % " ".join(t[1:])[:100] if k == "fail" else "",
                                                                         [s["want"] or "to wait" for s in o.sends]))

    def command_end(self, i):
        if self.commands[i].startswith("+"):
            return
        for k, o in list(self.busy.items()):
            if not o.sends:
                del self.busy[k]
            for s in o.sends:
                if s["want"] is not None:
                    raise Bad("missing-outcome", "%s %s did not settle, expected %s" % (o.kind, o.i, s["want"][0][:200]))
        if self.expect_hash:
            raise Bad("missing-fingerprint", "the key was confirmed and no fingerprint was presented")
        if self.expect_ready is not None:
            raise Bad("missing-ready", "fingerprint and key were accepted and ready was not reported")


Obj.waiting = None
Obj.sends_waiting = lambda o: o.waiting is not None


def judge(c, sp, f, hashes, cmds, log, src, key=None):
    if isinstance(log, tuple):
        c.violation("died", "the process ended in the middle of a case: " + " / ".join(log[1][-3:]), dict(commands=cmds, log=log[1], **src))
        return
    if log is None:
        return
    m = Model(sp, f, hashes, cmds, log)
    try:
        m.run()
    except Bad as b:
        ctxt = log[max(0, m.pos - 4):m.pos + 2]
        c.violation(key or "tc-" + b.key, b.text[:1200] + "\n    around: " + " | ".join(x[:160] for x in ctxt), dict(commands=cmds, log=log, **src))
        return
    c.seen("records", len(log))
    c.seen("requests and beacons", sum(1 for l in log if l[:2] == "s "))
    c.seen("outcomes", sum(1 for l in log if l[:3] == "ok " or l[:5] == "fail "))
    c.seen("broadcasts", sum(1 for l in log if l[:2] == "B "))
    c.seen("connections", m.conns)
    c.ok(tuple(sorted(map(str, m.covered))), "%d commands: %s" % (len(cmds), ", ".join(sorted({str(x[0]) for x in m.covered}))))


def c21(c):
    nf, per = c.pick(24, 120), c.pick(80, 200)

    def one(i):
        r = c.rng("flow", i)
        targets = (("rust",), ("typescript",)) if i % 3 else (("typescript",), ("rust", "typescript"))
        while True:
            s, f = gen.flow_for(r, targets, ents=r.choice([8, 12, 16]))
            if (f.requests or f.beacons) and usable(f):
                break
        sp = pmodel.Spec(f)
        with build.Scratch("tscons") as d:
            proj.make(d, s.text(), f.text())
            p = proj.generate(d)
            if p.returncode:
                raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
            exe, err = build_harness(d, f)
            if exe is None:
                raise HarnessError("the generated consumer does not bundle: " + err[:1500])
            hs = producer.fingerprints(d)
            cases = [Work(c.rng("case", i, k), sp, f, hs).build() for k in range(per)]
            w = Work(c.rng("long", i), sp, f, hs)
            cases.append(w.long(66500, 64) if i == 0 else w.long(c.rng("length", i).choice([60, 270, 600]), [300, 7, 20, 80][i % 4]))
            src = dict(protocol=s.text(), workflow=f.text())
            try:
                p = build.run(exe, input="\n".join(x for cs in cases for x in cs) + "\n", timeout=200, cpu=150)
            except HarnessError:
                c.violation("hang", "the consumer did not come to rest", dict(commands=[x for cs in cases for x in cs], **src))
                return []
            if p.returncode:
                if "driver:" in p.stderr:
                    raise HarnessError(p.stderr[-800:])
                c.violation("died", "the process ended with status %s: %s" % (p.returncode, p.stderr[-600:]), dict(commands=[x for cs in cases for x in cs], **src))
            logs = split_cases(p.stdout, cases)
            if p.returncode == 0 and None in logs:
                c.violation("died", "the process ended before all commands were done", dict(commands=cases[logs.index(None)], **src))
            return [(sp, f, hs, cs, lg, src) for cs, lg in zip(cases, logs)]
    for i0 in range(0, nf, 8):
        if c.left() < 60:
            break
        for res in pmap(one, range(i0, min(nf, i0 + 8))):
            for x in res or []:
                judge(c, *x)
        c.seen("workflows", min(nf, i0 + 8) - i0)
