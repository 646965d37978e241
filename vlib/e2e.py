"""C22: producers and consumers of all platforms talking to each other.

One generated producer and up to four generated consumers (Rust and TypeScript) run as they are, each in its own process with
an in-memory transport; this hub carries the bytes between them, in pieces, late, and up to the moment a connection ends. It
judges what the applications see: what an application asked for at one end has to happen at the other one, once, in order and
with the same value. Nothing of the wire format enters the verdict.
"""
import os, resource, subprocess, threading
from collections import Counter
from . import build, flow, gen, pmodel, producer, proj, rscons, rsprod, tscons, tsprod, wire
from .build import HarnessError
from .mon import pmap
from .tsprod import Bad


class Dead(Exception):
    pass


class Peer:
    """a harness process driven command by command"""
    def __init__(self, exe, what, d):
        self.what = what
        self.err = open(os.path.join(d, "%s.err" % what.replace(" ", "-")), "w+", errors="replace")
        self.trace = []

        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (240, 245))
        self.p = subprocess.Popen(exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=build.env(), preexec_fn=pre)

    def cmd(self, line):
        self.trace.append("> " + line)
        try:
            self.p.stdin.write((line + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            raise Dead(self.what)
        out = []
        for l in self.p.stdout:
            l = l.decode(errors="replace").rstrip("\n")
            if l.startswith("# "):
                self.trace += out
                return out
            out.append(l)
        self.trace += out
        raise Dead(self.what)

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.seek(0)
        t = self.err.read()[-600:]
        self.err.close()
        return t


class Conn:
    """one connection, as both ends see it"""
    def __init__(self, u, cons):
        self.u, self.cons = u, cons
        self.up = b""            # bytes on the way to the producer
        self.down = b""          # bytes on the way to the consumer
        self.told = 0            # 0: the producer does not know of it, 1: it is connected, 2: it is disconnected
        self.ended = False       # the consumer's end is closed
        self.whole = True        # everything was and will be carried over
        self.ready = 0
        self.connected = self.disconnected = 0
        self.ops = []            # ids, in the order the application issued them
        self.calls = []          # (name, tokens) served for it
        self.want = []           # broadcasts owed to its application
        self.sure = []           # those of them carried over for sure
        self.got = []
        self.events = 0


class Op:
    def __init__(self, i, kind, n, ref, toks):
        self.i, self.kind, self.n, self.ref, self.toks = i, kind, n, ref, toks
        self.conn = None
        self.result = None
        self.told = []           # callbacks


class Cons:
    """one consumer of a case"""
    def __init__(self, peer, plat, key):
        self.peer, self.plat, self.key = peer, plat, key
        self.conn = None
        self.handle = 0
        self.usable = False
        self.wait = 0            # ms until it connects again
        self.trying = False      # waits for its transport to connect
        self.over = False        # the application has closed it
        self.broken = False      # its transport failed
        self.conns = []


class Case:
    def __init__(self, r, sp, f, prod, pplat, peers):
        self.r, self.sp, self.f, self.prod, self.pplat = r, sp, f, prod, pplat
        self.w = producer.Work(r, sp, None, producer.BASE)
        self.w.n = 1
        self.conns = {}
        self.ops = {}
        self.dec = {}            # name -> decisions not taken yet
        self.calls = {}          # number -> (name, conn, decision)
        self.gates = []
        self.ngate = 0
        self.covered = set()
        self.nid = 0
        self.cons = [Cons(p, plat, self.w.toks(sp.k)) for p, plat in peers]
        self.casts = set(f.broadcasts())
        self.evs = [i for i, e in enumerate(f.events) if not e.default]
        self.expected_event = []
        self.n_ops = self.n_cast = 0

    # -------------------------------------------------- commands
    def p(self, line):
        for l in self.prod.cmd(line):
            self.producer_record(l)

    def c(self, k, line):
        for l in k.peer.cmd(line):
            self.consumer_record(k, l)

    def bcast_dec(self, bs):
        """(tokens, [(recipients, ref, value tokens)])"""
        o, m = [], []
        live = [u for u, x in self.conns.items() if x.told == 1]
        for b in bs:
            if b.opt:
                if self.r.random() < 0.3:
                    o.append("N")
                    continue
                o.append("S")
            us = [u for u in live if self.r.random() < 0.7]
            if self.r.random() < 0.08:
                us.append(4000)
            self.r.shuffle(us)
            t = self.w.toks(b.ref)
            o.append(",".join(map(str, us)) if us else "-")
            o.append(t)
            m.append((us, b.ref, t.split()))
        return o, m

    def decide(self, name, ops=()):
        r, g = self.r, 0
        if r.random() < 0.12:
            self.ngate += 1
            g = self.ngate
            self.gates.append(g)
        t = [str(g), str(int(r.random() < 0.2)), str(len(ops))] + list(ops)
        ref, d = name[2:], dict(answer=None, casts=[])
        if name[0] == "q":
            q = self.sp.req[ref]
            if r.random() < 0.25:
                v = self.w.toks(q.err)
                t.append("E " + v)
                d["answer"] = (rscons.ERR, q.err, v.split())
            else:
                i = r.randrange(len(q.actions))
                a = q.actions[i]
                v = self.w.toks(a.response)
                o, d["casts"] = self.bcast_dec(a.bcasts)
                t += ["R %d %s" % (i, v)] + o
                d["answer"] = (i, a.response, v.split())
        else:
            t.append("R")
            if name[0] == "e" and ref in self.sp.ev:
                o, d["casts"] = self.bcast_dec(self.sp.ev[ref].bcasts)
                t += o
        self.dec.setdefault(name, []).append(d)
        self.p("+do %s %s" % (name, " ".join(t)))

    # -------------------------------------------------- records
    def producer_record(self, l):
        k, _, rest = l.partition(" ")
        if k in ("E", "e", "Q", "READY", "T", "G", "r", "A", "a", "O", "DG", "SG"):
            if k in ("r", "A") and " err" in rest:
                raise Bad("producer-call", "a call of the application on the producer failed: " + l[:300])
            return
        if k == "S":
            u, x = rest.split(" ")
            c = self.conns.get(int(u)) if u.isdigit() else None
            if c is not None and not c.ended and c.told == 1:
                c.down += bytes.fromhex(x[1:])
            return
        if k == "H":
            m = tsprod.Model.HREC.match(l)
            n, name, who, key, ass, _, v = m.groups()
            ds = self.dec.get(name)
            if not ds:
                raise Bad("extra-call", "the producer's application gets a call nobody asked for: " + l[:300])
            d = ds.pop(0)
            c = self.conns.get(int(who)) if who != "-" else None
            self.calls[int(n)] = (name, c, d)
            if who != "-" and c is None:
                raise Bad("caller", "a handler is called for %s, which never connected: %s" % (who, l[:200]))
            if name == "e:connected":
                c.connected += 1
            elif name == "e:disconnected":
                c.disconnected += 1
            elif name[0] == "e":
                if not self.expected_event or self.expected_event[0] != (name, v.split()):
                    raise Bad("event", "the event handler got %s %s, emitted was %s" % (name, v[:200], self.expected_event[:1]))
                self.expected_event.pop(0)
            else:
                i = len(c.calls)
                c.calls.append((name, v.split()))
                if i >= len(c.ops):
                    raise Bad("extra-call", "the producer's application serves %s %s, consumer %d issued %d requests and beacons" % (name, v[:200], c.u, len(c.ops)))
                o = self.ops[c.ops[i]]
                if (name[0] == "q") != (o.kind == "req") or name[2:] != o.ref or v.split() != o.toks:
                    raise Bad("call", "consumer %d (%s) issued %s %s, the producer's application (%s) gets %s %s" % (
                        c.u, c.cons.plat, o.ref, " ".join(o.toks)[:300], self.pplat, name, v[:300]))
                o.answer = d["answer"]
                if key.split() != c.cons.key.split():
                    raise Bad("key", "consumer %d (%s) has the key '%s', the producer's application (%s) sees '%s'" % (c.u, c.cons.plat, c.cons.key[:200], self.pplat, key[:200]))
            return
        if k == "C":
            name, c, d = self.calls[int(rest)]
            for us, ref, v in d["casts"]:
                for u in us:
                    x = self.conns.get(u)
                    if x is not None and x.told == 1:
                        x.want.append((ref, v))
                self.covered.add(("cast", name[0], min(3, len(us))))
            return
        if k == "D":
            self.dropped.append(int(rest))
            return
        if k == "NODEC":
            raise HarnessError("no decision")
        if k == "X":
            # what was still to be done for a connection which has ended
            u = rest.split(" ")[0]
            c = self.conns.get(int(u)) if u.isdigit() else None
            if c is not None and c.told == 2:
                self.covered.add(("error event of an ended connection",))
                return
        raise Bad("producer-" + k.lower(), "the producer (%s) reports: %s" % (self.pplat, l[:400]))

    def consumer_record(self, k, l):
        w, _, rest = l.partition(" ")
        c = k.conn
        if w == "S":
            if c is None or c.ended:
                return
            c.up += bytes.fromhex(rest[1:])
        elif w == "s":
            o = self.ops.get(rest)
            if o is not None:
                o.conn = c
                if c is not None:
                    c.ops.append(rest)
        elif w == "READY":
            # TypeScript: the handshake is complete
            want = pmodel.uuid_text(c.u)
            if rest.split() != [want, want]:
                raise Bad("ready", "consumer %d is told the identity '%s'" % (c.u, rest))
            self.is_ready(k, c)
        elif w == "G":
            h, res = rest.split(" ", 1)
            if res == "ok" and int(h) == k.handle:
                k.usable = True
        elif w == "B":
            ref, _, v = rest.partition(" ")
            c.got.append((ref, v.split()))
        elif w == "H":
            _, name, v = (rest + " ").split(" ", 2)
            if name == "connected":
                self.is_ready(k, c)
            elif name[:2] == "b:":
                c.got.append((name[2:], v.split()))
            elif name == "error" and not k.broken:
                raise Bad("consumer-error", "consumer %s (%s) reports an error: %s" % (c and c.u, k.plat, v[:300]))
        elif w == "A":
            i, _, v = rest.partition(" ")
            if i in self.ops:
                self.result(i, v.split())
        elif w in ("ok", "fail"):
            i, _, v = rest.partition(" ")
            if i in self.ops:
                self.result(i, [w] + v.split())
        elif w == "h":
            i, name, v = (rest + " ").split(" ", 2)
            self.ops[i].told.append((name, v.split()))
        elif w == "RECONNECT":
            k.wait = int(rest.split()[0]) + 1
        elif w == "T":
            if rest == "connect":
                k.trying = True
            elif rest == "end 0" or rest == "end 1":
                if c is not None and not c.ended and not k.over:
                    raise Bad("consumer-stops", "consumer %d (%s) ends its connection by itself" % (c.u, k.plat))
        elif w in ("THROWN", "UNHANDLED", "UNCAUGHT", "PANIC", "ERROR", "CONNECTERR", "SF"):
            raise Bad("consumer-" + w.lower(), "consumer %s (%s) reports: %s" % (c and c.u, k.plat, l[:400]))

    def is_ready(self, k, c):
        if c is None or c.ended:
            raise Bad("ready", "a consumer is ready without connection")
        c.ready += 1
        if c.ready > 1:
            raise Bad("ready", "consumer %d (%s) becomes ready twice" % (c.u, k.plat))
        self.covered.add(("ready", k.plat, len(k.conns) > 1))

    def result(self, i, v):
        o = self.ops[i]
        if o.result is not None:
            raise Bad("outcome", "%s %s gets a second outcome: %s" % (o.ref, i, " ".join(v)[:200]))
        o.result = v

    # -------------------------------------------------- moves
    def open_consumer(self, k):
        r = self.r
        if k.plat == "rust":
            self.c(k, "case %s 1000000000 0 %s" % (r.choice(["-", "100"]) if r.random() < 0.3 else "100", k.key))
            self.c(k, "get %d" % k.handle)
        else:
            k.trying = True
            self.c(k, "case %d %s" % (r.random() < 0.5, k.key))
        if r.random() < 0.3:
            o = self.op(k)
            if o:
                self.c(k, ("do connected 0|%s" if k.plat == "rust" else "on ready %s") % self.op_text(k, o))

    def op(self, k):
        refs = [("req", i, q.ref) for i, q in enumerate(self.f.requests)] * 2 + [("bea", i, b) for i, b in enumerate(self.f.beacons)]
        if not refs:
            return None
        kind, n, ref = self.r.choice(refs)
        self.nid += 1
        t = self.w.toks(ref)
        o = self.ops["o%d" % self.nid] = Op("o%d" % self.nid, kind, n, ref, t.split())
        o.answer = None
        self.decide(("q:" if kind == "req" else "b:") + ref)
        self.n_ops += 1
        return o

    def op_text(self, k, o):
        return "%s %s %d %s" % ((o.i, o.kind) + (o.n, " ".join(o.toks)) if k.plat == "rust" else (o.kind, o.i, o.n, " ".join(o.toks)))

    def issue(self, k):
        o = self.op(k)
        if o is None:
            return
        self.c(k, ("op %d %s" % (k.handle, self.op_text(k, o))) if k.plat == "rust" else self.op_text(k, o))

    def connect(self, k):
        u = len(self.conns) + 1
        c = self.conns[u] = k.conn = Conn(u, k)
        k.conns.append(c)
        k.trying = False
        ops = []
        if self.r.random() < 0.5:
            ops = ["a 1 " + self.w.toks(self.sp.a)]
        first = self.r.random() < 0.5
        if first:
            self.c(k, "up")
        self.decide("e:connected", ops)
        c.told = 1
        self.p("conn %d" % u)
        if not first:
            self.c(k, "up")
        if c.connected > 1:
            raise Bad("connected", "connected is emitted twice for %d" % u)

    def carry(self, c, up, n=None):
        b = c.up if up else c.down
        if not b:
            return
        r = self.r
        n = len(b) if n is None and r.random() < 0.6 else min(len(b), n or r.choice([1, 3, 26, 27, r.randint(1, len(b))]))
        x, b = b[:n], b[n:]
        if up:
            c.up = b
            self.p("data %d x%s" % (c.u, x.hex()))
        else:
            c.down = b
            if c.cons.plat == "rust":
                self.c(c.cons, "+feed - x" + x.hex())
                self.c(c.cons, "push %d" % len(x))
            else:
                self.c(c.cons, "+feed - x" + x.hex())
                self.c(c.cons, "push %d" % len(x))

    def tell_end(self, c):
        if c.told == 1:
            self.decide("e:disconnected")
            c.told = 2
            self.p("disc %d" % c.u)

    def close_consumer_end(self, c, ok=True):
        if c.ended:
            return
        c.ended = True
        k = c.cons
        k.usable = False
        if k.plat == "rust":
            k.broken = not ok
            self.c(k, "close %d" % ok)
        else:
            self.c(k, "down")
        k.conn = None
        c.down = b""

    def lose(self, c):
        """the network ends the connection"""
        r = self.r
        if r.random() < 0.5:
            while c.down:
                self.carry(c, False)
        if r.random() < 0.5:
            while c.up:
                self.carry(c, True)
        self.covered.add(("lost", bool(c.up), bool(c.down), c.ready, len(c.ops) > len([o for o in c.ops if self.ops[o].result])))
        c.whole = False
        again = c.cons.plat == "typescript" or r.random() < 0.8
        if r.random() < 0.5:
            self.tell_end(c)
            self.close_consumer_end(c, again)
        else:
            self.close_consumer_end(c, again)
            c.up = c.up if r.random() < 0.5 else b""
            while c.up:
                self.carry(c, True)
            self.tell_end(c)
        c.up = b""

    def reconnect(self, k):
        if k.conn is not None or k.over:
            return
        if k.plat == "rust":
            if k.wait:
                self.c(k, "advance %d" % k.wait)
                k.wait = 0
            if k.trying:
                k.handle += 1
                self.c(k, "get %d" % k.handle)
                self.connect(k)
        else:
            self.connect(k)

    def kick(self, c):
        """the producer's application disconnects a consumer"""
        self.dropped = []
        # the transport tells the producer of the end by itself
        self.decide("e:disconnected")
        c.whole = False
        self.p("control disconnect %d" % c.u)
        for _ in range(3):
            if c.u not in self.dropped:
                self.open_all()
        if self.dropped != [c.u]:
            raise Bad("disconnect", "the producer's application disconnects %d, the transport was asked for %s" % (c.u, self.dropped))
        c.told = 2
        if self.r.random() < 0.5:
            while c.down:
                self.carry(c, False)
        self.covered.add(("disconnected by producer", bool(c.up), bool(c.down)))
        self.close_consumer_end(c)
        c.up = b""

    def leave(self, k):
        """the consumer's application closes it"""
        c = k.conn
        k.over = True
        flight = [o for o in c.ops if not self.ops[o].result]
        if self.r.random() < 0.6:
            while c.up:
                self.carry(c, True)
        c.whole = False
        if k.plat == "rust":
            self.c(k, "op %d x%d shut" % (k.handle, c.u))
        else:
            self.c(k, "destroy")
        c.ended = True
        while c.up:
            self.carry(c, True)
        self.tell_end(c)
        k.conn = None
        k.usable = False
        c.down = b""
        self.covered.add(("closed by consumer", k.plat, len(flight) > 0))

    def open_all(self):
        for g in self.gates:
            self.p("open %d" % g)
        self.gates = []

    def can_issue(self, k):
        return k.conn is not None and k.conn.ready and (k.plat != "rust" or k.usable)

    def step(self):
        r = self.r
        x = r.random()
        k = r.choice(self.cons)
        c = k.conn
        if c is None:
            if not k.over:
                self.reconnect(k)
            return
        if x < 0.22:
            if self.can_issue(k):
                self.issue(k)
                if r.random() < 0.3:
                    self.issue(k)
        elif x < 0.30 and self.evs:
            i = r.choice(self.evs)
            t = self.w.toks(self.f.events[i].ref)
            self.decide("e:" + self.f.events[i].ref)
            self.expected_event.append(("e:" + self.f.events[i].ref, t.split()))
            self.p("control emit %d %s" % (i, t))
        elif x < 0.36:
            if self.gates:
                g = self.gates.pop(r.randrange(len(self.gates)))
                self.p("open %d" % g)
        elif x < 0.36 + 0.4 * self.cut:
            self.lose(c)
        elif x < 0.36 + 0.7 * self.cut:
            if c.told == 1:
                self.kick(c)
        elif x < 0.36 + self.cut:
            if self.can_issue(k):
                self.leave(k)
        else:
            for c in [c] if r.random() < 0.5 else [k.conn for k in self.cons if k.conn]:
                self.carry(c, r.random() < 0.5)

    def quiet(self):
        """carries everything over"""
        self.open_all()
        for _ in range(200):
            moved = False
            for k in self.cons:
                c = k.conn
                if c is None:
                    continue
                for up in (True, False):
                    if c.up if up else c.down:
                        self.carry(c, up)
                        moved = True
            self.open_all()
            if not moved:
                return
        raise Bad("restless", "producer and consumers go on sending to each other")

    # -------------------------------------------------- verdict
    def verdict(self, final):
        for u, c in self.conns.items():
            k = c.cons
            at = "consumer %d (%s) of the producer (%s)" % (u, k.plat, self.pplat)
            alive = k.conn is c
            if c.connected != 1:
                raise Bad("connected", "%s: connected was emitted %d times" % (at, c.connected))
            if c.disconnected != (c.told == 2):
                raise Bad("disconnected", "%s: disconnected was emitted %d times" % (at, c.disconnected))
            if alive and c.ready != 1:
                raise Bad("not-ready", "%s never became ready; it was sent everything" % at)
            if alive and len(c.calls) != len(c.ops):
                raise Bad("missing-call", "%s issued %d requests and beacons, %d were served; the next is %s" % (at, len(c.ops), len(c.calls), self.ops[c.ops[len(c.calls)]].ref))
            for n, i in enumerate(c.ops):
                self.outcome(c, self.ops[i], n < len(c.calls), alive, at)
            got = Counter((ref, " ".join(v)) for ref, v in c.got)
            want = Counter((ref, " ".join(v)) for ref, v in c.want)
            if got - want:
                raise Bad("extra-broadcast", "%s handles a broadcast nobody sent to it: %s" % (at, str(list((got - want).elements())[:2])[:400]))
            if alive and want - got:
                raise Bad("missing-broadcast", "%s never gets the broadcast %s" % (at, str(list((want - got).elements())[:2])[:400]))
        if self.expected_event:
            raise Bad("missing-event", "the event %s was emitted and its handler was not called" % (self.expected_event[0],))

    def outcome(self, c, o, served, alive, at):
        v = o.result
        if v is None:
            # a request waits for as long as its timeout, a beacon for its connection
            if alive or c.cons.plat == "typescript" or o.kind == "req":
                raise Bad("no-outcome", "%s: %s %s got no outcome" % (at, o.kind, o.ref))
            return
        rust = c.cons.plat == "rust"
        good = v[0] == "ok"
        if not good:
            if alive:
                raise Bad("outcome", "%s: %s %s fails: %s" % (at, o.kind, o.ref, " ".join(v)[:300]))
            self.covered.add(("cut", o.kind, served))
            return
        if not served:
            raise Bad("outcome", "%s: %s %s is answered and was not served: %s" % (at, o.kind, o.ref, " ".join(v)[:300]))
        if o.kind == "bea":
            self.covered.add(("beacon", c.cons.plat))
            if not rust and [n for n, _ in o.told] != ["response"]:
                raise Bad("callback", "%s: beacon %s, callbacks %s" % (at, o.ref, o.told))
            return
        i, ref, toks = o.answer
        got = (v[1:2], v[2:])
        want = ([str(i)] if rust else [ref], toks)
        if got != want:
            raise Bad("answer", "%s: %s was answered with %s %s, its application gets %s" % (at, o.ref, ref, " ".join(toks)[:300], " ".join(v)[:300]))
        if not rust:
            q = self.f.requests[o.n]
            h = tscons.handlers(q)[i if i != rscons.ERR else -1][0]
            if o.told != [(h, toks)]:
                raise Bad("callback", "%s: %s was answered with %s, callbacks %s" % (at, o.ref, ref, str(o.told)[:300]))
        self.covered.add(("answer", c.cons.plat, "err" if i == rscons.ERR else min(i, 2)))

    def run(self):
        r = self.r
        self.dropped = []
        self.cut = r.choice([0, 0.02, 0.05, 0.1])
        self.p("case %s %s 0 1 0%s" % ("Ignore", r.choice(["Log", "EmitError", "default"]), " 0 %d" % r.randrange(4) if self.pplat == "typescript" else ""))
        self.p("ready")
        for k in self.cons:
            self.open_consumer(k)
        for n in range(r.choice([20, 50, 90, 140])):
            self.step()
            if r.random() < 0.03:
                self.quiet()
                self.verdict(False)
        for k in self.cons:
            if k.conn is None and not k.over:
                self.reconnect(k)
        self.quiet()
        self.verdict(True)
        for k in self.cons:
            if k.conn is not None and self.can_issue(k) and r.random() < 0.5:
                self.leave(k)
            elif k.plat == "typescript" and not k.over:
                # there is one global consumer at a time
                if k.conn is None:
                    self.c(k, "destroy")
                    k.over = True
                else:
                    self.leave(k)
        self.quiet()
        self.verdict(True)


def usable(f):
    if not tscons.usable(f) or tsprod.ambiguous(f):
        return False
    for q in f.requests:
        rs = [a.response for a in q.actions] + [q.err]
        if len(set(rs)) != len(rs):
            return False
    return len(f.requests) >= 1


def build_all(c, d, s, f):
    proj.make(d, s.text(), f.text())
    p = proj.generate(d)
    if p.returncode:
        raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
    out = {}
    for name, m in (("rust producer", rsprod), ("typescript producer", tsprod), ("rust consumer", rscons), ("typescript consumer", tscons)):
        exe, err = m.build_harness(d, f)
        if exe is None:
            raise HarnessError("the generated %s does not build: %s" % (name, err[:1500]))
        out[name] = exe
    return out


def c22(c):
    nf, per = c.pick(12, 64), c.pick(24, 70)

    def one(i):
        r = c.rng("flow", i)
        while True:
            s, f = gen.flow_for(r, (("rust", "typescript"), ("typescript", "rust")), ents=r.choice([8, 12, 16]))
            if usable(f) and f.broadcasts() and (f.beacons or i % 3 == 0):
                break
        sp = pmodel.Spec(f)
        res = []
        with build.Scratch("e2e") as d:
            exes = build_all(c, d, s, f)
            peers = [("rust producer", "rust"), ("typescript producer", "typescript"), ("rust consumer", "rust"), ("rust consumer", "rust"),
                     ("typescript consumer", "typescript"), ("typescript consumer", "typescript")]
            ps = [Peer(exes[n], "%s %d" % (n, k), d) for k, (n, _) in enumerate(peers)]
            timer = threading.Timer(c.pick(200, 400), lambda: [p.p.kill() for p in ps])
            timer.start()
            try:
                for k in range(per):
                    cr = c.rng("case", i, k)
                    pp = cr.randrange(2)
                    cs = cr.sample([2, 3, 4, 5], cr.choice([1, 2, 2, 3, 4]))
                    for p in ps:
                        p.trace = []
                    case = Case(cr, sp, f, ps[pp], peers[pp][1], [(ps[x], peers[x][1]) for x in cs])
                    src = lambda: dict(protocol=s.text(), workflow=f.text(), **{p.what: p.trace for p in [ps[pp]] + [ps[x] for x in cs]})
                    try:
                        case.run()
                    except Bad as b:
                        res.append((b.key, b.text, src()))
                        if len(res) > 3:
                            break
                        continue
                    except Dead as x:
                        who = [p for p in ps if p.what == str(x)][0]
                        why = "did not come to rest" if not timer.is_alive() else "ended"
                        t = who.stop()
                        if "driver:" in t:
                            raise HarnessError(t)
                        res.append(("died", "the %s %s in the middle of a case: %s" % (who.what, why, t), src()))
                        break
                    res.append((None, case, [peers[pp][1]] + sorted(peers[x][1] for x in cs)))
            finally:
                timer.cancel()
                for p in ps:
                    if p.p.stdin and not p.p.stdin.closed:
                        p.stop()
        return res
    for i0 in range(0, nf, 6):
        if c.left() < 60:
            break
        for res in pmap(one, range(i0, min(nf, i0 + 6)), 6):
            for k, x, y in res:
                if k is not None:
                    c.violation(k, x[:1500], y)
                    continue
                c.seen("connections", len(x.conns))
                c.seen("requests and beacons", sum(len(q.ops) for q in x.conns.values()))
                c.seen("broadcasts handled", sum(len(q.got) for q in x.conns.values()))
                c.seen("calls of handlers", len(x.calls))
                c.ok((tuple(y), tuple(sorted(map(str, x.covered)))), "%s: %d connections, %s" % (" ".join(y), len(x.conns), ", ".join(sorted({str(z[0]) for z in x.covered}))))
        c.seen("workflows", min(nf, i0 + 6) - i0)
