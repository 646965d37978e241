"""C18, C19: generated Rust consumers under an in-memory transport and a virtual clock (rs/consumer/h.rs), judged record by
record.

Everything the model knows comes from the record: the bytes delivered to the consumer, the bytes it transmitted, the calls
and handler invocations of the application, what the transport was told and did. Expectations are due at the end of a
command which lets the consumer come to rest.
"""
import os
from . import build, flow, gen, pmodel, producer, proj, rsglue, rsprod, wire
from .build import HarnessError
from .mon import pmap
from .tsprod import Bad, split_cases

HSRC = os.path.join(build.VERIF, "rs", "consumer", "h.rs")
mod, rp = rsprod.mod, rsprod.rp
ERR = 999


def outcomes(q):
    """[(number of the described outcome, message)]"""
    return [(i, a.response) for i, a in enumerate(q.actions)] + [(ERR, q.err)]


def glue(f, schema):
    fn, src = rsglue.codec_fns(schema, "pub ")
    k, _ = rsprod.key_refs(f)
    o = ["#![allow(unused)]\nuse crate::core_::*;\nuse crate::consumer::implementation::protocol;\nuse crate::consumer::implementation::controller;\n"
         "use crate::consumer::Consumer;\nuse clibri::client;\n"]
    o += src
    o.append("pub fn key(t: &mut T) -> %s { %s(t) }\n" % (rp(k), fn["b", k]))
    o.append("pub async fn call<E: client::Error>(c: &mut Consumer<E>, req: bool, n: usize, mut t: T<'_>) -> String {\n if req { match n {\n")
    for i, q in enumerate(f.requests):
        R = "controller::%sResponse" % q.ref.replace(".", "")
        arms = "".join('Ok(%s::%s(v)) => { let mut o = "ok %d ".to_string(); %s(&mut o, &v); o }\n' % (R, a.conclusion or "Response", j, fn["d", a.response])
                       for j, a in enumerate(q.actions))
        arms += 'Ok(%s::Err(v)) => { let mut o = "ok %d ".to_string(); %s(&mut o, &v); o }\n' % (R, ERR, fn["d", q.err])
        o.append('%d => { let v = %s(&mut t); match c.%s(v).await { %s Err(e) => format!("err {}", crate::h::error(&e)) } }\n' % (i, fn["b", q.ref], mod(q.ref), arms))
    o.append(' _ => panic!("driver: request") } } else { match n {\n')
    for i, b in enumerate(f.beacons):
        o.append('%d => { let v = %s(&mut t); match c.beacon_%s(v).await { Ok(()) => "ok -".to_string(), Err(e) => format!("err {}", crate::h::error(&e)) } }\n' % (i, fn["b", b], mod(b)))
    o.append(' _ => panic!("driver: beacon") } }\n}\n')
    return fn, "".join(o)


HEAD = """#![allow(unused)]
use super::{%s};
use clibri::client;
pub async fn handler<E: client::Error>(%s context: &mut Context, consumer: Consumer<E>) {
    crate::h::handler("%s", %s, consumer).await
}
"""


def install(d, f):
    from . import outputs
    base = dict((s, b) for s, t, b in outputs.bases(f) if t == "rust")["consumer"]
    P = os.path.join(d, base)
    schema = flow.with_service(f)
    fn, src = glue(f, schema)
    for b in f.broadcasts():
        proj.write(P + "/broadcasts/%s.rs" % mod(b), HEAD % ("protocol, Consumer, Context", "event: %s," % rp(b), "b:" + b,
                                                             "{ let mut o = String::new(); crate::g::%s(&mut o, &event); o }" % fn["d", b]))
    for x in ("connected", "disconnected"):
        proj.write(P + "/events/%s.rs" % x, HEAD % ("Consumer, Context", "", x, "String::new()"))
    proj.write(P + "/events/error.rs", HEAD % ("Consumer, ConsumerError, Context", "error: ConsumerError<E>,", "error", "crate::h::error(&error)"))
    proj.write(P + "/events/shutdown.rs", HEAD % ("Consumer, ConsumerError, Context", "error: Option<ConsumerError<E>>,", "shutdown",
                                                  'error.map(|e| crate::h::error(&e)).unwrap_or("-".to_string())'))
    proj.write(P + "/events/reconnect.rs", "use super::Context;\npub async fn handler(timeout: u64, context: &mut Context) -> bool { crate::h::reconnect(timeout) }\n")
    proj.write(d + "/cg.rs", src)
    main = '#![allow(unused)]\n#[path = "%s/mod.rs"]\nmod consumer;\n#[path = "%s"]\nmod core_;\n#[path = "%s"]\nmod h;\n#[path = "%s/cg.rs"]\nmod g;\nfn main() { h::main() }\n' % (
        P, rsglue.CORE, HSRC, d)
    proj.write(d + "/cmain.rs", main)
    return d + "/cmain.rs"


def build_harness(d, f):
    exe = os.path.join(d, "consumer.exe")
    p = build.run(build.rustc_cmd(install(d, f), exe, build.FLOW_CRATES), timeout=400)
    return (exe if p.returncode == 0 else None), p.stderr


# ---------------------------------------------------------------- workload
UUIDS = ["1b4e28ba-2fa1-11d2-883f-0016d3cca427", "00000000-0000-0000-0000-000000000001", "F47AC10B-58CC-4372-A567-0E02B2C3D479"]


class Work(producer.Work):
    def __init__(self, r, sp, f, hashes, fo):
        producer.Work.__init__(self, r, sp, hashes, producer.BASE)
        self.f, self.fo = f, fo
        self.out = []
        self.ids = self.handles = self.ngate = 0
        self.cast = f.broadcasts()
        self.n_stream = 0
        self.pend = []
        self.cnt = {}
        self.gates_open = []
        self.h = None
        self.plain = [e.full() for e in sp.ws.messages() if e.full() != sp.Confirm]

    def id(self, ref):
        return self.sp.find(ref).id

    def feed(self, name, b):
        self.out.append("+feed %s x%s" % (name, b.hex()))
        self.n_stream += len(b)

    def push(self, n=None):
        r = self.r
        left = n = self.n_stream if n is None else min(n, self.n_stream)
        while left > 0:
            k = left if r.random() < 0.5 else r.choice([1, 2, 25, 26, 27, r.randint(1, left), r.randint(1, left)])
            k = min(k, left)
            left -= k
            self.out.append("%spush %d" % ("+" if left > 0 and r.random() < 0.5 else "", k))
        self.n_stream -= n

    def maybe_push(self):
        x = self.r.random()
        if x < 0.55:
            self.push()
        elif x < 0.75 and self.n_stream:
            self.push(self.r.randint(1, self.n_stream))

    def broadcast(self):
        r = self.r
        ref = r.choice(self.cast) if self.cast and r.random() < 0.92 else r.choice(self.plain)
        self.feed("-", self.pack(ref, seq=0))
        if ref in self.cast and r.random() < self.fo["gate"]:
            self.decide("b:" + ref)

    def decide(self, name):
        """the handler waits for a gate and calls the producer itself"""
        r = self.r
        g = 0
        if r.random() < 0.5:
            self.ngate += 1
            g = self.ngate
            self.gates_open.append(g)
        ops = ""
        if g == 0 or r.random() < 0.3:
            k = self.kind()
            if k:
                i, spec, e = self.new(k, True)
                ops = "|%s %s" % (i, spec)
                self.pend.append(e)
        self.out.append("+do %s %d%s" % (name, g, ops))

    def junk(self):
        for _ in range(5):
            b = self.garbage()
            if wire.parse_header(b)["id"] != self.id(self.sp.Confirm):
                break
        self.feed("-", b)

    def noise(self, p):
        r = self.r
        while r.random() < p:
            if r.random() < 0.75:
                self.broadcast()
            else:
                self.junk()
            if r.random() < 0.3:
                self.push(r.randint(1, max(1, self.n_stream)))

    def any_msg(self, but=None):
        return self.pack(self.r.choice([x for x in self.plain if x != but]), seq=0)

    def kind(self):
        ks = (["req"] * 3 if self.f.requests else []) + (["bea"] if self.f.beacons else [])
        return self.r.choice(ks) if ks else None

    def new(self, kind, live):
        self.ids += 1
        i = "%s%d" % (kind[0], self.ids)
        k = self.r.randrange(len(self.f.requests if kind == "req" else self.f.beacons))
        ref = self.f.requests[k].ref if kind == "req" else self.f.beacons[k]
        t = self.toks(ref)
        n = self.cnt.get(ref, 0)
        if live:
            self.cnt[ref] = n + 1
        return i, "%s %d %s" % (kind, k, t), (i, kind, k, "%d.%d" % (self.id(ref), n), t)

    def request(self, plus=True):
        kind = self.kind()
        if kind is None or self.h is None:
            return
        old = self.handles > 1 and self.r.random() < 0.06
        i, spec, e = self.new(kind, not old)
        self.out.append("%sop %d %s %s" % ("+" if plus and self.r.random() < 0.4 else "", self.r.randrange(self.handles - 1) if old else self.h, i, spec))
        if not old:
            if self.out[-1][0] == "+" and self.r.random() < 0.15 and not any(y[1:3] == e[1:3] and y[4] == e[4] for y in self.pend):
                # given up in the middle of the call
                self.out += ["+yield %d" % self.r.randint(1, 6), "%sabort %s" % (self.r.choice(["+", ""]), e[0])]
            self.pend.insert(self.r.randint(0, len(self.pend)), e)

    def answer(self, x):
        r = self.r
        i, kind, k, name, t = x
        if r.random() < 0.1:
            b = self.any_msg()
        elif kind == "bea":
            b = self.pack("InternalServiceGroup.BeaconConfirmation", None if r.random() < 0.4 else [None], seq=0)
        else:
            b = self.pack(r.choice(outcomes(self.f.requests[k]))[1], seq=0)
        if r.random() < 0.05:
            self.feed(name, self.garbage())
        self.feed(name, b)
        if r.random() < 0.12:
            self.feed(name, b if r.random() < 0.5 else self.any_msg())

    def get(self):
        self.h = self.handles
        self.handles += 1
        self.out.append("get %d" % self.h)

    def handshake(self):
        r, sp = self.r, self.sp
        self.out.append("up")
        self.n_stream = 0
        self.noise(0.3)
        x = r.random()
        if x < 0.03:
            return False
        kn = "%d.%d" % (self.id(sp.k), self.cnt.get(sp.k, 0))
        self.cnt[sp.k] = self.cnt.get(sp.k, 0) + 1
        self.feed("-", self.pack(sp.Confirm, seq=0))
        self.noise(0.3)
        self.push()
        self.noise(0.3)
        if r.random() < 0.4:
            self.push()
        if r.random() < 0.15:
            self.request(False)
        uuid = r.choice(UUIDS) if r.random() < 0.97 else r.choice(["", "x", UUIDS[0][:-1], "\u00e9" * 18])
        b = self.pack(sp.KeyResponse, [uuid], seq=0)
        good = True
        if x < 0.07:
            self.push()
            self.feed(kn, self.any_msg(sp.KeyResponse))
            good = False
        elif x < 0.1:
            self.feed("-", b)
            good = False
        else:
            self.feed(kn, b)
        self.noise(0.2)
        self.push()
        if not good:
            return False
        if r.random() < 0.03:
            return False
        hn = "%d.0" % self.id(sp.HashRequest)
        self.noise(0.2)
        x = r.random()
        if x < 0.05:
            self.push()
            self.feed(hn, self.pack(sp.HashResponse, [("S", r.choice(["", "no", "hash"]))], seq=0))
            good = False
        elif x < 0.08:
            self.push()
            self.feed(hn, self.any_msg())
            good = False
        else:
            self.feed(hn, self.pack(sp.HashResponse, [None], seq=0))
            if r.random() < self.fo["gate"]:
                self.decide("connected")
        self.noise(0.2)
        self.push()
        if r.random() < 0.06:
            self.feed(hn, self.pack(sp.HashResponse, [None], seq=0))
            self.push()
        return good

    def opens(self, p):
        for g in list(self.gates_open):
            if self.r.random() < p:
                self.gates_open.remove(g)
                self.out.append("open %d" % g)

    def greet(self):
        """a handshake without disturbances"""
        sp = self.sp
        kn = "%d.%d" % (self.id(sp.k), self.cnt.get(sp.k, 0))
        self.cnt[sp.k] = self.cnt.get(sp.k, 0) + 1
        self.out.append("up")
        self.n_stream = 0
        for name, b in (("-", self.pack(sp.Confirm, seq=0)), (kn, self.pack(sp.KeyResponse, [UUIDS[0]], seq=0)),
                        ("%d.0" % self.id(sp.HashRequest), self.pack(sp.HashResponse, [None], seq=0))):
            self.feed(name, b)
            self.out.append("push %d" % self.n_stream)
            self.n_stream = 0
        self.get()

    def long(self, total, width):
        """one connection with a long history: calls which wait while many others get their answers; many at once"""
        r = self.r
        to = 60000
        self.out = ["case - %d 0 %s" % (to, self.toks(self.sp.k))]
        self.greet()
        old = []
        done = 0
        while done < total:
            n = min(total - done, r.choice([1, width, r.randint(1, width)]))
            done += n
            self.pend = []
            for k in range(n):
                kind = self.kind()
                i, spec, e = self.new(kind, True)
                self.out.append("%sop %d %s %s" % ("+" if k < n - 1 else "", self.h, i, spec))
                self.pend.append(e)
            if n > 60:
                self.out.append("settle")
            r.shuffle(self.pend)
            while self.pend and len(old) < 5 and r.random() < 0.6:
                old.append(self.pend.pop())
            if old and r.random() < 0.02:
                self.pend.append(old.pop(r.randrange(len(old))))
            for e in self.pend:
                self.answer(e)
            self.out.append("push %d" % self.n_stream)
            self.n_stream = 0
            if n > 60:
                self.out.append("settle")
        for e in old:
            self.answer(e)
        self.push()
        self.out += ["advance %d" % (to + 5), "settle", "end"]
        return self.out

    def build(self):
        r, fo = self.r, self.fo
        re = r.choice(["-", "100", "500", "2000"]) if r.random() < fo["re"] else "500"
        to = r.choice([300, 1000, 1000, 20000])
        self.out = ["case %s %d %d %s" % (re, to, int(r.random() < 0.1), self.toks(self.sp.k))]
        ms = 0 if re == "-" else int(re)
        for conn in range(r.choice(fo["conns"])):
            if r.random() < 0.3 or self.h is None and r.random() < 0.3:
                self.get()
                if r.random() < 0.15:
                    self.request(False)
            if r.random() < 0.03:
                self.out.append("close 0")
                break
            self.handshake()
            if self.h is None or conn and r.random() < 0.95:
                self.get()
            for _ in range(r.randint(*fo["acts"])):
                x = r.random()
                if x < 0.4:
                    for _ in range(r.choice([1, 1, 2, 4, 7])):
                        self.request()
                elif x < 0.75:
                    for _ in range(min(r.choice([1, 1, 2, len(self.pend)]), len(self.pend))):
                        j = 0 if r.random() < 0.2 else r.randrange(len(self.pend))
                        self.answer(self.pend[j])
                        if r.random() < 0.93:
                            self.pend.pop(j)
                        self.noise(0.2)
                elif x < 0.85:
                    self.out.append("advance %d" % r.choice([10, to // 3, to - 10, to + 5, to + 5]))
                elif x < 0.9 and self.pend:
                    e = r.choice(self.pend)
                    if sum(1 for y in self.pend if y[1:3] == e[1:3] and y[4] == e[4]) == 1:
                        self.out.append("abort " + e[0])
                elif x < 0.92:
                    self.out.append(r.choice(["err", "text"]))
                elif x < 0.925:
                    self.out.append("failsend 1")
                elif x < 0.935:
                    self.out.append("dropget")
                elif x < 0.95:
                    self.get()
                self.noise(fo["noise"])
                self.maybe_push()
                self.opens(0.3)
            if r.random() < 0.7:
                self.push()
            if self.n_stream:
                self.out.append("settle")
            x = r.random()
            if x < fo["close"]:
                if r.random() < 0.1 and self.h is not None:
                    self.out.append("+do reconnect 0")
                self.out.append("close 1")
                self.n_stream = 0
                self.cnt = {}
                self.pend = []
                if r.random() < 0.2:
                    self.request(False)
                    self.pend = []
                    self.cnt = {}
                if r.random() < 0.8:
                    self.opens(1)
                if r.random() < 0.15:
                    self.get()
                if r.random() < 0.5:
                    self.out.append("advance %d" % max(1, ms // 2))
                if r.random() < 0.9:
                    self.out.append("advance %d" % (ms + 5))
                if r.random() < 0.5:
                    self.opens(1)
                    self.out.append("advance %d" % (ms + 5))
            elif x < fo["close"] + 0.08:
                self.out.append("close 0")
                break
            else:
                break
        if r.random() < 0.5 and self.h is not None:
            x = r.random()
            if x < 0.25:
                # the caller does not wait for the end
                self.out += ["+op %d z1 shut" % self.h, "+yield %d" % r.randint(1, 6), "%sabort z1" % r.choice(["+", ""])]
            else:
                self.out.append("op %d z1 shut" % self.h)
            if r.random() < 0.2:
                self.out.append("op %d z2 shut" % self.h)
            if r.random() < 0.5:
                self.request(False)
                self.get()
        self.opens(1)
        self.out += ["advance %d" % (to + 5), "settle", "advance %d" % (ms + to + 5), "settle", "end"]
        return self.out


FOCUS = {
    "C18": dict(gate=0.05, re=0.3, conns=[1, 1, 1, 2], acts=(3, 12), noise=0.1, close=0.5),
    "C19": dict(gate=0.2, re=0.8, conns=[1, 1, 2, 3], acts=(0, 6), noise=0.5, close=0.7),
}


# ---------------------------------------------------------------- model
class Op:
    def __init__(self, i, kind, n, toks):
        self.i, self.kind, self.n, self.toks = i, kind, n, toks
        self.want = None        # None: waits; else a list of possible outcomes
        self.listen = None
        self.done = self.aborted = False
        self.deadline = self.due = None     # may / has to time out


ANYERR = ("err", None)


class Model:
    def __init__(self, sp, f, hashes, commands, log):
        self.sp, self.f, self.hashes, self.commands, self.log = sp, f, hashes, commands, log
        t = commands[0].split()
        self.re = None if t[1] == "-" else int(t[1])
        self.timeout = int(t[2])
        self.key = t[4:]
        self.now = 0
        self.defs = {}
        for x in commands:
            y = x.lstrip("+").split(" ")
            if y[0] == "op":
                self.define(y[2:])
            elif y[0] == "do" and "|" in x:
                for z in x.split("|")[1:]:
                    self.define(z.split(" "))
        self.defs_h = {x.lstrip("+").split()[2]: int(x.lstrip("+").split()[1]) for x in commands if x.lstrip("+").startswith("op ")}
        self.handle = {}        # number -> listen
        self.gets = []          # pending
        self.listen = 0         # number of the current one
        self.active = False     # the consumer listens
        self.B = []             # [text, mandatory]
        self.at = {0}           # how many of them have been passed (several ways to read the record)
        self.err_min = self.err_max = 0
        self.up = False
        self.ending = None
        self.ops = {}
        self.waiting = {}       # those without an outcome
        self.casts = set(f.broadcasts())
        self.covered = set()
        self.fin = None         # after the end of a connection: "ok", "error", "stop"
        self.rc = None          # time at which it connects again
        self.dropped = False
        self.shut = []          # shutdown calls which are to succeed
        self.tshut = 0
        self.running = {}
        self.ghosts = []
        self.pending, self.used, self.unsent = {}, set(), []
        self.want_key = self.want_hash = self.want_connected = self.want_disc = self.may_disc = False
        self.confirmed = False
        self.buf = b""
        self.uuid = None
        self.count = dict(outcomes=0, broadcasts=0, connections=0, timeouts=0, late=0)

    def define(self, y):
        self.defs[y[0]] = (y[1], int(y[2]) if y[1] != "shut" else 0, [z for z in y[3:] if z])

    def run(self):
        for self.pos, l in enumerate(self.log):
            self.one(l)
        if not self.log or self.log[-1] != "# %d" % (len(self.commands) - 1):
            raise Bad("died", "the process ended in the middle of a case: %s" % self.log[-2:])

    parse = None

    def one(self, l):
        k, _, rest = l.partition(" ")
        getattr(self, "r_" + {"#": "end", "S?": "other"}.get(k, k))(rest, l)

    def r_PANIC(self, rest, l):
        raise Bad("panic", l[:400])

    def r_other(self, rest, l):
        raise Bad("other-send", "the consumer transmits something else than its protocol: " + l[:200])

    def r_CONNECTERR(self, rest, l):
        raise Bad("connect", "the consumer could not be started: " + l)

    def r_NOHANDLE(self, rest, l):
        pass

    # ------------------------------------------------------------ transport
    def r_T(self, rest, l):
        if rest == "connect":
            if self.active or self.dropped:
                raise Bad("connect-twice", "the consumer connects %s" % ("once more while it is connected" if self.active else "after its end"))
            if self.listen:
                if self.fin == "stop":
                    raise Bad("reconnect", "the consumer connects again; it was to stop")
                if self.fin == "ok":
                    if self.rc is None:
                        raise Bad("reconnect", "the consumer connects again without asking its application (or with reconnection disabled)")
                    if self.now < self.rc - 1:
                        raise Bad("reconnect-early", "the consumer connects again after %d ms too few" % (self.rc - self.now))
                self.covered.add(("reconnected", self.fin))
            self.listen += 1
            self.active, self.up, self.ending, self.fin, self.rc = True, False, None, None, None
            self.pending, self.used, self.unsent, self.ghosts = {}, set(), [], []
            self.confirmed = False
            self.buf = b""
            self.count["connections"] += 1
        elif rest.startswith("end"):
            self.finish(rest == "end 1")
            self.failed = rest != "end 1"
        elif rest == "drop":
            if self.ending is None:
                raise Bad("stopped", "the consumer gives its connection up without a reason")
            self.finish(False)
        elif rest == "shutdown":
            if not any(o.kind == "shut" and (o.aborted or not o.done) for o in self.ops.values()):
                raise Bad("extra-shutdown", "the consumer shuts the transport down and nobody asked for it")
            self.tshut += 1
            self.ending = self.ending or "shutdown"
        elif rest == "dropped":
            if self.active or self.fin == "ok" and self.rc is not None:
                raise Bad("stopped", "the consumer ended %s" % ("while it was connected" if self.active else "instead of connecting again"))
            self.dropped = True

    def finish(self, ok):
        if not self.active:
            return
        self.active = False
        for o in self.ops.values():
            if o.listen == self.listen and not o.done and o.kind != "shut":
                if o.want is None:
                    o.want = [ANYERR]
                    self.covered.add(("lost", self.ending))
                elif self.soft:
                    o.want.append(ANYERR)
        self.unsent = []
        if self.want_connected and self.soft:
            self.want_connected = "may"
        self.want_key = self.want_hash = False
        self.err_max += 3
        if self.up:
            self.want_disc = True
        else:
            self.may_disc = True
        self.may_shut = True
        if any(o.kind == "shut" and o.listen == self.listen for o in self.ops.values()):
            self.fin = "stop"
        elif ok:
            self.fin = "ok" if self.re is not None else "stop"
        else:
            self.fin = "error"
        self.covered.add(("end", self.fin, self.up, bool(self.running), self.B != []))

    soft = False
    failed = False
    may_shut = False
    _ending = None
    settled = (0, 0)            # broadcasts and faults which the consumer had the time to take notice of

    @property
    def ending(self):
        return self._ending

    @ending.setter
    def ending(self, v):
        self._ending = v
        if v is not None:
            # what is unread when the connection ends may be lost
            for x in self.B[self.settled[0]:]:
                x[1] = False
            self.err_min = min(self.err_min, self.settled[1])

    def r_U(self, rest, l):
        self.up = True

    def r_E(self, rest, l):
        if rest.startswith("close"):
            self.ending = self.ending or "closed"
        else:
            self.err_max += 1
            self.err_min += rest == "err" or not self.ending

    def r_ADV(self, rest, l):
        self.now += int(rest)

    def r_D(self, rest, l):
        self.buf += bytes.fromhex(rest[1:])
        msgs, self.buf = wire.split_stream(self.buf)
        bad = 0
        for h, body in msgs:
            e = self.sp.byid.get(h["id"])
            try:
                if e is None or h["sig"] != 0:
                    raise wire.Bad("id")
                toks = wire.toks_ent(e, wire.dec_ent(e, body), [])
            except wire.Bad:
                bad += 1
                self.covered.add(("garbage", len(msgs) > 1, h["seq"] in self.pending))
                continue
            self.message(e.full(), h["seq"], toks)
        if bad:
            self.err_max += bad
            self.err_min += 0 if self.ending else 1
        if len(msgs) > 2:
            self.covered.add(("several messages in one chunk",))

    def message(self, ref, seq, toks):
        if ref == self.sp.Confirm:
            if self.confirmed:
                raise HarnessError("confirmed twice")
            self.confirmed = True
            self.want_key = True
            return
        x = self.pending.pop(seq, None)
        soft = self.ending is not None
        if x is None:
            if ref not in self.casts:
                self.err_max += 1
                self.err_min += not soft
                self.covered.add(("foreign", seq == 0))
                return
            self.B.append([" ".join([ref] + toks), seq == 0 and not soft])
            if seq == 0:
                self.covered.add(("broadcast", "pending" if self.pending else "idle", self.confirmed, self.uuid is not None, bool(self.running)))
            else:
                self.covered.add(("late answer",))
            return
        if x == "k":
            if ref == self.sp.KeyResponse:
                self.uuid = bytes.fromhex(toks[0][1:]).decode()
                self.want_hash = True
            else:
                self.ending = "handshake"
                self.err_max += 2
                self.err_min += not soft
            self.covered.add(("key", ref == self.sp.KeyResponse))
            return
        if x == "h":
            good = ref == self.sp.HashResponse and toks == ["N"]
            if good and self.uuid.lower().replace("-", "") in [u.lower().replace("-", "") for u in UUIDS] and len(self.uuid) == 36:
                self.want_connected = True
            else:
                self.ending = "handshake"
                self.err_max += 2
                self.err_min += not good and not soft
            self.covered.add(("fingerprint", good, ref == self.sp.HashResponse))
            return
        if x.done or x.want is not None:
            # nobody waits for it any more
            self.err_max += 1
            self.count["late"] += 1
            self.covered.add(("late answer", "timeout" if not x.aborted else "aborted"))
            if ref in self.casts:
                self.B.append([" ".join([ref] + toks), False])
            return
        if x.kind == "bea":
            if ref != self.sp.BeaconOk:
                x.want = [ANYERR]
            elif toks == ["N"]:
                x.want = [("ok", None, "-")]
            else:
                x.want = [("err", bytes.fromhex(toks[1][1:]).decode().replace("\n", " ").rstrip(" "))]
            self.covered.add(("beacon answer", ref == self.sp.BeaconOk, toks == ["N"]))
        else:
            q = self.f.requests[x.n]
            names = [n for n, r in outcomes(q) if r == ref]
            x.want = [("ok", names, " ".join(toks))] if names else [ANYERR]
            self.covered.add(("answer", "none" if not names else "err" if names == [ERR] else "cond" if len(q.actions) > 1 else "single", min(3, len(self.pending))))
        if soft:
            x.want.append(ANYERR)

    def decode(self, l):
        b = bytes.fromhex(l.split(" ")[1][1:])
        try:
            h = wire.parse_header(b)
            e = self.sp.byid[h["id"]]
            if h["sig"] != 0 or h["len"] != len(b) - wire.HEADER:
                raise wire.Bad("header")
            return e.full(), h["seq"], wire.toks_ent(e, wire.dec_ent(e, b[wire.HEADER:]), [])
        except Exception as x:
            raise Bad("broken-send", "unreadable transmission %s (%s)" % (l[:200], x))

    def r_S(self, rest, l):
        ref, seq, toks = self.decode(l)
        ok = not l.startswith("SF")
        what = "%s %s" % (ref, " ".join(toks)[:200])
        if not self.active and self.ending is None:
            raise Bad("extra-send", "transmission while the consumer is not connected: " + what)
        if ok:
            if seq == 0 or seq in self.pending or seq in self.used:
                raise Bad("sequence", "the sequence %d of %s is %s" % (seq, what, "that of broadcasts" if seq == 0 else "not its own"))
            self.used.add(seq)
        else:
            self.ending = self.ending or "failed send"
            self.err_max += 2
        if self.want_key and ref == self.sp.k and toks == self.key:
            self.want_key = False
            if ok:
                self.pending[seq] = "k"
            return
        for o in self.unsent + self.ghosts:
            r = self.f.requests[o.n].ref if o.kind == "req" else self.f.beacons[o.n]
            if r == ref and o.toks == toks:
                (self.unsent if o in self.unsent else self.ghosts).remove(o)
                if not ok:
                    o.want = [ANYERR]
                else:
                    self.pending[seq] = o
                o.due = o.deadline and self.now + self.timeout
                self.covered.add(("sent", o.kind, min(4, len(self.pending)), ok))
                return
        if self.want_hash and ref == self.sp.HashRequest:
            if toks != ["s" + x.encode().hex() for x in self.hashes]:
                raise Bad("fingerprint", "the consumer presents the fingerprints %s" % toks)
            self.want_hash = False
            if ok:
                self.pending[seq] = "h"
            return
        if self.want_key and ref == self.sp.k:
            raise Bad("key", "the consumer presents the key %s instead of %s" % (what, self.key))
        raise Bad("extra-send", "nobody asked for the transmission of %s; waiting to be transmitted: %s" % (
            what, [(o.i, " ".join(o.toks)[:100]) for o in self.unsent][:4]))

    r_SF = r_S

    # ------------------------------------------------------------ application
    def r_G(self, rest, l):
        t = rest.split(" ")
        k = int(t[0])
        if k in self.gets:
            self.gets.remove(k)
        if t[1] == "ok":
            if self.dropped:
                raise Bad("get", "a consumer is given out after the end")
            self.handle[k] = self.listen
        elif not (self.dropped or self.fin in ("stop", "error") or self.rc is None and self.fin):
            raise Bad("get", "no consumer is given out: " + l)

    def r_s(self, rest, l):
        kind, n, toks = self.defs[rest]
        o = self.ops[rest] = self.waiting[rest] = Op(rest, kind, n, toks)
        o.listen = self.handle[self.defs_h[rest]] if rest in self.defs_h else self.hl
        live = self.active and o.listen == self.listen
        if kind == "shut":
            o.live = live
            return
        if kind == "req":
            o.deadline = self.now + self.timeout
        if live:
            self.unsent.append(o)
            if self.ending:
                o.want = None
        else:
            o.want = [ANYERR]
            self.covered.add(("dead handle",))

    def r_ABORT(self, rest, l):
        o = self.ops.get(rest)
        if o is None or o.done:
            return
        o.done = o.aborted = True
        self.waiting.pop(rest, None)
        if o in self.unsent:
            self.unsent.remove(o)
            self.ghosts.append(o)
        self.covered.add(("abort", o.kind))

    def fits(self, o, t):
        if o.kind == "shut":
            if t[1] == "ok":
                return not self.active or o.listen != self.listen
            return not o.live or sum(1 for x in self.ops.values() if x.kind == "shut" and x.listen == o.listen) > 1 or self.ending not in (None, "shutdown")
        late = o.deadline is not None and self.now >= o.deadline
        if t[1] == "err" and t[2] == "Timeout":
            return o.kind == "req" and late
        for w in o.want or []:
            if w[0] == "ok" and t[1] == "ok":
                if w[1] is None or (int(t[2]) in w[1] and " ".join(t[3:]) == w[2]):
                    return True
            elif w[0] == "err" and t[1] == "err" and (w[1] is None or w[1] in " ".join(t[3:])):
                return True
        return o.want is None and t[1] == "err" and self.ending is not None and o.listen == self.listen

    def exact(self, o, t):
        """the outcome is the one of this call, not only one of many which could be"""
        return any(w[0] == "ok" and (w[1] is None or int(t[2]) in w[1] and " ".join(t[3:]) == w[2]) or
                   w[0] == "err" and w[1] and w[1] in " ".join(t[3:]) for w in o.want or [] if w[0] == t[1])

    def r_A(self, rest, l):
        t = rest.rstrip(" ").split(" ")
        o = self.ops[t[0]]
        if o.done:
            raise Bad("second-outcome", "%s %s has a second outcome: %s" % (o.kind, o.i, l[:200]))
        if not self.exact(o, t):
            twins = [p for p in self.waiting.values() if p is not o and not p.done and self.fits(p, t)
                     and (p.kind, p.n, p.toks, p.listen) == (o.kind, o.n, o.toks, o.listen)]
            twins.sort(key=lambda p: not self.exact(p, t))
            if self.fits(o, t):
                twins = [p for p in twins if self.exact(p, t)]
            for p in twins:
                # two equal calls: which transmission belongs to which is not visible
                p.want, o.want = o.want, p.want
                for s, x in self.pending.items():
                    self.pending[s] = p if x is o else o if x is p else x
                if p in self.unsent and o not in self.unsent:
                    self.unsent[self.unsent.index(p)] = o
                elif o in self.unsent and p not in self.unsent:
                    self.unsent[self.unsent.index(o)] = p
                break
            if not twins and not self.fits(o, t):
                raise Bad("outcome", "%s %s ends with %s; expected %s" % (o.kind, o.i, " ".join(t[1:])[:300], self.wanted(o)))
        o.done = True
        self.waiting.pop(o.i, None)
        self.count["outcomes"] += 1
        if t[1] == "err" and t[2] == "Timeout":
            self.count["timeouts"] += 1
            self.covered.add(("timeout", o.want is None))
        if o in self.unsent:
            if not self.ending and t[1:3] != ["err", "Timeout"]:
                raise Bad("missing-send", "%s %s has an outcome and was not transmitted" % (o.kind, o.i))
            self.unsent.remove(o)

    def wanted(self, o):
        return "to wait" if o.want is None else str(o.want)[:300]

    def r_H(self, rest, l):
        n, name, text = (rest.split(" ", 2) + [""])[:3]
        self.running[n] = name
        self.hl = self.listen
        if name.startswith("b:"):
            got = " ".join([name[2:]] + text.split())
            nxt = set()
            for a in self.at:
                while a < len(self.B):
                    if self.B[a][0] == got:
                        nxt.add(a + 1)
                    if self.B[a][1]:
                        break
                    a += 1
            if not nxt:
                a = max(self.at)
                raise Bad("broadcast", "broadcast handler called with %s; expected %s" % (got[:300], [x[0][:200] for x in self.B[a:a + 2]]))
            self.at = nxt
            self.count["broadcasts"] += 1
        elif name == "connected":
            if not self.want_connected:
                raise Bad("extra-connected", "connected is reported though key and fingerprint were not accepted on this connection")
            self.want_connected = False
            self.covered.add(("connected", self.listen))
        elif name == "disconnected":
            if not (self.want_disc or self.may_disc):
                raise Bad("extra-disconnected", "disconnected is reported %s" % ("while the connection lives" if self.active else "once more"))
            if self.want_connected is True:
                raise Bad("connected-late", "disconnected is reported and connected was not")
            if self.owed():
                raise Bad("missing-broadcast", "disconnected is reported before the broadcast %s" % self.owed()[:200])
            self.want_disc = self.may_disc = self.want_connected = False
        elif name == "error":
            if self.err_max <= 0:
                raise Bad("extra-error", "an error is reported without a fault: " + text[:200])
            self.err_max -= 1
            self.err_min = max(0, self.err_min - 1)
            self.settled = self.settled[0], max(0, self.settled[1] - 1)
        elif name == "shutdown":
            if not self.may_shut:
                raise Bad("extra-shutdown-event", "shutdown is reported %s" % ("while the connection lives" if self.active else "once more"))
            if self.failed and text == "-":
                raise Bad("shutdown-error", "the connection failed and the shutdown event tells of no error")
            self.may_shut = self.failed = False

    def r_C(self, rest, l):
        del self.running[rest]

    def r_RECONNECT(self, rest, l):
        ms, d = rest.split(" ")
        if self.active or self.fin in (None, "stop") or self.re is None:
            raise Bad("reconnect", "the consumer wants to connect again %s" % ("while it is connected" if self.active else "though it was to stop"))
        if int(ms) != self.re:
            raise Bad("reconnect-time", "reconnection in %s ms, configured %s" % (ms, self.re))
        if d == "1":
            self.rc = self.now + self.re
        else:
            self.fin = "stop"
            self.covered.add(("refused reconnection",))

    # ------------------------------------------------------------ rest
    def r_end(self, rest, l):
        i = int(rest)
        cmd = self.commands[i].lstrip("+").split()
        if cmd[0] == "get" and not any(self.log[j].startswith("G %s " % cmd[1]) for j in range(self.pos - 1, -1, -1)):
            if not self.dropget():
                self.gets.append(int(cmd[1]))
        if cmd[0] == "dropget":
            self.nogetter = True
        if self.commands[i].startswith("+"):
            return
        for o in self.waiting.values():
            if o.want is not None and o.kind != "shut":
                raise Bad("missing-outcome", "%s %s has no outcome, expected %s" % (o.kind, o.i, self.wanted(o)))
            if o.due is not None and self.now >= o.due + 3:
                raise Bad("missing-timeout", "%s %s waits since %d ms, its timeout is %d ms" % (o.kind, o.i, self.now - o.due + self.timeout, self.timeout))
        if self.unsent:
            raise Bad("missing-send", "%s %s was called and not transmitted" % (self.unsent[0].kind, self.unsent[0].i))
        if self.want_key or self.want_hash:
            raise Bad("missing-handshake", "the consumer does not present its %s" % ("key" if self.want_key else "fingerprints"))
        if self.active and self.ending == "failed send":
            self.ending = None
        if self.running:
            self.covered.add(("handler waits",))
            self.settled = len(self.B), self.err_min
            return
        self.settled = 0, 0
        if self.owed():
            raise Bad("missing-broadcast", "broadcast %s was not passed to its handler" % self.owed()[:300])
        self.B, self.at = [], {0}
        if self.want_connected is True:
            raise Bad("missing-connected", "key and fingerprint were accepted and connected was not reported")
        self.want_connected = False
        if self.err_min:
            raise Bad("missing-error", "a fault was not reported")
        self.err_max = 0
        if self.active and self.ending:
            raise Bad("no-end", "the consumer goes on though its connection is %s" % self.ending)
        if self.active:
            if self.gets:
                raise Bad("missing-get", "no consumer is given out")
            return
        if self.want_disc:
            raise Bad("missing-disconnected", "the connection ended and disconnected was not reported")
        self.may_disc = self.may_shut = False
        for o in self.ops.values():
            if o.kind == "shut" and not o.done:
                raise Bad("missing-shutdown", "a call of shutdown did not return")
        if self.dropped:
            if self.gets:
                raise Bad("missing-get", "waits for a consumer after the end")
        elif self.rc is not None:
            if self.now >= self.rc + 3:
                raise Bad("missing-reconnect", "the consumer does not connect again")
        elif self.fin == "stop":
            raise Bad("no-stop", "the consumer was to stop and keeps its transport")
        elif self.fin == "ok":
            raise Bad("missing-reconnect", "the connection was closed and the consumer does not connect again")

    def owed(self):
        """the first broadcast which has to be passed to its handler still"""
        if any(all(not x[1] for x in self.B[a:]) for a in self.at):
            return None
        return [x[0] for x in self.B[max(self.at):] if x[1]][0]

    nogetter = False

    def dropget(self):
        return self.nogetter


TAGS18 = {"outcome", "second-outcome", "missing-outcome", "missing-timeout", "missing-send", "extra-send", "sequence", "broken-send", "panic", "died", "stopped",
          "missing-get", "get", "other-send"}


def judge(c, pid, sp, f, hashes, cmds, log, src):
    if isinstance(log, tuple):
        c.violation("died", "the process ended in the middle of a case: " + " / ".join(log[1][-3:]), dict(commands=cmds, log=log[1], **src))
        return
    if log is None:
        return
    m = Model(sp, f, hashes, cmds, log)
    try:
        m.run()
    except Bad as b:
        if (b.key in TAGS18) != (pid == "C18") and b.key not in ("panic", "died", "stopped"):
            c.seen("mismatches that belong to the other property")
            return
        ctxt = log[max(0, m.pos - 4):m.pos + 2]
        c.violation("rc-" + b.key, b.text[:1200] + "\n    around: " + " | ".join(x[:160] for x in ctxt), dict(commands=cmds, log=log, **src))
        return
    c.seen("records", len(log))
    for k, n in m.count.items():
        c.seen(k, n)
    c.seen("handler calls", sum(1 for l in log if l[:2] == "H "))
    c.ok(tuple(sorted(map(str, m.covered))), "%d commands: %s" % (len(cmds), ", ".join(sorted({str(x[0]) for x in m.covered}))))


def check(c, pid):
    nf, per = c.pick(32, 96), c.pick(90, 240)

    def one(i):
        r = c.rng("flow", i)
        while True:
            s, f = gen.flow_for(r, (("rust",), ("rust",)), ents=r.choice([8, 12, 16]))
            if (f.requests or f.beacons) and f.broadcasts():
                break
        sp = pmodel.Spec(f)
        with build.Scratch("rscons") as d:
            proj.make(d, s.text(), f.text())
            p = proj.generate(d)
            if p.returncode:
                raise HarnessError("generation failed: " + (p.stdout + p.stderr)[-500:])
            exe, err = build_harness(d, f)
            if exe is None:
                raise HarnessError("the generated consumer does not compile: " + err[:1500])
            hs = producer.fingerprints(d)
            cases = [Work(c.rng("case", i, k), sp, f, hs, FOCUS[pid]).build() for k in range(per)]
            if pid == "C18":
                w = Work(c.rng("long", i), sp, f, hs, FOCUS[pid])
                cases.append(w.long(66500, 64) if i == 0 else w.long(c.rng("length", i).choice([60, 270, 600]), [300, 7, 20, 80][i % 4]))
            src = dict(protocol=s.text(), workflow=f.text())
            try:
                p = build.run([exe], input="\n".join(x for cs in cases for x in cs) + "\n", timeout=200, cpu=150)
            except HarnessError:
                c.violation("hang", "the consumer did not come to rest", dict(commands=[x for cs in cases for x in cs], **src))
                return []
            if p.returncode:
                if "driver:" in p.stderr:
                    raise HarnessError(p.stderr[-800:])
                c.violation("died", "the process ended with status %s: %s" % (p.returncode, p.stderr[-600:]), dict(commands=[x for cs in cases for x in cs], **src))
            logs = split_cases(p.stdout, cases)
            if p.returncode == 0 and None in logs:
                c.violation("died", "the process ended before all commands were done", dict(commands=cases[logs.index(None)], **src))
            return [(sp, f, hs, cs, lg, src) for cs, lg in zip(cases, logs)]
    for i0 in range(0, nf, 8):
        if c.left() < 60:
            break
        for res in pmap(one, range(i0, min(nf, i0 + 8))):
            for x in res or []:
                judge(c, pid, *x)
        c.seen("workflows", min(nf, i0 + 8) - i0)


def c18(c):
    check(c, "C18")


def c19(c):
    check(c, "C19")
