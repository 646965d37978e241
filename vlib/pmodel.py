"""Reference model of a generated Rust producer: decides whether a recorded log is a possible run.

The producer handles one thing at a time, taken from one of four queues (S: events of the transport,
E: events emitted by the application, I: changes of identities, F: confirmations). Which queue is served
next is not specified, so the model searches over the choices; what serving one entry does is specified
record by record. Records of control operations of the application are matched on their own.
"""
import copy, re
from . import flow, rsprod, wire
from .build import HarnessError

ALL = {"C12", "C13", "C14", "C15", "C16", "C17"}
MAGIC_APP, MAGIC_OP = "c0ffee", "c0ffef"


class Mismatch(Exception):
    def __init__(self, pos, tags, text):
        Exception.__init__(self, text)
        self.pos, self.tags, self.text = pos, set(tags), text


class Conn:
    def __init__(self, n):
        self.n = n
        self.buf = b""
        self.key = self.assigned = None
        self.hash = self.confirmed = self.discredited = False

    def fp(self):
        return (self.n, self.buf, str(self.key), str(self.assigned), self.hash, self.confirmed, self.discredited)


class State:
    def __init__(self):
        self.conns = {}
        self.S, self.E, self.I, self.F = [], [], [], []
        self.dec = {}
        self.credit = {}
        self.open = set()
        self.auto = False
        self.cancel = self.down = False
        self.calls = 0
        self.log = ()

    def clone(self):
        s = copy.copy(self)
        s.conns = {k: copy.copy(v) for k, v in self.conns.items()}
        s.S, s.E, s.I, s.F = list(self.S), list(self.E), list(self.I), list(self.F)
        s.dec = {k: v for k, v in self.dec.items()}
        s.open = set(self.open)
        s.credit = dict(self.credit)
        return s

    def fp(self):
        return (tuple(self.conns[k].fp() for k in sorted(self.conns)), len(self.S), len(self.E), str(self.I), tuple(self.F), self.cancel, str(sorted(self.credit.items())))

    def queues(self):
        return [q for q in "SEIF" if getattr(self, q)]


def uuid_text(n):
    h = "%032x" % n
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


class Tok:
    def __init__(self, text, ):
        self.t = text.split()
        self.i = 0

    def s(self):
        self.i += 1
        return self.t[self.i - 1]

    def n(self):
        return int(self.s())

    def ents(self, e, toks):
        """takes the tokens of a value of e"""
        out = []
        self._ent(e, out)
        return out

    def _ent(self, e, out):
        if e.kind == "struct":
            for f in e.fields:
                self._field(f, out)
        else:
            x = self.s()
            out.append(x)
            self._field(e.fields[int(x)], out)

    def _field(self, f, out):
        if f.opt:
            x = self.s()
            out.append(x)
            if x == "N":
                return
        n = 1
        if f.rep:
            n = self.n()
            out.append(str(n))
        for _ in range(n):
            if f.ty.ref is not None:
                self._ent(f.ty.ref, out)
            else:
                out.append(self.s())


def split_fields(e, toks):
    """token list of each field of a struct value"""
    t = Tok("")
    t.t = toks
    out = []
    for f in e.fields:
        o = []
        t._field(f, o)
        out.append(o)
    return out


class Spec:
    """The described workflow."""
    def __init__(self, f):
        self.f = f
        self.ws = flow.with_service(f)
        self.byid = self.ws.by_id()
        self.k, self.a = rsprod.key_refs(f)
        self.req = {q.ref: q for q in f.requests}
        self.bea = set(f.beacons)
        self.ev = {e.ref: e for e in f.events}
        self.events = list(f.events)
        s = flow.SERVICE + "."
        self.HashRequest, self.HashResponse = s + "HashRequest", s + "HashResponse"
        self.KeyResponse, self.Confirm, self.BeaconOk = s + "SelfKeyResponse", s + "ConnectConfirmationBeacon", s + "BeaconConfirmation"
        self.answers = {a.response for q in f.requests for a in q.actions} | {q.err for q in f.requests}
        self.bq = {b.ref for q in f.requests for a in q.actions for b in a.bcasts}
        self.be = {b.ref for e in f.events if not e.default for b in e.bcasts}
        self.bd = {b.ref for e in f.events if e.default for b in e.bcasts}

    def find(self, full):
        return self.ws.find(full)


class Model:
    def __init__(self, spec, hashes, commands, log):
        """commands: lines given to the harness, log: its output lines for them, without the '> ' marks"""
        self.sp, self.hashes, self.commands = spec, hashes, commands
        self.log = self.prepare(log)
        self.side = []
        self.best = None
        self.covered = set()
        self.steps = 0
        self.limit = 60000

    # ------------------------------------------------------------ log
    def prepare(self, log):
        """main log: begin and end marks of commands and records of the producer; the records of control operations of the
        application are moved into self.ctl"""
        out, self.ctl = [], []
        started = set()
        first = None
        for l in log:
            if first is None:
                first = 0
                out.append(("<", 0))
            if l.startswith("# "):
                i = int(l[2:])
                out.append((">", i))
                if i + 1 < len(self.commands):
                    out.append(("<", i + 1))
                continue
            if l.startswith("A "):
                p = l.split(" ", 3)
                i = int(p[1])
                if i < len(self.commands) and self.commands[i].lstrip("+").startswith("control "):
                    c = self.commands[i].lstrip("+").split()
                    if c[1] == "disconnect" and out and re.match(r"D[GF]? %s$" % c[2], out[-1][1] if out[-1][0] == "r" else ""):
                        self.ctl.append((len(out) - 1, "disc", i, out[-1][1]))
                        out[-1] = ("cd", out[-1][1])
                    self.ctl.append((len(out), "A", i, p[2:]))
                    if c[1] == "emit" and p[2] == "ok":
                        out.append(("emit", c[2:]))
                    if c[1] == "shutdown":
                        out.append(("sd", p[2]))
                continue
            if l.startswith("T ") or l.startswith("SHUTDOWN") or l.startswith("R ") or l.startswith("NOCONTROL"):
                self.ctl.append((len(out), "T", -1, l))
                out.append(("t", l))
                continue
            m = re.match(r"(S|SF|SG|SD) (\S+) x" + MAGIC_APP, l)
            if m:
                self.ctl.append((len(out), "send", -1, l))
                continue
            out.append(("r", l))
        return out

    def cmd_effect(self, st, i):
        t = self.commands[i].lstrip("+").split()
        c = t[0]
        if c == "case":
            st.opt_i = t[1] if t[1] != "default" else "Log"
            st.opt_e = t[2] if t[2] != "default" else "EmitErrorAndDisconnect"
            st.auto = t[4] == "1"
        elif c == "do":
            st.dec[t[1]] = st.dec.get(t[1], ()) + (" ".join(t[2:]),)
        elif c == "open":
            st.open.add(int(t[1]))
        elif c == "ready":
            st.S.append(("ready",))
        elif c == "conn":
            st.S.append(("conn", int(t[1])))
        elif c == "data":
            st.S.append(("data", int(t[1]), bytes.fromhex(t[2][1:])))
        elif c == "disc":
            st.S.append(("disc", int(t[1])))
        elif c == "err":
            st.S.append(("err", t[1], t[2]))
        elif c == "down":
            st.S.append(("down",))

    # ------------------------------------------------------------ search
    def check(self):
        """None or the Mismatch of the run that explains most of the log"""
        stack = [(State(), 0)]
        seen = set()
        while stack:
            st, pos = stack.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise HarnessError("model: search too wide")
            try:
                nxt = self.idle(st, pos)
            except Mismatch as m:
                self.note(m)
                continue
            if nxt is None:
                return None
            for st, pos in reversed(nxt):
                k = (pos, st.fp())
                if k not in seen:
                    seen.add(k)
                    stack.append((st, pos))
        return self.best

    def note(self, m):
        if self.best is None or m.pos > self.best.pos:
            self.best = m
        elif m.pos == self.best.pos:
            self.best.tags |= m.tags
            if m.text not in self.best.text and len(self.best.text) < 1500:
                self.best.text += "\n   or " + m.text

    def side_record(self, st, pos):
        """handles what may stand anywhere; True if it did"""
        k, v = self.log[pos]
        if k == "<":
            self.cmd_effect(st, v)
        elif k == "cd":
            self.disc_seen(st, v)
        elif k == "emit":
            st.E.append((int(v[0]), v[1:]))
        elif k == "sd":
            pass
        elif k == "t":
            if v == "T shutdown":
                st.cancel = True
            elif v.startswith("NOCONTROL"):
                raise HarnessError("control before ready")
            elif v == "R pending":
                pass
            elif v.startswith("R "):
                if not st.cancel:
                    raise Mismatch(pos, ALL, "the producer ended by itself: " + v)
                st.down = True
        else:
            return False
        return True

    def disc_seen(self, st, rec):
        p = rec.split()
        if p[0] == "D" and p[1] != "all" and st.auto:
            st.S.append(("disc", int(p[1])))

    def idle(self, st, pos):
        """the producer waits: [(state, position)] after each possible next step, None at the end of the log"""
        while True:
            if pos == len(self.log):
                return None
            k, v = self.log[pos]
            if k == ">":
                if self.commands[v].startswith("+") or st.down or not st.queues():
                    pos += 1
                    continue
                if st.cancel:
                    raise Mismatch(pos, {"C17"}, "the producer did not end after its shutdown")
                break
            if st.down and k == "r":
                raise Mismatch(pos, {"C17"} | self.tags_of(v), "activity after the end of the producer: " + v[:200])
            if self.side_record(st, pos):
                pos += 1
                continue
            break
        if not st.queues():
            raise Mismatch(pos, self.tags_of(v), "nothing to do, but: " + v[:300])
        out = []
        for q in st.queues():
            s = st.clone()
            self.st, self.pos, self.spare = s, pos, None
            try:
                what = getattr(s, q).pop(0)
                self.serve(q, what)
                out.append((s, self.pos))
            except Mismatch as m:
                self.note(m)
        return out

    # ------------------------------------------------------------ matching
    def peek(self, expected, tags, waiting=None, wantx=False):
        """the next record; waiting: gate the producer may be blocked at; wantx: an error event would fit"""
        while True:
            if self.pos == len(self.log):
                raise Mismatch(self.pos, tags, "log ended, expected " + expected)
            k, v = self.log[self.pos]
            if k == ">":
                if not self.commands[v].startswith("+") and not (waiting and waiting not in self.st.open):
                    raise Mismatch(self.pos, tags, "the producer is idle, expected %s" % expected)
                self.pos += 1
                continue
            if self.side_record(self.st, self.pos):
                if self.st.down:
                    raise Mismatch(self.pos, tags | {"C17"}, "the producer ended, expected " + expected)
                self.pos += 1
                continue
            if self.spare and not wantx and v.startswith("X ") and self.is_x(v.split(" "), self.spare[0]):
                # one more report of unreadable data of the chunk being served
                self.took(self.spare[0])
                self.spare = (self.spare[0], self.spare[1] - 1) if self.spare[1] > 1 else None
                self.pos += 1
                continue
            return v

    def bad(self, tags, text):
        raise Mismatch(self.pos, tags, text)

    def expect_send(self, u, ref, seq, toks, tags, what, exact=True):
        """a transmission of that message to u; returns True if the transport took it"""
        exp = "%s %s to %d, sequence %s: %s" % (what, ref, u, seq, " ".join(toks)[:200])
        v = self.peek(exp, tags)
        p = v.split(" ")
        if p[0] not in ("S", "SF", "SG", "SD"):
            self.bad(tags | self.tags_of(v), "expected %s, got %s" % (exp, v[:300]))
        err = self.compare(p, u, ref, seq, toks)
        if err:
            self.bad(tags | self.tags_of(v), "expected %s, got %s: %s" % (exp, self.describe(v), err))
        self.pos += 1
        self.covered.add((what, ref))
        return p[0] in ("S", "SG")

    def compare(self, p, u, ref, seq, toks):
        if p[1] != str(u):
            return "sent to %s" % p[1]
        b = bytes.fromhex(p[2][1:])
        e = self.sp.find(ref)
        if len(b) < wire.HEADER:
            return "too short"
        h = wire.parse_header(b)
        if h["id"] != e.id:
            return "id %d instead of %d" % (h["id"], e.id)
        if h["seq"] != seq:
            return "sequence %d instead of %d" % (h["seq"], seq)
        if h["len"] != len(b) - wire.HEADER or h["sig"] != 0:
            return "header"
        try:
            got = wire.toks_ent(e, wire.dec_ent(e, b[wire.HEADER:]), [])
        except wire.Bad as x:
            return "body: %s" % x
        return None if got == toks else "value " + " ".join(got)[:300]

    def describe(self, v):
        p = v.split(" ")
        if p[0] in ("S", "SF", "SG", "SD"):
            b = bytes.fromhex(p[2][1:])
            if len(b) >= wire.HEADER:
                h = wire.parse_header(b)
                e = self.sp.byid.get(h["id"])
                return "%s to %s: %s sequence %d %s" % (p[0], p[1], e.full() if e else h["id"], h["seq"], b[wire.HEADER:][:60].hex())
        return v[:300]

    def tags_of(self, v):
        p = v.split(" ")
        if p[0] == "H":
            k = p[2]
            if k.startswith("q:"):
                return {"C13", "C14"}
            if k.startswith("b:"):
                return {"C13", "C15"}
            return {"C15"} if k in ("e:connected", "e:disconnected") else {"C17"}
        if p[0] in ("S", "SF", "SG", "SD"):
            b = bytes.fromhex(p[2][1:])
            e = self.sp.byid.get(wire.parse_header(b)["id"]) if len(b) >= wire.HEADER else None
            if e is None:
                return {"C14", "C17"}
            n, o = e.full(), set()
            if n in (self.sp.HashResponse, self.sp.KeyResponse, self.sp.Confirm):
                o |= {"C12", "C13"}
            if n == self.sp.BeaconOk:
                o |= {"C15"}
            if n in self.sp.answers or n in self.sp.bq:
                o |= {"C14"}
            if n in self.sp.be:
                o |= {"C17"}
            if n in self.sp.bd:
                o |= {"C15"}
            return o or {"C14"}
        if p[0] in ("D", "DG", "DF"):
            return {"C13", "C16", "C15"}
        if p[0] == "X":
            return {"C13", "C15", "C16"}
        return set(ALL)

    # ------------------------------------------------------------ steps
    def report(self, u, disc, x, tags, what):
        """disconnect u (0: no, 1: yes) and an error event (0: no, 1: yes, 2: optional), in any order"""
        exp = "%s: %s%s" % (what, "disconnect of %s " % u if disc else "", "error event" if x == 1 else "")
        dd, xx = False, False
        if disc:
            c = self.st.conns[u]
            c.discredited = True
        while (disc and not dd) or (x == 1 and not xx):
            if x == 1 and not xx and (dd or not disc) and self.st.credit.get(u):
                # a record taken for an additional report was perhaps this one
                try:
                    p = self.peek(exp, tags, wantx=True).split(" ")
                except Mismatch:
                    p = [""]
                if p[0] != "X" or not self.is_x(p, u):
                    self.st.credit[u] -= 1
                    break
            v = self.peek(exp, tags, wantx=x == 1 and not xx)
            p = v.split(" ")
            if p[0] in ("D", "DG", "DF") and disc and not dd and p[1] == str(u):
                dd = True
                self.pos += 1
                self.disc_seen(self.st, v)
            elif p[0] == "X" and x and not xx and self.is_x(p, u):
                xx = True
                self.pos += 1
            else:
                self.bad(tags | self.tags_of(v), "expected %s, got %s" % (exp, self.describe(v)))
        self.covered.add((what, disc, x))
        if x == 2:
            self.maybe_x(u)

    def took(self, u):
        self.st.credit[u] = self.st.credit.get(u, 0) + 1

    def is_x(self, p, u):
        return p[1] == str(u) and p[2] in ("-", str(u))

    def maybe_x(self, u, n=1, count=False):
        while n:
            # marks stay where they are: an optional record must follow directly
            if self.pos < len(self.log) and self.log[self.pos][0] == "r":
                p = self.log[self.pos][1].split(" ")
                # errors of the transport carry the text the workload gave them
                if p[0] == "X" and self.is_x(p, u) and "fault" not in self.log[self.pos][1]:
                    self.pos += 1
                    n -= 1
                    if count:
                        self.took(u)
                    continue
            return

    def responsing_err(self, u, tags, what):
        s = self.st.opt_e
        c = self.st.conns.get(u)
        disc = s in ("Disconnect", "EmitErrorAndDisconnect") and c is not None and not c.discredited
        self.report(u, 1 if disc else 0, 1 if s in ("EmitError", "EmitErrorAndDisconnect") else 0, tags, what)

    def discredit(self, u, tags, what):
        c = self.st.conns[u]
        self.report(u, 0 if c.discredited else 1, 1, tags, what)

    def serve(self, q, w):
        if q == "S":
            getattr(self, "s_" + w[0])(*w[1:])
        elif q == "E":
            self.app_event(*w)
        elif q == "I":
            self.ident(*w)
        else:
            u = w
            if u in self.st.conns:
                c = self.st.conns[u]
                was = c.confirmed
                c.confirmed = True
                if not self.expect_send(u, self.sp.Confirm, 0, [], {"C13", "C12"}, "confirmation"):
                    self.report(u, 0, 1, {"C15"}, "failed confirmation")
            else:
                self.report(u, 0, 1, {"C15"}, "confirmation of a lost connection")

    def s_ready(self):
        v = self.peek("ready event", {"C17"})
        if v != "READY":
            self.bad({"C17"} | self.tags_of(v), "expected the ready event, got " + v[:200])
        self.pos += 1

    def s_down(self):
        self.st.cancel = True
        self.st.S, self.st.E, self.st.I, self.st.F = [], [], [], []

    def s_err(self, kind, u):
        exp = "error event of %s" % u
        v = self.peek(exp, {"C15"})
        p = v.split(" ")
        if p[0] != "X" or (p[1] != u and kind != "server") or p[2] not in ("-", u):
            self.bad({"C15"} | self.tags_of(v), "expected %s, got %s" % (exp, v[:200]))
        self.pos += 1
        self.covered.add(("fault", kind))

    def s_conn(self, u):
        e = self.sp.ev.get("connected")
        c = Conn(u)
        self.handler("e:connected", u, c, None, None, {"C15"}, e.bcasts if e else [], {"C15"})
        self.st.conns[u] = c
        self.st.F.append(u)

    def s_disc(self, u):
        c = self.st.conns.pop(u, None)
        if c is None:
            return
        e = self.sp.ev.get("disconnected")
        self.handler("e:disconnected", u, c, None, None, {"C15"}, e.bcasts if e else [], {"C15"})

    def app_event(self, idx, toks):
        e = self.sp.events[idx]
        self.handler("e:" + e.ref, None, None, e.ref, toks, {"C17"}, e.bcasts, {"C17"})

    def ident(self, what, u, ov, toks):
        c = self.st.conns.get(u)
        if c is None:
            self.report(u, 0, 1, {"C16", "C15"}, "identity of a lost connection")
            return
        name, ref = ("key", self.sp.k) if what == "k" else ("assigned", self.sp.a)
        old = getattr(c, name)
        if ov or old is None:
            setattr(c, name, toks)
        else:
            e = self.sp.find(ref)
            out = []
            for f, o, n in zip(e.fields, split_fields(e, old), split_fields(e, toks)):
                out += o if f.opt and n == ["N"] else n
            setattr(c, name, out)
        self.covered.add(("identity", what, ov))

    def filters(self, u):
        cs = self.st.conns
        def l(x):
            return ",".join(str(k) for k in sorted(x))
        me = u if u is not None else 1
        return "|".join([l(cs), l(k for k in cs if k != me), l(k for k in cs if k not in (me, 1, 3)), l(cs),
                         l(k for k in cs if cs[k].key is not None), l(k for k in cs if cs[k].assigned is not None and k != 2)])

    HREC = re.compile(r"H (\d+) (\S+) (\S+) K\[ (.*?) ?\] A\[ (.*?) ?\] F\[ (\S*) ?\] V ?(.*)$")

    def handler(self, name, u, c, ref, toks, tags, bcasts, btags, request=None, seq=0, beacon=False):
        st = self.st
        exp = "a call of %s for %s" % (name, u)
        v = self.peek(exp, tags)
        m = self.HREC.match(v)
        if not m or m.group(2) != name:
            self.bad(tags | self.tags_of(v), "expected %s, got %s" % (exp, self.describe(v)))
        call = m.group(1)
        who = str(u) if u is not None else "-"
        if m.group(3) != who:
            self.bad(tags | {"C16"}, "%s is called for %s instead of %s" % (name, m.group(3), who))
        for i, (n, x) in enumerate((("key", c.key if c else None), ("assigned key", c.assigned if c else None))):
            want = " ".join(x) if x is not None else "none"
            if m.group(4 + i) != want:
                self.bad({"C16"}, "%s sees the %s '%s' of %s instead of '%s'" % (name, n, m.group(4 + i)[:200], who, want[:200]))
        if m.group(6) != self.filters(u):
            self.bad({"C16"}, "%s for %s: filter returned %s instead of %s" % (name, who, m.group(6), self.filters(u)))
        if m.group(7).split() != (toks or []):
            self.bad(tags, "%s for %s got the value '%s' instead of '%s'" % (name, who, m.group(7)[:200], " ".join(toks or [])[:200]))
        self.pos += 1
        ds = st.dec.get(name, ())
        if not ds:
            raise HarnessError("no decision for " + name)
        st.dec[name] = ds[1:]
        t = Tok(ds[0])
        g, deferred, n = t.n(), t.n(), t.n()
        # the handler does all of it at once after its gate was opened
        self.peek("the end of call %s of %s" % (call, name), tags, waiting=g)
        for _ in range(n):
            op = t.s()
            if op in ("k", "a"):
                ov = t.n() == 1
                val = t.ents(self.sp.find(self.sp.k if op == "k" else self.sp.a), None)
                st.I.append((op, u, ov, val))
            elif op == "D":
                d = t.n()
                v = self.peek("disconnect of %d by %s" % (d, name), {"C17"}, waiting=g)
                if not re.match(r"D[GF]? %d$" % d, v):
                    self.bad({"C17"} | self.tags_of(v), "expected the disconnect of %d by %s, got %s" % (d, name, self.describe(v)))
                self.pos += 1
                self.disc_seen(st, v)
            elif op == "S":
                d, x = t.n(), t.s()
                v = self.peek("send to %d by %s" % (d, name), {"C17"}, waiting=g)
                p = v.split(" ")
                if p[0] not in ("S", "SF", "SG", "SD") or p[1:] != [str(d), x]:
                    self.bad({"C17"} | self.tags_of(v), "expected the transmission of %s to %d by %s, got %s" % (x, d, name, v[:200]))
                self.pos += 1
            else:
                i = t.n()
                st.E.append((i, t.ents(self.sp.find(self.sp.events[i].ref), None)))
        v = self.peek("the end of call %s of %s" % (call, name), tags, waiting=g)
        if v != "C " + call:
            self.bad(tags | self.tags_of(v), "expected the end of call %s of %s, got %s" % (call, name, self.describe(v)))
        self.pos += 1
        self.covered.add((name, len(st.conns)))
        ok = t.s() == "R"
        self.covered.add((name, ok))
        if request is not None:
            if not ok:
                val = t.ents(self.sp.find(request.err), None)
                if not self.expect_send(u, request.err, seq, val, tags, "error answer"):
                    self.responsing_err(u, {"C14", "C15"}, "failed answer")
                    return self.maybe_q(call)
                return self.q(call, deferred, tags, optional=True)
            a = request.actions[t.n()]
            val = t.ents(self.sp.find(a.response), None)
            if not self.expect_send(u, a.response, seq, val, tags, "answer"):
                self.responsing_err(u, {"C14", "C15"}, "failed answer")
                return self.maybe_q(call)
            bcasts = a.bcasts
        elif beacon:
            if not ok:
                self.report(u, 0, 1, tags, "refused beacon")
                return self.maybe_q(call)
            if not self.expect_send(u, self.sp.BeaconOk, seq, ["N"], tags, "beacon confirmation"):
                self.report(u, 0, 1, tags, "failed confirmation of a beacon")
                return self.maybe_q(call)
        elif not ok:
            return self.maybe_q(call)
        for b in bcasts:
            if b.opt and t.s() == "N":
                self.covered.add((name, b.ref, "none"))
                continue
            us = t.s()
            us = [] if us == "-" else [int(x) for x in us.split(",")]
            val = t.ents(self.sp.find(b.ref), None)
            self.broadcast(us, b.ref, val, btags)
        self.q(call, deferred, tags)

    def broadcast(self, us, ref, val, tags):
        rest = list(us)
        while rest:
            exp = "broadcast %s to %s" % (ref, rest)
            v = self.peek(exp, tags)
            p = v.split(" ")
            if p[0] not in ("S", "SF", "SG", "SD") or not p[1].isdigit() or int(p[1]) not in rest:
                self.bad(tags | self.tags_of(v), "expected %s, got %s" % (exp, self.describe(v)))
            err = self.compare(p, int(p[1]), ref, 0, val)
            if err:
                self.bad(tags | self.tags_of(v), "expected %s, got %s: %s" % (exp, self.describe(v), err))
            rest.remove(int(p[1]))
            self.pos += 1
        self.covered.add(("broadcast", ref, len(us)))

    def q(self, call, deferred, tags, optional=False):
        if not deferred:
            return
        if optional:
            return self.maybe_q(call)
        v = self.peek("the deferred call of %s" % call, tags)
        if v != "Q " + call:
            self.bad(tags | self.tags_of(v), "expected the deferred call of %s, got %s" % (call, self.describe(v)))
        self.pos += 1

    def maybe_q(self, call):
        if self.pos < len(self.log) and self.log[self.pos] == ("r", "Q " + call):
            self.pos += 1

    def s_data(self, u, data):
        st, sp = self.st, self.sp
        c = st.conns.get(u)
        if c is None:
            self.responsing_err(u, {"C15"}, "data of an unknown connection")
            return
        if not c.confirmed:
            if c.discredited:
                self.maybe_x(u)
            else:
                self.discredit(u, {"C13"}, "data before confirmation")
            return
        if c.discredited:
            return
        c.buf += data
        msgs, c.buf = wire.split_stream(c.buf)
        good, nbad = [], 0
        for h, body in msgs:
            e = sp.byid.get(h["id"])
            try:
                if e is None or h["sig"] != 0:
                    raise wire.Bad("id")
                good.append((e.full(), h["seq"], wire.toks_ent(e, wire.dec_ent(e, body), [])))
            except wire.Bad:
                nbad += 1
        if nbad:
            self.responsing_err(u, {"C15"}, "unreadable data")
            if nbad > 1 and st.opt_e in ("EmitError", "EmitErrorAndDisconnect"):
                self.spare = (u, nbad - 1)
        for ref, seq, toks in good:
            c = st.conns.get(u)
            if c is None or c.discredited:
                break
            self.message(u, c, ref, seq, toks)
        if self.spare:
            self.maybe_x(*self.spare, count=True)
            self.spare = None

    def message(self, u, c, ref, seq, toks):
        st, sp = self.st, self.sp
        if ref == sp.k and not c.hash:
            c.key = toks
            if not self.expect_send(u, sp.KeyResponse, seq, ["s" + uuid_text(u).encode().hex()], {"C13", "C16"}, "answer to the key"):
                self.responsing_err(u, {"C15"}, "failed answer to the key")
            return
        if ref == sp.HashRequest:
            want = ["s" + h.encode().hex() for h in self.hashes]
            valid = toks == want
            tags = {"C12", "C13"}
            if valid:
                c.hash = True
            # any text is fine as the reason
            exp = "fingerprint answer to %d" % u
            v = self.peek(exp, tags)
            p = v.split(" ")
            ok = None
            if p[0] in ("S", "SF", "SG", "SD"):
                b = bytes.fromhex(p[2][1:])
                e = sp.find(sp.HashResponse)
                if p[1] == str(u) and len(b) >= wire.HEADER and wire.parse_header(b)["id"] == e.id and wire.parse_header(b)["seq"] == seq:
                    try:
                        ok = wire.dec_ent(e, b[wire.HEADER:])[0] is None
                    except wire.Bad:
                        pass
            if ok is None or ok != valid:
                self.bad(tags | self.tags_of(v), "expected %s: %s, got %s" % (exp, "accepted" if valid else "refused", self.describe(v)))
            self.pos += 1
            self.covered.add(("fingerprint", valid, sum(a == b for a, b in zip(toks, want))))
            if p[0] in ("SF", "SD"):
                self.responsing_err(u, {"C15"}, "failed fingerprint answer")
            if not valid:
                self.discredit(u, tags, "refused fingerprint")
            return
        if not c.hash:
            self.discredit(u, {"C13"}, "message before the fingerprint")
            return
        if c.key is None:
            self.discredit(u, {"C13", "C16"}, "message before the key")
            return
        if c.assigned is None and st.opt_i in ("EmitError", "Disconnect", "EmitErrorAndDisconnect"):
            self.report(u, 0 if st.opt_i == "EmitError" or c.discredited else 1, 0 if st.opt_i == "Disconnect" else 1, {"C16", "C13"},
                        "message of a not assigned connection (%s)" % st.opt_i)
            return
        if ref in sp.req:
            q = sp.req[ref]
            self.handler("q:" + ref, u, c, ref, toks, {"C14"}, [], {"C14"}, request=q, seq=seq)
            self.covered.add(("served", st.opt_i, c.assigned is not None))
        elif ref in sp.bea:
            self.handler("b:" + ref, u, c, ref, toks, {"C15"}, [], {"C15"}, beacon=True, seq=seq)
        else:
            self.covered.add(("ignored message",))

    # ------------------------------------------------------------ control operations of the application
    def control(self):
        """[(tags, text)] about the control operations and the end of the run"""
        out = []
        sends, res, discs = {}, {}, {}
        ended = shut = None
        tshut = False
        for pos, k, i, v in self.ctl:
            if k == "send":
                p = v.split(" ")
                n = int(p[2][1 + 6:1 + 6 + 4], 16)
                sends.setdefault(n, []).append((p[0], p[1], p[2]))
                if p[0] == "S" and (ended is not None or shut is not None):
                    out.append(({"C17"}, "transmission after the end: " + v[:100]))
            elif k == "A":
                res[i] = v[0]
            elif k == "disc":
                discs[i] = v
            elif k == "T" and v == "T shutdown":
                tshut = True
            elif k == "T" and v.startswith("R "):
                ended = v
                if v != "R ok" and v != "R pending":
                    out.append((set(ALL), "run ended with " + v))
            if k == "A" and self.commands[i].lstrip("+").split()[1] == "shutdown" and self.commands[i].split()[2] == "1" and v[0] == "ok":
                shut = pos
        for i, l in enumerate(self.commands):
            t = l.lstrip("+").split()
            if t[0] != "control":
                continue
            got = sends.pop(i, [])
            if t[1] in ("send", "broadcast"):
                want = [t[2]] if t[1] == "send" else ([] if t[2] == "-" else t[2].split(","))
                if res.get(i) is None:
                    out.append(({"C17"}, "'%s' never ended" % l[:100]))
                elif sorted(x[1] for x in got) != sorted(want) or any(x[2] != t[3] for x in got):
                    out.append(({"C17"}, "'%s' made the transmissions %s" % (l[:100], [(x[0], x[1], x[2][:40]) for x in got])))
                elif t[1] == "send" and (res[i] == "ok") != (got[0][0] in ("S", "SG")):
                    out.append(({"C17"}, "'%s' ended with %s, the transmission with %s" % (l[:100], res[i], got[0][0])))
                self.covered.add((t[1], len(want), res.get(i)))
            elif t[1] == "disconnect":
                if i not in discs:
                    out.append(({"C17"}, "'%s' did not disconnect" % l))
                elif discs[i].split()[0] != "DG" and (res.get(i) == "ok") != (discs[i].split()[0] == "D"):
                    out.append(({"C17"}, "'%s' ended with %s: %s" % (l, res.get(i), discs[i])))
                self.covered.add((t[1], res.get(i)))
            elif t[1] == "emit":
                if res.get(i) is None:
                    out.append(({"C17"}, "'%s' never ended" % l[:100]))
                elif res[i] != "ok" and ended is None:
                    out.append(({"C17"}, "'%s' failed although the producer is running" % l[:100]))
        if sends:
            out.append(({"C17"}, "transmissions nobody asked for: %s" % sends))
        # the main log after a completed shutdown
        if shut is not None:
            for k, v in self.log[shut:]:
                if k == "r" and v.split(" ")[0] in ("H", "S", "SF", "SG", "SD", "D", "DG", "DF"):
                    out.append(({"C17"}, "after a completed shutdown: " + v[:200]))
                    break
        asked = [l for l in self.commands if re.match(r"\+?(control shutdown|down)", l)]
        if asked:
            if ended is None or ended == "R pending":
                out.append(({"C17"}, "the producer was asked to end and did not"))
            else:
                ts = [v for _, k, _, v in self.ctl if k == "T"]
                if not tshut:
                    out.append(({"C17"}, "the producer ended without stopping its transport"))
                if "T dropped" not in ts:
                    out.append(({"C17"}, "the producer ended and kept the transport"))
                if sum(v == "SHUTDOWN" for v in ts) != 1:
                    out.append(({"C17"}, "the shutdown event was reported %d times" % sum(v == "SHUTDOWN" for v in ts)))
                for i, l in enumerate(self.commands):
                    if l.lstrip("+") == "control shutdown 1" and res.get(i) is None:
                        out.append(({"C17"}, "a shutdown call never returned"))
            self.covered.add(("end", asked[0].lstrip("+")))
        return out
