"""Random workflow descriptions and their model.

  &config { SelfKey: Path; AssignedKey: Path; Producer: rust typescript; Consumer: ...; }
  Request !Error { (Conclusion > Response) > Broadcast; > Broadcast?; (C2 > Response2); }   or one (Response) without conclusion
  @Event { > Broadcast; > Broadcast?; }     Event: a message, or connected / disconnected
  @beacons { > Path; }
"""
import re

from . import schema as S

SERVICE = "InternalServiceGroup"


class Bcast:
    def __init__(self, ref, opt=False):
        self.ref, self.opt = ref, opt


class Action:
    def __init__(self, conclusion, response, bcasts):
        self.conclusion, self.response, self.bcasts = conclusion, response, bcasts


class Request:
    def __init__(self, ref, err, actions):
        self.ref, self.err, self.actions = ref, err, actions


class Event:
    def __init__(self, ref, bcasts):
        self.ref, self.bcasts = ref, bcasts

    @property
    def default(self):
        return self.ref in ("connected", "disconnected")


class Flow:
    def __init__(self, schema):
        self.schema = schema
        self.self_key = self.assigned_key = None
        self.producer, self.consumer = ["rust"], ["rust"]
        self.requests, self.events, self.beacons = [], [], []
        self.config_at = 0

    def broadcasts(self):
        """distinct broadcast references in textual order of first use"""
        out = []
        for x in self.requests:
            for a in x.actions:
                out += [b.ref for b in a.bcasts]
        for e in self.events:
            out += [b.ref for b in e.bcasts]
        return list(dict.fromkeys(out))

    def tokens(self):
        """list of statements, each a list of tokens"""
        cfg = ["&config", "{"]
        if self.self_key:
            cfg += ["SelfKey", ":", self.self_key, ";"]
        if self.assigned_key:
            cfg += ["AssignedKey", ":", self.assigned_key, ";"]
        cfg += ["Producer", ":"] + self.producer + [";", "Consumer", ":"] + self.consumer + [";", "}"]
        out = []
        for q in self.requests:
            t = [q.ref, "!", q.err, "{"]
            for a in q.actions:
                t += ["("] + ([a.conclusion, ">"] if a.conclusion else []) + [a.response, ")"]
                if not a.bcasts:
                    t += [";"]
                for b in a.bcasts:
                    t += [">", b.ref] + (["?"] if b.opt else []) + [";"]
            out.append(t + ["}"])
        for e in self.events:
            t = ["@" + e.ref, "{"]
            for b in e.bcasts:
                t += [">", b.ref] + (["?"] if b.opt else []) + [";"]
            out.append(t + ["}"])
        if self.beacons:
            t = ["@beacons", "{"]
            for b in self.beacons:
                t += [">", b, ";"]
            out.append(t + ["}"])
        out.insert(min(self.config_at, len(out)), cfg)
        return out

    def text(self, rng=None, style="plain", comments=False):
        out = ""
        for st in self.tokens():
            if comments and rng.random() < 0.5:
                out += "# " + rng.choice(COMMENTS) + "\n"
            out += flow_layout(st, rng, style, comments)
            out += "\n"
        return out


COMMENTS = ["a comment", "Broadcast for default event", "{ > ; }", "(x > Y) # z", "", "#", "Request!Error {", "}", "};", "@beacons { > Beacon; }",
            "комментарий ключа 日本 😀", "0 1 2", '"quoted\'', "tab\there", "// x */", "?!.:&@", "a;b;c; d", "\\", "$x ${y} {{z}}"]


def flow_layout(toks, rng, style, comments=False):
    if style == "plain":
        s, nl, depth = "", True, 0
        for t in toks:
            if t == "}":
                depth -= 1
            if nl:
                s += "    " * depth
                nl = False
            elif t not in (";", "?", ":", ")"):
                s += "" if s.endswith(("(", "!")) else " "
            s += t
            if t == "{":
                depth += 1
            if t in ("{", "}", ";"):
                s += "\n"
                nl = True
        return s

    def word(t):
        return t[0].isalnum() or t[0] in "@&_"
    if style == "random":
        # the parts of a path and the dots between them
        toks = [y for x in toks for y in (re.findall(r"[.]|[^.]+", x) if rng.random() < 0.4 else [x])]
    s, prev = "", None
    for t in toks:
        if prev is not None:
            need = word(prev) and word(t)
            n = rng.randint(1 if need else 0, 3) if style == "random" else int(need)
            s += "".join(rng.choice([" ", "\n", "\t", "\r\n", "  ", "\f", "\r"]) if style == "random" else " " for _ in range(n))
            if comments and rng.random() < 0.06:
                s += "#" + rng.choice(COMMENTS) + rng.choice(["\n", "\r\n"])
        s += t
        prev = t
    return s


CONCLUSIONS = ["Accept", "Deny", "CaseA", "CaseB", "Partial", "Later", "Wait_1", "GroupBStructA", "Ok2"]


class FlowGen:
    def __init__(self, rng, schema, enums=False, max_req=5, max_ev=4, max_be=4, keys=None, hi=4):
        self.r, self.s = rng, schema
        self.max_req, self.max_ev, self.max_be = max_req, max_ev, max_be
        self.keys = keys
        self.hi = hi
        self.ms = [e.full() for e in schema.messages() if enums or e.kind == "struct"]

    def bcasts(self, hi):
        n = self.r.choice([0, 0, 1, 1, 2, 3, hi])
        pool = list(self.ms)
        self.r.shuffle(pool)
        return [Bcast(p, self.r.random() < 0.35) for p in pool[:n]]

    def flow(self):
        r, f = self.r, Flow(self.s)
        structs = [e.full() for e in self.s.messages() if e.kind == "struct"]
        if self.keys is not None:
            f.self_key, f.assigned_key = self.keys
        else:
            f.self_key = r.choice(structs) if r.random() < 0.6 else None
            f.assigned_key = r.choice(structs) if r.random() < 0.6 else None
        openable = list(self.ms)
        r.shuffle(openable)
        reqs = openable[:r.randint(0 if r.random() < 0.1 else 1, self.max_req)]
        for p in reqs:
            acts = []
            k = r.choice([1, 1, 2, 3, 4])
            if k == 1 and r.random() < 0.7:
                acts.append(Action(None, r.choice(self.ms), []))
            else:
                names = list(CONCLUSIONS)
                r.shuffle(names)
                pool = list(self.ms)
                r.shuffle(pool)
                for i in range(min(k, len(pool))):
                    acts.append(Action(names[i], pool[i], self.bcasts(self.hi)))
            f.requests.append(Request(p, r.choice(self.ms), acts))
        evs = [p for p in self.ms]
        r.shuffle(evs)
        evs = evs[:r.randint(0, self.max_ev)]
        for d in ("connected", "disconnected"):
            if r.random() < 0.4:
                evs.insert(r.randint(0, len(evs)), d)
        for p in evs:
            b = []
            while not b:
                b = self.bcasts(self.hi)
            f.events.append(Event(p, b))
        be = [p for p in self.ms if p not in reqs]
        r.shuffle(be)
        f.beacons = be[:r.randint(0, self.max_be)]
        f.config_at = r.choice([0, 0, 0, r.randint(0, 10)])
        return f


def with_service(f):
    """The schema a workflow generation declares: the described one and the service group, which
    takes the ids after the described ones."""
    import copy
    s = copy.deepcopy(f.schema)
    g = S.Ent("group", SERVICE, s.root)
    s.root.items.append(g)

    def add(name, *fields):
        e = S.Ent("struct", name, g)
        e.fields = [S.Field(n, S.Ty(prim="str"), opt=o) for n, o in fields]
        g.items.append(e)
    if not f.self_key:
        add("SelfKeyRequest", ("uuid", True))
    add("SelfKeyResponse", ("uuid", False))
    if not f.assigned_key:
        add("AssignedKey")
    add("HashRequest", ("protocol", False), ("workflow", False))
    add("HashResponse", ("error", True))
    add("BeaconConfirmation", ("error", True))
    add("ConnectConfirmationBeacon")
    s.number()
    return s
