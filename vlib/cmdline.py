"""C24: the command line. Every spelling, order and combination of options gives exactly the outputs asked for;
wrong command lines are refused and leave every file as it was."""
import os, re
from . import build, gen, outputs, proj
from .build import HarnessError
from .mon import pmap

KEYS = dict(source=["--source", "--src", "-s"], workflow=["--workflow", "-wf"], rs=["--destination-rs", "--dest-rs", "-rs"],
            ts=["--destination-ts", "--dest-ts", "-ts"], consumer=["--consumer-dest", "-cd"], producer=["--producer-dest", "-pd"],
            diagram=["--puml", "-d"], overwrite=["--overwrite", "--ow", "-o"], embedded=["--embedded", "--em", "-e"], help=["--help", "-h"])
FLAGS = ("overwrite", "embedded")
# what a user may ask for: options besides the source
KINDS = [("rs",), ("ts",), ("rs", "ts"), ("workflow", "consumer", "producer"), ("workflow", "consumer", "producer", "rs"), ("workflow", "consumer", "producer", "ts"),
         ("workflow", "consumer", "producer", "rs", "ts"), ("workflow", "diagram"), ("workflow", "diagram", "rs"), ("workflow", "diagram", "ts", "rs")]
CANON = dict(source="p.prot", workflow="p.workflow", rs="o.rs", ts="o.ts", consumer="consumer/src/consumer", producer="producer/src/producer", diagram="o.puml")


def canonical(kind, em):
    cmd = [build.cli(), "-s", CANON["source"]]
    for k in kind:
        cmd += [KEYS[k][-1], CANON[k]]
    return cmd + (["--em"] if em else [])


def respell(r, d, cwd, path):
    """another name of the same file, as seen from cwd"""
    full = os.path.join(d, path)
    k = r.choice(["rel", "abs", "dot", "up", "double"])
    rel = os.path.relpath(full, cwd)
    if rel.startswith("-"):
        rel = "./" + rel
    if k == "abs":
        return full
    if k == "dot":
        return "./" + rel
    if k == "up":
        return os.path.join("..", os.path.basename(cwd), rel)
    if k == "double":
        return rel.replace("/", "//") if not rel.startswith("..") else rel
    return rel


def spelled(r, d, cwd, kind, flags, names):
    """options of a command line in another order and spelling"""
    opts = [(r.choice(KEYS[k]), respell(r, d, cwd, names[k])) for k in ("source",) + tuple(kind)] + [(r.choice(KEYS[x]),) for x in flags]
    r.shuffle(opts)
    return opts


def flat(opts):
    return [x for o in opts for x in o]


def owned(kind, rel, names):
    """is rel an output (or a manifest the generator completes) of this kind"""
    if rel in [names[k] for k in kind if k in ("rs", "ts", "diagram")]:
        return True
    return "consumer" in kind and rel.startswith(("consumer/", "producer/"))


# values which look like keys, other suffixes, places deep below
NAMES = dict(source=["p.prot", "desc/p.prot", "x-overwrite", "desc/--em", "sub/s", "a b/описание.prot", "em", "p.workflow.prot"],
             workflow=["p.workflow", "desc/p.workflow", "y--ow", "sub/-o", "flow", "a b/p.prot", "overwrite"],
             rs=["o.rs", "sub/o.rs", "desc/--overwrite", "x.ts", "a b/--em", "embedded", "out"], ts=["o.ts", "sub/o.ts", "a b/-o", "y.rs", "sub/--embedded", "help"],
             diagram=["o.puml", "desc/-e", "sub/d.puml", "diagram"])


def place(r):
    while True:
        n = dict(CANON, **{k: r.choice(v[:2] if r.random() < 0.4 else v) for k, v in NAMES.items()})
        if len(set(n.values())) == len(n):
            return n


def case(c, d, r, i):
    kind = KINDS[i % len(KINDS)]
    t = r.choice(gen.TARGETS)
    s, f = gen.flow_for(r, t, ents=r.choice([3, 6, 12]))
    em = r.random() < 0.5
    data = dict(protocol=s.text(), workflow=f.text())
    a = os.path.join(d, "a")
    proj.make(a, s.text(), f.text())
    start = proj.tree(a)
    p = build.run(canonical(kind, em), cwd=a, timeout=60)
    if not outputs.valid(c, p, s, f, "command line"):
        return
    ref = proj.tree(a)
    sig = "+".join(kind)

    def judge(name, p, got, cmd, before, names):
        dd = dict(data, command=" ".join(cmd), output=(p.stdout + p.stderr)[-500:])
        if p.returncode:
            return c.violation("%s-refused" % name, "%s is refused: %s" % (" ".join(cmd[1:]), (p.stdout + p.stderr)[-300:]), dd)
        back = {names[k]: CANON[k] for k in kind if k in ("rs", "ts", "diagram")}
        here = set(got) | {n for n in names.values()} | {k for k in ref if "consumer" in kind and k.startswith(("consumer/", "producer/"))}
        for k in sorted(here):
            if owned(kind, k, names) and got.get(k) != ref.get(back.get(k, k)) and not (k in before and k not in start and got.get(k) == before[k]):
                return c.violation("%s-output" % name, "%s of %s is %s" % (k, " ".join(cmd[1:]), "missing" if k not in got else "unexpected" if back.get(k, k) not in ref else "not what the canonical command line gives"), dd)
            if not owned(kind, k, names) and got.get(k) != before.get(k):
                return c.violation("%s-other" % name, "%s %s although %s does not ask for it" % (k, "created" if k not in before else "changed", " ".join(cmd[1:])), dd)
        c.seen("command lines with exactly the outputs asked for")
        c.ok("%s %s em=%s" % (name, sig, em), sample=" ".join(cmd[1:]))

    # the outputs asked for exist and nothing else
    want = [CANON[k] for k in kind if k in ("rs", "ts", "diagram")]
    for k in want:
        if not ref.get(k):
            c.violation("nothing-written", "%s: no %s with status 0" % (sig, k), data)
    if "consumer" in kind:
        for side, tg, b in outputs.bases(f):
            if not any(k.startswith(b + "/") for k in ref):
                c.violation("no-project", "%s: nothing below %s with status 0" % (sig, b), data)
        for k in ref:
            if k not in start and k not in want and not any(k.startswith(b + "/") for _, _, b in outputs.bases(f)):
                c.violation("unasked", "%s created by %s" % (k, sig), data)
    else:
        for k in ref:
            if k not in want and ref[k] != start.get(k):
                c.violation("unasked", "%s created or changed by %s" % (k, sig), data)
    # embedding is an option
    if "rs" in kind or "ts" in kind:
        b = os.path.join(d, "b")
        proj.make(b, s.text(), f.text())
        p = build.run(canonical(kind, not em), cwd=b, timeout=60)
        other = proj.tree(b)
        for k in want:
            if k == CANON["diagram"]:
                continue
            x, y = (ref.get(k, b""), other.get(k, b"")) if em else (other.get(k, b""), ref.get(k, b""))
            mark = rb"\bstruct Buffer\b" if k.endswith(".rs") else rb"\bclass Convertor\b"
            if not re.search(mark, x):
                c.violation("embedded", "the reader is not embedded into %s though asked for" % k, data)
            elif re.search(mark, y):
                c.violation("not-embedded", "the reader is embedded into %s though not asked for" % k, data)
            else:
                c.seen("embedding follows the option")
    for n in range(c.pick(3, 6)):
        # the same request in other words and places
        e = os.path.join(d, "c%d" % n)
        names = place(r) if r.random() < 0.7 else dict(CANON)
        outs = [k for k in kind if k in ("rs", "ts", "diagram")]
        proj.skeleton(e)
        # other descriptions of the same names in other places
        ds, df = gen.flow_for(r, t, ents=3)
        for k, own, other in (("source", s.text(), ds.text()), ("workflow", f.text(), df.text())):
            for x in ("", "sub/", "desc/", "consumer/", "consumer/src/", "a b/"):
                proj.write(os.path.join(e, x + os.path.basename(names[k])), other)
        proj.write(os.path.join(e, names["source"]), s.text())
        proj.write(os.path.join(e, names["workflow"]), f.text())
        for x in ("keep.rs", "keep.ts", "sub/keep.txt"):
            proj.write(os.path.join(e, x), "of the user\n")
        for k in outs:
            p = os.path.join(e, names[k])
            if os.path.exists(p):
                names[k] = CANON[k]
        ow = r.random() < 0.5
        if ow:
            for k in outs:
                if r.random() < 0.6:
                    proj.write(os.path.join(e, names[k]), r.choice(["", "// old\n" * r.randrange(1, 3000), ref.get(CANON[k], b"") + b"\n// tail"]))
        before = proj.tree(e)
        cwd = r.choice([e, os.path.join(e, "sub"), os.path.join(e, "consumer", "src")])
        cmd = [build.cli()] + flat(spelled(r, e, cwd, kind, (("overwrite",) if ow else ()) + (("embedded",) if em else ()), names))
        p = build.run(cmd, cwd=cwd, timeout=60)
        judge("spelling", p, proj.tree(e), [x.replace(e, "<project>") for x in cmd], before, names)
        refusals(c, e, cwd, r, kind, em, data, names)


WORDS = ["--nonsense", "-x", "out.rs", "-S", "--Source", "-", "--", "--src=p.prot", "-rss", "--overwritten", "--o", "-em", "ё", "-cd2", "--dest", "o.ts", "-ow"]


def refusals(c, e, cwd, r, kind, em, data, names):
    """wrong variants of the command line: refused, and every file as before"""
    fl = ("embedded",) if em else ()
    want = [k for k in kind if k in ("rs", "ts", "diagram")]
    for k in want:
        p = os.path.join(e, names[k])
        if os.path.exists(p):
            os.unlink(p)

    def no(name, opts, what):
        cmd = [build.cli()] + flat(opts)
        before = proj.tree(e)
        p = build.run(cmd, cwd=cwd, timeout=60)
        df = proj.diff(before, proj.tree(e))
        dd = dict(data, command=" ".join(cmd), cwd=cwd, status=p.returncode, output=(p.stdout + p.stderr)[-500:], files=df)
        if p.returncode == 0:
            c.violation("%s-accepted" % name, "%s: %s ends with status 0" % (what, " ".join(cmd[1:])), dd)
        elif p.returncode < 0 or p.returncode > 1 or "panicked" in p.stderr:
            c.violation("%s-crash" % name, "%s: %s ends with status %s: %s" % (what, " ".join(cmd[1:]), p.returncode, p.stderr[-300:]), dd)
        elif df:
            c.violation("%s-writes" % name, "%s: %s is refused but %s" % (what, " ".join(cmd[1:]), df), dd)
        else:
            c.seen("wrong command lines refused, nothing written")
            c.ok("refused %s %s" % (name, "+".join(kind)), sample=" ".join(cmd[1:]).replace(e, "<project>"))

    base = spelled(r, e, cwd, kind, fl, names)
    # an unknown word anywhere between the options
    x = list(base)
    x.insert(r.randrange(len(x) + 1), (r.choice(WORDS),))
    no("unknown", x, "unknown argument")
    # or of something that exists
    x = list(base)
    x.insert(r.randrange(len(x) + 1), (respell(r, e, cwd, r.choice(["keep.rs", "sub", "consumer/Cargo.toml", names["source"], names["workflow"]])),))
    no("stray-path", x, "stray path")
    # an option given twice, with different values
    k = r.choice(["source"] + [k for k in kind])
    x = list(base)
    x.insert(r.randrange(len(x) + 1), (r.choice(KEYS[k]), respell(r, e, cwd, "twice-" + os.path.basename(CANON[k]))))
    no("twice", x, "an option given twice")
    # an existing output without the overwrite option
    if want:
        k = r.choice(want)
        p = os.path.join(e, names[k])
        proj.write(p, r.choice(["", "of the user\n"]))
        no("existing-" + k, base, "existing output without the overwrite option")
        os.unlink(p)
    # sources
    x = [o for o in base if o[0] not in KEYS["source"]]
    no("no-source", x, "no source")
    no("missing-source", x + [(r.choice(KEYS["source"]), respell(r, e, cwd, "none.prot"))], "missing source")
    if "workflow" in kind:
        x = [o for o in base if o[0] not in KEYS["workflow"]]
        no("missing-workflow", x + [(r.choice(KEYS["workflow"]), respell(r, e, cwd, "none.workflow"))], "missing workflow")
        if "diagram" in kind:
            no("diagram-without-workflow", x, "diagram without workflow")
    if "consumer" in kind:
        for k in ("consumer", "producer"):
            x = [o for o in base if o[0] not in KEYS[k]]
            no("no-" + k, x, "no destination of the " + k)
            no("unreachable-" + k, x + [(r.choice(KEYS[k]), respell(r, e, cwd, "none/deep/" + k))], "destination which cannot be created")
    # the value of an option is missing
    k = r.choice([k for k in ("source",) + tuple(kind) if k not in ("rs", "ts")])
    x = [o for o in base if o[0] not in KEYS[k]]
    r.shuffle(x)
    x.insert(r.randrange(len(x) + 1), (r.choice(KEYS[k]),))
    no("no-value-" + k, x, "option without value")


def default(c, d, r, i):
    """an output named without value takes the place and name of the source (the help says so)"""
    s = gen.schema_for(r, True, r.choice([3, 6]))
    name = r.choice(["p.prot", "sub/my.protocol.prot", "sub/proto", "a b/x.y"])
    kind = [("rs",), ("ts",), ("rs", "ts")][i % 3]
    em = r.random() < 0.5
    proj.write(os.path.join(d, name), s.text())
    flags = [(r.choice(KEYS["embedded"]),)] if em else []
    ref = os.path.join(d, "ref")
    os.makedirs(ref)
    p = build.run([build.cli(), "-s", name] + [x for k in kind for x in (KEYS[k][-1], "ref/o." + k)] + flat(flags), cwd=d, timeout=60)
    before = proj.tree(d)
    opts = [(r.choice(KEYS["source"]), respell(r, d, d, name))] + [(r.choice(KEYS[k]),) for k in kind] + flags
    r.shuffle(opts)
    cmd = [build.cli()] + flat(opts)
    p = build.run(cmd, cwd=d, timeout=60)
    got = proj.tree(d)
    want = {os.path.splitext(name)[0] + "." + k: got.get("ref/o." + k) for k in kind}
    dd = dict(protocol=s.text(), command=" ".join(cmd[1:]), output=(p.stdout + p.stderr)[-400:], files=sorted(got))
    changed = {k for k in set(got) | set(before) if got.get(k) != before.get(k)}
    if p.returncode or None in want.values():
        c.violation("default-refused", "%s is refused: %s" % (" ".join(cmd[1:]), dd["output"]), dd)
    elif changed != set(want):
        c.violation("default-files", "%s created or changed %s instead of %s" % (" ".join(cmd[1:]), sorted(changed), sorted(want)), dd)
    elif any(got[k] != want[k] for k in want):
        c.violation("default-content", "%s: output differs from the one with a value" % " ".join(cmd[1:]), dd)
    else:
        c.seen("default destinations")
        c.ok("default %s %s em=%s" % ("+".join(kind), name, em), sample=" ".join(cmd[1:]))
    # a second time: refused, the files stay
    p = build.run(cmd, cwd=d, timeout=60)
    if p.returncode == 0 or proj.tree(d) != got:
        c.violation("default-overwritten", "%s again: status %s, %s" % (" ".join(cmd[1:]), p.returncode, proj.diff(got, proj.tree(d))), dd)


def help_(c, d, r):
    os.makedirs(d)
    for k in KEYS["help"]:
        before = proj.tree(d)
        p = build.run([build.cli(), k], cwd=d, timeout=30)
        if "panicked" in p.stderr or p.returncode not in (0, 1):
            c.violation("help-crash", "%s: status %s %s" % (k, p.returncode, p.stderr[-300:]), {})
        lost = [x for n in KEYS for x in KEYS[n] if not re.search(r"(?<![\w-])" + re.escape(x) + r"(?![\w-])", p.stdout)]
        if proj.diff(before, proj.tree(d)):
            c.violation("help-writes", "%s writes files" % k, {})
        for x in lost:
            c.violation("help-lacks" + x, "%s does not name %s" % (k, x), dict(output=p.stdout))
        c.ok("help " + k, sample=p.stdout[:200])


def c24(c):
    with build.Scratch("C24") as d:
        n = c.pick(60, 800)
        pmap(lambda i: c.left() > 0 and case(c, os.path.join(d, "c%d" % i), c.rng("c", i), i), range(n), 8)
        pmap(lambda i: default(c, os.path.join(d, "d%d" % i), c.rng("d", i), i), range(c.pick(15, 150)), 8)
        help_(c, os.path.join(d, "help"), c.rng("help"))
        if not c.violations and c.counts.get("wrong command lines refused, nothing written", 0) < c.pick(500, 4000):
            raise HarnessError("only %s command lines were judged" % c.counts)
