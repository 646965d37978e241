"""Monitors over the generator itself: C07 - C12, C23."""
import os, random, re, shutil
from . import build, flow, mutate, proj, schema
from .build import HarnessError
from .mon import pmap


def schema_for(r, ts=True, ents=None):
    return schema.Gen(r, max_ents=ents or r.choice([2, 6, 12, 20]), depth=r.choice([1, 2, 3]), max_fields=r.choice([3, 6]), ts=ts,
                      same_names=r.random() < 0.4).schema()


def has_struct(s):
    return any(e.kind == "struct" for e in s.messages())


def flow_for(r, targets=(("rust",), ("rust",)), keys=None, ents=None, **kw):
    while True:
        s = schema_for(r, True, ents)
        if has_struct(s):
            break
    f = flow.FlowGen(r, s, keys=keys, **kw).flow()
    f.producer, f.consumer = list(targets[0]), list(targets[1])
    return s, f


TARGETS = [(("rust",), ("rust",)), (("typescript",), ("typescript",)), (("rust",), ("typescript",)), (("typescript",), ("rust",)),
           (("rust", "typescript"), ("typescript", "rust"))]


# ---------------------------------------------------------------- C09
def refused(c, kind, d, cmd, what, data, timeout=25):
    """runs the generator on a wrong description"""
    before = proj.tree(d)
    try:
        p = build.run(cmd, cwd=d, timeout=timeout, cpu=10, mem=1 << 30)
        rc, out = p.returncode, (p.stdout + p.stderr)[-600:]
    except HarnessError as e:
        rc, out = "timeout", str(e)
    df = proj.diff(before, proj.tree(d))
    data = dict(data, command=" ".join(cmd), status=rc, output=out)
    if rc == "timeout" or rc in (-9, -24, -6):
        c.violation("%s-hangs" % kind, "the generator does not end (status %s) on a wrong description (%s)" % (rc, what), data)
    elif rc == 0:
        c.violation("%s-accepted" % kind, "wrong description (%s) ends with status 0; files: %s; output: %s" % (what, df or "none changed", out), data)
    elif df:
        c.violation("%s-writes" % kind, "wrong description (%s) is refused but %s" % (what, df), data)
    else:
        c.seen("wrong descriptions refused, nothing written")
        return True
    return False


def c09(c):
    with build.Scratch("C09") as d:
        n = c.pick(40, 450)
        pmap(lambda i: c09_protocol(c, os.path.join(d, "p%d" % i), c.rng("p", i)), range(n), 8)
        pmap(lambda i: c09_workflow(c, os.path.join(d, "w%d" % i), c.rng("w", i), i), range(n), 8)
        c09_cli(c, os.path.join(d, "cli"))
        need = c.pick(500, 6000)
        if not c.violations and c.counts.get("wrong descriptions refused, nothing written", 0) < need:
            raise HarnessError("only %s wrong descriptions were judged" % c.counts)


def c09_protocol(c, d, r):
    s = schema_for(r)
    os.makedirs(d)
    proj.write(d + "/p.prot", s.text())
    cmd = [build.cli(), "--src", "p.prot", "-rs", "o.rs", "-ts", "o.ts", "--em", "-o"]
    p = build.run(cmd, cwd=d, timeout=30)
    if p.returncode or not os.path.exists(d + "/o.rs") or not os.path.exists(d + "/o.ts"):
        c.violation("valid-refused", "a correct protocol is refused: %s" % (p.stdout + p.stderr)[-400:], dict(protocol=s.text()))
        return
    c.seen("correct protocols accepted")
    for fn in mutate.PROTOCOL:
        for k in range(2):
            m = mutate.protocol_mutant(r, s, fn)
            if m is None:
                continue
            kind, text = m
            proj.write(d + "/p.prot", text)
            if k:
                for x in ("o.rs", "o.ts"):
                    if os.path.exists(d + "/" + x):
                        os.unlink(d + "/" + x)
            else:
                proj.write(d + "/o.rs", "// previous output\n")
                proj.write(d + "/o.ts", "// previous output\n")
            ok = refused(c, "protocol-" + kind, d, cmd, "protocol, " + kind, dict(protocol=text if isinstance(text, str) else text.hex()))
            if ok:
                c.ok("%s %d %d" % (kind, k, len(s.messages())), sample="%s refused" % kind)


def c09_workflow(c, d, r, i):
    s, f = flow_for(r, TARGETS[i % len(TARGETS)])
    proj.make(d, s.text(), f.text())
    p = proj.generate(d)
    if p.returncode or "[OK]" not in p.stdout:
        c.violation("valid-workflow-refused", "a correct workflow is refused: %s" % (p.stdout + p.stderr)[-400:], dict(protocol=s.text(), workflow=f.text()))
        return
    c.seen("correct workflows accepted")
    full = os.path.join(d, "full")
    fresh = os.path.join(d, "fresh")
    os.makedirs(full)
    for x in ("consumer", "producer"):
        shutil.move(os.path.join(d, x), full)
    proj.skeleton(fresh)
    for fn in mutate.WORKFLOW:
        m = mutate.workflow_mutant(r, s, f, fn)
        if m is None:
            continue
        kind, text = m
        for where in (full, fresh):
            proj.write(where + "/p.prot", s.text())
            proj.write(where + "/p.workflow", text)
            cmd = [build.cli(), "-s", "p.prot", "-wf", "p.workflow", "-cd", "consumer/src/consumer", "-pd", "producer/src/producer"]
            k = r.random()
            if k < 0.25:
                cmd += ["-rs", "o.rs", "-ts", "o.ts", "-o"]
                proj.write(where + "/o.rs", "// previous output\n")
            elif k < 0.4:
                cmd = [build.cli(), "-s", "p.prot", "-wf", "p.workflow", "-d", "o.puml", "-o"]
                proj.write(where + "/o.puml", "previous\n")
            if refused(c, "workflow-" + kind, where, cmd, "workflow, " + kind, dict(protocol=s.text(), workflow=text if isinstance(text, str) else text.hex())):
                c.ok("wf %s %s %s" % (kind, where == full, i % len(TARGETS)), sample="%s refused" % kind)
    # a wrong protocol under a correct workflow
    for j in range(4):
        m = mutate.protocol_mutant(r, s, mutate.service_group if j == 3 else r.choice(mutate.PROTOCOL))
        if m is None:
            continue
        proj.write(full + "/p.prot", m[1])
        proj.write(full + "/p.workflow", f.text())
        cmd = [build.cli(), "-s", "p.prot", "-wf", "p.workflow", "-cd", "consumer/src/consumer", "-pd", "producer/src/producer"]
        if refused(c, "protocol-" + m[0], full, cmd, "protocol of a workflow, " + m[0], dict(protocol=m[1] if isinstance(m[1], str) else m[1].hex(), workflow=f.text())):
            c.ok("pw %s" % m[0])


def c09_cli(c, d):
    """missing descriptions and destinations"""
    r = c.rng("cli")
    s, f = flow_for(r, TARGETS[0])
    proj.make(d, s.text(), f.text())
    cl = build.cli()
    base = ["-cd", "consumer/src/consumer", "-pd", "producer/src/producer"]
    for name, cmd in [
            ("source-missing", [cl, "-s", "none.prot", "-rs", "o.rs"]),
            ("source-is-directory", [cl, "-s", "consumer", "-rs", "o.rs"]),
            ("workflow-missing", [cl, "-s", "p.prot", "-wf", "none.workflow"] + base),
            ("workflow-without-protocol", [cl, "-wf", "p.workflow"] + base),
            ("no-protocol", [cl, "-rs", "o.rs"]),
            ("no-consumer-destination", [cl, "-s", "p.prot", "-wf", "p.workflow", "-pd", "producer/src/producer"]),
            ("no-producer-destination", [cl, "-s", "p.prot", "-wf", "p.workflow", "-cd", "consumer/src/consumer"]),
            ("diagram-without-workflow", [cl, "-s", "p.prot", "-d", "o.puml"]),
            ("unknown-key", [cl, "-s", "p.prot", "-rs", "o.rs", "--nonsense"]),
    ]:
        if refused(c, "cli-" + name, d, cmd, name, dict(protocol=s.text(), workflow=f.text())):
            c.ok("cli " + name)
