"""Projects: a protocol and a workflow description, a consumer and a producer directory."""
import os, shutil
from . import build

CARGO = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n'
PACKAGE = '{\n    "name": "%s",\n    "version": "0.0.1",\n    "dependencies": {}\n}\n'


def write(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d):
    """{relative path: content} of every file below d"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = read(p) if os.path.isfile(p) and not os.path.islink(p) else b"<link>"
    return out


def diff(a, b, limit=6):
    """human readable difference of two trees, '' if equal"""
    o = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            o.append("removed " + k)
        elif k not in a:
            o.append("created " + k)
        elif a[k] != b[k]:
            o.append("changed " + k)
    return ", ".join(o[:limit]) + (" and %d more" % (len(o) - limit) if len(o) > limit else "")


def skeleton(d, name="x"):
    """empty consumer and producer crates/packages below d"""
    for x in ("consumer", "producer"):
        os.makedirs(os.path.join(d, x, "src"), exist_ok=True)
        write(os.path.join(d, x, "Cargo.toml"), CARGO % x)
        write(os.path.join(d, x, "package.json"), PACKAGE % x)


def generate(d, prot="p.prot", wf="p.workflow", cd="consumer/src/consumer", pd="producer/src/producer", extra=(), timeout=60):
    cmd = [build.cli(), "-s", prot, "-wf", wf]
    if cd:
        cmd += ["-cd", cd]
    if pd:
        cmd += ["-pd", pd]
    return build.run(cmd + list(extra), cwd=d, timeout=timeout, cpu=30, mem=2 << 30)


def make(d, schema_text, flow_text):
    skeleton(d)
    write(os.path.join(d, "p.prot"), schema_text)
    write(os.path.join(d, "p.workflow"), flow_text)
