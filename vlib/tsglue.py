"""Bundles and drives the generic TypeScript driver around a generated protocol file."""
import json, os, re
from . import build
from .build import HarnessError
from .rsglue import Driver

ENTRY = os.path.join(build.VERIF, "ts", "driver.ts")


def schema_json(schema):
    ms = schema.messages()
    ix = {id(e): i for i, e in enumerate(ms)}
    return [dict(kind=e.kind, path=e.path, id=e.id,
                 fields=[dict(name=f.name, id=f.id or 0, prim=f.ty.prim, ref=None if f.ty.ref is None else ix[id(f.ty.ref)],
                              rep=f.rep, opt=f.opt) for f in e.fields]) for e in ms]


def compile_driver(schema, d, ts_file, name="tsdrv"):
    """Returns (argv, build result)"""
    js = os.path.join(d, name + ".js")
    sj = os.path.join(d, name + ".json")
    json.dump(schema_json(schema), open(sj, "w"))
    src = open(ENTRY).read().replace('"PROTOCOL"', json.dumps(ts_file))
    ent = os.path.join(d, name + "_entry.ts")
    open(ent, "w").write(src)
    p = build.esbuild(ent, js)
    return ["node", "--max-old-space-size=1024", "--stack-size=900", js, sj], p


# ---- diagnostics of the TypeScript compiler that mean: a name or the syntax is wrong
STRUCT_CODES = {"2300", "2304", "2305", "2307", "2339", "2393", "2403", "2416", "2420", "2451", "2503", "2552", "2693", "2694", "2503", "2440",
                "2395", "2428", "2434", "2515", "2654", "2709", "2717", "2724", "2749"}


def tsc(files, d, extra=()):
    cmd = [build.TSC, "--noEmit", "--target", "es2020", "--module", "commonjs", "--moduleResolution", "node", "--lib", "es2020,dom",
           "--types", "node", "--typeRoots", os.path.join(build.NODE_MODULES, "@types"), "--strict", "--skipLibCheck", "--pretty", "false"] + list(extra) + list(files)
    p = build.run(cmd, cwd=d, timeout=240)
    out = []
    for l in p.stdout.split("\n"):
        m = re.match(r"^(.+?)\((\d+),(\d+)\): error TS(\d+): (.*)$", l)
        if m and (m.group(4) in STRUCT_CODES or m.group(4).startswith("1") and len(m.group(4)) == 4):
            out.append((m.group(1), int(m.group(2)), m.group(4), m.group(5)))
        elif re.match(r"^error TS", l):
            out.append(("", 0, "", l))
    return out
