"""Builds: the generator from /repo's working tree, the third party crates the generated
code needs, and generated programs (rustc directly; esbuild + node for TypeScript)."""
import fcntl, hashlib, json, os, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NODE_MODULES = "/opt/veriftools/node/node_modules"
TOOLCHAIN = "1.75.0"


class HarnessError(Exception):
    """Anything that is a failure of the machinery, not of the code under test."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", NO_COLOR="1", TERM="dumb",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""))
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "NODE_OPTIONS"):
        e.pop(k, None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _sync(src, dst):
    """Copy src to dst, touching only files whose content differs (so cargo sees changes)."""
    keep = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", "temp", ".git", "node_modules")]
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            a = os.path.join(root, f)
            if not os.path.isfile(a):
                continue
            b = os.path.normpath(os.path.join(dst, rel, f))
            keep.add(b)
            data = open(a, "rb").read()
            if os.path.isfile(b) and open(b, "rb").read() == data:
                continue
            with open(b, "wb") as o:
                o.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            b = os.path.normpath(os.path.join(root, f))
            if b not in keep:
                os.unlink(b)


_cli = None


def cli():
    """Path of the generator built from the current working tree."""
    global _cli
    if _cli:
        return _cli
    with Lock("cli"):
        src = os.path.join(BUILD, "cli-src")
        tgt = os.path.join(BUILD, "cli-target")
        _sync(os.path.join(REPO, "cli"), src)
        e = env()
        e.update(CARGO_TARGET_DIR=tgt, CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true",
                 CARGO_PROFILE_RELEASE_DEBUG="0")
        p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise HarnessError("generator does not build:\n" + p.stdout[-3000:])
        # a private copy: another check may rebuild while this one runs
        h = hashlib.sha256(open(os.path.join(tgt, "release", "clibri"), "rb").read()).hexdigest()[:16]
        out = os.path.join(BUILD, "cli-" + h)
        if not os.path.exists(out):
            for old in os.listdir(BUILD):
                if old.startswith("cli-") and len(old) == 20 and time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 7200:
                    os.unlink(os.path.join(BUILD, old))
            shutil.copy2(os.path.join(tgt, "release", "clibri"), out + ".tmp")
            os.rename(out + ".tmp", out)
    _cli = out
    return out


_deps = None


def deps():
    """{crate name: rlib}, and the deps dir, for the crates generated code uses."""
    global _deps
    if _deps:
        return _deps
    with Lock("deps"):
        tgt = os.path.join(BUILD, "deps-target")
        info = os.path.join(BUILD, "deps.json")
        e = env()
        e.update(CARGO_TARGET_DIR=tgt, CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1")
        src = os.path.join(BUILD, "deps-src")
        _sync(os.path.join(VERIF, "rs", "deps"), src)
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=src, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise HarnessError("dependencies do not build:\n" + p.stderr[-3000:])
        ext = {}
        for line in p.stdout.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") != "compiler-artifact":
                continue
            t = m["target"]
            for f in m["filenames"]:
                if f.endswith(".rlib") or (f.endswith(".so") and "proc-macro" in t["kind"]):
                    ext[t["name"].replace("-", "_")] = f
        json.dump(ext, open(info, "w"))
    _deps = (ext, os.path.join(tgt, "debug", "deps"))
    return _deps


PROTO_CRATES = ["bytes"]
FLOW_CRATES = ["bytes", "clibri", "futures", "log", "regex", "thiserror", "tokio", "tokio_util", "uuid", "chrono", "async_trait",
               "clibri_transport_server", "clibri_transport_client"]


def rustc_cmd(src, out, crates, opt="0", edition="2018", check_only=False, extra=()):
    ext, d = deps()
    cmd = ["rustc", "--edition", edition, "--crate-name", "gen", "-Awarnings", "-C", "debuginfo=0", "-C", "opt-level=" + opt,
           "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=8", "-L", "dependency=" + d, src]
    if check_only:
        cmd += ["--emit=metadata", "-o", out]
    else:
        cmd += ["--crate-type", "bin", "-o", out]
    for c in crates:
        if c in ext:
            cmd += ["--extern", "%s=%s" % (c, ext[c])]
    return cmd + list(extra)


def run(cmd, cwd=None, timeout=300, input=None, cpu=None, mem=None, extra_env=None):
    e = env()
    if extra_env:
        e.update(extra_env)

    def pre():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=input.encode() if input is not None else None, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre if (cpu or mem) else None)
        # decoded here: the text mode of subprocess turns every "\r" of a value into the end of a line
        p.stdout, p.stderr = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        return p
    except subprocess.TimeoutExpired as ex:
        raise HarnessError("timeout after %ss: %s" % (timeout, " ".join(cmd[:6])))


class Scratch:
    """A scratch directory removed at exit, under the build tree."""
    def __init__(self, tag):
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix=tag + "-", dir=base)

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.d, ignore_errors=True)


ESBUILD = os.path.join(NODE_MODULES, ".bin", "esbuild")
TSC = os.path.join(NODE_MODULES, ".bin", "tsc")


def esbuild(entry, out, alias=None):
    cmd = [ESBUILD, entry, "--bundle", "--platform=node", "--format=cjs", "--outfile=" + out, "--log-level=error"]
    for k, v in (alias or {}).items():
        cmd.append("--alias:%s=%s" % (k, v))
    return run(cmd, timeout=120)


def gen_protocol(prot, rs=None, ts=None, extra=()):
    cmd = [cli(), "--src", prot]
    if rs:
        cmd += ["-rs", rs]
    if ts:
        cmd += ["-ts", ts]
    cmd += ["--em", "-o"]
    cmd += list(extra)
    return run(cmd, cwd=os.path.dirname(prot), timeout=120)
