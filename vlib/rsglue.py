"""Generates, compiles and drives a Rust program around a generated protocol file."""
import os, re, subprocess
from . import build
from .build import HarnessError

CORE = os.path.join(build.VERIF, "rs", "core", "core.rs")
RUST_T = {"str": "String"}


def rt(p):
    return RUST_T.get(p, p)


def path(e):
    return "protocol::" + "::".join(e.path)


def get_field(f, fn):
    t = f.ty
    one = "%s(t)" % fn["b", t.ref.full()] if t.ref is not None else "<%s as P>::get(t)" % rt(t.prim)
    s = one
    if f.rep:
        s = "{ let n = t.n(); let mut v = Vec::new(); for _ in 0..n { v.push(%s); } v }" % one
    if f.opt:
        s = "{ if t.some() { Some(%s) } else { None } }" % s
    return s


def put_field(f, fn, var):
    t = f.ty

    def one(v):
        return "%s(o, %s);" % (fn["d", t.ref.full()], v) if t.ref is not None else "P::put(%s, o);" % v
    s = one("%s") if False else None

    def body(v):
        if f.rep:
            return "{ let l = %s; o.push_str(&l.len().to_string()); o.push(' '); for i in l.iter() { %s } }" % (v, one("i"))
        return one(v)
    if f.opt:
        return "match %s { None => o.push_str(\"N \"), Some(x) => { o.push_str(\"S \"); %s } }" % (var, body("x"))
    return body(var)


def codec_fns(schema, pub=""):
    """functions building and dumping every message from and to tokens: ({(b|d, name): fn}, source)"""
    fn, o = {}, []
    msgs = schema.messages()
    for i, e in enumerate(msgs):
        fn["b", e.full()] = "b%d" % i
        fn["d", e.full()] = "d%d" % i
    for e in msgs:
        b, d = fn["b", e.full()], fn["d", e.full()]
        if e.kind == "struct":
            o.append(pub + "fn %s(t: &mut T) -> %s { %s { %s } }\n" % (b, path(e), path(e), ", ".join("%s: %s" % (f.name, get_field(f, fn)) for f in e.fields)))
            o.append(pub + "fn %s(o: &mut String, v: &%s) { %s }\n" % (d, path(e), " ".join(put_field(f, fn, "&v.%s" % f.name) for f in e.fields)))
        else:
            arms = "".join("%d => %s::%s(%s),\n" % (i, path(e), f.name, get_field(f, fn)) for i, f in enumerate(e.fields))
            o.append(pub + "fn %s(t: &mut T) -> %s { match t.n() { %s _ => panic!(\"driver: variant\") } }\n" % (b, path(e), arms))
            arms = "".join('%s::%s(x) => { o.push_str("%d "); %s }\n' % (path(e), f.name, i, put_field(f, fn, "x")) for i, f in enumerate(e.fields))
            o.append(pub + "fn %s(o: &mut String, v: &%s) { match v { %s _ => o.push_str(\"DEFAULTS \") } }\n" % (d, path(e), arms))
    return fn, o


def driver_source(schema, proto_file="protocol.rs", middleware=None):
    msgs = schema.messages()
    fn, fns = codec_fns(schema)
    o = ['#[path = "%s"]\nmod protocol;\n#[path = "%s"]\nmod core_;\nuse core_::*;\nuse std::collections::HashMap;\n' % (proto_file, CORE)]
    o += fns

    def dump_group(g, prefix, modp):
        """match over AvailableMessages of group g"""
        s = "match m {"
        for e in g.items:
            if e.kind == "group":
                if not e.items:
                    s += "%s::AvailableMessages::%s(_) => {}\n" % (modp, e.name)
                    continue
                s += "%s::AvailableMessages::%s(m) => { %s }\n" % (modp, e.name, dump_group(e, prefix + [e.name], modp + "::" + e.name))
            else:
                s += '%s::AvailableMessages::%s(m) => { o.push_str("%s "); %s(o, m); }\n' % (modp, e.name, ".".join(prefix + [e.name]), fn["d", e.full()])
        return s + "}"
    o.append("fn dump(o: &mut String, m: &protocol::AvailableMessages) { %s }\n" % dump_group(schema.root, [], "protocol"))
    arms = ""
    for i, e in enumerate(msgs):
        tr = "PackingStruct" if e.kind == "struct" else "PackingEnum"
        arms += "%d => { let mut v = %s(t); protocol::%s::pack(&mut v, seq, uuid) }\n" % (i, fn["b", e.full()], tr)
    o.append("fn pack(i: usize, seq: u32, uuid: Option<String>, t: &mut T) -> Result<Vec<u8>, String> { match i { %s _ => panic!(\"driver: index\") } }\n" % arms)
    o.append(r'''
fn err(e: protocol::ReadError) -> String {
    match e {
        protocol::ReadError::Header(_) => "H",
        protocol::ReadError::Parsing(_) => "P",
        protocol::ReadError::Signature(_) => "S",
    }.to_string()
}
type B = protocol::Buffer<protocol::AvailableMessages>;
fn main() {
    let mut bufs: HashMap<usize, B> = HashMap::new();
    let lib: &'static str = %s;
    let _ = lib;
    main_loop(|cmd, t| {
        match cmd {
            "pack" => {
                let i = t.n();
                let seq: u32 = t.s().parse().unwrap();
                let uuid = opt_uuid(t.s());
                match pack(i, seq, uuid, t) { Ok(b) => format!("OK {}", hex(&b)), Err(e) => format!("ERR {}", e.replace('\n', " ")) }
            }
            "new" => { let k = t.n(); bufs.insert(k, B::new()); "OK".into() }
            "chunk" => {
                let k = t.n();
                let uuid = opt_uuid(t.s());
                let data = unhex(&t.s()[1..]);
                let b = bufs.get_mut(&k).unwrap();
                match b.chunk(&data, uuid) { Ok(()) => "OK".into(), Err(e) => format!("ERR {}", err(e)) }
            }
            "next" => {
                let k = t.n();
                match bufs.get_mut(&k).unwrap().next() {
                    None => "NONE".into(),
                    Some(m) => {
                        let mut o = format!("MSG {} {} {} {} {} ", m.header.id, m.header.signature, m.header.sequence, m.header.ts, m.header.len);
                        dump(&mut o, &m.msg);
                        o
                    }
                }
            }
            "drain" => {
                let k = t.n();
                let mut o = String::from("D");
                while let Some(m) = bufs.get_mut(&k).unwrap().next() {
                    o.push_str(&format!("|{} {} {} {} {} ", m.header.id, m.header.signature, m.header.sequence, m.header.ts, m.header.len));
                    dump(&mut o, &m.msg);
                }
                o
            }
            "stat" => { let b = &bufs[&t.n()]; format!("{} {}", b.len(), b.pending()) }
            "drop" => { bufs.remove(&t.n()); "OK".into() }
            "hash" => protocol::hash(),
            "mw" => { %s }
            _ => panic!("driver: command"),
        }
    });
}
''' % ('"v1"', "mw_take()" if middleware else '"".to_string()'))
    if middleware:
        o.append(MW)
    return "".join(o)


MW = r'''
// What a user writes to install a packing middleware: own methods take precedence over the
// default implementation of the trait.
#[allow(dead_code)]
impl protocol::PackingMiddleware {
    fn decode(buffer: Vec<u8>, id: u32, sequence: u32, uuid: Option<String>) -> Result<Vec<u8>, String> {
        mw_note("D", &buffer, id, sequence, &uuid);
        mw_decode(buffer, id, sequence)
    }
    fn encode(buffer: Vec<u8>, id: u32, sequence: u32, uuid: Option<String>) -> Result<Vec<u8>, String> {
        mw_note("E", &buffer, id, sequence, &uuid);
        mw_encode(buffer, id, sequence)
    }
}
thread_local! { static MW_LOG: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
fn mw_note(k: &str, b: &[u8], id: u32, seq: u32, uuid: &Option<String>) {
    let u = match uuid { None => "-".to_string(), Some(s) => format!("x{}", hex(s.as_bytes())) };
    MW_LOG.with(|l| l.borrow_mut().push(format!("{} x{} {} {} {}", k, hex(b), id, seq, u)));
}
fn mw_take() -> String { MW_LOG.with(|l| { let v: Vec<String> = l.borrow_mut().drain(..).collect(); format!("M|{}", v.join("|")) }) }
// Keyed transform that changes the length: [seq low byte | xored body | id low byte]; sequences
// 0xEEEE_0000.. make encode fail, 0xDDDD_0000.. make decode fail.
fn mw_encode(b: Vec<u8>, id: u32, seq: u32) -> Result<Vec<u8>, String> {
    if seq >> 16 == 0xEEEE { return Err("refused".to_string()); }
    let mut o = vec![seq as u8];
    o.extend(b.iter().map(|x| x ^ 0x5a));
    o.push(id as u8);
    Ok(o)
}
fn mw_decode(b: Vec<u8>, id: u32, seq: u32) -> Result<Vec<u8>, String> {
    if seq >> 16 == 0xDDDD { return Err("refused".to_string()); }
    if b.len() < 2 || b[0] != seq as u8 || b[b.len() - 1] != id as u8 { return Err("mangled".to_string()); }
    Ok(b[1..b.len() - 1].iter().map(|x| x ^ 0x5a).collect())
}
'''


class Driver:
    """One child process answering one line per command; every crash, panic, oversized
    allocation or exhausted CPU budget is attributed to the command that caused it."""
    def __init__(self, argv, cpu=20, cwd=None):
        self.argv, self.cpu, self.cwd = argv, cpu, cwd

    def batch(self, lines, timeout=240):
        """Runs the commands in one process. Returns list of (answer, detail) for each executed
        command; if the process died, the list ends with ('DIED', reason)."""
        p = build.run(self.argv, cwd=self.cwd, input="\n".join(lines) + "\n", timeout=timeout, cpu=self.cpu)
        out, note = [], None
        for l in p.stdout.split("\n"):
            if l.startswith("PANICMSG"):
                note = l[9:]
            elif l.startswith("ALLOC "):
                out.append(("DIED", "allocation of %s bytes" % l[6:]))
            elif l != "":
                out.append((l, note))
                note = None
        if len(out) < len(lines) and not (out and out[-1][0] == "DIED"):
            if p.returncode == -24 or p.returncode == -9:
                out.append(("DIED", "cpu limit of %ds exhausted" % self.cpu))
            elif p.returncode != 0:
                out.append(("DIED", "exit status %d %s" % (p.returncode, (p.stderr or "")[-300:].replace("\n", " "))))
            else:
                raise HarnessError("driver answered %d of %d: %s" % (len(out), len(lines), p.stderr[-500:]))
        return out


def compile_driver(schema, d, proto_text, middleware=False, name="drv", opt="0"):
    pf = os.path.join(d, name + "_protocol.rs")
    open(pf, "w").write(proto_text)
    mf = os.path.join(d, name + ".rs")
    open(mf, "w").write(driver_source(schema, pf, middleware))
    exe = os.path.join(d, name + ".exe")
    p = build.run(build.rustc_cmd(mf, exe, build.PROTO_CRATES, opt=opt), timeout=400)
    return exe, p
