"""The Rust producer harness: generated project + generated handlers + rs/producer/h.rs.

Handlers report every call and take what they do from decisions given by the workload:
  <gate> <defer> <n operations> { k <overwrite> value | a <overwrite> value | D uuid | S uuid xhex | V event value } <outcome>
outcome of a request: R <action> response { broadcast } | E error; of an event: R { broadcast } | E xhex; of a beacon: R | E xhex
broadcast: [S|N] uuids value     (S|N only if optional)
"""
import os
from . import build, flow, proj, rsglue
from .build import HarnessError

HSRC = os.path.join(build.VERIF, "rs", "producer", "h.rs")


def mod(ref):
    return ref.lower().replace(".", "_")


def rp(ref):
    return "protocol::" + ref.replace(".", "::")


def key_refs(f):
    return (f.self_key or flow.SERVICE + ".SelfKeyRequest", f.assigned_key or flow.SERVICE + ".AssignedKey")


def btype(b):
    t = "(Vec<Uuid>, %s)" % rp(b.ref)
    return "Option<%s>" % t if b.opt else t


def bget(b, fn):
    one = "{ let u = crate::h::uuids(t.s()); (u, crate::g::%s(&mut t)) }" % fn["b", b.ref]
    return "if t.some() { Some(%s) } else { None }" % one if b.opt else one


HEAD = """#![allow(unused)]
use super::{identification, producer::Control, protocol, Context, scope::{Scope, AnonymousScope}};
use crate::core_::T;
use clibri::server;
use uuid::Uuid;
"""

ENTER = """    let c = crate::h::call();
    let mut o = format!("H {} %(name)s ", c);
    %(ident)s
    %(value)s
    crate::h::log(o);
    let d = match crate::h::decision("%(name)s") { Some(d) => d, None => { crate::h::log(format!("NODEC {}", c)); std::future::pending::<String>().await } };
    let mut t = T(d.split_ascii_whitespace());
    crate::h::gate(t.n()).await;
    if t.n() == 1 { scope.deferred(Box::pin(async move { crate::h::log(format!("Q {}", c)); })); }
    for _ in 0..t.n() {
        match t.s() {
            %(idops)s
            "D" => { let u = crate::h::uid(t.n() as u128); let _ = scope.control.disconnect(u).await; }
            "S" => { let u = crate::h::uid(t.n() as u128); let b = crate::core_::unhex(&t.s()[1..]); let _ = scope.control.send(b, Some(u)).await; }
            "V" => { match t.n() { %(events)s _ => panic!("driver: event") } }
            _ => panic!("driver: operation"),
        }
    }
    crate::h::log(format!("C {}", c));
"""


def enter(name, f, fn, ident=True, value=None):
    k, a = key_refs(f)
    evs = "".join("%d => { let v = crate::g::%s(&mut t); let _ = scope.control.events.%s(v).await; }" % (i, fn["b", e.ref], mod(e.ref))
                  for i, e in enumerate(f.events) if not e.default)
    return ENTER % dict(
        name=name, events=evs,
        ident="crate::g::ident(&mut o, scope.identification, scope.filter);" if ident else "crate::g::anon(&mut o, scope.filter);",
        value="crate::g::%s(&mut o, %s);" % (fn["d", value[0]], value[1]) if value else "",
        idops='"k" => { let ov = t.n() == 1; let v = crate::g::%s(&mut t); let _ = scope.identification.set_key(v, ov); }\n'
              '"a" => { let ov = t.n() == 1; let v = crate::g::%s(&mut t); let _ = scope.identification.set_assign(v, ov); }' % (fn["b", k], fn["b", a]) if ident else "")


def request_stub(q, f, fn):
    plain = not (len(q.actions) > 1 or any(a.bcasts for a in q.actions))
    o = [HEAD]
    if plain:
        ret = rp(q.actions[0].response)
        arms = "0 => Ok(crate::g::%s(&mut t))," % fn["b", q.actions[0].response]
    else:
        ret = "Response"
        o.append("pub enum Response {\n")
        arms = ""
        for i, a in enumerate(q.actions):
            r = "let r = crate::g::%s(&mut t);" % fn["b", a.response]
            if a.bcasts:
                o.append("    %s((%s, %s)),\n" % (a.conclusion, rp(a.response), ", ".join(btype(b) for b in a.bcasts)))
                arms += "%d => { %s %s Ok(Response::%s((r, %s))) }\n" % (i, r, " ".join("let x%d = %s;" % (k, bget(b, fn)) for k, b in enumerate(a.bcasts)), a.conclusion,
                                                                        ", ".join("x%d" % k for k in range(len(a.bcasts))))
            else:
                o.append("    %s(%s),\n" % (a.conclusion, rp(a.response)))
                arms += "%d => { %s Ok(Response::%s(r)) }\n" % (i, r, a.conclusion)
        o.append("}\n")
    o.append("pub async fn response<E: server::Error, C: server::Control<E>>(request: &%s, scope: &mut Scope<'_, E, C>) -> Result<%s, %s> {\n" % (rp(q.ref), ret, rp(q.err)))
    o.append(enter("q:" + q.ref, f, fn, True, (q.ref, "request")))
    o.append('    if t.s() == "E" { return Err(crate::g::%s(&mut t)); }\n    match t.n() { %s _ => panic!("driver: action") }\n}\n' % (fn["b", q.err], arms))
    return "".join(o)


def event_stub(e, f, fn):
    ret = ", ".join(btype(b) for b in e.bcasts)
    if len(e.bcasts) > 1:
        ret = "(%s)" % ret
    o = [HEAD]
    if e.default:
        o.append("pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<%s, String> {\n" % ret)
        o.append(enter("e:" + e.ref, f, fn, True))
    else:
        o.append("pub async fn emit<E: server::Error, C: server::Control<E>>(event: %s, scope: &mut AnonymousScope<'_, E, C>) -> Result<%s, String> {\n" % (rp(e.ref), ret))
        o.append(enter("e:" + e.ref, f, fn, False, (e.ref, "&event")))
    o.append('    if t.s() == "E" { return Err("refused".to_string()); }\n')
    o.append("    %s\n" % " ".join("let x%d = %s;" % (k, bget(b, fn)) for k, b in enumerate(e.bcasts)))
    x = ", ".join("x%d" % k for k in range(len(e.bcasts)))
    o.append("    Ok(%s)\n}\n" % ("(%s)" % x if len(e.bcasts) > 1 else x))
    return "".join(o)


def default_stub(name, f, fn):
    """connected / disconnected without broadcasts in the workflow"""
    return HEAD + "pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<(), String> {\n" + \
        enter("e:" + name, f, fn, True) + '    if t.s() == "E" { return Err("refused".to_string()); }\n    Ok(())\n}\n'


def beacon_stub(ref, f, fn):
    return HEAD + "pub async fn emit<E: server::Error, C: server::Control<E>>(beacon: &%s, scope: &mut Scope<'_, E, C>) -> Result<(), String> {\n" % rp(ref) + \
        enter("b:" + ref, f, fn, True, (ref, "beacon")) + '    if t.s() == "E" { return Err("refused".to_string()); }\n    Ok(())\n}\n'


ERROR = """#![allow(unused)]
use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use uuid::Uuid;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(error: ProducerError<E>, uuid: Option<Uuid>, context: &mut Context,
    identification: Option<&identification::Identification>, control: &Control<E, C>) -> Result<(), String> {
    crate::h::log(format!("X {} {} {}", uuid.as_ref().map(crate::h::un).unwrap_or("-".to_string()),
        identification.map(|i| crate::h::un(&i.uuid())).unwrap_or("-".to_string()), error.to_string().replace('\\n', " ")));
    Ok(())
}
"""

READY = """#![allow(unused)]
use super::{producer::Control, Context, protocol};
use crate::core_::T;
use clibri::server;
use std::future::Future;
use std::pin::Pin;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(context: &mut Context, control: &Control<E, C>) -> Result<(), String> {
    crate::h::log("READY".to_string());
    let c = control.clone();
    let f: crate::h::CtlFn = Box::new(move |s: String| -> Pin<Box<dyn Future<Output = String>>> {
        let c = c.clone();
        Box::pin(async move {
            let mut t = T(s.split_ascii_whitespace());
            let r = match t.s() {
                "send" => { let u = t.s(); let u = if u == "-" { None } else { Some(crate::h::uid(u.parse().unwrap())) }; c.send(crate::core_::unhex(&t.s()[1..]), u).await.map_err(|e| e.to_string()) }
                "broadcast" => { let u = crate::h::uuids(t.s()); c.broadcast(u, crate::core_::unhex(&t.s()[1..])).await.map_err(|e| e.to_string()) }
                "disconnect" => { let u = crate::h::uid(t.n() as u128); c.disconnect(u).await.map_err(|e| e.to_string()) }
                "shutdown" => { let w = t.n() == 1; c.shutdown(w).await.map_err(|e| e.to_string()) }
                "emit" => match t.n() { %s _ => panic!("driver: event") },
                _ => panic!("driver: control"),
            };
            match r { Ok(()) => "ok".to_string(), Err(e) => format!("err {}", e.replace('\\n', " ")) }
        })
    });
    crate::h::HS.with(|h| h.borrow_mut().control = Some(std::rc::Rc::new(f)));
    Ok(())
}
"""

SHUTDOWN = """#![allow(unused)]
use super::{producer::Control, Context};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(context: &mut Context, control: &Control<E, C>) -> Result<(), String> {
    crate::h::log("SHUTDOWN".to_string());
    Ok(())
}
"""


def glue(f, schema):
    fn, src = rsglue.codec_fns(schema, "pub ")
    k, a = key_refs(f)
    o = ["#![allow(unused)]\nuse crate::core_::*;\nuse crate::producer::implementation::protocol;\nuse crate::producer::implementation::consumer::identification::{Filter, Identification};\nuse crate::h::{un, uns, uid};\n"]
    o += src
    o.append("""
pub fn ident(o: &mut String, i: &Identification, f: &Filter<'_>) {
    o.push_str(&un(&i.uuid()));
    o.push_str(" K[ ");
    if let Some(k) = i.key.as_ref() { %s(o, k); } else { o.push_str("none "); }
    o.push_str("] A[ ");
    if let Some(a) = i.assigned.as_ref() { %s(o, a); } else { o.push_str("none "); }
    let u = i.uuid();
    o.push_str(&format!("] F[ {}|{}|{}|{}|{}|{} ] V ", uns(f.all()), uns(f.except(&u)), uns(f.exclude(vec![u, uid(1), uid(3)])), uns(f.exclude(vec![])),
        uns(f.filter(|x| x.key.is_some())), uns(f.filter(|x| x.assigned.is_some() && x.uuid() != uid(2)))));
}
pub fn anon(o: &mut String, f: &Filter<'_>) {
    o.push_str(&format!("- K[ none ] A[ none ] F[ {}|{}|{}|{}|{}|{} ] V ", uns(f.all()), uns(f.except(&uid(1))), uns(f.exclude(vec![uid(1), uid(3)])), uns(f.exclude(vec![])),
        uns(f.filter(|x| x.key.is_some())), uns(f.filter(|x| x.assigned.is_some() && x.uuid() != uid(2)))));
}
""" % (fn["d", k], fn["d", a]))
    return fn, "".join(o)


def install(d, f):
    """writes the handlers and the harness into the project at d; returns the main file"""
    base = dict((s, b) for s, t, b in _bases(f) if t == "rust")["producer"]
    P = os.path.join(d, base)
    schema = flow.with_service(f)
    fn, src = glue(f, schema)
    for q in f.requests:
        proj.write(P + "/responses/%s.rs" % mod(q.ref), request_stub(q, f, fn))
    seen = set()
    for e in f.events:
        seen.add(e.ref)
        proj.write(P + "/events/%s.rs" % mod(e.ref), event_stub(e, f, fn))
    for x in ("connected", "disconnected"):
        if x not in seen:
            proj.write(P + "/events/%s.rs" % x, default_stub(x, f, fn))
    for b in f.beacons:
        proj.write(P + "/beacons/%s.rs" % mod(b), beacon_stub(b, f, fn))
    proj.write(P + "/events/error.rs", ERROR)
    evs = "".join("%d => { let v = crate::g::%s(&mut t); c.events.%s(v).await }\n" % (i, fn["b", e.ref], mod(e.ref)) for i, e in enumerate(f.events) if not e.default)
    proj.write(P + "/events/ready.rs", READY % evs)
    proj.write(P + "/events/shutdown.rs", SHUTDOWN)
    proj.write(d + "/g.rs", src)
    main = '#![allow(unused)]\n#[path = "%s/mod.rs"]\nmod producer;\n#[path = "%s"]\nmod core_;\n#[path = "%s"]\nmod h;\n#[path = "%s/g.rs"]\nmod g;\n' % (P, rsglue.CORE, HSRC, d)
    main += "fn main() { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async { tokio::task::LocalSet::new().run_until(h::main_loop()).await }) }\n"
    proj.write(d + "/main.rs", main)
    return d + "/main.rs"


def _bases(f):
    from . import outputs
    return outputs.bases(f)


def build_harness(d, f):
    """(executable or None, compiler output)"""
    exe = os.path.join(d, "producer.exe")
    p = build.run(build.rustc_cmd(install(d, f), exe, build.FLOW_CRATES), timeout=400)
    return (exe if p.returncode == 0 else None), p.stderr
