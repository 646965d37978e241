// Fixed part of the Rust producer harness: an in-memory transport, the log, the decisions of the
// handlers and the command loop. The handlers themselves are generated next to it.
use crate::core_::{hex, unhex, T};
use crate::producer;
use async_trait::async_trait;
use clibri::server;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::io::Write;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::Notify;
use uuid::Uuid;

#[derive(Debug, Clone)]
pub struct TErr(pub String);
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TErr {}
impl server::Error for TErr {}

pub type CtlFn = Box<dyn Fn(String) -> Pin<Box<dyn Future<Output = String>>>>;

#[derive(Default)]
pub struct H {
    pub log: Vec<String>,
    pub decisions: HashMap<String, VecDeque<String>>,
    pub gates: HashMap<usize, Arc<Notify>>,
    pub control: Option<std::rc::Rc<CtlFn>>,
    pub calls: usize,
    pub finished: bool,
}
thread_local! { pub static HS: RefCell<H> = RefCell::new(H::default()); }

pub fn log(s: String) {
    HS.with(|h| h.borrow_mut().log.push(s));
}
pub fn uid(n: u128) -> Uuid {
    Uuid::from_u128(n)
}
pub fn un(u: &Uuid) -> String {
    u.as_u128().to_string()
}
pub fn uns(mut l: Vec<Uuid>) -> String {
    l.sort();
    l.iter().map(un).collect::<Vec<_>>().join(",")
}
pub fn uuids(s: &str) -> Vec<Uuid> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| uid(x.parse().unwrap())).collect()
}
pub fn decision(name: &str) -> Option<String> {
    HS.with(|h| h.borrow_mut().decisions.get_mut(name).and_then(|q| q.pop_front()))
}
pub fn call() -> usize {
    HS.with(|h| {
        let mut h = h.borrow_mut();
        h.calls += 1;
        h.calls
    })
}
/// waits until the gate of that number is opened (0: no gate); -1: never
pub async fn gate(n: usize) {
    if n == 0 {
        return;
    }
    let g = HS.with(|h| h.borrow_mut().gates.entry(n).or_insert_with(|| Arc::new(Notify::new())).clone());
    g.notified().await;
}
pub fn open(n: usize) {
    HS.with(|h| h.borrow_mut().gates.entry(n).or_insert_with(|| Arc::new(Notify::new())).clone()).notify_one();
}

// ---------------------------------------------------------------- transport
#[derive(Default)]
pub struct Net {
    pub gone: HashSet<Uuid>,
    pub fail_send: HashSet<Uuid>,
    pub fail_disc: HashSet<Uuid>,
    pub fail_all: bool,
    /// sends to a connection that is gone fail (true) or are dropped silently (false)
    pub gone_fails: bool,
    /// a disconnect by the producer is followed by the event of the transport
    pub auto: bool,
    pub down: bool,
    pub fail_shutdown: bool,
}
#[derive(Clone)]
pub struct Ctl {
    pub net: Arc<Mutex<Net>>,
    pub tx: UnboundedSender<server::Events<TErr>>,
    pub stop: Arc<Notify>,
}
#[async_trait]
impl server::Control<TErr> for Ctl {
    async fn shutdown(&self) -> Result<(), TErr> {
        let fail = {
            let mut n = self.net.lock().unwrap();
            n.down = true;
            n.fail_shutdown
        };
        log("T shutdown".to_string());
        self.stop.notify_one();
        if fail {
            return Err(TErr("shutdown refused".to_string()));
        }
        Ok(())
    }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), TErr> {
        let n = self.net.lock().unwrap();
        let u = client.as_ref().map(un).unwrap_or_else(|| "-".to_string());
        let bad = n.fail_all || client.as_ref().map(|u| n.fail_send.contains(u)).unwrap_or(false);
        let gone = client.as_ref().map(|u| n.gone.contains(u)).unwrap_or(false);
        let k = if n.down {
            "SD"
        } else if bad || (gone && n.gone_fails) {
            "SF"
        } else if gone {
            "SG"
        } else {
            "S"
        };
        log(format!("{} {} x{}", k, u, hex(&buffer)));
        if k == "SF" || k == "SD" {
            return Err(TErr("send failed".to_string()));
        }
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), TErr> {
        let mut n = self.net.lock().unwrap();
        if n.fail_disc.contains(&client) {
            log(format!("DF {}", un(&client)));
            return Err(TErr("disconnect failed".to_string()));
        }
        if n.gone.contains(&client) {
            log(format!("DG {}", un(&client)));
            return if n.gone_fails { Err(TErr("no such connection".to_string())) } else { Ok(()) };
        }
        log(format!("D {}", un(&client)));
        if n.auto {
            n.gone.insert(client);
            let _ = self.tx.send(server::Events::Disconnected(client));
        }
        Ok(())
    }
    async fn disconnect_all(&self) -> Result<(), TErr> {
        log("D all".to_string());
        Ok(())
    }
}
pub struct Srv {
    pub ctl: Ctl,
    pub rx: Option<UnboundedReceiver<server::Events<TErr>>>,
}
#[async_trait]
impl server::Impl<TErr, Ctl> for Srv {
    async fn listen(&mut self) -> Result<(), TErr> {
        log("T listen".to_string());
        self.ctl.stop.notified().await;
        log("T listen-end".to_string());
        Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<TErr>>, TErr> {
        self.rx.take().ok_or_else(|| TErr("observer taken".to_string()))
    }
    fn control(&self) -> Ctl {
        self.ctl.clone()
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        log("T dropped".to_string());
    }
}

// ---------------------------------------------------------------- commands
async fn settle(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

fn flush(i: usize) {
    let l = HS.with(|h| std::mem::take(&mut h.borrow_mut().log));
    let mut o = String::new();
    for x in l {
        o.push_str(&x);
        o.push('\n');
    }
    o.push_str(&format!("# {}\n", i));
    let mut e = std::io::stdout();
    let _ = e.write_all(o.as_bytes());
    let _ = e.flush();
}

pub fn options(ident: &str, errs: &str) -> producer::Options {
    use producer::implementation::producer::{ConsumerErrorHandelingStrategy as C, ProducerIdentificationStrategy as P};
    let mut o = producer::Options::new();
    if ident != "default" {
        o.producer_indentification_strategy(match ident {
            "Log" => P::Log,
            "EmitError" => P::EmitError,
            "Disconnect" => P::Disconnect,
            "EmitErrorAndDisconnect" => P::EmitErrorAndDisconnect,
            "Ignore" => P::Ignore,
            _ => panic!("driver: strategy"),
        });
    }
    if errs != "default" {
        o.consumer_error_handeling_strategy(match errs {
            "Log" => C::Log,
            "EmitError" => C::EmitError,
            "Disconnect" => C::Disconnect,
            "EmitErrorAndDisconnect" => C::EmitErrorAndDisconnect,
            _ => panic!("driver: strategy"),
        });
    }
    o
}

pub async fn main_loop() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        let _ = HS.try_with(|h| {
            if let Ok(mut h) = h.try_borrow_mut() {
                h.log.push(format!("PANIC {}", m));
            }
        });
    }));
    let mut ctl: Option<Ctl> = None;
    let mut run: Option<tokio::task::JoinHandle<()>> = None;
    for (i, line) in std::io::BufRead::lines(std::io::stdin().lock()).enumerate() {
        let line = line.unwrap();
        let line = line.as_str();
        // "+" in front: the next command follows without letting the producer run
        let (now, line) = match line.strip_prefix('+') {
            Some(l) => (false, l),
            None => (true, line),
        };
        let mut t = T(line.split_ascii_whitespace());
        let cmd = t.s();
        match cmd {
            "case" => {
                if let Some(r) = run.take() {
                    r.abort();
                    settle(3).await;
                }
                HS.with(|h| *h.borrow_mut() = H::default());
                let (tx, rx) = unbounded_channel();
                let c = Ctl { net: Arc::new(Mutex::new(Net::default())), tx, stop: Arc::new(Notify::new()) };
                let o = options(t.s(), t.s());
                {
                    let mut n = c.net.lock().unwrap();
                    n.gone_fails = t.n() == 1;
                    n.auto = t.n() == 1;
                    n.fail_shutdown = t.n() == 1;
                }
                let s = Srv { ctl: c.clone(), rx: Some(rx) };
                ctl = Some(c);
                run = Some(tokio::task::spawn_local(async move {
                    let r = producer::run(s, o, producer::Context::new()).await;
                    HS.with(|h| h.borrow_mut().finished = true);
                    log(match r {
                        Ok(()) => "R ok".to_string(),
                        Err(e) => format!("R err {}", e.to_string().replace('\n', " ")),
                    });
                }));
            }
            "do" => {
                let name = t.s().to_string();
                let rest = t.0.collect::<Vec<_>>().join(" ");
                HS.with(|h| h.borrow_mut().decisions.entry(name).or_insert_with(VecDeque::new).push_back(rest));
            }
            "open" => open(t.n()),
            "control" => {
                let f = HS.with(|h| h.borrow().control.clone());
                let rest = t.0.collect::<Vec<_>>().join(" ");
                match f {
                    None => log("NOCONTROL".to_string()),
                    Some(f) => {
                        tokio::task::spawn_local(async move {
                            let fut = f(rest);
                            let r = fut.await;
                            log(format!("A {} {}", i, r));
                        });
                        if !now {
                            // commands of the application are issued in their order
                            settle(1).await;
                        }
                    }
                }
            }
            "settle" => settle(t.n()).await,
            "end" => {
                // whatever is left of the run
                if let Some(r) = run.take() {
                    settle(200).await;
                    if !HS.with(|h| h.borrow().finished) {
                        log("R pending".to_string());
                    }
                    r.abort();
                }
                HS.with(|h| {
                    let mut h = h.borrow_mut();
                    h.control = None;
                });
            }
            _ => {
                let c = ctl.as_ref().expect("driver: no case");
                match cmd {
                    "ready" => drop(c.tx.send(server::Events::Ready)),
                    "conn" => {
                        let u = uid(t.n() as u128);
                        c.net.lock().unwrap().gone.remove(&u);
                        drop(c.tx.send(server::Events::Connected(u)));
                    }
                    "data" => {
                        let u = uid(t.n() as u128);
                        let d = unhex(&t.s()[1..]);
                        drop(c.tx.send(server::Events::Received(u, d)));
                    }
                    "disc" => {
                        let u = uid(t.n() as u128);
                        c.net.lock().unwrap().gone.insert(u);
                        drop(c.tx.send(server::Events::Disconnected(u)));
                    }
                    "err" => {
                        let k = t.s();
                        let u = t.s();
                        let u = if u == "-" { None } else { Some(uid(u.parse().unwrap())) };
                        drop(c.tx.send(match k {
                            "consumer" => server::Events::Error(u, "fault".to_string()),
                            "connection" => server::Events::ConnectionError(u, TErr("fault".to_string())),
                            _ => server::Events::ServerError(TErr("fault".to_string())),
                        }));
                    }
                    "down" => drop(c.tx.send(server::Events::Shutdown)),
                    "failsend" => {
                        let u = uid(t.n() as u128);
                        let on = t.n() == 1;
                        let mut n = c.net.lock().unwrap();
                        if on {
                            n.fail_send.insert(u);
                        } else {
                            n.fail_send.remove(&u);
                        }
                    }
                    "faildisc" => {
                        let u = uid(t.n() as u128);
                        let on = t.n() == 1;
                        let mut n = c.net.lock().unwrap();
                        if on {
                            n.fail_disc.insert(u);
                        } else {
                            n.fail_disc.remove(&u);
                        }
                    }
                    _ => panic!("driver: command {}", cmd),
                }
            }
        }
        if now {
            settle(60).await;
        }
        flush(i);
    }
}
