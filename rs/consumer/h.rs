// Fixed part of the Rust consumer harness: an in-memory transport, the log, the decisions of the
// handlers and the command loop. The handlers and the calls are generated next to it.
use crate::consumer;
use crate::core_::{hex, unhex, T};
use async_trait::async_trait;
use clibri::client;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io::Write;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::{oneshot, Notify};

#[derive(Debug, Clone)]
pub struct TErr(pub String);
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TErr {}
impl client::Error for TErr {}

#[derive(Default)]
pub struct H {
    pub log: Vec<String>,
    pub decisions: HashMap<String, VecDeque<String>>,
    pub gates: HashMap<usize, Arc<Notify>>,
    pub calls: usize,
    pub handles: HashMap<usize, consumer::Consumer<TErr>>,
}
thread_local! { pub static HS: RefCell<H> = RefCell::new(H::default()); }

pub fn log(s: String) {
    let _ = HS.try_with(|h| h.borrow_mut().log.push(s));
}
pub fn decision(name: &str) -> Option<String> {
    HS.with(|h| h.borrow_mut().decisions.get_mut(name).and_then(|q| q.pop_front()))
}
pub fn call() -> usize {
    HS.with(|h| {
        let mut h = h.borrow_mut();
        h.calls += 1;
        h.calls
    })
}
pub async fn gate(n: usize) {
    if n == 0 {
        return;
    }
    let g = HS.with(|h| h.borrow_mut().gates.entry(n).or_insert_with(|| Arc::new(Notify::new())).clone());
    g.notified().await;
}
pub fn open(n: usize) {
    HS.with(|h| h.borrow_mut().gates.entry(n).or_insert_with(|| Arc::new(Notify::new())).clone()).notify_one();
}
pub fn error<E: client::Error>(e: &consumer::ConsumerError<E>) -> String {
    let d = format!("{:?}", e);
    let k = d.split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string();
    format!("{} {}", k, e.to_string().replace('\n', " "))
}
/// one call of the application
pub async fn op<E: client::Error>(mut c: consumer::Consumer<E>, id: String, spec: String) {
    let mut t = T(spec.split_ascii_whitespace());
    log(format!("s {}", id));
    let r = match t.s() {
        "shut" => match c.shutdown().await {
            Ok(()) => "ok -".to_string(),
            Err(e) => format!("err {}", error(&e)),
        },
        k => {
            let n = t.n();
            crate::g::call(&mut c, k == "req", n, t).await
        }
    };
    log(format!("A {} {}", id, r));
}
/// what a handler does besides reporting itself
pub async fn handler<E: client::Error>(name: &str, text: String, c: consumer::Consumer<E>) {
    let n = call();
    log(format!("H {} {} {}", n, name, text));
    if let Some(d) = decision(name) {
        let (g, ops) = {
            let mut p = d.split('|');
            (p.next().unwrap().trim().parse::<usize>().unwrap(), p.map(|x| x.trim().to_string()).collect::<Vec<_>>())
        };
        gate(g).await;
        for o in ops {
            let (id, spec) = o.split_once(' ').unwrap();
            op(c.clone(), id.to_string(), spec.to_string()).await;
        }
    }
    log(format!("C {}", n));
}
pub fn reconnect(ms: u64) -> bool {
    let d = decision("reconnect").map(|x| x == "1").unwrap_or(true);
    log(format!("RECONNECT {} {}", ms, d as u8));
    d
}

// ---------------------------------------------------------------- transport
pub struct Net {
    tx: UnboundedSender<client::Event<TErr>>,
    rx: Option<UnboundedReceiver<client::Event<TErr>>>,
    end: Option<oneshot::Sender<Result<(), TErr>>>,
    up: bool,
    fail_send: bool,
    fail_shutdown: bool,
    ended: Arc<Notify>,
    /// the sequences of the messages transmitted on this connection, by id
    sent: HashMap<u32, Vec<u32>>,
    stream: Vec<u8>,
}
impl Net {
    fn reinit(&mut self) {
        let (tx, rx) = unbounded_channel();
        self.tx = tx;
        self.rx = Some(rx);
        self.up = false;
        self.end = None;
        self.sent.clear();
        self.stream.clear();
    }
}
#[derive(Clone)]
pub struct Ctl(Arc<Mutex<Net>>);
pub struct Client(Arc<Mutex<Net>>);
struct Guard(Arc<Mutex<Net>>, bool);
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.1 {
            if let Ok(mut n) = self.0.lock() {
                n.end = None;
                n.up = false;
            }
            log("T drop".to_string());
        }
    }
}
#[async_trait]
impl client::Control<TErr> for Ctl {
    async fn shutdown(&self) -> Result<(), TErr> {
        log("T shutdown".to_string());
        let wait = {
            let mut n = self.0.lock().unwrap();
            if n.fail_shutdown {
                return Err(TErr("shutdown refused".to_string()));
            }
            match n.end.take() {
                Some(tx) => {
                    let _ = tx.send(Ok(()));
                    Some(n.ended.clone())
                }
                None => None,
            }
        };
        if let Some(w) = wait {
            w.notified().await;
        }
        Ok(())
    }
    async fn send(&self, msg: client::Message) -> Result<(), TErr> {
        let mut n = self.0.lock().unwrap();
        match msg {
            client::Message::Binary(b) => {
                log(format!("{} x{}", if n.fail_send { "SF" } else { "S" }, hex(&b)));
                if n.fail_send {
                    return Err(TErr("send failed".to_string()));
                }
                if b.len() >= 10 {
                    let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
                    let (id, seq) = (w(0), w(6));
                    n.sent.entry(id).or_insert_with(Vec::new).push(seq);
                }
            }
            m => log(format!("S? {:?}", m)),
        }
        Ok(())
    }
}
#[async_trait]
impl client::Impl<TErr, Ctl> for Client {
    async fn connect(&mut self) -> Result<(), TErr> {
        let (tx, rx) = oneshot::channel();
        self.0.lock().unwrap().end = Some(tx);
        log("T connect".to_string());
        let mut g = Guard(self.0.clone(), false);
        let r = rx.await.unwrap_or_else(|_| Err(TErr("lost".to_string())));
        g.1 = true;
        let e = {
            let mut n = self.0.lock().unwrap();
            if n.up {
                let _ = n.tx.send(client::Event::Disconnected);
            }
            n.reinit();
            n.ended.clone()
        };
        log(format!("T end {}", r.is_ok() as u8));
        e.notify_one();
        r
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<TErr>>, TErr> {
        self.0.lock().unwrap().rx.take().ok_or_else(|| TErr("observer taken".to_string()))
    }
    fn control(&self) -> Ctl {
        Ctl(self.0.clone())
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        log("T dropped".to_string());
    }
}

// ---------------------------------------------------------------- commands
async fn settle(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
fn flush(i: usize) {
    let l = HS.with(|h| std::mem::take(&mut h.borrow_mut().log));
    let mut o = String::new();
    for x in l {
        o.push_str(&x);
        o.push('\n');
    }
    o.push_str(&format!("# {}\n", i));
    let mut e = std::io::stdout();
    let _ = e.write_all(o.as_bytes());
    let _ = e.flush();
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        let _ = HS.try_with(|h| {
            if let Ok(mut h) = h.try_borrow_mut() {
                h.log.push(format!("PANIC {}", m));
            }
        });
        eprintln!("{}", m);
    }));
    let mut lines: Lines = Box::new(std::io::BufRead::lines(std::io::BufReader::new(std::io::stdin())).map(|l| l.unwrap()).enumerate());
    let mut first = lines.next();
    while let Some(l) = first {
        HS.with(|h| *h.borrow_mut() = H::default());
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        first = rt.block_on(async { tokio::task::LocalSet::new().run_until(case(l, &mut lines)).await });
        let handles = HS.with(|h| std::mem::take(&mut h.borrow_mut().handles));
        drop(handles);
        drop(rt);
        HS.with(|h| h.borrow_mut().log.clear());
    }
}

type Lines = Box<dyn Iterator<Item = (usize, String)>>;

/// runs one case; returns the first command of the next one
async fn case(first: (usize, String), lines: &mut Lines) -> Option<(usize, String)> {
    let (tx, rx) = unbounded_channel();
    let net = Arc::new(Mutex::new(Net { tx, rx: Some(rx), end: None, up: false, fail_send: false, fail_shutdown: false, ended: Arc::new(Notify::new()), sent: HashMap::new(), stream: vec![] }));
    let mut getter: Option<std::rc::Rc<consumer::implementation::consumer::ConsumerGetter<TErr>>> = None;
    let mut ops: HashMap<String, tokio::task::JoinHandle<()>> = HashMap::new();
    let mut begun = false;
    let mut next = Some(first);
    while let Some((i, line)) = next.take() {
        if begun && line.starts_with("case ") {
            return Some((i, line));
        }
        begun = true;
        // "+" in front: the next command follows without letting the consumer run
        let (now, line) = match line.strip_prefix('+') {
            Some(l) => (false, l),
            None => (true, line.as_str()),
        };
        let mut t = T(line.split_ascii_whitespace());
        match t.s() {
            "case" => {
                let re = t.s();
                let timeout = t.n() as u64;
                net.lock().unwrap().fail_shutdown = t.n() == 1;
                let key = crate::g::key(&mut t);
                let mut o = consumer::Options::defualt(key);
                o.reconnection = if re == "-" { consumer::ReconnectionStrategy::DoNotReconnect } else { consumer::ReconnectionStrategy::Reconnect(re.parse().unwrap()) };
                o.request_timeout = timeout;
                match consumer::connect::<Client, TErr, Ctl>(Client(net.clone()), consumer::Context {}, o).await {
                    Ok(g) => getter = Some(std::rc::Rc::new(g)),
                    Err(e) => log(format!("CONNECTERR {}", error(&e))),
                }
            }
            "get" => {
                let k = t.n();
                if let Some(g) = getter.clone() {
                    tokio::task::spawn_local(async move {
                        match g.get().await {
                            Ok(c) => {
                                HS.with(|h| h.borrow_mut().handles.insert(k, c));
                                log(format!("G {} ok", k));
                            }
                            Err(e) => log(format!("G {} err {}", k, error(&e))),
                        }
                    });
                }
            }
            "dropget" => getter = None,
            "op" => {
                let k = t.n();
                let id = t.s().to_string();
                let spec = t.0.collect::<Vec<_>>().join(" ");
                let c = HS.with(|h| h.borrow().handles.get(&k).cloned());
                match c {
                    None => log(format!("NOHANDLE {}", id)),
                    Some(c) => {
                        ops.insert(id.clone(), tokio::task::spawn_local(op(c, id, spec)));
                    }
                }
            }
            "abort" => {
                let id = t.s();
                if let Some(o) = ops.remove(id) {
                    o.abort();
                    log(format!("ABORT {}", id));
                }
            }
            "do" => {
                let name = t.s().to_string();
                let rest = t.0.collect::<Vec<_>>().join(" ");
                HS.with(|h| h.borrow_mut().decisions.entry(name).or_insert_with(VecDeque::new).push_back(rest));
            }
            "open" => open(t.n()),
            "advance" => {
                let n = t.n() as u64;
                log(format!("ADV {}", n));
                tokio::time::advance(std::time::Duration::from_millis(n)).await;
            }
            "up" => {
                let mut n = net.lock().unwrap();
                if !n.up {
                    n.stream.clear();
                }
                if n.end.is_some() && !n.up {
                    n.up = true;
                    log("U".to_string());
                    let _ = n.tx.send(client::Event::Connected("127.0.0.1:1".parse().unwrap()));
                }
            }
            "close" => {
                let ok = t.n() == 1;
                let mut n = net.lock().unwrap();
                if let Some(tx) = n.end.take() {
                    log(format!("E close {}", ok as u8));
                    let _ = tx.send(if ok { Ok(()) } else { Err(TErr("connection reset".to_string())) });
                }
            }
            "feed" => {
                // the message gets the sequence of the n-th transmission of that id on this connection
                let name = t.s();
                let mut b = unhex(&t.s()[1..]);
                let mut n = net.lock().unwrap();
                if name != "-" {
                    let (id, k) = name.split_once('.').unwrap();
                    let id: u32 = id.parse().unwrap();
                    let none = vec![];
                    let l = n.sent.get(&id).unwrap_or(&none);
                    let k: i64 = k.parse().unwrap();
                    let k = if k < 0 { k + l.len() as i64 } else { k };
                    let s = if k >= 0 { l.get(k as usize).copied() } else { None }.unwrap_or(4_000_000_000);
                    b[6..10].copy_from_slice(&s.to_le_bytes());
                }
                n.stream.extend_from_slice(&b);
            }
            "push" => {
                let mut n = net.lock().unwrap();
                let k = t.n().min(n.stream.len());
                let b: Vec<u8> = n.stream.drain(..k).collect();
                if n.up && n.end.is_some() {
                    log(format!("D x{}", hex(&b)));
                    let _ = n.tx.send(client::Event::Message(client::Message::Binary(b)));
                }
            }
            "text" | "err" => {
                let n = net.lock().unwrap();
                if n.up && n.end.is_some() {
                    log(format!("E {}", line));
                    let _ = n.tx.send(match line {
                        "err" => client::Event::Error(TErr("fault".to_string())),
                        _ => client::Event::Message(client::Message::Text("hello".to_string())),
                    });
                }
            }
            "failsend" => net.lock().unwrap().fail_send = t.n() == 1,
            "settle" => settle(200).await,
            "yield" => settle(t.n()).await,
            "end" => {}
            x => panic!("driver: command {}", x),
        }
        if now {
            settle(60).await;
        }
        flush(i);
        next = lines.next();
    }
    None
}
