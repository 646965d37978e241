// Fixed part of every generated Rust codec driver.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Guard;
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    BIGGEST.fetch_max(n, Ordering::Relaxed);
    if n > LIMIT.load(Ordering::Relaxed) {
        // report and stop: the monitor names the command from the number of answers
        LIMIT.store(usize::MAX, Ordering::Relaxed);
        let mut e = std::io::stdout();
        let _ = e.write_all(format!("ALLOC {}\n", n).as_bytes());
        let _ = e.flush();
        std::process::exit(7);
    }
}
#[global_allocator]
static G: Guard = Guard;

pub struct T<'a>(pub std::str::SplitAsciiWhitespace<'a>);
impl<'a> T<'a> {
    pub fn s(&mut self) -> &'a str {
        self.0.next().expect("driver: missing token")
    }
    pub fn n(&mut self) -> usize {
        self.s().parse().expect("driver: bad number")
    }
    pub fn some(&mut self) -> bool {
        self.s() == "S"
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let h = |c: u8| -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            _ => c - b'a' + 10,
        }
    };
    (0..b.len() / 2).map(|i| h(b[2 * i]) * 16 + h(b[2 * i + 1])).collect()
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize]);
        s.push(D[(x & 15) as usize]);
    }
    String::from_utf8(s).unwrap()
}
pub trait P: Sized {
    fn get(t: &mut T) -> Self;
    fn put(&self, o: &mut String);
}
macro_rules! int {
    ($($t:ty),*) => { $(impl P for $t {
        fn get(t: &mut T) -> Self { t.s().parse().expect("driver: bad int") }
        fn put(&self, o: &mut String) { o.push_str(&self.to_string()); o.push(' '); }
    })* }
}
int!(i8, i16, i32, i64, u8, u16, u32, u64);
impl P for bool {
    fn get(t: &mut T) -> Self {
        t.s() == "1"
    }
    fn put(&self, o: &mut String) {
        o.push_str(if *self { "1 " } else { "0 " });
    }
}
impl P for f32 {
    fn get(t: &mut T) -> Self {
        f32::from_bits(u32::from_str_radix(&t.s()[1..], 16).unwrap())
    }
    fn put(&self, o: &mut String) {
        let b = if self.is_nan() { 0x7fc00000 } else { self.to_bits() };
        o.push_str(&format!("x{:x} ", b));
    }
}
impl P for f64 {
    fn get(t: &mut T) -> Self {
        f64::from_bits(u64::from_str_radix(&t.s()[1..], 16).unwrap())
    }
    fn put(&self, o: &mut String) {
        let b = if self.is_nan() { 0x7ff8000000000000 } else { self.to_bits() };
        o.push_str(&format!("x{:x} ", b));
    }
}
impl P for String {
    fn get(t: &mut T) -> Self {
        String::from_utf8(unhex(&t.s()[1..])).expect("driver: utf8")
    }
    fn put(&self, o: &mut String) {
        o.push('s');
        o.push_str(&hex(self.as_bytes()));
        o.push(' ');
    }
}

pub fn opt_uuid(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        Some(String::from_utf8(unhex(&s[1..])).unwrap())
    }
}

pub fn main_loop<F: FnMut(&str, &mut T) -> String>(mut f: F) {
    let hook = std::panic::take_hook();
    drop(hook);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| l.line()).unwrap_or(0);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let m = m.replace('\n', " ");
        let mut o = std::io::stdout();
        let _ = o.write_all(format!("PANICMSG {} {}\n", loc, m).as_bytes());
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut t = T(line.split_ascii_whitespace());
        let cmd = match t.0.next() {
            Some(c) => c,
            None => continue,
        };
        LIMIT.store((64 << 20) + 64 * line.len(), Ordering::Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cmd, &mut t)));
        LIMIT.store(usize::MAX, Ordering::Relaxed);
        let s = match r {
            Ok(s) => s,
            Err(_) => "PANIC".to_string(),
        };
        let _ = out.write_all(s.as_bytes());
        let _ = out.write_all(b"\n");
        let _ = out.flush();
    }
}
