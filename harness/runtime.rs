// Fixed part of the Rust harness around generated code. The schema-specific part (module `glue`) provides
//   fn encode(t: usize, v: &J, o: &mut Vec<u8>) -> (usize)       etc.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub enum J {
    N(u64),
    A(Vec<J>),
}

impl J {
    pub fn arr(&self) -> &Vec<J> {
        match self {
            J::A(a) => a,
            J::N(_) => panic!("harness: expected array"),
        }
    }
    pub fn n(&self) -> u64 {
        match self {
            J::N(n) => *n,
            J::A(_) => panic!("harness: expected number"),
        }
    }
    pub fn at(&self, i: usize) -> &J {
        &self.arr()[i]
    }
    pub fn len(&self) -> usize {
        self.arr().len()
    }
}

pub fn bytes(j: &J) -> Vec<u8> {
    j.arr().iter().map(|x| x.n() as u8).collect()
}

pub fn text(j: &J) -> String {
    String::from_utf8(bytes(j)).expect("harness: text")
}

pub fn u8x(j: &J) -> u64 {
    let b = bytes(j);
    u64::from_le_bytes(b.try_into().expect("harness: eight bytes"))
}

fn parse(s: &[u8], p: &mut usize) -> J {
    while s[*p] == b' ' || s[*p] == b',' {
        *p += 1;
    }
    if s[*p] == b'[' {
        *p += 1;
        let mut v = vec![];
        loop {
            while s[*p] == b' ' || s[*p] == b',' {
                *p += 1;
            }
            if s[*p] == b']' {
                *p += 1;
                return J::A(v);
            }
            v.push(parse(s, p));
        }
    }
    let mut n: u64 = 0;
    while *p < s.len() && s[*p].is_ascii_digit() {
        n = n * 10 + u64::from(s[*p] - b'0');
        *p += 1;
    }
    J::N(n)
}

pub fn put_bytes(b: &[u8], o: &mut String) {
    use std::fmt::Write as _;
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}

pub fn put_u64(n: u64, o: &mut String) {
    put_bytes(&n.to_le_bytes(), o);
}

// ---------------------------------------------------------------------------------------------------------------------
// Allocation accounting.

const HUGE: usize = 64 << 20;
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

struct Counting;

fn note(size: usize) {
    if size >= HUGE {
        // The request being served asked for an absurd allocation: report it and stop here.
        let line = b"{\"st\":\"huge\"}\n";
        let _ = io::stdout().flush();
        extern "C" {
            fn write(fd: i32, p: *const u8, n: usize) -> isize;
            fn _exit(code: i32) -> !;
        }
        unsafe {
            write(1, line.as_ptr(), line.len());
            _exit(79);
        }
    }
    TOTAL.fetch_add(size, Relaxed);
    let live = LIVE.fetch_add(size as i64, Relaxed) + size as i64;
    PEAK.fetch_max(live, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

// ---------------------------------------------------------------------------------------------------------------------
// Readers and writers driven by a plan.
//
// A reader plan is a list of steps [k]: k > 0 deliver at most k bytes; 0 an interruption; 999999 a failure.
// When the plan is exhausted the rest is delivered at once.

pub const FAIL: u64 = 999_999;

pub struct PlanReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Vec<u64>,
    pub step: usize,
    pub window: usize, // bytes of the current delivery not consumed yet
    pub calls: u64,
    pub failed: bool,
}

impl<'a> PlanReader<'a> {
    pub fn new(data: &'a [u8], plan: Vec<u64>) -> Self {
        PlanReader { data, pos: 0, plan, step: 0, window: 0, calls: 0, failed: false }
    }
}

impl Read for PlanReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for PlanReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        if self.window == 0 && self.pos < self.data.len() {
            if self.step < self.plan.len() {
                let k = self.plan[self.step];
                self.step += 1;
                if k == 0 {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                if k == FAIL {
                    self.failed = true;
                    self.step -= 1;
                    return Err(io::Error::new(io::ErrorKind::TimedOut, "planned failure"));
                }
                self.window = (k as usize).min(self.data.len() - self.pos);
            } else {
                self.window = self.data.len() - self.pos;
            }
        } else if self.window == 0 && self.step < self.plan.len() && self.plan[self.step] == FAIL {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::TimedOut, "planned failure"));
        }
        Ok(&self.data[self.pos..self.pos + self.window])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.window, "consumed more than was delivered");
        self.pos += n;
        self.window -= n;
    }
}

// A writer plan: k > 0 accept at most k bytes, 0 an interruption, 999999 fail from then on, 999998 accept nothing.
// Every call is logged: what was offered and how many bytes were taken (or the code of what happened).
pub struct PlanWriter {
    pub plan: Vec<u64>,
    pub step: usize,
    pub log: Vec<(Vec<u8>, u64)>,
}

impl PlanWriter {
    fn answer(&mut self, buf: &[u8]) -> u64 {
        let k = if self.step < self.plan.len() { self.plan[self.step] } else { u64::MAX };
        if k == FAIL {
            return FAIL;
        }
        self.step += 1;
        if k == FAIL - 1 || k == 0 {
            return if k == 0 { FAIL - 2 } else { 0 };
        }
        k.min(buf.len() as u64)
    }
}

impl Write for PlanWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let a = self.answer(buf);
        self.log.push((buf.to_vec(), a));
        match a {
            FAIL => Err(io::Error::new(io::ErrorKind::TimedOut, "planned failure")),
            0 => Ok(0),
            _ if a == FAIL - 2 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            n => Ok(n as usize),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------------------------------

static REQUEST: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicI64 = AtomicI64::new(-1);

extern "C" {
    fn clock() -> i64; // microseconds of processor time on this platform
}

fn watchdog() {
    let mut last = 0;
    let limit = std::env::var("TV_HANG_US").ok().and_then(|x| x.parse().ok()).unwrap_or(150_000);
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let r = REQUEST.load(Relaxed);
        let s = STARTED.load(Relaxed);
        if s >= 0 && r == last && unsafe { clock() } - s > limit {
            if REQUEST.load(Relaxed) == r && STARTED.load(Relaxed) == s {
                let line = b"{\"st\":\"hang\"}\n";
                extern "C" {
                    fn write(fd: i32, p: *const u8, n: usize) -> isize;
                    fn _exit(code: i32) -> !;
                }
                unsafe {
                    write(1, line.as_ptr(), line.len());
                    _exit(78);
                }
            }
        }
        last = r;
    }
}

fn nums(j: &J) -> Vec<u64> {
    j.arr().iter().map(J::n).collect()
}

fn serve(op: &str, j: &J) -> String {
    let t = j.at(0).n() as usize;
    let mut o = String::new();
    match op {
        // encode: [t, v]
        "E" => {
            let (size, b) = glue::encode(t, j.at(1));
            o.push_str("{\"b\":");
            put_bytes(&b, &mut o);
            o.push_str(&format!(",\"n\":{size}}}"));
        }
        // convert outgoing to incoming: [t, v]
        "C" => {
            o.push_str("{\"r\":");
            glue::convert(t, j.at(1), &mut o);
            o.push('}');
        }
        // decode: [t, bytes]
        "D" => {
            let b = bytes(j.at(1));
            let before = LIVE.load(Relaxed);
            PEAK.store(before, Relaxed);
            TOTAL.store(0, Relaxed);
            let mut r = PlanReader::new(&b, vec![]);
            let mut v = String::new();
            let (ok, kind, total, peak) = glue::decode(t, &mut r, &mut v, &|| {
                (TOTAL.load(Relaxed), PEAK.load(Relaxed) - before)
            });
            if ok {
                o.push_str(&format!("{{\"st\":\"ok\",\"r\":{v},\"tot\":{total},\"peak\":{peak},\"calls\":{},\"used\":{}}}", r.calls, r.pos));
            } else {
                o.push_str(&format!("{{\"st\":\"err\",\"kind\":\"{kind}\",\"tot\":{total},\"peak\":{peak},\"calls\":{},\"used\":{}}}", r.calls, r.pos));
            }
        }
        // decode with a reader plan: [t, bytes, plan]
        "R" => {
            let b = bytes(j.at(1));
            let mut r = PlanReader::new(&b, nums(j.at(2)));
            let mut v = String::new();
            let (ok, kind, _, _) = glue::decode(t, &mut r, &mut v, &|| (0, 0));
            o.push_str(&format!(
                "{{\"st\":\"{}\",\"kind\":\"{kind}\",\"r\":{},\"failed\":{},\"calls\":{},\"used\":{}}}",
                if ok { "ok" } else { "err" },
                if ok { &v } else { "[]" },
                u8::from(r.failed), r.calls, r.pos
            ));
        }
        // decode through a standard buffered reader of a given capacity: [t, bytes, capacity]
        "B" => {
            let b = bytes(j.at(1));
            let mut r = io::BufReader::with_capacity(j.at(2).n() as usize, &b[..]);
            let mut v = String::new();
            let (ok, kind, _, _) = glue::decode(t, &mut r, &mut v, &|| (0, 0));
            o.push_str(&format!("{{\"st\":\"{}\",\"kind\":\"{kind}\",\"r\":{},\"failed\":0}}", if ok { "ok" } else { "err" }, if ok { &v } else { "[]" }));
        }
        // time decoding of prefix, body * count, suffix: [t, prefix, body, count, suffix]
        "T" => {
            let mut b = bytes(j.at(1));
            let body = bytes(j.at(2));
            for _ in 0..j.at(3).n() {
                b.extend_from_slice(&body);
            }
            b.extend_from_slice(&bytes(j.at(4)));
            let before = LIVE.load(Relaxed);
            PEAK.store(before, Relaxed);
            TOTAL.store(0, Relaxed);
            let mut r = PlanReader::new(&b, vec![]);
            let start = unsafe { clock() };
            let ok = glue::probe(t, &mut r);
            let us = unsafe { clock() } - start;
            o.push_str(&format!("{{\"st\":\"{}\",\"len\":{},\"us\":{us},\"tot\":{},\"peak\":{},\"calls\":{}}}",
                if ok { "ok" } else { "err" }, b.len(), TOTAL.load(Relaxed), PEAK.load(Relaxed) - before, r.calls));
        }
        // encode with a writer plan: [t, v, plan]
        "W" => {
            let mut w = PlanWriter { plan: nums(j.at(2)), step: 0, log: vec![] };
            let (ok, kind) = glue::encode_to(t, j.at(1), &mut w);
            o.push_str(&format!("{{\"st\":\"{}\",\"kind\":\"{kind}\",\"ev\":[", if ok { "ok" } else { "err" }));
            for (i, (b, a)) in w.log.iter().enumerate() {
                o.push_str(if i > 0 { ",[" } else { "[" });
                put_bytes(b, &mut o);
                o.push_str(&format!(",{a}]"));
            }
            o.push_str("]}");
        }
        _ => panic!("harness: unknown operation"),
    }
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(watchdog);
    let stack = std::env::var("TV_STACK_MB").ok().and_then(|x| x.parse().ok()).unwrap_or(256usize);
    let worker = std::thread::Builder::new().stack_size(stack << 20).spawn(|| {
        let stdin = io::stdin();
        let mut out = io::BufWriter::with_capacity(1 << 16, io::stdout());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (op, rest) = line.split_at(1);
            let mut p = 0;
            let j = parse(rest.trim().as_bytes(), &mut p);
            // Everything before this request must be visible if it ends the process.
            out.flush().unwrap();
            REQUEST.fetch_add(1, Relaxed);
            STARTED.store(unsafe { clock() }, Relaxed);
            let r = catch_unwind(AssertUnwindSafe(|| serve(op, &j)));
            STARTED.store(-1, Relaxed);
            let text = match r {
                Ok(s) => s,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let m: String = m.chars().filter(|c| *c != '"' && *c != '\\' && !c.is_control()).take(200).collect();
                    if m.contains("capacity overflow") {
                        "{\"st\":\"huge\"}".to_string()
                    } else {
                        format!("{{\"st\":\"panic\",\"msg\":\"{m}\"}}")
                    }
                }
            };
            writeln!(out, "{text}").unwrap();
        }
        out.flush().unwrap();
    });
    worker.unwrap().join().unwrap();
    std::process::exit(0);
}
