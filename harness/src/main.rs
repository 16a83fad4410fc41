//! Conformance harness: drives weedle's public API and records what it does,
//! one JSON record per line, for the TLA+ trace specification to judge.
//!
//!   harness cases   IN OUT SKIP     one call per line      name \t hex
//!   harness blocks  IN OUT SKIP     exhaustive blocks      name \t pre \t post \t len \t sym,sym,... \t from \t count
//!   harness chains  IN OUT SKIP     chained calls          hex \t name \t name ...
//!   harness groups  IN OUT SKIP     eq/ord/hash matrices   name \t hex \t hex ...
//!   harness convs   IN OUT SKIP     From conversions       enum \t variant \t hex
//!   harness session IN OUT SKIP     histories and threads  mode, then  thread \t buffer \t repeat \t name \t hex
//!   harness digest  IN OUT BLOCK    one hash per BLOCK calls name \t hex   (32 bits, little endian)
//!   harness history IN OUT SEED     the calls in a shuffled order by 4 threads; line 1: indices to record
//!   harness totals  IN OUT 0        numbers of the calls that did not return normally
//!   harness pumps   IN OUT SKIP     n copies of an item      name \t pre \t item \t sep \t post \t n,n,...
//!   harness list                    all names
mod proj;
mod table;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::fs::{self, File, OpenOptions};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::time::Duration;
use table::*;

const STACK: usize = 1 << 30;
/// For texts without depth, however long: twice what Rust gives to a thread.
const SMALL: usize = 4 << 20;
const HANG_S: u64 = 60;

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).expect("harness input is UTF-8")
}
fn jnums<T: std::fmt::Display>(o: &mut String, v: impl Iterator<Item = T>) {
    o.push('[');
    for (i, x) in v.enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o.push(']');
}
fn jstr(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn jstrs(o: &mut String, v: &[&str]) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        jstr(o, x);
    }
    o.push(']');
}
fn jres(o: &mut String, r: &Res) {
    let _ = write!(o, "\"k\":\"{}\",\"p\":{},\"a\":", r.k, r.p);
    jstrs(o, &r.a);
    o.push_str(",\"l\":");
    jnums(o, r.l.iter());
}
fn jmat(o: &mut String, m: &[Vec<i64>]) {
    o.push('[');
    for (i, x) in m.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        jnums(o, x.iter());
    }
    o.push(']');
}

fn guarded(f: fn(&str, usize) -> Res, s: &str, at: usize) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(s, at))) {
        Ok(r) => r,
        Err(_) => Res { k: "panic", p: -1, a: vec![], l: vec![] },
    }
}

/// Watchdog: `TICK` is bumped whenever an item of work is finished. A call hangs when it has used
/// the processor for a minute, or has stood still for two (other load on the machine is no hang).
static TICK: AtomicU64 = AtomicU64::new(0);
fn cpu_seconds() -> u64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<u64> = s[s.rfind(')').map_or(0, |i| i + 1)..].split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    f.get(11).unwrap_or(&0).wrapping_add(*f.get(12).unwrap_or(&0)) / 100
}
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut cpu, mut idle) = (0, cpu_seconds(), 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = TICK.load(Ordering::Relaxed);
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                cpu = cpu_seconds();
            }
            last = now;
            let used = cpu_seconds() - cpu;
            if used >= HANG_S || (idle >= 2 * HANG_S && used < 2) {
                std::process::exit(77);
            }
        }
    });
}

struct Lines(File, String);
impl Lines {
    fn put(&mut self, s: &str) {
        self.1.push_str(s);
        self.1.push('\n');
        self.0.write_all(self.1.as_bytes()).unwrap();
        self.1.clear();
        TICK.fetch_add(1, Ordering::Relaxed);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    if mode == "list" {
        for e in entries() {
            println!("{}", e.name);
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        // panics of the harness itself are tool errors; the library's are outcomes
        if i.location().map_or(false, |l| l.file().starts_with("src/")) {
            eprintln!("harness/src: panicked: {}", i);
        }
    }));
    watchdog();
    let input = fs::read_to_string(&args[2]).unwrap();
    let skip: usize = args[4].parse().unwrap();
    let f = OpenOptions::new().create(true).append(true).open(&args[3]).unwrap();
    let mut out = Lines(f, String::new());
    if mode == "session" && input.starts_with("main\n") {
        return session(&input, &mut out); // every call on the main thread
    }
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match mode.as_str() {
            "cases" => cases(&input, skip, &mut out),
            "blocks" => blocks(&input, skip, &mut out),
            "chains" => chains(&input, skip, &mut out),
            "groups" => groups(&input, skip, &mut out),
            "convs" => convs(&input, skip, &mut out),
            "session" => session(&input, &mut out),
            "digest" => digest(&input, skip, &mut out),
            "history" => history(&input, skip as u64, &mut out),
            "totals" => totals(&input, &mut out),
            "pregroups" => pregroups(&input, &mut out),
            "preconvs" => preconvs(&input, &mut out),
            "pumps" => pumps(&input, skip, &mut out),
            _ => panic!("mode"),
        })
        .unwrap()
        .join()
        .unwrap();
}

fn by_name() -> HashMap<&'static str, Entry> {
    entries().into_iter().map(|e| (e.name, e)).collect()
}

fn case_json(n: &str, s: &str, r: &Res) -> String {
    let mut o = String::new();
    o.push_str("{\"n\":");
    jstr(&mut o, n);
    o.push_str(",\"s\":");
    jnums(&mut o, s.as_bytes().iter());
    o.push(',');
    jres(&mut o, r);
    o.push('}');
    o
}

fn cases(input: &str, skip: usize, out: &mut Lines) {
    let t = by_name();
    for line in input.lines().skip(skip) {
        let mut f = line.split('\t');
        let n = f.next().unwrap();
        let s = unhex(f.next().unwrap());
        let r = guarded(t[n].run, &s, 0);
        out.put(&case_json(n, &s, &r));
    }
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    *h = (*h ^ 0xff).wrapping_mul(0x100_0000_01b3);
}

fn hash_outcome(h: &mut u64, n: &str, s: &str, r: &Res) {
    fnv(h, n.as_bytes());
    fnv(h, s.as_bytes());
    fnv(h, r.k.as_bytes());
    let p = if r.k == "ok" || n == "doc" || r.p < 0 { r.p } else { 0 };
    fnv(h, &(p as i64).to_le_bytes());
    for a in &r.a {
        fnv(h, a.as_bytes());
    }
    for l in &r.l {
        fnv(h, &(*l as i64).to_le_bytes());
    }
}

/// All calls in one process, in an order shuffled by `seed`, shared out to four threads that run
/// one after the other's call in turn (even seeds) or all at once (odd seeds); every second call
/// of a thread goes through one reused buffer. Writes one line per call: number and hash, and the
/// full record of the calls listed in the first line.
fn history(input: &str, seed: u64, out: &mut Lines) {
    let t = by_name();
    let mut it = input.lines();
    let dump: std::collections::HashSet<usize> = it.next().unwrap().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let items: Vec<(&str, String)> = it
        .map(|l| {
            let (n, h) = l.split_at(l.find('\t').unwrap());
            (n, unhex(&h[1..]))
        })
        .collect();
    let mut order: Vec<usize> = (0..items.len()).collect();
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    for i in (1..if seed == 0 { 0 } else { order.len() }).rev() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        order.swap(i, (x % (i as u64 + 1)) as usize);
    }
    let nt = if seed == 0 { 1 } else { 4 };
    let turn = (Mutex::new(0usize), std::sync::Condvar::new());
    let results: Mutex<Vec<(usize, u64, Option<Res>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for k in 0..nt {
            let (items, order, t, turn, results, dump) = (&items, &order, &t, &turn, &results, &dump);
            std::thread::Builder::new()
                .stack_size(STACK / 4)
                .spawn_scoped(sc, move || {
                    let mut buf = String::with_capacity(1 << 17);
                    let mut local = vec![];
                    // runs of 64 consecutive calls per thread
                    for (j, chunk) in order.chunks(64).enumerate() {
                        if j % nt != k {
                            continue;
                        }
                        if seed % 2 == 0 {
                            let mut now = turn.0.lock().unwrap();
                            while *now != j {
                                now = turn.1.wait(now).unwrap();
                            }
                        }
                        for (m, &i) in chunk.iter().enumerate() {
                            let (n, s) = &items[i];
                            let run = t[n].run;
                            let r = if m % 2 == 0 {
                                // at another place of the machine's words, between other texts, every time
                                let off = (i * 7 + seed as usize * 5) % 32;
                                buf.clear();
                                buf.extend(std::iter::repeat((AROUND[i % AROUND.len()].as_bytes()[0] & 127) as char).take(off));
                                buf.push_str(s);
                                buf.push_str(AROUND[(i / 32) % AROUND.len()]);
                                guarded(run, &buf[off..off + s.len()], 0)
                            } else {
                                guarded(run, s, 0)
                            };
                            let mut h = 0xcbf2_9ce4_8422_2325;
                            hash_outcome(&mut h, n, s, &r);
                            local.push((i, h, if dump.contains(&i) { Some(r) } else { None }));
                            TICK.fetch_add(1, Ordering::Relaxed);
                        }
                        if seed % 2 == 0 {
                            *turn.0.lock().unwrap() = j + 1;
                            turn.1.notify_all();
                        }
                    }
                    results.lock().unwrap().extend(local);
                })
                .unwrap();
        }
    });
    let mut rs = results.into_inner().unwrap();
    rs.sort_by_key(|r| r.0);
    let mut o = String::new();
    for (i, h, r) in rs {
        let _ = write!(o, "{:016x}", h);
        if let Some(r) = r {
            o.push('\t');
            o.push_str(&case_json(items[i].0, &items[i].1, &r));
        }
        o.push('\n');
    }
    out.0.write_all(o.as_bytes()).unwrap();
}

/// Hashes of what the specification determines about the outcomes, block by block.
fn digest(input: &str, block: usize, out: &mut Lines) {
    let t = by_name();
    let mut all: Vec<u8> = vec![];
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut k = 0;
    for line in input.lines() {
        let mut f = line.split('\t');
        let n = f.next().unwrap();
        let s = unhex(f.next().unwrap());
        let r = guarded(t[n].run, &s, 0);
        hash_outcome(&mut h, n, &s, &r);
        k += 1;
        if k == block {
            all.extend_from_slice(&((h ^ (h >> 32)) as u32).to_le_bytes());
            h = 0xcbf2_9ce4_8422_2325;
            k = 0;
        }
        TICK.fetch_add(1, Ordering::Relaxed);
    }
    if k > 0 {
        all.extend_from_slice(&((h ^ (h >> 32)) as u32).to_le_bytes());
    }
    out.0.write_all(&all).unwrap();
}

fn totals(input: &str, out: &mut Lines) {
    let t = by_name();
    for (i, line) in input.lines().enumerate() {
        let mut f = line.split('\t');
        let n = f.next().unwrap();
        let s = unhex(f.next().unwrap());
        let r = guarded(t[n].run, &s, 0);
        if (r.k != "ok" && r.k != "err") || r.p < 0 {
            out.put(&i.to_string());
        }
        TICK.fetch_add(1, Ordering::Relaxed);
    }
}

fn blocks(input: &str, skip: usize, out: &mut Lines) {
    let t = by_name();
    for line in input.lines().skip(skip) {
        let f: Vec<&str> = line.split('\t').collect();
        let (n, pre, post) = (f[0], unhex(f[1]), unhex(f[2]));
        let len: u32 = f[3].parse().unwrap();
        let syms: Vec<String> = f[4].split(',').map(unhex).collect();
        let total = syms.len().pow(len);
        let from: usize = f[5].parse().unwrap();
        let count: usize = f[6].parse().unwrap();
        let mut tab: HashMap<Res, usize> = HashMap::new();
        let mut order: Vec<Res> = vec![];
        let mut idx: Vec<usize> = Vec::with_capacity(count);
        let run = t[n].run;
        let mut s = String::new();
        for i in from..from + count {
            s.clear();
            s.push_str(&pre);
            let mut d = total;
            let mut x = i;
            for _ in 0..len {
                d /= syms.len();
                s.push_str(&syms[x / d]);
                x %= d;
            }
            s.push_str(&post);
            let r = guarded(run, &s, 0);
            let k = *tab.entry(r.clone()).or_insert_with(|| {
                order.push(r);
                order.len()
            });
            idx.push(k);
            TICK.fetch_add(1, Ordering::Relaxed);
        }
        let mut o = String::new();
        o.push_str("{\"n\":");
        jstr(&mut o, n);
        o.push_str(",\"pre\":");
        jnums(&mut o, pre.as_bytes().iter());
        o.push_str(",\"post\":");
        jnums(&mut o, post.as_bytes().iter());
        let _ = write!(o, ",\"len\":{},\"from\":{},\"sym\":[", len, from);
        for (i, s) in syms.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            jnums(&mut o, s.as_bytes().iter());
        }
        o.push_str("],\"tab\":[");
        for (i, r) in order.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push('{');
            jres(&mut o, r);
            o.push('}');
        }
        o.push_str("],\"r\":");
        jnums(&mut o, idx.iter());
        o.push('}');
        out.put(&o);
    }
}

fn chains(input: &str, skip: usize, out: &mut Lines) {
    let t = by_name();
    for line in input.lines().skip(skip) {
        let f: Vec<&str> = line.split('\t').collect();
        let s = unhex(f[0]);
        let mut at = 0usize;
        let mut o = String::new();
        o.push_str("{\"s\":");
        jnums(&mut o, s.as_bytes().iter());
        o.push_str(",\"c\":[");
        for (i, n) in f[1..].iter().enumerate() {
            let r = guarded(t[n].run, &s, at);
            if i > 0 {
                o.push(',');
            }
            o.push_str("{\"n\":");
            jstr(&mut o, n);
            o.push(',');
            jres(&mut o, &r);
            o.push('}');
            if r.k != "ok" || r.p < 0 {
                break;
            }
            at = r.p as usize;
        }
        o.push_str("]}");
        out.put(&o);
    }
}

fn groups(input: &str, skip: usize, out: &mut Lines) {
    let t = by_name();
    for line in input.lines().skip(skip) {
        let f: Vec<&str> = line.split('\t').collect();
        let ins: Vec<String> = f[1..].iter().map(|x| unhex(x)).collect();
        let g = t[f[0]].group;
        let r = catch_unwind(AssertUnwindSafe(|| g(&ins)));
        let mut o = String::new();
        o.push_str("{\"n\":");
        jstr(&mut o, f[0]);
        o.push_str(",\"s\":[");
        for (i, s) in ins.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            jnums(&mut o, s.as_bytes().iter());
        }
        match r {
            Ok(g) => {
                o.push_str("],\"res\":[");
                for (i, r) in g.res.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('{');
                    jres(&mut o, r);
                    o.push('}');
                }
                o.push_str("],\"eq\":");
                jmat(&mut o, &g.eq);
                o.push_str(",\"cmp\":");
                jmat(&mut o, &g.cmp);
                o.push_str(",\"heq\":");
                jmat(&mut o, &g.heq);
                o.push_str(",\"ops\":");
                jmat(&mut o, &g.ops);
                o.push_str(",\"clone\":");
                jnums(&mut o, g.clone.iter());
                o.push_str(",\"k\":\"ok\"}");
            }
            Err(_) => o.push_str("],\"k\":\"panic\"}"),
        }
        out.put(&o);
    }
}

fn content<'a>(s: &'a str, r: &'a Res) -> (&'a [&'static str], Vec<&'a [u8]>) {
    let b = s.as_bytes();
    (&r.a, r.l.chunks(2).map(|x| if x[0] < 0 { &b[0..0] } else { &b[x[0] as usize..x[1] as usize] }).collect())
}

/// Numbers of the groups that look as if they broke the laws of WeedleTrace!GroupOk; those are
/// recorded in full and judged by the specification.
fn pregroups(input: &str, out: &mut Lines) {
    let t = by_name();
    for (no, line) in input.lines().enumerate() {
        let f: Vec<&str> = line.split('\t').collect();
        let ins: Vec<String> = f[1..].iter().map(|x| unhex(x)).collect();
        let g = t[f[0]].group;
        let fine = match catch_unwind(AssertUnwindSafe(|| g(&ins))) {
            Err(_) => false,
            Ok(g) => {
                let cs: Vec<_> = ins.iter().zip(&g.res).filter(|(_, r)| r.k == "ok").map(|(s, r)| content(s, r)).collect();
                let m = cs.len();
                let mut fine = g.eq.len() == m && g.clone.iter().all(|x| *x == 1);
                for x in 0..m {
                    for y in 0..m {
                        let same = cs[x] == cs[y];
                        fine &= (g.eq[x][y] == 1) == same && (g.cmp[x][y] == 0) == same && g.cmp[x][y] == -g.cmp[y][x];
                        fine &= (!same || g.heq[x][y] == 1) && g.ops[x][y] == 1;
                        for z in 0..m {
                            fine &= !(g.cmp[x][y] <= 0 && g.cmp[y][z] <= 0) || g.cmp[x][z] <= 0;
                        }
                    }
                }
                fine
            }
        };
        if !fine {
            out.put(&no.to_string());
        }
        TICK.fetch_add(1, Ordering::Relaxed);
    }
}

/// The same for WeedleTrace!ConvOk.
fn preconvs(input: &str, out: &mut Lines) {
    let t: HashMap<(&str, &str), Conv> = conversions().into_iter().map(|c| ((c.en, c.va), c)).collect();
    for (no, line) in input.lines().enumerate() {
        let f: Vec<&str> = line.split('\t').collect();
        let s = unhex(f[2]);
        let g = t[&(f[0], f[1])].run;
        let fine = match catch_unwind(AssertUnwindSafe(|| g(&s))) {
            Err(_) => false,
            Ok(None) => true,
            Ok(Some(c)) => {
                c.value.a.len() == c.payload.a.len() + 1
                    && c.value.a[0] == format!("{}::{}", f[0], f[1])
                    && c.value.a[1..] == c.payload.a[..]
                    && c.value.l == c.payload.l
                    && c.same == 1
                    && if c.parsed.k == "ok" {
                        (c.eq == 1) == (content(&s, &c.parsed) == content(&s, &c.value)) && (c.parsed.a[0] != c.value.a[0] || c.eq == 1)
                    } else {
                        c.eq == 0
                    }
            }
        };
        if !fine {
            out.put(&no.to_string());
        }
        TICK.fetch_add(1, Ordering::Relaxed);
    }
}

fn convs(input: &str, skip: usize, out: &mut Lines) {
    let t: HashMap<(&str, &str), Conv> = conversions().into_iter().map(|c| ((c.en, c.va), c)).collect();
    for line in input.lines().skip(skip) {
        let f: Vec<&str> = line.split('\t').collect();
        let s = unhex(f[2]);
        let g = t[&(f[0], f[1])].run;
        let r = catch_unwind(AssertUnwindSafe(|| g(&s)));
        let mut o = String::new();
        let _ = write!(o, "{{\"e\":\"{}\",\"v\":\"{}\",\"s\":", f[0], f[1]);
        jnums(&mut o, s.as_bytes().iter());
        o.push(',');
        match r {
            Ok(Some(c)) => {
                o.push_str("\"k\":\"ok\",\"payload\":{");
                jres(&mut o, &c.payload);
                o.push_str("},\"value\":{");
                jres(&mut o, &c.value);
                o.push_str("},\"parsed\":{");
                jres(&mut o, &c.parsed);
                let _ = write!(o, "}},\"same\":{},\"eq\":{}}}", c.same, c.eq);
            }
            Ok(None) => o.push_str("\"k\":\"err\"}"),
            Err(_) => o.push_str("\"k\":\"panic\"}"),
        }
        out.put(&o);
    }
}

/// One operation of a history.
#[derive(Clone)]
struct Op {
    seq: usize,
    thread: usize,
    buf: usize, // 0: a fresh buffer; n > 0: buffer n of this thread, overwritten in place; n >= 100: in the middle of a larger one
    rep: u64,
    run: fn(&str, usize) -> Res,
    name: String,
    text: String,
}

const AROUND: [&str; 20] = [
    "a", "*/", "\"", ";", "}", " ", "\n", "/", "//", "_", "-", "0", "(", ")", ">", "?", ", b", "\u{e9}", "\0", "interface X {};",
];

/// Runs of equal consecutive outcomes of the repetitions: (count, outcome).
fn perform(op: &Op, bufs: &mut HashMap<usize, Vec<u8>>) -> Vec<(u64, Res)> {
    let mut segs: Vec<(u64, Res)> = vec![];
    for _ in 0..op.rep {
        let r = if op.buf == 0 {
            let s = op.text.clone();
            guarded(op.run, &s, 0)
        } else if op.buf >= 100 {
            // at some offset, with something before and behind that would matter to one who looked there
            let (off, suf) = ((op.buf - 100) % 20, AROUND[(op.buf - 100) / 20 % AROUND.len()]);
            let b = bufs.entry(99).or_insert_with(|| Vec::with_capacity(1 << 16));
            b.clear();
            b.extend(AROUND[off % AROUND.len()].bytes().map(|b| b & 127).cycle().take(off));
            b.extend_from_slice(op.text.as_bytes());
            b.extend_from_slice(suf.as_bytes());
            guarded(op.run, std::str::from_utf8(&b[off..off + op.text.len()]).unwrap(), 0)
        } else {
            let b = bufs.entry(op.buf).or_insert_with(|| Vec::with_capacity(1 << 16));
            b.clear();
            b.extend_from_slice(op.text.as_bytes());
            guarded(op.run, std::str::from_utf8(b).unwrap(), 0)
        };
        match segs.last_mut() {
            Some((c, q)) if *q == r => *c += 1,
            _ => segs.push((1, r)),
        }
        TICK.fetch_add(1, Ordering::Relaxed);
        if segs.len() > 8 {
            break;
        }
    }
    segs
}

fn session(input: &str, out: &mut Lines) {
    let t = by_name();
    let mut it = input.lines();
    let mode = it.next().unwrap(); // "serial", "env": one global order; "main": on the main thread; "parallel": all threads at once
    let mut ops: Vec<Op> = vec![];
    for (seq, line) in it.enumerate() {
        let f: Vec<&str> = line.split('\t').collect();
        ops.push(Op {
            seq,
            thread: f[0].parse().unwrap(),
            buf: f[1].parse().unwrap(),
            rep: f[2].parse().unwrap(),
            run: t[f[3]].run,
            name: f[3].to_string(),
            text: unhex(f[4]),
        });
    }
    let nthreads = ops.iter().map(|o| o.thread).max().unwrap_or(0) + 1;
    let stack = if nthreads > 32 { STACK / 64 } else { STACK / 4 };
    let results: Arc<Mutex<Vec<(usize, usize, Op, Vec<(u64, Res)>)>>> = Arc::new(Mutex::new(vec![]));
    // order of completion, taken right after each operation returned
    let clock = Arc::new(AtomicUsize::new(0));
    if mode == "main" {
        let mut bufs = HashMap::new();
        for op in ops {
            let r = perform(&op, &mut bufs);
            let q = clock.fetch_add(1, Ordering::SeqCst);
            results.lock().unwrap().push((q, op.seq, op, r));
        }
    } else if mode == "serial" || mode == "env" {
        let mut txs = vec![];
        let mut hs = vec![];
        let (dtx, drx) = mpsc::channel::<()>();
        for k in 0..nthreads {
            let (tx, rx) = mpsc::channel::<Op>();
            txs.push(tx);
            let (results, clock, dtx) = (results.clone(), clock.clone(), dtx.clone());
            hs.push(
                std::thread::Builder::new()
                    .name(["main", "worker", "test"][k % 3].to_string())
                    .stack_size(stack)
                    .spawn(move || {
                        let mut bufs = HashMap::new();
                        for op in rx {
                            let r = perform(&op, &mut bufs);
                            let q = clock.fetch_add(1, Ordering::SeqCst);
                            results.lock().unwrap().push((q, op.seq, op, r));
                            dtx.send(()).unwrap();
                        }
                    })
                    .unwrap(),
            );
        }
        for op in ops {
            txs[op.thread].send(op).unwrap();
            drx.recv().unwrap();
        }
        drop(txs);
        for h in hs {
            h.join().unwrap();
        }
    } else {
        let bar = Arc::new(Barrier::new(nthreads));
        let mut hs = vec![];
        for k in 0..nthreads {
            let mine: Vec<Op> = ops.iter().filter(|o| o.thread == k).cloned().collect();
            let (results, clock, bar) = (results.clone(), clock.clone(), bar.clone());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn(move || {
                        let mut bufs = HashMap::new();
                        bar.wait();
                        let mut local = vec![];
                        for op in mine {
                            let r = perform(&op, &mut bufs);
                            let q = clock.fetch_add(1, Ordering::SeqCst);
                            local.push((q, op.seq, op, r));
                        }
                        results.lock().unwrap().extend(local);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            h.join().unwrap();
        }
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|r| r.0);
    for (q, seq, op, segs) in rs {
        for (c, r) in segs {
            let mut o = String::new();
            let _ = write!(o, "{{\"q\":{},\"i\":{},\"t\":{},\"b\":{},\"c\":{},\"n\":", q, seq, op.thread, op.buf, c);
            jstr(&mut o, &op.name);
            o.push_str(",\"s\":");
            jnums(&mut o, op.text.as_bytes().iter());
            o.push(',');
            jres(&mut o, &r);
            o.push('}');
            out.put(&o);
        }
    }
}

/// The form head · body^(n-1) · tail of a sequence, learnt from the ones for 4 and 5 copies.
struct Form<T> {
    h: Vec<T>,
    r: Vec<T>,
    t: Vec<T>,
}
fn form<T: Clone + PartialEq>(x: &[T], y: &[T], z: &[T], n: usize) -> Option<Form<T>> {
    let b = y.len().checked_sub(x.len())?;
    let n = n - 1;
    let lcp = x.iter().zip(y).take_while(|(a, b)| a == b).count();
    let h = lcp.checked_sub(3 * b)?;
    let (head, body, tail) = (&y[..h], &y[h..h + b], &y[h + 4 * b..]);
    if z.len() != h + n * b + tail.len() || &z[..h] != head || &z[h + n * b..] != tail {
        return None;
    }
    if b > 0 && z[h..h + n * b].chunks(b).any(|c| c != body) {
        return None;
    }
    Some(Form { h: head.to_vec(), r: body.to_vec(), t: tail.to_vec() })
}
fn diffs(l: &[i64]) -> Vec<i64> {
    let mut last = 0;
    l.iter()
        .map(|&x| {
            let d = x - last;
            last = x;
            d
        })
        .collect()
}

/// Brackets are closed in the order they were opened, within the text.
fn balanced(parts: &[&str]) -> bool {
    let mut open = vec![];
    for c in parts.iter().flat_map(|p| p.chars()) {
        match c {
            '(' => open.push(')'),
            '<' => open.push('>'),
            '[' => open.push(']'),
            '{' => open.push('}'),
            ')' | '>' | ']' | '}' => {
                if open.pop() != Some(c) {
                    return false;
                }
            }
            _ => {}
        }
    }
    open.is_empty()
}

fn pumps(input: &str, skip: usize, out: &mut Lines) {
    let t = by_name();
    for line in input.lines().skip(skip) {
        let f: Vec<&str> = line.split('\t').collect();
        let (n, pre, item, sep, post) = (f[0], unhex(f[1]), unhex(f[2]), unhex(f[3]), unhex(f[4]));
        // copies side by side need no more stack than one of them
        let flat = balanced(&[&item, &sep]) && [&pre, &post].iter().all(|s| s.matches(&['(', '<', '[', '{'][..]).count() < 12);
        let call = |k: usize| {
            let mut s = String::with_capacity(pre.len() + post.len() + k * (item.len() + sep.len()));
            s.push_str(&pre);
            for i in 0..k {
                if i > 0 {
                    s.push_str(&sep);
                }
                s.push_str(&item);
            }
            s.push_str(&post);
            let r = if flat {
                std::thread::scope(|sc| {
                    let run = t[n].run;
                    let s = &s;
                    std::thread::Builder::new().stack_size(SMALL).spawn_scoped(sc, move || guarded(run, s, 0)).unwrap().join().unwrap()
                })
            } else {
                guarded(t[n].run, &s, 0)
            };
            TICK.fetch_add(1, Ordering::Relaxed);
            r
        };
        let (r4, r5) = (call(4), call(5));
        let mut o = String::from("{\"n\":");
        jstr(&mut o, n);
        for (k, v) in [("pre", &pre), ("item", &item), ("sep", &sep), ("post", &post)] {
            let _ = write!(o, ",\"{}\":", k);
            jnums(&mut o, v.as_bytes().iter());
        }
        o.push_str(",\"runs\":[");
        for (j, k) in f[5].split(',').enumerate() {
            let k: usize = k.parse().unwrap();
            let r = call(k);
            let a = form(&r4.a, &r5.a, &r.a, k);
            let l = if r4.l.len() == r5.l.len() {
                if r.l.len() == r4.l.len() { Some(Form { h: r.l.clone(), r: vec![], t: vec![] }) } else { None }
            } else {
                form(&diffs(&r4.l), &diffs(&r5.l), &diffs(&r.l), k)
            };
            if j > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"n\":{},\"p\":{},\"k\":\"", k, r.p);
            match (a, l) {
                (Some(a), Some(l)) => {
                    let _ = write!(o, "{}\",\"a\":{{\"h\":", r.k);
                    jstrs(&mut o, &a.h);
                    o.push_str(",\"r\":");
                    jstrs(&mut o, &a.r);
                    o.push_str(",\"t\":");
                    jstrs(&mut o, &a.t);
                    o.push_str("},\"l\":{\"h\":");
                    jnums(&mut o, l.h.iter());
                    o.push_str(",\"r\":");
                    jnums(&mut o, l.r.iter());
                    o.push_str(",\"t\":");
                    jnums(&mut o, l.t.iter());
                    o.push_str("}}");
                }
                _ => {
                    let _ = write!(o, "{}\",\"a\":{{}},\"l\":{{}}}}", if r.k == "panic" { "panic" } else { "irregular" });
                }
            }
        }
        o.push_str("]}");
        out.put(&o);
    }
}
