//! Runs a harness natively on a recorded tape. Each run happens in a forked child.
//! usage: replayer --serve LIB FUNC            (requests on stdin: case;params;tape)
//!        replayer LIB FUNC CASE PARAMS TAPE   (one run, human readable)
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;

extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn pipe(f: *mut c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(a: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
}

#[derive(Default)]
struct T {
    seq: Vec<u64>,
    pos: usize,
    rng: HashMap<([u64; 4], u64), u64>,
    case: u64,
    params: Vec<u64>,
    obs: Vec<u64>,
    covers: Vec<String>,
    verbose: bool,
    short: bool,
}
thread_local! {
    static TP: RefCell<T> = RefCell::new(T::default());
    static OUT: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

fn next() -> u64 {
    TP.with(|t| {
        let mut t = t.borrow_mut();
        let p = t.pos;
        t.pos += 1;
        match t.seq.get(p) {
            Some(x) => *x,
            None => {
                t.short = true;
                0
            }
        }
    })
}
fn finish(status: &str, msg: &str) -> ! {
    TP.with(|t| {
        let t = t.borrow();
        let obs: Vec<String> = t.obs.iter().map(|x| x.to_string()).collect();
        let line = format!("{status}\t{}\t{}\t{}\n", msg.replace(['\n', '\t'], " "), obs.join(" "), t.covers.join("|"));
        OUT.with(|o| {
            if let Some(f) = o.borrow_mut().as_mut() {
                let _ = f.write_all(line.as_bytes());
            }
        });
    });
    unsafe { _exit(0) }
}
unsafe fn txt(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn say(s: String) {
    if TP.with(|t| t.borrow().verbose) {
        println!("{s}");
    }
}

#[no_mangle]
pub extern "C" fn es_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn es_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn es_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn es_u64() -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn es_bool() -> bool {
    next() & 1 == 1
}
#[no_mangle]
pub extern "C" fn es_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        finish("assume", "range");
    }
    v
}
#[no_mangle]
pub extern "C" fn es_int(lo: u32, hi: u32) -> u32 {
    let v = next();
    if v < lo as u64 || v > hi as u64 {
        finish("assume", "range");
    }
    v as u32
}
#[no_mangle]
pub extern "C" fn es_int64(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        finish("assume", "range");
    }
    v
}
#[no_mangle]
pub extern "C" fn es_real(lo: f64, hi: f64) -> f64 {
    let v = f64::from_bits(next());
    if v < lo {
        return lo;
    }
    if v > hi {
        return hi;
    }
    v
}
#[no_mangle]
pub extern "C" fn es_assume(c: bool) {
    if !c {
        finish("assume", "");
    }
}
#[no_mangle]
pub unsafe extern "C" fn es_bound(c: bool, p: *const u8, n: usize) {
    if !c {
        finish("bound", &txt(p, n));
    }
}
#[no_mangle]
pub unsafe extern "C" fn es_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = txt(p, n);
        say(format!("FAILED: {m}"));
        finish("fail", &m);
    }
}
#[no_mangle]
pub unsafe extern "C" fn es_close(a: f64, b: f64, tol: f64, p: *const u8, n: usize) {
    let ok = if a.is_nan() || b.is_nan() {
        a.is_nan() && b.is_nan()
    } else if a.is_infinite() || b.is_infinite() {
        a == b
    } else {
        (a - b).abs() <= tol
    };
    if !ok {
        let m = format!("{}: got {a:?}, want {b:?}", txt(p, n));
        say(format!("FAILED: {m}"));
        finish("fail", &m);
    }
}
#[no_mangle]
pub extern "C" fn es_observe(v: u64) {
    say(format!("observed {v}"));
    TP.with(|t| t.borrow_mut().obs.push(v));
}
#[no_mangle]
pub extern "C" fn es_observe_f(v: f64) {
    say(format!("observed {v:?}"));
    TP.with(|t| t.borrow_mut().obs.push(v.to_bits()));
}
#[no_mangle]
pub extern "C" fn es_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn es_cover(p: *const u8, n: usize) {
    let m = txt(p, n);
    TP.with(|t| t.borrow_mut().covers.push(m));
}
#[no_mangle]
pub extern "C" fn es_exact_roots() {}
#[no_mangle]
pub extern "C" fn es_stub() -> bool {
    false
}
#[no_mangle]
pub extern "C" fn es_case() -> u64 {
    TP.with(|t| t.borrow().case)
}
#[no_mangle]
pub extern "C" fn es_param(i: u64) -> u64 {
    TP.with(|t| t.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn es_entropy() -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn es_rng(a: u64, b: u64, c: u64, d: u64, idx: u64) -> u64 {
    TP.with(|t| {
        t.borrow().rng.get(&([a, b, c, d], idx)).copied().unwrap_or_else(|| {
            // beyond the recorded draws: a fixed mixing function of the seed and the position
            let mut z = a ^ b.rotate_left(17) ^ c.rotate_left(31) ^ d.rotate_left(47) ^ idx.wrapping_mul(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        })
    })
}
#[no_mangle]
pub extern "C" fn es_uf(_id: u32, _a: f64, _b: f64, _c: f64, _lo: f64, _hi: f64) -> f64 {
    f64::NAN
}
#[no_mangle]
pub extern "C" fn es_hold(_x: f64) -> u64 {
    0
}
#[no_mangle]
pub extern "C" fn es_held(_id: u64) -> f64 {
    f64::NAN
}
#[no_mangle]
pub unsafe extern "C" fn es_note(p: *const u8, n: usize) {
    let m = txt(p, n);
    say(m);
}

fn parse_tape(case: u64, params: &str, tape: &str) -> T {
    let mut t = T { case, ..Default::default() };
    t.params = params.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    for w in tape.split_whitespace() {
        if let Some(x) = w.strip_prefix('i') {
            t.seq.push(x.parse().unwrap());
        } else if let Some(x) = w.strip_prefix('r') {
            let (k, v) = x.split_once('=').unwrap();
            let k: Vec<u64> = k.split(',').map(|x| x.parse().unwrap()).collect();
            t.rng.insert(([k[0], k[1], k[2], k[3]], k[4]), v.parse().unwrap());
        }
    }
    t
}

unsafe fn run(f: unsafe extern "C" fn(), t: T) -> String {
    let mut p = [0 as c_int; 2];
    pipe(p.as_mut_ptr());
    let mut ep = [0 as c_int; 2];
    pipe(ep.as_mut_ptr());
    let pid = fork();
    if pid == 0 {
        close(p[0]);
        close(ep[0]);
        dup2(ep[1], 2);
        alarm(20);
        OUT.with(|o| *o.borrow_mut() = Some(std::fs::File::from_raw_fd(p[1])));
        TP.with(|x| *x.borrow_mut() = t);
        f();
        let short = TP.with(|x| x.borrow().short);
        finish(if short { "short" } else { "ok" }, "");
    }
    close(p[1]);
    close(ep[1]);
    let mut s = String::new();
    let _ = std::fs::File::from_raw_fd(p[0]).read_to_string(&mut s);
    let mut e = Vec::new();
    let _ = std::fs::File::from_raw_fd(ep[0]).read_to_end(&mut e);
    let mut st = 0;
    waitpid(pid, &mut st, 0);
    if s.is_empty() {
        let e = String::from_utf8_lossy(&e);
        let first: Vec<&str> = e.lines().filter(|l| !l.starts_with("note:") && !l.trim().is_empty()).take(3).collect();
        let sig = st & 0x7f;
        let kind = if sig == 14 { "timeout" } else { "panic" };
        s = format!("{kind}\tsignal {sig}: {}\t\t\n", first.join(" ").replace('\t', " "));
    }
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let serve = a[1] == "--serve";
    let o = if serve { 2 } else { 1 };
    unsafe {
        let l = CString::new(a[o].as_str()).unwrap();
        let h = dlopen(l.as_ptr(), 2);
        if h.is_null() {
            eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
            std::process::exit(3);
        }
        let n = CString::new(a[o + 1].as_str()).unwrap();
        let p = dlsym(h, n.as_ptr());
        if p.is_null() {
            eprintln!("no symbol {}", a[o + 1]);
            std::process::exit(3);
        }
        let f: unsafe extern "C" fn() = std::mem::transmute(p);
        if serve {
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                let mut it = line.splitn(3, ';');
                let case = it.next().unwrap().parse().unwrap();
                let params = it.next().unwrap_or("").to_string();
                let tape = it.next().unwrap_or("");
                let s = run(f, parse_tape(case, &params, tape));
                print!("{s}");
                let _ = std::io::stdout().flush();
            }
        } else {
            let mut t = parse_tape(a[o + 2].parse().unwrap(), &a[o + 3], &a[o + 4]);
            t.verbose = true;
            let s = run(f, t);
            print!("{s}");
            let st = s.split('\t').next().unwrap_or("");
            std::process::exit(if st == "fail" || st == "panic" { 1 } else { 0 });
        }
    }
}
