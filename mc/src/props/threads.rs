//! Two calls on two threads with a scheduling point at every control-flow edge of the code
//! under test and before every access to shared memory (the `sched` build).
//!
//! Every schedule runs in a process of its own, forked from one that has never run the code
//! under test, so lazily initialised state is cold in each.
use super::ops::{self, Op};
use crate::engine::R;
use crate::refs;
use crate::util::*;
use cryptography::BlockCipher;
use cryptography::aes::Aes;
use std::sync::Arc;

pub type Call = Box<dyn Fn() -> R + Send + Sync>;

/// An object used from two threads at once.
pub struct SharedObject {
    pub name: &'static str,
    pub uses: usize,
    /// the object's place in memory and its uses
    pub build: Box<dyn Fn() -> (usize, usize, Vec<(String, Call)>) + Send + Sync>,
}

/// Shares what may be shared; asked only about types that are `Sync`.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

macro_rules! is_sync {
    ($t:ty) => {{
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: Sync + Send> Probe<T> {
            const YES: bool = true;
        }
        <Probe<$t>>::YES
    }};
}

fn use_of<T: 'static>(o: &Arc<Force<T>>, name: &str, want: Vec<u8>, f: impl Fn(&T) -> Vec<u8> + Send + Sync + 'static) -> (String, Call) {
    let o = o.clone();
    let n = name.to_string();
    (
        name.to_string(),
        Box::new(move || {
            let got = crate::engine::observe(|| f(o.get())).map_err(|p| format!("{n} panicked: {p}"))?;
            crate::engine::eq_bytes(&got, &want, || n.clone())
        }),
    )
}

fn place<T>(o: &Arc<Force<T>>) -> (usize, usize) {
    (o.get() as *const T as usize, std::mem::size_of::<T>())
}

pub fn shared_objects() -> Vec<SharedObject> {
    use super::ops::big;
    use crate::refs::nat::Nat;
    use cryptography::big::BigUint;
    use cryptography::pem::PEM;
    use cryptography::rsa::{RsaEncryption, create_keys};
    use cryptography::{rc2, rc5};
    let mut v = vec![];
    if is_sync!(Aes) {
        for n in [16usize, 24, 32] {
            v.push(SharedObject {
                name: ["one AES-128 object", "one AES-192 object", "one AES-256 object"][n / 8 - 2],
                uses: 3,
                build: Box::new(move || {
                    let key = bytes(3, n);
                    let m = refs::aes::Aes::new(&key);
                    let o = Arc::new(Force(super::ops::make(&key, false)));
                    let (p, l) = place(&o);
                    let u = vec![
                        use_of(&o, "encrypt block 1", m.encrypt(arr(2)).to_vec(), |a: &Aes| a.encrypt(arr(2)).to_vec()),
                        use_of(&o, "decrypt block 1", m.decrypt(arr(2)).to_vec(), |a: &Aes| a.decrypt(arr(2)).to_vec()),
                        use_of(&o, "encrypt block 2", m.encrypt(arr(4)).to_vec(), |a: &Aes| a.encrypt(arr(4)).to_vec()),
                    ];
                    (p, l, u)
                }),
            });
        }
    }
    if is_sync!(rc2) {
        v.push(SharedObject {
            name: "one RC2 object",
            uses: 3,
            build: Box::new(|| {
                let key = bytes(3, 60);
                let m = refs::rc2::Rc2::new(&key, 480);
                let o = Arc::new(Force(rc2::from_key(&key, 480)));
                let (p, l) = place(&o);
                let u = vec![
                    use_of(&o, "encrypt block 1", m.encrypt(arr(2)).to_vec(), |a: &rc2| a.encrypt(arr(2)).to_vec()),
                    use_of(&o, "decrypt block 1", arr::<8>(2).to_vec(), {
                        let x = m.encrypt(arr(2));
                        move |a: &rc2| a.decrypt(x).to_vec()
                    }),
                    use_of(&o, "encrypt block 2", m.encrypt(arr(4)).to_vec(), |a: &rc2| a.encrypt(arr(4)).to_vec()),
                ];
                (p, l, u)
            }),
        });
    }
    if is_sync!(rc5) {
        v.push(SharedObject {
            name: "one RC5 object",
            uses: 3,
            build: Box::new(|| {
                let key = bytes(3, 20);
                let m = refs::rc45::Rc5::new(&key, 12);
                let o = Arc::new(Force(rc5::new(&key, 12)));
                let (p, l) = place(&o);
                let u = vec![
                    use_of(&o, "encrypt block 1", m.encrypt(arr(2)).to_vec(), |a: &rc5| a.encrypt(arr(2)).to_vec()),
                    use_of(&o, "decrypt block 1", arr::<8>(2).to_vec(), {
                        let x = m.encrypt(arr(2));
                        move |a: &rc5| a.decrypt(x).to_vec()
                    }),
                    use_of(&o, "encrypt block 2", m.encrypt(arr(4)).to_vec(), |a: &rc5| a.encrypt(arr(4)).to_vec()),
                ];
                (p, l, u)
            }),
        });
    }
    if is_sync!(RsaEncryption) {
        for private in [false, true] {
            v.push(SharedObject {
                name: ["one RSA public-key object", "one RSA private-key object"][private as usize],
                uses: 2,
                build: Box::new(move || {
                    let n = Nat::from_u128(3233);
                    let e = Nat::from_u128(if private { 413 } else { 17 });
                    // 413 = 17^-1 mod lcm(60, 52)
                    let (pr, pu) = create_keys(big(61), big(53), big(17));
                    let o = Arc::new(Force(if private { RsaEncryption::from(pr) } else { RsaEncryption::from(pu) }));
                    let (p, l) = place(&o);
                    let u = [65u128, 1234]
                        .into_iter()
                        .map(|m| {
                            let w = Nat::from_u128(m).powmod(&e, &n).to_be();
                            if private {
                                use_of(&o, &format!("decrypt {m}"), w, move |k: &RsaEncryption| k.decrypt(big(m)).to_be_bytes())
                            } else {
                                use_of(&o, &format!("encrypt {m}"), w, move |k: &RsaEncryption| k.encrypt(big(m)).to_be_bytes())
                            }
                        })
                        .collect();
                    (p, l, u)
                }),
            });
        }
    }
    if is_sync!(BigUint) {
        v.push(SharedObject {
            name: "one big integer as the right operand",
            uses: 4,
            build: Box::new(|| {
                let (a, b) = (bytes(3, 20), bytes(4, 9));
                let (na, nb) = (Nat::from_be(&a), Nat::from_be(&b));
                let o = Arc::new(Force(BigUint::from_be_bytes(&b)));
                let (p, l) = place(&o);
                let (a1, a2, a3) = (a.clone(), a.clone(), a);
                let u = vec![
                    use_of(&o, "+=", na.add(&nb).to_be(), move |k: &BigUint| {
                        let mut x = BigUint::from_be_bytes(&a1);
                        x += k;
                        x.to_be_bytes()
                    }),
                    use_of(&o, "-", na.sub(&nb).unwrap().to_be(), move |k: &BigUint| (BigUint::from_be_bytes(&a2) - k).to_be_bytes()),
                    use_of(&o, "%=", na.rem(&nb).unwrap().to_be(), move |k: &BigUint| {
                        let mut x = BigUint::from_be_bytes(&a3);
                        x %= k;
                        x.to_be_bytes()
                    }),
                    use_of(&o, "to_be_bytes, bits_used, is_set", [nb.to_be(), vec![71, 1]].concat(), move |k: &BigUint| {
                        let mut r = k.to_be_bytes();
                        r.push(k.bits_used() as u8);
                        r.push((0..71).any(|i| k.is_set(i)) as u8);
                        r
                    }),
                ];
                (p, l, u)
            }),
        });
    }
    if is_sync!(PEM) {
        v.push(SharedObject {
            name: "one PEM block",
            uses: 2,
            build: Box::new(|| {
                let d = bytes(3, 60);
                let want = super::keys::pem_text("A B", &d).trim_end().as_bytes().to_vec();
                let o = Arc::new(Force(PEM { label: "A B".into(), data: d }));
                let (p, l) = place(&o);
                let f = |x: &PEM| x.to_string().trim_end().as_bytes().to_vec();
                (p, l, vec![use_of(&o, "to_string", want.clone(), f), use_of(&o, "to_string again", want, f)])
            }),
        });
    }
    v
}

pub struct World {
    pub ops: Arc<Vec<Op>>,
    pub objects: Vec<SharedObject>,
}

pub fn world() -> World {
    World { ops: Arc::new(ops::catalogue()), objects: shared_objects() }
}

/// One schedule: after the `before` operations, A runs up to its point i, B up to its point j
/// (to its end, if 0), then A to its end and B to its end.
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct Request {
    /// 0: none; n: operation (or use of the object) n - 1 runs first, alone
    pub before: u64,
    /// operations a and b of the catalogue, or uses a and b of object `object - 1`
    pub object: u64,
    pub a: u64,
    pub b: u64,
    pub i: u64,
    pub j: u64,
    /// 0: every point counts; 1: only accesses to shared memory; + 2: the places of the points
    /// are reported
    pub mode: u64,
}

#[cfg(not(feature = "sched"))]
mod imp {
    use super::*;
    pub fn zygote() -> ! {
        panic!("not the sched build")
    }
    pub fn run(_: Request) -> Result<(u64, u64, bool), String> {
        Err("not the sched build".into())
    }
    pub fn places(_: Request) -> Result<(Vec<u32>, Vec<u32>), String> {
        Err("not the sched build".into())
    }
}

#[cfg(feature = "sched")]
mod imp {
    use super::*;
    use std::cell::RefCell;
    use std::io::{Read, Write};
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::{Condvar, Mutex, OnceLock};
    use std::time::{Duration, Instant};

    unsafe extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn alarm(s: u32) -> u32;
        fn gettid() -> i32;
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }

    #[derive(Clone, Copy, PartialEq)]
    enum B {
        Waiting,
        Running,
        Paused,
        Done,
    }
    struct St {
        b: B,
        resume: bool,
        tid: i32,
        /// set once B has stopped and A goes on
        a_tid: i32,
        result: R,
        measured: u64,
        places: Vec<u32>,
    }
    static ST: Mutex<St> = Mutex::new(St { b: B::Waiting, resume: false, tid: 0, a_tid: 0, result: Ok(()), measured: 0, places: vec![] });
    static CV: Condvar = Condvar::new();
    static CALL_B: OnceLock<Call> = OnceLock::new();
    static J: AtomicU64 = AtomicU64::new(0);
    static MODE: AtomicU64 = AtomicU64::new(0);

    fn asleep(tid: i32) -> bool {
        let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
        stat.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
    }

    /// B waits until A has ended or cannot go on without B (B may have stopped while holding
    /// a lock that A needs).
    fn pause_b() {
        let mut s = ST.lock().unwrap();
        s.b = B::Paused;
        CV.notify_all();
        let (mut naps, mut since) = (0, None);
        while !s.resume {
            s = CV.wait_timeout(s, Duration::from_micros(300)).unwrap().0;
            if s.a_tid != 0 {
                let t0 = *since.get_or_insert_with(Instant::now);
                naps = if asleep(s.a_tid) { naps + 1 } else { 0 };
                if naps >= 3 || t0.elapsed() > Duration::from_millis(500) {
                    break;
                }
            }
        }
        s.b = B::Running;
    }

    fn arm(at: u64, mode: u64, hook: fn()) {
        if mode & 2 != 0 {
            rt::note_places();
        }
        rt::arm(at, mode & 1 == 1, Some(hook));
    }

    fn start_b() {
        ST.lock().unwrap().b = B::Running;
        std::thread::spawn(|| {
            ST.lock().unwrap().tid = unsafe { gettid() };
            let call = CALL_B.get().unwrap();
            arm(J.load(Ordering::SeqCst), MODE.load(Ordering::SeqCst), pause_b);
            let r = call();
            let points = rt::disarm();
            let mut s = ST.lock().unwrap();
            s.places = rt::places();
            s.result = r;
            s.measured = points;
            s.b = B::Done;
            CV.notify_all();
        });
    }

    /// A waits until B has paused, ended, or cannot go on without A.
    fn let_b_run() {
        let t0 = Instant::now();
        let mut naps = 0;
        let mut s = ST.lock().unwrap();
        while s.b != B::Paused && s.b != B::Done {
            let (n, timeout) = CV.wait_timeout(s, Duration::from_micros(500)).unwrap();
            s = n;
            if timeout.timed_out() && s.tid != 0 && s.b == B::Running {
                naps = if asleep(s.tid) { naps + 1 } else { 0 };
                if naps >= 2 || t0.elapsed() > Duration::from_millis(500) {
                    break;
                }
            }
        }
        s.a_tid = unsafe { gettid() };
    }

    fn preempt_a() {
        start_b();
        let_b_run();
    }

    fn child(w: &World, q: Request, out: *mut u8) -> ! {
        unsafe { alarm(60) };
        let mut bad: Vec<String> = vec![];
        if q.before > 0 && q.object == 0 {
            if let Err(e) = w.ops[q.before as usize - 1].check() {
                bad.push(format!("{e} (alone)"));
            }
        }
        let (a, b): (Call, Call) = if q.object == 0 {
            let op = |i: u64| -> Call {
                let ops = w.ops.clone();
                Box::new(move || ops[i as usize].check())
            };
            (op(q.a), op(q.b))
        } else {
            let (p, l, uses) = (w.objects[q.object as usize - 1].build)();
            rt::watch(p, l);
            let uses: Vec<Arc<Call>> = uses.into_iter().map(|(_, c)| Arc::new(c)).collect();
            let one = |i: u64| -> Call {
                let c = uses[i as usize].clone();
                Box::new(move || c())
            };
            if q.before > 0 {
                if let Err(e) = one(q.before - 1)() {
                    bad.push(format!("{e} (alone)"));
                }
            }
            (one(q.a), one(q.b))
        };
        let _ = CALL_B.set(b);
        J.store(q.j, Ordering::SeqCst);
        MODE.store(q.mode, Ordering::SeqCst);
        arm(q.i, q.mode, preempt_a);
        let ra = a();
        let points = rt::disarm();
        let pa = rt::places();
        let reached;
        let rb;
        let mb;
        let pb;
        {
            let mut s = ST.lock().unwrap();
            reached = s.b != B::Waiting;
            if !reached {
                drop(s);
                start_b();
                s = ST.lock().unwrap();
            }
            s.resume = true;
            CV.notify_all();
            while s.b != B::Done {
                s = CV.wait(s).unwrap();
            }
            rb = s.result.clone();
            mb = s.measured;
            pb = std::mem::take(&mut s.places);
        }
        if let Err(e) = ra {
            bad.push(format!("thread A: {e}"));
        }
        if let Err(e) = rb {
            bad.push(format!("thread B: {e}"));
        }
        let msg = bad.join("; ");
        let m = &msg.as_bytes()[..msg.len().min(4000)];
        unsafe {
            let head = out as *mut u64;
            head.add(1).write(points);
            head.add(2).write(mb);
            head.add(3).write(reached as u64);
            head.add(4).write(m.len() as u64);
            std::ptr::copy_nonoverlapping(m.as_ptr(), out.add(64), m.len());
            head.add(5).write(pa.len() as u64);
            head.add(6).write(pb.len() as u64);
            let places = out.add(8192) as *mut u32;
            std::ptr::copy_nonoverlapping(pa.as_ptr(), places, pa.len());
            std::ptr::copy_nonoverlapping(pb.as_ptr(), places.add(pa.len()), pb.len());
            head.write(1);
            _exit(0)
        }
    }

    /// Serves requests: a line of output per request, each run in a forked process.
    pub fn zygote() -> ! {
        crate::engine::install_panic_hook();
        let w = world();
        let out = unsafe { mmap(std::ptr::null_mut(), 4 << 20, 3, 0x21, -1, 0) };
        assert!(out as isize != -1);
        let mut stdin = std::io::stdin().lock();
        let mut stdout = std::io::stdout().lock();
        loop {
            let mut buf = [0u8; 56];
            if stdin.read_exact(&mut buf).is_err() {
                std::process::exit(0);
            }
            let f = |k: usize| u64::from_le_bytes(buf[8 * k..8 * k + 8].try_into().unwrap());
            let q = Request { before: f(0), object: f(1), a: f(2), b: f(3), i: f(4), j: f(5), mode: f(6) };
            unsafe {
                (out as *mut u64).write(0);
                let pid = fork();
                assert!(pid >= 0, "fork failed");
                if pid == 0 {
                    child(&w, q, out);
                }
                let mut status = 0;
                assert!(waitpid(pid, &mut status, 0) == pid);
                let head = out as *const u64;
                let mut rep: Vec<u8> = vec![];
                if head.read() == 1 && status == 0 {
                    for k in 1..4 {
                        rep.extend(head.add(k).read().to_le_bytes());
                    }
                    let n = head.add(4).read() as usize;
                    rep.extend((n as u64).to_le_bytes());
                    rep.extend(std::slice::from_raw_parts(out.add(64), n));
                    if q.mode & 2 != 0 && n == 0 {
                        let (x, y) = (head.add(5).read(), head.add(6).read());
                        rep.extend(x.to_le_bytes());
                        rep.extend(y.to_le_bytes());
                        rep.extend(std::slice::from_raw_parts(out.add(8192), 4 * (x + y) as usize));
                    }
                } else {
                    let sig = status & 127;
                    let m = if sig == 14 { "the two calls did not end within 60 s".to_string() } else { format!("the process ended with status {status} (signal {sig})") };
                    rep.extend([0; 24]);
                    rep.extend((m.len() as u64).to_le_bytes());
                    rep.extend(m.as_bytes());
                }
                stdout.write_all(&rep).expect("reply");
                stdout.flush().expect("reply");
            }
        }
    }

    struct Helper {
        child: Child,
        tx: Option<ChildStdin>,
        rx: ChildStdout,
    }
    impl Drop for Helper {
        fn drop(&mut self) {
            self.tx.take();
            let _ = self.child.wait();
        }
    }
    thread_local! {
        static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) };
    }

    fn ask<T>(q: Request, more: impl FnOnce(&mut ChildStdout, (u64, u64, bool)) -> T) -> Result<T, String> {
        HELPER.with(|h| {
            let mut h = h.borrow_mut();
            let h = h.get_or_insert_with(|| {
                let mut child = Command::new(std::env::current_exe().expect("exe"))
                    .arg("zygote")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .expect("helper");
                Helper { tx: child.stdin.take(), rx: child.stdout.take().unwrap(), child }
            });
            let mut buf = vec![];
            for x in [q.before, q.object, q.a, q.b, q.i, q.j, q.mode] {
                buf.extend(x.to_le_bytes());
            }
            h.tx.as_mut().unwrap().write_all(&buf).expect("request");
            let mut rep = [0u8; 32];
            h.rx.read_exact(&mut rep).expect("reply");
            let f = |k: usize| u64::from_le_bytes(rep[8 * k..8 * k + 8].try_into().unwrap());
            let mut msg = vec![0; f(3) as usize];
            h.rx.read_exact(&mut msg).expect("reply");
            if !msg.is_empty() {
                return Err(String::from_utf8_lossy(&msg).into_owned());
            }
            Ok(more(&mut h.rx, (f(0), f(1), f(2) == 1)))
        })
    }

    /// (points of A, points of B, whether A was stopped), or what went wrong
    pub fn run(q: Request) -> Result<(u64, u64, bool), String> {
        ask(q, |_, r| r)
    }

    /// the places in the code of the points of A and of B
    pub fn places(q: Request) -> Result<(Vec<u32>, Vec<u32>), String> {
        ask(Request { mode: q.mode | 2, ..q }, |rx, _| {
            let mut n = [0u8; 16];
            rx.read_exact(&mut n).expect("reply");
            let f = |k: usize| u64::from_le_bytes(n[8 * k..8 * k + 8].try_into().unwrap()) as usize;
            let mut b = vec![0; 4 * (f(0) + f(1))];
            rx.read_exact(&mut b).expect("reply");
            let mut a: Vec<u32> = b.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
            let b = a.split_off(f(0));
            (a, b)
        })
    }
}

pub use imp::{places, run, zygote};

/// The points of a call, each with its distance (1 for the first or last) from the first or
/// last point at the same place in the code.
pub struct Points(Vec<u32>);

impl Points {
    fn new(places: &[u32]) -> Points {
        let n = places.len();
        let mut d = vec![u32::MAX; n];
        for back in [false, true] {
            let mut seen: std::collections::HashMap<u32, u32> = Default::default();
            for x in 0..n {
                let i = if back { n - 1 - x } else { x };
                let c = seen.entry(places[i]).or_default();
                *c += 1;
                d[i] = d[i].min(*c);
            }
        }
        Points(d)
    }
    /// The first and last `k` points at every place, and the first and last `ends` of all.
    fn some(&self, k: u32, ends: usize) -> impl Iterator<Item = u64> + '_ {
        let n = self.0.len();
        self.0.iter().enumerate().filter(move |&(i, &d)| d <= k || i < ends || n - 1 - i < ends).map(|(i, _)| i as u64 + 1)
    }
}

/// The points of A and of B in the undisturbed execution (A, then B), and of B when it runs in
/// A's place.
pub struct Trace {
    a: Arc<Points>,
    b: Option<(Arc<Points>, Arc<Points>)>,
}

impl Trace {
    pub fn of(q: Request, both: bool) -> Result<Trace, String> {
        let a = noted(Request { b: q.a, ..q })?.0;
        let b = if both { Some((noted(q)?.1, noted(Request { a: q.b, ..q })?.0)) } else { None };
        Ok(Trace { a, b })
    }
    pub fn points_a(&self, k: u32, ends: usize) -> Vec<u64> {
        let mut v: Vec<u64> = self.a.some(k, ends).collect();
        if v.is_empty() {
            v.push(1);
        }
        v
    }
    pub fn points_b(&self, k: u32, ends: usize) -> Vec<u64> {
        let Some((warm, cold)) = &self.b else { return vec![0] };
        let mut v: Vec<u64> = warm.some(k, ends).chain(cold.some(k, ends)).collect();
        v.sort();
        v.dedup();
        if v.is_empty() {
            v.push(1);
        }
        v
    }
    fn longest(&self) -> usize {
        self.a.0.len().max(self.b.as_ref().map_or(0, |b| b.0.0.len().max(b.1.0.len())))
    }
}

type Noted = (Arc<Points>, Arc<Points>);
fn noted(q: Request) -> Result<Noted, String> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    type Key = (u64, u64, u64, u64, u64);
    static SEEN: Mutex<Option<HashMap<Key, Noted>>> = Mutex::new(None);
    let k = (q.object, q.a, q.b, q.before, q.mode);
    if let Some(m) = SEEN.lock().unwrap().get_or_insert_default().get(&k) {
        return Ok(m.clone());
    }
    let (x, y) = places(Request { i: 0, j: 0, ..q })?;
    let r = (Arc::new(Points::new(&x)), Arc::new(Points::new(&y)));
    SEEN.lock().unwrap().get_or_insert_default().insert(k, r.clone());
    Ok(r)
}

/// Schedules within a budget: pairs of calls and the points at which they are stopped.
pub struct Plan {
    pub pairs: Vec<(Request, Vec<u64>, Vec<u64>)>,
    /// pairs with every point, and with fewer but some at every place
    pub whole: usize,
    pub places: usize,
    pub schedules: usize,
    pub left_out: usize,
}

/// A schedule costs 1, and 1 more for every 3000 points the longer call has. Every pair gets as
/// many points as an equal share of the budget allows (what short ones do not need goes to the
/// others); if one point per place is too much, the most expensive pairs are left out.
pub fn plan(pairs: impl Iterator<Item = Request>, both: bool, most: usize, ends: usize, budget: usize) -> Result<Plan, String> {
    let levels = [(u32::MAX, 0), (64, ends), (32, ends), (16, ends), (8, ends), (6, ends), (4, ends), (3, ends), (2, ends / 2), (1, ends / 4), (1, 2), (1, 0), (0, 100), (0, 20)];
    let mut traces = vec![];
    for q in pairs {
        let t = Trace::of(q, both)?;
        if t.longest() <= most {
            let each = 1 + t.longest() / 3000;
            let costs: Vec<usize> = levels.iter().map(|&(k, e)| t.points_a(k, e).len() * t.points_b(k, e).len() * each).collect();
            traces.push((q, t, costs));
        }
    }
    let min = |c: &[usize]| *c.iter().min().unwrap();
    let mut least: usize = traces.iter().map(|(_, _, c)| min(c)).sum();
    let mut left_out = 0;
    if least > budget {
        traces.sort_by_key(|(_, _, c)| min(c));
        while let Some((_, _, c)) = traces.pop_if(|_| least > budget) {
            least -= min(&c);
            left_out += 1;
        }
    }
    let level = |costs: &[usize], share: usize| costs.iter().position(|&c| c <= share.max(min(costs))).unwrap();
    let total = |share: usize| -> usize { traces.iter().map(|(_, _, c)| c[level(c, share)]).sum() };
    // the largest share within the budget
    let mut shares: Vec<usize> = traces.iter().flat_map(|(_, _, c)| c.iter().copied()).collect();
    shares.sort();
    shares.dedup();
    let n = shares.partition_point(|&s| total(s) <= budget);
    let share = if n == 0 { 0 } else { shares[n - 1] };
    let mut p = Plan { pairs: vec![], whole: 0, places: 0, schedules: 0, left_out };
    for (q, t, costs) in &traces {
        let l = level(costs, share);
        let (k, e) = levels[l];
        let a = t.points_a(k, e);
        let b = t.points_b(k, e);
        p.schedules += a.len() * b.len();
        p.whole += (l == 0) as usize;
        p.places += (l != 0 && k > 0) as usize;
        p.pairs.push((*q, a, b));
    }
    Ok(p)
}

pub fn print_points() {
    let w = world();
    let show = |o: u64, a: u64, n: &str, f: &str| {
        let q = Request { object: o, a, b: a, ..Default::default() };
        let count = |q| Trace::of(q, true).map(|t| (t.a.0.len(), t.points_b(u32::MAX, 0).len(), t.points_a(1, 0).len(), t.points_a(4, 0).len()));
        println!("{o} {a:3} {f:8} {n:50} {:?} {:?}", count(q), count(Request { mode: 1, ..q }));
    };
    for (a, op) in w.ops.iter().enumerate() {
        show(0, a as u64, &op.name, op.family);
    }
    for (k, o) in w.objects.iter().enumerate() {
        for u in 0..o.uses {
            show(k as u64 + 1, u as u64, o.name, "");
        }
    }
}
