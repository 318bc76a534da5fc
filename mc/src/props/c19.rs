//! No operation influences another.
use super::ops::{self, HOSTS, Op, host};
use crate::engine::*;
use crate::refs;
use crate::util::*;
use cryptography::aes::Aes;
use cryptography::{BlockCipher, StreamCipher, rc2, rc4, rc5};
use std::sync::Arc;

fn in_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

fn sequence(c: &mut Ctx, ops: &[&Op], reps: &[usize]) -> R {
    for (i, (op, r)) in ops.iter().zip(reps).enumerate() {
        for k in 0..*r {
            c.calls += 1;
            op.check().map_err(|e| {
                let names: Vec<&str> = ops[..=i].iter().map(|o| o.name.as_str()).collect();
                format!("{e}; call {k} of step {i} of the sequence {names:?}")
            })?;
        }
    }
    c.outcome(&ops.last().map(|o| &o.name));
    c.sample(|| format!("{:?}", ops.iter().map(|o| &o.name).collect::<Vec<_>>()));
    Ok(())
}

fn repeated(c: &mut Ctx, ops: &[Op], few: &[usize], i: usize, r: usize, slow: usize) -> R {
    let a = &ops[i];
    let mut seq = vec![a];
    let mut reps = vec![if ["rsa", "import", "message"].contains(&a.family) { slow } else { r }];
    for (j, b) in ops.iter().enumerate() {
        if b.family == a.family || few.contains(&j) {
            seq.push(b);
            reps.push(1);
        }
    }
    sequence(c, &seq, &reps)
}

/// live objects that keep state of their own
struct Objects {
    streams: Vec<rc4>,
    cipher: StreamCipher<std::vec::IntoIter<u8>>,
    counts: Vec<usize>,
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let ops: Arc<Vec<Op>> = Arc::new(ops::catalogue());
    let n = ops.len();
    // one or two of each family, for the deeper searches
    let mut few: Vec<usize> = vec![];
    for i in 0..n {
        if few.iter().filter(|&&j| ops[j].family == ops[i].family).count() < t.pick(1, 2) {
            few.push(i);
        }
    }
    let nf = few.len();
    let mut v = vec![
        scenario("pairs", format!("every sequence of two of {n} operations (look-alike arguments, failing ones included), followed by the first again"), {
            let ops = ops.clone();
            move |c| {
                let a = &ops[c.choose(n)];
                let b = &ops[c.choose(n)];
                sequence(c, &[a, b, a], &[1, 1, 1])
            }
        }),
        scenario("triples-in-family", "every sequence of three operations of one family (same cipher, hash or format), all families", {
            let ops = ops.clone();
            move |c| {
                let a = &ops[c.choose(n)];
                let fam: Vec<&Op> = ops.iter().filter(|o| o.family == a.family).collect();
                let b = *c.pick(&fam);
                let d = *c.pick(&fam);
                sequence(c, &[a, b, d], &[1, 1, 1])
            }
        }),
        scenario("triples", format!("every sequence of three of {} operations", t.pick(nf, n)), {
            let ops = ops.clone();
            let pool: Vec<usize> = t.pick(few.clone(), (0..n).collect());
            move |c| {
                let a = &ops[*c.pick(&pool)];
                let b = &ops[*c.pick(&pool)];
                let d = &ops[*c.pick(&pool)];
                sequence(c, &[a, b, d], &[1, 1, 1])
            }
        }),
        scenario("long-histories", format!("every operation repeated {} times ({} for RSA, its messages and key import), then every other operation of its family and one of each other family", t.pick(11_000, 140_000), t.pick(300, 3000)), {
            let ops = ops.clone();
            let few = few.clone();
            let (r, rs) = t.pick((11_000, 300), (140_000, 3000));
            move |c| {
                let i = c.choose(n);
                repeated(c, &ops, &few, i, r, rs)
            }
        })
        .limit(600),
        scenario("very-long-histories", format!("one operation of each family repeated {} times ({} for RSA, its messages and key import), then the others of its family and one of each other family", t.pick(70_000, 1_100_000), t.pick(3000, 70_000)), {
            let ops = ops.clone();
            let few = few.clone();
            let (r, rs) = t.pick((70_000, 3000), (1_100_000, 70_000));
            move |c| {
                let i = *c.pick(&few);
                repeated(c, &ops, &few, i, r, rs)
            }
        })
        .limit(600),
        scenario("object-long-histories", format!("each shared object (AES, RC2, RC5, RSA keys, big integers, PEM), each use repeated {} times, then every use once", t.pick(70_000, 1_100_000)), {
            let objects = Arc::new(super::threads::shared_objects());
            let r = t.pick(70_000, 1_100_000);
            move |c| {
                let o = &objects[c.choose(objects.len())];
                let a = c.choose(o.uses);
                let (_, _, uses) = (o.build)();
                for k in 0..r {
                    c.calls += 1;
                    uses[a].1().map_err(|e| format!("{}: {e}; call {k}", o.name))?;
                }
                for u in &uses {
                    c.calls += 1;
                    u.1().map_err(|e| format!("{}: {e}; after {r} times {}", o.name, uses[a].0))?;
                }
                c.outcome(&(o.name, a));
                Ok(())
            }
        })
        .limit(600),
        scenario("object-histories", format!("every sequence of {} uses of 7 live objects (two RC4 streams of one key, one of another, a stream cipher, AES, RC2 and RC5 objects): each answers from its own history", t.pick(5, 7)), {
            let depth = t.pick(5, 7);
            move |c| {
                let (k1, k2) = (bytes(3, 5), bytes(4, 5));
                let mut o = Objects {
                    streams: vec![rc4::new(&k1), rc4::new(&k1), rc4::new(&k2)],
                    cipher: StreamCipher::new(bytes(2, 64)),
                    counts: vec![0; 4],
                };
                let aes = Aes::with_128_bit_key(arr(3));
                let r2 = rc2::from_key(&k1, 64);
                let r5 = rc5::new(&k1, 12);
                let maes = refs::aes::Aes::new(&arr::<16>(3)).encrypt(arr(2));
                let mr2 = refs::rc2::Rc2::new(&k1, 64).encrypt(arr(2));
                let mr5 = refs::rc45::Rc5::new(&k1, 12).encrypt(arr(2));
                let want = [refs::rc45::rc4_stream(&k1, 40), refs::rc45::rc4_stream(&k2, 40)];
                let mut hist = vec![];
                for _ in 0..depth {
                    let x = c.choose(7);
                    hist.push(x);
                    let what = || format!("uses of objects {hist:?}");
                    match x {
                        0..=2 => {
                            let g = c.must(what, || o.streams[x].next())?;
                            eq(&g, &Some(want[x / 2][o.counts[x]]), || format!("{}: keystream byte", what()))?;
                            o.counts[x] += 1;
                        }
                        3 => {
                            let g: Vec<u8> = c.must(what, || o.cipher.encrypt([7, 7]).collect())?;
                            let k = o.counts[3];
                            eq(&g, &vec![byte(2, k) ^ 7, byte(2, k + 1) ^ 7], || format!("{}: stream cipher", what()))?;
                            o.counts[3] += 2;
                        }
                        4 => {
                            let g = c.must(what, || aes.encrypt(arr(2)))?;
                            eq_bytes(&g, &maes, || format!("{}: AES", what()))?;
                        }
                        5 => {
                            let g = c.must(what, || r2.encrypt(arr(2)))?;
                            eq_bytes(&g, &mr2, || format!("{}: RC2", what()))?;
                        }
                        _ => {
                            let g = c.must(what, || r5.encrypt(arr(2)))?;
                            eq_bytes(&g, &mr5, || format!("{}: RC5", what()))?;
                        }
                    }
                }
                c.outcome(&hist);
                Ok(())
            }
        }),
        scenario("inside-callbacks", format!("each of {} callback places, every callback index up to {}, each of {n} operations run there, on the same or another thread: both results right", HOSTS.len(), t.pick(3, 140)), {
            let ops = ops.clone();
            let m = t.pick(3, 140);
            move |c| {
                let h = c.choose(HOSTS.len());
                let at = c.choose(m);
                let b = &ops[c.choose(n)];
                let other = c.flag();
                // with few indices explored, spread them over the blocks
                let at = if m == 3 { [0, 1, 17][at] } else { at };
                run_inside(c, h, at, &|_| b.check(), &b.name, other)
            }
        }),
        scenario("hosts-inside-hosts", format!("each callback place inside each callback place, indices 0, 1, 17 of both, {}", t.pick("one more operation of each family innermost", "every operation innermost")), {
            let ops = ops.clone();
            let pool: Vec<usize> = t.pick(few.clone(), (0..n).collect());
            move |c| {
                let h = c.choose(HOSTS.len());
                let h2 = c.choose(HOSTS.len());
                let (i, j) = (*c.pick(&[0usize, 1, 17]), *c.pick(&[0usize, 1, 17]));
                let b = &ops[*c.pick(&pool)];
                let other = c.flag();
                run_inside(
                    c,
                    h,
                    i,
                    &|_| inside(h2, j, &|_| b.check(), &b.name, false).map(|_| ()),
                    &format!("{} (callback {j}) with {} in it", HOSTS[h2], b.name),
                    other,
                )
            }
        }),
        scenario("panicking-callbacks", format!("each callback place, the callback panics at every index up to {}, then each of {n} operations and the host again", t.pick(3, 100)), {
            let ops = ops.clone();
            let m = t.pick(3, 100);
            move |c| {
                let h = c.choose(HOSTS.len());
                let at = c.choose(m);
                let at = if m == 3 { [0, 1, 17][at] } else { at };
                let b = &ops[c.choose(n)];
                c.calls += 3;
                let seen = std::cell::Cell::new(false);
                let r = observe(|| {
                    host(h, &|i| {
                        if i == at {
                            seen.set(true);
                            panic!("callback refuses");
                        }
                    })
                });
                if seen.get() && r.is_ok() {
                    return Err(format!("{}: the callback's panic disappeared", HOSTS[h]));
                }
                let then = |e: String| format!("{e}; after {} panicked at callback {at}", HOSTS[h]);
                b.check().map_err(then)?;
                let (got, want) = observe(|| host(h, &|_| ())).map_err(|e| format!("{} panicked: {e}", HOSTS[h])).map_err(then)?;
                eq_bytes(&got, &want, || then(HOSTS[h].to_string()))?;
                c.outcome(&(h, at));
                Ok(())
            }
        }),
        scenario("two-threads-at-callbacks", format!("two host operations on two threads, every interleaving of their callbacks with at most {} switches (a controlled scheduler decides at each of the first 4 callbacks)", t.pick(3, 6)), move |c| {
            super::sched::callbacks(c)
        })
        .devs(t.pick(3, 6)),
    ];
    v.push(scenario("other-threads", format!("every ordered pair of {n} operations, the first on another thread, then the second on this one, and the other way round"), {
        let ops = ops.clone();
        move |c| {
            let a = &ops[c.choose(n)];
            let b = &ops[c.choose(n)];
            c.calls += 4;
            let then = |e: String| format!("{e}; sequence {} / {} on two threads", a.name, b.name);
            in_thread(|| a.check()).map_err(then)?;
            b.check().map_err(then)?;
            in_thread(|| {
                a.check()?;
                b.check()
            })
            .map_err(then)?;
            c.outcome(&b.name);
            Ok(())
        }
    }));
    v.extend(schedules(t, &ops));
    v
}

fn inside(h: usize, at: usize, inner: &dyn Fn(usize) -> R, name: &str, other: bool) -> Result<bool, String> {
    let res: std::cell::RefCell<Option<R>> = Default::default();
    let _ = other;
    let r = observe(|| {
        host(h, &|i| {
            if i == at {
                *res.borrow_mut() = Some(inner(i));
            }
        })
    });
    let (got, want) = r.map_err(|p| format!("{} panicked with {name} run at callback {at}: {p}", HOSTS[h]))?;
    if let Some(Err(e)) = res.borrow().as_ref() {
        return Err(format!("{e}; run inside callback {at} of {}", HOSTS[h]));
    }
    eq_bytes(&got, &want, || format!("{} with {name} run at callback {at}", HOSTS[h]))?;
    Ok(res.borrow().is_some())
}

fn run_inside(c: &mut Ctx, h: usize, at: usize, inner: &(dyn Fn(usize) -> R + Sync), name: &str, other: bool) -> R {
    c.calls += 2;
    let ran = if other {
        inside(h, at, &|i| in_thread(|| inner(i)), name, true)?
    } else {
        inside(h, at, inner, name, false)?
    };
    c.outcome(&(h, at, ran, name));
    c.sample(|| format!("{name} inside callback {at} of {}", HOSTS[h]));
    Ok(())
}

/// Schedules of two calls with preemptions inside the library's code.
fn schedules(t: Tier, ops: &Arc<Vec<Op>>) -> Vec<Scenario> {
    use super::threads::{self, Plan, Request};
    let n = ops.len();
    let shared = Arc::new(threads::shared_objects());
    // the other operations of the same family, nearest first
    let mates = {
        let ops = ops.clone();
        move |a: usize| -> Vec<usize> {
            let mut v: Vec<usize> = (0..n).filter(|&b| b != a && ops[b].family == ops[a].family).collect();
            v.sort_by_key(|&b| b.abs_diff(a));
            v
        }
    };
    fn go(c: &mut Ctx, q: Request, names: impl Fn() -> String) -> R {
        c.calls += 2 + (q.before > 0) as u64;
        let r = threads::run(q).map_err(|e| {
            let up_to = match q.j {
                0 => "to its end".to_string(),
                j => format!("up to its point {j}"),
            };
            format!("{e}; {}, thread A up to its point {}, thread B {up_to}, then A and B to their ends", names(), q.i)
        })?;
        c.outcome(&(q.object, q.a, q.b, r));
        c.sample(|| format!("{}: {q:?} -> {r:?}", names()));
        Ok(())
    }
    /// one of the planned schedules
    fn pick(c: &mut Ctx, plan: &Planned, pairs: impl FnOnce() -> Result<Plan, String>) -> Result<Request, String> {
        let p = plan.get_or_init(|| pairs().map(Arc::new)).clone()?;
        if p.pairs.is_empty() {
            return Err("nothing to schedule".into());
        }
        let (q, x, y) = c.pick(&p.pairs);
        let (i, j) = (*c.pick(x), *c.pick(y));
        c.sample(|| {
            format!(
                "plan: {} pairs, {} schedules; {} pairs at every point, {} more at the first and last point (or more) of every place in the code, {} at the first and last 20 or more points; {} pairs left out as too long",
                p.pairs.len(),
                p.schedules,
                p.whole,
                p.places,
                p.pairs.len() - p.whole - p.places,
                p.left_out
            )
        });
        Ok(Request { i, j, ..*q })
    }
    type Planned = std::sync::OnceLock<Result<Arc<Plan>, String>>;
    const EVERY: &str = "at every point (control-flow edge or access to shared memory), as far as the budget goes, otherwise at the first and last k points of every place in the code, k as large as the budget allows for each pair; only the first and last 20 or more points of pairs too long for that (see samples)";
    let name = {
        let ops = ops.clone();
        move |q: &Request| {
            let first = if q.before > 0 { format!("after {}: ", ops[q.before as usize - 1].name) } else { String::new() };
            format!("{first}{} on thread A and {} on thread B", ops[q.a as usize].name, ops[q.b as usize].name)
        }
    };
    let object_name = {
        let shared = shared.clone();
        move |q: &Request| {
            let first = if q.before > 0 { format!(", after use {} alone", q.before - 1) } else { String::new() };
            format!("{}{first}: use {} on thread A, use {} on thread B", shared[q.object as usize - 1].name, q.a, q.b)
        }
    };
    // an operation as A, itself and its nearest mates as B; the nearest first
    let near = {
        let mates = mates.clone();
        move |m: usize, q: Request| -> Vec<Request> {
            let all: Vec<Vec<usize>> = (0..n).map(|a| [a].into_iter().chain(mates(a)).collect()).collect();
            let longest = all.iter().map(|v| v.len()).max().unwrap_or(0).min(m + 1);
            (0..longest).flat_map(|k| all.iter().enumerate().filter_map(move |(a, v)| v.get(k).map(|&b| Request { a: a as u64, b: b as u64, ..q })).collect::<Vec<_>>()).collect()
        }
    };
    // every pair of uses of every shared object
    let uses = {
        let shared = shared.clone();
        move |warm: bool, mode: u64| -> Vec<Request> {
            let mut v = vec![];
            for (o, x) in shared.iter().enumerate() {
                for w in 0..if warm { x.uses } else { 1 } {
                    for a in 0..x.uses {
                        for b in 0..x.uses {
                            v.push(Request { object: o as u64 + 1, before: if warm { w as u64 + 1 } else { 0 }, a: a as u64, b: b as u64, mode, ..Default::default() });
                        }
                    }
                }
            }
            v
        }
    };
    let make = |id: &'static str, what: String, both: bool, most: usize, ends: usize, budget: usize, pairs: Arc<dyn Fn() -> Vec<Request> + Send + Sync>, name: Arc<dyn Fn(&Request) -> String + Send + Sync>| {
        let planned: Planned = Default::default();
        scenario(id, format!("{what}; budget {budget} short schedules"), move |c| {
            let q = pick(c, &planned, || threads::plan(pairs().into_iter(), both, most, ends, budget))?;
            go(c, q, || name(&q))
        })
        .sched()
    };
    let by_op: Arc<dyn Fn(&Request) -> String + Send + Sync> = Arc::new(name);
    let by_object: Arc<dyn Fn(&Request) -> String + Send + Sync> = Arc::new(object_name);
    let all = usize::MAX;
    let plain = Request::default();
    vec![
        make(
            "preempted-anywhere",
            format!("each of {n} operations as A and itself and {} of its family as B, in a process where nothing ran before: A is stopped {EVERY}, B runs to its end, A goes on", t.pick("the nearest", "every other")),
            false,
            all,
            100,
            t.pick(300_000, 12_000_000),
            Arc::new({
                let near = near.clone();
                move || near(t.pick(1, 99), plain)
            }),
            by_op.clone(),
        ),
        make(
            "preempted-when-warm",
            "the same after a third operation of the family (or A itself) has run alone".into(),
            false,
            all,
            50,
            t.pick(150_000, 4_000_000),
            Arc::new({
                let mates = mates.clone();
                move || {
                    let mut v = vec![];
                    for a in 0..n {
                        let m = mates(a);
                        for b in m[..m.len().clamp(0, t.pick(1, 3))].iter().copied().chain([a]) {
                            for first in m.iter().copied().skip(1).take(t.pick(1, 3)).chain([a]) {
                                v.push(Request { a: a as u64, b: b as u64, before: first as u64 + 1, ..Default::default() });
                            }
                        }
                    }
                    v
                }
            }),
            by_op.clone(),
        ),
        make(
            "preempted-by-another-family",
            "one operation of each family as A, one of each other family as B, likewise".into(),
            false,
            all,
            50,
            t.pick(100_000, 1_000_000),
            Arc::new({
                let ops = ops.clone();
                move || {
                    let mut few: Vec<usize> = vec![];
                    for i in 0..n {
                        if !few.iter().any(|&j| ops[j].family == ops[i].family) {
                            few.push(i);
                        }
                    }
                    few.iter().flat_map(|&a| few.iter().map(move |&b| Request { a: a as u64, b: b as u64, ..Default::default() }).collect::<Vec<_>>()).collect()
                }
            }),
            by_op.clone(),
        ),
        make(
            "two-preemptions",
            format!("A to point i, B to point j, A to its end, B to its end, for every pair (an operation, itself or {} of its family) with at most {} points each, all i and j within the budget as above", t.pick("the nearest", "another"), t.pick("150", "100000")),
            true,
            t.pick(150, 100_000),
            4,
            t.pick(250_000, 10_000_000),
            Arc::new({
                let near = near.clone();
                move || near(t.pick(1, 99), plain)
            }),
            by_op.clone(),
        ),
        make(
            "two-preemptions-at-accesses",
            "the same for every pair of one family, counting only accesses to writable statics as points (on a tree without writable statics: one schedule per pair)".into(),
            true,
            all,
            8,
            t.pick(250_000, 8_000_000),
            Arc::new({
                let near = near.clone();
                move || near(99, Request { mode: 1, ..Default::default() })
            }),
            by_op.clone(),
        ),
        make(
            "one-object-two-threads",
            format!("{} shared objects (AES, RC2, RC5, RSA keys, big integers, PEM), every pair of uses, A stopped {EVERY} (accesses to the object included), B runs to its end, A goes on", shared.len()),
            false,
            all,
            100,
            t.pick(60_000, 2_000_000),
            Arc::new({
                let uses = uses.clone();
                move || uses(false, 0)
            }),
            by_object.clone(),
        ),
        make(
            "one-object-warm",
            "the same after one use of the object alone".into(),
            false,
            all,
            50,
            t.pick(60_000, 2_000_000),
            Arc::new({
                let uses = uses.clone();
                move || uses(true, 0)
            }),
            by_object.clone(),
        ),
        make(
            "one-object-two-preemptions",
            "each shared object, A to access i to the object, B to access j, A to its end, B to its end".into(),
            true,
            all,
            8,
            t.pick(60_000, 2_000_000),
            Arc::new({
                let uses = uses.clone();
                move || uses(false, 1)
            }),
            by_object.clone(),
        ),
        make(
            "one-object-warm-two-preemptions",
            "the same after one use of the object alone".into(),
            true,
            all,
            4,
            t.pick(60_000, 2_000_000),
            Arc::new(move || uses(true, 1)),
            by_object,
        ),
    ]
}
