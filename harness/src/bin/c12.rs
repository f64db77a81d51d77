//! C12: results do not depend on batch, order, history or other threads.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use vh::gen_::*;
use vh::iface::*;
use vh::num::{Elt, OPS, W, YIELD};
use vh::obj::*;
use vh::onedim::Rule;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

#[derive(Clone, Debug)]
enum What {
    N { kind: Kind, regular: bool, lin: bool, rec: bool },
    One { rule: Rule, regular: bool },
}
impl What {
    fn kind(&self) -> Kind {
        match self {
            What::N { kind, .. } => *kind,
            _ => Kind::Linear,
        }
    }
    fn regular(&self) -> bool {
        match self {
            What::N { regular, .. } | What::One { regular, .. } => *regular,
        }
    }
    fn lin(&self) -> bool {
        matches!(self, What::N { lin: true, .. })
    }
    fn name(&self) -> String {
        match self {
            What::N { kind, regular, lin, rec } => format!("{kind:?}/{}/lin={lin}/{}", if *regular { "regular" } else { "rectilinear" }, if *rec { "recursive" } else { "flat" }),
            What::One { rule, regular } => format!("1d-{rule:?}/{}", if *regular { "regular" } else { "rectilinear" }),
        }
    }
}
fn whats(nd: usize) -> Vec<What> {
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        for rec in [false, true] {
            if rec && kind == Kind::Nearest || !rec && nd > kind.flat_max() {
                continue;
            }
            v.push(What::N { kind, regular, lin, rec });
        }
    }
    if nd == 1 {
        for rule in Rule::ALL {
            for regular in [true, false] {
                v.push(What::One { rule, regular });
            }
        }
    }
    v
}

fn build<T: Elt>(w: &What, dims: &[usize], sp: &[Spacing], salt: u64) -> (&'static Problem<T>, Box<dyn Obj<T>>) {
    let p: &'static Problem<T> = Box::leak(Box::new(problem::<T>(w.kind(), w.regular(), w.lin(), sp, dims, salt)));
    let o = match w {
        What::N { rec, .. } => make(p, *rec),
        What::One { rule, .. } => make1(p, *rule),
    };
    (p, o.expect("constructor"))
}

fn points<T: Elt>(p: &Problem<T>, max: usize) -> Vec<Vec<T>> {
    let nd = p.dims.len();
    let lv = match nd {
        1 => Level::Mid,
        2 => Level::Core,
        _ => Level::Sides,
    };
    let pos: Vec<Vec<T>> = (0..nd).map(|a| positions(&p.grids[a], lv)).collect();
    let cols = product_obs(&pos);
    let tot = cols[0].len();
    let pick: Vec<usize> = if tot <= max { (0..tot).collect() } else { (0..max).map(|i| i * tot / max).collect() };
    pick.iter().map(|&i| cols.iter().map(|c| c[i]).collect()).collect()
}
fn columns<T: Elt>(pts: &[Vec<T>], order: &[usize]) -> Vec<Vec<T>> {
    (0..pts[0].len()).map(|a| order.iter().map(|&i| pts[i][a]).collect()).collect()
}
fn sps(regular: bool, nd: usize, k: usize) -> Vec<Spacing> {
    let m = mixes(regular, nd);
    m[k % m.len()].clone()
}
fn dims_of(w: &What, nd: usize, k: usize) -> Vec<usize> {
    let m = w.kind().min_n();
    (0..nd).map(|a| m + if nd <= 2 { 1 + (a + k) % 3 } else { ((a + k) % 3 == 0) as usize }).collect()
}

// ------------------------------------------------------------------ batches

fn batches<T: Elt>(rep: &Rep, w: &What, nd: usize) {
    let k = format!("batch/{}/{}/{nd}D", w.name(), T::NAME);
    rep.case(&k, || {
        let (p, o) = build::<T>(w, &dims_of(w, nd, 0), &sps(w.regular(), nd, nd), 3);
        let heavy = w.kind() == Kind::Cubic && nd >= 5;
        let pts = points(p, if heavy { 7 } else { 61 });
        let single: Vec<T> = pts.iter().map(|x| build::<T>(w, &dims_of(w, nd, 0), &sps(w.regular(), nd, nd), 3).1.one(x).expect("single point")).collect();
        let mut lens: Vec<usize> = (0..=70).collect();
        if heavy {
            let keep = if nd >= 7 { 9 } else { 34 };
            lens.truncate(keep);
        } else {
            lens.extend([95, 96, 97, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 258, 511, 512, 513]);
            if nd <= 3 || w.kind() != Kind::Cubic {
                lens.extend([1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097]);
            }
            if nd <= 2 {
                lens.extend([10000, 65535, 65536, 65537]);
            }
        }
        if rep.thorough && nd <= 3 {
            lens.extend(71..600);
        }
        rep.sample(|| format!("{k}: batches of {} lengths up to {:?} over {} points", lens.len(), lens.last(), pts.len()));
        rep.states_keyed(hash_str(&k), lens.iter().sum());
        for &l in &lens {
            for (stride, off) in [(1usize, l), (7, 3)] {
                let order: Vec<usize> = (0..l).map(|i| (i * stride + off) % pts.len()).collect();
                let cols = columns(&pts, &order);
                let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                let mut out = vec![T::of(12345.0); l];
                let r = o.batch(&os, &mut out);
                let bad = (0..l).find(|&i| !out[i].same(single[order[i]]));
                if r.is_err() || bad.is_some() {
                    let i = bad.unwrap_or(0);
                    rep.violation(&k, format!("batch of {l}: {r:?}; element {i} ({:?}) is {:?}, alone it is {:?}", order.get(i).map(|&x| &pts[x]), out.get(i), order.get(i).map(|&x| single[x])));
                    return;
                }
                rep.trace(l);
            }
        }
        // one-shot functions on the same lists
        if let What::N { kind, rec, .. } = w {
            for e in entries(*kind, nd) {
                let mine = match e {
                    Entry::Fn | Entry::FnAlloc => *rec == (nd > kind.flat_max()),
                    Entry::RecFn | Entry::RecFnAlloc => *rec,
                    _ => false,
                };
                if !mine {
                    continue;
                }
                // what the function gives for each point alone
                let alone: Vec<Option<T>> = pts
                    .iter()
                    .map(|x| {
                        let c: Vec<&[T]> = x.iter().map(std::slice::from_ref).collect();
                        let mut o1 = [T::nan()];
                        eval(p, e, &c, &mut o1).ok().map(|_| o1[0])
                    })
                    .collect();
                for &l in lens.iter().filter(|l| **l <= if heavy { 3 } else { 40 } || [128, 257, 1025, 4097].contains(*l)) {
                    let order: Vec<usize> = (0..l).map(|i| (i * 5 + l) % pts.len()).collect();
                    let cols = columns(&pts, &order);
                    let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                    let mut out = vec![T::of(12345.0); l];
                    let r = eval(p, e, &os, &mut out);
                    let bad = (0..l).find(|&i| !matches!(alone[order[i]], Some(v) if v.same(out[i])));
                    if r.is_err() || bad.is_some() {
                        let i = bad.unwrap_or(0);
                        rep.violation(&k, format!("{e:?}, batch of {l}: {r:?}; element {i} ({:?}) is {:?}, alone it differs", order.get(i).map(|&x| &pts[x]), out.get(i)));
                        return;
                    }
                    rep.trace(l);
                }
            }
        }
    });
}

// ------------------------------------------------------------------ histories

fn histories(rep: &Rep, w: &What, nd: usize) {
    let k = format!("history/{}/{nd}D", w.name());
    rep.case(&k, || {
        let da = dims_of(w, nd, 0);
        let dc = dims_of(w, nd, 1);
        let mk = |i: usize| build::<f64>(w, if i == 2 { &dc } else { &da }, &sps(w.regular(), nd, i), 11 + i as u64);
        let objs: Vec<_> = (0..3).map(mk).collect();
        let (p32, o32) = build::<f32>(w, &da, &sps(w.regular(), nd, 0), 11);
        let heavy = w.kind() == Kind::Cubic && nd >= 5;
        let np = if heavy && nd >= 7 { 2 } else if heavy { 4 } else { 24 };
        let pts: Vec<Vec<Vec<f64>>> = objs.iter().map(|(p, _)| points(p, np)).collect();
        let pts32 = points(p32, 3);
        // what each point gives on a fresh object
        let want: Vec<Vec<f64>> = (0..3).map(|i| pts[i].iter().map(|x| mk(i).1.one(x).expect("single")).collect()).collect();
        // symbols: (object, point) / evaluation in f32 / failing calls
        #[derive(Clone, Copy, Debug)]
        enum S {
            P(usize, usize),
            F32(usize),
            Fail(usize),
        }
        let mut al: Vec<S> = vec![];
        for i in 0..3 {
            let n = if i == 0 { pts[0].len() } else { pts[i].len().min(5) };
            for q in 0..n {
                al.push(S::P(i, q * pts[i].len() / n));
            }
        }
        for i in 0..pts32.len() {
            al.push(S::F32(i));
        }
        al.push(S::Fail(0));
        al.push(S::Fail(1));
        let order = if al.len() <= 40 && !heavy { if al.len() <= 22 || nd <= 2 || rep.thorough { 3 } else { 2 } } else { 2 };
        let seq = de_bruijn(al.len(), order);
        rep.states_keyed(hash_str(&k), seq.len());
        rep.sample(|| format!("{k}: every sequence of {order} out of {} operations, as one history of {} on live objects", al.len(), seq.len()));
        let want32: Vec<f32> = pts32.iter().map(|x| build::<f32>(w, &da, &sps(w.regular(), nd, 0), 11).1.one(x).expect("single")).collect();
        let mut prev = vec![];
        for (n, &s) in seq.iter().enumerate() {
            prev.push(s);
            let hist = || prev[prev.len().saturating_sub(4)..].iter().map(|&i| format!("{:?}", al[i])).collect::<Vec<_>>().join(", ");
            match al[s] {
                S::P(i, q) => {
                    let x = &pts[i][q];
                    let got = if n % 3 == 0 {
                        let c: Vec<&[f64]> = x.iter().map(std::slice::from_ref).collect();
                        let mut o = [f64::NAN];
                        objs[i].1.batch(&c, &mut o).map(|_| o[0])
                    } else {
                        objs[i].1.one(x)
                    };
                    if !matches!(got, Ok(v) if v.same(want[i][q])) {
                        rep.violation(&k, format!("after the history ({}) object {i} gives {got:?} at {x:?}, fresh it gives {:?}", hist(), want[i][q]));
                        return;
                    }
                }
                S::F32(q) => {
                    let got = o32.one(&pts32[q]);
                    if !matches!(got, Ok(v) if v.same(want32[q])) {
                        rep.violation(&k, format!("after the history ({}) the f32 object gives {got:?} at {:?}, fresh it gives {:?}", hist(), pts32[q], want32[q]));
                        return;
                    }
                }
                S::Fail(i) => {
                    // one coordinate list too short
                    let a = vec![0.5; 3];
                    let mut c: Vec<&[f64]> = vec![&a[..]; nd];
                    c[nd - 1] = &a[..2];
                    let mut o = [0.0; 3];
                    if objs[i].1.batch(&c, &mut o).is_ok() {
                        rep.violation(&k, "a batch with a short coordinate list succeeds".into());
                        return;
                    }
                }
            }
        }
        rep.trace(seq.len());
        // the same points as one batch: every ordered pair of points of object 0 consecutively
        let seq = de_bruijn(pts[0].len(), 2);
        let cols = columns(&pts[0], &seq);
        let os: Vec<&[f64]> = cols.iter().map(|c| &c[..]).collect();
        let mut out = vec![f64::NAN; seq.len()];
        let r = objs[0].1.batch(&os, &mut out);
        if let Some(i) = (0..seq.len()).find(|&i| !out[i].same(want[0][seq[i]])) {
            rep.violation(&k, format!("{r:?}; in a batch after {:?} the point {:?} gives {:?}, alone {:?}", i.checked_sub(1).map(|j| &pts[0][seq[j]]), pts[0][seq[i]], out[i], want[0][seq[i]]));
            return;
        }
        rep.trace(seq.len());
        if !objs[0].1.is_sync() {
            rep.violation(&k, "the interpolator type is not Send + Sync: it cannot be shared between threads without locking".into());
        }
    });
}

// ------------------------------------------------------------------ reused memory

/// Every ordered pair of (contents, point, form): the same grid and value memory holds one
/// interpolant after the other, each evaluated on a newly built object or by the one-shot function.
fn reuse(rep: &Rep, w: &What, nd: usize) {
    let k = format!("reuse/{}/{nd}D", w.name());
    rep.case(&k, || {
        let dims = dims_of(w, nd, 0);
        let content = |j: usize| -> Problem<f64> {
            let mut p = problem::<f64>(w.kind(), w.regular(), w.lin(), &sps(w.regular(), nd, (j == 1) as usize), &dims, 40 + (j == 1 || j == 2) as u64);
            if j == 3 {
                for a in 0..nd {
                    p.starts[a] += 1.0;
                    p.grids[a].iter_mut().for_each(|x| *x += 1.0);
                }
            }
            p
        };
        let contents: Vec<Problem<f64>> = (0..4).map(content).collect();
        let heavy = w.kind() == Kind::Cubic && nd >= 5;
        let np = if heavy { 3 } else { 7 };
        // the same points for every content, so that a remembered point or cell matters
        let pts: Vec<Vec<f64>> = points(&contents[0], np);
        let fnform = matches!(w, What::N { kind, rec, .. } if *rec == (nd > kind.flat_max()));
        let fresh = |j: usize, x: &[f64]| -> f64 {
            let p: &'static Problem<f64> = Box::leak(Box::new(content(j)));
            let o = match w {
                What::N { rec, .. } => make(p, *rec),
                What::One { rule, .. } => make1(p, *rule),
            };
            o.expect("constructor").one(x).expect("single point")
        };
        let want: Vec<Vec<f64>> = (0..4).map(|j| pts.iter().map(|x| fresh(j, x)).collect()).collect();
        let by_fn_fresh = |j: usize, x: &[f64]| -> f64 {
            let c: Vec<&[f64]> = x.iter().map(std::slice::from_ref).collect();
            let mut o = [f64::NAN];
            eval(&content(j), Entry::Fn, &c, &mut o).expect("function");
            o[0]
        };
        let want_fn: Vec<Vec<f64>> = (0..4).map(|j| pts.iter().map(|x| if fnform { by_fn_fresh(j, x) } else { 0.0 }).collect()).collect();
        let mut al: Vec<(usize, usize, bool)> = vec![];
        for j in 0..4 {
            for q in 0..pts.len() {
                al.push((j, q, false));
                if fnform && q % 3 == 0 {
                    al.push((j, q, true));
                }
            }
        }
        let seq = de_bruijn(al.len(), 2);
        rep.states_keyed(hash_str(&k), seq.len());
        rep.sample(|| format!("{k}: every ordered pair of {} evaluations over 4 contents of the same memory", al.len()));
        let arena: *mut Problem<f64> = Box::into_raw(Box::new(content(0)));
        for (n, &s) in seq.iter().enumerate() {
            let (j, q, by_fn) = al[s];
            // no reference into the arena is alive here: objects live for one step only
            unsafe {
                let (a, c) = (&mut *arena, &contents[j]);
                a.starts.copy_from_slice(&c.starts);
                a.steps.copy_from_slice(&c.steps);
                a.vals.copy_from_slice(&c.vals);
                for (x, y) in a.grids.iter_mut().zip(&c.grids) {
                    x.copy_from_slice(y);
                }
            }
            let p: &'static Problem<f64> = unsafe { &*arena };
            let x = &pts[q];
            let got = if by_fn {
                let c: Vec<&[f64]> = x.iter().map(std::slice::from_ref).collect();
                let mut o = [f64::NAN];
                eval(p, Entry::Fn, &c, &mut o).map(|_| o[0]).map_err(|_| "error")
            } else {
                let o = match w {
                    What::N { rec, .. } => make(p, *rec),
                    What::One { rule, .. } => make1(p, *rule),
                };
                o.and_then(|o| o.one(x))
            };
            let want = if by_fn { &want_fn } else { &want };
            if !matches!(got, Ok(v) if v.same(want[j][q])) {
                rep.violation(&k, format!("after {:?} in the same memory, contents {j} give {got:?} at {x:?} ({}), elsewhere {:?}", n.checked_sub(1).map(|i| al[seq[i]]), if by_fn { "function" } else { "object" }, want[j][q]));
                return;
            }
        }
        rep.trace(seq.len());
    });
}

// ------------------------------------------------------------------ schedules

struct Pair {
    turn: AtomicUsize,
    remaining: AtomicU64,
    seg: AtomicUsize,
    plan: Mutex<Vec<u64>>,
    done: [AtomicBool; 2],
    stuck: AtomicBool,
}
impl Pair {
    fn wait(&self, me: usize) {
        let mut n = 0u64;
        let mut t = None;
        while self.turn.load(SeqCst) != me && !self.stuck.load(SeqCst) {
            n += 1;
            if n < 200 {
                std::hint::spin_loop()
            } else {
                std::thread::yield_now();
                if n % 1024 == 0 {
                    let t = *t.get_or_insert_with(std::time::Instant::now);
                    if t.elapsed().as_secs() >= 40 {
                        self.stuck.store(true, SeqCst);
                    }
                }
            }
        }
    }
    fn point(&self, me: usize) {
        if self.stuck.load(SeqCst) {
            return;
        }
        let r = self.remaining.load(SeqCst);
        if r > 0 {
            self.remaining.store(r - 1, SeqCst);
            return;
        }
        self.next(me);
        self.wait(me);
    }
    /// Give the baton to the other thread, if it still runs.
    fn next(&self, me: usize) {
        let s = self.seg.load(SeqCst) + 1;
        self.seg.store(s, SeqCst);
        self.remaining.store(self.plan.lock().unwrap().get(s).copied().unwrap_or(u64::MAX), SeqCst);
        if !self.done[1 - me].load(SeqCst) {
            self.turn.store(1 - me, SeqCst);
        }
    }
    fn reset(&self, first: usize, plan: &[u64]) {
        *self.plan.lock().unwrap() = plan.to_vec();
        self.seg.store(0, SeqCst);
        self.remaining.store(plan[0], SeqCst);
        self.done[0].store(false, SeqCst);
        self.done[1].store(false, SeqCst);
        self.turn.store(first, SeqCst);
    }
}
thread_local! {
    static CTX: RefCell<Option<(Arc<Pair>, usize)>> = const { RefCell::new(None) };
}
fn sched_point() {
    CTX.with(|c| {
        if let Some((p, me)) = &*c.borrow() {
            p.point(*me)
        }
    })
}

struct Force<'a>(&'a dyn Obj<W>);
// one thread runs at a time; whether the type is Sync is reported separately
unsafe impl Send for Force<'_> {}
unsafe impl Sync for Force<'_> {}

struct Sched {
    name: String,
    a: What,
    b: What,
    same: bool,
    nd: usize,
}

fn schedules(rep: &Rep, s: &Sched) {
    let k = format!("schedule/{}/{}/{}/{}D", s.name, s.a.name(), s.b.name(), s.nd);
    rep.case(&k, || {
        let nd = s.nd;
        let (pa, oa) = build::<W>(&s.a, &dims_of(&s.a, nd, 0), &sps(s.a.regular(), nd, 0), 5);
        let (pb, ob) = build::<W>(&s.b, &dims_of(&s.b, nd, 0), &sps(s.b.regular(), nd, 1), 6);
        // different cells and sides for the two threads
        let all_a = points(pa, 64);
        let all_b = points(if s.same { pa } else { pb }, 64);
        let n = all_a.len();
        let job = |pts: &Vec<Vec<W>>, i: usize| columns(pts, &[i % pts.len(), (i + pts.len() / 2 + 1) % pts.len()]);
        let variants: Vec<(usize, usize)> = if s.nd == 1 { vec![(1, n - 2), (n / 2, 2), (n - 1, n / 3)] } else { vec![(1, n / 2)] };
        for (ia, ib) in variants {
            let ja = job(&all_a, ia);
            let jb = job(&all_b, ib);
            let obj_b: &dyn Obj<W> = if s.same { &*oa } else { &*ob };
            let base = |o: &dyn Obj<W>, j: &Vec<Vec<W>>| {
                let os: Vec<&[W]> = j.iter().map(|c| &c[..]).collect();
                let mut out = [W(0.0), W(0.0)];
                OPS.with(|c| c.set((0, 0)));
                o.batch(&os, &mut out).expect("job");
                let (x, y) = OPS.with(|c| c.get());
                (out, x + y)
            };
            // expected results: from objects of their own
            let (wa, na) = base(&*build::<W>(&s.a, &dims_of(&s.a, nd, 0), &sps(s.a.regular(), nd, 0), 5).1, &ja);
            let fresh_b = if s.same { build::<W>(&s.a, &dims_of(&s.a, nd, 0), &sps(s.a.regular(), nd, 0), 5).1 } else { build::<W>(&s.b, &dims_of(&s.b, nd, 0), &sps(s.b.regular(), nd, 1), 6).1 };
            let (wb, nb) = base(&*fresh_b, &jb);
            // plans: which thread starts, and after how many operations control passes
            let mut plans: Vec<(usize, Vec<u64>)> = vec![];
            let lim = if rep.thorough { 60_000 } else { 3_000 };
            for first in 0..2usize {
                let (n1, n2) = if first == 0 { (na, nb) } else { (nb, na) };
                for i in 0..=n1 {
                    if n1 * n2 <= lim {
                        for j in 0..=n2 {
                            plans.push((first, vec![i, j]));
                            if n1 * n2 * n1 <= 2 * lim * if rep.thorough { 4 } else { 1 } {
                                for l in 0..=(n1 - i) {
                                    plans.push((first, vec![i, j, l]));
                                }
                            }
                        }
                    } else {
                        plans.push((first, vec![i]));
                    }
                }
            }
            let kk = format!("{k}/{ia},{ib}");
            rep.states_keyed(hash_str(&kk), plans.len());
            rep.note("schedules", plans.len() as u64);
            rep.note(if plans[0].1.len() > 1 { "thread pairs explored with 2 or 3 preemptions" } else { "thread pairs explored with 1 preemption" }, 1);
            rep.sample(|| format!("{kk}: {} schedules of {na}+{nb} operations", plans.len()));
            let pair = Arc::new(Pair { turn: AtomicUsize::new(0), remaining: AtomicU64::new(0), seg: AtomicUsize::new(0), plan: Mutex::new(vec![]), done: [AtomicBool::new(false), AtomicBool::new(false)], stuck: AtomicBool::new(false) });
            let barrier = Barrier::new(2);
            let stop = AtomicBool::new(false);
            let results: [Mutex<Vec<([W; 2], bool)>>; 2] = [Mutex::new(vec![]), Mutex::new(vec![])];
            std::thread::scope(|sc| {
                for me in 0..2usize {
                    let f = Force(if me == 0 { &*oa } else { obj_b });
                    let (pair, barrier, stop, plans, results) = (pair.clone(), &barrier, &stop, &plans, &results);
                    let (j, want) = if me == 0 { (&ja, wa) } else { (&jb, wb) };
                    let (rep, kk) = (&rep, &kk);
                    sc.spawn(move || {
                        let f = f;
                        let o: &dyn Obj<W> = { let g = &f; g.0 };
                        let os: Vec<&[W]> = j.iter().map(|c| &c[..]).collect();
                        CTX.with(|c| *c.borrow_mut() = Some((pair.clone(), me)));
                        for (first, plan) in plans {
                            barrier.wait();
                            // both have finished the last schedule and neither has begun the next:
                            // both read the same
                            let halt = stop.load(SeqCst);
                            if me == 0 {
                                pair.reset(*first, plan);
                            }
                            barrier.wait();
                            if halt {
                                break;
                            }
                            pair.wait(me);
                            let mut out = [W(0.0), W(0.0)];
                            YIELD.with(|y| y.set(Some(sched_point)));
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.batch(&os, &mut out)));
                            YIELD.with(|y| y.set(None));
                            pair.done[me].store(true, SeqCst);
                            pair.next(me);
                            pair.remaining.store(u64::MAX, SeqCst);
                            let ok = matches!(r, Ok(Ok(()))) && out.iter().zip(&want).all(|(a, b)| a.0.same(b.0));
                            if !ok || pair.stuck.load(SeqCst) {
                                let why = if pair.stuck.load(SeqCst) { "the other thread cannot proceed while this one is suspended in the middle of an evaluation".to_string() } else { format!("{r:?} {out:?} instead of {want:?}") };
                                rep.violation(kk, format!("schedule: thread {first} starts, control passes after {plan:?} operations: thread {me}: {why}"));
                                stop.store(true, SeqCst);
                            }
                            let _ = results;
                        }
                        // let a partner that still waits at a barrier see the stop
                        CTX.with(|c| *c.borrow_mut() = None);
                    });
                }
            });
            rep.traces.fetch_add(plans.len() as u64, SeqCst);
            rep.transitions.fetch_add(plans.iter().map(|p| p.1.len() as u64 + 1).sum(), SeqCst);
            rep.evals.fetch_add(4 * plans.len() as u64, SeqCst);
            if stop.load(SeqCst) {
                return;
            }
        }
    });
}

// ------------------------------------------------------------------ schedules by instruction

struct Any<'a>(&'a dyn Obj<f64>);
unsafe impl Send for Any<'_> {}
unsafe impl Sync for Any<'_> {}

/// Every schedule of two evaluations in which the first thread is interrupted once, at any machine
/// instruction, by the whole evaluation of the second (and, for short ones, in which the second is
/// interrupted in turn at any instruction by the rest of the first).
fn instructions(rep: &Rep, w: &What, nd: usize) {
    let k = format!("instruction/{}/{nd}D", w.name());
    rep.case(&k, || {
        let dims = dims_of(w, nd, 0);
        let mk = |i: usize| build::<f64>(w, &dims, &sps(w.regular(), nd, i), 5 + i as u64);
        let (pa, oa) = mk(0);
        let (_, ob) = mk(1);
        let pts = points(pa, 64);
        let n = pts.len();
        let (x0, x1, x2) = (&pts[n - 1], &pts[n / 3], &pts[2 * n / 3]);
        let (cap, cap2) = if rep.thorough { (9000, 160) } else { (1400, 0) };
        for (name, other, xb) in [("same object, same point", false, x1), ("same object, other point", false, x2), ("two objects, same point", true, x1)] {
            let objb = Any(if other { &*ob } else { &*oa });
            let want = (mk(0).1.one(x1).expect("point"), mk(other as usize).1.one(xb).expect("point"));
            let turn = AtomicUsize::new(0);
            let target_b = AtomicU64::new(u64::MAX);
            let got_b = AtomicU64::new(0);
            let prime = || {
                let _ = oa.one(x0);
                let _ = ob.one(x0);
            };
            let ca = vh::step::Ctl::new();
            let mut dead = false;
            std::thread::scope(|sc| {
                // turn: 0 first thread, 1 second thread runs, 2 second has finished, 3 second is suspended,
                // 4 second goes on, 9 stop
                sc.spawn(|| {
                    let objb = &objb;
                    let cb = vh::step::Ctl::new();
                    loop {
                        while !matches!(turn.load(SeqCst), 1 | 9) {
                            std::hint::spin_loop();
                            if !matches!(turn.load(SeqCst), 1 | 9) {
                                std::thread::yield_now();
                            }
                        }
                        if turn.load(SeqCst) == 9 {
                            return;
                        }
                        let t = target_b.load(SeqCst);
                        let r = if t == u64::MAX {
                            objb.0.one(xb)
                        } else {
                            vh::step::stepped(&cb, t, &turn, 3, || objb.0.one(xb)).0
                        };
                        got_b.store(r.map_or(u64::MAX, |v| v.to_bits()), SeqCst);
                        turn.store(2, SeqCst);
                    }
                });
                // one schedule: was the switch in the first thread reached (and the one in the second)?
                let run = |ka: u64, kb: u64| -> Option<(bool, bool)> {
                    prime();
                    turn.store(0, SeqCst);
                    target_b.store(kb, SeqCst);
                    got_b.store(1, SeqCst);
                    let mut both = false;
                    let (ra, reached) = vh::step::stepped(&ca, ka, &turn, 1, || oa.one(x1));
                    if reached && kb != u64::MAX {
                        if turn.load(SeqCst) == 3 {
                            both = true;
                            turn.store(4, SeqCst);
                        }
                        if !vh::step::wait(|| turn.load(SeqCst) == 2) {
                            return None;
                        }
                    }
                    if ca.stuck.load(SeqCst) != 0 {
                        return None;
                    }
                    if reached {
                        let gb = f64::from_bits(got_b.load(SeqCst));
                        if !(matches!(ra, Ok(v) if v.same(want.0)) && gb.same(want.1)) {
                            rep.violation(&k, format!("{name}: the first thread is interrupted after {ka} instructions{}: results {ra:?} and {gb:?} instead of {:?} and {:?} (points {x1:?}, {xb:?}; both objects evaluated {x0:?} before)", if kb == u64::MAX { " by the whole second evaluation".to_string() } else { format!(", the second after {kb}") }, want.0, want.1));
                            return None;
                        }
                    }
                    Some((reached, both))
                };
                // length of the first evaluation
                prime();
                turn.store(0, SeqCst);
                let _ = vh::step::stepped(&ca, u64::MAX, &turn, 0, || oa.one(x1));
                let len = ca.count();
                if len > cap {
                    rep.note("evaluations too long for instruction schedules", 1);
                    turn.store(9, SeqCst);
                    return;
                }
                let mut done = 0usize;
                for ka in 1..=len {
                    match run(ka, u64::MAX) {
                        Some((true, _)) => done += 1,
                        Some(_) => break,
                        None => {
                            dead = true;
                            break;
                        }
                    }
                }
                if !dead && len <= cap2 {
                    'o: for ka in 1..=len {
                        for kb in 1.. {
                            match run(ka, kb) {
                                Some((true, true)) => done += 1,
                                Some(_) => break,
                                None => break 'o,
                            }
                        }
                    }
                }
                turn.store(9, SeqCst);
                rep.states_keyed(hash_str(&format!("{k}/{name}")), done);
                rep.traces.fetch_add(done as u64, SeqCst);
                rep.transitions.fetch_add(done as u64 * len, SeqCst);
                rep.note("instruction-level schedules", done as u64);
                rep.sample(|| format!("{k}, {name}: interrupted at each of {len} instructions, {done} schedules"));
            });
            if dead {
                return;
            }
        }
    });
}

fn main() {
    let rep = Rep::new("C12");
    let mut items: Vec<(What, usize)> = vec![];
    for nd in 1..=8 {
        for w in whats(nd) {
            if w.kind() == Kind::Nearest && nd > 6 {
                continue;
            }
            items.push((w, nd));
        }
    }
    items.sort_by_key(|i| std::cmp::Reverse(i.1));
    rep.par(&items, |(w, nd)| {
        batches::<f64>(&rep, w, *nd);
        batches::<f32>(&rep, w, *nd);
    });
    rep.par(&items, |(w, nd)| histories(&rep, w, *nd));
    rep.par(&items, |(w, nd)| reuse(&rep, w, *nd));
    if vh::step::available() {
        rep.set_threads(4);
        rep.par(&items, |(w, nd)| {
            if *nd <= 3 {
                instructions(&rep, w, *nd)
            }
        });
    } else {
        rep.note("single-stepping unavailable", 1);
    }
    let mut sc = vec![];
    for nd in 1..=if rep.thorough { 4 } else { 3 } {
        let ws = whats(nd);
        for (i, w) in ws.iter().enumerate() {
            sc.push(Sched { name: "same-object".into(), a: w.clone(), b: w.clone(), same: true, nd });
            sc.push(Sched { name: "two-objects".into(), a: w.clone(), b: w.clone(), same: false, nd });
            if nd <= 2 {
                sc.push(Sched { name: "two-methods".into(), a: w.clone(), b: ws[(i + 1) % ws.len()].clone(), same: false, nd });
            }
        }
    }
    rep.set_threads(4);
    rep.par(&sc, |s| schedules(&rep, s));
    rep.finish()
}
