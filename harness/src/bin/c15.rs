//! C15: no heap allocation on any path; stack depth does not depend on the data.
use interpn::one_dim::{RectilinearGrid1D, RegularGrid1D};
use interpn::multilinear;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vh::dev::*;
use vh::gen_::*;
use vh::iface::*;
use vh::num::Elt;
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
struct Counting;
impl Counting {
    #[inline]
    fn hit(&self) {
        let _ = ON.try_with(|o| {
            if o.get() {
                let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            }
        });
    }
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.hit();
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.hit();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        self.hit();
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.hit();
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;

const PAINT: usize = 32 << 10;
const PAT: u64 = 0x5ca1_ab1e_0dd5_eed5;

#[inline(never)]
fn sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

struct Cost {
    alloc: usize,
    depth: usize,
    panic: bool,
}

/// Runs `f` counting heap operations and measuring how much stack it touches below this frame.
#[inline(never)]
fn measure(f: &mut dyn FnMut()) -> Cost {
    let top = (sp() - 512) & !63;
    let bot = top - PAINT;
    // the painted region is below every live frame of this thread (64 MB stacks)
    unsafe {
        let mut p = bot as *mut u64;
        while (p as usize) < top {
            p.write_volatile(PAT);
            p = p.add(1);
        }
    }
    COUNT.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    ON.with(|o| o.set(false));
    let alloc = COUNT.with(|c| c.get());
    let mut low = top;
    unsafe {
        let mut p = bot as *const u64;
        while (p as usize) < top {
            if p.read_volatile() != PAT {
                low = p as usize;
                break;
            }
            p = p.add(1);
        }
    }
    Cost { alloc, depth: top - low, panic: r.is_err() }
}

/// Largest stack use seen on small data, per what may legitimately matter.
struct Depths {
    small: HashMap<String, usize>,
    worst: usize,
}
const SLACK: usize = 192;

fn judge(rep: &Rep, k: &str, d: &mut Depths, class: &str, is_small: bool, c: Cost, what: &dyn Fn() -> String) -> bool {
    if c.panic {
        rep.violation(k, format!("panic: {}", what()));
        return false;
    }
    if c.alloc > 0 {
        rep.violation(k, format!("{} heap operations: {}", c.alloc, what()));
        return false;
    }
    if c.depth >= PAINT - 64 {
        rep.violation(k, format!("more than {PAINT} bytes of stack: {}", what()));
        return false;
    }
    d.worst = d.worst.max(c.depth);
    if is_small {
        let e = d.small.entry(class.to_string()).or_insert(0);
        *e = (*e).max(c.depth);
    } else if let Some(&s) = d.small.get(class) {
        if c.depth > s + SLACK {
            rep.violation(k, format!("{} bytes of stack instead of {s} on small data: {}", c.depth, what()));
            return false;
        }
    }
    rep.trace(1);
    true
}

/// Where one axis' coordinate lies.
fn spots<T: Elt>(g: &[T]) -> Vec<(&'static str, T)> {
    let n = g.len();
    let span = g[n - 1] - g[0];
    vec![
        ("below", g[0] - (g[1] - g[0]) * T::of(0.5)),
        ("far below", g[0] - span * T::of(1e6)),
        ("first node", g[0]),
        ("first cell", g[0] + (g[1] - g[0]) * T::of(0.375)),
        ("interior", g[(n - 1) / 2] + (g[(n - 1) / 2 + 1] - g[(n - 1) / 2]) * T::of(0.625)),
        ("interior node", g[n / 2]),
        ("last cell", g[n - 2] + (g[n - 1] - g[n - 2]) * T::of(0.25)),
        ("last node", g[n - 1]),
        ("above", g[n - 1] + (g[n - 1] - g[n - 2])),
        ("far above", g[n - 1] + span * T::of(1e6)),
        ("inf", T::infinity()),
        ("-inf", T::neg_infinity()),
        ("nan", T::nan()),
    ]
}

fn ents(kind: Kind, nd: usize) -> Vec<Entry> {
    entries(kind, nd).into_iter().filter(|e| !matches!(e, Entry::FnAlloc | Entry::RecFnAlloc)).collect()
}

fn run<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize) {
    let k = format!("{kind:?}/{}/{}/lin={lin}/{nd}D", if regular { "regular" } else { "rectilinear" }, T::NAME);
    rep.case(&k, || {
        let min = kind.min_n();
        // one evaluation costs milliseconds here: fewer sizes and places
        let heavy = kind == Kind::Cubic && nd >= 6 && !rep.thorough;
        let es: Vec<Entry> = if heavy { ents(kind, nd).into_iter().filter(|e| !matches!(e, Entry::Rec(m) | Entry::RecOne(m) if *m != nd)).collect() } else { ents(kind, nd) };
        let base: usize = min.pow(nd as u32 - 1);
        let cap = if rep.thorough { 1 << 21 } else { 1 << 19 };
        // points times table entries they touch, per batch
        let budget = if rep.thorough { 4_000_000 } else { 400_000 };
        let long = (cap / base).clamp(min + 2, 300_000);
        // small data first, then data of growing size
        let mut sizes: Vec<(Vec<usize>, bool)> = vec![(vec![min; nd], true)];
        if nd <= 4 {
            sizes.push((vec![min + 1; nd], true));
        }
        for a in 0..nd {
            for l in [min + 1, 17, 100, 4097, long] {
                if l <= long && (!heavy || (l == long && (a == 0 || a == nd / 2 || a == nd - 1))) {
                    let mut d = vec![min; nd];
                    d[a] = l;
                    sizes.push((d, l < min + 2));
                }
            }
        }
        if nd == 2 {
            sizes.push((vec![600, 601], false));
        }
        if nd == 3 {
            sizes.push((vec![65, 66, 67], false));
        }
        let mut dp: HashMap<Entry, Depths> = HashMap::new();
        let mut nst = 0;
        for (dims, small) in sizes {
            for sp in if regular { vec![vec![Spacing::EvenGeneric; nd]] } else { vec![vec![Spacing::UnevenGeneric; nd]] } {
                let p = problem::<T>(kind, regular, lin, &sp, &dims, 3);
                let gr: Vec<Vec<T>> = (0..nd).map(|a| axis::<T>(sp[a], dims[a], a).2).collect();
                let gs: Vec<&[T]> = p.grids.iter().map(|g| &g[..]).collect();
                let sps: Vec<Vec<(&str, T)>> = gr.iter().map(|g| spots(g)).collect();
                let m = sps[0].len();
                // every spot on all axes; every spot on each axis with the rest inside; rotating spots
                let mut pts: Vec<(String, Vec<T>)> = vec![];
                for i in 0..m {
                    pts.push((format!("{} on every axis", sps[0][i].0), (0..nd).map(|a| sps[a][i].1).collect()));
                    pts.push((format!("rotating from {}", sps[0][i].0), (0..nd).map(|a| sps[a][(i + 5 * a) % m].1).collect()));
                    for a in (0..nd).filter(|a| !heavy || *a == 0 || *a == nd - 1) {
                        pts.push((format!("{} on axis {a}", sps[a][i].0), (0..nd).map(|b| if a == b { sps[b][i].1 } else { sps[b][4].1 }).collect()));
                    }
                }
                if nd == 2 || (nd == 3 && small) {
                    for c in cart(&(0..nd).map(|_| (0..m).collect::<Vec<_>>()).collect::<Vec<_>>()) {
                        pts.push(("product".to_string(), c.iter().enumerate().map(|(a, &i)| sps[a][i].1).collect()));
                    }
                }
                for &e in &es {
                    let d = dp.entry(e).or_insert(Depths { small: HashMap::new(), worst: 0 });
                    // one point at a time
                    for (w, x) in &pts {
                        let cols: Vec<&[T]> = x.iter().map(std::slice::from_ref).collect();
                        let mut out = [T::nan()];
                        nst += 1;
                        let c = measure(&mut || {
                            let _ = std::hint::black_box(if regular { eval(&p, e, &cols, &mut out) } else { eval_rect_with(&p, &gs, e, &cols, &mut out) });
                        });
                        if !judge(rep, &k, d, "eval", small, c, &|| format!("{e:?}, dims {dims:?}, one point, {w} {x:?}")) {
                            return;
                        }
                    }
                    // batches of growing length: the good points in turn, then with a failing one at the end
                    let good: Vec<&Vec<T>> = pts.iter().map(|p| &p.1).filter(|x| x.iter().all(|v| v.is_finite())).collect();
                    let top = if nd <= 3 && long > 1000 && small { 100_000 } else { 3000 };
                    for l in [0usize, 2, 3, 7, 8, 9, 63, 64, 65, 1000, 1025, 3000, 100_000] {
                        let work = l * min.pow(nd as u32);
                        if l > top || (!small && l > 70 && l != 1025) || (l > 3 && work > budget) {
                            continue;
                        }
                        for bad in [false, true] {
                            if l > 1025 && bad {
                                continue;
                            }
                            let mut cols: Vec<Vec<T>> = (0..nd).map(|a| (0..l).map(|i| good[i % good.len()][a]).collect()).collect();
                            if bad && l > 0 {
                                cols[nd - 1][l - 1] = T::nan();
                            }
                            let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                            let mut out = vec![T::nan(); l];
                            nst += 1;
                            let c = measure(&mut || {
                                let _ = std::hint::black_box(if regular { eval(&p, e, &os, &mut out) } else { eval_rect_with(&p, &gs, e, &os, &mut out) });
                            });
                            if !judge(rep, &k, d, "eval", false, c, &|| format!("{e:?}, dims {dims:?}, batch of {l}, last bad: {bad}")) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        // malformed arguments: the failing paths
        let b = vh::dev::base::<T>(kind, regular, lin, nd, 3, false);
        for dv in devs(nd, regular) {
            let mut r = b.clone();
            apply(&mut r, dv, min);
            let os: Vec<&[T]> = r.obs.iter().map(|o| &o[..]).collect();
            let gs: Vec<&[T]> = r.p.grids.iter().map(|g| &g[..]).collect();
            for &e in &es {
                // the entry points that take one point never see ragged lists
                if matches!(e, Entry::FlatOne | Entry::RecOne(_)) && os.iter().any(|o| o.len() < r.out) {
                    continue;
                }
                let d = dp.get_mut(&e).unwrap();
                let mut out = vec![T::nan(); r.out];
                nst += 1;
                let c = measure(&mut || {
                    let _ = std::hint::black_box(if regular { eval(&r.p, e, &os, &mut out) } else { eval_rect_with(&r.p, &gs, e, &os, &mut out) });
                });
                if !judge(rep, &k, d, "eval", false, c, &|| format!("{e:?}, malformed: {dv:?}")) {
                    return;
                }
            }
        }
        let w = dp.values().map(|d| d.worst).max().unwrap_or(0);
        rep.ratio(w as f64 / PAINT as f64, || format!("{k}: at most {w} bytes of stack"));
        rep.sample(|| format!("{k}: {nst} calls, at most {w} bytes of stack"));
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn bounds<T: Elt>(rep: &Rep, nd: usize) {
    let k = format!("check_bounds/{}/{nd}D", T::NAME);
    rep.case(&k, || {
        let mut dp: Vec<Depths> = (0..4).map(|_| Depths { small: HashMap::new(), worst: 0 }).collect();
        let mut nst = 0;
        for (n, small) in [(2usize, true), (3, true), (5, true), (64, false), (5000, false), (200_000, false)] {
            let ax: Vec<(T, T, Vec<T>)> = (0..nd).map(|a| axis::<T>(Spacing::EvenGeneric, if a == 0 { n } else { n.min(1000) }, a)).collect();
            let dims: Vec<usize> = ax.iter().map(|x| x.2.len()).collect();
            let st: Vec<T> = ax.iter().map(|x| x.0).collect();
            let sp: Vec<T> = ax.iter().map(|x| x.1).collect();
            let gs: Vec<&[T]> = ax.iter().map(|x| &x.2[..]).collect();
            for l in [1usize, 0, 2, 13, 65, 1000, 100_000] {
                for off in 0..3usize {
                    let cols: Vec<Vec<T>> = (0..nd)
                        .map(|a| {
                            let s = spots(&ax[a].2);
                            (0..l).map(|i| if off == 0 { s[4].1 } else { s[(i + 3 * off + a) % s.len()].1 }).collect()
                        })
                        .collect();
                    let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                    for f in 0..4usize {
                        // right and wrong numbers of flags, axes and grids
                        for wrong in 0..4 {
                            let mut flags = vec![false; if wrong == 1 { nd + 1 } else { nd }];
                            let o = if wrong == 2 { &os[..nd - 1] } else { &os[..] };
                            let s = if wrong == 3 { &st[..nd - 1] } else { &st[..] };
                            let g = if wrong == 3 { &gs[..nd - 1] } else { &gs[..] };
                            nst += 1;
                            let c = measure(&mut || {
                                let _ = std::hint::black_box(match f {
                                    0 => multilinear::regular::check_bounds(&dims, s, &sp, o, T::of(1e-3), &mut flags),
                                    1 => multilinear::regular_recursive::check_bounds(&dims, s, &sp, o, T::of(1e-3), &mut flags),
                                    2 => multilinear::rectilinear::check_bounds(g, o, T::of(1e-3), &mut flags),
                                    _ => multilinear::rectilinear_recursive::check_bounds(g, o, T::of(1e-3), &mut flags),
                                });
                            });
                            if !judge(rep, &k, &mut dp[f], "b", small && l < 14 && l > 0, c, &|| format!("function {f}, dims {dims:?}, {l} points, kind {off}, mismatch {wrong}")) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), nst);
    });
}

/// The cubic modules re-export their own bounds checks where they have them; here only the 1-D interpolators.
fn one<T: Elt>(rep: &Rep, regular: bool) {
    let k = format!("one_dim/{}/{}", T::NAME, if regular { "regular" } else { "rectilinear" });
    rep.case(&k, || {
        let mut dp: HashMap<(Rule, How), Depths> = HashMap::new();
        let mut nst = 0;
        for n in [2usize, 3, 4, 5, 33, 1000, 65_537, 1_000_003] {
            let (s, h, g) = axis::<T>(if regular { Spacing::EvenDyadic } else { Spacing::UnevenDyadic }, n, 0);
            let vals = dense::<T>(n, 1);
            let gr = if regular { G1::Reg(s, h) } else { G1::Rect(&g) };
            let sps = spots(&g);
            for rule in Rule::ALL {
                for how in [How::Batch, How::One] {
                    let d = dp.entry((rule, how)).or_insert(Depths { small: HashMap::new(), worst: 0 });
                    let mut lists: Vec<Vec<T>> = sps.iter().map(|s| vec![s.1]).collect();
                    for l in [0usize, 2, 3, 65, 1000, 100_000] {
                        lists.push((0..l).map(|i| sps[i % 10].1).collect());
                        lists.push((0..l).map(|i| if i + 1 == l { T::nan() } else { sps[i % 10].1 }).collect());
                    }
                    for l in &lists {
                        // right and wrong output lengths, right and wrong value counts
                        for wrong in 0..4 {
                            if wrong > 0 && how == How::One {
                                continue;
                            }
                            let mut out = vec![T::nan(); if wrong == 1 { l.len() + 1 } else { l.len() }];
                            let v = match wrong {
                                2 => &vals[..n - 1],
                                3 => &vals[..1],
                                _ => &vals[..],
                            };
                            nst += 1;
                            let c = measure(&mut || {
                                let _ = std::hint::black_box(eval1(&gr, v, rule, how, l, &mut out));
                            });
                            if !judge(rep, &k, d, "1", n <= 5 && l.len() <= 3, c, &|| format!("{rule:?} {how:?}, {n} nodes, {} points from {:?}, mismatch {wrong}", l.len(), l.first())) {
                                return;
                            }
                        }
                    }
                }
            }
            let _ = (RectilinearGrid1D::new(&g, &vals).is_ok(), RegularGrid1D::new(s, h, &vals).is_ok());
        }
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn main() {
    let rep = Rep::new("C15");
    // the instruments work: an allocation and deep stack use are seen
    {
        let c = measure(&mut || {
            std::hint::black_box(vec![1u8; 3]);
        });
        #[inline(never)]
        fn deep(n: usize) -> usize {
            let a = std::hint::black_box([n as u8; 512]);
            if n == 0 { a[0] as usize } else { deep(n - 1) + a[1] as usize }
        }
        let d = measure(&mut || {
            std::hint::black_box(deep(20));
        });
        if c.alloc != 2 || d.depth < 18 * 512 || d.alloc != 0 {
            eprintln!("instruments do not work: {} {}", c.alloc, d.depth);
            std::process::exit(3);
        }
    }
    let mut v = vec![];
    for (k, r, l) in methods() {
        for nd in 1..=k.max_dims() {
            v.push((k, r, l, nd));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == Kind::Cubic, x.3)));
    rep.par(&v, |&(k, r, l, nd)| {
        run::<f64>(&rep, k, r, l, nd);
        run::<f32>(&rep, k, r, l, nd);
    });
    rep.par(&(1..=8usize).collect::<Vec<_>>(), |&nd| {
        bounds::<f64>(&rep, nd);
        bounds::<f32>(&rep, nd);
    });
    rep.par(&[true, false], |&r| {
        one::<f64>(&rep, r);
        one::<f32>(&rep, r);
    });
    rep.finish()
}
