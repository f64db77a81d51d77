//! The enumeration of configurations shared by the value checks (C01-C04).
use crate::conf::*;
use crate::gen_::*;
use crate::iface::*;
use crate::num::Elt;
use crate::report::Rep;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Region {
    Everywhere,
    Inside,
}

#[derive(Clone, Debug)]
pub enum Table {
    Dense(u64),
    OneHot(usize),
    /// dense, times a power of two
    Scaled(i32),
    /// flat cells
    Plateau(usize),
    /// symmetric about the middle of every axis (so the first value equals the last)
    Mirror,
    /// falls and rises through every value once: strictly increasing in C order
    Rising,
}

#[derive(Clone, Debug)]
pub struct Task {
    pub kind: Kind,
    pub regular: bool,
    pub lin: bool,
    pub sp: Vec<Spacing>,
    pub dims: Vec<usize>,
    pub lv: Vec<Level>,
    /// for pair designs: the axes whose whole position list is used; others use one position
    pub free: Option<(Vec<usize>, usize)>,
    pub orders: Vec<Order>,
    pub table: Table,
    pub far: bool,
    /// the same coordinates on every axis: at most this many
    pub shared: usize,
    pub few_entries: bool,
    pub region: Region,
}

impl Task {
    pub fn run<T: Elt>(&self, rep: &Rep) {
        let mut p = problem::<T>(self.kind, self.regular, self.lin, &self.sp, &self.dims, 1);
        match self.table {
            Table::Dense(s) => p.vals = dense(p.vals.len(), s),
            Table::Scaled(e) => {
                let e = if T::EPS > 1e-10 { e.clamp(-100, 100) } else { e };
                let f = T::of(2f64.powi(e));
                p.vals = dense::<T>(p.vals.len(), 5).into_iter().map(|v| v * f).collect();
            }
            Table::Mirror => {
                let d = dense::<T>(p.vals.len(), 9);
                p.vals = (0..d.len())
                    .map(|i| {
                        let (mut r, mut j, mut st) = (i, 0, 1);
                        for &n in self.dims.iter().rev() {
                            let k = r % n;
                            j += k.min(n - 1 - k) * st;
                            st *= n;
                            r /= n;
                        }
                        d[j]
                    })
                    .collect();
            }
            Table::Rising => {
                let mut x = -3.0;
                p.vals = (0..p.vals.len())
                    .map(|i| {
                        x += 0.0078125 * (1 + crate::report::mix(i as u64) % 9) as f64;
                        T::of(x)
                    })
                    .collect();
            }
            Table::Plateau(off) => p.vals = plateau(&self.dims, off),
            Table::OneHot(i) => {
                p.vals.iter_mut().for_each(|v| *v = T::zero());
                p.vals[i] = T::of(0.75);
            }
        }
        let mut pos: Vec<Vec<T>> = (0..self.dims.len()).map(|a| positions(&p.grids[a], self.lv[a])).collect();
        if self.far {
            for a in 0..pos.len() {
                let g = &p.grids[a];
                let span = g[g.len() - 1] - g[0];
                pos[a].insert(0, g[0] - span * T::of(1.0e6));
                if self.dims.len() == 1 || T::EPS < 1e-10 {
                    pos[a].push(g[0] - span * T::of(1.25e12));
                    pos[a].push(g[g.len() - 1] + span * T::of(1.25e12));
                }
                pos[a].push(g[g.len() - 1] + span * T::of(1.0e6));
                pos[a].push(g[g.len() - 1] + span * T::of(1024.5));
            }
        }
        if self.shared > 0 {
            let mut v: Vec<T> = vec![];
            for g in &p.grids {
                let k = g.len() / 2;
                v.extend([g[k], g[k - 1] + (g[k] - g[k - 1]) * T::of(0.25), g[0], g[g.len() - 1], g[0] + (g[1] - g[0]) * T::of(0.5)]);
            }
            if self.region == Region::Inside {
                v.retain(|x| p.grids.iter().all(|g| g[0] < *x && *x < g[g.len() - 1]));
            }
            let n = v.len();
            if n > self.shared {
                // spread over the axes' own values
                v = (0..self.shared).map(|i| v[i * n / self.shared]).collect();
            }
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            if v.is_empty() {
                return;
            }
            pos = vec![v; self.dims.len()];
        }
        if self.region == Region::Inside {
            for a in 0..pos.len() {
                // strictly by the rounded nodes the implementation sees: keep a point only if it is
                // inside for the exact nodes as well
                let nd = ref_nodes(&p, a);
                let (lo, hi) = (nd[0], nd[nd.len() - 1]);
                pos[a].retain(|x| x.dd() >= lo && x.dd() <= hi);
            }
        }
        if let Some((fr, shift)) = &self.free {
            for a in 0..pos.len() {
                if !fr.contains(&a) {
                    let k = (a * 7 + shift) % pos[a].len();
                    pos[a] = vec![pos[a][k]];
                }
            }
        }
        let nd = self.dims.len();
        let mut ents = entries(self.kind, nd);
        if self.few_entries {
            let one = self.kind == Kind::Cubic && nd >= 7 && self.lv.iter().all(|l| *l == Level::Sides);
            ents.retain(|e| match e {
                Entry::RecFn | Entry::Flat | Entry::Rec(_) if one => false,
                Entry::Fn | Entry::RecFn | Entry::Flat => true,
                Entry::Rec(m) => *m == 8.max(nd),
                _ => false,
            });
        }
        let exact = self.sp.iter().all(|s| s.exact());
        let sp = crate::shapes::sp_tag(&self.sp);
        let lv: String = self.lv.iter().map(|l| format!("{l:?}").chars().next().unwrap()).collect();
        let tag = format!("{sp}/{lv}/{:?}/{:?}/{:?}/far={}/{}", self.free, self.table, self.orders, self.far, self.shared);
        check_product(rep, &p, &pos, &ents, &self.orders, exact, &tag.replace(' ', ""));
    }
}

/// All tasks for one method. `lins`: settings of the cubic switch.
pub fn tasks(kind: Kind, lins: &[bool], region: Region, thorough: bool) -> Vec<Task> {
    let m = kind.min_n();
    let mut v: Vec<Task> = vec![];
    let sps = |regular: bool| -> Vec<Spacing> {
        Spacing::ALL.iter().copied().filter(|s| !regular || s.even()).collect()
    };
    for &lin in lins {
        for regular in [true, false] {
            let base = |dims: Vec<usize>, sp: Vec<Spacing>, lv: Vec<Level>| Task {
                kind, regular, lin, sp, dims, lv, free: None, orders: vec![Order::C], table: Table::Dense(7),
                far: false, shared: 0, few_entries: false, region,
            };
            // 1-D: every length up to m+6, every spacing, all positions, all entries, several orders
            for s in sps(regular) {
                for n in m..=m + 6 {
                    let mut t = base(vec![n], vec![s], vec![Level::Full]);
                    t.orders = vec![Order::C, Order::Rev, Order::Tour];
                    t.far = true;
                    v.push(t.clone());
                    t.orders = vec![Order::C];
                    for k in 0..n {
                        t.table = Table::OneHot(k);
                        v.push(t.clone());
                    }
                    let mut t = base(vec![n], vec![s], vec![Level::Core]);
                    t.orders = vec![Order::Tour3];
                    v.push(t);
                }
                for n in [m, m + 1, m + 3] {
                    v.push(base(vec![n], vec![s], vec![Level::Fine]));
                }
                for n in [m, m + 1, m + 2, m + 5] {
                    for tb in [Table::Mirror, Table::Rising, Table::Scaled(60), Table::Scaled(-80), Table::Scaled(900), Table::Scaled(-900), Table::Plateau(0), Table::Plateau(1)] {
                        let mut t = base(vec![n], vec![s], vec![Level::Full]);
                        t.table = tb;
                        v.push(t);
                    }
                }
                // long axes
                let mut longs = vec![17, 33, 65, 127, 128, 129, 255, 256, 257, 258, 511, 513, 1025, 4099];
                longs.push(65_540);
                for n in longs {
                    if s != Spacing::EvenDyadic && s != Spacing::UnevenGeneric && n > 300 && !(thorough && n < 5000) {
                        continue;
                    }
                    let mut t = base(vec![n], vec![s], vec![Level::Mid]);
                    t.orders = vec![Order::C, Order::Rev];
                    t.few_entries = n > 1100;
                    v.push(t);
                }
            }
            // almost even axes: alone, and each axis in turn
            if !regular {
                for n in m..=m + 9 {
                    v.push(base(vec![n], vec![Spacing::NearEven], vec![Level::Full]));
                }
                // one cell much wider or much narrower than the others: every cell, alone and each axis in turn
                for n in m..=m + 4 {
                    for c in 0..n - 1 {
                        for e in [-14, 12, 14, 30] {
                            v.push(base(vec![n], vec![Spacing::Odd(c as u8, e)], vec![Level::Full]));
                        }
                    }
                }
                // every pattern of wide and narrow cells
                for n in m.max(3)..=m + 3 {
                    for s in crate::shapes::bits(false, n) {
                        v.push(base(vec![n], vec![s], vec![Level::Full]));
                    }
                }
                for s in crate::shapes::bits(false, m + 2) {
                    for a in 0..3 {
                        let dims: Vec<usize> = (0..3).map(|b| if b == a { m + 2 } else { m }).collect();
                        let sp: Vec<Spacing> = (0..3).map(|b| if b == a { s } else { Spacing::UnevenGeneric }).collect();
                        let mut t = base(dims, sp, (0..3).map(|b| if b == a { Level::Mid } else { Level::Core }).collect());
                        t.free = Some((vec![a], a));
                        v.push(t);
                    }
                }
                for nd in 2..=kind.max_dims() {
                    for a in 0..nd {
                        let n = if kind == Kind::Cubic && nd > 5 { m } else { m + 2 };
                        for c in 0..n - 1 {
                            for e in if nd < 5 || thorough { vec![-14, 13] } else { vec![[-14, 13][(a + c) % 2]] } {
                                let dims: Vec<usize> = (0..nd).map(|b| if b == a { n } else { m }).collect();
                                let sp: Vec<Spacing> = (0..nd).map(|b| if b == a { Spacing::Odd(c as u8, e) } else { Spacing::UnevenGeneric }).collect();
                                let mut t = base(dims, sp, (0..nd).map(|b| if b == a { Level::Mid } else { Level::Core }).collect());
                                t.free = Some((vec![a], a + nd));
                                t.few_entries = true;
                                v.push(t);
                            }
                        }
                    }
                }
                for nd in 2..=kind.max_dims() {
                    for a in 0..nd {
                        for other in [Spacing::NearEven, Spacing::UnevenGeneric] {
                            let long = if kind == Kind::Cubic && nd > 5 { m + 1 } else { m + 4 };
                            let dims: Vec<usize> = (0..nd).map(|b| if b == a { long } else { m }).collect();
                            let sp: Vec<Spacing> = (0..nd).map(|b| if b == a { Spacing::NearEven } else { other }).collect();
                            let mut t = base(dims, sp, (0..nd).map(|b| if b == a { Level::Mid } else { Level::Core }).collect());
                            t.free = Some((vec![a], a + nd));
                            t.few_entries = true;
                            v.push(t);
                        }
                    }
                }
            }
            // the same coordinates on several axes whose grids differ
            let all = sps(regular);
            for nd in 2..=kind.max_dims() {
                for s in 0..all.len() {
                    for l in 0..2 {
                        let dims: Vec<usize> = (0..nd).map(|b| m + if nd < 5 { 2 + (b + l) % 3 } else { (b + l) % 2 }).collect();
                        if kind == Kind::Cubic && nd > 6 && s + l > 0 {
                            continue;
                        }
                        let sp: Vec<Spacing> = (0..nd).map(|b| all[(s + b) % all.len()]).collect();
                        let mut t = base(dims, sp, vec![Level::Core; nd]);
                        t.shared = [0, 0, 12, 9, 6, 4, 3, 2, 2][nd];
                        t.few_entries = nd > 3;
                        v.push(t);
                    }
                }
            }
            // 2-D
            for (i, &s0) in all.iter().enumerate() {
                for (j, &s1) in all.iter().enumerate() {
                    let lens: Vec<usize> = if thorough { vec![m, m + 1, m + 2, m + 3] } else { vec![m, m + 1, m + 3] };
                    for &a in &lens {
                        for &b in &lens {
                            let lv = if (i + j) % 2 == 0 || thorough { vec![Level::Full, Level::Full] } else { vec![Level::Mid, Level::Mid] };
                            let mut t = base(vec![a, b], vec![s0, s1], lv);
                            t.far = i == j;
                            v.push(t);
                            let mut t = base(vec![a, b], vec![s0, s1], vec![Level::Core, Level::Core]);
                            t.orders = vec![Order::Rev, Order::Tour];
                            v.push(t);
                        }
                    }
                    for (fr, lv) in [(0, vec![Level::Fine, Level::Core]), (1, vec![Level::Core, Level::Fine])] {
                        let mut t = base(vec![m + 1, m + 2], vec![s0, s1], lv);
                        t.free = (kind == Kind::Cubic).then(|| (vec![fr], i + j));
                        t.few_entries = true;
                        v.push(t);
                    }
                    for tb in [Table::Scaled(60), Table::Scaled(-80), Table::Scaled(900), Table::Scaled(-900), Table::Plateau(0), Table::Plateau(1)] {
                        let mut t = base(vec![m + 1, m + 2], vec![s0, s1], vec![Level::Mid, Level::Mid]);
                        t.table = tb;
                        v.push(t);
                    }
                    // one-hot over the whole smallest grid
                    for k in 0..(m + 1) * m {
                        let mut t = base(vec![m + 1, m], vec![s0, s1], vec![Level::Mid, Level::Mid]);
                        t.table = Table::OneHot(k);
                        v.push(t);
                    }
                }
            }
            for dims in [vec![300, m], vec![m, 300], vec![m + 1, 70], vec![260, 257]] {
                if dims[0] == 260 && !thorough && kind == Kind::Cubic {
                    continue;
                }
                let big = dims[0] * dims[1] > 10_000;
                for s in [all[0], all[all.len() - 1]] {
                    let mut t = base(dims.clone(), vec![s, s], vec![if big { Level::Core } else { Level::Mid }; 2]);
                    t.few_entries = true;
                    v.push(t);
                }
            }
            // 3-D and up: every axis-length pattern over {m, m+1}
            let mixes: Vec<usize> = (0..all.len()).collect();
            for nd in 3..=kind.max_dims() {
                let pats = power(&[m, m + 1], nd);
                for (pi, dims) in pats.iter().enumerate() {
                    let nbig = dims.iter().filter(|&&x| x > m).count();
                    // high-dimensional cubic tables get large: restrict to few larger axes there
                    let heavy = kind == Kind::Cubic && nd >= 5;
                    let keep = match (kind, nd) {
                        (Kind::Cubic, 5) => nbig <= 1 || pi == 0b01010 || (thorough && nbig <= 3),
                        (Kind::Cubic, 6..=8) => nbig == 0 || (nbig == 1 && (thorough || nd < 7)) || (nbig == 2 && thorough && nd < 8),
                        (_, 7 | 8) => thorough || nbig <= 2 || nbig == nd || pi % 5 == 0,
                        _ => true,
                    };
                    if !keep {
                        continue;
                    }
                    for shift in 0..(if heavy { 1 } else { mixes.len() }) {
                        let sp: Vec<Spacing> = (0..nd).map(|a| all[(a + shift + pi) % all.len()]).collect();
                        // uniform kinds of spacing decide ties exactly
                        let sp = if kind == Kind::Nearest && shift == 0 { vec![all[0]; nd] } else { sp };
                        let full_core = match kind {
                            Kind::Linear | Kind::Nearest => nd <= 4 || (nd <= 6 && (shift == 0 || thorough)) || nbig == 0 || (nbig == nd && shift == 0) || (thorough && nbig <= 1),
                            Kind::Cubic => nd <= 5 || (nbig == 0 && (nd <= if region == Region::Inside { 7 } else { 6 } || (thorough && nd <= if region == Region::Inside { 8 } else { 7 }))),
                        };
                        if nd == 3 && (shift == 0 || thorough) {
                            v.push(base(dims.clone(), sp.clone(), vec![Level::Mid; 3]));
                        }
                        if full_core {
                            let mut t = base(dims.clone(), sp.clone(), vec![Level::Core; nd]);
                            t.few_entries = nd >= 5;
                            v.push(t);
                        } else {
                            // all pairs of axes over all their cases, the others in changing positions
                            let pairs: Vec<(usize, usize)> = (0..nd).flat_map(|a| (a + 1..nd).map(move |b| (a, b))).collect();
                            for (q, (a, b)) in pairs.into_iter().enumerate() {
                                if heavy && nbig > 0 && !thorough && dims[a] == m && dims[b] == m {
                                    continue;
                                }
                                let mut t = base(dims.clone(), sp.clone(), vec![Level::Core; nd]);
                                t.free = Some((vec![a, b], q + pi));
                                t.few_entries = true;
                                v.push(t);
                            }
                        }
                    }
                }
                // every combination of below/inside/above over all axes on the smallest grid
                {
                    let mut t = base(vec![m; nd], vec![all[all.len() - 1]; nd], vec![Level::Sides; nd]);
                    t.few_entries = true;
                    v.push(t);
                }
                // every axis in turn at graded distances from nodes, midpoints and the ends
                for a in 0..nd {
                    let dims: Vec<usize> = (0..nd).map(|b| if b == a && (kind != Kind::Cubic || nd <= 6) { m + 1 } else { m }).collect();
                    for r in 0..if nd <= 4 { 2 } else { 1 } {
                        let sp: Vec<Spacing> = (0..nd).map(|b| all[(a + b + r * (all.len() / 2)) % all.len()]).collect();
                        let mut t = base(dims.clone(), sp, (0..nd).map(|b| if b == a { Level::Fine } else { Level::Core }).collect());
                        t.free = Some((vec![a], nd + a + r));
                        t.few_entries = true;
                        v.push(t);
                    }
                }
                // large, small and repeated values
                for tb in [Table::Scaled(60), Table::Scaled(-80), Table::Scaled(900), Table::Scaled(-900), Table::Plateau(0), Table::Plateau(1)] {
                    if nd > 5 {
                        continue;
                    }
                    let dims: Vec<usize> = (0..nd).map(|b| if nd <= 3 { m + 1 + b } else { m + (b % 2) }).collect();
                    let mut t = base(dims, vec![all[nd % all.len()]; nd], vec![if nd == 3 { Level::Mid } else { Level::Core }; nd]);
                    t.table = tb;
                    t.few_entries = true;
                    v.push(t);
                }
                // clearly different lengths
                if nd <= 4 {
                    let dims: Vec<usize> = [m + 3, m, m + 5, m + 1][..nd].to_vec();
                    let mut t = base(dims.clone(), vec![all[all.len() - 1]; nd], vec![if nd == 3 { Level::Mid } else { Level::Core }; nd]);
                    t.few_entries = true;
                    v.push(t.clone());
                    t.dims.reverse();
                    v.push(t);
                }
            }
        }
    }
    v
}

pub fn run(rep: &Rep, kind: Kind, lins: &[bool], region: Region) {
    let ts = tasks(kind, lins, region, rep.thorough);
    // heaviest first for load balance: later tasks tend to be the large ones
    let ts: Vec<Task> = ts.into_iter().rev().collect();
    rep.note("configurations_x_tables", 2 * ts.len() as u64);
    rep.par(&ts, |t| {
        t.run::<f64>(rep);
        t.run::<f32>(rep);
    });
}
