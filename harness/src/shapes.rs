//! Shared enumerations: spacing mixes, shapes, entry subsets.
use crate::gen_::*;
use crate::iface::*;

pub fn allowed(regular: bool) -> Vec<Spacing> {
    Spacing::ALL.iter().copied().filter(|s| !regular || s.even()).collect()
}
/// Every rotation of the allowed spacings over the axes.
pub fn mixes(regular: bool, nd: usize) -> Vec<Vec<Spacing>> {
    let a = allowed(regular);
    (0..a.len()).map(|k| (0..nd).map(|i| a[(i + k) % a.len()]).collect()).collect()
}
pub fn dyadic(regular: bool, nd: usize) -> Vec<Vec<Spacing>> {
    let mut v = vec![vec![Spacing::EvenDyadic; nd]];
    if !regular {
        v.push(vec![Spacing::UnevenDyadic; nd]);
    }
    v
}
pub fn few(kind: Kind, nd: usize) -> Vec<Entry> {
    let mut e = entries(kind, nd);
    e.retain(|e| match e {
        Entry::Fn | Entry::RecFn | Entry::Flat => true,
        Entry::Rec(m) => *m == 8.max(nd) || *m == nd,
        _ => false,
    });
    e
}
/// One entry per distinct implementation.
pub fn impls(kind: Kind, nd: usize) -> Vec<Entry> {
    let mut v = vec![];
    if nd <= kind.flat_max() {
        v.push(Entry::Flat);
    }
    if kind != Kind::Nearest {
        v.push(Entry::Rec(nd));
    }
    v
}
pub fn lins(kind: Kind) -> &'static [bool] {
    if kind == Kind::Cubic { &[true, false] } else { &[false] }
}
/// Rectilinear axes with one cell much wider or much narrower than the others.
pub fn odd(regular: bool, nd: usize) -> Vec<Vec<Spacing>> {
    if regular {
        return vec![];
    }
    let k = [(0, 13), (1, -14), (2, 12), (0, -13), (1, 14)];
    (0..if nd == 1 { 5 } else { 2 }).map(|s| (0..nd).map(|a| Spacing::Odd(k[(a + 3 * s) % 5].0, k[(a + 3 * s) % 5].1)).collect()).collect()
}
/// Every pattern of wide and narrow cells on one axis of `n` nodes.
pub fn bits(regular: bool, n: usize) -> Vec<Spacing> {
    if regular {
        return vec![];
    }
    [3, 7, 100].iter().flat_map(|&w| (1..(1u8 << (n - 1)) - 1).map(move |b| Spacing::Bits(b, w))).collect()
}
pub fn sp_tag(sp: &[Spacing]) -> String {
    sp.iter()
        .map(|s| match s {
            Spacing::Bits(b, w) => return format!("b{b}.{w}."),
            Spacing::Odd(c, e) => return format!("o{c}.{e}."),
            Spacing::EvenDyadic => 'd',
            Spacing::EvenGeneric => 'g',
            Spacing::UnevenDyadic => 'D',
            Spacing::UnevenGeneric => 'G',
            Spacing::NearEven => 'n',
        }.to_string())
        .collect()
}
/// All (kind, regular, lin) combinations.
pub fn methods() -> Vec<(Kind, bool, bool)> {
    let mut v = vec![];
    for k in Kind::ALL {
        for r in [true, false] {
            for &l in lins(k) {
                v.push((k, r, l));
            }
        }
    }
    v
}
