//! Numeric domains: interval sets and linear expressions over atoms.
use std::rc::Rc;

pub type AtomId = u32;
pub const INF: i128 = 1 << 100;

/// A set of integers as sorted, disjoint, non-adjacent closed intervals.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ISet(pub Rc<Vec<(i128, i128)>>);

impl ISet {
    pub fn new(mut v: Vec<(i128, i128)>) -> ISet {
        v.retain(|(a, b)| a <= b);
        v.sort();
        let mut out: Vec<(i128, i128)> = Vec::with_capacity(v.len());
        for (a, b) in v {
            match out.last_mut() {
                Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
                _ => out.push((a, b)),
            }
        }
        ISet(Rc::new(out))
    }
    pub fn range(a: i128, b: i128) -> ISet { ISet::new(vec![(a, b)]) }
    pub fn single(a: i128) -> ISet { ISet::range(a, a) }
    pub fn empty() -> ISet { ISet(Rc::new(vec![])) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn min(&self) -> i128 { self.0[0].0 }
    pub fn max(&self) -> i128 { self.0[self.0.len() - 1].1 }
    pub fn as_single(&self) -> Option<i128> {
        if self.0.len() == 1 && self.0[0].0 == self.0[0].1 { Some(self.0[0].0) } else { None }
    }
    pub fn contains(&self, x: i128) -> bool {
        self.0.binary_search_by(|&(a, b)| if b < x { std::cmp::Ordering::Less } else if a > x { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }).is_ok()
    }
    pub fn count(&self) -> i128 { self.0.iter().map(|(a, b)| b - a + 1).sum() }
    pub fn intersect(&self, o: &ISet) -> ISet {
        let (mut i, mut j) = (0, 0);
        let mut out = vec![];
        while i < self.0.len() && j < o.0.len() {
            let a = self.0[i].0.max(o.0[j].0);
            let b = self.0[i].1.min(o.0[j].1);
            if a <= b { out.push((a, b)); }
            if self.0[i].1 < o.0[j].1 { i += 1 } else { j += 1 }
        }
        ISet(Rc::new(out))
    }
    /// Complement within [-INF, INF].
    pub fn complement(&self) -> ISet {
        let mut out = vec![];
        let mut p = -INF;
        for &(a, b) in self.0.iter() {
            if a > p { out.push((p, a - 1)); }
            p = b + 1;
        }
        if p <= INF { out.push((p, INF)); }
        ISet(Rc::new(out))
    }
    pub fn minus(&self, o: &ISet) -> ISet { self.intersect(&o.complement()) }
    pub fn union(&self, o: &ISet) -> ISet {
        let mut v = (*self.0).clone();
        v.extend(o.0.iter());
        ISet::new(v)
    }
    pub fn subset_of(&self, o: &ISet) -> bool { self.minus(o).is_empty() }
    /// { (x - c) / k : x in self, k | x - c }
    pub fn unaffine(&self, k: i128, c: i128) -> ISet {
        let mut out = vec![];
        for &(a, b) in self.0.iter() {
            let (lo, hi) = if k > 0 { (a, b) } else { (b, a) };
            let l = if lo.abs() >= INF { if k > 0 { -INF } else { -INF } } else { div_ceil(lo - c, k) };
            let h = if hi.abs() >= INF { INF } else { div_floor(hi - c, k) };
            if l <= h { out.push((l, h)); }
        }
        ISet::new(out)
    }
    pub fn show_chars(&self) -> String {
        let f = |x: i128| match u32::try_from(x).ok().and_then(char::from_u32) {
            Some(c) => format!("{:?}", c),
            None => format!("{}", x),
        };
        let mut s = String::from("{");
        for (i, &(a, b)) in self.0.iter().enumerate() {
            if i > 0 { s.push(' ') }
            if i > 7 { s.push_str("..."); break; }
            if a == b { s += &f(a) } else { s += &format!("{}-{}", f(a), if b >= INF { "inf".into() } else { f(b) }) }
        }
        s.push('}');
        s
    }
}
pub fn div_floor(a: i128, b: i128) -> i128 { let q = a / b; if (a % b != 0) && ((a < 0) != (b < 0)) { q - 1 } else { q } }
pub fn div_ceil(a: i128, b: i128) -> i128 { -div_floor(-a, b) }

/// c + sum k*atom
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Lin { pub c: i128, pub t: Vec<(AtomId, i128)> }
impl Lin {
    pub fn k(c: i128) -> Lin { Lin { c, t: vec![] } }
    pub fn atom(a: AtomId) -> Lin { Lin { c: 0, t: vec![(a, 1)] } }
    pub fn konst(&self) -> Option<i128> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn add(&self, o: &Lin) -> Lin { self.axpy(1, o) }
    pub fn sub(&self, o: &Lin) -> Lin { self.axpy(-1, o) }
    pub fn addk(&self, k: i128) -> Lin { Lin { c: self.c.saturating_add(k), t: self.t.clone() } }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 { return Lin::k(0); }
        Lin { c: self.c.saturating_mul(k), t: self.t.iter().map(|&(a, b)| (a, b * k)).collect() }
    }
    /// self + k*o
    pub fn axpy(&self, k: i128, o: &Lin) -> Lin {
        if o.t.is_empty() { return self.addk(o.c.saturating_mul(k)); }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1 * k)); j += 1; }
            else {
                let s = self.t[i].1 + o.t[j].1 * k;
                if s != 0 { t.push((self.t[i].0, s)); }
                i += 1; j += 1;
            }
        }
        Lin { c: self.c.saturating_add(o.c.saturating_mul(k)), t }
    }
    pub fn subst(&self, a: AtomId, v: &Lin) -> Lin {
        match self.t.iter().position(|x| x.0 == a) {
            None => self.clone(),
            Some(i) => {
                let mut r = self.clone();
                let (_, k) = r.t.remove(i);
                r.axpy(k, v)
            }
        }
    }
}
