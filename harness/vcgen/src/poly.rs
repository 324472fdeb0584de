//! Exact multivariate polynomials and rational functions over interned atoms.
use crate::rat::Rat;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub type Atom = u32;

/// Product of atom powers, sorted by atom. Ordered lexicographically (lower atom dominates):
/// an admissible monomial order.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Mono(pub Vec<(Atom, u32)>);
impl Mono {
    pub fn one() -> Mono {
        Mono(vec![])
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                Ordering::Less => {
                    r.push(a[i]);
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b[j]);
                    j += 1
                }
                Ordering::Equal => {
                    r.push((a[i].0, a[i].1 + b[j].1));
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Mono(r)
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = Vec::with_capacity(self.0.len());
        let mut j = 0;
        for &(a, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 == a {
                if e < o.0[j].1 {
                    return None;
                }
                if e > o.0[j].1 {
                    r.push((a, e - o.0[j].1));
                }
                j += 1;
            } else {
                if j < o.0.len() && o.0[j].0 < a {
                    return None;
                }
                r.push((a, e));
            }
        }
        if j < o.0.len() {
            return None;
        }
        Some(Mono(r))
    }
    pub fn exp(&self, a: Atom) -> u32 {
        self.0.iter().find(|x| x.0 == a).map_or(0, |x| x.1)
    }
    pub fn gcd(&self, o: &Mono) -> Mono {
        Mono(self.0.iter().filter_map(|&(a, e)| { let f = e.min(o.exp(a)); if f > 0 { Some((a, f)) } else { None } }).collect())
    }
    pub fn without(&self, a: Atom) -> Mono {
        Mono(self.0.iter().copied().filter(|x| x.0 != a).collect())
    }
}
impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Mono) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Mono {
    fn cmp(&self, o: &Mono) -> Ordering {
        let mut i = 0;
        loop {
            match (self.0.get(i), o.0.get(i)) {
                (None, None) => return Ordering::Equal,
                (Some(_), None) => return Ordering::Greater,
                (None, Some(_)) => return Ordering::Less,
                (Some(x), Some(y)) => {
                    if x.0 != y.0 {
                        return if x.0 < y.0 { Ordering::Greater } else { Ordering::Less };
                    }
                    if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                }
            }
            i += 1;
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, Rat>);
pub const MAX_TERMS: usize = 60_000;
pub struct TooBig;
impl Poly {
    pub fn zero() -> Poly {
        Poly(BTreeMap::new())
    }
    pub fn konst(r: Rat) -> Poly {
        let mut p = Poly::zero();
        if !r.is_zero() {
            p.0.insert(Mono::one(), r);
        }
        p
    }
    pub fn one() -> Poly {
        Poly::konst(Rat::ONE)
    }
    pub fn atom(a: Atom) -> Poly {
        Poly::mono(Mono(vec![(a, 1)]), Rat::ONE)
    }
    pub fn mono(m: Mono, c: Rat) -> Poly {
        let mut p = Poly::zero();
        if !c.is_zero() {
            p.0.insert(m, c);
        }
        p
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::ZERO),
            1 => {
                let (m, c) = self.0.iter().next().unwrap();
                if m.0.is_empty() {
                    Some(*c)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn is_one(&self) -> bool {
        self.is_const() == Some(Rat::ONE)
    }
    pub fn lead(&self) -> (&Mono, Rat) {
        let (m, c) = self.0.iter().next_back().unwrap();
        (m, *c)
    }
    pub fn add_term(&mut self, m: Mono, c: Rat) {
        use std::collections::btree_map::Entry::*;
        if c.is_zero() {
            return;
        }
        match self.0.entry(m) {
            Vacant(e) => {
                e.insert(c);
            }
            Occupied(mut e) => {
                let s = *e.get() + c;
                if s.is_zero() {
                    e.remove();
                } else {
                    e.insert(s);
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m.clone(), *c);
        }
        r
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m.clone(), -*c);
        }
        r
    }
    pub fn neg(&self) -> Poly {
        self.scale(Rat::int(-1))
    }
    pub fn scale(&self, k: Rat) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), *c * k)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(k) = self.is_const() {
            return o.scale(k);
        }
        if let Some(k) = o.is_const() {
            return self.scale(k);
        }
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                r.add_term(m.mul(n), *c * *d);
            }
            if r.0.len() > MAX_TERMS {
                std::panic::panic_any(TooBig);
            }
        }
        r
    }
    pub fn mul_mono(&self, n: &Mono, k: Rat) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.mul(n), *c * k)).collect())
    }
    pub fn pow(&self, k: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    /// gcd of the monomials
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.keys();
        let mut g = match it.next() {
            None => return Mono::one(),
            Some(m) => m.clone(),
        };
        for m in it {
            if g.0.is_empty() {
                break;
            }
            g = g.gcd(m);
        }
        g
    }
    pub fn div_mono(&self, d: &Mono) -> Poly {
        if d.0.is_empty() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (m.div(d).unwrap(), *c)).collect())
    }
    pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
        if let Some(k) = o.is_const() {
            return Some(self.scale(k.inv()));
        }
        let (lm, lc) = o.lead();
        let lm = lm.clone();
        // cheap rejection: the trailing monomials must divide as well
        if !self.is_zero() {
            let t = o.0.keys().next().unwrap();
            let s = self.0.keys().next().unwrap();
            s.div(t)?;
        }
        let mut r = self.clone();
        let mut q = Poly::zero();
        while !r.is_zero() {
            let (m, c) = r.lead();
            let qm = m.div(&lm)?;
            let qc = c / lc;
            for (n, d) in &o.0 {
                r.add_term(qm.mul(n), -(qc * *d));
            }
            q.0.insert(qm, qc);
            if q.0.len() > MAX_TERMS {
                return None;
            }
        }
        Some(q)
    }
    /// (c, p) with self = c*p and p of leading coefficient one
    pub fn monic(&self) -> (Rat, Poly) {
        if self.is_zero() {
            return (Rat::ZERO, Poly::zero());
        }
        let c = self.lead().1;
        if c == Rat::ONE {
            (c, self.clone())
        } else {
            (c, self.scale(c.inv()))
        }
    }
    /// q with q*q == self, if there is one
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let half = |m: &Mono| -> Option<Mono> {
            let mut v = vec![];
            for &(a, e) in &m.0 {
                if e % 2 != 0 {
                    return None;
                }
                v.push((a, e / 2));
            }
            Some(Mono(v))
        };
        let (lm, lc) = self.lead();
        half(self.0.keys().next().unwrap())?;
        let qm = half(lm)?;
        let qc = lc.sqrt_exact()?;
        let mut q = Poly::mono(qm.clone(), qc);
        let mut r = self.sub(&q.mul(&q));
        for _ in 0..self.0.len() + 1 {
            if r.is_zero() {
                return Some(q);
            }
            let (m, c) = r.lead();
            let tm = m.div(&qm)?;
            if tm >= *q.0.keys().next().unwrap() {
                return None;
            }
            let t = Poly::mono(tm, c / (qc * Rat::int(2)));
            r = r.sub(&q.scale(Rat::int(2)).mul(&t)).sub(&t.mul(&t));
            q = q.add(&t);
        }
        None
    }
    pub fn degree_in(&self, a: Atom) -> u32 {
        self.0.keys().map(|m| m.exp(a)).max().unwrap_or(0)
    }
    pub fn atoms(&self, out: &mut Vec<Atom>) {
        for m in self.0.keys() {
            for &(a, _) in &m.0 {
                if !out.contains(&a) {
                    out.push(a);
                }
            }
        }
    }
    pub fn total_degree(&self) -> u32 {
        self.0.keys().map(|m| m.0.iter().map(|x| x.1).sum()).max().unwrap_or(0)
    }
}

/// num / prod(den_i ^ e_i); den factors monic, nonconstant.
#[derive(Clone, Debug)]
pub struct Rf {
    pub n: Poly,
    pub d: Vec<(Poly, u32)>,
}
impl Rf {
    pub fn poly(n: Poly) -> Rf {
        Rf { n, d: vec![] }
    }
    pub fn konst(r: Rat) -> Rf {
        Rf::poly(Poly::konst(r))
    }
    pub fn int(n: i128) -> Rf {
        Rf::konst(Rat::int(n))
    }
    pub fn is_const(&self) -> Option<Rat> {
        if self.n.is_zero() {
            return Some(Rat::ZERO);
        }
        if self.d.is_empty() {
            self.n.is_const()
        } else {
            None
        }
    }
    pub fn neg(&self) -> Rf {
        Rf { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn scale(&self, k: Rat) -> Rf {
        if k.is_zero() {
            return Rf::int(0);
        }
        Rf { n: self.n.scale(k), d: self.d.clone() }
    }
    pub fn add(&self, o: &Rf) -> Rf {
        if self.d.is_empty() && o.d.is_empty() {
            return Rf::poly(self.n.add(&o.n));
        }
        let mut d = self.d.clone();
        for (f, e) in &o.d {
            match d.iter_mut().find(|x| x.0 == *f) {
                Some(x) => x.1 = x.1.max(*e),
                None => d.push((f.clone(), *e)),
            }
        }
        let lift = |r: &Rf| -> Poly {
            let mut n = r.n.clone();
            for (f, e) in &d {
                let have = r.d.iter().find(|x| x.0 == *f).map_or(0, |x| x.1);
                for _ in have..*e {
                    n = n.mul(f);
                }
            }
            n
        };
        let n = lift(self).add(&lift(o));
        Rf { n, d }.cancel()
    }
    pub fn sub(&self, o: &Rf) -> Rf {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rf) -> Rf {
        let mut d = self.d.clone();
        for (f, e) in &o.d {
            match d.iter_mut().find(|x| x.0 == *f) {
                Some(x) => x.1 += *e,
                None => d.push((f.clone(), *e)),
            }
        }
        // cancel crosswise before multiplying out
        let mut a = self.n.clone();
        let mut b = o.n.clone();
        if !d.is_empty() {
            for x in d.iter_mut() {
                while x.1 > 0 {
                    if let Some(q) = a.div_exact(&x.0) {
                        a = q;
                        x.1 -= 1;
                    } else if let Some(q) = b.div_exact(&x.0) {
                        b = q;
                        x.1 -= 1;
                    } else {
                        break;
                    }
                }
            }
            d.retain(|x| x.1 > 0);
        }
        let n = a.mul(&b);
        if n.is_zero() {
            d.clear();
        }
        Rf { n, d }
    }
    pub fn pow(&self, k: u32) -> Rf {
        let mut r = Rf::int(1);
        for _ in 0..k {
            r = r.mul(self);
        }
        r
    }
    pub fn cancel(mut self) -> Rf {
        if self.n.is_zero() {
            self.d.clear();
            return self;
        }
        for x in self.d.iter_mut() {
            while x.1 > 0 {
                match self.n.div_exact(&x.0) {
                    Some(q) => {
                        self.n = q;
                        x.1 -= 1;
                    }
                    None => break,
                }
            }
        }
        self.d.retain(|x| x.1 > 0);
        self
    }
    /// a polynomial with the same sign as self wherever self is defined
    pub fn sign_poly(&self) -> Poly {
        let mut n = self.n.clone();
        for (f, e) in &self.d {
            if e % 2 == 1 {
                n = n.mul(f);
            }
        }
        n
    }
    pub fn den_poly(&self) -> Poly {
        let mut n = Poly::one();
        for (f, e) in &self.d {
            n = n.mul(&f.pow(*e));
        }
        n
    }
    pub fn atoms(&self, out: &mut Vec<Atom>) {
        self.n.atoms(out);
        for (f, _) in &self.d {
            f.atoms(out);
        }
    }
}
