//! Ideal membership by Buchberger's algorithm (graded reverse lexicographic order), with limits.
use crate::poly::{Atom, Mono, Poly};
use crate::rat::Rat;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Eq)]
struct E(Vec<u8>);
impl E {
    fn deg(&self) -> u32 {
        self.0.iter().map(|x| *x as u32).sum()
    }
    fn div(&self, o: &E) -> Option<E> {
        let mut v = Vec::with_capacity(self.0.len());
        for (a, b) in self.0.iter().zip(&o.0) {
            v.push(a.checked_sub(*b)?);
        }
        Some(E(v))
    }
    fn mul(&self, o: &E) -> E {
        E(self.0.iter().zip(&o.0).map(|(a, b)| a.checked_add(*b).unwrap_or(255)).collect())
    }
    fn lcm(&self, o: &E) -> E {
        E(self.0.iter().zip(&o.0).map(|(a, b)| *a.max(b)).collect())
    }
    fn coprime(&self, o: &E) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| *a == 0 || *b == 0)
    }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.deg().cmp(&o.deg()).then_with(|| {
            for (a, b) in self.0.iter().zip(&o.0).rev() {
                if a != b {
                    return b.cmp(a);
                }
            }
            Ordering::Equal
        })
    }
}
type P = BTreeMap<E, Rat>;
fn add_scaled(p: &mut P, q: &P, m: &E, c: Rat) {
    for (e, k) in q {
        let key = e.mul(m);
        let v = match p.get(&key) {
            Some(x) => *x + *k * c,
            None => *k * c,
        };
        if v.is_zero() {
            p.remove(&key);
        } else {
            p.insert(key, v);
        }
    }
}
struct Limit;
fn reduce(mut p: P, basis: &[P], until: Instant) -> Result<P, Limit> {
    let mut out = P::new();
    let mut n = 0;
    while let Some((m, c)) = p.iter().next_back().map(|x| (x.0.clone(), *x.1)) {
        n += 1;
        if p.len() > 3000 || (n % 64 == 0 && Instant::now() > until) {
            return Err(Limit);
        }
        let hit = basis.iter().find_map(|b| {
            let (l, k) = b.iter().next_back().unwrap();
            m.div(l).map(|q| (b, q, *k))
        });
        match hit {
            Some((b, q, k)) => add_scaled(&mut p, b, &q, -(c * k.inv())),
            None => {
                p.remove(&m);
                out.insert(m, c);
            }
        }
    }
    Ok(out)
}
/// is `goal` in the ideal generated by `eqs`? `false` also when a limit is hit
pub fn member(goal: &Poly, eqs: &[Poly], budget: Duration) -> bool {
    let until = Instant::now() + budget;
    let mut atoms: Vec<Atom> = vec![];
    goal.atoms(&mut atoms);
    for q in eqs {
        q.atoms(&mut atoms);
    }
    atoms.sort();
    atoms.dedup();
    if atoms.len() > 60 {
        return false;
    }
    let conv = |p: &Poly| -> Option<P> {
        let mut out = P::new();
        for (m, c) in &p.0 {
            let mut v = vec![0u8; atoms.len()];
            for (a, e) in &m.0 {
                let i = atoms.binary_search(a).unwrap();
                v[i] = u8::try_from(*e).ok()?;
            }
            out.insert(E(v), *c);
        }
        Some(out)
    };
    let _ = Mono::one;
    let goal = match conv(goal) {
        Some(g) => g,
        None => return false,
    };
    let mut basis: Vec<P> = vec![];
    for q in eqs {
        if let Some(q) = conv(q) {
            if !q.is_empty() && !basis.contains(&q) {
                basis.push(q);
            }
        }
    }
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 0..basis.len() {
        for j in 0..i {
            pairs.push((j, i));
        }
    }
    match reduce(goal.clone(), &basis, until) {
        Ok(r) if r.is_empty() => return true,
        Err(_) => return false,
        _ => {}
    }
    let head = |b: &P| b.iter().next_back().unwrap().0.clone();
    let mut done = 0;
    while !pairs.is_empty() {
        // the pair of least degree first
        let (at, _) = pairs.iter().enumerate().min_by_key(|(_, (i, j))| head(&basis[*i]).lcm(&head(&basis[*j])).deg()).unwrap();
        let (i, j) = pairs.swap_remove(at);
        let (hi, hj) = (head(&basis[i]), head(&basis[j]));
        if hi.coprime(&hj) {
            continue;
        }
        done += 1;
        if done > 2000 || basis.len() > 120 || Instant::now() > until {
            return false;
        }
        let l = hi.lcm(&hj);
        let mut s = P::new();
        let (ci, cj) = (basis[i][&hi], basis[j][&hj]);
        add_scaled(&mut s, &basis[i], &l.div(&hi).unwrap(), ci.inv());
        add_scaled(&mut s, &basis[j], &l.div(&hj).unwrap(), -cj.inv());
        let r = match reduce(s, &basis, until) {
            Ok(r) => r,
            Err(_) => return false,
        };
        if !r.is_empty() {
            let k = r.iter().next_back().unwrap().1.inv();
            let r: P = r.into_iter().map(|(e, c)| (e, c * k)).collect();
            for b in 0..basis.len() {
                pairs.push((b, basis.len()));
            }
            basis.push(r);
            match reduce(goal.clone(), &basis, until) {
                Ok(r) if r.is_empty() => return true,
                Err(_) => return false,
                _ => {}
            }
        }
    }
    false
}
