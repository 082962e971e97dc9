//! C20: simulated tie breaking, orientation algebra, total orders.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use rgeometry::{Orientation, SoS, TotalOrd};
use std::cmp::Ordering;

fn w32(a: u32) -> V {
  V::from(vec![(a & 0xffff) as i64, (a >> 16) as i64])
}
fn sos(s: SoS) -> i64 {
  match s {
    SoS::CounterClockWise => 1,
    SoS::ClockWise => -1,
  }
}
fn index(r: &mut SmallRng, near: &[u32]) -> u32 {
  match r.gen_range(0..8) {
    0 => r.gen_range(0..4),
    1 => u32::MAX - r.gen_range(0..4),
    2 => (1u32 << 31).wrapping_add(r.gen_range(0..5)).wrapping_sub(2),
    3 => 1 << r.gen_range(0..32),
    4 | 5 if !near.is_empty() => {
      let b = near[r.gen_range(0..near.len())];
      let d = [1u32, 2, 1 << 8, 1 << 16, 1 << 24, 1 << 31][r.gen_range(0..6)];
      if r.gen() { b.wrapping_add(d) } else { b.wrapping_sub(d) }
    }
    _ => r.gen(),
  }
}
/// every ordered triple of distinct entries of `ix` (given by rank)
fn sos_all(ix: &[u32]) -> V {
  let n = ix.len();
  let mut out = vec![];
  for a in 0..n {
    for b in 0..n {
      for c in 0..n {
        if a != b && b != c && a != c {
          let s = SoS::new(ix[a], ix[b], ix[c]);
          out.push(vec![
            a as i64 + 1,
            b as i64 + 1,
            c as i64 + 1,
            sos(s),
            sos(s.reverse()),
            sos(s.reverse().reverse()),
            orient(s.orient()),
            sos(Orientation::CoLinear.break_ties(ix[a], ix[b], ix[c])),
            sos(Orientation::CounterClockWise.break_ties(ix[a], ix[b], ix[c])),
            sos(Orientation::ClockWise.break_ties(ix[a], ix[b], ix[c])),
          ]);
        }
      }
    }
  }
  V::from(out)
}
const OS: [Orientation; 3] = [Orientation::ClockWise, Orientation::CoLinear, Orientation::CounterClockWise];
fn algebra() -> V {
  let mut out = vec![];
  for a in OS {
    for b in OS {
      for c in OS {
        let mut row = vec![orient(a), orient(b), orient(c)];
        row.push(orient(a.then(b)));
        row.push(orient(a.then(b).then(c)));
        row.push(orient(a.then(b.then(c))));
        row.push(orient(a.reverse()));
        row.push(orient(a.reverse().reverse()));
        row.push(orient(a.then(b).reverse()));
        row.push(sos(a.sos(SoS::CounterClockWise)));
        row.push(sos(a.sos(SoS::ClockWise)));
        row.push(a.is_ccw() as i64);
        row.push(a.is_cw() as i64);
        row.push(a.is_colinear() as i64);
        out.push(row);
      }
    }
  }
  V::from(out)
}
fn opt(o: Option<Ordering>) -> i64 {
  o.map(ord).unwrap_or(9)
}
/// what the order says about one pair: [total_cmp, by reference, ..]; the index
/// (1 or 2) of the minimum and of the maximum, 0 when neither
fn pair<A: TotalOrd + Clone>(a: &A, b: &A) -> Vec<i64> {
  let lo = a.clone().total_min(b.clone());
  let hi = a.clone().total_max(b.clone());
  let is = |x: &A, y: &A| x.total_cmp(y) == Ordering::Equal;
  let lo2 = a.total_min(b);
  let hi2 = a.total_max(b);
  let which = |x: &A| is(x, a) as i64 + 2 * is(x, b) as i64;
  vec![ord(a.total_cmp(b)), ord((&a).total_cmp(&b)), ord(b.total_cmp(a)), which(&lo), which(&hi), which(lo2), which(hi2)]
}
fn point<T: Sc, const N: usize>(a: &[T; N], b: &[T; N]) -> Vec<i64> {
  let (p, q) = (Point::new(a.clone()), Point::new(b.clone()));
  let mut v = pair(&p, &q);
  let (lo, hi) = (p.clone().min(q.clone()), p.clone().max(q.clone()));
  let which = |x: &Point<T, N>| (x == &p) as i64 + 2 * (x == &q) as i64;
  v.extend([which(&lo), which(&hi)]);
  let e = p == q;
  v.extend([
    ord(p.cmp(&q)),
    opt(p.partial_cmp(&q)),
    ord(q.cmp(&p)),
    (p < q) as i64,
    (p <= q) as i64,
    (p > q) as i64,
    (p >= q) as i64,
    e as i64,
    (p != q) as i64,
  ]);
  v
}
/// values c (k of them), the orders on every ordered pair of projections
fn orders<T: Sc>(c: &[T], ix: &[u32]) -> V {
  let k = c.len();
  let mut out = vec![];
  for a in 0..k {
    for b in 0..k {
      let (x, y) = (&c[a], &c[b]);
      let (x2, y2) = (&c[(a + 1) % k], &c[(b + 2) % k]);
      let (x3, y3) = (&c[(a * 2) % k], &c[(b + 3) % k]);
      let (i, j) = (ix[a % ix.len()], ix[b % ix.len()]);
      let cl = |z: &T| z.clone();
      let ring = Polygon::new_unchecked(vec![
        Point::new([cl(x), cl(x2)]),
        Point::new([cl(y), cl(y2)]),
        Point::new([cl(x), cl(y)]),
      ]);
      let ids = ring.boundary_slice().to_vec();
      let (ca, cb) = (ring.cursor(ids[0]), ring.cursor(ids[1]));
      out.push(V::A(vec![
        V::from(vec![a as i64 + 1, b as i64 + 1]),
        V::from(pair(x, y)),
        V::from(point(&[cl(x)], &[cl(y)])),
        V::from(point(&[cl(x), cl(x2)], &[cl(y), cl(y2)])),
        V::from(point(&[cl(x), cl(x2), cl(x3)], &[cl(y), cl(y2), cl(y3)])),
        V::from(pair(&(cl(x), cl(x2)), &(cl(y), cl(y2)))),
        V::from(pair(&((cl(x), cl(x2)), cl(x3)), &((cl(y), cl(y2)), cl(y3)))),
        V::from(pair(&(i, Point::new([cl(x), cl(x2)])), &(j, Point::new([cl(y), cl(y2)])))),
        V::from(pair(&(cl(x), i), &(cl(y), j))),
        V::from(pair(&ca, &cb)),
        V::from(pair(&i, &j)),
      ]));
    }
  }
  V::A(out)
}
fn wild<T: Sc>(out: &mut Vec<V>, r: &mut SmallRng) {
  let t = wild3::<T>(r);
  // six coordinates, then repeats so that ties are common
  let mut c: Vec<T> = t.iter().flatten().cloned().collect();
  c.truncate(r.gen_range(2..6));
  if r.gen() {
    let d = c[r.gen_range(0..c.len())].clone();
    c.insert(r.gen_range(0..=c.len()), d);
  }
  let mut ix: Vec<u32> = vec![];
  for _ in 0..3 {
    let v = index(r, &ix);
    ix.push(v);
  }
  desc(|| format!("orders {} {:?} {:?}", T::NAME, c, ix));
  let mut g = Group::default();
  g.add(guard(|| orders(&c, &ix)), || T::NAME.into());
  out.push(obj! {"op": "ord", "ty": T::NAME, "c": limbs(&c), "ix": V::A(ix.iter().map(|i| w32(*i)).collect()), "g": g.json()});
}
fn small<T: Sc>(xs: &[i64], ix: &[u32], m: &Map) -> V {
  if !m.trans {
    return V::A(vec![]); // turned embeddings do not keep the order
  }
  orders(&xs.iter().map(|x| mkp::<T>((*x, 0), m).array[0].clone()).collect::<Vec<_>>(), ix)
}
fn main() {
  run(|c| {
    c.par(1, |_| {
      let mut g = Group::default();
      g.add(guard(algebra), String::new);
      vec![obj! {"op": "alg", "g": g.json()}]
    });
    // sorted distinct indices: all triples of small ones, then the extremes
    c.par(c.pick(400, 20000), |i| {
      let mut r = c.rng(200_000_000 + i as u64);
      let n = 3 + i % 3;
      let mut ix: Vec<u32> = vec![];
      if i < 56 {
        ix = (0..8u32).filter(|b| [7, 11, 13, 14, 19, 21, 22, 25, 26, 28, 224, 193, 131, 69][i % 14] >> b & 1 == 1).collect();
        let off = [0, 1u32 << 16, (1 << 31) - 4, u32::MAX - 7][i / 14];
        ix.iter_mut().for_each(|v| *v += off);
      }
      while ix.len() < n {
        let v = index(&mut r, &ix);
        if !ix.contains(&v) {
          ix.push(v);
        }
      }
      ix.sort();
      desc(|| format!("sos {:?}", ix));
      let mut g = Group::default();
      g.add(guard(|| sos_all(&ix)), String::new);
      vec![obj! {"op": "sos", "ix": V::A(ix.iter().map(|v| w32(*v)).collect()), "g": g.json()}]
    });
    c.par(c.pick(60, 3000), |i| {
      let mut r = c.rng(201_000_000 + i as u64);
      let mut out = vec![];
      each_type!(|_n| wild(&mut out, &mut r));
      out
    });
    // the same abstract values through every type and embedding
    c.par(c.pick(60, 2000), |i| {
      let mut r = c.rng(202_000_000 + i as u64);
      let n = r.gen_range(2..5);
      let xs: Vec<i64> = (0..n).map(|_| r.gen_range(-3..=3)).collect();
      let mut ix: Vec<u32> = vec![];
      for _ in 0..3 {
        let v = index(&mut r, &ix);
        ix.push(v);
      }
      desc(|| format!("orders {:?} {:?}", xs, ix));
      let mut g = Group::default();
      all_types!(-3, 3, (i, true), g, |m| small(&xs, &ix, m));
      vec![obj! {"op": "ords", "c": xs.clone(), "ix": V::A(ix.iter().map(|v| w32(*v)).collect()), "g": g.json()}]
    });
  });
}
