//! C18: random convex polygons and rejection sampling.
use num_bigint::BigInt;
use num_rational::BigRational;
use rand::distributions::uniform::SampleUniform;
use rand::rngs::SmallRng;
use rand::{Rng, RngCore, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;

/// A random source whose first words are scripted.
struct Scripted {
  words: Vec<u64>,
  at: usize,
  rest: SmallRng,
}
impl RngCore for Scripted {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    self.at += 1;
    match self.words.get(self.at - 1) {
      Some(w) => *w,
      None => self.rest.next_u64(),
    }
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    for b in d {
      *b = self.next_u64() as u8;
    }
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(d);
    Ok(())
  }
}
fn source(r: &mut SmallRng) -> Box<dyn RngCore> {
  let seed: u64 = r.gen::<u64>() >> 1;
  match r.gen_range(0..4) {
    0 => Box::new(SmallRng::seed_from_u64(seed)),
    1 => Box::new(biased(seed / 6 * 6 + 1 + seed % 2)),
    _ => {
      let k = r.gen_range(1..40);
      let s = r.gen_range(0..4);
      let words = (0..k)
        .map(|i| match (s, r.gen_range(0..4)) {
          (0, _) => 0,
          (1, _) => u64::MAX,
          (2, 0) => u64::MAX,
          (2, 1) => 0,
          (2, 2) => 1 << (63 - i % 64),
          _ => r.gen(),
        })
        .collect();
      Box::new(Scripted { words, at: 0, rest: SmallRng::seed_from_u64(seed) })
    }
  }
}
fn xy<T: Sc>(p: &Point<T>) -> V {
  // integers, or all scaled by the caller
  V::A(limbs(&[p.x_coord().clone(), p.y_coord().clone(), T::from_constant(1)])[..2].to_vec())
}
fn shape<T: Sc>(p: &PolygonConvex<T>) -> V {
  obj! {"ring": V::A(p.iter_boundary().map(|c| xy(c.point())).collect()),
  "stored": p.iter().count(), "valid": p.validate().is_ok()}
}
fn random<T: Sc + SampleUniform + num_traits::Bounded>(n: usize, r: &mut SmallRng, reps: usize) -> V {
  let mut g = Group::default();
  for _ in 0..reps {
    let mut s = source(r);
    g.add(guard(|| shape(&PolygonConvex::<T>::random(n, &mut *s))), || T::NAME.to_string());
  }
  let max = limbs(&[T::max_value(), T::from_constant(1)])[0].clone();
  obj! {"op": "convex", "n": n, "max": max, "g": g.json()}
}
fn standard(r: &mut SmallRng) -> V {
  let mut g = Group::default();
  let mut s = SmallRng::seed_from_u64(r.gen());
  g.add(
    guard(|| {
      let p: PolygonConvex<isize> = s.gen();
      shape(&p)
    }),
    || "standard".to_string(),
  );
  let max = limbs(&[isize::MAX, 1])[0].clone();
  obj! {"op": "convex", "n": 100, "max": max, "g": g.json()}
}
fn sample<T: Sc + SampleUniform>(r: &mut SmallRng) -> Vec<V> {
  let t = match r.gen_range(0..3) {
    0 => wild3::<T>(r),
    1 => {
      let k = *[2i128, 5, 50].get(r.gen_range(0..3)).unwrap();
      let st = r.gen();
      [0; 3].map(|_| [0; 2].map(|_| T::scaled(r.gen_range(-k..=k), st)))
    }
    _ => {
      // corners of the whole range of the type
      let e = [T::LO, T::HI, 0, T::LO + 1, T::HI - 1, T::HI / 2];
      [0; 3].map(|_| [0; 2].map(|_| T::scaled(e[r.gen_range(0..e.len())], 0)))
    }
  };
  let ex = |z: usize, k: usize| t[z][k].exact();
  let det = (ex(1, 0) - ex(0, 0)) * (ex(2, 1) - ex(0, 1)) - (ex(1, 1) - ex(0, 1)) * (ex(2, 0) - ex(0, 0));
  // exclude triangles too thin to be hit by rejection
  let side = |k: usize| {
    let mut v = [ex(0, k), ex(1, k), ex(2, k)];
    v.sort();
    &v[2] - &v[0]
  };
  if det <= BigRational::from_integer(BigInt::from(0)) || det.clone() * BigRational::from_integer(BigInt::from(300)) < side(0) * side(1) {
    return vec![];
  }
  // rand itself refuses ranges of floats wider than the type
  desc(|| format!("sample {} {:?}", T::NAME, t));
  let pts = t.clone().map(Point::new);
  let mut g = Group::default();
  let mut vals: Vec<T> = t.iter().flatten().cloned().collect();
  let mut res = vec![];
  for _ in 0..6 {
    let mut s = source(r);
    res.push(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| TriangleView::new(([&pts[0], &pts[1], &pts[2]]).clone()).unwrap().rejection_sampling(&mut *s))));
  }
  let mut n = 0;
  for q in res.iter().flatten() {
    vals.extend([q.x_coord().clone(), q.y_coord().clone()]);
    n += 1;
  }
  let l = limbs(&vals);
  let pv = |k: usize| V::A(vec![l[2 * k].clone(), l[2 * k + 1].clone()]);
  for k in 0..n {
    g.add(guard(|| V::A(vec![pv(3 + k)])), || T::NAME.to_string());
  }
  if n < res.len() {
    g.add(guard(|| panic!("rejection_sampling panicked")), || T::NAME.to_string());
  }
  vec![obj! {"op": "sample", "t": V::A((0..3).map(pv).collect()), "g": g.json()}]
}
/// Every point of a small triangle turns up in a long run.
fn cover<T: Sc + SampleUniform>(r: &mut SmallRng) -> Vec<V> {
  let t = loop {
    let t = [0; 3].map(|_| rpt(r, 0, 6));
    // thin ones take too long
    if det(t[0], t[1], t[2]) >= 4 {
      break t;
    }
  };
  let at = match r.gen_range(0..3) {
    0 => [0, 0],
    1 => [T::LO, T::HI - 6],
    _ => [T::HI - 6, T::LO],
  };
  let val = |p: P2| Point::new([T::scaled(p.0 as i128 + at[0], 0), T::scaled(p.1 as i128 + at[1], 0)]);
  let pts = t.map(val);
  desc(|| format!("cover {} {:?}", T::NAME, pts));
  let grid: Vec<P2> = grid(7, 7);
  let seed = r.gen();
  let mut g = Group::default();
  g.add(
    guard(|| {
      let v = TriangleView::new([&pts[0], &pts[1], &pts[2]]).unwrap();
      let mut rng = SmallRng::seed_from_u64(seed);
      let mut seen = std::collections::BTreeSet::new();
      for _ in 0..3000 {
        let q = v.rejection_sampling(&mut rng);
        seen.insert(grid.iter().copied().find(|a| val(*a) == q).unwrap_or((-1, -1)));
      }
      V::A(seen.into_iter().map(V::from).collect())
    }),
    || T::NAME.to_string(),
  );
  vec![obj! {"op": "cover", "t": t.to_vec(), "g": g.json()}]
}
fn main() {
  run(|c: &Ctx| {
    c.par(c.pick(3000, 120000), |i| {
      let mut r = c.rng(180_000_000 + i as u64);
      let n = match i % 5 {
        0 => i / 5 % 6,
        1 => r.gen_range(3..8),
        2 | 3 => r.gen_range(3..16),
        _ if i % 595 == 4 => [300, 1000, 2500][i / 595 % 3],
        _ => r.gen_range(16..70),
      };
      let reps = if n < 8 { 6 } else { 2 };
      desc(|| format!("random convex {}", n));
      vec![match i % 6 {
        0 => random::<i8>(n, &mut r, reps),
        1 => random::<i16>(n, &mut r, reps),
        2 => random::<i32>(n, &mut r, reps),
        3 => random::<i64>(n, &mut r, reps),
        4 => random::<isize>(n, &mut r, reps),
        _ if i % 30 == 29 => standard(&mut r),
        _ => random::<i8>(n, &mut r, reps),
      }]
    });
    c.par(c.pick(300, 6000), |i| {
      let mut r = c.rng(182_000_000 + i as u64);
      match i % 5 {
        0 => cover::<i8>(&mut r),
        1 => cover::<i16>(&mut r),
        2 => cover::<i32>(&mut r),
        3 => cover::<i64>(&mut r),
        _ => cover::<isize>(&mut r),
      }
    });
    c.par(c.pick(4000, 150000), |i| {
      let mut r = c.rng(181_000_000 + i as u64);
      match i % 7 {
        0 => sample::<i8>(&mut r),
        1 => sample::<i16>(&mut r),
        2 => sample::<i32>(&mut r),
        3 => sample::<i64>(&mut r),
        4 => sample::<isize>(&mut r),
        5 => sample::<f32>(&mut r),
        _ => sample::<f64>(&mut r),
      }
    });
  });
}
