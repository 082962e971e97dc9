//! C11: untangling by two-opt moves.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::{resolve_self_intersections, two_opt_moves};
use rgeometry::data::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ring<T: Sc>(p: &Polygon<T>, abs: &[P2], m: &Map) -> Vec<P2> {
  p.iter_boundary().map(|c| back(c.point(), abs, m).unwrap_or((-999, -999))).collect()
}
fn two<T: Sc>(ps: &[P2], m: &Map, seed: u64) -> V {
  let q: Vec<Point<T>> = mkps(ps, m);
  match two_opt_moves(q, &mut biased(seed)) {
    Ok(p) => obj! {"st": "ok", "ring": ring(&p, ps, m), "same": true},
    Err(e) => obj! {"st": format!("{:?}", e), "ring": V::A(vec![]), "same": true},
  }
}
/// In place; every vertex keeps its identity.
fn res<T: Sc>(ps: &[P2], m: &Map, seed: u64) -> V {
  let q: Vec<Point<T>> = mkps(ps, m);
  let mut p = Polygon::new_unchecked(q.clone());
  let ids = p.boundary_slice().to_vec();
  match resolve_self_intersections(&mut p, &mut biased(seed)) {
    Ok(()) => {
      let same = ids.iter().zip(&q).all(|(i, x)| p.point(*i) == x && p.cursor(*i).point() == x && p.cursor(*i).point_id() == *i);
      // untangling a finished polygon changes nothing
      let before = ring(&p, ps, m);
      let again = resolve_self_intersections(&mut p, &mut biased(seed + 1)).is_ok();
      obj! {"st": "ok", "ring": before.clone(), "same": same && again && before == ring(&p, ps, m)}
    }
    Err(e) => obj! {"st": format!("{:?}", e), "ring": V::A(vec![]), "same": true},
  }
}
/// The sequence of tours, observed at the draws of the random source.
fn tours<T: Sc>(ps: &[P2], m: &Map, seed: u64) -> (Vec<Vec<P2>>, bool) {
  let mut out: Vec<Vec<P2>> = vec![];
  for k in 0..100_000 {
    let mut p = Polygon::new_unchecked(mkps::<T>(ps, m));
    let done = catch_unwind(AssertUnwindSafe(|| resolve_self_intersections(&mut p, &mut Budget(biased(seed), k)))).map(|r| r.is_ok());
    match done {
      Ok(r) => {
        out.push(ring(&p, ps, m));
        return (out, r);
      }
      Err(e) => {
        if e.downcast_ref::<&str>() != Some(&"budget") {
          return (out, false);
        }
        let t = ring(&p, ps, m);
        if out.last() != Some(&t) {
          out.push(t);
        }
      }
    }
  }
  (out, false)
}
fn case(c: &Ctx, i: usize, ps: &[P2], all: bool) -> Vec<V> {
  desc(|| format!("untangle {:?}", ps));
  let lo = ps.iter().map(|p| p.0.min(p.1)).min().unwrap_or(0);
  let hi = ps.iter().map(|p| p.0.max(p.1)).max().unwrap_or(1).max(lo + 1);
  let mut gr = Group::default();
  let seed = c.seed.wrapping_mul(1000) + i as u64;
  let all = all && c.thorough;
  all_types!(lo, hi, (i, all), gr, |m| two(ps, m, seed));
  let mut u = ps.to_vec();
  u.sort();
  u.dedup();
  if u.len() == ps.len() && ps.len() >= 3 {
    all_types!(lo, hi, (i + 1, all), gr, |m| res(ps, m, seed + 1));
  }
  vec![obj! {"op": "two", "ps": ps.to_vec(), "g": gr.json()}]
}
fn steps(i: usize, ps: &[P2], seed: u64) -> Vec<V> {
  desc(|| format!("tours {:?}", ps));
  let lo = ps.iter().map(|p| p.0.min(p.1)).min().unwrap();
  let hi = ps.iter().map(|p| p.0.max(p.1)).max().unwrap();
  macro_rules! one {
    ($t:ty) => {{
      let ms = <$t>::maps(lo, hi);
      tours::<$t>(ps, &ms[i % ms.len()], seed)
    }};
  }
  let (t, ok) = match i % 5 {
    0 => one!(i8),
    1 => one!(i32),
    2 => one!(f64),
    3 => one!(isize),
    _ => one!(num_bigint::BigInt),
  };
  vec![obj! {"op": "tours", "nsteps": t.len() as i64, "ps": ps.to_vec(), "ok": ok, "tours": t}]
}
fn gen(r: &mut SmallRng, i: usize, big: usize) -> Vec<P2> {
  let n = r.gen_range(3..big);
  match i % 8 {
    0 => distinct(r, n, 0, 3),
    1 => distinct(r, n, 0, 5),
    2 => distinct(r, n, 0, 40),
    3 => {
      // a shuffled line and a few points off it
      let d = [(1, 0), (0, 1), (1, 1), (2, -1)][r.gen_range(0..4)];
      let mut v: Vec<P2> = (0..n as i64).map(|t| (t * d.0, t * d.1)).collect();
      for _ in 0..r.gen_range(1..4) {
        let p = rpt(r, 0, 12);
        if !v.contains(&p) {
          v.push(p);
        }
      }
      shuffle(r, &mut v);
      v
    }
    4 => {
      // two or three lines
      let mut v: Vec<P2> = vec![];
      for _ in 0..n {
        let t = r.gen_range(0..9);
        let p = [(t, 0), (t, 3), (t, t), (0, t)][r.gen_range(0..4)];
        if !v.contains(&p) {
          v.push(p);
        }
      }
      v
    }
    5 => {
      let mut p = any_poly(r, n);
      shuffle(r, &mut p);
      p
    }
    6 => {
      // a simple polygon with two vertices exchanged / one reversed part
      let mut p = any_poly(r, n);
      let (a, b) = (r.gen_range(0..p.len()), r.gen_range(0..p.len()));
      if r.gen_bool(0.5) {
        p.swap(a, b)
      } else {
        p[a.min(b)..a.max(b)].reverse()
      }
      p
    }
    _ => {
      // a full small grid in random order
      let (w, h) = [(2, 3), (3, 3), (4, 2), (5, 1), (4, 3)][r.gen_range(0..5)];
      let mut v = grid(w, h);
      shuffle(r, &mut v);
      v
    }
  }
}
fn main() {
  run(|c| {
    thin(c.pick(4, 2));
    let g = grid(3, 3);
    let n = g.len();
    for len in 0..=3u32 {
      c.par(n.pow(len), |i| case(c, i, &(0..len).map(|j| g[i / n.pow(j) % n]).collect::<Vec<_>>(), true));
    }
    for len in 4..=6u32 {
      let total = n.pow(len);
      let want = if c.thorough { total.min(60000) } else { 900 };
      c.par(want, |i| {
        let mut r = c.rng(90_000_000 + i as u64 + 100_000 * len as u64);
        let j = if want == total { i } else { r.gen_range(0..total) };
        let ps: Vec<P2> = (0..len).map(|k| g[j / n.pow(k) % n]).collect();
        case(c, i, &ps, false)
      });
    }
    c.par(c.pick(1200, 30000), |i| {
      let mut r = c.rng(91_000_000 + i as u64);
      let big = [8, 14, 20, 26][i / 8 % 4];
      let mut ps = gen(&mut r, i, big);
      if r.gen_bool(0.1) {
        let q = ps[r.gen_range(0..ps.len())];
        ps.push(q);
      }
      case(c, i, &ps, false)
    });
    c.par(c.pick(700, 20000), |i| {
      let mut r = c.rng(92_000_000 + i as u64);
      let big = [7, 10, 14][i / 8 % 3];
      let ps = gen(&mut r, i, big);
      if colinear(&ps) || ps.len() < 3 {
        return vec![];
      }
      steps(i, &ps, r.gen())
    });
    c.par(c.pick(8, 200), |i| {
      let mut r = c.rng(94_000_000 + i as u64);
      let n = r.gen_range(24..45);
      let ps = distinct(&mut r, n, 0, [7, 12, 40, 80][i % 4]);
      if colinear(&ps) {
        return vec![];
      }
      steps(i, &ps, r.gen())
    });
    // many points
    c.par(c.pick(24, 400), |i| {
      let mut r = c.rng(93_000_000 + i as u64);
      let ps = if i % 3 == 0 {
        let mut p = big_poly(&mut r, 50);
        p.truncate(80);
        shuffle(&mut r, &mut p);
        p
      } else {
        let n = if i % 8 == 7 { 150 } else { r.gen_range(40..80) };
        distinct(&mut r, n, 0, [10, 40, 120][i % 3])
      };
      if colinear(&ps) {
        return vec![];
      }
      case(c, i, &ps, false)
    });
    // hundreds of points in an almost simple order
    c.par(c.pick(2, 30), |i| {
      let mut r = c.rng(95_000_000 + i as u64);
      let mut ps = huge(&mut r);
      for _ in 0..3 {
        let (a, b) = (r.gen_range(0..ps.len()), r.gen_range(0..ps.len()));
        if i % 2 == 0 {
          ps.swap(a, b);
        } else {
          let q = ps.remove(a);
          ps.insert(b, q);
        }
      }
      case(c, i, &ps, false)
    });
  });
}
