//! C21: ear test and corner orientation on cursors.
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::*;

/// [x, y, ear, orientation, colinear] per ring position, looking at the
/// corners in the order they come around and once more in another one
fn ears<T: Sc>(p: &Polygon<T>, ps: &[P2], m: &Map, salt: usize) -> V {
  let n = p.boundary_slice().len();
  let mut out = vec![];
  for c in p.iter_boundary() {
    let q = back(c.point(), ps, m).unwrap_or((-999, -999));
    out.push(vec![q.0, q.1, c.is_ear() as i64, orient(c.orientation()), c.is_colinear() as i64]);
  }
  for k in 0..n {
    let i = (k * 5 + salt) % n;
    let c = p.boundary_slice()[i];
    let c = p.cursor(c);
    if c.is_ear() as i64 != out[i][2] || c.next().prev().is_ear() as i64 != out[i][2] {
      out[i][2] = 9;
    }
  }
  V::from(out)
}
fn direct<T: Sc>(ps: &[P2], m: &Map, style: usize) -> V {
  let mut q: Vec<Point<T>> = mkps(ps, m);
  let n = q.len();
  let p = match style % 4 {
    1 => {
      q[1..].reverse();
      Polygon::new(q).expect("simple polygon")
    }
    2 => {
      q.rotate_left(style / 4 % n);
      Polygon::new_unchecked(q)
    }
    3 => arranged(&q, style / 4),
    _ => Polygon::new_unchecked(q),
  };
  ears(&p, ps, m, style)
}
fn untangled<T: Sc>(ps: &[P2], m: &Map, seed: u64) -> V {
  match two_opt_moves(mkps::<T>(ps, m), &mut SmallRng::seed_from_u64(seed)) {
    Ok(p) => ears(&p, ps, m, seed as usize % 7),
    Err(_) => V::A(vec![]),
  }
}
fn main() {
  run(|c| {
    thin(c.pick(3, 1));
    let polys = load(&c.polys);
    let polys: Vec<_> = polys.into_iter().filter(|p| p.len() >= 4).collect();
    c.par(polys.len().min(c.pick(2500, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      let ps = &polys[j];
      desc(|| format!("ears {:?}", ps));
      let mut g = Group::default();
      all_types!(0, extent(ps), (i, c.thorough), g, |m| direct(ps, m, i));
      vec![obj! {"op": "ears", "ps": ps.clone(), "g": g.json()}]
    });
    c.par(c.pick(1500, 30000), |i| {
      let mut r = c.rng(210_000_000 + i as u64);
      let n = [6, 9, 14, 24][i % 4];
      let ps = any_poly(&mut r, n);
      if ps.len() < 4 {
        return vec![];
      }
      desc(|| format!("ears {:?}", ps));
      let mut g = Group::default();
      all_types!(0, extent(&ps), (i, false), g, |m| direct(&ps, m, i));
      vec![obj! {"op": "ears", "ps": ps, "g": g.json()}]
    });
    c.par(c.pick(500, 10000), |i| {
      let mut r = c.rng(211_000_000 + i as u64);
      let n = r.gen_range(4..14);
      let k = [3, 4, 8, 30][i % 4];
      let ps = distinct(&mut r, n, 0, k);
      if colinear(&ps) || ps.len() < 4 {
        return vec![];
      }
      let seed = r.gen();
      desc(|| format!("ears of untangled {:?}", ps));
      let mut g = Group::default();
      all_types!(0, k, (i, false), g, |m| untangled(&ps, m, seed));
      vec![obj! {"op": "untangled", "ps": ps, "g": g.json()}]
    });
    // many vertices
    c.par(c.pick(40, 1000), |i| {
      let mut r = c.rng(212_000_000 + i as u64);
      let ps = if i % 40 == 0 { huge(&mut r) } else { big_poly(&mut r, [40, 80, 140][i % 3]) };
      desc(|| format!("ears {:?}", ps));
      let mut g = Group::default();
      all_types!(0, extent(&ps), (i, false), g, |m| direct(&ps, m, i));
      vec![obj! {"op": "ears", "ps": ps, "g": g.json()}]
    });
  });
}
