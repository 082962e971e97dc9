//! C09: convex hull of a simple polygon (Melkman).
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::convex_hull::melkman;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::data::*;

fn ring<T: Sc>(p: &Polygon<T>, abs: &[P2], m: &Map) -> Vec<P2> {
  p.iter_boundary().map(|c| back(c.point(), abs, m).unwrap_or((-999, -999))).collect()
}
fn out<T: Sc>(p: &Polygon<T>, abs: &[P2], m: &Map, rows: &mut Vec<V>) {
  let h = melkman::convex_hull(p);
  let hr = ring(&h, abs, m);
  // a hull may start anywhere: compare up to rotation by starting at the least vertex
  let k = (0..hr.len()).min_by_key(|i| hr[*i]).unwrap_or(0);
  let hr = if hr.is_empty() { hr } else { rotate(&hr, k) };
  let val = match h.validate() {
    Ok(()) => "ok".to_string(),
    Err(e) => format!("{:?}", e),
  };
  let v = obj! {"ring": hr, "stored": h.iter().count() as i64, "val": val};
  if !rows.contains(&v) {
    rows.push(v);
  }
}
fn melk<T: Sc>(ps: &[P2], m: &Map, rots: usize, salt: usize) -> V {
  let pts: Vec<Point<T>> = mkps(ps, m);
  let n = pts.len();
  let mut rows = vec![];
  for k in 0..rots.min(n) {
    let mut q = pts.clone();
    q.rotate_left((k + salt) % n);
    out(&arranged(&q, salt / 3 + k), ps, m, &mut rows);
    q.reverse();
    if let Ok(p) = Polygon::new(q) {
      out(&p, ps, m, &mut rows);
    }
  }
  V::from(rows)
}
/// The polygon comes out of untangling, its ring arbitrarily permuted; what
/// untangling itself does is judged elsewhere.
fn melk2<T: Sc>(ps: &[P2], m: &Map, seed: u64) -> V {
  let mut rows = vec![];
  let made = std::panic::catch_unwind(|| {
    let mut r = SmallRng::seed_from_u64(seed);
    two_opt_moves(mkps::<T>(ps, m), &mut r).ok()
  });
  let Ok(Some(p)) = made else { return obj! {"in": V::A(vec![]), "out": V::A(vec![])} };
  let rg = ring(&p, ps, m);
  if !simple(&rg) || area2(&rg) <= 0 {
    return obj! {"in": V::A(vec![]), "out": V::A(vec![])};
  }
  out(&p, ps, m, &mut rows);
  obj! {"in": rg, "out": rows}
}
fn ev(c: &Ctx, i: usize, ps: &[P2], rots: usize, all: bool) -> V {
  desc(|| format!("melkman {:?}", ps));
  let mut gr = Group::default();
  all_types!(0, extent(ps), (i, all && c.thorough), gr, |m| melk(ps, m, rots, i));
  obj! {"op": "melk", "ps": ps.to_vec(), "g": gr.json()}
}
fn main() {
  run(|c| {
    thin(c.pick(2, 1));
    let polys = load(&c.polys);
    c.par(polys.len().min(c.pick(3000, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      vec![ev(c, i, &polys[j], 9, true)]
    });
    c.par(c.pick(2500, 60000), |i| {
      let mut r = c.rng(70_000_000 + i as u64);
      let n = [6, 10, 20, 60][i % 4];
      let p = any_poly(&mut r, n);
      vec![ev(c, i, &p, if p.len() < 12 { 12 } else { 4 }, false)]
    });
    // rings permuted by untangling
    c.par(c.pick(2500, 60000), |i| {
      let mut r = c.rng(71_000_000 + i as u64);
      let n = r.gen_range(3..20);
      let k = [3, 4, 8, 30][i % 4];
      let ps = distinct(&mut r, n, 0, k);
      if colinear(&ps) {
        return vec![];
      }
      let seed = r.gen();
      desc(|| format!("melkman untangled {:?}", ps));
      let mut gr = Group::default();
      all_types!(0, extent(&ps), (i, false), gr, |m| melk2(&ps, m, seed));
      vec![obj! {"op": "melk2", "ps": ps, "g": gr.json()}]
    });
    // many vertices
    c.par(c.pick(40, 1000), |i| {
      let mut r = c.rng(72_000_000 + i as u64);
      let p = if i % 20 == 0 { huge(&mut r) } else { big_poly(&mut r, [60, 120, 240][i % 3]) };
      vec![ev(c, i, &p, 3, false)]
    });
  });
}
