//! C14: monotone test and monotone construction.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::new_monotone_polygon;
use rgeometry::data::*;

/// The grid direction whose dot products with grid points order like those of
/// the image direction with image points, under the maps used here.
fn dir<T: Sc>(d: P2, m: &Map) -> Option<Vector<T, 2>> {
  // similarity: same linear map; anything else: only axis-parallel directions
  // of axis-preserving maps
  if m.sim || m.trans && (d.0 == 0 || d.1 == 0) {
    let [x, y] = m.vec(d);
    let (lo, hi) = (T::LO, T::HI);
    // a direction may be scaled down to fit the type
    if x < lo || y < lo || x > hi || y > hi {
      if m.trans || m.sim {
        return None;
      }
    }
    Some(Vector([T::mk(x, m), T::mk(y, m)]))
  } else {
    None
  }
}
fn is<T: Sc>(ps: &[P2], ds: &[P2], m: &Map, how: usize) -> V {
  let mut pts: Vec<Point<T>> = mkps(ps, m);
  let p = if how % 3 == 0 {
    pts.reverse();
    Polygon::new(pts).unwrap()
  } else {
    let k = how % pts.len();
    pts.rotate_left(k);
    arranged(&pts, how / 3)
  };
  V::from(ds.iter().map(|d| p.is_monotone(&dir::<T>(*d, m).unwrap())).collect::<Vec<_>>())
}
fn new<T: Sc>(ps: &[P2], d: P2, m: &Map) -> V {
  let v = dir::<T>(d, m).unwrap();
  match new_monotone_polygon(mkps::<T>(ps, m), &v) {
    Ok(p) => {
      let ring: Vec<P2> = p.iter_boundary().map(|c| back(c.point(), ps, m).unwrap_or((-999, -999))).collect();
      obj! {"st": "ok", "ring": ring, "mono": p.is_monotone(&v)}
    }
    Err(e) => obj! {"st": format!("{:?}", e), "ring": V::A(vec![]), "mono": true},
  }
}
fn fits<T: Sc>(ds: &[P2], m: &Map) -> bool {
  ds.iter().all(|d| dir::<T>(*d, m).is_some())
}
fn is1<T: Sc>(ps: &[P2], ds: &[P2], m: &Map, how: usize) -> V {
  if fits::<T>(ds, m) {
    is::<T>(ps, ds, m, how)
  } else {
    V::B(false)
  }
}
fn new1<T: Sc>(ps: &[P2], d: P2, m: &Map) -> V {
  if fits::<T>(&[d], m) {
    new::<T>(ps, d, m)
  } else {
    V::B(false)
  }
}
/// Drop the placeholder of embeddings that cannot carry the directions.
fn keep(g: Group) -> V {
  let V::A(v) = g.json() else { unreachable!() };
  let skip = obj! {"st": "ok", "v": false};
  V::A(v.into_iter().filter(|e| !matches!(e, V::O(o) if o[0].1 == skip)).collect())
}
fn bounds(ps: &[P2]) -> (i64, i64) {
  let lo = ps.iter().map(|p| p.0.min(p.1)).min().unwrap_or(0);
  let hi = ps.iter().map(|p| p.0.max(p.1)).max().unwrap_or(1);
  (lo, hi.max(lo + 1))
}
fn is_case(c: &Ctx, i: usize, ps: &[P2], ds: &[P2]) -> Vec<V> {
  desc(|| format!("is_monotone {:?} {:?}", ps, ds));
  let (lo, hi) = bounds(ps);
  let mut gr = Group::default();
  all_types!(lo, hi, (i, c.thorough), gr, |m| is1(ps, ds, m, i));
  vec![obj! {"op": "is", "ps": ps.to_vec(), "ds": ds.to_vec(), "g": keep(gr)}]
}
fn new_case(c: &Ctx, i: usize, ps: &[P2], d: P2) -> Vec<V> {
  desc(|| format!("new_monotone {:?} {:?}", ps, d));
  let (lo, hi) = bounds(ps);
  let mut gr = Group::default();
  all_types!(lo, hi, (i, c.thorough), gr, |m| new1(ps, d, m));
  vec![obj! {"op": "new", "ps": ps.to_vec(), "d": d, "g": keep(gr)}]
}
const DIRS: [P2; 16] =
  [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1), (2, 1), (1, 2), (-2, 1), (1, -2), (3, 2), (-1, 3), (5, -1), (-4, -3)];
fn a_dir(r: &mut SmallRng, ps: &[P2]) -> P2 {
  loop {
    let d = match r.gen_range(0..4) {
      0 => DIRS[r.gen_range(0..4)],
      1 => DIRS[r.gen_range(0..16)],
      2 if !ps.is_empty() => {
        // perpendicular or parallel to a chord: ties
        let (a, b) = (ps[r.gen_range(0..ps.len())], ps[r.gen_range(0..ps.len())]);
        let v = (b.0 - a.0, b.1 - a.1);
        if r.gen_bool(0.7) { (-v.1, v.0) } else { v }
      }
      _ => rpt(r, -20, 20),
    };
    if d != (0, 0) {
      return d;
    }
  }
}
fn main() {
  run(|c| {
    thin(c.pick(3, 2));
    let polys = load(&c.polys);
    c.par(polys.len().min(c.pick(2500, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      let n = i % 3;
      // axis directions go through every axis-preserving map, others through similarities
      let ds: Vec<P2> = if n == 0 { DIRS[..4].to_vec() } else { DIRS[..if n == 1 { 8 } else { 16 }].to_vec() };
      is_case(c, i, &polys[j], &ds)
    });
    c.par(c.pick(1500, 40000), |i| {
      let mut r = c.rng(140_000_000 + i as u64);
      let n = [6, 10, 20, 40][i % 4];
      let ps = any_poly(&mut r, n);
      let ds: Vec<P2> = (0..4).map(|_| a_dir(&mut r, &ps)).collect();
      let ds = if i % 3 == 0 { DIRS[..4].to_vec() } else { ds };
      is_case(c, i, &ps, &ds)
    });
    // construction: every list of up to 4 (5) points of a 3x3 grid, then random
    let g = grid(3, 3);
    let n = g.len();
    for len in 0..=5u32 {
      let total = n.pow(len);
      let want = total.min(c.pick(900, 60000));
      c.par(want, |i| {
        let mut r = c.rng(141_000_000 + i as u64 + 1_000_000 * len as u64);
        let j = if want == total { i } else { r.gen_range(0..total) };
        let ps: Vec<P2> = (0..len).map(|k| g[j / n.pow(k) % n]).collect();
        let d = if r.gen_bool(0.5) { DIRS[r.gen_range(0..8)] } else { a_dir(&mut r, &ps) };
        new_case(c, i, &ps, d)
      });
    }
    c.par(c.pick(2500, 60000), |i| {
      let mut r = c.rng(142_000_000 + i as u64);
      let n = r.gen_range(3..[8, 12, 20, 40][i / 4 % 4]);
      let mut ps: Vec<P2> = match i % 4 {
        0 => (0..n).map(|_| rpt(&mut r, 0, 3)).collect(),
        1 => (0..n).map(|_| rpt(&mut r, 0, 6)).collect(),
        2 => (0..n).map(|_| rpt(&mut r, 0, 50)).collect(),
        _ => {
          // a chord with points on it and points to one side only
          let d = [(1, 0), (1, 1), (2, 1), (0, 1), (1, -1)][r.gen_range(0..5)];
          let o = (30, 30);
          let side = if r.gen_bool(0.5) { 1 } else { -1 };
          (0..n)
            .map(|_| {
              let t = r.gen_range(-8..=8);
              let s = if r.gen_bool(0.6) { 0 } else { side * r.gen_range(0..4) };
              (o.0 + t * d.0 - s * d.1, o.1 + t * d.1 + s * d.0)
            })
            .collect()
        }
      };
      if r.gen_bool(0.3) {
        let q = ps[r.gen_range(0..ps.len())];
        ps.push(q);
      }
      shuffle(&mut r, &mut ps);
      let d = a_dir(&mut r, &ps);
      new_case(c, i, &ps, d)
    });
    // many vertices / points
    c.par(c.pick(40, 800), |i| {
      let mut r = c.rng(143_000_000 + i as u64);
      let ps = if i % 20 == 0 { huge(&mut r) } else { big_poly(&mut r, [50, 100, 200][i % 3]) };
      let ds: Vec<P2> = (0..3).map(|_| a_dir(&mut r, &ps)).collect();
      let ds = if i % 3 == 0 { DIRS[..4].to_vec() } else { ds };
      let mut out = is_case(c, i, &ps, &ds);
      let n = [40, 70, 120][i % 3];
      let qs: Vec<P2> = (0..n).map(|_| rpt(&mut r, 0, [12, 40, 120][i / 3 % 3])).collect();
      let d = a_dir(&mut r, &qs);
      out.extend(new_case(c, i, &qs, d));
      out
    });
  });
}
