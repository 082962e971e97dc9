//! C07: point location in polygons, convex polygons and triangles.
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan};
use rgeometry::data::*;

fn code(l: PointLocation) -> i64 {
  match l {
    PointLocation::Outside => 0,
    PointLocation::OnBoundary => 1,
    PointLocation::Inside => 2,
  }
}
fn push(rows: &mut Vec<Vec<i64>>, row: Vec<i64>) {
  if !rows.contains(&row) {
    rows.push(row);
  }
}
/// Distinct answer rows over all rotations / ways of building the polygon.
fn loc<T: Sc>(ps: &[P2], qs: &[P2], m: &Map, rots: usize, salt: usize) -> V {
  let pts: Vec<Point<T>> = mkps(ps, m);
  let qs: Vec<Point<T>> = mkps(qs, m);
  let n = pts.len();
  let mut rows = vec![];
  // directions of float scalars are compared through exact rationals: slow
  let slow = slow_dirs::<T>();
  for k in 0..if slow { 1 } else { rots.min(n) } {
    let mut q = pts.clone();
    q.rotate_left((k + salt) % n);
    let p = arranged(&q, salt / 2 + k);
    push(&mut rows, qs.iter().map(|x| code(p.locate(x))).collect());
    if !slow && (k + salt) % 2 == 0 || slow && salt % 9 == 0 {
      // ring reversed by construction from clockwise input
      q.reverse();
      if let Ok(p) = Polygon::new(q) {
        push(&mut rows, qs.iter().map(|x| code(p.locate(x))).collect());
      }
    }
  }
  V::from(rows)
}
fn cvx<T: Sc>(ps: &[P2], qs: &[P2], m: &Map, salt: usize) -> V {
  let pts: Vec<Point<T>> = mkps(ps, m);
  let qs: Vec<Point<T>> = mkps(qs, m);
  let n = pts.len();
  let mut rows = vec![];
  for k in 0..if T::NAME == "BigRational" { n.min(2) } else { n } {
    let mut q = pts.clone();
    q.rotate_left(k);
    let p = PolygonConvex::new_unchecked(arranged(&q, salt / 3 + k));
    push(&mut rows, qs.iter().map(|x| code(p.locate(x))).collect());
    q.reverse();
    if k == salt % n {
      if let Ok(p) = Polygon::new(q.clone()) {
        let p = PolygonConvex::new_unchecked(p);
        push(&mut rows, qs.iter().map(|x| code(p.locate(x))).collect());
        push(&mut rows, qs.iter().map(|x| code(p.polygon().locate(x))).collect());
      }
      for h in [graham_scan::convex_hull(q.clone()), gift_wrapping::convex_hull(q.clone())].into_iter().flatten() {
        push(&mut rows, qs.iter().map(|x| code(h.locate(x))).collect());
      }
    }
  }
  if n == 3 {
    for k in 0..3 {
      let mut q = pts.clone();
      q.rotate_left(k);
      let [a, b, c] = [q[0].clone(), q[1].clone(), q[2].clone()];
      let v = TriangleView::new_unchecked([&a, &b, &c]);
      push(&mut rows, qs.iter().map(|x| code(v.locate(x))).collect());
      let v = TriangleView::new_ccw([&b, &a, &c]);
      push(&mut rows, qs.iter().map(|x| code(v.locate(x))).collect());
      if let Ok(t) = Triangle::new([a, b, c]) {
        push(&mut rows, qs.iter().map(|x| code(t.locate(x))).collect());
        let t2 = t.clone();
        push(&mut rows, qs.iter().map(|x| code(t2.view().locate(x))).collect());
      }
    }
  }
  V::from(rows)
}
fn ev(c: &Ctx, i: usize, op: &str, ps: &[P2], qs: &[P2], rots: usize, all: bool) -> V {
  desc(|| format!("{} {:?}", op, ps));
  let lo = ps.iter().chain(qs).map(|p| p.0.min(p.1)).min().unwrap();
  let hi = ps.iter().chain(qs).map(|p| p.0.max(p.1)).max().unwrap();
  let mut gr = Group::default();
  let all = all && c.thorough;
  if op == "loc" {
    all_types!(lo, hi, (i, all), gr, |m| loc(ps, qs, m, rots, i));
  } else {
    all_types!(lo, hi, (i, all), gr, |m| cvx(ps, qs, m, i));
  }
  obj! {"op": op, "ps": ps.to_vec(), "qs": qs.to_vec(), "g": gr.json()}
}
fn scale(ps: &[P2], k: i64, d: P2) -> Vec<P2> {
  ps.iter().map(|p| (p.0 * k + d.0, p.1 * k + d.1)).collect()
}
/// Interesting query points around a polygon, within [lo, hi].
fn queries(r: &mut rand::rngs::SmallRng, ps: &[P2], n: usize, lo: i64, hi: i64) -> Vec<P2> {
  let mut v = vec![];
  let m = ps.len();
  while v.len() < n {
    let (i, j) = (r.gen_range(0..m), r.gen_range(0..m));
    let (a, b) = (ps[i], ps[if r.gen_bool(0.5) { (i + 1) % m } else { j }]);
    let q = match r.gen_range(0..9) {
      0 => a,
      1 => ((a.0 + b.0).div_euclid(2), (a.1 + b.1).div_euclid(2)),
      2 => (2 * b.0 - a.0, 2 * b.1 - a.1),
      3 => (r.gen_range(lo..=hi), a.1),
      4 => (a.0, r.gen_range(lo..=hi)),
      5 => (a.0 + r.gen_range(-1..=1), a.1 + r.gen_range(-1..=1)),
      6 => {
        // on the line through a and b
        let t = r.gen_range(-3..=3);
        (a.0 + t * (b.0 - a.0).signum(), a.1 + t * (b.1 - a.1).signum())
      }
      _ => rpt(r, lo, hi),
    };
    if q.0 >= lo && q.1 >= lo && q.0 <= hi && q.1 <= hi {
      v.push(q);
    }
  }
  v
}
fn main() {
  run(|c| {
    thin(c.pick(4, 2));
    // generated polygons, doubled, against the whole surrounding grid
    let polys = load(&c.polys);
    c.par(polys.len().min(c.pick(700, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      let p = scale(&polys[j], 2, (0, 0));
      let e = extent(&p);
      let qs: Vec<P2> = (-1..=e + 1).flat_map(|y| (-1..=e + 1).map(move |x| (x, y))).collect();
      vec![ev(c, i, "loc", &p, &qs, c.pick(2, 9), true)]
    });
    // random polygons somewhere inside a larger range
    c.par(c.pick(700, 20000), |i| {
      let mut r = c.rng(50_000_000 + i as u64);
      let p = any_poly(&mut r, 30);
      let e = extent(&p);
      let pad = [0, 1, 20, 90][r.gen_range(0..4)];
      let (lo, hi) = (-pad.min(60), e + pad.min(60));
      let qs = queries(&mut r, &p, 24, lo, hi);
      vec![ev(c, i, "loc", &p, &qs, 2, false)]
    });
    // all triangles and convex polygons of the generated family
    let g = grid(3, 3);
    c.par(g.len().pow(3), |i| {
      let n = g.len();
      let ps: Vec<P2> = (0..3).map(|j| g[i / n.pow(j) % n]).collect();
      if det(ps[0], ps[1], ps[2]) <= 0 {
        return vec![];
      }
      let p = scale(&ps, 2, (0, 0));
      let qs: Vec<P2> = (-1..=5).flat_map(|y| (-1..=5).map(move |x| (x, y))).collect();
      vec![ev(c, i, "cvx", &p, &qs, 3, true)]
    });
    let convex: Vec<&Vec<P2>> = polys.iter().filter(|p| p.len() > 3 && (0..p.len()).all(|i| det(p[i], p[(i + 1) % p.len()], p[(i + 2) % p.len()]) > 0)).collect();
    c.par(convex.len(), |i| {
      let p = scale(convex[i], 2, (0, 0));
      let e = extent(&p);
      let qs: Vec<P2> = (-1..=e + 1).flat_map(|y| (-1..=e + 1).map(move |x| (x, y))).collect();
      vec![ev(c, i, "cvx", &p, &qs, 9, true)]
    });
    // large convex polygons (lattice points near a circle), thin ones, far queries
    c.par(c.pick(500, 10000), |i| {
      let mut r = c.rng(53_000_000 + i as u64);
      let k = [5, 12, 30, 60][i % 4];
      let n = r.gen_range(3..60);
      let mut pts = match r.gen_range(0..3) {
        0 => distinct(&mut r, n, 0, k),
        1 => {
          // thin: a strip around the diagonal
          (0..n).map(|_| { let t = r.gen_range(0..=k - 1); (t + r.gen_range(0..2), t) }).collect()
        }
        _ => (0..4 * n).map(|_| rpt(&mut r, 0, k)).filter(|p| { let d = (2 * p.0 - k).pow(2) + (2 * p.1 - k).pow(2); d <= k * k && d * 10 >= 8 * k * k }).collect(),
      };
      pts.push((0, 0));
      pts.push((k, 1));
      pts.push((1, k));
      let h = hull(&pts);
      let s = r.gen_range(0..h.len());
      let h = rotate(&h, s);
      let qs = queries(&mut r, &h, 50, -30, k + 30);
      vec![ev(c, i, "cvx", &h, &qs, 3, false)]
    });
    // convex with many vertices
    c.par(c.pick(60, 2000), |i| {
      let mut r = c.rng(55_000_000 + i as u64);
      let h = zonogon(&mut r, [36, 50, 70, 100, 160][i % 5]);
      let e = extent(&h);
      let mut qs: Vec<P2> = h.clone();
      // on the diagonals from each of a few vertices
      for j in 2..h.len() - 1 {
        for a in [h[0], h[r.gen_range(0..h.len())]] {
          qs.push(((a.0 + h[j].0).div_euclid(2), (a.1 + h[j].1).div_euclid(2)));
          qs.push((2 * h[j].0 - a.0, 2 * h[j].1 - a.1));
        }
      }
      shuffle(&mut r, &mut qs);
      qs.truncate(120);
      qs.retain(|q| q.0 >= -30 && q.1 >= -30 && q.0 <= e + 30 && q.1 <= e + 30);
      let q = scale(&h, 2, (0, 0));
      let mids: Vec<P2> = (2..h.len() - 1).map(|j| (h[0].0 + h[j].0, h[0].1 + h[j].1)).collect();
      vec![ev(c, i, "cvx", &h, &qs, 3, false), ev(c, i, "cvx", &q, &mids, 3, false)]
    });
    // many vertices
    c.par(c.pick(40, 1000), |i| {
      let mut r = c.rng(54_000_000 + i as u64);
      let p = if i % 20 == 0 { huge(&mut r) } else { big_poly(&mut r, [50, 100, 200][i % 3]) };
      let e = extent(&p);
      let qs = queries(&mut r, &p, 40, 0, e);
      vec![ev(c, i, "loc", &p, &qs, 2, false)]
    });
  });
}
