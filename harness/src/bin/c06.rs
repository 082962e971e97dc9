//! C06: polygon, convex polygon and triangle construction / validation.
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use rgeometry::Error;

fn kind<A>(r: &Result<A, Error>) -> String {
  match r {
    Ok(_) => "ok".into(),
    Err(e) => format!("{:?}", e),
  }
}
fn ring<T: Sc>(p: &Polygon<T>, abs: &[P2], m: &Map) -> V {
  V::from(p.iter_boundary().map(|c| back(c.point(), abs, m).unwrap_or((-999, -999))).collect::<Vec<_>>())
}
fn poly<T: Sc>(ps: &[P2], m: &Map, salt: usize) -> V {
  let q: Vec<Point<T>> = mkps(ps, m);
  let r = Polygon::new(q.clone());
  let rg = match &r {
    Ok(p) => ring(p, ps, m),
    Err(_) => V::A(vec![]),
  };
  let mut vals: Vec<V> = vec![];
  for (k, u) in [Polygon::new_unchecked(q.clone()), arranged(&q, salt)].into_iter().enumerate() {
    if k == 1 && (ps.len() < 3 || salt % 4 == 0) {
      continue;
    }
    let val = kind(&u.validate());
    // the weak check differs for repeated vertices only
    let wval = if ps.len() < 3 { "skip".into() } else { kind(&u.validate_weakly()) };
    let cval = if ps.is_empty() { "skip".into() } else { kind(&PolygonConvex::new_unchecked(u).validate()) };
    let v = obj! {"val": val, "wval": wval, "cval": cval};
    if !vals.contains(&v) {
      vals.push(v);
    }
  }
  obj! {"new": kind(&r), "ring": rg, "vals": V::A(vals)}
}
fn tri<T: Sc>(ps: &[P2], m: &Map) -> V {
  let q: Vec<Point<T>> = mkps(ps, m);
  let [a, b, c] = [q[0].clone(), q[1].clone(), q[2].clone()];
  let t = Triangle::new([a.clone(), b.clone(), c.clone()]);
  let tv = TriangleView::new([&a, &b, &c]);
  let un = TriangleView::new_unchecked([&a, &b, &c]).validate();
  let mut ccws = vec![];
  if det(ps[0], ps[1], ps[2]) != 0 {
    ccws.push(kind(&Triangle::new_ccw([a.clone(), b.clone(), c.clone()]).validate()));
    ccws.push(kind(&TriangleView::new_ccw([&a, &b, &c]).validate()));
    // the oriented triangle has the corners given
    let t = TriangleView::new_ccw([&a, &b, &c]);
    ccws.push(if q.iter().all(|p| t.locate(p) == PointLocation::OnBoundary) { "ok".into() } else { "corner".into() });
  }
  obj! {"new": vec![kind(&t), kind(&tv), kind(&un)], "ccw": ccws}
}
fn ev(c: &Ctx, i: usize, ps: &[P2], all: bool) -> V {
  desc(|| format!("poly {:?}", ps));
  let mut gr = Group::default();
  let k = extent(ps);
  all_types!(0, k, (i, all && c.thorough), gr, |m| poly(ps, m, i));
  obj! {"op": "poly", "ps": ps.to_vec(), "g": gr.json()}
}
fn main() {
  run(|c| {
    let g = grid(3, 3);
    let n = g.len();
    // every vertex list with up to 4 points over the 3x3 grid
    for len in 0..=4u32 {
      c.par(n.pow(len), |i| {
        let ps: Vec<P2> = (0..len).map(|j| g[i / n.pow(j) % n]).collect();
        let mut out = vec![ev(c, i, &ps, true)];
        if len == 3 {
          let mut gr = Group::default();
          all_types!(0, 2, (i, true), gr, |m| tri(&ps, m));
          out.push(obj! {"op": "tri", "ps": ps, "g": gr.json()});
        }
        out
      });
    }
    // five points: all (thorough) or a sample
    c.par(c.pick(3000, n.pow(5)), |i| {
      let mut r = c.rng(41_000_000 + i as u64);
      let i = if c.thorough { i } else { r.gen_range(0..n.pow(5)) };
      let ps: Vec<P2> = (0..5).map(|j| g[i / n.pow(j) % n]).collect();
      vec![ev(c, i, &ps, false)]
    });
    // every simple polygon of the generated family, both directions, some rotation
    let polys = load(&c.polys);
    c.par(polys.len().min(c.pick(3000, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      let p = rotate(&polys[j], i % polys[j].len());
      let mut q = p.clone();
      q.reverse();
      vec![ev(c, i, &p, false), ev(c, i, &q, false)]
    });
    // random lists: distinct, with repeats, near-simple, large
    c.par(c.pick(3000, 25000), |i| {
      let mut r = c.rng(43_000_000 + i as u64);
      let k = [2, 3, 4, 6, 12][i % 5];
      let ps: Vec<P2> = match i % 7 {
        0 => {
          let n = r.gen_range(3..8);
          (0..n).map(|_| rpt(&mut r, 0, k)).collect()
        }
        1 => {
          let n = r.gen_range(3..8);
          distinct(&mut r, n, 0, k)
        }
        2 => {
          // colinear or almost
          let n = r.gen_range(3..7);
          let mut v: Vec<P2> = (0..n).map(|_| { let t = r.gen_range(0..=k); (t, t) }).collect();
          if r.gen_bool(0.5) {
            v[0] = rpt(&mut r, 0, k);
          }
          v
        }
        3 => {
          // a simple polygon with one vertex moved / duplicated / swapped
          let mut p = any_poly(&mut r, 14);
          let n = p.len();
          let e = extent(&p);
          match r.gen_range(0..4) {
            0 => p[r.gen_range(0..n)] = rpt(&mut r, 0, e),
            1 => p[r.gen_range(0..n)] = p[r.gen_range(0..n)],
            2 => p.swap(r.gen_range(0..n), r.gen_range(0..n)),
            _ => {
              // vertex moved onto another edge
              let (a, b) = (p[0], p[1]);
              if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
                p[r.gen_range(0..n)] = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
              }
            }
          }
          p
        }
        _ => {
          let mut p = any_poly(&mut r, 24);
          if r.gen_bool(0.5) {
            p.reverse();
          }
          p
        }
      };
      vec![ev(c, i, &ps, false)]
    });
    // strictly convex polygons and their almost convex relatives (star walks)
    c.par(c.pick(400, 8000), |i| {
      let mut r = c.rng(47_000_000 + i as u64);
      let n = r.gen_range(3..12);
      let pts = distinct(&mut r, n, 0, 20);
      if colinear(&pts) {
        return vec![];
      }
      let h = hull(&pts);
      let m = h.len();
      let step = r.gen_range(1..m);
      // winding several times around when step > 1
      let w: Vec<P2> = (0..m).map(|j| h[j * step % m]).collect();
      vec![ev(c, i, &h, false), ev(c, i, &w, false)]
    });
    // many vertices and a single crossing, of two edges anywhere along the boundary
    c.par(c.pick(60, 400), |i| {
      let mut r = c.rng(49_000_000 + i as u64);
      let h = zonogon(&mut r, [20, 60, 110, 150][i % 4]);
      let n = h.len();
      // every distance alike
      let d = r.gen_range(1..n);
      let a = r.gen_range(0..n - d);
      let b = a + d;
      let mut q = h.clone();
      q[a..=b].reverse();
      vec![ev(c, i, &h, false), ev(c, i, &q, false)]
    });
    // many vertices
    c.par(c.pick(24, 300), |i| {
      let mut r = c.rng(48_000_000 + i as u64);
      let p = if i % 24 == 0 { huge(&mut r) } else { big_poly(&mut r, [40, 70, 120][i % 3]) };
      let n = p.len();
      let mut q = p.clone();
      match i % 4 {
        0 => q.reverse(),
        1 => q.swap(r.gen_range(0..n), r.gen_range(0..n)),
        2 => {
          let (a, b) = (p[i % n], p[(i + 1) % n]);
          q[r.gen_range(0..n)] = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
        }
        _ => q[r.gen_range(0..n)] = p[r.gen_range(0..n)],
      }
      vec![ev(c, i, &p, false), ev(c, i, &q, false)]
    });
  });
}
