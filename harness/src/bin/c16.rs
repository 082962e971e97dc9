//! C16: visibility polygons over exact rationals.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
use rgeometry::data::*;

fn q(v: i128) -> BigRational {
  BigRational::from_integer(BigInt::from(v))
}
/// Undo the embedding exactly: reduced triple (x, y, w).
fn unmap(p: &Point<BigRational>, m: &Map) -> V {
  let den = q(m.den as i128);
  let x = p.x_coord() * &den - q(m.t[0]);
  let y = p.y_coord() * &den - q(m.t[1]);
  let d = q(m.m[0]) * q(m.m[3]) - q(m.m[1]) * q(m.m[2]);
  let u = (q(m.m[3]) * &x - q(m.m[1]) * &y) / &d;
  let v = (q(m.m[0]) * &y - q(m.m[2]) * &x) / &d;
  let w = u.denom().lcm(v.denom());
  let f = |z: BigRational| (z * BigRational::from_integer(w.clone())).to_integer().to_i64().unwrap_or(i64::MAX);
  let (a, b, c) = (f(u), f(v), w.to_i64().unwrap_or(i64::MAX));
  let big = |z: i64| z.abs() > 1_000_000_000;
  if big(a) || big(b) || big(c) {
    return V::from(vec![-1i64, -1, -1]);
  }
  V::from(vec![a, b, c])
}
fn vis(ps: &[P2], o: P2, m: &Map, how: usize) -> V {
  let mut pts: Vec<Point<BigRational>> = mkps(ps, m);
  let k = how % pts.len();
  pts.rotate_left(k);
  let p = if how % 5 == 0 {
    pts.reverse();
    Polygon::new(pts).unwrap()
  } else {
    arranged(&pts, how / 5)
  };
  match get_visibility_polygon(&mkp(o, m), &p) {
    None => obj! {"st": "none", "valid": true, "out": V::A(vec![])},
    Some(v) => obj! {"st": "some", "valid": v.validate().is_ok(),
    "out": v.iter_boundary().map(|c| unmap(c.point(), m)).collect::<Vec<_>>()},
  }
}
fn case(i: usize, ps: &[P2], o: P2, inside: bool, maps: usize) -> Vec<V> {
  desc(|| format!("visibility {:?} {:?}", ps, o));
  let it = || ps.iter().chain(std::iter::once(&o));
  let lo = it().map(|p| p.0.min(p.1)).min().unwrap();
  let hi = it().map(|p| p.0.max(p.1)).max().unwrap();
  let mut gr = Group::default();
  let ms = BigRational::maps(lo, hi);
  for k in 0..maps {
    let m = &ms[(i + k) % ms.len()];
    gr.add(guard(|| vis(ps, o, m, i / 3 + k)), || m.name.clone());
  }
  vec![obj! {"op": if inside { "in" } else { "out" }, "ps": ps.to_vec(), "c": o, "g": gr.json()}]
}
fn winding_inside(p: &[P2], o: P2) -> bool {
  let n = p.len();
  if (0..n).any(|i| on_seg(o, p[i], p[(i + 1) % n])) {
    return false;
  }
  let mut w = 0;
  for i in 0..n {
    let (a, b) = (p[i], p[(i + 1) % n]);
    if a.1 <= o.1 && b.1 > o.1 && det(a, b, o) > 0 {
      w += 1
    }
    if b.1 <= o.1 && a.1 > o.1 && det(a, b, o) < 0 {
      w -= 1
    }
  }
  w != 0
}
fn outside_hull(p: &[P2], o: P2) -> bool {
  let h = hull(p);
  let n = h.len();
  (0..n).any(|i| det(h[i], h[(i + 1) % n], o) < 0)
}
/// Well over a hundred vertices on a small grid.
fn many(r: &mut SmallRng) -> Vec<P2> {
  loop {
    let n = r.gen_range(70..150);
    let p = match r.gen_range(0..3) {
      0 => star(r, n, 22),
      1 => {
        let q: Vec<P2> = grow(r, n / 2, 11).into_iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        subdivide(r, &q, 0.9)
      }
      _ => grow(r, n, 20),
    };
    let mx = p.iter().map(|q| q.0).min().unwrap_or(0);
    let my = p.iter().map(|q| q.1).min().unwrap_or(0);
    let p: Vec<P2> = p.into_iter().map(|q| (q.0 - mx, q.1 - my)).collect();
    if p.len() > 64 && simple(&p) && extent(&p) <= 45 {
      return ccw(p);
    }
  }
}
fn main() {
  run(|c: &Ctx| {
    let polys = load(&c.polys);
    let all = polys.len();
    c.par(all.min(c.pick(1500, 12000)), |i| {
      let j = (i.wrapping_mul(7919) + c.seed as usize) % all;
      let p: Vec<P2> = polys[j].iter().map(|v| (2 * v.0, 2 * v.1)).collect();
      let e = extent(&p);
      let mut out = vec![];
      for y in -1..=e + 1 {
        for x in -1..=e + 1 {
          if winding_inside(&p, (x, y)) {
            out.extend(case(i + (x + 7 * y + 8) as usize, &p, (x, y), true, 1));
          } else if (x + 3 * y + i as i64) % 13 == 0 && outside_hull(&p, (x, y)) {
            out.extend(case(i, &p, (x, y), false, 1));
          }
        }
      }
      out
    });
    c.par(c.pick(2000, 16000), |i| {
      let mut r = c.rng(160_000_000 + i as u64);
      let n = if i % 80 == 79 { 60 } else { [6, 10, 16, 24][i % 4] };
      let mut p = if i % 200 == 50 { many(&mut r) } else { any_poly(&mut r, n) };
      let e = extent(&p);
      if e <= 14 && r.gen_bool(0.8) {
        p = p.iter().map(|v| (2 * v.0, 2 * v.1)).collect();
      }
      let e = extent(&p);
      if e > 45 {
        return vec![];
      }
      let mut out = vec![];
      for k in 0..40 {
        if out.len() >= 4 {
          break;
        }
        // aligned with vertices where possible
        let (a, b) = (p[r.gen_range(0..p.len())], p[r.gen_range(0..p.len())]);
        let o = match k % 4 {
          0 => rpt(&mut r, 0, e),
          1 => (a.0, b.1),
          2 => ((a.0 + b.0) / 2, (a.1 + b.1) / 2),
          _ => (a.0 + (b.0 - a.0).signum() * r.gen_range(1..4), a.1 + (b.1 - a.1).signum() * r.gen_range(1..4)),
        };
        if o.0 < 0 || o.1 < 0 || o.0 > 45 || o.1 > 45 {
          continue;
        }
        if winding_inside(&p, o) {
          out.extend(case(i + k, &p, o, true, 1));
        } else if k == 7 && outside_hull(&p, o) {
          out.extend(case(i + k, &p, o, false, 2));
        }
      }
      out
    });
  });
}
