//! C03: angular and directional orders.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use rgeometry::{Orientation, PolygonScalar};

fn angs<T: Sc>(d: &Vector<T, 2>, p: &Point<T>, q: &Point<T>, r: &Point<T>) -> V {
  let (vp, vq, vr) = (p.as_vec(), q.as_vec(), r.as_vec());
  V::from(vec![
    ord(p.ccw_cmp_around_with(d, q, r)),
    ord(vp.ccw_cmp_around_with(d, vq, vr)),
    ord(Orientation::ccw_cmp_around_with(d, p, q, r)),
    -ord(p.ccw_cmp_around_with(d, r, q)),
  ])
}
fn angs0<T: Sc>(p: &Point<T>, q: &Point<T>, r: &Point<T>) -> V {
  let (vp, vq, vr) = (p.as_vec(), q.as_vec(), r.as_vec());
  V::from(vec![
    ord(p.ccw_cmp_around(q, r)),
    ord(vp.ccw_cmp_around(vq, vr)),
    ord(p.ccw_cmp_around_with(&Vector::unit_right(), q, r)),
    -ord(vp.ccw_cmp_around(vr, vq)),
  ])
}
fn along<T: Sc>(d: &Vector<T, 2>, q: &Point<T>, r: &Point<T>) -> V {
  V::from(vec![ord(d.cmp_along(q, r)), -ord(d.cmp_along(r, q))])
}
fn small<T: Sc>(d: P2, p: P2, q: P2, rs: &[P2], m: &Map) -> V {
  let dd: Vector<T, 2> = mkv(d, m);
  let (pp, qq): (Point<T>, Point<T>) = (mkp(p, m), mkp(q, m));
  V::A(
    rs.iter()
      .map(|r| {
        let rr: Point<T> = mkp(*r, m);
        let a0 = if m.m[0] > 0 && m.m[2] == 0 { angs0(&pp, &qq, &rr) } else { V::A(vec![]) };
        let al = if m.sim { along(&dd, &qq, &rr) } else { V::A(vec![]) };
        arr![angs(&dd, &pp, &qq, &rr), a0, al]
      })
      .collect(),
  )
}
fn big<T: Sc>(out: &mut Vec<V>, r: &mut SmallRng, tie: bool) {
  let mut x = wild3::<T>(r);
  let mut d = loop {
    let d = if r.gen_bool(0.4) {
      // a direction related to the points, so that colinear cases are frequent
      let y = wild3::<T>(r);
      match r.gen_range(0..3) {
        0 => y[0].clone(),
        1 => [x[1][0].clone(), T::from_constant(0)],
        _ => [T::from_constant(0), x[1][1].clone()],
      }
    } else {
      [T::from_constant(r.gen_range(-1..=1)), T::from_constant(r.gen_range(-1..=1))]
    };
    if d[0] != T::from_constant(0) || d[1] != T::from_constant(0) {
      break d;
    }
  };
  if tie || r.gen_bool(0.4) {
    let kind = if r.gen_bool(0.5) { TURN } else { ALONG };
    (x, d) = close::<T>(r, kind);
  }
  desc(|| format!("ang {} {:?} {:?}", T::NAME, d, x));
  let res = guard(|| {
    let [p, q, s] = x.clone();
    let (p, q, s) = (Point::new(p), Point::new(q), Point::new(s));
    let dv = Vector(d.clone());
    arr![angs(&dv, &p, &q, &s), angs0(&p, &q, &s), along(&dv, &q, &s)]
  });
  let flat: Vec<T> = x.iter().flatten().cloned().collect();
  // the length of the direction does not matter
  let c: Vec<V> = limbs(&flat).into_iter().chain(limbs(&d)).collect();
  out.push(obj! {"op": "big", "ty": T::NAME, "c": c, "res": res});
}
fn sorted<T: Sc>(vs: &[P2], m: &Map) -> V {
  if !(m.m[0] > 0 && m.m[2] == 0) {
    return V::A(vec![]);
  }
  let mut l: Vec<Vector<T, 2>> = vs.iter().map(|v| mkv(*v, m)).collect();
  Vector::sort_around(&mut l);
  V::A(
    l.iter()
      .map(|z| V::from(vs.iter().copied().find(|v| mkv::<T>(*v, m) == *z).unwrap_or((-999, -999))))
      .collect(),
  )
}
fn main() {
  run(|c| {
    let k = 2i64;
    let g: Vec<P2> = (-k..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).collect();
    let n = g.len();
    let centres: Vec<P2> = if c.thorough { g.clone() } else { vec![(0, 0), (1, -1), (-2, 1), (2, 2)] };
    let nd = n * n * centres.len();
    c.par(nd, |i| {
      let (d, q, p) = (g[i % n], g[i / n % n], centres[i / n / n]);
      if d == (0, 0) {
        return vec![];
      }
      desc(|| format!("ang {:?} {:?} {:?}", d, p, q));
      let mut gr = Group::default();
      all_types!(-k, k, (i, c.thorough), gr, |m| small(d, p, q, &g, m));
      vec![obj! {"op": "ang", "d": d, "p": p, "q": q, "rs": g.clone(), "g": gr.json()}]
    });
    // floats next to ties, where rounding decides
    c.par(c.pick(1000, 20000), |i| {
      let mut r = c.rng(27_500_000 + i as u64);
      let mut out = vec![];
      each_float!(|_n| big(&mut out, &mut r, true));
      out
    });
    c.par(c.pick(250, 6000), |i| {
      let mut r = c.rng(27_000_000 + i as u64);
      let mut out = vec![];
      for _ in 0..2 {
        each_type!(|_n| big(&mut out, &mut r, false));
      }
      out
    });
    c.par(c.pick(2000, 30000), |i| {
      let mut r = c.rng(29_000_000 + i as u64);
      let k = if i % 400 == 79 { 100 } else { [1, 2, 3, 5, 20][i % 5] };
      let n = if i % 400 == 79 { 300 } else if i % 40 == 39 { 150 } else { r.gen_range(0..[6, 12, 40][i % 3]) };
      let vs: Vec<P2> = (0..n).map(|_| (r.gen_range(-k..=k), r.gen_range(-k..=k))).collect();
      desc(|| format!("sort_around {:?}", vs));
      let mut gr = Group::default();
      all_types!(-k, k, (i, c.thorough), gr, |m| sorted(&vs, m));
      vec![obj! {"op": "sort", "vs": vs, "g": gr.json()}]
    });
  });
}
