//! C01: orientation predicates.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use rgeometry::{Orientation, PolygonScalar};

fn turns<T: Sc>(p: &Point<T>, q: &Point<T>, r: &Point<T>) -> V {
  let mut v = vec![
    orient(Point::orient(p, q, r)),
    orient(Orientation::new(p, q, r)),
    orient(Point::orient_along_direction(p, Direction::Through(q), r)),
    ord(T::cmp_slope(p, q, r)),
    orient(TriangleView::new_unchecked([p, q, r]).orientation()),
  ];
  let poly = Polygon::new_unchecked(vec![p.clone(), q.clone(), r.clone()]);
  let ids = poly.boundary_slice().to_vec();
  for id in ids {
    let c = poly.cursor(id);
    let o = c.orientation();
    v.push(orient(o));
    if c.is_colinear() != o.is_colinear() {
      v.push(9);
    }
  }
  if Point::all_colinear(&[p.clone(), q.clone(), r.clone()]) != (v[0] == 0) {
    v.push(9);
  }
  V::from(v)
}
fn alongs<T: Sc>(p: &Point<T>, d: &Vector<T, 2>, r: &Point<T>) -> V {
  V::from(vec![
    orient(Orientation::along_vector(p, d, r)),
    orient(Point::orient_along_vector(p, d, r)),
    orient(Point::orient_along_direction(p, Direction::Vector(d), r)),
    ord(T::cmp_vector_slope(&d.0, p, r)),
  ])
}
fn perps<T: Sc>(p: &Point<T>, d: &Vector<T, 2>, r: &Point<T>) -> V {
  V::from(vec![
    orient(Orientation::along_perp_vector(p, d, r)),
    orient(Point::orient_along_perp_vector(p, d, r)),
    ord(T::cmp_perp_vector_slope(&d.0, p, r)),
  ])
}
fn small<T: Sc>(p: P2, q: P2, rs: &[P2], m: &Map) -> V {
  let (pp, qq): (Point<T>, Point<T>) = (mkp(p, m), mkp(q, m));
  let d: Vector<T, 2> = mkv(q, m);
  V::A(
    rs.iter()
      .map(|r| {
        let rr: Point<T> = mkp(*r, m);
        let perp = if m.sim { perps(&pp, &d, &rr) } else { V::A(vec![]) };
        arr![turns(&pp, &qq, &rr), alongs(&pp, &d, &rr), perp]
      })
      .collect(),
  )
}
fn big<T: Sc>(out: &mut Vec<V>, r: &mut SmallRng, tie: bool) {
  let (x, d) = match r.gen_range(0..if tie { 3 } else { 6 }) {
    0 => close::<T>(r, TURN),
    1 => close::<T>(r, VECTOR),
    2 => close::<T>(r, PERP),
    _ => {
      let x = wild3::<T>(r);
      let d = x[1].clone();
      (x, d)
    }
  };
  desc(|| format!("turn {} {:?} {:?}", T::NAME, x, d));
  let res = guard(|| {
    let [p, q, s] = x.clone();
    let d = Vector(d.clone());
    let (p, q, s) = (Point::new(p), Point::new(q), Point::new(s));
    arr![turns(&p, &q, &s), alongs(&p, &d, &s), perps(&p, &d, &s)]
  });
  let flat: Vec<T> = x.iter().flatten().cloned().collect();
  // the length of the direction does not matter
  let c: Vec<V> = limbs(&flat).into_iter().chain(limbs(&d)).collect();
  out.push(obj! {"op": "big", "ty": T::NAME, "c": c, "res": res});
}
fn colinear<T: Sc>(ps: &[P2], m: &Map) -> V {
  V::B(Point::all_colinear(&mkps::<T>(ps, m)))
}
fn main() {
  run(|c| {
    let k = c.pick(2, 3) as i64;
    let g: Vec<P2> = (-k..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).collect();
    let n = g.len();
    c.par(n * n, |i| {
      let (p, q) = (g[i % n], g[i / n]);
      desc(|| format!("turn {:?} {:?}", p, q));
      let mut gr = Group::default();
      all_types!(-k, k, (i, true), gr, |m| small(p, q, &g, m));
      vec![obj! {"op": "turn", "p": p, "q": q, "rs": g.clone(), "g": gr.json()}]
    });
    // floats next to ties, where rounding decides
    c.par(c.pick(1000, 20000), |i| {
      let mut r = c.rng(7_500_000 + i as u64);
      let mut out = vec![];
      each_float!(|_n| big(&mut out, &mut r, true));
      out
    });
    c.par(c.pick(250, 6000), |i| {
      let mut r = c.rng(7_000_000 + i as u64);
      let mut out = vec![];
      for _ in 0..2 {
        each_type!(|_n| big(&mut out, &mut r, false));
      }
      out
    });
    c.par(c.pick(1500, 20000), |i| {
      let mut r = c.rng(9_000_000 + i as u64);
      let k = [1, 2, 3, 6][i % 4];
      let n = r.gen_range(0..8);
      let mut ps: Vec<P2> = (0..n).map(|_| (r.gen_range(-k..=k), r.gen_range(-k..=k))).collect();
      if r.gen_bool(0.6) && n >= 2 {
        let d = (r.gen_range(-1..=1), r.gen_range(-1..=1));
        for j in 1..n {
          let t = r.gen_range(-k..=k);
          ps[j] = ((ps[0].0 + t * d.0).clamp(-k, k), (ps[0].1 + t * d.1).clamp(-k, k));
        }
      }
      if n >= 2 && ps[0] == ps[1] {
        ps.remove(0);
        if ps.len() >= 2 && ps[0] == ps[1] {
          ps.truncate(1);
        }
      }
      desc(|| format!("all_colinear {:?}", ps));
      let mut gr = Group::default();
      all_types!(-k, k, (i, c.thorough), gr, |m| colinear(&ps, m));
      vec![obj! {"op": "colinear", "ps": ps, "g": gr.json()}]
    });
  });
}
