//! C02: exact distance comparison.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;

fn dists<T: Sc>(p: &Point<T>, q: &Point<T>, r: &Point<T>) -> V {
  V::from(vec![ord(p.cmp_distance_to(q, r)), ord(T::cmp_dist(p, q, r)), -ord(p.cmp_distance_to(r, q)), -ord(T::cmp_dist(p, r, q))])
}
fn small<T: Sc>(p: P2, q: P2, rs: &[P2], m: &Map) -> V {
  if !m.sim {
    return V::A(vec![]);
  }
  let (pp, qq): (Point<T>, Point<T>) = (mkp(p, m), mkp(q, m));
  V::A(rs.iter().map(|r| dists(&pp, &qq, &mkp(*r, m))).collect())
}
fn big<T: Sc>(out: &mut Vec<V>, r: &mut SmallRng, tie: bool) {
  let mut x = wild3::<T>(r);
  if tie || r.gen_bool(0.3) {
    x = close::<T>(r, DIST).0;
  } else if r.gen_bool(0.4) {
    // make (near) ties: mirror q around p where the type allows it
    let style = r.gen();
    let k = T::HI / 3;
    let (px, py) = (r.gen_range(-k..=k), r.gen_range(-k..=k));
    let (dx, dy) = (r.gen_range(-k..=k), r.gen_range(-k..=k));
    let (ex, ey) = [(dx, -dy), (-dx, dy), (dy, dx), (-dy, dx), (dy, -dx), (-dx, -dy)][r.gen_range(0..6)];
    let e = if r.gen_bool(0.5) { r.gen_range(-1..=1i128) } else { 0 };
    x = [[px, py], [px + dx, py + dy], [px + ex + e, py + ey]].map(|z| z.map(|v| T::scaled(v, style)));
  }
  desc(|| format!("dist {} {:?}", T::NAME, x));
  let res = guard(|| {
    let [p, q, s] = x.clone();
    dists(&Point::new(p), &Point::new(q), &Point::new(s))
  });
  let flat: Vec<T> = x.iter().flatten().cloned().collect();
  out.push(obj! {"op": "big", "ty": T::NAME, "c": limbs(&flat), "res": res});
}
fn main() {
  run(|c| {
    let k = c.pick(3, 5) as i64;
    let g: Vec<P2> = (-k..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).collect();
    let n = g.len();
    c.par(n * n, |i| {
      let (p, q) = (g[i % n], g[i / n]);
      desc(|| format!("dist {:?} {:?}", p, q));
      let mut gr = Group::default();
      all_types!(-k, k, (i, false), gr, |m| small(p, q, &g, m));
      vec![obj! {"op": "dist", "p": p, "q": q, "rs": g.clone(), "g": gr.json()}]
    });
    // floats next to ties, where rounding decides
    c.par(c.pick(1000, 20000), |i| {
      let mut r = c.rng(17_500_000 + i as u64);
      let mut out = vec![];
      each_float!(|_n| big(&mut out, &mut r, true));
      out
    });
    c.par(c.pick(300, 8000), |i| {
      let mut r = c.rng(17_000_000 + i as u64);
      let mut out = vec![];
      for _ in 0..2 {
        each_type!(|_n| big(&mut out, &mut r, false));
      }
      out
    });
  });
}
