//! C05: perturbed line / half-line against segments; line-line intersection.
use num_rational::BigRational;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use rgeometry::Intersects;

fn lin(r: Option<ILineLineSegmentSoS>) -> i64 {
  match r {
    None => 0,
    Some(ILineLineSegmentSoS::Crossing) => 1,
  }
}
fn half(r: Option<IHalfLineLineSegmentSoS>) -> i64 {
  match r {
    None => 9,
    Some(IHalfLineLineSegmentSoS::Crossing(o)) => orient(o),
  }
}
/// [line answers, half-line answers] over the entry points
fn both<T: Sc>(line: Line<'_, T>, a: &Point<T>, b: &Point<T>) -> V {
  let ls: LineSoS<T> = line.into();
  let hs: HalfLineSoS<T> = line.into();
  let hs2: HalfLineSoS<T> = LineSoS::from(line).into();
  let hs3 = HalfLineSoS::new(line.origin, line.direction);
  let hs4 = match line.direction {
    Direction::Vector(v) => HalfLineSoS::new_directed(line.origin, v),
    Direction::Through(p) => HalfLineSoS::new_through(line.origin, p),
  };
  // the owned forms
  let dir = match line.direction {
    Direction::Vector(v) => Direction_::Vector(v.clone()),
    Direction::Through(p) => Direction_::Through(p.clone()),
  };
  let own = Line_ { origin: line.origin.clone(), direction: dir };
  let sos = LineSoS_::from(own.clone());
  let ls3 = LineSoS::from(&sos);
  let hs5: HalfLineSoS<T> = Line::from(&own).into();
  let s1 = LineSegment::new(EndPoint::Inclusive(a.clone()), EndPoint::Inclusive(b.clone()));
  let s2 = LineSegmentView::new(EndPoint::Exclusive(b), EndPoint::Exclusive(a));
  let e = DirectedEdge { src: a, dst: b };
  let ls2: LineSoS<T> = hs.into();
  let lv = vec![lin(ls.intersect(s1.as_ref())), lin(ls.intersect(s2)), lin(ls.intersect(e)), lin(ls2.intersect(e)), lin(ls3.intersect(s2))];
  let hv = vec![
    half(hs.intersect(s1.as_ref())),
    half(hs.intersect(s2)),
    half(hs.intersect(e)),
    half(hs2.intersect(e)),
    half(hs3.intersect(s2)),
    half(hs4.intersect(e)),
    half(hs5.intersect(s1.as_ref())),
  ];
  arr![lv, hv]
}
fn cross<T: Sc>(o: P2, d: P2, a: P2, bs: &[P2], m: &Map) -> V {
  let (oo, aa, tt): (Point<T>, Point<T>, Point<T>) = (mkp(o, m), mkp(a, m), mkp(d, m));
  let dv: Vector<T, 2> = mkv(d, m);
  V::A(
    bs.iter()
      .map(|b| {
        let bb: Point<T> = mkp(*b, m);
        let v1 = if d == (0, 0) { V::A(vec![]) } else { both(Line::new_directed(&oo, &dv), &aa, &bb) };
        let v2 = if o == d { V::A(vec![]) } else { both(Line::new_through(&oo, &tt), &aa, &bb) };
        arr![v1, v2]
      })
      .collect(),
  )
}
fn main() {
  run(|c| {
    let k = 2i64;
    let g: Vec<P2> = (-k..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).collect();
    let n = g.len();
    let origins: Vec<P2> = if c.thorough { g.clone() } else { vec![(0, 0), (1, 0), (-1, 2)] };
    c.par(n * n * origins.len(), |i| {
      let (d, a, o) = (g[i % n], g[i / n % n], origins[i / n / n]);
      desc(|| format!("cross {:?} {:?} {:?}", o, d, a));
      let mut gr = Group::default();
      all_types!(-k, k, (i, c.thorough), gr, |m| cross(o, d, a, &g, m));
      vec![obj! {"op": "cross", "o": o, "d": d, "a": a, "bs": g.clone(), "g": gr.json()}]
    });
    c.par(c.pick(600, 10000), |i| {
      let mut r = c.rng(37_000_000 + i as u64);
      let k = [3, 5, 9, 30][i % 4];
      let mut p = || (r.gen_range(-k..=k), r.gen_range(-k..=k));
      let (o, d, a) = (p(), p(), p());
      let bs: Vec<P2> = (0..20).map(|_| p()).collect();
      desc(|| format!("cross {:?} {:?} {:?}", o, d, a));
      let mut gr = Group::default();
      all_types!(-k, k, (i, c.thorough), gr, |m| cross(o, d, a, &bs, m));
      vec![obj! {"op": "cross", "o": o, "d": d, "a": a, "bs": bs, "g": gr.json()}]
    });
    c.par(c.pick(1500, 30000), |i| {
      let mut r = c.rng(39_000_000 + i as u64);
      let mut x: Vec<BigRational> = match i % 3 {
        0 => (0..8).map(|_| BigRational::from_integer(r.gen_range(-3..=3i64).into())).collect(),
        1 => (0..8).map(|_| BigRational::scaled(r.gen_range(-1_000_000_000..=1_000_000_000), r.gen())).collect(),
        _ => (0..8).map(|_| BigRational::from_integer((r.gen::<i64>() >> r.gen_range(20..60)).into())).collect(),
      };
      if r.gen_bool(0.2) {
        // parallel lines
        let t = BigRational::from_integer(r.gen_range(-3..=3i64).into());
        for j in 0..2 {
          x[6 + j] = &x[4 + j] + &t * (&x[2 + j] - &x[j]);
        }
      }
      if (x[0] == x[2] && x[1] == x[3]) || (x[4] == x[6] && x[5] == x[7]) {
        return vec![];
      }
      desc(|| format!("line intersection {:?}", x));
      let pt = |j: usize| Point::new([x[2 * j].clone(), x[2 * j + 1].clone()]);
      let (p, q, s, t) = (pt(0), pt(1), pt(2), pt(3));
      let mut all = x.clone();
      let res = guard(|| match Line::new_through(&p, &q).intersection_point(&Line::new_through(&s, &t)) {
        None => V::B(false),
        Some(z) => {
          all.push(z.array[0].clone());
          all.push(z.array[1].clone());
          V::B(true)
        }
      });
      vec![obj! {"op": "lines", "c": limbs(&all), "res": res}]
    });
  });
}
