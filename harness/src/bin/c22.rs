//! C22: how much work the algorithms do, measured in predicates and
//! comparisons evaluated on a scalar that counts them.
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run};
use rgconf::sc::P2;
use rgconf::*;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::algorithms::zhash::{ZHashBox, ZHashable};
use rgeometry::data::*;
use rgeometry::{Orientation, PolygonScalar, TotalOrd};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

thread_local! { static PRED: Cell<i64> = const { Cell::new(0) }; static CMP: Cell<i64> = const { Cell::new(0) }; }
fn pred() {
  PRED.with(|c| c.set(c.get() + 1));
}
fn cmp() {
  CMP.with(|c| c.set(c.get() + 1));
}
#[derive(Clone, Copy, Debug)]
struct N(i64);
macro_rules! ops {
  ($($tr:ident $f:ident $tra:ident $fa:ident),*) => { $(
    impl $tr for N { type Output = N; fn $f(self, o: N) -> N { N(self.0.$f(o.0)) } }
    impl $tra for N { fn $fa(&mut self, o: N) { self.0.$fa(o.0) } }
  )* };
}
ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign,
     Rem rem RemAssign rem_assign);
impl Neg for N {
  type Output = N;
  fn neg(self) -> N {
    N(-self.0)
  }
}
impl std::iter::Sum for N {
  fn sum<I: Iterator<Item = N>>(it: I) -> N {
    N(it.map(|x| x.0).sum())
  }
}
impl PartialEq for N {
  fn eq(&self, o: &N) -> bool {
    cmp();
    self.0 == o.0
  }
}
impl PartialOrd for N {
  fn partial_cmp(&self, o: &N) -> Option<Ordering> {
    cmp();
    self.0.partial_cmp(&o.0)
  }
}
impl TotalOrd for N {
  fn total_cmp(&self, o: &N) -> Ordering {
    cmp();
    self.0.cmp(&o.0)
  }
}
fn un(p: &[N; 2]) -> [i64; 2] {
  [p[0].0, p[1].0]
}
impl PolygonScalar for N {
  fn from_constant(v: i8) -> N {
    N(v as i64)
  }
  fn cmp_dist(p: &[N; 2], q: &[N; 2], r: &[N; 2]) -> Ordering {
    pred();
    i64::cmp_dist(&un(p), &un(q), &un(r))
  }
  fn cmp_slope(p: &[N; 2], q: &[N; 2], r: &[N; 2]) -> Ordering {
    pred();
    i64::cmp_slope(&un(p), &un(q), &un(r))
  }
  fn cmp_vector_slope(p: &[N; 2], q: &[N; 2], r: &[N; 2]) -> Ordering {
    pred();
    i64::cmp_vector_slope(&un(p), &un(q), &un(r))
  }
  fn cmp_perp_vector_slope(p: &[N; 2], q: &[N; 2], r: &[N; 2]) -> Ordering {
    pred();
    i64::cmp_perp_vector_slope(&un(p), &un(q), &un(r))
  }
}
impl ZHashable for N {
  type ZHashKey = <i64 as ZHashable>::ZHashKey;
  fn zhash_key(b: ZHashBox<'_, N>) -> Self::ZHashKey {
    i64::zhash_key(ZHashBox { min_x: &b.min_x.0, max_x: &b.max_x.0, min_y: &b.min_y.0, max_y: &b.max_y.0 })
  }
  fn zhash_fn(key: Self::ZHashKey, p: &Point<N>) -> u64 {
    i64::zhash_fn(key, &Point::new([p.array[0].0, p.array[1].0]))
  }
}
fn pts(ps: &[P2]) -> Vec<Point<N>> {
  ps.iter().map(|p| Point::new([N(p.0), N(p.1)])).collect()
}
/// run `f`; it returns a size measure of the result
fn measure(op: &str, n: usize, f: impl FnOnce() -> usize) -> V {
  desc(|| format!("work of {} n={}", op, n));
  let r = guard(|| {
    PRED.with(|c| c.set(0));
    CMP.with(|c| c.set(0));
    let h = f();
    obj! {"pred": PRED.with(|c| c.get()), "cmp": CMP.with(|c| c.get()), "h": h as i64}
  });
  obj! {"op": op, "n": n as i64, "r": r}
}
/// A strictly convex polygon with n vertices.
fn convex(r: &mut SmallRng, n: usize) -> Vec<P2> {
  let n = n as i64;
  let mut v: Vec<P2> = match r.gen_range(0..3) {
    // a parabola, a lens of two, a fan of slopes
    0 => (0..n).map(|i| (i, i * i)).collect(),
    1 => {
      let k = n / 2;
      let mut v: Vec<P2> = (0..k).map(|i| (2 * i, 2 * i * (i - k))).collect();
      v.extend((0..n - k).rev().map(|i| (2 * i + 1, 2 * n * n - (2 * i + 1 - n) * (2 * i + 1 - n))));
      v
    }
    _ => {
      let mut steps: Vec<P2> = vec![];
      let mut d = 1i64;
      while (steps.len() as i64) < n {
        steps.push((d, 1 + d * d / 3));
        d += r.gen_range(1..4);
      }
      steps.sort_by(|a, b| (a.1 * b.0).cmp(&(b.1 * a.0)));
      steps.dedup_by(|a, b| a.0 * b.1 == a.1 * b.0);
      let mut at = (0, 0);
      let mut v = vec![at];
      for s in steps {
        at = (at.0 + s.0, at.1 + s.1);
        v.push(at);
      }
      v
    }
  };
  let s = r.gen_range(0..v.len());
  v = hull(&v);
  let s = s % v.len();
  v.rotate_left(s);
  v
}
fn query(r: &mut SmallRng, ps: &[P2]) -> P2 {
  let n = ps.len();
  let (a, b, c) = (ps[r.gen_range(0..n)], ps[r.gen_range(0..n)], ps[r.gen_range(0..n)]);
  match r.gen_range(0..6) {
    0 => a,
    1 => ((a.0 + b.0) / 2, (a.1 + b.1) / 2),
    2 => ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3),
    3 => (2 * a.0 - b.0, 2 * a.1 - b.1),
    4 => (a.0 + r.gen_range(-1..=1), a.1 + r.gen_range(-1..=1)),
    _ => ((ps[0].0 + 3 * a.0) / 4, (ps[0].1 + 3 * a.1) / 4),
  }
}
fn point_set(r: &mut SmallRng, n: usize) -> Vec<P2> {
  let m = n as i64;
  let mut v: Vec<P2> = match r.gen_range(0..7) {
    0 => convex(r, n),
    1 => (0..m).map(|_| rpt(r, -1000, 1000)).collect(),
    2 => (0..m).map(|_| rpt(r, 0, 6)).collect(),
    3 => (0..m).map(|i| (i, 0)).chain([(0, 1)]).collect(),
    4 => (0..m).map(|i| (0, i)).chain([(5, 2)]).collect(),
    5 => (0..m).map(|i| (i, if i % 2 == 0 { i * i } else { -i })).collect(),
    _ => (0..m).map(|i| (i % 20, i / 20)).collect(),
  };
  match r.gen_range(0..3) {
    0 => shuffle(r, &mut v),
    1 => v.reverse(),
    _ => {}
  }
  v
}
fn polygon(r: &mut SmallRng, n: usize) -> Vec<P2> {
  let p = match r.gen_range(0..9) {
    0 => star(r, n, 3000),
    1 => mono(r, n, 50),
    2 => spiral((n / 2).max(1), 2),
    3 => comb(r, (n / 2).max(1), 100),
    4 => convex(r, n),
    5 => {
      // one reflex chain under a wide roof: few ears at a time
      let m = n as i64;
      let mut v: Vec<P2> = (0..m).rev().map(|i| (i, i * (i - m + 1))).collect();
      v.push((m / 2, -3 * m * m));
      v
    }
    6 | 7 => {
      // a thin crescent: only its tips are ears
      let m = (n as i64 / 2).max(2);
      let at = |i: i64| 2 * i - m;
      let mut v: Vec<P2> = (0..m).map(|i| (at(i), at(i) * at(i))).collect();
      v.extend((1..m - 1).rev().map(|i| (at(i), at(i) * at(i) + 1)));
      v
    }
    _ => grow(r, n.min(60), 400),
  };
  let p = ccw(p);
  let s = r.gen_range(0..p.len());
  let p = rotate(&p, s);
  if simple(&p) { p } else { ccw(grow(r, 20, 50)) }
}
fn main() {
  run(|c| {
    let sizes = [3usize, 4, 5, 6, 8, 12, 20, 35, 60, 100, 170, 300, 500];
    c.par(sizes.len() * c.pick(4, 40), |i| {
      let mut r = c.rng(220_000_000 + i as u64);
      let n = sizes[i % sizes.len()];
      let mut out = vec![];
      // convex location, two sizes up
      let cv = convex(&mut r, 2 * n);
      let poly = PolygonConvex::new_unchecked(Polygon::new_unchecked(pts(&cv)));
      for _ in 0..12 {
        let q = query(&mut r, &cv);
        let q = Point::new([N(q.0), N(q.1)]);
        out.push(measure("convex-locate", cv.len(), || poly.locate(&q) as usize));
      }
      let t = pts(&cv[..3]);
      let q = query(&mut r, &cv);
      let q = Point::new([N(q.0), N(q.1)]);
      out.push(measure("triangle", 3, || {
        let v = TriangleView::new_unchecked([&t[0], &t[1], &t[2]]);
        let _ = (v.orientation(), v.bounding_box());
        v.locate(&q) as usize
      }));
      out.push(measure("orient", 3, || {
        let _ = Point::orient(&t[0], &t[1], &t[2]);
        let _ = t[0].cmp_distance_to(&t[1], &t[2]);
        t[0].ccw_cmp_around(&t[1], &t[2]) as i64 as usize & 1
      }));
      // hulls of point sets
      let ps = point_set(&mut r, n);
      let m = ps.len();
      let v = pts(&ps);
      let hn = |h: Result<PolygonConvex<N>, rgeometry::Error>| h.map(|p| p.polygon().boundary_slice().len()).unwrap_or(3);
      out.push(measure("graham", m, || hn(graham_scan::convex_hull(v.clone()))));
      out.push(measure("gift", m, || hn(gift_wrapping::convex_hull(v.clone()))));
      // polygons
      let ps = polygon(&mut r, n);
      let m = ps.len();
      let p = Polygon::new_unchecked(pts(&ps));
      out.push(measure("melkman", m, || melkman::convex_hull(&p).polygon().boundary_slice().len()));
      let q = query(&mut r, &ps);
      let q = Point::new([N(q.0), N(q.1)]);
      out.push(measure("locate", m, || p.locate(&q) as usize));
      out.push(measure("bounding-box", m, || p.bounding_box().0.array.len()));
      if m >= 4 {
        let k = r.gen_range(0..m);
        out.push(measure("is-ear", m, || p.cursor(p.boundary_slice()[k]).is_ear() as usize));
      }
      if m <= 200 || c.thorough {
        out.push(measure("validate", m, || p.validate().is_ok() as usize));
        out.push(measure("new", m, || Polygon::new(pts(&ps)).is_ok() as usize));
      }
      out.push(measure("earclip", m, || earclip(&p).take(m + 3).count()));
      out.push(measure("triangulate", m, || p.triangulate().take(m + 3).count()));
      out.push(measure("earclip", m, || earclip_hashed(&p).take(m + 3).count()));
      let seed = r.gen_range(1..6);
      let src = || biased(seed);
      out.push(measure("earclip", m, || triangulate_list(&pts(&ps), p.boundary_slice(), src()).take(m + 3).count()));
      out.push(measure("earclip", m, || triangulate_list_hashed(&pts(&ps), p.boundary_slice(), src()).take(m + 3).count()));
      let _ = (SmallRng::seed_from_u64(0), Orientation::CoLinear);
      out
    });
  });
}
