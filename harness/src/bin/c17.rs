//! C17: areas, centroids, bounding boxes, transforms and arithmetic.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::{BigRational, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::data::*;
use std::convert::TryFrom;

fn q(v: i128) -> BigRational {
  BigRational::from_integer(BigInt::from(v))
}
fn small(r: &BigRational) -> (i64, i64) {
  match (r.numer().to_i64(), r.denom().to_i64()) {
    (Some(n), Some(d)) if n.abs() < 1_000_000_000 && d < 1_000_000_000 => (n, d),
    _ => (-999_999_999, 7),
  }
}
fn fr(r: &BigRational) -> V {
  let (n, d) = small(r);
  V::from(vec![n, d])
}
/// Exact value of a computed quantity.
trait Q {
  fn q(&self) -> BigRational;
}
macro_rules! q_int { ($($t:ty),*) => { $(impl Q for $t { fn q(&self) -> BigRational { BigRational::from_integer(BigInt::from(*self)) } })* } }
q_int!(i8, i16, i32, i64, i128, isize);
impl Q for BigInt {
  fn q(&self) -> BigRational {
    BigRational::from_integer(self.clone())
  }
}
impl Q for BigRational {
  fn q(&self) -> BigRational {
    self.clone()
  }
}
impl Q for rug::Integer {
  fn q(&self) -> BigRational {
    self.exact()
  }
}
impl Q for Ratio<i64> {
  fn q(&self) -> BigRational {
    BigRational::new(BigInt::from(*self.numer()), BigInt::from(*self.denom()))
  }
}
macro_rules! q_fl { ($($t:ty),*) => { $(impl Q for $t { fn q(&self) -> BigRational { self.exact() } })* } }
q_fl!(f32, f64, OrderedFloat<f32>, OrderedFloat<f64>, NotNan<f32>, NotNan<f64>);

fn unscale(a: BigRational, m: &Map) -> BigRational {
  let d = q(m.m[0]) * q(m.m[3]) - q(m.m[1]) * q(m.m[2]);
  a * q(m.den as i128) * q(m.den as i128) / d
}
fn poly<T: Sc>(ps: &[P2], m: &Map, rot: usize) -> Polygon<T> {
  let mut v: Vec<Point<T>> = mkps(ps, m);
  v.rotate_left(rot % ps.len());
  arranged(&v, rot / 2)
}
/// Doubled area of a polygon, and of a triangle when there are three points.
fn area2_ev<T: Sc + Into<F>, F>(gr: &mut Group, ps: &[P2], salt: usize, fname: &str, only_id: bool)
where
  F: Q + Clone + std::iter::Sum + num_traits::NumOps<F, F>,
{
  for m in pickm::<T>(ps, salt, only_id) {
    gr.add(guard(|| fr(&unscale(poly::<T>(ps, &m, salt).signed_area_2x::<F>().q(), &m))), || format!("{}>{}/{}", T::NAME, fname, m.name));
    if ps.len() == 3 {
      gr.add(
        guard(|| {
          let t: Vec<Point<T>> = mkps(ps, &m);
          fr(&unscale(TriangleView::new_unchecked([&t[0], &t[1], &t[2]]).signed_area_2x::<F>().q(), &m))
        }),
        || format!("tri {}>{}/{}", T::NAME, fname, m.name),
      );
    }
  }
}
fn area1_ev<T: Sc + Into<F>, F>(gr: &mut Group, ps: &[P2], salt: usize, fname: &str, only_id: bool, int: bool)
where
  F: Q + Clone + std::iter::Sum + num_traits::NumOps<F, F> + num_traits::FromPrimitive,
{
  let show = |a: BigRational, m: &Map| if int { V::from(a.to_integer().to_i64().unwrap_or(-777777)) } else { fr(&unscale(a, m)) };
  for m in pickm::<T>(ps, salt, only_id) {
    gr.add(guard(|| show(poly::<T>(ps, &m, salt).signed_area::<F>().q(), &m)), || format!("{}>{}/{}", T::NAME, fname, m.name));
    if ps.len() == 3 {
      gr.add(
        guard(|| {
          let t: Vec<Point<T>> = mkps(ps, &m);
          show(TriangleView::new_unchecked([&t[0], &t[1], &t[2]]).signed_area::<F>().q(), &m)
        }),
        || format!("tri {}>{}/{}", T::NAME, fname, m.name),
      );
    }
  }
}
fn pickm<T: Sc>(ps: &[P2], salt: usize, only_id: bool) -> Vec<Map> {
  let mut v = T::maps(0, extent(ps));
  if only_id {
    v.retain(|m| m.name == "id");
  }
  let n = v.len();
  if n > 2 {
    v.rotate_left(salt % n);
    v.truncate(2);
  }
  v
}
fn bbox<T: Sc>(gr: &mut Group, ps: &[P2], salt: usize) {
  let mut v = T::maps(0, extent(ps));
  v.retain(|m| m.trans);
  let n = v.len();
  for k in 0..n.min(2) {
    let m = &v[(salt + k) % n];
    let show = |lo: Point<T>, hi: Point<T>| {
      let x = |z: &T| ps.iter().find(|p| mkp::<T>(**p, m).x_coord() == z).map(|p| p.0).unwrap_or(-1);
      let y = |z: &T| ps.iter().find(|p| mkp::<T>(**p, m).y_coord() == z).map(|p| p.1).unwrap_or(-1);
      V::from(vec![x(lo.x_coord()), y(lo.y_coord()), x(hi.x_coord()), y(hi.y_coord())])
    };
    gr.add(
      guard(|| {
        let (a, b) = poly::<T>(ps, m, salt).bounding_box();
        show(a, b)
      }),
      || format!("{}/{}", T::NAME, m.name),
    );
    if ps.len() == 3 {
      gr.add(
        guard(|| {
          let t: Vec<Point<T>> = mkps(ps, m);
          let (a, b) = TriangleView::new_unchecked([&t[0], &t[1], &t[2]]).bounding_box();
          show(a, b)
        }),
        || format!("tri {}/{}", T::NAME, m.name),
      );
    }
  }
}
/// Undo the embedding exactly: triple (x, y, w).
fn unmap(p: &Point<BigRational>, m: &Map) -> V {
  let den = q(m.den as i128);
  let x = p.x_coord() * &den - q(m.t[0]);
  let y = p.y_coord() * &den - q(m.t[1]);
  let d = q(m.m[0]) * q(m.m[3]) - q(m.m[1]) * q(m.m[2]);
  let u = (q(m.m[3]) * &x - q(m.m[1]) * &y) / &d;
  let v = (q(m.m[0]) * &y - q(m.m[2]) * &x) / &d;
  let w = u.denom().lcm(v.denom());
  let f = |z: BigRational| (z * BigRational::from_integer(w.clone())).to_integer().to_i64().unwrap_or(i64::MAX);
  let v = [f(u), f(v), w.to_i64().unwrap_or(i64::MAX)];
  // the true centroid has a denominator of at most 3 * doubled area
  if v.iter().any(|z| z.abs() > 400_000) {
    return V::from(vec![-1i64, -1, 0]);
  }
  V::from(v.to_vec())
}
fn measures(i: usize, ps: &[P2], simple: bool) -> Vec<V> {
  desc(|| format!("measures {:?}", ps));
  let mut out = vec![];
  let p = || ps.to_vec();
  let mut g = Group::default();
  area2_ev::<i8, i64>(&mut g, ps, i, "i64", false);
  area2_ev::<i8, BigInt>(&mut g, ps, i, "BigInt", false);
  area2_ev::<i16, i64>(&mut g, ps, i + 1, "i64", false);
  area2_ev::<i32, i128>(&mut g, ps, i + 2, "i128", false);
  area2_ev::<i64, BigInt>(&mut g, ps, i + 3, "BigInt", false);
  area2_ev::<isize, BigInt>(&mut g, ps, i + 4, "BigInt", false);
  area2_ev::<BigInt, BigInt>(&mut g, ps, i, "BigInt", false);
  area2_ev::<BigInt, BigRational>(&mut g, ps, i + 1, "BigRational", false);
  area2_ev::<BigRational, BigRational>(&mut g, ps, i + 5, "BigRational", false);
  area2_ev::<rug::Integer, rug::Integer>(&mut g, ps, i, "rug", false);
  area2_ev::<i32, i32>(&mut g, ps, i, "i32", true);
  area2_ev::<i64, Ratio<i64>>(&mut g, ps, i, "Ratio", true);
  area2_ev::<i32, f64>(&mut g, ps, i, "f64", true);
  area2_ev::<f64, f64>(&mut g, ps, i, "f64", true);
  area2_ev::<NotNan<f64>, NotNan<f64>>(&mut g, ps, i, "NotNan", true);
  area2_ev::<OrderedFloat<f32>, OrderedFloat<f32>>(&mut g, ps, i, "OrderedFloat", true);
  out.push(obj! {"op": "area2", "ps": p(), "g": g.json()});
  let mut g = Group::default();
  area1_ev::<BigInt, BigRational>(&mut g, ps, i, "BigRational", false, false);
  area1_ev::<BigRational, BigRational>(&mut g, ps, i + 1, "BigRational", false, false);
  area1_ev::<i64, Ratio<i64>>(&mut g, ps, i, "Ratio", true, false);
  area1_ev::<f64, f64>(&mut g, ps, i, "f64", true, false);
  area1_ev::<i16, f32>(&mut g, ps, i, "f32", true, false);
  out.push(obj! {"op": "area1", "ps": p(), "g": g.json()});
  let mut g = Group::default();
  area1_ev::<i32, i32>(&mut g, ps, i, "i32", true, true);
  area1_ev::<i8, i64>(&mut g, ps, i, "i64", true, true);
  area1_ev::<isize, BigInt>(&mut g, ps, i, "BigInt", true, true);
  out.push(obj! {"op": "areai", "ps": p(), "g": g.json()});
  let mut g = Group::default();
  macro_rules! bb { ($($t:ty),*) => { $( bbox::<$t>(&mut g, ps, i); )* } }
  bb!(i8, i16, i32, i64, isize, BigInt, BigRational, rug::Integer, f32, f64, OrderedFloat<f32>, OrderedFloat<f64>, NotNan<f32>, NotNan<f64>);
  out.push(obj! {"op": "bbox", "ps": p(), "g": g.json()});
  if area2(ps) != 0 {
    let mut g = Group::default();
    for m in pickm::<BigRational>(ps, i, false) {
      g.add(guard(|| unmap(&poly::<BigRational>(ps, &m, i).centroid(), &m)), || m.name.clone());
    }
    out.push(obj! {"op": "cent", "ps": p(), "g": g.json()});
  }
  if simple && area2(ps) > 0 {
    let mut g = Group::default();
    for (k, s, t) in [(0, 1.0, 0.0), (1, 0.001, 3.0), (2, 1000.0, -77.0)] {
      g.add(
        guard(|| {
          let v: Vec<_> = ps.iter().map(|p| Point::new([OrderedFloat(p.0 as f64 * s + t), OrderedFloat(p.1 as f64 * s - t)])).collect();
          let p = arranged(&v, i + k as usize);
          let show = |z: &Polygon<OrderedFloat<f64>>| -> Vec<P2> {
            z.iter_boundary().map(|c| ((c.point().x_coord().0 * 1e4).round() as i64, (c.point().y_coord().0 * 1e4).round() as i64)).collect()
          };
          let clip = |v: Vec<P2>| -> Vec<P2> { v.into_iter().map(|z| (z.0.clamp(-1 << 30, 1 << 30), z.1.clamp(-1 << 30, 1 << 30))).collect() };
          let a = clip(show(&p.normalize()));
          let c = PolygonConvex::new_unchecked(p);
          if clip(show(&c.normalize())) != a {
            return V::from(vec![(1 << 30, 1 << 30)]);
          }
          V::from(a)
        }),
        || format!("{}", k),
      );
    }
    out.push(obj! {"op": "norm", "ps": p(), "g": g.json()});
  }
  out
}

///////////////////////////////////////////////////////////////////////////////
// Transforms
type F = (i64, i64); // numerator, denominator
trait Mk: Sc {
  fn frac(f: F) -> Option<Self>;
}
macro_rules! mk_int { ($($t:ty),*) => { $(impl Mk for $t { fn frac(f: F) -> Option<Self> { if f.1 == 1 { Some(<$t>::from(f.0)) } else { None } } })* } }
mk_int!(i64, BigInt);
impl Mk for i32 {
  fn frac(f: F) -> Option<Self> {
    if f.1 == 1 { Some(f.0 as i32) } else { None }
  }
}
impl Mk for isize {
  fn frac(f: F) -> Option<Self> {
    if f.1 == 1 { Some(f.0 as isize) } else { None }
  }
}
impl Mk for BigRational {
  fn frac(f: F) -> Option<Self> {
    Some(BigRational::new(f.0.into(), f.1.into()))
  }
}
macro_rules! mk_fl { ($t:ty, $p:ty, $w:expr) => { impl Mk for $t { fn frac(f: F) -> Option<Self> { if f.1 & (f.1 - 1) == 0 { Some($w(f.0 as $p / f.1 as $p)) } else { None } } } } }
mk_fl!(f64, f64, |x| x);
mk_fl!(f32, f32, |x| x);
mk_fl!(OrderedFloat<f64>, f64, OrderedFloat);
mk_fl!(OrderedFloat<f32>, f32, OrderedFloat);
mk_fl!(NotNan<f64>, f64, |x| NotNan::new(x).unwrap());

#[derive(Clone, Debug)]
struct Factor {
  kind: i64,
  v: Vec<F>,
}
fn factor<T: Mk + One + Zero, const N: usize>(f: &Factor) -> Option<Transform<T, N>> {
  let mut v = vec![];
  for z in &f.v {
    v.push(T::frac(*z)?);
  }
  let arr: [T; N] = v.try_into().ok()?;
  Some(match f.kind {
    1 => Transform::translate(Vector(arr)),
    2 => Transform::scale(Vector(arr)),
    _ => Transform::uniform_scale(arr[0].clone()),
  })
}

/// The product of the factors, grouped and passed in one of several ways.
fn product<T: Mk + One + Zero, const N: usize>(fs: &[Transform<T, N>], how: usize) -> Transform<T, N> {
  if fs.len() == 1 {
    return fs[0].clone();
  }
  let k = match how % 3 {
    0 => 1,
    1 => fs.len() - 1,
    _ => fs.len() / 2,
  };
  let (a, b) = (product(&fs[..k], how / 3), product(&fs[k..], how / 2));
  if how & 1 == 0 {
    a * b
  } else {
    &a * &b
  }
}
fn pts_out<T: Q, const N: usize>(v: &[Point<T, N>]) -> V {
  V::A(v.iter().map(|p| V::A((0..N).map(|i| fr(&p[i].q())).collect())).collect())
}
fn vec_out<T: Q, const N: usize>(v: &[Vector<T, N>]) -> V {
  V::A(v.iter().map(|p| V::A((0..N).map(|i| fr(&p[i].q())).collect())).collect())
}
fn tr<T: Mk + One + Zero + Q, const N: usize>(gr: &mut Group, fs: &[Factor], ps: &[Vec<F>], how: usize) {
  let Some(ts): Option<Vec<Transform<T, N>>> = fs.iter().map(factor).collect() else { return };
  let mut pts: Vec<Point<T, N>> = vec![];
  for p in ps {
    let Some(v): Option<Vec<T>> = p.iter().map(|z| T::frac(*z)).collect() else { return };
    let Ok(a) = <[T; N]>::try_from(v) else { return };
    pts.push(Point::new(a));
  }
  let vs: Vec<Vector<T, N>> = pts.iter().cloned().map(Vector::from).collect();
  let lab = |s: &str| format!("{} {}", T::NAME, s);
  let t = || product(&ts, how);
  let mut put = |s: &str, f: &dyn Fn() -> V| gr.add(guard(f), || lab(s));
  put("&t*&p", &|| {
    let t = t();
    pts_out(&pts.iter().map(|p| &t * p).collect::<Vec<_>>())
  });
  put("&t*p", &|| {
    let t = t();
    pts_out(&pts.iter().map(|p| &t * p.clone()).collect::<Vec<_>>())
  });
  put("t*p", &|| {
    let t = t();
    pts_out(&pts.iter().map(|p| t.clone() * p.clone()).collect::<Vec<_>>())
  });
  put("&t*&v", &|| {
    let t = t();
    vec_out(&vs.iter().map(|p| &t * p).collect::<Vec<_>>())
  });
  put("&t*v", &|| {
    let t = t();
    vec_out(&vs.iter().map(|p| &t * p.clone()).collect::<Vec<_>>())
  });
  put("t*&v", &|| {
    let t = t();
    vec_out(&vs.iter().map(|p| t.clone() * p).collect::<Vec<_>>())
  });
  // one factor at a time
  put("steps", &|| pts_out(&pts.iter().map(|p| ts.iter().rev().fold(p.clone(), |p, t| t * p)).collect::<Vec<_>>()));
}
fn trpoly<T: Mk + One + Zero + Q>(gr: &mut Group, fs: &[Factor], ps: &[Vec<F>], how: usize) {
  let Some(ts): Option<Vec<Transform<T, 2>>> = fs.iter().map(factor).collect() else { return };
  let mut pts: Vec<Point<T>> = vec![];
  for p in ps {
    let (Some(x), Some(y)) = (T::frac(p[0]), T::frac(p[1])) else { return };
    pts.push(Point::new([x, y]));
  }
  let p = arranged(&pts, how / 3);
  let order: Vec<usize> = p.boundary_slice().iter().map(|i| i.usize()).collect();
  let t = || product(&ts, how);
  let show = |p: Polygon<T>| {
    // storage and boundary agree, vertices keep their identity
    let a: Vec<Point<T>> = p.iter_boundary().map(|c| c.point().clone()).collect();
    let s: Vec<Point<T>> = p.iter().cloned().collect();
    let b: Vec<Point<T>> = order.iter().map(|i| s[*i].clone()).collect();
    if pts_out(&a) == pts_out(&b) { pts_out(&a) } else { V::from("storage differs") }
  };
  let mut put = |s: &str, f: &dyn Fn() -> V| gr.add(guard(f), || format!("{} {}", T::NAME, s));
  put("&t*&P", &|| show(&t() * &p));
  put("&t*P", &|| show(&t() * p.clone()));
  put("t*P", &|| show(t() * p.clone()));
  put("t*&P", &|| show(t() * &p));
}
fn tr_ev(fs: &[Factor], n: usize, ps: &[Vec<F>], how: usize) -> V {
  desc(|| format!("transform {:?} {:?}", fs, ps));
  let mut g = Group::default();
  macro_rules! all { ($($t:ty),*) => { $( match n { 1 => tr::<$t, 1>(&mut g, fs, ps, how), 2 => { tr::<$t, 2>(&mut g, fs, ps, how); trpoly::<$t>(&mut g, fs, ps, how + 1) } _ => tr::<$t, 3>(&mut g, fs, ps, how) } )* } }
  all!(i64, i32, isize, BigInt, BigRational, f64, OrderedFloat<f64>, NotNan<f64>);
  if fs.len() <= 2 {
    all!(f32, OrderedFloat<f32>);
  }
  let fj = V::A(fs.iter().map(|f| V::A(vec![V::I(f.kind), V::A(f.v.iter().map(|z| V::from(*z)).collect())])).collect());
  let pj = V::A(ps.iter().map(|p| V::A(p.iter().map(|z| V::from(*z)).collect())).collect());
  obj! {"op": "tr", "fs": fj, "ps": pj, "g": g.json()}
}
fn red(n: i64, d: i64) -> F {
  let g = n.gcd(&d).max(1);
  (n / g, d / g)
}

///////////////////////////////////////////////////////////////////////////////
// Arithmetic
/// Is the exact value a value of the type?
fn fits<T: Sc>(v: &BigRational) -> bool {
  match T::NAME {
    "BigRational" => true,
    "BigInt" | "rug" => v.is_integer(),
    n if n.contains('f') || n.contains('F') || n.contains("Not") => {
      if v.is_zero() {
        return true;
      }
      let mut a = v.numer().abs();
      let tz = a.trailing_zeros().unwrap_or(0);
      a >>= tz;
      let d = v.denom();
      let pow2 = (d & (d - BigInt::one())).is_zero();
      pow2 && d.bits() < 100 && v.numer().bits() < 110 && a.bits() <= if n.contains("32") { 24 } else { 53 }
    }
    _ => v.is_integer() && v.to_integer() >= BigInt::from(T::LO) && v.to_integer() <= BigInt::from(T::HI),
  }
}
fn bq(v: &BigRational) -> V {
  let (a, b) = (big_limbs(v.numer()), big_limbs(v.denom()));
  V::A(vec![a, b])
}
fn bqs(v: &[BigRational]) -> V {
  V::A(v.iter().map(bq).collect())
}
fn vq<T: Q, const N: usize>(v: &Vector<T, N>) -> V {
  V::A((0..N).map(|i| bq(&v[i].q())).collect())
}
fn pq<T: Q, const N: usize>(v: &Point<T, N>) -> V {
  V::A((0..N).map(|i| bq(&v[i].q())).collect())
}
fn pick<T: Sc>(r: &mut SmallRng) -> T {
  match r.gen_range(0..3) {
    0 => T::scaled(r.gen_range(-9..=9), 0),
    1 => {
      let b = (T::HI as f64).log2() / 2.0;
      let k = (2f64.powf(b) as i128 - 1).min(1 << 40);
      T::scaled(r.gen_range(-k..=k), 0)
    }
    _ => T::wild(r),
  }
}
fn ar<T: Sc + Q, const N: usize>(r: &mut SmallRng, out: &mut Vec<V>) {
  let a: [T; N] = array(|_| pick(r));
  let b: [T; N] = array(|_| pick(r));
  let s: T = pick(r);
  desc(|| format!("arith {:?} {:?} {:?}", a, b, s));
  let ex = |x: &[T; N]| -> Vec<BigRational> { x.iter().map(|v| v.exact()).collect() };
  let (qa, qb, qs) = (ex(&a), ex(&b), s.exact());
  let ok = |v: &[BigRational]| v.iter().all(|z| fits::<T>(z));
  let (va, vb) = (Vector(a.clone()), Vector(b.clone()));
  let (pa, pb) = (Point::new(a.clone()), Point::new(b.clone()));
  let mut ev = |op: &'static str, args: Vec<V>, fs: &[&dyn Fn() -> V]| {
    let mut g = Group::default();
    for (i, f) in fs.iter().enumerate() {
      g.add(guard(f), || format!("{}/{} form {}", T::NAME, N, i));
    }
    out.push(obj! {"op": op, "args": V::A(args), "g": g.json()});
  };
  let zip = |f: &dyn Fn(&BigRational, &BigRational) -> BigRational| -> Vec<BigRational> { qa.iter().zip(&qb).map(|(x, y)| f(x, y)).collect() };
  let sum = zip(&|x, y| x + y);
  let diff = zip(&|x, y| x - y);
  if ok(&sum) {
    ev("add", vec![bqs(&qa), bqs(&qb)], &[
      &|| vq(&(va.clone() + vb.clone())),
      &|| vq(&(&va + &vb)),
      &|| vq(&(VectorView(&a) + VectorView(&b))),
      &|| vq(&(VectorView::from(&pa) + VectorView::from(&pb))),
      &|| { let mut z = va.clone(); z += vb.clone(); vq(&z) },
      &|| pq(&(&pa + &vb)),
      &|| pq(&(pa.clone() + vb.clone())),
      &|| pq(&(pa.clone() + &vb)),
      &|| { let mut z = pa.clone(); z += &vb; pq(&z) },
      &|| { let mut z = pa.clone(); z += vb.clone(); pq(&z) },
      &|| vq(&vec![va.clone(), vb.clone()].into_iter().sum::<Vector<T, N>>()),
    ]);
  }
  if ok(&diff) {
    ev("sub", vec![bqs(&qa), bqs(&qb)], &[
      &|| vq(&(&va - &vb)),
      &|| vq(&(&pa - &pb)),
      &|| vq(&(pa.clone() - pb.clone())),
      &|| vq(&(pa.as_vec() - pb.as_vec())),
    ]);
  }
  if ok(&qa.iter().map(|x| -x).collect::<Vec<_>>()) {
    ev("neg", vec![bqs(&qa)], &[&|| vq(&-va.clone()), &|| vq(&va.map(|z| -z)), &|| pq(&pa.map(|z| -z))]);
  }
  if ok(&qa.iter().map(|x| x * &qs).collect::<Vec<_>>()) {
    ev("mul", vec![bqs(&qa), bqs(&[qs.clone()])], &[&|| vq(&(va.clone() * s.clone())), &|| vq(&(VectorView(&a) * s.clone()))]);
  }
  // exact quotients only: divide a product by one of its factors
  let prod: Vec<BigRational> = qa.iter().map(|x| x * &qs).collect();
  if !qs.is_zero() && ok(&prod) && prod.iter().all(|z| z.numer().bits() < 240 && z.denom().bits() < 240) {
    let pv: [T; N] = array(|i| a[i].clone() * s.clone());
    let d = Vector(pv.clone());
    ev("div", vec![bqs(&prod), bqs(&[qs.clone()])], &[&|| vq(&(d.clone() / s.clone())), &|| vq(&(VectorView(&pv) / s.clone()))]);
  }
  let squares = |d: &[BigRational]| -> bool {
    let sq: Vec<BigRational> = d.iter().map(|x| x * x).collect();
    let n = sq.len();
    ok(&sq) && (1..1usize << n).all(|m| fits::<T>(&(0..n).filter(|i| m >> i & 1 == 1).map(|i| sq[i].clone()).sum()))
  };
  if squares(&qa) {
    ev("sqmag", vec![bqs(&qa)], &[&|| V::A(vec![bq(&va.squared_magnitude().q())])]);
  }
  if ok(&diff) && squares(&diff) {
    ev("dist2", vec![bqs(&qa), bqs(&qb)], &[
      &|| V::A(vec![bq(&pa.squared_euclidean_distance::<T>(&pb).q())]),
      &|| V::A(vec![bq(&pb.squared_euclidean_distance::<T>(&pa).q())]),
    ]);
  }
  // several vectors
  let c: [T; N] = array(|_| T::scaled(r.gen_range(-5..=5), 0));
  let all: Vec<Vec<BigRational>> = vec![qa.clone(), ex(&c), qb.clone()];
  let partial = |l: &[usize]| -> bool { (0..N).all(|i| fits::<T>(&l.iter().map(|k| all[*k][i].clone()).sum())) };
  if [[0, 1].as_slice(), &[0, 2], &[1, 2], &[0, 1, 2]].iter().all(|l| partial(l)) {
    let vs = [va.clone(), Vector(c.clone()), vb.clone()];
    ev("sum", all.iter().map(|z| bqs(z)).collect(), &[&|| vq(&vs.iter().cloned().sum::<Vector<T, N>>())]);
  }
  ev("same", vec![bqs(&qa)], &[
    &|| vq(pa.as_vec()),
    &|| vq(&Vector::from(pa.clone())),
    &|| pq(&Point::from(va.clone())),
    &|| vq(&va.map(|z| z)),
    &|| pq(&pa.map(|z| z)),
    &|| V::A((0..N).map(|i| bq(&VectorView::from(&pa).0[i].q())).collect()),
    &|| V::A(pa.iter().map(|z| bq(&z.q())).collect()),
    &|| vq(&va.cast::<T>()),
    &|| pq(&pa.cast::<T>()),
    &|| vq(&std::iter::once(va.clone()).sum::<Vector<T, N>>()),
  ]);
  let z: Vec<BigRational> = (0..N).map(|_| BigRational::zero()).collect();
  ev("same", vec![bqs(&z)], &[&|| pq(&Point::<T, N>::zero()), &|| vq(&std::iter::empty().sum::<Vector<T, N>>())]);
}
fn array<T, const N: usize>(f: impl FnMut(usize) -> T) -> [T; N] {
  std::array::from_fn(f)
}
fn conv(r: &mut SmallRng, out: &mut Vec<V>) {
  let mut ev = |args: Vec<BigRational>, fs: &[&dyn Fn() -> V]| {
    let mut g = Group::default();
    for (i, f) in fs.iter().enumerate() {
      g.add(guard(f), || format!("conv {}", i));
    }
    out.push(obj! {"op": "same", "args": V::A(vec![bqs(&args)]), "g": g.json()});
  };
  macro_rules! cast { ($t:ty, $($u:ty),*) => {{
    let p: Point<$t, 3> = Point::new(array(|_| <$t as Sc>::wild(r)));
    ev(p.iter().map(|z| z.q()).collect(), &[ $( &|| pq(&p.cast::<$u>()), &|| vq(&p.as_vec().cast::<$u>()) ),*,
      &|| V::A(vec![bq(&p.x_coord().q()), bq(&p.y_coord().q()), bq(&p.z_coord().q())])]);
    let s: Point<$t, 2> = Point::new(array(|_| <$t as Sc>::wild(r)));
    ev(s.iter().map(|z| z.q()).collect(), &[ $( &|| pq(&s.cast::<$u>()) ),*,
      &|| V::A(vec![bq(&s.x_coord().q()), bq(&s.y_coord().q())]),
      &|| pq(&Point::from((s[0].clone(), s[1].clone())))]);
    let o: Point<$t, 1> = Point::new([<$t as Sc>::wild(r)]);
    ev(o.iter().map(|z| z.q()).collect(), &[&|| V::A(vec![bq(&o.x_coord().q())])]);
    let t = [s.clone(), Point::new(array(|_| <$t as Sc>::wild(r))), Point::new(array(|_| <$t as Sc>::wild(r)))];
    let flat: Vec<BigRational> = t.iter().flat_map(|p| p.iter().map(|z| z.q()).collect::<Vec<_>>()).collect();
    let pol = || Polygon::new_unchecked(t.to_vec());
    ev(flat, &[ $( &|| V::A(pol().cast::<$u>().iter_boundary().flat_map(|c| vec![bq(&c.point()[0].q()), bq(&c.point()[1].q())]).collect()) ),*,
      &|| V::A(pol().map(|z| z).iter_boundary().flat_map(|c| vec![bq(&c.point()[0].q()), bq(&c.point()[1].q())]).collect()),
      &|| V::A(pol().map_points(|z| z).iter_boundary().flat_map(|c| vec![bq(&c.point()[0].q()), bq(&c.point()[1].q())]).collect())]);
  }} }
  cast!(i8, i16, i64, BigInt, f32, f64);
  cast!(i16, i32, isize, BigInt, f64);
  cast!(i32, i64, i128, BigInt, f64);
  cast!(i64, BigInt);
  cast!(isize, BigInt);
  cast!(BigInt, BigRational);
  cast!(f32, f64);
  {
    let p: Point<i32, 3> = Point::new(array(|_| <i32 as Sc>::wild(r)));
    ev(p.iter().map(|z| z.q()).collect(), &[&|| pq(&p.to_float())]);
    let p: Point<i8, 2> = Point::new(array(|_| <i8 as Sc>::wild(r)));
    ev(p.iter().map(|z| z.q()).collect(), &[&|| pq(&p.to_float())]);
    let p: Point<i64, 2> = Point::new(array(|_| <i64 as Sc>::wild(r)));
    ev(p.iter().map(|z| z.q()).collect(), &[&|| pq(&Point::<BigInt, 2>::from(p))]);
    let p: Point<f64, 3> = Point::new(array(|_| <f64 as Sc>::wild(r)));
    let back = Point::<BigRational, 3>::from(&p);
    ev(p.iter().map(|z| z.q()).collect(), &[
      &|| pq(&Point::<BigRational, 3>::from(p)),
      &|| pq(&Point::<BigRational, 3>::from(&p)),
      &|| pq(&Point::<f64, 3>::from(back.clone())),
      &|| pq(&Point::<f64, 3>::from(&back)),
      &|| pq(&Point::<NotNan<f64>, 3>::try_from(p).unwrap()),
      &|| pq(&Point::new_nn(p.array)),
      &|| vq(&Vector::<BigRational, 3>::try_from(Vector(p.array)).unwrap()),
    ]);
    let t = [0; 3].map(|_| Point::new([<i32 as Sc>::wild(r), <i32 as Sc>::wild(r)]));
    let flat: Vec<BigRational> = t.iter().flat_map(|p| p.iter().map(|z| z.q()).collect::<Vec<_>>()).collect();
    ev(flat, &[
      &|| V::A(Polygon::new_unchecked(t.to_vec()).float().iter_boundary().flat_map(|c| vec![bq(&c.point()[0].q()), bq(&c.point()[1].q())]).collect()),
      &|| V::A(PolygonConvex::new_unchecked(Polygon::new_unchecked(t.to_vec())).float().iter_boundary().flat_map(|c| vec![bq(&c.point()[0].q()), bq(&c.point()[1].q())]).collect()),
    ]);
    ev(vec![q(1), q(0)], &[
      &|| vq(&Vector::<i8, 2>::unit_right()), &|| vq(&Vector::<BigRational, 2>::unit_right()), &|| vq(&Vector::<f64, 2>::unit_right()),
      // no value for what is not a number, and none for the infinities
      &|| if Point::<NotNan<f64>, 2>::try_from(Point::new([1.0, f64::NAN])).is_err() && Vector::<BigRational, 2>::try_from(Vector([f64::INFINITY, 0.0])).is_err() { bqs(&[q(1), q(0)]) } else { bqs(&[]) },
    ]);
  }
}
fn main() {
  run(|c: &Ctx| {
    let text = c.polys.as_ref().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
    let mut lists: Vec<Vec<i64>> = vec![];
    let mut polys: Vec<Vec<P2>> = vec![];
    for l in text.lines() {
      let n: Vec<i64> = l.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
      if l.starts_with('{') {
        lists.push(n)
      } else {
        polys.push(n.chunks(2).map(|c| (c[0], c[1])).collect())
      }
    }
    lists.sort();
    polys.sort();
    let all = polys.len();
    c.par(all.min(c.pick(900, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % all };
      let mut p = polys[j].clone();
      if i % 3 == 0 {
        p.reverse()
      }
      measures(i, &p, true)
    });
    c.par(c.pick(900, 40000), |i| {
      let mut r = c.rng(170_000_000 + i as u64);
      let mut p = if i % 45 == 44 { star(&mut r, [90, 260][i / 45 % 2], 24) } else { any_poly(&mut r, [6, 12, 20][i % 3]) };
      if extent(&p) > 25 || p.len() > 30 && i % 45 != 44 || !simple(&p) {
        return vec![];
      }
      let k = r.gen_range(0..p.len());
      p.rotate_left(k);
      if i % 4 == 0 {
        p.reverse()
      }
      measures(i, &p, true)
    });
    // triangles, degenerate ones included
    c.par(c.pick(900, 40000), |i| {
      let mut r = c.rng(171_000_000 + i as u64);
      let k = [2, 4, 9, 25][i % 4];
      let p: Vec<P2> = (0..3).map(|_| rpt(&mut r, 0, k)).collect();
      measures(i, &p, false)
    });
    // transforms written by the specification
    c.par(lists.len().min(c.pick(400, usize::MAX)), |i| {
      let mut r = c.rng(172_000_000 + i as u64);
      let fs: Vec<Factor> = lists[i].chunks(3).map(|f| Factor { kind: f[0], v: vec![(f[1], 1), (f[2], 1)] }).collect();
      let ps: Vec<Vec<F>> = (0..4).map(|_| vec![(r.gen_range(-20..=20), 1), (r.gen_range(-20..=20), 1)]).collect();
      vec![tr_ev(&fs, 2, &ps, r.gen())]
    });
    c.par(c.pick(1500, 60000), |i| {
      let mut r = c.rng(173_000_000 + i as u64);
      let n = [2, 2, 3, 1][i % 4];
      let dens: &[i64] = [[1].as_slice(), &[1, 2, 4], &[1, 2, 3, 5]][i / 4 % 3];
      let mut z = |k: i64| red(r.gen_range(-k..=k), dens[r.gen_range(0..dens.len())]);
      let k = 1 + i / 12 % 4;
      let fs: Vec<Factor> = (0..k)
        .map(|j| {
          let kind = [1, 2, 3][(i / 48 + j * (1 + i / 7) ) % 3];
          let a = z(5);
          Factor { kind, v: (0..n).map(|_| if kind == 3 { a } else { z(5) }).collect() }
        })
        .collect();
      let ps: Vec<Vec<F>> = (0..3).map(|_| (0..n).map(|_| z(12)).collect()).collect();
      vec![tr_ev(&fs, n, &ps, r.gen())]
    });
    c.par(c.pick(300, 12000), |i| {
      let mut r = c.rng(174_000_000 + i as u64);
      let mut out = vec![];
      macro_rules! all { ($($t:ty),*) => { $( match i % 4 { 0 => ar::<$t, 1>(&mut r, &mut out), 3 => ar::<$t, 3>(&mut r, &mut out), _ => ar::<$t, 2>(&mut r, &mut out) } )* } }
      all!(i8, i16, i32, i64, isize, BigInt, BigRational, rug::Integer, f32, f64, OrderedFloat<f32>, OrderedFloat<f64>, NotNan<f32>, NotNan<f64>);
      conv(&mut r, &mut out);
      out
    });
  });
}
