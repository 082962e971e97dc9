//! C23: histories of operations on one polygon, all queries after every step.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use ordered_float::NotNan;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan, melkman};
use rgeometry::algorithms::polygonization::*;
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::data::*;

trait Ses: Sc {
  const ROOM: i64;
  fn moved(p: Polygon<Self>, k: i64, d: P2, how: usize) -> Polygon<Self>;
  fn a2(_: &Polygon<Self>) -> Option<i64> {
    None
  }
  fn hashed(_: &Polygon<Self>) -> Option<Vec<[PointId; 3]>> {
    None
  }
}
fn idm<T: Sc>() -> Map {
  let mut m = T::maps(-1, 1).into_iter().find(|m| m.name == "id").unwrap();
  m.den = 1;
  m
}
fn num<T: Sc>(v: i64) -> T {
  T::mk(v as i128, &idm::<T>())
}
fn pt<T: Sc>(p: P2) -> Point<T> {
  Point::new([num(p.0), num(p.1)])
}
fn xy<T: Sc>(p: &Point<T>) -> P2 {
  let f = |v: &T| {
    let e = v.exact();
    if e.is_integer() {
      e.to_integer().to_i64().filter(|v| v.abs() < 1_000_000).unwrap_or(-777_777)
    } else {
      -777_778
    }
  };
  (f(p.x_coord()), f(p.y_coord()))
}
fn by_hand<T: Sc>(p: Polygon<T>, k: i64, d: P2, how: usize) -> Polygon<T> {
  let f = |q: &Point<T>| {
    let (x, y) = xy(q);
    pt((k * x + d.0, k * y + d.1))
  };
  if how % 2 == 0 {
    p.map_points(|q| f(&q))
  } else {
    let mut p = p;
    for q in p.iter_mut() {
      *q = f(q);
    }
    p
  }
}
macro_rules! transforms {
  () => {
    fn moved(p: Polygon<Self>, k: i64, d: P2, how: usize) -> Polygon<Self> {
      let t = || Transform::<Self, 2>::translate(Vector([num(d.0), num(d.1)]));
      let s = || match how / 5 % 2 {
        0 => Transform::<Self, 2>::uniform_scale(num(k)),
        _ => Transform::<Self, 2>::scale(Vector([num(k), num(k)])),
      };
      match how % 5 {
        0 => by_hand(p, k, d, how / 5),
        1 => t() * (s() * p),
        2 => (t() * s()) * &p,
        3 => &(&t() * &s()) * &p,
        _ => &t() * (&s() * p),
      }
    }
  };
}
macro_rules! hashes {
  () => {
    fn hashed(p: &Polygon<Self>) -> Option<Vec<[PointId; 3]>> {
      Some(earclip_hashed(p).take(p.boundary_slice().len() + 3).map(|(a, b, c)| [a, b, c]).collect())
    }
  };
}
macro_rules! area {
  ($f:ty, $o:expr) => {
    fn a2(p: &Polygon<Self>) -> Option<i64> {
      let v: $f = p.signed_area_2x::<$f>();
      #[allow(clippy::redundant_closure_call)]
      let v: Option<i64> = $o(v);
      Some(v.filter(|v| v.abs() < 1_000_000_000).unwrap_or(-777_777))
    }
  };
}
impl Ses for i8 {
  const ROOM: i64 = 100;
  transforms!();
  area!(i64, Some);
  hashes!();
}
impl Ses for i16 {
  const ROOM: i64 = 2000;
  transforms!();
  area!(i64, Some);
}
impl Ses for i32 {
  const ROOM: i64 = 2000;
  transforms!();
  area!(i64, Some);
}
impl Ses for i64 {
  const ROOM: i64 = 2000;
  transforms!();
  area!(i64, Some);
  hashes!();
}
impl Ses for isize {
  const ROOM: i64 = 2000;
  transforms!();
  area!(isize, |v: isize| Some(v as i64));
}
impl Ses for f64 {
  const ROOM: i64 = 2000;
  transforms!();
  area!(f64, |v: f64| if v.fract() == 0.0 { Some(v as i64) } else { None });
  hashes!();
}
impl Ses for BigInt {
  const ROOM: i64 = 2000;
  transforms!();
  area!(BigInt, |v: BigInt| v.to_i64());
}
impl Ses for BigRational {
  const ROOM: i64 = 2000;
  transforms!();
  area!(BigRational, |v: BigRational| if v.is_integer() { v.to_integer().to_i64() } else { None });
}
impl Ses for NotNan<f32> {
  const ROOM: i64 = 2000;
  transforms!();
}
impl Ses for rug::Integer {
  const ROOM: i64 = 2000;
  fn moved(p: Polygon<Self>, k: i64, d: P2, how: usize) -> Polygon<Self> {
    by_hand(p, k, d, how)
  }
}

fn bnd<T: Sc>(p: &Polygon<T>) -> Vec<P2> {
  p.iter_boundary().map(|c| xy(c.point())).collect()
}
fn code(l: PointLocation) -> i64 {
  match l {
    PointLocation::Outside => 0,
    PointLocation::OnBoundary => 1,
    PointLocation::Inside => 2,
  }
}
fn raw<T: Sc>(p: &Polygon<T>) -> (Vec<usize>, Vec<P2>) {
  (p.boundary_slice().iter().map(|i| i.usize() + 1).collect(), p.iter().map(xy).collect())
}
fn observe<T: Ses>(p: &Polygon<T>, qs: &[P2], ds: &[P2], seed: u64) -> V {
  let before = raw(p);
  let ids = p.boundary_slice().to_vec();
  let n = ids.len();
  let ring = bnd(p);
  let pos = |q: PointId| ids.iter().position(|x| *x == q).map(|i| i + 1).unwrap_or(0);
  let tri = |v: Vec<[PointId; 3]>| V::A(v.into_iter().map(|t| V::from(t.iter().map(|q| pos(*q)).collect::<Vec<_>>())).collect());
  let cap = n + 3;
  let mut tris = vec![];
  tris.push(tri(earclip(p).take(cap).map(|(a, b, c)| [a, b, c]).collect()));
  tris.push(tri(p.triangulate().take(cap).map(|(a, b, c)| [a.point_id(), b.point_id(), c.point_id()]).collect()));
  let store: Vec<Point<T>> = p.iter().cloned().collect();
  tris.push(tri(triangulate_list(&store, &ids, biased(seed)).take(cap).map(|(a, b, c)| [a, b, c]).collect()));
  if let Some(h) = T::hashed(p) {
    tris.push(tri(h));
  }
  tris.dedup();
  let hs = [
    graham_scan::convex_hull(p.iter().cloned().collect()).ok().map(|h| bnd(h.polygon())),
    gift_wrapping::convex_hull(p.iter_boundary().map(|c| c.point().clone()).collect()).ok().map(|h| bnd(h.polygon())),
    Some(bnd(melkman::convex_hull(p).polygon())),
  ];
  let mut hulls: Vec<V> = hs.into_iter().map(|h| V::from(h.unwrap_or_default())).collect();
  hulls.dedup();
  let (lo, hi) = p.bounding_box();
  let (lo, hi) = (xy(&lo), xy(&hi));
  let ears = if n < 4 { vec![] } else { p.iter_boundary().map(|c| c.is_ear()).collect::<Vec<bool>>() };
  let convex = (0..n).all(|i| det(ring[i], ring[(i + 1) % n], ring[(i + 2) % n]) > 0);
  let loc: Vec<i64> = qs.iter().map(|q| code(p.locate(&pt(*q)))).collect();
  let cloc: Vec<i64> = if convex {
    let c = PolygonConvex::new_unchecked(p.clone());
    qs.iter().map(|q| code(c.locate(&pt(*q)))).collect()
  } else {
    loc.clone()
  };
  let turn = |k: usize| Polygon::new_unchecked(rotate(&ring, k).into_iter().map(pt::<T>).collect());
  let back = Polygon::new_unchecked(ring.iter().rev().map(|q| pt::<T>(*q)).collect());
  let k = seed as usize % n;
  obj! {
    "slice": before.0.clone(), "all": before.1.clone(),
    "val": p.validate().is_ok() && p.validate_weakly().is_ok(),
    "a2": T::a2(p).into_iter().collect::<Vec<i64>>(),
    "box": vec![lo.0, lo.1, hi.0, hi.1],
    "it": ring.clone(),
    "loc": loc, "cloc": cloc, "ears": ears,
    "mono": ds.iter().map(|d| p.is_monotone(&Vector([num(d.0), num(d.1)]))).collect::<Vec<bool>>(),
    "tri": V::A(tris), "hull": V::A(hulls),
    "eq": vec![p.equals(&turn(k)) && turn(k).equals(p), p.equals(&back) || back.equals(p)],
    "still": before == raw(p) && ring == bnd(p),
  }
}
fn ears_of(p: &[P2]) -> Vec<usize> {
  let n = p.len();
  (0..n)
    .filter(|i| {
      let (h, j) = ((i + n - 1) % n, (i + 1) % n);
      let (a, b, c) = (p[h], p[*i], p[j]);
      det(a, b, c) > 0 && (0..n).all(|k| k == *i || k == h || k == j || det(a, b, p[k]) < 0 || det(b, c, p[k]) < 0 || det(c, a, p[k]) < 0)
    })
    .collect()
}
/// One history; every choice comes from `seed`, so that it can be repeated.
fn history<T: Ses>(kinds: &[String], seed: u64, size: usize) -> (Vec<P2>, Vec<V>) {
  let mut r = SmallRng::seed_from_u64(seed);
  let n = if size > 64 { r.gen_range(65..=size) } else { r.gen_range(4..=size) };
  let any = r.gen_bool(0.4);
  let ps = if any {
    loop {
      let k = if n > 64 { [12, 30][r.gen_range(0..2)] } else { [3, 5, 12, 30][r.gen_range(0..4)] };
      let v = distinct(&mut r, n, -k, k);
      if !colinear(&v) {
        break v;
      }
    }
  } else if n > 64 {
    loop {
      let p = big_poly(&mut r, n);
      if extent(&p) <= T::ROOM.min(500) {
        break p;
      }
    }
  } else {
    any_poly(&mut r, n)
  };
  let room = |p: &[P2]| p.iter().all(|q| q.0.abs() <= T::ROOM && q.1.abs() <= T::ROOM);
  let mut cur: Option<Polygon<T>> = None;
  let mut steps = vec![];
  for s in 0..=kinds.len() {
    let old: Vec<P2> = cur.as_ref().map(bnd).unwrap_or(ps.clone());
    let store: Vec<P2> = cur.as_ref().map(|p| p.iter().map(xy).collect()).unwrap_or_default();
    let mut kind: String = if s == 0 { "start".into() } else { kinds[s - 1].clone() };
    let how = r.gen_range(0..1000usize);
    let sub = r.gen::<u64>();
    // arguments
    let ear = ears_of(&old);
    let (k, d) = {
      let k = [1, -1, 1, -1, 2, -2, 3][r.gen_range(0..7)];
      let d = (r.gen_range(-20..=20), r.gen_range(-20..=20));
      (k, d)
    };
    if kind == "cut" && (old.len() < 4 || ear.is_empty()) || kind == "move" && !room(&old.iter().map(|q| (k * q.0 + d.0, k * q.1 + d.1)).collect::<Vec<_>>()) {
      kind = "copy".into();
    }
    let cut = if kind == "cut" { ear[how % ear.len()] } else { 0 };
    let x0 = old.iter().map(|q| q.0).min().unwrap();
    let x1 = old.iter().map(|q| q.0).max().unwrap();
    let y0 = old.iter().map(|q| q.1).min().unwrap();
    let y1 = old.iter().map(|q| q.1).max().unwrap();
    let near = |r: &mut SmallRng| ((r.gen_range(x0 - 1..=x1 + 1)), (r.gen_range(y0 - 1..=y1 + 1)));
    let centre = near(&mut r);
    let dir = loop {
      let d = rpt(&mut r, -3, 3);
      if d != (0, 0) {
        break d;
      }
    };
    let mut perm: Vec<usize> = (0..store.len()).collect();
    if how % 3 == 0 {
      shuffle(&mut r, &mut perm);
    } else if perm.len() > 1 {
      let (a, b) = (r.gen_range(0..perm.len()), r.gen_range(0..perm.len()));
      perm.swap(a, b);
    }
    let mut ok = true;
    let mut args: Vec<(&'static str, V)> = vec![];
    let qsds = std::cell::RefCell::new((vec![], vec![]));
    let res = guard(|| {
      let mut err = String::new();
      let mut put = |p: Result<Polygon<T>, rgeometry::Error>, cur: &mut Option<Polygon<T>>| match p {
        Ok(p) => *cur = Some(p),
        Err(e) => err = format!("{:?}", e),
      };
      let mk = |v: &[P2]| v.iter().map(|q| pt::<T>(*q)).collect::<Vec<_>>();
      match kind.as_str() {
        "start" if any => put(two_opt_moves(mk(&ps), &mut biased(sub)), &mut cur),
        "start" | "rebuild" => {
          let mut v = rotate(&old, how % old.len());
          if sub % 2 == 0 {
            v.reverse();
          }
          put(Polygon::new(mk(&v)), &mut cur)
        }
        "copy" => {
          let p = cur.take().unwrap();
          cur = Some(match how % 4 {
            0 => p.clone(),
            1 => p.map(|v| v),
            2 => p.cast::<T>(),
            _ => p.map_points(|q| q),
          })
        }
        "move" => cur = Some(T::moved(cur.take().unwrap(), k, d, how)),
        "mirror" => put(Polygon::new(old.iter().map(|q| pt((-q.0, q.1))).collect()), &mut cur),
        "flip" => {
          let p = cur.as_mut().unwrap();
          for q in p.iter_mut() {
            let (x, y) = xy(q);
            *q = pt((-x, y));
          }
          let e = resolve_self_intersections(p, &mut biased(sub));
          put(e.map(|_| cur.clone().unwrap()), &mut cur)
        }
        "scramble" => {
          let p = cur.as_mut().unwrap();
          for (i, q) in p.iter_mut().enumerate() {
            *q = pt(store[perm[i]]);
          }
          let e = resolve_self_intersections(p, &mut biased(sub));
          put(e.map(|_| cur.clone().unwrap()), &mut cur)
        }
        "graham" => put(graham_scan::convex_hull(cur.as_ref().unwrap().iter().cloned().collect()).map(|h| h.polygon().clone()), &mut cur),
        "gift" => put(gift_wrapping::convex_hull(cur.as_ref().unwrap().iter().cloned().collect()).map(|h| h.polygon().clone()), &mut cur),
        "melkman" => put(Ok(melkman::convex_hull(cur.as_ref().unwrap()).polygon().clone()), &mut cur),
        "star" => {
          let v = cur.as_ref().unwrap().iter().cloned().collect();
          match new_star_polygon(v, &pt(centre)) {
            Ok(p) => cur = Some(p),
            Err(_) => ok = false,
          }
        }
        "mono" => put(new_monotone_polygon(cur.as_ref().unwrap().iter().cloned().collect(), &Vector([num(dir.0), num(dir.1)])), &mut cur),
        "cut" => {
          let mut v = old.clone();
          v.remove(cut);
          put(Polygon::new(mk(&v)), &mut cur)
        }
        _ => unreachable!(),
      }
      if !err.is_empty() {
        return obj! {"err": err};
      }
      let p = cur.as_ref().unwrap();
      // queries around the polygon as it is now
      let ring = bnd(p);
      let m = ring.len();
      let (x0, x1) = (ring.iter().map(|q| q.0).min().unwrap(), ring.iter().map(|q| q.0).max().unwrap());
      let (y0, y1) = (ring.iter().map(|q| q.1).min().unwrap(), ring.iter().map(|q| q.1).max().unwrap());
      let mut r = SmallRng::seed_from_u64(sub);
      let mut qs: Vec<P2> = vec![];
      for j in 0..6 {
        let (a, b) = (ring[r.gen_range(0..m)], ring[r.gen_range(0..m)]);
        qs.push(match j {
          0 => a,
          1 => ((a.0 + b.0).div_euclid(2), (a.1 + b.1).div_euclid(2)),
          2 => (a.0, b.1),
          _ => (r.gen_range(x0..=x1), r.gen_range(y0..=y1)),
        });
      }
      let ds: Vec<P2> = vec![dir, [(1, 0), (0, 1), (0, -1), (-1, 0), (1, 1)][how % 5]];
      let o = observe(p, &qs, &ds, sub);
      *qsds.borrow_mut() = (qs, ds);
      obj! {"err": "", "o": o}
    });
    let (qs, ds) = qsds.into_inner();
    args.push(("do", V::from(kind.as_str())));
    args.push(("qs", V::from(qs)));
    args.push(("ds", V::from(ds)));
    match kind.as_str() {
      "start" => args.push(("any", V::B(any))),
      "move" => {
        args.push(("k", V::I(k)));
        args.push(("d", V::from(d)));
      }
      "scramble" => args.push(("perm", V::from(perm.iter().map(|i| i + 1).collect::<Vec<_>>()))),
      "star" => {
        args.push(("c", V::from(centre)));
        args.push(("ok", V::B(ok)));
      }
      "mono" => args.push(("d", V::from(dir))),
      "cut" => args.push(("k", V::from(cut + 1))),
      _ => {}
    }
    let bad = match &res {
      V::O(f) => f[0].1 == V::S("panic".into()) || matches!(&f[1].1, V::O(v) if v[0].1 != V::S("".into())),
      _ => true,
    };
    steps.push(obj! {"a": V::O(args), "r": res});
    if bad {
      break;
    }
  }
  (ps, steps)
}
fn session<T: Ses>(kinds: &[String], seed: u64, size: usize) -> Vec<V> {
  desc(|| format!("history {} {:?} seed {}", T::NAME, kinds, seed));
  let (ps, steps) = history::<T>(kinds, seed, size);
  let (_, again) = history::<T>(kinds, seed, size);
  vec![obj! {"op": "hist", "nsteps": steps.len(), "ty": T::NAME, "ps": ps, "same": steps == again, "steps": V::A(steps)}]
}
fn by_type(i: usize, kinds: &[String], seed: u64, size: usize) -> Vec<V> {
  match i % 10 {
    0 => session::<i8>(kinds, seed, size.min(9)),
    1 => session::<i16>(kinds, seed, size),
    2 => session::<i32>(kinds, seed, size),
    3 => session::<i64>(kinds, seed, size),
    4 => session::<isize>(kinds, seed, size),
    5 => session::<f64>(kinds, seed, size),
    6 => session::<BigInt>(kinds, seed, size),
    7 => session::<BigRational>(kinds, seed, size),
    8 => session::<NotNan<f32>>(kinds, seed, size),
    _ => session::<rug::Integer>(kinds, seed, size),
  }
}
fn main() {
  run(|c: &Ctx| {
    let mut hist: Vec<Vec<String>> = std::fs::read_to_string(c.polys.as_ref().unwrap())
      .unwrap()
      .lines()
      .map(|l| l.split(|c: char| !c.is_ascii_alphabetic()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
      .collect();
    hist.sort();
    c.par(hist.len(), |i| {
      let mut r = c.rng(230_000_000 + i as u64);
      let (t, seed) = (r.gen_range(0..10), r.gen());
      by_type(t, &hist[i], seed, 9)
    });
    let all = ["move", "mirror", "flip", "scramble", "scramble", "star", "mono", "cut", "cut", "rebuild", "copy", "graham", "gift", "melkman"];
    c.par(c.pick(500, 12000), |i| {
      let mut r = c.rng(231_000_000 + i as u64);
      // hulls end a history soon: put them late
      let len = r.gen_range(5..c.pick(11, 16));
      let kinds: Vec<String> = (0..len).map(|j| all[r.gen_range(0..if j + 2 < len { 11 } else { 14 })].to_string()).collect();
      by_type(i, &kinds, r.gen(), 16)
    });
    // many vertices
    c.par(c.pick(24, 200), |i| {
      let mut r = c.rng(232_000_000 + i as u64);
      let kinds: Vec<String> = (0..3).map(|j| all[if j == 2 { r.gen_range(0..14) } else { (i + 4 * j) % 11 }].to_string()).collect();
      by_type(1 + i % 9, &kinds, r.gen(), 90)
    });
  });
}
