//! C13: rings, cursors, iterators, equality of polygon objects.
use num_traits::ToPrimitive;
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::resolve_self_intersections;
use rgeometry::data::*;
use std::ops::Bound::*;

fn xy<T: Sc>(p: &Point<T>) -> (i64, i64) {
  let f = |v: &T| v.exact().to_integer().to_i64().unwrap_or(-77777);
  (f(p.x_coord()), f(p.y_coord()))
}
fn id1(p: PointId) -> i64 {
  p.usize() as i64 + 1
}
fn observe<T: Sc>(p: &Polygon<T>) -> V {
  let ids: Vec<PointId> = {
    let mut v = p.boundary_slice().to_vec();
    v.sort();
    v
  };
  let dir: Vec<Vec<i64>> = ids
    .iter()
    .map(|a| {
      ids
        .iter()
        .map(|b| {
          if a == b {
            return 0;
          }
          match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.direct(IndexEdge::new(*a, *b)))) {
            Ok(d) if (d.src, d.dst) == (*a, *b) || (d.dst, d.src) == (*a, *b) => id1(d.src),
            Ok(_) => -1,
            Err(_) => 0,
          }
        })
        .collect()
    })
    .collect();
  obj! {
    "slice": p.boundary_slice().iter().map(|i| id1(*i)).collect::<Vec<_>>(),
    "self": ids.iter().map(|i| id1(p.cursor(*i).point_id())).collect::<Vec<_>>(),
    "nxt": ids.iter().map(|i| id1(p.cursor(*i).next().point_id())).collect::<Vec<_>>(),
    "prv": ids.iter().map(|i| id1(p.cursor(*i).prev().point_id())).collect::<Vec<_>>(),
    "pt": ids.iter().map(|i| xy(p.point(*i))).collect::<Vec<_>>(),
    "cpt": ids.iter().map(|i| xy(p.cursor(*i).point())).collect::<Vec<_>>(),
    "cor": ids.iter().map(|i| orient(p.cursor(*i).orientation())).collect::<Vec<_>>(),
    "it": p.iter_boundary().map(|c| id1(c.point_id())).collect::<Vec<_>>(),
    "rev": p.iter_boundary().rev().map(|c| id1(c.point_id())).collect::<Vec<_>>(),
    "all": p.iter().map(xy).collect::<Vec<_>>(),
    "edges": p.iter_boundary_edges().map(|e| vec![xy(e.src), xy(e.dst)]).collect::<Vec<_>>(),
    "dir": dir,
  }
}
fn idmap<T: Sc>() -> Map {
  let mut m = T::maps(0, 60).into_iter().find(|m| m.name == "id").unwrap();
  m.den = 1;
  m
}
fn poly<T: Sc>(ps: &[P2]) -> Polygon<T> {
  Polygon::new_unchecked(mkps(ps, &idmap::<T>()))
}
fn session<T: Sc>(ps: &[P2], acts: &[&'static str], seed: u64) -> V {
  let mut p = poly::<T>(ps);
  let mut steps = vec![];
  for (k, a) in acts.iter().enumerate() {
    let r = guard(|| {
      let mut err = String::new();
      match *a {
        "new" => {}
        "ccw" => {
          if let Err(e) = p.ensure_ccw() {
            err = format!("{:?}", e)
          }
        }
        "untangle" => {
          if let Err(e) = resolve_self_intersections(&mut p, &mut biased(seed + k as u64)) {
            err = format!("{:?}", e)
          }
        }
        "swap" => {
          // alternate between the two in-place maps
          if k % 2 == 0 {
            p = p.clone().map_points(|q| Point::new([q.array[1].clone(), q.array[0].clone()]));
          } else {
            for q in p.iter_mut() {
              q.array.swap(0, 1);
            }
          }
        }
        _ => {
          p = match k % 3 {
            0 => p.clone(),
            1 => p.clone().map(|v| v),
            _ => p.clone().cast::<T>(),
          };
        }
      }
      obj! {"err": err, "o": observe(&p)}
    });
    let stop = matches!(&r, V::O(v) if v[0].1 == V::S("panic".into()));
    steps.push(obj! {"do": *a, "r": r});
    if stop {
      break;
    }
  }
  obj! {"op": "obj", "nsteps": steps.len(), "ps": ps.to_vec(), "ty": T::NAME, "steps": V::A(steps)}
}
macro_rules! by_type {
  ($i:expr, $f:ident ( $($a:expr),* )) => {
    match $i % 8 {
      0 => $f::<i8>($($a),*),
      1 => $f::<i16>($($a),*),
      2 => $f::<i64>($($a),*),
      3 => $f::<isize>($($a),*),
      4 => $f::<f64>($($a),*),
      5 => $f::<num_bigint::BigInt>($($a),*),
      6 => $f::<ordered_float::NotNan<f32>>($($a),*),
      _ => $f::<rug::Integer>($($a),*),
    }
  };
}
fn object(c: &Ctx, i: usize) -> Vec<V> {
  let mut r = c.rng(130_000_000 + i as u64);
  let n = if r.gen_range(0..100) == 99 { 70 } else { r.gen_range(3..12) };
  let ps = if i % 400 == 399 { huge(&mut r) } else { tour(&mut r, i, n) };
  if ps.len() < 3 {
    return vec![];
  }
  desc(|| format!("object {:?}", ps));
  let mut acts = vec!["new"];
  for _ in 0..r.gen_range(1..7) {
    acts.push(["ccw", "ccw", "untangle", "swap", "same"][r.gen_range(0..5)]);
  }
  let seed = r.gen::<u32>() as u64;
  vec![by_type!(i / 4, session(&ps, &acts, seed))]
}
fn tour(r: &mut SmallRng, i: usize, n: usize) -> Vec<P2> {
  match i % 4 {
    0 if n < 20 => distinct(r, n, 0, 4),
    0 | 1 => distinct(r, n, 0, 50),
    _ if n > 20 => {
      let mut p = loop {
        let p = big_poly(r, n);
        if extent(&p) <= 120 {
          break p;
        }
      };
      if i % 4 == 3 {
        p.reverse();
      }
      p
    }
    2 => any_poly(r, n),
    _ => {
      let mut p = any_poly(r, n);
      p.reverse();
      p
    }
  }
}
/// Polygons whose ring is in storage order, reversed, or permuted.
fn shaped<T: Sc>(n: usize, how: usize, r: &mut SmallRng) -> Polygon<T> {
  loop {
    let ps = match how % 3 {
      0 => distinct(r, n, 0, if n < 20 { 6 } else { 60 }),
      1 => {
        let mut p = star(r, n, if n < 20 { 9 } else { 90 });
        p.reverse();
        p
      }
      _ => distinct(r, n, 0, if n < 20 { 9 } else { 50 }),
    };
    if ps.len() != n || colinear(&ps) {
      continue;
    }
    let p = poly::<T>(&ps);
    match how % 3 {
      0 => return p,
      1 => {
        let p = Polygon::new(mkps(&ps, &idmap::<T>()));
        if let Ok(p) = p {
          return p;
        }
      }
      _ => {
        let mut p = p;
        if resolve_self_intersections(&mut p, &mut biased(r.gen())).is_ok() {
          return p;
        }
      }
    }
  }
}
/// What every way of finishing an iteration gives, from where the history left the iterator;
/// and the edge and point iterators of the same polygon.
fn finish<'a, T: Sc, I>(
  p: &'a Polygon<T>,
  (turned, s): (&'a Polygon<T>, usize),
  it: &I,
  to: impl Fn(Cursor<'a, T>, std::ops::Bound<Cursor<'a, T>>) -> I,
  r: &mut SmallRng,
) -> V
where
  I: DoubleEndedIterator<Item = Cursor<'a, T>> + ExactSizeIterator + Clone + PartialEq<I>,
{
  let ring = p.boundary_slice().to_vec();
  let n = ring.len();
  let id = |c: Option<Cursor<'a, T>>| c.map_or(0, |c| id1(c.point_id()));
  let ids = |v: Vec<Cursor<'a, T>>| v.iter().map(|c| id1(c.point_id())).collect::<Vec<_>>();
  let left = it.clone().map(|_| ()).fold(0usize, |a, _| a + 1);
  let nth: Vec<Vec<i64>> = (0..left + 2)
    .map(|k| {
      let (mut a, mut b) = (it.clone(), it.clone());
      let (x, y) = (id(a.nth(k)), id(b.nth_back(k)));
      vec![x, a.len() as i64, y, b.len() as i64, id(it.clone().skip(k).next()), id(it.clone().rev().skip(k).next())]
    })
    .collect();
  let mut each = vec![];
  it.clone().for_each(|c| each.push(c));
  let mut back = vec![];
  it.clone().rev().for_each(|c| back.push(c));
  let want = ring[r.gen_range(0..n)];
  // the points of an edge, as identifiers
  let name = |q: &Point<T>| p.iter().position(|x| std::ptr::eq(x, q)).map_or(-1, |k| k as i64 + 1);
  let edge = |e: Option<DirectedEdge<'a, T, 2>>| e.map_or(vec![0, 0], |e| vec![name(e.src), name(e.dst)]);
  let mut en = vec![];
  let mut pn = vec![];
  for j in 0..3 {
    let edges = || {
      let mut e = p.iter_boundary_edges();
      (0..j).for_each(|_| {
        e.next();
      });
      e
    };
    let (lo, hi) = edges().size_hint();
    en.push(obj! {"j": j, "lo": lo, "hi": hi.unwrap_or(999), "count": edges().count(), "last": edge(edges().last()),
      "nth": (0..n + 1).map(|k| edge(edges().nth(k))).collect::<Vec<_>>()});
    let pts = || {
      let mut e = p.iter();
      (0..j).for_each(|_| {
        e.next();
      });
      e
    };
    let (lo, hi) = pts().size_hint();
    let mut c = p.clone();
    let base: Vec<*const Point<T>> = c.iter().map(|x| x as *const _).collect();
    let muts: Vec<i64> = (0..n + 1)
      .map(|k| {
        let mut e = c.iter_mut();
        (0..j).for_each(|_| {
        e.next();
      });
        e.nth(k).map_or(0, |x| base.iter().position(|y| *y == x as *const _).map_or(-1, |k| k as i64 + 1))
      })
      .collect();
    pn.push(obj! {"j": j, "lo": lo, "hi": hi.unwrap_or(999), "count": pts().count(), "last": pts().last().map_or(0, name),
      "nth": (0..n + 1).map(|k| pts().nth(k).map_or(0, name)).collect::<Vec<_>>(), "muts": muts});
  }
  // comparison with other iterators, of this polygon and of the turned one
  let tring = turned.boundary_slice().to_vec();
  let mut eqs = vec![];
  let mut cmp = |f: usize, kind: i64, end: usize, twin: bool| {
    let c = |k: usize| {
      if twin {
        turned.cursor(tring[(k + n - 1 - s) % n])
      } else {
        p.cursor(ring[k - 1])
      }
    };
    let other = match kind {
      0 => to(c(f), Unbounded),
      1 => to(c(f), Included(c(end))),
      _ => to(c(f), Excluded(c(end))),
    };
    let y = if twin { other == *it } else { *it == other };
    eqs.push(vec![f as i64, kind, end as i64, y as i64]);
  };
  let first = it.clone().next().map(|c| ring.iter().position(|x| *x == c.point_id()).unwrap() + 1);
  for t in 0..8 {
    let f = if t < 5 { first.unwrap_or(1) } else { r.gen_range(1..=n) };
    let e = if t < 4 { (f - 1 + (left + t + n - 2) % n) % n + 1 } else { r.gen_range(1..=n) };
    let kind = if t % 4 == 3 && f != e { 2 } else if t == 7 { 0 } else { 1 };
    cmp(f, kind, e, t % 2 == 1);
  }
  obj! {"count": it.clone().count(), "last": id(it.clone().last()), "each": ids(each), "back": ids(back),
    "vec": ids(it.clone().collect()), "step": ids(it.clone().step_by(2).collect()), "nth": nth,
    "find": vec![id1(want), id(it.clone().find(|c| c.point_id() == want)), id(it.clone().rfind(|c| c.point_id() == want)),
      it.clone().position(|c| c.point_id() == want).map_or(0, |k| k as i64 + 1),
      it.clone().rposition(|c| c.point_id() == want).map_or(0, |k| k as i64 + 1)],
    "edges": en, "points": pn, "eqs": eqs}
}
fn iterate<T: Sc>(g: &[i64], how: usize, r: &mut SmallRng) -> V {
  let (n, from, kind, end) = (g[0] as usize, g[1] as usize, g[2], g[3] as usize);
  let ops = &g[4..];
  let res = guard(|| {
    let p = shaped::<T>(n, how, r);
    let ring = p.boundary_slice().to_vec();
    // the same ring stored from another place
    let s = r.gen_range(0..n);
    let turned = Polygon::new_unchecked((0..n).map(|k| p.point(ring[(s + k) % n]).clone()).collect());
    let c = |k: usize| p.cursor(ring[k - 1]);
    let mut it = match kind {
      0 if from == 1 && how % 2 == 0 => p.iter_boundary(),
      0 => c(from).to(Unbounded),
      1 => c(from).to(Included(c(end))),
      _ => c(from).to(Excluded(c(end))),
    };
    let mut out = vec![];
    // somewhere along the history, all ways to go on to the end at once
    let cut = r.gen_range(0..=ops.len().min(n));
    let mut fin = V::A(vec![]);
    for (k, o) in ops.iter().enumerate() {
      if k == cut {
        fin = finish(&p, (&turned, s), &it, |c, b| c.to(b), r);
      }
      let (l, h) = (it.len() as i64, it.size_hint());
      let mut copy = it.clone();
      let x = if *o == 1 { it.next() } else { it.next_back() };
      // a copy taken before goes on from the same place
      let y = if *o == 1 { copy.next() } else { copy.next_back() };
      let idx = x.map_or(0, |x| id1(x.point_id()));
      let idy = y.map_or(0, |x| id1(x.point_id()));
      let up = h.1.map_or(-1, |x| x as i64);
      out.push(vec![l, h.0 as i64, up, if idx == idy { idx } else { -1 }, it.len() as i64]);
    }
    if cut == ops.len() {
      fin = finish(&p, (&turned, s), &it, |c, b| c.to(b), r);
    }
    obj! {"ring": ring.iter().map(|i| id1(*i)).collect::<Vec<_>>(), "out": out, "fin": fin, "cut": cut}
  });
  // flatten for the specification
  match res {
    V::O(v) if v[0].1 == V::S("ok".into()) => {
      let V::O(w) = v[1].1.clone() else { unreachable!() };
      obj! {"op": "iter", "nsteps": ops.len() + 1, "ty": T::NAME, "ring": w[0].1.clone(), "from": from, "kind": kind, "end": end, "ops": ops.to_vec(),
            "r": obj!{"st": "ok", "v": w[1].1.clone(), "fin": w[2].1.clone(), "cut": w[3].1.clone()}}
    }
    other => obj! {"op": "iter", "nsteps": 1, "ty": T::NAME, "ring": V::A(vec![]), "from": from, "kind": kind, "end": end, "ops": ops.to_vec(), "r": other},
  }
}
/// The same boundary stored as given, or reversed and turned round by `ensure_ccw`.
fn make<T: Sc>(ps: &[P2], m: &Map, how: usize) -> Polygon<T> {
  let pts: Vec<Point<T>> = mkps(ps, m);
  if how == 1 && simple(ps) && area2(ps) > 0 {
    let mut q = pts.clone();
    q.reverse();
    if let Ok(p) = Polygon::new(q) {
      return p;
    }
  }
  Polygon::new_unchecked(pts)
}
fn equal<T: Sc>(a: &[P2], b: &[P2], m: &Map, how: usize) -> V {
  let p = make::<T>(a, m, how % 2);
  let q = make::<T>(b, m, how / 2 % 2);
  V::from(p.equals(&q))
}
fn eq_case(c: &Ctx, i: usize) -> Vec<V> {
  let mut r = c.rng(131_000_000 + i as u64);
  let n = if r.gen_range(0..60) == 59 { 140 } else { r.gen_range(3..10) };
  let a = if i % 400 == 399 { huge(&mut r) } else { tour(&mut r, i, n) };
  if a.len() < 3 {
    return vec![];
  }
  let k = r.gen_range(0..a.len());
  let mut b = rotate(&a, k);
  match r.gen_range(0..8) {
    0 => b.reverse(),
    1 => {
      let (x, y) = (r.gen_range(0..b.len()), r.gen_range(0..b.len()));
      b.swap(x, y);
    }
    2 => {
      let x = r.gen_range(0..b.len());
      b[x].0 += 1;
    }
    3 => {
      b.pop();
    }
    4 => {
      // repeated points: rotations that agree for a while
      let t = r.gen_range(0..b.len());
      let v = b[t];
      b.iter_mut().take(2).for_each(|p| *p = v);
    }
    _ => {}
  }
  desc(|| format!("equals {:?} {:?}", a, b));
  let hi = extent(&a).max(extent(&b));
  let mut gr = Group::default();
  let how = r.gen_range(0..4);
  all_types!(0, hi, (i, false), gr, |m| equal(&a, &b, m, how));
  vec![obj! {"op": "eq", "nsteps": 1, "a": a, "b": b, "g": gr.json()}]
}
/// Lists over two points: many partial rotational matches.
fn eq_words(c: &Ctx, i: usize) -> Vec<V> {
  let mut r = c.rng(132_000_000 + i as u64);
  let n = r.gen_range(3..8);
  let w: [P2; 2] = [(0, 0), (1, 2)];
  let a: Vec<P2> = (0..n).map(|_| w[r.gen_range(0..2)]).collect();
  let k = r.gen_range(0..n);
  let mut b = rotate(&a, k);
  if r.gen_bool(0.5) {
    let x = r.gen_range(0..n);
    b[x] = w[r.gen_range(0..2)];
  }
  let mut gr = Group::default();
  all_types!(0, 2, (i, false), gr, |m| equal(&a, &b, m, 0));
  vec![obj! {"op": "eq", "nsteps": 1, "a": a, "b": b, "g": gr.json()}]
}
fn main() {
  run(|c| {
    let hist: Vec<Vec<i64>> = std::fs::read_to_string(c.polys.as_ref().unwrap())
      .unwrap()
      .lines()
      .map(|l| l.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect())
      .collect();
    c.par(hist.len(), |i| {
      let mut r = c.rng(133_000_000 + i as u64);
      desc(|| format!("iterate {:?}", hist[i]));
      let how = r.gen_range(0..6);
      vec![by_type!(i, iterate(&hist[i], how, &mut r))]
    });
    // long iterations of large rings
    c.par(c.pick(200, 4000), |i| {
      let mut r = c.rng(134_000_000 + i as u64);
      let n = r.gen_range(6..40);
      let back = [0.0, 0.1, 0.5, 1.0][i % 4];
      let mut g: Vec<i64> = vec![n, r.gen_range(1..=n), r.gen_range(0..3), r.gen_range(1..=n)];
      if g[2] == 2 && g[3] == g[1] {
        g[3] = g[1] % n + 1;
      }
      if g[2] == 0 {
        g[3] = 1;
      }
      g.extend((0..n + 2).map(|_| if r.gen_bool(back) { 2 } else { 1 }));
      desc(|| format!("iterate {:?}", g));
      let how = r.gen_range(0..6);
      vec![by_type!(i, iterate(&g, how, &mut r))]
    });
    c.par(c.pick(4000, 60000), |i| object(c, i));
    c.par(c.pick(1500, 30000), |i| eq_case(c, i));
    c.par(c.pick(800, 8000), |i| eq_words(c, i));
  });
}
