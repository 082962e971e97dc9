//! C10: ear clipping. Every distinct recorded run becomes one session.
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::two_opt_moves;
use rgeometry::algorithms::triangulation::earclip::*;
use rgeometry::algorithms::zhash::ZHashable;
use rgeometry::data::*;

/// Triangles as ring positions, and whether anything follows the end.
fn collect(order: &[PointId], mut it: impl Iterator<Item = (PointId, PointId, PointId)>) -> V {
  let pos = |p: PointId| order.iter().position(|q| *q == p).map(|i| i as i64 + 1).unwrap_or(0);
  let mut tr = vec![];
  let mut extra = 0;
  while let Some((a, b, c)) = it.next() {
    tr.push(vec![pos(a), pos(b), pos(c)]);
    if tr.len() > order.len() + 3 {
      break;
    }
  }
  for _ in 0..3 {
    if tr.len() <= order.len() && it.next().is_some() {
      extra += 1;
    }
  }
  obj! {"tr": tr, "extra": extra}
}
/// A polygon with the given boundary: directly, or with its ring permuted.
fn build<T: Sc>(ps: &[P2], m: &Map, style: usize) -> Polygon<T> {
  let mut q: Vec<Point<T>> = mkps(ps, m);
  let n = q.len();
  match style % 4 {
    1 => {
      q[1..].reverse();
      Polygon::new(q).expect("simple polygon")
    }
    2 => {
      q.rotate_left(style / 4 % n);
      Polygon::new_unchecked(q)
    }
    3 => arranged(&q, style / 4),
    _ => Polygon::new_unchecked(q),
  }
}
/// The list functions get the polygon's points and an explicit order.
fn store<T: Sc>(ps: &[P2], m: &Map, seed: u64, style: usize) -> (Vec<Point<T>>, Vec<PointId>) {
  let n = ps.len();
  let mut r = SmallRng::seed_from_u64(seed ^ 77);
  // points that are not part of the polygon, sometimes
  let more = if style % 3 == 2 { r.gen_range(1..4) } else { 0 };
  let mut all = ps.to_vec();
  for _ in 0..more {
    all.push((ps[r.gen_range(0..n)].0, ps[r.gen_range(0..n)].1));
  }
  // point identifiers can only be obtained from a polygon
  let ids: Vec<PointId> = Polygon::new_unchecked(mkps::<T>(&all, m)).boundary_slice().to_vec();
  if style % 3 == 0 {
    return (mkps(ps, m), ids);
  }
  // arbitrary storage order
  let mut perm: Vec<usize> = (0..all.len()).collect();
  shuffle(&mut r, &mut perm);
  let mut pts = vec![None; all.len()];
  for i in 0..all.len() {
    pts[perm[i]] = Some(mkp::<T>(all[i], m));
  }
  (pts.into_iter().map(|p| p.unwrap()).collect(), perm[..n].iter().map(|j| ids[*j]).collect())
}
fn plain<T: Sc>(ps: &[P2], m: &Map, which: usize, seed: u64, style: usize) -> V {
  match which {
    0 => {
      let p = build::<T>(ps, m, style);
      obj_ring(ring(&p, ps, m), collect(p.boundary_slice(), earclip(&p)))
    }
    1 => {
      let p = build::<T>(ps, m, style);
      let v = collect(p.boundary_slice(), p.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id())));
      obj_ring(ring(&p, ps, m), v)
    }
    _ => {
      let (pts, order) = store::<T>(ps, m, seed, style);
      obj_ring(ps.to_vec(), collect(&order, triangulate_list(&pts, &order, biased(seed))))
    }
  }
}
fn hashed<T: Sc + ZHashable>(ps: &[P2], m: &Map, which: usize, seed: u64, style: usize) -> V {
  if which < 2 {
    let p = build::<T>(ps, m, style);
    return obj_ring(ring(&p, ps, m), collect(p.boundary_slice(), earclip_hashed(&p)));
  }
  let (pts, order) = store::<T>(ps, m, seed, style);
  obj_ring(ps.to_vec(), collect(&order, triangulate_list_hashed(&pts, &order, biased(seed))))
}
fn ring<T: Sc>(p: &Polygon<T>, abs: &[P2], m: &Map) -> Vec<P2> {
  p.iter_boundary().map(|c| back(c.point(), abs, m).unwrap_or((-999, -999))).collect()
}
fn obj_ring(ring: Vec<P2>, v: V) -> V {
  obj! {"ring": ring, "run": v}
}
/// A polygon with features of different sizes through the hashed variants.
fn scales<T: Sc + ZHashable>(q: &[B2], which: usize, seed: u64, mk: impl Fn(i128) -> T) -> V {
  let pts: Vec<Point<T>> = q.iter().map(|p| Point::new([mk(p.0), mk(p.1)])).collect();
  let ids: Vec<PointId> = Polygon::new_unchecked(pts.clone()).boundary_slice().to_vec();
  let ring: Vec<V> = pts.iter().map(|p| V::A(limbs_of(p))).collect();
  let run = match which {
    0 => collect(&ids, earclip_hashed(&Polygon::new_unchecked(pts))),
    1 => collect(&ids, earclip(&Polygon::new_unchecked(pts))),
    _ => collect(&ids, triangulate_list_hashed(&pts, &ids, biased(seed))),
  };
  obj! {"ring": V::A(ring), "run": run}
}
fn limbs_of<T: Sc>(p: &Point<T>) -> Vec<V> {
  p.array.iter().map(|x| big_limbs(&x.exact().to_integer())).collect()
}
fn sessions(ps: &[P2], g: Group) -> Vec<V> {
  let V::A(list) = g.json() else { unreachable!() };
  let mut out = vec![];
  for e in list {
    let V::O(f) = e else { unreachable!() };
    let get = |k: &str| f.iter().find(|x| x.0 == k).unwrap().1.clone();
    let V::O(r) = get("r") else { unreachable!() };
    let n = match &r[1].1 {
      V::O(v) => match v.iter().find(|x| x.0 == "run") {
        Some((_, V::O(run))) => match &run[0].1 {
          V::A(t) => t.len(),
          _ => 0,
        },
        _ => 0,
      },
      _ => 0,
    };
    out.push(obj! {"op": "tri", "nsteps": (n + 1) as i64, "ps": ps.to_vec(), "r": V::O(r), "who": get("who"), "n": get("n")});
  }
  out
}
fn case(c: &Ctx, i: usize, ps: &[P2], all: bool, seeds: usize) -> Vec<V> {
  desc(|| format!("triangulate {:?}", ps));
  let mut gr = Group::default();
  let k = extent(ps);
  let all = all && c.thorough;
  let style = i;
  // the same seed for all types: equal behaviour collapses into one session
  let w = i % 2;
  all_types!(0, k, (i, all), gr, |m| plain(ps, m, w, 0, style));
  hashed_types(k, i, all, &mut gr, ps, 0, 0, style);
  for s in 0..seeds {
    let seed = (i * 31 + s) as u64;
    all_types!(0, k, (i + s, false), gr, |m| plain(ps, m, 2, seed, style));
    hashed_types(k, i + s, false, &mut gr, ps, 2, seed, style);
  }
  sessions(ps, gr)
}
fn hashed_types(k: i64, salt: usize, all: bool, gr: &mut Group, ps: &[P2], which: usize, seed: u64, style: usize) {
  macro_rules! one {
    ($t:ty) => {
      for m in some_maps::<$t>(0, k, salt, all).iter() {
        let r = guard(|| hashed::<$t>(ps, m, which, seed, style));
        gr.add(r, || format!("hashed/{}/{}", <$t>::NAME, m.name));
      }
    };
  }
  one!(i8);
  one!(i64);
  one!(f64);
}
fn main() {
  run(|c| {
    thin(c.pick(3, 2));
    let polys = load(&c.polys);
    c.par(polys.len().min(c.pick(1500, usize::MAX)), |i| {
      let j = if c.thorough { i } else { (i.wrapping_mul(7919) + c.seed as usize) % polys.len() };
      case(c, i, &polys[j], true, 1)
    });
    c.par(c.pick(1000, 30000), |i| {
      let mut r = c.rng(80_000_000 + i as u64);
      let n = [8, 14, 24, 40][i % 4];
      let p = any_poly(&mut r, n);
      case(c, i, &p, false, 1)
    });
    // features of very different sizes: many vertices in one hash cell
    c.par(c.pick(1200, 30000), |i| {
      let mut r = c.rng(82_000_000 + i as u64);
      let e = r.gen_range(16..=57);
      let n = r.gen_range(4..=9);
      let mut q = two_scale(&mut r, n, e);
      desc(|| format!("triangulate two scales {:?}", q));
      let mut gr = Group::default();
      if e <= 48 {
        let p = q.clone();
        gr.add(guard(|| scales::<f64>(&p, i % 3, i as u64, |v| v as f64)), || "f64".into());
      }
      // move the box around inside the type
      let t = [0, -(1i128 << 59), 1 << 60, i64::MIN as i128][r.gen_range(0..4)];
      let lo = (q.iter().map(|p| p.0).min().unwrap(), q.iter().map(|p| p.1).min().unwrap());
      q.iter_mut().for_each(|p| *p = (p.0 - lo.0 + t, p.1 - lo.1 + t));
      gr.add(guard(|| scales::<i64>(&q, i % 3, i as u64, |v| v as i64)), || "i64".into());
      let mut s = sessions(&[], gr);
      for e in &mut s {
        if let V::O(f) = e {
          f[0].1 = "trib".into();
        }
      }
      s
    });
    // rings permuted by untangling
    c.par(c.pick(500, 10000), |i| {
      let mut r = c.rng(81_000_000 + i as u64);
      let n = r.gen_range(3..16);
      let k = [3, 4, 8, 30][i % 4];
      let ps = distinct(&mut r, n, 0, k);
      if colinear(&ps) {
        return vec![];
      }
      let seed = r.gen();
      desc(|| format!("triangulate untangled {:?}", ps));
      let mut gr = Group::default();
      macro_rules! one {
        ($t:ty, $f:expr) => {{
          let m = &<$t>::maps(0, k)[0];
          let made = std::panic::catch_unwind(|| two_opt_moves(mkps::<$t>(&ps, m), &mut SmallRng::seed_from_u64(seed)).ok());
          if let Ok(Some(p)) = made {
            let rg = ring(&p, &ps, m);
            if simple(&rg) && area2(&rg) > 0 {
              gr.add(guard(|| obj_ring(rg.clone(), collect(p.boundary_slice(), $f(&p)))), || <$t>::NAME.into());
            }
          }
        }};
      }
      fn cur<T: Sc>(p: &Polygon<T>) -> impl Iterator<Item = (PointId, PointId, PointId)> + '_ {
        p.triangulate().map(|(a, b, c)| (a.point_id(), b.point_id(), c.point_id()))
      }
      one!(i64, earclip_hashed);
      one!(i8, earclip_hashed);
      one!(f64, earclip_hashed);
      one!(i32, earclip);
      one!(num_bigint::BigInt, cur);
      sessions(&[], gr)
    });
    // many vertices
    c.par(c.pick(8, 200), |i| {
      let mut r = c.rng(83_000_000 + i as u64);
      let p = if i % 8 == 0 { huge(&mut r) } else { big_poly(&mut r, [60, 80][i % 2]) };
      if p.len() > 110 && i % 8 != 0 {
        return vec![];
      }
      case(c, i, &p, false, 1)
    });
  });
}
