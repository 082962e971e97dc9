//! C08: convex hull of point lists (Graham scan, gift wrapping).
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::convex_hull::{gift_wrapping, graham_scan};
use rgeometry::data::*;
use rgeometry::Error;

fn show<T: Sc>(r: Result<PolygonConvex<T>, Error>, abs: &[P2], m: &Map) -> V {
  match r {
    Ok(p) => {
      let of = |p: &Polygon<T>| p.iter_boundary().map(|c| back(c.point(), abs, m).unwrap_or((-999, -999))).collect::<Vec<P2>>();
      let mut ring = of(p.polygon());
      let val = match p.validate() {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("{:?}", e),
      };
      let stored = p.iter().count() as i64;
      // the polygon on its own
      if of(&Polygon::from(p)) != ring {
        ring.push((-998, -998));
      }
      obj! {"st": "ok", "ring": ring, "stored": stored, "val": val}
    }
    Err(e) => obj! {"st": format!("{:?}", e), "ring": V::A(vec![]), "stored": 0i64, "val": "ok"},
  }
}
fn graham<T: Sc>(ps: &[P2], m: &Map) -> V {
  show::<T>(graham_scan::convex_hull(mkps(ps, m)), ps, m)
}
fn gift<T: Sc>(ps: &[P2], m: &Map) -> V {
  show::<T>(gift_wrapping::convex_hull(mkps(ps, m)), ps, m)
}
/// The hull must not depend on which of the re-exported entry points is used.
fn default<T: Sc>(ps: &[P2], m: &Map) -> V {
  show::<T>(rgeometry::algorithms::convex_hull(mkps(ps, m)), ps, m)
}
fn ev(c: &Ctx, i: usize, ps: &[P2], all: bool) -> V {
  desc(|| format!("hull {:?}", ps));
  let (lo, hi) = (ps.iter().map(|p| p.0.min(p.1)).min().unwrap_or(0), ps.iter().map(|p| p.0.max(p.1)).max().unwrap_or(1));
  let all = all && c.thorough;
  let mut gr = Group::default();
  all_types!(lo, hi, (i, all), gr, |m| graham(ps, m));
  all_types!(lo, hi, (i + 1, all), gr, |m| gift(ps, m));
  if i % 5 == 0 {
    let r = guard(|| default::<i64>(ps, &i64::maps(lo, hi)[0]));
    gr.add(r, || "default/i64".into());
  }
  obj! {"op": "hull", "ps": ps.to_vec(), "g": gr.json()}
}
fn main() {
  run(|c| {
    thin(c.pick(3, 2));
    let g = grid(3, 3);
    let n = g.len();
    for len in 0..=4u32 {
      c.par(n.pow(len), |i| vec![ev(c, i, &(0..len).map(|j| g[i / n.pow(j) % n]).collect::<Vec<_>>(), true)]);
    }
    c.par(c.pick(6000, n.pow(5)), |i| {
      let mut r = c.rng(60_000_000 + i as u64);
      let i = if c.thorough { i } else { r.gen_range(0..n.pow(5)) };
      vec![ev(c, i, &(0..5).map(|j| g[i / n.pow(j) % n]).collect::<Vec<_>>(), false)]
    });
    c.par(c.pick(4000, 80000), |i| {
      let mut r = c.rng(61_000_000 + i as u64);
      let k = [1, 2, 3, 5, 9, 40, 100][r.gen_range(0..7)];
      let n = [6, 8, 12, 30, 80][r.gen_range(0..5)];
      let n = r.gen_range(0..n);
      let mut ps: Vec<P2> = match r.gen_range(0..9) {
        0 => {
          // one line, arbitrary order and repetitions
          let d = rpt(&mut r, -2, 2);
          let o = rpt(&mut r, -3, 3);
          (0..n).map(|_| { let t = r.gen_range(-10..=10); (o.0 + t * d.0, o.1 + t * d.1) }).collect()
        }
        1 => {
          // a line and one point off it
          let d = rpt(&mut r, -2, 2);
          let mut v: Vec<P2> = (0..n).map(|_| { let t = r.gen_range(-10..=10); (t * d.0, t * d.1) }).collect();
          v.push(rpt(&mut r, -20, 20));
          v
        }
        2 => {
          // corner points and boundary points of a rectangle
          (0..n).map(|_| { let p = rpt(&mut r, 0, k); match r.gen_range(0..4) { 0 => (0, p.1), 1 => (k, p.1), 2 => (p.0, 0), _ => (p.0, k) } }).collect()
        }
        3 => any_poly(&mut r, 40),
        4 => hull(&distinct(&mut r, n.max(4), 0, k + 3)),
        5 => {
          // two colinear runs through a common lowest point
          (0..n).map(|_| { let t = r.gen_range(0..=20); if r.gen_bool(0.5) { (t, 0) } else { (t, 2 * t) } }).collect()
        }
        _ => (0..n).map(|_| rpt(&mut r, -k, k)).collect(),
      };
      // repetitions of extreme points and others
      if r.gen_bool(0.4) && !ps.is_empty() {
        for _ in 0..r.gen_range(1..4) {
          let low = *ps.iter().min_by_key(|p| (p.1, p.0)).unwrap();
          let q = if r.gen_bool(0.5) { low } else { ps[r.gen_range(0..ps.len())] };
          let at = r.gen_range(0..=ps.len());
          ps.insert(at, q);
        }
      }
      if r.gen_bool(0.5) {
        shuffle(&mut r, &mut ps);
      }
      vec![ev(c, i, &ps, false)]
    });
    // many points
    c.par(c.pick(40, 800), |i| {
      let mut r = c.rng(62_000_000 + i as u64);
      let n = [100, 150, 300, 600][i % 4];
      let k = [6, 30, 100][i / 4 % 3];
      let mut ps: Vec<P2> = match i / 12 % 3 {
        0 => (0..n).map(|_| rpt(&mut r, -k, k)).collect(),
        1 => big_poly(&mut r, n.min(240)),
        // dense near a circle
        _ => (0..8 * n).map(|_| rpt(&mut r, -100, 100)).filter(|p| { let d = p.0 * p.0 + p.1 * p.1; (8000..=10000).contains(&d) }).take(n).collect(),
      };
      shuffle(&mut r, &mut ps);
      vec![ev(c, i, &ps, false)]
    });
  });
}
