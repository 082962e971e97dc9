//! C15: star-shaped construction around a centre.
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::polygonization::new_star_polygon;
use rgeometry::data::*;

fn star_of<T: Sc>(ps: &[P2], c: P2, m: &Map) -> V {
  match new_star_polygon(mkps::<T>(ps, m), &mkp(c, m)) {
    Ok(p) => {
      let ring: Vec<P2> = p.iter_boundary().map(|c| back(c.point(), ps, m).unwrap_or((-999, -999))).collect();
      obj! {"st": "ok", "ring": ring}
    }
    Err(e) => obj! {"st": format!("{:?}", e), "ring": V::A(vec![])},
  }
}
fn case(c: &Ctx, i: usize, ps: &[P2], o: P2, all: bool) -> Vec<V> {
  desc(|| format!("star {:?} {:?}", ps, o));
  let it = || ps.iter().chain(std::iter::once(&o));
  let lo = it().map(|p| p.0.min(p.1)).min().unwrap();
  let hi = it().map(|p| p.0.max(p.1)).max().unwrap().max(lo + 1);
  let mut gr = Group::default();
  all_types!(lo, hi, (i, all && c.thorough), gr, |m| star_of(ps, o, m));
  vec![obj! {"op": "star", "ps": ps.to_vec(), "c": o, "g": gr.json()}]
}
fn main() {
  run(|c| {
    thin(c.pick(3, 2));
    let g = grid(3, 3);
    let n = g.len();
    // all subsets of a 3x3 grid (in a random order) with every centre of the grid
    c.par(512 * 9, |i| {
      let mut r = c.rng(150_000_000 + i as u64);
      if !c.thorough && i % 2 != c.seed as usize % 2 {
        return vec![];
      }
      let mut ps: Vec<P2> = (0..n).filter(|k| i / 9 >> k & 1 == 1).map(|k| g[k]).collect();
      shuffle(&mut r, &mut ps);
      case(c, i, &ps, g[i % 9], false)
    });
    c.par(c.pick(600, 20000), |i| {
      // lists with repetitions
      let mut r = c.rng(151_000_000 + i as u64);
      let ps: Vec<P2> = (0..r.gen_range(0..7)).map(|_| g[r.gen_range(0..n)]).collect();
      let o = g[r.gen_range(0..n)];
      case(c, i, &ps, o, true)
    });
    c.par(c.pick(4000, 80000), |i| {
      let mut r = c.rng(152_000_000 + i as u64);
      let k = [6, 12, 30, 50][i % 4];
      let n = r.gen_range(3..[8, 14, 24, 40][i / 4 % 4]);
      let o = if r.gen_bool(0.2) { rpt(&mut r, 0, k) } else { (k / 2 + r.gen_range(-1..=1), k / 2 + r.gen_range(-1..=1)) };
      let mut ps: Vec<P2> = distinct(&mut r, n, 0, k);
      if r.gen_bool(0.4) {
        // opposite points through the centre
        for _ in 0..2 {
          let q = ps[r.gen_range(0..ps.len())];
          let t = (2 * o.0 - q.0, 2 * o.1 - q.1);
          if t.0 >= 0 && t.1 >= 0 {
            ps.push(t);
          }
        }
      }
      if r.gen_bool(0.85) {
        // one vertex per direction, not the centre
        let mut q: Vec<P2> = vec![];
        for p in &ps {
          if *p != o && q.iter().all(|z| !(det(o, *z, *p) == 0 && (z.0 - o.0) * (p.0 - o.0) + (z.1 - o.1) * (p.1 - o.1) > 0)) {
            q.push(*p);
          }
        }
        ps = q;
      }
      shuffle(&mut r, &mut ps);
      case(c, i, &ps, o, false)
    });
    // many vertices
    c.par(c.pick(30, 600), |i| {
      let mut r = c.rng(153_000_000 + i as u64);
      let n = [60, 100, 160][i % 3];
      let mut ps = star(&mut r, n, 120);
      shuffle(&mut r, &mut ps);
      case(c, i, &ps, (60, 60), false)
    });
    c.par(c.pick(2, 30), |i| {
      let mut r = c.rng(154_000_000 + i as u64);
      let mut ps = huge(&mut r);
      let o = (ps.iter().map(|p| p.0).sum::<i64>() / ps.len() as i64, ps.iter().map(|p| p.1).sum::<i64>() / ps.len() as i64);
      shuffle(&mut r, &mut ps);
      case(c, i, &ps, o, false)
    });
  });
}
