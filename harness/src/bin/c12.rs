//! C12: the indexed intersection multiset, driven by operation histories.
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::gen::*;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx};
use rgconf::*;
use rgeometry::data::*;

type E = (usize, usize);
#[derive(Clone, Copy, Debug)]
enum Op {
  Push(E, E, bool),
  Remove(E, bool),
}
fn ids(n: usize) -> Vec<PointId> {
  Polygon::new_unchecked((0..n as i64).map(|i| Point::new([i, i * i])).collect()).boundary_slice().to_vec()
}
fn edges(n: usize) -> Vec<E> {
  (1..=n).flat_map(|a| (a + 1..=n).map(move |b| (a, b))).collect()
}
fn show(i: &IndexIntersection) -> Vec<i64> {
  [i.min.min, i.min.max, i.max.min, i.max.max].iter().map(|p| p.usize() as i64 + 1).collect()
}
fn snap(s: &mut IndexIntersectionSet, r: &mut SmallRng) -> V {
  let mut it: Vec<Vec<i64>> = s.iter().map(|i| show(&i)).collect();
  it.sort();
  let mut rnd = std::collections::BTreeSet::new();
  let mut none = false;
  let mut distinct = it.clone();
  distinct.dedup();
  let tries = 10 + 60 * it.len();
  for k in 0..tries {
    let seed = r.gen::<u64>();
    match s.random(&mut biased(if k < 10 { seed } else { seed / 6 * 6 + 5 })) {
      None => none = true,
      Some(i) => {
        rnd.insert(show(&i));
      }
    }
    // stop early only when nothing more could be learnt
    if rnd.len() >= distinct.len() && k >= 10 {
      break;
    }
  }
  let rnd: Vec<Vec<i64>> = rnd.into_iter().collect();
  obj! {"it": it, "rnd": rnd, "none": none}
}
fn args(op: &Op) -> Vec<i64> {
  match op {
    Op::Push(a, b, _) => {
      let (x, y) = if a < b { (a, b) } else { (b, a) };
      vec![x.0 as i64, x.1 as i64, y.0 as i64, y.1 as i64]
    }
    Op::Remove(a, _) => vec![a.0 as i64, a.1 as i64],
  }
}
fn apply(set: &mut IndexIntersectionSet, id: &[PointId], op: Op) {
  match op {
    Op::Push(a, b, swap) => {
      let e = |e: E| if swap { IndexEdge::new(id[e.1 - 1], id[e.0 - 1]) } else { IndexEdge::new(id[e.0 - 1], id[e.1 - 1]) };
      set.push(if swap { IndexIntersection::new(e(b), e(a)) } else { IndexIntersection::new(e(a), e(b)) })
    }
    Op::Remove(a, dir) => {
      if dir {
        set.remove_all(DirectedIndexEdge { src: id[a.1 - 1], dst: id[a.0 - 1] })
      } else {
        set.remove_all(IndexEdge::new(id[a.0 - 1], id[a.1 - 1]))
      }
    }
  }
}
/// Hundreds of members at a time: many operations between one look and the next.
fn bulk(n: usize, r: &mut SmallRng) -> V {
  let id = ids(n);
  let mut set = IndexIntersectionSet::new(n);
  let mut steps = vec![];
  for k in 0..5 {
    let mut hot: Vec<E> = vec![];
    let ops: Vec<Op> = (0..r.gen_range(80..260))
      .map(|_| {
        let mut edge = || {
          if !hot.is_empty() && r.gen_bool(0.3) {
            return hot[r.gen_range(0..hot.len())];
          }
          let (a, b) = (r.gen_range(1..=n), r.gen_range(1..n));
          let b = if b >= a { b + 1 } else { b };
          let e = (a.min(b), a.max(b));
          if hot.len() < 20 {
            hot.push(e);
          }
          e
        };
        let (a, mut b) = (edge(), edge());
        while a == b {
          b = edge();
        }
        if r.gen_bool(if k % 2 == 0 { 0.99 } else { 0.8 }) { Op::Push(a, b, r.gen()) } else { Op::Remove(a, r.gen()) }
      })
      .collect();
    desc(|| format!("isect {} {:?}", n, ops));
    let res = guard(|| {
      for op in &ops {
        apply(&mut set, &id, *op);
      }
      snap(&mut set, r)
    });
    let ok = matches!(&res, V::O(f) if f[0].1 == V::S("ok".into()));
    steps.push(obj! {"o": "bulk", "a": ops.iter().map(args).collect::<Vec<_>>(), "r": res});
    if !ok {
      break;
    }
  }
  obj! {"op": "isect", "nsteps": steps.len() as i64, "v": n as i64, "steps": steps}
}
fn session(n: usize, ops: &[Op], seed: u64) -> V {
  desc(|| format!("isect {} {:?}", n, ops));
  let id = ids(n);
  let mut r = rand::SeedableRng::seed_from_u64(seed);
  let mut set = IndexIntersectionSet::new(n);
  let mut steps = vec![];
  for op in ops {
    let name = if matches!(op, Op::Push(..)) { "push" } else { "remove" };
    let res = guard(|| {
      apply(&mut set, &id, *op);
      snap(&mut set, &mut r)
    });
    let ok = matches!(&res, V::O(f) if f[0].1 == V::S("ok".into()));
    steps.push(obj! {"o": name, "a": args(op), "r": res});
    if !ok {
      break;
    }
  }
  obj! {"op": "isect", "nsteps": steps.len() as i64, "v": n as i64, "steps": steps}
}
/// Histories written by TLC: each operation as a list of vertex numbers.
fn histories(c: &Ctx) -> Vec<Vec<Op>> {
  let Some(p) = &c.polys else { return vec![] };
  let mut v: Vec<Vec<Op>> = std::fs::read_to_string(p)
    .unwrap()
    .lines()
    .map(|l| {
      l.split("],")
        .map(|o| {
          let n: Vec<usize> = o.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
          match n.len() {
            2 => Op::Remove((n[0], n[1]), false),
            _ => Op::Push((n[0], n[1]), (n[2], n[3]), false),
          }
        })
        .collect()
    })
    .collect();
  v.sort_by_key(|h| format!("{:?}", h));
  v
}
fn main() {
  run(|c| {
    let hs = histories(c);
    c.par(hs.len(), |i| vec![session(4, &hs[i], i as u64)]);
    c.par(c.pick(1200, 30000), |i| {
      let mut r = c.rng(100_000_000 + i as u64);
      let n = [3, 4, 5, 6, 9, 40][i % 6];
      let es = edges(n);
      let len = r.gen_range(5..if n == 40 { 150 } else { c.pick(50, 120) });
      let mut pushy = 0.8;
      let ops: Vec<Op> = (0..len)
        .map(|_| {
          if r.gen_bool(0.08) {
            pushy = [0.2, 0.5, 0.8, 0.95][r.gen_range(0..4)];
          }
          let a = es[r.gen_range(0..es.len())];
          if r.gen_bool(pushy) {
            let b = loop {
              let b = es[r.gen_range(0..es.len())];
              if b != a {
                break b;
              }
            };
            Op::Push(a, b, r.gen_bool(0.3))
          } else {
            Op::Remove(a, r.gen_bool(0.3))
          }
        })
        .collect();
      vec![session(n, &ops, r.gen())]
    });
    c.par(c.pick(24, 400), |i| {
      let mut r = c.rng(110_000_000 + i as u64);
      vec![bulk([12, 40, 300][i % 3], &mut r)]
    });
  });
}
