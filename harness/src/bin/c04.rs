//! C04: segment intersection, containment, all-pairs intersections.
use rand::Rng;
use rgconf::gen::shuffle;
use rgconf::json::V;
use rgconf::rt::{desc, run, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
use rgeometry::Intersects;

fn ep<T: Sc>(p: Point<T>, incl: bool) -> EndPoint<Point<T>> {
  if incl {
    EndPoint::Inclusive(p)
  } else {
    EndPoint::Exclusive(p)
  }
}
fn enc<T: Sc>(r: Option<ILineSegment<'_, T>>, abs: &[P2], m: &Map) -> V {
  match r {
    None => V::A(vec![]),
    Some(ILineSegment::Crossing) => arr![1i64],
    Some(ILineSegment::Overlap(s)) => {
      let lo = back(s.min.inner(), abs, m).unwrap_or((-999, -999));
      let hi = back(s.max.inner(), abs, m).unwrap_or((-999, -999));
      let (li, hi_i) = (s.min.is_inclusive() as i64, s.max.is_inclusive() as i64);
      // a map may reverse the lexicographic order: report the abstract order
      if lo <= hi {
        arr![2i64, lo.0, lo.1, li, hi.0, hi.1, hi_i]
      } else {
        arr![2i64, hi.0, hi.1, hi_i, lo.0, lo.1, li]
      }
    }
  }
}
fn isect16<T: Sc>(p: &[P2; 4], m: &Map) -> V {
  let q: Vec<Point<T>> = mkps(p, m);
  V::A(
    (0..16)
      .map(|f| {
        let s1 = LineSegment::new(ep(q[0].clone(), f & 1 != 0), ep(q[1].clone(), f & 2 != 0));
        let s2 = LineSegment::new(ep(q[2].clone(), f & 4 != 0), ep(q[3].clone(), f & 8 != 0));
        let v1 = LineSegmentView::new(
          if f & 1 != 0 { EndPoint::Inclusive(&q[0]) } else { EndPoint::Exclusive(&q[0]) },
          if f & 2 != 0 { EndPoint::Inclusive(&q[1]) } else { EndPoint::Exclusive(&q[1]) },
        );
        let v2 = LineSegmentView::from(&s2);
        let mut rs = vec![enc(s1.intersect(&s2), p, m), enc(v1.intersect(v2), p, m)];
        // symmetric call: same point set
        rs.push(enc(s2.intersect(&s1), p, m));
        rs.push(enc(v2.intersect(v1), p, m));
        if f == 5 {
          let (r1, r2) = (q[0].clone()..q[1].clone(), q[2].clone()..q[3].clone());
          rs.push(enc((&r1).intersect(&r2), p, m));
          let (s1, s2) = (LineSegment::from(r1.clone()), LineSegment::from(r2.clone()));
          rs.push(enc(s1.intersect(&s2), p, m));
          rs.push(enc(LineSegmentView::from(&q[0]..&q[1]).intersect(LineSegmentView::from(&q[2]..&q[3])), p, m));
          // directed edges include their start and exclude their end
          let e1 = DirectedEdge { src: &q[0], dst: &q[1] };
          let e2 = DirectedEdge { src: &q[2], dst: &q[3] };
          rs.push(enc(e1.intersect(e2), p, m));
          let e1 = DirectedEdge_ { src: q[0].clone(), dst: q[1].clone() };
          let e2 = DirectedEdge_ { src: q[2].clone(), dst: q[3].clone() };
          rs.push(enc((&e1).intersect(&e2), p, m));
          let (s1, s2) = (LineSegment::from(e1), LineSegment::from(e2));
          rs.push(enc(s1.intersect(&s2), p, m));
          let xy = |k: usize| (q[k].x_coord().clone(), q[k].y_coord().clone());
          let (s1, s2) = (LineSegment::from(xy(0)..xy(1)), LineSegment::from(xy(2)..xy(3)));
          rs.push(enc(s1.intersect(&s2), p, m));
        }
        if f == 15 {
          let (r1, r2) = (q[0].clone()..=q[1].clone(), q[2].clone()..=q[3].clone());
          rs.push(enc((&r1).intersect(&r2), p, m));
          let (s1, s2) = (LineSegment::from(r1.clone()), LineSegment::from(r2.clone()));
          rs.push(enc(s1.intersect(&s2), p, m));
        }
        let first = rs[0].clone();
        if rs.iter().all(|r| *r == first) {
          first
        } else {
          // entry points disagree: report them all (never a legal answer)
          let mut v = vec![V::I(9)];
          v.extend(rs);
          V::A(v)
        }
      })
      .collect(),
  )
}
fn contains_all<T: Sc>(a: P2, b: P2, pts: &[P2], m: &Map) -> V {
  let (qa, qb): (Point<T>, Point<T>) = (mkp(a, m), mkp(b, m));
  V::A(
    pts
      .iter()
      .map(|p| {
        let q: Point<T> = mkp(*p, m);
        let mut w = 0i64;
        for f in 0..4 {
          let s = LineSegment::new(ep(qa.clone(), f & 1 != 0), ep(qb.clone(), f & 2 != 0));
          let r1 = s.contains(&q);
          let r2 = s.as_ref().contains(&q);
          if r1 != r2 {
            return V::I(-1);
          }
          if r1 {
            w |= 1 << f;
          }
        }
        let e = DirectedEdge { src: &qa, dst: &qb };
        if e.contains(&q) != (w & 2 != 0) {
          return V::I(-2);
        }
        V::I(w)
      })
      .collect(),
  )
}
/// The tighter of two upper (leftmost) and of two lower (rightmost) ends, for the four
/// combinations of inclusion.
fn ends<T: Sc>(a: P2, b: P2, m: &Map) -> V {
  let (qa, qb): (Point<T>, Point<T>) = (mkp(a, m), mkp(b, m));
  // a map may reverse the lexicographic order
  let rev = (qa < qb) != (a < b);
  let show = |e: &EndPoint<Point<T>>| {
    let p = back(e.inner(), &[a, b], m).unwrap_or((-999, -999));
    if e.is_inclusive() == e.is_exclusive() || e.as_ref().is_inclusive() != e.is_inclusive() || e.as_ref().take() != &e.clone().take() {
      return arr![-1i64];
    }
    arr![p.0, p.1, e.is_inclusive() as i64]
  };
  V::A(
    (0..4)
      .map(|f| {
        let (x, y) = (ep(qa.clone(), f & 1 != 0), ep(qb.clone(), f & 2 != 0));
        let (l, r) = (x.clone().leftmost(y.clone()), x.clone().rightmost(y.clone()));
        let (l, r) = if rev { (r, l) } else { (l, r) };
        V::A(vec![show(&x), show(&l), show(&r)])
      })
      .collect(),
  )
}
fn seg_isects<T: Sc>(segs: &[(P2, bool, P2, bool)], m: &Map) -> V {
  let ss: Vec<LineSegment<T>> = segs.iter().map(|(a, ai, b, bi)| LineSegment::new(ep(mkp(*a, m), *ai), ep(mkp(*b, m), *bi))).collect();
  let pos = |x: &LineSegment<T>| ss.iter().position(|y| std::ptr::eq(x, y)).map(|i| i as i64 + 1).unwrap_or(-1);
  let mut v: Vec<(i64, i64)> = segment_intersections(&ss)
    .map(|(a, b)| {
      let (a, b) = (pos(a), pos(b));
      (a.min(b), a.max(b))
    })
    .collect();
  v.sort();
  V::from(v)
}
fn main() {
  run(|c| {
    let g = gen::grid(3, 3);
    let n = g.len();
    // exhaustive: every pair of segments over the 3x3 grid, every combination of inclusion flags
    c.par(n * n * n * n, |i| {
      let p = [g[i % n], g[i / n % n], g[i / n / n % n], g[i / n / n / n]];
      desc(|| format!("isect {:?}", p));
      let mut gr = Group::default();
      all_types!(0, 2, (i, c.thorough), gr, |m| isect16(&p, m));
      vec![obj! {"op": "isect", "p": p.to_vec(), "g": gr.json()}]
    });
    c.par(n * n, |i| {
      let (a, b) = (g[i % n], g[i / n]);
      desc(|| format!("contains {:?} {:?}", a, b));
      let mut gr = Group::default();
      all_types!(0, 2, (i, c.thorough), gr, |m| contains_all(a, b, &g, m));
      let mut ge = Group::default();
      all_types!(0, 2, (i, c.thorough), ge, |m| ends(a, b, m));
      vec![
        obj! {"op": "contains", "a": a, "b": b, "pts": g.clone(), "g": gr.json()},
        obj! {"op": "ends", "a": a, "b": b, "g": ge.json()},
      ]
    });
    // random wider grids
    let hi = 12;
    c.par(c.pick(3000, 60000), |i| {
      let mut r = c.rng(1000 + i as u64);
      let k = [2, 4, 7, hi][i % 4];
      let p = [0; 4].map(|_| (r.gen_range(0..=k), r.gen_range(0..=k)));
      desc(|| format!("isect {:?}", p));
      let mut gr = Group::default();
      all_types!(0, k, (i, c.thorough), gr, |m| isect16(&p, m));
      let mut out = vec![obj! {"op": "isect", "p": p.to_vec(), "g": gr.json()}];
      let mut gr = Group::default();
      let pts: Vec<P2> = (0..20).map(|_| (r.gen_range(0..=k), r.gen_range(0..=k))).chain([p[0], p[1]]).collect();
      all_types!(0, k, (i, c.thorough), gr, |m| contains_all(p[0], p[1], &pts, m));
      out.push(obj! {"op": "contains", "a": p[0], "b": p[1], "pts": pts, "g": gr.json()});
      out
    });
    c.par(c.pick(600, 8000), |i| {
      let mut r = c.rng(500_000 + i as u64);
      let k = [1, 2, 3, 5, 8][i % 5];
      let n = if i % 40 == 39 { [20, 40, 70][i / 40 % 3] } else { r.gen_range(0..9) };
      let k = if n > 9 { [10, 30, 60][i / 40 % 3] } else { k };
      let segs: Vec<(P2, bool, P2, bool)> =
        (0..n).map(|_| ((r.gen_range(0..=k), r.gen_range(0..=k)), r.gen(), (r.gen_range(0..=k), r.gen_range(0..=k)), r.gen())).collect();
      desc(|| format!("segment_intersections {:?}", segs));
      let mut gr = Group::default();
      all_types!(0, k, (i, c.thorough), gr, |m| seg_isects(&segs, m));
      let sj: Vec<V> = segs.iter().map(|s| arr![V::from(s.0), s.1, V::from(s.2), s.3]).collect();
      vec![obj! {"op": "all", "segs": V::A(sj), "g": gr.json()}]
    });
    // long lists in which only a few pairs meet, anywhere in the list
    c.par(c.pick(10, 150), |i| {
      let mut r = c.rng(600_000 + i as u64);
      let n = [80, 130, 200][i % 3];
      // one short segment in each cell of a row of cells
      let mut at: Vec<i64> = (0..n).collect();
      shuffle(&mut r, &mut at);
      let mut segs: Vec<(P2, bool, P2, bool)> = at
        .iter()
        .map(|x| ((4 * x + r.gen_range(0..3), r.gen_range(0..9)), r.gen(), (4 * x + r.gen_range(0..3), r.gen_range(0..9)), r.gen()))
        .collect();
      for _ in 0..r.gen_range(1..14) {
        // a second one in the cell of another, every distance in the list alike
        let d = r.gen_range(1..segs.len());
        let a = r.gen_range(0..segs.len() - d);
        let (a, b) = if r.gen() { (a, a + d) } else { (a + d, a) };
        let x = segs[a].0 .0 / 4 * 4;
        segs[b] = ((x + r.gen_range(0..3), r.gen_range(0..9)), true, (x + r.gen_range(0..3), r.gen_range(0..9)), true);
      }
      desc(|| format!("segment_intersections {:?}", segs));
      let mut gr = Group::default();
      all_types!(0, 1000, (i, c.thorough), gr, |m| seg_isects(&segs, m));
      let sj: Vec<V> = segs.iter().map(|s| arr![V::from(s.0), s.1, V::from(s.2), s.3]).collect();
      vec![obj! {"op": "all", "segs": V::A(sj), "g": gr.json()}]
    });
  });
}
