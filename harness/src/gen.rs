//! Input generators shared by the drivers (plain i64 geometry; every
//! precondition they promise is re-checked by the specification).
use crate::sc::P2;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, RngCore, SeedableRng};

pub fn grid(w: i64, h: i64) -> Vec<P2> {
  (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect()
}
pub fn sgrid(k: i64) -> Vec<P2> {
  (-k..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).collect()
}
/// Polygons written by TLC (PolyGen), one JSON list of points per line.
pub fn load(path: &Option<String>) -> Vec<Vec<P2>> {
  let Some(path) = path else { return vec![] };
  let mut v: Vec<Vec<P2>> = std::fs::read_to_string(path)
    .unwrap()
    .lines()
    .map(|l| {
      let n: Vec<i64> = l.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
      n.chunks(2).map(|c| (c[0], c[1])).collect()
    })
    .collect();
  v.sort();
  v
}
pub fn det(a: P2, b: P2, c: P2) -> i64 {
  (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn on_seg(p: P2, a: P2, b: P2) -> bool {
  det(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// Closed segments share a point.
pub fn touch(a: P2, b: P2, c: P2, d: P2) -> bool {
  if on_seg(a, c, d) || on_seg(b, c, d) || on_seg(c, a, b) || on_seg(d, a, b) {
    return true;
  }
  let s = |v: i64| v.signum();
  s(det(a, b, c)) * s(det(a, b, d)) < 0 && s(det(c, d, a)) * s(det(c, d, b)) < 0
}
pub fn simple(p: &[P2]) -> bool {
  let n = p.len();
  if n < 3 {
    return false;
  }
  for i in 0..n {
    for j in i + 1..n {
      if p[i] == p[j] {
        return false;
      }
      let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
      if j == i + 1 {
        if on_seg(d, a, b) || on_seg(a, c, d) {
          return false;
        }
      } else if i == 0 && j == n - 1 {
        if on_seg(c, a, b) || on_seg(b, c, d) {
          return false;
        }
      } else if touch(a, b, c, d) {
        return false;
      }
    }
  }
  true
}
pub fn area2(p: &[P2]) -> i64 {
  let n = p.len();
  (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum()
}
pub fn ccw(mut p: Vec<P2>) -> Vec<P2> {
  if area2(&p) < 0 {
    p.reverse();
  }
  p
}
pub fn colinear(p: &[P2]) -> bool {
  p.iter().all(|a| p.iter().all(|b| det(p[0], *a, *b) == 0))
}
pub fn rpt(r: &mut SmallRng, lo: i64, hi: i64) -> P2 {
  (r.gen_range(lo..=hi), r.gen_range(lo..=hi))
}
pub fn distinct(r: &mut SmallRng, n: usize, lo: i64, hi: i64) -> Vec<P2> {
  let mut v: Vec<P2> = vec![];
  let mut tries = 0;
  while v.len() < n && tries < 50 * n + 50 {
    tries += 1;
    let p = rpt(r, lo, hi);
    if !v.contains(&p) {
      v.push(p);
    }
  }
  v
}
/// Random simple polygon with up to n vertices on the grid [0,k]^2: grow a
/// triangle by inserting vertices into edges.
pub fn grow(r: &mut SmallRng, n: usize, k: i64) -> Vec<P2> {
  let mut p = loop {
    let t = [rpt(r, 0, k), rpt(r, 0, k), rpt(r, 0, k)];
    if det(t[0], t[1], t[2]) != 0 {
      break ccw(t.to_vec());
    }
  };
  let mut tries = 0;
  while p.len() < n && tries < 40 * n {
    tries += 1;
    let m = p.len();
    let i = r.gen_range(0..m);
    let v = rpt(r, 0, k);
    let mut q = p.clone();
    q.insert(i + 1, v);
    if simple(&q) {
      p = q;
    }
  }
  p
}
/// Star-shaped polygon around the grid centre.
pub fn star(r: &mut SmallRng, n: usize, k: i64) -> Vec<P2> {
  let c = (k / 2, k / 2);
  let mut v: Vec<P2> = distinct(r, n, 0, k).into_iter().filter(|p| *p != c).collect();
  let half = |p: &P2| if (p.1, p.0) > (c.1, c.0) { 0 } else { 1 };
  v.sort_by(|a, b| half(a).cmp(&half(b)).then(det(c, *b, *a).cmp(&0)));
  v.dedup_by(|a, b| half(a) == half(b) && det(c, *a, *b) == 0);
  v
}
/// Polygon between an upper and a lower x-monotone chain.
pub fn mono(r: &mut SmallRng, n: usize, k: i64) -> Vec<P2> {
  let mut lo = vec![(0, 0)];
  let mut hi = vec![];
  for x in 1..n as i64 {
    if r.gen_bool(0.5) {
      lo.push((x, -r.gen_range(1..=k)));
    } else {
      hi.push((x, r.gen_range(1..=k)));
    }
  }
  lo.push((n as i64, 0));
  hi.reverse();
  lo.extend(hi);
  lo
}
/// Rectangular spiral corridor with t turns.
pub fn spiral(t: usize, w: i64) -> Vec<P2> {
  let (mut x, mut y) = (0i64, 0i64);
  let mut outer = vec![];
  let mut inner = vec![];
  let mut len = (t as i64 + 3) * 2 * w;
  let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
  outer.push((x, y));
  for i in 0..t {
    let d = dirs[i % 4];
    let e = dirs[(i + 1) % 4];
    x += d.0 * len;
    y += d.1 * len;
    outer.push((x, y));
    // offset to the left by w, corner inset
    inner.push((x - d.0 * w + e.0 * w, y - d.1 * w + e.1 * w));
    if i % 2 == 1 {
      len -= 2 * w;
    }
  }
  // close the corridor's end
  let d = dirs[(t + 3) % 4];
  let e = dirs[t % 4];
  let last = *outer.last().unwrap();
  inner.pop();
  outer.push((last.0 + e.0 * w, last.1 + e.1 * w));
  let _ = d;
  inner.reverse();
  outer.extend(inner);
  outer.push((0, w));
  outer
}
/// Comb with t teeth.
pub fn comb(r: &mut SmallRng, t: usize, h: i64) -> Vec<P2> {
  let mut v = vec![(0, 0), (2 * t as i64, 0)];
  for i in (0..t as i64).rev() {
    v.push((2 * i + 2, r.gen_range(2..=h)));
    if i > 0 {
      v.push((2 * i + 1, 1));
    }
  }
  v.push((0, h));
  v
}
/// Insert extra vertices in the middle of edges (straight corners).
pub fn subdivide(r: &mut SmallRng, p: &[P2], prob: f64) -> Vec<P2> {
  let mut v = vec![];
  let n = p.len();
  for i in 0..n {
    let (a, b) = (p[i], p[(i + 1) % n]);
    v.push(a);
    if r.gen_bool(prob) && (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
      v.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
    }
  }
  v
}
/// A strictly convex polygon with up to `m` vertices: primitive vectors in
/// order of angle, summed.
pub fn zonogon(r: &mut SmallRng, m: usize) -> Vec<P2> {
  fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
  }
  let mut k = 2;
  let mut dirs: Vec<P2>;
  loop {
    dirs = (0..=k).flat_map(|y| (-k..=k).map(move |x| (x, y))).filter(|d| gcd(d.0, d.1) == 1 && (d.1 > 0 || d.0 > 0)).collect();
    if 2 * dirs.len() >= m {
      break;
    }
    k += 1;
  }
  shuffle(r, &mut dirs);
  dirs.truncate((m / 2).max(2));
  // half of the directions, by angle, and then their opposites
  dirs.sort_by(|a, b| (b.0 * a.1).cmp(&(a.0 * b.1)));
  let mut p = vec![];
  let mut at = (0, 0);
  for (s, d) in dirs.iter().map(|d| (1, d)).chain(dirs.iter().map(|d| (-1, d))) {
    p.push(at);
    at = (at.0 + s * d.0, at.1 + s * d.1);
  }
  // sometimes a part of it only: every vertex subset is convex
  if r.gen_bool(0.5) {
    let drop = r.gen_range(0..p.len() / 4 + 1);
    for _ in 0..drop {
      p.remove(r.gen_range(0..p.len()));
    }
  }
  let lo = (p.iter().map(|q| q.0).min().unwrap(), p.iter().map(|q| q.1).min().unwrap());
  let p: Vec<P2> = ccw(p.into_iter().map(|q| (q.0 - lo.0, q.1 - lo.1)).collect());
  let s = r.gen_range(0..p.len());
  rotate(&p, s)
}
pub fn rotate(p: &[P2], k: usize) -> Vec<P2> {
  let mut v = p.to_vec();
  let n = v.len();
  v.rotate_left(k % n);
  v
}
/// A random simple counter-clockwise polygon from all families, at most
/// about n vertices, coordinates within [0, 60]; sometimes subdivided.
pub fn any_poly(r: &mut SmallRng, n: usize) -> Vec<P2> {
  loop {
    let m = r.gen_range(3..=n.max(3));
    let mut p = match r.gen_range(0..10) {
      0 => star(r, m, 20),
      1 => star(r, m, 8),
      2 => mono(r, m.min(30), 6),
      3 => spiral((m / 2).clamp(1, 9), 1),
      4 => comb(r, (m / 2).clamp(1, 12), 9),
      5 => grow(r, m, 4),
      6 => grow(r, m, 7),
      7 => grow(r, m, 30),
      8 => {
        let q = grow(r, m, 6).into_iter().map(|p| (2 * p.0, 2 * p.1)).collect::<Vec<_>>();
        subdivide(r, &q, 0.5)
      }
      _ => grow(r, m, 14),
    };
    if r.gen_bool(0.2) {
      p = p.into_iter().map(|p| (p.1, p.0)).collect();
    }
    let mx = p.iter().map(|q| q.0).min().unwrap_or(0);
    let my = p.iter().map(|q| q.1).min().unwrap_or(0);
    let p: Vec<P2> = p.into_iter().map(|q| (q.0 - mx, q.1 - my)).collect();
    if simple(&p) && p.iter().all(|q| q.0 <= 60 && q.1 <= 60) {
      let p = ccw(p);
      let s = r.gen_range(0..p.len());
      return rotate(&p, s);
    }
  }
}
/// Many vertices (about n, at most 240), coordinates within [0, 240].
pub fn big_poly(r: &mut SmallRng, n: usize) -> Vec<P2> {
  loop {
    let p = match r.gen_range(0..7) {
      0 | 1 => star(r, n, 200),
      2 => mono(r, n.min(230), 40),
      3 => spiral((n / 2).clamp(3, 50), 1),
      4 => comb(r, (n / 2).min(118), 40),
      5 => {
        let q: Vec<P2> = star(r, n / 2, 100).into_iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        subdivide(r, &q, 0.7)
      }
      _ => grow(r, n.min(70), 60),
    };
    let mx = p.iter().map(|q| q.0).min().unwrap_or(0);
    let my = p.iter().map(|q| q.1).min().unwrap_or(0);
    let p: Vec<P2> = p.into_iter().map(|q| (q.0 - mx, q.1 - my)).collect();
    if p.len() >= n / 2 && simple(&p) && p.iter().all(|q| q.0 <= 240 && q.1 <= 240) {
      let p = ccw(p);
      let s = r.gen_range(0..p.len());
      return rotate(&p, s);
    }
  }
}
/// A polygon with more than 256 vertices.
pub fn huge(r: &mut SmallRng) -> Vec<P2> {
  loop {
    let n = r.gen_range(280..340);
    let p = star(r, n, 240);
    let mx = p.iter().map(|q| q.0).min().unwrap_or(0);
    let my = p.iter().map(|q| q.1).min().unwrap_or(0);
    let p: Vec<P2> = p.into_iter().map(|q| (q.0 - mx, q.1 - my)).collect();
    if p.len() > 256 && simple(&p) {
      let p = ccw(p);
      let s = r.gen_range(0..p.len());
      return rotate(&p, s);
    }
  }
}
pub fn extent(p: &[P2]) -> i64 {
  p.iter().map(|q| q.0.max(q.1)).max().unwrap_or(1).max(1)
}
pub fn shuffle<T>(r: &mut SmallRng, v: &mut [T]) {
  v.shuffle(r);
}

/// Strictly convex hull (counter-clockwise), by monotone chain.
pub fn hull(pts: &[P2]) -> Vec<P2> {
  let mut p = pts.to_vec();
  p.sort();
  p.dedup();
  let mut h: Vec<P2> = vec![];
  for pass in 0..2 {
    let start = h.len();
    let it: Vec<P2> = if pass == 0 { p.clone() } else { p.iter().rev().copied().collect() };
    for q in it {
      while h.len() >= start + 2 && det(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
        h.pop();
      }
      h.push(q);
    }
    h.pop();
  }
  h
}

/// A random source with a bias: always first / mostly first / mostly last / alternating.
#[derive(Clone)]
pub struct Biased(SmallRng, u32, u64);
impl RngCore for Biased {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    let h = self.0.next_u64();
    self.2 += 1;
    match self.1 {
      0 => 0,
      1 => if h % 8 == 0 { h } else { 0 },
      2 => if h % 8 == 0 { h } else { u64::MAX - (h >> 12) },
      3 => if self.2 % 2 == 0 { h >> 12 } else { u64::MAX - (h >> 12) },
      _ => h,
    }
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    for x in d {
      *x = self.next_u64() as u8;
    }
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(d);
    Ok(())
  }
}
pub fn biased(seed: u64) -> Biased {
  Biased(SmallRng::seed_from_u64(seed), (seed % 6) as u32, 0)
}

/// Passes draws through until the budget is used up, then unwinds: the caller
/// sees the object as it was at that draw.
pub struct Budget<R>(pub R, pub u64);
impl<R: RngCore> RngCore for Budget<R> {
  fn next_u32(&mut self) -> u32 {
    if self.1 == 0 {
      std::panic::resume_unwind(Box::new("budget"));
    }
    self.1 -= 1;
    self.0.next_u32()
  }
  fn next_u64(&mut self) -> u64 {
    if self.1 == 0 {
      std::panic::resume_unwind(Box::new("budget"));
    }
    self.1 -= 1;
    self.0.next_u64()
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    self.0.fill_bytes(d)
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
    self.0.try_fill_bytes(d)
  }
}

pub type B2 = (i128, i128);
pub fn det128(a: B2, b: B2, c: B2) -> i128 {
  (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn simple128(p: &[B2]) -> bool {
  let n = p.len();
  let on = |q: B2, a: B2, b: B2| {
    q.0 >= a.0.min(b.0) && q.0 <= a.0.max(b.0) && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1)
  };
  for i in 0..n {
    let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
    if a == b || (det128(a, b, c) == 0 && (on(c, a, b) || on(a, b, c))) {
      return false;
    }
    for j in i + 2..n {
      if (j + 1) % n == i {
        continue;
      }
      let (c, d) = (p[j], p[(j + 1) % n]);
      let (s, t) = (det128(a, b, c).signum(), det128(a, b, d).signum());
      let (u, v) = (det128(c, d, a).signum(), det128(c, d, b).signum());
      if s * t < 0 && u * v < 0
        || s == 0 && on(c, a, b)
        || t == 0 && on(d, a, b)
        || u == 0 && on(a, c, d)
        || v == 0 && on(b, c, d)
      {
        return false;
      }
    }
  }
  true
}
/// A simple counter-clockwise polygon with features of two very different
/// sizes: a small grid polygon blown up by 2^e, with vertices moved by a little
/// and extra ones inserted next to them.
pub fn two_scale(r: &mut SmallRng, n: usize, e: u32) -> Vec<B2> {
  loop {
    let k0 = r.gen_range(3..=5);
    let g = r.gen_range(1..=4);
    let base = grow(r, k0, g);
    let s = 1i128 << e;
    let spread = [3i128, 12, 100, 1 << (e / 2)][r.gen_range(0..4)];
    let near = |r: &mut SmallRng, q: B2| (q.0 + r.gen_range(-spread..=spread), q.1 + r.gen_range(-spread..=spread));
    let mut p: Vec<B2> = base.iter().map(|q| (q.0 as i128 * s, q.1 as i128 * s)).collect();
    if r.gen() {
      for i in 0..p.len() {
        p[i] = near(r, p[i]);
      }
    }
    if !simple128(&p) {
      continue;
    }
    let mut tries = 0;
    while p.len() < n && tries < 60 {
      tries += 1;
      let i = r.gen_range(0..p.len());
      let j = if r.gen_bool(0.8) { i } else { r.gen_range(0..p.len()) };
      let v = near(r, p[j]);
      let mut q = p.clone();
      q.insert(i + r.gen_range(0..2), v);
      if simple128(&q) {
        p = q;
      }
    }
    let n = p.len();
    let i = (0..n).min_by_key(|i| p[*i]).unwrap();
    if det128(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) < 0 {
      p.reverse();
    }
    let s = r.gen_range(0..n);
    p.rotate_left(s);
    return p;
  }
}
