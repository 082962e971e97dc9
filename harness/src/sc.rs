//! Scalar types under test and the order-preserving embeddings of small
//! abstract integer grids into them.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{FromPrimitive, Signed, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::{Point, Vector};
use rand::rngs::SmallRng;
use rand::Rng;
use rgeometry::PolygonScalar;

pub type P2 = (i64, i64);

/// x' = m0*x + m1*y + t0 ; y' = m2*x + m3*y + t1 ; then the scalar's own
/// post-scaling (`exp` for floats, `den` for rationals).
#[derive(Clone, Debug)]
pub struct Map {
  pub name: String,
  pub m: [i128; 4],
  pub t: [i128; 2],
  pub exp: i32,
  pub den: i64,
  pub sim: bool, // preserves comparisons of distances
  pub trans: bool, // positive scaling of each axis (keeps lexicographic order)
}
impl Map {
  pub fn pt(&self, p: P2) -> [i128; 2] {
    let (x, y) = (p.0 as i128, p.1 as i128);
    [self.m[0] * x + self.m[1] * y + self.t[0], self.m[2] * x + self.m[3] * y + self.t[1]]
  }
  /// Directions: only the linear part.
  pub fn vec(&self, p: P2) -> [i128; 2] {
    let (x, y) = (p.0 as i128, p.1 as i128);
    [self.m[0] * x + self.m[1] * y, self.m[2] * x + self.m[3] * y]
  }
}
fn mk_map(name: &str, m: [i128; 4], t: [i128; 2]) -> Map {
  let sim = m[0] == m[3] && m[1] == -m[2];
  let trans = m[1] == 0 && m[2] == 0 && m[0] > 0 && m[3] > 0;
  assert!(m[0] as f64 * m[3] as f64 - m[1] as f64 * m[2] as f64 > 0.0);
  Map { name: name.to_string(), m, t, exp: 0, den: 1, sim, trans }
}

/// Maps of the grid [lo,hi]^2 into [min,max]^2.
pub fn fixed_maps(lo: i64, hi: i64, min: i128, max: i128) -> Vec<Map> {
  let (lo, hi) = (lo as i128, hi as i128);
  let k = (hi - lo).max(1);
  let span = max - min;
  let mut v = vec![];
  if lo >= min && hi <= max {
    v.push(mk_map("id", [1, 0, 0, 1], [0, 0]));
  }
  let s = span / k;
  if s >= 1 {
    // lower-left corner at (min,max-anchored)
    v.push(mk_map("stretch", [s, 0, 0, s], [min - s * lo, max - s * hi]));
    // rotate by 90 degrees and stretch
    v.push(mk_map("rot", [0, -s, s, 0], [max + s * lo, min - s * lo]));
    // rotate by 180
    v.push(mk_map("rot2", [-s, 0, 0, -s], [max + s * lo, max + s * lo]));
    if lo >= min && hi <= max {
      v.push(mk_map("aniso", [s, 0, 0, 1], [min - s * lo, 0]));
    }
  }
  let h = span / (2 * k);
  if h >= 1 {
    v.push(mk_map("shear", [h, h, 0, h], [min - 2 * h * lo, max - h * hi]));
    if h > 3 {
      v.push(mk_map("shear2", [h, -(h - 1), 3, h], [min + 1 - h * lo + (h - 1) * hi, min - (3 + h) * lo]));
    }
  }
  // ranges in the middle: squares and products just (not) fitting a narrower type
  let bands: Vec<i128> = if span > 1 << 70 { vec![1 << 31, 1 << 63] } else { let b = 127 - (span as u128).leading_zeros(); vec![1 << (b / 2), 1 << ((b + 1) / 2)] };
  for (i, b) in bands.into_iter().enumerate() {
    let s = 2 * b / k;
    if s >= 1 {
      if i == 0 {
        v.push(mk_map("mid", [s, 0, 0, s], [-b - s * lo, b - s * hi]));
      } else {
        v.push(mk_map("midrot", [0, -s, s, 0], [b + s * lo, -b - s * lo]));
      }
    }
  }
  v.retain(|m| {
    [(lo, lo), (lo, hi), (hi, lo), (hi, hi)].iter().all(|c| m.pt((c.0 as i64, c.1 as i64)).iter().all(|z| *z >= min && *z <= max))
  });
  v
}
pub fn float_maps(lo: i64, hi: i64, bits: u32) -> Vec<Map> {
  let lim = 1i128 << (bits - 1);
  let mut v = fixed_maps(lo, hi, -lim, lim - 1);
  let k = (hi - lo).max(1) as i128;
  let mut add = |name: &str, m: [i128; 4], t: [i128; 2], exp: i32| {
    let mut mm = mk_map(name, m, t);
    mm.exp = exp;
    v.push(mm);
  };
  let one = [1, 0, 0, 1];
  // both zeros, in turn
  add("zeros", one, [0, 0], 0);
  add("tiny", one, [0, 0], if bits > 30 { -300 } else { -40 });
  add("huge", one, [-(lo as i128), 0], if bits > 30 { 300 } else { 40 });
  // the least numbers of the type, and nearly the largest
  add("least", one, [-(lo as i128), 0], if bits > 30 { -1074 } else { -149 });
  add("most", one, [0, 0], if bits > 30 { 960 } else { 100 });
  add("offset", one, [lim - 1 - hi as i128, -(lim - 1) - lo as i128], -((bits / 2) as i32));
  add("tenth", [3, -1, 1, 3], [lim / (8 * k), 7], -((bits / 3) as i32));
  v
}

fn wild_big(r: &mut SmallRng) -> BigInt {
  let v: i128 = match r.gen_range(0..6) {
    0 => r.gen_range(-3..=3),
    1 => i64::MIN as i128 + r.gen_range(-1..=1),
    2 => i64::MAX as i128 + r.gen_range(-1..=1),
    3 => (1i128 << 64) + r.gen_range(-1..=1),
    _ => r.gen_range(-(1i128 << 120)..(1i128 << 120)),
  };
  let b = BigInt::from(v);
  if r.gen_bool(0.2) {
    b << r.gen_range(0..60)
  } else {
    b
  }
}

pub trait Sc: PolygonScalar + std::fmt::Debug + Send + Sync + 'static {
  const NAME: &'static str;
  fn maps(lo: i64, hi: i64) -> Vec<Map>;
  fn mk(v: i128, m: &Map) -> Self;
  /// Range of integers exactly representable.
  const LO: i128;
  const HI: i128;
  /// An arbitrary value, often at the extremes of the type.
  fn wild(r: &mut SmallRng) -> Self;
  /// The integer v (within LO..=HI), scaled by an exponent or denominator chosen by `style`.
  fn scaled(v: i128, style: u32) -> Self;
  /// The exact value of the scalar.
  fn exact(&self) -> BigRational;
  /// A scalar next to an exact value, if there is one.
  fn near(v: &BigRational) -> Option<Self>;
}
macro_rules! fixed {
  ($t:ty, $n:literal) => {
    impl Sc for $t {
      const NAME: &'static str = $n;
      fn maps(lo: i64, hi: i64) -> Vec<Map> {
        fixed_maps(lo, hi, <$t>::MIN as i128, <$t>::MAX as i128)
      }
      fn mk(v: i128, _m: &Map) -> Self {
        <$t>::try_from(v).expect("map out of range")
      }
      const LO: i128 = <$t>::MIN as i128;
      const HI: i128 = <$t>::MAX as i128;
      fn wild(r: &mut SmallRng) -> Self {
        match r.gen_range(0..10) {
          0 => <$t>::MIN,
          1 => <$t>::MAX,
          2 => <$t>::MIN + 1,
          3 => <$t>::MAX - 1,
          4 => r.gen_range(-2..=2),
          5 => <$t>::MIN / 2 + r.gen_range(-1..=1),
          6 => <$t>::MAX / 2 + r.gen_range(-1..=1),
          7 => (1 as $t) << r.gen_range(0..<$t>::BITS - 1),
          _ => r.gen(),
        }
      }
      fn scaled(v: i128, _style: u32) -> Self {
        <$t>::try_from(v).unwrap()
      }
      fn exact(&self) -> BigRational {
        BigRational::from_integer(BigInt::from(*self))
      }
      fn near(v: &BigRational) -> Option<Self> {
        <$t>::try_from(v.round().to_integer()).ok()
      }
    }
  };
}
fixed!(i8, "i8");
fixed!(i16, "i16");
fixed!(i32, "i32");
fixed!(i64, "i64");
fixed!(isize, "isize");
fn big_maps(lo: i64, hi: i64) -> Vec<Map> {
  fixed_maps(lo, hi, -1_000_000_000_000_000_000_000_000_000_003, 1_000_000_000_000_000_000_000_000_000_007)
}
impl Sc for BigInt {
  const NAME: &'static str = "BigInt";
  fn maps(lo: i64, hi: i64) -> Vec<Map> {
    big_maps(lo, hi)
  }
  fn mk(v: i128, _m: &Map) -> Self {
    BigInt::from(v)
  }
  const LO: i128 = -(1 << 100);
  const HI: i128 = 1 << 100;
  fn wild(r: &mut SmallRng) -> Self {
    wild_big(r)
  }
  fn scaled(v: i128, _style: u32) -> Self {
    BigInt::from(v)
  }
  fn exact(&self) -> BigRational {
    BigRational::from_integer(self.clone())
  }
  fn near(v: &BigRational) -> Option<Self> {
    Some(v.round().to_integer())
  }
}
impl Sc for rug::Integer {
  const NAME: &'static str = "rug";
  fn maps(lo: i64, hi: i64) -> Vec<Map> {
    big_maps(lo, hi)
  }
  fn mk(v: i128, _m: &Map) -> Self {
    rug::Integer::from(v)
  }
  const LO: i128 = -(1 << 100);
  const HI: i128 = 1 << 100;
  fn wild(r: &mut SmallRng) -> Self {
    wild_big(r).to_string().parse().unwrap()
  }
  fn scaled(v: i128, _style: u32) -> Self {
    rug::Integer::from(v)
  }
  fn exact(&self) -> BigRational {
    BigRational::from_integer(self.to_string().parse::<BigInt>().unwrap())
  }
  fn near(v: &BigRational) -> Option<Self> {
    Some(v.round().to_integer().to_string().parse().unwrap())
  }
}
impl Sc for BigRational {
  const NAME: &'static str = "BigRational";
  fn maps(lo: i64, hi: i64) -> Vec<Map> {
    let mut v = big_maps(lo, hi);
    for (i, m) in v.iter_mut().enumerate() {
      m.den = [1, 7, 12, 1_000_003, 2, 30][i % 6];
    }
    v
  }
  fn mk(v: i128, m: &Map) -> Self {
    BigRational::new(BigInt::from(v), BigInt::from(m.den))
  }
  const LO: i128 = -(1 << 100);
  const HI: i128 = 1 << 100;
  fn wild(r: &mut SmallRng) -> Self {
    let d = [1, 2, 3, 7, 64, 255][r.gen_range(0..6)];
    BigRational::new(wild_big(r), BigInt::from(d))
  }
  fn scaled(v: i128, style: u32) -> Self {
    BigRational::new(BigInt::from(v), BigInt::from([1, 3, 1024, 999][style as usize % 4]))
  }
  fn exact(&self) -> BigRational {
    self.clone()
  }
  fn near(v: &BigRational) -> Option<Self> {
    let d = BigRational::from_integer(BigInt::from(420));
    Some((v * &d).round() / d)
  }
}
pub fn f64_of(v: i128, exp: i32) -> f64 {
  let f = v as f64;
  debug_assert!(f as i128 == v);
  f * 2f64.powi(exp / 2) * 2f64.powi(exp - exp / 2)
}
pub fn f32_of(v: i128, exp: i32) -> f32 {
  let f = v as f32;
  debug_assert!(f as i128 == v);
  f * 2f32.powi(exp / 2) * 2f32.powi(exp - exp / 2)
}
/// Floats have two zeros, which are one number.
fn odd_zero() -> bool {
  thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
  N.with(|n| {
    n.set(n.get().wrapping_mul(1664525).wrapping_add(1013904223));
    n.get() >> 16 & 1 == 1
  })
}
macro_rules! float {
  ($t:ty, $n:literal, $bits:literal, $of:ident, $wrap:expr, $un:expr) => {
    impl Sc for $t {
      const NAME: &'static str = $n;
      fn maps(lo: i64, hi: i64) -> Vec<Map> {
        float_maps(lo, hi, $bits)
      }
      fn mk(v: i128, m: &Map) -> Self {
        if v == 0 && m.name == "zeros" && odd_zero() {
          return $wrap(-$of(0, 0));
        }
        $wrap($of(v, m.exp))
      }
      const LO: i128 = -(1 << $bits);
      const HI: i128 = 1 << $bits;
      fn wild(r: &mut SmallRng) -> Self {
        let v: i128 = match r.gen_range(0..5) {
          0 => r.gen_range(-3..=3),
          1 => Self::LO + r.gen_range(0..3),
          2 => Self::HI - r.gen_range(0..3),
          _ => r.gen_range(Self::LO..=Self::HI),
        };
        // never -0.0; exponents spread far enough to defeat plain rounding
        let e = if r.gen_bool(0.5) { 0 } else { r.gen_range(-40..40) };
        if v == 0 { $wrap($of(0, 0)) } else { $wrap($of(v, e)) }
      }
      fn scaled(v: i128, style: u32) -> Self {
        // the whole range of the type, from its least number on
        let far = if $bits > 30 { [-1074, 960, -540, 480] } else { [-149, 100, -70, 60] };
        $wrap($of(v, [0, -20, 30, -1, far[0], far[1], far[2], far[3]][style as usize % 8]))
      }
      fn exact(&self) -> BigRational {
        BigRational::from_float($un(*self)).unwrap()
      }
      fn near(v: &BigRational) -> Option<Self> {
        // towards the nearest multiple of a power of two with $bits bits
        let (mut v, mut e) = (v.clone(), 0i32);
        let (two, top) = (BigRational::from_i32(2).unwrap(), BigRational::from_integer(BigInt::from(Self::HI)));
        while v.abs() >= top {
          v /= &two;
          e += 1;
        }
        while !v.is_zero() && v.abs() * &two < top && e > -120 {
          v *= &two;
          e -= 1;
        }
        let v = v.round().to_integer().to_i128().unwrap();
        (e.abs() < 110).then(|| if v == 0 { $wrap($of(0, 0)) } else { $wrap($of(v, e)) })
      }
    }
  };
}
float!(f64, "f64", 53, f64_of, |x| x, |x| x);
float!(f32, "f32", 24, f32_of, |x| x, |x| x);
float!(OrderedFloat<f64>, "OrderedFloat<f64>", 53, f64_of, OrderedFloat, |x: OrderedFloat<f64>| x.0);
float!(OrderedFloat<f32>, "OrderedFloat<f32>", 24, f32_of, OrderedFloat, |x: OrderedFloat<f32>| x.0);
float!(NotNan<f64>, "NotNan<f64>", 53, f64_of, |x| NotNan::new(x).unwrap(), |x: NotNan<f64>| x.into_inner());
float!(NotNan<f32>, "NotNan<f32>", 24, f32_of, |x| NotNan::new(x).unwrap(), |x: NotNan<f32>| x.into_inner());

pub fn mkp<T: Sc>(p: P2, m: &Map) -> Point<T> {
  let [x, y] = m.pt(p);
  Point::new([T::mk(x, m), T::mk(y, m)])
}
pub fn mkps<T: Sc>(ps: &[P2], m: &Map) -> Vec<Point<T>> {
  ps.iter().map(|p| mkp(*p, m)).collect()
}
pub fn mkv<T: Sc>(p: P2, m: &Map) -> Vector<T, 2> {
  let [x, y] = m.vec(p);
  Vector([T::mk(x, m), T::mk(y, m)])
}
/// Map a result point back to the abstract grid point it came from.
pub fn back<T: Sc>(p: &Point<T>, abs: &[P2], m: &Map) -> Option<P2> {
  abs.iter().copied().find(|a| {
    let q: Point<T> = mkp(*a, m);
    q == *p
  })
}

/// Exact rational list -> common scale integers -> limb lists <<sign, l0, l1, ...>> base 10^4.
pub fn big_limbs(b: &BigInt) -> crate::json::V {
  use crate::json::V;
  let sign = if b.is_zero() {
    0
  } else if b.is_negative() {
    -1
  } else {
    1
  };
  let mut v = vec![V::I(sign)];
  let mut a = b.abs();
  let base = BigInt::from(10000);
  while !a.is_zero() {
    let r = &a % &base;
    v.push(V::I(r.to_i64().unwrap()));
    a /= &base;
  }
  V::A(v)
}
pub fn scale_common(vals: &[BigRational]) -> Vec<BigInt> {
  let mut l = BigInt::from_i32(1).unwrap();
  for v in vals {
    l = num_integer::Integer::lcm(&l, v.denom());
  }
  // also divide by the common gcd to keep numbers short
  let ints: Vec<BigInt> = vals.iter().map(|v| (v * BigRational::from_integer(l.clone())).to_integer()).collect();
  let mut g = BigInt::zero();
  for i in &ints {
    g = num_integer::Integer::gcd(&g, i);
  }
  if g.is_zero() {
    ints
  } else {
    ints.into_iter().map(|i| i / &g).collect()
  }
}

static THIN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// Types that compare directions through exact rationals take part in about
/// one of `k` cases only.
pub fn thin(k: usize) {
  THIN.store(k, std::sync::atomic::Ordering::Relaxed);
}
/// Types whose direction predicates go through exact rationals.
pub fn slow_dirs<T: Sc>() -> bool {
  T::NAME == "BigRational" || T::NAME.contains("f32") || T::NAME.contains("f64")
}
/// The maps used for one case: all of them when `all`, otherwise a rotating
/// choice of two (one for the slow arbitrary precision types).
pub fn some_maps<T: Sc>(lo: i64, hi: i64, salt: usize, all: bool) -> Vec<Map> {
  let thin = THIN.load(std::sync::atomic::Ordering::Relaxed);
  if thin > 1 && slow_dirs::<T>() {
    let h = T::NAME.bytes().fold(salt, |h, b| h.wrapping_mul(31).wrapping_add(b as usize));
    if h.wrapping_mul(0x9E3779B97F4A7C15) >> 33 & 0xffff > 0xffff / thin {
      return vec![];
    }
  }
  let mut v = T::maps(lo, hi);
  let slow = matches!(T::NAME, "BigInt" | "BigRational" | "rug");
  let keep = match (all, slow) {
    (true, false) => v.len(),
    (false, true) => 1,
    _ => 2,
  };
  let n = v.len();
  if n > keep {
    v.rotate_left(salt.wrapping_mul(2654435761) / 64 % n);
    v.truncate(keep);
  }
  v
}

/// Three points (six numbers) of type T: wild, or nearly colinear.
pub fn wild3<T: Sc>(r: &mut SmallRng) -> [[T; 2]; 3] {
  let band = r.gen_bool(0.4);
  if !band && r.gen_bool(0.5) {
    return [0; 3].map(|_| [T::wild(r), T::wild(r)]);
  }
  let style = r.gen();
  let (mut lo, mut hi) = (T::LO, T::HI);
  if band {
    // numbers of one magnitude: sums, differences and products around the
    // limits of narrower types
    let top = 127 - (hi as u128).leading_zeros();
    let b = if r.gen_bool(0.5) { [top / 2, (top + 1) / 2, top / 2 + 1, top / 4, 7, 15, 16, 31, 32, 24, 26, 27][r.gen_range(0..12)].min(top) } else { r.gen_range(1..=top) };
    lo = lo.max(-(1 << b));
    hi = hi.min(1 << b);
    if r.gen_bool(0.6) {
      let mut one = || match r.gen_range(0..8) {
        0 => lo,
        1 => hi,
        2 => lo + 1,
        3 => hi - 1,
        4 => 0,
        5 => r.gen_range(-2..=2i128).clamp(lo, hi),
        _ => r.gen_range(lo..=hi),
      };
      return [0; 3].map(|_| [one(), one()].map(|v| T::scaled(v, style)));
    }
  }
  loop {
    // p, p + a d, p + b d + eps
    let k = [hi / 2, hi / 300 + 1, 5][r.gen_range(0..3)];
    let p = [r.gen_range(lo..=hi), r.gen_range(lo..=hi)];
    let d = [r.gen_range(-k..=k), r.gen_range(-k..=k)];
    let (a, b) = (r.gen_range(-4..=4i128), r.gen_range(-4..=4i128));
    let q = [p[0] + a * d[0], p[1] + a * d[1]];
    let e = [r.gen_range(-1..=1i128), r.gen_range(-1..=1i128)];
    let s = [p[0] + b * d[0] + e[0], p[1] + b * d[1] + e[1]];
    if [p, q, s].iter().flatten().all(|v| *v >= lo && *v <= hi) {
      return [p, q, s].map(|z| z.map(|v| T::scaled(v, style)));
    }
  }
}
/// What `close` makes nearly equal.
pub const TURN: usize = 0;
pub const ALONG: usize = 1;
pub const VECTOR: usize = 2;
pub const PERP: usize = 3;
pub const DIST: usize = 4;
/// Points p, q, s and a direction d within rounding of a tie: of the turn p q s and of the angles around
/// p from d, of the projections of q and s on d, of the turn of p, d (or its perpendicular) and s, or of
/// the distances of q and s from p.  Unlike in `wild3` differences round as well.
pub fn close<T: Sc>(r: &mut SmallRng, kind: usize) -> ([[T; 2]; 3], [T; 2]) {
  let rat = |v: i128| BigRational::from_integer(BigInt::from(v));
  let top = 127 - (T::HI as u128).leading_zeros();
  if r.gen_bool(0.5) {
    return wide(r, kind, top);
  }
  loop {
    let b = if r.gen_bool(0.5) { top - r.gen_range(0..3) } else { r.gen_range(2..=top) };
    let spread = if r.gen_bool(0.5) { 1 } else { 12 };
    let one = |b: u32, r: &mut SmallRng| {
      let v = rat(r.gen_range(-(1i128 << b)..=1 << b));
      let e = rat(1 << r.gen_range(0..spread));
      T::near(&if r.gen_bool(0.5) { v / e } else { v * e })
    };
    let vals: Vec<Option<T>> = (0..6).map(|i| if i < 4 { one(b, r) } else { let c = if r.gen_bool(0.5) { b } else { r.gen_range(1..=top) }; one(c, r) }).collect();
    let Some(vals) = vals.into_iter().collect::<Option<Vec<T>>>() else { continue };
    let x: Vec<BigRational> = vals.iter().map(|v| v.exact()).collect();
    let (p, q, mut d) = ([&x[0], &x[1]], [&x[2], &x[3]], [x[4].clone(), x[5].clone()]);
    if d.iter().all(|c| c.is_zero()) {
      continue;
    }
    let t = BigRational::new(BigInt::from(r.gen_range(-1i64 << 20..1 << 20)), BigInt::from([1i64 << 20, 1 << 19, 1 << 21, 999_983, 1, 1 << 10][r.gen_range(0..6)]));
    let s = match kind {
      TURN => {
        let v = [q[0] - p[0], q[1] - p[1]];
        if r.gen_bool(0.7) {
          d = [&v[0] * &t, &v[1] * &t];
        }
        let u = BigRational::new(BigInt::from(r.gen_range(-2000..2000)), BigInt::from(1000));
        [p[0] + &v[0] * &u, p[1] + &v[1] * &u]
      }
      ALONG => [q[0] - &d[1] * &t, q[1] + &d[0] * &t],
      VECTOR => [p[0] + &d[0] * &t, p[1] + &d[1] * &t],
      PERP => [p[0] - &d[1] * &t, p[1] + &d[0] * &t],
      _ => {
        // a rational point of the unit circle
        let (m, n) = (rat(r.gen_range(-50..=50)), rat(r.gen_range(1..=50)));
        let h = &m * &m + &n * &n;
        let (c, z) = ((&m * &m - &n * &n) / &h, rat(2) * &m * &n / &h);
        let v = [q[0] - p[0], q[1] - p[1]];
        [p[0] + &c * &v[0] - &z * &v[1], p[1] + &z * &v[0] + &c * &v[1]]
      }
    };
    let near = |v: &[BigRational; 2]| Some([T::near(&v[0])?, T::near(&v[1])?]);
    let (Some(s), Some(d)) = (near(&s), near(&d)) else { continue };
    if d[0] == T::from_constant(0) && d[1] == T::from_constant(0) {
      continue;
    }
    return ([[vals[0].clone(), vals[1].clone()], [vals[2].clone(), vals[3].clone()], s], d);
  }
}
/// As `close`, with integers whose differences are wider than the type and that miss a tie by at most two units.
fn wide<T: Sc>(r: &mut SmallRng, kind: usize, top: u32) -> ([[T; 2]; 3], [T; 2]) {
  let style = r.gen_range(0..4);
  loop {
    let c = r.gen_range(1..=top - 2);
    let mut d = [r.gen_range(-(1i128 << c)..=1 << c), r.gen_range(-(1i128 << c)..=1 << c)];
    // often both differences are just too wide, where rounding is worst
    let worst = r.gen_bool(0.6);
    if worst {
      let n = d[0].abs();
      d[1] = r.gen_range(n - n / 8..=n + n / 8) * if r.gen_bool(0.5) { 1 } else { -1 };
    }
    let m = d[0].abs().max(d[1].abs());
    if m == 0 {
      continue;
    }
    // the far point is k times the direction away
    let k = ((1i128 << (top + 1)) - r.gen_range(if worst { 3i128 << (top - 2) } else { 0 }..1i128 << top)) / m;
    let k = if r.gen_bool(0.5) { k } else { -k };
    let dir = if kind == ALONG || kind == PERP { [-d[1], d[0]] } else { d };
    let mut tiny = || [r.gen_range(-2..=2i128), r.gen_range(-2..=2i128)];
    let (e, f) = (tiny(), tiny());
    let off = if top > 12 { 500 } else { 2 };
    let far = [k * dir[0], k * dir[1]];
    let base = [-far[0] / 2 + r.gen_range(-off..=off), -far[1] / 2 + r.gen_range(-off..=off)];
    let end = [base[0] + far[0] + e[0], base[1] + far[1] + e[1]];
    let h = r.gen_range(-k.abs()..=k.abs());
    let x = match kind {
      TURN => [base, [base[0] + h * d[0] + f[0], base[1] + h * d[1] + f[1]], end],
      ALONG => [f, base, end],
      DIST => {
        let (m, n) = (r.gen_range(1..=6i128), r.gen_range(0..=6i128));
        let g = m * m + n * n;
        let (cx, cy) = (m * m - n * n, 2 * m * n);
        let l = (1i128 << (top + 1)) / g / 2;
        let v = [r.gen_range(-l..=l), r.gen_range(-l..=l)];
        let p = [r.gen_range(-l..=l), r.gen_range(-l..=l)];
        d = [1, 0];
        [p, [p[0] + g * v[0], p[1] + g * v[1]], [p[0] + cx * v[0] - cy * v[1] + e[0], p[1] + cy * v[0] + cx * v[1] + e[1]]]
      }
      _ => [base, f, end],
    };
    if x.iter().flatten().all(|v| *v >= T::LO && *v <= T::HI) {
      return (x.map(|z| z.map(|v| T::scaled(v, style))), d.map(|v| T::scaled(v, style)));
    }
  }
}
/// Exact values of some scalars as integers over a common scale, in limbs.
pub fn limbs<T: Sc>(vals: &[T]) -> Vec<crate::json::V> {
  let ex: Vec<BigRational> = vals.iter().map(|v| v.exact()).collect();
  scale_common(&ex).iter().map(big_limbs).collect()
}
pub fn ord(o: std::cmp::Ordering) -> i64 {
  o as i64
}
pub fn orient(o: rgeometry::Orientation) -> i64 {
  match o {
    rgeometry::Orientation::CounterClockWise => 1,
    rgeometry::Orientation::ClockWise => -1,
    rgeometry::Orientation::CoLinear => 0,
  }
}

/// Run `$f::<T>($args...)` for the two float types.
#[macro_export]
macro_rules! each_float {
  (|$name:ident| $f:ident ( $($a:expr),* )) => {
    $crate::each_type!(@ $name, $f, ($($a),*), [f32, f64])
  };
}
/// Run `$f::<T>($args...)` for every scalar type (no embedding).
#[macro_export]
macro_rules! each_type {
  (|$name:ident| $f:ident ( $($a:expr),* )) => {
    $crate::each_type!(@ $name, $f, ($($a),*),
      [i8, i16, i32, i64, isize, num_bigint::BigInt, num_rational::BigRational, rug::Integer, f32, f64,
       ordered_float::OrderedFloat<f32>, ordered_float::OrderedFloat<f64>, ordered_float::NotNan<f32>, ordered_float::NotNan<f64>])
  };
  (@ $name:ident, $f:ident, $args:tt, [$($t:ty),*]) => {
    $( { let $name = <$t as $crate::sc::Sc>::NAME; let _ = $name; $crate::all_types!(@call $f, $t, $args); } )*
  };
}

/// Run `$f::<T>(&map, $args...)` for every scalar type and a choice of maps;
/// `$sel` is `(salt, all)`.
#[macro_export]
macro_rules! all_types {
  ($lo:expr, $hi:expr, $sel:expr, $group:expr, |$m:ident| $f:ident ( $($a:expr),* )) => {
    $crate::all_types!(@ $lo, $hi, $sel, $group, $m, $f, ($($a),*),
      [i8, i16, i32, i64, isize, num_bigint::BigInt, num_rational::BigRational, rug::Integer, f32, f64,
       ordered_float::OrderedFloat<f32>, ordered_float::OrderedFloat<f64>, ordered_float::NotNan<f32>, ordered_float::NotNan<f64>])
  };
  (@ $lo:expr, $hi:expr, $sel:expr, $group:expr, $m:ident, $f:ident, $args:tt, [$($t:ty),*]) => {
    $( for $m in $crate::sc::some_maps::<$t>($lo, $hi, $sel.0, $sel.1).iter() {
      let r = $crate::rt::guard(|| $crate::all_types!(@call $f, $t, $args));
      $group.add(r, || format!("{}/{}", <$t as $crate::sc::Sc>::NAME, $m.name));
    } )*
  };
  (@call $f:ident, $t:ty, ($($a:expr),*)) => { $f::<$t>($($a),*) };
}

///////////////////////////////////////////////////////////////////////////////
// Polygons whose boundary does not visit the vertices in storage order

fn shuffled_ring(n: usize, style: usize) -> Option<rgeometry::data::Polygon<i64>> {
  use rand::SeedableRng;
  let mut r = SmallRng::seed_from_u64((n * 16 + style) as u64);
  for _ in 0..20 {
    let mut ps = crate::gen::star(&mut r, n, (n as i64).max(6) * 3);
    if ps.len() != n || crate::gen::colinear(&ps) {
      continue;
    }
    let mk = |ps: &[P2]| ps.iter().map(|p| Point::new([p.0, p.1])).collect::<Vec<Point<i64>>>();
    if style % 4 == 1 || n > 30 {
      ps.reverse();
      return rgeometry::data::Polygon::new(mk(&ps)).ok();
    }
    crate::gen::shuffle(&mut r, &mut ps);
    return rgeometry::algorithms::polygonization::two_opt_moves(mk(&ps), &mut r).ok();
  }
  None
}
/// A polygon with boundary `q`. The order in which its boundary visits the
/// stored vertices is the storage order (style 0 mod 4), its reverse (1), or
/// arbitrary, as untangling leaves it.
pub fn arranged<T: Sc>(q: &[Point<T>], style: usize) -> rgeometry::data::Polygon<T> {
  use rgeometry::data::{Polygon, PointId};
  use std::cell::RefCell;
  use std::collections::HashMap;
  thread_local! {
    static RINGS: RefCell<HashMap<(usize, usize), Option<Polygon<i64>>>> = RefCell::new(HashMap::new());
  }
  let n = q.len();
  let style = style % 16;
  if n < 3 || style % 4 == 0 {
    return Polygon::new_unchecked(q.to_vec());
  }
  let base = RINGS.with(|m| {
    m.borrow_mut()
      .entry((n, style))
      .or_insert_with(|| std::panic::catch_unwind(|| shuffled_ring(n, style)).ok().flatten())
      .clone()
  });
  let made = base.and_then(|b| {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      let mut p: Polygon<T> = b.map(|_| q[0].array[0].clone());
      let ids: Vec<PointId> = p.boundary_slice().to_vec();
      let mut at = vec![usize::MAX; n];
      for (k, id) in ids.iter().enumerate() {
        at[id.usize()] = k;
      }
      for (i, pt) in p.iter_mut().enumerate() {
        *pt = q[at[i]].clone();
      }
      let ring: Vec<Point<T>> = p.iter_boundary().map(|c| c.point().clone()).collect();
      assert!(ring == q);
      p
    }))
    .ok()
  });
  // building such a polygon is judged by the checks of those operations
  made.unwrap_or_else(|| Polygon::new_unchecked(q.to_vec()))
}
