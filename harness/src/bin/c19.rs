//! C19: Z-order codes.
use num_bigint::BigInt;
use num_rational::BigRational;
use rand::rngs::SmallRng;
use rand::Rng;
use rgconf::json::V;
use rgconf::rt::{desc, guard, run, Ctx, Group};
use rgconf::sc::*;
use rgconf::*;
use rgeometry::algorithms::zhash::*;
use rgeometry::data::*;

fn w32(a: u32) -> V {
  V::from(vec![(a & 0xffff) as i64, (a >> 16) as i64])
}
fn w64(a: u64) -> V {
  V::from((0..4).map(|k| (a >> (16 * k) & 0xffff) as i64).collect::<Vec<_>>())
}
fn pair(a: u32, b: u32) -> V {
  let mut g = Group::default();
  g.add(
    guard(|| {
      let z = zhash_pair(a, b);
      let u = zunhash_pair(z);
      obj! {"z": w64(z), "un": V::A(vec![w32(u.0), w32(u.1)])}
    }),
    || String::new(),
  );
  obj! {"op": "pair", "a": w32(a), "b": w32(b), "g": g.json()}
}
fn unpair(z: u64) -> V {
  let mut g = Group::default();
  g.add(
    guard(|| {
      let u = zunhash_pair(z);
      obj! {"z": w64(zhash_pair(u.0, u.1)), "un": V::A(vec![w32(u.0), w32(u.1)])}
    }),
    || String::new(),
  );
  obj! {"op": "unpair", "z": w64(z), "g": g.json()}
}
fn word(r: &mut SmallRng) -> u32 {
  match r.gen_range(0..6) {
    0 => 1 << r.gen_range(0..32),
    1 => (1u64 << r.gen_range(0..33)).wrapping_sub(1) as u32,
    2 => !(1 << r.gen_range(0..32)),
    3 => r.gen_range(0..4),
    _ => r.gen(),
  }
}
trait Z: ZHashable + Copy + PartialOrd + std::fmt::Debug + 'static {
  const N: &'static str;
  fn val(r: &mut SmallRng) -> Self;
  /// lo + about `k` times 2^e, within the type
  fn width(r: &mut SmallRng, lo: Self) -> Self;
  fn mid(r: &mut SmallRng, lo: Self, hi: Self) -> Self;
  fn ex(self) -> BigRational;
}
macro_rules! zint {
  ($t:ty, $n:literal) => {
    impl Z for $t {
      const N: &'static str = $n;
      fn val(r: &mut SmallRng) -> $t {
        match r.gen_range(0..6) {
          0 => <$t>::MIN,
          1 => <$t>::MAX,
          2 => 0,
          3 => <$t>::MIN + r.gen_range(0..5),
          _ => r.gen(),
        }
      }
      fn width(r: &mut SmallRng, lo: $t) -> $t {
        // a width next to a power of two, or any
        let e = r.gen_range(0..<$t>::BITS);
        let w: i128 = match r.gen_range(0..4) {
          0 => r.gen_range(0..=<$t>::MAX as i128 - lo as i128),
          1 => <$t>::MAX as i128 - lo as i128,
          _ => ((1i128 << e) + r.gen_range(-2..=2)).max(0),
        };
        (lo as i128 + w).min(<$t>::MAX as i128) as $t
      }
      fn mid(r: &mut SmallRng, lo: $t, hi: $t) -> $t {
        match r.gen_range(0..8) {
          0 => lo,
          1 => hi,
          2 if lo < hi => lo + 1,
          3 if lo < hi => hi - 1,
          4 => {
            // close below a power of two from the lower end
            let w = hi as i128 - lo as i128;
            let e = 1i128 << r.gen_range(0..64);
            (lo as i128 + (e + r.gen_range(-2..=2)).clamp(0, w)) as $t
          }
          _ => r.gen_range(lo..=hi),
        }
      }
      fn ex(self) -> BigRational {
        BigRational::from_integer(BigInt::from(self))
      }
    }
  };
}
zint!(i8, "i8");
zint!(i64, "i64");
zint!(u32, "u32");
zint!(u64, "u64");
impl Z for f64 {
  const N: &'static str = "f64";
  fn val(r: &mut SmallRng) -> f64 {
    match r.gen_range(0..8) {
      0 => f64::MIN,
      1 => f64::MAX / 2.0,
      2 => 0.0,
      3 => f64::MIN_POSITIVE * r.gen_range(1..9) as f64,
      4 => r.gen_range(-8..8) as f64,
      _ => r.gen_range(-1.0..1.0) * 2f64.powi(r.gen_range(-80..80)),
    }
  }
  fn width(r: &mut SmallRng, lo: f64) -> f64 {
    let w = match r.gen_range(0..6) {
      0 => f64::MAX,
      1 => 0.0,
      2 => f64::MIN_POSITIVE,
      3 => r.gen_range(0..100) as f64,
      _ => r.gen_range(0.0..1.0) * 2f64.powi(r.gen_range(-80..80)),
    };
    (lo + w).min(f64::MAX)
  }
  fn mid(r: &mut SmallRng, lo: f64, hi: f64) -> f64 {
    let t = match r.gen_range(0..6) {
      0 => return lo,
      1 => return hi,
      2 => r.gen_range(0.0..1e-9),
      3 => 1.0 - r.gen_range(0.0..1e-9),
      _ => r.gen_range(0.0..1.0),
    };
    let z: f64 = lo * (1.0 - t) + hi * t;
    let z = z.clamp(lo, hi);
    if z == 0.0 { 0.0 } else { z }
  }
  fn ex(self) -> BigRational {
    BigRational::from_float(self).unwrap()
  }
}
fn limbs_of(v: &[BigRational]) -> Option<Vec<V>> {
  let s = scale_common(v);
  // 19 limbs at most: otherwise only keep the order (ranks)
  if s.iter().all(|b| b.bits() < 230) {
    return Some(s.iter().map(big_limbs).collect());
  }
  let mut u = v.to_vec();
  u.sort();
  u.dedup();
  Some(v.iter().map(|x| big_limbs(&BigInt::from(u.binary_search(x).unwrap()))).collect())
}
fn boxed<T: Z>(r: &mut SmallRng) -> V {
  let lo = [T::val(r), T::val(r)];
  let hi = [T::width(r, lo[0]), T::width(r, lo[1])];
  let mut ps: Vec<[T; 2]> = vec![lo, hi];
  for _ in 0..3 {
    // a sub-box and points in it
    let a = [T::mid(r, lo[0], hi[0]), T::mid(r, lo[1], hi[1])];
    let b = [T::mid(r, a[0], hi[0]), T::mid(r, a[1], hi[1])];
    ps.extend([a, b, [T::mid(r, a[0], b[0]), T::mid(r, a[1], b[1])], [a[0], b[1]], [b[0], a[1]]]);
  }
  let flat = |v: &[[T; 2]]| -> Vec<BigRational> { v.iter().flatten().map(|z| z.ex()).collect() };
  desc(|| format!("zhash {} {:?} {:?} {:?}", T::N, lo, hi, ps));
  let mut all = flat(&[lo, hi]);
  all.extend(flat(&ps));
  let l = limbs_of(&all).unwrap();
  let pt = |k: usize| V::A(vec![l[2 * k].clone(), l[2 * k + 1].clone()]);
  let mut g = Group::default();
  g.add(
    guard(|| {
      let key = T::zhash_key(ZHashBox { min_x: &lo[0], max_x: &hi[0], min_y: &lo[1], max_y: &hi[1] });
      V::A(ps.iter().map(|p| w64(T::zhash_fn(key, &Point::new(*p)))).collect())
    }),
    || T::N.to_string(),
  );
  obj! {"op": "box", "lo": pt(0), "hi": pt(1), "ps": V::A((0..ps.len()).map(|k| pt(k + 2)).collect()), "g": g.json()}
}
fn main() {
  run(|c: &Ctx| {
    // every single bit, every pair of bits
    c.par(32 * 32, |i| {
      let (a, b) = (1u32 << (i / 32), 1u32 << (i % 32));
      vec![pair(a, b), pair(a | b, 0), pair(0, !(a | b)), unpair(1 << (i % 64)), unpair(!(1 << (i / 16)))]
    });
    c.par(c.pick(2000, 60000), |i| {
      let mut r = c.rng(190_000_000 + i as u64);
      vec![pair(word(&mut r), word(&mut r)), unpair((word(&mut r) as u64) << 32 | word(&mut r) as u64)]
    });
    c.par(c.pick(12000, 400000), |i| {
      let mut r = c.rng(191_000_000 + i as u64);
      vec![match i % 5 {
        0 => boxed::<i8>(&mut r),
        1 => boxed::<i64>(&mut r),
        2 => boxed::<u32>(&mut r),
        3 => boxed::<u64>(&mut r),
        _ => boxed::<f64>(&mut r),
      }]
    });
  });
}
