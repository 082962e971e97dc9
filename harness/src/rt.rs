//! Runtime of the conformance drivers: parallel case runner, panic capture,
//! watchdog (stalls and memory growth become "hang" events).
use crate::json::V;
use crate::obj;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    LIVE.fetch_add(l.size() as i64, Relaxed);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as i64, Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
    System.realloc(p, l, n)
  }
}

pub const MAXT: usize = 16;
static STARTS: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static DESCS: [Mutex<String>; MAXT] = [const { Mutex::new(String::new()) }; MAXT];
static LINES: Mutex<Vec<(usize, Vec<String>)>> = Mutex::new(Vec::new());
thread_local! { static DEPTH: Cell<u32> = const { Cell::new(0) }; static SLOT: Cell<usize> = const { Cell::new(0) };
  static LASTMSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Tenths of a second, counted by the watchdog: a pause of the whole process is not counted.
static TICK: AtomicU64 = AtomicU64::new(1);
/// The current thread starts a unit of work that must end within a minute.
fn begin() {
  let slot = SLOT.with(|s| s.get());
  if STARTS[slot].load(SeqCst) != 0 {
    STARTS[slot].store(TICK.load(SeqCst), SeqCst);
  }
}

pub struct Ctx {
  pub seed: u64,
  pub thorough: bool,
  pub out: String,
  pub polys: Option<String>,
  base: AtomicUsize,
}

/// Describe what the current thread is about to run (used for hang events).
pub fn desc(s: impl FnOnce() -> String) {
  let slot = SLOT.with(|s| s.get());
  *DESCS[slot].lock().unwrap() = s();
}

pub fn init_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if DEPTH.with(|d| d.get()) == 0 {
      eprintln!("driver panic: {} @ {}", msg, loc);
    }
    LASTMSG.with(|m| *m.borrow_mut() = format!("{} @ {}", msg.chars().take(120).collect::<String>(), loc));
  }));
}

/// Run code under test: {st:"ok", v} or {st:"panic", msg}.
pub fn guard(f: impl FnOnce() -> V) -> V {
  begin();
  DEPTH.with(|d| d.set(d.get() + 1));
  let r = catch_unwind(AssertUnwindSafe(f));
  DEPTH.with(|d| d.set(d.get() - 1));
  match r {
    Ok(v) => obj! {"st": "ok", "v": v},
    Err(_) => obj! {"st": "panic", "msg": LASTMSG.with(|m| m.borrow().clone())},
  }
}

/// Entry point of every driver: `<bin> <out> <quick|thorough> <seed> [polys]`.
pub fn run(f: impl FnOnce(&Ctx)) {
  let a: Vec<String> = std::env::args().collect();
  let ctx = Ctx::new(a[3].parse().unwrap(), a[2] == "thorough", a[1].clone(), a.get(4).cloned());
  init_panic_hook();
  ctx.watchdog();
  f(&ctx);
  ctx.finish();
}

impl Ctx {
  pub fn new(seed: u64, thorough: bool, out: String, polys: Option<String>) -> Ctx {
    Ctx { seed, thorough, out, polys, base: AtomicUsize::new(0) }
  }
  pub fn pick(&self, quick: usize, thorough: usize) -> usize {
    if self.thorough {
      thorough
    } else {
      quick
    }
  }
  pub fn rng(&self, salt: u64) -> rand::rngs::SmallRng {
    use rand::SeedableRng;
    rand::rngs::SmallRng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03))
  }
  /// Run `n` independent cases in parallel; every case yields trace lines.
  pub fn par(&self, n: usize, f: impl Fn(usize) -> Vec<V> + Sync) {
    let next = AtomicUsize::new(0);
    let base = self.base.load(SeqCst);
    let threads = 8;
    std::thread::scope(|sc| {
      for slot in 0..threads {
        let (next, f) = (&next, &f);
        std::thread::Builder::new()
          .stack_size(64 << 20)
          .spawn_scoped(sc, move || {
            SLOT.with(|s| s.set(slot));
            loop {
              let i = next.fetch_add(1, SeqCst);
              if i >= n {
                break;
              }
              STARTS[slot].store(TICK.load(SeqCst), SeqCst);
              let vs = f(i);
              STARTS[slot].store(0, SeqCst);
              let ls: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
              LINES.lock().unwrap().push((base + i, ls));
            }
          })
          .unwrap();
      }
    });
    self.base.store(base + n, SeqCst);
  }
  pub fn watchdog(&self) {
    let out = self.out.clone();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(100));
      let now = TICK.fetch_add(1, SeqCst) + 1;
      let mem = LIVE.load(Relaxed);
      for slot in 0..MAXT {
        let s = STARTS[slot].load(SeqCst);
        if s != 0 && (now > s + 600 || (mem > (9i64 << 30) && now > s + 20)) {
          let d = DESCS[slot].lock().unwrap().clone();
          let mut lines = LINES.lock().unwrap();
          lines.push((usize::MAX, vec![obj! {"op":"hang","what": d}.to_string()]));
          write_lines(&out, &mut lines);
          std::process::exit(0);
        }
      }
    });
  }
  pub fn finish(&self) {
    let mut lines = LINES.lock().unwrap();
    write_lines(&self.out, &mut lines);
  }
}
fn write_lines(out: &str, lines: &mut Vec<(usize, Vec<String>)>) {
  lines.sort_by_key(|x| x.0);
  let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
  for (_, ls) in lines.iter() {
    for l in ls {
      writeln!(w, "{}", l).unwrap();
    }
  }
  w.flush().unwrap();
}

/// Distinct results of one abstract input over all scalar types and maps.
#[derive(Default)]
pub struct Group {
  list: Vec<(String, V, Vec<String>, usize)>,
}
impl Group {
  pub fn add(&mut self, r: V, who: impl FnOnce() -> String) {
    let key = r.to_string();
    for e in self.list.iter_mut() {
      if e.0 == key {
        e.3 += 1;
        if e.2.len() < 3 {
          e.2.push(who());
        }
        return;
      }
    }
    self.list.push((key, r, vec![who()], 1));
  }
  pub fn json(self) -> V {
    V::A(self.list.into_iter().map(|(_, r, who, n)| obj! {"r": r, "who": who, "n": n}).collect())
  }
}
