//! Minimal JSON value used for trace events.
use std::fmt;
#[derive(Clone, Debug, PartialEq)]
pub enum V {
  I(i64),
  B(bool),
  S(String),
  A(Vec<V>),
  O(Vec<(&'static str, V)>),
}
impl fmt::Display for V {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      V::I(i) => write!(f, "{}", i),
      V::B(b) => write!(f, "{}", b),
      V::S(s) => {
        f.write_str("\"")?;
        for c in s.chars() {
          match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => f.write_str("?")?,
            c => write!(f, "{}", c)?,
          }
        }
        f.write_str("\"")
      }
      V::A(v) => {
        f.write_str("[")?;
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            f.write_str(",")?;
          }
          write!(f, "{}", x)?;
        }
        f.write_str("]")
      }
      V::O(v) => {
        f.write_str("{")?;
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            f.write_str(",")?;
          }
          write!(f, "\"{}\":{}", k, x)?;
        }
        f.write_str("}")
      }
    }
  }
}
impl From<bool> for V {
  fn from(b: bool) -> V {
    V::B(b)
  }
}
impl From<i64> for V {
  fn from(b: i64) -> V {
    V::I(b)
  }
}
impl From<i32> for V {
  fn from(b: i32) -> V {
    V::I(b as i64)
  }
}
impl From<usize> for V {
  fn from(b: usize) -> V {
    V::I(b as i64)
  }
}
impl From<&str> for V {
  fn from(b: &str) -> V {
    V::S(b.to_string())
  }
}
impl From<String> for V {
  fn from(b: String) -> V {
    V::S(b)
  }
}
impl<T: Into<V>> From<Vec<T>> for V {
  fn from(b: Vec<T>) -> V {
    V::A(b.into_iter().map(|x| x.into()).collect())
  }
}
impl From<(i64, i64)> for V {
  fn from(p: (i64, i64)) -> V {
    V::A(vec![V::I(p.0), V::I(p.1)])
  }
}
#[macro_export]
macro_rules! obj {
  ($($k:literal : $v:expr),* $(,)?) => { $crate::json::V::O(vec![$(($k, $crate::json::V::from($v))),*]) };
}
#[macro_export]
macro_rules! arr {
  ($($v:expr),* $(,)?) => { $crate::json::V::A(vec![$($crate::json::V::from($v)),*]) };
}
