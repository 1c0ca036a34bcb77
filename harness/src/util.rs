use crate::explore::{Ctx, Failure};
use serde_json::Value;

pub fn hexs(b: &[u8]) -> String {
    let mut s: String = b.iter().take(600).map(|x| format!("{x:02x}")).collect();
    if b.len() > 600 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// First difference between two JSON values, as a path; None when equal.
pub fn json_diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, p: &mut String) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let n = p.len();
                    p.push('.');
                    p.push_str(k);
                    match y.get(k) {
                        None => return Some(format!("{p}: missing on the right")),
                        Some(w) => {
                            if let Some(d) = go(v, w, p) {
                                return Some(d);
                            }
                        }
                    }
                    p.truncate(n);
                }
                for k in y.keys() {
                    if !x.contains_key(k) {
                        return Some(format!("{p}.{k}: missing on the left"));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{p}: length {} vs {}", x.len(), y.len()));
                }
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    let n = p.len();
                    p.push_str(&format!("[{i}]"));
                    if let Some(d) = go(v, w, p) {
                        return Some(d);
                    }
                    p.truncate(n);
                }
                None
            }
            _ => {
                if a == b {
                    None
                } else {
                    let mut l = a.to_string();
                    let mut r = b.to_string();
                    l.truncate(200);
                    r.truncate(200);
                    Some(format!("{p}: {l} vs {r}"))
                }
            }
        }
    }
    if a == b {
        return None;
    }
    go(a, b, &mut String::new())
}

pub fn bytes_diff(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(8);
    let w = |s: &[u8]| hexs(&s[lo.min(s.len())..(i + 24).min(s.len())]);
    Some(format!("first difference at {i} (lengths {} and {}): ..{} vs ..{}", a.len(), b.len(), w(a), w(b)))
}

/// Path shape of a difference without indices, used in keys.
pub fn path_key(d: &str) -> String {
    let p = d.split(':').next().unwrap_or("");
    let mut out = String::new();
    let mut skip = false;
    for c in p.chars() {
        match c {
            '[' => {
                skip = true;
                out.push_str("[]")
            }
            ']' => skip = false,
            _ if !skip => out.push(c),
            _ => {}
        }
    }
    out
}

pub fn failure(key: impl Into<String>, msg: impl Into<String>) -> Failure {
    Failure { key: key.into(), msg: msg.into() }
}

pub trait OrFail<T> {
    fn or_fail(self, key: &str) -> Result<T, Failure>;
}

impl<T, E: std::fmt::Display> OrFail<T> for Result<T, E> {
    fn or_fail(self, key: &str) -> Result<T, Failure> {
        self.map_err(|e| failure(key, format!("{e}")))
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::explore::Failure { key: $key.to_string(), msg: format!($($a)*) });
        }
    };
}

pub fn hash_json(ctx: &mut Ctx, v: &Value) {
    ctx.hash_bytes(v.to_string().as_bytes());
}
