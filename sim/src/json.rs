//! Just enough JSON to write evidence.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    I(i64),
    F(f64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.into())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(n: u64) -> J {
        J::I(n as i64)
    }
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::I(n) => write!(o, "{n}").unwrap(),
            J::F(f) => write!(o, "{f:.3}").unwrap(),
            J::B(b) => write!(o, "{b}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => list(o, ind, '[', ']', v.len(), |o, i, n| v[i].write(o, n)),
            J::O(v) => list(o, ind, '{', '}', v.len(), |o, i, n| {
                J::S(v[i].0.clone()).write(o, n);
                o.push_str(": ");
                v[i].1.write(o, n);
            }),
        }
    }
}
fn list(o: &mut String, ind: usize, a: char, b: char, n: usize, mut f: impl FnMut(&mut String, usize, usize)) {
    o.push(a);
    for i in 0..n {
        o.push_str(if i > 0 { ",\n" } else { "\n" });
        o.push_str(&" ".repeat(ind + 1));
        f(o, i, ind + 1);
    }
    if n > 0 {
        o.push('\n');
        o.push_str(&" ".repeat(ind));
    }
    o.push(b);
}
