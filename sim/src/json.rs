//! Minimal JSON writer/reader (strings, numbers, arrays, objects).
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Num(f64),
  U(u64),
  Str(String),
  Arr(Vec<J>),
  Obj(BTreeMap<String, J>),
}

impl J {
  pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
  }
  pub fn obj(kv: Vec<(&str, J)>) -> J {
    J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
  }
  pub fn get(&self, k: &str) -> Option<&J> {
    match self {
      J::Obj(m) => m.get(k),
      _ => None,
    }
  }
  pub fn as_str(&self) -> &str {
    match self {
      J::Str(s) => s,
      _ => "",
    }
  }
  pub fn as_u64(&self) -> u64 {
    match self {
      J::U(n) => *n,
      J::Num(n) => *n as u64,
      _ => 0,
    }
  }
  pub fn arr(&self) -> &[J] {
    match self {
      J::Arr(v) => v,
      _ => &[],
    }
  }
  pub fn write(&self, out: &mut String) {
    match self {
      J::Null => out.push_str("null"),
      J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
      J::Num(n) => out.push_str(&format!("{n}")),
      J::U(n) => out.push_str(&format!("{n}")),
      J::Str(s) => write_str(s, out),
      J::Arr(v) => {
        out.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            out.push(',');
          }
          x.write(out);
        }
        out.push(']');
      }
      J::Obj(m) => {
        out.push('{');
        for (i, (k, x)) in m.iter().enumerate() {
          if i > 0 {
            out.push_str(",\n ");
          }
          write_str(k, out);
          out.push_str(": ");
          x.write(out);
        }
        out.push('}');
      }
    }
  }
  pub fn dump(&self) -> String {
    let mut s = String::new();
    self.write(&mut s);
    s
  }
}

fn write_str(s: &str, out: &mut String) {
  out.push('"');
  for c in s.chars() {
    match c {
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      '\r' => out.push_str("\\r"),
      '\t' => out.push_str("\\t"),
      c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
      c => out.push(c),
    }
  }
  out.push('"');
}

pub fn parse(s: &str) -> Result<J, String> {
  let b: Vec<char> = s.chars().collect();
  let mut p = P { b, i: 0 };
  let v = p.value()?;
  p.ws();
  if p.i != p.b.len() {
    return Err(format!("trailing data at {}", p.i));
  }
  Ok(v)
}

struct P {
  b: Vec<char>,
  i: usize,
}

impl P {
  fn ws(&mut self) {
    while self.i < self.b.len() && matches!(self.b[self.i], ' ' | '\n' | '\r' | '\t') {
      self.i += 1;
    }
  }
  fn peek(&self) -> Option<char> {
    self.b.get(self.i).copied()
  }
  fn eat(&mut self, c: char) -> Result<(), String> {
    if self.peek() == Some(c) {
      self.i += 1;
      Ok(())
    } else {
      Err(format!("expected {c:?} at {}", self.i))
    }
  }
  fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
    for c in s.chars() {
      self.eat(c)?;
    }
    Ok(v)
  }
  fn value(&mut self) -> Result<J, String> {
    self.ws();
    match self.peek() {
      Some('n') => self.lit("null", J::Null),
      Some('t') => self.lit("true", J::Bool(true)),
      Some('f') => self.lit("false", J::Bool(false)),
      Some('"') => Ok(J::Str(self.string()?)),
      Some('[') => {
        self.i += 1;
        let mut v = Vec::new();
        self.ws();
        if self.peek() == Some(']') {
          self.i += 1;
          return Ok(J::Arr(v));
        }
        loop {
          v.push(self.value()?);
          self.ws();
          if self.peek() == Some(',') {
            self.i += 1;
          } else {
            self.eat(']')?;
            return Ok(J::Arr(v));
          }
        }
      }
      Some('{') => {
        self.i += 1;
        let mut m = BTreeMap::new();
        self.ws();
        if self.peek() == Some('}') {
          self.i += 1;
          return Ok(J::Obj(m));
        }
        loop {
          self.ws();
          let k = self.string()?;
          self.ws();
          self.eat(':')?;
          let v = self.value()?;
          m.insert(k, v);
          self.ws();
          if self.peek() == Some(',') {
            self.i += 1;
          } else {
            self.eat('}')?;
            return Ok(J::Obj(m));
          }
        }
      }
      Some(c) if c == '-' || c.is_ascii_digit() => {
        let st = self.i;
        while let Some(c) = self.peek() {
          if c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c.is_ascii_digit() {
            self.i += 1;
          } else {
            break;
          }
        }
        let t: String = self.b[st..self.i].iter().collect();
        if let Ok(u) = t.parse::<u64>() {
          Ok(J::U(u))
        } else {
          t.parse::<f64>().map(J::Num).map_err(|e| e.to_string())
        }
      }
      other => Err(format!("unexpected {other:?} at {}", self.i)),
    }
  }
  fn string(&mut self) -> Result<String, String> {
    self.eat('"')?;
    let mut s = String::new();
    loop {
      let c = self.peek().ok_or("unterminated string")?;
      self.i += 1;
      match c {
        '"' => return Ok(s),
        '\\' => {
          let e = self.peek().ok_or("bad escape")?;
          self.i += 1;
          match e {
            '"' | '\\' | '/' => s.push(e),
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            'b' => s.push('\u{8}'),
            'f' => s.push('\u{c}'),
            'u' => {
              let mut cp = self.hex4()?;
              if (0xD800..0xDC00).contains(&cp) {
                self.eat('\\')?;
                self.eat('u')?;
                let lo = self.hex4()?;
                cp = 0x10000 + ((cp - 0xD800) << 10) + (lo.wrapping_sub(0xDC00) & 0x3ff);
              }
              s.push(char::from_u32(cp).ok_or("bad code point")?);
            }
            _ => return Err(format!("bad escape \\{e} at {}", self.i)),
          }
        }
        c if (c as u32) < 0x20 => return Err(format!("raw control character {:?} in string", c)),
        c => s.push(c),
      }
    }
  }
  fn hex4(&mut self) -> Result<u32, String> {
    let mut v = 0;
    for _ in 0..4 {
      let c = self.peek().ok_or("bad \\u")?;
      v = v * 16 + c.to_digit(16).ok_or("bad \\u digit")?;
      self.i += 1;
    }
    Ok(v)
  }
}
