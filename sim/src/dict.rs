//! The literals of the code under test. They only bias what is generated: a branch on a particular name, text, number or
//! length is reached although no generator would guess it. What the code does is judged, never what it says.

use std::path::{Path, PathBuf};
use std::sync::OnceLock;

use simcore::Rng;

#[derive(Debug, Default)]
pub struct Dict {
  pub texts: Vec<String>,
  pub chars: Vec<char>,
  pub numbers: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
  let Ok(entries) = std::fs::read_dir(dir) else { return };
  for e in entries.flatten() {
    let p = e.path();
    if p.is_dir() {
      sources(&p, out);
    } else if p.extension().is_some_and(|x| x == "rs") {
      out.push(p);
    }
  }
}

/// Reads the sources. Without them, the generators do without.
pub fn load() -> &'static Dict {
  DICT.get_or_init(|| {
    let mut files = vec![];
    sources(Path::new("/repo/src"), &mut files);
    files.sort();
    let mut d = Dict::default();
    for f in files {
      if let Ok(text) = std::fs::read_to_string(f) {
        lex(&text, &mut d);
      }
    }
    d.texts.sort();
    d.texts.dedup();
    d.chars.sort();
    d.chars.dedup();
    d.numbers.sort();
    d.numbers.dedup();
    d
  })
}

/// One escaped or plain character of a literal.
fn unescape(c: &mut std::iter::Peekable<std::str::Chars>) -> Option<char> {
  let x = c.next()?;
  if x != '\\' {
    return Some(x);
  }
  Some(match c.next()? {
    'n' => '\n',
    'r' => '\r',
    't' => '\t',
    '0' => '\0',
    'x' => {
      let h: String = [c.next()?, c.next()?].iter().collect();
      char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
    },
    'u' => {
      c.next()?;
      let mut h = String::new();
      loop {
        match c.next()? {
          '}' => break,
          '_' => (),
          x => h.push(x),
        }
      }
      char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
    },
    '\n' => {
      while c.peek().is_some_and(|x| x.is_whitespace()) {
        c.next();
      }
      unescape_or_end(c)?
    },
    x => x,
  })
}

fn unescape_or_end(c: &mut std::iter::Peekable<std::str::Chars>) -> Option<char> {
  if c.peek() == Some(&'"') { Some(' ') } else { unescape(c) }
}

fn number(s: &str) -> Option<u64> {
  let s: String = s.chars().filter(|c| *c != '_').collect();
  let (radix, digits) = match s.get(..2) {
    Some("0x") => (16, &s[2..]),
    Some("0b") => (2, &s[2..]),
    Some("0o") => (8, &s[2..]),
    _ => (10, &s[..]),
  };
  let mut digits = digits;
  for suffix in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"] {
    if let Some(d) = digits.strip_suffix(suffix) {
      digits = d;
      break;
    }
  }
  u128::from_str_radix(digits, radix).ok().map(|n| n as u64)
}

fn lex(text: &str, d: &mut Dict) {
  // Unit tests are not what runs.
  let text = text.split("#[cfg(test)]").next().unwrap_or("");
  let mut c = text.chars().peekable();
  // The last two tokens, for `a << b` and `a * b`.
  let mut last: Option<u64> = None;
  let mut op = ' ';
  let mut before = ' ';
  while let Some(x) = c.next() {
    match x {
      '/' if c.peek() == Some(&'/') => {
        for y in c.by_ref() {
          if y == '\n' {
            break;
          }
        }
      },
      '/' if c.peek() == Some(&'*') => {
        let mut prev = ' ';
        for y in c.by_ref() {
          if prev == '*' && y == '/' {
            break;
          }
          prev = y;
        }
      },
      'r' if !before.is_alphanumeric() && before != '_' && matches!(c.peek(), Some('"' | '#')) => {
        let mut hashes = 0;
        while c.peek() == Some(&'#') {
          c.next();
          hashes += 1;
        }
        if c.peek() == Some(&'"') {
          c.next();
          let end = format!("\"{}", "#".repeat(hashes));
          let mut s = String::new();
          for y in c.by_ref() {
            s.push(y);
            if s.ends_with(&end) {
              s.truncate(s.len() - end.len());
              d.texts.push(s);
              break;
            }
          }
        }
      },
      '"' => {
        let mut s = String::new();
        while c.peek().is_some_and(|y| *y != '"') {
          match unescape(&mut c) {
            Some(y) => s.push(y),
            None => break,
          }
        }
        c.next();
        d.texts.push(s);
      },
      '\'' => {
        // A character, or a lifetime.
        let rest: String = c.clone().take(12).collect();
        let mut probe = c.clone();
        if rest.starts_with('\\') || rest.chars().nth(1) == Some('\'') {
          if let Some(y) = unescape(&mut probe) {
            if probe.next() == Some('\'') {
              d.chars.push(y);
              c = probe;
            }
          }
        }
      },
      '0'..='9' if !before.is_alphanumeric() && before != '_' => {
        let mut s = String::from(x);
        while c.peek().is_some_and(|y| y.is_alphanumeric() || *y == '_') {
          s.push(c.next().unwrap());
        }
        before = '0';
        // Tuple fields and the like are too small to be told apart, and to matter.
        if matches!(&s[..], "0" | "1") {
          last = number(&s);
          op = ' ';
          continue;
        }
        if let Some(n) = number(&s) {
          d.numbers.push(n);
          match (last, op) {
            (Some(m), '<') if n < 64 => d.numbers.push(m.wrapping_shl(n as u32)),
            (Some(m), '*') => d.numbers.push(m.wrapping_mul(n)),
            (Some(m), '+') => d.numbers.push(m.wrapping_add(n)),
            (Some(m), '-') => d.numbers.push(m.wrapping_sub(n)),
            _ => (),
          }
          last = Some(n);
          op = ' ';
        }
        continue;
      },
      _ => (),
    }
    if !x.is_whitespace() {
      if matches!(x, '<' | '*' | '+' | '-') {
        op = x;
      } else if !matches!(x, '(' | ')') {
        last = None;
        op = ' ';
      }
    }
    before = x;
  }
}

/// A text of the code, or one that contains, begins or ends with it, or almost is it.
pub fn text(r: &mut Rng) -> Option<String> {
  let d = load();
  let mut s = if !d.chars.is_empty() && (d.texts.is_empty() || r.one_in(5)) {
    d.chars[r.below(d.chars.len())].to_string()
  } else if d.texts.is_empty() {
    return None;
  } else {
    d.texts[r.below(d.texts.len())].clone()
  };
  let piece = |r: &mut Rng| -> String { (0..1 + r.below(4)).map(|_| *r.pick(&['a', 'Z', '0', '.', '_', ' ', 'ä', 'x'])).collect() };
  match r.below(9) {
    0 => s.insert_str(0, &piece(r)),
    1 => s.push_str(&piece(r)),
    2 => {
      s.insert_str(0, &piece(r));
      s.push_str(&piece(r));
    },
    3 => {
      s.pop();
    },
    4 => s = s.to_uppercase(),
    5 if !d.texts.is_empty() => s.push_str(&d.texts[r.below(d.texts.len())].clone()),
    _ => (),
  }
  if s.len() > 4000 {
    s = "x".into();
  }
  Some(s)
}

/// A number of the code, or one next to it.
pub fn number_near(r: &mut Rng) -> Option<u64> {
  let d = load();
  if d.numbers.is_empty() {
    return None;
  }
  let n = d.numbers[r.below(d.numbers.len())];
  Some(match r.below(8) {
    0 => n.wrapping_add(1),
    1 => n.wrapping_sub(1),
    2 => n.wrapping_add(2),
    3 => n.wrapping_mul(2),
    4 => n.wrapping_neg(),
    _ => n,
  })
}

/// A size about one of the numbers of the code that is no greater than that.
pub fn size(r: &mut Rng, most: usize) -> Option<usize> {
  (0..6).find_map(|_| number_near(r).map(|n| n as usize).filter(|n| *n >= 2 && *n <= most))
}
