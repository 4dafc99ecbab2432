//! A small independent reader for the WKT subset the library documents, used
//! as the reference for what damaged text may be read as.
use crate::{Geo, P};

#[derive(Debug, Clone, PartialEq)]
enum T {
    Open,
    Close,
    Comma,
    Num(f64),
    Word(String),
    Bad,
}

fn lex(s: &str) -> Vec<T> {
    let cs: Vec<char> = s.chars().collect();
    let ws = |c: char| matches!(c, '\n' | '\r' | '\t' | ' ');
    let mark = |c: char| matches!(c, '\0' | '(' | ')' | ',');
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if ws(c) {
            i += 1;
            continue;
        }
        match c {
            '\0' => v.push(T::Bad),
            '(' => v.push(T::Open),
            ')' => v.push(T::Close),
            ',' => v.push(T::Comma),
            _ => {
                let st = i;
                while i + 1 < cs.len() && !ws(cs[i + 1]) && !mark(cs[i + 1]) {
                    i += 1;
                }
                let w: String = cs[st..=i].iter().collect();
                if c.is_numeric() || c == '.' || c == '-' || c == '+' {
                    v.push(w.trim_start_matches('+').parse().map(T::Num).unwrap_or(T::Bad));
                } else {
                    v.push(T::Word(w));
                }
            }
        }
        i += 1;
    }
    v
}

struct R {
    t: Vec<T>,
    i: usize,
}
type X<A> = Option<A>;

impl R {
    fn next(&mut self) -> T {
        let t = self.t.get(self.i).cloned().unwrap_or(T::Bad);
        self.i += 1;
        t
    }
    /// "EMPTY" => Some(None); "(" body ")" => Some(Some(body))
    fn parens<A>(&mut self, body: &mut dyn FnMut(&mut R) -> X<A>) -> X<Option<A>> {
        match self.next() {
            T::Open => (),
            T::Word(w) if w.eq_ignore_ascii_case("EMPTY") => return Some(None),
            _ => return None,
        }
        let r = body(self)?;
        if self.next() == T::Close {
            Some(Some(r))
        } else {
            None
        }
    }
    fn many<A>(&mut self, item: &mut dyn FnMut(&mut R) -> X<A>) -> X<Vec<A>> {
        let mut v = vec![item(self)?];
        while self.t.get(self.i) == Some(&T::Comma) {
            self.i += 1;
            v.push(item(self)?);
        }
        Some(v)
    }
    fn coord(&mut self) -> X<P> {
        match (self.next(), self.next()) {
            (T::Num(x), T::Num(y)) => Some((x, y)),
            _ => None,
        }
    }
    fn line(&mut self) -> X<Vec<P>> {
        Some(self.parens(&mut |r| r.many(&mut |r| r.coord()))?.unwrap_or_default())
    }
    fn poly(&mut self) -> X<Vec<Vec<P>>> {
        Some(self.parens(&mut |r| r.many(&mut |r| r.line()))?.unwrap_or_default())
    }
}

/// Ok(None): no geometry at all. Err: must be rejected.
pub fn parse(s: &str) -> Result<Option<Geo>, ()> {
    let mut r = R { t: lex(s), i: 0 };
    let word = match r.t.first() {
        None => return Ok(None),
        Some(T::Word(w)) => w.to_ascii_uppercase(),
        _ => return Err(()),
    };
    r.i = 1;
    let g = match word.as_str() {
        "POINT" => r.parens(&mut |r| r.coord()).map(|p| p.map_or(Geo::Empty, Geo::Point)),
        "LINESTRING" => r.line().map(Geo::Line),
        "POLYGON" => r.poly().map(|mut v| {
            if v.is_empty() {
                Geo::Empty
            } else {
                let e = v.remove(0);
                Geo::Poly(e, v)
            }
        }),
        "MULTIPOINT" => r
            .parens(&mut |r| r.many(&mut |r| r.parens(&mut |r| r.coord())))
            .map(|v| Geo::MPoint(v.unwrap_or_default().into_iter().flatten().collect())),
        "MULTILINESTRING" => {
            r.parens(&mut |r| r.many(&mut |r| r.line())).map(|v| Geo::MLine(v.unwrap_or_default()))
        }
        "MULTIPOLYGON" => r.parens(&mut |r| r.many(&mut |r| r.poly())).map(|v| {
            Geo::MPoly(
                v.unwrap_or_default()
                    .into_iter()
                    .filter(|p| !p.is_empty())
                    .map(|mut p| {
                        let e = p.remove(0);
                        (e, p)
                    })
                    .collect(),
            )
        }),
        _ => None,
    };
    if r.i != r.t.len() {
        return Err(()); // something follows the geometry
    }
    g.map(Some).ok_or(())
}

/// Render a geometry as text.
pub fn render(g: &Geo, style: u64) -> String {
    let sp = if style & 1 == 1 { " " } else { "" };
    let num = |v: f64| -> String {
        if style & 128 == 128 && v.is_finite() {
            // the same number, spelled otherwise
            if v == 0.0 && style & 12 != 0 {
                return ["-0", "-0.0", "-0e5"][(style >> 2 & 3) as usize - 1].to_string();
            }
            let s = match v.to_bits().count_ones() % 6 {
                0 => format!("{:E}", v),
                1 if v == v.trunc() => format!("{}.", v),
                1 | 2 => format!("{}0", if v == v.trunc() { format!("{}.", v) } else { format!("{}", v) }),
                3 if v >= 0.0 => format!("+{}", v),
                4 => format!("{}", v).replacen("0.", ".", ((v != 0.0 && v.abs() < 1.0) || v == 0.5) as usize),
                _ => format!("{}e+0", v),
            };
            return s;
        }
        if style & 2 == 2 && v.abs() < 1e15 && v == v.trunc() {
            format!("{}", v as i64)
        } else if style & 4 == 4 {
            format!("{:e}", v)
        } else {
            format!("{}", v)
        }
    };
    let pt = |p: &P| format!("{} {}", num(p.0), num(p.1));
    let line = |l: &Vec<P>| {
        if l.is_empty() {
            "EMPTY".to_string()
        } else {
            format!("({})", l.iter().map(pt).collect::<Vec<_>>().join(if style & 8 == 8 { ", " } else { "," }))
        }
    };
    let poly = |e: &Vec<P>, i: &Vec<Vec<P>>| {
        let mut v = vec![line(e)];
        v.extend(i.iter().map(line));
        if style & 32 == 32 {
            if e.is_empty() && i.is_empty() {
                return "EMPTY".to_string();
            }
            v.insert(1 + i.len() / 2, "EMPTY".to_string());
        }
        format!("({})", v.join(","))
    };
    let join = |n: &str, mut v: Vec<String>| {
        if style & 32 == 32 && style & 3 != 0 {
            v.insert(v.len() * (style & 3) as usize / 4, "EMPTY".to_string());
        }
        if v.is_empty() {
            format!("{} EMPTY", n)
        } else {
            format!("{}{}({})", n, sp, v.join(","))
        }
    };
    let s = match g {
        Geo::Empty => "POINT EMPTY".to_string(),
        Geo::Point(p) => format!("POINT{}({})", sp, pt(p)),
        Geo::Line(l) => format!("LINESTRING{}{}", if l.is_empty() { " " } else { sp }, line(l)),
        Geo::Poly(e, i) => {
            let s = poly(e, i);
            format!("POLYGON{}{}", if s == "EMPTY" { " " } else { sp }, s)
        }
        Geo::MPoint(v) => join("MULTIPOINT", v.iter().map(|p| format!("({})", pt(p))).collect()),
        Geo::MLine(v) => join("MULTILINESTRING", v.iter().map(line).collect()),
        Geo::MPoly(v) => join("MULTIPOLYGON", v.iter().map(|(e, i)| poly(e, i)).collect()),
    };
    let s = if style & 16 == 16 {
        s.to_lowercase()
    } else if style & 64 == 64 {
        s.char_indices().map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c }).collect()
    } else {
        s
    };
    if style & 256 == 0 {
        return s;
    }
    // spaces of all sorts wherever there may be some
    let mut t = String::new();
    for (i, c) in s.chars().enumerate() {
        let gap = [" ", "\t", "\r\n", "  ", "\n \t", ""][(i * 7 + s.len()) % 6];
        match c {
            '(' | ',' => {
                t.push(c);
                t.push_str(gap);
            }
            ')' => {
                t.push_str(gap);
                t.push(c);
            }
            ' ' => {
                t.push(c);
                t.push_str(gap);
            }
            _ => t.push(c),
        }
    }
    t
}
