//! Plan files.
use crate::*;
use std::fmt::Write;

fn num(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else if v == f64::INFINITY {
        "inf".into()
    } else if v == f64::NEG_INFINITY {
        "-inf".into()
    } else {
        format!("{:?}", v)
    }
}
fn pnum(s: &str) -> f64 {
    s.parse().unwrap_or_else(|_| panic!("bad number {:?}", s))
}
fn pts(v: &[P]) -> String {
    v.iter().map(|p| format!("{},{}", num(p.0), num(p.1))).collect::<Vec<_>>().join(";")
}
fn ppt(s: &str) -> P {
    let mut i = s.split(',');
    (pnum(i.next().unwrap()), pnum(i.next().unwrap()))
}
fn ppts(s: &str) -> Vec<P> {
    s.split(';').filter(|x| !x.is_empty()).map(ppt).collect()
}
// "|"-terminated lists of lists: each element ends with '|'
fn lists(v: &[Vec<P>]) -> String {
    v.iter().map(|l| pts(l) + "|").collect()
}
fn plists(s: &str) -> Vec<Vec<P>> {
    let mut v: Vec<Vec<P>> = s.split('|').map(ppts).collect();
    v.pop();
    v
}
fn boxes(v: &[BoxS]) -> String {
    v.iter()
        .map(|b| match b {
            BoxS::Empty => "E;".to_string(),
            BoxS::B(a, b) => format!("{},{},{},{};", num(a.0), num(a.1), num(b.0), num(b.1)),
        })
        .collect()
}
fn pboxes(s: &str) -> Vec<BoxS> {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            if x == "E" {
                BoxS::Empty
            } else {
                let v: Vec<f64> = x.split(',').map(pnum).collect();
                BoxS::B((v[0], v[1]), (v[2], v[3]))
            }
        })
        .collect()
}
pub fn geo(g: &Geo) -> String {
    match g {
        Geo::Empty => "empty -".into(),
        Geo::Point(p) => format!("point {}", pts(&[*p])),
        Geo::Line(l) => format!("line {}|", pts(l)),
        Geo::Poly(e, i) => format!("poly {}|{}", pts(e), lists(i)),
        Geo::MPoint(l) => format!("mpoint {}|", pts(l)),
        Geo::MLine(l) => format!("mline -{}", lists(l)),
        Geo::MPoly(l) => {
            format!("mpoly -{}", l.iter().map(|(e, i)| format!("{}|{}/", pts(e), lists(i))).collect::<String>())
        }
    }
}
fn ppoly(s: &str) -> (Vec<P>, Vec<Vec<P>>) {
    let mut v = plists(s);
    let e = v.remove(0);
    (e, v)
}
fn pgeo(k: &str, s: &str) -> Geo {
    match k {
        "empty" => Geo::Empty,
        "point" => Geo::Point(ppt(s)),
        "line" => Geo::Line(plists(s).remove(0)),
        "mpoint" => Geo::MPoint(plists(s).remove(0)),
        "poly" => {
            let (e, i) = ppoly(s);
            Geo::Poly(e, i)
        }
        "mline" => Geo::MLine(plists(&s[1..])),
        "mpoly" => {
            let mut v: Vec<&str> = s[1..].split('/').collect();
            v.pop();
            Geo::MPoly(v.into_iter().map(ppoly).collect())
        }
        _ => panic!("geo {}", k),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn kname(k: K) -> &'static str {
    KNAMES.iter().find(|x| x.0 == k).unwrap().1
}

pub fn op(o: &Op) -> String {
    let mut s = kname(o.k).to_string();
    if o.k == K::G {
        write!(s, " m={}", GM[o.n[0] as usize]).unwrap();
    } else if !o.n.is_empty() {
        write!(s, " n={}", o.n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    }
    write!(s, " a={} b={}", o.a, o.b).unwrap();
    if o.fresh {
        s += " fresh=1";
    }
    if o.alt {
        s += " alt=1";
    }
    if o.reps != 1 {
        write!(s, " reps={}", o.reps).unwrap();
    }
    if !o.f.is_empty() {
        write!(s, " f={}", o.f.iter().map(|x| num(*x)).collect::<Vec<_>>().join(",")).unwrap();
    }
    s
}

fn pop(ws: &[&str]) -> Op {
    let k = KNAMES.iter().find(|x| x.1 == ws[0]).unwrap_or_else(|| panic!("op {}", ws[0])).0;
    let mut o = Op::new(k);
    for w in &ws[1..] {
        let (key, v) = w.split_once('=').unwrap();
        match key {
            "m" => o.n = vec![gm(v) as u64],
            "n" => o.n = v.split(',').map(|x| x.parse().unwrap()).collect(),
            "a" => o.a = v.parse().unwrap(),
            "b" => o.b = v.parse().unwrap(),
            "reps" => o.reps = v.parse().unwrap(),
            "alt" => o.alt = v == "1",
            "fresh" => o.fresh = v == "1",
            "f" => o.f = v.split(',').map(pnum).collect(),
            _ => panic!("op key {}", key),
        }
    }
    o
}

pub fn obj(o: &Obj) -> String {
    match o {
        Obj::Items(b) => format!("items -{}", boxes(b)),
        Obj::Index { items, degree, sorted } => format!("index {} {} -{}", degree, *sorted as u8, boxes(items)),
        Obj::GeoIndex { geos, degree, sorted } => {
            format!("geoindex {} {} {}", degree, *sorted as u8, geos.iter().map(geo).collect::<Vec<_>>().join(" "))
        }
        Obj::Geo(g) => format!("geo {}", geo(g)),
        Obj::Lin(l) => match l {
            Lin::Point(x) => format!("lin point {}", num(*x)),
            Lin::Line(a, b) => format!("lin line {},{}", num(*a), num(*b)),
            Lin::EmptyLine => "lin emptyline -".into(),
            Lin::MPoint(v) => {
                format!("lin mpoint -{}", v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(";"))
            }
            Lin::MLine(v) => format!("lin mline -{}", pts(v)),
        },
        Obj::Text(t) => format!("text -{}", hex(t)),
        Obj::Moving { boxes: b, scripted } => {
            format!("moving {} {}", *scripted as u8, b.iter().map(|x| format!("-{}", boxes(x))).collect::<Vec<_>>().join(" "))
        }
    }
}

fn pobj(ws: &[&str]) -> Obj {
    match ws[0] {
        "items" => Obj::Items(pboxes(&ws[1][1..])),
        "index" => Obj::Index { degree: ws[1].parse().unwrap(), sorted: ws[2] == "1", items: pboxes(&ws[3][1..]) },
        "geoindex" => Obj::GeoIndex {
            degree: ws[1].parse().unwrap(),
            sorted: ws[2] == "1",
            geos: ws[3..].chunks(2).map(|c| pgeo(c[0], c[1])).collect(),
        },
        "geo" => Obj::Geo(pgeo(ws[1], ws.get(2).copied().unwrap_or(""))),
        "lin" => Obj::Lin(match ws[1] {
            "point" => Lin::Point(pnum(ws[2])),
            "line" => {
                let p = ppt(ws[2]);
                Lin::Line(p.0, p.1)
            }
            "emptyline" => Lin::EmptyLine,
            "mpoint" => Lin::MPoint(ws[2][1..].split(';').filter(|x| !x.is_empty()).map(pnum).collect()),
            _ => Lin::MLine(ppts(&ws[2][1..])),
        }),
        "text" => Obj::Text(unhex(&ws[1][1..])),
        "moving" => Obj::Moving { scripted: ws[1] == "1", boxes: ws[2..].iter().map(|x| pboxes(&x[1..])).collect() },
        _ => panic!("obj {}", ws[0]),
    }
}

pub fn write(p: &Plan) -> String {
    let mut s = String::new();
    writeln!(s, "plan 1").unwrap();
    writeln!(s, "prop {} seed {}", p.prop, p.seed).unwrap();
    let ct = |c| match c {
        Ct::F64 => "f64",
        Ct::F32 => "f32",
        Ct::Sim => "sim",
    };
    writeln!(s, "ct {}{}", ct(p.ct), p.ct2.map_or(String::new(), |c| format!(" {}", ct(c)))).unwrap();
    let e = &p.env;
    writeln!(s, "env {} {} {} {} {} {} {} {} {} {} {}", e.hash, e.base, e.reuse as u8, e.fill, e.clock, e.tick, e.cpus, e.pid, e.skew, e.img, e.vars).unwrap();
    for o in &p.objs {
        writeln!(s, "obj {}", obj(o)).unwrap();
    }
    for o in &p.ops {
        writeln!(s, "op {}", op(o)).unwrap();
    }
    for t in &p.threads {
        writeln!(s, "thread {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    }
    writeln!(s, "start {} {} {}", p.start, p.waves, p.exits as u8).unwrap();
    for (t, k, st, e) in &p.evs {
        let d = match e {
            Ev::Switch(j) => format!("switch {}", j),
            Ev::Stall => "stall".into(),
            Ev::Kill => "kill".into(),
            Ev::Jump(d) => format!("jump {}", d),
        };
        writeln!(s, "at {} {} {} {}", t, k, st, d).unwrap();
    }
    for (t, k, st, e) in &p.cbs {
        let d = match e {
            CbAct::Panic => "panic".to_string(),
            CbAct::Reenter(j) => format!("reenter {}", j),
        };
        writeln!(s, "cb {} {} {} {}", t, k, st, d).unwrap();
    }
    for (t, k, f, n) in &p.als {
        writeln!(s, "allocfail {} {} {} {}", t, k, f, n).unwrap();
    }
    if let Some((q, n, sd)) = p.quantum {
        writeln!(s, "quantum {} {} {}", q, n, sd).unwrap();
    }
    writeln!(s, "slots {}", p.slots).unwrap();
    for (n, o) in &p.deep {
        writeln!(s, "deep {} {}", n, o).unwrap();
    }
    if !p.finale.is_empty() {
        writeln!(s, "finale {}", p.finale.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    }
    if !p.extra.is_empty() {
        writeln!(s, "extra {}", p.extra.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    }
    s
}

pub fn read(s: &str) -> Plan {
    let mut p = Plan::new("", 0);
    for line in s.lines() {
        let ws: Vec<&str> = line.split_whitespace().collect();
        if ws.is_empty() || ws[0].starts_with('#') {
            continue;
        }
        match ws[0] {
            "plan" => (),
            "prop" => {
                p.prop = ws[1].into();
                p.seed = ws[3].parse().unwrap();
            }
            "ct" => {
                let ct = |s: &str| match s {
                    "f32" => Ct::F32,
                    "sim" => Ct::Sim,
                    _ => Ct::F64,
                };
                p.ct = ct(ws[1]);
                p.ct2 = ws.get(2).map(|s| ct(s));
            }
            "env" => {
                p.env = Env {
                    hash: ws[1].parse().unwrap(),
                    base: ws[2].parse().unwrap(),
                    reuse: ws[3] == "1",
                    fill: ws[4].parse().unwrap(),
                    clock: ws[5].parse().unwrap(),
                    tick: ws[6].parse().unwrap(),
                    cpus: ws[7].parse().unwrap(),
                    pid: ws[8].parse().unwrap(),
                    skew: ws[9].parse().unwrap(),
                    img: ws[10].parse().unwrap(),
                    vars: ws[11].parse().unwrap(),
                }
            }
            "obj" => p.objs.push(pobj(&ws[1..])),
            "op" => p.ops.push(pop(&ws[1..])),
            "thread" => p.threads.push(ws[1..].iter().map(|x| x.parse().unwrap()).collect()),
            "start" => {
                p.start = ws[1].parse().unwrap();
                p.waves = ws[2].parse().unwrap();
                p.exits = ws[3] == "1";
            }
            "at" => {
                let e = match ws[4] {
                    "switch" => Ev::Switch(ws[5].parse().unwrap()),
                    "stall" => Ev::Stall,
                    "kill" => Ev::Kill,
                    _ => Ev::Jump(ws[5].parse().unwrap()),
                };
                p.evs.push((ws[1].parse().unwrap(), ws[2].parse().unwrap(), ws[3].parse().unwrap(), e));
            }
            "cb" => {
                let e = match ws[4] {
                    "panic" => CbAct::Panic,
                    _ => CbAct::Reenter(ws[5].parse().unwrap()),
                };
                p.cbs.push((ws[1].parse().unwrap(), ws[2].parse().unwrap(), ws[3].parse().unwrap(), e));
            }
            "allocfail" => p.als.push((
                ws[1].parse().unwrap(),
                ws[2].parse().unwrap(),
                ws[3].parse().unwrap(),
                ws[4].parse().unwrap(),
            )),
            "quantum" => p.quantum = Some((ws[1].parse().unwrap(), ws[2].parse().unwrap(), ws[3].parse().unwrap())),
            "slots" => p.slots = ws[1].parse().unwrap(),
            "deep" => p.deep.push((ws[1].parse().unwrap(), ws[2].parse().unwrap())),
            "finale" => p.finale = ws[1..].iter().map(|x| x.parse().unwrap()).collect(),
            "extra" => p.extra = ws[1..].iter().map(|x| x.parse().unwrap()).collect(),
            _ => panic!("plan line {:?}", line),
        }
    }
    p
}
