//! Makes a failing plan small: fewer threads, calls, switches, faults, items.
use crate::exec::{self, Mode};
use crate::props::{self, Viol};
use plan::*;
use std::time::{Duration, Instant};

pub struct Min {
    pub class: String,
    loc: String,
    pub best: Plan,
    pub viol: Viol,
    pub evals: u32,
    until: Instant,
}

fn loc(v: &Viol) -> String {
    // where a panic came from; keeps one panic from being traded for another
    v.what.rfind(" @").map_or(String::new(), |i| {
        let s = &v.what[i + 2..];
        s.split_whitespace().next().unwrap_or("").trim_end_matches(',').to_string()
    })
}

pub fn same(a: &Viol, class: &str, l: &str) -> bool {
    a.class == class && loc(a) == l
}

impl Min {
    fn spent(&self) -> bool {
        self.evals >= 400 || Instant::now() >= self.until
    }
    fn try_(&mut self, p: Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.evals += 1;
        match props::check(&p) {
            Err(v) if same(&v, &self.class, &self.loc) => {
                self.best = p;
                self.viol = v;
                true
            }
            _ => false,
        }
    }
    /// Removes pieces of a list of n, halving the size of the pieces.
    fn pieces(&mut self, n0: usize, mut cut: impl FnMut(&Plan, usize, usize) -> Option<Plan>) {
        let mut size = (n0 + 1) / 2;
        let mut n = n0;
        while size >= 1 && !self.spent() {
            let mut i = 0;
            while i < n && !self.spent() {
                let k = size.min(n - i);
                let p = cut(&self.best, i, i + k);
                if p.map_or(false, |p| self.try_(p)) {
                    n -= k
                } else {
                    i += k
                }
            }
            if size == 1 {
                break;
            }
            size = (size + 1) / 2;
        }
    }
}

fn drop_calls(p: &Plan, t: usize, a: usize, b: usize) -> Plan {
    let mut q = p.clone();
    q.threads[t].drain(a..b);
    let d = b - a;
    let keep = |k: usize| if k < a { Some(k) } else if k < b { None } else { Some(k - d) };
    q.evs = q.evs.into_iter().filter_map(|e| if e.0 == t { keep(e.1).map(|k| (t, k, e.2, e.3)) } else { Some(e) }).collect();
    q.cbs = q.cbs.into_iter().filter_map(|e| if e.0 == t { keep(e.1).map(|k| (t, k, e.2, e.3)) } else { Some(e) }).collect();
    q.als = q.als.into_iter().filter_map(|e| if e.0 == t { keep(e.1).map(|k| (t, k, e.2, e.3)) } else { Some(e) }).collect();
    q
}

fn drop_thread(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    q.threads.remove(t);
    let re = |x: usize| if x > t { x - 1 } else { x };
    q.evs.retain(|e| e.0 != t);
    q.cbs.retain(|e| e.0 != t);
    q.als.retain(|e| e.0 != t);
    q.evs.iter_mut().for_each(|e| {
        e.0 = re(e.0);
        if let Ev::Switch(j) = e.3 {
            e.3 = Ev::Switch(re(j))
        }
    });
    q.cbs.iter_mut().for_each(|e| e.0 = re(e.0));
    q.als.iter_mut().for_each(|e| e.0 = re(e.0));
    q.start = re(q.start).min(q.threads.len().saturating_sub(1));
    q
}

fn cut_geo(g: &Geo, a: usize, b: usize) -> Option<Geo> {
    let mut y = g.clone();
    let mut at = 0;
    let mut cut = |v: &mut Vec<P>| {
        let n = v.len();
        let (lo, hi) = (a.max(at), b.min(at + n));
        if lo < hi {
            v.drain(lo - at..hi - at);
        }
        at += n;
    };
    match &mut y {
        Geo::Empty | Geo::Point(_) => return None,
        Geo::Line(v) | Geo::MPoint(v) => cut(v),
        Geo::Poly(e, i) => {
            cut(e);
            i.iter_mut().for_each(|h| cut(h));
        }
        Geo::MLine(v) => v.iter_mut().for_each(|h| cut(h)),
        Geo::MPoly(v) => v.iter_mut().for_each(|h| {
            cut(&mut h.0);
            h.1.iter_mut().for_each(|x| cut(x));
        }),
    }
    Some(y)
}

fn geo_len(g: &Geo) -> usize {
    match g {
        Geo::Empty | Geo::Point(_) => 0,
        Geo::Line(v) | Geo::MPoint(v) => v.len(),
        Geo::Poly(e, i) => e.len() + i.iter().map(|x| x.len()).sum::<usize>(),
        Geo::MLine(v) => v.iter().map(|x| x.len()).sum(),
        Geo::MPoly(v) => v.iter().map(|x| x.0.len() + x.1.iter().map(|y| y.len()).sum::<usize>()).sum(),
    }
}

pub fn minimise(p: &Plan, v: &Viol, secs: u64) -> Min {
    let mut m = Min {
        class: v.class.clone(),
        loc: loc(v),
        best: p.clone(),
        viol: v.clone(),
        evals: 0,
        until: Instant::now() + Duration::from_secs(secs),
    };
    // does it fail again at all?
    if !m.try_(p.clone()) {
        return m;
    }
    if p.waves > 1 {
        let mut q = m.best.clone();
        q.waves = 1;
        m.try_(q);
    }
    if p.exits {
        let mut q = m.best.clone();
        q.exits = false;
        m.try_(q);
    }
    if p.evs.len() + p.cbs.len() + p.als.len() > 0 || p.quantum.is_some() {
        let mut q = m.best.clone();
        q.evs.clear();
        q.cbs.clear();
        q.als.clear();
        q.quantum = None;
        m.try_(q);
    }
    if m.best.quantum.is_some() {
        let mut q = m.best.clone();
        q.quantum = None;
        if !m.try_(q) {
            // spell the random schedule out
            let r = exec::run(&m.best, Mode::Full);
            let mut q = m.best.clone();
            q.quantum = None;
            q.evs.retain(|e| !matches!(e.3, Ev::Switch(_)));
            q.evs.extend(r.switches.iter().filter(|s| !s.forced).map(|s| (s.thread, s.op, s.step, Ev::Switch(s.to))));
            m.try_(q);
        }
    }
    for _ in 0..2 {
        let mut t = m.best.threads.len();
        while t > 0 && m.best.threads.len() > 1 {
            t -= 1;
            if matches!(p.prop.as_str(), "C07") && m.best.threads.len() * 2 + 1 == m.best.slots {
                // slots are numbered by thread
                break;
            }
            let q = drop_thread(&m.best, t);
            m.try_(q);
        }
        for t in 0..m.best.threads.len() {
            let n = m.best.threads[t].len();
            m.pieces(n, |p, a, b| Some(drop_calls(p, t, a, b)));
        }
        let n = m.best.evs.len();
        m.pieces(n, |p, a, b| {
            let mut q = p.clone();
            q.evs.drain(a..b);
            Some(q)
        });
        let n = m.best.cbs.len();
        m.pieces(n, |p, a, b| {
            let mut q = p.clone();
            q.cbs.drain(a..b);
            Some(q)
        });
        let n = m.best.als.len();
        m.pieces(n, |p, a, b| {
            let mut q = p.clone();
            q.als.drain(a..b);
            Some(q)
        });
        let n = m.best.deep.len();
        m.pieces(n, |p, a, b| {
            let mut q = p.clone();
            q.deep.drain(a..b);
            Some(q)
        });
        let n = m.best.finale.len();
        if p.prop != "C07" {
            m.pieces(n, |p, a, b| {
                let mut q = p.clone();
                q.finale.drain(a..b);
                Some(q)
            });
        }
    }
    // data
    let indexed = matches!(p.prop.as_str(), "C07" | "C08" | "C09");
    for o in 0..m.best.objs.len() {
        if p.prop == "C13" || indexed {
            break;
        }
        let used = used_objs(&m.best);
        if !used.contains(&o) {
            let mut q = m.best.clone();
            q.objs[o] = Obj::Geo(Geo::Empty);
            if m.best.objs[o] != q.objs[o] {
                m.try_(q);
            }
            continue;
        }
        let n = match &m.best.objs[o] {
            Obj::Items(v) | Obj::Index { items: v, .. } => v.len(),
            Obj::GeoIndex { geos, .. } => geos.len(),
            Obj::Text(t) => t.len(),
            Obj::Geo(g) => geo_len(g),
            _ => 0,
        };
        m.pieces(n, |p, a, b| {
            let mut q = p.clone();
            match &mut q.objs[o] {
                Obj::Items(v) | Obj::Index { items: v, .. } => {
                    v.drain(a..b);
                }
                Obj::GeoIndex { geos, .. } => {
                    geos.drain(a..b);
                }
                Obj::Text(t) => {
                    t.drain(a..b);
                }
                Obj::Geo(g) => *g = cut_geo(g, a, b)?,
                _ => return None,
            }
            Some(q)
        });
    }
    // calls nobody makes
    let mut q = m.best.clone();
    let mut used: Vec<usize> = q.threads.iter().flatten().chain(&q.finale).copied().collect();
    used.extend(q.cbs.iter().filter_map(|c| if let CbAct::Reenter(o) = c.3 { Some(o) } else { None }));
    used.extend(q.deep.iter().map(|d| d.1));
    for i in 0..q.ops.len() {
        if !used.contains(&i) {
            q.ops[i] = Op::new(K::Nop);
        }
    }
    if q.ops != m.best.ops {
        m.try_(q);
    }
    let mut q = m.best.clone();
    q.env = Env::plain();
    m.try_(q);
    m
}

fn used_objs(p: &Plan) -> Vec<usize> {
    let mut ops: Vec<usize> = p.threads.iter().flatten().chain(&p.finale).copied().collect();
    ops.extend(p.cbs.iter().filter_map(|c| if let CbAct::Reenter(o) = c.3 { Some(o) } else { None }));
    ops.extend(p.deep.iter().map(|d| d.1));
    ops.iter().filter(|o| **o < p.ops.len()).flat_map(|o| [p.ops[*o].a, p.ops[*o].b]).collect()
}
