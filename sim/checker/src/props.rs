//! The properties: how their cases are generated and how a run is judged.
use crate::exec::{self, CallOut, End, Mode, RunResult, Status};
use crate::gen::*;
use plan::model;
use plan::*;
use simrt::Rng;
use std::collections::HashMap;

pub const PROPS: &[&str] =
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

#[derive(Debug, Clone)]
pub struct Viol {
    /// coarse kind, kept stable while a case is minimised
    pub class: String,
    pub what: String,
}

pub struct Info {
    pub runs: u64,
    pub full: RunResult,
}

type Ck = Result<Info, Viol>;

fn viol<T>(class: &str, what: String) -> Result<T, Viol> {
    Err(Viol { class: class.into(), what })
}

// ------------------------------------------------------------------ references
type B = Option<(P, P)>;

/// Reads encoded results back.
struct Cur<'a> {
    w: &'a [u64],
    i: usize,
}
impl<'a> Cur<'a> {
    fn new(w: &'a [u64]) -> Self {
        Cur { w, i: 0 }
    }
    fn n(&mut self) -> Result<u64, String> {
        self.i += 1;
        self.w.get(self.i - 1).copied().ok_or_else(|| "result shorter than expected".to_string())
    }
    fn f(&mut self) -> Result<f64, String> {
        Ok(f64::from_bits(self.n()?))
    }
    fn bx(&mut self) -> Result<B, String> {
        if self.n()? == 0 {
            return Ok(None);
        }
        Ok(Some(((self.f()?, self.f()?), (self.f()?, self.f()?))))
    }
    fn lbx(&mut self) -> Result<Option<(f64, f64)>, String> {
        if self.n()? == 0 {
            return Ok(None);
        }
        Ok(Some((self.f()?, self.f()?)))
    }
    fn list(&mut self) -> Result<Vec<u64>, String> {
        let n = self.n()? as usize;
        if self.i + n > self.w.len() {
            return Err("list longer than result".into());
        }
        let v = self.w[self.i..self.i + n].to_vec();
        self.i += n;
        Ok(v)
    }
    fn end(&self) -> Result<(), String> {
        if self.i == self.w.len() {
            Ok(())
        } else {
            Err("result longer than expected".into())
        }
    }
}

fn same_box(a: &B, b: &B) -> bool {
    a == b
}

fn show(b: &B) -> String {
    match b {
        None => "empty".into(),
        Some((l, h)) => format!("[{:?} {:?} .. {:?} {:?}]", l.0, l.1, h.0, h.1),
    }
}

fn fbox(ct: Ct, f: &[f64]) -> B {
    if f.len() < 4 {
        None
    } else {
        model::norm(ct, &BoxS::B((f[0], f[1]), (f[2], f[3])))
    }
}

fn items_of(ct: Ct, o: &Obj) -> Vec<B> {
    match o {
        Obj::Items(v) | Obj::Index { items: v, .. } => v.iter().map(|b| model::norm(ct, b)).collect(),
        Obj::GeoIndex { geos, .. } => geos.iter().map(|g| model::geo_bounds(ct, g)).collect(),
        _ => vec![],
    }
}

fn set_eq(what: &str, mut got: Vec<u64>, mut want: Vec<u64>, pairs: bool) -> Result<(), String> {
    got.sort_unstable();
    want.sort_unstable();
    let f = |x: u64| if pairs { format!("({}, {})", x >> 32, x & 0xffff_ffff) } else { x.to_string() };
    if let Some(w) = got.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("{}: {} reported twice", what, f(w[0])));
    }
    if got == want {
        return Ok(());
    }
    for w in &want {
        if got.binary_search(w).is_err() {
            return Err(format!("{}: {} missing", what, f(*w)));
        }
    }
    for g in &got {
        if want.binary_search(g).is_err() {
            return Err(format!("{}: {} reported wrongly", what, f(*g)));
        }
    }
    Ok(())
}

fn want_query(items: &[B], q: &B) -> Vec<u64> {
    (0..items.len()).filter(|i| model::meets(&items[*i], q)).map(|i| i as u64).collect()
}
fn want_self(items: &[B]) -> Vec<u64> {
    if items.len() > 3000 {
        let mut v = want_cross(items, items);
        v.retain(|x| x >> 32 < x & 0xffff_ffff);
        return v;
    }
    let mut v = vec![];
    for i in 0..items.len() {
        for j in i + 1..items.len() {
            if model::meets(&items[i], &items[j]) {
                v.push(((i as u64) << 32) | j as u64);
            }
        }
    }
    v
}
fn want_cross(a: &[B], b: &[B]) -> Vec<u64> {
    let mut v = vec![];
    if a.len().max(b.len()) > 3000 {
        // from left to right
        let f = |x: f64| x + 0.0;
        let mut ob: Vec<usize> = (0..b.len()).filter(|j| b[*j].is_some()).collect();
        ob.sort_by(|i, j| f(b[*i].unwrap().0 .0).total_cmp(&f(b[*j].unwrap().0 .0)));
        let wide = ob.iter().map(|j| b[*j].unwrap().1 .0 - b[*j].unwrap().0 .0).fold(0.0, f64::max);
        for (i, x) in a.iter().enumerate() {
            let Some(x) = x else { continue };
            let from = ob.partition_point(|j| b[*j].unwrap().0 .0 < x.0 .0 - wide - 1.0);
            for j in ob[from..].iter().take_while(|j| b[**j].unwrap().0 .0 <= x.1 .0) {
                if model::meets(&a[i], &b[*j]) {
                    v.push(((i as u64) << 32) | *j as u64);
                }
            }
        }
        return v;
    }
    for i in 0..a.len() {
        for j in 0..b.len() {
            if model::meets(&a[i], &b[j]) {
                v.push(((i as u64) << 32) | j as u64);
            }
        }
    }
    v
}
fn total(items: &[B]) -> B {
    items.iter().fold(None, |a, b| model::join(a, *b))
}

/// Reads an encoded walk over a tree; returns the boxes of its leaves.
fn read_walk(c: &mut Cur, n: usize) -> Result<(B, Vec<B>), String> {
    let cnt = c.n()?;
    let mut leaves: Vec<Option<B>> = vec![None; n];
    let mut root = None;
    for k in 0..cnt {
        let (level, sib) = (c.n()?, c.n()? as usize);
        let b = c.bx()?;
        if k == 0 {
            root = b;
        }
        if level == 0 {
            if sib < n {
                if leaves[sib].is_some() {
                    return Err(format!("tree: item {} stored twice", sib));
                }
                leaves[sib] = Some(b);
            } else if b.is_some() {
                return Err(format!("tree: leaf {} is no item but has a box", sib));
            }
        }
    }
    let mut v = vec![];
    for l in leaves {
        match l {
            // not met on the walk: below an empty node
            None => v.push(None),
            Some(b) => v.push(b),
        }
    }
    Ok((root, v))
}

fn check_walk(c: &mut Cur, items: &[B]) -> Result<(), String> {
    let (root, leaves) = read_walk(c, items.len())?;
    for (i, b) in leaves.iter().enumerate() {
        if !same_box(b, &items[i]) {
            return Err(format!("tree: item {} stored with box {}, not {}", i, show(b), show(&items[i])));
        }
    }
    let t = total(items);
    if !same_box(&root, &t) {
        return Err(format!("tree: root box {}, not {}", show(&root), show(&t)));
    }
    Ok(())
}

/// Exact answers of the index operations.
struct IdxRef {
    /// for the first and for the second number type
    items: [Vec<Vec<B>>; 2],
    memo: HashMap<(bool, usize, usize), Vec<u64>>,
}
impl IdxRef {
    fn new(p: &Plan) -> IdxRef {
        let of = |ct| p.objs.iter().map(|o| items_of(ct, o)).collect();
        IdxRef { items: [of(p.ct), p.ct2.map_or(vec![], of)], memo: HashMap::new() }
    }
    fn check(&mut self, p: &Plan, op: &Op, w: &[u64]) -> Result<(), String> {
        let mut c = Cur::new(w);
        let ct = p.ct_of(op);
        let alt = op.alt && p.ct2.is_some();
        let it = &self.items[alt as usize];
        match op.k {
            K::Query => set_eq("query", c.list()?, want_query(&it[op.a], &fbox(ct, &op.f)), false)?,
            K::Within => {
                let q = model::norm(ct, &model::within_box(ct, op.f[0], op.f[1], op.f[2]));
                set_eq("distance query", c.list()?, want_query(&it[op.a], &q), false)?
            }
            K::SelfJoin => {
                let want = self.memo.entry((alt, op.a, usize::MAX)).or_insert_with(|| want_self(&it[op.a])).clone();
                set_eq("self join", c.list()?, want, true)?
            }
            K::Cross => {
                let want = self.memo.entry((alt, op.a, op.b)).or_insert_with(|| want_cross(&it[op.a], &it[op.b])).clone();
                set_eq("join", c.list()?, want, true)?
            }
            K::IdxEnv => {
                let (got, want) = (c.bx()?, total(&it[op.a]));
                if !same_box(&got, &want) {
                    return Err(format!("index box {}, not {}", show(&got), show(&want)));
                }
            }
            K::Walk => check_walk(&mut c, &it[op.a])?,
            K::Build => {
                check_walk(&mut c, &it[op.a])?;
                for q in op.f.chunks(4) {
                    set_eq("query", c.list()?, want_query(&it[op.a], &fbox(ct, q)), false)?;
                }
            }
            _ => return Ok(()),
        }
        c.end()
    }
}

// ------------------------------------------------------------------- helpers
fn at(c: &CallOut, p: &Plan) -> String {
    format!("thread {} call {} ({})", c.thread, c.call, text::op(&p.ops[c.op]).chars().take(160).collect::<String>())
}

fn ended(r: &RunResult) -> Result<(), Viol> {
    match &r.end {
        End::Ok => Ok(()),
        End::Hang(t, k) => viol("hang", format!("thread {} call {} did not finish within its step budget", t, k)),
        End::Deadlock => viol("deadlock", "threads wait for each other for ever".into()),
        End::Setup(m) => viol("setup", format!("building the objects failed: {}", m)),
        End::Signal(s, t, k) => {
            viol("signal", format!("the process was ended by signal {} in thread {} call {}", s, t, k))
        }
        End::Exit(c) => viol("exit", format!("the process ended early with code {}", c)),
    }
}

/// Results of single calls made alone in a fresh process.
pub struct Solo<'a> {
    p: &'a Plan,
    memo: HashMap<usize, RunResult>,
    pub runs: u64,
}
impl<'a> Solo<'a> {
    fn new(p: &'a Plan) -> Self {
        Solo { p, memo: HashMap::new(), runs: 0 }
    }
    fn get(&mut self, op: usize) -> Result<&CallOut, Viol> {
        if !self.memo.contains_key(&op) {
            let r = exec::run(self.p, Mode::Solo(op));
            self.runs += 1;
            ended(&r)?;
            self.memo.insert(op, r);
        }
        self.memo[&op].calls.first().ok_or(Viol { class: "solo".into(), what: "no result".into() })
    }
    fn same(&mut self, c: &CallOut, what: &str) -> Result<(), Viol> {
        let p = self.p;
        let s = self.get(c.op)?;
        if s.status != c.status {
            return viol(
                "differs",
                format!("{}{}: ended with {:?} {}, alone it ends with {:?} {}", what, at(c, p), c.status, c.msg, s.status, s.msg),
            );
        }
        if s.words != c.words {
            let i = s.words.iter().zip(&c.words).take_while(|(a, b)| a == b).count();
            return viol(
                "differs",
                format!(
                    "{}{}: result differs from that of the same call made alone (at word {} of {}/{}: {:x?} against {:x?})",
                    what, at(c, p), i, c.words.len(), s.words.len(), c.words.get(i), s.words.get(i)
                ),
            );
        }
        Ok(())
    }
}

fn unchanged(r: &RunResult) -> Result<(), Viol> {
    if r.has_post && r.pre != r.post {
        return viol("changed", "a shared object is no longer what it was before the calls".into());
    }
    Ok(())
}

/// Memory held once every call has returned: (blocks, bytes) of library memory.
fn held(r: &RunResult) -> (i64, i64) {
    let l = r.calls.iter().max_by_key(|c| c.s1).map_or((r.live0.0, r.live0.1), |c| (c.live, c.live_bytes));
    (l.0.max(r.live1.0) - r.live0.0, l.1.max(r.live1.1) - r.live0.1)
}

/// Nothing more is held after faults than after the same calls without.
fn no_leak(p: &Plan, r: &RunResult, runs: &mut u64) -> Result<(), Viol> {
    let h = held(r);
    if h.0 <= 0 && h.1 <= 0 {
        return Ok(());
    }
    let n = exec::run(p, Mode::NoFault);
    *runs += 1;
    ended(&n)?;
    let m = held(&n);
    if h.0 > m.0 || h.1 > m.1 {
        return viol("leak", format!("{} blocks / {} bytes are still held after the failed calls, {} / {} without failures", h.0, h.1, m.0, m.1));
    }
    Ok(())
}

fn share(names: &[&str]) -> Result<(), Viol> {
    for (n, ok) in subject::shareable() {
        if !ok && names.iter().any(|x| n.contains(x)) {
            return viol("shareable", format!("{} can no longer be shared between threads", n));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation
fn add_indexes(g: &mut Gen, p: &mut Plan, max: usize) -> Vec<usize> {
    let n = 1 + g.r.us(3);
    let mut idx = vec![];
    for _ in 0..n {
        let items = match (idx.last(), g.r.pct(45)) {
            (Some(&i), true) => match &p.objs[i] as &Obj {
                Obj::Index { items, .. } => {
                    let items = items.clone();
                    g.sibling(&items)
                }
                _ => g.boxes(max),
            },
            _ => g.boxes(max),
        };
        let o = Obj::Index { degree: g.degree(), sorted: g.r.pct(65), items };
        idx.push(p.objs.len());
        p.objs.push(o);
    }
    if g.r.pct(12) {
        let st = g.st;
        let k = g.r.us(30);
        let geos = (0..k).map(|_| g.geo(12).0).collect();
        g.st = st;
        idx.push(p.objs.len());
        p.objs.push(Obj::GeoIndex { geos, degree: g.degree(), sorted: g.r.pct(65) });
    }
    idx
}

fn boxes_of(o: &Obj) -> Vec<BoxS> {
    match o {
        Obj::Index { items, .. } | Obj::Items(items) => items.clone(),
        _ => vec![],
    }
}

fn index_ops(g: &mut Gen, p: &mut Plan, idx: &[usize], n: usize) {
    let mut prev = vec![];
    for _ in 0..n {
        let a = *g.r.pick(idx);
        let items = boxes_of(&p.objs[a]);
        let o = g.index_op(a, idx, &items, &mut prev);
        p.ops.push(o);
    }
}

/// One index of very many boxes, a small one, and questions to both.
fn vast_indexes(g: &mut Gen, p: &mut Plan) -> Vec<usize> {
    // neither sorted nor in order, a join takes very long indeed
    let sorted = g.r.pct(80);
    let shuffled = sorted && g.r.pct(60);
    let v = g.vast(shuffled);
    g.st = 1;
    let few = g.boxes(60);
    let (n, mut prev) = (v.len(), vec![]);
    for (k, items) in [(0, v.clone()), (1, few)] {
        let sorted = if k == 0 { sorted } else { g.r.pct(65) };
        let o = Obj::Index { degree: g.degree().min(16), sorted, items };
        p.objs.push(o);
        if k == 0 {
            for i in [n - 1, g.r.us(n), n.min(65_536) - 1] {
                // exactly one of them, and whatever touches it
                if let BoxS::B(a, b) = v[i] {
                    let mut o = Op::on(K::Query, 0);
                    o.f = vec![a.0, a.1, b.0, b.1];
                    p.ops.push(o);
                }
            }
            let mut o = Op::on(K::Query, 0);
            o.f = g.query(&v, &mut prev);
            p.ops.push(o);
            p.ops.push(Op::on(K::SelfJoin, 0));
            p.ops.push(Op::on(*g.r.pick(&[K::IdxEnv, K::Walk]), 0));
        } else {
            for (a, b) in [(0, 1), (1, 0)] {
                let mut o = Op::on(K::Cross, a);
                o.b = b;
                p.ops.push(o);
            }
        }
    }
    vec![0, 1]
}

/// Joins with very large results are asked for over small indexes only.
fn tame(p: &mut Plan) {
    tame_as(p, p.ct);
    if let Some(c) = p.ct2 {
        tame_as(p, c);
    }
}

fn tame_as(p: &mut Plan, ct: Ct) {
    let items: Vec<Vec<B>> = p.objs.iter().map(|o| items_of(ct, o)).collect();
    let mut memo: HashMap<(usize, usize), bool> = HashMap::new();
    for o in p.ops.iter_mut() {
        if items.iter().any(|v| v.len() > 3000) {
            break;
        }
        let (a, b) = match o.k {
            K::SelfJoin => (o.a, o.a),
            K::Cross => (o.a, o.b),
            _ => continue,
        };
        let big = *memo.entry((a, b)).or_insert_with(|| {
            let n: usize = items[a].iter().map(|x| items[b].iter().filter(|y| model::meets(x, y)).count()).sum();
            n > 20_000
        });
        if big {
            o.k = K::IdxEnv;
        }
    }
}

fn build_ops(g: &mut Gen, p: &mut Plan, n: usize, max: usize) {
    let a = p.objs.len();
    let v = g.boxes(max);
    p.objs.push(Obj::Items(v.clone()));
    let mut prev = vec![];
    for _ in 0..n {
        let mut o = Op::on(K::Build, a);
        o.n = vec![g.degree() as u64, g.r.pct(65) as u64];
        for _ in 0..g.r.us(3) {
            let q = g.query(&v, &mut prev);
            if q.len() == 4 {
                o.f.extend(q);
            }
        }
        p.ops.push(o);
    }
}

/// Two geometries made from one, the first only just valid or not, the second
/// on the other side of that by the smallest of differences.
fn close_call(g: &mut Gen, x: &Geo) -> Option<(Geo, Geo)> {
    let ct = g.ct;
    let r = &mut g.r;
    fn ring<'a>(r: &mut Rng, x: &'a mut Geo) -> Option<&'a mut Vec<P>> {
        Some(match x {
            Geo::Line(v) | Geo::MPoint(v) => v,
            Geo::Poly(e, i) => {
                if i.is_empty() || r.pct(50) {
                    e
                } else {
                    let k = r.us(i.len());
                    &mut i[k]
                }
            }
            Geo::MLine(v) if !v.is_empty() => {
                let k = r.us(v.len());
                &mut v[k]
            }
            Geo::MPoly(v) if !v.is_empty() => {
                let k = r.us(v.len());
                &mut v[k].0
            }
            _ => return None,
        })
    }
    let (mut a, mut b) = (x.clone(), x.clone());
    let mut r2 = r.clone();
    let v = ring(r, &mut a)?;
    let w = ring(&mut r2, &mut b)?;
    *r = r2;
    let n = v.len();
    if n < 3 {
        return None;
    }
    let (i, how) = (1 + r.us(n - 1), r.below(4));
    let q = match how {
        0 if n > 3 => v[0],
        1 if n > 3 => ((v[0].0 + v[1].0) / 2.0, (v[0].1 + v[1].1) / 2.0),
        _ => v[i - 1],
    };
    let i = if how < 2 && n > 3 { n - 1 } else { i };
    let up = |x: f64, k: u64| {
        if ct == Ct::F32 {
            let x = x as f32;
            f32::from_bits(if x == 0.0 { 0x0080_0000 } else { x.to_bits() ^ (k as u32 & 7) }) as f64
        } else {
            f64::from_bits(if x == 0.0 { 0x0010_0000_0000_0000 } else { x.to_bits() ^ k })
        }
    };
    let k = *r.pick(&[1u64, 1, 2, 5, 1 << 10, 1 << 20]);
    let e = if r.pct(50) { (up(q.0, k), q.1) } else { (q.0, up(q.1, k)) };
    v[i] = q;
    w[i] = e;
    for p in v.iter_mut().chain(w.iter_mut()) {
        *p = (model::rc(ct, p.0), model::rc(ct, p.1));
    }
    Some(if r.pct(50) { (a, b) } else { (b, a) })
}

/// Something that differs in a few places only and agrees in whatever else a
/// careless summary might look at: number of points, ends, bounding box, sums.
fn vary(g: &mut Gen, x: &Geo) -> Geo {
    let mut y = x.clone();
    let d = g.ext() + 0.5;
    let ct = g.ct;
    let r = &mut g.r;
    fn tweak(r: &mut Rng, v: &mut Vec<P>, d: f64, ct: Ct) {
        let n = v.len();
        if n == 0 {
            return;
        }
        let ring = n > 3 && v[0] == v[n - 1];
        let lo = v.iter().fold((f64::INFINITY, f64::INFINITY), |a, p| (a.0.min(p.0), a.1.min(p.1)));
        let hi = v.iter().fold((f64::NEG_INFINITY, f64::NEG_INFINITY), |a, p| (a.0.max(p.0), a.1.max(p.1)));
        match r.below(13) {
            0 => v.reverse(),
            1 => {
                v.pop();
            }
            2 => {
                let i = r.us(n);
                v[i].0 += d
            }
            3 => {
                let i = r.us(n);
                v[i].1 -= d
            }
            4 => {
                // as little as possible
                let i = r.us(n);
                let f = |x: f64| {
                    if ct == Ct::F32 {
                        let x = x as f32;
                        f32::from_bits(if x == 0.0 { 0x0080_0000 } else { x.to_bits() ^ 1 }) as f64
                    } else {
                        f64::from_bits(if x == 0.0 { 0x0010_0000_0000_0000 } else { x.to_bits() ^ 1 })
                    }
                };
                if r.pct(50) {
                    v[i].0 = f(v[i].0)
                } else {
                    v[i].1 = f(v[i].1)
                }
            }
            5 if n > 2 => {
                // an inner point elsewhere within the box
                let i = 1 + r.us(n - 2);
                let (t, u) = (r.unit(), r.unit());
                v[i] = (lo.0 + (hi.0 - lo.0) * t, lo.1 + (hi.1 - lo.1) * u);
            }
            6 if n > 3 => {
                // swap two inner points
                let (i, j) = (1 + r.us(n - 2), 1 + r.us(n - 2));
                v.swap(i, j);
            }
            7 => {
                // mirrored in its box
                for p in v.iter_mut() {
                    p.0 = lo.0 + (hi.0 - p.0)
                }
            }
            8 => {
                for p in v.iter_mut() {
                    p.1 = lo.1 + (hi.1 - p.1)
                }
            }
            9 if ring => {
                v.pop();
                let k = r.us(n - 1);
                v.rotate_left(k);
                v.push(v[0]);
            }
            10 if n > 2 => {
                let i = 1 + r.us(n - 2);
                v[i] = v[i - 1];
            }
            11 => {
                // other signs
                for p in v.iter_mut() {
                    if p.0 == 0.0 {
                        p.0 = -p.0
                    }
                    if p.1 == 0.0 {
                        p.1 = -p.1
                    }
                }
            }
            _ => {
                for p in v.iter_mut() {
                    *p = (p.0 + d, p.1)
                }
            }
        }
        for p in v.iter_mut() {
            *p = (model::rc(ct, p.0), model::rc(ct, p.1));
        }
    }
    fn poly(r: &mut Rng, e: &mut Vec<P>, i: &mut Vec<Vec<P>>, d: f64, ct: Ct) {
        if i.is_empty() {
            return tweak(r, e, d, ct);
        }
        let k = r.us(i.len());
        match r.below(6) {
            0 | 1 => tweak(r, e, d, ct),
            2 => {
                i.pop();
            }
            3 => {
                i.swap_remove(k);
            }
            _ => tweak(r, &mut i[k], d, ct),
        }
    }
    match &mut y {
        Geo::Empty => (),
        Geo::Point(p) => p.0 += d,
        Geo::Line(v) | Geo::MPoint(v) => tweak(r, v, d, ct),
        Geo::Poly(e, i) => poly(r, e, i, d, ct),
        Geo::MLine(v) if !v.is_empty() => {
            let k = r.us(v.len());
            match r.below(5) {
                0 => v.rotate_left(k),
                _ => tweak(r, &mut v[k], d, ct),
            }
        }
        Geo::MPoly(v) if !v.is_empty() => {
            let k = r.us(v.len());
            match r.below(5) {
                0 => v.rotate_left(k),
                _ => {
                    let (e, i) = &mut v[k];
                    poly(r, e, i, d, ct)
                }
            }
        }
        _ => (),
    }
    y
}

fn geo_ops(g: &mut Gen, p: &mut Plan, nobj: usize, nops: usize, max: usize) {
    let mut gs: Vec<(usize, bool)> = vec![];
    let mut kin: HashMap<usize, usize> = HashMap::new();
    let mut lins = vec![];
    for _ in 0..nobj {
        if g.r.pct(12) {
            lins.push(p.objs.len());
            let l = g.lin();
            p.objs.push(Obj::Lin(l));
            continue;
        }
        let (geo, simple) = match (gs.last(), g.r.pct(35)) {
            (Some(&(i, _)), true) => match p.objs[i].clone() {
                Obj::Geo(x) => {
                    kin.insert(i, p.objs.len());
                    kin.insert(p.objs.len(), i);
                    let close = if g.r.pct(25) { close_call(g, &x) } else { None };
                    match close {
                        Some((x, y)) => {
                            p.objs[i] = Obj::Geo(x);
                            if let Some(l) = gs.last_mut() {
                                l.1 = false;
                            }
                            (y, false)
                        }
                        None => (vary(g, &x), false),
                    }
                }
                _ => g.geo(max),
            },
            _ => g.geo(max),
        };
        gs.push((p.objs.len(), simple));
        p.objs.push(Obj::Geo(geo));
        if matches!(p.prop.as_str(), "C02" | "C03" | "C12") && g.r.pct(6) {
            if let Some(Obj::Geo(x)) = p.objs.last_mut() {
                wild(&mut g.r, x);
            }
        }
    }
    for _ in 0..nops {
        if g.r.pct(8) && !lins.is_empty() {
            let mut o = Op::on(K::L, *g.r.pick(&lins));
            o.n = vec![g.r.below(14)];
            o.fresh = g.r.pct(15);
            p.ops.push(o);
        } else if g.r.pct(10) || gs.is_empty() {
            let st = g.st;
            let o = g.prim_op();
            g.st = st;
            p.ops.push(o);
        } else if g.r.pct(8) {
            let mut o = Op::on(K::Eq, g.r.pick(&gs).0);
            o.b = g.r.pick(&gs).0;
            p.ops.push(o);
        } else {
            let (i, s) = *g.r.pick(&gs);
            if let Obj::Geo(x) = p.objs[i].clone() {
                let o = g.geo_op(i, &x, s);
                if let (Some(&j), true) = (kin.get(&i), g.r.pct(60) && o.n[0] != gm("hull") as u64) {
                    // the same question to the other one
                    let mut o2 = o.clone();
                    o2.a = j;
                    p.ops.push(o2);
                }
                if let (Some(&j), true) = (kin.get(&i), matches!(p.prop.as_str(), "C02" | "C03") && g.r.pct(40)) {
                    // ask, edit, ask again
                    let y = match &p.objs[j] {
                        Obj::Geo(y) => y.clone(),
                        _ => Geo::Empty,
                    };
                    let m2 = g.geo_op(j, &y, false).n[0];
                    let m1 = if g.r.pct(60) { m2 } else { o.n[0] };
                    let mut e = Op::on(K::Edit, i);
                    e.b = j;
                    e.n = vec![m1, m2, g.r.pct(30) as u64];
                    e.f = o.f.clone();
                    if m1 != gm("hull") as u64 && m2 != gm("hull") as u64 {
                        p.ops.push(e);
                    }
                }
                p.ops.push(o);
            }
        }
    }
}

fn vast_geo_ops(g: &mut Gen, p: &mut Plan) {
    let (x, ms) = g.vast_geo();
    p.objs.push(Obj::Geo(x));
    let k = g.r.us(ms.len());
    for j in 0..ms.len().min(5) {
        let mut o = Op::on(K::G, 0);
        o.n = vec![gm(ms[(k + j) % ms.len()]) as u64];
        p.ops.push(o);
    }
}

fn geo_ix(x: &Geo) -> u64 {
    match x {
        Geo::Empty => 0,
        Geo::Point(_) => 1,
        Geo::Line(_) => 2,
        Geo::Poly(..) => 3,
        Geo::MPoint(_) => 4,
        Geo::MLine(_) => 5,
        Geo::MPoly(_) => 6,
    }
}

/// Something long enough to be worth dividing up.
fn long_ops(g: &mut Gen, p: &mut Plan) {
    let n = *g.r.pick(&[40, 70, 130, 260, 520, 1100]) + g.r.us(9);
    let st = std::mem::replace(&mut g.st, *g.r.clone().pick(&[2, 3, 7]));
    let (x, ms): (Geo, &[&str]) = match g.r.below(4) {
        0 | 1 => {
            // a walk, which seldom meets itself
            let mut q = g.p();
            let v = (0..n)
                .map(|_| {
                    q = (model::rc(g.ct, q.0 + g.r.unit()), model::rc(g.ct, q.1 + g.r.unit() - 0.5));
                    q
                })
                .collect();
            (Geo::Line(v), &["len", "len", "len", "env", "segs", "validate", "hull", "rtree", "collect"])
        }
        2 => {
            let v = (0..n / 3).map(|_| vec![g.p(), g.p(), g.p()]).collect();
            (Geo::MLine(v), &["len", "len", "env", "boundary", "closed"])
        }
        _ => (Geo::MPoint((0..n).map(|_| g.p()).collect()), &["env", "msimple", "simple", "hull", "validate"]),
    };
    g.st = st;
    for _ in 0..1 + g.r.us(3) {
        let mut o = Op::on(K::G, p.objs.len());
        o.n = vec![gm(*g.r.pick(ms)) as u64];
        p.ops.push(o);
    }
    p.objs.push(Obj::Geo(x));
}

/// The same one or two calls over and over, each of them failing, and then
/// everything once more without failures. Returns how many of the calls of
/// each thread belong to the bad times.
fn storm(g: &mut Gen, p: &mut Plan, allocs: bool) -> Vec<usize> {
    let n = p.ops.len();
    let nt = *g.r.pick(&[1, 1, 2]);
    // the calls that can fail at all, by what they are
    let mut by: std::collections::BTreeMap<(u64, u64, u64), Vec<usize>> = Default::default();
    p.threads = vec![(0..n).collect()];
    if let Some(pr) = profile(p) {
        let v = if allocs { &pr.allocs[0] } else { &pr.cbs[0] };
        for (o, op) in p.ops.iter().enumerate() {
            if v[o] > 0 {
                let sub = if op.k == K::G { op.n.first().copied().unwrap_or(0) } else { 0 };
                let ty = match p.objs.get(op.a) {
                    Some(Obj::Geo(x)) => geo_ix(x),
                    _ => 99,
                };
                by.entry((op.k as u64, sub, ty)).or_default().push(o);
            }
        }
    }
    let by: Vec<Vec<usize>> = by.into_values().collect();
    let hots = |r: &mut Rng| {
        if by.is_empty() || r.pct(10) {
            r.us(n)
        } else {
            let v = r.pick(&by);
            *r.pick(v)
        }
    };
    let mut bad = vec![];
    p.threads.clear();
    for t in 0..nt {
        let hot = [hots(&mut g.r), hots(&mut g.r)];
        let k = if t == 0 { *g.r.pick(&[8, 12, 20, 40]) } else { g.r.us(10) };
        let one = g.r.pct(60);
        let mut v: Vec<usize> = (0..k).map(|_| if one || g.r.pct(50) { hot[0] } else { hot[1] }).collect();
        bad.push(v.len());
        let mut rest: Vec<usize> = (0..n).collect();
        g.r.shuffle(&mut rest);
        rest.truncate(12);
        v.push(hot[0]);
        v.extend(rest);
        p.threads.push(v);
    }
    p.start = 0;
    bad
}

/// A number that is none, or endless, somewhere.
fn wild(r: &mut Rng, x: &mut Geo) {
    let mut all: Vec<&mut P> = match x {
        Geo::Empty => vec![],
        Geo::Point(p) => vec![p],
        Geo::Line(v) | Geo::MPoint(v) => v.iter_mut().collect(),
        Geo::Poly(e, i) => e.iter_mut().chain(i.iter_mut().flatten()).collect(),
        Geo::MLine(v) => v.iter_mut().flatten().collect(),
        Geo::MPoly(v) => v.iter_mut().flat_map(|(e, i)| e.iter_mut().chain(i.iter_mut().flatten())).collect(),
    };
    if all.is_empty() {
        return;
    }
    for _ in 0..1 + r.us(2) {
        let k = r.us(all.len());
        let v = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, -f64::INFINITY]);
        if r.pct(50) {
            all[k].0 = v
        } else {
            all[k].1 = v
        }
    }
}

/// A place more often in a row than it need be.
fn stutter(r: &mut Rng, x: &mut Geo) {
    let v = match x {
        Geo::Line(v) | Geo::MPoint(v) => v,
        Geo::Poly(e, i) => {
            if i.is_empty() || r.pct(50) {
                e
            } else {
                let k = r.us(i.len());
                &mut i[k]
            }
        }
        Geo::MLine(v) if !v.is_empty() => {
            let k = r.us(v.len());
            &mut v[k]
        }
        Geo::MPoly(v) if !v.is_empty() => {
            let k = r.us(v.len());
            &mut v[k].0
        }
        _ => return,
    };
    if v.is_empty() {
        return;
    }
    let n = v.len();
    let i = match r.below(4) {
        0 | 1 => n - 1,
        2 => 0,
        _ => r.us(n),
    };
    for _ in 0..1 + r.us(2) {
        v.insert(i, v[i]);
    }
}

/// A way of writing.
fn style(r: &mut Rng) -> u64 {
    let mut s = r.below(32);
    for b in 5..9 {
        s |= (r.pct(15) as u64) << b;
    }
    s
}

/// Numbers at and past the ends of what a number can be, spelled at length.
fn exotic(r: &mut Rng, t: &str) -> String {
    const ODD: &[&str] = &[
        "5e-324", "-4.9e-324", "1e-310", "2.2250738585072011e-308", "2.2250738585072014e-308", "1e-400", "-1e-400", "1e-323",
        "1.7976931348623157e308", "-1.7976931348623157e308", "1e308", "1e309", "-1e999", "9007199254740993", "-9007199254740993",
        "18446744073709551616", "340282366920938463463374607431768211456", "0.1000000000000000055511151231257827",
        "1.00000000000000011102230246251565404236316680908203125", "1.000000000000000111022302462515654042363166809082031250001",
        "0.30000000000000004", "000000000000000000000000000001", "-000.5000000000000000000000000", "1e-0", "1E+05", "1e+00000000000000000005",
        "123456789012345678901234567890e-30", "0.000000000000000000000000000000000000000012345e40", "0x10", "1_000", "1e", "e5", "--1", "+-1", "1.2.3",
        "inf", "NaN", "-inf", "infinity", "+.5", "-.5", "5.", ".", "-", "+", "1e5.5", "4294967296", "2147483648", "-2147483649", "65536", "16777217",
        "1e22", "1e23", "8.5e22", "0.1e1", "1d5", "1f", "1L", "1e1e1",
    ];
    let mut cut: Vec<(usize, usize)> = vec![];
    let is = |c: u8| c.is_ascii_digit() || matches!(c, b'.' | b'-' | b'+');
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && (is(b[j]) || (j > i && (b[j] == b'e' || b[j] == b'E'))) {
            j += 1;
        }
        if j > i {
            cut.push((i, j));
        }
        i = j.max(i + 1);
    }
    if cut.is_empty() {
        return t.to_string();
    }
    let mut s = t.to_string();
    let mut last = s.len() + 1;
    let n = 1 + r.us(3);
    let mut at: Vec<usize> = (0..n).map(|_| r.us(cut.len())).collect();
    at.sort();
    at.dedup();
    // mostly numbers, or nearly every text would be refused
    for k in at.into_iter().rev() {
        let (a, z) = cut[k];
        assert!(z < last);
        last = a + 1;
        let new = match r.below(10) {
            0..=2 => {
                let v = *r.pick(ODD);
                v.to_string()
            }
            3..=6 => ODD[r.us(27)].to_string(),
            _ => {
                let mut d: String = (0..1 + r.us(36)).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
                if r.pct(70) {
                    d.insert(r.us(d.len()), '.');
                }
                if r.pct(40) {
                    d += &format!("e{}", r.range(-330, 330));
                }
                if r.pct(30) {
                    d.insert(0, '-');
                }
                d
            }
        };
        s.replace_range(a..z, &new);
    }
    s
}

fn text_ops(g: &mut Gen, p: &mut Plan, n: usize, max: usize) {
    for _ in 0..n {
        let (x, _) = g.geo(max);
        let t = wktref::render(&x, style(&mut g.r));
        p.ops.push(Op::on(K::Wkt, p.objs.len()));
        p.objs.push(Obj::Text(t.into_bytes()));
    }
}

/// Geometries that touch themselves, asked about in the ways that look at it.
fn touchy(g: &mut Gen, p: &mut Plan) {
    if matches!(g.st, 5 | 6 | 9) {
        g.st = 1;
    }
    for _ in 0..1 + g.r.us(2) {
        let x = match g.r.below(4) {
            0 | 1 => {
                let (a, b) = g.corner_rings();
                let (a, b) = if g.r.pct(70) { (a, b) } else { (b, a) };
                Geo::Poly(a, vec![b])
            }
            2 => {
                let (a, b) = g.corner_rings();
                let mut v = vec![(a, vec![]), (b, vec![])];
                g.r.shuffle(&mut v);
                Geo::MPoly(v)
            }
            _ => {
                // lines between few places
                let ps: Vec<P> = (0..3 + g.r.us(12)).map(|_| g.p()).collect();
                let n = 2 + g.r.us(40);
                Geo::MLine((0..n).map(|_| vec![*g.r.pick(&ps), *g.r.pick(&ps)]).collect())
            }
        };
        let ms: &[&str] = if matches!(x, Geo::MLine(_)) { &["boundary", "validate"] } else { &["validate", "validate", "simple", "boundary"] };
        for _ in 0..1 + g.r.us(2) {
            let mut o = Op::on(K::G, p.objs.len());
            o.n = vec![gm(*g.r.pick(ms)) as u64];
            o.fresh = g.r.pct(30);
            p.ops.push(o);
        }
        p.objs.push(Obj::Geo(x));
    }
}

/// A bit of everything.
fn mixed(g: &mut Gen, p: &mut Plan, small: bool) {
    let m = if small { 60 } else { 400 };
    if g.r.pct(55) {
        let idx = add_indexes(g, p, m);
        let k = 2 + g.r.us(5);
        index_ops(g, p, &idx, k);
    }
    if g.r.pct(35) {
        let k = 1 + g.r.us(2);
        build_ops(g, p, k, m);
    }
    if g.r.pct(60) || p.ops.is_empty() {
        let (a, b) = (1 + g.r.us(4), 2 + g.r.us(8));
        geo_ops(g, p, a, b, if small { 14 } else { 40 });
    }
    if g.r.pct(20) {
        let k = 1 + g.r.us(2);
        text_ops(g, p, k, 10);
    }
    if g.r.pct(12) {
        touchy(g, p);
    }
}

/// A program that works with two number types at a time: some of the calls go
/// to the same objects of another type.
fn two_types(g: &mut Gen, p: &mut Plan, pct: u64) {
    let huge = |o: &Obj| match o {
        Obj::Items(v) | Obj::Index { items: v, .. } => v.len() > 3000,
        _ => false,
    };
    if !g.r.pct(pct) || matches!(g.st, 5 | 6 | 9) || p.objs.iter().any(huge) {
        return;
    }
    p.ct2 = Some(match p.ct {
        Ct::F64 => *g.r.pick(&[Ct::F32, Ct::F32, Ct::Sim]),
        Ct::F32 => Ct::F64,
        Ct::Sim => *g.r.pick(&[Ct::F64, Ct::F32]),
    });
    // the same call of one type next to that of the other
    for i in 0..p.ops.len() {
        if p.ops[i].k == K::Wkt {
            continue;
        }
        if g.r.pct(40) {
            let mut o = p.ops[i].clone();
            o.alt = true;
            p.ops.push(o);
        } else {
            p.ops[i].alt = g.r.pct(40);
        }
    }
}

/// Threads come and go, and some use the library to the very end.
fn life(g: &mut Gen, p: &mut Plan, pct: u64) {
    if p.calls() <= 60 && g.r.pct(pct) {
        let cost: u64 = p.ops.iter().map(|o| o.reps).max().unwrap_or(1);
        let big = p.objs.iter().any(|o| match o {
            Obj::Items(v) | Obj::Index { items: v, .. } => v.len() > 1500,
            _ => false,
        });
        if cost == 1 && !big {
            p.waves = 2 + g.r.us(3);
        }
    }
    p.exits = g.r.pct(10);
}

fn fuss(g: &mut Gen, p: &mut Plan) -> Option<Prof> {
    let pr = profile(p)?;
    let mut r = Rng::new(g.r.next());
    preempt(p, &pr, &mut r);
    Some(pr)
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Gen::new(seed);
    let g = &mut g;
    let mut p = Plan::new(prop, seed);
    match prop {
        "C01" => {
            p.ct = g.ct;
            p.env = g.env();
            let many = g.r.pct(4);
            let big = !many && g.r.pct(12);
            let scale = g.r.below(1000);
            let (vast, long) = (scale < 2, scale >= 995);
            let idx = if vast {
                vast_indexes(g, &mut p)
            } else {
                add_indexes(g, &mut p, if long { 6 } else if big { 1200 } else { 150 })
            };
            if vast {
                let n = p.ops.len();
                p.threads = (0..2).map(|_| (0..2 + g.r.us(3)).map(|_| g.r.us(n)).collect()).collect();
            } else if many {
                // many different questions in a row
                index_ops(g, &mut p, &idx[..1], 300);
                let mut joins = 0;
                for o in p.ops.iter_mut() {
                    if matches!(o.k, K::SelfJoin | K::Cross | K::Walk) {
                        joins += 1;
                        if joins > 9 {
                            o.k = K::IdxEnv;
                        }
                    }
                }
                p.threads = vec![(0..300).collect(), vec![0; 10]];
            } else {
                let k = 3 + g.r.us(9);
                index_ops(g, &mut p, &idx, k);
                if g.r.pct(40) {
                    build_ops(g, &mut p, 2, if big { 1200 } else { 100 });
                }
                let (nt, per) = (g.nthreads(), 1 + g.r.us(if big { 3 } else { 7 }));
                two_types(g, &mut p, 15);
                if !big && g.r.pct(5) {
                    crowd(g, &mut p);
                    tame(&mut p);
                    if let Some(pr) = fuss(g, &mut p) {
                        let mut r = Rng::new(g.r.next());
                        hold(&mut p, &pr, &mut r, false);
                    }
                    return p;
                }
                g.deal(&mut p, nt, per);
            }
            tame(&mut p);
            if long && !vast {
                let mut r = Rng::new(g.r.next());
                marathon(&mut p, &mut r);
            }
            life(g, &mut p, 8);
            if let Some(pr) = fuss(g, &mut p) {
                if g.r.pct(10) {
                    let mut r = Rng::new(g.r.next());
                    stall(&mut p, &pr, &mut r, false);
                }
            }
        }
        "C02" => {
            p.ct = g.ct;
            p.env = g.env();
            let crowd = g.r.pct(3);
            let scale = g.r.below(1000);
            let (vast, long) = (scale < 2, scale >= 995 && !crowd);
            let (a, b) = if crowd { (30 + g.r.us(70), 100) } else { (1 + g.r.us(5), 3 + g.r.us(10)) };
            let max = if crowd || long { 6 } else if g.r.pct(20) { 60 } else { 16 };
            if vast {
                vast_geo_ops(g, &mut p);
            } else {
                geo_ops(g, &mut p, a, b, max);
                if !crowd && !long && g.r.pct(5) {
                    long_ops(g, &mut p);
                }
            }
            if vast {
                p.threads = vec![(0..p.ops.len()).collect(), vec![g.r.us(p.ops.len())]];
            } else if crowd || g.r.pct(2) {
                let n = p.ops.len();
                p.threads = vec![(0..300).map(|_| g.r.us(n)).collect(), vec![0; 5]];
            } else {
                let (nt, per) = (g.nthreads(), 1 + g.r.us(8));
                two_types(g, &mut p, 25);
                if !long && g.r.pct(5) {
                    crate::gen::crowd(g, &mut p);
                    if let Some(pr) = fuss(g, &mut p) {
                        let mut r = Rng::new(g.r.next());
                        hold(&mut p, &pr, &mut r, false);
                    }
                    return p;
                }
                g.deal(&mut p, nt, per);
            }
            if long && !vast {
                let mut r = Rng::new(g.r.next());
                marathon(&mut p, &mut r);
            }
            life(g, &mut p, 8);
            if let Some(pr) = fuss(g, &mut p) {
                if g.r.pct(10) {
                    let mut r = Rng::new(g.r.next());
                    stall(&mut p, &pr, &mut r, false);
                }
            }
        }
        "C03" => {
            p.ct = g.ct;
            p.env = g.env();
            mixed(g, &mut p, g.r.clone().pct(70));
            if g.r.pct(8) {
                long_ops(g, &mut p);
            }
            let (nt, per) = (g.nthreads(), 2 + g.r.us(7));
            two_types(g, &mut p, 15);
            if g.r.pct(3) {
                crowd(g, &mut p);
                if let Some(pr) = fuss(g, &mut p) {
                    let mut r = Rng::new(g.r.next());
                    hold(&mut p, &pr, &mut r, false);
                }
                return p;
            }
            g.deal(&mut p, nt, per);
            if g.r.below(1000) < 5 {
                let mut r = Rng::new(g.r.next());
                marathon(&mut p, &mut r);
            }
            life(g, &mut p, 8);
            fuss(g, &mut p);
        }
        "C04" => {
            if g.r.pct(60) {
                g.ct = Ct::Sim;
            }
            p.ct = g.ct;
            p.env = g.env();
            let small = true;
            match g.r.below(4) {
                0 => mixed(g, &mut p, small),
                1 => {
                    let (a, b) = (1 + g.r.us(4), 2 + g.r.us(6));
                    g.ct = Ct::Sim;
                    p.ct = Ct::Sim;
                    geo_ops(g, &mut p, a, b, 12);
                }
                _ => {
                    build_ops(g, &mut p, 2, 40);
                    let a = p.objs.len() - 1;
                    for _ in 0..1 + g.r.us(3) {
                        let mut o = Op::on(if g.r.pct(40) { K::BoxOf } else { K::Expand }, a);
                        o.n = vec![g.r.below(3)];
                        if g.r.pct(60) {
                            o.f = (0..4).map(|_| g.c()).collect();
                        }
                        p.ops.push(o);
                    }
                    let idx = add_indexes(g, &mut p, 40);
                    index_ops(g, &mut p, &idx, 3);
                }
            }
            let (nt, per) = (*g.r.pick(&[1, 1, 2, 2, 3]), 3 + g.r.us(6));
            if g.r.pct(13) {
                let bad = storm(g, &mut p, false);
                if let Some(pr) = fuss(g, &mut p) {
                    let same = g.r.pct(50);
                    let u = g.r.unit();
                    for (t, n) in bad.into_iter().enumerate() {
                        for k in 0..n {
                            let m = pr.cbs[t][k];
                            let u = if same { u } else { g.r.unit() };
                            if m > 0 {
                                p.cbs.push((t, k, 1 + (u * m as f64) as u64 % m, CbAct::Panic));
                            }
                        }
                    }
                }
                return p;
            }
            two_types(g, &mut p, 15);
            g.deal(&mut p, nt, per);
            if let Some(pr) = fuss(g, &mut p) {
                for _ in 0..1 + g.r.us(4) {
                    let t = g.r.us(nt);
                    if p.threads[t].is_empty() {
                        continue;
                    }
                    let k = g.r.us(pr.cbs[t].len());
                    let n = pr.cbs[t][k];
                    if n > 0 && !p.cbs.iter().any(|c| c.0 == t && c.1 == k) {
                        let s = match g.r.below(5) {
                            0 => 1 + g.r.below(n.min(4)),
                            1 => n - g.r.below(n.min(4)),
                            _ => 1 + g.r.below(n),
                        };
                        p.cbs.push((t, k, s, CbAct::Panic));
                        // the same call once more, later
                        let o = p.threads[t][k];
                        p.threads[t].push(o);
                    }
                }
            }
        }
        "C05" => {
            p.ct = g.ct;
            p.env = g.env();
            mixed(g, &mut p, true);
            for o in p.objs.iter_mut() {
                // std's B-tree does not promise to survive failed node splits
                match o {
                    Obj::Geo(Geo::MPoint(v)) => v.truncate(10),
                    Obj::Geo(Geo::MLine(v)) => v.truncate(5),
                    _ => (),
                }
            }
            let (nt, per) = (*g.r.pick(&[1, 1, 2, 2, 3]), 3 + g.r.us(6));
            if g.r.pct(13) {
                let bad = storm(g, &mut p, true);
                if let Some(pr) = fuss(g, &mut p) {
                    let same = g.r.pct(50);
                    let u = g.r.unit();
                    let cnt = *g.r.pick(&[1, 1, 1, 3, 1 << 40]);
                    // (std's own code for starting threads does not survive this)
                    if pr.libs {
                        return p;
                    }
                    for (t, n) in bad.into_iter().enumerate() {
                        for k in 0..n {
                            let m = pr.allocs[t][k];
                            let u = if same { u } else { g.r.unit() };
                            if m > 0 {
                                p.als.push((t, k, 1 + (u * m as f64) as u64 % m, cnt));
                            }
                        }
                    }
                }
                return p;
            }
            two_types(g, &mut p, 15);
            g.deal(&mut p, nt, per);
            if let Some(pr) = fuss(g, &mut p) {
                for _ in 0..if pr.libs { 0 } else { 1 + g.r.us(4) } {
                    let t = g.r.us(nt);
                    if p.threads[t].is_empty() {
                        continue;
                    }
                    let k = g.r.us(pr.allocs[t].len());
                    let n = pr.allocs[t][k];
                    if n > 0 && !p.als.iter().any(|c| c.0 == t && c.1 == k) {
                        let first = match g.r.below(4) {
                            0 => 1 + g.r.below(n.min(4)),
                            1 => n - g.r.below(n.min(4)),
                            _ => 1 + g.r.below(n),
                        };
                        let cnt = match g.r.below(10) {
                            0..=5 => 1,
                            6..=8 => 2 + g.r.below(4),
                            _ => 1 << 40,
                        };
                        p.als.push((t, k, first, cnt));
                        let o = p.threads[t][k];
                        p.threads[t].push(o);
                    }
                }
            }
        }
        "C06" => {
            p.env = g.env();
            g.ct = Ct::F64;
            let n = 2 + g.r.us(5);
            p.extra = vec![0; DAMAGE.len()];
            let mut docs: Vec<Vec<u8>> = vec![];
            for _ in 0..n {
                let m = match g.r.below(1000) {
                    0 => 20_000,
                    1..=150 => 60,
                    _ => 10,
                };
                let (mut x, _) = g.geo(m);
                if g.r.pct(20) {
                    stutter(&mut g.r, &mut x);
                }
                let mut t = wktref::render(&x, style(&mut g.r));
                if g.r.pct(10) {
                    t = exotic(&mut g.r, &t);
                }
                if g.r.pct(6) {
                    t = format!("GEOMETRYCOLLECTION({})", t);
                } else if g.r.below(1000) < 4 {
                    // one inside another, far too often
                    let (open, n) = (*g.r.pick(&["GEOMETRYCOLLECTION(", "GeometryCollection (", "POLYGON((", "("]), 40_000);
                    t = match g.r.below(3) {
                        0 => open.repeat(n),
                        1 => format!("{}{}{}", open.repeat(n), t, ")".repeat(n)),
                        _ => format!("{}{}", t, open.repeat(n)),
                    };
                }
                docs.push(t.into_bytes());
            }
            for i in 0..n {
                let other = docs[g.r.us(n)].clone();
                let (t, how) = damage(&mut g.r, &docs[i].clone(), &other);
                for h in how {
                    p.extra[h] += 1;
                }
                p.ops.push(Op::on(K::Wkt, p.objs.len()));
                p.objs.push(Obj::Text(t));
            }
            let nt = *g.r.pick(&[1, 2, 2, 3]);
            let k = p.ops.len();
            p.threads = (0..nt)
                .map(|t| {
                    let mut v: Vec<usize> = (0..k).filter(|i| nt == 1 || (i + t) % 2 == 0 || g.r.pct(40)).collect();
                    g.r.shuffle(&mut v);
                    v
                })
                .collect();
            fuss(g, &mut p);
        }
        "C07" => gen_agg(g, &mut p),
        "C08" => gen_shard(g, &mut p),
        "C09" => gen_move(g, &mut p),
        "C10" => {
            p.ct = g.ct;
            p.env = g.env();
            let scale = g.r.below(1000);
            match scale {
                0..=3 => vast_geo_ops(g, &mut p),
                4 | 5 => {
                    let mut v = g.vast(true);
                    let one = v[0];
                    let n = v.len();
                    match g.r.below(4) {
                        // nearly all in one place
                        0 => v[3..].iter_mut().for_each(|b| *b = one),
                        1 => v[n / 3..].iter_mut().for_each(|b| *b = one),
                        // in order already, one way or the other
                        2 => {
                            let up = g.r.pct(50);
                            for (i, b) in v.iter_mut().enumerate() {
                                let k = if up { i } else { n - i } as f64;
                                *b = BoxS::B((k, k), (k, k + 0.5));
                            }
                        }
                        _ => (),
                    }
                    p.objs.push(Obj::Items(v));
                    let mut o = Op::on(K::Build, 0);
                    o.n = vec![g.degree() as u64, 1];
                    p.ops.push(o);
                }
                6..=8 => {
                    let items = g.dense();
                    for _ in 0..2 {
                        let o = Obj::Index { degree: g.degree(), sorted: g.r.pct(65), items: items.clone() };
                        p.objs.push(o);
                    }
                    for (k, a, b) in [(K::SelfJoin, 0, 0), (K::Cross, 0, 1), (K::Query, 1, 0)] {
                        let mut o = Op::on(k, a);
                        o.b = b;
                        o.f = vec![0.0, 0.0, 400.0, 9.0];
                        p.ops.push(o);
                    }
                }
                _ => mixed(g, &mut p, g.r.clone().pct(80)),
            }
            let (nt, per) = match scale {
                0..=5 => (2, 4),
                6..=8 => (2, 2),
                _ => (g.nthreads(), 1 + g.r.us(5)),
            };
            two_types(g, &mut p, 15);
            if scale >= 9 && g.r.pct(8) {
                let mut r = Rng::new(g.r.next());
                if neighbours(&mut p, &mut r) {
                    return p;
                }
            }
            if scale >= 9 && g.r.pct(8) {
                crowd(g, &mut p);
                if let Some(pr) = fuss(g, &mut p) {
                    let mut r = Rng::new(g.r.next());
                    hold(&mut p, &pr, &mut r, true);
                }
                return p;
            }
            g.deal(&mut p, nt, per);
            if scale >= 995 {
                let mut r = Rng::new(g.r.next());
                marathon(&mut p, &mut r);
            }
            if let Some(pr) = fuss(g, &mut p) {
                let mut r = Rng::new(g.r.next());
                stall(&mut p, &pr, &mut r, true);
                if !p.evs.iter().any(|e| e.3 == Ev::Kill) {
                    life(g, &mut p, 0);
                }
            }
        }
        "C11" => {
            if g.r.pct(60) {
                g.ct = Ct::Sim;
            }
            p.ct = g.ct;
            p.env = g.env();
            mixed(g, &mut p, true);
            build_ops(g, &mut p, 1, 30);
            let a = p.objs.len() - 1;
            let mut o = Op::on(K::BoxOf, a);
            o.n = vec![g.r.below(3)];
            p.ops.push(o);
            let (nt, per) = (*g.r.pick(&[1, 1, 2, 2, 3]), 2 + g.r.us(5));
            two_types(g, &mut p, 15);
            g.deal(&mut p, nt, per);
            if let Some(pr) = fuss(g, &mut p) {
                for _ in 0..1 + g.r.us(5) {
                    let t = g.r.us(nt);
                    if p.threads[t].is_empty() {
                        continue;
                    }
                    let k = g.r.us(pr.cbs[t].len());
                    let n = pr.cbs[t][k];
                    if n > 0 {
                        let s = 1 + g.r.below(n);
                        // often the very same call again
                        let o = if g.r.pct(35) { p.threads[t][k] } else { g.r.us(p.ops.len()) };
                        if !p.cbs.iter().any(|c| (c.0, c.1, c.2) == (t, k, s)) {
                            p.cbs.push((t, k, s, CbAct::Reenter(o)));
                        }
                    }
                }
                let all: Vec<(usize, usize)> = (0..nt).flat_map(|t| (0..p.threads[t].len()).map(move |k| (t, k))).collect();
                if g.r.pct(45) && !all.is_empty() {
                    // the calls made from callbacks are called back too
                    let mut last = *g.r.pick(&all);
                    let chain = g.r.pct(40);
                    if chain && !p.cbs.is_empty() {
                        let c = g.r.us(p.cbs.len());
                        last = (p.cbs[c].0, p.cbs[c].1);
                        p.cbs[c].3 = CbAct::Reenter(p.threads[last.0][last.1]);
                    }
                    let n = if chain && g.r.pct(40) { 6 + g.r.us(30) } else { 1 + g.r.us(5) };
                    for _ in 0..n {
                        if !chain && g.r.pct(60) {
                            last = *g.r.pick(&all);
                        }
                        let n = pr.cbs[last.0][last.1];
                        p.deep.push((1 + g.r.below(n.max(1)), p.threads[last.0][last.1]));
                    }
                }
            }
        }
        "C12" => {
            p.ct = g.ct;
            p.env = g.env();
            p.env.reuse = true;
            let rounds = 4 + g.r.us(5);
            let kind = g.r.below(4);
            let mut first = 0;
            let nt = *g.r.pick(&[1, 1, 2, 3]);
            p.threads = vec![vec![]; nt];
            let idx = if kind == 0 { add_indexes(g, &mut p, 60) } else { vec![] };
            for _ in 0..2 * rounds {
                match kind {
                    0 => {
                        index_ops(g, &mut p, &idx, 3);
                    }
                    1 => build_ops(g, &mut p, 1, 40),
                    2 => geo_ops(g, &mut p, 1, 3, 14),
                    _ => text_ops(g, &mut p, 2, 8),
                }
                for o in first..p.ops.len() {
                    // objects too are built and dropped during the run
                    if matches!(p.ops[o].k, K::Query | K::Within | K::SelfJoin | K::Walk | K::IdxEnv | K::G | K::L | K::Wkt) {
                        p.ops[o].fresh = g.r.pct(50);
                    }
                    let t = g.r.us(nt);
                    p.threads[t].push(o);
                }
                first = p.ops.len();
            }
            if g.r.below(1000) < 5 {
                let mut r = Rng::new(g.r.next());
                marathon(&mut p, &mut r);
            }
            life(g, &mut p, 30);
            if g.r.pct(40) {
                fuss(g, &mut p);
            }
        }
        "C13" => gen_assemble(g, &mut p),
        _ => panic!("unknown property {}", prop),
    }
    p
}

/// What storage and transport do to a text. Returns the text and the kinds of
/// damage done (indices into DAMAGE).
pub const DAMAGE: &[&str] =
    &["none", "truncated", "torn_write", "bit_flip", "block_lost", "block_duplicated", "block_reordered", "block_zeroed", "transcoded", "padded"];

/// What conversions between character sets make of a character.
const ALIKE: &[(char, &str)] = &[
    (' ', "\u{a0}\u{2003}\u{3000}\u{b}\u{c}\u{85}\u{200b}\u{2028}\u{1680}"),
    ('-', "\u{2212}\u{2010}\u{2013}\u{ad}"),
    (',', "\u{ff0c};\u{60c}\u{201a}"),
    ('.', "\u{ff0e},\u{b7}\u{66b}"),
    ('(', "\u{ff08}[{"),
    (')', "\u{ff09}]}"),
    ('I', "\u{131}\u{130}\u{406}"),
    ('i', "\u{131}\u{130}\u{456}"),
    ('S', "\u{17f}"),
    ('s', "\u{17f}"),
    ('O', "0\u{41e}"),
    ('o', "0\u{43e}"),
    ('0', "O\u{660}\u{ff10}"),
    ('1', "l\u{661}\u{ff11}\u{b9}"),
    ('2', "\u{662}\u{ff12}\u{b2}"),
    ('5', "\u{665}\u{ff15}\u{bd}"),
    ('e', "\u{435}d"),
    ('E', "\u{415}D"),
    ('\n', "\u{85}\u{b}\u{c}\u{2028}"),
];

fn damage(r: &mut Rng, t: &[u8], other: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let mut v = t.to_vec();
    let mut how = vec![];
    let n = match r.below(10) {
        0 | 1 => 0,
        2..=7 => 1,
        _ => 2,
    };
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let kind = 1 + r.us(9);
        let bs = *r.pick(&[1usize, 2, 3, 4, 8, 16, 64]);
        let nb = (v.len() + bs - 1) / bs;
        match kind {
            1 => v.truncate(r.us(v.len())),
            2 => {
                let k = r.us(v.len());
                let mut w = v[..k].to_vec();
                w.extend(other.iter().skip(k));
                v = w;
            }
            3 => {
                let i = r.us(v.len());
                v[i] ^= 1 << r.below(8);
            }
            4..=7 => {
                let mut bl: Vec<Vec<u8>> = v.chunks(bs).map(|c| c.to_vec()).collect();
                let i = r.us(nb);
                match kind {
                    4 => {
                        bl.remove(i);
                    }
                    5 => {
                        let b = bl[i].clone();
                        bl.insert(r.us(nb + 1), b);
                    }
                    6 => {
                        let j = r.us(nb);
                        bl.swap(i, j);
                    }
                    _ => bl[i].iter_mut().for_each(|b| *b = 0),
                }
                v = bl.concat();
            }
            8 => {
                let s: Vec<char> = String::from_utf8_lossy(&v).chars().collect();
                let (from, to) = *r.pick(ALIKE);
                let at: Vec<usize> = (0..s.len()).filter(|i| s[*i] == from).collect();
                if at.is_empty() {
                    continue;
                }
                let to: Vec<char> = to.chars().collect();
                let (c, one) = (*r.pick(&to), if r.pct(70) { Some(*r.pick(&at)) } else { None });
                let t: String = s.iter().enumerate().map(|(i, x)| if *x == from && one.unwrap_or(i) == i { c } else { *x }).collect();
                v = t.into_bytes();
            }
            9 => {
                // what is put around a text when it is stored or sent
                let pad = *r.pick(&["\0", "\u{1a}", "\u{feff}", "\u{b}", "\u{c}", "\u{a0}", "\u{85}", "\u{2029}", "\n", "\t", ";", "\"", "'", "\\", "\u{7f}", "\u{1}", "=20", "\r", "SRID=4326;", "--", "#", "\u{fffd}"]);
                let pad = pad.repeat(*r.pick(&[1, 1, 1, 2, 8]));
                let mut t = String::from_utf8_lossy(&v).into_owned();
                match r.below(4) {
                    0 => t = format!("{}{}", pad, t),
                    1 => t = format!("{}{}{}", pad, t, pad),
                    _ => t.push_str(&pad),
                }
                v = t.into_bytes();
            }
            _ => (),
        }
        how.push(kind);
    }
    if how.is_empty() {
        how.push(0);
    }
    (v, how)
}

// --------------------------------------------------------------- aggregation
pub const DELIVERY: &[&str] = &["reordered", "duplicated", "lost_then_resent", "crash_restart", "checkpoint"];

fn gen_agg(g: &mut Gen, p: &mut Plan) {
    if matches!(g.st, 5 | 9) {
        g.st = 3;
    }
    p.ct = g.ct;
    p.env = g.env();
    let scale = g.r.below(1000);
    let items = if scale < 3 {
        g.vast(true)
    } else if scale < 13 {
        g.boxes(1200)
    } else {
        g.boxes(60)
    };
    let n = items.len();
    p.objs.push(Obj::Items(items));
    let nt = *g.r.pick(&[1, 2, 2, 3, 4]);
    // slots: 0..nt the workers', nt..2nt their checkpoints, 2nt the coordinator's
    p.slots = 2 * nt + 1;
    p.extra = vec![0; 5];
    p.threads = vec![vec![]; nt];
    let mut queue: Vec<Vec<usize>> = vec![vec![]; nt];
    for i in 0..n {
        if scale >= 3 || g.r.us(n) < 40 {
            queue[g.r.us(nt)].push(i);
        }
    }
    let push = |p: &mut Plan, t: usize, k: K, n: Vec<usize>| {
        let mut o = Op::on(k, 0);
        o.n = n.into_iter().map(|x| x as u64).collect();
        p.threads[t].push(p.ops.len());
        p.ops.push(o);
    };
    for t in 0..nt {
        let mut q = queue[t].clone();
        if g.r.pct(60) {
            g.r.shuffle(&mut q);
            p.extra[0] += 1;
        }
        let mut acked: Vec<usize> = vec![]; // since the checkpoint
        let mut i = 0;
        if g.r.pct(30) && n > 0 {
            let lo = g.r.us(n);
            let hi = lo + g.r.us(n - lo + 1);
            push(p, t, K::AccOf, vec![t, lo, hi]);
            if g.r.pct(50) {
                push(p, t, K::AccReset, vec![t]);
            }
        }
        while i < q.len() {
            let it = q[i];
            i += 1;
            match g.r.below(20) {
                0 if i < q.len() => {
                    // lost: comes again later
                    q.push(it);
                    p.extra[2] += 1;
                    if q.len() > 200 {
                        break;
                    }
                    continue;
                }
                1 | 2 => {
                    push(p, t, K::AccItem, vec![t, it, g.r.us(2)]);
                    p.extra[1] += 1;
                }
                3 => {
                    push(p, t, K::AccCopy, vec![nt + t, t]);
                    acked.clear();
                    p.extra[4] += 1;
                }
                4 => {
                    // crash: restart from the checkpoint, messages since are replayed
                    push(p, t, K::AccCopy, vec![t, nt + t]);
                    for a in acked.clone() {
                        push(p, t, K::AccItem, vec![t, a, g.r.us(2)]);
                    }
                    p.extra[3] += 1;
                }
                5 if nt > 1 => {
                    let f = (t + 1 + g.r.us(nt - 1)) % nt;
                    push(p, t, K::AccJoin, vec![t, f, g.r.us(4)]);
                }
                _ => (),
            }
            push(p, t, K::AccItem, vec![t, it, g.r.us(2)]);
            acked.push(it);
        }
        // whatever was in flight arrives in the end
        for it in queue[t].clone() {
            if g.r.pct(20) {
                push(p, t, K::AccItem, vec![t, it, g.r.us(2)]);
            }
        }
    }
    let mut order: Vec<usize> = (0..nt).collect();
    g.r.shuffle(&mut order);
    for t in order {
        let mut o = Op::on(K::AccJoin, 0);
        o.n = vec![2 * nt as u64, t as u64, g.r.below(4)];
        p.finale.push(p.ops.len());
        p.ops.push(o);
    }
    fuss(g, p);
}

fn check_agg(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    let items = items_of(p.ct, &p.objs[0]);
    // planar set and linear set per slot
    let mut slots: Vec<Vec<bool>> = vec![vec![false; items.len()]; p.slots];
    // replay in the order the calls began and committed
    let mut evs: Vec<(u64, bool, &CallOut)> = vec![];
    for c in r.calls.iter() {
        evs.push((c.s0, false, c));
        evs.push((c.s1, true, c));
    }
    for c in r.finale.iter() {
        evs.push((c.s0, false, c));
        evs.push((c.s1, true, c));
    }
    evs.sort_by_key(|e| e.0);
    let mut pending: HashMap<(u64, bool), Vec<bool>> = HashMap::new();
    for (_, commit, c) in &evs {
        let op = &p.ops[c.op];
        if c.status != Status::Ok {
            return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
        }
        let s = op.n[0] as usize;
        let key = (c.s0, true);
        if !commit {
            let mut v = slots[s].clone();
            match op.k {
                K::AccReset => v.iter_mut().for_each(|x| *x = false),
                K::AccOf => {
                    v.iter_mut().for_each(|x| *x = false);
                    for i in op.n[1]..op.n[2] {
                        v[i as usize] = true;
                    }
                }
                K::AccItem => v[op.n[1] as usize] = true,
                K::AccJoin => {
                    for (i, x) in slots[op.n[1] as usize].iter().enumerate() {
                        v[i] |= x;
                    }
                }
                _ => v = slots[op.n[1] as usize].clone(),
            }
            pending.insert(key, v);
        } else {
            let v = pending.remove(&key).unwrap();
            let want = (0..items.len()).filter(|i| v[*i]).fold(None, |a, i| model::join(a, items[i]));
            let mut cur = Cur::new(&c.words);
            let got = cur.bx().map_err(|e| Viol { class: "shape".into(), what: e })?;
            let lg = cur.lbx().map_err(|e| Viol { class: "shape".into(), what: e })?;
            if !same_box(&got, &want) {
                return viol("bounds", format!("{}: box {} instead of {}", at(c, p), show(&got), show(&want)));
            }
            let lw = want.map(|(l, h)| (l.0, h.0));
            if lg != lw {
                return viol("bounds", format!("{}: linear box {:?} instead of {:?}", at(c, p), lg, lw));
            }
            slots[s] = v;
        }
    }
    Ok(Info { runs: 1, full: r })
}

// -------------------------------------------------------------------- shards
fn gen_shard(g: &mut Gen, p: &mut Plan) {
    p.ct = g.ct;
    p.env = g.env();
    let vast = g.r.below(1000) < 2;
    let items = if vast { g.vast(true) } else { g.boxes(if g.r.clone().pct(15) { 300 } else { 60 }) };
    let n = items.len();
    p.objs.push(Obj::Items(items.clone()));
    let shards = if vast { 2 } else { 1 + g.r.us(4) };
    p.slots = shards;
    p.extra = vec![0; 5];
    let nt = *g.r.pick(&[1, 2, 2, 3, 4]);
    p.threads = vec![vec![]; nt];
    let mut prev = vec![];
    let mut build = |g: &mut Gen, s: usize| -> Op {
        let mut o = Op::on(K::BuildShard, 0);
        // large nodes make joins of very many boxes very long
        let lim = if vast { 16 } else { usize::MAX };
        o.n = vec![s as u64, g.degree().min(lim) as u64, (vast || g.r.pct(65)) as u64];
        for u in 0..shards {
            if g.r.pct(50) {
                o.n.extend([u as u64, g.degree().min(lim) as u64, (vast || g.r.pct(65)) as u64]);
            }
        }
        for _ in 0..2 {
            let q = g.query(&items, &mut prev);
            if q.len() == 4 {
                o.f.extend(q);
            }
        }
        o
    };
    // each item goes to one shard, sometimes to two
    let block = if vast { 700 } else { 1 };
    let mut msgs: Vec<(usize, usize)> = (0..n).step_by(block).map(|i| (if vast { g.r.us(12) / 11 } else { g.r.us(shards) }, i)).collect();
    let n = msgs.len();
    if g.r.pct(70) {
        g.r.shuffle(&mut msgs);
        p.extra[0] += 1;
    }
    let mut k = 0;
    while k < msgs.len() {
        let (s, i) = msgs[k];
        k += 1;
        if msgs.len() < 2 * n + 10 {
            match g.r.below(20) {
                0 if k < msgs.len() => {
                    msgs.push((s, i));
                    p.extra[2] += 1;
                    continue;
                }
                1 => {
                    msgs.push((s, i));
                    p.extra[1] += 1;
                }
                _ => (),
            }
        }
        let mut o = Op::new(K::Push);
        o.n = vec![s as u64, i as u64];
        if vast {
            o.n.push(block.min(items.len() - i) as u64);
        }
        let t = g.r.us(nt);
        p.threads[t].push(p.ops.len());
        p.ops.push(o);
        if g.r.pct(2) && !vast {
            // an index of what has arrived so far
            let o = build(g, s);
            let t = g.r.us(nt);
            p.threads[t].push(p.ops.len());
            p.ops.push(o);
        }
    }
    for s in 0..shards {
        let o = build(g, s);
        p.finale.push(p.ops.len());
        p.ops.push(o);
    }
    fuss(g, p);
}

fn judge_shard(p: &Plan, items: &[B], op: &Op, w: &[u64]) -> Result<(), String> {
    let mut c = Cur::new(w);
    let ids: Vec<u64> = c.list()?;
    let own: Vec<B> = ids.iter().map(|i| items[*i as usize]).collect();
    let (got, want) = (c.bx()?, total(&own));
    if !same_box(&got, &want) {
        return Err(format!("shard box {}, not {}", show(&got), show(&want)));
    }
    for q in op.f.chunks(4) {
        set_eq("shard query", c.list()?, want_query(&own, &fbox(p.ct, q)), false)?;
    }
    set_eq("shard self join", c.list()?, want_self(&own), true)?;
    for _ in op.n[3..].chunks(3) {
        let ids2 = c.list()?;
        let oth: Vec<B> = ids2.iter().map(|i| items[*i as usize]).collect();
        set_eq("join of shards", c.list()?, want_cross(&own, &oth), true)?;
        set_eq("join of shards", c.list()?, want_cross(&oth, &own), true)?;
    }
    c.end()
}

fn check_shard(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    let items = items_of(p.ct, &p.objs[0]);
    for c in r.calls.iter().chain(&r.finale) {
        if c.status != Status::Ok {
            return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
        }
        if p.ops[c.op].k == K::BuildShard {
            if let Err(e) = judge_shard(p, &items, &p.ops[c.op], &c.words) {
                return viol("answer", format!("{}: {}", at(c, p), e));
            }
        }
    }
    // over all shards together nothing that arrived anywhere is lost
    if r.calls.iter().filter(|c| p.ops[c.op].k == K::Push).count() == p.ops.iter().filter(|o| o.k == K::Push).count() {
        let mut seen = vec![false; items.len()];
        for c in &r.finale {
            let mut cur = Cur::new(&c.words);
            for i in cur.list().unwrap_or_default() {
                seen[i as usize] = true;
            }
        }
        for o in p.ops.iter().filter(|o| o.k == K::Push) {
            if !r.finale.is_empty() && p.finale.len() == p.slots && !seen[o.n[1] as usize] {
                return viol("lost", format!("item {} arrived but is in no shard", o.n[1]));
            }
        }
    }
    Ok(Info { runs: 1, full: r })
}

// -------------------------------------------------------------- moving items
fn gen_move(g: &mut Gen, p: &mut Plan) {
    p.ct = g.ct;
    p.env = g.env();
    let a = g.boxes(60);
    let scripted = g.r.pct(45);
    let wild = g.r.pct(30);
    let boxes: Vec<Vec<BoxS>> = a
        .iter()
        .map(|b| {
            let mut v = vec![*b];
            for _ in 0..g.r.us(4) {
                let (c, w, h) = (g.p(), g.ext(), g.ext());
                v.push(match g.r.below(10) {
                    0 => BoxS::Empty,
                    1 => a[g.r.us(a.len())],
                    2 | 3 if wild => {
                        // far outside what the others span
                        let m = if g.ct == Ct::F32 { 1e9 } else { 1e15 };
                        let s = if g.r.pct(50) { m } else { -m };
                        BoxS::B((s, c.1), (s + 1.0, c.1 + h))
                    }
                    _ => BoxS::B(c, (c.0 + w, c.1 + h)),
                });
            }
            v
        })
        .collect();
    p.objs.push(Obj::Moving { boxes: boxes.clone(), scripted });
    let nt = if scripted { *g.r.pick(&[1, 1, 2]) } else { *g.r.pick(&[2, 2, 3]) };
    p.threads = vec![vec![]; nt];
    let mut prev = vec![];
    for t in 0..nt {
        if t == 0 || scripted || g.r.pct(25) {
            for _ in 0..1 + g.r.us(2) {
                let mut o = Op::on(K::BuildMove, 0);
                o.n = vec![g.degree() as u64, g.r.pct(80) as u64];
                for _ in 0..2 {
                    let q = g.query(&a, &mut prev);
                    if q.len() == 4 {
                        o.f.extend(q);
                    }
                }
                p.threads[t].push(p.ops.len());
                p.ops.push(o);
            }
        } else if !boxes.is_empty() {
            for _ in 0..1 + g.r.us(40) {
                let mut o = Op::on(K::Move, 0);
                let i = g.r.us(boxes.len());
                o.n = vec![i as u64, g.r.us(boxes[i].len()) as u64];
                p.threads[t].push(p.ops.len());
                p.ops.push(o);
            }
        }
    }
    p.start = g.r.us(nt);
    let Some(pr) = profile(p) else { return };
    let mut r = Rng::new(g.r.next());
    if !scripted && g.r.pct(60) {
        // the movers act between the reads of the boxes: at any step of a build
        let q = *r.pick(&[5u64, 20, 60, 200]);
        p.quantum = Some((q, 20 + r.below(200), r.next() >> 1));
    } else {
        preempt(p, &pr, &mut r);
    }
}

fn judge_move(p: &Plan, op: &Op, w: &[u64]) -> Result<(), String> {
    let boxes = match &p.objs[op.a] {
        Obj::Moving { boxes, .. } => boxes,
        _ => return Ok(()),
    };
    let mut c = Cur::new(w);
    let n = c.n()? as usize;
    let mut seen: Vec<Vec<B>> = vec![];
    for i in 0..n {
        let l = c.list()?;
        seen.push(l.iter().map(|k| model::norm(p.ct, &boxes[i][*k as usize])).collect());
    }
    let (root, leaves) = read_walk(&mut c, n)?;
    for i in 0..n {
        if !seen[i].iter().any(|b| same_box(b, &leaves[i])) {
            return Err(format!("item {} is stored with box {}, which it never had when asked", i, show(&leaves[i])));
        }
    }
    let e = c.bx()?;
    if !same_box(&e, &total(&leaves)) || !same_box(&root, &e) {
        return Err(format!("index box {}, but its items span {}", show(&e), show(&total(&leaves))));
    }
    for q in op.f.chunks(4) {
        set_eq("query", c.list()?, want_query(&leaves, &fbox(p.ct, q)), false)?;
    }
    set_eq("self join", c.list()?, want_self(&leaves), true)?;
    c.end()
}

fn check_move(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    for c in r.calls.iter() {
        if c.status != Status::Ok {
            return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
        }
        if p.ops[c.op].k == K::BuildMove {
            if let Err(e) = judge_move(p, &p.ops[c.op], &c.words) {
                return viol("answer", format!("{}: {}", at(c, p), e));
            }
        }
    }
    Ok(Info { runs: 1, full: r })
}

// ------------------------------------------------------------------ assembly
fn gen_assemble(g: &mut Gen, p: &mut Plan) {
    // one collection, delivered in several orders, with and without repeats
    if matches!(g.st, 5 | 6 | 9) {
        g.st = 1;
    }
    p.ct = g.ct;
    p.env = g.env();
    p.extra = vec![0; 5];
    let hub = g.r.below(1000) < 6;
    let kind = if hub { 1 } else { g.r.below(4) };
    let many = g.r.below(1000) < 8;
    let mut base = match if hub { 9 } else { kind } {
        9 => {
            // very many ends in one place
            let (h, n) = (g.p(), 240 + g.r.us(300));
            Geo::MLine((0..n).map(|_| if g.r.pct(97) { vec![h, g.p()] } else { g.line(5) }).collect())
        }
        0 => {
            let n = if many { 200 + g.r.us(5000) } else { g.r.us(25) };
            Geo::MPoint((0..n).map(|_| g.p()).collect())
        }
        1 => Geo::MLine(if many { (0..40).flat_map(|_| g.mline(6)).collect() } else { g.mline(12) }),
        2 => Geo::MPoly(if many { (0..30).flat_map(|_| g.mpoly(6)).collect() } else { g.mpoly(12) }),
        _ => {
            let (e, i, _) = g.poly(10);
            Geo::Poly(e, i)
        }
    };
    if g.r.pct(30) {
        // the same places, told apart by the sign of zero only
        match &mut base {
            Geo::MPoint(v) => {
                let z: Vec<P> = v.iter().filter(|q| q.0 == 0.0 || q.1 == 0.0).map(|q| (q.0 * -1.0, q.1)).collect();
                v.extend(z.iter().map(|q| (-q.0, if q.1 == 0.0 { -q.1 } else { q.1 })));
            }
            Geo::MLine(v) => {
                for q in v.iter_mut().flatten() {
                    if q.0 == 0.0 && g.r.pct(50) {
                        q.0 = -q.0
                    }
                    if q.1 == 0.0 && g.r.pct(50) {
                        q.1 = -q.1
                    }
                }
            }
            _ => (),
        }
    }
    if g.r.pct(18) {
        // some of the parts are of no size
        for _ in 0..1 + g.r.us(2) {
            match &mut base {
                Geo::MLine(v) => {
                    let n = v.len() + 1;
                    let k = g.r.us(n);
                    v.insert(k, vec![]);
                }
                Geo::MPoly(v) => {
                    let n = v.len() + 1;
                    let k = g.r.us(n);
                    v.insert(k, (vec![], vec![]));
                }
                Geo::Poly(_, i) => {
                    let n = i.len() + 1;
                    let k = g.r.us(n);
                    i.insert(k, vec![]);
                }
                _ => (),
            }
        }
    }
    let wild = g.r.pct(10) && kind < 2;
    if wild {
        // places that are none
        for _ in 0..1 + g.r.us(3) {
            let v = *g.r.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY]);
            let x = g.r.pct(50);
            let q = match &mut base {
                Geo::MPoint(v) if !v.is_empty() => pick_mut(&mut g.r, v),
                Geo::MLine(v) if !v.is_empty() => {
                    let l = pick_mut(&mut g.r, v);
                    if l.is_empty() {
                        continue;
                    }
                    let k = if g.r.pct(50) { 0 } else { l.len() - 1 };
                    &mut l[k]
                }
                _ => continue,
            };
            if x {
                q.0 = v
            } else {
                q.1 = v
            }
        }
    }
    p.objs.push(Obj::Geo(base.clone()));
    for _ in 0..2 + g.r.us(3) {
        let mut y = base.clone();
        p.extra[0] += 1;
        match &mut y {
            Geo::MPoint(v) => {
                if g.r.pct(40) && !v.is_empty() {
                    let d = v[g.r.us(v.len())];
                    v.push(d);
                    p.extra[1] += 1;
                }
                g.r.shuffle(v)
            }
            Geo::MLine(v) => g.r.shuffle(v),
            Geo::MPoly(v) => {
                g.r.shuffle(v);
                for q in v.iter_mut() {
                    g.r.shuffle(&mut q.1)
                }
            }
            Geo::Poly(_, i) => g.r.shuffle(i),
            _ => (),
        }
        p.objs.push(Obj::Geo(y));
    }
    let ms: &[&str] = match kind {
        0 => &["env", "empty", "msimple", "simple", "npts", "validate"],
        1 if wild => &["env", "empty", "boundary", "closed"],
        1 => &["env", "empty", "boundary", "simple", "closed", "validate"],
        2 => &["env", "empty", "simple", "boundary", "validate"],
        _ => &["env", "empty", "simple", "boundary", "validate"],
    };
    for a in 0..p.objs.len() {
        for m in ms {
            let mut o = Op::on(K::G, a);
            o.n = vec![gm(m) as u64];
            p.ops.push(o);
        }
    }
    let nt = 1 + g.r.us(3);
    p.threads = vec![vec![]; nt];
    let mut order: Vec<usize> = (0..p.ops.len()).collect();
    g.r.shuffle(&mut order);
    for o in order {
        let t = g.r.us(nt);
        p.threads[t].push(o);
    }
    fuss(g, p);
}

fn key(ct: Ct, q: P) -> (u64, u64) {
    let f = |v: f64| {
        let v = model::rc(ct, v);
        if v == 0.0 {
            0
        } else {
            v.to_bits()
        }
    };
    (f(q.0), f(q.1))
}

fn pick_mut<'a, T>(r: &mut Rng, v: &'a mut [T]) -> &'a mut T {
    let k = r.us(v.len());
    &mut v[k]
}

fn finite(q: &P) -> bool {
    q.0.is_finite() && q.1.is_finite()
}

fn closed(ct: Ct, l: &[P]) -> bool {
    let n = l.len();
    n >= 4 && [l[0], l[n - 1]].iter().all(|q| !q.0.is_nan() && !q.1.is_nan()) && key(ct, l[0]) == key(ct, l[n - 1])
}

/// Reads a multipoint (or the empty geometry) as its set of points.
fn point_set(w: &[u64]) -> Option<Vec<(u64, u64)>> {
    match w.first()? {
        10 => Some(vec![]),
        14 => {
            let n = *w.get(1)? as usize;
            let mut v: Vec<(u64, u64)> = (0..n).map(|i| (w[2 + 2 * i], w[3 + 2 * i])).collect();
            v.sort();
            Some(v)
        }
        _ => None,
    }
}

/// Reads a set of lines as just that.
fn line_set(w: &[u64]) -> Option<Vec<Vec<u64>>> {
    let mut c = Cur::new(w);
    match c.n().ok()? {
        10 => Some(vec![]),
        15 => {
            let mut v = vec![];
            for _ in 0..c.n().ok()? {
                let n = c.n().ok()?;
                v.push((0..2 * n).map(|_| c.n().ok()).collect::<Option<Vec<u64>>>()?);
                c.bx().ok()?;
            }
            v.sort();
            Some(v)
        }
        _ => None,
    }
}

fn check_assemble(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    unchanged(&r)?;
    let mut verdict: HashMap<(u64, bool), (u64, usize)> = HashMap::new();
    let mut rings: Option<(Vec<Vec<u64>>, usize)> = None;
    for c in r.calls.iter() {
        let op = &p.ops[c.op];
        if c.status != Status::Ok {
            return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
        }
        let g = match &p.objs[op.a] {
            Obj::Geo(g) => g,
            _ => continue,
        };
        let bad = |e: String| viol("assembly", format!("{}: {}", at(c, p), e));
        match GM[op.n[0] as usize] {
            "env" => {
                let got = Cur::new(&c.words).bx().map_err(|e| Viol { class: "shape".into(), what: e })?;
                let want = model::geo_bounds(p.ct, g);
                if !same_box(&got, &want) && format!("{:?}", got) != format!("{:?}", want) {
                    return bad(format!("box {} instead of {}", show(&got), show(&want)));
                }
            }
            "npts" => {
                if let Geo::MPoint(v) = g {
                    if c.words != [v.len() as u64] {
                        return bad(format!("{:?} points instead of {}", c.words, v.len()));
                    }
                }
            }
            "empty" => {
                let want = match g {
                    Geo::MPoint(v) => v.is_empty(),
                    Geo::MLine(v) => v.iter().all(|l| l.is_empty()),
                    Geo::MPoly(v) => v.iter().all(|l| l.0.is_empty()),
                    Geo::Poly(e, _) => e.is_empty(),
                    _ => continue,
                };
                if c.words != [want as u64] {
                    return bad(format!("emptiness {:?} instead of {}", c.words, want));
                }
            }
            "closed" => {
                if let Geo::MLine(v) = g {
                    let want = v.iter().all(|l| closed(p.ct, l));
                    if c.words != [want as u64] {
                        return bad(format!("closedness {:?} instead of {}", c.words, want));
                    }
                }
            }
            "msimple" => {
                if let Geo::MPoint(v) = g {
                    let mut want: Vec<_> = v.iter().filter(|q| finite(q)).map(|q| key(p.ct, *q)).collect();
                    want.sort();
                    want.dedup();
                    if point_set(&c.words) != Some(want) {
                        return bad("the simplified points are not the distinct points".into());
                    }
                }
            }
            "boundary" => {
                if let Geo::MLine(v) = g {
                    let mut cnt: HashMap<(u64, u64), usize> = HashMap::new();
                    for l in v {
                        if !closed(p.ct, l) && !l.is_empty() {
                            for q in [l[0], l[l.len() - 1]] {
                                if !q.0.is_nan() && !q.1.is_nan() {
                                    *cnt.entry(key(p.ct, q)).or_default() += 1;
                                }
                            }
                        }
                    }
                    let mut want: Vec<_> = cnt.into_iter().filter(|x| x.1 % 2 == 1).map(|x| x.0).collect();
                    want.sort();
                    if point_set(&c.words) != Some(want) {
                        return bad("the boundary is not the set of end points met an odd number of times".into());
                    }
                } else if let Some(v) = line_set(&c.words) {
                    let (v0, a) = rings.get_or_insert((v.clone(), op.a));
                    if *v0 != v {
                        return bad(format!("not the same lines in the boundary as for the order of object {}", a));
                    }
                }
            }
            m @ ("simple" | "validate") => {
                let what = if m == "simple" { "simplicity" } else { "validity" };
                if c.words.is_empty() {
                    return bad("no verdict".into());
                }
                // repeats make a set of points non-simple; otherwise order is all that differs
                let dup = match g {
                    Geo::MPoint(v) => {
                        let mut k: Vec<_> = v.iter().map(|q| key(p.ct, *q)).collect();
                        k.sort();
                        let n = k.len();
                        k.dedup();
                        let want = k.len() == n && v.iter().all(finite);
                        if m == "simple" && c.words != [want as u64] {
                            return bad(format!("simplicity {:?} instead of {}", c.words, want));
                        }
                        !want
                    }
                    _ => false,
                };
                let e = verdict.entry((op.n[0], dup)).or_insert((c.words[0], c.op));
                if e.0 != c.words[0] {
                    return bad(format!(
                        "{} {} for this order of parts, {} for the order of object {}",
                        what, c.words[0], e.0, p.ops[e.1].a
                    ));
                }
            }
            _ => (),
        }
    }
    Ok(Info { runs: 1, full: r })
}

// ----------------------------------------------------------------- judgement
pub fn check(p: &Plan) -> Ck {
    match p.prop.as_str() {
        "C01" => {
            share(&["Flatbush", "Envelope"])?;
            let r = exec::run(p, Mode::Full);
            ended(&r)?;
            unchanged(&r)?;
            let mut ir = IdxRef::new(p);
            for c in &r.calls {
                if c.status != Status::Ok {
                    return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
                }
                if let Err(e) = ir.check(p, &p.ops[c.op], &c.words) {
                    return viol("answer", format!("{}: {}", at(c, p), e));
                }
            }
            Ok(Info { runs: 1, full: r })
        }
        "C02" => {
            share(&["Geometry", "Point", "LineString", "Polygon", "lt::", "Segment", "Envelope"])?;
            let r = exec::run(p, Mode::Full);
            ended(&r)?;
            unchanged(&r)?;
            let mut s = Solo::new(p);
            for c in &r.calls {
                s.same(c, "")?;
            }
            Ok(Info { runs: 1 + s.runs, full: r })
        }
        "C03" => check_repro(p),
        "C04" => {
            let r = exec::run(p, Mode::Full);
            let mut runs = 1;
            ended(&r)?;
            unchanged(&r)?;
            let mut s = Solo::new(p);
            for c in &r.calls {
                if c.rep.fired_cb > 0 {
                    if c.status != Status::Injected {
                        return viol("panic-lost", format!("{}: the caller's own panic came back as {:?} {}", at(c, p), c.status, c.msg));
                    }
                    if p.ops[c.op].k == K::Expand {
                        if let Err(e) = judge_expand(p, &p.ops[c.op], &c.words) {
                            return viol("half-grown", format!("{}: {}", at(c, p), e));
                        }
                    }
                } else {
                    s.same(c, "")?;
                    if p.ops[c.op].k == K::Expand && c.status == Status::Ok {
                        if let Err(e) = judge_expand(p, &p.ops[c.op], &c.words) {
                            return viol("half-grown", format!("{}: {}", at(c, p), e));
                        }
                    }
                }
            }
            no_leak(p, &r, &mut runs)?;
            Ok(Info { runs: runs + s.runs, full: r })
        }
        "C05" => {
            let r = exec::run(p, Mode::Full);
            let mut runs = 1;
            ended(&r)?;
            unchanged(&r)?;
            let mut s = Solo::new(p);
            for c in &r.calls {
                if c.rep.fired_al > 0 && matches!(c.status, Status::AllocFailed | Status::Panic) {
                    continue;
                }
                s.same(c, "")?;
            }
            no_leak(p, &r, &mut runs)?;
            Ok(Info { runs: runs + s.runs, full: r })
        }
        "C06" => {
            let r = exec::run(p, Mode::Full);
            ended(&r)?;
            for c in &r.calls {
                let op = &p.ops[c.op];
                let t = match &p.objs[op.a] {
                    Obj::Text(t) => String::from_utf8_lossy(t).into_owned(),
                    _ => continue,
                };
                let show: String = t.chars().take(120).collect();
                if c.status != Status::Ok {
                    return viol("status", format!("{} ended with {:?} {} on {:?}", at(c, p), c.status, c.msg, show));
                }
                let rejected = c.words.first() == Some(&1);
                match wktref::parse(&t) {
                    Err(()) => {
                        if !rejected {
                            return viol("accepted", format!("{}: damaged text accepted: {:?}", at(c, p), show));
                        }
                    }
                    Ok(x) => {
                        let mut want = vec![0];
                        match x {
                            None => want.push(0),
                            Some(x) => {
                                want.push(1);
                                unsafe { subject::BITS = true };
                                subject::encode_ref(&mut want, Ct::F64, &x);
                                unsafe { subject::BITS = false };
                            }
                        }
                        if c.words != want {
                            return viol(
                                "misread",
                                format!("{}: {} text {:?}", at(c, p), if rejected { "rejected good" } else { "misread" }, show),
                            );
                        }
                    }
                }
            }
            Ok(Info { runs: 1, full: r })
        }
        "C07" => check_agg(p),
        "C08" => check_shard(p),
        "C09" => check_move(p),
        "C10" => {
            let r = exec::run(p, Mode::Full);
            ended(&r)?;
            if r.stats.deadlock > 0 {
                return viol("blocked", "a call waits for a call that will never go on".into());
            }
            if r.stats.blocked_by_stalled > 0 {
                return viol("blocked", "a call cannot finish while another is suspended".into());
            }
            let mut s = Solo::new(p);
            for c in &r.calls {
                if c.status != Status::Ok {
                    return viol("status", format!("{} ended with {:?} {}", at(c, p), c.status, c.msg));
                }
                let alone = s.get(c.op)?.rep.steps;
                // (repeated queries are not all the same ones)
                let o = &p.ops[c.op];
                let varied = o.reps > 1 && matches!(o.k, K::Query | K::Within);
                // (looking at the answer costs some as well)
                if !varied && c.rep.steps > (5 * alone / 2 + 400) * o.reps + 8_000 {
                    return viol("slow", format!("{}: {} steps, alone {}", at(c, p), c.rep.steps, alone));
                }
            }
            Ok(Info { runs: 1 + s.runs, full: r })
        }
        "C11" => {
            let r = exec::run(p, Mode::Full);
            ended(&r)?;
            unchanged(&r)?;
            let mut s = Solo::new(p);
            for c in &r.nested {
                s.same(c, "re-entrant ")?;
            }
            for c in &r.calls {
                s.same(c, "")?;
            }
            Ok(Info { runs: 1 + s.runs, full: r })
        }
        "C12" => check_retain(p),
        "C13" => check_assemble(p),
        x => panic!("unknown property {}", x),
    }
}

fn judge_expand(p: &Plan, op: &Op, w: &[u64]) -> Result<(), String> {
    let ct = p.ct_of(op);
    let items = items_of(ct, &p.objs[op.a]);
    let mut c = Cur::new(w);
    let k = c.n()? as usize;
    let (b, l) = (c.bx()?, c.lbx()?);
    let start = fbox(ct, &op.f);
    let (np, nl) = ((k + 1) / 2, k / 2);
    let fold = |n: usize| items[..n.min(items.len())].iter().fold(start, |a, x| model::join(a, *x));
    let (want, wl) = (fold(np), fold(nl).map(|x| (x.0 .0, x.1 .0)));
    if !same_box(&b, &want) {
        return Err(format!("after {} completed expansions the box is {}, not {}", np, show(&b), show(&want)));
    }
    if l != wl {
        return Err(format!("after {} completed expansions the linear box is {:?}, not {:?}", nl, l, wl));
    }
    Ok(())
}

fn check_repro(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    let mut first: std::collections::BTreeMap<usize, &CallOut> = Default::default();
    let cmp = |first: &std::collections::BTreeMap<usize, &CallOut>, c: &CallOut, where_: &str| -> Result<(), Viol> {
        if let Some(f) = first.get(&c.op) {
            if f.status != c.status || f.words != c.words {
                let i = f.words.iter().zip(&c.words).take_while(|(a, b)| a == b).count();
                return viol(
                    "differs",
                    format!(
                        "{}: {} gives another result than before ({:?} {:?} at word {}, first {:?} {:?})",
                        at(c, p), where_, c.status, c.words.get(i), i, f.status, f.words.get(i)
                    ),
                );
            }
        }
        Ok(())
    };
    for c in &r.calls {
        cmp(&first, c, "a repeated call")?;
        first.entry(c.op).or_insert(c);
    }
    let mut rng = Rng::new(p.seed ^ 0xC03);
    let mut others = vec![];
    if rng.pct(30) {
        // just the same once more: only what the simulator has no hold of can differ
        others.push((p.clone(), "the same run once more"));
    }
    // everything on one thread, in another order and another environment
    let mut q = p.clone();
    let mut all: Vec<usize> = p.threads.iter().flatten().copied().collect();
    rng.shuffle(&mut all);
    q.threads = vec![all.clone()];
    q.start = 0;
    q.evs.clear();
    q.quantum = None;
    q.env = other_env(&p.env, &mut rng);
    others.push((q, "another process, hash seed, heap and clock"));
    // dealt to threads differently
    let nt = 1 + rng.us(4);
    let mut q = p.clone();
    q.threads = vec![vec![]; nt];
    rng.shuffle(&mut all);
    for o in all {
        let t = rng.us(nt);
        q.threads[t].push(o);
    }
    q.start = 0;
    q.evs.clear();
    q.quantum = Some((50, 60, rng.next() >> 1));
    q.env = other_env(&p.env, &mut rng);
    others.push((q, "another distribution over threads"));
    for (q, what) in &others {
        let x = exec::run(q, Mode::Full);
        ended(&x)?;
        for c in &x.calls {
            cmp(&first, c, what)?;
        }
    }
    // and alone
    let mut s = Solo::new(p);
    for (o, c) in &first {
        let x = s.get(*o)?;
        if x.status != c.status || x.words != c.words {
            return viol("differs", format!("{}: the same call alone in a fresh process gives another result", at(c, p)));
        }
    }
    Ok(Info { runs: 1 + others.len() as u64 + s.runs, full: r })
}

fn other_env(e: &Env, r: &mut Rng) -> Env {
    Env {
        hash: r.next() >> 1,
        base: r.below(100_000),
        reuse: !e.reuse,
        fill: e.fill ^ 0x5A,
        clock: r.below(1 << 60),
        tick: if e.tick > 1_000_000 { 500 } else { 20_000_000_000 },
        cpus: e.cpus + 1 + r.below(4),
        pid: r.below(30_000) + 2,
        skew: if r.pct(50) { r.next() >> 1 } else { 0 },
        img: if r.pct(25) { 1 + r.below(15) } else { 0 },
        vars: if e.vars == 0 { r.next() >> 1 } else { 0 },
    }
}

fn check_retain(p: &Plan) -> Ck {
    let r = exec::run(p, Mode::Full);
    ended(&r)?;
    let h = held(&r);
    let mut runs = 1;
    if h.0 > 0 || h.1 > 0 {
        // is that a one-off, or does it grow with the number of calls?
        let mut q = p.clone();
        for t in q.threads.iter_mut() {
            let k = (t.len() + 1) / 2;
            t.truncate(k);
        }
        q.waves = (p.waves + 1) / 2;
        let n = exec::run(&q, Mode::Full);
        runs += 1;
        ended(&n)?;
        let m = held(&n);
        if h.0 > m.0 || h.1 > m.1 {
            return viol(
                "retained",
                format!("{} blocks / {} bytes are held after {} calls, {} / {} after the first half of them", h.0, h.1, p.calls(), m.0, m.1),
            );
        }
    }
    Ok(Info { runs, full: r })
}
