//! Seeded generation of worlds, calls, schedules and faults.
use crate::exec::{self, Mode};
use plan::model;
use plan::*;
use simrt::Rng;

pub struct Gen {
    pub r: Rng,
    pub ct: Ct,
    /// coordinate style
    pub st: u64,
}

pub const MOVES: [u64; 8] = [1, 2, 3, 5, 10, 30, 100, 1000];

impl Gen {
    pub fn new(seed: u64) -> Gen {
        let mut r = Rng::new(seed);
        let ct = match r.below(10) {
            0..=5 => Ct::F64,
            6 | 7 => Ct::F32,
            _ => Ct::Sim,
        };
        let st = if r.pct(3) { 9 } else { r.below(9) };
        Gen { r, ct, st }
    }
    fn lim(&self, big: f64, small32: f64) -> f64 {
        if self.ct == Ct::F32 {
            small32
        } else {
            big
        }
    }
    /// One coordinate in the current style.
    pub fn c(&mut self) -> f64 {
        let v = match self.st {
            0 => self.r.range(0, 8) as f64,
            1 => self.r.range(-50, 50) as f64,
            2 => self.r.range(0, 1000) as f64 / 10.0,
            3 => self.r.unit() * 1000.0,
            4 => 1.0e6 + self.r.range(0, 40) as f64,
            5 => (self.r.unit() - 0.5) * self.lim(1e300, 1e37),
            6 => (self.r.unit() - 0.5) * self.lim(1e-290, 1e-36),
            7 => match self.r.below(3) {
                0 => self.r.range(-3, 3) as f64,
                1 => self.r.unit() * 1e-3,
                _ => self.r.range(-9, 9) as f64 * 1e6,
            },
            9 => {
                // as far apart, and as close together, as numbers can be
                let (max, tiny) = if self.ct == Ct::F32 { (f32::MAX as f64, f32::MIN_POSITIVE as f64) } else { (f64::MAX, f64::MIN_POSITIVE) };
                let v = *self.r.pick(&[max, max / 2.0, max / 3.0, 1.0, 1e-9, tiny, tiny / 8.0, 0.0, 0.0, 1e30]);
                if self.r.pct(50) {
                    -v
                } else {
                    v
                }
            }
            _ => self.r.range(-500, 500) as f64 / 4.0,
        };
        model::rc(self.ct, v)
    }
    /// A typical extent in the current style.
    pub fn ext(&mut self) -> f64 {
        let k = self.r.unit();
        match self.st {
            0 => self.r.range(0, 2) as f64,
            1 => self.r.range(0, 9) as f64,
            2 => self.r.range(0, 80) as f64 / 10.0,
            3 => k * 60.0,
            4 => self.r.range(0, 4) as f64,
            5 => k * self.lim(5e298, 5e35),
            6 => k * self.lim(5e-292, 5e-38),
            7 => k * *self.r.clone().pick(&[1e-3, 1.0, 1e6]),
            9 => self.c().abs() / 4.0,
            _ => self.r.range(0, 30) as f64 / 4.0,
        }
    }
    pub fn p(&mut self) -> P {
        (self.c(), self.c())
    }
    fn bx(&mut self) -> BoxS {
        let (a, w, h) = (self.p(), self.ext(), self.ext());
        let b = (a.0 + w, a.1 + h);
        match self.r.below(4) {
            0 => BoxS::B(b, a),
            1 => BoxS::B((a.0, b.1), (b.0, a.1)),
            _ => BoxS::B(a, b),
        }
    }
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.r.below(100) {
            0..=7 => self.r.range(0, 3),
            8..=34 => self.r.range(4, 20),
            35..=54 => {
                // just around a power of two
                let p = 1i64 << self.r.range(2, 9);
                p + self.r.range(-1, 2)
            }
            55..=89 => self.r.range(20, 120),
            _ => self.r.range(120, 1200),
        };
        (n as usize).min(max)
    }
    pub fn degree(&mut self) -> usize {
        if self.r.pct(2) {
            return *self.r.pick(&[128, 256, 512, 1024]);
        }
        *self.r.pick(&[2, 2, 4, 4, 8, 8, 8, 16, 16, 32, 64])
    }
    /// Hundreds of boxes nearly all of which meet: more pairs than 16 bits count.
    pub fn dense(&mut self) -> Vec<BoxS> {
        let n = *self.r.pick(&[260usize, 300, 370, 370, 420, 760]);
        let how = self.r.below(3);
        (0..n)
            .map(|i| {
                let k = i as f64;
                match how {
                    0 => BoxS::B((0.0, 0.0), (1.0, 1.0)),
                    1 => BoxS::B((k, 0.0), (k + 3.0 * n as f64 / 4.0, k % 7.0)),
                    _ => BoxS::B((-k, -k), (n as f64, n as f64 - k)),
                }
            })
            .collect()
    }
    pub fn boxes(&mut self, max: usize) -> Vec<BoxS> {
        if max >= 150 && self.r.below(1000) < 3 {
            return self.dense();
        }
        let mut n = self.size(max);
        let layout = self.r.below(14);
        if matches!(layout, 5 | 8) {
            n = n.min(50);
        }
        let (p0, w, h) = (self.p(), self.ext(), self.ext());
        let mut v: Vec<BoxS> = match layout {
            0..=2 => (0..n).map(|_| self.bx()).collect(),
            3 => (0..n)
                .map(|_| {
                    let p = self.p();
                    BoxS::B(p, p)
                })
                .collect(),
            4 => {
                // all on one line
                let how = self.r.below(3);
                (0..n)
                    .map(|_| {
                        let (a, w) = (self.c(), self.ext());
                        match how {
                            0 => BoxS::B((a, p0.1), (a + w, p0.1)),
                            1 => BoxS::B((p0.0, a), (p0.0, a + w)),
                            _ => BoxS::B((a, a), (a + w, a + w)),
                        }
                    })
                    .collect()
            }
            5 => vec![BoxS::B(p0, (p0.0 + w, p0.1 + h)); n],
            6 | 7 => {
                // a grid of touching tiles
                let s = (n as f64).sqrt().ceil().max(1.0) as usize;
                let (w, h) = (w.max(f64::MIN_POSITIVE), h.max(f64::MIN_POSITIVE));
                (0..n)
                    .map(|i| {
                        let (x, y) = ((i % s) as f64, (i / s) as f64);
                        BoxS::B((p0.0 + x * w, p0.1 + y * h), (p0.0 + (x + 1.0) * w, p0.1 + (y + 1.0) * h))
                    })
                    .collect()
            }
            8 => (0..n)
                .map(|i| {
                    let k = i as f64;
                    BoxS::B((p0.0 - k * w, p0.1 - k * h), (p0.0 + k * w, p0.1 + k * h))
                })
                .collect(),
            9 => {
                let cs: Vec<P> = (0..3).map(|_| self.p()).collect();
                (0..n)
                    .map(|_| {
                        let c = *self.r.pick(&cs);
                        let (dx, dy, w, h) = (self.ext(), self.ext(), self.ext(), self.ext());
                        BoxS::B((c.0 + dx, c.1 + dy), (c.0 + dx + w / 4.0, c.1 + dy + h / 4.0))
                    })
                    .collect()
            }
            10 => (0..n)
                .map(|i| {
                    // a strip, far longer than wide
                    let (a, b) = (self.ext(), self.ext());
                    BoxS::B((p0.0 + i as f64 * w, p0.1 + a * 1e-3), (p0.0 + i as f64 * w + b, p0.1 + b * 1e-3))
                })
                .collect(),
            11 => (0..n).map(|_| if self.r.pct(30) { BoxS::Empty } else { self.bx() }).collect(),
            12 => {
                let mut v: Vec<BoxS> = (0..n).map(|_| self.bx()).collect();
                for _ in 0..2 {
                    if !v.is_empty() {
                        let i = self.r.us(v.len());
                        let m = self.lim(1e12, 1e12);
                        v[i] = BoxS::B((-m, -m), (m, m));
                    }
                }
                v
            }
            _ => {
                let mut v: Vec<BoxS> = (0..n).map(|_| self.bx()).collect();
                for i in 1..v.len() {
                    if self.r.pct(30) {
                        v[i] = v[self.r.us(i)];
                    }
                }
                v
            }
        };
        if self.r.pct(6) {
            for b in v.iter_mut() {
                if self.r.pct(20) {
                    *b = BoxS::Empty;
                }
            }
        }
        if self.r.pct(3) && !v.is_empty() {
            let i = self.r.us(v.len());
            let p = self.p();
            v[i] = BoxS::B(p, (f64::INFINITY, p.1));
        }
        for b in v.iter_mut() {
            // far out, some of the arithmetic above has no result
            if matches!(b, BoxS::B(a, c) if [a.0, a.1, c.0, c.1].iter().any(|x| x.is_nan())) {
                *b = BoxS::B(p0, p0);
            }
        }
        v
    }
    /// More boxes than fit sixteen bits, in a grid of which most touch nobody.
    pub fn vast(&mut self, shuffled: bool) -> Vec<BoxS> {
        let n = *self.r.pick(&[5_000usize, 17_000, 33_000, 65_537, 66_000, 70_000]);
        let side = (n as f64).sqrt().ceil() as usize;
        let mut v: Vec<BoxS> = (0..n)
            .map(|i| {
                let (x, y) = ((i % side) as f64, (i / side) as f64);
                let (w, h) = if i % 97 == 0 { (1.0, 1.0) } else { (0.5, 0.25) };
                BoxS::B((x, y), (x + w, y + h))
            })
            .collect();
        if shuffled {
            self.r.shuffle(&mut v);
        }
        v
    }
    /// A geometry of very many positions.
    pub fn vast_geo(&mut self) -> (Geo, &'static [&'static str]) {
        let n = *self.r.pick(&[5_000usize, 33_000, 66_000, 70_000]);
        let at = |i: usize| (i as f64, (i % 7) as f64);
        if self.r.pct(25) {
            return (Geo::Line((0..400_000).map(at).collect()), &["len", "boundary", "closed", "ring", "env", "clone", "npts", "start", "end"]);
        }
        match self.r.below(5) {
            0 => (Geo::Line((0..n).map(at).collect()), &["validate", "simple", "boundary", "len", "segs", "rtree", "clone", "closed", "collect"]),
            1 => {
                let mut v: Vec<P> = (0..n).map(|i| ((i % 300) as f64, (i / 300) as f64)).collect();
                if self.r.pct(50) {
                    v.push(v[self.r.us(n)]);
                }
                (Geo::MPoint(v), &["validate", "simple", "msimple", "npts", "env"])
            }
            2 => {
                let e = self.notched((0.0, 0.0), n / 4);
                (Geo::Poly(e, vec![]), &["validate", "simple", "boundary", "hull", "centroid", "surface"])
            }
            3 => {
                // chains and a few odd ends
                let v = (0..n / 2).map(|i| vec![at(i), at(i + 1 + i % 2)]).collect();
                (Geo::MLine(v), &["boundary", "env", "closed", "len"])
            }
            _ => {
                let v = (0..n / 4).map(|i| (self.rect((3.0 * (i % 200) as f64, 3.0 * (i / 200) as f64), 2.0, 2.0), vec![])).collect();
                (Geo::MPoly(v), &["validate", "simple", "boundary", "env", "empty"])
            }
        }
    }
    /// A close relative of a set of boxes: what a cache keyed too coarsely
    /// would confuse with the original.
    pub fn sibling(&mut self, v: &[BoxS]) -> Vec<BoxS> {
        let mut w = v.to_vec();
        if w.is_empty() {
            return w;
        }
        match self.r.below(5) {
            0 => {
                let i = self.r.us(w.len());
                w[i] = self.bx();
            }
            1 => self.r.shuffle(&mut w),
            2 => {
                let i = self.r.us(w.len());
                w[i] = BoxS::Empty;
            }
            3 => {
                // keep the total bounds, move an inner box
                if let Some((l, h)) = model::bounds(self.ct, v) {
                    let i = self.r.us(w.len());
                    let t = self.r.unit();
                    // (not by way of the extent, which may be too large for a number)
                    let c = (l.0 * (1.0 - t) + h.0 * t, l.1 * (1.0 - t) + h.1 * t);
                    let c = if c.0.is_nan() || c.1.is_nan() { l } else { c };
                    w[i] = BoxS::B(c, c);
                }
            }
            _ => {
                w.pop();
            }
        }
        w
    }
    pub fn query(&mut self, items: &[BoxS], prev: &mut Vec<Vec<f64>>) -> Vec<f64> {
        let pick = |g: &mut Gen| -> Option<(P, P)> {
            if items.is_empty() {
                return None;
            }
            let i = g.r.us(items.len());
            model::norm(g.ct, &items[i])
        };
        let q = match self.r.below(12) {
            0 | 1 => {
                let (a, w, h) = (self.p(), self.ext(), self.ext());
                vec![a.0, a.1, a.0 + w, a.1 + h]
            }
            2 => match model::bounds(self.ct, items) {
                Some((l, h)) => vec![l.0, l.1, h.0, h.1],
                None => vec![],
            },
            3 | 4 | 5 => match pick(self) {
                // exactly touching an item, or just missing it
                Some((l, h)) => {
                    let (w, hh) = (self.ext(), self.ext());
                    match self.r.below(6) {
                        0 => vec![h.0, h.1, h.0 + w, h.1 + hh],
                        1 => vec![l.0 - w, l.1 - hh, l.0, l.1],
                        2 => vec![h.0, l.1, h.0 + w, l.1],
                        3 => vec![l.0, l.1, l.0, l.1],
                        4 => vec![h.0 + w.abs() + h.0.abs() * 1e-6, l.1, h.0 + 2.0 * w + h.0.abs() * 2e-6, h.1],
                        _ => vec![l.0, l.1, h.0, h.1],
                    }
                }
                None => vec![],
            },
            6 => match (pick(self), pick(self)) {
                (Some((l, _)), Some((_, h))) => vec![l.0, l.1, h.0, h.1],
                _ => vec![],
            },
            7 => {
                let m = 1e13;
                vec![-m, -m, m, m]
            }
            8 if !prev.is_empty() => self.r.clone().pick(prev).clone(),
            9 | 10 if !prev.is_empty() => {
                // a small variation of an earlier question
                let mut q = prev[self.r.us(prev.len())].clone();
                if q.len() == 4 {
                    let i = self.r.us(4);
                    q[i] += if self.r.pct(50) { self.ext() } else { -self.ext() };
                }
                q
            }
            11 if self.r.pct(30) => vec![],
            _ => {
                let p = self.p();
                vec![p.0, p.1, p.0, p.1]
            }
        };
        let q: Vec<f64> = q.into_iter().map(|v| model::rc(self.ct, v)).collect();
        if q.iter().all(|v| !v.is_nan()) {
            prev.push(q.clone());
            q
        } else {
            vec![]
        }
    }

    // ------------------------------------------------------------ geometries
    fn star(&mut self, c: P, rad: f64, n: usize) -> Vec<P> {
        let mut v: Vec<P> = (0..n)
            .map(|i| {
                let a = 2.0 * std::f64::consts::PI * i as f64 / n as f64;
                let r = rad * (0.4 + 0.6 * self.r.unit());
                (c.0 + r * a.cos(), c.1 + r * a.sin())
            })
            .map(|p| (model::rc(self.ct, p.0), model::rc(self.ct, p.1)))
            .collect();
        if self.r.pct(50) {
            v.reverse();
        }
        v.push(v[0]);
        v
    }
    fn rect(&mut self, p: P, w: f64, h: f64) -> Vec<P> {
        let mut v = vec![p, (p.0 + w, p.1), (p.0 + w, p.1 + h), (p.0, p.1 + h)];
        if self.r.pct(50) {
            v.reverse();
        }
        let k = self.r.us(4);
        v.rotate_left(k);
        v.push(v[0]);
        v
    }
    /// A comb or staircase: axis-parallel and simple.
    fn notched(&mut self, p: P, n: usize) -> Vec<P> {
        let mut v = vec![p];
        for i in 0..n {
            let x = p.0 + 2.0 * i as f64;
            let d = 1.0 + self.r.range(0, 3) as f64;
            v.push((x, p.1 + 5.0 + d));
            v.push((x + 1.0, p.1 + 5.0 + d));
            if i + 1 < n {
                v.push((x + 1.0, p.1 + 1.0));
                v.push((x + 2.0, p.1 + 1.0));
            }
        }
        let x = p.0 + 2.0 * (n - 1) as f64 + 1.0;
        v.push((x, p.1));
        v.dedup();
        v.push(v[0]);
        v
    }
    /// A convex ring, and another that meets it in corners only (or nearly so).
    pub fn corner_rings(&mut self) -> (Vec<P>, Vec<P>) {
        let c = self.p();
        let c = if c.0.abs().max(c.1.abs()) < 1e6 { (c.0.round(), c.1.round()) } else { (0.0, 0.0) };
        // many points along the way, mostly on one side
        let rich = self.r.pct(35);
        let rad = if rich { *self.r.pick(&[64.0, 256.0]) } else { *self.r.pick(&[4.0, 8.0, 12.0, 16.0, 32.0, 64.0]) };
        let at = |a: f64, f: f64| ((c.0 + f * rad * a.cos()).round(), (c.1 + f * rad * a.sin()).round());
        let n = 3 + self.r.us(6);
        let tau = 2.0 * std::f64::consts::PI;
        let turn = *self.r.pick(&[0.0, 0.125, 0.5]) * tau / n as f64;
        let angle = |i: f64| turn + tau * i / n as f64;
        let mut base: Vec<P> = (0..n).map(|i| at(angle(i as f64), 1.0)).collect();
        if n == 4 && self.r.pct(50) {
            base = vec![(c.0, c.1), (c.0 + rad, c.1), (c.0 + rad, c.1 + rad), (c.0, c.1 + rad)];
        }
        // the corners they share
        let keep = if rich && self.r.pct(70) { 100 } else { *self.r.pick(&[100, 100, 70, 40, 15]) };
        let mut on: Vec<usize> = (0..n).filter(|_| self.r.pct(keep)).collect();
        if on.is_empty() {
            on.push(self.r.us(n));
        }
        let style = self.r.below(6);
        let odd = self.r.us(on.len());
        let mid = base.iter().fold((0.0, 0.0), |a, p| (a.0 + p.0 / n as f64, a.1 + p.1 / n as f64));
        let mut ring = vec![];
        for (k, &i) in on.iter().enumerate() {
            ring.push(base[i]);
            let j = on[(k + 1) % on.len()];
            let gap = if j > i { j - i } else { j + n - i };
            let way = match style {
                0..=2 => style,
                5 if rich => 1 + (k != odd) as u64,
                5 => 1 + self.r.below(2),
                _ => self.r.below(4),
            };
            let m = if gap == n { 2 } else { 1 };
            let (a, b) = (base[i], base[j]);
            match way {
                // straight across, where that leaves a ring
                0 if on.len() > 2 => (),
                3 => ring.extend((1..gap).map(|k| base[(i + k) % n])),
                1 if rich => {
                    let more = 1 + self.r.us(8);
                    for k in 0..more {
                        let t = (k + 1) as f64 / (more + 1) as f64;
                        let f = 0.2 + 0.0625 * self.r.range(0, 3) as f64;
                        ring.push(at(angle(i as f64 + gap as f64 * t), f));
                    }
                }
                0 | 1 => {
                    // by way of points inside
                    for _ in 0..m {
                        let f = *self.r.pick(&[0.25, 0.5, 0.75]);
                        let q = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0);
                        let o = (self.r.range(-1, 1) as f64, self.r.range(-1, 1) as f64);
                        let o = if m == 2 { o } else { (0.0, 0.0) };
                        ring.push((q.0 + (mid.0 - q.0) * f + o.0, q.1 + (mid.1 - q.1) * f + o.1));
                    }
                }
                _ => {
                    // by way of points outside
                    let more = 1 + if rich { self.r.us(20) } else { self.r.us(3) };
                    for k in 0..more {
                        let t = (k + 1) as f64 / (more + 1) as f64;
                        let f = 1.5 + 0.5 * self.r.range(0, 3) as f64;
                        ring.push(at(angle(i as f64 + gap as f64 * t), f));
                    }
                }
            }
        }
        ring.dedup();
        for v in [&mut base, &mut ring] {
            for q in v.iter_mut() {
                *q = (model::rc(self.ct, q.0), model::rc(self.ct, q.1));
            }
            if self.r.pct(40) {
                v.reverse();
            }
            let k = self.r.us(v.len());
            v.rotate_left(k);
            v.push(v[0]);
        }
        (base, ring)
    }
    /// With points in the middle of some sides.
    fn divided(&mut self, v: Vec<P>) -> Vec<P> {
        if !matches!(self.st, 0 | 1 | 4 | 8) || !self.r.pct(15) {
            return v;
        }
        let mut w: Vec<P> = vec![];
        for (i, q) in v.iter().enumerate() {
            if i > 0 && self.r.pct(50) {
                let o = v[i - 1];
                let m = ((o.0 + q.0) / 2.0, (o.1 + q.1) / 2.0);
                if model::rc(self.ct, m.0) == m.0 && model::rc(self.ct, m.1) == m.1 {
                    w.push(m);
                }
            }
            w.push(*q);
        }
        w
    }
    pub fn line(&mut self, max: usize) -> Vec<P> {
        let n = match self.r.below(10) {
            0 => self.r.us(3),
            1..=6 => 2 + self.r.us(12),
            _ => 2 + self.r.us(max.max(3) - 2),
        };
        match self.r.below(7) {
            0 => (0..n).map(|_| self.p()).collect(),
            1 | 2 => {
                // a monotone walk: simple
                let mut p = self.p();
                (0..n)
                    .map(|_| {
                        let q = p;
                        let d = self.ext();
                        p = (p.0 + self.ext() + 1.0, if self.r.pct(50) { p.1 + d } else { p.1 - d });
                        q
                    })
                    .collect()
            }
            3 => {
                let mut p = self.p();
                (0..n)
                    .map(|_| {
                        let q = p;
                        let d = if self.r.pct(50) { 1.0 } else { -1.0 };
                        if self.r.pct(50) {
                            p.0 += d
                        } else {
                            p.1 += d
                        }
                        q
                    })
                    .collect()
            }
            4 => {
                let (p, e) = (self.p(), self.ext().abs() + 1.0);
                self.star(p, e, n.max(3))
            }
            5 => {
                let (p, w, h) = (self.p(), self.ext() + 1.0, self.ext() + 1.0);
                self.rect(p, w, h)
            }
            _ => {
                let p = self.p();
                self.notched(p, 1 + n / 4)
            }
        }
    }
    /// (polygon, whether its exterior is simple)
    pub fn poly(&mut self, max: usize) -> (Vec<P>, Vec<Vec<P>>, bool) {
        let (e, i, s) = self.poly0(max);
        (self.divided(e), i.into_iter().map(|v| self.divided(v)).collect(), s)
    }
    fn poly0(&mut self, max: usize) -> (Vec<P>, Vec<Vec<P>>, bool) {
        match self.r.below(10) {
            9 => {
                let (h, p, u, size) = self.lattice_rects();
                let e = self.rect((p.0 - u, p.1 - u), u * (size + 2.0), u * (size + 2.0));
                (e, h, true)
            }
            8 => {
                let (a, b) = self.corner_rings();
                if self.r.pct(70) {
                    (a, vec![b], false)
                } else {
                    (b, vec![a], false)
                }
            }
            0 => {
                let (p, e) = (self.p(), self.ext().abs() + 1.0);
                let n = 3 + self.r.us(max.max(4) - 3);
                (self.star(p, e, n), vec![], true)
            }
            6 => {
                // half a square, with holes near its right angle
                let p = self.p();
                let k = 1 + self.r.us(3);
                let s = 12.0;
                let mut e = vec![p, (p.0 + s, p.1), (p.0, p.1 + s)];
                if self.r.pct(50) {
                    e.reverse();
                }
                e.push(e[0]);
                let holes = (0..k)
                    .map(|i| {
                        let q = (p.0 + 1.0 + 3.0 * i as f64, p.1 + 1.0);
                        if self.r.pct(50) {
                            self.rect(q, 1.0, 1.0)
                        } else {
                            let mut h = vec![q, (q.0 + 1.0, q.1), (q.0, q.1 + 1.0)];
                            h.push(q);
                            h
                        }
                    })
                    .collect();
                (e, holes, true)
            }
            7 => {
                // a star with a star in the middle, which may reach out of it
                let (p, e) = (self.p(), self.ext().abs() + 4.0);
                let (n, m) = (3 + self.r.us(9), 3 + self.r.us(6));
                let f = *self.r.pick(&[0.1, 0.2, 0.2, 0.35, 0.6]);
                (self.star(p, e, n), vec![self.star(p, e * f, m)], true)
            }
            1 => {
                let p = self.p();
                let n = 1 + self.r.us(6);
                (self.notched(p, n), vec![], true)
            }
            2 | 3 => {
                // a rectangle with square holes on a grid, some touching, some not
                let p = self.p();
                let k = 1 + self.r.us(4);
                let e = self.rect(p, 4.0 * k as f64, 4.0 * k as f64);
                let mut holes = vec![];
                for i in 0..k {
                    for j in 0..k {
                        if self.r.pct(60) {
                            let s = 1.0 + self.r.range(0, 2) as f64;
                            let q = (p.0 + 4.0 * i as f64 + 0.5, p.1 + 4.0 * j as f64 + 0.5);
                            holes.push(if self.r.pct(70) {
                                self.rect(q, s, s)
                            } else {
                                self.star((q.0 + 1.5, q.1 + 1.5), 1.4, 5)
                            });
                        }
                    }
                }
                if self.r.pct(20) {
                    holes.push(self.rect((p.0 + 1.0, p.1 + 1.0), 2.0, 2.0));
                }
                self.r.shuffle(&mut holes);
                (e, holes, true)
            }
            4 => {
                let (p, w, h) = (self.p(), self.ext() + 1.0, self.ext() + 1.0);
                (self.rect(p, w, h), vec![], true)
            }
            _ => {
                let n = self.r.us(3);
                (self.line(max), (0..n).map(|_| self.line(8)).collect(), false)
            }
        }
    }
    pub fn geo(&mut self, max: usize) -> (Geo, bool) {
        // geometry of very large or small numbers overflows when multiplied:
        // those styles are for boxes
        if matches!(self.st, 5 | 6 | 9) {
            self.st = 3;
        }
        match self.r.below(20) {
            0 => (Geo::Empty, false),
            1 | 2 => (Geo::Point(self.p()), false),
            3..=7 => (Geo::Line(self.line(max)), false),
            8..=11 => {
                let (e, i, s) = self.poly(max);
                (Geo::Poly(e, i), s)
            }
            12 | 13 => {
                let n = self.r.us(max);
                let mut v: Vec<P> = (0..n).map(|_| self.p()).collect();
                for i in 1..v.len() {
                    if self.r.pct(15) {
                        v[i] = v[self.r.us(i)];
                    }
                }
                (Geo::MPoint(v), false)
            }
            14..=16 => (Geo::MLine(self.mline(max)), false),
            _ => (Geo::MPoly(self.mpoly(max)), false),
        }
    }
    /// Rectangles (or pieces of straight lines) between the places of a small
    /// grid, apart from one another, except perhaps for a single pair.
    /// Returns their corners and the size of the grid.
    fn lattice(&mut self, flat: bool) -> (Vec<(i64, i64, i64, i64)>, i64) {
        let size = *self.r.pick(&[4, 6, 6, 9, 14]);
        let mut v: Vec<(i64, i64, i64, i64)> = vec![];
        let meet = |a: &(i64, i64, i64, i64), b: &(i64, i64, i64, i64)| a.0 <= b.2 && b.0 <= a.2 && a.1 <= b.3 && b.1 <= a.3;
        let mut one = |g: &mut Gen| {
            let (x, y) = (g.r.range(0, size - 1), g.r.range(0, size - 1));
            let long = |g: &mut Gen, a: i64| if g.r.pct(25) { g.r.range(a + 1, size) } else { (a + g.r.range(1, 3)).min(size) };
            let (mut x1, mut y1) = (long(g, x), long(g, y));
            if flat {
                if g.r.pct(50) {
                    x1 = x
                } else {
                    y1 = y
                }
            }
            (x, y, x1, y1)
        };
        let n = 2 + self.r.us(14);
        for _ in 0..4 * n {
            let q = one(self);
            if v.len() < n && !v.iter().any(|w| meet(w, &q)) {
                v.push(q);
            }
        }
        if self.r.pct(65) {
            for _ in 0..40 {
                let q = one(self);
                if v.iter().filter(|w| meet(w, &q)).count() == 1 {
                    v.push(q);
                    break;
                }
            }
        }
        self.r.shuffle(&mut v);
        (v, size)
    }
    fn lattice_rects(&mut self) -> (Vec<Vec<P>>, P, f64, f64) {
        let (v, size) = self.lattice(false);
        let (p, u) = (self.p(), *self.r.pick(&[1.0, 1.0, 2.0, 0.5, 3.0]));
        let v = v
            .into_iter()
            .map(|(x, y, x1, y1)| self.rect((p.0 + u * x as f64, p.1 + u * y as f64), u * (x1 - x) as f64, u * (y1 - y) as f64))
            .collect();
        (v, p, u, size as f64)
    }
    pub fn mline(&mut self, max: usize) -> Vec<Vec<P>> {
        let n = self.r.us(7);
        if self.r.pct(20) {
            let (v, _) = self.lattice(true);
            let (p, u) = (self.p(), *self.r.pick(&[1.0, 1.0, 2.0, 0.5, 3.0]));
            return v
                .into_iter()
                .map(|(x, y, x1, y1)| {
                    let (a, b) = ((p.0 + u * x as f64, p.1 + u * y as f64), (p.0 + u * x1 as f64, p.1 + u * y1 as f64));
                    if self.r.pct(50) {
                        vec![a, b]
                    } else {
                        vec![b, a]
                    }
                })
                .collect();
        }
        match self.r.below(3) {
            0 => (0..n).map(|_| self.line(max / 2 + 3)).collect(),
            1 => {
                // a chain sharing end points
                let mut p = self.p();
                (0..n)
                    .map(|_| {
                        let mut l = vec![p];
                        for _ in 0..1 + self.r.us(4) {
                            p = (p.0 + 1.0, p.1 + self.r.range(-2, 2) as f64);
                            l.push(p);
                        }
                        l
                    })
                    .collect()
            }
            _ => {
                // spokes from one hub, and some crossing
                let c = self.p();
                (0..n)
                    .map(|i| {
                        let a = i as f64;
                        if self.r.pct(85) {
                            vec![c, (c.0 + 5.0 - a, c.1 + a)]
                        } else {
                            vec![(c.0 + 1.0, c.1 - 5.0), (c.0 + 1.0, c.1 + 5.0)]
                        }
                    })
                    .collect()
            }
        }
    }
    pub fn mpoly(&mut self, max: usize) -> Vec<(Vec<P>, Vec<Vec<P>>)> {
        let n = self.r.us(5);
        match self.r.below(5) {
            4 => self.lattice_rects().0.into_iter().map(|e| (e, vec![])).collect(),
            3 => {
                let (a, b) = self.corner_rings();
                let mut v = vec![(self.divided(a), vec![]), (self.divided(b), vec![])];
                for _ in 0..n / 3 {
                    let (e, i, _) = self.poly(max / 2 + 4);
                    v.push((e, i));
                }
                self.r.shuffle(&mut v);
                v
            }
            0 => (0..n)
                .map(|_| {
                    let (e, i, _) = self.poly(max / 2 + 4);
                    (e, i)
                })
                .collect(),
            1 => {
                let p = self.p();
                (0..n)
                    .map(|i| {
                        // apart, touching at a corner, or overlapping
                        let gap = *self.r.pick(&[3.0, 3.0, 3.0, 2.0, 1.5]);
                        let q = (p.0 + gap * i as f64, p.1 + gap * i as f64);
                        (self.rect(q, 2.0, 2.0), vec![])
                    })
                    .collect()
            }
            _ => {
                // nested: each one inside the hole of the one before
                let p = self.p();
                (0..n)
                    .map(|i| {
                        let d = 2.0 * i as f64;
                        let s = 20.0 - 2.0 * d;
                        let e = self.rect((p.0 + d, p.1 + d), s, s);
                        let h = if s > 4.0 { vec![self.rect((p.0 + d + 1.0, p.1 + d + 1.0), s - 2.0, s - 2.0)] } else { vec![] };
                        (e, h)
                    })
                    .collect()
            }
        }
    }
    pub fn lin(&mut self) -> Lin {
        match self.r.below(6) {
            0 => Lin::Point(if self.r.pct(20) { f64::NAN } else { self.c() }),
            1 => Lin::Line(self.c(), self.c()),
            2 => Lin::EmptyLine,
            3 | 4 => {
                let n = self.r.us(20);
                Lin::MPoint((0..n).map(|_| self.c()).collect())
            }
            _ => {
                let n = self.r.us(12);
                Lin::MLine((0..n).map(|_| self.p()).collect())
            }
        }
    }

    // ------------------------------------------------------------------- ops
    pub fn index_op(&mut self, a: usize, nidx: &[usize], items: &[BoxS], prev: &mut Vec<Vec<f64>>) -> Op {
        let mut o = Op::on(K::Query, a);
        match self.r.below(20) {
            0..=8 => o.f = self.query(items, prev),
            9..=11 => {
                o.k = K::Within;
                let d = if self.r.pct(20) { 0.0 } else { self.ext().abs() };
                let p = match (items.is_empty(), self.r.pct(50)) {
                    (false, true) => match model::norm(self.ct, &items[self.r.clone().us(items.len())]) {
                        Some((l, h)) => (l.0 - d, h.1 + d),
                        None => self.p(),
                    },
                    _ => self.p(),
                };
                let ok = p.0.is_finite() && p.1.is_finite();
                let p = if ok { p } else { self.p() };
                o.f = vec![model::rc(self.ct, p.0), model::rc(self.ct, p.1), model::rc(self.ct, d)];
            }
            12..=14 => o.k = K::SelfJoin,
            15..=17 => {
                o.k = K::Cross;
                o.b = *self.r.pick(nidx);
            }
            18 => o.k = K::IdxEnv,
            _ => o.k = K::Walk,
        }
        o.fresh = o.k != K::Cross && self.r.pct(10);
        o
    }
    pub fn geo_op(&mut self, a: usize, g: &Geo, simple: bool) -> Op {
        let common = ["env", "empty", "dim", "type", "simple", "boundary", "validate", "validate", "dump"];
        let own: &[&str] = match g {
            Geo::Empty => &["env"],
            Geo::Point(_) => &["xy"],
            Geo::Line(_) => &[
                "closed", "ring", "len", "npts", "pt", "start", "end", "segs", "seg", "rtree", "clone", "collect",
            ],
            Geo::Poly(..) => {
                if simple {
                    &["hull", "hull", "centroid", "surface"]
                } else {
                    &["centroid", "surface"]
                }
            }
            Geo::MPoint(_) => &["npts", "msimple", "haspt", "msimple"],
            Geo::MLine(_) => &["closed", "len"],
            Geo::MPoly(_) => &["centroid", "surface"],
        };
        let m = if self.r.pct(50) { *self.r.pick(&common) } else { *self.r.pick(own) };
        let mut o = Op::on(K::G, a);
        o.n = vec![gm(m) as u64];
        match (m, g) {
            ("pt", Geo::Line(l)) | ("seg", Geo::Line(l)) => o.f = vec![self.r.us(l.len() + 2) as f64],
            ("haspt", Geo::MPoint(v)) => {
                let p = if !v.is_empty() && self.r.pct(60) { v[self.r.us(v.len())] } else { self.p() };
                o.f = vec![p.0, p.1];
            }
            _ => (),
        }
        o.fresh = self.r.pct(15);
        o
    }
    pub fn prim_op(&mut self) -> Op {
        let mut o = Op::new(K::Nop);
        let f = |g: &mut Gen, n: usize| -> Vec<f64> {
            let mut v: Vec<f64> = (0..n).map(|_| g.c()).collect();
            if n >= 4 && g.r.pct(30) {
                // coincidences
                let (i, j) = (g.r.us(n / 2), g.r.us(n / 2));
                v[2 * i] = v[2 * j];
                v[2 * i + 1] = v[2 * j + 1];
            }
            v
        };
        match self.r.below(8) {
            0 => {
                o.k = K::Merge;
                o.f = f(self, 8);
            }
            1 => {
                o.k = K::BoxRel;
                o.f = f(self, 8);
                if self.r.pct(10) {
                    // one of them empty, or both
                    let n = *self.r.pick(&[4, 4, 0]);
                    o.f.truncate(n);
                }
            }
            2 => {
                o.k = K::BoxMisc;
                o.f = f(self, 5);
                if self.r.pct(10) {
                    o.f.clear();
                }
            }
            3 | 4 => {
                o.k = K::SegIsect;
                o.f = f(self, 8);
            }
            5 => {
                o.k = K::SegMisc;
                o.f = f(self, 6);
            }
            6 => {
                o.k = K::Tri;
                o.f = f(self, 6);
            }
            _ => {
                o.k = K::Pos;
                o.f = f(self, 4);
            }
        }
        o
    }
    /// Share out calls among threads.
    pub fn deal(&mut self, p: &mut Plan, nt: usize, per: usize) {
        let n = p.ops.len();
        if n == 0 {
            p.threads = vec![vec![]; nt];
            return;
        }
        p.threads = (0..nt).map(|_| vec![]).collect();
        match self.r.below(3) {
            0 => {
                // the same sequence on every thread
                let seq: Vec<usize> = (0..per).map(|_| self.r.us(n)).collect();
                for t in p.threads.iter_mut() {
                    *t = seq.clone();
                }
            }
            1 => {
                for t in 0..nt {
                    let k = 1 + self.r.us(per);
                    p.threads[t] = (0..k).map(|_| self.r.us(n)).collect();
                }
            }
            _ => {
                // hot ops
                let hot = [self.r.us(n), self.r.us(n)];
                for t in 0..nt {
                    let k = 1 + self.r.us(per);
                    p.threads[t] = (0..k).map(|_| if self.r.pct(70) { *self.r.pick(&hot) } else { self.r.us(n) }).collect();
                }
            }
        }
        p.start = self.r.us(nt);
    }
    pub fn env(&mut self) -> Env {
        Env {
            hash: self.r.next() >> 1,
            base: self.r.below(100_000),
            reuse: self.r.pct(75),
            fill: *self.r.pick(&[0u8, 0xA5, 0xFF, 0x01]),
            clock: self.r.below(1 << 60),
            tick: *self.r.pick(&[1000, 1000, 1_000_000, 1_000_000_000, 100_000_000_000]),
            cpus: *self.r.pick(&[1, 2, 3, 4, 8, 64]),
            pid: self.r.below(30_000) + 2,
            skew: if self.r.pct(30) { self.r.next() >> 1 } else { 0 },
            img: 0,
            vars: if self.r.pct(30) { self.r.next() >> 1 } else { 0 },
        }
    }
    pub fn nthreads(&mut self) -> usize {
        *self.r.pick(&[2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 8])
    }
}

/// The profile of a plan: its calls one after another on one thread.
pub struct Prof {
    pub steps: Vec<Vec<u64>>,
    pub cbs: Vec<Vec<u64>>,
    pub allocs: Vec<Vec<u64>>,
    pub shared: Vec<Vec<Vec<u64>>>,
    pub rare: Vec<Vec<Vec<u64>>>,
    /// the library starts threads of its own
    pub libs: bool,
}

pub fn profile(p: &Plan) -> Option<Prof> {
    let r = exec::run(p, Mode::Serial);
    if r.end != exec::End::Ok {
        return None;
    }
    let mut it = r.calls.iter();
    let mut pr = Prof {
        steps: vec![],
        cbs: vec![],
        allocs: vec![],
        shared: vec![],
        rare: vec![],
        libs: r.stats.lib_threads > 0,
    };
    for t in &p.threads {
        let (mut a, mut b, mut c, mut d, mut e) = (vec![], vec![], vec![], vec![], vec![]);
        for _ in t {
            let x = it.next()?;
            a.push(x.rep.steps);
            b.push(x.rep.cbs);
            c.push(x.rep.allocs);
            d.push(x.rep.shared.clone());
            e.push(x.rep.rare.clone());
        }
        pr.steps.push(a);
        pr.cbs.push(b);
        pr.allocs.push(c);
        pr.shared.push(d);
        pr.rare.push(e);
    }
    Some(pr)
}

fn any_call(p: &Plan, r: &mut Rng) -> Option<(usize, usize)> {
    let ts: Vec<usize> = (0..p.threads.len()).filter(|t| !p.threads[*t].is_empty()).collect();
    if ts.is_empty() {
        return None;
    }
    let t = *r.pick(&ts);
    Some((t, r.us(p.threads[t].len())))
}

/// Make some calls very many times over, within reason.
pub fn marathon(p: &mut Plan, r: &mut Rng) {
    let Some(pr) = profile(p) else { return };
    let mut cost: Vec<u64> = vec![0; p.ops.len()];
    for (t, v) in p.threads.iter().enumerate() {
        for (k, o) in v.iter().enumerate() {
            cost[*o] += pr.steps[t][k] + 200;
        }
    }
    let mut left = 30_000_000u64;
    for _ in 0..4 {
        let i = r.us(p.ops.len());
        if cost[i] == 0 || p.ops[i].reps > 1 {
            continue;
        }
        let n = (*r.pick(&[260u64, 1100, 9000, 33_000, 66_000, 66_000])).min(left / cost[i]);
        if n > 1 {
            p.ops[i].reps = n;
            left -= n * cost[i];
        }
    }
}

/// One call, while others make some small call of theirs over and over: as
/// many times as it takes to hold it up for long, if they can hold it up.
pub fn neighbours(p: &mut Plan, r: &mut Rng) -> bool {
    let mut q = p.clone();
    q.threads = vec![(0..p.ops.len()).collect()];
    q.start = 0;
    let Some(pr) = profile(&q) else { return false };
    let cost = &pr.steps[0];
    let pick = |r: &mut Rng, lo: u64, hi: u64| {
        let v: Vec<usize> = (0..cost.len()).filter(|i| cost[*i] >= lo && cost[*i] < hi).collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    };
    let Some(a) = pick(r, 300, 60_000) else { return false };
    p.threads = vec![vec![a]];
    let nt = *r.pick(&[1, 1, 2]);
    let each = (6 * cost[a] + 40_000) / nt;
    for _ in 0..nt {
        let Some(b) = pick(r, 20, cost[a] / 2 + 1) else { return false };
        let mut o = p.ops[b].clone();
        o.reps = each / (cost[b] + 20) + 1;
        p.threads.push(vec![p.ops.len()]);
        p.ops.push(o);
    }
    let q = *r.pick(&[cost[a] / 2, cost[a] / 4, cost[a] / 16, 60]);
    let q = q.max(40);
    p.quantum = Some((q, 40_000, r.next() >> 1));
    p.start = 0;
    true
}

/// Decide who is preempted where.
pub fn preempt(p: &mut Plan, pr: &Prof, r: &mut Rng) {
    let nt = p.threads.len();
    if r.pct(5) {
        if let Some((t, k)) = any_call(p, r) {
            let d = r.range(-(1 << 50), 1 << 50);
            let s = r.below(pr.steps[t][k] + 1);
            p.evs.push((t, k, s, Ev::Jump(d)));
        }
    }
    if nt < 2 || p.calls() == 0 {
        return;
    }
    let shared = pr.shared.iter().flatten().any(|v| !v.is_empty());
    let style = r.below(100);
    if style < if shared { 70 } else { 30 } {
        // around writes to memory the call does not own, or rarely run code
        let n = 1 + r.us(4);
        for _ in 0..n {
            let Some((t, k)) = any_call(p, r) else { return };
            let pool = if !pr.shared[t][k].is_empty() && r.pct(80) { &pr.shared[t][k] } else { &pr.rare[t][k] };
            let s = if pool.is_empty() { r.below(pr.steps[t][k] + 1) } else { *r.pick(pool) };
            let s = s.saturating_add(r.below(5)).saturating_sub(2);
            let u = r.us(nt);
            p.evs.push((t, k, s, Ev::Switch(u)));
            if r.pct(60) {
                // come back before the other call is over
                let u2 = if u == t { (t + 1) % nt } else { u };
                if !p.threads[u2].is_empty() {
                    let k2 = r.us(p.threads[u2].len());
                    let pool = &pr.shared[u2][k2];
                    let s2 = if pool.is_empty() || r.pct(30) {
                        r.below(pr.steps[u2][k2] + 1)
                    } else {
                        r.pick(pool).saturating_add(r.below(4)).saturating_sub(1)
                    };
                    p.evs.push((u2, k2, s2, Ev::Switch(t)));
                }
            }
        }
    } else if style < 78 {
        for _ in 0..1 + r.us(8) {
            let Some((t, k)) = any_call(p, r) else { return };
            let s = r.below(pr.steps[t][k] + 2);
            p.evs.push((t, k, s, Ev::Switch(r.us(nt))));
        }
    } else if style < 92 {
        let q = *r.pick(&MOVES);
        p.quantum = Some((q, 10 + r.below(300), r.next() >> 1));
    } else {
        // in lock step
        let s = 1 + r.below(40);
        for t in 0..nt {
            for k in 0..p.threads[t].len().min(3) {
                let n = (pr.steps[t][k] / s).min(60);
                for j in 0..n {
                    p.evs.push((t, k, j * s, Ev::Switch((t + 1) % nt)));
                }
            }
        }
    }
    if r.pct(25) {
        // and between calls
        for _ in 0..3 {
            if let Some((t, k)) = any_call(p, r) {
                p.evs.push((t, k, 0, Ev::Switch(r.us(nt))));
            }
        }
    }
}

/// Many threads making the same call or two, to be in the middle of them at
/// the same time.
pub fn crowd(g: &mut Gen, p: &mut Plan) {
    let n = p.ops.len();
    if n == 0 {
        return;
    }
    let nt = *g.r.pick(&[6, 7, 9, 9, 12, 13, 17, 17, 20, 34]);
    let hot = [g.r.us(n), g.r.us(n)];
    let one = g.r.pct(60);
    p.threads = (0..nt)
        .map(|t| {
            let h = if one || g.r.pct(60) { hot[0] } else { hot[1] };
            if t + 1 == nt {
                vec![h, g.r.us(n)]
            } else if g.r.pct(20) {
                vec![g.r.us(n), h]
            } else {
                vec![h]
            }
        })
        .collect();
    p.start = g.r.us(nt);
}

/// All of a crowd but one are held up, until that one is done.
pub fn hold(p: &mut Plan, pr: &Prof, r: &mut Rng, kills: bool) {
    let kills = kills && r.pct(30);
    let nt = p.threads.len();
    let spare = r.us(nt);
    let u = r.unit();
    let same = r.pct(40);
    for t in 0..nt {
        if t == spare || r.pct(3) {
            continue;
        }
        let k = p.threads[t].len() - 1;
        let n = pr.steps[t][k];
        let s = if same { (u * n as f64) as u64 } else { r.below(n + 1) };
        p.evs.push((t, k, s, if kills { Ev::Kill } else { Ev::Stall }));
    }
}

/// Stall (or kill) threads in the middle of calls.
pub fn stall(p: &mut Plan, pr: &Prof, r: &mut Rng, kills: bool) {
    let nt = p.threads.len();
    let n = 1 + r.us(nt.max(2) - 1);
    for _ in 0..n {
        let Some((t, k)) = any_call(p, r) else { return };
        let pool: Vec<u64> = if !pr.shared[t][k].is_empty() && r.pct(60) {
            pr.shared[t][k].clone()
        } else if r.pct(50) {
            pr.rare[t][k].clone()
        } else {
            vec![]
        };
        let s = if pool.is_empty() { r.below(pr.steps[t][k] + 1) } else { r.pick(&pool) + r.below(4) };
        // one thread always survives
        let dead = p.evs.iter().filter(|e| e.3 == Ev::Kill).map(|e| e.0).collect::<std::collections::HashSet<_>>();
        let e = if kills && r.pct(50) && dead.len() + 1 < nt && !dead.contains(&t) { Ev::Kill } else { Ev::Stall };
        p.evs.push((t, k, s, e));
    }
}
