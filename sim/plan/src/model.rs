//! Reference models: brute force where the library uses an index.
use crate::{BoxS, Ct, Geo, P};

/// Round to what the coordinate type stores.
pub fn rc(ct: Ct, v: f64) -> f64 {
    if ct == Ct::F32 {
        v as f32 as f64
    } else {
        v
    }
}

/// A normalised box: (min, max), NaN-ignoring like the library's min/max.
pub fn norm(ct: Ct, b: &BoxS) -> Option<(P, P)> {
    match b {
        BoxS::Empty => None,
        BoxS::B(a, c) => {
            let (a, c) = ((rc(ct, a.0), rc(ct, a.1)), (rc(ct, c.0), rc(ct, c.1)));
            Some(((a.0.min(c.0), a.1.min(c.1)), (a.0.max(c.0), a.1.max(c.1))))
        }
    }
}

pub fn meets(a: &Option<(P, P)>, b: &Option<(P, P)>) -> bool {
    match (a, b) {
        (Some((l1, h1)), Some((l2, h2))) => l1.0 <= h2.0 && h1.0 >= l2.0 && l1.1 <= h2.1 && h1.1 >= l2.1,
        _ => false,
    }
}

pub fn covers(a: &Option<(P, P)>, b: &Option<(P, P)>) -> bool {
    match (a, b) {
        (Some((l1, h1)), Some((l2, h2))) => l1.0 <= l2.0 && h2.0 <= h1.0 && l1.1 <= l2.1 && h2.1 <= h1.1,
        _ => false,
    }
}

pub fn join(a: Option<(P, P)>, b: Option<(P, P)>) -> Option<(P, P)> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some((l1, h1)), Some((l2, h2))) => {
            Some(((l1.0.min(l2.0), l1.1.min(l2.1)), (h1.0.max(h2.0), h1.1.max(h2.1))))
        }
    }
}

pub fn bounds(ct: Ct, bs: &[BoxS]) -> Option<(P, P)> {
    bs.iter().fold(None, |a, b| join(a, norm(ct, b)))
}

/// The box a distance query asks for, in the arithmetic of the type.
pub fn within_box(ct: Ct, x: f64, y: f64, d: f64) -> BoxS {
    if ct == Ct::F32 {
        let (x, y, d) = (x as f32, y as f32, d as f32);
        BoxS::B(((x - d) as f64, (y - d) as f64), ((x + d) as f64, (y + d) as f64))
    } else {
        BoxS::B((x - d, y - d), (x + d, y + d))
    }
}

pub fn geo_bounds(ct: Ct, g: &Geo) -> Option<(P, P)> {
    let pts = |v: &[P]| v.iter().fold(None, |a, p| join(a, norm(ct, &BoxS::B(*p, *p))));
    match g {
        Geo::Empty => None,
        Geo::Point(p) => pts(&[*p]),
        Geo::Line(v) | Geo::MPoint(v) => pts(v),
        Geo::Poly(e, _) => pts(e),
        Geo::MLine(v) => v.iter().fold(None, |a, l| join(a, pts(l))),
        Geo::MPoly(v) => v.iter().fold(None, |a, l| join(a, pts(&l.0))),
    }
}
