//! Entry points for values the contracts speak about.
use crate::conflict::*;
use crate::math::{project_point_onto_curve, Point2d};
use crate::{Link, LinkId};
use cgmath::prelude::*;
pub fn mirrored(c: &ConflictPoint) -> ((LinkId, LinkConflict), (LinkId, LinkConflict), usize) {
    let v: Vec<_> = c.link_conflicts().collect();
    (v[0], v[1], v.len())
}
/// the point of `b` nearest to the point of `a` at `x`, and how far apart the roads are there
/// (the lateral room that parallel lanes share counts less)
pub fn nearest(a: &Link, x: f64, b: &Link, guess: Option<f64>) -> (Option<f64>, f64) {
    let s = a.curve().sample_centre(x);
    let y = project_point_onto_curve(b.curve(), s.pos, 0.1, guess);
    (y, match y {
        Some(y) => {
            let t = b.curve().sample_centre(y);
            s.pos.distance(t.pos) - 1.8 * s.tan.dot(t.tan).abs()
        }
        None => 1000.0,
    })
}
pub fn foot(a: &Link, p: Point2d, guess: Option<f64>) -> Option<f64> { project_point_onto_curve(a.curve(), p, 0.1, guess) }
/// the cosine of the angle between two stretches of road
pub fn cosine(a: &Link, x: (f64, f64), b: &Link, y: (f64, f64)) -> f64 {
    let d = a.curve().sample_centre(x.1).pos - a.curve().sample_centre(x.0).pos;
    let e = b.curve().sample_centre(y.1).pos - b.curve().sample_centre(y.0).pos;
    d.normalize().dot(e.normalize())
}
