//! Entry points for values the contracts speak about.
use crate::group::*;
use crate::math::*;
use crate::{Interval, Link, LinkId};
use cgmath::prelude::*;
pub fn group2(a: &Link, b: &Link, mask: u32) -> LinkGroup { LinkGroup::new(&[a, b], mask) }
pub fn group3(a: &Link, b: &Link, c: &Link, mask: u32) -> LinkGroup { LinkGroup::new(&[a, b, c], mask) }
/// which lane the projection leads to, and the position and sideways offset it gives for `x`
pub fn seen(g: &LinkGroup, src: LinkId, dst: LinkId, x: f64) -> (LinkId, f64, f64) {
    let p = g.projection(src, dst);
    let o = p.project([Point2d::new(0.0, 0.0); 2], x, Interval { min: 0.0, max: 0.0 }, 0.0);
    (p.link_id(), o.pos, o.lat.min)
}
/// the lanes a lane is projected onto
pub fn others(g: &LinkGroup, src: LinkId) -> Vec<LinkId> { g.projections_from_link(src).iter().map(|p| p.link_id()).collect() }
/// the point of `dst` nearest to the point of `src` at `x` (`guess` if the search fails), and how far to the side it is
pub fn expected(src: &Link, dst: &Link, x: f64, guess: f64) -> (f64, f64) {
    let p = src.curve().sample_centre(x).pos;
    let y = project_point_onto_curve(dst.curve(), p, 0.1, Some(guess)).unwrap_or(guess);
    let s = dst.curve().sample_centre(y);
    (y, (p - s.pos).dot(rot90(s.tan)))
}
