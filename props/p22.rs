//! Entry points for values the contracts speak about.
use crate::link::LinkCurve;
use crate::math::*;
pub fn centre(c: &LinkCurve, pos: f64) -> (Point2d, Vector2d) { let s = c.sample_centre(pos); (s.pos, s.tan) }
