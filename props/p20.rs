//! Entry points for values the contracts speak about.
use crate::link::LinkCurve;
use crate::math::*;
use crate::util::Interval;
pub fn centre(c: &LinkCurve, pos: f64) -> (Point2d, Vector2d) { let s = c.sample_centre(pos); (s.pos, s.tan) }
pub fn beside(c: &LinkCurve, pos: f64, off: f64) -> (Point2d, Vector2d) { let s = c.sample(pos, off); (s.pos, s.tan) }
pub fn moved(c: &LinkCurve, pos: f64, lat: f64, long: f64) -> (Point2d, Point2d) { let s = c.sample_centre(pos); (s.lat_offset(lat), s.long_offset(long)) }
pub fn point(c: &LinkCurve, t: f64) -> Point2d { ParametricCurve2d::sample(c, t) }
pub fn slope(c: &LinkCurve, t: f64) -> Vector2d { c.sample_dt(t) }
pub fn extent(c: &LinkCurve) -> (f64, f64) { let b = c.bounds(); (b.min, b.max) }
pub fn from_line(a: Point2d, b: Point2d, step: f64) -> LinkCurve { LinkCurve::with_step(&LineSegment2d::from_ends(a, b), step) }
pub fn table(min: f64, max: f64, step: f64) -> LookupTable<f64> { LookupTable::from_samples(Interval::new(min, max), step, |x| x) }
pub fn look(t: &LookupTable<f64>, x: f64) -> f64 { *t.sample(x) }
