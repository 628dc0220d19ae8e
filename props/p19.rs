//! Entry points that name the trait methods of each kind of curve.
use crate::math::*;
use crate::util::Interval;
pub fn quad_sample(c: &QuadraticBezier2d, t: f64) -> Point2d { c.sample(t) }
pub fn quad_bounds(c: &QuadraticBezier2d) -> Interval<f64> { c.bounds() }
pub fn quad_dt(c: &QuadraticBezier2d, t: f64) -> Vector2d { c.sample_dt(t) }
pub fn quad_dt2(c: &QuadraticBezier2d, t: f64) -> Vector2d { c.sample_dt2(t) }
pub fn cubic_sample(c: &CubicBezier2d, t: f64) -> Point2d { c.sample(t) }
pub fn cubic_bounds(c: &CubicBezier2d) -> Interval<f64> { c.bounds() }
pub fn cubic_dt(c: &CubicBezier2d, t: f64) -> Vector2d { c.sample_dt(t) }
pub fn cubic_dt2(c: &CubicBezier2d, t: f64) -> Vector2d { c.sample_dt2(t) }
pub fn line_sample(c: &LineSegment2d, t: f64) -> Point2d { c.sample(t) }
pub fn line_bounds(c: &LineSegment2d) -> Interval<f64> { c.bounds() }
pub fn line_dt(c: &LineSegment2d, t: f64) -> Vector2d { c.sample_dt(t) }
pub fn raised(a: Point2d, b: Point2d, c: Point2d) -> CubicBezier2d { CubicBezier2d::quadratic(&[a, b, c]) }
pub fn from_points(a: Point2d, b: Point2d, c: Point2d, d: Point2d) -> CubicBezier2d { CubicBezier2d::new(&[a, b, c, d]) }
