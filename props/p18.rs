//! Entry points for values the contracts speak about.
use crate::link::LinkCurve;
use crate::math::*;
use cgmath::prelude::*;
pub fn both(c: &CubicFn, x: f64) -> (f64, f64) { c.y_and_dy(x) }
pub fn derivatives(c: &LinkCurve, t: f64) -> (Point2d, Vector2d, Vector2d) { (ParametricCurve2d::sample(c, t), c.sample_dt(t), c.sample_dt2(t)) }
pub fn norm(v: Vector2d) -> f64 { v.magnitude() }
