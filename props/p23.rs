//! Entry points that fix the number type of the generic interval operations.
use crate::util::Interval;
pub fn contains(a: &Interval<f64>, v: f64) -> bool { a.contains(v) }
pub fn overlaps(a: &Interval<f64>, b: &Interval<f64>) -> bool { a.overlaps(b) }
pub fn clearance_with(a: &Interval<f64>, b: &Interval<f64>) -> f64 { a.clearance_with(b) }
pub fn distance(a: &Interval<f64>, v: f64) -> f64 { a.distance(v) }
pub fn lerp(a: &Interval<f64>, v: f64) -> f64 { a.lerp(v) }
pub fn inv_lerp(a: &Interval<f64>, v: f64) -> f64 { a.inv_lerp(v) }
pub fn length(a: &Interval<f64>) -> f64 { a.length() }
pub fn midpoint(a: &Interval<f64>) -> f64 { a.midpoint() }
pub fn disc(a: f64, v: f64) -> Interval<f64> { Interval::disc(a, v) }
pub fn add(a: Interval<f64>, v: f64) -> Interval<f64> { a + v }
pub fn sub(a: Interval<f64>, v: f64) -> Interval<f64> { a - v }
pub fn as_array(a: &Interval<f64>) -> [f64; 2] { a.as_array() }
