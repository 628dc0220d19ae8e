//! Entry points for values the contracts speak about.
use crate::group::{LinkProjection, Obstacle};
use crate::math::*;
use crate::vehicle::ObstaclePassResult;
use crate::{Interval, Link, LinkSet, Vehicle, VehicleSet};
/// where (and at which speed) the vehicle has to follow the obstacle, `None` if it can pass
pub fn held(v: &Vehicle, pos: f64, lat: Interval<f64>, rear: [Point2d; 2], vel: f64, link: &Link) -> Option<(f64, f64)> {
    match v.can_pass(Obstacle { pos, lat, rear_coords: rear, vel }, link) {
        ObstaclePassResult::Pass => None,
        ObstaclePassResult::Follow { pos, vel } => Some((pos, vel)),
    }
}
/// the same for the vehicle `u`, which is on the neighbouring lane
pub fn held_by(v: &Vehicle, u: &Vehicle, proj: &LinkProjection, link: &Link) -> (f64, Option<(f64, f64)>) {
    let o = u.project(proj);
    let pos = o.pos;
    match v.can_pass(o, link) {
        ObstaclePassResult::Pass => (pos, None),
        ObstaclePassResult::Follow { pos: p, vel } => (pos, Some((p, vel))),
    }
}
pub fn heed(l: &Link, links: &LinkSet, vehicles: &VehicleSet) { l.apply_accelerations(links, vehicles) }
pub fn centre(l: &Link, pos: f64) -> (Point2d, Vector2d) { let s = l.curve().sample_centre(pos); (s.pos, s.tan) }
