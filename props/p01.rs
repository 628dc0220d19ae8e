use crate::*;
pub fn add_movement(l: &mut TrafficLight, conflict: u64, amber: f64, red: f64, links: Vec<LinkId>) {
    l.add_movement(conflict, amber, red, links.into_iter())
}
