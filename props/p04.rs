use crate::*;
pub fn controls(l: &TrafficLight) -> Vec<(LinkId, TrafficControl)> {
    let mut out = Vec::new();
    for s in l.get_states() {
        out.push(s);
    }
    out
}
pub fn add_movement(l: &mut TrafficLight, conflict: u64, amber: f64, red: f64, links: Vec<LinkId>) {
    l.add_movement(conflict, amber, red, links.into_iter())
}
