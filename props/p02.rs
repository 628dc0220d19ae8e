use crate::*;
pub fn states(l: &TrafficLight) -> Vec<(usize, LightState)> {
    let mut out = Vec::new();
    for s in l.state() {
        out.push(s);
    }
    out
}
