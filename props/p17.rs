//! Entry points for values the contracts speak about.
use crate::{LinkId, LinkSet, Simulation, Vehicle};
pub fn routes(s: &Simulation) -> Vec<(LinkId, LinkId)> { s.all_routes().collect() }
pub fn choice(v: &Vehicle, links: &LinkSet) -> Option<Vec<LinkId>> { v.choose_path(links).map(|p| p.links.to_vec()) }
