T10 = 'The suite has ten tests, none of which drives a traffic light; '

P.append(p('P01', 'Conflicting signals are never open together',
  'If two movements of a traffic light declare a conflict with each other and no phase calls both, they never show a non-red aspect at the same time, whatever the phase programme, timings and step sizes. '
  'A movement leaves red only when every movement conflicting with it is red and has been red for longer than that movement\'s clearance time; new movements start red.',
  ['inputs', 'histories', 'configurations'], 'every controller (any number of movements up to the mask width, any phases, masks and timings), every reachable signal state, every sequence of step sizes',
  T10 + 'mutual exclusion is a statement about all programmes, masks and step sequences.',
  ['src/light.rs'], [('red-to-green transition checks the conflict mask and clearance', 'TrafficLight::step, Movement::step'), ('movements are created red', 'TrafficLight::add_movement')],
  ['TrafficLight::step', 'TrafficLight::add_movement'], [('movements', 'signal state, time in state, conflict mask', 'src/light.rs')],
  note='Proved for any number of movements and phases (symbolic-length loops with inferred invariants); registration of a movement is bounded to 3 roads; controllers with two movements and two phases are also stepped movement by movement (bounded). Assumes exact real arithmetic for time.'))

P.append(p('P02', 'Signal aspects only change red, green, amber, red',
  'Each movement cycles red to green to amber to red: green never turns red without amber, red never turns amber, and amber lasts at least its configured time before red. '
  'Amber may return to green only when the movement is called again. The reported signal state of each movement is its current aspect, in the order the movements were added.',
  ['inputs', 'histories', 'configurations'], 'every controller, every movement, every step size, every reachable state',
  T10 + 'the aspect order has to hold for every history of phases.',
  ['src/light.rs'], [('per-movement state machine', 'Movement::step'), ('state()', 'TrafficLight::state')], ['TrafficLight::step', 'TrafficLight::state'],
  note='Aspect transitions proved for any number of movements and phases; the reported list is bounded to 3 movements.'))

P.append(p('P03', 'The phase programme runs in order and each phase is served',
  'The controller moves to the next phase, cyclically and one at a time, exactly when every movement called by the current phase has been green for the phase duration. '
  'Only movements of the current phase turn green; a called movement that is clear of conflicts turns green at the next step; green is held through its phase and withdrawn via amber outside it. A controller without phases keeps everything red and does not fail.',
  ['inputs', 'histories', 'configurations'], 'every controller, phase table and step size',
  T10 + 'ordering and service are statements about every programme.',
  ['src/light.rs'], [('phase advance test', 'TrafficLight::step'), ('calling the movements of a phase', 'TrafficLight::apply_phase')], ['TrafficLight::step', 'TrafficLight::add_phase'],
  note='Proved for any number of movements and phases.'))

P.append(p('P04', 'Traffic lights open exactly the roads of their green movements',
  'After every simulation step each road governed by a traffic light is open if its movement shows green and closed otherwise. '
  'A movement governs exactly the roads it was registered with, and roads not governed by any light keep their control.',
  ['inputs', 'histories', 'configurations'], 'every controller, every assignment of roads to movements, every step size',
  T10 + 'the mapping has to hold for every registration order and every step.',
  ['src/light.rs', 'src/simulation.rs'], [('controls derived from aspects', 'TrafficLight::get_states'), ('controls applied to roads', 'Simulation::update_lights')],
  ['Simulation::step', 'Link control'],
  note='The control list is proved for any number of movements and governed roads; its application inside a whole simulation step is bounded to 3 roads and no vehicles.'))

P.append(p('P05', 'Vehicles move by their speed, never backwards or by jumps',
  'In every time step a vehicle\'s speed changes by its acceleration times the step (braking capped at 6 m/s2) and stops at zero, and it advances by the mean of its old and new speed times the step; it never reverses. '
  'A vehicle that stands still with no throttle does not move. Reported front, rear, middle, length and speed are mutually consistent and a new vehicle has exactly the attributes it was given and is at rest.',
  ['inputs', 'histories'], 'every vehicle state, acceleration and step size >= 0',
  'The integration tests drive one vehicle on one road and print positions; no test checks the law of motion for arbitrary states.',
  ['src/vehicle.rs', 'src/vehicle/acceleration.rs'], [('integration', 'Vehicle::integrate'), ('braking cap', 'AccelerationModel::acc')], ['Vehicle::integrate', 'Vehicle::pos_front', 'Vehicle::new'],
  note='Proved for every vehicle state over exact reals.'))

P.append(p('P06', 'Driving rules can only slow a vehicle down, in any order',
  'Each driving rule (limit in force, coming limit, stop line, leader, obstacle) leaves the vehicle\'s acceleration at the minimum of what it was and what the rule demands, and the demand does not depend on what was applied before. '
  'So the result of a round does not depend on the order of the rules, and every round starts from full throttle. Applying a rule changes nothing else about the vehicle.',
  ['inputs', 'schedules'], 'every vehicle state, every pair of rules with any arguments, both orders',
  'No test applies two rules; order independence quantifies over all pairs and arguments.',
  ['src/vehicle.rs', 'src/vehicle/acceleration.rs'], [('minimum with the stored acceleration', 'AccelerationModel::{stop_at_line, follow_vehicle, apply_speed_limit, apply_current_speed_limit}')], ['Vehicle::follow_vehicle etc.'],
  note='Proved for all arguments and all pairs of rules.'))

P.append(p('P07', 'The car-following law reacts in the right direction',
  'A vehicle whose gap to the vehicle ahead is 2 m or less demands emergency braking of ten times its full throttle; otherwise a shorter gap, a slower leader or a higher own speed never reduces the braking. '
  'Behind an equally fast leader it neither brakes nor accelerates exactly at 2 m plus its time headway, brakes when closer and accelerates when further. A stop line acts like a standing vehicle, an obstacle like a vehicle at its nearest end along the heading.',
  ['inputs'], 'every vehicle, gap, own speed >= 0 and leader speed >= 0',
  'No test calls the car-following law; monotonicity quantifies over pairs of situations.',
  ['src/vehicle/acceleration.rs', 'src/vehicle.rs'], [('intelligent driver model', 'AccelerationModel::idm')], ['Vehicle::follow_vehicle', 'Vehicle::stop_at_line', 'Vehicle::follow_obstacle'],
  note='Proved over exact reals; the square root enters through its defining axiom.'))

P.append(p('P08', 'Speed limits are obeyed in force and anticipated when coming',
  'A vehicle below its limit (the posted limit times its adjustment factor) may accelerate, at the limit it does not, above it it slows down, and it never crosses the limit in one step of reasonable length. '
  'A coming lower limit is ignored while comfortable braking suffices; otherwise the vehicle brakes as hard as needed to reach the limit there, but at most twice the comfortable braking, and once reached the limit is in force.',
  ['inputs', 'histories'], 'every vehicle state, limit > 0, factor > 0, distance; step sizes with 4*max_acc*dt <= limit for the no-crossing part',
  'No test applies a limit; the balance-point and no-crossing statements quantify over all speeds, limits and factors.',
  ['src/vehicle/acceleration.rs', 'src/vehicle.rs'], [('free-road term', 'AccelerationModel::apply_current_speed_limit'), ('anticipation', 'AccelerationModel::apply_speed_limit')], ['Vehicle::apply_speed_limit', 'Vehicle::integrate'],
  note='Proved over exact reals.'))

P.append(p('P10', 'Arrival-time and stopping-distance predictions are kinematically right',
  'The predicted earliest arrival time is exactly the time in which full throttle, capped at the given speed (or the current speed if higher), covers the distance; it is never negative, zero when already there, and grows with the distance. '
  'A vehicle can stop before a point exactly when the point is at least its comfortable braking distance plus 2.5 m ahead of its front.',
  ['inputs'], 'every vehicle state, target position and cap > 0',
  'One unit test checks six values of the arrival time; the statement is about all speeds, distances and caps (a defect for vehicles above the cap was found and fixed).',
  ['src/vehicle/acceleration.rs', 'src/vehicle.rs'], [('closed form', 'AccelerationModel::min_reach_time'), ('braking distance', 'AccelerationModel::stopping_distance')], ['Vehicle::min_reach_time', 'Vehicle::can_stop'],
  note='Proved over exact reals; the square root enters through its defining axiom.'))

TI = 'The integration tests run one or two vehicles and assert nothing about this; '

P.append(p('P09', 'Frozen vehicles brake to a halt and stay there until released',
  'A vehicle set frozen reports frozen until it is released, independently of the other vehicles, and freezing twice is the same as once. '
  'From the next acceleration update on a frozen vehicle brakes as hard as it can, comes to a halt and does not move while frozen; nothing else it meets on the road changes that.',
  ['inputs', 'histories'], 'every set of frozen vehicles of any size, every order of freezing and releasing, every vehicle state, every step size',
  TI + 'freezing is not tested at all and interacts with every other driving rule.',
  ['src/simulation.rs', 'src/vehicle/acceleration.rs'], [('list of frozen vehicles', 'Simulation::set_vehicle_frozen'), ('emergency stop after all other rules', 'Simulation::apply_frozen_vehicles')],
  ['Simulation::get_vehicle_frozen', 'Vehicle::vel', 'Vehicle::position'],
  note='The list operations, and that each listed vehicle (and no other) is made to brake after all other rules, are proved for frozen sets and fleets of any size; the effect inside a whole step and the halt are bounded to one road with two vehicles (all their parameters arbitrary).'))

P.append(p('P11', 'Vehicles obey the control at the end of their road',
  'Nobody is admitted past the stop line of a closed road: the first vehicle in sight brakes for the line, and admission is never granted out of order. '
  'At an open road the first vehicle is admitted exactly when it can no longer stop comfortably 5 m before the line; once admitted it does not brake for that line again. '
  'A vehicle whose route ends at the end of its road brakes for the end unless it has arrived at its destination.',
  ['inputs', 'schedules'], 'every vehicle state and road, every control, every queue of vehicles',
  TI + 'admission depends on speed, distance, control and queue order together.',
  ['src/link.rs', 'src/vehicle.rs'], [('stop-line processing', 'Link::apply_stoplines, Link::process_vehicles'), ('admission bookkeeping', 'Vehicle::{get_route, can_stop, enter_link, integrate}')],
  ['Simulation::step'], [('entered', 'roads of the route the vehicle has been admitted to', 'src/vehicle.rs')],
  note='Proved for the stop-line pass over any queue of vehicles; whole simulation steps are bounded to three roads and two vehicles with every parameter arbitrary.'))

P.append(p('P12', 'Giving way respects priority, queue order and sufficient gaps',
  'A vehicle at a give-way line takes a place in the queue exactly when it is within the required distance and, if required, stopped; it waits at the line meanwhile. '
  'It enters exactly when for every crossing road the nearest vehicle still to pass either arrives later than the vehicle needs to clear the crossing plus half a second, or has to wait for it: not admitted yet and of lower priority, behind a closed line, or of equal priority with a later place in the queue.',
  ['inputs', 'schedules'], 'every vehicle state, priority, queue place, gap and control combination, any crossing traffic, any number of crossing roads',
  TI + 'gap acceptance combines two arrival-time predictions, priorities and queue places.',
  ['src/link.rs', 'src/vehicle.rs'], [('gap acceptance', 'Link::can_enter, Link::check_gap'), ('queueing', 'Link::apply_stoplines')], ['Simulation::step'],
  note='Gap acceptance is proved for any traffic on the crossing road and any number of crossings; queueing and right of way of approaching traffic are bounded to one waiting and one other vehicle. The oracle uses the arrival-time prediction of the crate itself, whose meaning is P10.'))

P.append(p('P13', 'Every vehicle is listed on exactly the road it is on',
  'After any operation (adding, removing, driving on, changing lanes) every vehicle in the simulation is listed exactly once, on the road it is on, and no removed vehicle is listed anywhere. '
  'A vehicle that drives past the end of its road continues on the next road of its route; it leaves the simulation exactly when there is none. Vehicles entering a road are inserted in order of position.',
  ['inputs', 'histories'], 'every vehicle state and operation, any list of vehicles on a road',
  TI + 'consistency of two redundant structures must hold after every operation sequence.',
  ['src/simulation.rs', 'src/link.rs', 'src/vehicle.rs'], [('lists updated on advance', 'Simulation::advance_vehicles'), ('insertion by position', 'Link::insert_vehicle'), ('removal', 'Link::remove_vehicle')],
  ['Simulation::iter_vehicles', 'Link::vehicles'], [('vehicles', 'vehicles on the road in order', 'src/link.rs')],
  note='Insertion and removal are proved for lists of any length; whole operations are bounded to two roads and three vehicles with everything else arbitrary.'))

P.append(p('P14', 'Passing from one road to the next is seamless',
  'When a vehicle passes the end of its road its distance beyond the end becomes its position on the next road and its speed is unchanged. '
  'Roads it was admitted to stay admitted, a queue place for a road further on is kept, and a lane change in progress continues on the same course and ends at the same place.',
  ['inputs', 'histories'], 'every vehicle state, route, lane change and step size',
  TI + 'continuity has to hold at whatever position a step ends.',
  ['src/vehicle.rs', 'src/simulation.rs', 'src/math/cubic.rs'], [('hand-over between roads', 'Vehicle::advance'), ('course shifted with the origin', 'CubicFn::translate_x')], ['Simulation::step', 'Vehicle::pos_mid'],
  note='The hand-over is proved for any route in any network; queue places and lane changes across several roads in one step are bounded to routes of three roads.'))

P.append(p('P15', 'Lane changes reach exactly the permitted neighbouring lanes',
  'The lanes a vehicle can get to from a lane are exactly those to its left and right up to the first forbidden change, and the lanes it can be reached from are exactly those from which permitted changes lead to it. '
  'A group of lanes offers a lane change from one lane to a neighbouring one exactly when the permission for that lane and direction is given; a road in no group reaches only itself.',
  ['inputs', 'configurations'], 'every group of 2 to 16 lanes, every permission mask, every lane',
  'No test creates a lane group with restrictions; the statement quantifies over all masks and lanes.',
  ['src/group.rs', 'src/link.rs', 'src/simulation.rs'], [('scan along permitted changes', 'LinkGroup::{reachable_lanes, reachable_from_lanes}'), ('changes offered', 'LinkGroup::new, LinkGroup::lane_changes')],
  ['Link::reachable_lanes', 'Simulation::add_link_group', 'Link::lane_changes'],
  note='Reachability is proved for any group size, mask and lane; the changes offered when a group is created are bounded to 2 or 3 short lanes.'))

P.append(p('P18', 'A lane change is a smooth course onto the new lane',
  'A vehicle starting a lane change keeps its place, direction and speed: its course starts at its present offset from the new lane with its present direction, and ends after the given distance on the centre line, parallel to it. '
  'The change is over exactly when the vehicle reaches that end, and until then its offset is the one given by the course, which is smooth and the same wherever its origin is placed.',
  ['inputs', 'histories'], 'every vehicle state, offset, slope, distance and position along the course',
  TI + 'the course is a polynomial fitted to four conditions; samples cannot settle that they hold for all of them.',
  ['src/vehicle.rs', 'src/math/cubic.rs', 'src/link/curve.rs'], [('course', 'CubicFn::fit'), ('start of a lane change', 'Vehicle::set_location, Simulation::do_lane_change'), ('projection onto the new lane', 'LinkCurve::inverse_sample')],
  ['Vehicle::pos_mid', 'Simulation::step'], [('lane_change', 'course and end position of the lane change in progress', 'src/vehicle.rs')],
  note='The course, its end and the offset are proved for all arguments; starting a change within a simulation is bounded to one vehicle and an empty neighbouring lane. The iterative projection onto the new lane is represented by its contract (any point it may return).'))

P.append(p('P19', 'Curves have exactly the shape their control points define',
  'Quadratic and cubic curves are the blend of their control points for every parameter, and their reported derivatives are the derivatives of that blend; a line runs from its first to its second point with its length as parameter. '
  'Raising the degree, splitting into parts, reversing and building a straight curve keep the shape.',
  ['inputs'], 'all control points and all parameters',
  'The unit tests sample a few curves; identities over all points and parameters cannot be tested.',
  ['src/math/curve/bezier.rs', 'src/math/curve.rs'], [('Bernstein form', 'impl ParametricCurve2d for {QuadraticBezier2d, CubicBezier2d, LineSegment2d}'), ('conversions', 'CubicBezier2d::{from_quadratic, split, reverse}')],
  ['ParametricCurve2d::{sample, sample_dt, sample_dt2, bounds}'],
  note='Proved for all arguments over exact reals. The second derivative of the cubic is a finite difference in the code; it is proved exact because the curve is a cubic.'))

P.append(p('P20', 'A road can be sampled anywhere and follows its course',
  'A road passes through every one of the evenly spaced points taken from the curve it was created from, has the length of that curve, and can be sampled at any position, beyond its ends too, without failing. '
  'The heading reported is a unit vector along the road, an offset point lies at right angles to the left of it, and a lookup in the table of nearby points is never more than half a table step off.',
  ['inputs', 'configurations'], 'every road of any number of pieces, every position and offset',
  'One test samples one road at a few positions; the statement is about every road, position and offset.',
  ['src/link/curve.rs', 'src/math/lut.rs'], [('piecewise curve', 'LinkCurve::{with_step, sample_internal, sample, sample_centre}'), ('lookup table', 'LookupTable::{from_samples, sample}')],
  ['LinkCurve::sample', 'Link::curve'], [('segments', 'one quadratic piece per two steps', 'src/link/curve.rs')],
  note='Proved for any number of pieces and any position. The numerically integrated spacing of the points (equidistant_points_along_curve) is represented by its result: any list of points and length.'))

P.append(p('P23', 'Intervals measure overlap, gap and position consistently',
  'A point lies in an interval exactly when it is between its ends; two intervals overlap exactly when they share more than an end point; the gap between disjoint intervals is the distance between their facing ends, is symmetric, and is never positive for overlapping ones. '
  'Interpolating and its inverse undo each other; constructing, shifting and halving intervals keep their ends where they should be.',
  ['inputs'], 'all pairs of intervals, all points and factors',
  'There is no test of intervals; the rules for conflicts, obstacles and lane changes all measure with them.',
  ['src/util.rs'], [('interval arithmetic', 'Interval::{contains, overlaps, distance_to, lerp, inv_lerp, disc, add, sub}')], ['Interval'],
  note='Proved for all arguments over exact reals.'))

P.append(p('P22', 'Vehicles are drawn where they are, pointing where they go',
  'Every vehicle\'s world position is the point of its road\'s centre line at its distance along the road, moved sideways by its lane change course; its heading is a unit vector that points from where its rear axle was to where it is now. '
  'A vehicle that has just been added is aligned with its road. The sideways extent of its rear, which overtaking decisions use, covers both its lane and its rear end as it is turned.',
  ['inputs', 'histories'], 'every vehicle state, every road with any number of curve pieces, with and without a lane change in progress',
  TI + 'none looks at world coordinates.',
  ['src/vehicle.rs', 'src/simulation.rs'], [('placement', 'Vehicle::update_coords'), ('called for every vehicle', 'Simulation::update_vehicle_coords')], ['Vehicle::position', 'Vehicle::direction', 'Vehicle::rear_coords'],
  note='Proved for every road and vehicle, with the curve sample as a callee contract (itself proved in P20); that every vehicle of the fleet is updated is bounded to three vehicles, adding a vehicle to one empty road, and whole steps to one vehicle on two straight roads. Assumes wheel base > 0.'))

P.append(p('P24', 'Decisions are refreshed on schedule',
  'Each simulation step counts one frame. Vehicles keep their chosen acceleration until at least 0.1 s of simulated time have passed since it was last chosen, and their route until 0.3 s have passed. '
  'When accelerations are refreshed, nothing of the previous round is left: the result depends on the present situation only.',
  ['inputs', 'histories', 'schedules'], 'every simulation state, every fleet and road network (between updates), every step size',
  TI + 'none checks the update clocks.',
  ['src/simulation.rs', 'src/vehicle.rs', 'src/vehicle/acceleration.rs'], [('update clocks', 'Simulation::step, Simulation::apply_accelerations, Simulation::calculate_lane_changes'), ('reset', 'Vehicle::reset')], ['Simulation::step', 'Simulation::frame'],
  note='Nothing changes between updates: proved for any fleet and road network. Whole steps and refreshes are bounded to two roads and two vehicles.'))

P.append(p('P27', 'Every vehicle heeds the vehicle directly ahead and the limits ahead',
  'On every road each vehicle follows the vehicle directly in front of it and obeys the limit of the road. '
  'A vehicle approaching the end of its road heeds the limit of the road it will enter and the last vehicle on that road; roads further ahead concern it only once it has been admitted to them. Vehicles on other roads and with other destinations are not affected.',
  ['inputs', 'configurations', 'histories'], 'every number of vehicles on a road and every vehicle state; entering traffic on small networks',
  TI + 'none looks at who follows whom.',
  ['src/link.rs', 'src/simulation.rs', 'src/vehicle.rs'], [('walk along the road from front to back', 'Link::apply_accelerations, Link::process_vehicles'), ('continuation on preceding roads', 'Link::process_vehicles')], ['Vehicle::acc', 'Simulation::step'],
  note='Following on one road proved for any number of vehicles and any fleet; entering traffic is bounded to three roads and two vehicles per road.'))

P.append(p('P16', 'Positions on neighbouring lanes are looked up correctly',
  'A group of lanes can tell, for every lane and every position on it, where that is on each other lane of the group and how far to the side: the nearest point of the other lane, in steps of two metres, the first or last one beyond the ends. '
  'The lookup concerns the two lanes asked for and is defined for every position, including before the start of the lane, where the distance behind the start is kept.',
  ['inputs', 'configurations'], 'every table of any length and every position (lookup); small groups of lanes (construction)',
  'No test creates a lane group; the statement quantifies over positions, lanes and group sizes.',
  ['src/group.rs', 'src/vehicle.rs'], [('sample table', 'LinkProjection::{project, project_approx, sample}'), ('construction', 'LinkGroup::new'), ('pair lookup', 'LinkGroup::{projection, projections_from_link}')], ['vehicles reacting to neighbouring lanes', 'Link::project_approx'],
  note='Lookup proved for tables of any length and any position. Pair lookup is bounded to 6 lanes and construction to 3 lanes of at most 4 m, with the curve search as an uninterpreted callee.'))

P.append(p('P21', 'Connections and conflicts are recorded on both sides',
  'Connecting a road to another makes the second reachable from the first and the first an entrance of the second, and changes nothing else. '
  'Declaring that two roads converge records, if and only if both have a stretch where they come too close, one conflict with each road that names the other road and the stretch on it; the stretch covers every place where they are too close and counts as merging when they run in the same general direction.',
  ['inputs', 'configurations'], 'every network with any number of roads and connections; every pair of roads (stretch: short roads)',
  'No test connects roads or declares a conflict.',
  ['src/simulation.rs', 'src/link.rs', 'src/conflict.rs'], [('connection', 'Simulation::add_link_connection'), ('conflict records', 'ConflictPoint::{new, link_conflicts}, Simulation::add_link_convergance'), ('stretch', 'ConflictPointLink::new')], ['Link::links_in', 'Link::links_out', 'giving way and merging'],
  note='Connections proved for any network, records for any pair of roads; the stretch is bounded to roads of at most 1 m (four sample points), with the curve search and curve samples as uninterpreted callees; the curve search itself is executed only for given roads of fixed shape (bounded).'))

P.append(p('P28', 'Vehicles merging or crossing keep clear of the vehicle ahead in the zone',
  'Where two roads conflict, the vehicles on both are ordered by how far they are along the conflict zone; each that comes directly after a vehicle of the other road follows that vehicle if the roads merge and its rear is inside the zone, and otherwise stops before the zone. '
  'The vehicle furthest along is not held up, vehicles that have left the zone do not count, and without traffic on one of the roads nobody is affected.',
  ['inputs', 'histories', 'configurations'], 'every zone, vehicle state and speed limit; up to three vehicles around the zone, also on the road before',
  'No test has two roads that conflict.',
  ['src/conflict.rs', 'src/link.rs'], [('ordering and yielding', 'ConflictPoint::apply_accelerations'), ('collecting vehicles', 'ConflictPointLink::find_vehicles, Link::process_vehicles')], ['Vehicle acceleration at merges'],
  level='other', note='Who gives way to whom is bounded in the number of vehicles (one to three) and quantifies over every zone, position, speed and driver; only that an idle road affects nobody is proved for any traffic. The level proof is therefore not claimed.'))

P.append(p('P17', 'Planned paths can be driven and lead to the destination',
  'A vehicle with a destination that can be reached plans along a cheapest way to it, changing lanes only where permitted; the candidate paths start on its lane or one it may change to, run over connected roads that lead to the destination, look at least 200 m ahead where possible and let it leave the simulation only at the destination. '
  'At each decision it takes the cheapest candidate (nearer dead ends cost more, lane changes a little), never while changing lanes. Taking a path keeps permissions and queue places for the common first part only.',
  ['inputs', 'configurations', 'histories'], 'small road networks with any lengths and costs, every distance table and vehicle state; routes and paths of any length when a path is taken',
  TI + 'none plans a route.',
  ['src/vehicle/pathfinding.rs', 'src/vehicle.rs', 'src/simulation.rs'], [('distance table', 'PathfindingModel::{reroute, calc_lane_matrix}'), ('candidate paths', 'PathfindingModel::make_paths'), ('choice', 'Vehicle::{choose_path, evaluate_path}, Simulation::calculate_lane_changes'), ('taking a path', 'Vehicle::set_path')], ['Simulation::set_vehicle_destination', 'Simulation::all_routes', 'Vehicle route and exit'],
  note='Taking a path is proved for any route and path; planning is bounded to networks of at most six roads, among them forks and destinations beside the lane the way leads to. The library graph searches (dijkstra, dfs_reach) are represented by their contracts.'))

P.append(p('P29', 'Vehicles pass what leaves them room and follow what does not',
  'A vehicle passes a vehicle reaching over from a neighbouring lane exactly when its own course there leaves more than half its width plus half a metre sideways; otherwise it follows the rear end of that vehicle at its speed. '
  'This concerns only vehicles behind it and in sight: of those that cannot pass the first follows it, and vehicles ahead of it, on other lanes or further behind are not affected.',
  ['inputs', 'histories', 'configurations'], 'every vehicle, course, obstacle and straight road (any road if the obstacle is where it was looked up); two lanes with at most two vehicles each for who is affected',
  TI + 'none has two lanes with vehicles beside each other.',
  ['src/vehicle.rs', 'src/link.rs', 'src/group.rs'], [('passing decision', 'Vehicle::can_pass, Vehicle::offset_at'), ('who is affected', 'Link::follow_obstacles, Link::apply_accelerations, Link::process_vehicles')], ['Vehicle acceleration beside other lanes'],
  note='The passing decision is proved for straight roads of any number of pieces and for obstacles at the place they were looked up on any road; that the search for the place of an obstacle on a curved road ends is not proved.'))

NA = []
NOTES = 'All checks: python3-vt engine/run.py check <id> (wrapped by ./check). Exit 0 held, 1 violation, 2 no answer.'
