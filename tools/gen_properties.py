#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})

MAPPER = "src/ndt_mapper.cpp"
prop("C01", "The mapper node survives every interleaving and input sequence",
     "For every interleaving of the node's callback, loop-closure and publishing threads and every sequence of scans, initial poses and configure requests, the node never crashes, lets an exception escape, touches memory outside live objects, or deadlocks. This includes a map loaded (and replaced) while the other threads are at work, any documented parameter values, and sensor or initial pose messages that are empty or hold NaN/Inf values.",
     ["schedules", "histories", "inputs", "configurations", "fault_sequences"],
     "all thread schedules, message histories, sensor/TF/storage faults and parameter sets of a mapping, loaded-map, scan-matching or particle-filter node",
     "No test instantiates the node at all; its three threads, services and callbacks never run under the test suite, so no interleaving is reached.",
     [MAPPER, "src/graph.cpp", "src/occupancy_grid.cpp", "src/scan_matcher_ndt.cpp", "src/particle_filter.cpp"],
     [("graph lock around shared map data", MAPPER + " graph_mutex_"), ("pose lock", MAPPER + " prev_pose_mutex_"), ("exception handling of TF and storage errors", MAPPER)],
     [("graph_", "the map: scans and constraints", "include/ndt_2d/ndt_mapper.hpp"), ("global_scan_matcher_/local_scan_matcher_", "matcher instances shared between threads", "include/ndt_2d/ndt_mapper.hpp")],
     ["process exit, exceptions leaving callbacks/threads, address checks on every access"])
prop("C02", "Shared map and pose state is never accessed without ordering",
     "Whatever the schedule, two threads of the node never touch the same map, pose, flag or scan-matcher data at the same time with at least one of them writing: every such pair of accesses is ordered by a lock, an atomic or thread start/join. Consequently no reader ever sees a half-written pose, a container being modified, or an object being destroyed.",
     ["schedules", "histories", "configurations"],
     "all schedules of the node's three threads over mapping, relocalization, map loading, enabling/disabling and optimization",
     "Needs concurrent executions of the node, which no test creates; a race is invisible to any single-threaded unit test.",
     [MAPPER, "include/ndt_2d/ndt_mapper.hpp", "src/scan.cpp", "src/graph.cpp"],
     [("graph_mutex_ and prev_pose_mutex_ critical sections", MAPPER)],
     [("prev_odom_pose_/prev_robot_pose_", "pose pair behind map->odom", "include/ndt_2d/ndt_mapper.hpp"), ("scan poses", "corrected by loop closure, read by publisher", "include/ndt_2d/scan.hpp")],
     ["happens-before analysis of every instrumented access under the simulated schedule"])
prop("C03", "The map->odom transform always comes from one coherent update",
     "Every transform published from the map frame to the odometry frame equals (robot pose in map) composed with the inverse of (robot pose in odom) for one and the same localization update, namely the latest completed one or one finishing while the transform was being prepared. It never mixes two updates and never goes back to an update older than one already published; an initial pose that was accepted counts as an update, one that was refused does not.",
     ["schedules", "histories", "fault_sequences"],
     "all schedules of scan processing / initial-pose handling against the publishing thread, in mapping, scan-matching and particle-filter modes",
     "The transform is only produced by the running node's publisher thread, which no test starts.",
     [MAPPER, "include/ndt_2d/conversions.hpp"],
     [("pair updated together under prev_pose_mutex_", MAPPER + " laserCallback/poseCallback"), ("map_to_robot * odom_to_robot^-1", MAPPER + " mapPublishThread")],
     [("prev_odom_pose_, prev_robot_pose_", "last localization update", "include/ndt_2d/ndt_mapper.hpp")],
     ["transforms sent by the TF broadcaster"])
prop("C04", "The pose graph is always whole: nothing dangling, lost or duplicated",
     "Every graph that can be observed (published, saved or reloaded), at any moment and under any schedule, has scans numbered 0..n-1 in the order they were accepted, and every constraint joins two different scans that are present in it. Each scan accepted while mapping appears exactly once and, unless it is the first, comes with exactly one non-switchable constraint from the scan before it; scans and constraints are never removed, re-ordered, or altered except for scan poses.",
     ["schedules", "histories", "fault_sequences"],
     "all histories of scans, relocalizations, saves and loads, with all interleavings of the loop-closure and publishing threads",
     "Graph tests build a two-scan graph by hand; the node that grows the graph from several threads is never run.",
     [MAPPER, "src/graph.cpp", "src/constraint.cpp"],
     [("scan and constraint appended under graph_mutex_", MAPPER + " laserCallback"), ("ids taken from scans.size()", MAPPER)],
     [("Graph::scans / Graph::constraints", "the pose graph", "include/ndt_2d/graph.hpp")],
     ["saved map files", "graph MarkerArray messages"])
prop("C05", "A saved map survives restart and reloads exactly",
     "Once a save request has been answered, reloading that file - in the same node or in a new node started after a crash at any later point - yields the same scans (order, id, pose, every point) and the same constraints (order, ends, transform, full information matrix, switchable flag), bit for bit, as the map held when it was saved. Saving again what was loaded produces an equal file, and a save never changes the map in memory.",
     ["crash_points", "histories", "inputs"],
     "all maps the node can build, all later crash points, any number of save/load generations",
     "graph_tests.cpp round-trips one two-scan graph with round numbers (and is not even built here); no test crashes, restarts or goes through the service.",
     ["src/graph.cpp", MAPPER, "msg/Scan.msg", "msg/Constraint.msg"],
     [("Graph::save / loading constructor", "src/graph.cpp"), ("save under graph_mutex_", MAPPER + " configure")],
     [("map bag", "topics scans and constraints", "src/graph.cpp")],
     ["bag contents in simulated storage", "state of the restarted node via save and map/graph topics"])
prop("C06", "Storage failures never cost the running map or other files",
     "If saving or loading fails (target exists, disk full or write error at any message, missing, truncated or unreadable file, read error at any message), the node keeps running and keeps answering, its in-memory map stays exactly as it was, and files saved earlier are untouched. A failed load leaves the current map, localization state and mapping mode in use, and later requests on good storage succeed.",
     ["fault_sequences", "histories", "crash_points"],
     "every storage operation failing at every point, repeatedly, interleaved with mapping",
     "Storage faults are never injected by any test; the service handler is never called.",
     [MAPPER, "src/graph.cpp"],
     [("load builds a new graph before replacing the old one", MAPPER + " configure"), ("exception handling in configure", MAPPER + " configure")],
     [("graph_", "current map", "include/ndt_2d/ndt_mapper.hpp")],
     ["service responses", "saved files", "map and graph topics"])
prop("C07", "Loading a map replaces the old map completely",
     "After a load request succeeds, everything the node publishes, saves, matches against and optimizes consists of the loaded scans and constraints plus what is added after the load; no scan, constraint, correction, bound or matcher content of the previous map has any influence. This holds in every mode and whatever the other threads were doing with the old map when the load happened; mapping continues only after a new initial pose.",
     ["schedules", "histories", "configurations"],
     "loads at arbitrary points of loop closure, optimization and publishing, for maps larger or smaller than the current one, in mapping and localization modes",
     "No test loads a map into a running node.",
     [MAPPER, "src/ceres_solver.cpp", "src/occupancy_grid.cpp"],
     [("graph_ replaced under graph_mutex_", MAPPER + " configure"), ("localization reset on load", MAPPER + " configure")],
     [("solver_/num_constraints_/nodes_", "incremental optimization state", "src/ceres_solver.cpp"), ("global_scans_processed_, optimization_last_", "loop closure progress", "include/ndt_2d/ndt_mapper.hpp"), ("grid bounds", "cached extents", "src/occupancy_grid.cpp")],
     ["saved map", "occupancy grid", "graph markers", "scans handed to the matcher plugin"])
prop("C08", "The occupancy grid is a faithful rendering of the scans",
     "In every published grid a cell is occupied if, of the scan rays touching it, more than the occupancy threshold end in it, free if rays touch it but no more than that share end in it, and unknown if no ray touches it; each scan point ends its ray in the cell that contains the point at the scan's current pose. The grid's origin, size and resolution always cover every scan pose and every point, also after poses were moved by loop closure or optimization or a different map was loaded.",
     ["histories", "schedules", "inputs", "configurations"],
     "all scan histories, pose corrections, sensor fields of view, resolutions and thresholds",
     "The occupancy grid has no test at all, and its cached bounds depend on the history of scans and pose changes.",
     ["src/occupancy_grid.cpp", MAPPER],
     [("bounds update", "src/occupancy_grid.cpp updateBounds"), ("Bresenham ray tracing and threshold", "src/occupancy_grid.cpp getMsg")],
     [("min_x_..max_y_, num_scans_", "grid extents cached across calls", "include/ndt_2d/occupancy_grid.hpp")],
     ["OccupancyGrid messages"])
prop("C09", "Publication never misses the last change and never stalls",
     "After the last change to the map (scan, relocalization, loop closure, optimization, load) a grid and graph reflecting exactly that state are published within two seconds, whichever thread made the change and however it interleaved with an ongoing publication. Once there is a map, map->odom keeps being published at least every second while scan matching or loop-closure matching is slow, and the configure service keeps being served while loop-closure matching is slow.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of change and publication, with arbitrarily slow scan matching on the other threads",
     "Liveness and lost updates need the running threads and a controlled clock.",
     [MAPPER],
     [("dirty flag cleared before rendering", MAPPER + " mapPublishThread"), ("graph lock released before slow matching", MAPPER + " loopClosureThread")],
     [("map_update_available_", "dirty flag", "include/ndt_2d/ndt_mapper.hpp")],
     ["map, graph and tf topics against simulated time"])
prop("C10", "Updates happen exactly when the robot has moved enough",
     "Once localized and with a non-empty map, a scan is processed if and only if, since the last processed update, odometry moved by at least the minimum travel distance or turned by at least the minimum rotation (shortest way round); other scans, and scans for which odometry is unavailable in time, have no effect whatsoever. The pose from which matching starts is the last pose moved by the odometry change expressed in the map frame, however many scans were dropped, delayed, duplicated or skipped in between; the very first scan of a new map defines the map origin.",
     ["histories", "fault_sequences", "inputs"],
     "all trajectories, odometry-to-map offsets, message losses, duplications, delays and TF outages",
     "No test feeds a sequence of scans and odometry through the node.",
     [MAPPER],
     [("travel gate and odometry composition", MAPPER + " laserCallback")],
     [("prev_odom_pose_, prev_robot_pose_", "last update", "include/ndt_2d/ndt_mapper.hpp")],
     ["scans handed to the matcher plugin", "saved map", "motion estimates"])
prop("C11", "Every valid return, and nothing else, becomes a correctly placed point",
     "The points of a processed scan are exactly the finite readings between the sensor's minimum range and the effective maximum range (both included), one point each, and no NaN, infinite, too-short or too-long reading ever contributes. Each point is where the beam hit, expressed in the robot frame at the start of the scan: laser mounting offset, upside-down mounting and the robot's motion during the sweep (at any heading, including across +/-pi) are accounted for to within one beam interval of motion. A scan message that does not say where its readings are (angles or time increment not finite) contributes nothing, and never fixes the effective maximum range.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all scan contents with injected bad readings, all mountings, headings and velocities during the sweep",
     "The conversion runs only inside the node's scan callback, which no test calls.",
     [MAPPER],
     [("range filter, projection and sweep compensation", MAPPER + " laserCallback")],
     [("laser_transform_, laser_inverted_, range_max_", "sensor mounting and limit", "include/ndt_2d/ndt_mapper.hpp")],
     ["saved map", "scans handed to the matcher plugin"])
prop("C12", "Each new scan is matched against exactly the rolling window",
     "While mapping, each processed scan after the first is matched against a local map made of precisely the last rolling_depth scans of the graph (all of them if fewer) at their current poses, and of nothing else. The pose it is stored with is its predicted pose plus the correction returned by the matcher, and localization continues from that pose; the configured matcher plugin and the documented per-instance parameter names are used.",
     ["histories", "configurations", "schedules"],
     "all histories, rolling depths and map sizes around the depth, with loop closures interleaved",
     "No test runs the mapper's scan pipeline.",
     [MAPPER],
     [("rolling window selection", MAPPER + " laserCallback"), ("correction applied to scan pose", MAPPER + " laserCallback")],
     [("rolling_depth_", "window size", "include/ndt_2d/ndt_mapper.hpp")],
     ["calls on the scan matcher plugin", "saved map"])
prop("C13", "Scan matching returns the best pose of its search window, honestly scored",
     "Over any history of adding and resetting (adding replaces what was there), a match returns the offset within the configured linear and angular search window and resolution whose (evenly subsampled) points score best against the normal-distribution map of exactly the scans given by the last add (none after a reset), and the score returned is the negated mean point likelihood at that offset. The covariance is the score-weighted covariance of the evaluated offsets (about their weighted mean), so it is symmetric and positive semi-definite; with nothing to match against, score is 0 and offset, score and covariance stay finite, and scoring a scan agrees with matching it at zero offset.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all histories of a matcher instance, scan contents including empty or disjoint scans, search and beam parameters",
     "The scan matcher has no test.",
     ["src/scan_matcher_ndt.cpp", "src/ndt_model.cpp"],
     [("exhaustive window search", "src/scan_matcher_ndt.cpp matchScan"), ("NDT rebuilt from the given scans", "src/scan_matcher_ndt.cpp addScans")],
     [("ndt_", "current local map", "include/ndt_2d/scan_matcher_ndt.hpp")],
     ["ScanMatcher plugin interface"])
prop("C14", "NDT cells equal the batch statistics of their points, for every history",
     "After any sequence of adding scans and recomputing, in any order and grouping, each grid cell's Gaussian is the sample mean and covariance of all points that fell in it (smaller variance limited to a thousandth of the larger), and the likelihood of a query is exp(-d^2/2) under the cell containing it, 0 outside the grid and in cells with fewer than five points or no spread. A point likelihood is never NaN and always within [0, 1], the likelihood of several points or of a posed scan is the sum over its points, and adding points to one cell never changes another.",
     ["histories", "inputs"],
     "all interleavings of add/compute/query on one model, degenerate (collinear, repeated, far-out) points, arbitrary poses and grids",
     "Existing tests check three hand-made cells and one query; incremental state with repeated computes, degenerate cells and grid boundaries are not covered.",
     ["src/ndt_model.cpp", "include/ndt_2d/ndt_model.hpp"],
     [("incremental mean/correlation and validity flag", "src/ndt_model.cpp Cell::addPoint/compute"), ("grid index", "src/ndt_model.cpp NDT::getIndex")],
     [("Cell::valid, n, mean, correlation", "incremental statistics", "include/ndt_2d/ndt_model.hpp")],
     ["Cell and NDT public API"])
prop("C15", "Constraints record the relation and confidence found when they were made",
     "Every constraint carries the pose of its end scan relative to its begin scan (in the begin scan's frame) as it was at the moment the constraint was made, and the inverse of the covariance reported by the match (or initial pose) it came from. Later pose changes never alter it, and no constraint is ever made from a match whose score or covariance is not finite or not invertible.",
     ["histories", "schedules", "fault_sequences"],
     "all odometry, loop-closure and relocalization constraints over all histories and schedules",
     "Constraint creation has no test; in the node the poses involved are concurrently corrected.",
     ["src/constraint.cpp", MAPPER],
     [("makeConstraint", "src/constraint.cpp")],
     [("Constraint", "relative pose and information", "include/ndt_2d/constraint.hpp")],
     ["saved map", "matcher plugin results"])
prop("C16", "Loop closures are admissible, bounded and applied once",
     "A scan is offered for loop closure at most once, only against scans older than the rolling window whose distance to it (scan position, or barycenter if configured) is within global_search_size, at most global_search_limit of them (none if it is zero), nearest first; scans inside the first window are never loop-closed. A switchable constraint is added if and only if such a match scored better than the running typical local match response, and the scan then moves by exactly the matched correction; with mapping disabled or the particle filter in use the loop-closure thread changes nothing.",
     ["histories", "schedules", "configurations"],
     "all trajectories with revisits, search sizes/limits/depths, and interleavings with ongoing mapping and mode changes",
     "The loop-closure thread is never run by a test.",
     [MAPPER, "src/graph.cpp"],
     [("candidate search and limit", MAPPER + " loopClosureThread"), ("acceptance test", MAPPER + " loopClosureThread")],
     [("global_scans_processed_", "next scan to close", "include/ndt_2d/ndt_mapper.hpp"), ("typical_matcher_response_", "acceptance threshold", "include/ndt_2d/ndt_mapper.hpp")],
     ["calls on the global scan matcher", "saved map"])
prop("C17", "Optimization is anchored, complete and harmless on failure",
     "Whatever sequence of growing graphs one optimizer instance is given, a successful optimization leaves the first scan's pose unchanged and all poses finite, at a least-squares optimum of the information-weighted residuals of all constraints given so far (each counted exactly once), starting from the scans' current poses; a graph that already satisfies its constraints is not moved. An optimization that fails reports so and leaves every scan pose untouched, and does not spoil later optimizations of graphs it can solve.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of adding scans/constraints, moving poses and optimizing, with solver failures injected at any optimization",
     "The only solver test calls it with no scans.",
     ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver_pose.hpp"],
     [("incremental problem with persistent nodes", "src/ceres_solver.cpp optimize"), ("first node constant", "src/ceres_solver.cpp optimize"), ("poses copied back only on success", "src/ceres_solver.cpp optimize")],
     [("nodes_, num_constraints_", "incremental problem", "include/ndt_2d/ceres_solver.hpp")],
     ["scan poses after optimize()", "saved map after optimization in the node"])
prop("C18", "The particle filter's estimate always describes its particles",
     "After any sequence of initializing, moving, measuring and resampling, the number of particles is between the configured minimum and maximum, all particles are finite with heading in [-pi, pi], and the reported mean (circular for heading) and covariance are those of the current weighted particle set, with weights proportional to the last measurement scores (equal after initializing and resampling). Initializing spreads the particles around the given pose with the given standard deviations; the node's published pose after a scan is the mean of the particles it publishes. A measurement that gives no information (all scores zero, empty scan) or an uncertain initialization never turns the estimate into NaN or loses particles.",
     ["histories", "fault_sequences", "inputs"],
     "all operation sequences, score fields (including all-zero and one-hot), particle limits and random draws",
     "particle_tests.cpp (not built here) runs one short sequence and checks means to 0.4 m; statistics accumulated over many updates and degenerate measurements are not covered.",
     ["src/particle_filter.cpp", "src/ndt_mapper.cpp"],
     [("updateStatistics after every step", "src/particle_filter.cpp"), ("update/measure/resample and publication per scan", "src/ndt_mapper.cpp laserCallback"), ("weight normalization", "src/particle_filter.cpp")],
     [("particles_, weights_, mean_, cov_", "belief", "include/ndt_2d/particle_filter.hpp")],
     ["ParticleFilter API", "particlecloud messages"])
prop("C19", "KLD resampling keeps the right number of the right particles",
     "Resampling only ever yields particles that existed before and had non-zero weight, draws them in proportion to their weights, and stops at the first count that satisfies the KLD bound for the number of distinct 0.5 m x 0.5 m x 15 degree bins seen so far (with a single bin the bound says nothing), never below the minimum nor above the maximum number of particles. The bin counter equals the number of distinct bins inserted since it was last cleared, for every insertion order, repetition and reuse.",
     ["histories", "inputs", "schedules"],
     "all particle sets, weights, KLD parameters, random draws and reuse histories of the bin counter",
     "test_kd_tree inserts five points once and is not built here; the stopping rule is not tested.",
     ["src/particle_filter.cpp", "include/ndt_2d/kd_tree.hpp"],
     [("KLD sampling loop", "src/particle_filter.cpp resample"), ("leaf counting KD-tree", "include/ndt_2d/kd_tree.hpp")],
     [("kd_tree_", "bins of the resampled set", "include/ndt_2d/particle_filter.hpp")],
     ["ParticleFilter API", "KDTree API"])
prop("C20", "The motion model moves particles by the odometry, with the stated noise",
     "For every commanded motion (forward, backward, in place, combined, across +/-pi; in the node: what the odometry did since the last update) and every particle pose, with zero noise parameters each particle moves exactly by the given robot-frame translation (below 1 cm only its length is kept) and rotation and its heading stays in [-pi, pi]. With noise parameters, rotation and translation errors are unbiased with the standard deviations of the odometry motion model (driving backward causes no more heading noise than driving forward), and all particles are perturbed independently.",
     ["inputs", "histories"],
     "all motions, particle sets, noise parameters and random draws supplied by the simulator",
     "particle_tests.cpp checks means of 50 samples to 0.3 m for a few motions and is not built here.",
     ["src/motion_model.cpp"],
     [("rot1/trans/rot2 decomposition", "src/motion_model.cpp sample")],
     [("a1..a4", "noise parameters", "include/ndt_2d/motion_model.hpp")],
     ["MotionModel API", "particlecloud messages"])
prop("C21", "Initial poses localize exactly when they should, and not otherwise",
     "An initial pose given in the map frame while odometry is available takes effect unless the node is already mapping and localized: from then on the robot is at that pose, scans are processed relative to it, and (when mapping on a loaded map) one point-less scan at that pose is linked to the nearest existing scan. An initial pose that is refused - already mapping, wrong frame, not finite, no odometry, or too far from the loaded map - changes nothing, and until localized no scan has any effect after starting from, or loading, a map or disabling mapping.",
     ["histories", "fault_sequences", "configurations", "schedules"],
     "all orders of initial poses, scans, mode changes and loads, with TF outages, in all modes",
     "No test sends an initial pose.",
     [MAPPER],
     [("guards in poseCallback", MAPPER), ("localized flag", MAPPER + " prev_odom_pose_is_initialized_")],
     [("prev_odom_pose_is_initialized_", "localized?", "include/ndt_2d/ndt_mapper.hpp")],
     ["map->odom transforms", "saved map", "particlecloud", "effect of following scans"])
prop("C22", "Transient sensor and TF faults do no lasting harm",
     "After any finite burst of bad input - empty scans, scans of only invalid ranges, scans overlapping nothing, scans whose angles, times or maximum range are not finite or not positive, lost or late messages, TF gaps - every pose, score, transform, grid and saved value stays finite, and once good input resumes the node processes, matches and publishes again, accepts loop closures again and can optimize again. In particular one bad scan never disables localization, loop closure or optimization for the rest of the run.",
     ["fault_sequences", "histories"],
     "all finite bursts of the listed faults at any point of mapping, scan-matching and particle-filter operation",
     "Faults and recovery need a long-running node fed with faulty streams; nothing like that is tested.",
     [MAPPER, "src/scan_matcher_ndt.cpp", "src/particle_filter.cpp", "src/ceres_solver.cpp"],
     [("invalid reading filter", MAPPER), ("finite-score check before loop closure", MAPPER), ("failed optimization leaves poses", "src/ceres_solver.cpp")],
     [("typical_matcher_response_", "running average that one NaN would poison", "include/ndt_2d/ndt_mapper.hpp"), ("weights_", "would become NaN on all-zero scores", "include/ndt_2d/particle_filter.hpp")],
     ["all topics and saved maps"])
prop("C23", "The node shuts down promptly whatever it is doing",
     "After shutdown is requested at any point - idle, in a callback, during loop-closure matching, optimization, rendering or saving - both background threads stop and destroying the node returns within a few seconds plus the time of the work in progress, without deadlock or use of freed data. Destroying the node (as a component container does when unloading it) also stops its threads.",
     ["schedules", "crash_points"],
     "shutdown at every scheduling point, under every schedule",
     "No test constructs or destroys the node.",
     [MAPPER],
     [("threads poll for shutdown and are joined", MAPPER + " ~Mapper")],
     [("map_publish_thread_, loop_closure_thread_", "background threads", "include/ndt_2d/ndt_mapper.hpp")],
     ["simulated time from request to the end of destruction"])
prop("C24", "Nearest-scan queries are exact and always up to date",
     "A nearest-scan query returns exactly the indices of the scans among the first k (all, if no limit) whose position - or barycenter, if so configured - lies within the given distance in meters of the query scan's, ordered by increasing distance. This holds after any history of changing poses and points: a scan's barycenter always reflects its current pose and points.",
     ["histories", "inputs", "configurations"],
     "all histories of pose/point changes and queries, graph sizes, distances and limits",
     "graph_tests.cpp queries once with two scans both in range, and is not built here.",
     ["src/graph.cpp", "include/ndt_2d/graph.hpp", "src/scan.cpp"],
     [("KD-tree radius search", "src/graph.cpp findNearest"), ("cached barycenter with dirty flag", "src/scan.cpp")],
     [("Scan::dirty_, barycenter_", "cached barycenter", "include/ndt_2d/scan.hpp")],
     ["Graph::findNearest", "Scan API"])
prop("C25", "Localization never changes the map and uses all of it",
     "With mapping disabled or the particle filter in use, no history of scans, initial poses, faults or thread schedules adds, removes or moves anything in the map: saving it at any time yields the loaded map. Localization is always performed against the complete current map - all scans that are loaded (or were mapped before mapping was disabled), and only those.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "all localization histories in both localization modes, including switching from mapping to localization and loading another map",
     "No test runs the node in any localization mode.",
     [MAPPER],
     [("global matcher built from all scans", MAPPER + " laserCallback"), ("loop closure only when mapping", MAPPER + " loopClosureThread")],
     [("global_scan_matcher_", "map used for localization", "include/ndt_2d/ndt_mapper.hpp"), ("enable_mapping_, use_particle_filter_", "mode", "include/ndt_2d/ndt_mapper.hpp")],
     ["saved map", "calls on the scan matcher plugin"])
prop("C26", "The published graph shows the pose graph as it is",
     "Every published graph contains exactly one node marker per scan, carrying the scan's id at the scan's current position, and exactly one edge marker per constraint, running between the current positions of the two scans it joins, with loop closures distinguishable from odometry edges by color; markers never share namespace and id. All poses shown in one message belong to one consistent state of the graph under any schedule.",
     ["schedules", "histories"],
     "all graphs reached over all schedules and corrections",
     "Graph::getMsg has no test.",
     ["src/graph.cpp", MAPPER],
     [("markers built under graph_mutex_", "src/graph.cpp getMsg")],
     [("Graph::scans / constraints", "source of the markers", "include/ndt_2d/graph.hpp")],
     ["MarkerArray messages"])
prop("C27", "The command-line tools send exactly their request, once the service is there",
     "Each of the four scripts keeps waiting while the configure service is unavailable, then sends exactly one request with the action its name says (enable, disable, load, save) and, for load and save, the file name given on the command line, waits until it is answered, and shuts ROS down. No script sends anything before the service is available or changes any other setting.",
     ["fault_sequences", "inputs"],
     "all delays in service availability and answer, all file names",
     "The scripts are only checked to parse.",
     ["scripts/enable_mapping.py", "scripts/disable_mapping.py", "scripts/load_map.py", "scripts/save_map.py", "srv/Configure.srv"],
     [("wait_for_service loop, call_async", "scripts/*.py"), ("action constants", "srv/Configure.srv")],
     [], ["requests received by a simulated service"])
prop("C28", "Pose conversions and angle normalization are exact",
     "Converting a ROS pose, stamped pose or transform to the internal pose keeps x, y and yaw, and normalizing an angle returns the equivalent angle in [-pi, pi).",
     ["inputs"], "all finite poses and angles",
     "No test converts a message; inputs are continuous.",
     ["include/ndt_2d/conversions.hpp", "include/ndt_2d/ceres_solver_pose.hpp"],
     [("fromMsg/toEigen", "include/ndt_2d/conversions.hpp"), ("NormalizeAngle", "include/ndt_2d/ceres_solver_pose.hpp")])
prop("C29", "The published pose follows the robot; the map shows the room",
     "In a structured room with a laser that sees its walls, with odometry whose error between two updates stays well within the matcher's search window, the position the published map->odom transform gives the robot stays within a few decimetres and tenths of a radian of where the robot really is in the map's frame, and three quarters of the occupied cells of the published grid lie within a cell and a decimetre of a wall of the room. This keeps holding while single scans are lost, delayed, duplicated or invalid, transforms come late, the loop-closure thread is slow and every thread interleaving is possible; after mapping is switched off or the map saved and loaded (also by a restarted node, in mapping, scan-matching or particle-filter mode) it holds again from an initial pose near the true one on.",
     ["histories", "fault_sequences", "schedules", "crash_points", "configurations"],
     "all drives through such rooms, mountings, odometry errors, transient faults, restarts and mode changes",
     "It is what the whole system is for, and no test runs the system.",
     [MAPPER, "src/graph.cpp", "src/scan_matcher_ndt.cpp", "src/ndt_model.cpp", "src/occupancy_grid.cpp", "src/particle_filter.cpp", "src/ceres_solver.cpp"],
     [("scan handling", MAPPER + " laserCallback"), ("map->odom", MAPPER + " publishTransform"), ("matching", "src/scan_matcher_ndt.cpp matchScan")],
     [("prev_odom_pose_, prev_robot_pose_", "where the robot is", "include/ndt_2d/ndt_mapper.hpp")],
     ["published transforms and grids, against the simulated robot and room"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
