#!/usr/bin/env python3
"""The listed properties, in one place. Run it to rewrite properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NOT_APPLICABLE = []

def prop(id, title, statement, over, text, why, files, mechanism, technique="property-based testing", note=None, claim=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, claim=claim))

AC = "avoidance/src/common.cpp"
prop("P01", "Directions survive every conversion between the coordinate conventions",
     "Converting a point to either polar convention (histogram: azimuth clockwise from +y, elevation up; flight controller: yaw counter-clockwise from +x, pitch positive downwards) and back returns the same point, and every histogram cell index maps to a direction that maps back to that cell. Any direction, however many turns it carries, maps to a valid cell that contains it (invalid angles to index 0), and wrapping an angle or direction never changes what it points at. Angle differences are signed shortest differences, and the commanded yaw rate is always half the shortest rotation to the wanted yaw.",
     ["inputs"], "every finite point, origin, direction, cell and resolution, angles over many turns, non-finite angles",
     "The unit tests sample a handful of points per function; wrap-around, poles, several turns and far origins are a continuum.",
     [AC, "avoidance/include/avoidance/common.h"], "double-precision spherical trigonometry written independently of the code")
prop("P02", "Frame conversions and trajectory messages are faithful to the flight controller",
     "Conversions between east-north-up and north-east-down of positions, yaws, pitches and attitudes are mutually inverse and keep physical directions. A waypoint trajectory message carries the commanded position, velocity, yaw and negated yaw rate in its first point only, marks only that point valid and leaves no stale or finite value anywhere else, whatever the message contained before. A curve message carries all five converted control points, all valid, with the duration in the last time slot only.",
     ["inputs"], "every vector, attitude, partly absent setpoint, and previous message content",
     "The one test of the message uses a single setpoint on a fresh message; absent (NaN) parts, reused messages and the curve form are not tested.",
     [AC, "avoidance/include/avoidance/common.h"], "reference construction of each message field; round trips of each frame conversion")
prop("P03", "A direction counts as seen exactly when a camera's field of view covers it",
     "For any set of cameras, including rear-facing ones whose view crosses +-180 degrees, a direction is reported visible exactly when some camera's horizontal and vertical extent contains it, a histogram column when one of its two edges is. A direction is attributed to a camera only when exactly one camera sees it, and is at the edge of the view only when nothing sees half a cell beyond that camera's border on its side. The speed scale derived from it lies in [0,1]: 0 where nothing is seen, 1 inside the view and towards inner borders, and falling linearly to 0 at an outer border.",
     ["inputs", "configurations"], "1-4 cameras with arbitrary yaw, pitch and extent; every direction, vehicle yaw and position, outside a 0.02 degree (columns: 0.1 degree) band around borders",
     "Tests use three fixed forward and side cameras; rear cameras and borders around +-180 degrees are never sampled.",
     [AC], "circular-distance reference in double precision")
prop("P04", "The obstacle histogram behaves as a wrapped two-dimensional table",
     "Reading any cell, with indices wrapping around in both directions, returns the last value stored there, and the histogram is empty exactly when no cell holds a positive distance. Doubling the resolution copies each cell into its four children, halving it averages four children, and either operation at the wrong resolution fails without changing anything.",
     ["histories"], "sequences of up to 25 set, get, resample and clear operations at both resolutions, with negative and large indices",
     "No baseline test drives the container through histories; wrap-around and misuse are not sampled.",
     ["avoidance/src/histogram.cpp", "avoidance/include/avoidance/histogram.h"], "model-based: the same history on a nested vector", technique="stateful model-based property testing")
prop("P05", "State machines follow their transition table and nothing else",
     "Each iteration runs the current state exactly once; a repeat keeps the state without consulting the table, any other transition moves to the tabulated successor, and a transition with no entry, from any state, leads to the error state.",
     ["histories", "configurations"], "random tables and transition histories, and a table written with the library's table macros",
     "The tests walk one fixed table along a few paths.",
     ["avoidance/include/avoidance/usm.h"], "model-based: the history replayed on a map", technique="stateful model-based property testing")
prop("P06", "Buffered transforms are looked up at the requested time, never extrapolated",
     "A transform is stored only if it is newer than the newest one stored for the same pair of frames, and stored transforms older than the buffer's length are dropped. A lookup between two stored transforms of exactly that pair succeeds and returns their interpolation (linear translation, shortest-arc rotation) stamped with the requested time; a lookup before the oldest or after the newest stored one fails.",
     ["histories"], "histories of up to 50 insertions (stale, duplicate, out of order) and lookups on several frame pairs and buffer lengths; lookup with a single stored transform at its exact time may go either way",
     "Tests use at most a few insertions on one pair; pruning combined with interpolation and interleaved pairs is not sampled.",
     ["avoidance/src/transform_buffer.cpp"], "model-based: a list per frame pair with double-precision interpolation", technique="stateful model-based property testing")
prop("P07", "The companion reports its health and stops the vehicle when data stops",
     "From start the companion process reports booting, and afterwards publishes its current status at least five times a second under its own component id. When clouds stop for more than half a second after a five second grace period the vehicle is told to hover and the status is critical; when they have stopped for more than fifteen seconds the status is flight termination; otherwise the status is active unless the vehicle is still hovering. The process stops cleanly whenever it is asked to.",
     ["histories", "faults"], "histories of up to 25 health checks with any cloud age and time since start, hovering cleared or not, status changes and timer ticks; exact threshold values may go either way",
     "No baseline test runs the node; the status depends on the history of cloud losses.",
     ["avoidance/src/avoidance_node.cpp", "avoidance/include/avoidance/avoidance_node.h"], "model-based: the status replayed from the history", technique="stateful model-based property testing")
prop("P08", "Flight controller parameters and mission speed always hold the last value sent",
     "Every known parameter holds the value last received, whether by message or by polling, and is undefined before; unknown names and failed answers change nothing. All parameters the planner needs are polled repeatedly, quickly while any is missing. The mission speed is that of the last ground-speed change before or at the current mission item, and stays unchanged when there is none.",
     ["histories", "faults"], "histories of up to 30 parameter messages and polling rounds in which any request may fail; up to 6 mission lists with any items and current index; airspeed changes may count or not",
     "No baseline test runs the node; lost answers and interleavings of both sources are histories.",
     ["avoidance/src/avoidance_node.cpp"], "model-based: a map of the last value per name", technique="stateful model-based property testing")
prop("P09", "Cloud cleaning keeps exactly the valid points and the view only grows",
     "Cleaning a camera cloud removes exactly the points with a non-finite coordinate, keeps the others in order, and reports extreme points that are cloud points spanning the cloud's extent on each axis. From such points a camera's field of view is estimated as their angular extent centred on them, for any camera direction including the rear, and is only ever replaced by a wider one.",
     ["inputs", "histories"], "clouds of 0-60 points with invalid ones anywhere; sequences of point sets spanning less than 170 degrees seen by one camera of any yaw",
     "Tests use one cloud and two-point views; rear cameras with more than two points are not sampled.",
     [AC], "independent filter; angular extent relative to the camera axis")

LPF = "local_planner/src/nodes/planner_functions.cpp"
LPC = "local_planner/src/nodes/local_planner.cpp"
prop("P10", "The obstacle memory keeps what is seen, remembers what is not, forgets the old",
     "Each perception round keeps exactly one new valid point per small angular cell that received at least the configured number of points within the sensor range, with age zero. A remembered point is kept, aged by the elapsed time, exactly when it is within range, younger than the maximum age, no longer in the field of view, and its cell has no new point; everything else is forgotten. Over the rounds of a turning vehicle the planner therefore holds each obstacle last seen within the maximum age and nothing else.",
     ["inputs", "histories"], "1-3 clouds with invalid points and a remembered cloud, any cameras, attitude and ranges; sequences of up to 12 rounds of a turning planner; cases within rounding of a cell, range, age or view border discarded",
     "Tests use a few fixed clouds over at most three rounds; interleavings of leaving the view, ageing and re-appearing are histories.",
     [LPF, LPC], "independent cell map; model of the memory over rounds", technique="property-based and stateful model-based testing")
prop("P11", "The polar histogram is the mean distance per direction of the obstacle memory",
     "Every cell of the histogram built around the vehicle holds the mean distance of exactly the points in that direction, zero when there is none. The compressed histogram holds per azimuth the nearest obstacle in the rows around the horizon that lies within one metre of flight height, zero when there is none, and nothing in other rows.",
     ["inputs"], "clouds of 0-40 points around any position; histograms with up to 30 occupied cells",
     "Tests place at most a few points; cells at seams, poles and shared cells are sampled sparsely.",
     [LPF], "independent binning in double precision")
prop("P12", "Direction costs weigh goal, smoothness and obstacles as specified",
     "The cost of a direction is the velocity deviation, squared heading error (shared between the goal and the line between goals unless an obstacle faces the goal), squared elevation error (stronger near the goal) and an obstacle term that never decreases for nearer obstacles. The cost matrix holds these for all cells, interpolated along sparsely sampled rows, with the obstacle part smoothed by the configured margin as on a sphere (wrapping in azimuth, crossing the poles). The candidates are the distinct cheapest cells in ascending order, however many are asked for; the published cost image shows both parts to scale.",
     ["inputs"], "any vehicle state, goal, weights, margin and up to 12 obstacles; matrices of any content with radius 0-15; 0-100 candidates",
     "Tests check orderings on hand-picked scenes; the values, wrap-around smoothing and interpolation for arbitrary scenes are not checked.",
     [LPF], "independent double-precision cost, smoothing and selection")
prop("P13", "The look-ahead tree is a best-first search over the cheapest directions",
     "From the vehicle the tree grows by expanding, up to the configured number of times, the cheapest open node within sensor range. The children of a node lie at the configured distance in its cheapest directions, except where a node already exists, no more than configured; costs accumulate along branches plus a weighted distance to the goal. Search stops early only when no open node is in range. The returned path leads from a deepest open node back to the vehicle along tree edges.",
     ["inputs", "configurations"], "any cloud, goal, weights and tree parameters including 0 children or expansions; one or two searches in a row",
     "Tests run two fixed scenes; every expansion order, cost and child set for arbitrary scenes is not checked.",
     ["local_planner/src/nodes/star_planner.cpp", "local_planner/src/nodes/tree_node.cpp", LPF], "replay of the search with the cost functions")
prop("P14", "The setpoint moves along the planned path with the cruise speed",
     "With a path of at least two nodes the setpoint is the point on the path reached since it was planned at cruise speed, starting at the second node, extrapolated beyond the last segment; it is reported unusable exactly when there is no path or the path is used up.",
     ["inputs"], "paths of 0-8 nodes, any speed, any age",
     "Tests use one path at a few times; positions at segment borders and beyond the end are not sampled.",
     [LPF], "independent arc-length walk")
prop("P15", "Simulated trajectories respect the vehicle's jerk and acceleration limits",
     "Every simulated trajectory step follows the double-integrator motion with a jerk towards the wanted velocity never above the jerk limit, and an acceleration that never exceeds its limit; the wanted velocity is in the given direction with the configured speed limits, time advances monotonically up to the duration.",
     ["inputs"], "any limits, start state within the acceleration limit, direction, step and duration",
     "Tests run three fixed limits; the step relation for arbitrary states is not checked.",
     ["local_planner/src/utils/trajectory_simulator.cpp"], "one-step reference in double precision with the allowed continuations at the limit")
prop("P16", "Obstacle distances sent to the flight controller match the perceived obstacles",
     "Whenever distances are sent (CP_DIST not negative) they are of the current round: per azimuth cell the distance of the nearest obstacle near flight height, a value just above the maximum range where the direction is seen and free, and unknown (NaN) exactly where no camera sees. Angles, ranges and frame of the message are consistent with that.",
     ["inputs", "histories"], "a planner over up to 4 rounds with any obstacles, cameras, position, heading, ranges and CP_DIST; directions within 0.1 degree of a view border may go either way",
     "Tests check two scenes; combinations of several cameras, headings, settings and rounds are not sampled.",
     [LPC, LPF], "independent map from points, cameras and pose to ranges")
prop("P17", "The local planner plans each round from its current goal, limits and obstacles",
     "Each round the cruise speed is the wanted one (mission speed if set) but never higher than allows stopping within the sensor range. Whenever the memory holds obstacles a new path from the current position is made and stamped now, its first directions are the cheapest for the current goal, velocity, weights and the point on the line between the goals the vehicle is pulled back to; without obstacles no path is made. Goals, weights and limits take effect in the next round, and histogram and cost images match the state planned with.",
     ["inputs", "histories", "configurations"], "a planner over up to 5 rounds with any obstacles, goals, cruise speed, vehicle limits and mission speed",
     "Tests run three fixed scenes; changes of goal, limits and obstacles between rounds are histories.",
     [LPC, "local_planner/src/nodes/star_planner.cpp"], "closed-form stopping distance, independent line projection, cost function oracle")
prop("P18", "The local planner's setpoints follow its state machine and stay near the vehicle",
     "The waypoint generator holds the position while asked to stay, changes altitude first for offboard goals, take-off and landing, follows the look-ahead path while it lasts and flies straight to the goal otherwise. Setpoints are limited by cruise speed, goal distance and field of view, then smoothed by a critically damped filter; yaw turns smoothly towards motion and is kept at the goal. For every clock, pause and mode history the commanded position is finite and near the vehicle, and no commanded value is undefined.",
     ["histories", "inputs"], "flights of 5-60 cycles with changing mode, goal, mission items, paths, cameras, smoothing, pauses of any length and any clock; cycles within rounding of a decision threshold end the comparison",
     "Tests step fixed scenarios with a constant step; pauses, mode interleavings and memory contents are histories.",
     ["local_planner/src/nodes/waypoint_generator.cpp"], "model-based: the state machine and filters in double precision; bounds; comparison of runs on different memory contents", technique="stateful model-based property testing")

LPN = "local_planner/src/nodes/local_planner_nodelet.cpp"
LPV = "local_planner/src/nodes/local_planner_visualization.cpp"
prop("P19", "The local planner node plans and steers with what it was last told",
     "The latest position, velocity, mode, goal and settings the node received are the ones the planner and the setpoints work with. Planner and setpoints always head for the same goal, from whatever source it came: a clicked goal keeps the planner's height, a goal message counts only if the mode accepts goals, a flight controller trajectory replaces the goal when its following item moved or there was none, and its second point when commanded as goal. Setpoints are sent once per cycle, only while the companion is active, computed from the last position; the node waits for a first position and terminates when none comes for 20 seconds. Nothing it does depends on uninitialised memory.",
     ["histories", "configurations"], "histories of messages (pose, velocity, state, goals of all kinds, trajectories, settings), planning rounds and command cycles; following items that moved by about the threshold may go either way; goal heights under dynamic reconfiguration are excluded",
     "No baseline test runs the node; which goal holds depends on the order of messages from several sources.",
     [LPN, "local_planner/include/local_planner/local_planner_nodelet.h", "avoidance/src/avoidance_node.cpp", "local_planner/src/nodes/waypoint_generator.cpp"],
     "model-based: the messages replayed on a small model of the node; runs on different memory contents", technique="stateful model-based property testing")
prop("P20", "Every camera's newest cloud reaches the planner in the world frame",
     "A planning round happens exactly when every camera has a new cloud whose transforms are known at its stamp; it works with the valid points of those clouds, placed by the transform interpolated at each cloud's stamp. Clouds arriving within 0.3 s of one not yet processed may be ignored. The fields of view only grow with what the clouds show, obstacle distances are sent once per round unless switched off, setpoints follow the path of the last round, and the companion's status follows the time of the last round: critical after half a second, termination after fifteen.",
     ["histories", "faults", "schedules"], "histories of clouds of 1-3 cameras, poses, transforms (late, missing, moving), pauses and command cycles with the cloud and transform threads stepped deterministically",
     "No baseline test runs the node; late transforms, lost clouds and several cameras only show in histories.",
     [LPN, "avoidance/src/transform_buffer.cpp", "local_planner/src/nodes/local_planner.cpp", "avoidance/src/common.cpp"],
     "model-based: the clouds transformed and matched independently", technique="stateful model-based property testing")
prop("P21", "Displays show the data the planner works with, and never stop it",
     "Every published display shows the planner's actual data: point memory, search tree, path, goal, fields of view, range scan, histogram and cost image with consistent sizes and heading, set and smoothed setpoints with the current mode, and the path actually flown. Objects of a world file are shown with the listed type, mesh, position, orientation, size and colour, and a missing or wrong file, item or environment variable never stops the node.",
     ["inputs", "histories"], "any planner state after 1-3 rounds, any setpoint history, world files with up to 6 items of any type",
     "No baseline test runs the displays.",
     [LPV, "avoidance/src/rviz_world_loader.cpp"], "each message compared with the planner's outputs")

SLP = "safe_landing_planner/src/nodes/safe_landing_planner.cpp"
SLG = "safe_landing_planner/include/safe_landing_planner/grid.hpp"
SLN = "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"
SLW = "safe_landing_planner/src/nodes/waypoint_generator.cpp"
prop("P22", "The landing grid holds the height statistics of the ground below",
     "Each round, every cell of the grid around the vehicle holds the number of points that fell into it, and mean and variance of their heights, low-pass filtered, where configured, with the values of the previous round unless the cell had no points then; points outside the grid are ignored, cells without points are handled as empty. Size, resolution, limits and centre follow the configuration and the vehicle; a recorded grid is adopted completely.",
     ["inputs", "histories", "configurations"], "up to 6 rounds of clouds, positions, configurations and recorded grids; points within rounding of a cell border may count for either cell",
     "Tests feed fixed clouds to one round; points at borders, filtering over rounds and changes of size are not sampled.",
     [SLP, SLG], "independent two-pass statistics in double precision per cell", technique="stateful model-based property testing")
prop("P23", "Landing cells are landable only on dense, flat and level ground",
     "A cell is marked landable exactly if it has enough points, its standard deviation is within the threshold, more than the wanted number of neighbouring cells are landable by these criteria, and no more than the allowed number of neighbours differ in mean height by more than the threshold. Cells outside the grid are never landable.",
     ["inputs", "configurations"], "any clouds, thresholds and neighbourhood sizes; values within rounding of a threshold may go either way",
     "Tests check flat planes and a few obstacles with one setting; the mark is a conjunction over neighbourhoods of any grid.",
     [SLP], "brute-force evaluation per cell")
prop("P24", "The landing approach touches down only on an area found landable",
     "A landing item makes the vehicle fly to its place, descend or climb to the loiter height above the ground seen below, collect grids there, and land only if the whole patch below was landable with hysteresis over the last grids; otherwise it explores along a spiral and tries again, and it starts over with each new item. In every state exactly the setpoint coordinates of that state are valid and finite, anything else flies the wanted item, and displays match the area used.",
     ["histories", "configurations"], "missions of landing and other items, positions, grids and pauses, with any smoothing size, grid size, resolution and loiter height; cycles within rounding of a decision threshold end the comparison",
     "Tests follow single transitions with one grid size; approaches over several sites, changed items and sizes are histories.",
     [SLW, "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"], "model-based: reference state machine; safety: LAND only after a landable patch", technique="stateful model-based property testing")
prop("P25", "The landing node uses the newest cloud, reports its health and stops cleanly",
     "Each planning round works with the newest cloud received whose transform is known at its stamp, placed with that transform at the current position, and publishes the grid of the round with matching sizes. The status is active while rounds happen, critical when none was for longer than the timeout and termination after the longer one, sent at least every fifth of a second of cycles, also while waiting. Start and stop work in any schedule of the threads, and the process ends.",
     ["histories", "faults", "schedules"], "histories of clouds, poses, transforms (late, missing), pauses and cycles with the worker thread stepped deterministically; start and stop at any point",
     "No baseline test runs the node; late transforms, lost clouds and shutdown orders are schedules.",
     [SLN, "safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp", "safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp"],
     "model-based: the clouds transformed and gridded independently; status model over the clock", technique="stateful model-based property testing")
prop("P26", "Landing displays show the grid and path the planner works with",
     "The displayed grids show each cell at its place with the colour of its landable mark, height, deviation and number of points, the area used for the landing decision is highlighted, the flown path joins successive positions and the goal marker is at the goal, for every size and resolution of the grid.",
     ["inputs", "configurations"], "any grid, size, resolution, smoothing size and history of positions",
     "No baseline test runs the displays.",
     ["safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp"], "each marker compared with the grid")

GPP = "global_planner/src/library/global_planner.cpp"
GPH = "global_planner/include/global_planner/"
prop("P27", "Cells and edges of the search grid have the geometry of the space they stand for",
     "Every point belongs to exactly the cell that contains it, and a cell's centre lies in the cell; distances, angles, sums, ordering and equality of cells are those of the grid. The neighbours of a cell are the eight level ones and those directly above and below; the cells near a robot of some radius are those around it in that radius. An edge has the length, turn and cells of the straight line it stands for, equal edges have equal hashes, and every search node leads only to the edges its type allows. Goals are reached exactly within their radius.",
     ["inputs"], "any points within 10 km, cells, radii of up to 5 cells and edges of up to 8 cells; cells crossed by less than half a cell between samples may count or not on edges bending in two planes",
     "No baseline test covers the global planner's grid; negative coordinates, radii and oblique edges are a large discrete space.",
     ["global_planner/src/library/cell.cpp", "global_planner/src/library/node.cpp", GPH + "cell.h", GPH + "node.h"], "geometry written independently of the code")
prop("P28", "The risk of flying through a cell reflects map, priors and surroundings",
     "The risk of a cell alone is one in the ground or without a map, its probability of being occupied given the altitude prior if it was seen, and a small exploration risk otherwise; the risk with its surroundings adds the share of every cell within the robot's radius, and both are those of the newest usable map in any order of queries. Edges cost their length with climbing and descending weighted, their mean risk along them and their turning, more for fast vehicles near the turn; they are allowed exactly below the highest altitude and allowed risk. Estimates to the goal are finite and the stated sum everywhere.",
     ["inputs", "histories", "configurations"], "histories of up to 3 maps of any probabilities and resolutions of 0.25-2 m, any parameters, cells, edges, positions and velocities; the own cell may or may not add to its surroundings",
     "No baseline test covers the risk model; caching over maps and cells outside the priors only show in histories.",
     [GPP, GPH + "global_planner.h"], "model-based: voxel map and formulas in double precision", technique="stateful model-based property testing")
prop("P29", "A planned path is allowed, complete and close to the cheapest",
     "A search reports a path only if it starts at the start, ends within the goal radius and consists of edges that its node type offers and that are allowed in height and risk, and it gives up within its iteration limit only if no such path exists. Without direction costs and with an admissible estimate the path costs at most the overestimation factor times the cheapest path. A planning round never leads out of an occupied cell or to a forbidden goal, keeps the old path, goal and settings when it fails and marks the goal, and uses level flight at the highest altitude as last resort.",
     ["inputs", "configurations"], "worlds of walls, blocks, noise and closed chambers, any start, goal, velocity, yaw, parameters, node types, iteration and time limits",
     "No baseline test runs a search of the global planner; optimality and completeness quantify over all worlds.",
     [GPP, GPH + "search_tools.h", GPH + "visitor.h"], "independent breadth-first reachability and uniform-cost search; every edge re-checked against the risk model")
prop("P30", "Simplified, smoothed and published paths are the planned path",
     "Simplifying a path keeps its ends and order, drops a vertex only when the shortcut costs no more than the margin, never two in a row at once, and ends where nothing more can be dropped. Smoothing keeps the ends and follows one curve per corner between the middles of its edges. Path messages carry every cell's centre in order, headed towards the next cell, with the configured frame and risks; lengths, energies and costs reported with a path are those of its edges, and it is reported blocked exactly when an edge exceeds the allowed risk.",
     ["inputs"], "any paths of up to 20 cells with repeated, vertical and long steps in random worlds, margins, iterations, poses within 500 m",
     "No baseline test covers the path tools; the vertex rules hold over all paths and margins.",
     [GPP, GPH + "search_tools.h", GPH + "analysis.h"], "independent re-evaluation step by step; quadratic curves in double precision")

GPN = "global_planner/src/nodes/global_planner_node.cpp"
GNH = GPH + "global_planner_node.h"
prop("P31", "The vehicle is led along the newest planned path to the newest goal",
     "Clicked goals and goals of the flight controller replace everything still to be visited, are announced, and are planned to in the next round; a half-way goal is inserted on poor long paths and the goals still to be visited follow when it is reached or blocked; without any goal left the vehicle stops. The vehicle follows the newest simplified path vertex by vertex, taking the next one when it is closer than the current speed. Every cycle sends one setpoint in the direction of the current vertex, at the vertex when it is nearer than a metre and the current speed away otherwise, with no other validity than position and yaw; the speed follows the risk at the vehicle if configured. Planned, simplified, smoothed and flown paths are published as they are.",
     ["histories", "configurations"], "histories of 5-40 maps, positions on and off the path, velocities, goals of both sources, settings, planning rounds and cycles, any start parameters; commanded goals in the same column of cells are not new goals",
     "No baseline test runs the node; goals, paths and positions interact over histories.",
     [GPN, GNH, GPP, GPH + "search_tools.h"], "model-based: the statement's rules around a second planner", technique="stateful model-based property testing")
prop("P32", "The planner works on the newest map and seen points, and reports when maps stop",
     "A usable map is taken over unless the last one was less than 0.2 s ago, an unusable one changes nothing. Every camera cloud is placed with the transform of the configured camera frame at its arrival, its valid points mark exactly the cells they lie in as seen, and it is passed on; clouds that cannot be placed have no effect. The status is active while maps arrive, critical when the last is older than half a second and termination beyond fifteen seconds, after the grace period, while setpoints continue. Every setting takes effect with the reconfiguration that carries it.",
     ["histories", "configurations", "faults"], "histories of 5-40 maps, cycles and status ticks with pauses up to 16 s; 1-10 clouds under moving or missing transforms; 1-5 reconfigurations of all parameters; points within 0.1 mm of a cell border may count for either cell",
     "No baseline test runs the node; lost maps and transforms only show in histories.",
     [GPN, GNH, "avoidance/src/avoidance_node.cpp", GPP], "model-based: cells of independently transformed points, a second planner with the same maps, a status model over the clock", technique="stateful model-based property testing")
prop("P33", "Threads of the global planner never see half-changed data or wait for each other",
     "A map, goal, command, setting, cloud or clicked point that arrives while a planning round or setpoint is being computed takes effect after it, as if it had arrived afterwards; positions and setpoint cycles go on promptly while a planning round is busy; no schedule reads freed or half-written maps and paths, and nothing received is lost.",
     ["schedules"], "histories of 3-12 rounds, each interrupted at any of its map lookups by another thread with any of nine actions; a position may count before or after a concurrent cycle",
     "No baseline test runs two threads of the node; which lookup is interrupted is a schedule.",
     [GPN, GNH, GPP], "schedule injection at map lookups; the same actions one after the other on a second planner; address sanitizer", technique="schedule-injecting model-based property testing")
prop("P34", "A vehicle led by the global planner stays out of known obstacles",
     "A vehicle that flies exactly to the setpoints of the global planner node, at any speed up to a little more than a metre per second and without risk-based speed, never gets more than 0.3 m inside an obstacle the node's newest map holds, whether the world was known from the start or is discovered on the way, over every goal, path, replanning and setting of the search and of smoothing and simplification.",
     ["inputs", "histories", "configurations"], "worlds of 1-6 blocks and walls up to 5 m high in 15x15 cells, flights of up to 40 s with maps every second, ranges of 3-8 m where discovered; default_speed of at least 0.9; with risk-based speed corners are cut by design, because vertices count as passed up to the maximum speed in metres before",
     "No baseline test runs the node; whether search, simplification, path following and replanning together keep the vehicle out of obstacles only shows in closed loop.",
     [GPN, GPP, GPH + "search_tools.h", GPH + "analysis.h"], "closed-loop simulation with an invariant: the position is never deep inside an obstacle of the world", technique="stateful property testing in closed loop")
prop("P35", "The landing nodes together touch down on seen, level ground only",
     "A vehicle that follows the setpoints of the two landing nodes and shows them the ground below never touches down closer to a step, to rough ground or to ground never seen than the landing patch reaches, when the thresholds ask for level neighbourhoods, whatever the heights of ground and loitering, the patch, filters and resolution; and where all ground is level and seen it touches down at the place of the landing item.",
     ["inputs", "histories", "configurations"], "missions of up to 26 s to a landing item within 15 m over ground with up to 8 rectangular zones (steps of 0.8-2 m, rough, unseen) and slopes of up to 2 %, grids of 8-18 rows, 3-16 points per cell",
     "No baseline test runs a node, let alone both; that heights, marks, hysteresis, exploration and descent fit together only shows in closed loop.",
     [SLP, SLG, SLW, SLN, "safe_landing_planner/src/nodes/waypoint_generator_node.cpp"], "closed-loop simulation with an invariant: distance of the touch-down from the zones; arrival on level ground", technique="stateful property testing in closed loop")
prop("P36", "The local planner node's threads neither race, block nor overlook each other",
     "Whatever the interleaving of the local planner node's own threads (planner, transform reader, one per camera), its setpoint timer, status timer, message callbacks and reconfiguration: no two of them access the same data unsynchronised; no two block each other for good; clouds of all cameras always lead to a planning round at once, on the newest clouds; the planner's position and orientation come from one message; setpoints and messages never wait for a planning round; the last goal, position, state and settings hold afterwards; and the node can be destroyed at any moment, without anything of it running later.",
     ["schedules", "inputs", "histories"], "nodes with 0-2 cameras; up to four extra threads with 120 messages, 20 cycles and 6 reconfigurations in any order; schedules in which one thread is stopped at its n-th (1-60) lock, unlock, wait, clock reading, log message, publication or transformation while another delivers anything",
     "The baseline tests run the planner classes in one thread; no test starts the node, and which interleavings occur there is up to chance.",
     [LPN, "local_planner/include/local_planner/local_planner_nodelet.h", "avoidance/src/avoidance_node.cpp", "avoidance/include/avoidance/transform_buffer.h"], "happens-before race detection on generated concurrent histories; forced stops of a thread at generated points with invariants on what the node does afterwards; waits made a minute longer so that lost wake-ups show",
     technique="schedule fuzzing under the thread sanitizer",
     note="Seeded random search over inputs, histories and stopping points under ThreadSanitizer; what the operating system schedules between the stops is left to chance, so that a replay repeats the case up to 50 times. No proof of absence. Trusts the stand-ins in shim/, which run one callback per subscription, timer and callback queue at a time, as roscpp does.")
prop("P37", "Threads of the global planner and landing nodes neither race nor outlive them",
     "Whatever the interleaving of the global planner node's threads (message callbacks and reconfiguration, setpoint cycle, planning round, status timer; from the constructor on) and of the landing planner node's (cycle with the callbacks it serves, cloud thread, transform listener): no two of them access the same data unsynchronised and none blocks another for good; cycles and planning rounds go on; the newest position, settings and clouds reach the planner; every landing cycle makes a grid while clouds keep coming; and each node can be destroyed at any moment, without anything of it crashing, hanging or running later.",
     ["schedules", "inputs", "histories"], "global planner nodes with 20-120 messages and settings of any kind against three free-running timer threads, also while the node is constructed; landing nodes with 3-25 cycles; nodes destroyed while a thread is stopped at its n-th (1-20) lock, unlock, wait, clock reading, log message, transformation or publication",
     "No baseline test starts either node; which interleavings occur in a flight is up to chance.",
     ["global_planner/src/nodes/global_planner_node.cpp", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp", "avoidance/src/avoidance_node.cpp"], "happens-before race detection on generated concurrent histories; nodes destroyed at generated stopping points; the last inputs must hold afterwards",
     technique="schedule fuzzing under the thread sanitizer",
     note="Seeded random search over inputs, histories and stopping points under ThreadSanitizer; what the operating system schedules between the stops is left to chance. No proof of absence. Trusts the stand-ins in shim/, which run one callback per subscription, timer and callback queue at a time, as roscpp does; message callbacks come from one thread, as in the nodes' main functions.")

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=p["title"], where=", ".join(p["files"]))],
                                                 observe_at=[p["mechanism"]]))) + "\n")
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if not p["claim"]:
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                           technique=p["technique"], level="exploration",
                           level_note=p["note"] or "Seeded random search with shrinking on the compiled code of the current tree under address and undefined-behaviour sanitizers; no proof of absence. Trusts the stand-ins for ROS, PCL, tf and octomap in shim/ (the upstream ROS unit tests pass on them) and the oracle in harness/."))
    m = dict(version=1, setup_cmd="python3 -c \"import sys; print(sys.version)\" && g++ --version", checks=checks, not_applicable=NOT_APPLICABLE,
             notes="No hooks in /repo. Each check compiles what it needs of /repo's current tree itself (check.py, build.py). Replay a failure: python3 check.py replay FILE.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

if __name__ == "__main__":
    main()
