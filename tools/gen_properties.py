import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("C01","A thread pool runs every queued task exactly once and always drains",
 "Every task queued before the pool is finished, including one queued by a running task, runs exactly once on a worker thread unless it is cancelled while still pending, and its future delivers the task's value or exception (a broken promise if cancelled). Finishing or destroying the pool, started or not, returns, only after every non-cancelled task has completed, and never deadlocks. Queueing or starting after finish, and starting a running pool, are rejected with an exception and change nothing.",
 ["schedules","histories"],"Every interleaving of worker threads with the client's Queue/Start/cancel/Finish/destroy calls, for any number of workers and tasks, with spurious wakeups, throwing tasks and tasks that queue tasks.",
 "Schedules: three tests run one OS-chosen schedule each with sleeps; none finishes an unstarted pool, queues from a task or forces a particular interleaving around the wait/notify pairs.",
 ["include/maliput/utility/thread_pool.h","src/maliput/utility/thread_pool.cc"],
 [("queue mutex and availability condition","ThreadPool::Queue, ThreadPool::DoWork"),("start gate","ThreadPool::Start, ThreadPool::DoWork"),("finish flag checked under the queue lock","ThreadPool::Finish, ThreadPool::DoWork")],
 ["futures returned by Queue","task side effects","return of Finish and the destructor"])
p("C02","Rulebook queries reflect exactly the rules added and not yet removed",
 "After any history of additions and removals of right-of-way, speed-limit, direction-usage, discrete-value and range-value rules, looking rules up by id, by kind and type, by listing all of them or by lane ranges returns exactly the present rules that satisfy the query, each once. Removing a present rule always succeeds and leaves no trace in any query, whatever the shape of its zone; adding a rule with an id already in use or removing an absent one throws and changes nothing.",
 ["histories","inputs"],"All histories of add, remove and remove-all calls over any rules, zones (several ranges per lane, shared lanes, reversed ranges) and query ranges and tolerances.",
 "Histories: the tests add and remove a handful of rules with one-range zones and query after each; they do not mix kinds, removals, repeated lanes and failing calls.",
 ["src/maliput/base/manual_rulebook.cc","include/maliput/base/manual_rulebook.h","include/maliput/api/rules/road_rulebook.h","src/maliput/base/rule_filter.cc"],
 [("id index per kind and lane-range index","ManualRulebook::Impl"),("result filtering","FilterRules in src/base/rule_filter.cc")],
 ["FindRules","GetRule / GetDiscreteValueRule / GetRangeValueRule / ...","Rules"])
p("C03","The rule registry only admits and builds rules of registered types and values",
 "A rule type can be registered once, as discrete-valued or range-valued but not both, and only with a non-empty set of distinct values; a rejected registration changes nothing and registered types never change or disappear. A rule is built if and only if its type is registered for that kind, its values are themselves valid and distinct, and every one of them matches a registered one in severity and value (or bounds and description); it then carries exactly the id, type, zone and states requested.",
 ["histories","inputs"],"All histories of registrations and builds with any type ids, value sets, severities, related rules and related unique ids.",
 "Histories: tests register two or three types once and build one good and one bad rule.",
 ["src/maliput/api/rules/rule_registry.cc","src/maliput/api/rules/rule.cc","src/maliput/api/rules/discrete_value_rule.cc","src/maliput/api/rules/range_value_rule.cc"],
 [("type tables","RuleRegistry::RegisterDiscreteValueRule / RegisterRangeValueRule"),("value matching","RuleRegistry::BuildDiscreteValueRule / BuildRangeValueRule"),("construction checks","DiscreteValueRule / RangeValueRule / Rule constructors")],
 ["RuleRegistry::GetPossibleStatesOfRuleType, DiscreteValueRuleTypes, RangeValueRuleTypes","built rules' accessors"])
p("C04","Rule state providers only ever hold states that are legal for their rule",
 "A discrete-value, range-value or right-of-way state provider reports for a rule exactly the state, next state and time to next set by the last accepted call, and nothing before one. A call on a discrete- or range-value provider is accepted if and only if the rule exists in the provider's rulebook, the state and any next state belong to that rule, and a time to next is positive and accompanies a next state; a right-of-way provider accepts one addition per rule and then updates of it. A rejected call throws and changes no rule's reported state, and a by-position query answers with the state of a rule of the requested type whose zone covers that position, or nothing if there is none.",
 ["histories","inputs"],"All histories of accepted and rejected set calls on any set of rules, interleaved with queries by id and by position.",
 "Histories: the tests set one or two states and check one rejection of each kind, never what a rejected call leaves behind.",
 ["src/maliput/base/manual_discrete_value_rule_state_provider.cc","src/maliput/base/manual_range_value_rule_state_provider.cc","src/maliput/base/manual_right_of_way_rule_state_provider.cc","include/maliput/api/rules/discrete_value_rule_state_provider.h","include/maliput/api/rules/range_value_rule_state_provider.h"],
 [("validation before store","ManualDiscreteValueRuleStateProvider::SetState, ManualRangeValueRuleStateProvider::SetState"),("position query via the rulebook","DoGetState(RoadPosition, ...)")],
 ["GetState by rule id","GetState by road position"])
p("C05","Phase rings are internally consistent and a rule belongs to at most one ring",
 "A phase ring can only be built from a non-empty set of distinct phases that all cover the same rules and the same bulbs, with every next phase being one of its own phases. A phase ring book returns by ring id or by rule exactly the rings added and not removed, never lets two rings share a ring id or a rule, and a rejected addition or removal throws and leaves every answer of the book unchanged.",
 ["histories","inputs"],"All histories of ring additions and removals with overlapping ids and rules; all phase sets offered to a ring.",
 "Histories: tests add one or two rings; no test looks at the book after a rejected addition or checks ring coverage when bulb states are missing.",
 ["src/maliput/base/manual_phase_ring_book.cc","src/maliput/api/rules/phase_ring.cc","src/maliput/api/rules/phase.cc"],
 [("ring and rule indices","ManualPhaseRingBook::Impl"),("ring invariants","PhaseRing::PhaseRing"),("phase invariants","Phase::Phase")],
 ["GetPhaseRing, FindPhaseRing, GetPhaseRings","PhaseRing accessors"])
p("C06","Rule, bulb and intersection states always follow the ring's current phase",
 "The phase provider reports for each ring exactly the last accepted phase, next phase and duration. Every rule governed by a ring with a known phase is reported in the state that the current phase assigns to it, with the next phase's state as its next state, by the phase-based state providers and by the intersection alike; rules outside any ring keep their manually set state, and bulb states are those of the current phase. A rejected phase change throws and changes nothing.",
 ["histories"],"All histories of adding phase rings, moving them between phases (with and without next phase and duration) and setting rule states, with any mix of phase-governed and manual rules.",
 "Histories: tests use one ring with two phases and one transition.",
 ["src/maliput/base/manual_phase_provider.cc","src/maliput/base/phased_discrete_rule_state_provider.cc","src/maliput/base/phase_based_right_of_way_rule_state_provider.cc","src/maliput/base/intersection.cc","src/maliput/api/intersection.cc","src/maliput/base/intersection_book.cc"],
 [("per-ring phase table","ManualPhaseProvider"),("derivation of rule state from phase","PhasedDiscreteRuleStateProvider, PhaseBasedRightOfWayRuleStateProvider"),("intersection delegation","base::Intersection"),("intersection lookup","base::IntersectionBook")],
 ["PhaseProvider::GetPhase","DiscreteValueRuleStateProvider::GetState","RightOfWayRuleStateProvider::GetState","Intersection::Phase, bulb_states, DiscreteValueRuleStates","IntersectionBook::GetIntersection, FindIntersection"])
p("C07","Traffic lights, bulb groups and bulbs are uniquely identified and resolvable",
 "Every bulb group and bulb of an assembled traffic light is retrievable by its own id and knows its owner, and the unique ids derived from the ownership chain never coincide for different bulbs or groups. A traffic light book resolves exactly the lights added to it, and duplicates at any level are rejected without changing what the book answers.",
 ["inputs","histories"],"All traffic lights over any ids, groups, bulbs and states, and all sequences of additions to a book.",
 "Inputs: tests build one or two lights with fixed ids.",
 ["src/maliput/api/rules/traffic_lights.cc","src/maliput/base/traffic_light_book.cc"],
 [("owner back-links","Bulb::Attach, BulbGroup::Attach"),("unique id composition","Bulb::unique_id, BulbGroup::unique_id"),("book index","TrafficLightBook")],
 ["TrafficLight::GetBulbGroup, BulbGroup::GetBulb, unique_id","TrafficLightBook::GetTrafficLight, FindBulbGroup, TrafficLights"])
p("C08","Lane range inclusion and intersection agree with their set meaning",
 "For lane ranges in either direction and lists of such ranges, two of them intersect exactly when, up to the given tolerance, some of their ranges on a same lane overlap, and one includes another exactly when each of its ranges is covered, up to the tolerance, by a range of the other on the same lane; intersection is symmetric and an intersection range lies in both operands. The answers do not depend on the order of the ranges in a list nor on the direction of a range.",
 ["inputs"],"All ranges, directions, lists (including several ranges on one lane) and tolerances.",
 "Inputs: tests check single ranges and lists with one range per lane.",
 ["src/maliput/api/regions.cc","include/maliput/api/regions.h"],
 [("interval predicates","SRange::Intersects, Contains, GetIntersection"),("lifting to lanes and routes","LaneSRange, LaneSRoute, IsIncluded")],
 ["SRange, LaneSRange and LaneSRoute predicates","IsIncluded"])
p("C09","A road geometry resolves each of its parts by id, index and neighbourhood",
 "However junctions, segments, lanes and branch points are added and in whatever order they are attached to each other, once attached to a road geometry each is found by its id as that very object, sits at the index it reports inside its parent, and lane left/right neighbours are the next and previous indices. Attaching nothing, or an element with an id already in use, throws, and every element attached before is still found where it was.",
 ["histories","inputs"],"All orders of building and attaching any number of junctions, segments, lanes and branch points, with failing calls interleaved.",
 "Histories: tests attach elements in two or three fixed orders with all ids distinct.",
 ["src/maliput/geometry_base/road_geometry.cc","src/maliput/geometry_base/junction.cc","src/maliput/geometry_base/segment.cc","src/maliput/geometry_base/lane.cc","include/maliput/api/basic_id_index.h"],
 [("attachment callbacks","geometry_base RoadGeometry/Junction/Segment Add*"),("id index","api::BasicIdIndex")],
 ["RoadGeometry::ById","junction/segment/lane/branch point accessors","to_left, to_right"])
p("C10","Lane connectivity through branch points is consistent from every end",
 "Each lane end belongs to at most one branch point and one side of it; its confluent ends are exactly the ends on its own side (itself included) and its ongoing ends exactly those on the other side, whether asked at the branch point or at the lane. The default branch of an end, if any, is the last one accepted for it and is always one of its ongoing ends; rejected additions or defaults throw and change nothing, and segment connectivity computed from branch points is the connected components of confluent lane ends.",
 ["histories"],"All sequences of adding A/B branches and setting defaults over any number of lanes and branch points.",
 "Histories: tests build one branch point with a few lanes.",
 ["src/maliput/geometry_base/branch_point.cc","src/maliput/geometry_base/lane.cc","include/maliput/geometry_base/lane_end_set.h","src/maliput/utility/segment_analysis.cc"],
 [("A/B side sets and confluent/ongoing maps","geometry_base::BranchPoint"),("lane end back-links","Lane::SetStartBranchPoint / SetFinishBranchPoint"),("flood fill","FindConfluentSegments, AnalyzeConfluentSegments")],
 ["BranchPoint::GetConfluentBranches, GetOngoingBranches, GetDefaultBranch, GetASide, GetBSide","Lane::Get*Branches","AnalyzeConfluentSegments"])
p("C11","Network validation accepts a road network exactly when its parts agree",
 "Road geometry invariant checking reports problems whenever and only when an element names another owner or index than the one it hangs from, or lane ends that share a branch point disagree in position or heading beyond tolerance, or a branch point has no ends. Network validation throws exactly when a check that is enabled fails: a lane without direction usage rule, an invariant broken, a part of the hierarchy missing or not found by its id, a right-of-way rule whose related traffic light or bulb group is missing, a rule zone that is not contiguous along its direction of travel, a phase naming an unknown rule state or bulb state, or a related rule that does not exist. A disabled check never contributes, and validation never modifies the network.",
 ["configurations","inputs"],"All road networks (well formed and with one or more references broken) and all combinations of validation options.",
 "Configurations: tests break one reference per test against one network with one option on.",
 ["src/maliput/api/road_network_validator.cc","src/maliput/api/road_geometry.cc","src/maliput/api/road_network.cc"],
 [("option-guarded checks","ValidateRoadNetwork"),("invariant report","RoadGeometry::CheckInvariants")],
 ["ValidateRoadNetwork","RoadGeometry::CheckInvariants"])
p("C12","Road position queries return the right lanes, whichever strategy is used",
 "Mapping an inertial point to a road position returns the position with the smallest distance among all lanes (the hinted lane's when a hint is given), preferring lanes the point is actually on, and finding road positions returns exactly one result for every lane whose distance is within the radius and none other. The exhaustive and the tree-based strategies give the same answers.",
 ["inputs","configurations"],"All road geometries, query points, hints and radii.",
 "Inputs: tests query a few points on one mock geometry per strategy and never compare strategies.",
 ["src/maliput/geometry_base/brute_force_strategy.cc","src/maliput/geometry_base/kd_tree_strategy.cc","src/maliput/geometry_base/filter_positions.cc","src/maliput/geometry_base/strategy_base.cc","src/maliput/geometry_base/road_geometry.cc"],
 [("linear scan and tie break","BruteForceStrategy, IsNewRoadPositionResultCloser"),("sampled kd-tree","KDTreeStrategy")],
 ["RoadGeometry::ToRoadPosition, FindRoadPositions","FilterRoadPositionResults"])
p("C13","Lane sequence search returns all and only valid lane paths",
 "Searching lane sequences between two lanes returns each path of connected distinct lanes from the first to the second exactly once, provided the lanes strictly between the ends fit in the given length, and with U-turns excluded on request precisely those sequences are dropped in which some lane is left through the end it was entered by. Routes derived from a sequence cover exactly its lanes, oriented along travel and trimmed to the start and end positions.",
 ["inputs","configurations"],"All lane graphs (any lane orientation, rings, branches, merges), pairs of lanes, length limits and U-turn settings.",
 "Inputs: tests use one fixed road of a handful of lanes with a single orientation.",
 ["src/maliput/routing/find_lane_sequences.cc","src/maliput/routing/derive_lane_s_routes.cc"],
 [("depth-first search over ongoing branches","FindLaneSequences"),("U-turn filter","HasUTurn"),("range trimming","DeriveLaneSRoutes")],
 ["FindLaneSequences","DeriveLaneSRoutes"])
p("C14","The routing graph mirrors the road geometry and its paths are complete",
 "The graph has one edge per segment and one node per set of branch points joined by segments' ends, with each edge's ends exactly the nodes containing the branch points of its lanes. Edge sequence search returns exactly the drivable simple paths between two nodes: those that visit no node twice and whose consecutive segments are joined by lanes entering and leaving a branch point by opposite sides.",
 ["inputs","configurations"],"All road topologies, including loops, parallel segments, multi-lane segments with lane ends in several branch points, and all pairs of nodes.",
 "Inputs: tests build two or three fixed topologies.",
 ["src/maliput/routing/graph/graph.cc","src/maliput/routing/graph/graph_utils.cc"],
 [("node merging","BuildGraph"),("simple path enumeration","FindAllEdgeSequences")],
 ["BuildGraph","FindAllEdgeSequences"])
p("C15","Routes and phases place positions and lane ranges consistently",
 "A routing phase or route can only be built from adjacent, connected, validated lane ranges and positions, and every construction rule is enforced. Locating a position in a route returns the phase and lane range that contain it or are nearest, and the relation reported between two lane ranges of a route (left, right, adjacent, succeeding, preceding, coincident, unrelated) is the one implied by their places in the route and is mirrored when the arguments are swapped.",
 ["inputs","configurations"],"All routes of any number of phases and lanes per phase, all pairs of lane ranges and all query positions and tolerances.",
 "Inputs: tests enumerate one fixed multi-phase route.",
 ["src/maliput/routing/route.cc","src/maliput/routing/phase.cc"],
 [("construction checks","Phase::Phase, Route::Route"),("range relation","Route::ComputeLaneSRangeRelation"),("nearest search","Route::FindRoutePosition, Phase::FindPhasePosition"),("path derivation","Route::ComputeLaneSRoute")],
 ["Phase and Route constructors and accessors","ComputeLaneSRangeRelation","FindRoutePosition","ComputeLaneSRoute"])
p("C16","Computed routes connect start to end and are all those the constraints admit",
 "Every route computed by the distance router starts at the start position's lane and ends at the end position's, consecutive phases are connected end to end by lanes that lead from one into the other, lane switches occur only if allowed, and no phase or route exceeds the cost limits given. There is one route for each drivable simple path of the road graph that connects the two positions and that the constraints admit, and no other; invalid constraints or positions are rejected with an exception.",
 ["inputs","configurations"],"All road topologies, start and end positions and routing constraints.",
 "Inputs: tests route across a few fixed mock networks.",
 ["src/maliput/base/distance_router.cc","src/maliput/routing/routing_constraints.cc","include/maliput/routing/router.h"],
 [("edge sequence to route conversion","DistanceRouter::DoComputeRoutes"),("constraint filtering","ValidateRoutingConstraints and cost filters")],
 ["Router::ComputeRoutes"])
p("C17","Loading rule, phase, light and intersection descriptions is faithful or refused",
 "Loading a description (rule registry, road rulebook, traffic light book, phase ring book, intersection book) yields objects that carry exactly what the description states, in every element and with documented defaults independent of the order of entries and of other entries. A description that misses a mandatory field, has a value of the wrong kind, states a range outside its lane, names a lane, rule, state, bulb or phase unknown to the books and geometry that it is loaded with, or repeats an id is refused with an exception (references between the rules of one rulebook are left to validation).",
 ["inputs","configurations"],"All descriptions over any number of elements, optional fields present or absent, orders of entries and single defects.",
 "Inputs: each loader is tested on one good document and a few bad ones.",
 ["src/maliput/base/rule_registry_loader.cc","src/maliput/base/road_rulebook_loader.cc","src/maliput/base/road_rulebook_loader_using_rule_registry.cc","src/maliput/base/traffic_light_book_loader.cc","src/maliput/base/phase_ring_book_loader.cc","src/maliput/base/phase_ring_book_loader_old_rules.cc","src/maliput/base/intersection_book_loader.cc","src/maliput/base/yaml_conversion.cc"],
 [("YAML conversion and checks","*_loader.cc")],
 ["LoadRuleRegistry, LoadRoadRulebook, LoadTrafficLightBook, LoadPhaseRingBook, LoadIntersectionBook"])
p("C18","A plugin registry lists and serves exactly the plugins loaded, latest winning",
 "A plugin manager lists exactly the plugins whose libraries were found in the directories of its search path or added explicitly, with their declared types; loading a library with an id already present replaces it and does not add an entry. A library that cannot be loaded or lacks the mandatory symbols, or an unknown id, is reported as an error or absence and changes nothing.",
 ["histories","configurations"],"All search path contents and orders and all histories of explicit additions, with broken libraries.",
 "Configurations: tests use one directory with three plugins.",
 ["src/maliput/plugin/maliput_plugin_manager.cc","src/maliput/plugin/maliput_plugin.cc","src/maliput/utility/file_utils.cc","src/maliput/plugin/create_road_network.cc"],
 [("directory scan","GetPluginLibraryPaths"),("id table","MaliputPluginManager::AddPlugin")],
 ["MaliputPluginManager::ListPlugins, GetPlugin, AddPlugin","CreateRoadNetwork"])
p("C19","Spatial searches over a k-d tree equal the exhaustive answer",
 "For any set of points, nearest-point search returns a point at the minimum distance to the query (or one within the given tolerance), and range search returns each stored point inside the region exactly once and no point outside it. Box predicates the search depends on (containment, overlap kind, intersection) agree with the boxes' meaning as point sets.",
 ["inputs"],"All point sets including duplicates and collinear points, all query points, tolerances and axis-aligned boxes.",
 "Inputs: tests use a few fixed point sets without repeated coordinates.",
 ["include/maliput/math/kd_tree.h","src/maliput/math/axis_aligned_box.cc","src/maliput/math/overlapping_type.cc"],
 [("median split and pruning","MakeKdTree, nearest_point"),("region pruning","RangeSearch, Initialize3dRegions")],
 ["KDTree::nearest_point","KDTree3D::RangeSearch","AxisAlignedBox predicates"])
p("C20","Oriented boxes contain, enclose and meet each other as the solids they are",
 "A bounding box placed and oriented in the inertial frame has the corners that its centre, size, roll, pitch and yaw give; it contains a point, encloses another box, and overlaps another box exactly when that is so of the solids (up to the tolerance), for boxes of any orientation, flat and degenerate ones included. Negative sizes and tolerances are refused.",
 ["inputs"],"All pairs of boxes of any size, position, orientation and tolerance and all points.",
 "Inputs: tests use cubes turned by 45 degrees at one position, whose symmetry hides the sense of the rotation, and four pairs of boxes.",
 ["src/maliput/math/bounding_box.cc","include/maliput/math/bounding_box.h","src/maliput/math/roll_pitch_yaw.cc","src/maliput/math/matrix.cc"],
 [("frame change","DoContains, get_vertices"),("separating axes","IsBoxIntersected")],
 ["BoundingBox::Contains, Overlaps, IsBoxContained, IsBoxIntersected, get_vertices"])
p("C22","Rotations, matrices and vectors agree in every form",
 "A rotation is the same whether given as a quaternion, a matrix, roll-pitch-yaw, an axis and an angle or two vectors: conversions between the forms, composition, inversion, reversal, interpolation, distances and application to points agree with one another and with the rotation's meaning. Matrix and vector algebra (products, transposes, determinants, minors, adjoints, inverses, norms, comparisons) is exact where the values are, and indices out of range, singular matrices and malformed text are refused; every vector's text reads back as that vector. Saturated and range-validated values stay within their limits or are refused.",
 ["inputs"],"All rotations, matrices, vectors, texts and limits.",
 "Inputs: tests use a handful of angles and generic vectors, so signs, orders of products and degenerate branches (half turns, antiparallel vectors) can be wrong unnoticed.",
 ["src/maliput/math/quaternion.cc","src/maliput/math/roll_pitch_yaw.cc","src/maliput/math/matrix.cc","src/maliput/math/vector.cc","src/maliput/math/saturate.cc","src/maliput/common/range_validator.cc","src/maliput/api/lane_data.cc"],
 [("matrix to quaternion and roll-pitch-yaw","Quaternion::SetFromMatrix, SetFromQuaternionAndRotationMatrix"),("half turns","Quaternion::SetFromTwoVectors"),("text","VectorBase::FromStr")],
 ["math::Quaternion, Matrix, VectorBase, RollPitchYaw, AngleAxis constructors and methods","api::Rotation"])
p("C21","Sampled waypoints follow the route; lanes and networks contain their positions",
 "Sampling a lane route ahead gives its start and then the point after every step of max(linear tolerance, min(rate, route length)) of path length, along each range in its direction of travel and across range ends, and the route's end too when the remainder exceeds the linear tolerance; a rate that is not positive or an unknown lane is refused. A lane contains a position exactly when it lies within the lane's length, the segment bounds at its s and the elevation bounds at its s and r, up to the linear tolerance; a road network contains exactly the lanes of its geometry, refuses missing parts and returns the parts it was given.",
 ["inputs"],"All routes of any number of ranges in either direction, all rates, tolerances and positions.",
 "Inputs: tests sample one or two routes travelled with s; ranges against s, empty ranges, steps that span several ranges and varying bounds are combinations no sample covers.",
 ["src/maliput/api/road_geometry.cc","src/maliput/api/lane.cc","src/maliput/api/road_network.cc","src/maliput/geometry_base/road_geometry.cc"],
 [("direction and carry over range ends","RoadGeometry::DoSampleAheadWaypoints"),("bounds at the position","Lane::Contains")],
 ["RoadGeometry::SampleAheadWaypoints","Lane::Contains","RoadNetwork::Contains"])
p("C23","Meshes cover the road surface, simplified or not",
 "The meshes of a road network cover its surface: asphalt each segment, haze each lane, stripes the lanes' bounds, elevation bounds the segments at their lowest and highest, each exactly once and nothing else, at their elevations, for every grid size, resolution and mode of generation (grids may leave out slivers where bounds are not parallel); segments that are not highlighted are gray. Every branch point has a diamond and for each of its lane ends a level and an upright arrow that point into the lane, clear of those before. Arrows of lanes lie inside and narrow along s. Simplifying merges coplanar neighbours and moves no face by more than the tolerance. Meshes by part, single meshes and OBJ, MTL and URDF files tell the same, relative to the origin.",
 ["inputs"],"All road networks, features, grids, terrains and origins.",
 "Inputs: tests mesh one or two small roads and compare counts or sample faces; holes, pinched outlines, tapering or one-sided lanes and remainders of rounding never occur in them.",
 ["src/maliput/utility/generate_obj.cc","src/maliput/utility/mesh_simplification.cc","src/maliput/utility/generate_urdf.cc","include/maliput/utility/mesh.h"],
 [("grids and slivers","GeneratePreciseRoadMesh, GenerateOptimizedRoadMesh, ComputeSampleStep"),("merging and contours","SimplifyMeshFaces, ComputeMeshFacesContour"),("clear of those before","RenderBranchPoint"),("index offsets","GeoMesh::EmitObj")],
 ["BuildMeshes, BuildMesh, BuildRoadGeometryMesh","GenerateObjFile, GenerateUrdfFile","SimplifyMeshFaces"])
p("C24","Directory helpers act as asked and touch nothing else",
 "For every tree of files and directories and every spelling of a path - from the root or from the working directory, with doubled or trailing slashes and '.' in between - Path tells whether it is a file, a directory, there, absolute, and appends; creating makes exactly the directory asked for, recursively as mkdir -p does (all that is missing on the way, and success where it is there already); removing takes only what is of the kind asked for, directories only when empty; reading gives the bytes of the file, whatever they are, and fails for directories; nothing else in the tree changes, and the result tells whether it was done. The temporary directory is where the first set of TMPDIR, TEMPDIR, TMP and TEMP says, or /tmp.",
 ["histories","inputs"],"All histories of creating, writing, removing, reading and asking, over all trees, spellings and working directories.",
 "Histories and inputs: tests create, read and remove one file and one directory with one absolute spelling each.",
 ["src/maliput/common/filesystem.cc"],
 [("recursive creation","Filesystem::create_directory_recursive"),("bytes of a file","Filesystem::read_as_string"),("kinds of nodes","Path::is_file, is_directory"),("spelling","Path::append, normalize")],
 ["Filesystem","Path"])
p("C25","Comparison helpers report a difference exactly when there is one",
 "Every comparison helper (rules, values, states, phases, bulbs, bulb groups and lights; ids, ranges, routes, lanes and lane ends; positions, rotations and bounds within tolerances; vectors and matrices, absolute or relative) finds no difference between equal values and one, with a message, between values that differ in anything at all, in either order, whatever is missing on one side, and never fails. Collecting the results of several comparisons finds a difference exactly when one of them did. Equality, order and hashes of ids and values used as keys agree with it: equal keys are one key, different ones are told apart. Checking the index of a road geometry finds every part that is missing from it or stands under another's id.",
 ["inputs"],"All pairs of values of each kind, equal, different in one place, or unrelated; all tolerances; all faults of an index.",
 "Inputs: tests compare one value with itself and with one or two others; one-sided lists, missing keys, infinities and null lanes never occur in them.",
 ["include/maliput/common/compare.h","src/maliput/api/compare.cc","src/maliput/api/rules/compare.cc","src/maliput/routing/compare.cc","src/maliput/math/compare.cc"],
 [("maps and lists of different sizes","api/rules/compare.cc"),("non-finite entries","math/compare.cc"),("lane ends","IsLaneEndEqual"),("keys","RangeValueRule::Range, UniqueId, TypeSpecificIdentifier")],
 ["IsEqual","IsClose variants","CompareVectors, CompareMatrices","CheckIdIndexing"])
p("C26","A log message reaches the current sink exactly when its level is logged",
 "For every history of setting levels and sinks: a message whose level is not below its logger's reaches the logger's current sink, and no other, once, at once, as the label of its level and its arguments in order, each as it is streamed; any other reaches none. Setting a level tells the one before and 'unchanged' keeps it; names of levels that there are not are rejected, as is a missing sink, without effect. The logger owns its sink until it is given the next. A new logger logs from 'info' on, to the standard output, and what one logger is told does not change another.",
 ["histories"],"All histories of levels, sinks and messages on the global and another logger.",
 "Histories: tests log one message per level to one sink; sinks that are replaced, rejected settings and two loggers are never combined.",
 ["include/maliput/common/logger.h","src/maliput/common/logger.cc"],
 [("level filter","Logger::log"),("levels by name","set_log_level"),("ownership of sinks","Logger::set_sink")],
 ["maliput::log","Logger","set_log_level"])
p("C27","Descriptions of networks, graphs and values say what there is",
 "The description of a road geometry lists, in order and indented below what they are part of, exactly what the options ask for: ids of the geometry, its junctions, segments and lanes, labelled or not, and lanes' lengths, end points and neighbours. The DOT description of a graph has every edge once between its nodes, labelled by its segment, and red exactly where the route goes; a route outside of the graph is rejected. Numbers with a fixed count of decimals are the nearest such; vectors and matrices show all significant digits; positions, rotations, ids and enumerators stream as their components and names, and no two enumerators of a type share one.",
 ["inputs"],"All networks, options, graphs, routes and values.",
 "Inputs: tests print one network with all or no options and one graph.",
 ["src/maliput/utility/generate_string.cc","src/maliput/utility/generate_dot.cc","src/maliput/utility/string_format.cc","src/maliput/math/vector.cc","src/maliput/api/lane_data.cc","include/maliput/routing/lane_s_range_relation.h"],
 [("indentation by options","ComputeIndentLevels"),("route colours","GenerateDotStream"),("digits","VectorBase::to_str")],
 ["GenerateString","GenerateDotStream","to_str","operator<<"])
p("C28","Arc lengths and their inverses are the integral, whatever was asked before",
 "ArcLengthIntegrator answers with the integral of its function from the lower bound of the parameter, InverseArcLengthIntegrator with the solution of its differential equation that starts at the parameter's lower bound at the image's lower bound: for every context, forwards or backwards, in whatever order queries, contexts and the making of functions follow each other, and after queries whose integrand threw. Functions made for a domain keep answering the same after further queries and after their integrator is gone; within the tolerance beyond an end they answer with the end, further away they throw. Queries before the lower bound throw.",
 ["inputs","histories","fault_sequences"],"All integrands, contexts, domains, tolerances and histories of queries.",
 "History and faults: the solver keeps the state it reached last and continues from it; tests ask in one order with integrands that never fail.",
 ["src/maliput/drake/arc_length_integrator.cc","src/maliput/drake/inverse_arc_length_integrator.cc","src/maliput/drake/systems/analysis/initial_value_problem.cc","src/maliput/drake/systems/analysis/hermitian_dense_output.h"],
 [("kept state","InitialValueProblem::ResetCachedStateIfNecessary"),("functions over a domain","IntegralFunction"),("inverse over a domain","InverseFunction")],
 ["ArcLengthIntegrator::Evaluate","ArcLengthIntegrator::IntegralFunction","InverseArcLengthIntegrator::Evaluate","InverseArcLengthIntegrator::InverseFunction"])
p("C29","Value types of the API hold what they are given and refuse what is illegal",
 "Bounds always straddle zero; identifiers are never empty, are equal exactly when their strings are, and are found in ordered and hashed containers exactly when they were put in; lane ends keyed by their order are told apart; positions keep and combine their components; a range validator accepts exactly what is within tolerance of its range and answers with the nearest value inside its margins; speed limit, direction usage, right of way, discrete and range value rules are built exactly from legal states (non-empty, unique, known order, non-negative severities, no empty keys or repeated related ids, min <= max) and give back what they were built from. Whatever is refused throws and leaves the object as it was.",
 ["inputs","histories"],"All values, all histories of constructions, assignments, modifications and refusals.",
 "Inputs and histories: repeated elements that are not neighbours, illegal elements beyond the first, refused modifications; the tests try one of each.",
 ["include/maliput/api/lane_data.h","include/maliput/api/type_specific_identifier.h","include/maliput/api/unique_id.h","src/maliput/common/range_validator.cc","src/maliput/api/rules/rule.cc","src/maliput/api/rules/discrete_value_rule.cc","src/maliput/api/rules/range_value_rule.cc","include/maliput/api/rules/right_of_way_rule.h","include/maliput/api/rules/speed_limit_rule.h"],
 [("bounds straddle zero","RBounds"),("no empty identifier","TypeSpecificIdentifier"),("related ids are unique","Rule::ValidateRelatedRules"),("margins","RangeValidator::operator()")],
 ["RBounds","HBounds","InertialPosition","LanePosition","TypeSpecificIdentifier","UniqueId","LaneEnd::StrictOrder","RangeValidator","SpeedLimitRule","DirectionUsageRule","RightOfWayRule","DiscreteValueRule","RangeValueRule"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for f in x['anchors']['files']:
        import os
        q=f if f.startswith('include') else f.replace('src/','src/maliput/')
