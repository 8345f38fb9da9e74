"""The single table behind properties.jsonl and MANIFEST.json (python3 tools/gen.py rewrites both)."""
BASE = "/repo"
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                      observe=observe, technique=technique, note=note, na=na))


ENG = "path-sensitive abstract interpretation of the clang AST; "
NOTE = ("Static: decided on every abstract path of the current source with no bound on inputs; loops are summarised by one "
        "generic iteration. Trusts clang's AST, the extractor, and the models of std containers in sa/engine.py. ")

S = "src/maliput/"
I = "include/maliput/"

prop("P01", "Registries reject duplicates and register everything else exactly once",
     "Adding an entity to any registry (id index, rule registry, rulebook, traffic light book, intersection book, phase ring book, "
     "phase provider) throws exactly when its id is already taken or the argument is null or invalid, and otherwise the "
     "entity becomes retrievable under exactly its own id while no existing entry changes. Building the id index by walking a "
     "road geometry registers every junction, segment, lane and branch point of it.",
     ["inputs", "histories"], "every entity, every previous content of the registry, every road geometry",
     "Tests register a handful of entities and one duplicate per registry; a collision that depends on which of several "
     "internal maps already holds the id, or on the size of the road network, is outside them.",
     [S + "api/basic_id_index.cc", S + "api/rules/rule_registry.cc", S + "base/manual_rulebook.cc", S + "base/traffic_light_book.cc",
      S + "base/intersection_book.cc", S + "base/manual_phase_ring_book.cc", S + "base/manual_phase_provider.cc"],
     [("emplace().second checks", "Add*/Register* functions"), ("WalkAndAddAll loops", S + "api/basic_id_index.cc")],
     technique=ENG + "throws-iff-duplicate and insert-exactly obligations per registering function",
     note="The container each registering function must use is discovered from the matching lookup.")

prop("P02", "A rejected change leaves the registry untouched",
     "When a mutating operation of a book, rulebook, provider, registry, id index or branch point throws, the observable "
     "content of that object is the same as before the call.",
     ["inputs", "histories", "fault_sequences"], "every rejected argument at every earlier content",
     "Tests check that the call throws, hardly ever what the object contains afterwards, and never for a failure that is "
     "detected half way through a multi-entry update.",
     [S + "base/manual_rulebook.cc", S + "base/manual_phase_ring_book.cc", S + "base/manual_phase_provider.cc", S + "api/basic_id_index.cc",
      S + "base/manual_discrete_value_rule_state_provider.cc", S + "geometry_base/branch_point.cc"],
     [("validate before mutate", "every public mutator"), ("throwing insertion as last step", "Add* functions")],
     technique=ENG + "no persistent effect precedes an exceptional exit, unless undone",
     note="Mutators are discovered as public non-const member functions of the listed stateful classes. Exceptions from "
          "memory exhaustion are out of scope.")

prop("P03", "Lookups return the registered entry, and only it",
     "Every lookup by id returns the entity registered under that id and reports an unknown id the documented way (null, empty "
     "optional or std::out_of_range), every enumeration returns each registered entity once and nothing else, and the public "
     "entry points hand their arguments and results through to the backend unchanged.",
     ["inputs", "histories"], "every id, every content of the registry",
     "Tests look up a few known and one unknown id in small registries; enumerations are compared on one or two elements.",
     [S + "api/basic_id_index.cc", S + "base/manual_rulebook.cc", S + "base/traffic_light_book.cc", S + "base/intersection_book.cc",
      S + "base/manual_phase_ring_book.cc", S + "base/manual_phase_provider.cc", S + "api/rules/traffic_lights.cc",
      I + "api/rules/road_rulebook.h"],
     [("find()/at() on the owning container", "Do* functions"), ("non-virtual interface forwarding", "include/maliput/api")],
     technique=ENG + "lookup, enumeration and forwarding obligations",
     note="Forwarding covers every non-virtual public method of the abstract API classes that delegates to a Do* virtual.")

prop("P04", "The rulebook's location index always agrees with its rules",
     "At any time the rules found by location are exactly the stored rules whose zone intersects the queried ranges within the given "
     "tolerance: adding or removing a rule updates storage and index together, clearing empties everything, and listing "
     "returns all five kinds. A negative tolerance is rejected.",
     ["inputs", "histories"], "every sequence of additions, removals and queries",
     "Tests add and remove one rule of each kind; an index that drifts from the storage after particular sequences, zones with "
     "repeated lanes, or a forgotten rule kind in one of the operations is not sampled.",
     [S + "base/manual_rulebook.cc", I + "api/rules/road_rulebook.h"],
     [("paired map/index updates", S + "base/manual_rulebook.cc AddAny/RemoveRule"), ("RangeIndex", S + "base/manual_rulebook.cc")],
     state=[("index_", "lane id to (range, rule id) records", S + "base/manual_rulebook.cc")],
     technique=ENG + "paired-update, full-clear and selection-condition obligations",
     note="The geometric meaning of range intersection is P19's concern; here it is an uninterpreted predicate.")

prop("P05", "Assembling a road geometry keeps ownership, indices and neighbours consistent",
     "In the default road geometry, adding a lane, segment, junction or branch point gives the child its owner, its position as "
     "index, and registers it (and everything already below it) in the id index, in whichever order the pieces are assembled; "
     "counts, accessors by position and left/right neighbours agree with that order. Null or already owned children, "
     "positions out of range and non-positive tolerances or scale length are rejected.",
     ["inputs", "histories"], "every assembly order, every number of junctions, segments and lanes",
     "Tests assemble two or three fixed geometries in one order; an index registration that depends on whether the segment was "
     "attached before its lanes is not sampled.",
     [S + "geometry_base/segment.cc", S + "geometry_base/junction.cc", S + "geometry_base/road_geometry.cc", S + "geometry_base/lane.cc",
      I + "geometry_base/road_geometry.h", I + "geometry_base/segment.h", I + "geometry_base/junction.h"],
     [("indexing callbacks", "SetLaneIndexingCallback/SetSegmentIndexingCallback"), ("attach functions", "Attach* members")],
     technique=ENG + "ownership, indexing and neighbour obligations over every assembly function, including template instantiations",
     note="Templates are analysed through explicit instantiations in /verif/synth that include the repository's headers.")

prop("P06", "Branch points, lane ends and lanes agree about connectivity",
     "A branch point accepts each lane end once, on one side; the lane learns that branch point for that very end; its confluent "
     "branches are its own side and its ongoing branches the opposite side; a default branch must be an ongoing branch of a "
     "registered end; and a lane's branch queries answer what its branch point at the requested end records.",
     ["inputs", "histories"], "every sequence of additions on both sides, every lane end",
     "Tests wire a few ends; swapped sides, a wrong lane end or an overwritten link shows only in particular topologies.",
     [S + "geometry_base/branch_point.cc", S + "geometry_base/lane.cc", I + "api/lane_data.h"],
     [("confluent/ongoing/default maps", S + "geometry_base/branch_point.cc"), ("Set*BranchPoint", S + "geometry_base/lane.cc")],
     technique=ENG + "exact-effect obligations on the connectivity records and their readers")

prop("P07", "Network validation rejects exactly the documented inconsistencies",
     "ValidateRoadNetwork throws exactly when an inconsistency covered by an enabled option exists: a lane without direction usage "
     "rule, geometry invariants violated, a broken hierarchy (ownership, id index, counts, missing branch points), related bulb "
     "groups that do not exist, non-contiguous zones of discrete or range value rules, phases with unknown rule or bulb states, related rules that "
     "do not exist. CheckInvariants reports exactly wrong ownership, wrong lane indices, empty branch points, and lane ends "
     "further apart in position or orientation than the tolerances.",
     ["inputs"], "every road network, every combination of up to two enabled options",
     "Tests build one violating network per option; whether the check looks at every element, both sides and every related group, or "
     "depends on another option, is not sampled.",
     [S + "api/road_network_validator.cc", S + "api/road_geometry.cc", I + "api/road_network_validator.h"],
     [("Check* helpers", S + "api/road_network_validator.cc"), ("CheckInvariants", S + "api/road_geometry.cc")],
     technique=ENG + "throws-iff obligations with quantified conditions over all containers, per option and per pair of options",
     note="IsContiguous and the tolerance comparison operands are uninterpreted.")

prop("P08", "The road network holds every component and knows what it contains",
     "A RoadNetwork is only created from a complete set of components, keeps each one reachable through its own accessor and no other, "
     "and Contains() is true for a lane id exactly when the road geometry's id index has that lane, for a position exactly when that "
     "position's lane contains it; a lane contains a lane position exactly when s, r and h are within [0, length], its segment bounds "
     "and its elevation bounds at that place, each widened by the linear tolerance.",
     ["inputs"], "every combination of given and missing components, every lane position",
     "Tests miss one component at a time and probe a few positions of one lane; a component stored under the wrong accessor or a bound "
     "compared without (or with twice) the tolerance on one side is not sampled.",
     [S + "api/road_network.cc", S + "api/lane.cc", I + "api/road_network.h"],
     [("RoadNetwork constructors", S + "api/road_network.cc"), ("Lane::Contains", S + "api/lane.cc")],
     technique=ENG + "throws-iff on construction, stored-where-read obligations, exact linear-arithmetic equivalence of the membership tests",
     note="Arithmetic is over the reals.")

prop("P09", "Rules, phases and traffic lights keep what they were built from",
     "Rules, rule states, phases, phase rings, bulbs, bulb groups and traffic lights are only created from documented values (known keys, "
     "non-negative severity, no duplicate states or related ids, ordered ranges, non-empty collections, states of known rules and bulbs, "
     "next phases in the ring), return exactly what they were given through their accessors, compare equal exactly when every "
     "compared part is equal, and point at each other consistently (bulb to group to traffic light, unique ids from that chain).",
     ["inputs"], "every set of constructor arguments",
     "Tests construct each object from one or two valid and invalid sets of values; which element is invalid, where in the collection it is "
     "and in combination with which other values is not sampled.",
     [S + "api/rules/rule.cc", S + "api/rules/phase.cc", S + "api/rules/phase_ring.cc", S + "api/rules/traffic_lights.cc",
      S + "api/rules/discrete_value_rule.cc", S + "api/rules/range_value_rule.cc", I + "api/rules/rule.h"],
     [("constructors and their checks", "src/api/rules"), ("owner pointers", S + "api/rules/traffic_lights.cc")],
     technique=ENG + "throws-iff with quantified conditions on constructors, stored-where-read and equality obligations",
     note="Strings and ids are compared by uninterpreted equality.")

prop("P10", "Ranges, bounds and validators behave like the intervals they describe",
     "SRange, LaneSRange, LaneSRoute, RBounds, HBounds and the range validators reject exactly the documented invalid values and report "
     "what they were given; SRange's Intersects, Contains and GetIntersection are the interval relations of the range widened by the "
     "tolerance in either direction of travel; the lane-level relations compare ranges of the same lane only and consider every one "
     "of them; IsContiguous, IsIncluded and saturate follow the same intervals.",
     ["inputs"], "every pair of ranges in either orientation, every tolerance, every route",
     "Tests sample a dozen ranges; the orientation of either range, negative tolerances and touching ends combine into many more cases, "
     "and routes revisiting a lane are not sampled.",
     [S + "api/regions.cc", I + "api/regions.h", I + "api/lane_data.h", S + "common/range_validator.cc", I + "math/saturate.h"],
     [("interval relations", S + "api/regions.cc"), ("validators", S + "common/range_validator.cc")],
     technique=ENG + "exact linear-arithmetic equivalence of each relation with the interval it stands for",
     note="Arithmetic is over the reals.")

prop("P11", "Bounding regions contain, meet and overlap exactly what they describe",
     "Axis-aligned and oriented boxes reject negative tolerances, unordered corners and negative sizes, keep what they are given, report "
     "their centre and all eight vertices, contain exactly the points within the box widened by their tolerance (in the box's own frame "
     "when oriented), report another box as contained, intersected or disjointed as the sets are, reject other kinds of regions, "
     "and GetIntersection returns exactly the common box with this box's tolerance.",
     ["inputs"], "every box, point, orientation and tolerance",
     "Tests use a few boxes aligned with an axis or rotated by right angles; a wrong axis among the fifteen separating axes, a "
     "swapped corner or a tolerance missing on one face needs a specific placement to show.",
     [S + "math/axis_aligned_box.cc", S + "math/bounding_box.cc", S + "math/overlapping_type.cc", I + "math/bounding_region.h"],
     [("corner comparisons", S + "math/axis_aligned_box.cc"), ("frame change and separating axes", S + "math/bounding_box.cc")],
     technique="polynomial value analysis of the clang AST; set relations decided by linear arithmetic over the monomials, computed points "
               "compared as exact rational identities",
     note="Arithmetic is over the reals; the comparison margin of the separating-axis test (1e-6) is disregarded.")

ALG = ("polynomial value analysis of the clang AST: symbolic evaluation of fixed-shape numeric code to exact rational functions (with sqrt "
       "and sine/cosine relations), path splits on comparisons; ")

prop("P12", "Vectors, matrices and rotations obey their algebra",
     "Vector, matrix, quaternion and roll-pitch-yaw operations are the textbook ones: accessors and setters agree on the components, "
     "sums, products, dot and cross products, determinant, cofactors, inverse (singular matrices rejected), transpose, quaternion product, "
     "conjugate, inverse, rotation of vectors, interpolation and angular distance; conversions between quaternion, rotation matrix, "
     "roll-pitch-yaw, angle-axis and vector pairs describe the same rotation in every case of their implementation, and "
     "component, row and column indices outside the range and lists of another size are rejected.",
     ["inputs"], "all real component values, every branch of every conversion",
     "Tests compare a few numeric examples; a sign or index error that vanishes for symmetric or axis-aligned values, and the rare branches "
     "of the conversions (opposite vectors, half-turn matrices, angles wrapping around) are not sampled.",
     [S + "math/quaternion.cc", S + "math/roll_pitch_yaw.cc", S + "math/matrix.cc", S + "math/vector.cc", I + "math/vector.h",
      I + "math/quaternion.h"],
     [("formulas", S + "math"), ("conversion cases", S + "math/quaternion.cc"), ("half-angle reconstruction", S + "math/roll_pitch_yaw.cc")],
     technique=ALG + "identities with textbook definitions", note="Arithmetic is over the reals: accuracy is not covered.")

prop("P13", "Positions and rotations keep their components and follow the geometry",
     "InertialPosition, LanePosition, Rotation, RoadPosition, LaneEnd and IsoLaneVelocity keep each component under its own accessor and "
     "setter, Rotation always holds a normalised quaternion, agrees with its roll-pitch-yaw and matrix forms, rotates positions by it, "
     "reverses about its own h axis, a road position without a lane has no inertial position, and distances between positions and between rotations (whose cosines are kept within [-1, 1]) are as defined.",
     ["inputs"], "all real component values",
     "Tests use a few values, often with equal or zero components, for which swapped components or a missing normalisation do not show.",
     [I + "api/lane_data.h", S + "api/lane_data.cc"],
     [("accessors and setters", I + "api/lane_data.h"), ("Rotation::Distance, Reverse, Apply", S + "api/lane_data.cc")],
     technique=ALG + "identities with their definitions", note="Arithmetic is over the reals: accuracy is not covered.")

prop("P14", "Providers report the rule states and phases that were set or that phases assign",
     "A manual provider accepts a rule state exactly when the rulebook's rule declares it and its successor and the duration is positive and "
     "has a successor, and reports exactly that until changed; unknown ids yield no state. Phase based providers report the state (and "
     "successor) the current phase of the rule's ring assigns. Look-ups by position use exactly the rules of the requested type whose zone "
     "intersects the position within the tolerance. Default providers give every rule its first state and every ring a phase and a successor "
     "of it; FilterRules keeps exactly the rules that all filters accept.",
     ["inputs", "histories"], "all rulebooks, phase rings, states and sequences of settings",
     "Tests use one rule with one or two states; they do not show a check that is skipped for the successor or a phase looked up in the wrong ring.",
     [S + "base/manual_discrete_value_rule_state_provider.cc", S + "base/phased_discrete_rule_state_provider.cc", S + "base/manual_phase_provider.cc"],
     [("manual providers", S + "base/manual_range_value_rule_state_provider.cc"),
      ("phase based providers", S + "base/phase_based_right_of_way_rule_state_provider.cc"), ("FilterRules", S + "base/rule_filter.cc")],
     technique=ENG + "case tables", note="Which of several matching rules is reported is not specified.")

prop("P15", "The rule registry builds only rules of registered types with registered states",
     "RuleRegistry registers a rule type exactly when it is new for both kinds and its states are non-empty and distinct, and builds a "
     "range or discrete value rule exactly when its type is registered for that kind and every given state matches a registered state "
     "(severity and value; severity, minimum, maximum and description); the built rule has exactly the given id, type, zone and states.",
     ["inputs", "histories"], "all registries and all sets of states, of any size",
     "Tests build rules with one or two states; a partial comparison or a state check that stops early is not visible with them.",
     [S + "api/rules/rule_registry.cc"],
     [("HasValue", S + "api/rules/rule_registry.cc"), ("Build*Rule", S + "api/rules/rule_registry.cc")],
     technique=ENG + "throws-iff with nested quantifiers")

prop("P16", "Positional queries consider every lane and report the closest",
     "FindRoadPositions reports exactly the lanes whose distance to the position is within the radius, each once, with the result of "
     "projecting the position on that lane, and rejects negative radii; the exhaustive search visits every lane of every segment of every "
     "junction. ToRoadPosition uses the hinted lane when there is a hint (rejecting a null lane), otherwise the best candidate (of those within "
     "the linear tolerance if any): closer first, and on ties (1e-12) positions within lane bounds, then the smaller lateral offset. The "
     "kd-tree strategy searches a box that covers the radius plus the sampling step and considers every lane found in it.",
     ["inputs", "histories"], "all road geometries, positions, radii and hints",
     "Tests query small networks with well separated lanes; loops that skip a lane, ties and candidates on the boundary do not show there.",
     [S + "geometry_base/brute_force_strategy.cc", S + "geometry_base/kd_tree_strategy.cc", S + "geometry_base/strategy_base.cc",
      S + "geometry_base/filter_positions.cc", S + "geometry_base/brute_force_find_road_positions_strategy.cc"],
     [("search loops", S + "geometry_base/brute_force_strategy.cc"), ("IsNewRoadPositionResultCloser", S + "geometry_base/strategy_base.cc")],
     technique=ENG + "loop completeness and running-best rules",
     note="The kd-tree samples lanes at h = 0 with the given step; what the samples miss is not decided here.")

prop("P17", "The kd-tree keeps every point and its queries skip only what cannot matter",
     "A kd-tree built from a non-empty collection (empty ones are rejected) holds every point; each node is the median of its range along its "
     "recorded dimension and links the two remaining halves; regions are the parent's region cut at the parent's coordinate. nearest_point "
     "takes a node exactly when nothing was found yet or it is nearer, and skips a subtree only when the splitting plane is at least as far "
     "as the best or the best is within the tolerance. RangeSearch reports exactly the points inside the box, each once.",
     ["inputs"], "all point collections, query points and boxes, at every depth of the tree",
     "Tests compare a few queries with a linear search; a wrong pruning bound only shows for particular point arrangements.",
     ["include/maliput/math/kd_tree.h"],
     [("nearest_point", "include/maliput/math/kd_tree.h"), ("RangeSearch", "include/maliput/math/kd_tree.h")],
     technique=ENG + "inductive rules for the recursive functions")

prop("P18", "One translation relates the inertial frame and the backend frame",
     "geometry_base lanes hand positions to their backend minus the road geometry's inertial-to-backend translation and hand the backend's "
     "positions back plus that same translation, in ToInertialPosition, ToLanePosition and ToSegmentPosition; the backend's lane position and "
     "distance are passed on untouched and the matching backend callback is asked. A road geometry accepts exactly positive tolerances and "
     "scale lengths and reports the id, tolerances, scale length and translation it was built with.",
     ["inputs"], "all positions, translations and backends",
     "Tests use a zero or one fixed translation and stub backends; a sign error or the wrong callback can cancel out there.",
     [S + "geometry_base/lane.cc", "include/maliput/geometry_base/road_geometry.h"],
     [("UseInertialToBackendTranslationFor", S + "geometry_base/lane.cc"), ("RoadGeometry()", "include/maliput/geometry_base/road_geometry.h")],
     technique=ENG + "vector normal forms")

prop("P19", "Public interfaces answer what their implementation hooks answer",
     "Every public non-virtual method X of maliput's abstract classes that has an implementation hook DoX (do_x) asks that hook exactly once, "
     "on the same object, with its own arguments in order, returns its answer and changes nothing else. The only preconditions checked first "
     "are the documented ones: a negative radius for FindRoadPositions and a negative tolerance for FindRules are rejected.",
     ["inputs"], "all implementations of the abstract classes and all arguments",
     "Tests exercise a few backends whose hooks are symmetric in their arguments or constant; swapped or replaced arguments do not show there.",
     ["include/maliput/api/lane.h", "include/maliput/api/road_geometry.h", "include/maliput/api/rules/road_rulebook.h", S + "api/lane.cc"],
     [("public methods", "include/maliput/api/lane.h"), ("FindRules", "include/maliput/api/rules/road_rulebook.h")],
     technique=ENG + "forwarding rule over every X/DoX pair")

prop("P20", "Comparisons and orders are decided by every component",
     "IsEqual and Is*Close of maliput::api, api::rules and routing report a difference exactly when some data member (or element) of their "
     "arguments differs (by more than the tolerance): none is left out, equal values are never reported, and nothing absent is read. The "
     "collector reports iff one result had a message. == and != of identifiers, bulb keys and rule states compare every component; std::less "
     "and Range's < are strict lexicographic orders over them; equal keys have equal hashes. Identifiers are never empty. Vectors and matrices "
     "(CompareVectors, CompareMatrices) compare alike iff every pair of components is NaN, or the same infinity, or finite and within the "
     "tolerance: absolute, or relative to the larger magnitude (at least 1). CheckIdIndexing looks up every junction, segment, lane and branch point.",
     ["inputs"], "all pairs of values of every compared type, of any size",
     "Tests compare values that differ in one or two members; a member left out, compared with itself or read although absent is not seen.",
     [S + "api/compare.cc", S + "api/rules/compare.cc", "include/maliput/common/compare.h", "include/maliput/api/rules/traffic_lights.h",
      S + "api/rules/rule.cc", S + "api/rules/range_value_rule.cc", S + "math/compare.cc", S + "routing/compare.cc"],
     [("IsEqual overloads", S + "api/rules/compare.cc"), ("ComparisonResultCollector", "include/maliput/common/compare.h"),
      ("Rule::State::operator==", S + "api/rules/rule.cc")],
     technique=ENG + "member-completeness, unification and value-class rules",
     note="Message texts are not decided; Is*Close of rotations compares Euler angle differences as documented.")

prop("P21", "Intersections and rule tools answer from their own phase and region",
     "An intersection reports the bulb, rule and right-of-way states of the phase its provider reports now for its own ring, and none without "
     "a phase; it includes a traffic light, rule or position exactly when that phase's states, or its own region, do. The book's searches "
     "consider every intersection: FindIntersections returns exactly those with a range meeting a given one, once each. Yield and bulb groups "
     "come from the rule's current state; absent groups, states, providers and other rule types are rejected.",
     ["inputs", "histories"], "all rings, regions, provider states and books",
     "Tests use one-phase rings and books of a single intersection; answers taken from the wrong phase or the first intersection pass them.",
     [S + "api/intersection.cc", S + "base/intersection.cc", S + "base/intersection_book.cc", S + "base/rule_tools.cc"],
     [("Intersection::Includes", S + "api/intersection.cc"), ("FindIntersections", S + "base/intersection_book.cc"),
      ("GetCurrentYieldGroup", S + "base/rule_tools.cc")],
     technique=ENG + "per-path comparison with the current phase's entries; search completeness over loops")

prop("P22", "Phases and routes locate positions and relate lane ranges",
     "Phase and Route constructors reject exactly invalid input (negative index or tolerance, empty or null-lane positions, ranges outside the "
     "network or not adjacent, positions outside the ranges; no phases or network). A located position is the closest over every range of "
     "every phase; a lane's own answer outside its range moves to the nearer end on the centerline. ComputeLaneSRangeRelation gives the "
     "documented relation for every phase and range order, the side following the travel direction, kUnknown for ranges not in the route; "
     "end-to-end validation reports exactly positions without a coincident, connected counterpart in the next phase.",
     ["inputs"], "all phases, routes, positions and lane ranges",
     "Tests use one route of three phases; range order, ties and later phases or ranges are sampled at a few positions.",
     [S + "routing/phase.cc", S + "routing/route.cc", S + "routing/compare.cc", S + "routing/routing_constraints.cc"],
     [("Phase::FindPhasePosition", S + "routing/phase.cc"), ("Route::ComputeLaneSRangeRelation", S + "routing/route.cc"),
      ("Route::ValidateEndToEndConnectivity", S + "routing/route.cc")],
     technique=ENG + "running-best loop rule, decision table over index order, polynomial comparison of the side predicate",
     note="Which of several equally close candidates wins, and the lane choice inside ComputeLaneSRoute, are not decided.")

prop("P23", "The distance router finds every drivable route the constraints allow",
     "BuildGraph makes one edge per segment between the nodes holding the branch points of its lanes' ends. FindAllEdgeSequences follows every "
     "edge of every node not yet visited and keeps exactly the sequences whose consecutive segments touch a branch point from opposing sides. "
     "ComputeRoutes rejects lanes outside the network and invalid constraints, turns each sequence into phases with one range per lane of the "
     "segment, and returns exactly the routes within max_phase_cost (shortest range per phase), max_route_cost (sum) and lane switch permission.",
     ["inputs"], "all road networks, positions and constraints",
     "Tests route on one or two small networks; merging nodes, limits met exactly, and longer sequences are not tried.",
     [S + "base/distance_router.cc", S + "routing/graph/graph.cc", S + "routing/graph/graph_utils.cc"],
     [("DistanceRouter::DoComputeRoutes", S + "base/distance_router.cc"), ("FindAllEdgeSequences", S + "routing/graph/graph_utils.cc"),
      ("BuildGraph", S + "routing/graph/graph.cc")],
     technique=ENG + "one-step rule of the recursive search, filter and fold loop rules, exact throw conditions",
     note="Lane switches over several phases, and which id merged nodes keep, are not decided.")

prop("P24", "Lane sequences and s-routes follow ongoing lanes within the length limit",
     "FindLaneSequences follows every ongoing lane at both ends of a lane, never one already on the way, and gives up exactly when the summed "
     "length of the intermediate lanes exceeds max_length_m; start and end on one lane give that lane alone. With no_u_turns exactly the "
     "sequences leaving a lane at the end they entered it are removed. DeriveLaneSRoutes gives one route per sequence from the start to the end "
     "position, each range entering and leaving where the lane touches its neighbours (DetermineEdgeS), and rejects positions without a lane.",
     ["inputs"], "all lane graphs, positions and limits",
     "Tests try a few sequences on two or three road networks; limits met exactly and sequences with both lane ends connected are not.",
     [S + "routing/find_lane_sequences.cc", S + "routing/derive_lane_s_routes.cc"],
     [("FindLaneSequences", S + "routing/find_lane_sequences.cc"), ("DeriveLaneSRoutes", S + "routing/derive_lane_s_routes.cc")],
     technique=ENG + "one-step rule of the recursive search, recurrence of the connection loop, decision table over lane positions")

prop("P25", "The thread pool loses no task and no wake-up",
     "Every interleaving: the task list is touched only with its mutex held; a thread about to wait cannot miss Start, Queue or Finish; each task "
     "taken is removed once and run once, with no lock held; threads end only when finished with no task left; Finish and the destructor "
     "release threads of a pool never started, wait for every thread outside the lock, and let no task be dropped; cancel_pending drops exactly "
     "the tasks not started. A pool of zero threads, Queue after Finish and a repeated Start are rejected.",
     ["schedules", "inputs"], "all interleavings of pool threads with one controlling thread; all task counts",
     "Tests run a few tasks on one schedule; a lost wake-up or a race needs a particular interleaving.",
     [S + "utility/thread_pool.cc", "include/maliput/utility/thread_pool.h"],
     [("ThreadPool::Start", S + "utility/thread_pool.cc"), ("ThreadPool::Finish", S + "utility/thread_pool.cc"),
      ("ThreadPool::Queue", "include/maliput/utility/thread_pool.h")],
     technique=ENG + "lockset and wake-up (typestate) rules over every path of the public functions and the thread body",
     note="Queue is instantiated for one callable type; Queue concurrent with Finish is outside the documented use.")

prop("P26", "YAML documents become exactly the objects they describe",
     "Loading a traffic light book, rule registry, road rulebook (with a rule registry), phase ring book (both rule kinds) or intersection book "
     "visits every node of the document and builds one object per node, in order, each value converted from the field of its name; absent "
     "optional fields take the documented defaults, and phases start from every rule's default state (Stop, then StopThenGo, then Go), each "
     "phase on its own. A node is rejected when a required field is missing or of the wrong kind, an id is unknown, a severity is negative, a "
     "range is reversed, a zone's lane range leaves its lane, or states mix discrete and range values. Names map one to one to enumerators.",
     ["inputs"], "all YAML documents, rulebooks, traffic light books and road geometries",
     "Tests load a few documents per loader with one field varied; optional fields in combination, several phases or rings, and ids shared "
     "between nodes are not sampled.",
     [S + "base/traffic_light_book_loader.cc", S + "base/rule_registry_loader.cc", S + "base/road_rulebook_loader_using_rule_registry.cc",
      S + "base/phase_ring_book_loader.cc", S + "base/phase_ring_book_loader_old_rules.cc", S + "base/intersection_book_loader.cc",
      S + "base/yaml_conversion.cc", S + "api/rules/traffic_lights.cc"],
     [("BuildFrom", S + "base/*_loader*.cc"), ("convert<T>::decode", S + "base/yaml_conversion.cc")],
     technique=ENG + "per-node construction rules over symbolic document nodes: every field of the built object from its own key, rejection iff malformed",
     note="yaml-cpp is trusted to parse, iterate and convert scalars as documented.")

prop("P27", "Plugins and files are found, loaded and changed as published",
     "The plugin manager loads every .so file below every directory listed in MALIPUT_PLUGIN_PATH, skipping what is no directory, and registers "
     "each plugin under the id its library tells, the newest prevailing; GetPlugin and ListPlugins tell exactly those. A plugin with an empty "
     "path, an unloadable library or a missing symbol is refused, nothing else is; symbols are taken from its own library. CreateRoadNetwork runs "
     "the named plugin's loader with the given properties, and throws for unknown plugins. Directory listings include every file below with "
     "the wanted suffix. Path and Filesystem report kind and existence truly, remove or create only the path they are given and of the kind "
     "they name, create missing directories on the way as mkdir -p does, read files to their end, and report failure.",
     ["inputs", "histories"], "all plugin directories, libraries, ids, paths and environments",
     "Tests load three plugins from one directory; nested or invalid directories, repeated ids, missing symbols and unusual paths are not sampled.",
     [S + "plugin/maliput_plugin_manager.cc", S + "plugin/maliput_plugin.cc", "include/maliput/plugin/maliput_plugin.h", S + "plugin/create_road_network.cc",
      S + "utility/file_utils.cc", S + "common/filesystem.cc"],
     [("MaliputPluginManager::AddPlugin", S + "plugin/maliput_plugin_manager.cc"), ("CreateRoadNetwork", S + "plugin/create_road_network.cc"),
      ("Filesystem::remove_directory", S + "common/filesystem.cc")],
     technique=ENG + "typestate of dlopen/dlsym/dlerror per path, effect rules for files, complete-iteration rules for listings",
     note="The C library and the dynamic loader are trusted to behave as documented.")


prop("P28", "Exported meshes describe the road they were made from",
     "A GeoMesh keeps each distinct vertex or normal once and its faces name existing ones, in the order given; pushing or adding faces never "
     "loses or reorders any. EmitObj writes every vertex, normal and face, in order, with the caller's precision, origin subtracted, numbered "
     "one-based plus the given offsets, under its material, and returns counts the next mesh continues from. The faces covering a lane run "
     "along its whole length without gap or overlap, between its lane or segment bounds, at the asked elevation, counter-clockwise as seen "
     "from above. Building a road geometry's meshes visits every junction, segment, lane and branch point, draws lane bounds, stripes, arrows, "
     "and h-bounds exactly when the features ask, and gives every mesh its own material. GenerateObjFile writes one .obj and one .mtl, whose "
     "every referenced material is defined, and reports files it cannot open.",
     ["inputs"], "all road geometries, builder configurations, features and output files",
     "Tests build a few dragway-like meshes and compare literal text; several meshes in sequence, partial features, other origins and varying "
     "widths are not sampled.",
     ["include/maliput/utility/mesh.h", S + "utility/generate_obj.cc"],
     [("GeoMesh::EmitObj", "include/maliput/utility/mesh.h"), ("BuildRoadGeometryMesh", S + "utility/generate_obj.cc"), ("GenerateObjFile", S + "utility/generate_obj.cc")],
     technique=ENG + "container and numbering rules for meshes, text rules for the OBJ and MTL output, geometry of each face from its lane step, complete-iteration rules over the road",
     note="Numeric accuracy of vertices, the shape of arrows and branch markers, and mesh simplification's geometry are not claimed.")

prop("P29", "Waypoints sample a route evenly, and confluent segments form one group",
     "SampleAheadWaypoints gives the start of the route, then a waypoint every sampling step along its ranges, in the direction of each range and "
     "carrying what is left of one range over to the next, and last the end of the route unless the last waypoint is within linear_tolerance of "
     "it. The step is the wanted rate, at most the length of the route and at least linear_tolerance. Rates that are not positive and unknown "
     "lanes are refused, nothing else is; an empty route has no waypoints. FindConfluentSegments gives every segment reachable through confluent "
     "lanes at either end, each looked at once, the given one included. AnalyzeConfluentSegments puts every segment of every junction into "
     "exactly one group.",
     ["inputs"], "all routes, sampling rates, lane graphs and road geometries",
     "No test samples waypoints at all, and the segments of the tests have no confluent branches.",
     [S + "api/road_geometry.cc", S + "utility/segment_analysis.cc"],
     [("RoadGeometry::SampleAheadWaypoints", S + "api/road_geometry.cc"), ("FindConfluentSegments", S + "utility/segment_analysis.cc"),
      ("AnalyzeConfluentSegments", S + "utility/segment_analysis.cc")],
     technique=ENG + "recurrences of the sampling loops, one-step rule of the search, partition rule for the groups",
     note="Sampling is judged over the real numbers. FindConfluentSegments leaves out a segment without confluent lanes: a known finding, since an existing test expects it.")

prop("P30", "Simplifying a mesh merges only faces of one plane and keeps their outline",
     "In mesh simplification every face ends up in exactly one region, and a region holds the faces reachable from its first one through shared "
     "edges that no other region has and whose vertices all lie, within the tolerance measured along their normals, in the plane of the first "
     "face's first vertex. Shared edges are found as the same edge in the other direction; the same directed edge in two faces is rejected. A "
     "region becomes one face: its outline walked edge by edge from the first rim edge back to it, without the vertices that are within the "
     "tolerance of the line between the two that are kept, each vertex with its own normal. Outlines of three vertices are kept.",
     ["inputs"], "all meshes and tolerances",
     "Tests simplify one small grid; a face left out, a neighbour confused, a vertex dropped although it is too far or a plane taken from "
     "another vertex does not show on faces that are all coplanar squares.",
     [S + "utility/mesh_simplification.cc", "include/maliput/utility/mesh_simplification.h"],
     [("AggregateAdjacentCoplanarMeshFaces", S + "utility/mesh_simplification.cc"), ("ComputeMeshFacesContour", S + "utility/mesh_simplification.cc"),
      ("ApplyDouglasPeuckerSimplification", "include/maliput/utility/mesh_simplification.h")],
     technique=ENG + "edge-map, region-growing, outline and vertex-dropping step rules, distances as polynomials",
     note="Regions are assumed to be simply connected, as documented: holes are not outlined.")

prop("P31", "Original-format road rulebooks become the rules they describe",
     "Loading a road rulebook without a rule registry adds, for every right-of-way node in order, the right-of-way rule, a vehicle-stop rule "
     "(stopping forbidden or unconstrained, as the zone type says; excluded by default) and a right-of-way discrete rule with one strict state "
     "per state, linked to the vehicle-stop rule, to the rules it yields to and to every related bulb group, with ids made of the type and the "
     "original id; and one rule for every direction usage node. Each value comes from the field of its name, a zone without a range covers the "
     "whole lane. A node is rejected when a required field is missing or of the wrong kind, a state or zone type is unknown, a lane is unknown, "
     "a range leaves its lane or a traffic light repeats. The standard rule types have their documented identifiers and distinct states, each "
     "with every severity of the type, and the loaded states are among them.",
     ["inputs"], "all YAML documents and road geometries",
     "Tests load a few documents with one or two rules; links between the generated rules, states in combination and rejected fields of later "
     "nodes are not sampled.",
     [S + "base/road_rulebook_loader.cc", S + "base/rule_registry.cc"],
     [("LoadRoadRulebook", S + "base/road_rulebook_loader.cc"), ("BuildRightOfWayTypeDiscreteValueRule", S + "base/road_rulebook_loader.cc"),
      ("Build*RuleType", S + "base/rule_registry.cc")],
     technique=ENG + "per-step loader rules with the other steps as symbols, unrolled tables of the standard types",
     note="A step that no longer exists under its name is undecided; conversions of single words are P26's.")

prop("P32", "A log message reaches the sink exactly when its level is enabled",
     "A message logged with one of the level functions reaches the logger's sink exactly when that level is not below the logger's, once, as the "
     "level's prefix followed by every argument in order and the end of line. Setting the level answers the former one and unchanged leaves it; "
     "names and levels correspond one to one, an unknown name is rejected, and so is a null sink.",
     ["inputs", "histories"], "all levels, sinks and arguments",
     "Tests log a few messages at one or two levels; an off-by-one between neighbouring levels or an argument left out of long messages is not sampled.",
     ["include/maliput/common/logger.h", S + "common/logger.cc"],
     [("Logger::log", "include/maliput/common/logger.h"), ("Logger::set_level", S + "common/logger.cc"), ("kStringToLevel", "include/maliput/common/logger.h")],
     technique=ENG + "every instantiation of the level functions; tables of levels entry by entry",
     note="Decided for the instantiations the library itself makes.")


prop("P33", "Text and graph dumps list every element once, in order, under its own name",
     "Streaming a position, rotation, quaternion, vector, matrix or lane end writes each of its components in order under its own label. "
     "GenerateString lists every junction, segment and lane (with its details) once, in index order, each exactly when its option is set, indented by the "
     "listed levels above it, without a last end of line. GenerateDotStream writes every edge of the graph once between its own nodes with its "
     "segment's id, red exactly when a phase of the route lies in that segment; it refuses no stream and a phase outside the graph. "
     "GenerateUrdfFile writes the mesh with the arguments it got, and an URDF naming the road geometry and that mesh's file.",
     ["inputs"], "all values, all road geometries, graphs and routes, all combinations of options",
     "Tests compare the dump of one two-lane geometry, one graph and a few values, with a few option sets; order, indentation and omissions elsewhere are not seen.",
     [S + "utility/generate_string.cc", S + "utility/generate_dot.cc", S + "utility/generate_urdf.cc", S + "api/lane_data.cc", S + "math/vector.cc",
      S + "math/matrix.cc", S + "math/quaternion.cc"],
     [("GenerateString", S + "utility/generate_string.cc"), ("GenerateDotStream", S + "utility/generate_dot.cc"), ("GenerateUrdfFile", S + "utility/generate_urdf.cc")],
     technique=ENG + "output-sequence rules (merged constants, streamed terms, iterated parts) against required texts",
     note="Number formatting is the standard library's. VectorBase::FromStr is not decided (a parser over character positions).")
prop("P34", "Interface functions hand their arguments on to the implementation unchanged",
     "Each public function of an interface (Lane, Segment, Junction, BranchPoint, LaneEndSet, RoadGeometry and its IdIndex, the rule, phase, traffic "
     "light and intersection books, state providers, position strategies, bounding regions, Router) calls the virtual function of its name (do_x, DoX, DoGetX) on the same object exactly once, with its own "
     "arguments in order, and returns its answer as it is. It refuses nothing but a negative radius or tolerance.",
     ["inputs"], "all implementations, arguments and answers",
     "The mocks of the tests mostly ignore their arguments and answer constants, so swapped, replaced or dropped arguments do not show.",
     [S + "api/lane.cc", S + "api/road_geometry.cc", I + "api/branch_point.h", I + "api/junction.h", I + "api/segment.h", I + "api/road_geometry.h", I + "api/intersection_book.h", I + "api/rules/road_rulebook.h"],
     [("Lane", S + "api/lane.cc"), ("RoadGeometry", S + "api/road_geometry.cc"), ("BranchPoint", I + "api/branch_point.h")],
     technique=ENG + "delegation rule derived from the class table: every non-public virtual do_X / DoX against its public entry",
     note="What the implementations do is decided by the other properties.")
