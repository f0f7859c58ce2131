ORACLE.update({
 "C01": "statics of the applied loads as invariant",
 "C02": "differential against an independent reference solver",
 "C03": "metamorphic relations on load sets",
 "C04": "metamorphic relation (mirror image)",
 "C05": "metamorphic relation (member subdivision)",
 "C06": "reciprocal-theorem invariants",
 "C07": "stateful edit histories against a rank oracle",
 "C08": "differential against an independent reference solver",
 "C09": "differential against an independent reference solver",
 "C10": "differential against an independent reference solver, determinate beams stress-free",
 "C11": "differential against the exact foundation differential equation",
 "C12": "differential against static unit-load analyses",
 "C13": "differential against independent static analyses; envelope invariants",
 "C14": "brute-force recomputation over every position",
 "C15": "differential against explicit vehicle-plus-lane static analyses",
 "C16": "differential against one-sided reference shears",
 "C17": "algebraic laws and a pointwise reference model",
 "C18": "differential against direct analyses; model-based collection histories",
 "C19": "brute force over all selections",
 "C20": "independent construction of every arrangement",
 "C21": "model-based histories: a used model against fresh models, inputs and kept results against copies",
 "C22": "direct evaluation of the stored member diagrams; file round trip; independent reference solver",
 "C23": "exact dynamic-stiffness spectrum (Wittrick-Williams count); metamorphic relations",
 "C24": "limit analysis (linear programme of the lower-bound theorem), kinematic mechanism test, elastic theory",
 "C25": "elastic theory and statics of every recorded state; exact collapse of determinate beams; kinematic mechanism test",
 "C26": "imposed-curvature (free strain) analogy on an independent reference solver; independent tendon geometry",
 "C27": "differential: every accepted description against one canonical description; superposition",
 "C29": "model of the unit registry; differential against the same figure in the default units",
 "C31": "independent inference of supports, hinges and loads; the drawn artists and the parsed TikZ source read back against it",
 "C30": "differential: what the figure's artists and traces hold against the results, the reference reactions and the vehicle",
 "C28": "registry of rules: a broken input must be refused, its nearest valid neighbour accepted, objects left unchanged",
 "C32": "reference model of axle positions and published load models",
 "C34": "metamorphic relations (monotonicity under stiffening, limiting models)",
 "C33": "metamorphic relation (change of units)",
 "C35": "differential against the reference solver on single members; algebraic invariants of stiffness matrices",
})
REF = "The oracle is harness/refbeam.py, written from mechanics (flexibility by quadrature, release freedoms) and sharing no code with the library."
prop("C01", "Every analysis is in static equilibrium",
 "For every stable beam and load set, the reported support reactions and spring forces balance the applied loads in force and moment, and every member's reported shear and moment diagrams are the exact statics of its loads from its own end values. Moments vanish at releases and free ends, and at every node the end forces of the adjoining members balance the reaction and applied actions there. This holds for every element release, section model, shear flexibility, spring and settlement.",
 ["inputs", "configurations"], "all stable beams of 1..5 members with any supports, releases, springs, settlements, prismatic / variable / shear-flexible members, load types 1-6, any number of evaluation points",
 "The tests assert textbook values for a few dozen fixed beams; a sign slip for one release x load type combination passes them all.",
 ["analysis.py", "load.py", "results.py", "beam.py"],
 [("reactions from the unreduced stiffness system", "analysis.py BeamAnalysis._reactions"), ("member diagrams from end forces plus span-load statics", "results.py MemberResults / load.py get_mbr_results"), ("release corrections of fixed-end forces", "load.py Load.get_ref / released end forces")],
 "Random search; statics is checked at every station from pycba's own output, so it does not depend on a second stiffness solver.")
prop("C02", "Prismatic beams: exact elastic solution",
 "For every stable beam of prismatic members, reactions, spring forces, nodal displacements, shears, moments, rotations and deflections equal those of exact Euler-Bernoulli beam theory for the stated supports, releases, settlements and loads. The number of evaluation points only changes where the diagrams are sampled, not the values: reactions and nodal displacements are identical, and forces at shared stations agree.",
 ["inputs", "configurations"], "all stable prismatic beams of 1..5 members, supports (pin, fixed, free, guided, springs), end releases, settlements, load types 1-5, evaluation point counts",
 "Tests check a handful of closed-form beams at a few sections.",
 ["analysis.py", "beam.py", "load.py", "results.py"],
 [("element stiffness per release", "beam.py Beam.get_mbr_stiffness"), ("consistent nodal loads per load type", "load.py Load*.get_cnl"), ("assembly and boundary conditions", "analysis.py BeamAnalysis.analyze")],
 "Random search. " + REF)
prop("C03", "Superposition and equivalent loads",
 "Results are linear in the loads: scaling, adding, splitting and reordering load rows scales, adds and leaves unchanged every reaction, displacement, shear, moment and deflection. Loads that are statically the same (a full-span uniform load and the equal partial or trapezoidal one, adjacent partial loads, a load at a shared node written on either member) give the same results.",
 ["inputs"], "all stable beams and pairs of load sets; factors of either sign",
 "Tests compare two or three equal-load pairs on one beam.",
 ["load.py", "analysis.py", "results.py"],
 [("load parsing and clipping", "load.py parse_LM"), ("linear assembly", "analysis.py _forces")],
 "Random search; metamorphic, no reference solver involved.")
prop("C04", "Mirror symmetry",
 "Turning a beam end for end (members, supports, springs, releases, settlements, section variation and loads) turns every result end for end: reactions, displacements, moments and deflections keep their values, shears, rotations and applied moments change sign.",
 ["inputs", "configurations"], "all stable beams of the generator with load types 1-6, variable sections and shear flexibility",
 "No test mirrors a model; left/right mistakes in release, trapezoid and moment handling only show on asymmetric input.",
 ["analysis.py", "beam.py", "load.py", "section.py", "results.py"],
 [("left/right release element matrices", "beam.py k_FP/k_PF"), ("left/right fixed-end forces", "load.py Load*.get_cnl")],
 "Random search; metamorphic.")
prop("C05", "Cutting a member changes nothing",
 "Splitting any member at any interior point by an unsupported node, with its loads and section cut accordingly, leaves all reactions, displacements, shears, moments and deflections unchanged.",
 ["inputs", "configurations"], "all stable beams, any cut position, load types 1-6 cut exactly, variable sections",
 "Tests never re-mesh a beam; errors in partial loads and member-end bookkeeping cancel in single-mesh tests.",
 ["analysis.py", "beam.py", "load.py", "section.py", "results.py"],
 [("partial load fixed-end forces", "load.py LoadPUDL/LoadTrap"), ("assembly by node", "analysis.py _assemble")],
 "Random search; metamorphic.")
prop("C06", "Reciprocal theorems and positive strain energy",
 "For any two load sets on the same beam, the work of each on the displacements of the other is equal; the influence line of a reaction is the deflected shape for a unit settlement of that support; and the work of any load set on its own displacements is never negative.",
 ["inputs"], "all stable beams with at least one interior node, pairs of nodal and span load sets",
 "Global symmetry of the solution operator is invisible to value-by-value tests.",
 ["analysis.py", "beam.py"],
 [("symmetric stiffness assembly", "analysis.py"), ("symmetric released element matrices", "beam.py")],
 "Random search over pairs of load sets; invariants of linear elasticity.")
prop("C07", "Mechanisms are refused, stable structures are not",
 "An analysis succeeds on every structure whose supports and releases make it stable and refuses, without reporting results, every structure that is a mechanism. This holds at every point of any sequence of building, analysing, changing supports, releases and loads and analysing again; results after the sequence are those of a freshly built model.",
 ["histories", "configurations"], "edit/analyse histories over beams of 1..5 members with arbitrary supports, springs and releases",
 "Tests hold a few mechanisms by name; the space of support x release x history combinations is not reached.",
 ["analysis.py", "beam.py"],
 [("stability check on the restrained stiffness", "analysis.py BeamAnalysis.analyze / stability test")],
 "Random histories; stability judged by the rank of an independently assembled stiffness with a 1e-6 gap.",
 state=[{"name": "restraints", "meaning": "-1 rigid, 0 free, k spring", "where": S + "beam.py"}])
prop("C08", "Non-prismatic members: exact elastic solution",
 "For members whose flexural stiffness varies along their length (constant, linear, piecewise-linear and parabolic segments, with steps), reactions, nodal displacements, shears and moments equal those of exact Euler-Bernoulli theory with that stiffness variation, for every load type, support, release and settlement.",
 ["inputs", "configurations"], "all stable beams of 1..4 members with at least one variable-stiffness member",
 "Tests use a few symmetric haunches under uniform load.",
 ["section.py", "beam.py", "load.py", "results.py"],
 [("flexibility integration", "section.py / beam.py variable-EI stiffness"), ("fixed-end moments by quadrature", "load.py")],
 "Random search. " + REF)
prop("C09", "Shear-flexible members: exact Timoshenko solution",
 "For members given a shear stiffness (uniform or varying, with uniform or varying flexural stiffness), reactions, nodal displacements, shears, moments and deflections equal those of exact Timoshenko beam theory; members without one stay Euler-Bernoulli.",
 ["inputs", "configurations"], "all stable beams of 1..4 members with at least one shear-flexible member, load types 1-5",
 "Tests cover uniform and point loads on one or two spans.",
 ["beam.py", "load.py", "results.py"],
 [("Timoshenko element stiffness", "beam.py"), ("fixed-end moment transform", "load.py")],
 "Random search. " + REF)
prop("C10", "Imposed curvature: exact restraint, none if determinate",
 "Free curvatures imposed on members (uniform or polynomial) produce exactly the restraint reactions, moments and displacements of linear elastic theory with an initial curvature, and add linearly to other loads. On a statically determinate beam they produce no reactions or internal forces, and the deflected shape is the double integral of the curvature.",
 ["inputs", "configurations"], "all stable beams with polynomial curvature loads of degree 0..2, variable sections, releases, springs",
 "Tests cover uniform curvature on a few beams.",
 ["load.py", "results.py"],
 [("restraint moments from free end rotations", "load.py LoadIC"), ("free curvature added to the diagrams", "results.py")],
 "Random search. " + REF)
prop("C11", "Winkler foundation spans follow the exact solution",
 "A beam with spans on a Winkler foundation has the nodal displacements, reactions, deflections, and (within the documented sub-element accuracy) shears and moments of the exact beam-on-elastic-foundation differential equation, alone or mixed with ordinary spans. Soil pressure plus reactions balances the loads, and far from its ends a long beam approaches the infinite-beam solution.",
 ["inputs", "configurations"], "stable beams of 1..3 spans, any mix of founded and ordinary spans, load types 1-3, relative stiffness lambda*L from 0.5 to 4",
 "Tests check one infinite-beam and one rigid-limit case.",
 ["foundation.py", "analysis.py", "beam.py", "results.py"],
 [("foundation element stiffness and sub-meshing", "foundation.py")],
 "Random search against power-series solution of the differential equation; force tolerance is the soil pressure carried by one documented sub-element.")
prop("C12", "Influence lines are unit-load static responses",
 "Every influence line ordinate (vertical reaction, moment reaction, shear or bending moment, at any point of interest) equals the static response there to a unit load at that position of the same beam, including springs, releases, and sections on nodes. Creating, re-creating, requesting and plotting influence lines in any order, and point of interest anywhere on the beam, gives the same ordinates and leaves the beam's own loads and results untouched.",
 ["inputs", "histories"], "stable beams of 1..4 members, step sizes, points of interest and call orders",
 "Tests check a few ordinates of a two-span beam.",
 ["inf_lines.py", "analysis.py"],
 [("unit load moved along the beam", "inf_lines.py InfluenceLines.create_ils"), ("ordinate extraction", "inf_lines.py InfluenceLines.get_il")],
 "Random search against static analyses with the reference position convention.")
prop("C13", "A moving vehicle is its positions analysed one by one",
 "Running a vehicle over a bridge analyses exactly the documented positions, and at each of them reactions, shears and moments equal an independent static analysis with the axles that are on the deck as point loads plus the beam's permanent loads. The envelope holds the pointwise extremes from zero over those positions with coincident effects and reaction histories from the same positions, for every way of specifying start, end and step, and reversing vehicle and bridge mirrors it.",
 ["inputs", "configurations"], "bridges of 1..4 members x vehicles of 1..5 axles (reversed in place or by copy) x start/end/step",
 "Tests run a few vehicles over two- and three-span bridges.",
 ["bridge.py", "results.py", "vehicle.py"],
 [("axle placement by position", "bridge.py BridgeAnalysis._single_analysis"), ("envelope update", "results.py Envelopes")],
 "Random search; oracle is one BeamAnalysis per position, itself covered by C01-C11.")
prop("C14", "Critical values, coincident effects and envelope ratios",
 "The critical moment, shear and reaction values of a traverse are the extremes over all vehicle positions, occur at the reported station and at every reported vehicle position and no attaining position is left out, and the coincident shear or moment is one that occurs together with it. Ratios of two envelopes are the pointwise ratio wherever the reference is not negligible, and zero elsewhere; an envelope from another traverse or bridge is refused.",
 ["inputs"], "traverses over bridges of 1..3 members with vehicles of 1..4 axles; pairs of traverses",
 "Tests check values of two fixed traverses.",
 ["bridge.py"],
 [("search over positions", "bridge.py BridgeAnalysis.critical_values"), ("ratios", "bridge.py BridgeAnalysis.envelopes_ratios")],
 "Random search; brute-force recomputation over positions, extremes also against independent static analyses.")
prop("C15", "Load model: vehicle plus lane load outside the clear zone",
 "A load model run gives, at every position, the effects of the axles on the deck plus a uniform lane load on all deck outside the clear zone around the vehicle (from the back clearance behind the last axle to the front clearance ahead of the first), and over the whole deck when no clearances are given. Effects are proportional to the lane load, a zero lane load is the vehicle alone, and clearances that are not two finite non-negative numbers are refused.",
 ["inputs"], "bridges of 1..4 members x vehicles x lane loads x clearances x start/end/step",
 "Tests cover a few clearances on one bridge.",
 ["bridge.py"],
 [("lane load segments around the vehicle", "bridge.py BridgeAnalysis.run_load_model")],
 "Random search; oracle is one explicit static analysis per position.")
prop("C16", "Requested shear sections are exact on both sides",
 "For every requested shear section (global points, or a distance from each support face), the critical shears reported just left and just right of it are the extremes over all positions of the exact one-sided shears, whether the section falls on a regular station, under an axle or on a node, and are attributed to the nearest support and side. Requesting sections neither moves nor changes any other station, nor affects later analyses.",
 ["inputs", "histories"], "bridges of 1..4 members x vehicles x section sets; single static positions",
 "Tests check two sections on one bridge.",
 ["bridge.py", "analysis.py", "results.py"],
 [("station pairs around each section", "bridge.py resolve_shear_points / results.py"), ("per-side extremes", "bridge.py critical_values")],
 "Random search against one-sided reference shears; sections within 1e-7 of the length from an end or of each other are not generated; foundation spans excluded.")
prop("C17", "Algebra of envelopes",
 "Combining envelopes gives the pointwise extremes of all their results with coincident effects that belong to those extremes, summing adds them pointwise, and operators, in-place forms and multi-way forms agree in any order; combining is idempotent and a zero envelope is neutral. Operands are never modified, reaction histories survive only when all operands have the same number of analyses, and envelopes with different station or support counts and invalid modes are refused.",
 ["inputs", "histories"], "groups of 1..4 envelopes of 1..3 analyses each over random beams",
 "Tests combine two envelopes of one beam.",
 ["results.py"],
 [("pointwise update with coincident bookkeeping", "results.py Envelopes.augment / sum / combine")],
 "Random search against pointwise numpy reference; any coexisting coincident value is accepted.")
prop("C18", "Load cases and combinations equal the factored direct analysis",
 "Analysing a named load case, or any factored combination of load cases however its factors and loads are written, gives the results of analysing the corresponding factored loads directly on the same beam, with its springs, releases, settlements, sections, shear stiffness and foundation. Global-segment, per-span and patterned loads are exactly the uniform loads they stand for. The collection keeps its own copies in order under unique names, is unaffected by later changes to what was passed in or handed out, and refuses unknown names, wrong factor counts and duplicate names.",
 ["inputs", "histories"], "beams x up to 4 cases of load types 1-6 x factor vectors/mappings; edit histories of the collection",
 "Tests combine two cases on one beam.",
 ["load_cases.py", "load.py", "analysis.py"],
 [("template model rebuild", "load_cases.py build_pycba_model"), ("factoring of load rows", "load.py factor_LM")],
 "Random search; oracle is BeamAnalysis on explicitly factored loads.")
prop("C19", "Additive, sign-selective and target envelopes are optimal",
 "At every station the additive envelope of n cases is the smallest and largest sum over all choices of n different cases, and names cases that attain it; the sign-selective envelope is the extreme over all subsets of cases, with position identifiers of exactly the contributing cases. A target combination selects exactly the cases that act in the requested sense at the target, gives them the selected factor and the rest the other, so that no other selection produces a more extreme effect there. Unsatisfiable requests are refused.",
 ["inputs"], "response matrices up to 7 x 5 with ties and zeros; target coordinates, senses and responses on random beams",
 "Tests use a 3-case matrix and one target.",
 ["load_cases.py"],
 [("sorting by station", "load_cases.py additive_envelope"), ("sign selection", "load_cases.py sign_selective_envelope / target_combination")],
 "Brute force over all selections; a case whose target effect is zero to round-off or changes sign within one station may go either way.")
prop("C20", "Design load patterning covers every arrangement",
 "Load patterning analyses exactly the documented arrangements (each pair of adjacent spans, odd spans, even spans, all spans at maximum and the rest at minimum), with each nominal dead and live load multiplied by its own maximum factor in the spans at maximum and its minimum factor elsewhere. The returned envelope is the envelope of independent analyses of those arrangements, repeatably, and patterning without both dead and live loads is refused.",
 ["inputs", "configurations"], "beams of 1..6 members, any nominal load rows, factor pairs and evaluation points",
 "Tests check one three-span envelope.",
 ["pattern.py", "load_cases.py", "load.py"],
 [("arrangement generation", "pattern.py LoadPattern.to_load_cases"), ("row-wise max/min choice", "load_cases.py _choose_max_by_span")],
 "Random search; arrangements and factored loads are rebuilt independently.")
prop("C21", "Uses of a model have no side effects",
 "However a model has been used before (analysed with other loads, supports, settlements or station counts, queried, exported, plotted, crossed by vehicles or load models, patterned, combined, refused), setting loads and analysing it gives the same results as a freshly built model, and each of those tools gives what it gives on a fresh model. No use changes the arrays, loads or sections the caller passed in, and results obtained earlier keep their values. A request that fails leaves the model as usable as before.",
 ["inputs", "histories"], "stable beams of 1..3 spans (variable EI, shear-flexible, foundation included) x histories of 2..6 uses out of 21 kinds",
 "Tests build a new model for nearly every assertion; leftovers of one use show only in the next.",
 ["analysis.py", "beam.py", "bridge.py", "pattern.py", "load_cases.py", "results.py"],
 [("shear points armed per run", "bridge.py _apply_shear_points"), ("stability cache and structure version", "analysis.py analyze / beam.py"), ("load list ownership", "beam.py loads / add_load")],
 "Random search over histories; the oracle is the same library on a fresh model, so it decides independence of history only.")
prop("C22", "Point queries and exports return the stored results",
 "A point query returns, for any coordinate, the value of the diagrams there: the stored value at a station, the left-hand one at a step, and linear interpolation within the span between stations, for single results, envelopes and every requested attribute. CSV files and data frames hold every station of x and each response in the documented columns to full precision, the deflection curve holds one value per evaluation station, and per-span reductions split the stations exactly by span. Nothing is reported before an analysis, and unknown reductions are refused.",
 ["inputs"], "stable beams of 1..4 spans of every kind x coordinates at, next to and between stations and supports x attributes, delimiters, station counts",
 "Tests query two coordinates and one file.",
 ["results.py", "analysis.py"],
 [("station lookup", "results.py BeamResults.at / Envelopes.at"), ("files", "results.py to_csv / to_dataframe"), ("span chunks", "results.py per_span")],
 "Random search; the interpolated value is also held against the independent reference within the resolution of the stations.")
prop("C23", "Natural frequencies and mode shapes",
 "Modal analysis of a prismatic beam returns the lowest natural frequencies of the structure with its rigid and elastic supports and span masses, in ascending order with periods to match, never below the exact value and above it only by the error of the requested mesh. The mode shapes respect the supports, are orthogonal, reproduce their frequency as a Rayleigh quotient and are normalised to unit largest deflection. They do not depend on loads or earlier analyses, and beams outside the theory (releases, variable EI, shear flexibility, foundation) or with the wrong number of masses are refused.",
 ["inputs", "configurations"], "all stable prismatic beams of 1..4 spans, any supports and springs, scalar or per-span masses, meshes of 6..20 elements, 1..10 modes",
 "Tests check textbook frequencies of five beams.",
 ["modal.py", "analysis.py"],
 [("consistent mass and stiffness assembly", "modal.py solve_modal"), ("mode normalisation", "modal.py ModalResults.mode_shape")],
 "Random search; the number of exact natural frequencies below a bound is counted by the Wittrick-Williams algorithm on exact dynamic stiffnesses.")
prop("C24", "Proportional plastic collapse load",
 "Loading an elastic-plastic continuous beam proportionally to collapse gives the plastic limit load, declares collapse exactly when the plastic hinges form a mechanism, and stops at the requested maximum factor otherwise; strain hardening never lowers it. Until the elastic moment reaches the yield moment the response is the elastic one, and every recorded and final moment diagram is in equilibrium with its load factor and within the plastic moment. Yield and hinge events are recorded once, in order, at mesh sections that have reached those moments, and members or loads outside the theory are refused.",
 ["inputs", "configurations"], "continuous beams of 1..4 spans, any end supports and overhangs, EI, Mp and My per span, springs (elastic range), UDLs and point loads of both signs, hardening ratios, meshes",
 "Tests compare a handful of two- and three-span beams that need exactly two hinges; determinate, over-redundant, unequal or mirrored beams were never run.",
 ["nonlinear.py"],
 [("mechanism test", "nonlinear.py _is_mechanism"), ("stiffness degradation", "nonlinear.py _update_R"), ("nodal loads and moments", "nonlinear.py _build_force_vector / _extract_moments")],
 "Random search against a linear programme (scipy HiGHS) on the same mesh. Histories in which neighbouring mesh sections become plastic together are only judged up to that point: a listed known finding.")
prop("C25", "Moving-load plastic analysis",
 "A vehicle or axle crossing an elastic-plastic beam is recorded at every requested position with moments in equilibrium with the axles then on the beam, equal to the elastic moments until some section first reaches its yield moment, at the position where elastic theory says so. A statically determinate beam collapses exactly at the position where the exact moment first reaches the plastic moment and otherwise survives; collapse is never declared unless the hinges form a mechanism, and a survived crossing ends with the last axle leaving. A single load equals a one-axle vehicle, repeated runs agree, and events are ordered and unique.",
 ["inputs", "histories"], "continuous and determinate beams x 1..3 axles x steps, sub-increments and recording intervals",
 "Tests check one two-span beam and one vehicle.",
 ["nonlinear.py", "vehicle.py"],
 [("unload-reload stepping", "nonlinear.py analyze_moving"), ("vehicle force vector", "nonlinear.py _vehicle_force_vector")],
 "Random search against elastic theory, statics and kinematics. How far beyond the static plastic limit a redundant beam is loaded before collapse is reported is outside the property: a listed known finding.")
prop("C26", "Tendon equivalent loads reproduce the prestress",
 "For every tendon profile (parabolic, compound, harped, double-harped, face to face or on cantilevers) and force, analysing a beam under its equivalent loads gives exactly -F e(x) on statically determinate beams, and on indeterminate ones -F e(x) plus the secondary moment, deflections and spring forces that the free curvature -F e/EI causes. A rigid support also carries the tendon's own kink there; anchorages act where the stressed length begins and ends, unstressed spans get no tendon load, and the curve drawn is the tendon's eccentricity. Impossible geometry and wrong counts of profiles or forces are refused.",
 ["inputs", "configurations"], "determinate and continuous beams of 1..4 spans with hinges, springs, variable EI x random profiles and forces per span, unstressed spans, discontinuous tendons",
 "Tests check each profile on one determinate 8 m span and one symmetric two-span beam.",
 ["prestress.py"],
 [("profile segments", "prestress.py Parabola / CompoundParabola / Harp / DoubleHarp .segments"), ("kinks, tips and anchorages", "prestress.py equivalent_loads"), ("drape", "prestress.py plot_tendon")],
 REF)
prop("C27", "Equivalent descriptions of a model give the same results",
 "Every accepted way to describe the same beam gives the same analysis: restraint vectors or support names (any case or alias), scalars, lists, tuples, arrays or numpy numbers, member types as codes, names or enumeration, a beam string, one call or member by member, defaults left out or written out. Loads given as rows, through the named load methods in any order, as keyword arguments, or as physically equal rows (a split or superposed UDL, trapezoid or point load, a trapezoid of equal ends) give the same results. The same holds of vehicles, trains, crossings and load cases built in different ways.",
 ["inputs", "configurations", "histories"], "all stable beams with random members, supports and loads x every accepted form of each argument",
 "Tests use one form per argument, mostly lists of floats.",
 ["beam.py", "analysis.py", "load.py", "utils.py", "bridge.py", "load_cases.py"],
 [("support names, member types, per-span arguments", "analysis.py BeamAnalysis.__init__; utils.py; beam.py per_span, MemberType"), ("beam strings", "utils.py parse_beam_string"), ("load rows and methods", "load.py parse_LM; beam.py / analysis.py add_*"), ("member by member", "beam.py add_span")],
 "Random search; differential against one canonical description of the same model, itself held to the reference solver by C03, C08-C11.")
prop("C28", "Invalid input is refused, its valid neighbour accepted",
 "Input that breaks a documented rule (counts of spans, restraints, supports, member types, displacements, rigidities, axles, tendons or factors; unknown names, codes, load types or members; incomplete or overlapping sections; partial loads outside their member; mechanisms; unsupported combinations; missing vehicles or beams; mismatched envelopes; duplicate or unknown cases and responses) raises the documented kind of error with an explanation. It never returns a result, and the objects involved stay as they were. The nearest valid input is accepted.",
 ["inputs", "configurations"], "41 rules across all modules, each broken in random ways on random beams, with the nearest valid input",
 "Tests cover a few of the refusals with one example each and never the boundary between refused and accepted.",
 ["analysis.py", "beam.py", "load.py", "section.py", "bridge.py", "results.py", "load_cases.py", "vehicle.py", "prestress.py", "nonlinear.py"],
 [("model validation", "analysis.py BeamAnalysis.__init__; utils.py; section.py SectionEI"), ("load validation", "load.py; beam.py add_load"), ("analysis validation", "analysis.py analyze / modal; nonlinear.py; foundation.py"), ("collections", "load_cases.py; results.py Envelopes; bridge.py")],
 "Random search over a registry of rules; a refusal the documentation does not state is outside it.")
prop("C29", "Units and backends change only how results are shown",
"The chosen unit system (named, custom or none; per call or as the default) and plotting backend never change a result, only what a figure shows: every label, axis title, value annotation and hover text carries the chosen force, length, moment and deflection units, and deflections are multiplied by the system's scale factor while every other curve stays the same. A per-call choice leaves the default as it was. The default persists until it is set again, aliases name the same system, and an unknown name is refused leaving the default alone.",
["inputs", "configurations", "histories"], "random histories of setting units and backends; every plotting call of the library on random scenes, in every preset and in custom systems, both backends",
"Tests check a few labels of fixed figures in one or two unit systems.",
["units.py", "plotting.py", "analysis.py", "results.py", "bridge.py", "render.py", "vehicle.py", "modal.py", "nonlinear.py", "inf_lines.py", "prestress.py"],
[("unit registry", "units.py set_units / get_units / resolve; UnitSystem formatting"), ("backend registry", "plotting.py set_backend / resolve_backend"), ("labels and scaling", "every plot method")],
"Random search; figures are read from their artists and traces, not from pixels.")
prop("C30", "Plots show the results they claim to show",
"Every result plot draws its result: the bending-moment (sagging downward), shear and deflection diagrams over all spans, envelopes and coincident effects under their names, reaction histories with their extremes marked (the extremes alone for an envelope of envelopes), reaction arrows with the sense and value of each reaction, influence lines, mode shapes with their frequencies, load patterns and load-case responses, section rigidities and the nonlinear moment, hinge, state and collapse plots. A stationary vehicle and every frame of an animation show the axles at their positions with the effects of exactly that position, and the running envelopes so far. Given axes are drawn into, and an overlay adds just its curve.",
["inputs", "configurations"], "all plotting calls of the library on random beams, vehicles, positions, envelopes, modes, load cases, sections and collapse analyses; both backends",
"Tests check that figures are produced and count their axes; the data drawn is compared for a few curves only.",
["analysis.py", "results.py", "bridge.py", "plotting.py", "inf_lines.py", "modal.py", "nonlinear.py", "vehicle.py", "load_cases.py", "section.py", "render.py"],
[("diagrams", "analysis.py plot_results / _plot_diagram / plot_reactions; plotting.py"), ("moving loads", "bridge.py plot_static / plot_envelopes / plot_ratios / animate; results.py plot / plot_coincidents"), ("others", "inf_lines.py plot_il; modal.py; nonlinear.py; vehicle.py plot; load_cases.py plot_*; section.py plot")],
"Random search; figures are read from their artists and traces, not from pixels; colours and layout are free.")
prop("C31", "Schematics show the model and the chosen loads",
"A schematic, drawn or as TikZ, shows the whole model and nothing else: every support by its kind (encastre, pin, roller, vertical and rotational spring, guided) at its node with its letter, every internal hinge, foundation springs, the depth of a variable section, and every load of the chosen source (the beam's own, none, a load matrix, a load case or a factored combination) at its place, on its member, in its direction and with its value, plus the dimensions asked for. Each switch removes just its annotations. The TikZ source is balanced, refers only to nodes it defines and is what a saved .tex file holds; the file type selects the backend; drawing never changes the model.",
["inputs", "configurations"], "random models of up to 29 spans with every support kind, releases, foundations, sections, all load types, load sources, options, unit systems and entry points",
"Tests look for a few commands or count artists of fixed figures; no test compares a whole schematic with its model.",
["render.py", "beam.py", "analysis.py", "units.py"],
[("inference of supports, hinges and loads", "render.py BeamPlotter._infer_*; _resolve_lm"), ("drawing", "render.py render_mpl and glyphs"), ("TikZ", "render.py render_tikz / save_tikz"), ("front doors", "beam.py plot / to_tikz / save_tikz; analysis.py plot_beam")],
"Random search; symbols are recognised by shape and place; stanli's rendering of the commands is taken from its manual (no LaTeX here).")
prop("C32", "Vehicle and train geometry, library vehicles",
 "A vehicle's length, total weight and axle positions follow from its spacings and weights; reversing it (in place or as a copy, any number of times) mirrors the axles and leaves the original and the caller's data alone. A train joins any vehicles, reversed or not, in order at the given gaps with every axle and its weight present exactly once, and every library vehicle has the axle weights and spacings of its published definition for all its options.",
 ["inputs", "histories"], "random vehicles of 1..8 axles, trains of up to 5 vehicles, every library vehicle and option",
 "Tests check totals for a few library vehicles.",
 ["vehicle.py"],
 [("axle coordinates", "vehicle.py Vehicle"), ("train assembly", "vehicle.py make_train"), ("library", "vehicle.py VehicleLibrary")],
 "Random search; library expectations transcribed from the documentation and the published standards it cites.")
prop("C33", "Results are consistent in any system of units",
 "Expressing the same structure, loads, springs and settlements in any consistent set of length and force units gives the same results converted to those units. That holds for static results, moving-load envelopes with their critical positions, influence lines, natural frequencies, tendon loads, and the plastic collapse factor and crossing.",
 ["inputs", "configurations"], "all stable beams, vehicles, lane loads, tendons and plastic models x length and force unit factors",
 "All tests use one unit system; an absolute tolerance or hidden constant shows only in another.",
 ["analysis.py", "load.py", "beam.py", "results.py", "bridge.py", "inf_lines.py", "modal.py", "prestress.py", "nonlinear.py"],
 [("dimensionally homogeneous formulas", "all of the analysis path"), ("mechanism test", "nonlinear.py _is_mechanism"), ("critical positions", "bridge.py critical_values"), ("tendon loads", "prestress.py equivalent_loads")],
 "Random search; metamorphic.")
prop("C34", "Stiffening never softens, and models tend to their limits",
 "Stiffening a beam (more flexural, shear, spring or foundation stiffness, a restraint or spring added, a release removed) never increases the work of any nodal loads on their own displacements and never lowers a natural frequency; added mass never raises one. As a spring grows without bound the results become those of the rigid support, and as it vanishes those without it; a vanishing foundation, shear flexibility or taper gives the ordinary member. Short distributed loads about a point tend to the point load there, and (without shear flexibility) close opposite point loads to a couple.",
 ["inputs", "configurations"], "stable beams of all member kinds x every stiffening change, limiting parameter and limiting load",
 "Tests compare isolated values; no test relates two structures by order or by a limit.",
 ["analysis.py", "beam.py", "load.py", "modal.py", "foundation.py"],
 [("element stiffnesses", "beam.py get_span_k"), ("springs and elimination", "analysis.py _assemble/_apply_bc"), ("stability check", "analysis.py _check_stability"), ("modal mesh", "modal.py")],
 "Random search; the relations need no reference values (tolerances and conditioning use the independent model).")

prop("C35", "Member stiffness and load elements are exact on their own",
"The stiffness of any member (prismatic, variable, shear-flexible, on a foundation, with any releases) is symmetric, never negative, free of moment at releases, indifferent to rigid-body movement without a foundation, in equilibrium, and gives the exact end forces for imposed end movements by every function that forms it. Every load element gives the exact fixed-end and released end forces of its load and, along a simply supported span of unit rigidity, its exact shear, moment, rotation and deflection. Member results add; adding and factoring load matrices adds and scales the loads, keeps everything else and leaves the inputs alone.",
["inputs", "configurations"], "members of every kind, section, release and proportion; load elements of types 1-6 (overhanging ones too) and end moments at any stations; load matrices of every row form and any factor",
"Tests evaluate a few matrices and fixed-end forces by number; the rotations and deflections of load elements are not used by the analysis of prismatic beams at all, so no result shows an error in them.",
["beam.py", "load.py", "types.py", "foundation.py", "section.py"],
[("stiffness", "beam.py get_span_k / k_FF / k_FP / k_PF / k_PP / k_nonprismatic / k_FF_timo / k_timoshenko; foundation.py FoundationElement"), ("loads", "load.py Load* get_cnl / get_ref / get_mbr_results; beam.py get_ref"), ("load matrices", "load.py parse_LM / add_LM / factor_LM; types.py MemberResults")],
"Random search; every member kind and load type is generated in each run. "+REF)

FIXED = {
 "fix: pinned-pinned member keeps its simply-supported end shears": ("C01", "reactions of a member released at both ends did not balance an asymmetric load"),
 "fix: ignore the overhang of a partial UDL in member results too": ("C03", "a partial UDL overhanging its member gave diagrams that disagree with its reactions"),
 "fix: integrate variable-EI/GAv fixed-end moments across load and EI steps exactly": ("C08", "fixed-end moments of variable-stiffness members wrong at EI steps, moment loads and load ends"),
 "fix: Timoshenko fixed-end moments of a concentrated moment include shear flexibility": ("C09", "concentrated moment on a shear-flexible member"),
 "fix: point queries use the evaluation stations, not the padded diagram closure": ("C12", "values queried at x = 0 or at member boundaries were the zero padding of the diagrams"),
 "fix: influence lines survive re-creation, spring supports and step round-off": ("C12", "influence lines re-created, with float restraints, or ending one ulp off the beam"),
 "fix: modal analysis rejects Winkler-foundation spans instead of ignoring them": ("C23", "modal analysis silently dropped the foundation stiffness"),
 "fix: load-case models keep the template's foundation and accept incremental beams": ("C18", "load-case models dropped the foundation and failed on incrementally built beams"),
 "fix: a reaction history dropped by a merge of envelopes stays dropped": ("C17", "reaction history resurrected by a chain of merges"),
 "fix: make_train accepts one common spacing and keeps zero axle spacings": ("C32", "trains with a single spacing failed; coincident axles were lost"),
 "fix: a vehicle reversed in place stays reversed in trains and copies": ("C32", "trains and copies of an in-place reversed vehicle used the original direction"),
 "fix: critical shear at a member boundary reads the stations at the boundary": ("C16", "critical shears at a section on a node read another station"),
 "fix: critical shear at a section on a regular station reads the pair around it": ("C16", "critical shears at a section on a regular station read the same side twice"),
 "fix: ABAG semi-trailer tri-axle shares its 22.5 t over three axles": ("C32", "each axle of the tri-axle group carried the whole group weight"),
 "fix: collapse is declared when, and only when, the hinges form a mechanism": ("C24", "any two hinge clusters were called a mechanism and a single hinge never, so determinate beams survived 3-13 times their collapse load and redundant ones collapsed early"),
 "fix: nonlinear moment at the left end has the sign of the others": ("C24", "moment at x = 0 reported with the opposite sign"),
 "fix: a support between spans of different capacity yields in the weaker span": ("C24", "an interior support always had the left span's capacity"),
 "fix: nonlinear analysis includes elastic supports": ("C24", "spring supports were silently ignored"),
 "fix: nonlinear analysis refuses load types it does not model": ("C24", "loads of types 3-6 were silently dropped"),
 "fix: the first mesh element of a span takes that span's own EI": ("C24", "the first element of every span used the EI of the span before"),
 "fix: a section within round-off of Mp is plastic, not numerically singular": ("C24", "final moments of 1e15 and spurious hinges when a section approached Mp from below"),
 "fix: moving-load collapse counts hinges formed at the first position and within a step": ("C25", "collapse at the first position, or through a hinge formed within a step, went unnoticed"),
 "fix: compound parabola joins smoothly at the right contraflexure": ("C26", "a compound parabola had a slope break (and a spurious point load) at its right contraflexure, even when symmetric"),
 "fix: only the end spans of a beam can be tendon cantilevers": ("C26", "a span ending at an unsupported interior node was taken for a cantilever and its low point ignored"),
 "fix: anchorages sit at the ends of the stressed length, not of the beam": ("C26", "anchorage moments of a partly stressed beam, or of a change of force or eccentricity inside it, were misplaced or missing; kinks over elastic or missing supports were dropped"),
 "fix: a moving-load run that fails to start leaves no shear points armed": ("C21", "run_vehicle(step=0, shear_points=...) raised and left its shear points on the model, so later analyses had extra stations"),
 "fix: point queries interpolate within the span, not across a support": ("C22", "between a support and the first station of the next span, at() blended the shears of both sides of the support"),
 "fix: a beam keeps its own load list instead of extending the caller's": ("C21", "add_udl and the like appended to the load matrix the caller had passed in"),
 "fix: Beam without member types is fixed-fixed, not empty": ("C27", "Beam(L, EI, R) without member types had no members at all"),
 "fix: a single numpy number is one value for all spans": ("C27", "a numpy integer or float32 scalar for EI, GAv, kf, mass or Mp raised errors instead of applying to all spans"),
 "fix: refuse a member-type list that does not match the spans": ("C28", "a short member-type list silently truncated the beam"),
 "fix: refuse unknown load types and loads on members that do not exist": ("C28", "load rows of an unknown type or on a member that does not exist were silently dropped"),
 "fix: dimensions on schematics carry the chosen length unit, not always m": ("C29", "the dimension lines of a schematic said m in every unit system"),
 "fix: plot the reaction extremes, not a zero history, for merged envelopes": ("C30", "an envelope of envelopes whose length equals the last traverse was plotted with an all-zero reaction history"),
 "fix: draw a rotational spring support as a spiral, not a vertical spring": ("C31", "a purely rotational spring was drawn as a vertical spring on the ground"),
 "fix: TikZ schematics show hinges located at an internal support": ("C31", "an internal hinge at an intermediate support was missing from the TikZ schematic"),
 "fix: label the nodes beyond Z with letters instead of punctuation": ("C31", "nodes after the 26th were labelled [, backslash, ^ and so on, which breaks the LaTeX source"),
 "fix: schematics label a load that changes sign with its signs": ("C31", "a trapezoidal load from 5 to -5 was labelled as from 5 to 5"),
 "fix: draw a partial UDL that overhangs its member only on the member": ("C31", "a partial UDL overhanging its member was drawn over the next member or past the beam"),
 "fix: TikZ schematics draw upward distributed loads upward": ("C31", "upward distributed loads were drawn downward in TikZ, labelled with their absolute value"),
 "fix: TikZ schematics show rotational springs at pins and rollers": ("C31", "rotational springs at pins and rollers were missing from the TikZ schematic"),
 "fix: judge stability on the equilibrated stiffness matrix": ("C07", "stable structures were refused as mechanisms when a spring was very stiff, or in millimetres with many flexible members"),
    "fix: envelopes of a beam without fixed supports can be plotted": (
        "C30",
        "plot_envelopes (and run_vehicle/run_load_model with plot_env) raised IndexError, and plot_ratios refused, "
        "for a beam carried only by springs, which has no fixed restraints and so no reaction histories",
    ),
 "fix: a segment load ending just short of a support keeps its length": ("C18", "a segment UDL ending within 1e-5 of a span end was lengthened to the whole span, or past its end"),
 "fix: a partial load ending just short of a foundation mesh point keeps its length": ("C27", "a partial UDL ending within 1e-5 of a foundation mesh point was lengthened to it, so two adjacent ones were not the one they make"),
 "fix: the plastic mechanism test does not depend on the units": ("C33", "the rank test of the hinge mechanism had an absolute tolerance: with N and mm a collapse was found at 3.76 times the load instead of 1.73 times, or not at all"),
 "fix: critical vehicle positions do not depend on the units": ("C33", "the search for the critical positions had an absolute tolerance of 1e-8: in MN and km positions well below the extreme were reported too"),
 "fix: the distributed load of a shallow tendon is kept in small length units": ("C33", "the curvature of a tendon was dropped below 1e-9 per length unit: a drape of a millimetre in a span of 20 m had no load when lengths were given in mm"),
}
FINDINGS = [
 {"id": "KF1", "property": "C24", "sub": "collapse",
  "case": {"EI": [67035.0, 33517.5], "L": [2.0, 1.5], "LM": [[1, 1, 5.0]], "Mp": 432.0, "My": None, "R": [-1, 0, -1, 0, -1, 0], "mesh": 0.25, "q": 0, "record": 0, "stop": None, "target": 3.0, "strict": True},
  "what": "UDL on span 1 of spans 2.0+1.5 (EI 67035/33517.5): two neighbouring mesh sections of the flat moment peak are plastic together, the stiffness is singular, collapse is reported at 3.748 times instead of 3.0 and the final moments are not in equilibrium"},
 {"id": "KF2", "property": "C24", "sub": "collapse",
  "case": {"L": [6.0, 12.0], "EI": 67035.0, "R": [-1, 0, -1, -1, -1, -1], "Mp": 200.0, "My": None, "mesh": 0.5, "LM": [[2, 1, 25.0]], "target": 5.0, "record": 0, "q": 0, "stop": None, "strict": True},
  "what": "interior support clamped against rotation (spans 6+12, UDL on span 2): the end of the span to its right never yields, collapse is reported 9% above the limit load"},
 {"id": "KF3", "property": "C25", "sub": "plastic",
  "case": {"EI": 67035.0, "L": [3.0], "R": [-1, -1, -1, -1], "Mp": 400.0, "My": None, "mesh": 0.5, "w": [100.0], "s": [], "step": 0.5, "n_sub": 5, "record": 1, "P": True, "over": 2.5, "strict": True},
  "what": "an axle of 1.83 times the static plastic limit crosses a fixed-fixed span of 3.0 without collapse: hinges of neighbouring mesh sections are merged into one"},
]
