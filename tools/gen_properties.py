"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
Q="pyqlaw/_qlaw.py"; E="pyqlaw/_elements.py"; S="pyqlaw/_symbolic.py"; L="pyqlaw/_lyapunov.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    assert len(title)<=80,(id,len(title)); P.append(d)

p("C01","Keplerian and Cartesian conversions describe the same orbit",
 "For every non-degenerate conic and every gravitational parameter, converting Keplerian elements to a Cartesian state gives the position and velocity of that orbit, and the element extractors (semi-major axis, eccentricity vector, inclination, RAAN, argument of periapsis, true anomaly, period) and the state-to-elements conversion return finite values that convert back to the same state. This includes apse lines on the line of nodes, equatorial and near-equatorial orbits, retrograde orbits and hyperbolas (period reported as -1). A sampled orbit curve consists of points of that same orbit.",
 ["inputs"],"all elements with e>0 (bounded away from 0 and 1), any inclination, any angles including exact multiples of pi/2, any mu>0",
 "Three hand-picked prograde orbits with one mu; no apse-on-node, equatorial, retrograde or hyperbolic orbit is ever converted back.",
 [E,"pyqlaw/_transformations.py"],[("kep2sv",E),("sv2kep and get_*",E),("get_orbit_coordinates",E)],["return values of the public conversion functions"])
p("C02","Equinoctial conversions preserve the orbit",
 "Converting between Keplerian elements, modified equinoctial elements, and equinoctial elements with semi-major axis, in any direction or chain, never changes the position and velocity the elements stand for. This holds for circular and equatorial orbits and everything up to (not including) inclination pi, and the elements themselves are the documented functions of the Keplerian ones.",
 ["inputs"],"all elliptic orbits with 0<=e<1, 0<=i<pi, any angles, any mu>0; chains of conversions",
 "Tests convert one inclined eccentric orbit; equatorial orbits, which the equinoctial set exists for, are never checked against a Cartesian state.",
 [E],[("kep2mee / mee2kep / mee2mee_with_a / kep2mee_with_a / mee_with_a2kep / mee_with_a2sv",E)],["return values of the public conversion functions"])
p("C03","Angle steps advance the eccentric anomaly by exactly the requested angle",
 "The true-to-eccentric anomaly conversions (from true anomaly and from equinoctial elements) satisfy the conic relations for every elliptic orbit. When angle stepping (Sundman) is on, each step lasts exactly the time in which the osculating Keplerian orbit advances its eccentric anomaly by the requested angle, forward or backward, for both element sets and any gravitational parameter.",
 ["inputs","configurations"],"e in [0,0.95], any anomaly over many revolutions, any nonzero step angle of either sign, both element sets, any mu",
 "Tests only check that two code paths agree at one point and that sundman transfers converge.",
 [Q,E],[("ta2ea / mee2ea",E),("Sundman step selection",Q+" QLaw.solve")],["QLaw.times","return values of ta2ea, mee2ea"])
p("C04","The equations of motion are Newton's equations in orbital elements",
 "For every admissible state, gravitational parameter, control acceleration and perturbing acceleration given in the radial-transverse-normal frame, the element rates used for propagation (Keplerian, equinoctial, equinoctial with semi-major axis) are exactly the time derivative of the elements of a particle under two-body gravity plus the sum of those accelerations. This holds in every quadrant of the angles, including equinoctial states with zero or negative components.",
 ["inputs"],"all non-singular states of each element set, any mu, any thrust and perturbation vectors",
 "Tests evaluate two states and compare with a stored value through an assertion that is always true; no state has negative f or g.",
 ["pyqlaw/_eom.py",S],[("eom_kep_gauss / eom_mee_gauss / eom_mee_with_a_gauss","pyqlaw/_eom.py"),("Gauss matrix columns psi",S)],["return values of the equations of motion with the control law's matrix"])
p("C05","Single integrator steps have the order and coefficients they claim",
 "A fixed Runge-Kutta 4 step and a Runge-Kutta-Fehlberg 4(5) step advance any smooth system y'=f(t,y,p) as the classical and the Fehlberg fourth-order formulas do, passing time and parameters through, for any step size of either sign. The Fehlberg step also returns the next step size implied by the difference to its embedded fifth-order solution and the tolerance, and neither fails when that difference is zero.",
 ["inputs"],"any right-hand side (polynomial, linear, nonlinear, time dependent), initial state, positive or negative step, tolerance",
 "The test compares the two integrators at one point with one small step and a loose tolerance.",
 ["pyqlaw/_integrate.py"],[("rk4 / rkf45","pyqlaw/_integrate.py")],["return values"])
p("C06","The control Lyapunov function is the documented Q and its exact gradient",
 "For both element sets and all hyper-parameters, the quotient Q returned by the control law equals the documented formula (periapsis penalty, semi-major-axis scaling, weighted squared errors over maximal element rates), is non-negative, ignores elements of zero weight, and is zero at the target. The gradient returned with it is finite and is the exact derivative of Q with respect to the five targeted elements wherever Q is smooth, including when the semi-major axis already equals the target and at small eccentricity.",
 ["inputs","configurations"],"all non-singular states and targets, weights, hyper-parameters, mu, accelerations of either sign",
 "No test looks at the value of Q or at its gradient.",
 [S],[("symbolic_qlaw_keplerian / symbolic_qlaw_mee_with_a",S)],["fun_lyapunov_control outputs","lyapunov_control_angles outputs"])
p("C07","Commanded thrust is the direction of steepest descent of Q",
 "The thrust angles and unit vector computed by the feedback law are finite and point exactly along the direction, among all directions in the radial-transverse-normal frame, that makes Q decrease fastest, and the reported rate is the magnitude of that fastest decrease times the sign of the acceleration. The stand-alone evaluators for the rate, the Gauss matrix and the gradient agree with the control law, with or without common-subexpression elimination, and converting any non-zero vector to thrust angles loses nothing but its length, purely normal vectors included.",
 ["inputs","configurations"],"all non-singular states, targets, weights, hyper-parameters; every non-zero vector",
 "Tests call the angle conversion once without asserting anything and never compare the direction with any alternative.",
 [L,S],[("lyapunov_control_angles / _u_to_thrust_angles",L),("lambdified evaluators",S)],["alpha, beta, u, dqdt"])
p("C08","Coasting follows the efficiency thresholds exactly",
 "Whenever thrusting is otherwise allowed and a positive threshold is given, the recorded absolute and relative efficiencies are the current descent rate relative to the best, respectively the range, over the anomaly grid of the osculating orbit, and the thruster is off exactly when one of them is below its threshold, in forward and backward propagation. Thresholds given as functions are evaluated at every such step with the current time, elements, mass and battery level, and the values used are recorded; with both thresholds non-positive the spacecraft never coasts because of them.",
 ["inputs","histories"],"both element sets, any constant or callable thresholds, grid sizes, forward and backward problems, any histories",
 "Tests run transfers with thresholds and look at convergence only.",
 [Q],[("evaluate_osculating_qdot and threshold logic",Q+" QLaw.solve")],["QLaw.etas, etas_bounds, controls"])
p("C09","History records are aligned and time advances as configured",
 "After every solve the time, state, mass and battery records have one entry more than the control, efficiency, Q and rate records, start at the problem's initial values at time zero, and time advances strictly in the direction of the step by exactly the configured step (unless shortened to the moment the battery empties). Propagation never starts a step at or after the allotted time and, when no other stopping condition is met, continues until the allotted time is reached, whichever integrator is selected.",
 ["inputs","configurations"],"all configurations: both element sets, both integrators, forward and backward, angle stepping, duty cycles, batteries",
 "Tests never inspect the time grid or the record lengths.",
 [Q],[("main loop and storage",Q+" QLaw.solve")],["QLaw.times, states, masses, controls, etas, etas_bounds, Qs, dQdts, battery"])
p("C10","Each recorded transition is one integrator step under the recorded control",
 "Consecutive recorded states differ by exactly one step of the selected integrator on the Gauss equations, with the thrust acceleration max-thrust over current mass, times the sign of the step, along the recorded angles when the recorded throttle is on, no thrust when it is off, plus the perturbing acceleration supplied for that time and state. Whenever the thruster is available the recorded angles are those of the feedback law at that state, and a coasting unperturbed arc keeps all five slow elements constant and only advances the anomaly along the Keplerian orbit.",
 ["inputs","histories"],"all problems, both element sets, both integrators, with and without perturbation models",
 "Tests only check convergence flags; a wrong control or mass used in a step is invisible as long as the target is reached.",
 [Q,"pyqlaw/_eom.py","pyqlaw/_integrate.py"],[("thrust vector and ODE step",Q+" QLaw.solve")],["QLaw.states, controls, masses"])
p("C11","Mass is spent exactly while thrusting and depletion stops the transfer",
 "The recorded mass changes by the mass-flow rate times the step duration in every step with the throttle on and is unchanged in every other step. A solve stops at the first recorded step whose mass is at or below the configured minimum, reporting exit code -1 and no convergence unless the target tolerance was met at that same step, and never continues past it.",
 ["inputs","histories"],"all mass, flow rate, minimum-mass and coasting configurations, all steps",
 "One test depletes a spacecraft in a single step.",
 [Q],[("mass update and mass threshold",Q+" QLaw.solve")],["QLaw.masses, controls, exitcode"])
p("C12","Exit code and convergence flag tell the truth about the final state",
 "A solve ends with code 1 exactly at the first recorded state (after the start) whose weighted elements are all within tolerance, with code 2 exactly when the relaxed tolerance has been met the configured number of times without that, with -1 on mass depletion, -3 after more undefined thrust directions than allowed (each ignored one being a coasted step), and -2 otherwise; the converged flag is true exactly for codes 1 and 2. This verdict depends only on the solve just run, not on what the object solved before.",
 ["inputs","histories","configurations"],"all problems, tolerances, relaxation factors and counts, nan thresholds, and sequences of solves on one object",
 "Tests check the flag of single solves on fresh objects; relaxed exits, undefined-direction exits and reuse are never exercised.",
 [Q,"pyqlaw/_convergence.py"],[("exit code logic",Q+" QLaw.solve"),("check_convergence_*","pyqlaw/_convergence.py")],["QLaw.exitcode, converge"])
p("C13","The thruster obeys the duty cycle",
 "With a duty cycle of given ON and OFF durations the spacecraft never thrusts during an OFF phase: a phase change happens at the first step at which the current phase has lasted longer than its duration, ON first, alternating forever. Within ON phases thrust is limited only by battery, efficiency thresholds and undefined directions, and during an OFF phase no mass is spent. This holds in forward and in backward propagation; a battery that runs empty also starts an OFF phase.",
 ["inputs","histories","configurations"],"all ON/OFF durations relative to the step (including zero OFF), step types, directions and integrators, with and without battery, long histories",
 "Only an example without assertions uses a duty cycle.",
 [Q],[("duty flag, last ON and OFF times",Q+" QLaw.solve")],["QLaw.controls, times, masses"])
p("C14","The battery ledger balances and an empty battery never powers thrust",
 "The recorded battery level always stays within its capacity bounds, drops by the discharge rate times the elapsed time in every step in which the thruster is available and rises by the charge rate times the elapsed time (up to the maximum) in every other step, for either integrator. No thrust step starts at the minimum level or draws more than the energy left above it, and if full recharge is required thrust resumes only after the maximum was reached; a transfer starting with an empty battery is handled the same way. Backward propagation keeps the same ledger with negative elapsed time.",
 ["inputs","histories","configurations"],"all forward problems: capacities, rates, initial levels, recharge policies, step types, integrators, long histories",
 "One example and one test track a battery without checking any level.",
 [Q],[("battery logic",Q+" QLaw.solve")],["QLaw.battery, times, controls"])
p("C15","Solving is repeatable and leaves the caller's data alone",
 "Solving never modifies arrays, lists or tuples the caller passed in, nor other problem objects; what the caller does to its own arrays afterwards does not change a problem already set or records already made; and solving the same problem again (on the same or another object, after any sequence of other problems and failed, interrupted or converged solves, even with another object solving in the middle of it, with any verbosity or print frequency) reproduces identical records. Records belong to the solve that produced them: states already recorded are not altered afterwards.",
 ["histories","inputs","configurations"],"all sequences of set-problem, solve, export and query operations over several objects of both element sets",
 "Every test solves each object once and never looks at its inputs again.",
 [Q,"pyqlaw/_convergence.py"],[("per-solve initialisation",Q+" QLaw.solve"),("elements_safety","pyqlaw/_convergence.py")],["caller arrays, all record lists"])
p("C16","Convergence test and safety clamp are exact",
 "The convergence tests report success exactly when every element of non-zero weight differs from its target by at most its tolerance, with node and periapsis angles compared modulo a full turn for Keplerian elements, and never report success on undefined values of weighted elements. The safety clamp returns the elements limited to their bounds component-wise, leaves in-range values and the anomaly untouched, is idempotent, and does not change its argument; Keplerian propagation never starts a step from elements outside the bounds.",
 ["inputs"],"all elements, targets, weights, tolerances, bounds, including angles whole turns apart, NaN, and boundary values",
 "The test checks two points per function without wrap-around or weights.",
 ["pyqlaw/_convergence.py",Q],[("check_convergence_keplerian / check_convergence_mee / elements_safety","pyqlaw/_convergence.py")],["return values"])
p("C17","Perturbing accelerations are the physical ones",
 "The third-body acceleration equals the difference of the third body's point-mass attraction on the spacecraft and on the central body, the oblateness acceleration is the gradient of the J2 potential about the given pole axis, at any distance, and radiation pressure points away from the Sun and falls off with the square of the distance. The inertial-to-RTN matrix is a proper rotation whose rows are the radial, transverse and normal directions.",
 ["inputs"],"all positions, velocities, body positions and rotation matrices, any units",
 "No test that can run here evaluates any perturbation.",
 ["pyqlaw/_perturbations.py"],[("perturbation_third_body_battin / perturbation_J2 / perturbation_SRP / pxformECI2RTN","pyqlaw/_perturbations.py")],["return values"])
p("C18","The SPICE perturbation model sums the enabled terms in the right frame and units",
 "For any ephemeris, epoch, unit system, list of third bodies (or none) and combination of enabled terms, the perturbation supplied for a time and state is the sum of the third-body, oblateness and radiation-pressure accelerations at that epoch, in canonical units, expressed in the radial-transverse-normal frame of the state, for both element sets; an unknown element set is rejected.",
 ["inputs","configurations"],"all flags, units, epochs, body lists, both element sets, generated ephemerides",
 "The only users need SPICE kernels that are not available, so nothing is run.",
 ["pyqlaw/_perturbations.py"],[("SpicePerturbations","pyqlaw/_perturbations.py")],["get_perturbations_RTN return value"])
p("C19","Exported results are the solved trajectory",
 "The exported dictionary contains the recorded times, final time, modified equinoctial states with masses that stand for the recorded states of either element set, and one control row per time, as thrust angles or as unit radial-transverse-normal vectors with throttle, matching the recorded controls with a closing row of zero throttle. The JSON file written holds the same data, and exporting changes neither the object nor later exports.",
 ["inputs","histories"],"all solved problems of both element sets, both control formats, with or without file and units",
 "A test writes the file and deletes it.",
 [Q],[("save_to_dict and NumpyEncoder",Q)],["returned dictionary, JSON file"])
p("C20","Cartesian history reproduces the recorded states",
 "The Cartesian history without interpolation has one column per record, each the position and velocity of the recorded elements. With interpolation, the evaluation times span the recorded times uniformly, and each column is the state of elements interpolated through the recorded elements by the requested scheme, exact at recorded times, forward and backward, for both element sets.",
 ["inputs","histories"],"all solved problems, both element sets, interpolation kinds, numbers of steps",
 "Plots are made from it but no value is checked.",
 [Q,E],[("get_cartesian_history / interpolate_states",Q)],["returned arrays and functions"])
p("C21","Plots show the recorded data in the requested units",
 "Every plotting method draws the recorded histories against recorded time scaled by the given time unit: elements (optionally as Keplerian elements in degrees), targets and tolerance bands, mass or anomaly (within one turn), periapsis radius, battery with its limits, control angles in degrees and throttle in percent, anomaly wrapped to a half turn, efficiencies with thresholds, Q with its rate, and trajectories with initial and target orbits, the whole transfer in view on axes of equal scale.",
 ["inputs","configurations"],"all solved problems of both element sets and all plot options",
 "Tests and examples draw plots and close them without looking at the data.",
 ["pyqlaw/_plot_methods.py","pyqlaw/_plot_helper.py","pyqlaw/_transformations.py"],[("plot_* methods","pyqlaw/_plot_methods.py"),("wrap","pyqlaw/_transformations.py")],["matplotlib artists of the returned figures"])
p("C22","Results do not depend on the choice of canonical units",
 "Restating a problem in other length, time and mass units (gravitational parameter, elements, thrust, flow rate, tolerances, duty cycle and all other settings converted accordingly) yields the same trajectory, controls, efficiencies, and exit code after converting back. In particular every quantity uses the configured gravitational parameter.",
 ["inputs","configurations"],"all problems and all unit changes, both element sets, both step types, both integrators",
 "All tests use a gravitational parameter of 1.",
 [Q,S,"pyqlaw/_eom.py",E],[("mu threaded through control law, dynamics and stepping",Q)],["all QLaw records"])
p("C23","Recorded Q and its rate are true and thrust lowers Q",
 "For every recorded step, the recorded Q is the Lyapunov function at the state the step starts from and the recorded rate is the steepest-descent rate available there with the current mass. Over a short forward thrusting step the Q of the next state is lower by that rate times the step, to first order, and coasting without perturbation leaves Q unchanged except for the mass change of the normalising acceleration.",
 ["inputs","histories"],"all problems, both element sets, all hyper-parameters, short steps",
 "No test reads the Q record.",
 [Q,S],[("Qs, dQdts storage",Q+" QLaw.solve")],["QLaw.Qs, dQdts, states"])
p("C24","Rotations, angle wrapping and drawing geometry are exact",
 "The elementary rotations are proper rotations about their axis by the given angle, composing additively, and wrapping returns the congruent angle between -pi and pi. Sphere and ellipsoid meshes lie on the requested surface around the requested centre and cover it, and equal-axis scaling gives all axes the same range, centred on and containing the data.",
 ["inputs"],"all angles over many turns, radii, centres, mesh sizes, limits and scales",
 "Not tested.",
 ["pyqlaw/_transformations.py","pyqlaw/_plot_helper.py"],[("rotmat1/2/3, wrap","pyqlaw/_transformations.py"),("get_sphere_coordinates / get_ellipsoid_coordinates / set_equal_axis","pyqlaw/_plot_helper.py")],["return values, axis limits"])
p("C25","Feasible transfers are reached",
 "For moderate low-thrust transfers between non-singular elliptic orbits, with any orientation of node and apse line, semi-major axis shared or changed, in either element set with ample time, the closed loop reaches the target within tolerance and reports convergence, forward and backward, with time or angle steps. The reached orbit, as a Cartesian ellipse, is the target orbit to within the tolerance.",
 ["inputs","configurations"],"a family of moderate transfers over all quadrants of node and periapsis, both element sets, step types and directions",
 "Tests solve a handful of transfers whose node and periapsis lie near zero.",
 [Q,S,L],[("QLaw.solve",Q)],["exitcode, converge, final state"])
p("C26","Invalid configurations are rejected and valid ones accepted",
 "Constructing or modifying a problem object with a non-positive gravitational parameter, unknown element set or integrator, wrong-length tolerances, initial state or weights, relaxation factor below one, or too small minimum mass is refused with an error and leaves earlier settings in place; solving before a problem is set, or with an efficiency threshold that is neither a float nor a function, is refused rather than silently ignored. Every valid combination is accepted and stored as given, with the documented defaults; elements and settings given in another container or numeric type (lists, integers, single precision) are the same problem.",
 ["inputs","configurations","histories"],"all combinations of valid and invalid settings and orders of setting them",
 "No test passes an invalid value.",
 [Q],[("setters, asserts, type checks",Q+" QLaw")],["raised errors, attributes"])
p("C27","Printed summaries and progress tell the truth",
 "The problem summary shows each targeted element's initial value, target and weight; the settings summary shows element set, integrator, tolerances, relaxed tolerances and their count; the results summary shows exit code, convergence, every final element with its distance from the target, transfer time and final mass of the last solve. While solving with verbosity two or more, a progress row is printed for exactly every print-frequency-th step with its time, deviations from the target and anomaly; with verbosity zero nothing is printed, and otherwise the reason for stopping.",
 ["inputs","configurations"],"all problems, verbosities and print frequencies, before and after solving",
 "Tests call the pretty-printers without looking at their output.",
 [Q],[("pretty / pretty_results / pretty_settings",Q+" QLaw"),("progress rows and messages",Q+" QLaw.solve")],["standard output"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
