"""Statements of all properties: the source of properties.jsonl and MANIFEST.json
(regenerate both with tools/mkmeta.py)."""

TESTS_SAMPLE = ("The existing tests compare a fixed table of parameter sets with Mathematica output; "
                "the statement quantifies over a continuum of parameters. ")

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


C, F, S, PL, IC, O, SP, U = ("kerrgeopy/constants.py", "kerrgeopy/frequencies.py", "kerrgeopy/stable.py",
                             "kerrgeopy/plunge.py", "kerrgeopy/initial_conditions.py", "kerrgeopy/orbit.py",
                             "kerrgeopy/spacetime.py", "kerrgeopy/units.py")

STABLE = ("-1<a<1 (both signs, to 1e-9, and 0), 0<=e<=1-1e-4, 1e-6<=|x|<=1, p from 0.1% above the separatrix to a million times it")

prop("P01", "Constants of motion are those of the orbit with the given turning points",
     "For every stable bound orbit, the energy, angular momentum and Carter constant returned are the physical "
     "(future-directed) solution for which the radial motion turns at p/(1-e) and p/(1+e) (a double root when e=0, one "
     "turning point and E=1 when e=1) and the polar motion turns at cos^2(theta)=1-x^2, with the sign of L given by x "
     "relative to the spin.",
     "-1<a<1, 0<=e<=1, -1<=x<=1 including polar and (nearly) equatorial, circular, nearly circular and marginally "
     "bound orbits (e and 1 to 1e-15 of each other, |x| to 1e-10), p from 0.01% above the separatrix to a million times it; E to 1e-14, L and Q to rounding amplified by "
     "p/(1-e)^2",
     TESTS_SAMPLE + "They reach no nearly polar, nearly circular, nearly equatorial, near-separatrix or negative-spin orbit.",
     [C], [("elimination of the two turning-point equations", C + ": energy"),
           ("quadratic for the angular momentum", C + ": angular_momentum"), ("Carter constant", C + ": carter_constant")])

prop("P02", "Every route to the constants of motion gives the same values",
     "The constants of motion are the same whether computed together, one at a time, one at a time with already known "
     "constants passed in, or read from an orbit object, for numbers of any numeric type; they are unchanged when both "
     "the spin and the inclination change sign.",
     "as P01; float, numpy scalar and integer arguments; every subset of optional constants; orbit attributes and method",
     TESTS_SAMPLE + "Optional arguments, integer arguments and the mirror symmetry are not exercised together.",
     [C, S, O], [("optional E and L arguments", C + ": angular_momentum, carter_constant"),
                 ("standardisation of the spin sign", C + ": _standardize_params")])

prop("P03", "The separatrix is exactly the boundary of stability",
     "The separatrix function returns the semi-latus rectum which divides stable from unstable orbits: immediately above "
     "it an orbit with those turning points exists and is stable, immediately below it none does. The stability "
     "predicate, its spacetime-method twin and the acceptance of parameters by the constants of motion agree with that "
     "boundary.",
     "0<=a<1, 0<=e<=1, -1<=x<=1 including every boundary and points within rounding of one; p from 0.05 to 1e4 times the "
     "separatrix and within 1e-5 of it",
     TESTS_SAMPLE + "The separatrix is never tested against the definition of stability, nor near a=0, x=0, |x|=1.",
     [C, SP], [("bracketed root of the separatrix polynomial", C + ": separatrix"), ("comparison with p", C + ": is_stable"),
               ("methods of the spacetime", SP + ": separatrix, is_stable")])

prop("P04", "The fast separatrix interpolates the exact one",
     "The interpolating separatrix built for a spin agrees with the exact separatrix everywhere in the rectangle of "
     "eccentricity and inclination, including its edges and corners, to the accuracy of cubic interpolation on the grid "
     "spacing asked for.",
     "0<=a<=0.97, spacings 0.01 to 0.1, 27 points (e,x) per surface incl. all corners; tolerance 6 h^4 (0.05+a^2/2(1-a)^1.2)",
     "The existing tests do not call it.", [C], [("bivariate spline over a grid", C + ": fast_separatrix")])

prop("P05", "Parameters are accepted exactly when they define a supported orbit",
     "Every function of the orbital parameters accepts each valid set and returns finite values, and raises a value error "
     "- never a number - for parameters out of bounds by any amount, not a number, of an extremal black hole, or below the "
     "separatrix. Polar and marginally bound orbits are accepted for constants and rejected for frequencies and "
     "trajectories.",
     "18 entry points; valid sets and 17 kinds of defect, bounds exceeded by 1e-15 to 3",
     "The tests check a handful of invalid values on some functions; the statement is about every function and any excess.",
     [C, F, S, SP], [("validation at the head of each function", C + ": valid_params, is_stable"),
                     ("validation of frequencies", F + ": r_frequency, theta_frequency, phi_frequency, gamma"),
                     ("validation of trajectories", S + ": StableOrbit, stable_trajectory")])

prop("P06", "Radial and polar roots of stable orbits factorise the potentials",
     "The four radial roots of a stable orbit are the turning points p/(1-e) and p/(1+e) and the two remaining roots of "
     "the radial potential in decreasing order, and the two polar roots are 1-x^2 and the remaining root of the polar "
     "potential; passing the constants of motion in does not change them.",
     STABLE + ", down to |x|=0.001 and 0.03% above the separatrix", TESTS_SAMPLE + "Roots are tested only through other quantities.",
     [C], [("radial roots from Vieta's formulas", C + ": stable_radial_roots"), ("polar roots", C + ": stable_polar_roots")])

prop("P07", "Radial roots of plunging orbits bracket the motion",
     "For constants of motion of a bound plunging orbit the first two roots returned are the ends of the radial interval "
     "which contains both horizons, and the others are the remaining roots of the radial potential: a complex conjugate "
     "pair, or two real roots in decreasing order, whether they lie inside or outside the plunge.",
     "1e-9<=|a|<1, E from 0.001 to 1-1e-5, 0 and 1e-8<=|L|<=17, Q 0 and 1e-10 to 220, all root configurations (complex pair; real pair outside, inside; three roots inside the inner horizon); separation of the motion from other roots >= 1e-3",
     "The tests cover a fixed table of plunges with complex roots; few with four real roots.",
     [C], [("sorting of polynomial roots", C + ": plunging_radial_roots")])

prop("P08", "Orbital parameters and constants of motion are inverse to each other",
     "Converting the constants of motion of a stable orbit back to orbital parameters returns the parameters they came from, "
     "for either sign of the spin, and an orbit built from its constants has those constants.",
     "-1<a<1, 0<=e<1 (e=0 to sqrt(eps)), 1e-8<=|x|<=1, p from 0.3% above the separatrix to 100 times it",
     "One test converts a fixed table of constants; round trips, negative and tiny spins, and circular orbits are not sampled.",
     [C, S], [("roots of the radial and polar polynomials", C + ": apex_from_constants"), ("alternative constructor", S + ": StableOrbit.from_constants")])

PLDOM = ("1e-9<=|a|<1 (both signs), E from 0.001 to 1-1e-5, 1e-8<=|L|<=17 (and L=0 away from the axis), Q 0 and 1e-10 to 220, all root "
         "configurations (complex pair; real pair outside; real pair inside, also all three inside the inner horizon); motion separated from other radial roots by >= 1e-3")

prop("P09", "Mino-time frequencies of stable orbits are the exact ones",
     "For every stable bound orbit the frequencies with respect to Mino time are 2 pi over the radial and polar periods of "
     "the geodesic and the averages of d(phi)/d(lambda) and dt/d(lambda) over the motion, with the azimuthal frequency signed "
     "by the sense of rotation and the radial and polar frequencies positive; circular and equatorial orbits take the limiting value.",
     STABLE + " (|x| to 1e-10), e down to 1e-9 and 0; relative 1e-13 amplified by distance, separatrix and high spin",
     TESTS_SAMPLE + "The tables hold no circular, nearly polar, near-separatrix, tiny-spin or negative-spin entries.",
     [F], [("elliptic-integral formulas", F + ": r_frequency, theta_frequency, phi_frequency, gamma"),
           ("collection", F + ": mino_frequencies")])

prop("P10", "Every route to the frequencies of a stable orbit gives the same values",
     "Boyer-Lindquist frequencies are the Mino frequencies divided by the time dilation factor. Frequencies are the same "
     "computed together, one at a time, with already known constants or frequencies passed in, or read from an orbit's "
     "attributes and methods, and are unchanged when both spin and inclination change sign.",
     "as P09; every subset of optional arguments, attributes, methods, mirror image",
     TESTS_SAMPLE + "Optional arguments and attributes are not compared with each other.",
     [F, S, O], [("optional constants and frequencies", F + ": phi_frequency, gamma"), ("ratio", F + ": fundamental_frequencies"),
                 ("attributes and methods", S + ": StableOrbit")])

prop("P11", "Mino-time frequencies of plunging orbits are the exact ones",
     "For every bound plunging orbit the radial and polar Mino frequencies are 2 pi over the periods of the analytically "
     "continued radial motion between its turning points and of the polar motion; attributes of the orbit agree, and "
     "reflecting spin and angular momentum together changes nothing.",
     PLDOM, "The tests compare a table of plunges; generic spins, equatorial and real-root plunges are hardly sampled.",
     [F, PL], [("two or four real radial roots", F + ": plunging_mino_frequencies, _plunging_complex_radial, _plunging_real_radial"),
               ("attributes", PL + ": PlungingOrbit")])

prop("P12", "Trajectories of stable orbits solve the geodesic equations",
     "For every stable orbit, initial phases and Mino time, positive or negative, the returned (t, r, theta, phi) are the "
     "geodesic with those orbital parameters which at time 0 has the given t and phi and radial and polar phases (counted from "
     "periapsis and from the smallest theta). The motion is quasi-periodic in both frequencies, moving the start along the orbit "
     "gives the same curve, stays between its turning points, and t increases.",
     STABLE + "; phases zero, at and near turning points, large and negative; times up to 1e5 radial periods; object, function, "
     "from_constants and override of the phases",
     TESTS_SAMPLE + "Trajectories are compared on a grid of times for a few dozen orbits with few phases.",
     [S], [("trajectory from elliptic functions", S + ": stable_trajectory, radial_solutions, polar_solutions")])

prop("P13", "Trajectories of plunging orbits solve the geodesic equations",
     "For every bound plunging orbit, initial phases and Mino time the returned (t, r, theta, phi) are the geodesic with those "
     "constants of motion which at time 0 has the given t and phi, continued through both horizons, with radial phase zero at "
     "the smallest radius and polar phase zero at the smallest theta whatever the radial root configuration.",
     PLDOM + "; phases as P12, Mino times up to 10 radial periods; instants within 1e-6 of a horizon excluded",
     "Tests compare one default choice of phases for complex-root plunges and cover few real-root plunges.",
     [PL, S], [("complex roots", PL + ": plunging_radial_solutions_complex, plunging_polar_solutions, plunging_trajectory"),
               ("real roots", PL + ": plunging_trajectory; " + S + ": radial_solutions, polar_solutions")])

prop("P14", "Trajectory deltas are the oscillating parts of the trajectory",
     "For every orbit and choice of phases the trajectory deltas evaluated at a phase shift are the radial and polar "
     "contributions to t and phi at the shifted phase: adding the secular growth of t and phi to their differences gives the "
     "trajectory back. For plunging orbits with two complex radial roots they are the full contributions, growth included.",
     STABLE + "; plunges as P13; phase shifts in +-20; phases of the object or passed in",
     "No test calls trajectory_deltas.",
     [S, PL, O], [("deltas of stable orbits", S + ": StableOrbit.trajectory_deltas"), ("deltas of plunges", PL + ": PlungingOrbit.trajectory_deltas")])

prop("P15", "The four-velocity is the tangent of the trajectory",
     "The four-velocity of an orbit is at every Mino time the derivative of its trajectory with respect to proper time, with "
     "the right sign of the radial and polar components, has norm -1, and gives the stored initial position and velocity at "
     "time 0.",
     "stable orbits as P12, plunging orbits as P13, also inside the horizons; phases of the object or passed in",
     TESTS_SAMPLE + "The tests look at the norm of the velocity of some orbits, which cannot see signs.",
     [SP, O, S, PL], [("velocity from the potentials", SP + ": four_velocity"), ("interface", O + ": four_velocity"),
                      ("initial state", S + ": StableOrbit.__init__; " + PL + ": PlungingOrbit.__init__")])

prop("P16", "The numerical four-velocity approximates the four-velocity",
     "The four-velocity by finite differences agrees with the exact four-velocity up to the truncation error of a fourth-order "
     "formula and the rounding error, for every step size.",
     "stable and plunging orbits outside the neighbourhood of horizons, dx default and 1e-5 to 1e-3",
     "The tests compare norms for the default step only.", [O], [("five-point formula", O + ": numerical_four_velocity")])

prop("P17", "Constants of motion from an event and a four-velocity",
     "For every event and timelike four-velocity the constants of motion computed from them are minus the t component and the "
     "phi component of the momentum and the Carter constant, and along every geodesic they are those of the geodesic.",
     "-1<a<1, r from 0.03 outside the horizon to 1e6, any direction and speed up to gamma 10, near pole and equator; points of "
     "stable and plunging orbits including inside the horizons",
     "Tests recover the constants of a table of orbits at t=0 only.", [IC], [("projection on Killing vectors", IC + ": constants_from_initial_conditions")])

prop("P18", "Orbits are classified as stable or plunging by their initial state",
     "A state on a stable bound orbit is classified stable, a state on a plunging orbit is not, including plunges which share "
     "their constants of motion with a stable orbit and states at turning points; a radius where no motion with those "
     "constants is possible raises a value error.",
     "-1<a<1, stable e>=0.01 or 0, p from 1% above the separatrix; plunges as P13 away from horizons (0.02) and the ring",
     "The tests classify a fixed table; none shares constants between the two families.", [IC],
     [("comparison of r with the radial roots", IC + ": is_stable")])

prop("P19", "Initial phases recover the phases of the state",
     "The initial phases computed from the state of an orbit are those which, given to the orbit with the same constants of "
     "motion, reproduce the state, on every branch of the motion and at turning points, for stable and plunging orbits and with "
     "any optional arguments passed in; a coordinate closer to a turning point than the given tolerance counts as being there.",
     "as P18; phases at turning points or with r and theta at least 2e-4 from them; every combination of optional arguments",
     TESTS_SAMPLE + "Only one pair of branches and no turning points are tested.", [IC],
     [("stable phases", IC + ": stable_orbit_initial_phases"), ("plunging phases", IC + ": plunging_orbit_initial_phases")])

prop("P20", "An orbit defined by an initial state is the geodesic through that state",
     "An orbit object built from the position and four-velocity of a geodesic passes through that state at Mino time zero and "
     "follows that geodesic in both directions of time; its constants of motion, orbital parameters, frequencies, stability and "
     "trajectory deltas are those of the geodesic, for both signs of the spin.",
     "as P18, also eccentricities and inclinations to the equator down to 1e-7 and 1e-5; generated phases and Mino times within 8 radial periods (3 for plunges)",
     "The tests check the state at time zero for a table of orbits, at positive spin.", [O, IC],
     [("construction and dispatch", O + ": Orbit.__init__, Orbit.trajectory"), ("phases", IC + ": stable_orbit_initial_phases, plunging_orbit_initial_phases")])

prop("P21", "Invalid initial states are rejected, valid ones accepted",
     "An orbit cannot be built from a four-velocity which is spacelike, null or not normalised to -1 (beyond 1e-6), nor as a "
     "plunge into a Schwarzschild black hole: a value error is raised. States normalised within that tolerance are accepted as "
     "tuples, lists or arrays.",
     "norm errors from 1.04e-6 (states of bound orbits) or 5e-6 (any state) to a factor 100; spacelike and null directions; Schwarzschild motion with L^2+Q<12; accepted states "
     "with norm error up to 9.3e-7",
     "The tests try one bad velocity each.", [O, PL], [("validation", O + ": Orbit.__init__"), ("Schwarzschild", PL + ": PlungingOrbit.__init__")])

prop("P22", "Metric and norm are those of Kerr spacetime",
     "The metric returned at every event is the Kerr metric in Boyer-Lindquist coordinates (signature -+++, unit mass), the norm "
     "of a vector is the quadratic form of that metric, and the stored horizon radii are where the metric function Delta vanishes.",
     "-1<=a<=1; r from 1e-8 (next to the ring) to 1e7 incl. between and inside the horizons, any latitude incl. next to the "
     "poles; vectors of components 0 and 1e-3 to 1e3, as lists, tuples and arrays",
     "The tests use the metric only on orbits, where all its errors are multiplied by a velocity of norm -1.",
     [SP], [("components of the metric", SP + ": KerrSpacetime.metric"), ("norm", SP + ": KerrSpacetime.norm"),
            ("horizons", SP + ": KerrSpacetime.__init__")])

prop("P23", "Unit conversions have the right value, scaling and relations",
     "Each conversion from natural units gives the value which the physical constants G, c, the solar mass, the astronomical unit "
     "and the light year imply, is linear in the quantity, scales with the right power of the mass and agrees with the other "
     "conversions of the same dimension; it applies to arrays element by element.",
     "all 17 functions; values 0 and +-1e-6 to 1e8, masses 0.1 to 1e10 solar masses, scalars, arrays, matrices, integers; "
     "relations to 1e-14, absolute values to the accuracy of the constants (1e-5 to 4e-4)",
     "The tests check no conversion function by itself.", [U], [("conversion factors", U + ": all functions")])

prop("P24", "Physical units only rescale what an orbit reports",
     "Constants of motion, frequencies and trajectories of an orbit asked for in physical units are the natural ones times the "
     "factor for the masses of the orbit; natural units are the default; nothing else depends on the masses; asking for physical "
     "units without the mass they need, or for unknown units, is an error.",
     "stable and plunging orbits built from parameters and initial conditions, M from 1 to 1e8, mu from 0.1 to 1e3; every unit name of every method",
     "The tests check one orbit in one system of units.", [O, S, PL, U, C],
     [("constants in units", O + ": Orbit.constants_of_motion"), ("frequencies in units", S + ": mino_frequencies, fundamental_frequencies"),
      ("trajectories in units", S + ": stable_trajectory; " + PL + ": plunging_trajectory; " + O + ": Orbit.trajectory"),
      ("mass scaling", C + ": scale_constants")])

prop("P25", "Functions of Mino time act element by element on arrays",
     "Every component function of trajectory, four-velocity, trajectory deltas and numerical four-velocity of every kind of orbit "
     "returns for an array the array of the same shape of the values at its elements, also for empty and zero-dimensional arrays and "
     "integers, and leaves its argument unchanged.",
     "stable, plunging and initial-condition orbits; shapes (), (0,), (1,), (3,), (2,3), (1,3), (2,1,2), long arrays, other memory layouts; python and numpy numbers",
     "The tests evaluate one-dimensional arrays only.", [S, PL, SP, O],
     [("closures over Mino time", S + ": stable_trajectory; " + PL + ": plunging_trajectory; " + SP + ": four_velocity")])

prop("P26", "Calls have no side effects: any history gives the same answers",
     "Whatever calls are made in whatever order, on one orbit or several, sequentially or from several threads, equal calls give "
     "equal results, functions obtained earlier keep their values, and no public attribute, argument or global numerical setting is changed.",
     "histories of 4-24 of 20 kinds of operations on 1-3 orbits, replayed in reverse order and from 4 threads",
     "Each test makes a few calls on a fresh object.", [O, S, PL, F, C, IC, SP],
     [("object state", O + ": Orbit; " + S + ": StableOrbit; " + PL + ": PlungingOrbit")], over=("histories", "schedules", "inputs"))

prop("P27", "Points behind the black hole are exactly those reported hidden",
     "Seen from a camera direction, a point is reported invisible exactly when it is behind the plane through the centre facing the "
     "camera and inside the outline of the outer horizon, for one point or many, independent of the others.",
     "generated spins, camera directions (azimuth and elevation of any size, incl. along axes), and points in front, behind, inside and within 1e-6 of the outline; "
     "shapes (3,) and (n,3), lists and arrays", "No test calls it.", [O], [("projection on the camera direction", O + ": Orbit.is_visible")])

prop("P28", "The plot shows the trajectory",
     "The figure of an orbit contains the polyline through the trajectory at equally spaced Mino times of the requested density "
     "between the requested limits in Cartesian coordinates, without the points the black hole hides, the smaller body at its end, a "
     "sphere of the outer horizon radius, axes of equal scale which hold all of it, and the requested camera, colour, line width "
     "decaying with age, grid and axes.",
     "stable, plunging and initial-condition orbits; time spans starting up to 12 radial periods before or after 0, densities, cameras and every combination of options",
     "The tests do not plot.", [O], [("plot", O + ": Orbit.plot")])

prop("P29", "Each animation frame shows the orbit at its time",
     "The animation has 30 frames per second at the requested speed in Mino time; each frame shows the body at the trajectory's "
     "position at that frame's time, a tail of the requested length that ends at the body and fades with age and is hidden where the black "
     "hole covers it, the camera, roll and axis limits requested for that time, and (if asked for) the components up to that time.",
     "stable, plunging and initial-condition orbits; spans starting up to 40 before or after 0, speeds in multiples of 1/8, tails, pans, limits and all options; frames are "
     "inspected as they are handed to the movie writer", "The tests do not animate.", [O], [("animate", O + ": Orbit.animate")])

prop("P30", "Published building blocks are the separated solutions of the motion",
     "The radial and polar solution functions for stable and plunging orbits, as functions of a radial or polar phase, are the "
     "separated geodesic motion and its contributions to t and phi, starting where documented; the radial integrals of plunging orbits are the "
     "integrals of r, r^2 and 1/(r-r_horizon) over Mino time (principal values); plunges with four real roots are refused by the "
     "solutions for complex roots.",
     STABLE + "; " + PLDOM + "; phases in +-20",
     "Tests reach them only through default trajectories.", [S, PL],
     [("stable solutions", S + ": radial_solutions, polar_solutions"),
      ("plunging solutions", PL + ": plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions")])

prop("P31", "Results do not depend on the numeric type or container of the arguments",
     "Every function and class gives the same results when a number is passed as a python int or float, a numpy integer (32 or 64 bits), a numpy "
     "float64 or a zero-dimensional array, and when constants, phases, positions, four-velocities and vectors are passed as tuple, "
     "list or numpy array: the value alone counts (no integer overflow or truncation, whatever the size).",
     STABLE + "; " + PLDOM + "; events with radii up to 1e6; masses up to 1e9; whole constants of motion up to 2e9; double precision types only (float32 is computed in single precision)",
     "The tests pass python and numpy floats.", [C, F, S, PL, IC, O],
     [("constants", C + ": energy, angular_momentum, carter_constant, separatrix, scale_constants"), ("states", IC + ": constants_from_initial_conditions"),
      ("orbits", O + ": Orbit.trajectory, Orbit.four_velocity")])
