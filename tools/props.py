"""Writes /verif/properties.jsonl (kept as a program so that it is easy to edit)."""
import json, os
K = "src/exoplanet/orbits/keplerian.py"
TT = "src/exoplanet/orbits/ttv.py"
SI = "src/exoplanet/orbits/simple.py"
CO = "src/exoplanet/orbits/constants.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
ES = "src/exoplanet/estimators.py"
IN = "src/exoplanet/interp.py"
UN = "src/exoplanet/units.py"
UT = "src/exoplanet/utils.py"
CI = "src/exoplanet/citations.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                              observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("K01", "Positions are those of the two-body problem",
     "For every admissible way of specifying a Keplerian orbit and every time, the planet, star and planet-relative-to-star positions are those of the two-body problem with the given elements in the documented frame (X north, Y east, Z towards the observer, R_sun and days), whichever of the equivalent parametrizations was used and however many planets and times are evaluated at once. The planet and star positions are the relative position split around their barycentre in proportion to the masses.",
     ["inputs", "configurations"],
     "All choices of period / semimajor axis / both, stellar parametrization, eccentricity (0 to 0.95) with omega or its sine and cosine, Omega, inclination or impact parameter, t0 or t_periastron, 1-3 planets, scalar or vector, times up to a thousand periods away.",
     "The tests compare a few fixed systems to batman and to finite differences on one grid; most combinations of parametrization, eccentricity, orientation and far-away times are never evaluated.",
     [K, CO], [("Kepler solve and rotation", K + "::_get_true_anomaly/_rotate_vector/_get_position"), ("derived parameters", K + "::_get_consistent_inputs")],
     ["KeplerianOrbit.get_planet_position", "KeplerianOrbit.get_star_position", "KeplerianOrbit.get_relative_position"])
prop("K02", "Velocities and accelerations obey the equations of motion",
     "At every time the velocities of planet, star and relative orbit are the time derivatives of the corresponding positions, and the accelerations are the derivatives of the velocities, that is, the gravitational acceleration of the two-body problem; for massless planets they are still finite.",
     ["inputs", "configurations"],
     "Same systems and times as K01, including massless planets and eccentricities up to 0.95.",
     "The tests check finite differences with loose tolerances for one fixed set of elements per method.",
     [K], [("analytic velocity", K + "::_get_velocity"), ("analytic acceleration", K + "::_get_acceleration")],
     ["get_*_velocity", "get_*_acceleration"])
prop("K03", "All parameters of an orbit can be read back and are consistent",
     "Whatever combination of inputs defines an orbit, every parameter can be read back from the orbit, in the documented units, and satisfies the physical relations with the inputs: Kepler's third law between period, semimajor axis and total mass; mass, radius and density of the star; impact parameter and inclination at conjunction; reference transit and periastron times; sine and cosine of omega.",
     ["inputs", "configurations"],
     "All admissible parametrizations and their values, including massive companions and the defaults.",
     "The tests exercise single relations on single values (e.g. one density), not the cross product of parametrizations.",
     [K, CO], [("consistency of size, star, mass", K + "::_get_consistent_inputs"), ("time reference, inclination", K + "::KeplerianOrbit.__init__")],
     ["attributes a, period, m_star, r_star, rho_star, m_planet, incl, b, t0, t_periastron, ecc, omega, Omega, a_planet, a_star, m_total"])
prop("K04", "Exactly the admissible parameter combinations are accepted",
     "A Keplerian orbit can be built from a set of parameters exactly when the documented rules allow the set; every other set is rejected with an error instead of silently producing an orbit from a subset of the inputs. In particular: period or semimajor axis is needed; if both are given no stellar mass or density may be; the star needs zero or exactly two of mass, radius and density (or density alone); at most one of inclination and impact parameter, and of t0 and periastron time; eccentricity needs omega.",
     ["configurations"],
     "Every subset of the constructor's parameters (given / not given).",
     "The tests try a handful of inadmissible sets; the space of subsets is 2^14.",
     [K], [("argument checks", K + "::KeplerianOrbit.__init__/_get_consistent_inputs")],
     ["KeplerianOrbit(...)"])
prop("K05", "Reference transits and periastron passages recur as declared",
     "At t0 plus any whole number of periods the planet is at inferior conjunction: in front of the star, on the axis normal to the line of nodes, at a sky distance of the impact parameter times the stellar radius; at the periastron time plus any whole number of periods it is at distance a(1-e), its smallest; and the orbit repeats after each period.",
     ["inputs", "configurations"],
     "All admissible parametrizations, cycles in the thousands, all orientations.",
     "The tests check t0 for a few circular and eccentric orbits and cycle zero.",
     [K], [("M0, tref, t_periastron", K + "::KeplerianOrbit.__init__")],
     ["t0", "t_periastron", "period", "get_relative_position"])
prop("K06", "Radial velocities have the right sign, units and amplitude",
     "The radial velocity of the star equals minus its velocity towards the observer (positive means receding), converted to the requested unit (m/s by default), one column per planet; when a semi-amplitude K is given it is K(cos(omega+f)+e cos(omega)) regardless of masses and inclination, and both routes agree when K is the physical one.",
     ["inputs", "configurations"],
     "All admissible parametrizations, eccentricities, massive companions, output units.",
     "One test compares to a reference implementation for one system; units and signs off the default path are not covered.",
     [K, CO], [("projection and units", K + "::get_radial_velocity")], ["get_radial_velocity"])
prop("K07", "Light travel delay shows bodies where they were when the light left",
     "With light delay requested, the position reported at time t is the body's true position at the earlier (or later) instant from which light crosses to the barycentre's plane by t, to second order in the delay; the time argument may be any shape, a parallax is honoured, and orbits without delay are its limit.",
     ["inputs", "configurations"],
     "All admissible parametrizations with v/c up to 1e-2, circular and eccentric, massless to massive, transit-timing orbits included.",
     "The tests use one circular and one eccentric system with a loose tolerance and never the star's or barycentric positions.",
     [K, TT, CO], [("retarded time", K + "::_get_retarded_position")], ["get_*_position(light_delay=True)"])
prop("K08", "in_transit reports exactly the exposures that overlap a transit",
     "For planets that transit, the indices reported as in transit are exactly those of the times whose exposure (or instant) overlaps an interval during which some planet's disc overlaps the star's disc in front of it; no overlapping exposure is ever omitted, for scalar or per-time exposure lengths, whatever the orbit.",
     ["inputs", "configurations"],
     "Circular and eccentric orbits (e up to 0.7), impact parameters up to grazing, one to three planets, with and without exposure time, any cycle.",
     "The tests compare one grid of times per orbit type; wrap-around, grazing, exposure arrays and several planets interact.",
     [K, TT], [("Winn eq. 14 and contact points", K + "::in_transit")], ["in_transit"])
prop("K09", "On-sky separations, position angles and arcseconds are right",
     "With a parallax given, positions are returned in arcseconds (a_R_sun x parallax x au conversion); the separation is the sky-projected distance and the position angle, in [-pi, pi] measured from north through east, points from the star to the planet, for every orientation and time, with light delay or without.",
     ["inputs", "configurations"],
     "All admissible parametrizations, parallaxes and quadrants.",
     "One astrometric data set is compared in the tests, in limited quadrants.",
     [K, CO], [("angles", K + "::get_relative_angles"), ("conversion", K + "::_get_position")], ["get_relative_angles", "get_*_position(parallax=...)"])
prop("K10", "A circular orbit built from a transit duration has that duration",
     "When a circular orbit is specified by period, impact parameter, radius ratio and transit duration, first and last contact of the resulting orbit are exactly half a duration away from mid-transit, in whatever units the duration, period and stellar radius were given; the reported derivatives of the size, barycentric scales and stellar density with respect to the duration are the true ones.",
     ["inputs", "configurations"],
     "Durations from 0.5% to 6% of a period, impact parameters up to 0.95, radius ratios 0-0.15, cycles, massive or massless planets.",
     "The tests check a single duration and a single impact parameter.",
     [K], [("duration to a/R", K + "::get_aor_from_transit_duration"), ("jacobians", K + "::KeplerianOrbit.__init__")], ["KeplerianOrbit(duration=...)", "jacobians"])
prop("K11", "Gradients are the derivatives of the values",
     "Wherever the library returns a differentiable quantity (positions, radial velocities, light curve fluxes, interpolated values and phase tables, accelerations, sky angles, read-back attributes), its symbolic gradient with respect to each continuous input equals the true derivative of the returned value, and the Jacobians exposed for changes of variables equal the derivatives they stand for.",
     ["inputs", "configurations"],
     "Elements, times and limb darkening inside the domain, away from contact points.",
     "Tests run verify_grad on a few points only.",
     [K, LD, IN], [("op gradients and symbolic graph", K), ("light curve op", LD + "::quad_limbdark_light_curve")], ["pytensor.grad of returned tensors", "jacobians"])
prop("K12", "Results depend only on the declared system and the query",
     "Every query of an orbit or light curve returns the same result however often, in whatever order and together with whichever other queries it is made; it neither changes the arrays it was given nor other objects; the column of one planet in a system of several equals the single-planet result, and the value at one time does not depend on the other times in the call.",
     ["histories", "inputs"],
     "Sequences of queries (positions, velocities, in_transit, light curves) over shared orbits in all orders; splits of the planets and of the times.",
     "Tests make each call once on a fresh object.",
     [K, LD, TT, SI], [("immutability of attributes", K + "::KeplerianOrbit")], ["all query methods"])
prop("K13", "True anomalies solve Kepler's equation",
     "For mean anomalies of any sign and size and eccentricities in [0, 1), the true anomaly that the library returns lies between -pi and pi and points to the position on the ellipse that Kepler's equation assigns to the mean anomaly; it is the mean anomaly itself for a circle, is the same at equivalent mean anomalies a whole number of turns apart, is computed entry by entry for arrays of any shape, and its gradients with respect to mean anomaly and eccentricity are the true ones.",
     ["inputs"],
     "Mean anomalies within and thousands of turns away from the principal range, near 0, multiples of pi/2 and apoastron; eccentricities 0 to 0.9999; scalars, vectors and matrices.",
     "The tests compare one grid of anomalies in the principal range, up to moderate eccentricity.",
     [K], [("wrapper of the Kepler solver", K + "::get_true_anomaly")], ["exoplanet.orbits.get_true_anomaly"])
prop("L01", "Transit light curves equal the blocked limb-darkened flux",
     "The light curve of a planet is minus the fraction of the star's quadratically limb-darkened flux that the planet's disc covers at that time, at the star-planet distance of the orbit; it is exactly zero when the planet is behind the star or off its disc, never positive, and has one column per planet.",
     ["inputs", "configurations"],
     "Radius ratios up to 0.3, impact parameters through grazing and off the limb, limb darkening coefficients, circular and eccentric orbits, all phases.",
     "Tests compare with one starry/batman configuration each.",
     [LD], [("quadratic solution vector", LD + "::quad_limbdark_light_curve/get_cl"), ("line of sight", LD + "::_compute_light_curve")], ["LimbDarkLightCurve.get_light_curve"])
prop("L02", "The in-transit shortcut never changes a light curve",
     "Evaluating a light curve only at the times flagged as in transit gives the same result as evaluating it at every time, for every orbit class, radius, exposure time and integration scheme; asking for light delay shifts the light curve by the light travel time.",
     ["inputs", "configurations"],
     "Keplerian, transit-timing and simple orbits; one to three planets; exposure times scalar, vector or absent; orders 0, 1, 2.",
     "Tests compare two configurations at default settings.",
     [LD, K, SI, TT], [("use_in_transit", LD + "::get_light_curve")], ["get_light_curve(use_in_transit=...)"])
prop("L03", "Exposure integration is the declared quadrature of the light curve",
     "With an exposure time, the flux at t is the weighted mean of the instantaneous light curve over the exposure centred on t: midpoint rule (order 0), trapezoid (1) or Simpson (2) with the requested number of samples rounded up to odd, weights summing to one; scalar and per-time exposure lengths agree, times on a grid are treated like a list of them, light delay applies to every sample of the exposure, and any other order is rejected.",
     ["inputs", "configurations"],
     "Orders 0-2 and invalid ones, oversampling 1-13 (3 or more for orders 1 and 2), scalar or vector exposure times including zero.",
     "One test compares orders on one light curve to a loose tolerance.",
     [LD], [("stencil", LD + "::get_light_curve")], ["get_light_curve(texp, oversample, order)"])
prop("L04", "Secondary eclipse light curves combine both eclipses by brightness",
     "The secondary eclipse model is the brightness-weighted sum of the primary's light curve (planet in front) and the secondary's light curve (star in front of the planet, with the secondary's own limb darkening), normalized by the total flux; full occultation of the secondary removes exactly its share of the light; with light delay both eclipses are seen where the planet was, relative to the star, when its light left.",
     ["inputs", "configurations"],
     "Circular and eccentric orbits, planet radii, surface brightness ratios, one or two planets, with and without exposure time.",
     "The test compares one system per orbit type to starry-like reference.",
     [SE, K], [("combination", SE + "::get_light_curve"), ("exchange of roles", K + "::_flip")], ["SecondaryEclipseLightCurve.get_light_curve"])
prop("L05", "Radius ratio from depth inverts the small-planet depth",
     "The radius ratio returned for an approximate transit depth and impact parameter is the one whose small-planet transit depth (intensity at that position over mean intensity, times the ratio squared) equals the given depth, and its reported Jacobian is the derivative of that ratio with respect to the depth.",
     ["inputs"],
     "Depths, impact parameters below one and limb darkening coefficients, scalar or vector.",
     "One vector of values is tested.",
     [LD], [("inversion", LD + "::get_ror_from_approx_transit_depth")], ["get_ror_from_approx_transit_depth"])
prop("L06", "Phase-interpolated light curves reproduce the light curve they tabulate",
     "A light curve interpolated from a phase grid equals the tabulated light curve at the grid phases, in every cycle, and between them is the cubic through the four surrounding grid points, for one or several planets.",
     ["inputs", "configurations"],
     "Periods, reference times, grid sizes, cycles before and after the reference transit, one to two planets.",
     "The class is documented as untested.",
     [IL], [("cubic interpolation", IL + "::interp")], ["InterpolatedLightCurve.get_light_curve"])
prop("T01", "Each transit of a timing orbit occurs at its own labelled time",
     "In a transit-timing orbit the planet is at mid-transit at each of the given transit times, unobserved transits in between are at the linear ephemeris, every time is shifted according to the labelled transit nearest to it, and before the first and after the last labelled transit the orbit continues periodically from that transit; this holds per planet for positions, velocities and transit flags.",
     ["inputs", "histories"],
     "Several planets with different numbers of transits, gaps in the transit numbers, timing variations up to a third of a period, times anywhere.",
     "Tests use one or two planets with hand-written variations and compare selected times.",
     [TT], [("binning", TT + "::_get_model_dt/_warp_times")], ["TTVOrbit.get_*", "in_transit"],
     [("all_transit_times", "time of each labelled transit of each planet", TT)])
prop("T02", "Transit times, O-C and ephemeris of a timing orbit agree",
     "When transit times are given, the reported reference transit and timing period are the least-squares line through the times against their transit numbers and the timing variations are the residuals; when timing variations are given, the transit times are the linear ephemeris plus the variations; a separate period or log-period offset only changes the shape of the orbit.",
     ["inputs", "configurations"],
     "Any number of planets, transit numbers with gaps, offsets between the shape period and the timing period.",
     "Tests verify consistency for one example.",
     [TT], [("linear regression", TT + "::TTVOrbit.__init__")], ["t0", "ttv_period", "period", "ttvs", "transit_times", "transit_inds"])
prop("T03", "Expected transit times are complete, exact and within the window",
     "For each planet the expected transit times in a window are exactly the times t0 plus integer multiples of the period that lie in the closed window, each once, in increasing order, including when t0 lies outside the window or the window contains none.",
     ["inputs"],
     "All windows, periods and reference times, including transits on the boundaries.",
     "One example is tested.",
     [TT], [("index range", TT + "::compute_expected_transit_times")], ["compute_expected_transit_times"])
prop("S01", "Simple transit orbits cross the star in the given duration",
     "A simple transit orbit moves in a straight line at constant speed across the star at the given impact parameter, is at mid-transit at t0 plus multiples of the period, is in front of the star exactly during the transit and touches its limb at plus and minus half the duration; in_transit reports exactly the times (or exposures) in transit; velocities and light delay are refused.",
     ["inputs", "configurations"],
     "Periods, durations, impact parameters, radius ratios, stellar radii, one to three planets, exposure times.",
     "Tests compare with a Keplerian orbit and check in_transit on one grid.",
     [SI], [("chord", SI + "::get_relative_position"), ("in_transit", SI + "::in_transit")], ["SimpleTransitOrbit.*"])
prop("I01", "Regular-grid interpolation is exact multilinear interpolation",
     "Interpolation on a regular (possibly unevenly spaced) grid returns the tabulated values at the grid points including the corners, the multilinear blend of the surrounding cell inside it, and outside the grid the fill value if one is given (and only outside) or the linear continuation of the nearest cell if not; trailing output dimensions are interpolated independently.",
     ["inputs"],
     "1-3 dimensions, uneven spacing, points on nodes, edges, in cells and outside, with and without fill value and output dimensions.",
     "Tests compare random interior points to scipy for 1-3 dimensions.",
     [IN], [("cell search and blend", IN + "::regular_grid_interp")], ["RegularGridInterpolator.evaluate", "regular_grid_interp"])
prop("U01", "Quantities with units mean the same as converted plain numbers",
     "An orbit built from quantities that carry units is the same orbit as the one built from the numbers converted to the standard units; conversion multiplies by the physical ratio of the units, plain numbers are taken as already converted, and units can be attached only once.",
     ["inputs", "configurations"],
     "Period, semimajor axis, duration, planet and stellar masses, radii, density in several units each.",
     "Tests convert two values.",
     [UN, K], [("with_unit / to_unit", UN), ("conversion of inputs", K + "::_get_consistent_inputs")], ["with_unit", "to_unit", "has_unit", "KeplerianOrbit(...)"])
prop("P01", "The angle prior is uniform over the circle and keeps its start value",
     "An angle variable always lies in [-pi, pi], its prior density does not depend on the direction, and the model starts at the requested initial angle, for any shape and regularization.",
     ["inputs", "configurations"],
     "All directions and radii in the sampling space, shapes, regularization on or off, initial values.",
     "Tests draw one set of samples and compare distributions at low power.",
     [DI], [("two-dimensional parametrization", DI + "::angle")], ["distributions.angle"])
prop("P02", "The unit-disk prior is uniform on the disk and keeps its start value",
     "The two coordinates always satisfy x^2+y^2 < 1, their joint prior density is constant on the disk, and the model starts at the requested initial coordinates, for scalar and vector shapes.",
     ["inputs", "configurations"],
     "All points of the sampling space, shapes, initial values.",
     "Tests draw one sample set.",
     [DI], [("disk transform and Jacobian", DI + "::unit_disk")], ["distributions.unit_disk"])
prop("P03", "The limb darkening prior is uniform over the physical triangle",
     "The quadratic limb darkening coefficients always give a positive, monotonically decreasing brightness profile (u1 > 0, u1 + u2 < 1, u1 + 2 u2 > 0), their joint prior density is constant there, every such pair is reachable, and the model starts at the requested coefficients.",
     ["inputs", "configurations"],
     "All points of the sampling space, shapes and initial values.",
     "Tests draw one sample set and check the support.",
     [DI], [("Kipping transform", DI + "::quad_limb_dark")], ["distributions.quad_limb_dark"])
prop("P04", "The impact parameter prior is uniform up to grazing",
     "Conditional on the radius ratio, the impact parameter is uniformly distributed between 0 and 1 plus the ratio, elementwise for vectors, also when the ratio is itself random, and the model starts at the requested impact parameter.",
     ["inputs", "configurations"],
     "Radius ratios, shapes, initial values, fixed or random ratio.",
     "Tests draw one sample set.",
     [DI], [("scaling", DI + "::impact_parameter")], ["distributions.impact_parameter"])
prop("E01", "The Kipping (2013b) eccentricity prior has the published density",
     "The eccentricity prior is the Beta distribution with the published long- or short-period parameters (without a choice of periods: those of the fit to the full dataset), restricted to and normalized over the given bounds; with free hyperparameters the joint density includes their Gaussian uncertainties; an observed eccentricity contributes exactly the same log density as a sampled one.",
     ["inputs", "configurations"],
     "Eccentricities over (0,1), bounds on either or both sides, fixed or free hyperparameters, long or short periods, sampled or observed.",
     "Tests compare one sample set per configuration with a KS test.",
     [EC], [("beta / truncation / potential", EC + "::kipping13")], ["eccentricity.kipping13"])
prop("E02", "The Van Eylen (2019) eccentricity prior has the published mixture density",
     "The eccentricity prior is proportional to the published mixture of a half-Gaussian and a Rayleigh distribution (single- or multi-planet fraction) inside the bounds and vanishes outside; free hyperparameters carry their Gaussian uncertainties truncated to their ranges; an observed eccentricity contributes the same log density as a sampled one.",
     ["inputs", "configurations"],
     "Eccentricities, bounds, single/multi, fixed or free hyperparameters, sampled or observed.",
     "Tests compare one sample set per configuration with a KS test.",
     [EC], [("mixture potential", EC + "::vaneylen19")], ["eccentricity.vaneylen19"])
prop("R01", "Radial velocity amplitude and mass estimates are the least-squares ones",
     "The estimated semi-amplitudes are those of the weighted least-squares fit of one sinusoid per planet plus a constant (with phase fixed by the reference transits if these are given, in which case a planet that pulls the star with the orbit's sign convention gets a positive value), independent of the input units; the minimum mass follows from amplitude, period and stellar mass.",
     ["inputs", "configurations"],
     "One to three planets, irregular times, uncertainties given or not, transit times given or not, quantities with units.",
     "One simulated data set is tested.",
     [ES], [("design matrix and solve", ES + "::estimate_semi_amplitude"), ("mass", ES + "::estimate_minimum_mass")], ["estimate_semi_amplitude", "estimate_minimum_mass"])
prop("R02", "Periodogram peaks are the highest local maxima with a parabola fit",
     "The peaks found in a periodogram are its strict interior local maxima in order of decreasing power, at most the requested number; each reports the index of its grid point and the period, log power and uncertainty of the parabola through the log power at the point and its two neighbours, for increasing or decreasing frequency grids; without any peak an error is raised when a single peak was requested.",
     ["inputs"],
     "Periodograms with zero to many peaks, unevenly spaced or decreasing grids, edges, requested numbers of peaks.",
     "Only used indirectly by one test.",
     [ES], [("peak search", ES + "::find_peaks")], ["find_peaks"])
prop("R03", "Period searches return the peaks of the periodogram within the limits",
     "The Lomb-Scargle, box-least-squares and autocorrelation searches look only at periods within the requested limits and report the highest peaks of what they computed; all box-least-squares quantities reported at the peak belong to the same best grid period; a noiseless periodic signal is found at its period, where the highest power is a peak at all (not shared by neighbouring grid points).",
     ["inputs", "configurations"],
     "Signals of different periods and samplings, limits on either side, filters.",
     "One signal per method is tested.",
     [ES], [("Lomb-Scargle", ES + "::lomb_scargle_estimator"), ("BLS", ES + "::bls_estimator"), ("autocorrelation", ES + "::autocorr_estimator")], ["lomb_scargle_estimator", "bls_estimator", "autocorr_estimator"])
prop("C01", "Each model collects exactly the citations of what it uses",
     "The citations of a model are those of the components that were built in it, whatever the order and number of components, each listed once and never those of another model; the acknowledgement lists every key, and the bibliography has an entry for each key that it mentions.",
     ["histories"],
     "All sequences of building components inside, outside and across models.",
     "One test builds one model.",
     [CI, K, LD, DI, EC], [("registry on the model", CI + "::add_citations_to_model/get_citations_for_model")], ["citations.get_citations_for_model"],
     [("citations of a model", "registry attached to each PyMC model", CI)])
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
