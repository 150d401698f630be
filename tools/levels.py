"""What the manifest says about each check."""
TV = "Quint specification; trace validation of calls on the real code"
MC = "Quint specification model-checked with TLC; exhaustive replay"
NOTES = {}
LEVELS = {"K04": "model_checking", "C01": "model_checking", "T01": "model_checking", "T03": "model_checking"}
def note(ids, tech, text):
    for i in ids.split():
        NOTES[i] = (tech, text)
note("K01 K02 K03 K05 K06 K07 K09 K10", TV,
     "Scenarios (systems, parametrizations, times) are drawn from the specification's generator and replayed through the public API; every returned number is judged against the two-body model of spec/kepler.qnt in exact fixed-point arithmetic. Sampled, not exhaustive: the inputs are real numbers.")
note("K04", MC,
     "All 2^14 sets of parameters: rules against the constructor's phases in TLC, and every set replayed on the real constructor with the given values read back.")
note("K08 L01 L02 L03 L04 L05", TV,
     "Scenarios from the specification replayed through in_transit and get_light_curve; transit flags, fluxes, exposure integrals and eclipse sums judged against spec/limbdark.qnt (quadrature of the intensity over the blocked area). Sampled.")
note("K11", TV, "Symbolic gradients recorded from the real graph, judged against central differences of the specification's functions. Sampled.")
note("K12", TV, "Sessions of random queries against a store that the specification keeps: a repeated query must repeat its answer. Sampled histories.")
note("K13", TV, "Values and symbolic gradients of sampled anomalies and eccentricities, judged against the specification's own solution of Kepler's equation.")
note("L06", TV, "Tabulated values are recorded from the base light curve, the specification interpolates them. Sampled.")
note("T01", "Quint specification model-checked with TLC (labelling); trace validation of calls on the real code",
     "The binning by midpoints is equivalent to the nearest labelled transit: exhaustive for small instances in TLC. Positions, velocities and flags of sampled timing orbits are judged against the specification.")
note("T02 S01 I01 U01", TV, "Sampled scenarios from the specification, judged clause by clause in exact arithmetic.")
note("T03", MC, "The specification's set of expected times against the implementation's order of work in TLC for small instances, all of which are replayed, plus sampled large ones.")
note("P01 P02 P03 P04 E01 E02", TV, "Models are built with the real distributions; transformed draws, initial points and log densities are recorded and judged against the stated densities. Sampled points of the densities, not of the sampler's output.")
note("R01 R02 R03", TV, "Sampled data sets from the specification; the fits and peaks that the estimators return are judged against exact least squares and peak definitions in the specification.")
note("C01", MC, "The citation registry as a state machine, invariants in TLC, all short histories replayed on real models.")
NOT_APPLICABLE = {}
import os, re
_h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
_have = set()
for f in os.listdir(_h):
    if f.startswith("checks_"):
        _have |= set(re.findall(r"check_([A-Z]\d\d)", open(os.path.join(_h, f)).read()))
for i in NOTES:
    if i not in _have:
        NOT_APPLICABLE[i] = "the check is under construction"
