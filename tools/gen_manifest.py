"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("differential testing against a dense reference model", "Every covered point of every generated data set is compared with an independent dense computation (up to one rotation per component); trusts ripser and NumPy/SciPy least squares; deviations up to the accuracy of the library's iterative solver are accepted."),
    "C02": ("generated loops densely sampled through the data, winding numbers against the class", "Winding numbers of triangles and of a cycle basis are read off the returned angles alone; trusts ripser for the class itself."),
    "C03": ("generated torsion and low-prime complexes, exact integer solver as oracle, observed through holonomy", "The existence of a lift is decided by exact integer elimination, the lift used by the library is observed through winding and Chern numbers; sizes are bounded by the cost of the exact elimination (about 45 landmarks)."),
    "C04": ("generated multi-class data, integer matrix recovered from the outputs", "Recovers the integer matrix from the output maps and checks unimodularity, the LLL conditions and the recorded matrices; trusts the individual circular coordinates (C01)."),
    "C05": ("differential testing against a reference map, and sign holonomy around loops", "The unreduced map is observed through proj_dim = landmarks-1; reduced maps are compared through inner products when eigenvalues are separated."),
    "C06": ("differential testing against a reference map, and root-of-unity holonomy around loops", "As C05, over complex numbers and for several primes."),
    "C07": ("differential testing against a reference map, and Chern numbers of closed surfaces", "Phases are compared with a dense harmonic reference; Chern numbers are computed by plaquette sums of the returned vectors."),
    "C08": ("property-based testing against a reference reduction, equivariance relations", "Compared where the reduction is well conditioned (measured by perturbation); elsewhere only shape, norm and equivariance are judged."),
    "C09": ("generated parameters against the interpolation formula, observed by a recording bump function", "Exact formula with rounding tolerance; refusals must coincide with the formula's domain."),
    "C10": ("generated matrices, radii and bump functions against the definition of the weights", "Direct comparison with the definition, also through all five kinds of coordinates with uncovered points."),
    "C11": ("generated data against a farthest-point predicate and rank computations modulo p", "Diagrams are compared with a second run of ripser, representatives are verified by exact linear algebra modulo p independent of ripser."),
    "C12": ("metamorphic testing over presentations of the same metric data", "Relations between two runs; data in general position only."),
    "C13": ("stateful property-based testing with a fresh-object model", "Random histories over object pools, every answer compared with a fresh object before and after the history."),
    "C14": ("exhaustive small cases and random large cases against the definition", "Exhaustive over all tuples for small vertex counts, random up to 64-bit sizes, compiled and interpreted."),
    "C15": ("generated matrices and thresholds against the definition of the Rips coboundary", "Exact comparison, compiled and interpreted."),
    "C16": ("generated cochains against the definition", "Exact comparison."),
    "C17": ("generated clouds and matrices against the greedy predicate", "Any greedy choice within rounding is accepted."),
    "C18": ("generated clouds against a reference shortest-path computation", "Reference graph search; ties in neighbour choice are discarded."),
    "C19": ("generated matrices against exact and extended-precision distances, metric axioms", "Tolerances follow the rounding of the expanded square."),
    "C20": ("algebraic laws over generated angles", "Group laws with rounding tolerance."),
    "C21": ("definition and laws over generated angles", "Closed formula of the documented colouring plus laws."),
    "C22": ("algebraic laws over generated vectors", "Laws with conditioning-aware tolerance near antipodal pairs."),
    "C23": ("algebraic laws and round trips over generated vectors", "Laws with rounding tolerance."),
    "C24": ("equivariance, continuity and round trips over generated unit vectors", "Judged away from the glued boundary of the fundamental domain."),
    "C25": ("generated arguments against the implicit equations of the spaces", "Membership equations and reproducibility under random global state."),
    "C26": ("generated plots, artists read back from the axes", "Reads artist data and offsets from the Agg backend; pixels of thumbnails are compared with a reference normalisation."),
    "C27": ("metamorphic testing of equivalent calls", "Pairs of calls of the real code are compared; reduced coordinates only where the reduction is well conditioned."),
}
M = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"from lib import boot; print(boot.ensure_deps())\"",
    "checks": [
        {
            "property": k,
            "quick_cmd": "/opt/venv/bin/python check.py %s" % k,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": "property-based testing (Hypothesis): " + t,
            "level": "exploration",
            "level_note": n,
        }
        for k, (t, n) in T.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo. Replay a failure with: /opt/venv/bin/python check.py <id> --replay <file>.",
}
if __name__ == "__main__":
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(M, f, indent=1)
        f.write("\n")
