"""C05: real projective coordinates represent the selected mod-2 class."""
from hypothesis import strategies as st
from lib.core import Test
from lib import coords, data, roots

RULE = (
    "rows: a metric data set, a class, a scale, a target dimension and a reduction mode; the coordinates with nothing reduced and the reduced ones are "
    "compared, through all pairwise inner products and up to signs, with a reference map. loops: the data set is the landmarks with dense samples of every "
    "landmark edge, and the sign picked up along fundamental cycles and triangles is compared with the class. Non-trivial: the class has a non-zero "
    "value on an edge of the complex (rows), on a cycle (loops)."
)
ASSUMPTIONS = ["asking for as many coordinates as landmarks leaves the map unreduced (up to a fixed orthogonal map)",
               "reductions are compared when the spectrum has a relative gap of at least 1e-5 at every cut"]
SP = coords.FLAT + ["flag:rp2", "rp2", "rp2", "flag:mix2", "flag:cone2", "klein"]

TESTS = [
    Test("rows", lambda: roots.rows_strategy([2], spaces=SP), lambda c, x: roots.check_rows("projective", c, x), quick=2200, thorough=60000, modes=("nojit", "jit"), weight=0.8),
    Test("snapped", lambda: roots.rows_strategy([2], n=(6, 20), spaces=SP, snap=coords.snapping()), lambda c, x: roots.check_rows("projective", c, x), quick=700, thorough=16000, modes=("nojit", "jit"), weight=0.8),
    Test("loops", lambda: roots.loops_strategy([2], spaces=SP), lambda c, x: roots.check_loops("projective", c, x), quick=900, thorough=24000, modes=("nojit", "jit"), weight=0.8),
    Test("larger", lambda: roots.rows_strategy([2], n=(60, 300), spaces=["circle", "klein", "rp2", "rp2", "clifford", "random"]),
         lambda c, x: roots.check_rows("projective", c, x), quick=80, thorough=1500, modes=("nojit",)),
    # more than 256 landmarks: their numbers leave the range of 8-bit integers, those of the edges that of 16-bit ones
    Test("huge", lambda: roots.rows_strategy([2], n=(262, 330), spaces=["circle", "twocircles", "clifford", "klein", "random", "rp2"], frac=False),
         lambda c, x: roots.check_rows("projective", c, x), quick=14, thorough=250, modes=("jit",)),
    Test("many", lambda: roots.rows_strategy([2], n=(6, 20), spaces=SP, wrap=data.many), lambda c, x: roots.check_rows("projective", c, x), quick=60, thorough=1200, modes=("nojit", "jit")),
]
