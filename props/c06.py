"""C06: lens coordinates represent the selected mod-q class."""
from lib.core import Test
from lib import coords, data, roots

RULE = (
    "As C05, for primes from 2 to 127 and q-th roots of unity instead of signs: rows compares the coordinates, unreduced and reduced, with a reference "
    "map up to roots of unity; snapped puts the scale just past the length of an edge and points in the middle of such simplices; loops compares the root of unity picked up along fundamental cycles and triangles of landmark edges with the class. "
    "Non-trivial: the class has a non-zero value on an edge of the complex (rows), on a cycle (loops)."
)
ASSUMPTIONS = ["asking for as many coordinates as landmarks leaves the map unreduced (up to a fixed unitary map)",
               "reductions are compared when the spectrum has a relative gap of at least 1e-5 at every cut",
               "one complex conjugation of all coordinates together is accepted"]
SP = coords.FLAT + ["flag:cone3", "flag:cone3", "flag:tele3", "flag:cone5", "flag:mix3", "flag:cone2"]
P = [3, 3, 3, 2, 5, 7, 11, 41, 127, 127]

TESTS = [
    Test("rows", lambda: roots.rows_strategy(P, spaces=SP), lambda c, x: roots.check_rows("lens", c, x), quick=2200, thorough=60000, modes=("nojit", "jit"), weight=0.8),
    Test("snapped", lambda: roots.rows_strategy(P, n=(6, 20), spaces=SP, snap=coords.snapping()), lambda c, x: roots.check_rows("lens", c, x), quick=700, thorough=16000, modes=("nojit", "jit"), weight=0.8),
    Test("loops", lambda: roots.loops_strategy(P, spaces=SP), lambda c, x: roots.check_loops("lens", c, x), quick=900, thorough=24000, modes=("nojit", "jit"), weight=0.8),
    Test("larger", lambda: roots.rows_strategy(P, n=(60, 300), spaces=["circle", "klein", "clifford", "random", "flag:moore3"]),
         lambda c, x: roots.check_rows("lens", c, x), quick=80, thorough=1500, modes=("nojit",)),
    # more than 256 landmarks: their numbers leave the range of 8-bit integers, those of the edges that of 16-bit ones
    Test("huge", lambda: roots.rows_strategy(P, n=(262, 330), spaces=["circle", "twocircles", "clifford", "klein", "random"], frac=False),
         lambda c, x: roots.check_rows("lens", c, x), quick=14, thorough=250, modes=("jit",)),
    Test("many", lambda: roots.rows_strategy(P, n=(6, 20), spaces=SP, wrap=data.many), lambda c, x: roots.check_rows("lens", c, x), quick=60, thorough=1200, modes=("nojit", "jit")),
]
