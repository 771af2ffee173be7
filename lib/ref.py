"""Reference models, written from the definitions with dense matrices, independent of the code under test.

Only the persistence computation itself (ripser, a dependency) is shared."""
import itertools
import numpy as np
import scipy.linalg
from ripser import ripser


class EM:
    """Landmarks, distances, sorted diagrams and representative cocycles."""

    def __init__(self, X, nl, dm, prime, maxdim=1):
        X = np.asarray(X)
        if dm and X.shape[0] != X.shape[1]:
            inp = X[:, : X.shape[0]]
        else:
            inp = X
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = ripser(inp, distance_matrix=dm, coeff=prime, maxdim=maxdim, n_perm=nl, do_cocycles=True)
        self.p = prime
        self.land = np.asarray(res["idx_perm"]).astype(int)
        self.L = len(self.land)
        if dm and X.shape[0] != X.shape[1]:
            self.DLD = np.asarray(X[self.land, :], dtype=float)
        else:
            self.DLD = np.asarray(res["dperm2all"], dtype=float)
        self.N = self.DLD.shape[1]
        self.DLL = self.DLD[:, self.land]
        # for point clouds, a tie in the farthest-point choice is a matter of rounding
        self.fragile = False
        if not dm and self.L < self.N:
            cur = self.DLD[0].copy()
            for i in range(1, self.L):
                top = cur.max()
                near = np.nonzero(cur >= top * (1 - 1e-7))[0]
                if len(near) > 1:
                    self.fragile = True
                    break
                cur = np.minimum(cur, self.DLD[i])
        pos = {int(v): i for i, v in enumerate(self.land)}
        self.dgms, self.coc = {}, {}
        for k in range(1, maxdim + 1):
            dg = np.asarray(res["dgms"][k], dtype=float).reshape(-1, 2)
            o = np.argsort(dg[:, 0] - dg[:, 1], kind="stable")
            self.dgms[k] = dg[o]
            self.coc[k] = []
            for i in o:
                c = {}
                for row in np.asarray(res["cocycles"][k][i]):
                    s = [pos[int(v)] for v in row[:-1]]
                    sg = perm_sign(s)
                    c[tuple(sorted(s))] = (sg * int(row[-1])) % prime
                self.coc[k].append(c)

    def n_classes(self, k=1):
        return len(self.dgms[k])

    def tied(self, k, i):
        """Is the position of the i-th bar ambiguous?"""
        pers = self.dgms[k][:, 1] - self.dgms[k][:, 0]
        d = np.abs(pers - pers[i])
        d[i] = np.inf
        return bool(d.size and d.min() <= 1e-6 * max(1e-12, float(np.abs(self.dgms[k]).max())))


def perm_sign(s):
    return (-1) ** sum(1 for i in range(len(s)) for j in range(i + 1, len(s)) if s[i] > s[j])


def balanced(v, p):
    v %= p
    return v - p if v > (p - 1) / 2 else v


def lift(c, p):
    return {s: balanced(v, p) for s, v in c.items() if v % p}


def radius(birth, death, perc, std):
    """(r, R) or None when the call must be refused"""
    start = 2 * birth if std else birth
    if start > death:
        return None
    R = (1 - perc) * start + perc * death
    return R / 2, R


BUMPS = {
    "linear": lambda d, r: r - d,
    "quadratic": lambda d, r: (r - d) ** 2,
    "exp": lambda d, r: np.exp(r**2 / (d**2 - r**2)),
    "ones": lambda d, r: np.ones_like(d),
    "tent": lambda d, r: np.minimum(r - d, 0.5 * r),
    "cubic": lambda d, r: (1 - d / r) ** 3,
}


def partition(DLD, r, bump):
    """weights (L x N), covered mask"""
    U = DLD < r
    phi = np.zeros(DLD.shape)
    if U.any():
        phi[U] = BUMPS[bump](DLD[U], r)
    den = phi.sum(0)
    cov = den > 0
    with np.errstate(all="ignore"):
        w = phi / den[None, :]
    return w, cov


def margin(em, r, R, rel=1e-5):
    """Is some distance so close to the scale that strict comparison is a matter of rounding?"""
    off = em.DLL[~np.eye(em.L, dtype=bool)]
    return bool((off.size and np.abs(off - R).min() < rel * R) or np.abs(em.DLD - r).min() < rel * r)


def edges(DLL, R):
    L = len(DLL)
    return [(i, j) for i in range(L) for j in range(i + 1, L) if DLL[i, j] < R]


def adjacency(DLL, R):
    A = DLL < R
    A = A & ~np.eye(len(DLL), dtype=bool)
    return A


def triangles(A):
    L = len(A)
    out = []
    for i in range(L):
        for j in range(i + 1, L):
            if A[i, j]:
                both = np.nonzero(A[i] & A[j])[0]
                out.extend((i, j, int(k)) for k in both if k > j)
    return out


def tetrahedra(A, tris=None):
    out = []
    for i, j, k in tris if tris is not None else triangles(A):
        both = np.nonzero(A[i] & A[j] & A[k])[0]
        out.extend((i, j, k, int(l)) for l in both if l > k)
    return out


def cochain1(c, L):
    """Antisymmetric matrix of a 1-cochain given on increasing edges."""
    N = np.zeros((L, L))
    for (i, j), v in c.items():
        N[i, j] = v
        N[j, i] = -v
    return N


def is_cocycle1(N, A, p=None):
    for i, j, k in triangles(A):
        s = N[i, j] + N[j, k] + N[k, i]
        if (s % p if p else s) != 0:
            return False
    return True


def failing_triangles(N, A):
    return [(i, j, k) for i, j, k in triangles(A) if N[i, j] + N[j, k] + N[k, i] != 0]


def components(A):
    L = len(A)
    comp = -np.ones(L, dtype=int)
    c = 0
    for s in range(L):
        if comp[s] < 0:
            stack = [s]
            comp[s] = c
            while stack:
                v = stack.pop()
                for w in np.nonzero(A[v])[0]:
                    if comp[w] < 0:
                        comp[w] = c
                        stack.append(int(w))
            c += 1
    return comp


class Harmonic:
    """Least-squares (harmonic) representative of an integer 1-cochain over the edges shorter than R."""

    def __init__(self, N, DLL, R):
        self.E = edges(DLL, R)
        L = len(DLL)
        self.B = np.zeros((len(self.E), L))
        for e, (i, j) in enumerate(self.E):
            self.B[e, i] = 1
            self.B[e, j] = -1
        self.n = np.array([N[i, j] for i, j in self.E], dtype=float)
        self.tau, _, self.rank, sv = np.linalg.lstsq(self.B, self.n, rcond=None)
        self.theta = self.n - self.B @ self.tau
        self.smin = float(sv[self.rank - 1]) if self.rank else 1.0
        self.T = np.zeros((L, L))
        for e, (i, j) in enumerate(self.E):
            self.T[i, j] = self.theta[e]
            self.T[j, i] = -self.theta[e]
        nrm = np.sqrt(2 * max(1, len(self.E)))
        # a solver stopping at relative accuracy 1e-6 may be off by this much in tau
        self.err = 1e-6 * nrm * float(np.linalg.norm(self.theta)) / self.smin**2 + 1e-6 * float(np.linalg.norm(self.n)) / self.smin * 1e-3


def circle_map(H, w, first):
    """Values in turns."""
    f = H.tau[first] + np.einsum("rb,br->b", np.nan_to_num(w), H.T[first, :])
    return f


def compare_circle(got, f, comp_of_point, tol):
    """Largest deviation (radians) of got from 2*pi*f up to one rotation per component."""
    worst, where = 0.0, None
    for c in np.unique(comp_of_point):
        idx = np.nonzero(comp_of_point == c)[0]
        d = got[idx] - 2 * np.pi * f[idx]
        z = np.exp(1j * d)
        ref = z[0]
        m = np.mean(z * np.conj(ref))
        if abs(m) > 0.5:
            ref = ref * m / abs(m)
        dev = np.abs(np.angle(z * np.conj(ref)))
        if dev.max() > worst:
            worst, where = float(dev.max()), int(idx[int(np.argmax(dev))])
    return worst, where


# ---- exact integer algebra ------------------------------------------------------------------------------------

def integer_solvable(rows, rhs):
    """Has the system  sum coef*y = rhs  (sparse rows: dict variable->coef) an integer solution?"""
    subst = {}

    def resolve(row, b):
        row = dict(row)
        while True:
            hit = [v for v in row if v in subst]
            if not hit:
                return row, b
            for v in hit:
                c = row.pop(v, 0)
                if not c:
                    continue
                e, k = subst[v]
                b -= c * k
                for u, x in e.items():
                    y = row.get(u, 0) + c * x
                    if y:
                        row[u] = y
                    else:
                        row.pop(u, None)

    pending = list(zip(rows, rhs))
    while True:
        left, progress = [], False
        for row, b in pending:
            row, b = resolve(row, b)
            if not row:
                if b:
                    return False
                continue
            unit = [v for v, c in row.items() if abs(c) == 1]
            if unit:
                v = unit[0]
                c = row.pop(v)
                subst[v] = ({u: -c * x for u, x in row.items()}, c * b)
                progress = True
            else:
                left.append((row, b))
        pending = left
        if not progress:
            break
    if not pending:
        return True
    # what is left is small: column operations, with exact integers
    var = sorted({v for r, _ in pending for v in r})
    cols = [[r.get(v, 0) for r, _ in pending] for v in var]
    b = [x for _, x in pending]
    for i in range(len(pending)):
        while True:
            nz = [c for c in cols if c[i]]
            if len(nz) <= 1:
                break
            nz.sort(key=lambda c: abs(c[i]))
            for c in nz[1:]:
                q = c[i] // nz[0][i]
                for t in range(len(c)):
                    c[t] -= q * nz[0][t]
        nz = [c for c in cols if c[i]]
        if nz:
            c = nz[0]
            if b[i] % c[i]:
                return False
            q = b[i] // c[i]
            b = [x - q * y for x, y in zip(b, c)]
            cols = [x for x in cols if x is not c]
        elif b[i]:
            return False
    return True


def coboundary_rows(simps):
    """Rows of the coboundary landing on the given (increasing) simplices, as sparse dicts over their facets."""
    out = []
    for s in simps:
        out.append({s[:t] + s[t + 1:]: (-1) ** t for t in range(len(s))})
    return out


def has_integral_lift(c, p, A, k=1):
    """Does the mod-p cocycle c (dict on increasing simplices) lift to an integer cocycle of the flag complex of A?"""
    top = triangles(A) if k == 1 else tetrahedra(A)
    l = lift(c, p)
    rows = coboundary_rows(top)
    rhs = []
    for r in rows:
        v = sum(x * l.get(f, 0) for f, x in r.items())
        if v % p:
            raise ValueError("not a cocycle mod p")
        rhs.append(v // p)
    if not any(rhs):
        return True, True
    return integer_solvable(rows, rhs), False


def rank_mod(M, p):
    M = np.array(M, dtype=np.int64) % p
    if M.size == 0:
        return 0
    r = 0
    rows, cols = M.shape
    for c in range(cols):
        piv = np.nonzero(M[r:, c])[0]
        if len(piv) == 0:
            continue
        k = r + piv[0]
        if k != r:
            M[[r, k]] = M[[k, r]]
        M[r] = (M[r] * pow(int(M[r, c]), -1, p)) % p
        o = np.nonzero(M[:, c])[0]
        o = o[o != r]
        if len(o):
            M[o] = (M[o] - M[o, c][:, None] * M[r][None, :]) % p
        r += 1
        if r == rows:
            break
    return r


def coboundary_matrix(simps, faces):
    ix = {f: i for i, f in enumerate(faces)}
    B = np.zeros((len(simps), len(faces)), dtype=np.int64)
    for r, s in enumerate(simps):
        for t in range(len(s)):
            B[r, ix[s[:t] + s[t + 1:]]] += (-1) ** t
    return B


def is_coboundary_mod(v, simps, faces, p):
    B = coboundary_matrix(simps, faces)
    v = np.asarray(v, dtype=np.int64).reshape(-1, 1)
    return rank_mod(np.concatenate([B, v], 1), p) == rank_mod(B, p)


# ---- complex projective reference --------------------------------------------------------------------------------

class Harmonic2:
    """Least-squares representative of an integer 2-cochain over the triangles of the complex at scale R."""

    def __init__(self, c, DLL, R):
        L = len(DLL)
        self.A = adjacency(DLL, R)
        self.E = edges(DLL, R)
        self.T = triangles(self.A)
        ix = {e: i for i, e in enumerate(self.E)}
        B = np.zeros((len(self.T), len(self.E)))
        for t, (i, j, k) in enumerate(self.T):
            B[t, ix[(i, j)]] += 1
            B[t, ix[(j, k)]] += 1
            B[t, ix[(i, k)]] -= 1
        self.n = np.array([c.get(t, 0) for t in self.T], dtype=float)
        self.nu, _, rank, sv = np.linalg.lstsq(B, self.n, rcond=None)
        self.eta = self.n - B @ self.nu
        smin = float(sv[rank - 1]) if rank else 1.0
        self.NU = np.zeros((L, L))
        for e, (i, j) in enumerate(self.E):
            self.NU[i, j] = self.nu[e]
            self.NU[j, i] = -self.nu[e]
        self.ETA = np.zeros((L, L, L))
        for t, (i, j, k) in enumerate(self.T):
            v = self.eta[t]
            self.ETA[i, j, k] = self.ETA[j, k, i] = self.ETA[k, i, j] = v
            self.ETA[i, k, j] = self.ETA[j, i, k] = self.ETA[k, j, i] = -v
        nrm = np.sqrt(3 * max(1, len(self.T)))
        self.err = 1e-6 * nrm * float(np.linalg.norm(self.eta)) / smin**2 + 1e-9 * float(np.linalg.norm(self.n)) / smin


def cp_map(H, w, first):
    """Rows: unit vectors of the complex projective map."""
    w = np.nan_to_num(w)
    ph = H.NU[:, first].T + np.einsum("tb,ibt->bi", w, H.ETA[:, first, :])
    return np.exp(2j * np.pi * ph) * np.sqrt(w.T)


def root_map(c, q, L, w, first):
    """Rows: unit vectors of the lens (q>2) or real projective (q=2) map."""
    C = np.zeros((L, L))
    for (i, j), v in c.items():
        C[i, j] = v
        C[j, i] = -v
    z = np.exp(2j * np.pi * C / q)
    if q == 2:
        z = np.where(C % 2 == 0, 1.0, -1.0)
    return np.sqrt(np.nan_to_num(w.T)) * z[first, :]


# ---- equivariant reduction ----------------------------------------------------------------------------------------

def schedule(n, keep, mode):
    """Numbers of dimensions after each step."""
    if mode == "direct":
        return [keep] if keep < n else []
    if mode == "one-by-one":
        return list(range(n - 1, keep - 1, -1))
    out, s = [], (n - keep) // 2
    while s > 0:
        out.append(keep + s)
        s //= 2
    if (out[-1] if out else n) > keep:
        out.append(keep)
    return out


def reduce_rows(V, keep, mode):
    """(rows, smallest relative spectral gap at a cut, smallest length of a projected row, reported variances)"""
    gap, short, var = np.inf, np.inf, []
    V = np.array(V)
    for m in schedule(V.shape[1], keep, mode):
        S = V.T @ V.conj()
        lam, U = scipy.linalg.eigh(S, driver="ev")  # the default one does not always converge
        lam, U = lam[::-1], U[:, ::-1]
        if lam[m] > 1e-10 * lam[0]:
            gap = min(gap, float((lam[m - 1] - lam[m]) / lam[0]))
        if mode == "one-by-one":
            var.append(float(np.mean(np.arcsin(np.clip(np.abs(V @ U[:, -1].conj()), 0, 1)) ** 2)))
        V = V @ U[:, :m].conj()
        nrm = np.linalg.norm(V, axis=1)
        short = min(short, float(nrm.min()))
        if short < 1e-9:
            return V, gap, short, var
        V = V / nrm[:, None]
    return V, gap, short, var


def sensitivity(V, W, keep, mode, eps=1e-12, rows=slice(None)):
    """How far the inner products of the reduced rows move when the rows move by about eps (reduction is not continuous
    where eigenvalues cross; one step can amplify what an earlier one left). Phases count: they are all there is to one entry."""
    g = np.random.default_rng(7)
    W = W[rows]
    G, worst = W @ W.conj().T, 0.0
    for _ in range(3):
        Z = V * (1 + eps * g.normal(size=V.shape)) + eps * np.abs(V).max() * g.normal(size=V.shape)
        Z = reduce_rows(Z / np.linalg.norm(Z, axis=1)[:, None], keep, mode)[0][rows]
        worst = max(worst, float(np.abs(Z @ Z.conj().T - G).max()))
    return worst


def gram_match(V, W, q, tol):
    """None when the rows of V are those of W up to a fixed unitary map and unit scalars of the rows
    (q-th roots of unity, relative to each other, when q is given); otherwise what differs."""
    G, H = V @ V.conj().T, W @ W.conj().T
    d = np.abs(np.abs(G) - np.abs(H))
    if not d.max() <= tol:
        b = np.unravel_index(int(np.argmax(d)), d.shape)
        return "inner product of points %d and %d has modulus %.6f, expected %.6f" % (b[0], b[1], abs(G[b]), abs(H[b]))
    n = len(G)
    thr = max(0.02, 20 * tol)
    s = np.zeros(n, dtype=complex)
    comp = -np.ones(n, dtype=int)
    big = np.abs(H) > thr
    for start in range(n):
        if comp[start] >= 0:
            continue
        comp[start], s[start] = start, 1
        # strongest links first, so that phases are read where they are well determined
        stack = [start]
        while stack:
            a = stack.pop()
            for b in np.argsort(-np.abs(H[a])):
                if not big[a, b]:
                    break
                if comp[b] < 0:
                    # G_ab = s_a conj(s_b) H_ab
                    z = np.conj(G[a, b] / H[a, b]) * s[a]
                    s[b] = z / abs(z)
                    comp[b] = start
                    stack.append(int(b))
    same = comp[:, None] == comp[None, :]
    e = np.abs(G - s[:, None] * np.conj(s)[None, :] * H) * same
    depth_tol = tol * 60 / thr * 0.02 + 20 * tol
    if not e.max() <= depth_tol:
        b = np.unravel_index(int(np.argmax(e)), e.shape)
        return "points %d and %d have inner product %s, expected %s up to unit scalars" % (b[0], b[1], np.round(G[b], 6), np.round(s[b[0]] * np.conj(s[b[1]]) * H[b], 6))
    if q:
        r = np.abs(s**q - 1)
        # relative to the first point of each group, a root of unity
        if not r.max() <= q * depth_tol + 1e-6:
            b = int(np.argmax(r))
            return "point %d differs by the scalar %s, which is not a root of unity of order %d" % (b, np.round(s[b], 6), q)
    return None
