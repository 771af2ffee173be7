"""What a property module is made of: tests over generated cases, and the context they judge in."""
import hashlib
import json
import warnings
import traceback
import numpy as np


class Violation(Exception):
    """The code under test broke the property."""


class Discard(Exception):
    """The generated case lies outside the property's domain, or too close to a tie to be judged."""


class HarnessError(Exception):
    """The machinery itself is wrong."""


class Test:
    def __init__(self, name, strategy, check, quick, thorough, modes=("jit",), fixed=(), weight=None,
                 fixed_thorough=(), max_s=None):
        self.name = name
        self.strategy = strategy          # callable returning a Hypothesis strategy of JSON-able cases
        self.check = check                # check(case, ctx)
        self.quick = quick                # number of generated cases, all shards together
        self.thorough = thorough
        self.modes = modes                # which workers run it: "jit", "nojit"
        self.fixed = fixed                # cases always run (list or callable)
        self.fixed_thorough = fixed_thorough
        # share of the generated cases given to the nojit workers when both modes are used
        self.weight = weight if weight is not None else 0.8
        self.max_s = max_s


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    """One per case."""

    def __init__(self, mode="jit", tier="quick", replay=False):
        self.mode = mode
        self.tier = tier
        self.replay = replay
        self.labels = []
        self.is_nontrivial = False
        self.notes = {}
        self.discarded = None

    # -- bookkeeping
    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def note(self, **kw):
        self.notes.update(kw)

    def discard(self, why):
        raise Discard(why)

    # -- judging
    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def call(self, fn, *args, **kw):
        """Call the code under test; on a valid input it must not raise."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s\n%s" % (_name(fn), type(e).__name__, e, _tail()))

    def call_warn(self, fn, *args, **kw):
        """As call, but also return the warnings raised."""
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                with np.errstate(all="ignore"):
                    r = fn(*args, **kw)
            return r, [str(x.message) for x in w]
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s\n%s" % (_name(fn), type(e).__name__, e, _tail()))

    def call_raises(self, fn, *args, **kw):
        """The call must be refused with an exception; returns it."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    r = fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            return e
        raise Violation("%s should have been refused, but returned %s" % (_name(fn), short(str(r), 200)))

    def outcome(self, fn, *args, **kw):
        """("ok", value, warnings) or ("raised", type, message)"""
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                with np.errstate(all="ignore"):
                    r = fn(*args, **kw)
            return ("ok", r, [str(x.message) for x in w])
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            return ("raised", type(e).__name__, str(e))

    def array(self, x, shape=None, what="output", kind=None, finite=False):
        """Interpret an output as an array of the promised shape."""
        try:
            a = np.asarray(x)
        except Exception as e:
            raise Violation("%s is not an array: %r" % (what, e))
        if a.dtype.kind not in "biufc":
            raise Violation("%s is not numeric: dtype %s" % (what, a.dtype))
        if shape is not None and tuple(a.shape) != tuple(shape):
            raise Violation("%s has shape %s, expected %s" % (what, a.shape, tuple(shape)))
        if kind == "real" and a.dtype.kind == "c":
            raise Violation("%s is complex" % what)
        if kind == "int":
            if a.dtype.kind not in "iu":
                raise Violation("%s is not of integer type: %s" % (what, a.dtype))
        if finite and not np.all(np.isfinite(a)):
            raise Violation("%s has undefined entries" % what)
        return a

    def close(self, a, b, tol, what="values", rtol=0.0):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
        if a.size == 0:
            return
        na, nb = np.isnan(a), np.isnan(b)
        if np.any(na != nb):
            raise Violation("%s: undefined entries differ (got %d, expected %d)" % (what, na.sum(), nb.sum()))
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            d = np.where(na | (a == b), 0.0, d)
            lim = tol + rtol * np.abs(np.where(nb | np.isinf(b), 0.0, b))
            bad = ~(d <= lim)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(bad, d, -1))), a.shape)
            raise Violation(
                "%s: entry %s is %r, expected %r (difference %.3g, tolerance %.3g)"
                % (what, tuple(int(k) for k in i), a[i].item(), b[i].item(), float(d[i]),
                   float(np.broadcast_to(lim, a.shape)[i]))
            )

    def equal(self, a, b, what="values"):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
        if not np.array_equal(a, b, equal_nan=(a.dtype.kind in "fc" and b.dtype.kind in "fc")):
            raise Violation("%s: got %s, expected %s" % (what, short(str(a), 300), short(str(b), 300)))

    def circle_close(self, a, b, tol, what="angles"):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
        na, nb = np.isnan(a), np.isnan(b)
        if np.any(na != nb):
            raise Violation("%s: undefined entries differ (got %d, expected %d)" % (what, na.sum(), nb.sum()))
        if a.size == 0:
            return
        d = np.abs((a - b + np.pi) % (2 * np.pi) - np.pi)
        d = np.where(na, 0, d)
        if not np.max(d) <= tol:
            i = np.unravel_index(int(np.argmax(d)), a.shape)
            raise Violation("%s: entry %s is %r, expected %r (difference %.3g, tolerance %.3g)"
                            % (what, tuple(int(k) for k in i), a[i].item(), b[i].item(), float(d[i]), tol))


def _name(fn):
    return getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))


def _tail():
    return "".join(traceback.format_exc().strip().splitlines(True)[-4:])
