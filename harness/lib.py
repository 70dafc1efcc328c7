"""Driver-side helpers: run calls on the real code, project results to what the TLA+ specification
can compare exactly (integers, small rationals, 8-digit decimal numbers) and log one event per call."""
import json
import math
import os
import random
import signal
import sys
import time
import warnings

warnings.simplefilter("ignore")
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

INF = 2000000000          # +infinity in the specification
BAD = -1999999999         # "not a number the specification can read" (never equal to a specified value)
NAN = -1999999998

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JIT = 60 if TIER == "thorough" else 18
THOROUGH = TIER == "thorough"


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Driver:
    def __init__(self, prop, part, outdir, nshards, budget):
        self.prop, self.part = prop, part
        self.outdir = outdir
        self.nshards = nshards
        self.files = [open(os.path.join(outdir, f"{part}.{k}.ndjson"), "w") for k in range(nshards)]
        self.n = 0
        self.rng = random.Random(f"{SEED}:{prop}:{part}:{TIER}")
        self.nprng = np.random.RandomState(self.rng.randrange(2**31))
        self.t0 = time.time()
        self.budget = budget
        self.cur = os.open(os.path.join(outdir, f"{part}.cur"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
        self.kinds = {}
        self.case_timeout = 60
        signal.signal(signal.SIGALRM, _alarm)

    def exclude_jit(self):
        """time numba spends compiling does not count against the budget (up to JIT seconds)"""
        from numba.core import event
        d = self

        class L(event.Listener):
            depth, t, total = 0, 0.0, 0.0

            def on_start(self, ev):
                if self.depth == 0:
                    self.t = time.time()
                self.depth += 1

            def on_end(self, ev):
                self.depth -= 1
                if self.depth == 0:
                    dt = min(time.time() - self.t, JIT - self.total)
                    self.total += dt
                    d.t0 += dt
        event.register("numba:compile", L())

    def start(self):
        """the budget counts from here (after imports and JIT warm-up)"""
        self.t0 = time.time()

    def left(self):
        return self.budget - (time.time() - self.t0)

    def more(self, frac=1.0):
        """time left within `frac` of the budget"""
        return time.time() - self.t0 < self.budget * frac

    def note(self, text):
        os.pwrite(self.cur, (text[:4000] + "\n").ljust(200).encode(), 0)

    def emit(self, k, shard=None, **f):
        """shard: events that belong to one history go to the same shard, in order"""
        ev = {"k": k, "id": f"{self.part}:{self.n}"}
        ev.update(f)
        fh = self.files[(self.n if shard is None else shard) % self.nshards]
        fh.write(json.dumps(ev, default=_default) + "\n")
        self.n += 1
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def call(self, fn, *a, **kw):
        """-> (err, value); err is '' or the exception's type name ('Hang' when it did not return)"""
        signal.alarm(self.case_timeout)
        try:
            v = fn(*a, **kw)
            signal.alarm(0)
            return "", v
        except CaseTimeout:
            return "Hang", None
        except Exception as e:  # noqa
            signal.alarm(0)
            self.last_exc = repr(e)[:300]
            if os.environ.get("VERIF_TB"):
                import traceback
                sys.stderr.write(os.pread(self.cur, 4200, 0).decode(errors="replace") + traceback.format_exc())
            return type(e).__name__, None
        finally:
            signal.alarm(0)

    def close(self):
        for f in self.files:
            f.close()
        with open(os.path.join(self.outdir, f"{self.part}.done"), "w") as f:
            json.dump({"n": self.n, "kinds": self.kinds, "wall": time.time() - self.t0}, f)


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(f"not loggable: {type(o)}")


def to_np(a):
    """numpy view of whatever the code returned (numpy / torch / list / scalar)"""
    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    return np.asarray(a)


def ival(v, tol=1e-6):
    """integer projection of a float that the specification expects to be an integer"""
    try:
        v = float(to_np(v))
    except Exception:
        return BAD
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else -INF
    r = round(v)
    if abs(v - r) <= tol * max(1.0, abs(v)) and abs(r) < 1900000000:
        return int(r)
    return BAD


def sq(v):
    """integer projection of the square of a float (distances that are square roots)"""
    try:
        v = float(to_np(v))
    except Exception:
        return BAD
    if v < 0:
        return BAD
    return ival(v * v)


def ivals(a, tol=1e-6):
    a = to_np(a)
    if a.ndim == 0:
        return ival(a, tol)
    return [ivals(x, tol) for x in a]


def scaled(v, scale, tol=None):
    """round(v*scale) as an int, BAD/NAN/INF otherwise (approximate quantities compared with slack)"""
    try:
        v = float(to_np(v))
    except Exception:
        return BAD
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else -INF
    r = round(v * scale)
    if abs(r) >= 1900000000:
        return BAD
    return int(r)


def scaleds(a, scale):
    a = to_np(a)
    if a.ndim == 0:
        return scaled(a, scale)
    return [scaleds(x, scale) for x in a]


def num(v):
    """8 significant decimal digits: [mantissa, exponent], value = m * 10^e; special values carry a tag exponent"""
    try:
        v = float(to_np(v))
    except Exception:
        return [0, 9999]
    if math.isnan(v):
        return [1, 9999]
    if math.isinf(v):
        return [2 if v > 0 else -2, 9999]
    if v == 0 or abs(v) < 1e-290:
        return [0, 0]
    s = f"{v:.7e}"
    m, e = s.split("e")
    return [int(m.replace(".", "")), int(e) - 7]


def nums(a):
    a = to_np(a)
    if a.ndim == 0:
        return num(a)
    return [nums(x) for x in a]


def frac(v, maxden=100000, tol=1e-11):
    """reduced fraction [p, q] a float stands for; [NAN, 1] for NaN, [BAD, 1] when it is none with a small denominator"""
    from fractions import Fraction
    try:
        v = float(to_np(v))
    except Exception:
        return [BAD, 1]
    if math.isnan(v):
        return [NAN, 1]
    if math.isinf(v) or abs(v) > 1e9:
        return [BAD, 1]
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > tol * max(1.0, abs(v)) or abs(f.numerator) > 1900000000:
        return [BAD, 1]
    return [f.numerator, f.denominator]


def fracs(a, maxden=100000, tol=1e-11):
    a = to_np(a)
    if a.ndim == 0:
        return frac(a, maxden, tol)
    return [fracs(x, maxden, tol) for x in a]


def path_of(p):
    try:
        return [[int(i), int(j)] for i, j in p]
    except Exception:
        return [[-1, -1]]


def pad(x, n, rng=None):
    """append n all-NaN timestamps to a (sz, d) float array"""
    x = np.asarray(x, dtype=float)
    if n == 0:
        return x
    return np.vstack([x, np.full((n, x.shape[1]), np.nan)])


def rseries(rng, lo, hi, n, d):
    return [[rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]


def is_torch(a):
    return type(a).__module__.startswith("torch")


def run(main):
    """entry point of a driver module: argv = prop part outdir nshards budget"""
    prop, part, outdir, nshards, budget = sys.argv[1:6]
    d = Driver(prop, part, outdir, int(nshards), float(budget))
    d.exclude_jit()
    main(d)
    d.close()


def sf(v):
    """binary soft float <<m, e>> of the specification: v = m * 2^e with 2^28 <= m < 2^29"""
    try:
        v = float(to_np(v))
    except Exception:
        return [-1, 99999]
    if math.isnan(v):
        return [-2, 99999]
    if math.isinf(v):
        return [-3, 99999]
    if v == 0:
        return [0, 0]
    if v < 0:
        return [-4, 99999]
    f, e = math.frexp(v)
    m = int(f * 2**29)
    if m >= 2**29:
        m, e = m // 2, e + 1
    return [m, e - 29]


def sf_pow2(t):
    """soft float of 2^t (t may be far outside the range of floats)"""
    try:
        t = float(to_np(t))
    except Exception:
        return [-1, 99999]
    if math.isnan(t):
        return [-2, 99999]
    if math.isinf(t):
        return [0, 0] if t < 0 else [-3, 99999]
    if abs(t) > 1e9:
        return [-5, 99999]
    k = math.floor(t)
    m, e = sf(2.0 ** (t - k))
    return [m, e + int(k)]


def bits(v):
    """exact bit pattern of a float64 as three integers (all NaNs alike)"""
    v = float(v)
    if math.isnan(v):
        return [NAN, 0, 0]
    q = int(np.float64(v).view(np.uint64))
    return [q >> 42, (q >> 21) & 0x1FFFFF, q & 0x1FFFFF]


def snapshot(x):
    """deep copy of an input (arrays, tensors, lists, data frames), to tell whether a call changed it"""
    import copy
    if hasattr(x, "detach"):
        return x.detach().clone()
    return copy.deepcopy(x)


def same(x, s):
    if hasattr(x, "detach") or isinstance(x, (np.ndarray, np.generic)):
        a, b = to_np(x), to_np(s)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(p, q) for p, q in zip(a.ravel(), b.ravel()))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(x, dict):
        return isinstance(s, dict) and list(x) == list(s) and all(same(x[k], s[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(s) and len(x) == len(s) and all(same(p, q) for p, q in zip(x, s))
    if hasattr(x, "equals"):
        return bool(x.equals(s))
    if isinstance(x, float) and isinstance(s, float) and math.isnan(x) and math.isnan(s):
        return True
    return bool(x == s)
