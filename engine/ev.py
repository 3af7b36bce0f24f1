"""Comparison of derived transfer functions (guarded closed-form terms).

A function summary is a list of (facts, value) pairs produced by the abstract
interpreter.  Two summaries are compared case class by case class: the finite
set of sign / ordering / variant classes is enumerated; inside a class every
piecewise operation (min, max, abs, signum, comparisons, selections) has a
fixed outcome and the values are compared exactly
  - Gen:  as rational functions over indeterminates (normal form: cross
          multiplied polynomials with rational coefficients), containers being
          instantiated at a small generic dimension;
  - Ieee: on the special-value classes (NaN, +-inf, signed zero) with the IEEE
          transfer function of every operation.
"""
from fractions import Fraction as Fr
import math
from terms import *
import terms as TM


IOPS = {"idiv": lambda x, y: x // y, "irem": lambda x, y: x % y, "ibitand": lambda x, y: x & y, "ibitor": lambda x, y: x | y,
        "ibitxor": lambda x, y: x ^ y, "ishr": lambda x, y: x >> y, "ishl": lambda x, y: x << y & (1 << 64) - 1}


class Unk(Exception):
    pass


# ------------------------------------------------------------------ polynomials
_vars = {}


def varno(key):
    if key not in _vars:
        _vars[key] = len(_vars)
    return _vars[key]


class Poly:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def add(self, o, k=1):
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def mul(self, o):
        r = {}
        if len(self.d) * len(o.d) > 400000:
            raise Unk("polynomial too large")
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mm(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def key(self):
        return tuple(sorted(self.d.items()))


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for k, e in b:
        r[k] = r.get(k, 0) + e
    return tuple(sorted(r.items()))


P0, P1 = Poly({}), Poly({(): Fr(1)})


class G:
    """generic scalar: rational function + sample value selecting the case class"""
    __slots__ = ("n", "d", "s")

    def __init__(self, n, d, s):
        self.n, self.d, self.s = n, d, s

    def key(self):
        if self.n is None:
            return ("x", self.s)
        return ("r", self.n.key(), self.d.key())


def gc(x):
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return G(None, None, x)
        x = Fr(x)
    return G(Poly({(): Fr(x)}) if x else P0, P1, Fr(x))


def gvar(key, s):
    return G(Poly({((varno(key), 1),): Fr(1)}), P1, Fr(s))


STEPFN = {"ffloor": lambda x: Fr(math.floor(x)), "fceil": lambda x: Fr(math.ceil(x)), "ftrunc": lambda x: Fr(int(x)),
          "fround": lambda x: Fr(math.floor(abs(x) + Fr(1, 2))) * (-1 if x < 0 else 1)}
SMOOTH = {"fsqrt": math.sqrt, "sqrt": math.sqrt, "fexp": math.exp, "fln": math.log, "fsin": math.sin, "fcos": math.cos, "ftan": math.tan,
          "ftanh": math.tanh, "flog10": math.log10, "flog2": math.log2, "fcbrt": math.cbrt if hasattr(math, "cbrt") else lambda x: math.copysign(abs(x) ** (1 / 3), x), "fatan2": math.atan2}


class Gen:
    name = "generic"

    def const(self, x):
        return gc(x)

    def var(self, key):
        h = varno(("s", key))
        # generic positive / negative samples without accidental coincidences
        v = Fr(101 + 37 * h * h + 11 * h, 64 + 7 * h)
        return gvar(key, v if (h % 3) else -v)

    def ck(self, *a):
        for x in a:
            if x.n is None:
                raise Unk("special value in the generic class")

    def add(self, a, b):
        self.ck(a, b)
        if a.d is b.d or a.d.d == b.d.d:
            return G(a.n.add(b.n), a.d, a.s + b.s)
        return G(a.n.mul(b.d).add(b.n.mul(a.d)), a.d.mul(b.d), a.s + b.s)

    def neg(self, a):
        if a.n is None:
            return gc(-a.s)
        return G(P0.add(a.n, -1), a.d, -a.s)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        self.ck(a, b)
        return G(a.n.mul(b.n), a.d.mul(b.d), a.s * b.s)

    def div(self, a, b):
        self.ck(a, b)
        if not b.n.d or b.s == 0:
            raise Unk("division by zero in the generic class")
        return G(a.n.mul(b.d), a.d.mul(b.n), a.s / b.s)

    def rem(self, a, b):
        self.ck(a, b)
        if b.s == 0:
            raise Unk("division by zero in the generic class")
        q = a.s / b.s
        return self.sub(a, self.mul(b, gc(int(q))))          # the quotient is constant around the sample

    def lt(self, a, b):
        return a.s < b.s

    def le(self, a, b):
        return a.s <= b.s

    def eq(self, a, b):
        return a.s == b.s

    def isnan(self, a):
        return isinstance(a.s, float) and math.isnan(a.s)

    def abs(self, a):
        return self.neg(a) if a.s < 0 else a

    def sgn(self, a):
        return gc(-1) if a.s < 0 else gc(1)

    def min(self, a, b):
        return b if b.s < a.s else a

    def max(self, a, b):
        return b if b.s > a.s else a

    def fn(self, name, a):
        self.ck(*a)
        if name in STEPFN:                                    # constant around the sample
            return gc(STEPFN[name](a[0].s))
        s = 0
        try:
            f = SMOOTH.get(name)
            s = Fr(f(*(float(x.s) for x in a))) if f else None
        except (ValueError, OverflowError):
            raise Unk(name)
        if s is None:
            h = varno(("s", name, tuple(self.canon(x) for x in a)))
            s = Fr(211 + 53 * h * h, 97 + 5 * h)
        return gvar((name, tuple(self.canon(x) for x in a)), s)

    def canon(self, a):
        if isinstance(a, G):
            if a.n is None:
                return ("x", str(a.s))
            # canonical enough: sample value identifies the generic rational function
            return ("q", a.s)
        return a

    def same(self, a, b):
        if a.n is None or b.n is None:
            return a.n is None and b.n is None and (a.s == b.s or (a.s != a.s and b.s != b.s))
        if a.s != b.s:
            return False
        return not a.n.mul(b.d).add(b.n.mul(a.d), -1).d


class Ieee:
    name = "special"

    def const(self, x):
        return float(x)

    def var(self, key):
        raise Unk("free value in a special class")

    def add(self, a, b):
        return a + b

    def neg(self, a):
        return -a

    def sub(self, a, b):
        return a - b

    def mul(self, a, b):
        return a * b

    def div(self, a, b):
        if b == 0:
            if a == 0 or a != a:
                return math.nan
            s = math.copysign(1, a) * math.copysign(1, b)
            return s * math.inf
        return a / b

    def rem(self, a, b):
        if b == 0 or math.isinf(a) or a != a or b != b:
            return math.nan
        return math.fmod(a, b)

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def eq(self, a, b):
        return a == b

    def isnan(self, a):
        return a != a

    def abs(self, a):
        return abs(a)

    def sgn(self, a):
        if a != a:
            return a
        return math.copysign(1.0, a)

    def min(self, a, b):
        if a != a:
            return b
        if b != b:
            return a
        return min(a, b)

    def max(self, a, b):
        if a != a:
            return b
        if b != b:
            return a
        return max(a, b)

    def fn(self, name, a):
        if name in ("fsqrt", "sqrt"):
            return math.sqrt(a[0]) if a[0] >= 0 else math.nan
        if name in STEPFN:
            return float(STEPFN[name](Fr(a[0]))) if math.isfinite(a[0]) else a[0]
        if name in SMOOTH and all(math.isfinite(x) for x in a):
            try:
                return SMOOTH[name](*a)
            except (ValueError, OverflowError):
                raise Unk(name)
        raise Unk(name)

    def canon(self, a):
        return repr(a)

    def same(self, a, b):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-11 * (1 + max(abs(a), abs(b)))


class Agg:
    __slots__ = ("adt", "v", "f")

    def __init__(self, adt, v, f=()):
        self.adt, self.v, self.f = adt, v, list(f)

    def __repr__(self):
        return "%s#%d%s" % (self.adt.split("::")[-1], self.v, tuple(self.f) if self.f else "")


class Opq:
    """an unconstrained value; used as scalar it is an indeterminate"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "Opq%r" % (self.key,)


class Mat:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e     # e[i][j]


def col(vec):
    return Mat(len(vec), 1, [[x] for x in vec])


class Ev:
    def __init__(self, dom, env, n=2, prog=None):
        self.D, self.env, self.n = dom, dict(env), n
        self.memo = {}
        self.prog = prog
        self.ext = None     # hook(name, args) for uninterpreted calls
        self.depth = 0
        self.dec = []       # (term, outcome, difference) of every piecewise decision taken

    def decided(self, t, x, y, kind):
        if isinstance(x, G) and (y is None or isinstance(y, G)):
            try:
                if y is None:
                    self.dec.append((t, x.s < 0, x))
                else:
                    out = {"lt": x.s < y.s, "le": x.s <= y.s, "eq": x.s == y.s}[kind]
                    self.dec.append((t, out, self.D.sub(x, y) if x.n is not None and y.n is not None else None))
            except TypeError:
                pass

    # conversions
    def sc(self, v):
        if isinstance(v, Opq):
            return self.D.var(v.key)
        if isinstance(v, Mat) and v.r == 1 and v.c == 1:
            return v.e[0][0]
        if isinstance(v, bool) or isinstance(v, (list, Agg, Mat, str, int)):
            raise Unk("not a scalar: %r" % (v,))
        return v

    def matv(self, v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, list):
            return col([self.sc(x) for x in v])
        raise Unk("not a matrix: %r" % (v,))

    def num(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        raise Unk("not an integer: %r" % (v,))

    def b(self, t):
        v = self(t)
        if isinstance(v, bool):
            return v
        raise Unk("not a boolean: %s" % (t,))

    def canon(self, v):
        if isinstance(v, (G, float)):
            return self.D.canon(v)
        if isinstance(v, Agg):
            return (v.adt, v.v, tuple(self.canon(x) for x in v.f))
        if isinstance(v, Mat):
            return ("M", v.r, v.c, tuple(self.canon(x) for r in v.e for x in r))
        if isinstance(v, list):
            return ("L", tuple(self.canon(x) for x in v))
        if isinstance(v, Opq):
            return ("O", v.key)
        return v

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        r = self.memo.get(t)
        if r is None:
            self.depth += 1
            if self.depth > 900:
                raise Unk("term too deep")
            try:
                r = self.ev(t)
            finally:
                self.depth -= 1
            self.memo[t] = r
        return r

    def at(self, v, i):
        """v[i]; i python int or (int,int)"""
        if isinstance(v, Opq):
            return Opq((v.key, "at", i))
        if isinstance(v, list):
            if isinstance(i, tuple):
                if i[1] != 0:
                    raise Unk("matrix index into a vector")
                i = i[0]
            if not 0 <= i < len(v):
                raise Unk("index out of bounds")
            return v[i]
        if isinstance(v, Mat):
            if not isinstance(i, tuple):
                if v.c == 1:
                    i = (i, 0)
                else:
                    i = (i % v.r, i // v.r)
            if not (0 <= i[0] < v.r and 0 <= i[1] < v.c):
                raise Unk("index out of bounds")
            return v.e[i[0]][i[1]]
        if isinstance(v, Agg) and v.adt == "array":
            return v.f[i]
        raise Unk("index into %r" % (v,))

    def lam(self, l, *xs):
        if l.op == "lampair":
            return Agg("tuple", 0, [self.lam(l.args[0], *xs), self.lam(l.args[1], *xs)])
        if l.op == "lamrev":
            n = self.num(self(l.args[1]))
            return self.lam(l.args[0], n - 1 - xs[0])
        if l.op != "lam":
            raise Unk("not a lambda " + l.op)
        d, body = l.args
        key = ("bv", d)
        old_env, old_memo = self.env, self.memo
        x = xs[0]
        self.env = dict(self.env)
        self.env[mk("bv", d)] = x
        # only terms without free bound variables may be shared
        self.memo = {}
        try:
            if len(xs) == 1:
                return self(body)
            return self.lam(body, *xs[1:])
        finally:
            self.env, self.memo = old_env, old_memo

    def setat(self, v, k, x):
        if isinstance(k, tuple) and k and k[0] == "col":
            m = self.matv(v)
            e = [list(r) for r in m.e]
            xs = self.matv(x)
            if not 0 <= k[1] < m.c or xs.r != m.r:
                raise Unk("column store")
            for i in range(m.r):
                e[i][k[1]] = xs.e[i][0]
            return Mat(m.r, m.c, e)
        if isinstance(k, tuple) and k and k[0] == "row":
            m = self.matv(v)
            e = [list(r) for r in m.e]
            xs = self.matv(x)
            xs = xs.e[0] if xs.r == 1 else [r[0] for r in xs.e]
            for i in range(m.c):
                e[k[1]][i] = xs[i]
            return Mat(m.r, m.c, e)
        if isinstance(v, list):
            if isinstance(k, tuple):
                k = k[0]
            if not 0 <= k < len(v):
                raise Unk("store out of bounds")
            v = list(v)
            v[k] = x
            return v
        m = self.matv(v)
        if not isinstance(k, tuple):
            k = (k, 0) if m.c == 1 else (k % m.r, k // m.r)
        if not (0 <= k[0] < m.r and 0 <= k[1] < m.c):
            raise Unk("store out of bounds")
        e = [list(r) for r in m.e]
        e[k[0]][k[1]] = self.sc(x)
        return Mat(m.r, m.c, e)

    def index(self, t):
        if t.op == "agg" and t.args[0] == "tuple":
            return tuple(self.num(self(x)) for x in t.args[2])
        if t.op in ("col", "row"):
            return (t.op, self.num(self(t.args[0])))
        v = self(t)
        if isinstance(v, Agg) and v.adt == "tuple":
            return tuple(v.f)
        return self.num(v)

    def mul(self, a, b):
        D = self.D
        if a.c != b.r:
            if a.c == 1 and a.r == 1:
                return Mat(b.r, b.c, [[D.mul(a.e[0][0], x) for x in r] for r in b.e])
            raise Unk("matrix shapes %dx%d * %dx%d" % (a.r, a.c, b.r, b.c))
        e = []
        for i in range(a.r):
            row = []
            for j in range(b.c):
                s = None
                for k in range(a.c):
                    p = D.mul(a.e[i][k], b.e[k][j])
                    s = p if s is None else D.add(s, p)
                row.append(s)
            e.append(row)
        return Mat(a.r, b.c, e)

    def inv(self, m):
        D = self.D
        if m.r != m.c:
            raise Unk("inverse of a rectangular matrix")
        if m.r == 1:
            return Mat(1, 1, [[D.div(D.const(1), m.e[0][0])]])
        if m.r == 2:
            (a, b), (c, d) = m.e
            det = D.sub(D.mul(a, d), D.mul(b, c))
            q = lambda x: D.div(x, det)
            return Mat(2, 2, [[q(d), q(D.neg(b))], [q(D.neg(c)), q(a)]])
        raise Unk("inverse at dimension %d" % m.r)

    def det(self, m):
        D = self.D
        if m.r == 1:
            return m.e[0][0]
        if m.r > 4:
            raise Unk("determinant")
        r = D.const(0)
        for j in range(m.r):
            x = D.mul(m.e[0][j], self.det(Mat(m.r - 1, m.r - 1, [row[:j] + row[j + 1:] for row in m.e[1:]])))
            r = (D.sub if j % 2 else D.add)(r, x)
        return r

    def elems(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Mat):
            return [v.e[i][j] for j in range(v.c) for i in range(v.r)]
        raise Unk("elements of %r" % (v,))

    def ev(self, t):
        o, a, D = t.op, t.args, self.D
        if o == "int":
            return a[0]
        if o == "bool":
            return a[0]
        if o == "flt":
            x = a[0]
            return D.const(x if isinstance(x, Fr) else float(x))
        if t is NSYM:
            return self.n
        if o in ("sym",):
            return Opq(a)
        if o in ("phi", "tmp", "uninit"):
            raise Unk("unsolved " + o)
        if o == "bv":
            raise Unk("unbound variable")
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            f = {"fadd": D.add, "fsub": D.sub, "fmul": D.mul, "fdiv": D.div, "frem": D.rem}[o]
            return f(self.sc(self(a[0])), self.sc(self(a[1])))
        if o == "fneg":
            return D.neg(self.sc(self(a[0])))
        if o == "fabs":
            x = self.sc(self(a[0]))
            self.decided(t, x, None, "abs")
            return D.abs(x)
        if o == "fsgn":
            x = self.sc(self(a[0]))
            self.decided(t, x, None, "sgn")
            return D.sgn(x)
        if o in ("fmin", "fmax"):
            x, y = self.sc(self(a[0])), self.sc(self(a[1]))
            self.decided(t, x, y, "lt")
            return (D.min if o == "fmin" else D.max)(x, y)
        if o == "fpowi":
            n = self.num(self(a[1]))
            x = self.sc(self(a[0]))
            r = D.const(1)
            for _ in range(abs(n)):
                r = D.mul(r, x)
            return r if n >= 0 else D.div(D.const(1), r)
        if o == "i2f":
            return D.const(self.num(self(a[0])))
        if o == "fcopysign":
            x, y = self.sc(self(a[0])), self.sc(self(a[1]))
            if D is not None and D.name == "special":
                return math.copysign(abs(x), 1.0 if y != y else y)
            return D.mul(D.abs(x), D.sgn(y))
        if o == "fpowf":
            e = a[1]
            if e.op == "flt" and isinstance(e.args[0], Fr) and e.args[0].denominator == 1 and abs(e.args[0]) <= 8:
                return self(mk("fpowi", a[0], intc(int(e.args[0]))))
            raise Unk("powf")
        if o == "fmuladd" or o == "fmul_add":
            return D.add(D.mul(self.sc(self(a[0])), self.sc(self(a[1]))), self.sc(self(a[2])))
        if o == "fhypot":
            x, y = self.sc(self(a[0])), self.sc(self(a[1]))
            return D.fn("fsqrt", [D.add(D.mul(x, x), D.mul(y, y))])
        if o in ("frem_euclid", "fatan2"):
            x, y = self.sc(self(a[0])), self.sc(self(a[1]))
            if o == "fatan2":
                return D.fn(o, [x, y])
            r = D.rem(x, y)
            return D.add(r, D.abs(y)) if D.lt(r, D.const(0)) else r
        if o in ("fsqrt",) or (o[0] == "f" and o[1:] in ("exp", "ln", "sin", "cos", "tan", "tanh", "floor", "ceil", "round", "trunc", "fract", "cbrt", "log10", "log2", "recip")):
            x = self.sc(self(a[0]))
            if o == "frecip":
                return D.div(D.const(1), x)
            if o == "ffract":
                return D.sub(x, D.fn("ftrunc", [x]))
            return D.fn(o, [x])
        if o in ("flt2", "fle", "feq"):
            x, y = self.sc(self(a[0])), self.sc(self(a[1]))
            self.decided(t, x, y, {"flt2": "lt", "fle": "le", "feq": "eq"}[o])
            return {"flt2": D.lt, "fle": D.le, "feq": D.eq}[o](x, y)
        if o == "isnan":
            return D.isnan(self.sc(self(a[0])))
        if o == "not":
            return not self.b(a[0])
        if o == "and":
            return self.b(a[0]) and self.b(a[1])
        if o == "sel":
            return self(a[1]) if self.b(a[0]) else self(a[2])
        if o == "ige0":
            return self.num(self(a[0])) >= 0
        if o == "ieq0":
            return self.num(self(a[0])) == 0
        if o == "deq":
            return self(a[0]) == self(a[1])
        if o == "discr":
            v = self(a[0])
            if isinstance(v, Agg):
                return v.v
            raise Unk("variant of %s" % (a[0],))
        if o == "streq":
            x, y = self(a[0]), self(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return x == y
            raise Unk("string equality")
        if o == "s":
            c = str_const(t)
            if c is not None:
                return c
            out = ""
            for p in a[0]:
                if p.op == "lit":
                    out += p.args[0]
                else:
                    v = self(p)
                    if not isinstance(v, str):
                        raise Unk("string part")
                    out += v
            return out
        if o == "batom":
            if a[0] == "eq":
                x, y = self(a[1]), self(a[2])
                if isinstance(x, Agg) and isinstance(y, Agg) and not x.f and not y.f:
                    return x.v == y.v
            if a[0] == "invertible" and D.name == "generic":
                return True
            raise Unk("atom %s" % (t,))
        if o in ("any", "all"):
            n = self.num(self(a[0]))
            r = [self.boolv(self.lam(a[1], i)) for i in range(n)]
            return any(r) if o == "any" else all(r)
        if o == "lin":
            r = a[0]
            for x, k in a[1]:
                r += k * self.num(self(x))
            return r
        if o == "imul":
            return self.num(self(a[0])) * self.num(self(a[1]))
        if o in IOPS:
            x, y = self.num(self(a[0])), self.num(self(a[1]))
            if not isinstance(x, int) or not isinstance(y, int) or x < 0 or y < 0 or o in ("idiv", "irem") and y == 0 or o in ("ishl", "ishr") and y > 63:
                raise Unk("operation " + o)
            return IOPS[o](x, y)
        if o in ("imin", "imax"):
            return (min if o == "imin" else max)(self.num(self(a[0])), self.num(self(a[1])))
        if o == "agg":
            return Agg(a[0], a[1], [self(x) for x in a[2]])
        if o == "f":
            v = self(a[0])
            if isinstance(v, Agg):
                return v.f[a[1]]
            if isinstance(v, Opq):
                return Opq((v.key, "f", a[1]))
            raise Unk("field of %r" % (v,))
        if o == "vf":
            v = self(a[0])
            if isinstance(v, Agg):
                return v.f[a[2]]
            if isinstance(v, Opq):
                return Opq((v.key, "vf", a[1], a[2]))
            raise Unk("field")
        if o == "updf":
            v = self(a[0])
            if isinstance(v, Agg):
                f = list(v.f)
                f[a[1]] = self(a[2])
                return Agg(v.adt, v.v, f)
            raise Unk("updf")
        if o in ("cref", "deref"):
            return self(a[0])
        if o == "len":
            v = self(a[0])
            if isinstance(v, (list, str)):
                return len(v)
            if isinstance(v, Mat):
                return v.r * v.c
            raise Unk("len of %r" % (v,))
        if o in ("nrows", "ncols"):
            v = self(a[0])
            if isinstance(v, list):
                return len(v) if o == "nrows" else 1
            if isinstance(v, Mat):
                return v.r if o == "nrows" else v.c
            raise Unk(o)
        if o == "idx":
            return self.at(self(a[0]), self.index(a[1]))
        if o == "slice":
            v = self(a[0])
            r = self(a[1])
            if isinstance(v, list) and isinstance(r, Agg):
                if r.adt.endswith("Range"):
                    return v[r.f[0]:r.f[1]]
                if r.adt.endswith("RangeFrom"):
                    return v[r.f[0]:]
                if r.adt.endswith("RangeTo"):
                    return v[:r.f[0]]
            raise Unk("slice")
        if o == "upd":
            return self.setat(self(a[0]), self.index(a[1]), self(a[2]))
        if o == "zeros":
            r = self.num(self(a[0]))
            try:
                c = self.num(self(a[1]))
            except Unk:
                c = 1
            z = D.const(0)
            return [z] * r if c == 1 else Mat(r, c, [[z] * c for _ in range(r)])
        if o == "eye":
            return Mat(self.n, self.n, [[D.const(1 if i == j else 0) for j in range(self.n)] for i in range(self.n)])
        if o == "vec":
            n = self.num(self(a[0]))
            if n > 5000:
                raise Unk("length")
            return [self.lam(a[1], i) for i in range(n)]
        if o in ("mat", "matfn"):
            r, c = self.num(self(a[0])), self.num(self(a[1]))
            return Mat(r, c, [[self.sc(self.lam(a[2], i, j)) for j in range(c)] for i in range(r)])
        if o == "fillm":
            r, c = self.num(self(a[0])), self.num(self(a[1]))
            x = self.sc(self(a[2]))
            return Mat(r, c, [[x] * c for _ in range(r)])
        if o == "vpush":
            return list(self.elems(self(a[0]))) + [self(a[1])]
        if o == "vext":
            n = self.num(self(a[1]))
            return list(self.elems(self(a[0]))) + [self.lam(a[2], i) for i in range(n)]
        if o == "fill":
            v = self(a[0])
            n = self.num(self(a[1][0]))
            if n > 5000:
                raise Unk("trip count")
            for i in range(max(n, 0)):
                v = self.fillstep(v, a[2], i)
            return v
        if o == "fold":
            n = self.num(self(a[0]))
            v = self(a[1])
            if n > 5000:
                raise Unk("trip count")
            for i in range(max(n, 0)):
                v = self.lam(a[2], i, v)
            return v
        if o == "last":
            n = self.num(self(a[0]))
            return self(a[1]) if n <= 0 else self.lam(a[2], n - 1)
        if o == "rep":
            return "".join(self.lam(a[1], i) for i in range(self.num(self(a[0]))))
        if o == "fsum":
            n = self.num(self(a[0]))
            s = D.const(0)
            for i in range(n):
                s = D.add(s, self.sc(self.lam(a[1], i)))
            return s
        if o in ("madd", "msub"):
            x, y = self.matv(self(a[0])), self.matv(self(a[1]))
            if (x.r, x.c) != (y.r, y.c):
                raise Unk("matrix shapes")
            f = D.add if o == "madd" else D.sub
            return self.shape(Mat(x.r, x.c, [[f(p, q) for p, q in zip(r, s)] for r, s in zip(x.e, y.e)]))
        if o == "mmul":
            return self.shape(self.mul(self.matv(self(a[0])), self.matv(self(a[1]))))
        if o in ("mscale", "mdivs"):
            x, k = self.matv(self(a[0])), self.sc(self(a[1]))
            f = D.mul if o == "mscale" else D.div
            return self.shape(Mat(x.r, x.c, [[f(p, k) for p in r] for r in x.e]))
        if o == "mneg":
            x = self.matv(self(a[0]))
            return self.shape(Mat(x.r, x.c, [[D.neg(p) for p in r] for r in x.e]))
        if o == "mT":
            x = self.matv(self(a[0]))
            return self.shape(Mat(x.c, x.r, [[x.e[i][j] for i in range(x.r)] for j in range(x.c)]))
        if o == "minv":
            return self.inv(self.matv(self(a[0])))
        if o == "dot":
            x, y = self.elems(self(a[0])), self.elems(self(a[1]))
            s = None
            for p, q in zip(x, y):
                z = D.mul(self.sc(p), self.sc(q))
                s = z if s is None else D.add(s, z)
            return s
        if o in ("getcol", "getrow"):
            m, k = self.matv(self(a[0])), self.num(self(a[1]))
            return [r[k] for r in m.e] if o == "getcol" else Mat(1, m.c, [list(m.e[k])])
        if o in ("m_amax", "m_amin", "m_max", "m_min"):
            xs = [self.sc(x) for x in self.elems(self(a[0]))]
            if not xs:
                return D.const(0)
            if o in ("m_amax", "m_amin"):
                xs = [D.abs(x) for x in xs]
            r = xs[0]
            hi = o in ("m_amax", "m_max")
            for x in xs[1:]:
                if isinstance(D, Ieee):      # nalgebra: if a >= b {a} else {b}
                    r = r if (r >= x if hi else r <= x) else x
                else:
                    r = (D.max if hi else D.min)(r, x)
            return r
        if o in ("m_trace", "m_determinant"):
            m = self.matv(self(a[0]))
            if m.r != m.c:
                raise Unk("square matrix")
            if o == "m_trace":
                r = D.const(0)
                for i in range(m.r):
                    r = D.add(r, m.e[i][i])
                return r
            return self.det(m)
        if o in ("m_product", "m_mean"):
            xs = [self.sc(x) for x in self.elems(self(a[0]))]
            r = D.const(1 if o == "m_product" else 0)
            for x in xs:
                r = (D.mul if o == "m_product" else D.add)(r, x)
            return r if o == "m_product" else D.div(r, D.const(len(xs)))
        if o in ("m_iamax", "m_argmax", "m_imax", "m_imin", "m_iamin"):
            xs = [self.sc(x) for x in self.elems(self(a[0]))]
            if "a" in o[2:4] and o != "m_argmax":
                xs = [D.abs(x) for x in xs]
            k = 0
            for i, x in enumerate(xs):
                self.decided(t, xs[k], x, "lt")
                if (D.lt(x, xs[k]) if o.endswith("min") else D.lt(xs[k], x)):
                    k = i
            return Agg("tuple", 0, [k, xs[k]]) if o == "m_argmax" else k
        if o in ("m_norm", "m_norm_squared", "m_sum"):
            xs = [self.sc(x) for x in self.elems(self(a[0]))]
            s = D.const(0)
            for x in xs:
                s = D.add(s, x if o == "m_sum" else D.mul(x, x))
            return D.fn("fsqrt", [s]) if o == "m_norm" else s
        if o == "clo":
            return Agg("closure", 0, [self(x) for x in a[1]])
        if o in ("ext", "call"):
            f = a[0] if isinstance(a[0], str) else str(a[0])
            args = [self(x) for x in a[1]]
            if self.ext:
                r = self.ext(f, args)
                if r is not None:
                    return r
            return Opq((f, tuple(self.canon(x) for x in args)))
        raise Unk("operation " + o)

    def boolv(self, v):
        if isinstance(v, bool):
            return v
        raise Unk("not a boolean")

    def shape(self, m):
        if m.c == 1 and m.r != 1:
            return [r[0] for r in m.e]
        return m

    def fillstep(self, v, lam, i):
        d, body = lam.args
        old_env, old_memo = self.env, self.memo
        self.env = dict(self.env)
        self.env[mk("bv", d)] = i
        self.memo = {}
        try:
            if body.op == "kv":
                return self.setat(v, self.index(body.args[0]), self(body.args[1]))
            if body.op == "nest":
                n = self.num(self(body.args[0]))
                for j in range(max(n, 0)):
                    v = self.fillstep(v, body.args[1], j)
                return v
            if body.op == "sel":
                raise Unk("conditional store")
            raise Unk("fill body " + body.op)
        finally:
            self.env, self.memo = old_env, old_memo

    # ---- comparison
    def same(self, x, y):
        if isinstance(x, Opq) and isinstance(y, Opq) and x.key == y.key:
            return True
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, (int, str)) or isinstance(y, (int, str)):
            return type(x) == type(y) and x == y
        if isinstance(x, Agg) or isinstance(y, Agg):
            if not (isinstance(x, Agg) and isinstance(y, Agg)):
                raise Unk("comparison of %r and %r" % (x, y))
            return x.adt == y.adt and x.v == y.v and len(x.f) == len(y.f) and all(self.same(p, q) for p, q in zip(x.f, y.f))
        if isinstance(x, (list, Mat)) or isinstance(y, (list, Mat)):
            if isinstance(x, Opq) or isinstance(y, Opq):
                raise Unk("comparison with an opaque container")
            if isinstance(x, list) and isinstance(y, list):
                return len(x) == len(y) and all(self.same(p, q) for p, q in zip(x, y))
            p, q = self.matv(x), self.matv(y)
            return (p.r, p.c) == (q.r, q.c) and all(self.same(u, w) for r, s in zip(p.e, q.e) for u, w in zip(r, s))
        return self.D.same(self.sc(x), self.sc(y))

    def holds(self, facts):
        """truth of a fact set in this class"""
        for a, v in facts.items():
            if a.op == "discr":
                if self(a) != v:
                    return False
            elif a.op == "deq" or isinstance(v, bool):
                if self.b(a) != v:
                    return False
            else:
                if self(a) != v:
                    return False
        return True


def select(ev, results):
    """the result whose guard holds in the class of `ev`"""
    hit = []
    unk = None
    for st, v in results:
        try:
            if ev.holds(st.facts):
                hit.append((st, v))
        except Unk as e:
            unk = e
    if unk is not None and not hit:
        raise unk
    return hit


# ------------------------------------------------------------------ both outcomes of every decision
def leaves(v, out):
    """the scalars of an environment, in place"""
    if isinstance(v, G):
        if v.n is not None:
            out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            leaves(x, out)
    elif isinstance(v, Mat):
        for r in v.e:
            leaves(r, out)
    elif isinstance(v, Agg):
        leaves(v.f, out)


def peval(p, at):
    s = Fr(0)
    for m, c in p.d.items():
        for v, e in m:
            c *= at[v] ** e
        s += c
    return s


SCALES = tuple(Fr(10) ** k for k in (-3, -8, -16, -60, 3, 8, 16, 60)) + (Fr(-1), Fr(-1, 10 ** 8))


class Flip:
    """an environment whose sample values can be moved to another case class"""

    def __init__(self, env):
        self.g = []
        for v in env.values():
            leaves(v, self.g)
        self.old = [x.s for x in self.g]
        self.at = {}
        for x in self.g:
            if len(x.n.d) == 1 and x.d.d == P1.d:
                (m, c), = x.n.d.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    self.at[m[0][0]] = x.s
        names = {no: k for k, no in _vars.items() if no in self.at}
        self.groups = {}
        for no, k in names.items():
            k = k[1] if isinstance(k, tuple) and len(k) == 2 and k[0] == "s" else k
            self.groups.setdefault(k[0] if isinstance(k, tuple) else k, []).append(no)

    def candidates(self, diff):
        """assignments likely to change the sign of `diff`"""
        out = []
        for vs in [list(self.at)] + list(self.groups.values()):
            for f in SCALES:
                out.append({v: self.at[v] * f for v in vs})
        if diff is not None:
            for v in self.at:
                lin, rest, ok = Fr(0), Fr(0), True
                for m, c in diff.n.d.items():
                    e = dict(m).get(v, 0)
                    try:
                        for q, k in m:
                            if q != v:
                                c *= self.at[q] ** k
                    except KeyError:
                        ok = False
                        break
                    if e == 0:
                        rest += c
                    elif e == 1:
                        lin += c
                    else:
                        ok = False
                        break
                if ok and lin:
                    r = -rest / lin
                    for x in (r, r + abs(r) / 10 ** 6, r - abs(r) / 10 ** 6, r + 1, r - 1):
                        out.append({v: x})
        return out

    def __call__(self, ch):
        at = {**self.at, **ch}
        for x in self.g:
            d = peval(x.d, at)
            if not d:
                raise Unk("singular")
            x.s = peval(x.n, at) / d

    def restore(self):
        for x, s in zip(self.g, self.old):
            x.s = s
