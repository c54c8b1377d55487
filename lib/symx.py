"""
A symbolic executor for Python code.

The code under test runs natively, with proxies (SymInt, SymBool, SymStr, ...) that carry SMT terms. When the
code needs the truth value of a symbolic condition the solver is asked which outcomes are feasible under the
current path condition; one is followed and the others are queued, and every queued path is later run from the
start (so ordinary Python state never needs to be forked). `Ctx.check` discharges a proof obligation for all
values on the current path.

The same harness functions also run in *concrete* mode (no solver, plain values taken from a counterexample or
from a solver model), which is how counterexamples are replayed against the real code.
"""
from __future__ import annotations

import random
import signal
import sys
import time
from fractions import Fraction
from typing import Any, Callable, Dict, List, Optional, Sequence, Tuple

from lib.z3load import z3


class Infeasible(BaseException):
    """The current path contradicts an assumption; drop it."""


class Inconclusive(BaseException):
    """The path cannot be decided (solver unknown, construct outside the encoding)."""


class Hang(BaseException):
    """The code under test used up the time allowed for one path."""


class Watchdog:
    """Raises Hang in the main thread of the process when the time is up."""

    def __init__(self, seconds: float):
        self.seconds = seconds

    def __enter__(self):
        def on_alarm(signum, frame):
            raise Hang()

        self.old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


PATH_LIMIT_S, REPLAY_LIMIT_S = 60.0, 20.0


class Violation(BaseException):
    """A property obligation failed."""

    def __init__(self, label: str, detail: str = ""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


CUR: Optional["Ctx"] = None


def cur() -> "Ctx":
    assert CUR is not None
    return CUR


# ---------------------------------------------------------------------------------------------- formulas
def is_pybool(x) -> bool:
    return x is True or x is False


def const_of(a) -> int:
    """1 if the term is the constant true, -1 if it is the constant false, 0 otherwise."""
    return z3.Z3_get_bool_value(a.ctx.ref(), a.ast)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def raw(x):
    """z3 term / python scalar behind a proxy."""
    if isinstance(x, (SymInt, SymBool, SymStr)):
        return x.term
    return x


def bool_term(x):
    if isinstance(x, SymBool):
        return x.term
    return x


def Not(a):
    a = bool_term(a)
    if a is True:
        return False
    if a is False:
        return True
    k = const_of(a)
    if k:
        return k < 0
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _junction(args, unit, make):
    out = []
    for a in args:
        a = bool_term(a)
        if a is True or a is False:
            if a is not unit:
                return a
            continue
        k = const_of(a)
        if k:
            if (k > 0) is not unit:
                return k > 0
            continue
        out.append(a)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return make(out)


def _mk_and(out):
    ctx = out[0].ctx
    args = (z3.Ast * len(out))(*[a.ast for a in out])
    return z3.BoolRef(z3.Z3_mk_and(ctx.ref(), len(out), args), ctx)


def _mk_or(out):
    ctx = out[0].ctx
    args = (z3.Ast * len(out))(*[a.ast for a in out])
    return z3.BoolRef(z3.Z3_mk_or(ctx.ref(), len(out), args), ctx)


def And(*args):
    return _junction(args, True, _mk_and)


def Or(*args):
    return _junction(args, False, _mk_or)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = bool_term(a), bool_term(b)
    if is_pybool(a):
        return b if a else Not(b)
    if is_pybool(b):
        return a if b else Not(a)
    return a == b


def is_term(x) -> bool:
    return isinstance(x, z3.ExprRef)


def Eq(a, b):
    a, b = raw(a), raw(b)
    if not is_term(a) and not is_term(b):
        return a == b
    if is_term(a) and is_term(b) and a.eq(b):
        return True
    return a == b


def Lt(a, b):
    a, b = raw(a), raw(b)
    r = a < b
    return r


def Ite(c, a, b):
    c, a, b = bool_term(c), raw(a), raw(b)
    if is_pybool(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if is_pybool(a) or is_pybool(b) or (is_term(a) and z3.is_bool(a)):
        return Or(And(c, a), And(Not(c), b))
    if not is_term(a) and not is_term(b) and a == b:
        return a
    if is_term(a) and is_term(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def Sum(items):
    total: Any = 0
    terms = []
    for it in items:
        it = raw(it)
        if is_term(it):
            terms.append(it)
        else:
            total += it
    if not terms:
        return total
    if total:
        terms.append(z3.IntVal(total))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def B2I(c):
    c = bool_term(c)
    if is_pybool(c):
        return 1 if c else 0
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


# ---------------------------------------------------------------------------------------------- proxies
TOKENS: Dict[str, Any] = {}


def token_of(obj, kind="sym") -> str:
    tok = f"\u27e6{kind}:{len(TOKENS)}\u27e7"
    TOKENS[tok] = obj
    return tok


def detoken(x):
    """Turn a textual token written out by the code under test back into the symbolic value."""
    if isinstance(x, str) and x in TOKENS:
        return TOKENS[x]
    return x


class SymBool:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __bool__(self):
        return cur().branch(self.term)

    def __and__(self, o):
        return wrap_bool(And(self.term, bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap_bool(Or(self.term, bool_term(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap_bool(Not(self.term))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return wrap_bool(Iff(self.term, bool_term(o)))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))


def wrap_bool(t):
    if is_pybool(t):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymInt:
    """An integer-valued term. isinstance(x, int) holds, but C code never sees a plain int."""

    __slots__ = ("term", "tag")

    def __init__(self, term, tag=None):
        self.term = term
        self.tag = tag

    @property
    def __class__(self):
        return int

    @staticmethod
    def _lift(o):
        if type(o) is SymInt:
            return o.term
        if type(o) is bool:
            return int(o)
        if type(o) is int or type(o) is float:
            return o
        return None

    def _bin(self, o, f):
        t = SymInt._lift(o)
        if t is None:
            return NotImplemented
        return mk_int(f(self.term, t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    @staticmethod
    def _floordiv(a, b):
        # z3 integer division rounds so that the remainder is non-negative; Python floors.
        a = z3.IntVal(a) if not is_term(a) else a
        if not is_term(b):
            return a / b if b > 0 else (-a) / (-b)
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        if type(o) is int and o == 0:
            raise ZeroDivisionError
        return self._bin(o, SymInt._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: SymInt._floordiv(b, a))

    def __mod__(self, o):
        if type(o) is int and o == 0:
            raise ZeroDivisionError
        return self._bin(o, lambda a, b: a - b * SymInt._floordiv(a, b))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b - a * SymInt._floordiv(b, a))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return mk_int(-self.term)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.term < 0, -self.term, self.term))

    def _cmp(self, o, f):
        t = SymInt._lift(o)
        if t is None:
            return NotImplemented
        return wrap_bool(f(self.term, t))

    def __eq__(self, o):
        t = SymInt._lift(o)
        if t is None:
            return NotImplemented
        return wrap_bool(Eq(self.term, t))

    def __ne__(self, o):
        t = SymInt._lift(o)
        if t is None:
            return NotImplemented
        return wrap_bool(Not(Eq(self.term, t)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.term != 0)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self) -> int:
        return cur().concretize(self.term)

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __str__(self):
        return token_of(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token_of(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mk_int(t):
    if not is_term(t):
        return t
    return SymInt(t)


class SymStr:
    """An opaque text value: only equality/ordering with pool strings, identity and copying are modelled."""

    __slots__ = ("term", "pool")

    def __init__(self, term, pool=None):
        self.term = term
        self.pool = pool

    @property
    def __class__(self):
        return str

    def _code(self, o):
        if type(o) is SymStr:
            return o.term
        if type(o) is str and self.pool is not None:
            return self.pool.code(o)
        return None

    def __eq__(self, o):
        t = self._code(o)
        if t is None:
            if type(o) is str:
                raise Inconclusive("comparison of an opaque string with a literal")
            return NotImplemented
        return wrap_bool(Eq(self.term, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return wrap_bool(Not(bool_term(r)))

    def _cmp(self, o, f):
        t = self._code(o)
        if t is None:
            return NotImplemented
        return wrap_bool(f(self.term, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(("symstr", self.concretize()))

    def concretize(self):
        code = cur().concretize(self.term)
        return self.pool.text(code) if self.pool is not None else code

    def __str__(self):
        return token_of(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token_of(self)

    # Anything else needs the text itself: split on its value.
    def __len__(self):
        return len(self.concretize())

    def __bool__(self):
        return bool(self.concretize())

    def __iter__(self):
        return iter(self.concretize())

    def __getitem__(self, i):
        return self.concretize()[i]

    def __contains__(self, o):
        return o in self.concretize()

    def __add__(self, o):
        return self.concretize() + (o.concretize() if type(o) is SymStr else o)

    def __radd__(self, o):
        return o + self.concretize()

    def __mul__(self, n):
        return self.concretize() * n

    __rmul__ = __mul__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = self.concretize()
        if not isinstance(v, str):
            raise Inconclusive(f"method {name} of an opaque string")
        return getattr(v, name)


def real_val(v):
    f = Fraction(repr(float(v)))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def _real_term(o):
    if type(o) in (SymReal, SymInt):
        return z3.ToReal(o.term) if o.term.sort() == z3.IntSort() else o.term
    if type(o) in (int, bool, float) and abs(o) < float("inf"):
        return real_val(o)
    return None


class SymReal:
    """A number between floats (exact arithmetic, no rounding)."""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def _arith(self, o, f):
        t = _real_term(o)
        return NotImplemented if t is None else SymReal(f(self.term, t))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)

    def __neg__(self):
        return SymReal(-self.term)

    def _cmp(self, o, f):
        t = _real_term(o)
        return NotImplemented if t is None else wrap_bool(f(self.term, t))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        raise Inconclusive("hash of a symbolic number")

    def __floor__(self):
        return SymInt(z3.ToInt(self.term))

    __int__ = __trunc__ = lambda self: SymInt(z3.If(self.term >= 0, z3.ToInt(self.term), -z3.ToInt(-self.term)))

    def __float__(self):
        raise Inconclusive("a symbolic number is needed as a float")

    def __bool__(self):
        return cur().branch(self.term != 0)

    def __str__(self):
        return token_of(self)

    __repr__ = __str__

    def __format__(self, spec):
        return token_of(self)


# ---------------------------------------------------------------------------------------------- contexts
class Stats:
    FIELDS = ("paths", "infeasible", "branches", "obligations", "discharged", "queries", "trivial",
              "inconclusive", "validated")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels: Dict[str, int] = {}
        self.witnessed: Dict[str, int] = {}
        self.notes: Dict[str, int] = {}
        self.samples: List[Any] = []
        self.functions: set = set()
        self.reasons: Dict[str, int] = {}
        self.wanted: set = set()

    def merge(self, o: "Stats"):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for mine, theirs in ((self.labels, o.labels), (self.witnessed, o.witnessed), (self.notes, o.notes),
                             (self.reasons, o.reasons)):
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        self.samples.extend(o.samples)
        self.functions |= o.functions
        self.wanted |= o.wanted


class Cex:
    """A counterexample: the structural choices and the solver's values."""

    def __init__(self, harness, label, detail, prefix, choices, values, info):
        self.harness = harness
        self.label = label
        self.detail = detail
        self.prefix = list(prefix)
        self.choices = choices  # label -> option index
        self.values = values  # variable name -> python value
        self.info = info  # readable choices

    def to_json(self):
        return dict(self.__dict__)

    @staticmethod
    def from_json(d):
        return Cex(d["harness"], d["label"], d["detail"], d["prefix"], d["choices"], d["values"], d["info"])


class Ctx:
    concrete = False

    def __init__(self, prefix: Sequence[int] = (), stats: Optional[Stats] = None, harness: str = "",
                 timeout_ms: int = 60000):
        self.prefix = list(prefix)
        self.decisions: List[int] = []
        self.alternatives: List[List[int]] = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.model_ok = False
        self.stats = stats or Stats()
        self.harness = harness
        self.vars: Dict[str, Any] = {}
        self.choices: Dict[str, int] = {}
        self.info: Dict[str, Any] = {}
        self.cexes: List[Cex] = []
        self.attempt = 0
        self.constraints: List[Any] = []
        self.want_witness = True

    # -- low level ------------------------------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.monotonic()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.monotonic() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver: " + self.solver.reason_unknown())
        return r == z3.sat

    def _add(self, c):
        if is_pybool(c):
            if not c:
                raise Infeasible()
            return
        self.solver.add(c)
        self.constraints.append(c)
        if self.model_ok and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model_ok = False

    def _ensure_model(self):
        if not self.model_ok:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
            self.model_ok = True
        return self.model

    def assume(self, c):
        c = bool_term(c)
        self._add(c)

    def feasible(self, c=True) -> bool:
        c = bool_term(c)
        if is_pybool(c):
            if not c:
                return False
            self._ensure_model()
            return True
        if self.model_ok and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        return self._check(c)

    # -- inputs ---------------------------------------------------------------------------------
    def int(self, name: str, lo=None, hi=None, wrap=True):
        assert name not in self.vars, name
        t = z3.Int(name)
        self.vars[name] = t
        if lo is not None:
            self._add(t >= lo)
        if hi is not None:
            self._add(t <= hi)
        return SymInt(t) if wrap else t

    def bool(self, name: str, wrap=True):
        assert name not in self.vars, name
        t = z3.Bool(name)
        self.vars[name] = t
        return SymBool(t) if wrap else t

    def real(self, name: str, lo=None, hi_excl=None):
        t = z3.Real(name)
        self.vars[name] = t
        if lo is not None:
            self._add(t >= lo)
        if hi_excl is not None:
            self._add(t < hi_excl)
        return t

    def choose(self, label: str, options) -> Any:
        """A structural input: split on every option."""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if not opts:
            raise Infeasible()
        assert label not in self.choices, label
        if len(opts) == 1:
            self.choices[label] = 0
            return opts[0]
        i = self._decide(len(opts))
        self.choices[label] = i
        self.info[label] = repr(opts[i])
        return opts[i]

    def flag(self, label: str) -> bool:
        return self.choose(label, [False, True])

    def _decide(self, n: int) -> int:
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.alternatives.append(self.decisions + [alt])
        self.decisions.append(d)
        self.stats.branches += 1
        return d

    def branch(self, cond) -> bool:
        if is_pybool(cond):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            m = self._ensure_model()
            v = z3.is_true(m.eval(cond, model_completion=True))
            other = z3.Not(cond) if v else cond
            d = 1 if v else 0
            if self._check(other):
                self.alternatives.append(self.decisions + [1 - d])
        self.decisions.append(d)
        self.stats.branches += 1
        self._add(cond if d else z3.Not(cond))
        return bool(d)

    def concretize(self, term, limit: int = 80) -> int:
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in range(limit):
            # The value tried must be a function of the path so that re-execution follows the same decisions.
            pos = len(self.decisions)
            if pos < len(self.prefix):
                d = self.prefix[pos]
                self.decisions.append(d)
                v = d >> 1 if d >= 0 else d
                val = _unzig(d >> 1)
                if d & 1:
                    self._add(term == val)
                    return val
                self._add(term != val)
                continue
            m = self._ensure_model()
            val = m.eval(term, model_completion=True).as_long()
            code = _zig(val) << 1
            if self._check(term != val):
                self.alternatives.append(self.decisions + [code])
            self.decisions.append(code | 1)
            self.stats.branches += 1
            self._add(term == val)
            return val
        raise Inconclusive("too many values to concretise")

    # -- obligations ----------------------------------------------------------------------------
    def check(self, label: str, prop, detail: str = "", witness=None):
        """prop must hold for every value on this path. witness: a condition under which it is interesting."""
        prop = bool_term(prop)
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if witness is not None:
            self.witness(label, witness)
        if is_pybool(prop) or z3.is_true(prop) or z3.is_false(prop):
            ok = prop if is_pybool(prop) else z3.is_true(prop)
            if ok:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
            if not self.feasible():
                raise Infeasible()
            self._ensure_model()
            self._report(label, detail)
        neg = z3.Not(prop)
        if self.model_ok and z3.is_true(self.model.eval(neg, model_completion=True)):
            self._report(label, detail)
        self.solver.push()
        try:
            self.solver.add(neg)
            sat = self._check()
            if sat:
                self.model = self.solver.model()
                self.model_ok = True
        finally:
            self.solver.pop()
        if sat:
            self._report(label, detail)
        self.stats.discharged += 1

    def fail(self, label: str, detail: str = ""):
        """Unconditional failure on this path (if it is feasible)."""
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        self._ensure_model()
        self._report(label, detail)

    def witness(self, label: str, cond=True):
        """Vacuity guard: record whether cond can be true here."""
        if label in self.stats.witnessed or not self.want_witness:
            return
        self.stats.wanted.add(label)
        self.stats.labels.setdefault(label, 0)
        if self.feasible(cond):
            self.stats.witnessed[label] = 1

    def _report(self, label, detail):
        raise_cex = Cex(self.harness, label, detail, self.decisions, dict(self.choices), self.model_values(),
                        dict(self.info))
        self.cexes.append(raise_cex)
        raise Violation(label, detail)

    def model_values(self, model=None) -> Dict[str, Any]:
        m = model or self.model
        out = {}
        for name, t in self.vars.items():
            v = m.eval(t, model_completion=True)
            if z3.is_bool(v):
                out[name] = z3.is_true(v)
            elif z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_rational_value(v):
                out[name] = float(v.numerator_as_long()) / float(v.denominator_as_long())
        return out


def _zig(v: int) -> int:
    return (v << 1) if v >= 0 else ((-v) << 1) - 1


def _unzig(z: int) -> int:
    return (z >> 1) if not z & 1 else -((z + 1) >> 1)


class ConcreteCtx:
    """Runs a harness on plain values: replay of a counterexample, or validation on a solver model."""

    concrete = True

    def __init__(self, choices: Dict[str, int], values: Dict[str, Any], attempt: int = 0, harness: str = ""):
        self.choices_in = choices
        self.values_in = values
        self.choices: Dict[str, int] = {}
        self.info: Dict[str, Any] = {}
        self.attempt = attempt
        self.force_stub = False
        self.harness = harness
        self.stats = Stats()
        self.checked: List[str] = []

    def _val(self, name, default):
        return self.values_in.get(name, default)

    def int(self, name, lo=None, hi=None, wrap=True):
        return int(self._val(name, lo if lo is not None else 0))

    def bool(self, name, wrap=True):
        return bool(self._val(name, False))

    def real(self, name, lo=None, hi_excl=None):
        return self._val(name, 0.0)

    def choose(self, label, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if not opts:
            raise Infeasible()
        i = self.choices_in.get(label, 0)
        self.choices[label] = i
        self.info[label] = repr(opts[i])
        return opts[i]

    def flag(self, label):
        return self.choose(label, [False, True])

    @staticmethod
    def _truth(c) -> bool:
        c = bool_term(c)
        if is_pybool(c):
            return c
        s = z3.Solver()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return True
        s2 = z3.Solver()
        s2.add(c)
        if s2.check() == z3.unsat:
            return False
        raise Inconclusive("condition is not concrete")

    def assume(self, c):
        if not self._truth(c):
            raise Infeasible()

    def feasible(self, c=True):
        return self._truth(c)

    def branch(self, c):
        return self._truth(c)

    def concretize(self, term, limit=0):
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        raise Inconclusive("term is not concrete")

    def check(self, label, prop, detail="", witness=None):
        self.checked.append(label)
        if not self._truth(prop):
            raise Violation(label, detail)

    def fail(self, label, detail=""):
        raise Violation(label, detail)

    def witness(self, label, cond=True):
        pass


RESET_HOOKS: List[Callable] = []


_RANDOM_INIT = random.Random.__init__


def _steady_init(self, x=None):
    """Generators the code under test makes without a seed get one: re-execution of a path must repeat itself."""
    owner = str(sys._getframe(1).f_globals.get("__name__", "")).split(".")[0]
    if owner == "subsetter":
        self.made_by_subsetter = True
    if x is None and owner in ("subsetter", "faker"):
        x = 20240229
    _RANDOM_INIT(self, x)


def _steady():
    random.Random.__init__ = _steady_init
    random.seed(20240229)
    faker = sys.modules.get("faker")
    if faker is not None:
        faker.Faker.seed(20240229)


RESET_HOOKS.append(_steady)


def run_path(fn: Callable, params: Dict[str, Any], prefix: Sequence[int], stats: Stats, harness: str,
             timeout_ms: int, after: Optional[Callable] = None):
    """Run one path. Returns the context (alternatives, counterexamples)."""
    global CUR
    ctx = Ctx(prefix, stats, harness, timeout_ms)
    CUR = ctx
    TOKENS.clear()
    for hook in RESET_HOOKS:
        hook()
    ctx.outcome = "ok"
    try:
        try:
            with Watchdog(PATH_LIMIT_S):
                fn(ctx, **params)
        except Hang:
            ctx.fail("the run terminates", f"not within {PATH_LIMIT_S:.0f} s")
        stats.paths += 1
        if after is not None:
            after(ctx)
    except Infeasible:
        stats.infeasible += 1
        ctx.outcome = "infeasible"
    except Violation:
        stats.paths += 1
        ctx.outcome = "violation"
    except Inconclusive as exc:
        stats.inconclusive += 1
        ctx.outcome = "inconclusive"
        key = str(exc)[:200]
        stats.reasons[key] = stats.reasons.get(key, 0) + 1
    finally:
        CUR = None
    return ctx


def run_concrete(fn: Callable, params: Dict[str, Any], cex: Cex, attempts: int = 1):
    """Replay; returns the Violation reproduced on the real code, or None."""
    global CUR
    # What the database is free to choose (random numbers, the order of ties) is tried on the real engine several
    # times; choices it does not make there are tried on the stub engine with plain values.
    free = attempts > 1 and any(".tie#" in n or ".rnd#" in n for n in cex.values)
    for attempt in range(2 * attempts if free else attempts):
        ctx = ConcreteCtx(cex.choices, cex.values, attempt, cex.harness)
        ctx.force_stub = attempt >= attempts
        CUR = ctx  # type: ignore
        TOKENS.clear()
        for hook in RESET_HOOKS:
            hook()
        try:
            with Watchdog(REPLAY_LIMIT_S):
                fn(ctx, **params)
        except Violation as v:
            return v
        except Hang:
            return Violation("the run terminates", f"not within {REPLAY_LIMIT_S:.0f} s")
        except Infeasible:
            continue
        finally:
            CUR = None
    return None
