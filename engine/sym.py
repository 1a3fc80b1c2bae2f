"""Symbolic values, path context and exploration of one path.

A symbolic character is an ordinary code point of a reserved plane-15 private use range (a "sentinel");
each sentinel stands for one z3 integer variable (the code point), with an interval domain.  A symbolic
string is therefore an ordinary Python str containing sentinels, so code that merely moves text around
needs no help; every operation that inspects text is intercepted (see instrument.py) and forks the path.
"""
import re
import z3
from engine import iset

BASE = 0xF0000
LIMIT = 0xF7FFF
SENT_RE = re.compile('[\U000F0000-\U000F7FFF]')


def has(s):
    return not s.isascii() and SENT_RE.search(s) is not None


def is_sent(c):
    return BASE <= ord(c) <= LIMIT


class PathEnd(BaseException):
    """The current path cannot be continued (assumption false)."""


class Unsupported(BaseException):
    """An operation that the engine does not model."""


class Var:
    __slots__ = ('name', 'dom', 'z', 'related', 'idx', 'kind', 'inp', 'dom0')

    def __init__(self, name, dom, idx, kind, inp):
        self.name = name
        self.dom = dom
        self.z = None
        self.related = False
        self.idx = idx
        self.kind = kind
        self.inp = inp

    def zv(self):
        if self.z is None:
            self.z = z3.Int(self.name)
        return self.z


class Ctx:
    """State of one symbolic path."""

    def __init__(self, prefix, stats):
        self.prefix = prefix        # list of (choice, data)
        self.trail = []
        self.alts = []              # alternatives (prefixes) found on this path
        self.vars = []              # all variables
        self.chars = []             # sentinel index -> Var
        self.constraints = []       # relational z3 constraints
        self.solver = None
        self.stats = stats
        self.incomplete = 0
        self.checks = []            # (message, z3 expr or False, detail)
        self.known = []
        self.notes = []
        self.nfresh = 0

    # ---- variables -------------------------------------------------------
    def new_var(self, name, dom, kind, inp=True):
        v = Var(name, dom, len(self.vars), kind, inp)
        self.vars.append(v)
        return v

    def new_char(self, name, dom, inp=True):
        v = self.new_var(name, dom, 'char', inp)
        self.chars.append(v)
        if len(self.chars) > LIMIT - BASE:
            raise Unsupported('too many symbolic characters')
        return chr(BASE + len(self.chars) - 1)

    def var(self, ch):
        return self.chars[ord(ch) - BASE]

    # ---- decisions -------------------------------------------------------
    def _decide(self, data=None):
        """Two-way decision with both sides feasible; return True or False."""
        i = len(self.trail)
        self.stats['decisions'] += 1
        if i < len(self.prefix):
            choice = self.prefix[i][0]
        else:
            choice = True
            self.alts.append(self.trail + [(False, data)])
        self.trail.append((choice, data))
        return choice

    def _data(self):
        i = len(self.trail)
        if i < len(self.prefix):
            return self.prefix[i][1]
        return None

    def dom_expr(self, var, dom):
        z = var.zv()
        if not dom:
            return z3.BoolVal(False)
        parts = [z == lo if lo == hi else z3.And(z >= lo, z <= hi) for lo, hi in dom]
        return parts[0] if len(parts) == 1 else z3.Or(parts)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 20000)
        return self.solver

    def relate(self, var):
        if not var.related:
            var.related = True
            self._solver().add(self.dom_expr(var, var.dom))

    def in_set(self, var, dom):
        """Fork on var in dom."""
        ins = iset.inter(var.dom, dom)
        if not ins:
            return False
        if len(ins) == len(var.dom) and ins == var.dom:
            return True
        out = iset.diff(var.dom, dom)
        if var.related:
            s = self._solver()
            if not self._sat(self.dom_expr(var, ins)):
                s.add(self.dom_expr(var, out))
                var.dom = out
                return False
            if not self._sat(self.dom_expr(var, out)):
                s.add(self.dom_expr(var, ins))
                var.dom = ins
                return True
        if self._decide():
            var.dom = ins
        else:
            var.dom = out
        if var.related:
            self._solver().add(self.dom_expr(var, var.dom))
        return var.dom is ins

    def _sat(self, expr):
        s = self._solver()
        self.stats['queries'] += 1
        import time
        t = time.perf_counter()
        s.push()
        s.add(expr)
        r = s.check()
        s.pop()
        self.stats['solver_time'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
            self.incomplete += 1
            return True
        return r == z3.sat

    def branch(self, expr):
        """Fork on a z3 Boolean expression over related variables."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        t = self._sat(expr)
        f = self._sat(z3.Not(expr))
        if t and f:
            r = self._decide()
        elif t:
            return True
        elif f:
            return False
        else:
            raise PathEnd()
        e = expr if r else z3.Not(expr)
        self.constraints.append(e)
        self._solver().add(e)
        return r

    def assume(self, expr):
        """Add a relational constraint; end the path when it is infeasible."""
        self.constraints.append(expr)
        self._solver().add(expr)
        self.stats['queries'] += 1
        if self._solver().check() == z3.unsat:
            raise PathEnd()

    # ---- characters ------------------------------------------------------
    def in_chars(self, ch, dom):
        """Is the one-character string ch in the code point set dom?"""
        o = ord(ch)
        if BASE <= o <= LIMIT:
            return self.in_set(self.chars[o - BASE], dom)
        return iset.has(dom, o)

    def eqch(self, a, b):
        if a == b:
            return True
        sa, sb = is_sent(a), is_sent(b)
        if sa and sb:
            va, vb = self.var(a), self.var(b)
            common = iset.inter(va.dom, vb.dom)
            if not common:
                return False
            pa, pb = iset.single(va.dom), iset.single(vb.dom)
            if pa is not None:
                return self.in_set(vb, ((pa, pa),))
            if pb is not None:
                return self.in_set(va, ((pb, pb),))
            self.relate(va)
            self.relate(vb)
            return self.branch(va.zv() == vb.zv())
        if sa:
            o = ord(b)
            return self.in_set(self.var(a), ((o, o),))
        if sb:
            o = ord(a)
            return self.in_set(self.var(b), ((o, o),))
        return False

    def maybe_eqch(self, a, b):
        """Cheap over-approximation of eqch without forking."""
        if a == b:
            return True
        sa, sb = is_sent(a), is_sent(b)
        if sa and sb:
            return bool(iset.inter(self.var(a).dom, self.var(b).dom))
        if sa:
            return iset.has(self.var(a).dom, ord(b))
        if sb:
            return iset.has(self.var(b).dom, ord(a))
        return False

    def pinned(self, ch):
        """Return the concrete character a sentinel is pinned to, or the sentinel."""
        if is_sent(ch):
            v = iset.single(self.var(ch).dom)
            if v is not None:
                return chr(v)
        return ch

    def resolve(self, s):
        """Replace pinned sentinels by their concrete character."""
        if not has(s):
            return s
        return SENT_RE.sub(lambda m: self.pinned(m.group()), s)

    def concretize_char(self, ch):
        """Fall back to one sample value (loses coverage, counted)."""
        v = self.var(ch)
        p = iset.single(v.dom)
        if p is None:
            self.incomplete += 1
            self.notes.append(f'concretised {v.name}')
            if v.related:
                s = self._solver()
                s.check()
                p = s.model().eval(v.zv(), model_completion=True).as_long()
                s.add(v.zv() == p)
            else:
                p = iset.sample(v.dom)
            v.dom = ((p, p),)
        return chr(p)

    def concretize(self, s):
        if not has(s):
            return s
        return SENT_RE.sub(lambda m: self.concretize_char(m.group()), s)

    def char_expr(self, ch):
        if is_sent(ch):
            return self.var(ch).zv()
        return z3.IntVal(ord(ch))

    # ---- integers --------------------------------------------------------
    def int_value(self, si):
        """Concretise a SymInt by forking over its values."""
        v = si.var
        if v is not None:
            while True:
                p = iset.single(v.dom)
                if p is not None:
                    return p + si.off
                lo = v.dom[0][0]
                if self.in_set(v, ((lo, lo),)):
                    return lo + si.off
        while True:
            d = self._data()
            if d is None:
                s = self._solver()
                self.stats['queries'] += 1
                if s.check() != z3.sat:
                    raise PathEnd()
                d = s.model().eval(si.expr(), model_completion=True).as_long()
            e = si.expr() == d
            if not self._sat(z3.Not(e)):
                return d
            if self._decide(d):
                self.constraints.append(e)
                self._solver().add(e)
                return d
            self.constraints.append(z3.Not(e))
            self._solver().add(z3.Not(e))

    # ---- results ---------------------------------------------------------
    def path_solver(self):
        s = z3.Solver()
        s.set('timeout', 60000)
        for v in self.vars:
            if v.z is not None or v.related:
                s.add(self.dom_expr(v, v.dom))
        for c in self.constraints:
            s.add(c)
        return s

    def model_values(self, model=None):
        """Concrete value of every input variable (name -> int)."""
        out = {}
        for v in self.vars:
            if model is not None and v.z is not None:
                x = model.eval(v.z, model_completion=False)
                if z3.is_int_value(x):
                    out[v.name] = x.as_long()
                    continue
            out[v.name] = iset.sample(v.dom) if v.kind == 'char' else v.dom[0][0]
        return out

    def to_concrete(self, s, values):
        if not has(s):
            return s
        return SENT_RE.sub(lambda m: chr(values[self.var(m.group()).name]), s)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


class SymBool:
    """A z3 Boolean; truth testing forks the path."""
    __slots__ = ('e', 'var', 'dom')

    def __init__(self, e=None, var=None, dom=None):
        self.e = e
        self.var = var
        self.dom = dom

    def expr(self):
        if self.e is None:
            self.e = CTX.dom_expr(self.var, self.dom)
        return self.e

    def __bool__(self):
        if self.var is not None:
            return CTX.in_set(self.var, self.dom)
        return CTX.branch(self.e)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __and__(self, o):
        return bool(self) & o

    def __or__(self, o):
        return bool(self) | o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


BIG = 1 << 62


class SymInt:
    """var + off, or an arbitrary z3 integer expression."""
    __slots__ = ('var', 'off', 'e')

    def __init__(self, var=None, off=0, e=None):
        self.var = var
        self.off = off
        self.e = e

    def expr(self):
        if self.e is not None:
            return self.e
        CTX.relate(self.var)
        z = self.var.zv()
        return z + self.off if self.off else z

    @staticmethod
    def _const(o):
        return isinstance(o, int) and not isinstance(o, SymInt)

    @staticmethod
    def _any(o):
        if isinstance(o, SymInt):
            return o.expr()
        return z3.IntVal(int(o))

    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, int):
            if self.var is not None:
                k = o - self.off
                if op == '==':
                    d = ((k, k),)
                elif op == '<':
                    d = ((-BIG, k - 1),)
                elif op == '<=':
                    d = ((-BIG, k),)
                elif op == '>':
                    d = ((k + 1, BIG),)
                elif op == '>=':
                    d = ((k, BIG),)
                else:
                    d = ((-BIG, k - 1), (k + 1, BIG))
                return SymBool(var=self.var, dom=d)
            b = z3.IntVal(o)
        elif isinstance(o, SymInt):
            b = o.expr()
        else:
            return NotImplemented
        a = self.expr()
        return SymBool({'==': a == b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[op])

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self._cmp(0, '!='))

    def __hash__(self):
        return hash(int(self))

    def __int__(self):
        return CTX.int_value(self)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def _arith(self, o, f, name):
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, float):
            return NotImplemented
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        if isinstance(o, int) and self.var is not None and name in '+-':
            return SymInt(self.var, self.off + (o if name == '+' else -o))
        return SymInt(e=f(self.expr(), self._any(o)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, '+')

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, '-')

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, 'r')

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return int(self) * o
        return self._arith(o, lambda a, b: a * b, '*')

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(e=self.expr() / o)
        return int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(e=self.expr() % o)
        return int(self) % o

    def __truediv__(self, o):
        return int(self) / o

    def __neg__(self):
        return SymInt(e=-self.expr())

    def __abs__(self):
        return -self if self < 0 else self

    def __repr__(self):
        return int_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec == '':
            return int_str(self)
        return format(int(self), spec)


def int_str(si):
    """Decimal text of a symbolic integer."""
    if si.var is not None and iset.size(si.var.dom) <= 4:
        return str(int(si))
    if bool(si < 0):
        return '-' + int_str(-si)
    for n in range(1, 12):
        if bool(si < 10 ** n):
            break
    else:
        return str(int(si))
    p = None
    c = CTX
    e = si.expr()
    if n == 1:
        pass
    tot = None
    out = []
    for k in range(n):
        c.nfresh += 1
        ch = c.new_char(f'_d{c.nfresh}', iset.DIGITS, inp=False)
        v = c.var(ch)
        c.relate(v)
        t = (v.zv() - 48) * (10 ** (n - 1 - k))
        tot = t if tot is None else tot + t
        out.append(ch)
    con = e == tot
    c.constraints.append(con)
    c._solver().add(con)
    return ''.join(out)
