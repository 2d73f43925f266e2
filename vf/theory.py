"""Sorts, uninterpreted vocabulary and quantifiers.

Two modes. 'proof': uninterpreted sorts, real quantifiers (with triggers); what
z3 proves holds for every key type, every capacity, every history. 'finite':
small enumerated sorts, quantifiers expanded; used only to find countermodels
of obligations that were not proved.
"""
import z3

NB = 4          # finite mode: number of key classes
BOUND = 3       # finite mode: collections hold at most this many entries


BIG = 1 << 62      # assumed bound on container sizes and event counts


class Clo:
    """A (partial) map from terms to terms, built from an uninterpreted base
    function by definitional updates; reading expands the definition."""
    __slots__ = ('f', 'memo', 'keep', 'name')

    def __init__(self, f, name=None):
        self.f = f
        self.memo = {}
        self.name = name

    def __call__(self, *xs):
        k = tuple(x.get_id() if z3.is_expr(x) else ('c', x) for x in xs)
        r = self.memo.get(k)
        if r is None:
            v = self.f(*xs)
            self.memo[k] = (xs, v)
            return v
        return r[1]


def is_true(x):
    return x is True or (z3.is_expr(x) and z3.is_true(x))


def is_false(x):
    return x is False or (z3.is_expr(x) and z3.is_false(x))


def AND(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        if is_false(x):
            return False
        if is_true(x):
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        if is_true(x):
            return True
        if is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def NOT(x):
    if is_true(x):
        return False
    if is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    if is_false(a) or is_true(b):
        return True
    if is_true(a):
        return b
    if is_false(b):
        return NOT(a)
    return z3.Implies(a, b)


def IFF(a, b):
    return EQ(a, b)


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def EQ(a, b):
    if a is b:
        return True
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return True
        if z3.is_int_value(a) and z3.is_int_value(b):
            return a.as_long() == b.as_long()
        return a == b
    if not z3.is_expr(a):
        a, b = b, a
    if isinstance(b, bool):
        return a if b else NOT(a)
    if z3.is_int_value(a):
        return a.as_long() == b
    return a == b


def NE(a, b):
    return NOT(EQ(a, b))


def ITE(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    if not z3.is_expr(a) and not z3.is_expr(b) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, bool) and not z3.is_expr(b):
        a, b = z3.BoolVal(a), z3.BoolVal(b)
    elif not z3.is_expr(a) and not z3.is_expr(b):
        a = z3.IntVal(a) if isinstance(a, int) else z3.RealVal(a)
        b = z3.IntVal(b) if isinstance(b, int) else z3.RealVal(b)
    return z3.If(c, a, b)


def _cmp(op, a, b):
    if not z3.is_expr(a) and not z3.is_expr(b):
        return op(a, b)
    if z3.is_int_value(a) and not z3.is_expr(b):
        return op(a.as_long(), b)
    return op(a, b)


def LE(a, b):
    return _cmp(lambda x, y: x <= y, a, b)


def LT(a, b):
    return _cmp(lambda x, y: x < y, a, b)


def Z(x):
    """Python constant -> z3 term."""
    if z3.is_expr(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(x)
    raise TypeError(x)


class Theory:
    def __init__(self, mode='proof'):
        self.mode = mode
        self.finite = mode == 'finite'
        self.n = 0
        self.axioms = []
        self.B = z3.BoolSort()
        self.I = z3.IntSort()
        self.R = z3.RealSort()
        if not self.finite:
            mk = lambda n, k: (z3.DeclareSort(n), None)
        else:
            def mk(n, k):
                s, cs = z3.EnumSort(n, ['%s!%d' % (n, i) for i in range(k)])
                return s, cs
        self.dom = {}
        for n, k in (('Obj', 9), ('LN', 8), ('KV', 6), ('VV', 4), ('C', NB), ('VC', 4), ('Fn', 3),
                     ('ES', 3), ('HS', 2), ('GS', 4), ('FS', 2)):
            s, cs = mk(n, k)
            setattr(self, n, s)
            self.dom[s.get_id()] = cs
        self.NULL = z3.Const('NULL', self.Obj)
        self.NULLLN = z3.Const('NULLLN', self.LN)
        # class of a key under an equality functor: eq(e, a, b) <=> cls(e,a)=cls(e,b)
        self.cls = z3.Function('cls', self.ES, self.KV, self.C)
        self.stdeq = z3.Const('stdeq', self.ES)      # operator== on keys
        self.hashv = z3.Function('hashv', self.HS, self.KV, self.I)
        self.vcls = z3.Function('vcls', self.VV, self.VC)

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def fn(self, name, *sorts):
        self.n += 1
        f = z3.Function('%s!%d' % (name, self.n), *sorts)
        return Clo(lambda *xs: f(*[Z(x) for x in xs]), f)

    def domain(self, s, lo=None, hi=None):
        cs = self.dom.get(s.get_id())
        if cs is not None:
            return cs
        if s == self.I:
            return [z3.IntVal(i) for i in range(-1, 2 * BOUND + 3)]
        return None

    def fresh_forall(self, const, body, pats):
        if is_true(body):
            return True
        kw = {}
        ps = [p for p in pats if z3.is_app(p) and p.num_args() > 0 and _uninterp(p)]
        if ps:
            kw['patterns'] = ps
        return z3.ForAll([const], Z(body), **kw)

    def forall(self, sorts, f, pats=None, name='q'):
        """pats: function of the bound variables giving a list of triggers."""
        if self.finite:
            import itertools
            out = []
            for xs in itertools.product(*[self.domain(s) for s in sorts]):
                out.append(f(*xs))
            return AND(*out)
        vs = []
        for s in sorts:
            self.n += 1
            vs.append(z3.Const('%s!%d' % (name, self.n), s))
        body = f(*vs)
        if is_true(body):
            return True
        kw = {}
        if pats is not None:
            ps = pats(*vs)
            ps = [p if isinstance(p, (list, tuple)) else [p] for p in ps]
            good = []
            for p in ps:
                if all(z3.is_app(t) and t.num_args() > 0 and not z3.is_bool(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0) for t in p) \
                        and all(_uninterp(t) for t in p):
                    good.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
            if good:
                kw['patterns'] = good
        return z3.ForAll(vs, Z(body), **kw)


def _uninterp(t):
    """Usable as a trigger: uninterpreted applications only."""
    if z3.is_var(t):
        return True
    if z3.is_app(t):
        if t.num_args() == 0:
            return True
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return all(_uninterp(c) for c in t.children())
        if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) :
            return all(_uninterp(c) for c in t.children())
    return False
