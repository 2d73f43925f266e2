"""Abstract views of the library's data structures, their invariants, and the
construction of arbitrary (symbolic) instances that satisfy them.

A cache is seen as a partial map from key classes (under its key equality) to
entries (key, value, storing time, recency position), plus size and capacity.
"""
import z3
from theory import *
from interp import *
import stdlib


def norm(qn):
    return qn


class Roles:
    """Which field of a cache class plays which part (found by type)."""

    def __init__(self, P, rec):
        fs = P.all_fields(rec)
        self.rec = rec
        self.map = self.list = self.la = self.stats = self.cbs = self.cap = self.ttl = None
        for f in fs:
            k = P.kind(f['t'])
            if k == 'map':
                self.map = f
            elif k == 'list':
                self.list = f
            elif k == 'int':
                if self.cap is not None:
                    raise Unsupported('cache layout: two integers')
                self.cap = f
            elif k == 'dur':
                self.ttl = f
            elif k == 'rec':
                sub = P.all_fields(P.ty(f['t'])['rec'])
                ks = [P.kind(x['t']) for x in sub]
                if 'ptr' in ks:
                    self.la = f
                elif 'sptr' in ks:
                    self.stats = f
                elif 'vec' in ks:
                    self.cbs = f
                else:
                    raise Unsupported('cache layout: field ' + f['n'])
            else:
                raise Unsupported('cache layout: field ' + f['n'])
        for n in ('map', 'list', 'la', 'stats', 'cbs', 'cap'):
            if getattr(self, n) is None:
                raise Unsupported('cache layout: no ' + n)
        self.infot = P.targ(self.map['t'], 1)
        self.order = self.time = self.timet = None
        once(P, P.all_fields(P.ty(P.refd(self.infot))['rec']), 'information')
        for f in P.all_fields(P.ty(P.refd(self.infot))['rec']):
            k = P.kind(f['t'])
            if k == 'listit':
                self.order = f['n']
            elif k == 'tp':
                self.time, self.timet = f['n'], f['t']
            elif k == 'V':
                self.value = f['n']
            else:
                raise Unsupported('information layout: ' + f['n'])
        la = P.all_fields(P.ty(P.refd(self.la['t']))['rec'])
        self.lakey = self.lainfo = self.lavalid = self.laeq = None
        if len(la) != 4:
            raise Unsupported('last-accessed layout')
        for f in la:
            k = P.kind(f['t'])
            if k == 'ptr':
                if P.kind(P.ty(f['t'])['to']) in ('K', 'KT'):
                    self.lakey = f['n']
                else:
                    self.lainfo = f['n']
            elif k == 'bool':
                self.lavalid = f['n']
            elif k == 'E':
                self.laeq = f['n']
            else:
                raise Unsupported('last-accessed layout: ' + f['n'])
        if None in (self.lakey, self.lainfo, self.lavalid, self.laeq, self.order):
            raise Unsupported('last-accessed layout')
        once(P, P.all_fields(P.ty(P.refd(self.stats['t']))['rec']), 'statistics pointer', 1)
        self.statsp = [f['n'] for f in P.all_fields(P.ty(P.refd(self.stats['t']))['rec'])][0]
        self.cbn = {}
        for f in P.all_fields(P.ty(P.refd(self.cbs['t']))['rec']):
            for w in ('hit', 'miss', 'access'):
                if w in f['n']:
                    self.cbn[w] = f['n']
        if len(self.cbn) != 3 or len(P.all_fields(P.ty(P.refd(self.cbs['t']))['rec'])) != 3:
            raise Unsupported('callback layout')


def itroles(E, rec):
    """Names of the members of an iterator class: underlying iterator, cache,
    remembered entry (found by type)."""
    key = ('it', rec)
    r = E.rolescache.get(key)
    if r is None:
        P, r = E.P, {}
        for f in P.all_fields(rec):
            k = P.kind(f['t'])
            w = {'mapit': 'it', 'listit': 'it', 'ptr': 'cache', 'rec': 'entry', 'uptr': 'entry'}.get(k)
            if w is None or w in r:
                raise Unsupported('iterator layout: ' + f['n'])
            r[w] = f['n']
        if len(r) != 3:
            raise Unsupported('iterator layout')
        E.rolescache[key] = r
    return r


def itfield(E, rv, w):
    return rv.fields[itroles(E, rv.rec)[w]]


def once(P, fields, what, n=None):
    """A data member the specification does not know makes a unit undecided."""
    ks = [P.kind(f['t']) for f in fields]
    if len(set(ks)) != len(ks) or n is not None and len(ks) != n:
        raise Unsupported(what + ' layout')


def getroles(E, rec):
    r = E.rolescache.get(rec)
    if r is None:
        r = E.rolescache[rec] = Roles(E.P, rec)
    return r


def heapfn(E, st, name):
    f = st.heap.get(name)
    if f is None:
        f = E.heap0[name]
    return f


class View:
    """Read-only view of a cache in a state."""

    def __init__(self, E, st, cell, rec=None):
        self.E, self.st, self.cell = E, st, cell
        rv = st.mem[cell.id]
        self.R = R = getroles(E, rec or rv.rec)
        g = lambda h: st.mem[h.id]
        f = rv.fields
        self.mcell, self.lcell, self.capcell = f[R.map['n']], f[R.list['n']], f[R.cap['n']]
        self.m, self.l, self.cap = g(self.mcell), g(self.lcell), g(self.capcell)
        if self.m is UNINIT or self.l is UNINIT or self.cap is UNINIT:
            E.oblige(False, 'every member of the cache is initialised')
        la = g(f[R.la['n']])
        self.lacell = f[R.la['n']]
        self.lakey, self.lainfo, self.lavalid, self.laeq = [g(la.fields[n]) for n in (R.lakey, R.lainfo, R.lavalid, R.laeq)]
        self.ttl = g(f[R.ttl['n']]) if R.ttl else None
        self.sp = g(g(f[R.stats['n']]).fields[R.statsp])
        cb = g(f[R.cbs['n']])
        self.cb = {w: g(cb.fields[n]) for w, n in R.cbn.items()}
        self.K, self.V = heapfn(E, st, 'K'), heapfn(E, st, 'V')
        E.leaf(R.order, E.th.LN)
        self.orderf = heapfn(E, st, R.order)
        self.timef = None
        if R.time:
            E.leaf(R.time, E.th.I)
            self.timef = heapfn(E, st, R.time)
        self.own, self.ref, self.ownL = st.own, st.ref, st.ownL
        m, l, N = self.m, self.l, E.NULL
        self.eq, self.hash = m.eq, m.hash
        self.size = m.size
        self.pres = Clo(lambda c: NE(m.at(c), N))
        self.obj = Clo(lambda c: m.at(c))
        self.key = Clo(lambda c: self.K(m.at(c)))
        self.val = Clo(lambda c: self.V(m.at(c)))
        self.time = Clo(lambda c: self.timef(m.at(c))) if self.timef else None
        self.pos = Clo(lambda c: l.pos(self.orderf(m.at(c))))
        self.cls = lambda kv: E.th.cls(m.eq, kv)
        self.cat = Clo(lambda i: E.th.cls(m.eq, self.K(self.ref(l.seq(i)))))

    def exp(self, c, t):
        """Has the entry of class c expired at time t?"""
        return self.expt(self.time(c), t) if self.timef else False

    def expt(self, time, t):
        E, R = self.E, self.R
        if not R.time:
            return False
        d = stdlib.dur_convert(E, Z(t) - Z(time), stdlib.tp_dur(E, R.timet), R.ttl['t'])
        return LT(self.ttl, d) if True else None


def inv(E, v):
    """The cache invariant: named parts."""
    th, m, l = E.th, v.m, v.l
    own, ref, ownL, order = v.own, v.ref, v.ownL, v.orderf
    out = []
    out.append(('link', 'every position of the order list refers to the key of the stored entry that points back to it',
                th.forall([th.LN], lambda n: IMP(EQ(ownL(n), l.tok), AND(EQ(own(ref(n)), m.tok), EQ(order(ref(n)), n))),
                          lambda n: [ownL(n)])))
    out.append(('link', 'every stored entry has its own position in the order list',
                th.forall([th.Obj], lambda o: IMP(EQ(own(o), m.tok), AND(EQ(ownL(order(o)), l.tok), EQ(ref(order(o)), o))),
                          lambda o: [own(o)])))
    out.append(('size', 'the order list and the map have the same size', EQ(Z(m.size), Z(l.size))))
    out.append(('bound', 'size does not exceed capacity', LE(Z(m.size), Z(v.cap))))
    t1, t2 = 'the last-accessed entry, if valid, is a stored entry', 'the last-accessed entry, if valid, is the most recently used one'
    if v.lavalid is UNINIT:
        out += [('last', t1, False), ('lastpos', t2, False)]
    elif v.lakey in (NULLP, UNINIT) or v.lainfo in (NULLP, UNINIT):
        out += [('last', t1, NOT(v.lavalid)), ('lastpos', t2, True)]
    else:
        lo, li = v.lakey.o, v.lainfo.o
        out.append(('last', t1, IMP(v.lavalid, AND(EQ(own(lo), m.tok), EQ(lo, li)))))
        out.append(('lastpos', t2, IMP(v.lavalid, EQ(Z(l.pos(order(lo))), Z(l.size) - 1))))
    out.append(('eq', 'the last-access shortcut compares keys as the map does', EQ(v.laeq, m.eq)))
    return out


class SView:
    """View of a Statistics object."""

    def __init__(self, E, st, cell):
        self.E, self.st, self.cell = E, st, cell
        rv = st.mem[cell.id]
        g = lambda h: st.mem[h.id]
        self.acc = self.hits = self.m = None
        for n, h in rv.fields.items():
            x = g(h)
            if isinstance(x, MapV):
                self.m = x
            elif 'access' in n and self.acc is None:
                self.acc = x
            elif 'hits' in n and self.hits is None:
                self.hits = x
            else:
                raise Unsupported('statistics layout: ' + n)
        if self.m is None or self.acc is None or self.hits is None:
            raise Unsupported('statistics layout')
        ks = E.P.all_fields(E.P.ty(E.P.refd(E.P.targ(self.m.t, 1)))['rec'])
        if sorted(f['n'] for f in ks) != ['hits', 'misses']:
            raise Unsupported('key statistics layout')
        E.leaf('hits', E.th.I)
        E.leaf('misses', E.th.I)
        hf, mf = heapfn(E, st, 'hits'), heapfn(E, st, 'misses')
        m = self.m
        self.pres = Clo(lambda c: NE(m.at(c), E.NULL))
        self.khits = Clo(lambda c: hf(m.at(c)))
        self.kmisses = Clo(lambda c: mf(m.at(c)))
        self.cls = lambda kv: E.th.cls(m.eq, kv)
        self.size = m.size
        self.obj = m.at


def sinv(E, s):
    return [('law', 'hits do not exceed accesses', AND(LE(0, Z(s.hits)), LE(Z(s.hits), Z(s.acc)))),
            ('law', 'key counters are not negative', _nonneg(E, s))]


def _nonneg(E, s):
    th = E.th
    return th.forall([th.C], lambda c: IMP(s.pres(c), AND(LE(0, s.khits(c)), LE(0, s.kmisses(c)))), lambda c: [s.m.at(c)])


# ------------------------------------------------------------------ symbolic instances
def sym(E, t, name, ctx):
    """An arbitrary value of type t (handle for class types)."""
    P, th = E.P, E.th
    k = P.kind(t)
    if k == 'int':
        x = th.fresh(name, th.I)
        ty = P.ty(P.refd(t))
        if ty.get('signed'):
            E.assume(AND(LE(-(1 << (ty['bits'] - 1)), x), LT(x, 1 << (ty['bits'] - 1))))
        else:
            E.assume(AND(LE(0, x), LT(x, 1 << ty.get('bits', 64))))
        return x
    if k == 'bool':
        return th.fresh(name, th.B)
    if k == 'real':
        return th.fresh(name, th.R)
    if k == 'dur':
        return th.fresh(name, th.I if E.durint(t) else th.R)
    if k == 'tp':
        x = th.fresh(name, th.I)
        return x
    if k == 'E':
        return th.fresh(name, th.ES)
    if k == 'H':
        return th.fresh(name, th.HS)
    if k == 'func':
        return FnV(th.fresh(name, th.Fn))
    if k == 'map':
        return stdlib.sym_map(E, P.refd(t), **ctx.get(name, ctx.get('*map', {})))
    if k == 'list':
        return stdlib.sym_list(E, P.refd(t))
    if k == 'vec':
        return stdlib.sym_vec(E, P.targ(P.refd(t), 0), name)
    if k == 'ptr':
        return PObj(th.fresh(name, th.Obj), P.ty(t)['to'])
    if k == 'sptr':
        return ctx['stats'](E, t) if 'stats' in ctx else NULLP
    if k == 'rec':
        return symrec(E, t, name, ctx)
    raise Unsupported('symbolic ' + P.s(t))


def symrec(E, t, name, ctx):
    P = E.P
    t = P.refd(t)
    c = E.cell(None, name)
    fields = {}
    for f in P.all_fields(P.ty(t)['rec']):
        v = sym(E, f['t'], f['n'], ctx)
        fields[f['n']] = v if isinstance(v, Cell) else E.cell(v, f['n'])
    E.st.mem[c.id] = RecV(P.ty(t)['rec'], t, fields)
    return c


def sym_stats(E, t):
    """Statistics object with its own laws assumed."""
    c = symrec(E, t, 'stats', {'*map': {'eq': E.th.stdeq}})
    c.name = 'heapcell'
    for n, h in list(E.st.mem[c.id].fields.items()):
        v = E.st.mem[h.id]
        if isinstance(v, MapV):
            E.st.mem[h.id] = v.upd(eq=E.th.stdeq) if v.eq is not E.th.stdeq else v
    s = SView(E, E.st, c)
    for _, _, f in sinv(E, s):
        E.assume(f)
    E.assume(LT(Z(s.acc), BIG))
    E.assume(th_counts(E, s))
    return c


def th_counts(E, s):
    th = E.th
    return th.forall([th.C], lambda c: IMP(s.pres(c), AND(LT(s.khits(c), BIG), LT(s.kmisses(c), BIG))), lambda c: [s.m.at(c)])


def sym_cache(E, t, name='cache', stats=None, eq=None):
    ctx = {'stats': (lambda E, t: stats if stats is not None else NULLP)}
    R = getroles(E, E.P.ty(E.P.refd(t))['rec'])
    if eq is not None:
        ctx[R.map['n']] = {'eq': eq}
    c = symrec(E, t, name, ctx)
    v = View(E, E.st, c)
    for _, _, f in inv(E, v):
        E.assume(f)
    return c
