"""Contracts of the iterator classes: what an iterator denotes, how it moves,
what it shows, and when two of them are equal."""
import z3
from theory import *
from interp import *
import stdlib
import units
from view import *
from spec import *

END_ERR = 'LRU::Error::InvalidIterator'
CONV_ERR = 'LRU::Error::InvalidIteratorConversion'
NAMES = ('UnorderedIterator', 'UnorderedConstIterator', 'OrderedIterator', 'OrderedConstIterator')


def iter_types(P, rec):
    """name -> type of the four iterator classes of a cache class."""
    out = {}
    for b in P.bases(rec):
        for m in P.members(b):
            F = P.F[m]
            if F['n'] in ('unordered_begin', 'ordered_begin', 'unordered_cbegin', 'ordered_cbegin') and F.get('body') is not None:
                t = P.refd(F['ret'])
                out.setdefault(P.ty(t)['qn'].split('::')[-1], t)
    return out


def find_type(P, types, t):
    """The iterator class derived from (or equal to) parameter type t."""
    want = P.ty(P.refd(t))['rec']
    for n, it in types.items():
        if want in P.bases(P.ty(it)['rec']):
            return n, it
    return None


class It:
    """An iterator object and what it denoted before the call."""

    def __init__(self, cell, kind, o, n, end, cache):
        self.cell, self.kind, self.o, self.n, self.end, self.cache = cell, kind, o, n, end, cache


def new_iter(c, t, cache='this', end=None, entry=None):
    k = units.pkind(c.P, t)
    cell = units.mkiter(c, t, k, cache, end, entry)
    return It(cell, k, c.ito, c.itn if not c.itend else (c.caches[cache][1].l.end), c.itend, cache)


def under(E, st, cell):
    rv = st.mem[cell.id]
    return st.mem[itfield(E, rv, 'it').id]


def denotes(c, cell, kind, o, n, cache='this', piece='iter', what='the iterator'):
    """cell is an iterator of that kind at entry o / position n of the cache."""
    E = c.E
    rv = E.st.mem[cell.id]
    if not isinstance(rv, RecV):
        raise Unsupported('iterator value')
    v = under(E, E.st, cell)
    if kind == 'uit':
        c.check(piece, what + ' denotes the right entry', EQ(v.o, o) if isinstance(v, MapIt) else False)
    else:
        c.check(piece, what + ' denotes the right position', EQ(v.n, n) if isinstance(v, LIt) else False)
    p = E.st.mem[itfield(E, rv, 'cache').id]
    c.check(piece, what + ' belongs to the right cache', isinstance(p, Ptr) and p.loc.id == c.caches[cache][0].id)
    c.entry_of(rv, o, piece)


def coherent(c, it, piece='iter'):
    """A moved-from iterator still shows nothing but what it denotes."""
    E = c.E
    rv = E.st.mem[it.cell.id]
    v = under(E, E.st, it.cell)
    o = v.o if it.kind == 'uit' else E.st.ref(v.n)
    c.entry_of(rv, o, piece)


def same(c, it, what='the other iterator'):
    denotes(c, it.cell, it.kind, it.o, it.n, it.cache, 'iter', what)


def frame(c):
    for n in c.caches:
        c.same_cache(n, AV(c.caches[n][1]))
        c.same_callbacks(n)
        c.same_statptr(n)
    c.stats_is()
    c.no_calls()
    c.args_unchanged()


def rebase(c):
    """Views of the pre-state for the iterators made so far."""
    units.start(c)


def run_iter(E, unit):
    c = Ctx(E, unit)
    P = E.P
    F = P.F[unit.f]
    cell = units.setup_cache(c, unit, nstats=False)
    c.caches['this'] = (cell, View(E, E.st, cell))
    types = unit.extra['types']
    name = F['n']
    fn = unit.extra['op']
    free = unit.extra.get('free')
    me = None
    its = []
    others = False
    if any(units.pkind(P, p['t']) in ('uit', 'oit') for p in F['params']) and fn in ('==', '!=') and unit.extra.get('mixed'):
        others = E.choose(2) == 1
        if others:
            cell2 = sym_cache(E, unit.type, 'other', NULLP, unit.extra.get('eq'))
            c.caches['other'] = (cell2, View(E, E.st, cell2))
    if not F.get('ctor') and not free:
        me = new_iter(c, unit.extra['itype'])
        its.append(me)
        if fn == '++':
            if me.end:
                raise PathEnd()
        if fn == '--':
            E.assume(LT(0, c.caches['this'][1].l.pos(me.n)) if not me.end else LT(0, Z(c.caches['this'][1].size)))
        if fn in ('*', '->') and me.end:
            raise PathEnd()
    args = []
    selfarg = False
    for p in F['params']:
        k = units.pkind(P, p['t'])
        if k in ('uit', 'oit', 'it'):
            ft = find_type(P, types, p['t'])
            if ft is None:
                raise Unsupported('iterator parameter ' + P.s(p['t']))
            if me is not None and fn in ('=', 'swap') and P.is_ref(p['t']) and not P.is_rref(p['t']) and \
                    ft[1] == P.refd(unit.extra['itype']) and E.choose(2) == 1:
                selfarg = True
                args.append(me.cell)
                its.append(me)
                continue
            it = new_iter(c, ft[1], 'other' if others and not args else 'this')
            its.append(it)
            args.append(it.cell)
        elif k == 'cache':
            args.append(cell)
        elif k == 'mapit':
            x = new_iter(c, types['UnorderedIterator'], end=None, entry=False)
            its.append(x)
            args.append(E.cell(under(E, E.st, x.cell)) if not P.is_ref(p['t']) else itfield(E, E.st.mem[x.cell.id], 'it'))
        elif k == 'listit':
            x = new_iter(c, types['OrderedIterator'], end=None, entry=False)
            its.append(x)
            args.append(E.cell(under(E, E.st, x.cell)) if not P.is_ref(p['t']) else itfield(E, E.st.mem[x.cell.id], 'it'))
        elif k == 'int':
            args.append(E.cell(0))
        else:
            raise Unsupported('iterator argument ' + k)
    units.start(c)
    c.pre = c.caches['this'][1]
    try:
        if F.get('ctor'):
            r = E.construct(unit.extra['itype'], unit.f, args)
        else:
            r = E.inline(unit.f, None if free else me.cell, args)
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    OPS[fn](c, unit, F, me, its, selfarg)
    frame(c)
    E.ends.append(list(E.st.pc))
    return True


OPS = {}


def op(*ns):
    def d(f):
        for n in ns:
            OPS[n] = f
        return f
    return d


@op('ctor')
def _(c, unit, F, me, its, selfarg):
    E = c.E
    kind = units.pkind(c.P, unit.extra['itype'])
    if not its:
        c.no_throw()
        rv = E.st.mem[c.ret().id]
        c.check('iter', 'a default-constructed iterator shows no entry', iter_entry(E, rv) is None)
        return
    a = its[0]
    if a.kind == 'uit' and kind == 'oit' and any(units.pkind(c.P, p['t']) == 'uit' for p in F['params']):
        if a.end:
            c.check('error', 'InvalidIteratorConversion is thrown for a past-the-end iterator', c.threw() == CONV_ERR)
            c.check('iter', 'a past-the-end iterator is not converted', c.threw() == CONV_ERR)
            if not c.P.is_rref(F['params'][0]['t']) and c.P.is_ref(F['params'][0]['t']):
                same(c, a)
            return
        c.check('iter', 'the conversion of an iterator to an entry succeeds', c.threw() is None)
        n = c.pre.orderf(a.o)
    else:
        c.no_throw()
        n = a.n
    denotes(c, c.ret(), kind, a.o, n)
    if F['params'] and units.pkind(c.P, F['params'][0]['t']) in ('uit', 'oit', 'it'):
        if c.P.is_rref(F['params'][0]['t']) or not c.P.is_ref(F['params'][0]['t']):
            coherent(c, a)
        else:
            same(c, a)


@op('=')
def _(c, unit, F, me, its, selfarg):
    c.no_throw()
    a = its[1]
    denotes(c, me.cell, me.kind, a.o, a.n, a.cache)
    c.check('iter', 'assignment returns the iterator assigned to', c.ret() is not None and isinstance(c.ret(), Cell) and c.ret().id == me.cell.id)
    if not selfarg and c.P.is_ref(F['params'][0]['t']):
        if c.P.is_rref(F['params'][0]['t']):
            coherent(c, a)
        else:
            same(c, a)


@op('swap')
def _(c, unit, F, me, its, selfarg):
    c.no_throw()
    a, b = (its[0], its[1])
    if selfarg:
        same(c, a, 'the iterator')
        return
    denotes(c, a.cell, a.kind, b.o, b.n, b.cache)
    denotes(c, b.cell, b.kind, a.o, a.n, a.cache, 'iter', 'the other iterator')


@op('++', '--')
def _(c, unit, F, me, its, selfarg):
    E, pre = c.E, c.pre
    c.no_throw()
    fwd = unit.extra['op'] == '++'
    if me.kind == 'uit':
        m = E.st.mem[pre.mcell.id]
        if m.iseq is None:
            raise Unsupported('iteration order')
        p = m.ipos(me.o) + 1
        o = ITE(EQ(p, Z(m.size)), E.NULL, m.iseq(p))
        n = None
    else:
        l = pre.l
        p = (l.pos(me.n) + 1) if fwd else (ITE(EQ(me.n, l.end), Z(l.size), l.pos(me.n)) - 1)
        n = ITE(EQ(p, Z(l.size)), l.end, l.seq(p))
        o = pre.ref(n)
    denotes(c, me.cell, me.kind, o, n)
    r = c.ret()
    if F['params']:
        denotes(c, r, me.kind, me.o, me.n, 'this', 'iter', 'the iterator returned')
    else:
        c.check('iter', 'the iterator itself is returned', isinstance(r, Cell) and r.id == me.cell.id)


def shows(c, loc, o):
    """loc is an entry object referring to the key and value of o."""
    E = c.E
    er = E.load(loc)
    if not isinstance(er, RecV) or 'first' not in er.fields:
        raise Unsupported('entry layout')
    c.check('iter', 'the key shown is that of the entry denoted', EQ(er.fields['first'].o, o))
    c.check('iter', 'the value shown is that of the entry denoted, by reference', EQ(er.fields['second'].o, o))


@op('*', '->')
def _(c, unit, F, me, its, selfarg):
    E = c.E
    c.no_throw()
    r = c.ret()
    if unit.extra['op'] == '->':
        r = E.val(r)
        c.check('iter', 'operator-> yields an entry', isinstance(r, Ptr))
        r = r.loc
    shows(c, r, me.o)
    same(c, me, 'the iterator')


@op('entry', 'key', 'value')
def _(c, unit, F, me, its, selfarg):
    E = c.E
    t = c.threw()
    if me.end:
        c.check('error', 'InvalidIterator is thrown for a past-the-end iterator', t == END_ERR)
        c.check('iter', 'a past-the-end iterator shows no entry', t is not None)
    elif c.pre.timef:
        c.check('error', 'only KeyExpired is thrown for a stored entry', t in (None, 'LRU::Error::KeyExpired'))
        x = c.pre
        if t is not None:
            c.check('expiry', 'KeyExpired is thrown only if the time to live has passed', x.expt(x.timef(me.o), E.st.now))
        else:
            c.check('expiry', 'an expired entry is not shown', NOT(x.expt(x.timef(me.o), c.t0)))
    else:
        c.check('error', 'nothing is thrown for a stored entry', t is None)
        c.check('iter', 'the entry is shown', t is None)
    same(c, me, 'the iterator')
    if t is None and not me.end:
        r = c.ret()
        w = unit.extra['op']
        if w == 'entry':
            shows(c, r, me.o)
        else:
            c.check('iter', 'the %s shown is that of the entry denoted, by reference' % w, EQ(r.o, me.o) if isinstance(r, HLoc) else False)
            if isinstance(r, HLoc):
                k = c.P.kind(r.t)
                c.check('iter', 'a reference of the right kind', k == ('K' if w == 'key' else 'V'))


@op('==', '!=')
def _(c, unit, F, me, its, selfarg):
    E = c.E
    c.no_throw()
    a, b = its[0], its[1]
    if a.kind == b.kind:
        want = EQ(a.o, b.o) if a.kind == 'uit' else EQ(a.n, b.n)
    elif a.cache != b.cache:
        want = False
    else:
        u, o = (a, b) if a.kind == 'uit' else (b, a)
        if u.end or o.end:
            want = bool(u.end and o.end)
        else:
            want = EQ(c.caches['this'][1].orderf(u.o), o.n)
    if unit.extra['op'] == '!=':
        want = NOT(want)
    r = E.tobool(c.ret())
    c.check('iter', 'two iterators compare equal exactly when they denote the same entry', EQ(Z(r), Z(want)))
    same(c, a, 'the iterator')
    same(c, b)


METHODS = {'operator++': '++', 'operator--': '--', 'operator*': '*', 'operator->': '->', 'entry': 'entry', 'key': 'key', 'value': 'value',
           'operator==': '==', 'operator!=': '!=', 'operator=': '=', 'swap': 'swap'}


def iter_units(P, cls, rec, t):
    out = []
    types = iter_types(P, rec)
    allrecs = {}
    for n, it in types.items():
        for b in P.bases(P.ty(it)['rec']):
            allrecs[b] = n

    def add(f, nm, op, **kw):
        u = units.Unit(cls, rec, f, nm, P)
        u.type = t
        u.extra.update(run='iter', group='iter', op=op, types=types, **kw)
        out.append(u)
    for n in NAMES:
        if n not in types:
            continue
        it = types[n]
        seen = []
        first = True
        for b in P.bases(P.ty(it)['rec']):
            for m in P.members(b):
                F = P.F[m]
                if F.get('access') != 0 or F.get('deleted') or F.get('dtor') or F.get('static') or F.get('pure'):
                    continue
                if any(m in P.overridden(s) for s in seen):
                    continue
                ks = [units.pkind(P, p['t']) for p in F['params']]
                if F.get('ctor'):
                    if not first or (F.get('body') is None and not F.get('inits')) and ks:
                        continue
                    if any(k in ('uit', 'oit') and find_type(P, types, p['t']) is None for k, p in zip(ks, F['params'])):
                        continue
                    add(m, '%s(%s)' % (n, ','.join(ks)), 'ctor', itype=it)
                    continue
                if F.get('body') is None or F['n'] not in METHODS:
                    continue
                if F['n'] == 'operator=' and not first and not F.get('targs'):
                    continue
                seen.append(m)
                mixed = any(k in ('uit', 'oit') and k != units.pkind(P, it) for k in ks)
                add(m, '%s::%s(%s)' % (n, F['n'], ','.join(ks)), METHODS[F['n']], itype=it, mixed=mixed)
            first = False
    for i, F in enumerate(P.F):
        if F and F.get('rec') is None and F.get('inroot') and F.get('body') is not None and F['n'] in ('operator==', 'operator!=', 'swap'):
            ks = [units.pkind(P, p['t']) for p in F['params']]
            if len(ks) == 2 and all(k in ('uit', 'oit', 'it') for k in ks) and all(P.ty(P.refd(p['t']))['rec'] in allrecs for p in F['params']):
                add(i, '%s(%s)' % (F['n'], ','.join(find_type(P, types, p['t'])[0] for p in F['params'])), METHODS[F['n']], free=True, mixed=ks[0] != ks[1])
    return out


units.RUNNERS['iter'] = run_iter
