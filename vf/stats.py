"""Contracts of the statistics classes, of the entries iterators show and of
insertion results."""
import z3
from theory import *
from interp import *
import stdlib
import bulk
import units
from view import *
from spec import *

UNMON = 'LRU::Error::UnmonitoredKey'
STAT = {}


def sc(*ns):
    def d(f):
        for n in ns:
            STAT[n] = f
        return f
    return d


def run_stats(E, unit):
    c = Ctx(E, unit)
    P = E.P
    F = P.F[unit.f]
    me = None
    if not F.get('ctor'):
        me = sym_stats(E, unit.type)
        c.stats = (me, None)
    c.args = units.mkargs(c, F)
    units.start(c)
    if me is None:
        bulk.setup(E, getattr(c, 'vec', None), getattr(c, 'vb', 0), heapfn(E, c.pre0, 'K'), heapfn(E, c.pre0, 'V'))
    c.this = me
    try:
        r = E.construct(unit.type, unit.f, list(c.args)) if me is None else E.inline(unit.f, me, list(c.args))
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    STAT['ctor' if me is None else unit.name](c)
    c.no_calls()
    c.args_unchanged()
    E.ends.append(list(E.st.pc))
    return True


@sc('ctor')
def _(c):
    E, P, th = c.E, c.P, c.th
    c.no_throw()
    s = SView(E, E.st, c.ret())
    c.check('stats', 'a new statistics object has counted nothing', AND(EQ(Z(s.acc), 0), EQ(Z(s.hits), 0)))
    c.check('functors', 'keys are compared with the keys\' own equality', EQ(s.m.eq, th.stdeq))
    x = th.fresh('c', th.C)
    if getattr(c, 'vec', None) is not None:
        n = (c.ve - c.vb) if hasattr(c, 'vb') else c.vec.len
        K0 = heapfn(E, c.pre0, 'K')
        # the empty range needs no loop at all
        want = E.bulk['mon'](x, n)
        c.check('kstats', 'exactly the keys of the range are monitored', EQ(s.pres(x), want))
    else:
        ks = [c.argkey(i) for i in range(len(c.args))]
        c.check('kstats', 'exactly the keys given are monitored', EQ(s.pres(x), OR(*[EQ(x, th.cls(th.stdeq, k)) for k in ks])))
    c.check('kstats', 'their counters are zero', IMP(s.pres(x), AND(EQ(s.khits(x), 0), EQ(s.kmisses(x), 0))))
    for _, t, f in sinv(E, s):
        c.check('slaw', t, f)


def unchanged(c):
    c.stats_is()


@sc('total_accesses()', 'total_hits()', 'total_misses()', 'number_of_monitored_keys()')
def _(c):
    c.no_throw()
    s = c.stats[1]
    n = c.unit.name.split('(')[0]
    w = {'total_accesses': s.acc, 'total_hits': s.hits, 'total_misses': Z(s.acc) - Z(s.hits), 'number_of_monitored_keys': s.size}[n]
    c.check('ret', 'the right count is returned', EQ(Z(c.E.val(c.ret())), Z(w)))
    unchanged(c)


@sc('hit_rate()', 'miss_rate()')
def _(c):
    E = c.E
    c.no_throw()
    s = c.stats[1]
    r = Z(E.val(c.ret()))
    acc, hits = z3.ToReal(Z(s.acc)), z3.ToReal(Z(s.hits))
    some = LT(0, Z(s.acc))
    c.check('ret', 'the rate lies between 0 and 1', IMP(some, AND(LE(Z(0.0), r), LE(r, Z(1.0)))))
    want = hits if c.unit.name.startswith('hit') else acc - hits
    c.check('ret', 'the rate is the number of %s over that of accesses' % ('hits' if c.unit.name.startswith('hit') else 'misses'), IMP(some, EQ(r * acc, want)))
    unchanged(c)


@sc('hits_for(K)', 'misses_for(K)', 'accesses_for(K)', 'stats_for(K)', 'operator[](K)')
def _(c):
    E = c.E
    s = c.stats[1]
    k = s.cls(c.argkey(0))
    t = c.threw()
    n = c.unit.name.split('(')[0]
    if t is not None:
        c.check('error', 'UnmonitoredKey is thrown only for keys that are not monitored', AND(t == UNMON, NOT(s.pres(k))))
    else:
        c.check('error', 'UnmonitoredKey is thrown for keys that are not monitored', s.pres(k))
        r = c.ret()
        if n in ('stats_for', 'operator[]'):
            c.check('ret', 'the key\'s own counters are returned', EQ(r.o, s.obj(k)) if isinstance(r, HLoc) else False)
        else:
            w = {'hits_for': s.khits(k), 'misses_for': s.kmisses(k), 'accesses_for': s.khits(k) + s.kmisses(k)}[n]
            c.check('ret', 'the key\'s own count is returned', EQ(Z(E.val(r)), w))
    unchanged(c)


@sc('is_monitoring(K)')
def _(c):
    c.no_throw()
    s = c.stats[1]
    c.check('ret', 'whether the key is monitored is returned', EQ(Z(c.E.tobool(c.ret())), s.pres(s.cls(c.argkey(0)))))
    unchanged(c)


@sc('is_monitoring_keys()')
def _(c):
    c.no_throw()
    s = c.stats[1]
    c.check('ret', 'whether any key is monitored is returned', EQ(Z(c.E.tobool(c.ret())), NE(Z(s.size), 0)))
    unchanged(c)


@sc('monitor(K)')
def _(c):
    c.no_throw()
    s = c.stats[1]
    k = s.cls(c.argkey(0))
    sv = SV(s)
    p, h, m = sv.pres, sv.khits, sv.kmisses
    sv.pres = Clo(lambda x: OR(p(x), EQ(x, k)))
    new = NOT(p(k))
    sv.khits = Clo(lambda x: ITE(AND(EQ(x, k), new), Z(0), h(x)))
    sv.kmisses = Clo(lambda x: ITE(AND(EQ(x, k), new), Z(0), m(x)))
    sv.size = Z(s.size) + ITE(new, Z(1), Z(0))
    c.stats_is(sv)


@sc('unmonitor(K)', 'reset_key(K)')
def _(c):
    s = c.stats[1]
    k = s.cls(c.argkey(0))
    t = c.threw()
    sv = SV(s)
    if t is not None:
        c.check('error', 'UnmonitoredKey is thrown only for keys that are not monitored', AND(t == UNMON, NOT(s.pres(k))))
    else:
        c.check('error', 'UnmonitoredKey is thrown for keys that are not monitored', s.pres(k))
        if c.unit.name.startswith('unmonitor'):
            p = sv.pres
            sv.pres = Clo(lambda x: AND(p(x), NE(x, k)))
            sv.size = Z(s.size) - 1
        else:
            h, m = sv.khits, sv.kmisses
            sv.khits = Clo(lambda x: ITE(EQ(x, k), Z(0), h(x)))
            sv.kmisses = Clo(lambda x: ITE(EQ(x, k), Z(0), m(x)))
    c.stats_is(sv)


@sc('unmonitor_all()', 'reset_all()')
def _(c):
    c.no_throw()
    sv = SV(c.stats[1])
    if c.unit.name.startswith('unmonitor'):
        sv.pres = Clo(lambda x: False)
        sv.size = 0
    else:
        sv.khits = sv.kmisses = Clo(lambda x: Z(0))
    c.stats_is(sv)


# ------------------------------------------------------------------ counters of one key
def run_keystats(E, unit):
    c = Ctx(E, unit)
    F = E.P.F[unit.f]
    E.leaf('hits', E.th.I)
    E.leaf('misses', E.th.I)
    o = None
    if not F.get('ctor'):
        o = E.th.fresh('ks', E.th.Obj)
        E.assume(AND(NE(o, E.NULL), EQ(E.st.own(o), -1)))
    c.args = units.mkargs(c, F)
    units.start(c)
    h0, m0 = heapfn(E, c.pre0, 'hits'), heapfn(E, c.pre0, 'misses')
    if o is not None:
        E.assume(AND(LE(0, h0(o)), LT(h0(o), BIG), LE(0, m0(o)), LT(m0(o), BIG)))
    try:
        r = E.construct(unit.type, unit.f, list(c.args)) if o is None else E.inline(unit.f, HLoc(o, E.P.refd(unit.type)), [])
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    h1, m1 = heapfn(E, E.st, 'hits'), heapfn(E, E.st, 'misses')
    n = F['n']
    if o is None:
        a = [E.val(x) for x in c.args]
        h, m = (h1(r.o), m1(r.o)) if isinstance(r, HLoc) else (E.val(E.load(E.member(r, 'hits'))), E.val(E.load(E.member(r, 'misses'))))
        c.check('kstats', 'the counters are those given', AND(EQ(Z(h), Z(a[0])), EQ(Z(m), Z(a[1]))))
    elif n == 'accesses':
        c.check('kstats', 'accesses are hits plus misses', EQ(Z(E.val(r)), h0(o) + m0(o)))
        c.check('kstats', 'counters unchanged', AND(EQ(h1(o), h0(o)), EQ(m1(o), m0(o))))
    elif n == 'reset':
        c.check('kstats', 'both counters are zero', AND(EQ(h1(o), 0), EQ(m1(o), 0)))
    x = E.th.fresh('ox', E.th.Obj)
    h = AND(NE(c.pre0.own(x), 0), *([NE(x, o)] if o is not None else []))
    c.check('frame', 'other counters are unchanged', IMP(h, AND(EQ(h1(x), h0(x)), EQ(m1(x), m0(x)))))
    c.args_unchanged() if o is None else None
    E.ends.append(list(E.st.pc))
    return True


# ------------------------------------------------------------------ entries
def sym_entry(c, t):
    """An entry object referring to arbitrary live key and value objects."""
    E, P, th = c.E, c.P, c.th
    rec = P.ty(P.refd(t))['rec']
    fields = {}
    for f in P.all_fields(rec):
        k = P.kind(f['t'])
        if k not in ('K', 'V') or not P.is_ref(f['t']):
            raise Unsupported('entry layout')
        o = th.fresh('ent' + k, th.Obj)
        E.assume(AND(NE(o, E.NULL), NE(E.st.own(o), 0)))
        fields[f['n']] = HLoc(o, P.refd(f['t']))
    if sorted(fields) != ['first', 'second']:
        raise Unsupported('entry layout')
    cell = E.cell(None, 'entry')
    E.st.mem[cell.id] = RecV(rec, P.refd(t), fields)
    return cell


def parts(E, cell):
    rv = E.load(cell)
    return rv.fields['first'].o, rv.fields['second'].o


def run_entry(E, unit):
    c = Ctx(E, unit)
    P, th = E.P, E.th
    F = P.F[unit.f]
    op = unit.extra['op']
    me = None
    c.args = []
    ents = []
    if not F.get('ctor') and not unit.extra.get('free'):
        me = sym_entry(c, unit.type)
        ents.append(parts(E, me))
    if op in ('ctor', 'cmp'):
        for p in F['params']:
            k = P.kind(p['t'])
            if k in ('K', 'V'):
                o = th.fresh('arg' + k, th.Obj)
                E.assume(AND(NE(o, E.NULL), NE(E.st.own(o), 0)))
                c.args.append(HLoc(o, P.refd(p['t'])))
                ents.append(o)
            elif P.ty(P.refd(p['t']))['qn'] == 'LRU::Entry':
                x = sym_entry(c, p['t'])
                c.args.append(x)
                ents.append(parts(E, x))
            elif k == 'heap':
                o = th.fresh('argp', th.Obj)
                E.assume(AND(NE(o, E.NULL), NE(E.st.own(o), 0)))
                c.args.append(HLoc(o, P.refd(p['t'])))
                ents.append((o, o))
            else:
                raise Unsupported('entry argument ' + k)
    units.start(c)
    K0, V0 = heapfn(E, c.pre0, 'K'), heapfn(E, c.pre0, 'V')
    try:
        r = E.construct(unit.type, unit.f, list(c.args)) if op == 'ctor' else E.inline(unit.f, me, list(c.args))
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    if op == 'ctor':
        k, v = ents if len(ents) == 2 else ents[0]
        a = parts(E, r)
        c.check('iter', 'an entry refers to the key and value given', AND(EQ(a[0], k), EQ(a[1], v)))
    elif op == 'cmp':
        (k1, v1), (k2, v2) = ents
        want = AND(EQ(th.cls(th.stdeq, K0(k1)), th.cls(th.stdeq, K0(k2))), EQ(th.vcls(V0(v1)), th.vcls(V0(v2))))
        if F['n'] == 'operator!=':
            want = NOT(want)
        c.check('iter', 'entries compare by key and value', EQ(Z(E.tobool(r)), want))
    else:
        k, v = ents[0]
        if F['n'] == 'key':
            c.check('iter', 'key() is a reference to the key', EQ(r.o, k) if isinstance(r, HLoc) and P.kind(r.t) == 'K' else False)
        elif F['n'] == 'value':
            c.check('iter', 'value() is a reference to the value', EQ(r.o, v) if isinstance(r, HLoc) and P.kind(r.t) == 'V' else False)
        else:
            a = parts(E, r)
            c.check('iter', 'the pair holds references to key and value', AND(EQ(a[0], k), EQ(a[1], v)))
    c.no_calls()
    c.args_unchanged()
    E.ends.append(list(E.st.pc))
    return True


# ------------------------------------------------------------------ insertion results
def run_insres(E, unit):
    import iters
    c = Ctx(E, unit)
    P, th = E.P, E.th
    F = P.F[unit.f]
    cell = units.setup_cache(c, unit, nstats=False)
    c.caches['this'] = (cell, View(E, E.st, cell))
    it = iters.new_iter(c, unit.extra['itype'])
    flag = th.fresh('flag', th.B)
    me = None
    if not F.get('ctor'):
        me = E.cell(None, 'result')
        fs = {}
        for f in P.all_fields(P.ty(unit.extra['rtype'])['rec']):
            fs[f['n']] = E.cell(flag) if P.kind(f['t']) == 'bool' else it.cell
        E.st.mem[me.id] = RecV(P.ty(unit.extra['rtype'])['rec'], unit.extra['rtype'], fs)
    units.start(c)
    c.pre = c.caches['this'][1]
    try:
        r = E.construct(unit.extra['rtype'], unit.f, [flag, it.cell]) if me is None else E.inline(unit.f, me, [])
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    rv = E.st.mem[(r if me is None else me).id]
    c.check('iter', 'the result says whether the key was new', EQ(Z(E.val(rv.fields['first'])), flag))
    iters.denotes(c, rv.fields['second'], 'uit', it.o, it.n, 'this', 'iter', 'the iterator in the result')
    if me is not None:
        if F['n'] == 'iterator':
            iters.denotes(c, r, 'uit', it.o, it.n, 'this', 'iter', 'the iterator returned')
        else:
            c.check('iter', 'whether the key was new is returned', EQ(Z(E.tobool(r)), flag))
    iters.frame(c)
    E.ends.append(list(E.st.pc))
    return True


# ------------------------------------------------------------------ enumeration
def stat_units(P):
    recs = units.class_recs(P)
    out = []

    def add(cls, rec, t, m, nm, run, group, **kw):
        u = units.Unit(cls, rec, m, nm, P)
        u.type = t
        u.extra.update(run=run, group=group, **kw)
        out.append(u)
    if 'Stats' in recs:
        rec, t = recs['Stats']
        for m in P.members(rec):
            F = P.F[m]
            if F.get('access') != 0 or F.get('deleted') or F.get('dtor') or F.get('static'):
                continue
            nm = units.fname(P, m)
            if F.get('ctor'):
                if (F.get('body') is None and not F.get('inits')) or 'statistics' in nm:
                    continue
                add('Statistics', rec, t, m, nm, 'stats', 'stat')
            elif F.get('body') is not None and nm in STAT:
                add('Statistics', rec, t, m, nm, 'stats', 'stat')
    for i, x in enumerate(P.T):
        if x['k'] != 'rec' or x.get('const') or not x.get('qn'):
            continue
        if x['qn'] == 'LRU::KeyStatistics':
            for m in P.members(x['rec']):
                F = P.F[m]
                if F.get('body') is not None and not F.get('dtor') and not F.get('implicit') and F.get('access') == 0 and not F.get('copyctor') and not F.get('movector'):
                    add('KeyStatistics', x['rec'], i, m, units.fname(P, m), 'keystats', 'stat')
        if x['qn'] == 'LRU::Entry' and P.kind(P.targ(i, 0)) == 'K':
            cls = 'ConstEntry' if P.ty(P.targ(i, 1)).get('const') else 'Entry'
            for m in P.members(x['rec']):
                F = P.F[m]
                if F.get('body') is None or F.get('dtor') or F.get('implicit') or F.get('access') != 0 or F.get('copyctor') or F.get('movector'):
                    continue
                add(cls, x['rec'], i, m, units.fname(P, m), 'entry', 'iter', op='ctor' if F.get('ctor') else 'get')
            for f, F in enumerate(P.F):
                if F and F.get('rec') is None and F.get('inroot') and F.get('body') is not None and F['n'] in ('operator==', 'operator!=') and \
                        any(P.ty(P.refd(p['t'])).get('rec') == x['rec'] for p in F['params']):
                    ks = [('entry' if P.ty(P.refd(p['t'])).get('rec') == x['rec'] else 'pair') for p in F['params']]
                    add(cls, x['rec'], i, f, '%s(%s)' % (F['n'], ','.join(ks)), 'entry', 'iter', op='cmp', free=True)
    return out


def insres_units(P, cls, rec, t):
    """The insertion result class of a cache class."""
    import iters
    out = []
    types = iters.iter_types(P, rec)
    rt = None
    for b in P.bases(rec):
        for m in P.members(b):
            if P.F[m]['n'] == 'insert' and P.ty(P.refd(P.F[m]['ret']))['k'] == 'rec':
                rt = P.refd(P.F[m]['ret'])
    if rt is None or 'UnorderedIterator' not in types:
        return out
    for m in P.members(P.ty(rt)['rec']):
        F = P.F[m]
        if F.get('dtor') or F.get('implicit') or F.get('access') != 0 or F.get('copyctor') or F.get('movector') or F.get('deleted'):
            continue
        if F.get('body') is None and not F.get('inits'):
            continue
        u = units.Unit(cls, rec, m, 'InsertionResult::' + units.fname(P, m), P)
        u.type = t
        u.extra.update(run='insres', group='insres', rtype=rt, itype=types['UnorderedIterator'])
        out.append(u)
    return out


units.RUNNERS.update(stats=run_stats, keystats=run_keystats, entry=run_entry, insres=run_insres)
