"""Contracts of constructors, whole-cache operations and bulk insertion, and
the scenarios they are verified under."""
import z3
from theory import *
from interp import *
import stdlib
import bulk
import units
from view import *
from spec import *

DEFAULT_CAPACITY = 128


def source_len(c):
    if getattr(c, 'vb', None) is not None:
        return c.ve - c.vb
    return c.vec.len


def consumes_source(c, F):
    P = c.P
    return any(units.pkind(P, p['t']) == 'vec' and P.is_rref(p['t']) for p in F['params'])


def fold(c, cell, av, name='this'):
    """The cache's contents are those of inserting the source's pairs one by
    one into the contents av. Returns the number of pairs."""
    E = c.E
    n = source_len(c)
    g = E.st.ghost
    post = View(E, E.st, cell)
    if 'gv' not in g:
        c.E.line = 0
        if not E.prove(EQ(n, 0)):
            raise Unsupported('the pairs of the range are not inserted by a loop')
        c.same_view(post, av, identity=False, name=name)
        c.invariant(post, name)
        return post, Z(0)
    if not bulk.ok(E, E.st) or g['cell'] != cell.id:
        raise Unsupported('the loop over the range does more than insert its pairs')
    c.check('fold', 'the contents are those left by inserting the pairs one by one in order', EQ(g['gv'], E.bulk['F'](n)))
    base = View(E, g['base'], cell)
    ttl, av.ttl = av.ttl, None
    c.same_view(base, av, identity=False, name=name)
    av.ttl = ttl
    c.check('cap', 'the capacity', EQ(Z(post.cap), Z(av.cap)))
    if ttl is not None:
        c.check('ttl', 'the time to live', post.ttl is not UNINIT and EQ(Z(post.ttl), Z(ttl)))
    c.check('functors', 'the hash function and key equality', AND(EQ(post.eq, av.eq), EQ(post.hash, av.hash)))
    c.invariant(post, name)
    return post, E.bulk['CNT'](n)


def bulk_insert(c):
    F = c.P.F[c.unit.f]
    c.no_throw()
    c.exemptvec = consumes_source(c, F)
    post, cnt = fold(c, c.this, AV(c.pre))
    c.check('ret', 'the number of keys that were new is returned', EQ(Z(c.E.val(c.ret())), cnt))
    c.fin()


for _n in ('insert(vecit,vecit)', 'insert(ptr,ptr)', 'insert(vec)'):
    CONTRACTS[_n] = bulk_insert


def range_assign(c):
    E = c.E
    F = c.P.F[c.unit.f]
    c.no_throw()
    c.exemptvec = consumes_source(c, F)
    av = AV(c.pre)
    av.clear()
    n = source_len(c)
    av.cap = ITE(LT(Z(c.pre.cap), n), n, Z(c.pre.cap))
    fold(c, c.this, av)
    r = c.ret()
    c.check('ret', 'assignment returns the cache', isinstance(r, Cell) and r.id == c.this.id)
    c.fin()


CONTRACTS['operator=(vec)'] = range_assign


# ------------------------------------------------------------------ construction
def empty_view(E, cell, cap, eq, hash, ttl):
    """The contents of an empty cache."""
    th = E.th

    class EV:
        pass
    v = EV()
    v.pres = Clo(lambda c: False)
    v.key = Clo(lambda c: z3.Const('nokey', th.KV))
    v.val = Clo(lambda c: z3.Const('noval', th.VV))
    v.time = Clo(lambda c: z3.IntVal(0))
    v.pos = Clo(lambda c: z3.IntVal(0))
    v.obj = Clo(lambda c: E.NULL)
    v.size, v.cap, v.ttl, v.eq, v.hash = 0, cap, ttl, eq, hash
    return AV(v)


def run_ctor(E, unit):
    P, th = E.P, E.th
    c = Ctx(E, unit)
    F = P.F[unit.f]
    c.statst = units.class_recs(P)['Stats'][1]
    c.args = units.mkargs(c, F)
    units.start(c)
    R = getroles(E, P.ty(unit.type)['rec'])
    cap = eq = hsh = ttl = lval = None
    src = False
    ptrs = False
    for p, a in zip(F['params'], c.args):
        k = units.pkind(P, p['t'])
        if k == 'int':
            cap = Z(E.val(a))
        elif k == 'E':
            eq = E.val(a)
        elif k == 'H':
            hsh = E.val(a)
        elif k == 'dur':
            ttl = stdlib.dur_convert(E, Z(E.val(a)), P.refd(p['t']), R.ttl['t'])
        elif k in ('vec', 'vecit', 'ptr'):
            src = True
            if k == 'vec':
                il = 'initializer_list' in P.ty(P.refd(p['t']))['qn']
                lval = P.is_ref(p['t']) and not P.is_rref(p['t']) and not il
            else:
                lval = True
    c.exemptvec = consumes_source(c, F)
    if cap is None and src:
        n = source_len(c)
        cap = ITE(LT(n, DEFAULT_CAPACITY), z3.IntVal(DEFAULT_CAPACITY), n) if lval else n
    if cap is None or eq is None or hsh is None:
        raise Unsupported('constructor parameters')
    try:
        cell = E.construct(unit.type, unit.f, list(c.args))
        c.outcome = ('ret', cell)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    c.this = cell
    av = empty_view(E, cell, cap, eq, hsh, ttl)
    if src:
        post, _ = fold(c, cell, av)
    else:
        post = View(E, E.st, cell)
        c.same_view(post, av, identity=False)
        c.invariant(post)
    c.check('statptr', 'a new cache is not monitored', post.sp is NULLP)
    for w in ('hit', 'miss', 'access'):
        c.check('cbset', 'a new cache has no callbacks', EQ(Z(post.cb[w].len), 0))
    c.no_calls()
    c.args_unchanged()
    E.ends.append(list(E.st.pc))


# ------------------------------------------------------------------ two caches
def two_caches(c, unit, same=True, stats=2):
    """this and other: different caches, or the same one; which of them is
    monitored (stats=4: every combination)."""
    E = c.E
    c.statst = units.class_recs(E.P)['Stats'][1]
    c.stats = None
    sp1 = sp2 = NULLP
    k = E.choose(stats + 1 if same else stats)
    if k in (1, 2) and k < stats:
        sp1 = Ptr(sym_stats(E, c.statst))
    if k in (1, 3) and k < stats:
        sp2 = Ptr(sym_stats(E, c.statst))
    cell = sym_cache(E, unit.type, 'cache', sp1, unit.extra.get('eqconst'))
    c.this = cell
    c.caches['this'] = (cell, View(E, E.st, cell))
    c.self = k == stats
    if c.self:
        c.other = cell
        return
    c.other = sym_cache(E, unit.type, 'other', sp2, unit.extra.get('eqconst'))
    c.caches['other'] = (c.other, View(E, E.st, c.other))


def separate(c, a, b, what='the two caches'):
    c.check('equal', what + ' share no entries', AND(NE(Z(a.m.tok), Z(b.m.tok)), NE(Z(a.l.tok), Z(b.l.tok))))


def same_contents(c, name, av, identity):
    """Contents and invariant of the named cache."""
    return c.same_cache(name, av, identity)


def is_copy(c, name, src):
    """The named cache is a copy of what src was; src is as before."""
    post = c.same_cache(name, AV(src), identity=False)
    c.same_callbacks(name, expect=src.cb)
    c.same_statptr(name, expect=src.sp)
    if not c.self:
        ocell, opre = c.caches['other']
        opost = c.same_cache('other', AV(opre))
        c.same_callbacks('other')
        c.same_statptr('other')
        separate(c, post, opost)
    c.no_calls()
    c.args_unchanged()
    return post


def run_copy_ctor(E, unit):
    c = Ctx(E, unit)
    c.statst = units.class_recs(E.P)['Stats'][1]
    cell = units.setup_cache(c, unit)
    c.other, c.self = cell, False
    c.caches['other'] = (cell, View(E, E.st, cell))
    units.start(c)
    src = c.caches['other'][1]
    try:
        new = E.construct(unit.type, unit.f, [cell])
        c.outcome = ('ret', new)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    c.caches['this'] = (new, src)
    is_copy(c, 'this', src)
    c.stats_is()
    E.ends.append(list(E.st.pc))


def run_copy_assign(E, unit):
    c = Ctx(E, unit)
    two_caches(c, unit, stats=4)
    units.start(c)
    src = c.pre if c.self else c.caches['other'][1]
    invoke(c, unit, [c.other])
    c.no_throw()
    is_copy(c, 'this', src)
    r = c.ret()
    c.check('ret', 'assignment returns the cache', isinstance(r, Cell) and r.id == c.this.id)
    E.ends.append(list(E.st.pc))


def invoke(c, unit, args):
    E = c.E
    try:
        c.outcome = ('ret', E.inline(unit.f, c.this, args))
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)


def run_move_ctor(E, unit):
    c = Ctx(E, unit)
    c.statst = units.class_recs(E.P)['Stats'][1]
    cell = units.setup_cache(c, unit)
    c.other, c.self = cell, False
    c.caches['other'] = (cell, View(E, E.st, cell))
    units.start(c)
    src = c.caches['other'][1]
    try:
        new = E.construct(unit.type, unit.f, [cell])
        c.outcome = ('ret', new)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw()
    c.caches['this'] = (new, src)
    post = c.same_cache('this', AV(src))
    opost = View(E, E.st, cell)
    c.invariant(opost, 'other')
    separate(c, post, opost)
    c.no_calls()
    moved_frame(c)
    E.ends.append(list(E.st.pc))


def moved_frame(c):
    """Caller's objects are left alone."""
    c.args_unchanged()


def run_move_assign(E, unit):
    c = Ctx(E, unit)
    two_caches(c, unit)
    units.start(c)
    src = c.pre if c.self else c.caches['other'][1]
    invoke(c, unit, [c.other])
    c.no_throw()
    post = c.same_cache('this', AV(src))
    if not c.self:
        opost = View(E, E.st, c.other)
        c.invariant(opost, 'other')
        separate(c, post, opost)
    r = c.ret()
    c.check('ret', 'assignment returns the cache', isinstance(r, Cell) and r.id == c.this.id)
    c.no_calls()
    moved_frame(c)
    E.ends.append(list(E.st.pc))


def run_swap(E, unit):
    c = Ctx(E, unit)
    two_caches(c, unit)
    units.start(c)
    if unit.extra.get('free'):
        try:
            c.outcome = ('ret', E.inline(unit.f, None, [c.this, c.other]))
        except CppThrow as ex:
            c.outcome = ('throw', ex.name)
    else:
        invoke(c, unit, [c.other])
    c.no_throw()
    if c.self:
        c.same_cache('this', AV(c.pre))
    else:
        a, b = c.pre, c.caches['other'][1]
        post = c.same_cache('this', AV(b))
        opost = c.same_cache('other', AV(a))
        separate(c, post, opost)
    c.no_calls()
    moved_frame(c)
    E.ends.append(list(E.st.pc))


def run_equal(E, unit):
    c = Ctx(E, unit)
    th = E.th
    unit.extra['eqconst'] = th.stdeq
    two_caches(c, unit)
    units.start(c)
    invoke(c, unit, [c.other])
    c.no_throw()
    r = E.br(E.tobool(E.val(c.ret())))
    if unit.name.startswith('operator!='):
        r = not r
    a = c.pre
    b = c.pre if c.self else c.caches['other'][1]

    def same_at(x):
        parts = [IMP(a.pres(x), b.pres(x)), IMP(a.pres(x), EQ(th.vcls(a.val(x)), th.vcls(b.val(x)))), IMP(a.pres(x), EQ(a.pos(x), b.pos(x)))]
        if a.time is not None:
            parts.append(IMP(a.pres(x), EQ(a.time(x), b.time(x))))
        return parts
    if r:
        x = th.fresh('c', th.C)
        names = ['keys', 'values', 'recency order', 'storing times']
        c.check('equal', 'equal caches have the same size', EQ(Z(a.size), Z(b.size)))
        for nm, g in zip(names, same_at(x)):
            c.check('equal', 'equal caches have the same ' + nm, g)
    else:
        c.check('equal', 'unequal caches differ in their keys, values, order or storing times',
                NOT(AND(EQ(Z(a.size), Z(b.size)), th.forall([th.C], lambda x: AND(*same_at(x)), lambda x: [a.m.at(x), b.m.at(x)]))))
    for n in c.caches:
        c.same_cache(n, AV(c.caches[n][1]))
        c.same_callbacks(n)
        c.same_statptr(n)
    c.no_calls()
    c.args_unchanged()
    E.ends.append(list(E.st.pc))


# ------------------------------------------------------------------ begin and end
def begin_end(c):
    E, pre = c.E, c.pre
    c.no_throw()
    n = c.unit.name.split('(')[0]
    r = c.ret()
    ordered = n.startswith('ordered')
    first = n.split('_')[-1] in ('begin', 'cbegin')
    empty = EQ(Z(pre.size), 0)
    if ordered:
        want = pre.l.nth(Z(0)) if first else pre.l.end
        o = pre.ref(want)
        c.is_lit(r, want, piece='iter', o=o)
    else:
        m = E.st.mem[pre.mcell.id]
        if first:
            if m.iseq is None:
                m = stdlib.map_iter(E, m, pre.mcell)
            want = ITE(empty, E.NULL, m.iseq(Z(0)))
        else:
            want = E.NULL
        c.is_iter(r, want, piece='iter')
    c.same_cache('this', AV(pre))
    c.fin()


for _p in ('unordered_', 'ordered_', ''):
    for _q in ('begin', 'cbegin', 'end', 'cend'):
        CONTRACTS['%s%s()' % (_p, _q)] = begin_end


# ------------------------------------------------------------------ enumeration
def ctor_kind(P, f):
    F = P.F[f]
    ks = [units.pkind(P, p['t']) for p in F['params']]
    if ks == ['cache']:
        return 'move' if P.is_rref(F['params'][0]['t']) else 'copy'
    if 'cache' in ks:
        return None
    if ks.count('E') == 1 and ks.count('H') == 1:
        return 'ctor'
    return None


def more_units(P, cls, rec, t):
    out = []

    def add(f, name, run, group, **kw):
        u = units.Unit(cls, rec, f, name, P)
        u.type = t
        u.extra.update(run=run, group=group, **kw)
        out.append(u)
        return u
    for m in P.members(rec):
        F = P.F[m]
        if F.get('access') != 0 or F.get('deleted') or not F.get('ctor'):
            continue
        if F.get('body') is None and not F.get('inits'):
            continue
        k = ctor_kind(P, m)
        nm = units.fname(P, m)
        if k == 'ctor':
            add(m, nm, 'ctor', 'ctor')
        elif k == 'copy':
            add(m, nm + ' copy', 'copy_ctor', 'copy')
        elif k == 'move':
            add(m, nm + ' move', 'move_ctor', 'move')
    seen = set()
    for b in P.bases(rec):
        for m in P.members(b):
            F = P.F[m]
            if F.get('access') != 0 or F.get('deleted') or F.get('ctor') or F.get('static'):
                continue
            if F.get('body') is None:
                continue
            nm = units.fname(P, m)
            if nm == 'operator=(cache)' and b == rec:
                if P.is_rref(F['params'][0]['t']):
                    add(m, nm + ' move', 'move_assign', 'move')
                else:
                    add(m, nm + ' copy', 'copy_assign', 'copy')
            elif nm == 'swap(cache)' and nm not in seen:
                seen.add(nm)
                add(m, nm, 'swap', 'move')
            elif nm in ('operator==(cache)', 'operator!=(cache)') and nm not in seen:
                seen.add(nm)
                add(m, nm, 'equal', 'eq')
    return out


units.RUNNERS.update(ctor=run_ctor, copy_ctor=run_copy_ctor, move_ctor=run_move_ctor, copy_assign=run_copy_assign, move_assign=run_move_assign,
                     swap=run_swap, equal=run_equal)
