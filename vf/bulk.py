"""Bulk insertion: inside a loop, inserting one entry is taken at its contract.

The contract of insert/emplace for one entry determines the new contents from
the old ones and the key and value given; here that function is STEP (on
abstract contents, sort GS) and `the key was new` is NEWP. Inserting a range is
specified as the left fold F of STEP over the range, with CNT counting NEWP.
"""
import z3
from theory import *
from interp import *
import stdlib

SINGLE = ('insert(K,V)', 'emplace(K,V)')


def setup(E, vec, b, K0, V0):
    th = E.th
    E.bulk = dict(vec=vec, b=Z(b), K0=K0, V0=V0)
    if vec is not None:
        E.bulk['F'] = th.fn('F', th.I, th.GS)
        E.bulk['CNT'] = th.fn('CNT', th.I, th.I)
        E.bulk['STEP'] = z3.Function('STEP', th.GS, th.KV, th.VV, th.GS)
        E.bulk['NEWP'] = z3.Function('NEWP', th.GS, th.KV, th.VV, th.B)
        E.bulk['mon'] = th.fn('mon', th.C, th.I, th.B)
        E.bulk['eq'] = None
    E.contracts = hook


def key_at(E, i):
    B = E.bulk
    return B['K0'](B['vec'].elem(B['b'] + i))


def val_at(E, i):
    B = E.bulk
    return B['V0'](B['vec'].elem(B['b'] + i))


def version(E, st, cid):
    import view
    v = view.View(E, st, Cell(cid))
    return (id(v.m), id(v.l), id(st.mem[v.lacell.id]), str(v.lavalid), str(v.cap), str(E.unwrapv(v.lakey)), str(E.unwrapv(v.lainfo)))


def active(E):
    return getattr(E, 'bulk', None) is not None and E.bulk['vec'] is not None


def enter(E):
    """At a loop: remember the contents every cache has here."""
    if not active(E):
        return
    import loops
    E.assume(E.th.forall([E.th.C], lambda c: NOT(E.bulk['mon'](c, z3.IntVal(0))), lambda c: [E.bulk['mon'](c, z3.IntVal(0))]))
    if 'gv' not in E.st.ghost:
        cs = loops.caches_of(E, E.st)
        cell = E.bulk.get('cell')
        cs = [x for x, r in cs if cell is None or x == cell]
        if len(cs) == 1:
            E.assume(EQ(E.bulk['CNT'](z3.IntVal(0)), 0))
            E.st.ghost['cell'] = cs[0]
            E.st.ghost['gv'] = E.bulk['F'](z3.IntVal(0))
            E.st.ghost['base'] = E.st.copy()
            E.st.ghost['ver'] = version(E, E.st, cs[0])


def ok(E, st):
    g = st.ghost
    return g.get('gv') is not None and g['ver'] == version(E, st, g['cell'])


def head(E, it, names=None, ghost=False):
    """Definitions of the specification functions at this iteration."""
    if not active(E):
        return
    th, B = E.th, E.bulk
    k = key_at(E, it)
    zero = z3.IntVal(0)
    E.assume(EQ(B['CNT'](zero), 0))
    if E.P.kind(B['vec'].et) == 'heap':
        v = val_at(E, it)
        E.assume(EQ(B['F'](it + 1), B['STEP'](B['F'](it), k, v)))
        E.assume(EQ(B['CNT'](it + 1), B['CNT'](it) + ITE(B['NEWP'](B['F'](it), k, v), z3.IntVal(1), z3.IntVal(0))))
    elif B.get('eq') is not None or True:
        eq = th.stdeq
        E.assume(th.forall([th.C], lambda c: NOT(B['mon'](c, zero)), lambda c: [B['mon'](c, zero)]))
        E.assume(th.forall([th.C], lambda c: EQ(B['mon'](c, it + 1), OR(B['mon'](c, it), EQ(c, th.cls(eq, k)))), lambda c: [B['mon'](c, it + 1), B['mon'](c, it)]))
    if ghost and E.st.ghost.get('gv') is not None:
        E.st.ghost['gv'] = B['F'](it) if (names is None or 'ghost contents are the fold' in names) else None
        if E.st.ghost['gv'] is not None:
            E.st.ghost['ver'] = version(E, E.st, E.st.ghost['cell'])


def candidates(E, S0, mods, scal, c):
    if not active(E):
        return
    th, B = E.th, E.bulk
    if mods.ghost:
        c('ghost contents are the fold', lambda st, it: EQ(st.ghost['gv'], B['F'](it)) if ok(E, st) else False)
        c('no more new keys than keys', lambda st, it: AND(LE(0, B['CNT'](it)), LE(B['CNT'](it), it)))
        for nm, cid, x0, g in scal:
            c(nm + ' counts new keys', lambda st, it, g=g, x0=x0: EQ(g(st), Z(x0) + B['CNT'](it)))
    for cid, m0 in list(S0.mem.items()):
        if isinstance(m0, MapV) and cid not in S0.dead and cid in mods.cells and is_true(EQ(Z(m0.size), 0)):
            c('map %d holds exactly the keys passed' % cid, lambda st, it, cid=cid: th.forall(
                [th.C], lambda x: EQ(NE(st.mem[cid].at(x), E.NULL), B['mon'](x, it)), lambda x: [st.mem[cid].at(x), B['mon'](x, it)]))


def hook(E, f, this, args):
    if not E.inloop or not isinstance(this, Cell):
        return None
    import units
    F = E.P.F[f]
    if F['n'] not in ('insert', 'emplace') or units.fname(E.P, f) not in SINGLE:
        return None
    rv = E.st.mem.get(this.id)
    if not isinstance(rv, RecV) or not active(E):
        return None
    return (apply(E, f, this, args),)


def apply(E, f, this, args):
    import view, units
    th, st, B = E.th, E.st, E.bulk
    F = E.P.F[f]
    E.used_contracts.add(E.P.sig(f))
    v = view.View(E, st, this)
    kv, vv = E.load(args[0]), E.load(args[1])
    for p, text, g in view.inv(E, v):
        E.oblige(g, 'insertion is called on a consistent cache: ' + text, 'loop')
    good = ok(E, st) and st.ghost['cell'] == this.id
    gv = st.ghost.get('gv')
    exempt = [a.o for a, p in zip(args, F['params']) if E.P.is_rref(p['t'])]
    own, ownL, ref = st.own, st.ownL, st.ref
    tok, ltok = v.m.tok, v.l.tok
    st.own = th.fn('own', th.Obj, th.I)
    st.ownL = th.fn('ownL', th.LN, th.I)
    st.ref = th.fn('ref', th.LN, th.Obj)
    E.assume(EQ(st.own(E.NULL), 0))
    E.assume(th.forall([th.Obj], lambda o: ITE(OR(EQ(own(o), 0), EQ(own(o), tok)), OR(EQ(st.own(o), 0), EQ(st.own(o), tok)), EQ(st.own(o), own(o))),
                       lambda o: [st.own(o), own(o)]))
    E.assume(th.forall([th.LN], lambda n: ITE(OR(EQ(ownL(n), 0), EQ(ownL(n), ltok)), OR(EQ(st.ownL(n), 0), EQ(st.ownL(n), ltok)), EQ(st.ownL(n), ownL(n))),
                       lambda n: [st.ownL(n), ownL(n)]))
    E.assume(th.forall([th.LN], lambda n: OR(EQ(ownL(n), 0), EQ(ownL(n), ltok), EQ(st.ref(n), ref(n))), lambda n: [st.ref(n)]))
    for leaf in ['K', 'V', v.R.order] + ([v.R.time] if v.R.time else []):
        f0 = st.heap.get(leaf) or E.heap0[leaf]
        f1 = st.heap[leaf] = th.fn('h_' + leaf, th.Obj, Z(f0(E.NULL)).sort())
        ex = [EQ(x, x) for x in ()]
        E.assume(th.forall([th.Obj], lambda o: OR(EQ(own(o), 0), EQ(own(o), tok), EQ(f1(o), f0(o)), *[o == x for x in exempt]), lambda o: [f1(o)]))
    st.mem[v.mcell.id] = v.m.upd(at=th.fn('at', th.C, th.Obj), size=th.fresh('msize', th.I), iseq=None, ipos=None)
    st.mem[v.lcell.id] = v.l.upd(seq=th.fn('seq', th.I, th.LN), pos=th.fn('pos', th.LN, th.I), size=th.fresh('lsize', th.I))
    E.assume(stdlib.map_wf(E, st, st.mem[v.mcell.id]))
    E.assume(stdlib.list_wf(E, st, st.mem[v.lcell.id]))
    la = st.mem[v.lacell.id]
    R = v.R
    la_types = {g['n']: g['t'] for g in E.P.all_fields(E.P.ty(E.P.refd(R.la['t']))['rec'])}
    for n in (R.lakey, R.lainfo):
        st.mem[la.fields[n].id] = PObj(th.fresh('la', th.Obj), E.P.ty(la_types[n])['to'])
    st.mem[la.fields[R.lavalid].id] = th.fresh('lavalid', th.B)
    t = th.fresh('now', th.I)
    E.assume(LE(st.now, t))
    st.now = t
    for _, _, g in view.inv(E, view.View(E, st, this)):
        E.assume(g)
    # other maps and lists keep their elements
    flag = th.fresh('was_new', th.B)
    if good:
        E.assume(EQ(flag, B['NEWP'](gv, kv, vv)))
        st.ghost = dict(st.ghost)
        st.ghost['gv'] = B['STEP'](gv, kv, vv)
        st.ghost['ver'] = version(E, st, this.id)
    else:
        st.ghost.pop('gv', None)
        st.ghost['gv'] = None
    # the result
    rt = E.P.refd(F['ret'])
    rc = E.cell(None, 'result')
    fields = {}
    for g in E.P.all_fields(E.P.ty(rt)['rec']):
        k = units.pkind(E.P, g['t'])
        if k == 'bool':
            fields[g['n']] = E.cell(flag)
        elif k == 'uit':
            m = st.mem[v.mcell.id]
            o = m.at(th.cls(m.eq, kv))
            fields[g['n']] = units.make_iter(E, g['t'], this, MapIt(o, v.mcell, stdlib.node_type(E, m.t)), NULLP)
        else:
            raise Unsupported('insertion result')
    st.mem[rc.id] = RecV(E.P.ty(rt)['rec'], rt, fields)
    return rc
