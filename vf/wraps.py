"""Contracts of wrap, timed_wrap and the hash of tuples."""
import random

import z3
from theory import *
from interp import *
import stdlib
import bulk
import units
from view import *
from spec import *

DEFAULT_CAPACITY = 128


# ------------------------------------------------------------------ hashing tuples
def run_hash(E, unit):
    """The hash of a tuple depends on the values of its elements only, and on
    each of them."""
    c = Ctx(E, unit)
    P, th = E.P, E.th
    F = P.F[unit.f]
    E.bv = True
    E.leaf('K', th.KV)
    E.leaf('V', th.VV)
    bulk.setup(E, None, 0, None, None)
    tt = P.refd(F['params'][0]['t'])
    rec = E.construct_default(unit.type) if hasattr(E, 'construct_default') else E.newrec(unit.type)

    def arg():
        o = th.fresh('argT', th.Obj)
        E.assume(AND(NE(o, E.NULL), EQ(E.st.own(o), -1)))
        return HLoc(o, tt)

    def classes(t, kv):
        """Equality classes of the elements (of elements of tuples in it)."""
        out = []
        for i, x in enumerate(P.targs(t)):
            k = P.kind(x['type'])
            v = E.untup(kv, i, th.VV if k == 'V' else th.KV)
            out += classes(x['type'], v) if k == 'KT' else [E.eclass(v)]
        return out
    a, b = arg(), arg()
    c.args = [a]
    units.start(c)
    ca, cb = classes(tt, c.pre0.heap['K'](a.o)), classes(tt, c.pre0.heap['K'](b.o))
    vs = []
    for i, (x, y) in enumerate(zip(ca, cb)):
        E.assume(EQ(x, y))
        vs.append(z3.BitVec('eh%d' % i, 64))
    # the hash of an element, as a function of the element's equality class
    E.hashknown = list(zip(ca, vs))
    try:
        r1 = E.val(E.inline(unit.f, rec, [a]))
        r2 = E.val(E.inline(unit.f, rec, [b]))
        r3 = E.val(E.inline(unit.f, rec, [a]))
        c.outcome = ('ret', r1)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    c.no_throw('hash')
    bv = E.tobv
    c.check('hash', 'equal tuples have equal hashes', bv(r1) == bv(r2))
    c.check('hash', 'hashing the same tuple again gives the same hash', bv(r1) == bv(r3))
    if not ca:
        c.check('hash', 'the hash of the empty tuple is 0', bv(r1) == z3.BitVecVal(0, 64))
    # the hash as a function of the hashes of the elements
    f = z3.simplify(bv(r1))
    for i in range(len(vs)):
        # every bit of the element's hash makes a difference, for some values
        # of the others: a concrete witness for each
        rnd = random.Random(i)
        for bit in range(64):
            ok = False
            for _ in range(12):
                asg = [(x, z3.BitVecVal(rnd.getrandbits(64), 64)) for x in vs]
                g = asg[:i] + [(vs[i], z3.BitVecVal(asg[i][1].as_long() ^ (1 << bit), 64))] + asg[i + 1:]
                f1, g1 = [z3.simplify(z3.substitute(f, x)) for x in (asg, g)]
                if z3.is_bv_value(f1) and z3.is_bv_value(g1) and f1.as_long() != g1.as_long():
                    ok = True
                    break
            if not ok:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(f != z3.substitute(f, (vs[i], vs[i] ^ z3.BitVecVal(1 << bit, 64))))
                ok = s.check() == z3.sat
            c.check('hash', 'bit %d of the hash of element %d matters' % (bit, i + 1), ok)
    c.no_calls()
    c.args_unchanged()
    E.ends.append(list(E.st.pc))
    return True


# ------------------------------------------------------------------ wrapped functions
def captured_caches(E, loc):
    """Cache objects reachable from a wrapper."""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, Ptr):
            x = x.loc
        if isinstance(x, Cell):
            if x.id in seen or x.id not in E.st.mem:
                return
            seen.add(x.id)
            v = E.st.mem[x.id]
            if isinstance(v, RecV) and any(E.P.R[b]['qn'] == 'LRU::Internal::BaseCache' for b in E.P.bases(v.rec)):
                out.append(x)
                return
            walk(v)
        elif isinstance(x, RecV):
            for h in x.fields.values():
                walk(h)
        elif isinstance(x, TupV):
            for h in x.items:
                walk(h)
        elif isinstance(x, ConcMap):
            for h in x.d.values():
                walk(h)
        elif isinstance(x, LamPtr):
            walk(x.loc)
    walk(loc)
    return out


def tuplekey(E, args):
    return E.mktup(*[E.load(a) for a in args])


def result_of(E, f, kv):
    th = E.th
    return z3.Function(E.fresult, th.FS, th.C, th.VC)(f, th.cls(th.stdeq, kv))


def origs(E, n0):
    return [s for s in E.st.trace[n0:] if s.kind == 'orig']


def call_wrapper(c, w, op, args, f, before, name, how=0, others=()):
    """One call of a wrapper around f, and what must hold of it. before: the
    cache of the wrapper (None: not there yet). how: what the original does,
    0: returns, 1: calls the wrapper itself (any number of times) and returns,
    2: throws."""
    E, P, th = c.E, c.P, c.th
    E.fresult = 'fresult' + stdlib.result_kind(P, P.F[op]['ret'])
    kv = tuplekey(E, args)
    n0 = len(E.st.trace)
    c.t0 = t0 = E.st.now
    pre = View(E, E.st.copy(), before) if before is not None else None

    def oncall(f, vs):
        if how == 1:
            havoc_cache(E, before, f)
        if how == 2:
            raise CppThrow(None, 'original')
    E.oncall = oncall if how else None
    try:
        r = E.inline(op, w, list(args))
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    made = origs(E, n0)
    if how == 2 and made:
        c.check('wrap', name + ': an exception of the original reaches the caller', c.threw() == 'original')
        post = View(E, E.st, before)
        x = th.fresh('c', th.C)
        c.check('wrap', name + ': a call that throws stores nothing', AND(IMP(post.pres(x), pre.pres(x)), IMP(post.pres(x), EQ(post.val(x), pre.val(x)))))
        for piece, text, g in inv(E, post):
            c.check('wrap', name + ': ' + text, g)
        return before, post, None
    c.no_throw('wrap')
    c.check('wrap', name + ': the result is what the original returns for the arguments', EQ(th.vcls(E.load(r)), result_of(E, f, kv)))
    c.check('wrap', name + ': the original is called at most once', len(made) <= 1)
    caches = [x for x in captured_caches(E, w) if x.id not in others]
    c.check('wrap', name + ': results are kept in one cache of the wrapper', len(caches) == 1 and (before is None or caches[0].id == before.id))
    cell = caches[0]
    post = View(E, E.st, cell)
    k = post.cls(kv)
    fresh = pre is None
    if made:
        if not fresh:
            c.check('wrap', name + ': the original is called only when no unexpired result is stored', OR(NOT(pre.pres(k)), pre.exp(k, E.st.now)))
        c.check('wrap', name + ': the result is stored (unless the capacity is 0)', IMP(LT(0, Z(post.cap)), post.pres(k)))
        if post.time is not None:
            c.check('wrap', name + ': a stored result starts its time to live', IMP(post.pres(k), AND(LE(t0, post.time(k)), LE(post.time(k), E.st.now))))
    else:
        c.check('wrap', name + ': a call of the original is saved only by an unexpired stored result', AND(pre.pres(k), NOT(pre.exp(k, t0))) if not fresh else False)
        c.check('wrap', name + ': the stored result stays', post.pres(k))
        if post.time is not None:
            c.check('wrap', name + ': reading a stored result does not prolong its time to live', EQ(post.time(k), pre.time(k)))
    x = th.fresh('c', th.C)
    c.check('wrap', name + ': every stored value is the original\'s result for its key', IMP(post.pres(x), EQ(th.vcls(post.val(x)), z3.Function(E.fresult, th.FS, th.C, th.VC)(f, x))))
    if not fresh and how != 1:
        c.check('wrap', name + ': other stored results stay while there is room',
                IMP(AND(pre.pres(x), NE(x, k), OR(LT(Z(pre.size), Z(pre.cap)), pre.pres(k))), AND(post.pres(x), True if post.time is None else EQ(post.time(x), pre.time(x)))))
        c.check('wrap', name + ': at capacity, only the least recently used result makes room', IMP(AND(pre.pres(x), NE(x, k), LT(0, Z(pre.pos(x)))), post.pres(x)))
        c.check('wrap', name + ': only the result of this call is added', IMP(AND(post.pres(x), NE(x, k)), pre.pres(x)))
    if not fresh:
        c.check('wrap', name + ': the capacity stays', EQ(Z(post.cap), Z(pre.cap)))
        if post.ttl is not None:
            c.check('wrap', name + ': the time to live stays', EQ(Z(post.ttl), Z(pre.ttl)))
        c.check('wrap', name + ': key equality stays', EQ(post.eq, pre.eq))
    for piece, text, g in inv(E, post):
        c.check('wrap', name + ': ' + text, g)
    return cell, post, k


def run_wrap(E, unit):
    """Create two wrappers, let the arguments given for the first change, call
    each, then call the first again after an arbitrary history."""
    c = Ctx(E, unit)
    P, th = E.P, E.th
    F = P.F[unit.f]
    E.statics = True
    E.leaf('K', th.KV)
    E.leaf('V', th.VV)
    bulk.setup(E, None, 0, None, None)
    op = unit.extra['op']

    def create():
        fs = th.fresh('fun', th.FS)
        args, cap, ttl = [], DEFAULT_CAPACITY, None
        for p in F['params']:
            k = P.kind(p['t'])
            if k == 'F':
                args.append(E.cell(fs, 'argF'))
            elif k in ('int', 'dur'):
                v = sym(E, p['t'], p['n'] or 'arg', {})
                if k == 'int':
                    cap = v
                else:
                    ttl = (v, P.refd(p['t']))
                args.append(E.cell(v, 'arg') if P.is_ref(p['t']) else v)
            else:
                raise Unsupported('argument of wrap')
        fr = Frame(unit.f)
        E.frames.append(fr)
        try:
            w = E.inline(unit.f, None, list(args))
        finally:
            E.frames.pop()
        # the caller's arguments go away
        for a, p in zip(args, F['params']):
            if isinstance(a, Cell) and P.is_ref(p['t']):
                E.st.dead.add(a.id)
            elif isinstance(a, Cell):
                E.st.dead.add(a.id)
        return w, fs, cap, ttl

    def params(op):
        out = []
        for p in P.F[op]['params']:
            t = p['t']
            o = th.fresh('argK', th.Obj)
            E.assume(AND(NE(o, E.NULL), EQ(E.st.own(o), -1)))
            out.append(HLoc(o, P.refd(t)))
        return out

    def first(w, f, cap, ttl, name, op=op, others=()):
        cell, post, k = call_wrapper(c, w, op, params(op), f, None, name, others=others)
        c.check('wrap', name + ': the cache has the capacity given', EQ(Z(post.cap), Z(cap)))
        if ttl is not None:
            c.check('wrap', name + ': the cache has the time to live given', post.ttl is not None)
            a, b = stdlib.dur_common(E, ttl[0], ttl[1], post.ttl, post.R.ttl['t'])
            c.check('wrap', name + ': the cache has the time to live given', EQ(Z(a), Z(b)))
        x = th.fresh('c', th.C)
        c.check('wrap', name + ': a new wrapper has no results stored but this one', IMP(post.pres(x), EQ(x, k)))
        c.check('wrap', name + ': keys are compared by equality of their elements', EQ(post.eq, th.stdeq))
        c.check('wrap', name + ': no callbacks', AND(*[EQ(Z(v.len), 0) for v in post.cb.values()]))
        c.check('wrap', name + ': no statistics', post.sp is NULLP)
        return cell
    units.start(c)
    c.t0 = E.st.now
    w1, f1, cap1, ttl1 = create()
    op2 = unit.extra.get('op2')
    if op2 is not None:
        # arguments passed in another way: results are shared unless the
        # function returns another type for them
        c1 = first(w1, f1, cap1, ttl1, 'first call')
        havoc_cache(E, c1, f1)
        if unit.extra['shared']:
            call_wrapper(c, w1, op2, params(op2), f1, c1, 'later call, arguments passed differently')
        else:
            v1 = View(E, E.st.copy(), c1)
            c2 = first(w1, f1, cap1, ttl1, 'first call for another type of result', op2, [c1.id])
            v2 = View(E, E.st, c1)
            x = th.fresh('c', th.C)
            c.check('wrap', 'a call for another type of result leaves the results alone', AND(EQ(v1.pres(x), v2.pres(x)), IMP(v1.pres(x), EQ(v1.val(x), v2.val(x)))))
            call_wrapper(c, w1, op, params(op), f1, c1, 'later call', others=[c2.id])
        E.ends.append(list(E.st.pc))
        return True
    if E.choose(2) == 1:
        c1 = first(w1, f1, cap1, ttl1, 'first call')
        # an arbitrary history of calls of the wrapper
        havoc_cache(E, c1, f1)
        for h in E.st.statics.values():
            v = E.st.mem.get(h.id) if isinstance(h, Cell) else None
            if isinstance(v, (bool, int, float)) or z3.is_expr(v):
                E.st.mem[h.id] = th.fresh('static', Z(v).sort())
            elif captured_caches(E, h) != [c1] and not (isinstance(h, Cell) and h.id == c1.id):
                raise Unsupported('static local object')
        how = E.choose(3)
        call_wrapper(c, w1, op, params(op), f1, c1, ('later call', 'later call, recursive', 'later call, throwing')[how], how)
        E.ends.append(list(E.st.pc))
        return True
    w2, f2, cap2, ttl2 = create()
    c1 = first(w1, f1, cap1, ttl1, 'first call')
    v1 = View(E, E.st.copy(), c1)
    c2 = first(w2, f2, cap2, ttl2, 'another wrapper')
    c.check('wrap', 'wrappers do not share a cache', c1.id != c2.id)
    v2 = View(E, E.st, c1)
    x = th.fresh('c', th.C)
    c.check('wrap', 'a call of one wrapper leaves the results of another alone', AND(EQ(v1.pres(x), v2.pres(x)), IMP(v1.pres(x), EQ(v1.val(x), v2.val(x)))))
    E.ends.append(list(E.st.pc))
    return True


def havoc_cache(E, cell, f):
    """Any contents a wrapper's cache can have after any calls."""
    th, st = E.th, E.st
    v = View(E, st, cell)
    own, ownL, ref = st.own, st.ownL, st.ref
    tok, ltok = v.m.tok, v.l.tok
    st.own = th.fn('own', th.Obj, th.I)
    st.ownL = th.fn('ownL', th.LN, th.I)
    st.ref = th.fn('ref', th.LN, th.Obj)
    E.assume(EQ(st.own(E.NULL), 0))
    E.assume(th.forall([th.Obj], lambda o: ITE(OR(EQ(own(o), 0), EQ(own(o), tok)), OR(EQ(st.own(o), 0), EQ(st.own(o), tok)), EQ(st.own(o), own(o))), lambda o: [st.own(o), own(o)]))
    E.assume(th.forall([th.LN], lambda n: ITE(OR(EQ(ownL(n), 0), EQ(ownL(n), ltok)), OR(EQ(st.ownL(n), 0), EQ(st.ownL(n), ltok)), EQ(st.ownL(n), ownL(n))), lambda n: [st.ownL(n), ownL(n)]))
    E.assume(th.forall([th.LN], lambda n: OR(EQ(ownL(n), 0), EQ(ownL(n), ltok), EQ(st.ref(n), ref(n))), lambda n: [st.ref(n)]))
    for leaf in ['K', 'V', v.R.order] + ([v.R.time] if v.R.time else []):
        f0 = st.heap.get(leaf) or E.heap0[leaf]
        h1 = st.heap[leaf] = th.fn('h_' + leaf, th.Obj, Z(f0(E.NULL)).sort())
        E.assume(th.forall([th.Obj], lambda o: OR(EQ(own(o), 0), EQ(own(o), tok), EQ(h1(o), f0(o))), lambda o: [h1(o)]))
    st.mem[v.mcell.id] = v.m.upd(at=th.fn('at', th.C, th.Obj), size=th.fresh('msize', th.I), iseq=None, ipos=None)
    st.mem[v.lcell.id] = v.l.upd(seq=th.fn('seq', th.I, th.LN), pos=th.fn('pos', th.LN, th.I), size=th.fresh('lsize', th.I))
    E.assume(stdlib.map_wf(E, st, st.mem[v.mcell.id]))
    E.assume(stdlib.list_wf(E, st, st.mem[v.lcell.id]))
    la = st.mem[v.lacell.id]
    R = v.R
    la_types = {g['n']: g['t'] for g in E.P.all_fields(E.P.ty(E.P.refd(R.la['t']))['rec'])}
    for n in (R.lakey, R.lainfo):
        st.mem[la.fields[n].id] = PObj(th.fresh('la', th.Obj), E.P.ty(la_types[n])['to'])
    st.mem[la.fields[R.lavalid].id] = th.fresh('lavalid', th.B)
    t = th.fresh('now', th.I)
    E.assume(LE(st.now, t))
    st.now = t
    p = View(E, st, cell)
    for _, _, g in inv(E, p):
        E.assume(g)
    fres = z3.Function(E.fresult, th.FS, th.C, th.VC)
    E.assume(th.forall([th.C], lambda x: IMP(p.pres(x), EQ(th.vcls(p.val(x)), fres(f, x))), lambda x: [p.m.at(x)]))


def wrap_units(P):
    out = []
    for i, F in enumerate(P.F):
        if not F or not F.get('inroot') or F.get('body') is None:
            continue
        if F['qn'] == 'std::hash::operator()' and len(F['params']) == 1:
            t = P.refd(F['params'][0]['t'])
            if P.kind(t) != 'KT':
                continue
            u = units.Unit('Hash', F['rec'], i, 'tuple<%s>' % ','.join(P.s(x['type']).replace('LRUvf::', '').replace('std::', '') for x in P.targs(t)), P)
            u.type = next(j for j, x in enumerate(P.T) if x['k'] == 'rec' and x['rec'] == F['rec'])
            u.extra.update(run='hash', group='hash')
            out.append(u)
        if F['qn'] in ('LRU::wrap', 'LRU::timed_wrap'):
            r = P.ty(P.refd(F['ret']))
            if r['k'] != 'rec' or not (P.R[r['rec']] or {}).get('lambda'):
                continue
            ks = ','.join(units.pkind(P, p['t']) + ('&' if P.is_ref(p['t']) else '') for p in F['params'])
            for m in P.members(r['rec']):
                G = P.F[m]
                if G['n'] != 'operator()' or G.get('body') is None:
                    continue
                ps = ','.join(P.s(p['t']).replace('LRUvf::', '') for p in G['params'])
                u = units.Unit('Wrap', r['rec'], i, '%s(%s)(%s)' % (F['n'], ks, ps), P)
                u.extra.update(run='wrap', group='wrap', op=m, cost=8 if 'timed' in F['n'] else 4)
                out.append(u)
                G0 = [P.F[x] for x in P.members(r['rec']) if P.F[x]['n'] == 'operator()' and P.F[x].get('body') is not None]

                def dec(G):
                    return [units.pkind(P, p['t']).rstrip('&') for p in G['params']]

                def way(G):
                    return [(P.ty(p['t'])['k'], P.ty(P.ty(p['t'])['to']).get('const')) if P.is_ref(p['t']) else 'value' for p in G['params']]
                seen = []
                for m2 in P.members(r['rec']):
                    G2 = P.F[m2]
                    if G2['n'] != 'operator()' or G2.get('body') is None or m2 == m or dec(G2) != dec(G) or way(G2) == way(G):
                        continue
                    ps2 = ','.join(P.s(p['t']).replace('LRUvf::', '') for p in G2['params'])
                    if ps2 in seen or len(G['params']) != 1:
                        continue
                    seen.append(ps2)
                    u = units.Unit('Wrap', r['rec'], i, '%s(%s)(%s) then (%s)' % (F['n'], ks, ps, ps2), P)
                    u.extra.update(run='wrap', group='wrap', op=m, op2=m2, shared=P.refd(G['ret']) == P.refd(G2['ret']), cost=8 if 'timed' in F['n'] else 4)
                    out.append(u)
    return out


units.RUNNERS.update(hash=run_hash, wrap=run_wrap)
