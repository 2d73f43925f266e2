"""Trusted contracts of the C++ standard library (and of the opaque types).

Each entry states what the standard guarantees about one operation; these are
the assumptions on dependencies the proofs rest on."""
import z3
from theory import *
from interp import (Unsupported, Brk, PathEnd, Cell, HLoc, RecV, MapV, ListV, VecV, MapIt, LIt, VIt, RefW, PObj, Ptr, FnV, LamPtr, TupV,
                    ExcV, ConcMap, ConcIt, Seg, NULLP, UNIT, UNINIT, NeedBranch, CppThrow)


# ------------------------------------------------------------------ helpers
def fresh_tok(E):
    """Identity of a container created by the function under verification:
    nothing belongs to it yet."""
    return E.newtok() + NEWTOK


NEWTOK = 1000000


def new_map(E, t, hash=None, eq=None):
    tok = fresh_tok(E)
    return MapV(tok, Clo(lambda c: E.NULL), 0, hash, eq, t)


def new_list(E, t):
    tok = fresh_tok(E)
    end = E.th.fresh('end', E.th.LN)
    E.assume(EQ(E.st.ownL(end), -7))
    return ListV(tok, Clo(lambda i: end), Clo(lambda n: Z(0)), 0, end, t)


def sym_map(E, t, tok=None, hash=None, eq=None):
    """An arbitrary well-formed map."""
    th = E.th
    tok = tok or E.newtok()
    at = th.fn('at', th.C, th.Obj)
    size = th.fresh('msize', th.I)
    hash = hash if hash is not None else th.fresh('hash', th.HS)
    eq = eq if eq is not None else th.fresh('eq', th.ES)
    m = MapV(tok, at, size, hash, eq, t)
    for f in map_wf(E, E.st, m):
        E.assume(f)
    return m


def map_wf(E, st, m):
    """What every unordered_map satisfies (standard library invariant)."""
    th = E.th
    own, key = st.own, st.heap.get('K') or E.leaf('K', th.KV)
    N = E.NULL
    return [
        LE(0, m.size), LT(m.size, BIG),
        EQ(own(N), 0),
        th.forall([th.C], lambda c: IMP(NE(m.at(c), N), AND(EQ(own(m.at(c)), m.tok), EQ(th.cls(m.eq, key(m.at(c))), c), LE(1, m.size))),
                  lambda c: [m.at(c)]),
        th.forall([th.Obj], lambda o: IMP(EQ(own(o), m.tok), EQ(m.at(th.cls(m.eq, key(o))), o)),
                  lambda o: [own(o)]),
    ]


def map_iter(E, m, cell):
    """Materialise an (arbitrary, fixed) iteration order."""
    if m.iseq is not None:
        return m
    th = E.th
    iseq = th.fn('iseq', th.I, th.Obj)
    ipos = th.fn('ipos', th.Obj, th.I)
    own = E.st.own
    E.assume(th.forall([th.I], lambda i: IMP(AND(LE(0, i), LT(i, m.size)), AND(EQ(own(iseq(i)), m.tok), EQ(ipos(iseq(i)), i))),
                       lambda i: [iseq(i)]))
    E.assume(th.forall([th.Obj], lambda o: IMP(EQ(own(o), m.tok), AND(LE(0, ipos(o)), LT(ipos(o), m.size), EQ(iseq(ipos(o)), o))),
                       lambda o: [[ipos(o)], own(o)]))
    m2 = m.upd(iseq=iseq, ipos=ipos)
    if cell is not None:
        E.st.mem[cell.id] = m2
    return m2


def sym_list(E, t, tok=None):
    th = E.th
    tok = tok or E.newtok()
    seq = th.fn('seq', th.I, th.LN)
    pos = th.fn('pos', th.LN, th.I)
    size = th.fresh('lsize', th.I)
    end = th.fresh('end', th.LN)
    l = ListV(tok, seq, pos, size, end, t)
    for f in list_wf(E, E.st, l):
        E.assume(f)
    return l


def list_wf(E, st, l):
    th = E.th
    ownL = st.ownL
    return [
        LE(0, l.size), LT(l.size, BIG),
        EQ(ownL(l.end), -7),
        th.forall([th.I], lambda i: IMP(AND(LE(0, i), LT(i, l.size)), AND(EQ(ownL(l.seq(i)), l.tok), EQ(l.pos(l.seq(i)), i))),
                  lambda i: [l.seq(i)]),
        th.forall([th.LN], lambda n: IMP(EQ(ownL(n), l.tok), AND(LE(0, l.pos(n)), LT(l.pos(n), l.size), EQ(l.seq(l.pos(n)), n))),
                  lambda n: [ownL(n), l.pos(n)]),
    ]


def setownL(E, n, v):
    f = E.st.ownL
    E.st.ownL = Clo(lambda x: ITE(EQ(x, n), Z(v), f(x)))


def setref(E, n, o):
    f = E.st.ref
    E.st.ref = Clo(lambda x: ITE(EQ(x, n), o, f(x)))


def keyloc(E, x, k=None):
    """HLoc of a key operand (possibly via reference_wrapper)."""
    if isinstance(x, HLoc):
        return x
    v = E.val(x)
    if isinstance(v, RefW):
        return HLoc(v.o, v.t)
    if isinstance(v, HLoc):
        return v
    raise Unsupported('key operand %r' % (x,))


def sub1(a):
    return a - 1


# ------------------------------------------------------------------ map
def m_lookup(E, m, keyterm):
    return m.at(E.th.cls(m.eq, keyterm))


def m_find(E, cell, keyterm):
    m = E.load(cell)
    return m_lookup(E, m, keyterm)


def construct_second(E, t, o, args, argx):
    """Construct the mapped value inside node object o."""
    k = E.P.kind(t)
    if k in ('heap', 'rec'):
        dst = HLoc(o, E.P.refd(t))
        if len(args) == 1:
            a = args[0]
            src = a
            if isinstance(a, Cell) and isinstance(E.st.mem.get(a.id), RecV) and E.st.mem[a.id].rec == E.P.ty(E.P.refd(t))['rec']:
                # a record in cells moves into the heap
                for fd in E.P.all_fields(E.P.ty(E.P.refd(t))['rec']):
                    E.store(E.member(dst, fd['n'], fd['t']), E.load(E.member(a, fd['n'], fd['t'])))
                return
            if isinstance(a, HLoc) and E.P.kind(a.t) in ('heap', 'rec') and E.P.ty(E.P.refd(a.t))['rec'] == E.P.ty(E.P.refd(t))['rec']:
                rec = E.P.ty(E.P.refd(t))['rec']
                move = is_move(argx[0]) if argx else True
                for c in E.P.ctors(rec):
                    F = E.P.F[c]
                    if F.get('movector' if move else 'copyctor') and (F.get('body') is not None or F.get('inits')) and not F.get('deleted'):
                        E.inline(c, dst, [a])
                        return
                E.copy_record_into(dst, a, rec, move)
                return
        # another constructor of the mapped type
        rec = E.P.ty(E.P.refd(t))['rec']
        c = pick_ctor(E, rec, args, argx)
        E.inline(c, dst, list(args) + [E.eval(p['def']) for p in E.P.F[c]['params'][len(args):]])
        return
    if k == 'V':
        a = args[0]
        E.store(HLoc(o, t), E.load(a))
        return
    if k in ('int', 'bool'):
        E.store(HLoc(o, t, 'second'), E.val(args[0]))
        return
    raise Unsupported('mapped type ' + E.P.s(t))


def is_move(ax):
    """Does the argument expression bind to an rvalue reference?"""
    return ax is not None and ax.get('vc') in ('x', 'r') if 'vc' in (ax or {}) else (is_move(ax['e']) if ax and 'e' in ax and isinstance(ax['e'], dict) else False)


def tmatch(E, pt, a):
    k = E.P.kind(pt)
    if isinstance(a, HLoc):
        ak = E.P.kind(a.t)
        return ak == k and (ak != 'heap' or E.P.ty(E.P.refd(a.t)).get('rec') == E.P.ty(E.P.refd(pt)).get('rec'))
    return k not in ('K', 'V', 'KT', 'heap')


def pick_ctor(E, rec, args, argx):
    best = None
    for c in E.P.ctors(rec):
        F = E.P.F[c]
        if F.get('deleted') or F.get('copyctor') or F.get('movector'):
            continue
        ps = F['params']
        if len(ps) < len(args) or any('def' not in p for p in ps[len(args):]) or (F.get('body') is None and not F.get('inits')):
            continue
        if all(tmatch(E, p['t'], a) for p, a in zip(ps, args)):
            best = c
    if best is None:
        raise Unsupported('constructor overload in emplace')
    return best


def m_emplace_common(E, cell, keyt, args, argx, key_args=None, second_args=None, only_if_absent=True):
    """emplace(k, args...): the node is built first, then inserted if no
    equivalent key is present (libstdc++ behaviour; arguments may be consumed
    either way)."""
    m = E.load(cell)
    nodet = node_type(E, m.t)
    kl = keyloc(E, args[0])
    kt = E.P.targ(m.t, 0)
    kv = E.load(kl)
    # where does the existing element, if any, sit
    o0 = m.at(E.th.cls(m.eq, kv))
    found = E.br(NE(o0, E.NULL))
    if found:
        # construct and discard a node
        if argx and is_move(argx[0]) and not only_if_absent:
            E.moved_from(kl, 'K')
        return MapIt(o0, cell, nodet), False
    o = E.newobj('node', own=-1)
    E.leaf('K', E.th.KV)
    E.upd('K', o, kv)
    if argx and is_move(argx[0]):
        E.moved_from(kl, 'K')
    construct_second(E, E.P.targ(m.t, 1), o, args[1:], argx[1:] if argx else None)
    E.st.tmp.discard(o.get_id())
    m = E.load(cell)
    E.setown(o, m.tok)
    E.st.alloc.append(o)
    c = E.th.cls(m.eq, kv)
    at = m.at
    E.st.mem[cell.id] = m.upd(at=Clo(lambda x: ITE(EQ(x, c), o, at(x))), size=m.size + 1, iseq=None, ipos=None)
    return MapIt(o, cell, nodet), True


def node_type(E, mt):
    """pair<const K, T> of a map type."""
    r = E.maptypes.get(mt)
    if r is None:
        kt, vt = E.P.targ(mt, 0), E.P.targ(mt, 1)
        for i, x in enumerate(E.P.T):
            if x['k'] == 'rec' and x['qn'] == 'std::pair' and not x.get('const'):
                a, b = E.P.targ(i, 0), E.P.targ(i, 1)
                if a is not None and E.P.ty(a).get('rec') == E.P.ty(kt).get('rec') and E.P.ty(a).get('const') and b is not None and E.P.kind(b) == E.P.kind(vt) \
                        and E.P.ty(b).get('rec') == E.P.ty(vt).get('rec'):
                    r = i
                    break
        if r is None:
            raise Unsupported('node type of ' + E.P.s(mt))
        E.maptypes[mt] = r
    return r


def m_remove(E, cell, o):
    m = E.load(cell)
    E.setown(o, 0)
    at, N = m.at, E.NULL
    isq, ips = m.iseq, m.ipos
    kw = {}
    if isq is not None:
        p = ips(o)
        kw = dict(iseq=Clo(lambda i: ITE(LT(i, p), isq(i), isq(i + 1))), ipos=Clo(lambda x: ITE(LT(p, ips(x)), ips(x) - 1, ips(x))))
    E.st.mem[cell.id] = m.upd(at=Clo(lambda x: ITE(EQ(at(x), o), N, at(x))), size=m.size - 1, **kw)


def m_next(E, cell, o):
    m = map_iter(E, E.load(cell), cell)
    return ITE(EQ(m.ipos(o) + 1, m.size), E.NULL, m.iseq(m.ipos(o) + 1))


def m_begin(E, cell):
    m = E.load(cell)
    m = map_iter(E, m, cell)
    return ITE(EQ(m.size, 0), E.NULL, m.iseq(Z(0)))


def find_mapcell(E, it):
    """The map an iterator belongs to."""
    if it.hint is not None:
        return it.hint
    cells = [c for c in E.mapcells() if node_type(E, E.st.mem[c.id].t) == it.t or it.t is None]
    for c in cells[:-1]:
        if E.br(EQ(E.st.own(it.o), E.st.mem[c.id].tok)):
            return c
    if cells:
        return cells[-1]
    raise Unsupported('iterator of unknown map')


def m_destroy(E, m):
    own = E.st.own
    tok = m.tok
    E.st.own = Clo(lambda x: ITE(EQ(own(x), tok), Z(0), own(x)))


def m_clear(E, cell):
    m = E.load(cell)
    m_destroy(E, m)
    E.st.mem[cell.id] = m.upd(at=Clo(lambda c: E.NULL), size=0, iseq=None, ipos=None)


def plain_copy(E, t):
    """Containers copy their elements with the copy constructor, which this
    model takes to copy every member."""
    x = E.P.ty(E.P.refd(t))
    if E.P.kind(E.P.refd(t)) not in ('heap', 'rec') or not (E.P.R[x['rec']] or {}).get('inroot'):
        return
    for c in E.P.ctors(x['rec']):
        F = E.P.F[c]
        if F.get('copyctor') and not F.get('defaulted'):
            raise Unsupported('elements with a copy constructor of their own')
    for b in E.P.R[x['rec']].get('bases', []):
        plain_copy(E, b)
    for f in E.P.R[x['rec']].get('fields', []):
        plain_copy(E, f['t'])


def m_copy(E, src, tok):
    """Contents of a copy of map value src under token tok: new nodes."""
    th = E.th
    plain_copy(E, E.P.targ(src.t, 1))
    cl = th.fn('clone', th.Obj, th.Obj)
    un = th.fn('orig', th.Obj, th.Obj)
    own = E.st.own
    N = E.NULL
    E.assume(th.forall([th.Obj], lambda o: IMP(EQ(own(o), src.tok), AND(EQ(un(cl(o)), o), EQ(own(cl(o)), 0), NE(cl(o), N))), lambda o: [cl(o)]))
    E.assume(EQ(cl(N), N))
    isc = Clo(lambda x: AND(NE(x, N), EQ(cl(un(x)), x), EQ(own(un(x)), src.tok)))
    at0 = src.at
    E.st.own = Clo(lambda x: ITE(isc(x), Z(tok), own(x)))
    for leaf in list(E.heap0):
        if leaf in ('hits', 'misses') and False:
            continue
        f = E.st.heap.get(leaf) or E.heap0[leaf]
        E.st.heap[leaf] = (lambda f: Clo(lambda x: ITE(isc(x), f(un(x)), f(x))))(f)
    at = Clo(lambda c: ITE(EQ(at0(c), N), N, cl(at0(c))))
    E.st.clones = (cl, un)
    return at


# ------------------------------------------------------------------ list
def l_insert(E, cell, pos, o, front=False):
    """Insert a new node referring to o before position pos (a term)."""
    l = E.load(cell)
    n = E.th.fresh('ln', E.th.LN)
    E.assume(EQ(E.st.ownL(n), 0))
    E.assume(NE(n, l.end))
    setownL(E, n, l.tok)
    setref(E, n, o)
    seq, ps = l.seq, l.pos
    p = pos
    E.st.mem[cell.id] = l.upd(
        seq=Clo(lambda i: ITE(EQ(i, p), n, ITE(LT(i, p), seq(i), seq(i - 1)))),
        pos=Clo(lambda x: ITE(EQ(x, n), Z(p), ITE(LT(ps(x), p), ps(x), ps(x) + 1))),
        size=l.size + 1)
    return n


def l_append(E, cell, o):
    l = E.load(cell)
    n = E.th.fresh('ln', E.th.LN)
    E.assume(EQ(E.st.ownL(n), 0))
    E.assume(NE(n, l.end))
    setownL(E, n, l.tok)
    setref(E, n, o)
    seq, ps, sz = l.seq, l.pos, l.size
    E.st.mem[cell.id] = l.upd(
        seq=Clo(lambda i: ITE(EQ(i, sz), n, seq(i))),
        pos=Clo(lambda x: ITE(EQ(x, n), Z(sz), ps(x))),
        size=l.size + 1)
    return n


def l_remove(E, cell, n):
    l = E.load(cell)
    p = l.pos(n)
    seq, ps = l.seq, l.pos
    setownL(E, n, 0)
    E.st.mem[cell.id] = l.upd(
        seq=Clo(lambda i: ITE(LT(i, p), seq(i), seq(i + 1))),
        pos=Clo(lambda x: ITE(LT(p, ps(x)), ps(x) - 1, ps(x))),
        size=l.size - 1)
    return p


def l_erase_range(E, cell, first, last):
    l = E.load(cell)
    own = E.st.ownL
    p, q = l_pos(E, l, first.n), l_pos(E, l, last.n)
    for x in (first, last):
        E.oblige(OR(EQ(x.n, l.end), EQ(own(x.n), l.tok)), 'the range erased is a range of this list')
    E.oblige(LE(p, q), 'the range erased is valid')
    k = q - p
    seq, ps, tok = l.seq, l.pos, l.tok
    E.st.ownL = Clo(lambda x: ITE(AND(EQ(own(x), tok), LE(p, ps(x)), LT(ps(x), q)), Z(0), own(x)))
    E.st.mem[cell.id] = l.upd(
        seq=Clo(lambda i: ITE(LT(i, p), seq(i), seq(i + k))),
        pos=Clo(lambda x: ITE(LE(q, ps(x)), ps(x) - k, ps(x))),
        size=l.size - k)
    return LIt(last.n, cell)


def l_check(E, cell, n, what='list position'):
    l = E.load(cell)
    E.oblige(EQ(E.st.ownL(n), l.tok), 'an element (not the end, not of another list) is used as ' + what)


def l_pos(E, l, n):
    """Position of an iterator that may be the end."""
    return ITE(EQ(n, l.end), l.size, l.pos(n))


def l_splice1(E, cell, before, n):
    """Move node n of the same list before iterator `before`."""
    l = E.load(cell)
    l_check(E, cell, n, 'the element to splice')
    E.oblige(OR(EQ(before, l.end), EQ(E.st.ownL(before), l.tok)), 'splice target is a position of this list')
    if E.br(EQ(before, n)):
        return
    seq, ps, sz = l.seq, l.pos, l.size
    p = ps(n)
    if E.br(EQ(before, l.end)):
        E.st.mem[cell.id] = l.upd(
            seq=Clo(lambda i: ITE(EQ(i, sz - 1), n, ITE(LT(i, p), seq(i), seq(i + 1)))),
            pos=Clo(lambda x: ITE(EQ(x, n), Z(sz) - 1, ITE(LT(p, ps(x)), ps(x) - 1, ps(x)))))
        return
    q = ps(before)
    # target index after removal
    q2 = ITE(LT(p, q), q - 1, q)
    s1 = Clo(lambda i: ITE(LT(i, p), seq(i), seq(i + 1)))
    p1 = Clo(lambda x: ITE(LT(p, ps(x)), ps(x) - 1, ps(x)))
    E.st.mem[cell.id] = l.upd(
        seq=Clo(lambda i: ITE(EQ(i, q2), n, ITE(LT(i, q2), s1(i), s1(i - 1)))),
        pos=Clo(lambda x: ITE(EQ(x, n), q2, ITE(LT(p1(x), q2), p1(x), p1(x) + 1))))


def l_destroy(E, l):
    f, tok = E.st.ownL, l.tok
    E.st.ownL = Clo(lambda x: ITE(EQ(f(x), tok), Z(0), f(x)))


def l_copy(E, src, tok):
    th = E.th
    cl = th.fn('lclone', th.LN, th.LN)
    un = th.fn('lorig', th.LN, th.LN)
    ownL = E.st.ownL
    E.assume(th.forall([th.LN], lambda n: IMP(EQ(ownL(n), src.tok), AND(EQ(un(cl(n)), n), EQ(ownL(cl(n)), 0))), lambda n: [cl(n)]))
    isc = Clo(lambda x: AND(EQ(cl(un(x)), x), EQ(ownL(un(x)), src.tok)))
    E.st.ownL = Clo(lambda x: ITE(isc(x), Z(tok), ownL(x)))
    ref = E.st.ref
    E.st.ref = Clo(lambda x: ITE(isc(x), ref(un(x)), ref(x)))
    seq, ps = src.seq, src.pos
    return Clo(lambda i: cl(seq(i))), Clo(lambda x: ps(un(x)))


def l_next(E, cell, n):
    l = E.load(cell)
    return ITE(EQ(l.pos(n) + 1, l.size), l.end, l.seq(l.pos(n) + 1))


def l_prev(E, cell, n):
    l = E.load(cell)
    return ITE(EQ(n, l.end), l.seq(l.size - 1), l.seq(l.pos(n) - 1))


def l_begin(E, cell):
    l = E.load(cell)
    return ITE(EQ(l.size, 0), l.end, l.seq(Z(0)))


def find_listcell(E, it):
    if it.hint is not None:
        return it.hint
    cells = E.listcells()
    for c in cells[:-1]:
        l = E.st.mem[c.id]
        if E.br(OR(EQ(E.st.ownL(it.n), l.tok), EQ(it.n, l.end))):
            return c
    if cells:
        return cells[-1]
    raise Unsupported('iterator of unknown list')


def refcell(E, n):
    """Location of the reference_wrapper stored in list node n."""
    return RefCellLoc(n)


class RefCellLoc(Cell):
    """Pseudo-location: payload of list node n."""
    __slots__ = ('n', 't')

    def __init__(self, n, t=None):
        self.n, self.t = n, t
        self.id, self.name = -1, 'ref'


# ------------------------------------------------------------------ vectors
def vec_at(E, it):
    v = it.vec
    E.oblige(AND(LE(0, it.idx), LT(it.idx, v.len)), 'no access outside the range being iterated')
    k = E.P.kind(v.et)
    x = v.elem(it.idx)
    if k in ('K', 'V', 'KT', 'heap'):
        return HLoc(x, E.P.refd(v.et))
    if k == 'func':
        return E.cell(FnV(x), 'elem')
    raise Unsupported('vector element ' + E.P.s(v.et))


def sym_vec(E, et, name='vec'):
    th = E.th
    n = th.fresh(name + '_len', th.I)
    E.assume(LE(0, n))
    E.assume(LE(n, (1 << 62)))
    k = E.P.kind(et)
    E.nvec = getattr(E, 'nvec', 0) + 1
    if k in ('K', 'V', 'KT', 'heap'):
        elem = th.fn(name + '_elem', th.I, th.Obj)
        eidx = th.fn(name + '_idx', th.Obj, th.I)
        own = E.st.own
        E.assume(th.forall([th.I], lambda i: IMP(AND(LE(0, i), LT(i, n)), AND(EQ(own(elem(i)), -2), EQ(eidx(elem(i)), i))), lambda i: [elem(i)]))
        return VecV(n, elem, et, E.nvec, eidx)
    elem = th.fn(name + '_fn', th.I, th.Fn)
    return VecV(n, elem, et, E.nvec)


def conc_vec(E, t, items):
    et = E.P.targ(t, 0)
    items = list(items)
    E.nvec = getattr(E, 'nvec', 0) + 1
    obs = [x.o for x in items]

    def elem(i):
        r = obs[0] if obs else E.NULL
        for j, o in enumerate(obs):
            r = ITE(EQ(i, j), o, r)
        return r
    return VecV(len(items), Clo(elem), et, E.nvec)


# ------------------------------------------------------------------ values
def default_functor(E, t):
    k = E.P.kind(t)
    if k == 'E':
        if E.P.ty(E.P.refd(t))['qn'] == 'std::equal_to':
            return E.th.stdeq
        return E.defE
    if k == 'H':
        return E.defH
    return UNIT


def copy_value(E, t, src, move):
    """Copy/move of an object of type t from location src (result: value or
    new location, as for a prvalue)."""
    k = E.P.kind(t)
    if k in ('K', 'V', 'KT'):
        return E.copy_opaque(src, E.P.refd(t), move)
    if k == 'heap' or k == 'rec':
        rec = E.P.ty(E.P.refd(t))['rec']
        for want in (('movector', 'copyctor') if move else ('copyctor',)):
            for c in E.P.ctors(rec):
                F = E.P.F[c]
                if F.get(want) and not F.get('deleted'):
                    return E.construct(t, c, [src])
        loc = E.newrec(t)
        E.copy_record_into(loc, src, rec, move)
        return loc
    if k == 'map':
        m = E.load(src)
        if move:
            E.st.mem[src.id] = m.upd(tok=fresh_tok(E), at=Clo(lambda c: E.NULL), size=0, iseq=None, ipos=None)
            return m
        tok = fresh_tok(E)
        at = m_copy(E, m, tok)
        return m.upd(tok=tok, at=at, iseq=None, ipos=None)
    if k == 'list':
        l = E.load(src)
        if move:
            # the end position stays with the list object
            nl = new_list(E, l.t)
            E.st.mem[src.id] = nl.upd(end=l.end)
            return l.upd(end=nl.end)
        tok = fresh_tok(E)
        end = E.th.fresh('end', E.th.LN)
        seq, pos = l_copy(E, l, tok)
        E.assume(EQ(E.st.ownL(end), -7))
        return ListV(tok, seq, pos, l.size, end, l.t)
    v = E.load(src) if not isinstance(src, RefCellLoc) else RefW(E.st.ref(src.n))
    if k in ('sptr', 'uptr'):
        if move:
            E.store(src, NULLP)
        return v
    if k == 'vec' and move:
        E.store(src, VecV(0, v.elem, v.et, v.id, v.eidx))
        return v
    return v


def maketup(E, t, args, argx, F=None):
    """Construct a tuple of keys and values from its elements (or from a tuple of references to them)."""
    if len(args) == 1 and len(E.P.targs(t)) >= 1:
        v = E.load(args[0]) if isinstance(args[0], Cell) else None
        if isinstance(v, TupV):
            args, argx = v.items, [None] * len(v.items)
    if len(args) != len(E.P.targs(t)):
        raise Unsupported('tuple constructor')
    vs = [E.load(keyloc(E, a)) for a in args]
    r = E.tmpobj('K', E.mktup(*vs), t)
    for x, a, ax in zip(E.P.targs(t), args, argx or []):
        if is_move(ax) and isinstance(a, HLoc):
            E.moved_from(a, 'V' if E.P.kind(x['type']) == 'V' else 'K')
    return r


def construct(E, t, f, args, argx):
    P = E.P
    F = P.F[f]
    k = P.kind(t)
    n = len(args)
    E.used_std.add(F['qn'])
    copy = F.get('copyctor') or F.get('movector')
    if k in ('K', 'V', 'KT'):
        if copy:
            return E.copy_opaque(E.loc(args[0]), t, bool(F.get('movector')))
        if k == 'KT':
            return maketup(E, t, args, argx, F)
        raise Unsupported('construct opaque')
    if copy:
        src = args[0]
        if not isinstance(src, (Cell, HLoc)):
            return src
        return copy_value(E, t, src, bool(F.get('movector')))
    if k in ('E', 'H', 'F', 'unit'):
        return default_functor(E, t)
    if k == 'map':
        # (n, hash, equal), ()
        h = e = None
        for a in args:
            v = E.val(a)
            if z3.is_expr(v) and v.sort() == E.th.HS:
                h = v
            if z3.is_expr(v) and v.sort() == E.th.ES:
                e = v
        if h is None:
            h = default_functor(E, P.targ(t, 2))
        if e is None:
            e = default_functor(E, P.targ(t, 3))
        return new_map(E, t, h, e)
    if k == 'list':
        if n == 0 or P.kind(F['params'][0]['t']) == 'unit':
            return new_list(E, t)
        raise Unsupported('list constructor')
    if k == 'vec':
        if n == 0 or P.kind(F['params'][0]['t']) == 'unit':
            E.nvec = getattr(E, 'nvec', 0) + 1
            et = P.targ(t, 0)
            el = Clo(lambda i: E.NULL) if P.kind(et) != 'func' else Clo(lambda i: z3.Const('nofn', E.th.Fn))
            return VecV(0, el, et, E.nvec)
        raise Unsupported('vector constructor')
    if k == 'listit':
        if n == 0:
            # a default-constructed (singular) iterator
            x = E.th.fresh('singular', E.th.LN)
            E.assume(EQ(E.st.ownL(x), 0))
            return LIt(x)
        return E.val(args[0])
    if k == 'mapit':
        if n == 0:
            return MapIt(E.NULL, None, None)
        return E.val(args[0])
    if k == 'vecit':
        if n == 0:
            raise Unsupported('default vector iterator')
        return E.val(args[0])
    if k == 'refw':
        return RefW(keyloc(E, args[0]).o)
    if k == 'sptr' or k == 'uptr':
        if n == 0:
            return NULLP
        v = E.val(args[0])
        if v is NULLP:
            return NULLP
        if isinstance(v, (Ptr, PObj)):
            if is_move(argx[0]) and isinstance(args[0], (Cell, HLoc)) and P.kind(F['params'][0]['t']) in ('sptr', 'uptr'):
                E.store(args[0], NULLP)
            return v
        raise Unsupported('smart pointer constructor')
    if k == 'func':
        v = E.val(args[0]) if n else None
        if isinstance(v, FnV):
            return v
        raise Unsupported('std::function constructor')
    if k == 'dur':
        if n == 0:
            return UNINIT
        a = E.val(args[0])
        pt = F['params'][0]['t']
        if P.kind(pt) == 'dur':
            return dur_convert(E, a, P.refd(pt), t)
        a = E.toint(a)
        if not E.durint(t) and z3.is_expr(a) and z3.is_int(a):
            a = z3.ToReal(a)
        if not E.durint(t) and isinstance(a, int):
            a = float(a)
        return a
    if k == 'tp':
        if n == 0:
            return 0
        return E.val(args[0])
    if k == 'tidx':
        return E.val(args[0])
    if k == 'tuple':
        items = []
        ts = [x['type'] for x in P.targs(t)]
        if n == 1 and P.kind(F['params'][0]['t']) == 'tuple' and len(ts) == len(E.val(args[0]).items):
            src = E.val(args[0])
            # converting constructor: element-wise
            for et, h in zip(ts, src.items):
                items.append(h if P.is_ref(et) else E.fieldinit(et, copy_value(E, et, h, P.is_rref(F['params'][0]['t']))))
            return E.cell(TupV(items, t), 'tuple')
        if n == len(ts):
            for et, a, ax in zip(ts, args, argx or [None] * n):
                if P.is_ref(et):
                    items.append(E.loc(a))
                elif isinstance(a, (Cell, HLoc)):
                    items.append(E.fieldinit(et, copy_value(E, et, a, is_move(ax))))
                else:
                    items.append(E.cell(a))
            return E.cell(TupV(items, t), 'tuple')
        raise Unsupported('tuple constructor')
    if k == 'heap' and P.ty(t)['qn'] == 'std::pair':
        o = E.newobj('pair')
        dst = HLoc(o, t)
        rec = P.ty(t)['rec']
        ft = {fd['n']: fd['t'] for fd in P.R[rec]['fields']} if P.R[rec].get('fields') else {'first': P.targ(t, 0), 'second': P.targ(t, 1)}
        if n == 2:
            for nm, a, ax in zip(('first', 'second'), args, argx):
                fk = P.kind(ft[nm])
                if nm == 'second' and fk in ('heap', 'rec', 'int', 'bool'):
                    construct_second(E, ft[nm], o, [a], [ax])
                    continue
                v = E.load(E.loc(a)) if fk in ('K', 'V', 'KT') else None
                if v is None:
                    raise Unsupported('pair element %s %s' % (nm, fk))
                E.store(E.member(dst, nm, ft[nm]), v)
                if is_move(ax) and isinstance(a, HLoc):
                    E.moved_from(a, 'V' if fk == 'V' else 'K')
            return dst
        raise Unsupported('pair constructor')
    if k == 'rec' and P.ty(t)['qn'] == 'std::pair':
        loc = E.newrec(t)
        ts = [P.targ(t, 0), P.targ(t, 1)]
        rv = E.st.mem[loc.id]
        if n == 1:
            src = args[0]
            args = [E.member(src, 'first', ts[0]), E.member(src, 'second', ts[1])]
            argx = [None, None]
        for nm, et, a in zip(('first', 'second'), ts, args):
            if P.is_ref(et):
                h = E.loc(a)
            elif isinstance(a, (Cell, HLoc)):
                h = E.fieldinit(et, copy_value(E, et, a, False))
            else:
                h = E.cell(a)
            rv = rv.with_(nm, h)
        E.st.mem[loc.id] = rv
        return loc
    raise Unsupported('construct ' + P.s(t) + ' by ' + P.sig(f))


# ------------------------------------------------------------------ time
def ratio(E, t):
    """(num, den) of a duration's period."""
    p = E.P.targ(E.P.refd(t), 1)
    a = E.P.targs(p)
    return int(a[0]['int']), int(a[1]['int'])


def tp_dur(E, t):
    """The duration type of a duration or time_point type."""
    t = E.P.refd(t)
    if E.P.ty(t)['qn'].endswith('time_point'):
        return E.P.targ(t, 1)
    return t


def dur_convert(E, v, ft, tt):
    fn, fd = ratio(E, tp_dur(E, ft))
    tn, td = ratio(E, tp_dur(E, tt))
    num, den = fn * td, fd * tn
    import math
    g = math.gcd(num, den)
    num, den = num // g, den // g
    toint = E.durint(tp_dur(E, tt))
    isint = (isinstance(v, int) or (z3.is_expr(v) and z3.is_int(v)))
    if not toint:
        r = z3.ToReal(Z(v)) if isint else Z(v)
        return r * z3.Q(num, den)
    if isint:
        if den == 1:
            return Z(v) * num if num != 1 else v
        x = Z(v) * num
        # truncation towards zero
        return ITE(LE(0, x), x / den, -((-x) / den))
    x = Z(v) * z3.Q(num, den)
    return ITE(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def now(E):
    th = E.th
    if E.st.clock is not None and E.specclock is not None:
        if E.specpos < len(E.specclock):
            t = E.specclock[E.specpos]
            E.specpos += 1
            return t
    t = th.fresh('now', th.I)
    E.assume(LE(E.st.now, t))
    E.st.now = t
    E.st.clock.append(t)
    return t


# ------------------------------------------------------------------ dispatch
def short(qn):
    for p in ('std::__detail::', 'std::chrono::_V2::', '__gnu_cxx::', 'std::chrono::', 'std::'):
        if qn.startswith(p):
            return qn[len(p):]
    return qn


def dispatch(E, f, this, args, argx):
    P = E.P
    F = P.F[f]
    qn = F['qn']
    n = F['n']
    if 'rec' in F and not F.get('static'):
        k = None
        rq = P.R[F['rec']]['qn'] if P.R[F['rec']] else ''
        if isinstance(this, HLoc):
            k = P.kind(this.t)
        k = {'LRUvf::K': 'K', 'LRUvf::V': 'V', 'LRUvf::E': 'E', 'LRUvf::H': 'H', 'LRUvf::F': 'F', 'LRUvf::F2': 'F', 'LRUvf::V2': 'V', 'std::unordered_map': 'map',
             'std::list': 'list', 'std::vector': 'vec', 'std::initializer_list': 'vec', 'std::__detail::_Node_iterator': 'mapit',
             'std::__detail::_Node_const_iterator': 'mapit', 'std::_List_iterator': 'listit', 'std::_List_const_iterator': 'listit',
             '__gnu_cxx::__normal_iterator': 'vecit', 'std::reference_wrapper': 'refw', 'std::function': 'func', 'std::equal_to': 'E',
             'std::hash': 'H', 'std::unique_ptr': 'uptr', 'std::shared_ptr': 'sptr', 'std::__shared_ptr': 'sptr', 'std::__shared_ptr_access': 'sptr',
             'std::chrono::duration': 'dur', 'std::chrono::time_point': 'tp', 'std::pair': 'pair', 'std::tuple': 'tuple',
             'std::iterator': 'unit', 'std::__detail::_Node_iterator_base': 'mapit'}.get(rq, k or 'unit')
        if k == 'map' and isinstance(this, Cell) and isinstance(E.st.mem.get(this.id), ConcMap):
            k = 'cmap'
        m = METHODS.get((k, n)) or METHODS.get((k, '*'))
        if m is None:
            raise Unsupported('method ' + qn)
        return m(E, F, this, args, argx)
    if F.get('conv'):
        raise Unsupported('conversion ' + qn)
    m = FUNCS.get(qn) or FUNCS.get(short(qn))
    if m is None and F.get('rec') is not None:
        m = FUNCS.get(n)
    if m is None:
        raise Unsupported('function ' + qn)
    return m(E, F, args, argx)


METHODS, FUNCS = {}, {}


def M(k, *names):
    def d(fn):
        for nm in names:
            METHODS[(k, nm)] = fn
        return fn
    return d


def Fn(*names):
    def d(fn):
        for nm in names:
            FUNCS[nm] = fn
        return fn
    return d


# ---- opaque types
@M('K', 'operator=')
def _(E, F, this, a, ax):
    v = E.load(a[0])
    E.store(this, v)
    if F.get('moveassign'):
        E.moved_from(a[0], 'K')
    return this


METHODS[('KT', 'operator=')] = METHODS[('K', 'operator=')]


@M('V', 'operator=')
def _(E, F, this, a, ax):
    v = E.load(a[0])
    E.store(this, v)
    if F.get('moveassign') and isinstance(a[0], HLoc) and a[0].o.get_id() != this.o.get_id():
        s = a[0]
        f = E.st.heap['V']
        w = E.th.fresh('moved', E.th.VV)
        o = this.o
        # self-move aside, the source is left in an unspecified state
        E.st.heap['V'] = Clo(lambda x: ITE(AND(EQ(x, s.o), NE(x, o)), w, f(x)))
    return this


@M('E', 'operator()')
def _(E, F, this, a, ax):
    e = E.load(this)
    k1, k2 = E.load(keyloc(E, a[0])), E.load(keyloc(E, a[1]))
    return EQ(E.th.cls(e, k1), E.th.cls(e, k2))


@M('E', 'operator=')
def _(E, F, this, a, ax):
    E.store(this, E.val(a[0]))
    return this


METHODS[('H', 'operator=')] = METHODS[('E', 'operator=')]


@M('H', 'operator()')
def _(E, F, this, a, ax):
    if E.bv:
        return E.hashof(E.load(keyloc(E, a[0])))
    h = E.load(this)
    kv = E.load(keyloc(E, a[0]))
    r = E.th.hashv(h, kv)
    E.assume(AND(LE(0, r), LT(r, 1 << 64)))
    return r


def fapply(E, f, vs, suffix=''):
    """Result of a pure function: equal arguments give equal results."""
    th = E.th
    v = z3.Function('fapply%s_%d' % (suffix, len(vs)), *([th.FS] + [x.sort() for x in vs] + [th.VV]))(f, *vs)
    E.assume(EQ(th.vcls(v), z3.Function('fresult' + suffix, th.FS, th.C, th.VC)(f, th.cls(th.stdeq, E.mktup(*vs)))))
    return v


def result_kind(P, t):
    """Functions of arguments passed differently may return different types."""
    return '2' if P.ty(P.refd(t)).get('qn') == 'LRUvf::V2' else ''


@M('F', 'operator()')
def _(E, F, this, a, ax):
    vs = [E.load(keyloc(E, x)) for x in a]
    f = E.load(this)
    if not (z3.is_expr(f) and f.sort() == E.th.FS):
        raise Unsupported('call of an unknown function')
    v = fapply(E, f, vs, result_kind(E.P, F['ret']))
    E.st.trace.append(Seg(1, None, 'orig', tuple(('K', x) for x in vs)))
    r = E.tmpobj('V', v, F['ret'])
    for p, x in zip(F['params'], a):
        # an argument passed as an rvalue may be taken
        if E.P.ty(p['t'])['k'] == 'rref':
            y = keyloc(E, x)
            E.store(y, E.th.fresh('taken', E.load(y).sort()))
    if E.oncall is not None:
        E.oncall(f, vs)
    return r


# ---- unordered_map
@M('map', 'begin', 'cbegin')
def _(E, F, this, a, ax):
    return MapIt(m_begin(E, this), this, node_type(E, E.load(this).t))


@M('map', 'end', 'cend')
def _(E, F, this, a, ax):
    return MapIt(E.NULL, this, node_type(E, E.load(this).t))


@M('map', 'find')
def _(E, F, this, a, ax):
    return MapIt(m_find(E, this, E.load(keyloc(E, a[0]))), this, node_type(E, E.load(this).t))


@M('map', 'count', 'contains')
def _(E, F, this, a, ax):
    b = NE(m_find(E, this, E.load(keyloc(E, a[0]))), E.NULL)
    return b if F['n'] == 'contains' else E.toint(b)


@M('map', 'at', )
def _(E, F, this, a, ax):
    o = m_find(E, this, E.load(keyloc(E, a[0])))
    if not E.br(NE(o, E.NULL)):
        raise CppThrow(None, 'std::out_of_range')
    m = E.load(this)
    return HLoc(o, E.P.targ(m.t, 1))


@M('map', 'operator[]')
def _(E, F, this, a, ax):
    m = E.load(this)
    if len(a) != 1:
        raise Unsupported('unordered_map::operator[]')
    it, ins = m_emplace_common(E, this, None, [a[0]], ax)
    return HLoc(it.o, E.P.targ(m.t, 1))


@M('map', 'size')
def _(E, F, this, a, ax):
    return E.load(this).size


@M('map', 'empty')
def _(E, F, this, a, ax):
    return EQ(E.load(this).size, 0)


@M('map', 'clear')
def _(E, F, this, a, ax):
    m_clear(E, this)


@M('map', 'hash_function')
def _(E, F, this, a, ax):
    return E.load(this).hash


@M('map', 'key_eq')
def _(E, F, this, a, ax):
    return E.load(this).eq


@M('map', 'reserve', 'rehash', 'max_load_factor')
def _(E, F, this, a, ax):
    m = E.load(this)
    E.st.mem[this.id] = m.upd(iseq=None, ipos=None)


@M('map', 'bucket_count', 'load_factor')
def _(E, F, this, a, ax):
    return E.th.fresh('bc', E.th.I)


def _pairresult(E, rt, it, ins):
    loc = E.newrec(rt)
    rv = E.st.mem[loc.id].with_('first', E.cell(it)).with_('second', E.cell(ins))
    E.st.mem[loc.id] = rv
    return loc


@M('map', 'emplace', 'try_emplace')
def _(E, F, this, a, ax):
    if len(a) == 3 and E.P.kind(F['params'][0]['t']) == 'unit':
        # piecewise construction
        kt, vt = E.load(a[1]), E.load(a[2])
        m = E.load(this)
        kargs = kt.items
        if len(kargs) != 1:
            raise Unsupported('piecewise key')
        it, ins = m_emplace_common(E, this, None, [kargs[0]] + list(vt.items), None)
        return _pairresult(E, F['ret'], it, ins)
    if len(a) == 1 and isinstance(a[0], HLoc) and E.P.kind(a[0].t) == 'heap':
        return METHODS[('map', 'insert')](E, F, this, a, ax)
    it, ins = m_emplace_common(E, this, None, a, ax, only_if_absent=F['n'] == 'try_emplace')
    return _pairresult(E, F['ret'], it, ins)


@M('map', 'insert')
def _(E, F, this, a, ax):
    if len(a) != 1:
        raise Unsupported('unordered_map::insert')
    p = a[0]
    m = E.load(this)
    nt = node_type(E, m.t)
    if not isinstance(p, HLoc):
        raise Unsupported('unordered_map::insert argument')
    kl = E.member(p, 'first', E.P.targ(m.t, 0))
    vl = E.member(p, 'second', E.P.targ(m.t, 1))
    it, ins = m_emplace_common(E, this, None, [kl, vl], [None, None])
    return _pairresult(E, F['ret'], it, ins)


@M('map', 'erase')
def _(E, F, this, a, ax):
    m = E.load(this)
    x = a[0]
    v = x if isinstance(x, (MapIt,)) else (E.val(x) if isinstance(x, Cell) and not isinstance(x, RefCellLoc) else None)
    if len(a) == 2:
        f, g = E.val(a[0]), E.val(a[1])
        if not (isinstance(f, MapIt) and isinstance(g, MapIt) and E.prove(AND(EQ(f.o, m_begin(E, this)), EQ(g.o, E.NULL)))):
            raise Unsupported('range erase')
        m_clear(E, this)
        return MapIt(E.NULL, this, node_type(E, m.t))
    if isinstance(v, MapIt):
        o = v.o
        E.oblige(EQ(E.st.own(o), m.tok), 'the iterator erased refers to an element of this map')
        it = None
        if m.iseq is not None:
            nxt = m_next(E, this, o)
            m_remove(E, this, o)
            return MapIt(nxt, this, node_type(E, m.t))
        if E.P.kind(F['ret']) == 'mapit':
            # only materialise the iteration order when the result is used
            m_remove(E, this, o)
            return MapIt(E.th.fresh('erased_next', E.th.Obj), this, node_type(E, m.t))
        m_remove(E, this, o)
        return None
    o = m_find(E, this, E.load(keyloc(E, a[0])))
    if E.br(NE(o, E.NULL)):
        m_remove(E, this, o)
        return 1
    return 0


@M('map', 'swap')
def _(E, F, this, a, ax):
    swap_locs(E, this, a[0])


@M('map', 'operator=')
def _(E, F, this, a, ax):
    src = a[0]
    if isinstance(src, Cell) and src.id == this.id:
        return this
    m, s = E.load(this), E.load(src)
    if F.get('moveassign'):
        m_destroy(E, m)
        E.st.mem[this.id] = s
        E.st.mem[src.id] = s.upd(tok=E.newtok(), at=Clo(lambda c: E.NULL), size=0, iseq=None, ipos=None)
        return this
    m_destroy(E, m)
    at = m_copy(E, s, m.tok)
    E.st.mem[this.id] = MapV(m.tok, at, s.size, s.hash, s.eq, m.t)
    return this


# ---- map with concrete keys
def conc_get(E, this, key):
    d = E.load(this).d
    return ConcIt(key, d[key]) if key in d else ConcIt(None)


def conc_pair(E, it):
    E.oblige(it.key is not None, 'map iterator dereferenced refers to a stored element')
    c = E.cell(None, 'pair')
    E.st.mem[c.id] = RecV(None, None, {'first': E.cell(it.key), 'second': it.h})
    return c


@M('cmap', 'find')
def _(E, F, this, a, ax):
    return conc_get(E, this, E.val(a[0]))


@M('cmap', 'end', 'cend')
def _(E, F, this, a, ax):
    return ConcIt(None)


@M('cmap', 'count', 'contains')
def _(E, F, this, a, ax):
    b = conc_get(E, this, E.val(a[0])).key is not None
    return b if F['n'] == 'contains' else int(b)


@M('cmap', 'size')
def _(E, F, this, a, ax):
    return len(E.load(this).d)


@M('cmap', 'empty')
def _(E, F, this, a, ax):
    return not E.load(this).d


@M('cmap', 'at')
def _(E, F, this, a, ax):
    it = conc_get(E, this, E.val(a[0]))
    if it.key is None:
        raise CppThrow(None, 'std::out_of_range')
    return it.h


@M('cmap', 'emplace', 'try_emplace', 'insert_or_assign')
def _(E, F, this, a, ax):
    if len(a) not in (1, 2):
        raise Unsupported('emplace')
    key = E.val(a[0])
    it = conc_get(E, this, key)
    new = it.key is None
    if new or F['n'] == 'insert_or_assign':
        v = E.val(a[1]) if len(a) == 2 else NULLP
        if not isinstance(v, Ptr) and v is not NULLP:
            raise Unsupported('emplace')
        if new:
            d = dict(E.load(this).d)
            d[key] = E.cell(v, 'heapcell')
            E.st.mem[this.id] = ConcMap(d)
            it = ConcIt(key, d[key])
        else:
            E.store(it.h, v)
        if isinstance(a[1] if len(a) == 2 else None, Cell) and is_move(ax[1]):
            E.store(a[1], NULLP)
    c = E.cell(None, 'pair')
    E.st.mem[c.id] = RecV(None, None, {'first': E.cell(it), 'second': E.cell(new)})
    return c


@M('cmap', 'operator[]')
def _(E, F, this, a, ax):
    key = E.val(a[0])
    cm = E.load(this)
    if key not in cm.d:
        d = dict(cm.d)
        d[key] = E.cell(NULLP, 'heapcell')
        E.st.mem[this.id] = ConcMap(d)
        cm = E.st.mem[this.id]
    return cm.d[key]


# ---- map iterators
@M('mapit', 'operator->')
def _(E, F, this, a, ax):
    it = E.load(this)
    if isinstance(it, ConcIt):
        return Ptr(conc_pair(E, it))
    E.oblige(LT(0, E.st.own(it.o)), 'map iterator dereferenced refers to a stored element')
    return PObj(it.o, it.t or node_of_it(E, F))


@M('mapit', 'operator*')
def _(E, F, this, a, ax):
    it = E.load(this)
    if isinstance(it, ConcIt):
        return conc_pair(E, it)
    E.oblige(LT(0, E.st.own(it.o)), 'map iterator dereferenced refers to a stored element')
    return HLoc(it.o, it.t or node_of_it(E, F))


def node_of_it(E, F):
    return E.P.refd(E.P.ty(F['ret'])['to']) if E.P.ty(F['ret'])['k'] in ('ptr', 'lref') else None


@M('mapit', 'operator++')
def _(E, F, this, a, ax):
    it = E.load(this)
    E.oblige(LT(0, E.st.own(it.o)), 'map iterator incremented refers to a stored element')
    c = find_mapcell(E, it)
    E.oblige(EQ(E.st.own(it.o), E.load(c).tok), 'map iterator incremented refers to a stored element')
    n = MapIt(m_next(E, c, it.o), c, it.t)
    E.store(this, n)
    return this if not a else it


@M('mapit', 'operator=')
@M('listit', 'operator=')
@M('vecit', 'operator=')
@M('dur', 'operator=')
@M('tp', 'operator=')
@M('func', 'operator=')
def _(E, F, this, a, ax):
    E.store(this, E.val(a[0]))
    return this


@M('func', 'operator bool')
def _(E, F, this, a, ax):
    return True


# ---- list
def LM(*names):
    return M('list', *names)


@LM('begin', 'cbegin')
def _(E, F, this, a, ax):
    return LIt(l_begin(E, this), this)


@LM('end', 'cend')
def _(E, F, this, a, ax):
    return LIt(E.load(this).end, this)


@LM('size')
def _(E, F, this, a, ax):
    return E.load(this).size


@LM('empty')
def _(E, F, this, a, ax):
    return EQ(E.load(this).size, 0)


@LM('front', 'back')
def _(E, F, this, a, ax):
    l = E.load(this)
    E.oblige(LT(0, l.size), 'front/back of a non-empty list')
    return RefCellLoc(l.seq(Z(0) if F['n'] == 'front' else l.size - 1))


@LM('emplace_back', 'push_back')
def _(E, F, this, a, ax):
    n = l_append(E, this, keyloc(E, a[0]).o)
    return RefCellLoc(n)


@LM('emplace_front', 'push_front')
def _(E, F, this, a, ax):
    n = l_insert(E, this, Z(0), keyloc(E, a[0]).o)
    return RefCellLoc(n)


@LM('insert', 'emplace')
def _(E, F, this, a, ax):
    it = E.val(a[0])
    l = E.load(this)
    E.oblige(OR(EQ(it.n, l.end), EQ(E.st.ownL(it.n), l.tok)), 'insert position is of this list')
    if E.br(EQ(it.n, l.end)):
        n = l_append(E, this, keyloc(E, a[1]).o)
    else:
        n = l_insert(E, this, l.pos(it.n), keyloc(E, a[1]).o)
    return LIt(n, this)


@LM('pop_back', 'pop_front')
def _(E, F, this, a, ax):
    l = E.load(this)
    E.oblige(LT(0, l.size), 'pop of a non-empty list')
    l_remove(E, this, l.seq(Z(0) if F['n'] == 'pop_front' else l.size - 1))


@LM('erase')
def _(E, F, this, a, ax):
    if len(a) == 2:
        return l_erase_range(E, this, E.val(a[0]), E.val(a[1]))
    it = E.val(a[0])
    l_check(E, this, it.n, 'the element to erase')
    nxt = l_next(E, this, it.n)
    l_remove(E, this, it.n)
    return LIt(nxt, this)


@LM('clear')
def _(E, F, this, a, ax):
    l = E.load(this)
    l_destroy(E, l)
    end = l.end
    E.st.mem[this.id] = l.upd(seq=Clo(lambda i: end), pos=Clo(lambda n: Z(0)), size=0)


@LM('splice')
def _(E, F, this, a, ax):
    if len(a) != 3 or E.P.kind(F['params'][2]['t']) != 'listit':
        raise Unsupported('splice overload')
    other = a[1]
    if not (isinstance(other, Cell) and other.id == this.id):
        raise Unsupported('splice from another list')
    l_splice1(E, this, E.val(a[0]).n, E.val(a[2]).n)


@LM('swap')
def _(E, F, this, a, ax):
    swap_locs(E, this, a[0])


@LM('operator=')
def _(E, F, this, a, ax):
    src = a[0]
    if isinstance(src, Cell) and src.id == this.id:
        return this
    l, s = E.load(this), E.load(src)
    l_destroy(E, l)
    if F.get('moveassign'):
        E.st.mem[this.id] = s
        E.st.mem[src.id] = new_list(E, s.t)
        return this
    seq, pos = l_copy(E, s, l.tok)
    E.st.mem[this.id] = ListV(l.tok, seq, pos, s.size, l.end, l.t)
    return this


# ---- list iterators
@M('listit', 'operator*', 'operator->')
def _(E, F, this, a, ax):
    it = E.load(this)
    E.oblige(LT(0, E.st.ownL(it.n)), 'list iterator dereferenced refers to a stored element')
    r = RefCellLoc(it.n)
    return r if F['n'] == 'operator*' else Ptr(r)


@M('listit', 'operator++')
def _(E, F, this, a, ax):
    it = E.load(this)
    E.oblige(LT(0, E.st.ownL(it.n)), 'list iterator incremented refers to a stored element')
    c = find_listcell(E, it)
    E.store(this, LIt(l_next(E, c, it.n), c))
    return this if not a else it


@M('listit', 'operator--')
def _(E, F, this, a, ax):
    it = E.load(this)
    c = find_listcell(E, it)
    l = E.load(c)
    E.oblige(ITE(EQ(it.n, l.end), LT(0, l.size), AND(EQ(E.st.ownL(it.n), l.tok), LT(0, l.pos(it.n)))), 'list iterator decremented is not at the beginning')
    E.store(this, LIt(l_prev(E, c, it.n), c))
    return this if not a else it


# ---- reference_wrapper
@M('refw', '*')
def _(E, F, this, a, ax):
    n = F['n']
    if n == 'get' or n.startswith('operator const') or n.startswith('operator ') or F.get('conv'):
        o = E.st.ref(this.n) if isinstance(this, RefCellLoc) else E.load(this).o
        return HLoc(o, E.P.refd(F['ret']))
    if n == 'operator=':
        src = a[0]
        o = E.st.ref(src.n) if isinstance(src, RefCellLoc) else E.val(src).o
        if isinstance(this, RefCellLoc):
            E.oblige(LT(0, E.st.ownL(this.n)), 'list element written is stored')
            setref(E, this.n, o)
        else:
            E.store(this, RefW(o))
        return this
    raise Unsupported('reference_wrapper::' + n)


# ---- vector, initializer_list
@M('vec', 'begin', 'cbegin', 'data')
def _(E, F, this, a, ax):
    return VIt(E.load(this), 0)


@M('vec', 'end', 'cend')
def _(E, F, this, a, ax):
    v = E.load(this)
    return VIt(v, v.len)


@M('vec', 'size')
def _(E, F, this, a, ax):
    return E.load(this).len


@M('vec', 'empty')
def _(E, F, this, a, ax):
    return EQ(E.load(this).len, 0)


@M('vec', 'clear')
def _(E, F, this, a, ax):
    v = E.load(this)
    E.store(this, VecV(0, v.elem, v.et, v.id, v.eidx))


@M('vec', 'emplace_back', 'push_back')
def _(E, F, this, a, ax):
    v = E.load(this)
    if E.P.kind(v.et) != 'func':
        raise Unsupported('emplace_back of ' + E.P.s(v.et))
    f = E.val(a[0])
    if not isinstance(f, FnV):
        raise Unsupported('callback value')
    el, n = v.elem, v.len
    E.store(this, VecV(v.len + 1, Clo(lambda i: ITE(EQ(i, n), f.f, el(i))), v.et, v.id))
    return E.cell(f)


@M('vec', 'operator=')
def _(E, F, this, a, ax):
    src = a[0]
    v = E.val(src)
    if isinstance(src, Cell) and src.id == this.id:
        return this
    E.store(this, v)
    if F.get('moveassign'):
        E.store(src, VecV(0, v.elem, v.et, v.id, v.eidx))
    return this


@M('vec', 'swap')
def _(E, F, this, a, ax):
    swap_locs(E, this, a[0])


@M('vec', 'operator[]', 'at')
def _(E, F, this, a, ax):
    return vec_at(E, VIt(E.load(this), E.val(a[0])))


@M('vec', 'reserve')
def _(E, F, this, a, ax):
    return None


@M('vecit', 'operator*')
def _(E, F, this, a, ax):
    return vec_at(E, E.load(this))


@M('vecit', 'operator->')
def _(E, F, this, a, ax):
    return E.addr(vec_at(E, E.load(this)))


@M('vecit', 'operator++')
def _(E, F, this, a, ax):
    it = E.load(this)
    E.store(this, VIt(it.vec, it.idx + 1))
    return this if not a else it


@M('vecit', 'operator--')
def _(E, F, this, a, ax):
    it = E.load(this)
    E.store(this, VIt(it.vec, it.idx - 1))
    return this if not a else it


# ---- function
@M('func', 'operator()')
def _(E, F, this, a, ax):
    f = E.load(this)
    if not isinstance(f, FnV):
        raise Unsupported('call of function')
    args = []
    for p, x in zip(F['params'], a):
        k = E.P.kind(p['t'])
        if k in ('K', 'KT'):
            args.append(('K', E.load(x)))
        elif k == 'V':
            args.append(('V', E.load(x)))
        else:
            args.append(('b', E.tobool(E.val(x))))
    E.st.trace.append(Seg(1, f.f, 'cb', tuple(args)))
    return None


# ---- smart pointers
def _ptrmethods(k):
    @M(k, 'operator bool')
    def _(E, F, this, a, ax):
        return E.tobool(E.load(this))

    @M(k, 'get')
    def _(E, F, this, a, ax):
        return E.load(this)

    @M(k, 'operator->')
    def _(E, F, this, a, ax):
        p = E.load(this)
        E.deref(p)
        return p

    @M(k, 'operator*')
    def _(E, F, this, a, ax):
        return E.deref(E.load(this))

    @M(k, 'reset')
    def _(E, F, this, a, ax):
        if k == 'uptr':
            p = E.load(this)
            if isinstance(p, Ptr):
                E.kill(p.loc)
        E.store(this, E.val(a[0]) if a else NULLP)

    @M(k, 'release')
    def _(E, F, this, a, ax):
        p = E.load(this)
        E.store(this, NULLP)
        return p

    @M(k, 'swap')
    def _(E, F, this, a, ax):
        swap_locs(E, this, a[0])

    @M(k, 'use_count')
    def _(E, F, this, a, ax):
        raise Unsupported('use_count')

    @M(k, 'operator=')
    def _(E, F, this, a, ax):
        src = a[0]
        v = E.val(src)
        if isinstance(src, Cell) and src.id == this.id:
            return this
        if k == 'uptr':
            p = E.load(this)
            if isinstance(p, Ptr):
                E.kill(p.loc)
        E.store(this, v)
        if (F.get('moveassign') or (ax and is_move(ax[0]))) and isinstance(src, (Cell, HLoc)) and v is not NULLP:
            E.store(src, NULLP)
        return this


_ptrmethods('uptr')
_ptrmethods('sptr')


@M('uptr', 'has_value')
def _(E, F, this, a, ax):
    return E.tobool(E.load(this))


# ---- pair, tuple, unit
@M('unit', '*')
def _(E, F, this, a, ax):
    if F['n'] == 'operator=':
        return this
    raise Unsupported('method ' + F['qn'])


@M('pair', 'operator=')
def _(E, F, this, a, ax):
    raise Unsupported('pair assignment')


@M('tuple', 'operator=')
def _(E, F, this, a, ax):
    """Assignment through std::tie from a pair or a tuple."""
    t, v = E.load(this), E.load(a[0])
    if not isinstance(t, TupV):
        raise Unsupported('tuple assignment')
    src = list(v.items) if isinstance(v, TupV) else [v.fields[n] for n in ('first', 'second') if n in v.fields] if isinstance(v, RecV) else []
    if len(src) != len(t.items):
        raise Unsupported('tuple assignment')
    new = []
    for x, y in zip(t.items, src):
        if not isinstance(x, Cell) or not isinstance(y, Cell) or isinstance(E.load(y), RecV) or isinstance(x, HLoc) or isinstance(y, HLoc):
            raise Unsupported('tuple assignment')
        new.append((x, E.load(y)))
    for x, y in new:
        E.store(x, y)
    return this


# ---- free functions
def swap_locs(E, x, y, t=None):
    if isinstance(x, Cell) and isinstance(y, Cell):
        a, b = E.st.mem[x.id], E.st.mem[y.id]
        if isinstance(a, RecV) and isinstance(b, RecV):
            # std::swap: by the class's own move operations
            tmp = copy_value(E, a.t, x, True)
            assign_value(E, a.t, x, y)
            assign_value(E, a.t, y, tmp)
            return
        if x.id == y.id:
            return
        a, b = E.load(x), E.load(y)
        if isinstance(a, ListV) and isinstance(b, ListV):
            a, b = a.upd(end=b.end), b.upd(end=a.end)
        E.store(x, b)
        E.store(y, a)
        return
    if isinstance(x, HLoc):
        a, b = E.load(x), E.load(y)
        E.store(x, b)
        E.store(y, a)
        return
    raise Unsupported('swap')


def assign_value(E, t, dst, src):
    """dst = std::move(src) for a class type."""
    rec = E.P.ty(E.P.refd(t))['rec']
    best = None
    for m in E.P.members(rec):
        F = E.P.F[m]
        if F['n'] != 'operator=' or F.get('deleted') or len(F['params']) != 1 or F.get('body') is None:
            continue
        pt = F['params'][0]['t']
        if E.P.ty(E.P.refd(pt)).get('rec') != rec or F.get('rec') != rec:
            continue
        if best is None or E.P.is_rref(pt):
            best = m
    if best is None:
        raise Unsupported('assignment of ' + E.P.s(t))
    E.inline(best, dst, [src])


@Fn('forward', 'move', 'std::forward', 'as_const', 'addressof_')
def _(E, F, a, ax):
    return a[0]


@Fn('std::swap', 'swap')
def _(E, F, a, ax):
    x, y = a
    swap_locs(E, x, y)


@Fn('addressof')
def _(E, F, a, ax):
    return E.addr(a[0])


@Fn('ref', 'cref')
def _(E, F, a, ax):
    return RefW(keyloc(E, a[0]).o)


@Fn('begin', 'cbegin')
def _(E, F, a, ax):
    return range_end(E, F, a[0], False)


@Fn('end', 'cend')
def _(E, F, a, ax):
    return range_end(E, F, a[0], True)


def range_end(E, F, c, end):
    v = E.val(c)
    if isinstance(v, VecV):
        return VIt(v, v.len if end else 0)
    if isinstance(v, MapV):
        return METHODS[('map', 'end' if end else 'begin')](E, F, c, [], None)
    if isinstance(v, ListV):
        return METHODS[('list', 'end' if end else 'begin')](E, F, c, [], None)
    raise Unsupported('std::begin/end')


@Fn('size')
def _(E, F, a, ax):
    v = E.val(a[0])
    return v.len if isinstance(v, VecV) else v.size


@Fn('distance')
def _(E, F, a, ax):
    x, y = E.val(a[0]), E.val(a[1])
    if isinstance(x, VIt):
        return y.idx - x.idx
    if isinstance(x, LIt):
        c = find_listcell(E, x)
        l = E.load(c)
        return l_pos(E, l, y.n) - l_pos(E, l, x.n)
    if isinstance(x, ConcIt):
        raise Unsupported('iterator arithmetic')
    if isinstance(x, MapIt):
        c = find_mapcell(E, x)
        m = map_iter(E, E.load(c), c)
        p = lambda o: ITE(EQ(o, E.NULL), m.size, m.ipos(o))
        return p(y.o) - p(x.o)
    raise Unsupported('distance')


@Fn('prev', 'next')
def _(E, F, a, ax):
    it = E.val(a[0])
    d = 1
    if len(a) > 1:
        d = E.val(a[1])
        if z3.is_expr(d):
            raise Unsupported('prev/next distance')
    if F['n'] == 'prev':
        d = -d
    if isinstance(it, VIt):
        return VIt(it.vec, it.idx + d)
    c = E.cell(it)
    k = 'listit' if isinstance(it, LIt) else 'mapit'
    for _ in range(abs(d)):
        METHODS[(k, 'operator++' if d > 0 else 'operator--')](E, F, c, [], None)
    return E.load(c)


@Fn('advance')
def _(E, F, a, ax):
    c, d = a[0], E.val(a[1])
    it = E.load(c)
    if isinstance(it, VIt):
        E.store(c, VIt(it.vec, it.idx + d))
        return None
    if z3.is_expr(d):
        d = z3.simplify(d)
        if not z3.is_int_value(d):
            raise Unsupported('advance distance')
        d = d.as_long()
    if not isinstance(it, (LIt, MapIt)) or abs(d) > 8:
        raise Unsupported('advance')
    k = 'listit' if isinstance(it, LIt) else 'mapit'
    for _ in range(abs(d)):
        METHODS[(k, 'operator++' if d > 0 else 'operator--')](E, F, c, [], None)
    return None


@Fn('operator==', 'operator!=', '__detail::operator==', '__detail::operator!=', 'operator>', 'operator<', 'operator<=', 'operator>=',
    'LRUvf::operator==', 'LRUvf::operator!=')
def _(E, F, a, ax):
    n = F['n']
    x, y = a
    kx = E.P.kind(F['params'][0]['t'])
    if kx in ('K', 'KT'):
        k1, k2 = E.load(keyloc(E, x)), E.load(keyloc(E, y))
        r = EQ(E.th.cls(E.th.stdeq, k1), E.th.cls(E.th.stdeq, k2))
        return r if n == 'operator==' else NOT(r)
    if kx == 'V':
        r = EQ(E.th.vcls(E.load(x)), E.th.vcls(E.load(y)))
        return r if n == 'operator==' else NOT(r)
    if kx in ('dur', 'tp'):
        t0, t1 = F['params'][0]['t'], F['params'][1]['t']
        a_, b_ = E.val(x), E.val(y)
        a_, b_ = dur_common(E, a_, t0, b_, t1)
        return E.compare(n[8:], a_, b_)
    if kx in ('sptr', 'uptr', 'ptr') or E.P.kind(F['params'][1]['t']) in ('sptr', 'uptr'):
        return E.compare(n[8:], E.val(x), E.val(y))
    if kx in ('mapit', 'listit', 'vecit'):
        return E.compare(n[8:], E.val(x), E.val(y))
    if kx == 'map':
        r = map_equal(E, x, y)
        return r if n == 'operator==' else NOT(r)
    if kx == 'refw':
        k1, k2 = E.load(HLoc(refo(E, x), None)), E.load(HLoc(refo(E, y), None))
    if kx == 'heap':
        raise Unsupported('pair comparison')
    raise Unsupported('operator on ' + E.P.s(F['params'][0]['t']))


def refo(E, x):
    return E.st.ref(x.n) if isinstance(x, RefCellLoc) else E.val(x).o


def dur_common(E, a, t0, b, t1):
    """Both in the unit of their common type (exact)."""
    n0, d0 = ratio(E, tp_dur(E, t0))
    n1, d1 = ratio(E, tp_dur(E, t1))
    if (n0, d0) == (n1, d1):
        return a, b
    # compare in the finer unit, as reals to stay exact
    def real(x):
        x = Z(x)
        return z3.ToReal(x) if z3.is_int(x) else x
    return real(a) * z3.Q(n0, d0), real(b) * z3.Q(n1, d1)


@Fn('operator-', 'operator+')
def _(E, F, a, ax):
    k0, k1 = E.P.kind(F['params'][0]['t']), E.P.kind(F['params'][1]['t'])
    if k0 in ('dur', 'tp') and k1 in ('dur', 'tp'):
        t0, t1 = F['params'][0]['t'], F['params'][1]['t']
        x, y = E.val(a[0]), E.val(a[1])
        rt = tp_dur(E, F['ret'])
        x, y = dur_convert(E, x, t0, rt), dur_convert(E, y, t1, rt)
        x, y = Z(x), Z(y)
        return x - y if F['n'] == 'operator-' else x + y
    if k0 == 'unit' or k1 == 'unit':
        return UNIT
    if k0 == 'vecit' and k1 == 'vecit':
        return E.val(a[0]).idx - E.val(a[1]).idx
    raise Unsupported('operator ' + F['n'])


@Fn('duration_cast')
def _(E, F, a, ax):
    return dur_convert(E, E.val(a[0]), F['params'][0]['t'], F['ret'])


@Fn('steady_clock::now', 'now')
def _(E, F, a, ax):
    return now(E)


@Fn('make_shared', 'make_unique')
def _(E, F, a, ax):
    ta = [x['type'] for x in [y for x in F['targs'] for y in (x['pack'] if 'pack' in x else [x])] if 'type' in x]
    t = ta[0]
    if E.P.kind(t) == 'cmap':
        return Ptr(E.cell(ConcMap({}), 'heapcell'))
    if E.P.kind(t) != 'rec':
        raise Unsupported('make_shared of ' + E.P.s(t))
    rec = E.P.ty(E.P.refd(t))['rec']
    if not a:
        for c in E.P.ctors(rec):
            if E.P.F[c].get('defctor') and not E.P.F[c]['params'] and not E.P.F[c].get('deleted'):
                loc = E.construct(t, c, [])
                break
        else:
            raise Unsupported('default constructor')
    else:
        # same-type argument: copy or move
        a0 = a[0]
        v = E.st.mem.get(a0.id) if isinstance(a0, Cell) else None
        if len(a) == 1 and isinstance(v, RecV) and v.rec == rec:
            loc = copy_value(E, t, a0, is_move(ax[0]))
        else:
            c = best_ctor(E, rec, a, ax)
            args = []
            for p, x in zip(E.P.F[c]['params'], a):
                args.append(x)
            for p in E.P.F[c]['params'][len(a):]:
                args.append(E.eval(p['def']))
            loc = E.construct(t, c, args)
    E.heapcell(loc)
    return Ptr(loc)


def best_ctor(E, rec, args, ax):
    c = None
    for m in E.P.ctors(rec):
        F = E.P.F[m]
        if F.get('deleted') or F.get('copyctor') or F.get('movector') or (F.get('body') is None and not F.get('inits')):
            continue
        if len(F['params']) < len(args) or any('def' not in p for p in F['params'][len(args):]):
            continue
        if all(tmatch(E, p['t'], x) for p, x in zip(F['params'], args)):
            # prefer the first match with matching reference categories
            if c is None:
                c = m
    if c is None:
        raise Unsupported('constructor overload')
    return c


@Fn('forward_as_tuple', 'tie')
def _(E, F, a, ax):
    return E.cell(TupV([E.loc(x) for x in a], F['ret']), 'tuple')


@Fn('make_tuple')
def _(E, F, a, ax):
    t = E.P.refd(F['ret'])
    if E.P.kind(t) == 'KT':
        return maketup(E, t, a, ax)
    ts = [x['type'] for x in E.P.targs(t)]
    items = []
    for et, x in zip(ts, a):
        items.append(E.fieldinit(et, copy_value(E, et, x, False)) if isinstance(x, (Cell, HLoc)) else E.cell(x))
    return E.cell(TupV(items, t), 'tuple')


@Fn('make_pair')
def _(E, F, a, ax):
    t = F['ret']
    if E.P.kind(t) == 'heap':
        o = E.newobj('pair')
        for i, nm in enumerate(('first', 'second')):
            et = E.P.targ(t, i)
            fk = E.P.kind(et)
            if fk in ('K', 'V', 'KT'):
                E.store(E.member(HLoc(o, t), nm, et), E.load(E.loc(a[i])))
                if ax and is_move(ax[i]) and isinstance(a[i], HLoc):
                    E.moved_from(a[i], 'V' if fk == 'V' else 'K')
            elif i:
                construct_second(E, et, o, [a[i]], [ax[i] if ax else None])
            else:
                raise Unsupported('make_pair')
        return HLoc(o, t)
    raise Unsupported('make_pair')


def tupelem(E, loc, i):
    et = E.P.targs(loc.t)[i]['type']
    v = E.untup(E.load(loc), i, E.th.VV if E.P.kind(et) == 'V' else E.th.KV)
    return E.tmpobj('V' if E.P.kind(et) == 'V' else 'K', v, et)


@Fn('get')
def _(E, F, a, ax):
    i = None
    for x in F['targs']:
        if 'int' in x:
            i = int(x['int'])
            break
    if isinstance(a[0], HLoc):
        # element of an opaque tuple
        et = E.P.targs(a[0].t)[i]['type']
        if E.P.kind(a[0].t) != 'KT' or not E.P.ty(E.P.refd(F['ret'])).get('const'):
            raise Unsupported('std::get')
        return tupelem(E, a[0], i)
    v = E.load(a[0])
    if not isinstance(v, TupV):
        raise Unsupported('std::get')
    return v.items[i]


@Fn('max', 'min')
def _(E, F, a, ax):
    x, y = E.val(a[0]), E.val(a[1])
    if F['n'] == 'max':
        return a[1] if E.br(E.compare('<', x, y)) else a[0]
    return a[1] if E.br(E.compare('<', y, x)) else a[0]


@Fn('exchange')
def _(E, F, a, ax):
    v = E.load(a[0])
    E.store(a[0], E.val(a[1]))
    return v


@Fn('__assert_fail')
def _(E, F, a, ax):
    E.oblige(False, 'assertion holds')
    raise PathEnd()


@Fn('abort', 'terminate', 'std::terminate')
def _(E, F, a, ax):
    E.oblige(False, 'program is not terminated')
    raise PathEnd()


@Fn('static_pointer_cast')
def _(E, F, a, ax):
    return E.val(a[0])


def callable_of(E, a):
    """Caller for a function object argument of an algorithm."""
    rv = E.load(a)
    if isinstance(rv, RecV):
        for m in reversed(E.P.R[rv.rec].get('methods', [])):
            if E.P.F[m]['n'] == 'operator()' and E.P.F[m].get('body'):
                if 'captures' in E.P.R[rv.rec]:
                    return lambda *xs: E.call_lambda(a, m, list(xs))
    raise Unsupported('function object of an algorithm')


def it_kind(x):
    for c, k in ((VIt, 'vecit'), (LIt, 'listit'), (MapIt, 'mapit')):
        if isinstance(x, c) and (k, 'operator*') in METHODS and (k, 'operator++') in METHODS:
            return k
    raise Unsupported('iterator of an algorithm')


def algorithm(E, F, first, last, step, extra=()):
    """for (; it != last; ++it) if (step(*it)) break;  Returns the cell of it.
    `extra` are pairs (cell, method) of iterators advanced with it."""
    import loops
    v = E.val(first)
    k = it_kind(v)
    cell, last = E.cell(v), E.val(last)

    def body():
        if step(METHODS[(k, 'operator*')](E, {'n': 'operator*'}, cell, [], None)):
            raise Brk()

    def inc():
        METHODS[(k, 'operator++')](E, F, cell, [], None)
        for c in extra:
            METHODS[(it_kind(E.load(c)), 'operator++')](E, F, c, [], None)
    loops.run(E, lambda: NOT(E.equal(E.load(cell), last)), body, inc, F)
    return cell, last


def truth(E, v):
    return E.br(E.tobool(E.val(v)))


@Fn('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not')
def _(E, F, a, ax):
    call = callable_of(E, a[2])
    stop = F['n'] not in ('all_of', 'find_if_not')
    if E.nobranch:
        raise NeedBranch()
    cell, last = algorithm(E, F, a[0], a[1], lambda x: truth(E, call(x)) == stop)
    if F['n'].startswith('find'):
        return E.load(cell)
    r = E.equal(E.load(cell), last)
    return NOT(r) if F['n'] == 'any_of' else r


@Fn('for_each')
def _(E, F, a, ax):
    call = callable_of(E, a[2])
    if E.nobranch:
        raise NeedBranch()
    algorithm(E, F, a[0], a[1], lambda x: (call(x), False)[1])
    return E.val(a[2])


@Fn('count_if')
def _(E, F, a, ax):
    call = callable_of(E, a[2])
    if E.nobranch:
        raise NeedBranch()
    n = E.cell(0)

    def step(x):
        if truth(E, call(x)):
            E.store(n, E.load(n) + 1)
        return False
    algorithm(E, F, a[0], a[1], step)
    return E.load(n)


@Fn('accumulate')
def _(E, F, a, ax):
    if len(a) != 4:
        raise Unsupported('std::accumulate without operation')
    call = callable_of(E, a[3])
    if E.nobranch:
        raise NeedBranch()
    n = E.cell(E.val(a[2]))

    def step(x):
        E.store(n, E.val(call(E.load(n), x)))
        return False
    algorithm(E, F, a[0], a[1], step)
    return E.load(n)


@Fn('mismatch')
def _(E, F, a, ax):
    raise Unsupported('algorithm ' + F['n'])


def formula(E, thunk):
    """Boolean result of thunk as a formula over the current path condition.
    Everything the evaluation assumes is kept inside."""
    n0 = len(E.st.pc)
    out = []

    def run():
        v = thunk()
        out.append(AND(AND(*E.st.pc[n0:]), E.tobool(E.val(v))))
        return None
    E.explore(run)
    return OR(*out)


def map_equal(E, x, y):
    """unordered_map::operator==: same size and each element of x has an
    element of y with an equivalent key that compares equal."""
    th = E.th
    m1, m2 = E.load(x), E.load(y)
    if m1 is m2:
        return True
    nt = node_type(E, m1.t)
    c = th.fresh('mc', th.C)
    o1 = m1.at(c)
    if E.nobranch:
        raise NeedBranch()

    def thunk():
        E.assume(NE(o1, E.NULL))
        k1 = E.keyof(o1)
        o2 = m2.at(th.cls(m2.eq, k1))
        if not E.br(NE(o2, E.NULL)):
            return False
        if not E.br(EQ(th.cls(th.stdeq, k1), th.cls(th.stdeq, E.keyof(o2)))):
            return False
        st = E.P.targ(m1.t, 1)
        return second_equal(E, st, o1, o2)
    f = formula(E, thunk)
    body = IMP(NE(o1, E.NULL), f)
    q = th.fresh_forall(c, body, [m1.at(c)])
    return AND(EQ(m1.size, m2.size), q)


def second_equal(E, t, o1, o2):
    k = E.P.kind(t)
    if k != 'heap':
        raise Unsupported('mapped type comparison')
    rec = E.P.ty(E.P.refd(t))['rec']
    for m in E.P.methods(rec, 'operator=='):
        F = E.P.F[m]
        if len(F['params']) == 1:
            return E.inline(m, HLoc(o1, E.P.refd(t)), [HLoc(o2, E.P.refd(t))])
    raise Unsupported('no operator== for mapped type')


@Fn('equal')
def _(E, F, a, ax):
    th = E.th
    if E.nobranch:
        raise NeedBranch()
    its = [E.val(x) for x in a[:4]] if len(a) >= 4 else None
    if its is None or not all(isinstance(i, LIt) for i in its):
        raise Unsupported('std::equal overload')
    c1, c2 = find_listcell(E, its[0]), find_listcell(E, its[2])
    l1, l2 = E.load(c1), E.load(c2)
    p = [l_pos(E, l1, its[0].n), l_pos(E, l1, its[1].n), l_pos(E, l2, its[2].n), l_pos(E, l2, its[3].n)]
    i = th.fresh('ei', th.I)
    n1, n2 = p[1] - p[0], p[3] - p[2]
    pred = a[4] if len(a) > 4 else None
    if pred is not None:
        pf = None
        rv = E.load(pred)
        for m in E.P.R[rv.rec].get('methods', []):
            if E.P.F[m]['n'] == 'operator()' and E.P.F[m].get('body'):
                pf = m

    def thunk():
        E.assume(AND(LE(0, i), LT(i, n1)))
        x, y = RefCellLoc(l1.seq(p[0] + i)), RefCellLoc(l2.seq(p[2] + i))
        if pred is None:
            return EQ(E.th.cls(E.th.stdeq, E.load(HLoc(refo(E, x), None))), 0)
        return E.call_lambda(pred, pf, [x, y])
    if pred is None:
        raise Unsupported('std::equal without predicate')
    f = formula(E, thunk)
    q = th.fresh_forall(i, IMP(AND(LE(0, i), LT(i, n1)), f), [l1.seq(p[0] + i), l2.seq(p[2] + i)])
    return AND(EQ(n1, n2), q)
