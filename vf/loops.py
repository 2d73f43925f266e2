"""Loops: invariants are inferred from templates and then proved.

For a loop reached on a path, the state it may modify is found by running the
body on an arbitrary state, everything modified is replaced by arbitrary
values, and the largest subset of the candidate invariants that holds on entry
and is preserved by the body is assumed (Houdini). Entry and preservation are
obligations like any other. `it` counts completed iterations.
"""
import z3
from theory import *
from interp import *
import stdlib

PROVE_MS = 1500
UNROLL = 12


def same(a, b):
    if a is b:
        return True
    if isinstance(a, MapV) and isinstance(b, MapV):
        return a.tok == b.tok and a.at is b.at and is_true(EQ(Z(a.size), Z(b.size))) and is_true(EQ(a.eq, b.eq)) and \
            is_true(EQ(a.hash, b.hash)) and (a.iseq is b.iseq or a.iseq is None or b.iseq is None)
    if isinstance(a, ListV) and isinstance(b, ListV):
        return a.tok == b.tok and a.seq is b.seq and a.pos is b.pos and is_true(EQ(Z(a.size), Z(b.size)))
    if isinstance(a, VecV) and isinstance(b, VecV):
        return a.elem is b.elem and is_true(EQ(Z(a.len), Z(b.len)))
    if isinstance(a, RecV) and isinstance(b, RecV):
        return a.rec == b.rec and a.fields.keys() == b.fields.keys() and all(sameh(a.fields[n], b.fields[n]) for n in a.fields)
    if isinstance(a, LIt) and isinstance(b, LIt):
        return is_true(EQ(a.n, b.n))
    if isinstance(a, MapIt) and isinstance(b, MapIt):
        return is_true(EQ(a.o, b.o))
    if isinstance(a, VIt) and isinstance(b, VIt):
        return a.vec.id == b.vec.id and is_true(EQ(Z(a.idx), Z(b.idx)))
    if isinstance(a, (RefW, PObj)) and type(a) is type(b):
        return is_true(EQ(a.o, b.o))
    if isinstance(a, FnV) and isinstance(b, FnV):
        return is_true(EQ(a.f, b.f))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return sameh(a.loc, b.loc)
    if type(a) is type(b) and isinstance(a, (bool, int, float)):
        return a == b
    if z3.is_expr(a) or z3.is_expr(b):
        if isinstance(a, (bool, int, float)) or isinstance(b, (bool, int, float)) or (z3.is_expr(a) and z3.is_expr(b)):
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() != b.sort():
                return False
            return is_true(EQ(Z(a), Z(b)))
    return False


def sameh(a, b):
    if a is b:
        return True
    if isinstance(a, Cell) and isinstance(b, Cell):
        return a.id == b.id and a.id != -1
    if isinstance(a, HLoc) and isinstance(b, HLoc):
        return a.o.eq(b.o) and a.leaf == b.leaf
    return False


class Mods:
    def __init__(self):
        self.cells, self.leaves = set(), set()
        self.own = self.ref = self.ownL = self.now = False
        self.trace = None
        self.shape = {}
        self.ghost = False
        self.types = {}

    def key(self):
        return (len(self.cells), len(self.leaves), self.own, self.ref, self.ownL, self.now, self.trace is not None, self.ghost)


def snapshot(E):
    """Everything needed to return to this point of the path."""
    return (E.st, E.pos, list(E.decs), list(E.frames), [(f, dict(f.env), list(f.cells)) for f in E.frames], list(E.temps))


def run(E, cond, body, inc, s):
    E.nloop += 1
    def oneiter():
        try:
            E.inloop += 1
            body()
        except Cont:
            pass
        finally:
            E.inloop -= 1
        if inc:
            inc()
    # concrete unrolling
    n = 0
    while True:
        c = concrete(E, cond)
        if c is None or n > UNROLL:
            break
        cond()
        if not c:
            return
        n += 1
        try:
            oneiter()
        except Brk:
            return
    import bulk
    bulk.enter(E)
    S0 = E.st
    ncell = max(S0.mem) if S0.mem else 0
    line = E.line
    key = (id(s), tuple(E.decs[:E.pos]), E.nloop)
    mods, keepnames, variant = E.loopcache.get(key, (None, None, None))
    nfresh = E.th.n
    if mods is None:
        mods = modified(E, cond, oneiter, S0)
        cands = candidates(E, S0, mods, cond, oneiter)
        keepnames = houdini(E, cond, oneiter, S0, mods, cands)
        E.loopcache[key] = (mods, keepnames, None)
        E.th.n = nfresh
        if not E.mute:
            E.loopinfo.append((line, E.frames[-1].fn if E.frames else None, sorted(keepnames)))
    cands = [c for c in candidates(E, S0, mods, cond, oneiter) if c[0] in keepnames]
    if variant is None and not E.mute:
        nfresh = E.th.n
        variant = find_variant(E, cond, oneiter, S0, mods, cands)
        E.loopcache[key] = (mods, keepnames, variant)
        E.th.n = nfresh
    zero = z3.IntVal(0)
    for name, f in cands:
        E.oblige(f(S0, zero), 'loop invariant holds on entry: ' + name, 'loop')
    it, hv = havoc(E, mods, S0)
    exact = trivial(mods)
    if not exact:
        E.st.taint = 'loop at line %d' % line
    bulk.head(E, it, keepnames, mods.ghost)
    for name, f in cands:
        E.assume(f(E.st, it))
    defn = list(hv)
    meas = dict(measures(E, S0, mods)).get(variant, lambda st: None)
    m0 = meas(E.st)
    if E.br(cond()):
        tr = len(E.st.trace)
        try:
            oneiter()
        except Brk:
            if mods.trace:
                raise Unsupported('break in a loop that calls')
            return
        E.oblige(decreases(m0, meas(E.st)), 'the loop terminates: %s decreases' % variant if variant else 'the loop terminates', 'loop')
        if mods.trace:
            sg, want = E.st.trace[tr], E.st.trace[tr - 1]
            E.oblige(AND(EQ(sg.fn, want.fn(it)), *[EQ(x[1], y[1]) for x, y in zip(sg.args, want.args)]), 'loop invariant is preserved: calls made', 'loop')
        for cid, f in defn:
            E.oblige(f(E.st, it + 1), 'loop invariant is preserved: index', 'loop')
        for name, f in cands:
            E.oblige(f(E.st, it + 1), 'loop invariant is preserved: ' + name, 'loop')
        raise PathEnd()
    E.assume(LE(0, it))


def trivial(m):
    return not (m.own or m.ref or m.ownL or m.leaves) and all(k == 'vit' for k in m.shape.values())


def concrete(E, cond):
    """Truth value of the condition if it needs no assumption."""
    snap = E.st
    E.st = snap.copy()
    frames = [(f, dict(f.env), list(f.cells)) for f in E.frames]
    temps, ncell, nobs = list(E.temps), E.ncell, len(E.obs)
    E.nobranch += 1
    E.mute += 1
    try:
        v = cond()
        v = E.known(v) if z3.is_expr(v) else (bool(v) if v is not None else None)
    except NeedBranch:
        v = None
    finally:
        E.nobranch -= 1
        E.mute -= 1
        E.st = snap
        E.temps = temps
        E.ncell = ncell
        for f, e, c in frames:
            f.env, f.cells = e, c
    return v


def isolate(E, thunk):
    """Explore thunk without recording obligations."""
    nl = E.nloop
    E.mute += 1
    try:
        return E.explore(thunk)
    finally:
        E.mute -= 1
        E.nloop = nl


# ------------------------------------------------------------------ what a loop modifies
def modified(E, cond, oneiter, S0):
    mods = Mods()
    for _ in range(8):
        k0 = mods.key()
        heads = []

        def thunk():
            it, hv = havoc(E, mods, S0, quiet=True)
            head = E.st.copy()
            c = cond()
            if not E.br(c):
                raise PathEnd()
            try:
                oneiter()
            except (Brk, Ret, CppThrow):
                raise PathEnd()
            return head, E.st
        for head, st in isolate(E, thunk):
            diff(E, S0, head, st, mods)
        if mods.key() == k0:
            return mods
    raise Unsupported('loop modifies too much')


def diff(E, S0, a, b, mods):
    for cid in S0.mem:
        if cid in S0.dead:
            continue
        x, y = a.mem[cid], b.mem.get(cid, a.mem[cid])
        if not same(x, y):
            x0 = S0.mem[cid]
            if isinstance(y, RecV) or isinstance(x0, RecV):
                raise Unsupported('loop replaces a record')
            mods.cells.add(cid)
            k = shape(x0, y)
            if k is None:
                raise Unsupported('loop modifies %r' % (x0,))
            mods.shape[cid] = k
            if isinstance(y, PObj):
                mods.types[cid] = (y.t, y.leaf)
    for leaf in b.heap:
        fa = a.heap.get(leaf) or E.heap0.get(leaf)
        if b.heap[leaf] is not fa:
            mods.leaves.add(leaf)
    mods.own |= a.own is not b.own
    mods.ref |= a.ref is not b.ref
    mods.ownL |= a.ownL is not b.ownL
    mods.now |= not (a.now is b.now)
    mods.ghost |= a.ghost.get('gv') is not b.ghost.get('gv')
    if len(b.trace) != len(a.trace):
        suf = b.trace[len(a.trace):]
        if len(suf) != 1 or not is_true(EQ(Z(suf[0].n), 1)):
            raise Unsupported('calls in a loop')
        mods.trace = 'calls'
    elif mods.trace:
        raise Unsupported('calls on some iterations only')


def shape(x0, y):
    if isinstance(y, VIt):
        return 'vit' if isinstance(x0, VIt) else None
    for c, k in ((LIt, 'lit'), (MapIt, 'mapit'), (MapV, 'map'), (ListV, 'list'), (VecV, 'vec'), (FnV, 'fn'), (RefW, 'refw')):
        if isinstance(y, c):
            return k if isinstance(x0, c) else None
    if isinstance(y, PObj):
        return 'pobj' if isinstance(x0, PObj) or x0 is NULLP else None
    if y is NULLP:
        return 'pobj' if isinstance(x0, PObj) else None
    if isinstance(y, (bool, int, float)) or z3.is_expr(y):
        if isinstance(x0, (bool, int, float)) or z3.is_expr(x0):
            a, b = Z(x0).sort(), Z(y).sort()
            if a == b:
                return 'scalar'
    return None


# ------------------------------------------------------------------ arbitrary loop head
def havoc(E, mods, S0, quiet=False):
    """Current state := S0 with everything modified made arbitrary (but well
    formed). Returns the iteration counter and definitional invariants."""
    th = E.th
    st = E.st
    it = th.fresh('it', th.I)
    E.assume(LE(0, it))
    defs = []
    if mods.now:
        t = th.fresh('now', th.I)
        E.assume(LE(st.now, t))
        st.now = t
    if mods.own:
        st.own = th.fn('own', th.Obj, th.I)
        E.assume(EQ(st.own(E.NULL), 0))
    if mods.ownL:
        st.ownL = th.fn('ownL', th.LN, th.I)
        for cid, v in S0.mem.items():
            if isinstance(v, ListV) and cid not in S0.dead:
                E.assume(EQ(st.ownL(v.end), -7))
    if mods.ref:
        st.ref = th.fn('ref', th.LN, th.Obj)
    sorts = {'K': th.KV, 'V': th.VV}
    for leaf in mods.leaves:
        f = S0.heap.get(leaf) or E.heap0[leaf]
        rs = Z(f(E.NULL)).sort()
        st.heap[leaf] = th.fn('h_' + leaf, th.Obj, rs)
    maps = []
    for cid in sorted(mods.cells):
        x = S0.mem[cid]
        k = mods.shape[cid]
        c = Cell(cid)
        if k == 'vit':
            d = Z(x.idx) + it
            st.mem[cid] = VIt(x.vec, d)
            defs.append((cid, (lambda cid, x: lambda st, i: EQ(Z(st.mem[cid].idx), Z(x.idx) + i) if isinstance(st.mem[cid], VIt) else False)(cid, x)))
        elif k == 'lit':
            st.mem[cid] = LIt(th.fresh('lit', th.LN), x.hint)
        elif k == 'mapit':
            st.mem[cid] = MapIt(th.fresh('mit', th.Obj), x.hint, x.t)
        elif k == 'pobj':
            t, lf = mods.types.get(cid) or (x.t, x.leaf)
            st.mem[cid] = PObj(th.fresh('p', th.Obj), t, lf)
        elif k == 'refw':
            st.mem[cid] = RefW(th.fresh('rw', th.Obj), x.t)
        elif k == 'fn':
            st.mem[cid] = FnV(th.fresh('fn', th.Fn))
        elif k == 'scalar':
            st.mem[cid] = th.fresh('x', Z(x).sort())
        elif k == 'map':
            maps.append(cid)
            m = x.upd(at=th.fn('at', th.C, th.Obj), size=th.fresh('msize', th.I))
            if x.iseq is not None:
                m = m.upd(iseq=th.fn('iseq', th.I, th.Obj), ipos=th.fn('ipos', th.Obj, th.I))
            st.mem[cid] = m
        elif k == 'list':
            st.mem[cid] = x.upd(seq=th.fn('seq', th.I, th.LN), pos=th.fn('pos', th.LN, th.I), size=th.fresh('lsize', th.I))
        elif k == 'vec':
            n = th.fresh('vlen', th.I)
            E.assume(LE(0, n))
            v = Z(x.elem(z3.IntVal(0))).sort()
            st.mem[cid] = VecV(n, th.fn('velem', th.I, v), x.et, -5)
    # standard-library well-formedness of everything that changed
    if mods.own or 'K' in mods.leaves or maps:
        for cid, v in st.mem.items():
            if isinstance(v, MapV) and cid not in st.dead:
                for f in stdlib.map_wf(E, st, v):
                    E.assume(f)
                if cid in maps and v.iseq is not None:
                    E.assume(iter_wf(E, st, v))
    for cid, v in st.mem.items():
        if isinstance(v, ListV) and cid not in st.dead and (mods.ownL or cid in mods.cells):
            for f in stdlib.list_wf(E, st, v):
                E.assume(f)
    if mods.trace and not quiet:
        generalise_trace(E, mods, S0, it)
    elif mods.trace:
        pass
    st.ghost = dict(st.ghost)
    return it, defs


def iter_wf(E, st, m):
    th = E.th
    own, iseq, ipos = st.own, m.iseq, m.ipos
    return [th.forall([th.I], lambda i: IMP(AND(LE(0, i), LT(i, m.size)), AND(EQ(own(iseq(i)), m.tok), EQ(ipos(iseq(i)), i))), lambda i: [iseq(i)]),
            th.forall([th.Obj], lambda o: IMP(EQ(own(o), m.tok), AND(LE(0, ipos(o)), LT(ipos(o), m.size), EQ(iseq(ipos(o)), o))),
                      lambda o: [ipos(o), own(o)])]


def generalise_trace(E, mods, S0, it):
    """mods.trace holds, after the first head, a function from iteration
    number to the call made."""
    g = mods.trace
    if g == 'calls':
        return
    t, fn, kind, args = g
    cl = Clo(lambda i: z3.substitute(Z(fn), (t, Z(i))))
    E.st.trace = E.st.trace + [Seg(it, cl, kind, args)]


def consts(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        for c in t.children():
            consts(c, out, seen)


# ------------------------------------------------------------------ inference
def houdini(E, cond, oneiter, S0, mods, cands):
    zero = z3.IntVal(0)
    live = []
    for name, f in cands:
        g = f(S0, zero)
        if E.prove(g, PROVE_MS):
            live.append((name, f))
    for rnd in range(12):
        bad = set()
        res = []

        def thunk():
            n0 = E.th.n
            it, defs = havoc(E, mods, S0)
            import bulk
            bulk.head(E, it, {n for n, _ in live}, mods.ghost)
            for name, f in live:
                E.assume(f(E.st, it))
            ntr = len(E.st.trace)
            c = cond()
            if not E.br(c):
                raise PathEnd()
            try:
                oneiter()
            except (Brk, Ret, CppThrow):
                raise PathEnd()
            if mods.trace == 'calls':
                sg = E.st.trace[ntr]
                for k, a in sg.args:
                    names = set()
                    if z3.is_expr(a):
                        consts(a, names, set())
                    if any('!' in x and int(x.split('!')[1]) > n0 for x in names):
                        raise Unsupported('calls in a loop with changing arguments')
                res.append((it, sg.fn, sg.kind, sg.args))
            for cid, f in defs:
                if not E.prove(f(E.st, it + 1), PROVE_MS):
                    raise Unsupported('loop does not step its index by one')
            goals = [(name, f(E.st, it + 1)) for name, f in live if name not in bad]
            if goals and not E.prove(AND(*[g for _, g in goals]), 2 * PROVE_MS):
                for name, g in goals:
                    if not E.prove(g, PROVE_MS):
                        bad.add(name)
        isolate(E, thunk)
        if mods.trace == 'calls':
            if not res:
                raise Unsupported('calls in a loop')
            g = res[0]
            names = set()
            for it2, fn2, k2, a2 in res[1:]:
                if not z3.substitute(Z(fn2), (it2, g[0])).eq(Z(g[1])) or k2 != g[2] or len(a2) != len(g[3]) or \
                        not all(x[0] == y[0] and is_true(EQ(x[1], y[1])) for x, y in zip(a2, g[3])):
                    raise Unsupported('calls in a loop differ')
            mods.trace = g
            continue
        if not bad:
            break
        live = [(n, f) for n, f in live if n not in bad]
    return {n for n, _ in live}


# ------------------------------------------------------------------ termination
def decreases(a, b):
    if a is None or b is None:
        return False
    return AND(LE(0, a), LT(b, a))


def measures(E, S0, mods):
    """Candidate variants: (name, state -> integer term or None)."""
    out = []
    scal = []
    for cid in sorted(mods.cells):
        x, k = S0.mem[cid], mods.shape[cid]
        if k == 'vit':
            for c2, y in S0.mem.items():
                if isinstance(y, VIt) and c2 not in mods.cells and c2 not in S0.dead and y.vec.id == x.vec.id:
                    out.append(('index %d - index %d' % (c2, cid), lambda st, cid=cid, y=y: Z(y.idx) - Z(st.mem[cid].idx)))
            out.append(('length - index %d' % cid, lambda st, cid=cid: Z(st.mem[cid].vec.len) - Z(st.mem[cid].idx)))
            out.append(('index %d' % cid, lambda st, cid=cid: Z(st.mem[cid].idx)))
        elif k in ('lit', 'mapit'):
            for c2, y in S0.mem.items():
                if c2 in S0.dead or (x.hint is not None and x.hint.id != c2):
                    continue
                if k == 'lit' and isinstance(y, ListV):
                    pos = lambda st, cid=cid, c2=c2: Z(stdlib.l_pos(E, st.mem[c2], st.mem[cid].n))
                elif k == 'mapit' and isinstance(y, MapV) and y.iseq is not None:
                    pos = lambda st, cid=cid, c2=c2: Z(ITE(EQ(st.mem[cid].o, E.NULL), Z(st.mem[c2].size), st.mem[c2].ipos(st.mem[cid].o)))
                else:
                    continue
                out.append(('elements of %d from iterator %d' % (c2, cid), lambda st, c2=c2, pos=pos: Z(st.mem[c2].size) - pos(st)))
                out.append(('elements of %d before iterator %d' % (c2, cid), lambda st, pos=pos: pos(st)))
        elif k in ('map', 'list'):
            out.append(('size of %d' % cid, lambda st, cid=cid: Z(st.mem[cid].size)))
        elif k == 'scalar' and z3.is_int(Z(x)):
            scal.append(cid)
    ints = scope_ints(E, S0, mods)
    sizes = [('size of %d' % c, Z(v.size)) for c, v in S0.mem.items() if isinstance(v, (MapV, ListV)) and c not in S0.dead and c not in mods.cells] + \
        [('length of %d' % c, Z(v.len)) for c, v in S0.mem.items() if isinstance(v, VecV) and c not in S0.dead and c not in mods.cells]
    for cid in scal:
        out.append(('x%d' % cid, lambda st, cid=cid: Z(st.mem[cid])))
        for nm, iv in ints + sizes:
            out.append(('%s - x%d' % (nm, cid), lambda st, cid=cid, iv=iv: Z(iv) - Z(st.mem[cid])))
            out.append(('x%d - %s' % (cid, nm), lambda st, cid=cid, iv=iv: Z(st.mem[cid]) - Z(iv)))
    return out


def find_variant(E, cond, oneiter, S0, mods, cands):
    """The first candidate that decreases on every path through the body."""
    import bulk
    keep = {n for n, _ in cands}
    for name, m in measures(E, S0, mods):
        ok = [True]

        def thunk():
            if not ok[0]:
                raise PathEnd()
            it, defs = havoc(E, mods, S0)
            bulk.head(E, it, keep, mods.ghost)
            for n, f in cands:
                E.assume(f(E.st, it))
            m0 = m(E.st)
            if not E.br(cond()):
                raise PathEnd()
            try:
                oneiter()
            except (Brk, Ret, CppThrow):
                raise PathEnd()
            if not E.prove(decreases(m0, m(E.st)), PROVE_MS):
                ok[0] = False
        try:
            isolate(E, thunk)
        except Unsupported:
            return ''
        if ok[0]:
            return name
    return ''


# ------------------------------------------------------------------ candidates
def scope_ints(E, S0, mods):
    """Unmodified integer variables in scope (locals and fields of this)."""
    out = []
    seen = set()

    def add(h, name):
        if isinstance(h, Cell) and h.id >= 0 and h.id not in mods.cells and h.id not in seen and h.id in S0.mem:
            v = S0.mem[h.id]
            if (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v)):
                seen.add(h.id)
                out.append((name, v))
            elif isinstance(v, RecV) and name == 'this':
                for n, x in v.fields.items():
                    add(x, n)
    fr = E.frames[-1]
    for v, h in fr.env.items():
        add(h, 'v%d' % v)
    if fr.this is not None:
        add(fr.this, 'this')
    return out


def caches_of(E, st):
    """(cell id, View) of every live cache or statistics object."""
    import view
    out = []
    for cid, v in list(st.mem.items()):
        if isinstance(v, RecV) and cid not in st.dead:
            ks = [E.P.kind(f['t']) for f in E.P.all_fields(v.rec)]
            if 'map' in ks and 'list' in ks:
                try:
                    R = view.getroles(E, v.rec)
                except Unsupported:
                    continue
                # inside a base-class constructor only the base's members exist
                if all(isinstance(v.fields.get(f['n']), Cell) and st.mem.get(v.fields[f['n']].id) is not UNINIT for f in E.P.all_fields(v.rec)):
                    out.append((cid, v.rec))
    return out


def passed(E, S0, mods, cond, oneiter):
    """For a loop that only advances iterators: the condition under which an
    iteration completes, as a predicate over the iteration number. (What a
    search loop knows after n iterations is that none of them left the loop.)"""
    if mods.own or mods.ref or mods.ownL or mods.leaves or mods.now or mods.trace or mods.ghost or not mods.cells:
        return None
    th = E.th
    seqs = []
    its = {}
    for cid in sorted(mods.cells):
        x, k = S0.mem[cid], mods.shape[cid]
        if k == 'vit' and x.vec.id not in mods.cells:
            its[cid] = lambda i, x=x: VIt(x.vec, Z(x.idx) + i)
            seqs.append((Z(x.idx), x.vec.elem))
        elif k == 'lit' and x.hint is not None and isinstance(S0.mem.get(x.hint.id), ListV):
            l = S0.mem[x.hint.id]
            p0 = stdlib.l_pos(E, l, x.n)
            its[cid] = lambda i, x=x, l=l, p0=p0: LIt(ITE(EQ(p0 + i, Z(l.size)), l.end, l.seq(p0 + i)), x.hint)
            seqs.append((p0, l.seq))
        elif k == 'mapit' and x.hint is not None and isinstance(S0.mem.get(x.hint.id), MapV) and S0.mem[x.hint.id].iseq is not None:
            m = S0.mem[x.hint.id]
            p0 = ITE(EQ(x.o, E.NULL), Z(m.size), m.ipos(x.o))
            its[cid] = lambda i, x=x, m=m, p0=p0: MapIt(ITE(EQ(p0 + i, Z(m.size)), E.NULL, m.iseq(p0 + i)), x.hint, x.t)
            seqs.append((p0, m.iseq))
        else:
            return None
    n0 = E.th.n
    v = th.fresh('pi', th.I)
    out = []

    def thunk():
        for cid, g in its.items():
            E.st.mem[cid] = g(v)
        E.assume(LE(0, v))
        n1 = len(E.st.pc)
        try:
            if not E.br(cond()):
                return
            oneiter()
        except (Brk, Ret, CppThrow):
            return
        out.append(AND(*E.st.pc[n1:]))
    try:
        isolate(E, thunk)
    except Unsupported:
        return None
    f = OR(*out)
    if not z3.is_expr(f):
        return None
    names = set()
    consts(f, names, set())
    if any('!' in x and int(x.split('!')[1]) > n0 for x in names if x != v.decl().name()):
        return None
    p0, sq = seqs[0]
    return lambda it: th.forall([th.I], lambda i: IMP(AND(LE(p0, i), LT(i, p0 + it)), z3.substitute(f, (v, z3.simplify(i - p0)))),
                                lambda i: [q(i) for p, q in seqs if EQ(p, p0) is True or p is p0])


def candidates(E, S0, mods, cond=None, oneiter=None):
    import view, bulk
    th = E.th
    out = []

    def c(name, f):
        out.append((name, f))
    S0own, S0ownL, S0ref = S0.own, S0.ownL, S0.ref
    ints = scope_ints(E, S0, mods)
    maps = [(cid, v) for cid, v in S0.mem.items() if isinstance(v, MapV) and cid not in S0.dead]
    lists = [(cid, v) for cid, v in S0.mem.items() if isinstance(v, ListV) and cid not in S0.dead]
    sizes = [('msize%d' % cid, cid, v.size, lambda st, cid=cid: Z(st.mem[cid].size)) for cid, v in maps if cid in mods.cells] + \
            [('lsize%d' % cid, cid, v.size, lambda st, cid=cid: Z(st.mem[cid].size)) for cid, v in lists if cid in mods.cells]
    scal = []
    for cid in sorted(mods.cells):
        x = S0.mem[cid]
        k = mods.shape[cid]
        if k == 'scalar' and Z(x).sort() == th.I:
            scal.append(('x%d' % cid, cid, x, lambda st, cid=cid: Z(st.mem[cid])))
        elif k == 'scalar':
            c('x%d unchanged' % cid, lambda st, it, cid=cid, x=x: EQ(Z(st.mem[cid]), Z(x)))
    for nm, cid, x0, g in scal + sizes:
        x0 = Z(x0)
        c(nm + ' = start + it', lambda st, it, g=g, x0=x0: EQ(g(st), x0 + it))
        c(nm + ' = start - it', lambda st, it, g=g, x0=x0: EQ(g(st), x0 - it))
        c(nm + ' >= 0', lambda st, it, g=g: LE(0, g(st)))
        c(nm + ' <= start', lambda st, it, g=g, x0=x0: LE(g(st), x0))
        c(nm + ' >= start', lambda st, it, g=g, x0=x0: LE(x0, g(st)))
        for iname, iv in ints:
            if EQ(Z(iv), x0) is True:
                continue
            c('%s >= %s' % (nm, iname), lambda st, it, g=g, iv=iv: OR(EQ(it, 0), LE(Z(iv), g(st))))
            c('%s <= %s' % (nm, iname), lambda st, it, g=g, iv=iv: OR(EQ(it, 0), LE(g(st), Z(iv))))
    for nm, cid, x0, g in scal:
        for nm2, cid2, y0, g2 in scal + sizes:
            if cid2 != cid:
                c('%s + %s' % (nm, nm2), lambda st, it, g=g, g2=g2, s=Z(x0) + Z(y0): EQ(g(st) + g2(st), s))
    # iterators
    vits = [(cid, v) for cid, v in S0.mem.items() if isinstance(v, VIt) and cid not in S0.dead]
    for cid, x in vits:
        if cid in mods.cells:
            for cid2, y in vits:
                if cid2 not in mods.cells and y.vec.id == x.vec.id:
                    c('index %d <= index %d' % (cid, cid2), lambda st, it, cid=cid, y=y: LE(Z(st.mem[cid].idx), Z(y.idx)))
            c('index %d in range' % cid, lambda st, it, cid=cid: LE(Z(st.mem[cid].idx), Z(st.mem[cid].vec.len)))
    for cid in sorted(mods.cells):
        x, k = S0.mem[cid], mods.shape[cid]
        if k == 'mapit':
            mc = x.hint
            if mc is None or not isinstance(S0.mem.get(mc.id), MapV):
                continue
            m = S0.mem[mc.id]
            c('map iterator %d denotes an element or the end' % cid,
              lambda st, it, cid=cid, tok=m.tok: OR(EQ(st.mem[cid].o, E.NULL), EQ(st.own(st.mem[cid].o), tok)))
            if mc.id not in mods.cells and m.iseq is not None:
                p0 = ITE(EQ(x.o, E.NULL), Z(m.size), m.ipos(x.o))
                c('map iterator %d position' % cid,
                  lambda st, it, cid=cid, m=m, p0=p0: AND(LE(p0 + it, Z(m.size)), EQ(st.mem[cid].o, ITE(EQ(p0 + it, Z(m.size)), E.NULL, m.iseq(p0 + it)))))
        if k == 'lit':
            lc = x.hint
            cells = [lc] if lc is not None else [Cell(i) for i, _ in lists]
            for lc in cells:
                l = S0.mem.get(lc.id)
                if not isinstance(l, ListV):
                    continue
                c('list iterator %d denotes an element or the end of %d' % (cid, lc.id),
                  lambda st, it, cid=cid, l=l: OR(EQ(st.mem[cid].n, l.end), EQ(st.ownL(st.mem[cid].n), l.tok)))
                p0 = stdlib.l_pos(E, l, x.n)
                if lc.id not in mods.cells:
                    c('list iterator %d position in %d' % (cid, lc.id),
                      lambda st, it, cid=cid, l=l, p0=p0: AND(LE(p0 + it, Z(l.size)), EQ(st.mem[cid].n, ITE(EQ(p0 + it, Z(l.size)), l.end, l.seq(p0 + it)))))
                    c('list iterator %d position back in %d' % (cid, lc.id),
                      lambda st, it, cid=cid, l=l, p0=p0: AND(LE(it, p0), EQ(st.mem[cid].n, ITE(EQ(p0 - it, Z(l.size)), l.end, l.seq(p0 - it)))))
                else:
                    c('list iterator %d original position in %d' % (cid, lc.id),
                      lambda st, it, cid=cid, l=l, p0=p0: AND(LE(p0 + it, Z(l.size)), EQ(st.mem[cid].n, ITE(EQ(p0 + it, Z(l.size)), l.end, l.seq(p0 + it)))))
    # frames
    mtoks = [v.tok for cid, v in maps if cid in mods.cells]
    ltoks = [v.tok for cid, v in lists if cid in mods.cells]
    qo, qn = [th.Obj], [th.LN]
    if mods.own:
        c('own: only modified maps gain or lose elements',
          lambda st, it: th.forall(qo, lambda o: IMP(AND(*[NE(S0own(o), t) for t in mtoks] + [NE(S0own(o), 0)]), EQ(st.own(o), S0own(o))),
                                   lambda o: [st.own(o), S0own(o)]))
        c('own: the caller\'s objects stay',
          lambda st, it: th.forall(qo, lambda o: IMP(LT(S0own(o), 0), EQ(st.own(o), S0own(o))), lambda o: [st.own(o), S0own(o)]))
        c('own: nothing new', lambda st, it: th.forall(qo, lambda o: OR(EQ(st.own(o), S0own(o)), EQ(st.own(o), 0)), lambda o: [st.own(o), S0own(o)]))
        for cid, v in maps:
            if cid in mods.cells:
                c('map %d only shrinks' % cid, lambda st, it, cid=cid, v=v: th.forall([th.C], lambda x: OR(
                    EQ(st.mem[cid].at(x), v.at(x)), EQ(st.mem[cid].at(x), E.NULL)), lambda x: [st.mem[cid].at(x), v.at(x)]))
    if mods.ownL:
        c('ownL: only modified lists gain or lose elements',
          lambda st, it: th.forall(qn, lambda n: IMP(AND(*[NE(S0ownL(n), t) for t in ltoks] + [NE(S0ownL(n), 0)]), EQ(st.ownL(n), S0ownL(n))),
                                   lambda n: [st.ownL(n), S0ownL(n)]))
        c('ownL: nothing new', lambda st, it: th.forall(qn, lambda n: OR(EQ(st.ownL(n), S0ownL(n)), EQ(st.ownL(n), 0)),
                                                       lambda n: [st.ownL(n), S0ownL(n)]))
    if mods.ref:
        c('ref: unchanged', lambda st, it: th.forall(qn, lambda n: EQ(st.ref(n), S0ref(n)), lambda n: [st.ref(n), S0ref(n)]))
        alll = [v.tok for cid, v in lists]
        c('ref: of foreign nodes unchanged', lambda st, it: th.forall(
            qn, lambda n: IMP(AND(NE(S0ownL(n), 0), *[NE(S0ownL(n), t) for t in alll]), EQ(st.ref(n), S0ref(n))), lambda n: [st.ref(n), S0ref(n)]))
        for t in alll:
            c('ref: list %d unchanged' % t, lambda st, it, t=t: th.forall(qn, lambda n: IMP(EQ(S0ownL(n), t), EQ(st.ref(n), S0ref(n))),
                                                                         lambda n: [st.ref(n), S0ref(n)]))
    for leaf in sorted(mods.leaves):
        f0 = S0.heap.get(leaf) or E.heap0[leaf]
        g = lambda st, leaf=leaf: st.heap[leaf] if leaf in st.heap else E.heap0[leaf]
        c('%s: unchanged' % leaf, lambda st, it, g=g, f0=f0: th.forall(qo, lambda o: EQ(g(st)(o), f0(o)), lambda o: [g(st)(o), f0(o)]))
        c('%s: of existing objects unchanged' % leaf, lambda st, it, g=g, f0=f0: th.forall(
            qo, lambda o: IMP(NE(S0own(o), 0), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
        c('%s: of the caller\'s objects unchanged' % leaf, lambda st, it, g=g, f0=f0: th.forall(
            qo, lambda o: IMP(LT(S0own(o), 0), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
        c('%s: of the caller\'s objects other than the source unchanged' % leaf, lambda st, it, g=g, f0=f0: th.forall(
            qo, lambda o: IMP(AND(LT(S0own(o), 0), NE(S0own(o), -2)), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
        alltoks = sorted(set(v.tok for cid, v in maps))
        c('%s: of foreign objects unchanged' % leaf, lambda st, it, g=g, f0=f0, alltoks=alltoks: th.forall(
            qo, lambda o: IMP(AND(NE(S0own(o), 0), NE(S0own(o), -2), *[NE(S0own(o), t) for t in alltoks]), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
        for t in sorted(set(v.tok for cid, v in maps)):
            c('%s: elements of map %d unchanged' % (leaf, t), lambda st, it, g=g, f0=f0, t=t: th.forall(
                qo, lambda o: IMP(EQ(S0own(o), t), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
        if not any('%s: elements' % leaf == x for x, _ in out):
            c('%s: standalone objects unchanged' % leaf, lambda st, it, g=g, f0=f0: th.forall(
                qo, lambda o: IMP(EQ(S0own(o), -1), EQ(g(st)(o), f0(o))), lambda o: [g(st)(o), f0(o)]))
    # elements of source ranges not reached yet
    for cid, x in vits:
        if cid in mods.cells and x.vec.eidx is not None:
            for leaf in ('K', 'V'):
                if leaf in mods.leaves:
                    f0 = S0.heap.get(leaf) or E.heap0[leaf]
                    c('%s: source elements not reached yet' % leaf, lambda st, it, leaf=leaf, f0=f0, x=x: th.forall(
                        [th.I], lambda i: IMP(AND(LE(Z(x.idx) + it, i), LT(i, Z(x.vec.len))), EQ(st.heap[leaf](x.vec.elem(i)), f0(x.vec.elem(i)))),
                        lambda i: [x.vec.elem(i)]))
            c('source elements alive', lambda st, it, x=x: th.forall(
                [th.I], lambda i: IMP(AND(LE(0, i), LT(i, Z(x.vec.len))), EQ(st.own(x.vec.elem(i)), S0own(x.vec.elem(i)))), lambda i: [x.vec.elem(i)]))
    # invariants of caches
    for cid, rec in caches_of(E, S0):
        cell = Cell(cid)
        v0 = view.View(E, S0, cell, rec)
        touched = any(x.id in mods.cells for x in S0.mem[cid].fields.values()) or v0.mcell.id in mods.cells or v0.lcell.id in mods.cells \
            or mods.own or mods.ownL or mods.ref or v0.R.order in mods.leaves or any(
                h.id in mods.cells for h in S0.mem[v0.lacell.id].fields.values() if isinstance(h, Cell))
        if touched:
            n = len(view.inv(E, v0))
            for i, (p, text, _) in enumerate(view.inv(E, v0)):
                def f(st, it, i=i, cell=cell, rec=rec, n=n):
                    parts = view.inv(E, view.View(E, st, cell, rec))
                    return parts[i][2] if len(parts) == n else False
                c('cache %d: %d %s' % (cid, i, text), f)
        lm, ll = v0.mcell.id in mods.cells, v0.lcell.id in mods.cells
        if ll:
            l0 = v0.l
            k = lambda st: Z(l0.size) - Z(st.mem[v0.lcell.id].size)
            lc = v0.lcell.id
            c('list %d lost a prefix' % lc, lambda st, it, lc=lc, l0=l0, k=k: th.forall(
                [th.I], lambda i: IMP(AND(LE(0, i), LT(i, Z(st.mem[lc].size))), EQ(st.mem[lc].seq(i), l0.seq(i + k(st)))), lambda i: [st.mem[lc].seq(i)]))
            c('list %d lost a prefix: positions' % lc, lambda st, it, lc=lc, l0=l0, k=k: th.forall(
                qn, lambda n: IMP(EQ(st.ownL(n), l0.tok), EQ(st.mem[lc].pos(n), l0.pos(n) - k(st))), lambda n: [st.mem[lc].pos(n), l0.pos(n)]))
            c('list %d keeps its order' % lc, lambda st, it, lc=lc, l0=l0: th.forall(
                [th.LN, th.LN], lambda n, m: IMP(AND(EQ(st.ownL(n), l0.tok), EQ(st.ownL(m), l0.tok), LT(l0.pos(n), l0.pos(m))),
                                                LT(st.mem[lc].pos(n), st.mem[lc].pos(m))),
                lambda n, m: [[st.mem[lc].pos(n), st.mem[lc].pos(m)], [st.ownL(n), st.ownL(m)]]))
            for icid in sorted(mods.cells):
                x = S0.mem[icid]
                if mods.shape[icid] != 'lit' or x.hint is None or x.hint.id != lc:
                    continue
                p0 = stdlib.l_pos(E, l0, x.n)
                c('list %d unchanged behind iterator %d' % (lc, icid), lambda st, it, lc=lc, l0=l0, k=k, p0=p0: th.forall(
                    [th.I], lambda i: IMP(AND(LE(p0 + it - k(st), i), LT(i, Z(st.mem[lc].size))), EQ(st.mem[lc].seq(i), l0.seq(i + k(st)))),
                    lambda i: [st.mem[lc].seq(i)]))
                c('list %d unchanged behind iterator %d: positions' % (lc, icid), lambda st, it, lc=lc, l0=l0, k=k, p0=p0: th.forall(
                    qn, lambda n: IMP(AND(EQ(S0ownL(n), l0.tok), LE(p0 + it, l0.pos(n))),
                                      AND(EQ(st.ownL(n), l0.tok), EQ(st.mem[lc].pos(n), l0.pos(n) - k(st)))),
                    lambda n: [st.mem[lc].pos(n), l0.pos(n)]))
            if lm:
                m0, ord0 = v0.m, v0.orderf
                c('cache %d: exactly the least recently used are gone' % cid, lambda st, it, m0=m0, l0=l0, ord0=ord0, k=k: th.forall(
                    qo, lambda o: IMP(EQ(S0own(o), m0.tok), EQ(EQ(st.own(o), m0.tok), LE(k(st), l0.pos(ord0(o))))), lambda o: [S0own(o)]))
                if v0.timef is not None and v0.R.ttl:
                    tf = v0.timef
                    c('cache %d: removed entries have expired' % cid, lambda st, it, m0=m0, tf=tf, v0=v0: th.forall(
                        qo, lambda o: IMP(AND(EQ(S0own(o), m0.tok), NE(st.own(o), m0.tok)), v0.expt(tf(o), st.now)), lambda o: [S0own(o), st.own(o)]))
                    for icid in sorted(mods.cells):
                        if mods.shape[icid] == 'mapit' and m0.iseq is not None and S0.mem[icid].hint is not None and S0.mem[icid].hint.id == v0.mcell.id:
                            t0 = getattr(E, 't0', S0.now)
                            mc = v0.mcell.id
                            c('cache %d: entries before map iterator %d have not expired' % (cid, icid),
                              lambda st, it, m0=m0, tf=tf, v0=v0, icid=icid, t0=t0, mc=mc: th.forall(
                                  qo, lambda o: IMP(AND(EQ(st.own(o), m0.tok), OR(EQ(st.mem[icid].o, E.NULL), LT(st.mem[mc].ipos(o), st.mem[mc].ipos(st.mem[icid].o)))),
                                                    NOT(v0.expt(tf(o), t0))), lambda o: [st.own(o)]) if st.mem[mc].ipos is not None else False)
                        if mods.shape[icid] == 'lit':
                            t0 = getattr(E, 't0', S0.now)
                            c('cache %d: entries before iterator %d have not expired' % (cid, icid),
                              lambda st, it, m0=m0, l0=l0, tf=tf, v0=v0, ord0=ord0, icid=icid, t0=t0: th.forall(
                                  qo, lambda o: IMP(AND(EQ(st.own(o), m0.tok), OR(EQ(st.mem[icid].n, l0.end), LT(l0.pos(ord0(o)), l0.pos(st.mem[icid].n)))),
                                                    NOT(v0.expt(tf(o), t0))), lambda o: [st.own(o)]))
        if not lm and v0.timef is not None and v0.R.ttl and v0.m.iseq is not None:
            tf, m0 = v0.timef, v0.m
            for icid in sorted(mods.cells):
                if mods.shape[icid] == 'mapit':
                    x = S0.mem[icid]
                    p0 = ITE(EQ(x.o, E.NULL), Z(m0.size), m0.ipos(x.o))
                    c('cache %d: entries passed have expired' % cid, lambda st, it, m0=m0, tf=tf, v0=v0, p0=p0: th.forall(
                        [th.I], lambda j: IMP(AND(LE(p0, j), LT(j, p0 + it)), v0.expt(tf(m0.iseq(j)), st.now)), lambda j: [m0.iseq(j)]))
                    t0 = getattr(E, 't0', S0.now)
                    c('cache %d: entries passed have not expired' % cid, lambda st, it, m0=m0, tf=tf, v0=v0, p0=p0, t0=t0: th.forall(
                        [th.I], lambda j: IMP(AND(LE(p0, j), LT(j, p0 + it)), NOT(v0.expt(tf(m0.iseq(j)), t0))), lambda j: [m0.iseq(j)]))
        if not lm and v0.timef is not None and v0.R.ttl and not ll:
            tf, l0 = v0.timef, v0.l
            for icid in sorted(mods.cells):
                if mods.shape[icid] == 'lit':
                    c('cache %d: list entries passed have expired' % cid, lambda st, it, l0=l0, tf=tf, v0=v0: th.forall(
                        [th.I], lambda j: IMP(AND(LE(0, j), LT(j, it)), v0.expt(tf(v0.ref(l0.seq(j))), st.now)), lambda j: [l0.seq(j)]))
        # counters and flags that say how many of the entries passed have expired
        if not lm and not ll and v0.timef is not None and v0.R.ttl:
            tf, t0 = v0.timef, getattr(E, 't0', S0.now)
            walks = []
            for icid in sorted(mods.cells):
                x = S0.mem[icid]
                if mods.shape[icid] == 'mapit' and v0.m.iseq is not None:
                    walks.append((ITE(EQ(x.o, E.NULL), Z(v0.m.size), v0.m.ipos(x.o)), v0.m.iseq, lambda j: v0.m.iseq(j)))
                elif mods.shape[icid] == 'lit':
                    walks.append((stdlib.l_pos(E, v0.l, x.n), v0.l.seq, lambda j, v0=v0: v0.ref(v0.l.seq(j))))
            flags = [(cid2, S0.mem[cid2]) for cid2 in sorted(mods.cells) if mods.shape[cid2] == 'scalar' and Z(S0.mem[cid2]).sort() == z3.BoolSort()]
            for p0, sq, ob in walks:
                allexp = lambda t, it, p0=p0, sq=sq, ob=ob, tf=tf, v0=v0: th.forall(
                    [th.I], lambda j: IMP(AND(LE(p0, j), LT(j, p0 + it)), v0.expt(tf(ob(j)), t)), lambda j: [sq(j)])
                nonexp = lambda t, it, p0=p0, sq=sq, ob=ob, tf=tf, v0=v0: th.forall(
                    [th.I], lambda j: IMP(AND(LE(p0, j), LT(j, p0 + it)), NOT(v0.expt(tf(ob(j)), t))), lambda j: [sq(j)])
                for nm, xcid, x0, g in scal:
                    x0 = Z(x0)
                    c(nm + ' <= start + it', lambda st, it, g=g, x0=x0: LE(g(st), x0 + it))
                    for w, full, none in (('expired', allexp, nonexp), ('live', nonexp, allexp)):
                        tt = (lambda st: st.now, lambda st, t0=t0: t0)
                        ta, tb = tt if w == 'expired' else tt[::-1]
                        c('cache %d: %s counts every entry passed: all %s' % (cid, nm, w), lambda st, it, g=g, x0=x0, full=full, ta=ta:
                          IMP(EQ(g(st), x0 + it), full(ta(st), it)))
                        c('cache %d: %s counts not every entry passed: not all %s' % (cid, nm, w), lambda st, it, g=g, x0=x0, full=full, tb=tb:
                          IMP(LT(g(st), x0 + it), NOT(full(tb(st), it))))
                        c('cache %d: %s counts no entry passed: none %s' % (cid, nm, w), lambda st, it, g=g, x0=x0, none=none, tb=tb:
                          IMP(EQ(g(st), x0), none(tb(st), it)))
                        c('cache %d: %s counts an entry passed: some %s' % (cid, nm, w), lambda st, it, g=g, x0=x0, none=none, ta=ta:
                          IMP(LT(x0, g(st)), NOT(none(ta(st), it))))
                for fcid, x0 in flags:
                    for val in (True, False):
                        fl = lambda st, fcid=fcid, val=val: Z(st.mem[fcid]) if val else NOT(Z(st.mem[fcid]))
                        c('flag %d %s: all passed have expired' % (fcid, val), lambda st, it, fl=fl, allexp=allexp: IMP(fl(st), allexp(st.now, it)))
                        c('flag %d %s: not all passed have expired' % (fcid, val), lambda st, it, fl=fl, allexp=allexp, t0=t0: IMP(fl(st), NOT(allexp(t0, it))))
                        c('flag %d %s: no passed has expired' % (fcid, val), lambda st, it, fl=fl, nonexp=nonexp, t0=t0: IMP(fl(st), nonexp(t0, it)))
                        c('flag %d %s: some passed has expired' % (fcid, val), lambda st, it, fl=fl, nonexp=nonexp: IMP(fl(st), NOT(nonexp(st.now, it))))
        # re-linking (after a copy)
        if not ll and not lm and (mods.ref or v0.R.order in mods.leaves):
            l0, m0, ol = v0.l, v0.m, v0.R.order
            K0 = S0.heap.get('K') or E.heap0['K']
            ordg = lambda st, ol=ol: st.heap[ol]
            tgt = lambda j, l0=l0, m0=m0, K0=K0: m0.at(th.cls(m0.eq, K0(S0ref(l0.seq(j)))))
            done = lambda j, it: AND(LE(0, j), LT(j, it))
            todo = lambda j, it, l0=l0: AND(LE(it, j), LT(j, Z(l0.size)))
            c('cache %d: relinked references' % cid, lambda st, it, l0=l0, tgt=tgt: th.forall(
                [th.I], lambda j: IMP(done(j, it), EQ(st.ref(l0.seq(j)), tgt(j))), lambda j: [l0.seq(j)]))
            c('cache %d: relinked entries' % cid, lambda st, it, l0=l0, tgt=tgt, ordg=ordg: th.forall(
                [th.I], lambda j: IMP(done(j, it), EQ(ordg(st)(tgt(j)), l0.seq(j))), lambda j: [l0.seq(j)]))
            c('cache %d: references not reached yet' % cid, lambda st, it, l0=l0: th.forall(
                [th.I], lambda j: IMP(todo(j, it), EQ(st.ref(l0.seq(j)), S0ref(l0.seq(j)))), lambda j: [l0.seq(j)]))
            c('cache %d: references of other lists' % cid, lambda st, it, l0=l0: th.forall(
                qn, lambda n: IMP(NE(S0ownL(n), l0.tok), EQ(st.ref(n), S0ref(n))), lambda n: [st.ref(n)]))
            o0 = S0.heap.get(ol) or E.heap0[ol]
            c('cache %d: entries of other maps' % cid, lambda st, it, m0=m0, o0=o0, ordg=ordg: th.forall(
                qo, lambda o: IMP(NE(S0own(o), m0.tok), EQ(ordg(st)(o), o0(o))), lambda o: [ordg(st)(o)]))
    # counters in maps (statistics)
    hp = lambda st, lf: st.heap.get(lf) or E.heap0[lf]
    ileaves = [lf for lf in sorted(mods.leaves) if Z((hp(S0, lf))(E.NULL)).sort() == th.I]
    for cid, m0 in maps:
        if cid not in mods.cells and m0.iseq is not None:
            for icid in sorted(mods.cells):
                if mods.shape[icid] != 'mapit':
                    continue
                x = S0.mem[icid]
                for lf in ileaves:
                    f0 = hp(S0, lf)
                    c('%s: 0 in elements passed of %d' % (lf, cid), lambda st, it, lf=lf, m0=m0: th.forall(
                        [th.I], lambda j: IMP(AND(LE(0, j), LT(j, it)), EQ(hp(st, lf)(m0.iseq(j)), 0)), lambda j: [m0.iseq(j)]))
                    c('%s: elements of %d not reached yet' % (lf, cid), lambda st, it, lf=lf, m0=m0, f0=f0: th.forall(
                        [th.I], lambda j: IMP(AND(LE(it, j), LT(j, Z(m0.size))), EQ(hp(st, lf)(m0.iseq(j)), f0(m0.iseq(j)))), lambda j: [m0.iseq(j)]))
                    c('%s: other objects than those of %d' % (lf, cid), lambda st, it, lf=lf, m0=m0, f0=f0: th.forall(
                        qo, lambda o: IMP(NE(S0own(o), m0.tok), EQ(hp(st, lf)(o), f0(o))), lambda o: [hp(st, lf)(o)]))
    # maps filled from a range of keys
    for cid, m0 in maps:
        if cid in mods.cells and is_true(EQ(Z(m0.size), 0)):
            for icid, x in vits:
                if icid not in mods.cells or E.P.kind(x.vec.et) not in ('K',):
                    continue
                K0 = S0.heap.get('K') or E.heap0['K']
                kc = lambda i, x=x, m0=m0, K0=K0: th.cls(m0.eq, K0(x.vec.elem(i)))
                c('map %d holds every key passed' % cid, lambda st, it, cid=cid, x=x, kc=kc: th.forall(
                    [th.I], lambda i: IMP(AND(LE(Z(x.idx), i), LT(i, Z(x.idx) + it)), NE(st.mem[cid].at(kc(i)), E.NULL)), lambda i: [x.vec.elem(i)]))
                for lf in ileaves:
                    c('%s: 0 in elements of %d' % (lf, cid), lambda st, it, lf=lf, m0=m0: th.forall(
                        qo, lambda o: IMP(EQ(st.own(o), m0.tok), EQ(hp(st, lf)(o), 0)), lambda o: [st.own(o)]))
    f = passed(E, S0, mods, cond, oneiter)
    if f is not None:
        c('every iteration so far completed', lambda st, it, f=f: f(it))
    bulk.candidates(E, S0, mods, scal, c)
    if bulk.active(E) and mods.ghost:
        # insertions at their contract: candidates about loops that only remove are of no use
        no = ('nothing new', 'lost a prefix', 'keeps its order', '= start - it', 'only shrinks', 'exactly the least recently used', 'order: ', 'ref: unchanged',
              'of existing objects unchanged', 'K: unchanged', 'V: unchanged', 'Size', ' + ', 'size', 'elements of map')
        out = [(n, f) for n, f in out if 'foreign' in n or n.startswith('cache ') and 'exactly the least' not in n or not any(x in n for x in no)]
    return out
