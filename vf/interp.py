"""Symbolic execution of the extracted program.

One run follows one path; `explore` re-runs with recorded decisions until all
paths are done. Heap objects of the opaque types (keys, values, map nodes) are
terms of sort Obj with their fields in heap functions; everything else (caches,
iterators, containers) lives in cells.
"""
import sys
import z3
from theory import *

sys.setrecursionlimit(20000)
W64 = 1 << 64


class Unsupported(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, rec, name):
        self.rec, self.name = rec, name


class PathEnd(Exception):
    pass


class NeedBranch(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Cell:
    __slots__ = ('id', 'name')

    def __init__(self, id, name=''):
        self.id, self.name = id, name

    def __repr__(self):
        return 'Cell(%d,%s)' % (self.id, self.name)


class HLoc:
    """A (sub)object of heap object `o`: of type t; leaf names a scalar field."""
    __slots__ = ('o', 't', 'leaf')

    def __init__(self, o, t, leaf=None):
        self.o, self.t, self.leaf = o, t, leaf


class RecV:
    """A record in cells: dynamic type and field handles."""
    __slots__ = ('rec', 't', 'fields')

    def __init__(self, rec, t, fields):
        self.rec, self.t, self.fields = rec, t, fields

    def with_(self, name, h):
        d = dict(self.fields)
        d[name] = h
        return RecV(self.rec, self.t, d)


class MapV:
    __slots__ = ('tok', 'at', 'size', 'hash', 'eq', 't', 'iseq', 'ipos')

    def __init__(self, tok, at, size, hash, eq, t, iseq=None, ipos=None):
        self.tok, self.at, self.size, self.hash, self.eq, self.t = tok, at, size, hash, eq, t
        self.iseq, self.ipos = iseq, ipos

    def upd(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return MapV(**d)


class ListV:
    __slots__ = ('tok', 'seq', 'pos', 'size', 'end', 't')

    def __init__(self, tok, seq, pos, size, end, t):
        self.tok, self.seq, self.pos, self.size, self.end, self.t = tok, seq, pos, size, end, t

    def upd(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return ListV(**d)

    def nth(self, i):
        """Node at position i; the end node at position size."""
        return ITE(EQ(i, self.size), self.end, self.seq(i))


class VecV:
    """A vector / initializer_list; elem gives Obj (heap elements) or Fn."""
    __slots__ = ('len', 'elem', 'et', 'id', 'eidx')

    def __init__(self, len, elem, et, id, eidx=None):
        self.len, self.elem, self.et, self.id, self.eidx = len, elem, et, id, eidx


class ConcMap:
    """unordered_map with concrete keys (type_index)."""
    __slots__ = ('d', 'other')

    def __init__(self, d):
        self.d = d


class ConcIt:
    """Iterator of a map with concrete keys (key None: past the end)."""
    __slots__ = ('key', 'h')

    def __init__(self, key, h=None):
        self.key, self.h = key, h


class MapIt:
    __slots__ = ('o', 'hint', 't')

    def __init__(self, o, hint=None, t=None):
        self.o, self.hint, self.t = o, hint, t


class LIt:
    __slots__ = ('n', 'hint')

    def __init__(self, n, hint=None):
        self.n, self.hint = n, hint


class VIt:
    __slots__ = ('vec', 'idx')

    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx


class RefW:
    __slots__ = ('o', 't')

    def __init__(self, o, t=None):
        self.o, self.t = o, t


class PObj:
    """Pointer to a heap object (term may be NULL)."""
    __slots__ = ('o', 't', 'leaf')

    def __init__(self, o, t, leaf=None):
        self.o, self.t, self.leaf = o, t, leaf


class Ptr:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class LamPtr:
    """A function value wrapping a record (lambda)."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class TupV:
    __slots__ = ('items', 't')

    def __init__(self, items, t):
        self.items, self.t = items, t


STD_EXC = {'std::out_of_range': ('std::out_of_range', 'std::logic_error', 'std::exception')}


class ExcV:
    __slots__ = ('rec', 'name')

    def __init__(self, rec, name):
        self.rec, self.name = rec, name


class _Null:
    def __repr__(self):
        return 'NULLP'


class _Unit:
    def __repr__(self):
        return 'UNIT'


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


NULLP, UNIT, UNINIT = _Null(), _Unit(), _Uninit()


class Seg:
    """`n` consecutive callback (or original-function) calls."""
    __slots__ = ('n', 'fn', 'kind', 'args')

    def __init__(self, n, fn, kind, args):
        self.n, self.fn, self.kind, self.args = n, fn, kind, args


class State:
    def __init__(self):
        self.mem = {}
        self.heap = {}
        self.own = None
        self.ref = None
        self.ownL = None
        self.now = None
        self.trace = []
        self.pc = []
        self.pcset = set()
        self.dead = set()
        self.alloc = []      # map nodes created, in order
        self.clock = []      # clock readings, in order
        self.tmp = set()     # ids of standalone objects made by this run
        self.ghost = {}
        self.refs = {}
        self.taint = None
        self.statics = {}    # static local variables initialised so far

    def copy(self):
        s = State.__new__(State)
        for k, v in self.__dict__.items():
            if isinstance(v, (dict, list, set)):
                v = v.copy()
            s.__dict__[k] = v
        return s


class Frame:
    __slots__ = ('env', 'this', 'fn', 'cells', 'lam')

    def __init__(self, fn):
        self.env, self.this, self.fn, self.cells, self.lam = {}, None, fn, [], None


class Ob:
    __slots__ = ('pc', 'goal', 'name', 'kind', 'loc', 'taint', 'path')

    def __init__(self, pc, goal, name, kind, loc, taint, path):
        self.pc, self.goal, self.name, self.kind, self.loc, self.taint, self.path = pc, goal, name, kind, loc, taint, path


OPAQUE = ('LRUvf::K', 'LRUvf::V', 'LRUvf::E', 'LRUvf::H', 'LRUvf::F', 'LRUvf::F2', 'LRUvf::V2')


def constant(e):
    """Is an initializer a constant expression of literals?"""
    if isinstance(e, dict):
        if e.get('k') in ('call', 'mcall', 'var', 'this', 'member', 'lambda', 'assign', 'new', 'throw') or e.get('op') in ('=', '++', '--'):
            return False
        return all(constant(x) for x in e.values())
    if isinstance(e, list):
        return all(constant(x) for x in e)
    return True


class Engine:
    def __init__(self, prog, theory, max_paths=400):
        self.P, self.th = prog, theory
        self.decs, self.pos, self.pending = [], 0, None
        self.obs = []
        self.mute = 0
        self.nobranch = 0
        self.st = State()
        self.frames = []
        self.temps = []
        self.ncell = 0
        self.ntok = 0
        self.max_paths = max_paths
        self.contracts = None
        self.client = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_std = set()
        self.loopcache = {}
        self.nloop = 0
        self.line = 0
        self.depth = 0
        self.candidates = None
        self.loopinfo = []
        self.nq = 0
        self.bv = False
        self.statics = None
        self.oncall = None
        self.NULL = theory.NULL
        self.heap0 = {}
        self.maptypes = {}
        self.inloop = 0
        self.specclock, self.specpos = None, 0
        th = theory
        self.defE = z3.Const('defE', th.ES)
        self.defH = z3.Const('defH', th.HS)
        self.hashknown = []
        self.hashc = z3.Function('hashc', th.C, z3.BitVecSort(64))
        self.hashvc = z3.Function('hashvc', th.VC, z3.BitVecSort(64))
        self.init_state()

    def hashof(self, v):
        """The hash of a key or value: a function of its equality class."""
        c = self.eclass(v)
        for k, h in self.hashknown:
            if k.sort() == c.sort() and (k.eq(c) or self.prove(k == c)):
                return h
        return (self.hashvc if v.sort() == self.th.VV else self.hashc)(c)

    def eclass(self, v):
        return self.th.vcls(v) if v.sort() == self.th.VV else self.th.cls(self.th.stdeq, v)

    def mktup(self, *vs):
        """Value of a tuple of keys and values."""
        th = self.th
        n = '_'.join(str(v.sort()) for v in vs)
        t = z3.Function('mktup_' + n, *([v.sort() for v in vs] + [th.KV]))(*vs) if vs else z3.Const('mktup_', th.KV)
        for i, v in enumerate(vs):
            self.assume(EQ(self.untup(t, i, v.sort()), v))
        cs = [self.eclass(v) for v in vs]
        ct = z3.Function('ctup_' + n, *([c.sort() for c in cs] + [th.C]))(*cs) if vs else z3.Const('ctup_', th.C)
        self.assume(EQ(th.cls(th.stdeq, t), ct))
        for i, c in enumerate(cs):
            self.assume(EQ(z3.Function('cuntup_%d_%s' % (i, c.sort()), th.C, c.sort())(ct), c))
        return t

    def untup(self, t, i, sort):
        return z3.Function('untup_%d_%s' % (i, sort), self.th.KV, sort)(t)

    def init_state(self):
        th, st = self.th, self.st
        st.own = th.fn('own0', th.Obj, th.I)
        st.ref = th.fn('ref0', th.LN, th.Obj)
        st.ownL = th.fn('ownL0', th.LN, th.I)
        st.now = th.fresh('now0', th.I)
        st.clones = None
        self.leaf('K', th.KV)
        self.leaf('V', th.VV)
        self.assume(EQ(st.own(self.NULL), 0))
        # containers created later own nothing yet
        own, ownL = st.own, st.ownL
        self.assume(th.forall([th.Obj], lambda o: LT(own(o), 1000000), lambda o: [own(o)]))
        self.assume(th.forall([th.LN], lambda n: LT(ownL(n), 1000000), lambda n: [ownL(n)]))

    def mapcells(self):
        return [c for c in self.allcells() if isinstance(self.st.mem[c.id], MapV)]

    def listcells(self):
        return [c for c in self.allcells() if isinstance(self.st.mem[c.id], ListV)]

    def allcells(self):
        return [Cell(i) for i in self.st.mem if i not in self.st.dead]

    def heapcell(self, loc):
        if isinstance(loc, Cell):
            loc.name = 'heapcell'

    # ------------------------------------------------------------ decisions
    def explore(self, thunk):
        """Run thunk on every path. thunk starts from a fresh copy of the
        current state."""
        saved = (self.decs, self.pos, self.pending, self.st, self.frames, self.temps, self.nloop, self.ntok, self.ncell)
        env = [(f, dict(f.env), list(f.cells)) for f in self.frames]
        base = self.st
        pending = [[]]
        n = 0
        n0 = nmax = self.th.n
        results = []
        while pending:
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            nmax = max(nmax, self.th.n)
            self.th.n = n0      # the same path prefix gives the same names
            self.decs, self.pos = list(pending.pop()), 0
            self.pending = pending
            self.st = base.copy()
            self.frames = list(saved[4])
            self.temps = []
            for f, e, c in env:
                f.env, f.cells = dict(e), list(c)
            self.nloop, self.ntok, self.ncell = saved[6:]
            try:
                r = thunk()
            except PathEnd:
                continue
            results.append(r)
        self.th.n = max(nmax, self.th.n)
        self.decs, self.pos, self.pending, self.st, self.frames, self.temps, self.nloop, self.ntok, self.ncell = saved
        for f, e, c in env:
            f.env, f.cells = e, c
        return results

    def known(self, c):
        if is_true(c):
            return True
        if is_false(c):
            return False
        if not z3.is_expr(c):
            return bool(c)
        if c.get_id() in self.st.pcset:
            return True
        n = NOT(c)
        if z3.is_expr(n) and n.get_id() in self.st.pcset:
            return False
        return None

    def br(self, c):
        c = self.tobool(c)
        k = self.known(c)
        if k is not None:
            return k
        if self.nobranch:
            raise NeedBranch()
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
        else:
            d = True
            if self.unsat(c):
                d = False
            elif not self.unsat(NOT(c)):
                self.pending.append(self.decs + [False])
            self.decs.append(d)
        self.pos += 1
        self.assume(c if d else NOT(c))
        return d

    def choose(self, n):
        """Fork n ways without a condition (scenarios)."""
        for i in range(n - 1):
            if self.pos < len(self.decs):
                d = self.decs[self.pos]
            else:
                d = True
                self.pending.append(self.decs + [False])
                self.decs.append(d)
            self.pos += 1
            if d:
                return i
        return n - 1

    def unsat(self, c):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        # resource limits, not times: the outcome must not depend on the load
        s.set('rlimit', 200000)
        s.set('timeout', 5000)
        s.set('smt.mbqi', False)
        s.add(*[Z(x) for x in self.th.axioms])
        s.add(*self.st.pc)
        s.add(Z(c))
        self.nq += 1
        return s.check() == z3.unsat

    def prove(self, goal, timeout=2000):
        """Is goal valid under the current path condition?"""
        if is_true(goal):
            return True
        s = z3.Solver()
        s.set('rlimit', 500 * timeout)
        s.set('timeout', 10 * timeout)
        s.set('smt.mbqi', False)
        s.add(*[Z(x) for x in self.th.axioms])
        s.add(*self.st.pc)
        s.add(z3.Not(Z(goal)))
        self.nq += 1
        return s.check() == z3.unsat

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if is_true(f):
            return
        if is_false(f):
            raise PathEnd()
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        if f.get_id() in self.st.pcset:
            return
        self.st.pc.append(f)
        self.st.pcset.add(f.get_id())

    def state_ob(self, goal, name, kind):
        if not self.mute:
            if not is_true(goal) and self.known(goal) is True:
                goal = True
            self.obs.append(Ob(list(self.st.pc), goal, name, kind, self.line, self.st.taint, tuple(self.decs[:self.pos])))

    def oblige(self, goal, name, kind='safety'):
        if self.mute:
            if not is_true(goal):
                if is_false(goal):
                    raise PathEnd()
                self.assume(goal)
            return
        if not is_true(goal) and self.known(goal) is True:
            goal = True
        self.obs.append(Ob(list(self.st.pc), goal, name, kind, self.line, self.st.taint, tuple(self.decs[:self.pos])))
        if is_false(goal):
            raise PathEnd()
        self.assume(goal)

    # ------------------------------------------------------------ memory
    def newtok(self):
        self.ntok += 1
        return 1000 + self.ntok

    def cell(self, v=UNINIT, name=''):
        self.ncell += 1
        c = Cell(self.ncell, name)
        self.st.mem[c.id] = v
        if self.frames:
            self.frames[-1].cells.append(c)
        return c

    def leaf(self, name, sort):
        f = self.st.heap.get(name)
        if f is None:
            # the initial heap function is the same in every state of a run
            f = self.heap0.get(name)
            if f is None:
                g = z3.Function('h0_' + name, self.th.Obj, sort)
                f = self.heap0[name] = Clo(lambda x: g(x), g)
            self.st.heap[name] = f
        return f

    def upd(self, name, o, v):
        f = self.st.heap[name]
        v = Z(v)
        self.st.heap[name] = Clo(lambda x: ITE(EQ(x, o), v, f(x)))

    def setown(self, o, v):
        f = self.st.own
        self.st.own = Clo(lambda x: ITE(EQ(x, o), Z(v), f(x)))

    def keyof(self, o):
        return self.leaf('K', self.th.KV)(o)

    def valof(self, o):
        return self.leaf('V', self.th.VV)(o)

    def newobj(self, name='o', own=-1):
        o = self.th.fresh(name, self.th.Obj)
        self.assume(NE(o, self.NULL))
        self.assume(EQ(self.st.own(o), 0))
        self.setown(o, own)
        if own == -1:
            self.st.tmp.add(o.get_id())
            self.st.refs[o.get_id()] = o
        return o

    def alive(self, o, what='object'):
        if o.get_id() in self.st.tmp:
            return
        self.oblige(NE(self.st.own(o), 0), 'no access to a dead or null ' + what)

    SORTS = {'int': 'I', 'bool': 'B', 'real': 'R', 'tp': 'I', 'listit': 'LN', 'func': 'Fn', 'K': 'KV', 'KT': 'KV', 'V': 'VV', 'E': 'ES', 'H': 'HS', 'F': 'FS'}

    def sortof(self, t):
        k = self.P.kind(t)
        if k == 'dur':
            return self.th.I if self.durint(t) else self.th.R
        if k in self.SORTS:
            return getattr(self.th, self.SORTS[k])
        if k in ('mapit', 'refw'):
            return self.th.Obj
        if k == 'ptr' and self.P.kind(self.P.ty(t)['to']) in ('K', 'V', 'KT', 'heap'):
            return self.th.Obj
        raise Unsupported('sort of ' + self.P.s(t))

    def wrapv(self, t, x):
        k = self.P.kind(t)
        if k == 'listit':
            return LIt(x)
        if k == 'mapit':
            return MapIt(x)
        if k == 'refw':
            return RefW(x)
        if k == 'ptr':
            return PObj(x, self.P.ty(t)['to'])
        if k == 'func':
            return FnV(x)
        return x

    def unwrapv(self, v):
        if isinstance(v, LIt):
            return v.n
        if isinstance(v, MapIt):
            return v.o
        if isinstance(v, RefW):
            return v.o
        if isinstance(v, PObj):
            return v.o
        if isinstance(v, FnV):
            return v.f
        if v is NULLP:
            return self.NULL
        return Z(v)

    def load(self, loc):
        if isinstance(loc, Cell) and loc.id == -1:
            self.oblige(LT(0, self.st.ownL(loc.n)), 'list element read is stored')
            return RefW(self.st.ref(loc.n))
        if isinstance(loc, Cell):
            if loc.id in self.st.dead:
                self.oblige(False, 'no access to a variable whose lifetime has ended')
            v = self.st.mem[loc.id]
            if v is UNINIT:
                self.oblige(False, 'no read of an uninitialised variable')
            return v
        if isinstance(loc, HLoc):
            self.alive(loc.o)
            k = self.P.kind(loc.t)
            if k in ('K', 'KT'):
                return self.keyof(loc.o)
            if k == 'V':
                return self.valof(loc.o)
            if k == 'heap' or k == 'rec':
                return loc
            return self.wrapv(loc.t, self.leaf(loc.leaf, self.sortof(loc.t))(loc.o))
        raise Unsupported('load of %r' % (loc,))

    def store(self, loc, v):
        if isinstance(loc, Cell) and loc.id == -1:
            import stdlib
            self.oblige(LT(0, self.st.ownL(loc.n)), 'list element written is stored')
            return stdlib.setref(self, loc.n, v.o)
        if isinstance(loc, Cell):
            if loc.id in self.st.dead:
                self.oblige(False, 'no write to a variable whose lifetime has ended')
            self.st.mem[loc.id] = v
            return
        if isinstance(loc, HLoc):
            self.alive(loc.o)
            if loc.o.get_id() not in self.st.tmp:
                self.st.ghost.clear()
            k = self.P.kind(loc.t)
            if k in ('K', 'KT'):
                self.leaf('K', self.th.KV)
                return self.upd('K', loc.o, v)
            if k == 'V':
                self.leaf('V', self.th.VV)
                return self.upd('V', loc.o, v)
            self.leaf(loc.leaf, self.sortof(loc.t))
            return self.upd(loc.leaf, loc.o, self.unwrapv(v))
        raise Unsupported('store to %r' % (loc,))

    def val(self, x):
        """Scalar value of an evaluated operand (location or value)."""
        if isinstance(x, (Cell, HLoc)):
            return self.load(x)
        return x

    def loc(self, x):
        """Location of an evaluated operand; class prvalues get a cell."""
        if isinstance(x, (Cell, HLoc)):
            return x
        return self.cell(x, 'tmp')

    def member(self, loc, name, ft=None, arrow=False):
        if isinstance(loc, Cell):
            v = self.load(loc)
            if isinstance(v, RecV):
                h = v.fields.get(name)
                if h is None:
                    raise Unsupported('field ' + name)
                return h
            if isinstance(v, HLoc):
                loc = v
            else:
                raise Unsupported('member %s of %r' % (name, v))
        if isinstance(loc, HLoc):
            k = self.P.kind(ft)
            if k in ('K', 'V', 'KT', 'heap'):
                return HLoc(loc.o, self.strip(ft))
            if k == 'rec':
                return HLoc(loc.o, self.strip(ft))
            return HLoc(loc.o, self.strip(ft), name)
        raise Unsupported('member of %r' % (loc,))

    def strip(self, t):
        return self.P.refd(t)

    # ------------------------------------------------------------ opaque ops
    def tobool(self, v):
        if v is NULLP:
            return False
        if isinstance(v, (Ptr,)):
            return True
        if isinstance(v, PObj):
            return NE(v.o, self.NULL)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            return NE(v, 0)
        raise Unsupported('bool of %r' % (v,))

    def toint(self, v):
        if isinstance(v, bool):
            return int(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return ITE(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def tmpobj(self, leaf, v, t):
        o = self.newobj('t')
        sort = self.th.KV if leaf == 'K' else self.th.VV
        self.leaf(leaf, sort)
        self.upd(leaf, o, v)
        return HLoc(o, t)

    def copy_opaque(self, src, t, move):
        """Copy- or move-construct a key or value into a new object."""
        k = self.P.kind(t)
        leaf = 'V' if k == 'V' else 'K'
        v = self.load(src)
        n = self.tmpobj(leaf, v, t)
        if move:
            self.moved_from(src, leaf)
        return n

    def moved_from(self, src, leaf):
        sort = self.th.KV if leaf == 'K' else self.th.VV
        self.upd(leaf, src.o, self.th.fresh('moved', sort))

    def clsof(self, eq, kv):
        return self.th.cls(eq, kv)

    # ------------------------------------------------------------ functions
    def call(self, f, this, args, virt=False, argx=None):
        """f: function id; this: location or None; args: evaluated operands."""
        P = self.P
        if virt and isinstance(this, Cell):
            v = self.load(this)
            if isinstance(v, RecV):
                f = P.final_overrider(v.rec, f)
        F = P.F[f]
        if self.client is not None:
            import client
            client.hook(self, f, this, args)
        if self.contracts is not None:
            r = self.contracts(self, f, this, args)
            if r is not None:
                return r[0]
        opaque = F.get('rec') is not None and (P.R[F['rec']] or {}).get('qn') in OPAQUE
        if F.get('inroot') and (F.get('body') is not None or F.get('inits')) and not opaque:
            return self.inline(f, this, args)
        import stdlib
        r = stdlib.dispatch(self, f, this, args, argx)
        self.used_std.add(F['qn'])
        return r

    def bindparam(self, fr, p, a):
        t = p['t']
        if self.P.is_ref(t):
            fr.env[p['v']] = self.loc(a)
            return
        # by value: a prvalue is adopted, anything else was already copied
        if isinstance(a, HLoc) and self.P.kind(t) in ('K', 'V', 'KT', 'heap'):
            fr.env[p['v']] = a
        elif isinstance(a, Cell):
            fr.env[p['v']] = a
        else:
            fr.env[p['v']] = self.cell(a, p['n'])

    def inline(self, f, this, args):
        P = self.P
        F = P.F[f]
        if 'client' in F:
            import client
            return client.enter(self, F['client'], this, args)
        if F.get('rec') is not None and F['n'] == 'operator()' and (P.R[F['rec']] or {}).get('lambda'):
            return self.call_lambda(this, f, args)
        self.inlined.add(f)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        fr = Frame(f)
        fr.this = this
        saved_line = self.line
        self.frames.append(fr)
        nf = len(self.frames)
        try:
            for p, a in zip(F['params'], args):
                self.bindparam(fr, p, a)
            try:
                if F.get('ctor'):
                    self.run_inits(F, this)
                if F.get('body') is not None:
                    self.exec(F['body'])
                r = None
            except Ret as e:
                r = e.v
            except CppThrow as e:
                if F.get('noexcept'):
                    self.oblige(False, 'no exception leaves a function declared noexcept (%s)' % F['n'], 'noexcept')
                    raise PathEnd()
                raise
        finally:
            del self.frames[nf - 1:]
            self.depth -= 1
            self.line = saved_line
        keep = self.keepids(r, fr)
        for c in fr.cells:
            if c.id not in keep:
                self.st.dead.add(c.id)
            else:
                if self.frames:
                    self.frames[-1].cells.append(c)
        if r is not None and P.is_ref(F['ret']) is False and isinstance(r, Cell):
            pass
        return r

    def keepids(self, r, fr):
        """Cells that outlive the call: those in the returned object or in
        any record (via handles) other than this frame's own locals."""
        keep = set()
        def walk(x):
            if isinstance(x, Cell):
                if x.id in keep:
                    return
                keep.add(x.id)
                walk(self.st.mem.get(x.id))
            elif isinstance(x, RecV):
                refs = self.P.reffields(x.rec)
                for n, h in x.fields.items():
                    if n not in refs:
                        walk(h)
            elif isinstance(x, TupV):
                for h, a in zip(x.items, self.P.targs(self.P.refd(x.t))):
                    if not self.P.is_ref(a['type']):
                        walk(h)
            elif isinstance(x, Ptr):
                pass
        F = self.P.F[fr.fn]
        if r is not None and not self.P.is_ref(F['ret']):
            walk(r)
        if fr.this is not None:
            walk(fr.this)
        # storage created during this call but owned elsewhere (field handles)
        own = {c.id for c in fr.cells}
        for cid, v in list(self.st.mem.items()):
            if cid not in own:
                if isinstance(v, (RecV, TupV)):
                    walk(v)
        for c in fr.cells:
            if c.name == 'heapcell':
                walk(c)
        return keep

    def fieldinit(self, ft, v):
        """Handle for a field initialised with an evaluated initializer."""
        if self.P.is_ref(ft):
            return self.loc(v)
        if isinstance(v, HLoc) and self.P.kind(ft) in ('K', 'V', 'KT', 'heap'):
            return v
        if isinstance(v, Cell):
            return v
        return self.cell(v, 'fld')

    def settype(self, this, rec):
        if isinstance(this, Cell) and isinstance(self.st.mem.get(this.id), RecV):
            rv = self.st.mem[this.id]
            self.st.mem[this.id] = RecV(rec, rv.t, rv.fields)

    def run_inits(self, F, this):
        P = self.P
        # the dynamic type during construction is the class being constructed
        self.settype(this, F['rec'])
        for i in F.get('inits', []):
            if i.get('deleg') or 'base' in i:
                e = i['e']
                # constructor call on this object
                self.ctor_on(e, this)
                self.settype(this, F['rec'])
                continue
            name = i['field']
            rec = F['rec']
            ft = None
            for fd in P.all_fields(rec):
                if fd['n'] == name and (fd['i'] == i['i'] or True):
                    ft = fd['t']
            self.init_field(this, name, ft, i['e'])
            self.end_full()

    def init_field(self, this, name, ft, e):
        if isinstance(this, HLoc):
            h = self.member(this, name, ft)
            k = self.P.kind(ft)
            if k in ('K', 'V', 'KT'):
                v = self.eval(e)
                self.store(h, self.load(v))
                if v.o.get_id() in self.st.tmp:
                    self.setown(v.o, 0)
            elif k in ('heap', 'rec'):
                self.ctor_on(e, h)
            else:
                self.store(h, self.val(self.eval(e)))
            return
        v = self.eval(e)
        h = self.fieldinit(ft, v)
        rv = self.st.mem[this.id]
        self.st.mem[this.id] = rv.with_(name, h)

    def ctor_on(self, e, this):
        """Run a constructor expression on an existing location."""
        while e['k'] in ('cleanups', 'cast', 'wrap', 'mat'):
            e = e['e']
        if e['k'] != 'ctor':
            if e['k'] in ('zero', 'initlist'):
                return
            raise Unsupported('base initializer ' + e['k'])
        f = e['f']
        F = self.P.F[f]
        args = self.evalargs(f, e['args'])
        if not F.get('inroot'):
            return
        if F.get('body') is None and not F.get('inits'):
            if F.get('copyctor') or F.get('movector'):
                self.copy_record_into(this, self.loc(args[0]), F['rec'], F.get('movector'))
            return
        self.inline(f, this, args)
        self.end_full()

    def copy_record_into(self, dst, src, rec, move):
        for fd in self.P.R[rec].get('fields', []):
            self.copy_field(dst, src, fd, move)
        for b in self.P.R[rec].get('bases', []):
            if self.P.ty(b)['k'] == 'rec':
                br = self.P.ty(b)['rec']
                for c in self.P.ctors(br):
                    FF = self.P.F[c]
                    if FF.get('movector' if move else 'copyctor') and not FF.get('deleted'):
                        if FF.get('body') is not None or FF.get('inits'):
                            self.inline(c, dst, [src])
                            break
                else:
                    self.copy_record_into(dst, src, br, move)

    def copy_field(self, dst, src, fd, move):
        import stdlib
        ft = fd['t']
        name = fd['n'] or '#%d' % fd['i']
        s = self.member(src, name, ft)
        if isinstance(dst, HLoc):
            d = self.member(dst, fd['n'], ft)
            if self.P.kind(ft) in ('heap', 'rec'):
                self.copy_record_into(d, s, self.P.ty(self.P.refd(ft))['rec'], move)
            else:
                self.store(d, self.load(s))
            return
        if self.P.is_ref(ft):
            h = s
        else:
            h = self.fieldinit(ft, stdlib.copy_value(self, ft, s, move))
        rv = self.st.mem[dst.id]
        self.st.mem[dst.id] = rv.with_(name, h)

    def evalargs(self, f, args):
        F = self.P.F[f]
        out = []
        for i, a in enumerate(args):
            out.append(self.eval(a))
        return out

    def newrec(self, t, name=''):
        """Uninitialised storage for a record type (cell or heap object)."""
        t = self.P.refd(t)
        if self.P.kind(t) == 'heap':
            return HLoc(self.newobj('r'), t)
        c = self.cell(None, name or 'rec')
        self.st.mem[c.id] = RecV(self.P.ty(t)['rec'], t, {})
        return c

    def construct(self, t, f, args, argx=None):
        """Class prvalue of type t by constructor f."""
        import stdlib
        P = self.P
        t = P.refd(t)
        k = P.kind(t)
        F = P.F[f]
        if k == 'exc':
            return ExcV(P.ty(t)['rec'], P.ty(t)['qn'])
        if 'client' in F:
            import client
            return client.enter(self, F['client'], None, args)
        if k in ('rec', 'heap') and F.get('inroot'):
            if self.client is not None:
                import client
                client.hook(self, f, None, args)
            if self.contracts is not None:
                r = self.contracts(self, f, None, args)
                if r is not None:
                    return r[0]
            loc = self.newrec(t)
            for fd in P.all_fields(P.ty(t)['rec']) if isinstance(loc, Cell) else []:
                if not P.is_ref(fd['t']):
                    rv = self.st.mem[loc.id]
                    fk = P.kind(fd['t'])
                    if fk in ('K', 'V', 'KT', 'heap'):
                        continue
                    c = self.cell(UNINIT, fd['n'])
                    self.st.mem[loc.id] = rv.with_(fd['n'], c)
            if (F.get('body') is None and not F.get('inits')) or (P.R[F['rec']] or {}).get('lambda'):
                if F.get('copyctor') or F.get('movector'):
                    self.copy_record_into(loc, self.loc(args[0]), P.ty(t)['rec'], F.get('movector'))
                    return loc
                if not args:
                    return loc
                raise Unsupported('constructor without body ' + P.sig(f))
            self.inline(f, loc, args)
            return loc
        return stdlib.construct(self, t, f, args, argx)

    def kill(self, x):
        """End of a temporary's lifetime."""
        if isinstance(x, HLoc):
            if x.o.get_id() in self.st.tmp:
                self.setown(x.o, 0)
        elif isinstance(x, Cell):
            self.st.dead.add(x.id)

    def end_full(self):
        pass

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if e.get('cls') == 'SourceLocExpr':
            return 0 if self.P.kind(e['t']) == 'int' else NULLP      # only handed to __assert_fail
        if m is None:
            raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('cls', '')))
        if 'l' in e:
            self.line = e['l']
        return m(e)

    def rv(self, e):
        return self.val(self.eval(e))

    def e_cleanups(self, e):
        saved = self.temps
        self.temps = []
        try:
            r = self.eval(e['e'])
            keep = self.reach(r)
            for x in self.temps:
                if isinstance(x, HLoc):
                    if not (isinstance(r, HLoc) and r.o is x.o):
                        self.kill(x)
                elif x.id not in keep:
                    self.kill(x)
        finally:
            self.temps = saved
        return r

    def reach(self, r):
        s = set()
        def walk(x):
            if isinstance(x, Cell) and x.id not in s:
                s.add(x.id)
                walk(self.st.mem.get(x.id))
            elif isinstance(x, RecV):
                for h in x.fields.values():
                    walk(h)
        # a reference to (part of) a temporary does not keep it alive; an
        # adopted object does. Callers that copy have already done so.
        walk(r)
        return s

    def e_var(self, e):
        fr = self.frames[-1]
        v = e['v']
        if v in fr.env:
            return fr.env[v]
        if fr.lam is not None and v in fr.lam:
            return fr.lam[v]
        info = self.P.V[v]
        if info.get('global'):
            if 'value' in info:
                return self.cell(info['value'])
            k = self.P.kind(info['t'])
            if k == 'unit':
                return self.cell(UNIT)
        raise Unsupported('variable ' + e['n'])

    def e_binding(self, e):
        if 'e' in e:
            return self.eval(e['e'])
        raise Unsupported('binding')

    def e_fn(self, e):
        return ('fn', e['f'])

    def e_member(self, e):
        if e.get('arrow'):
            p = self.rv(e['b'])
            base = self.deref(p)
        else:
            base = self.eval(e['b'])
            if not isinstance(base, (Cell, HLoc)):
                base = self.loc(base)
        return self.member(base, e['n'], e['ft'])

    def deref(self, p):
        if isinstance(p, Ptr):
            return p.loc
        if p is NULLP:
            self.oblige(False, 'no dereference of a null pointer')
            raise PathEnd()
        if isinstance(p, PObj):
            self.alive(p.o)
            return HLoc(p.o, self.P.refd(p.t), p.leaf)
        if isinstance(p, VIt):
            import stdlib
            return stdlib.vec_at(self, p)
        raise Unsupported('deref of %r' % (p,))

    def addr(self, loc):
        if isinstance(loc, HLoc):
            return PObj(loc.o, loc.t, loc.leaf)
        return Ptr(loc)

    def e_this(self, e):
        fr = self.frames[-1]
        return Ptr(fr.this) if not isinstance(fr.this, HLoc) else PObj(fr.this.o, fr.this.t, fr.this.leaf)

    def e_call(self, e):
        args = e['args']
        if 'f' not in e:
            c = self.eval(e['callee'])
            c = self.val(c)
            if isinstance(c, tuple) and c[0] == 'fn':
                return self.call(c[1], None, [self.eval(a) for a in args], argx=args)
            raise Unsupported('indirect call')
        return self.call(e['f'], None, self.evalargs(e['f'], args), argx=args)

    def e_mcall(self, e):
        if e.get('arrow'):
            this = self.deref(self.rv(e['obj']))
        else:
            this = self.eval(e['obj'])
            if not isinstance(this, (Cell, HLoc)):
                this = self.loc(this)
        args = self.evalargs(e['f'], e['args'])
        return self.call(e['f'], this, args, virt=e.get('virt'), argx=e['args'])

    def e_ctor(self, e):
        args = self.evalargs(e['f'], e['args'])
        return self.construct(e['t'], e['f'], args, e['args'])

    def e_mat(self, e):
        v = self.eval(e['e'])
        if isinstance(v, (Cell, HLoc)):
            c = v
        else:
            c = self.cell(v, 'tmp')
        if not e['ext']:
            self.temps.append(c)
        return c

    def e_wrap(self, e):
        return self.eval(e['e'])

    def e_int(self, e):
        v = e['val']
        return int(v)

    def e_bool(self, e):
        return bool(e['val'])

    def e_float(self, e):
        return float(e['val'])

    def e_new(self, e):
        if e['placement'] or e['array'] or e['init'] is None:
            raise Unsupported('new')
        v = self.loc(self.eval(e['init']))
        if isinstance(v, Cell):
            v.name = 'heapcell'
            for c in self.frames[-1].cells:
                if c.id == v.id:
                    c.name = 'heapcell'
            return Ptr(v)
        return PObj(v.o, v.t, v.leaf)

    def e_str(self, e):
        return UNIT

    def e_nullptr(self, e):
        return NULLP

    def e_null(self, e):
        return None

    def e_zero(self, e):
        k = self.P.kind(e['t'])
        if k == 'int':
            return 0
        if k == 'bool':
            return False
        if k == 'real':
            return 0.0
        if k == 'ptr':
            return NULLP
        raise Unsupported('zero of ' + self.P.s(e['t']))

    def e_typeid(self, e):
        return ('typeid', self.P.s(e['of']) if 'of' in e else None)

    def e_throw(self, e):
        if e['e'] is None:
            if not getattr(self, 'handled', None):
                raise Unsupported('rethrow outside a handler')
            raise CppThrow(self.handled[-1].rec, self.handled[-1].name)
        v = self.val(self.eval(e['e']))
        if isinstance(v, ExcV):
            raise CppThrow(v.rec, v.name)
        raise Unsupported('throw of %r' % (v,))

    def e_lambda(self, e):
        rec = e['rec']
        R = self.P.R[rec]
        c = self.cell(None, 'lambda')
        fields = {}
        for fd, ie in zip(R['fields'], e['inits']):
            v = self.eval(ie)
            if self.P.is_ref(fd['t']):
                h = self.loc(v)
            else:
                h = self.fieldinit(fd['t'], v)
            fields['#%d' % fd['i']] = h
        t = e['t']
        self.st.mem[c.id] = RecV(rec, t, fields)
        return c

    def call_lambda(self, loc, f, args):
        rv = self.load(loc)
        R = self.P.R[rv.rec]
        F = self.P.F[f]
        self.inlined.add(f)
        fr = Frame(f)
        fr.this = loc
        lam = {}
        for cpt in R.get('captures', []):
            lam[cpt['var']] = rv.fields['#%d' % cpt['field']]
        fr.lam = lam
        if 'this_field' in R:
            p = self.load(rv.fields['#%d' % R['this_field']])
            fr.this = p.loc if isinstance(p, Ptr) else HLoc(p.o, self.P.refd(p.t))
        self.frames.append(fr)
        nf = len(self.frames)
        saved_line = self.line
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            for p, a in zip(F['params'], args):
                self.bindparam(fr, p, a)
            try:
                self.exec(F['body'])
                r = None
            except Ret as ex:
                r = ex.v
        finally:
            del self.frames[nf - 1:]
            self.depth -= 1
            self.line = saved_line
        if self.frames:
            self.frames[-1].cells += fr.cells
        return r

    def e_initlist(self, e):
        t = self.P.refd(e['t'])
        k = self.P.kind(t)
        if k in ('int', 'bool', 'real', 'ptr') and len(e['e']) == 1:
            return self.rv(e['e'][0])
        if k in ('int', 'bool', 'real', 'ptr') and not e['e']:
            return self.e_zero(e)
        if k == 'rec':
            loc = self.newrec(t)
            rv = self.st.mem[loc.id]
            for fd, ie in zip(self.P.all_fields(rv.rec), e['e']):
                self.init_field(loc, fd['n'], fd['t'], ie)
            return loc
        if k == 'unit' or k in ('H', 'E', 'F'):
            return UNIT if k == 'unit' else self.default_functor(t)
        if k == 'array' or self.P.ty(t)['k'] == 'array':
            return ('array', [self.eval(x) for x in e['e']])
        raise Unsupported('init list of ' + self.P.s(t))

    def default_functor(self, t):
        import stdlib
        return stdlib.default_functor(self, t)

    def e_stdinit(self, e):
        v = self.eval(e['e'])
        if isinstance(v, tuple) and v[0] == 'array':
            import stdlib
            return stdlib.conc_vec(self, e['t'], v[1])
        raise Unsupported('initializer_list')

    def e_cond(self, e):
        if self.br(self.rv(e['c'])):
            return self.eval(e['a'])
        return self.eval(e['b'])

    def e_un(self, e):
        op = e['op']
        if op == '__extension__':
            return self.eval(e['e'])
        if op == '*':
            return self.deref(self.rv(e['e']))
        if op == '&':
            x = self.eval(e['e'])
            if isinstance(x, tuple):
                return x
            return self.addr(x)
        if op == '!':
            return NOT(self.tobool(self.rv(e['e'])))
        if op in ('++', '--'):
            l = self.eval(e['e'])
            v = self.load(l)
            d = 1 if op == '++' else -1
            if isinstance(v, VIt):
                n = VIt(v.vec, v.idx + d)
            else:
                n = self.arith('+' if d > 0 else '-', v, 1, e['t'])
            self.store(l, n)
            return v if e['post'] else l
        if op == '-':
            return self.arith('-', 0, self.rv(e['e']), e['t'])
        if op == '+':
            return self.rv(e['e'])
        if op == '~':
            v = self.rv(e['e'])
            if z3.is_expr(v) and z3.is_bv(v):
                return ~v
        raise Unsupported('unary ' + op)

    def unsigned(self, t):
        x = self.P.ty(self.P.refd(t))
        return x['k'] == 'builtin' and not x.get('signed', True) and x.get('bits', 0) >= 32

    def isreal(self, v):
        return isinstance(v, float) or (z3.is_expr(v) and z3.is_real(v))

    def tobv(self, v):
        if z3.is_expr(v):
            if z3.is_bv(v):
                return v
            return z3.Int2BV(v, 64)
        return z3.BitVecVal(int(v), 64)

    def arith(self, op, a, b, t):
        a, b = self.toint(a), self.toint(b)
        if (z3.is_expr(a) and z3.is_bv(a)) or (z3.is_expr(b) and z3.is_bv(b)):
            a, b = self.tobv(a), self.tobv(b)
            f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: z3.LShR(a, b),
                 '^': lambda: a ^ b, '&': lambda: a & b, '|': lambda: a | b, '%': lambda: z3.URem(a, b), '/': lambda: z3.UDiv(a, b)}.get(op)
            if f is None:
                raise Unsupported('bit-vector ' + op)
            return f()
        if self.isreal(a) or self.isreal(b):
            if op == '/':
                # division by a zero double is not an error in C++
                za, zb = [z3.ToReal(x) if z3.is_expr(x) and z3.is_int(x) else (z3.RealVal(x) if not z3.is_expr(x) else x) for x in (a, b)]
                if z3.is_rational_value(zb) and zb.as_fraction() == 0:
                    return self.th.fresh('nan', self.th.R)
                return za / zb
            if not z3.is_expr(a) and not z3.is_expr(b):
                return {'+': a + b, '-': a - b, '*': a * b}[op]
            za, zb = [z3.ToReal(x) if z3.is_expr(x) and z3.is_int(x) else (z3.RealVal(x) if not z3.is_expr(x) else x) for x in (a, b)]
            return {'+': za + zb, '-': za - zb, '*': za * zb}[op]
        conc = not z3.is_expr(a) and not z3.is_expr(b)
        if op == '+':
            r = a + b
            if self.unsigned(t):
                return r % W64 if conc else ITE(LT(r, W64), r, r - W64)
            return r
        if op == '-':
            if conc:
                return (a - b) % W64 if self.unsigned(t) else a - b
            if self.unsigned(t):
                return ITE(LE(b, a), a - b, a - b + W64)
            return a - b
        if op == '*':
            r = a * b
            if self.unsigned(t):
                return r % W64 if conc else ITE(LT(r, W64), r, r % W64)
            return r
        if op in ('/', '%'):
            self.oblige(NE(b, 0), 'no division by zero')
            if conc:
                return a // b if op == '/' else a % b
            return Z(a) / Z(b) if op == '/' else Z(a) % Z(b)
        if conc and op in ('<<', '>>', '&', '|', '^'):
            return {'<<': a << b if op == '<<' else 0, '>>': a >> b if op == '>>' else 0, '&': a & b, '|': a | b, '^': a ^ b}[op] % W64
        raise Unsupported('arithmetic ' + op)

    def compare(self, op, a, b):
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else NOT(r)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, VIt) and isinstance(b, VIt):
            a, b = a.idx, b.idx
        if z3.is_expr(a) and z3.is_bv(a) or z3.is_expr(b) and z3.is_bv(b):
            a, b = self.tobv(a), self.tobv(b)
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        if self.isreal(a) or self.isreal(b):
            if z3.is_expr(a) and z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_expr(b) and z3.is_int(b):
                b = z3.ToReal(b)
        if op == '<':
            return LT(a, b)
        if op == '<=':
            return LE(a, b)
        if op == '>':
            return LT(b, a)
        return LE(b, a)

    def equal(self, a, b):
        if a is NULLP or b is NULLP:
            x = b if a is NULLP else a
            if x is NULLP:
                return True
            if isinstance(x, PObj):
                return EQ(x.o, self.NULL)
            if isinstance(x, Ptr):
                return False
            raise Unsupported('null comparison')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return isinstance(a.loc, Cell) and isinstance(b.loc, Cell) and a.loc.id == b.loc.id
            return False
        if isinstance(a, PObj) and isinstance(b, PObj):
            return EQ(a.o, b.o)
        if isinstance(a, LIt) and isinstance(b, LIt):
            return EQ(a.n, b.n)
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return EQ(a.o, b.o)
        if isinstance(a, ConcIt) and isinstance(b, ConcIt):
            return a.key == b.key
        if isinstance(a, VIt) and isinstance(b, VIt):
            return EQ(Z(a.idx), Z(b.idx)) if z3.is_expr(a.idx) or z3.is_expr(b.idx) else a.idx == b.idx
        a, b = (self.toint(x) if self.th is not None and not (z3.is_expr(x) and z3.is_bool(x)) and not isinstance(x, bool) else x for x in (a, b))
        if (z3.is_expr(a) and z3.is_bool(a)) or isinstance(a, bool):
            if not ((z3.is_expr(b) and z3.is_bool(b)) or isinstance(b, bool)):
                a = self.toint(a)
        elif (z3.is_expr(b) and z3.is_bool(b)) or isinstance(b, bool):
            b = self.toint(b)
        if self.isreal(a) and z3.is_expr(b) and z3.is_int(b):
            b = z3.ToReal(b)
        if self.isreal(b) and z3.is_expr(a) and z3.is_int(a):
            a = z3.ToReal(a)
        return EQ(a, b)

    def e_bin(self, e):
        op = e['op']
        if op == '=':
            b = self.rv(e['b'])
            l = self.eval(e['a'])
            self.store(l, b)
            return l
        if op == ',':
            self.eval(e['a'])
            return self.eval(e['b'])
        if op == '&&':
            if not self.br(self.rv(e['a'])):
                return False
            return self.tobool(self.rv(e['b']))
        if op == '||':
            if self.br(self.rv(e['a'])):
                return True
            return self.tobool(self.rv(e['b']))
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if isinstance(a, VIt) and op in ('+', '-'):
            if isinstance(b, VIt):
                return a.idx - b.idx
            return VIt(a.vec, a.idx + b if op == '+' else a.idx - b)
        return self.arith(op, a, b, e['t'])

    def e_cassign(self, e):
        op = e['op'][:-1]
        b = self.rv(e['b'])
        l = self.eval(e['a'])
        a = self.load(l)
        if isinstance(a, bool) or (z3.is_expr(a) and z3.is_bool(a)):
            if op in ('|', '&'):
                self.store(l, OR(a, self.tobool(b)) if op == '|' else AND(a, self.tobool(b)))
                return l
        self.store(l, self.arith(op, a, b, e.get('ct', e['t'])))
        return l

    def e_index(self, e):
        p = self.rv(e['a'])
        i = self.rv(e['b'])
        if isinstance(p, VIt):
            import stdlib
            return stdlib.vec_at(self, VIt(p.vec, p.idx + i))
        raise Unsupported('index')

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.load(self.eval(e['e']))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                  'FunctionToPointerDecay', 'BitCast', 'LValueBitCast', 'BuiltinFnToFnPtr'):
            v = self.eval(e['e'])
            if ck == 'BitCast':
                self.castcheck(v, e)
            return v
        if ck == 'ToVoid':
            self.eval(e['e'])
            return None
        if ck == 'ArrayToPointerDecay':
            return self.eval(e['e'])
        v = self.rv(e['e'])
        if ck == 'IntegralCast':
            v = self.toint(v)
            if z3.is_expr(v) and z3.is_bv(v):
                return v
            st, tt = self.P.ty(self.P.refd(e['e'].get('t', e['t']))), self.P.ty(self.P.refd(e['t']))
            if self.unsigned(e['t']) and st.get('signed', False):
                if not z3.is_expr(v):
                    return v % W64
                return ITE(LE(0, v), v, v + W64)
            if tt.get('bits', 64) < 32 or (tt.get('bits', 64) < 64 and st.get('bits', 64) == 64):
                if z3.is_expr(v):
                    return self.narrow(v, tt)
            if tt.get('signed') and not st.get('signed', True) and st.get('bits', 64) == 64:
                if z3.is_expr(v):
                    return ITE(LT(v, W64 // 2), v, v - W64)
                return v - W64 if v >= W64 // 2 else v
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.tobool(v)
        if ck == 'IntegralToFloating':
            v = self.toint(v)
            return z3.ToReal(v) if z3.is_expr(v) else float(v)
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            if not z3.is_expr(v):
                return int(v)
            return ITE(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == 'NullToPointer':
            return NULLP
        raise Unsupported('cast ' + ck)

    def castcheck(self, v, e):
        """A pointer to an object of class type cast from another pointer must
        point to an object of that type."""
        t = self.P.ty(self.P.refd(e['t']))
        if not isinstance(v, Ptr) or not isinstance(v.loc, Cell) or t.get('k') != 'ptr':
            return
        to = self.P.ty(t['to'])
        x = self.st.mem.get(v.loc.id)
        if to.get('k') == 'rec' and isinstance(x, RecV) and x.rec != to['rec'] and to['rec'] not in self.P.bases(x.rec):
            self.oblige(False, 'an object is used as an object of its own type')

    def narrow(self, v, tt):
        m = 1 << tt['bits']
        r = Z(v) % m
        if tt.get('signed'):
            return ITE(r < m // 2, r, r - m)
        return r

    def durint(self, t):
        t = self.P.refd(t)
        x = self.P.ty(t)
        if x['qn'].endswith('time_point'):
            return self.durint(self.P.targ(t, 1))
        return self.P.kind(self.P.targ(t, 0)) == 'int'

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        if 'l' in s:
            self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement ' + s['k'] + ' ' + str(s.get('cls', '')))
        return m(s)

    def s_expr(self, s):
        if s['e']['k'] != 'cleanups':
            self.e_cleanups({'e': s['e']})
        else:
            self.eval(s['e'])

    def s_block(self, s):
        raii = []
        self.raii_push(raii)
        try:
            for x in s['s']:
                self.exec(x)
        except (Ret, Brk, Cont, CppThrow):
            self.raii_run(raii)
            raise
        else:
            self.raii_run(raii)
        finally:
            self.raii_pop(raii)

    raiistack = None

    def raii_push(self, l):
        if self.raiistack is None:
            self.raiistack = []
        self.raiistack.append(l)

    def raii_pop(self, l):
        self.raiistack.remove(l) if l in self.raiistack else None

    def raii_run(self, l):
        for loc, d in reversed(l):
            self.inline(d, loc, [])
        del l[:]

    def s_decl(self, s):
        fr = self.frames[-1]
        for d in s['d']:
            if 'unsupported' in d:
                raise Unsupported('declaration ' + d['unsupported'])
            t = d['t']
            st = d['static'] and not (d.get('cst') and self.P.kind(t) in ('int', 'bool', 'real', 'dur') and constant(d.get('init')))
            if st:
                if self.statics is None:
                    raise Unsupported('static local variable')
                if d['v'] in self.st.statics:
                    fr.env[d['v']] = self.st.statics[d['v']]
                    continue
            if 'init' not in d:
                k = self.P.kind(t)
                fr.env[d['v']] = self.cell(UNINIT, d['n'])
                if st:
                    raise Unsupported('static local variable without initializer')
                continue
            v = self.e_cleanups({'e': d['init']}) if d['init']['k'] != 'cleanups' else self.eval(d['init'])
            if self.P.is_ref(t):
                fr.env[d['v']] = self.loc(v)
                if st:
                    self.st.statics[d['v']] = fr.env[d['v']]
            else:
                h = self.fieldinit(t, v)
                fr.env[d['v']] = h
                if st:
                    if isinstance(h, Cell):
                        self.heapcell(h)
                    self.st.statics[d['v']] = h
                    continue
                rt = self.P.ty(self.P.refd(t))
                if rt['k'] == 'rec':
                    R = self.P.R[rt['rec']]
                    dt = (R or {}).get('dtor')
                    if dt is not None and self.P.F[dt].get('inroot') and self.P.F[dt].get('body') and self.P.F[dt]['body'].get('s') and self.raiistack:
                        self.raiistack[-1].append((h, dt))
            for b in d.get('bindings', []):
                pass

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('var'):
            self.exec(s['var'])
        if 'constexpr' in s:
            c = s['constexpr']
        else:
            c = self.br(self.cond(s['c']))
        if c:
            self.exec(s['t'])
        else:
            self.exec(s['f'])

    def cond(self, c):
        v = self.e_cleanups({'e': c}) if c['k'] != 'cleanups' else self.eval(c)
        return self.tobool(self.val(v))

    def s_return(self, s):
        if s['e'] is None:
            raise Ret(None)
        e = s['e']
        v = self.e_cleanups({'e': e}) if e['k'] != 'cleanups' else self.eval(e)
        raise Ret(v)

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_null(self, s):
        pass

    def s_try(self, s):
        try:
            self.exec(s['b'])
        except CppThrow as ex:
            for h in s['h']:
                if 'v' not in h:
                    return self.handler(h, ex)
                ct = self.P.ty(self.P.refd(h['t']))
                if ct['k'] == 'rec' and ex.rec is None and not ex.name.startswith('std::'):
                    # thrown by the wrapped function or a functor: any type (std::exception or not)
                    raise Unsupported('a handler for an exception of unknown type')
                if ct['k'] == 'rec' and (ct['qn'] in STD_EXC.get(ex.name, ()) if ex.rec is None else ct['rec'] in self.P.bases(ex.rec)):
                    self.frames[-1].env[h['v']] = self.cell(ExcV(ex.rec, ex.name))
                    return self.handler(h, ex)
            raise

    def handler(self, h, ex):
        self.handled = getattr(self, 'handled', []) + [ex]
        try:
            return self.exec(h['b'])
        finally:
            self.handled = self.handled[:-1]

    def s_while(self, s):
        def c():
            if s.get('var'):
                self.exec(s['var'])
            return self.cond(s['c'])
        self.loop(c, lambda: self.exec(s['b']), None, s)

    def s_for(self, s):
        self.exec(s['i'])
        self.loop((lambda: self.cond(s['c'])) if s['c'] else (lambda: True), lambda: self.exec(s['b']),
                  (lambda: self.exprstmt(s['inc'])) if s['inc'] else None, s)

    def exprstmt(self, e):
        if e['k'] != 'cleanups':
            self.e_cleanups({'e': e})
        else:
            self.eval(e)

    def s_do(self, s):
        # body once, then a while loop
        try:
            self.exec(s['b'])
        except Cont:
            pass
        except Brk:
            return
        self.loop(lambda: self.cond(s['c']), lambda: self.exec(s['b']), None, s)

    def s_rangefor(self, s):
        if s.get('init'):
            self.exec(s['init'])
        self.exec(s['range'])
        self.exec(s['begin'])
        self.exec(s['end'])
        def body():
            self.exec(s['var'])
            self.exec(s['b'])
        self.loop(lambda: self.cond(s['c']), body, lambda: self.exprstmt(s['inc']), s)

    def loop(self, cond, body, inc, s):
        import loops
        loops.run(self, cond, body, inc, s)
