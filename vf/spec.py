"""Contracts of the public operations, as relations between abstract views.

Each contract is a Python function run after the symbolic execution of the
body on one path; it states obligations with `c.check(piece, text, goal)`.
`piece` is what part of the observable behaviour the obligation is about; the
pieces of each operation are mapped to the listed properties in tags.py.
"""
import z3
from theory import *
from interp import *
import stdlib
from view import *

CONTRACTS = {}      # (group key) -> function


def contract(*names):
    def d(f):
        for n in names:
            CONTRACTS[n] = f
        return f
    return d


class AV:
    """Abstract cache contents that a contract computes."""

    def __init__(self, v):
        self.v = v
        self.pres, self.key, self.val, self.time, self.pos, self.obj = v.pres, v.key, v.val, v.time, v.pos, v.obj
        self.size, self.cap, self.ttl, self.eq, self.hash = v.size, v.cap, v.ttl, v.eq, v.hash
        self.fresh_obj = None       # class whose entry need not be the old object
        self.timerange = None       # class whose storing time lies in a range

    def touch(self, c0):
        pos, sz, p0 = self.pos, self.size, self.pos(c0)
        self.pos = Clo(lambda c: ITE(EQ(c, c0), Z(sz) - 1, ITE(LT(p0, pos(c)), pos(c) - 1, pos(c))))

    def remove(self, c0):
        pos, pres, p0 = self.pos, self.pres, self.pos(c0)
        self.pres = Clo(lambda c: AND(pres(c), NE(c, c0)))
        self.pos = Clo(lambda c: ITE(LT(p0, pos(c)), pos(c) - 1, pos(c)))
        self.size = self.size - 1

    def keep_last(self, n):
        """Keep the n most recently used entries (n <= size)."""
        pos, pres, k = self.pos, self.pres, Z(self.size) - n
        self.pres = Clo(lambda c: AND(pres(c), LE(k, pos(c))))
        self.pos = Clo(lambda c: pos(c) - k)
        self.size = n

    def add(self, c0, kv, vv):
        pos, pres, key, val, sz = self.pos, self.pres, self.key, self.val, self.size
        self.pres = Clo(lambda c: OR(EQ(c, c0), pres(c)))
        self.key = Clo(lambda c: ITE(EQ(c, c0), kv, key(c)))
        self.val = Clo(lambda c: ITE(EQ(c, c0), vv, val(c)))
        self.pos = Clo(lambda c: ITE(EQ(c, c0), Z(sz), pos(c)))
        self.size = sz + 1
        self.fresh_obj = c0
        self.timerange = c0

    def setval(self, c0, vv):
        val = self.val
        self.val = Clo(lambda c: ITE(EQ(c, c0), vv, val(c)))

    def clear(self):
        self.pres = Clo(lambda c: False)
        self.size = 0


class SV:
    """Abstract statistics."""

    def __init__(self, s):
        self.s = s
        self.acc, self.hits, self.pres, self.khits, self.kmisses, self.size = s.acc, s.hits, s.pres, s.khits, s.kmisses, s.size

    def count(self, kv, hit):
        c0 = self.s.cls(kv)
        self.acc = self.acc + 1
        if hit:
            self.hits = self.hits + 1
            h = self.khits
            self.khits = Clo(lambda c: ITE(EQ(c, c0), h(c) + 1, h(c)))
        else:
            h = self.kmisses
            self.kmisses = Clo(lambda c: ITE(EQ(c, c0), h(c) + 1, h(c)))


class Ctx:
    """One path of one unit."""

    def __init__(self, E, unit):
        self.E, self.unit = E, unit
        self.P, self.th = E.P, E.th
        self.args, self.outcome = [], None
        self.pre = self.post = None
        self.caches = {}         # name -> (cell, pre view)
        self.stats = None        # (cell, pre SView)
        self.exempt = []         # argument objects the operation may consume

    # -- obligations
    def check(self, piece, text, goal):
        """State an obligation. Unlike an obligation of the execution itself
        it is not assumed afterwards, so each piece stands on its own."""
        self.E.line = 0
        if is_false(goal):
            self.E.oblige(goal, '%s' % text, piece)     # ends the path
        self.E.state_ob(goal, '%s' % text, piece)

    def ret(self):
        return self.outcome[1] if self.outcome[0] == 'ret' else None

    def threw(self):
        return self.outcome[1] if self.outcome[0] == 'throw' else None

    # -- common parts
    def no_throw(self, piece='error'):
        self.check(piece, 'the operation does not throw', self.threw() is None)

    def same_cache(self, name, av, identity=True, pieces=None):
        """The cache `name` now has the abstract contents av, and satisfies
        its invariant."""
        E, th = self.E, self.th
        cell, pre = self.caches[name]
        post = View(E, E.st, cell)
        self.same_view(post, av, identity, name)
        self.invariant(post, name)
        return post

    def invariant(self, post, name='this'):
        w = '' if name == 'this' else ' (of the other cache)'
        for piece, text, f in inv(self.E, post):
            self.check('inv-' + piece, text + w, f)

    def same_view(self, post, av, identity=True, name='this'):
        E, th = self.E, self.th
        w = '' if name == 'this' else ' (other cache)'
        c = th.fresh('c', th.C)
        self.check('size', 'size after the operation' + w, EQ(Z(post.size), Z(av.size)))
        self.check('pres', 'the set of stored keys after the operation' + w, EQ(post.pres(c), av.pres(c)))
        p = post.pres(c)
        self.check('val', 'the value stored under each key' + w, IMP(p, EQ(post.val(c), av.val(c))))
        self.check('pos', 'the recency position of each key' + w, IMP(p, EQ(Z(post.pos(c)), Z(av.pos(c)))))
        self.check('key', 'the key object stored for each entry' + w, IMP(p, EQ(post.key(c), av.key(c))))
        if post.time is not None:
            tc = av.timerange
            same = EQ(post.time(c), av.time(c))
            if tc is None:
                self.check('time', 'the storing time of each entry' + w, IMP(p, same))
            else:
                self.check('time', 'the storing time of each entry' + w,
                           IMP(p, ITE(EQ(c, tc), AND(LE(self.t0, post.time(c)), LE(post.time(c), E.st.now)), same)))
        if identity:
            fo = av.fresh_obj
            g = EQ(post.obj(c), av.obj(c))
            self.check('ident', 'entries that stay keep their storage (references stay valid)' + w,
                       IMP(p, g if fo is None else OR(EQ(c, fo), g)))
        self.check('cap', 'the capacity' + w, EQ(Z(post.cap), Z(av.cap)))
        if av.ttl is not None:
            self.check('ttl', 'the time to live' + w, post.ttl is not UNINIT and EQ(Z(post.ttl), Z(av.ttl)))
        self.check('functors', 'the hash function and key equality' + w, AND(EQ(post.eq, av.eq), EQ(post.hash, av.hash)))

    def same_callbacks(self, name='this', expect=None, who=None):
        E, th = self.E, self.th
        cell, pre = self.caches[name]
        post = View(E, E.st, cell)
        for w in ('hit', 'miss', 'access'):
            a, b = post.cb[w], (expect or {}).get(w, pre.cb[w])
            self.check('cbset', 'the registered %s callbacks' % w, vec_eq(E, a, b))

    def same_statptr(self, name='this', expect=False):
        cell, pre = self.caches[name]
        post = View(self.E, self.E.st, cell)
        want = pre.sp if expect is False else expect
        self.check('statptr', 'the attached statistics object', ptr_eq(post.sp, want))

    def stats_is(self, sv=None):
        """The statistics object's contents are as given (default unchanged)."""
        if self.stats is None:
            return
        E, th = self.E, self.th
        cell, pre = self.stats
        sv = sv or SV(pre)
        post = SView(E, E.st, cell)
        self.stats_same(post, sv)

    def stats_same(self, post, sv):
        E, th = self.E, self.th
        c = th.fresh('sc', th.C)
        self.check('stats', 'total accesses counted', EQ(Z(post.acc), Z(sv.acc)))
        self.check('stats', 'total hits counted', EQ(Z(post.hits), Z(sv.hits)))
        self.check('kstats', 'the set of monitored keys', EQ(post.pres(c), sv.pres(c)))
        self.check('kstats', 'hits counted for each monitored key', IMP(post.pres(c), EQ(post.khits(c), sv.khits(c))))
        self.check('kstats', 'misses counted for each monitored key', IMP(post.pres(c), EQ(post.kmisses(c), sv.kmisses(c))))
        self.check('kstats', 'the number of monitored keys', EQ(Z(post.size), Z(sv.size)))
        for _, t, f in sinv(E, post):
            self.check('slaw', t, f)

    def no_calls(self):
        self.trace_is([])

    def trace_is(self, want):
        """want: list of (vec, args)."""
        E, th = self.E, self.th
        got = list(E.st.trace)
        want = list(want)
        if len(got) != len(want):
            # drop groups of no calls
            got = [s for s in got if not is_true(EQ(Z(s.n), 0)) and not E.prove(EQ(Z(s.n), 0))]
            want = [(v, a) for v, a in want if not is_true(EQ(Z(v.len), 0)) and not E.prove(EQ(Z(v.len), 0))]
        if len(got) != len(want):
            self.check('calls', 'exactly the expected callbacks are called, in order (%d groups expected, %d made)' % (len(want), len(got)), False)
            return
        for s, (v, a) in zip(got, want):
            self.check('calls', 'the number of callbacks called', EQ(Z(s.n), Z(v.len)))
            if s.kind == 'cb':
                i = th.fresh('ci', th.I)
                fn = s.fn(i) if isinstance(s.fn, Clo) else s.fn
                self.check('calls', 'which callbacks are called', IMP(AND(LE(0, i), LT(i, Z(v.len))), EQ(fn, v.elem(i))))
            ok = len(s.args) == len(a)
            if ok:
                for (k1, x1), (k2, x2) in zip(s.args, a):
                    ok = ok and k1 == k2
                    if ok:
                        self.check('calls', 'the arguments callbacks are called with', OR(EQ(Z(s.n), 0), EQ(x1, x2)))
            if not ok:
                self.check('calls', 'the arguments callbacks are called with', EQ(Z(s.n), 0))

    def args_unchanged(self):
        """Objects of the caller (arguments, source ranges) are not modified."""
        E, th = self.E, self.th
        o = th.fresh('u', th.Obj)
        pre = self.pre0
        own0, own1 = pre.own, E.st.own
        ex = [EQ(o, x) for x in self.exempt]
        h = LT(own0(o), 0)
        if getattr(self, 'exemptvec', False):
            h = AND(h, NE(own0(o), -2))
        K0, K1 = heapfn(E, pre, 'K'), heapfn(E, E.st, 'K')
        V0, V1 = heapfn(E, pre, 'V'), heapfn(E, E.st, 'V')
        self.check('frame', 'objects of the caller are left alone', IMP(h, EQ(own1(o), own0(o))))
        self.check('frame', 'objects of the caller are left alone', IMP(AND(h, NOT(OR(*ex)) if ex else True), AND(EQ(K1(o), K0(o)), EQ(V1(o), V0(o)))))
        # what other containers (other caches, whichever they are) hold
        mt = [v.tok for v in pre.mem.values() if isinstance(v, MapV)]
        lt = [v.tok for v in pre.mem.values() if isinstance(v, ListV)]
        h = AND(LT(0, own0(o)), *[NE(own0(o), t) for t in mt])
        self.check('indep', 'entries of other containers are left alone', IMP(h, AND(EQ(own1(o), own0(o)), EQ(K1(o), K0(o)), EQ(V1(o), V0(o)))))
        for leaf in sorted(E.st.heap):
            if leaf not in ('K', 'V') and (leaf in pre.heap or leaf in E.heap0):
                f0, f1 = heapfn(E, pre, leaf), E.st.heap[leaf]
                if f0 is not f1:
                    self.check('indep', 'entries of other containers are left alone', IMP(h, EQ(Z(f1(o)), Z(f0(o)))))
        n = th.fresh('un', th.LN)
        h = AND(NE(pre.ownL(n), 0), *[NE(pre.ownL(n), t) for t in lt])
        self.check('indep', 'order lists of other containers are left alone', IMP(h, AND(EQ(E.st.ownL(n), pre.ownL(n)), EQ(E.st.ref(n), pre.ref(n)))))

    def others_unchanged(self, *changed):
        for n, (cell, pre) in self.caches.items():
            if n not in changed:
                self.same_cache(n, AV(pre))
                self.same_callbacks(n)
                self.same_statptr(n)

    def fin(self, trace=True, stats=True, cbs=True, names=('this',)):
        """Frame shared by most operations."""
        if stats:
            self.stats_is()
            for n in names:
                self.same_statptr(n)
        if cbs:
            for n in names:
                self.same_callbacks(n)
        if trace:
            self.no_calls()
        self.args_unchanged()
        self.others_unchanged(*names)

    # -- results
    def is_iter(self, r, o, name='this', piece='ret', entry=True):
        """r is an unordered iterator of the cache denoting entry o (or end)."""
        E = self.E
        rv = E.st.mem[r.id]
        it = E.st.mem[itfield(E, rv, 'it').id]
        self.check(piece, 'the returned iterator denotes the right entry', EQ(it.o, o))
        p = E.st.mem[itfield(E, rv, 'cache').id]
        self.check(piece, 'the returned iterator belongs to this cache', isinstance(p, Ptr) and p.loc.id == self.caches[name][0].id)
        self.entry_of(rv, o, piece)

    def entry_of(self, rv, o, piece):
        """The iterator's remembered entry, if any, is that of o."""
        e = iter_entry(self.E, rv)
        if e is None:
            return
        self.check(piece, 'the entry an iterator shows is the one it denotes', AND(EQ(e[0], o), EQ(e[1], o)))

    def is_lit(self, r, n, name='this', piece='ret', o=None):
        E = self.E
        rv = E.st.mem[r.id]
        it = E.st.mem[itfield(E, rv, 'it').id]
        self.check(piece, 'the returned iterator denotes the right position', EQ(it.n, n))
        p = E.st.mem[itfield(E, rv, 'cache').id]
        self.check(piece, 'the returned iterator belongs to this cache', isinstance(p, Ptr) and p.loc.id == self.caches[name][0].id)
        self.entry_of(rv, o if o is not None else E.st.ref(n), piece)


def iter_entry(E, rv):
    """(key object, value object) remembered by an iterator, or None."""
    opt = E.st.mem[itfield(E, rv, 'entry').id]
    p = None
    if isinstance(opt, RecV):
        for h in opt.fields.values():
            p = E.st.mem[h.id]
    if p is None or p is NULLP:
        return None
    er = E.load(p.loc)
    return er.fields['first'].o, er.fields['second'].o


def vec_eq(E, a, b):
    if a is b:
        return True
    i = E.th.fresh('vi', E.th.I)
    return AND(EQ(Z(a.len), Z(b.len)), IMP(AND(LE(0, i), LT(i, Z(b.len))), EQ(a.elem(i), b.elem(i))))


def ptr_eq(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.loc.id == b.loc.id
    return a is b


def one(E, f):
    """A vector holding one callback."""
    return VecV(1, Clo(lambda i: f), None, -1)


# ------------------------------------------------------------------ lookups
def lookup_common(c, kv, found):
    """Everything a lookup does besides its result."""
    E, pre = c.E, c.pre
    k = pre.cls(kv)
    av = AV(pre)
    f = E.br(found)
    if f:
        c.check('found', 'only stored keys are found', pre.pres(k))
        if pre.timef:
            c.check('expiry', 'an entry whose time to live has passed is not found', NOT(pre.exp(k, c.t0)))
        av.touch(k)
    elif pre.timef:
        if E.br(pre.pres(k)):
            c.check('expiry', 'an entry whose time to live has not passed is found', pre.exp(k, E.st.now))
    else:
        c.check('found', 'every stored key is found', NOT(pre.pres(k)))
    post = c.same_cache('this', av)
    if c.stats is not None:
        sv = SV(c.stats[1])
        sv.count(kv, f)
        c.stats_is(sv)
    c.same_statptr()
    c.same_callbacks()
    if f:
        c.trace_is([(pre.cb['hit'], [('K', kv), ('V', pre.val(k))]), (pre.cb['access'], [('K', kv), ('b', True)])])
    else:
        c.trace_is([(pre.cb['miss'], [('K', kv)]), (pre.cb['access'], [('K', kv), ('b', False)])])
    c.args_unchanged()
    c.others_unchanged('this')
    return f, k, post


@contract('find(K)')
def _(c):
    E = c.E
    c.no_throw()
    kv = c.argkey(0)
    r = c.ret()
    it = E.st.mem[itfield(E, E.st.mem[r.id], 'it').id]
    found = NE(it.o, E.NULL)
    f, k, post = lookup_common(c, kv, found)
    c.is_iter(r, c.pre.obj(k) if f else E.NULL)


@contract('contains(K)')
def _(c):
    c.no_throw()
    lookup_common(c, c.argkey(0), c.E.tobool(c.ret()))


@contract('lookup(K)', 'operator[](K)')
def _(c):
    E = c.E
    if c.threw() is None:
        f, k, post = lookup_common(c, c.argkey(0), True)
        r = c.ret()
        c.check('ret', 'the reference returned is to the value stored under the key', isinstance(r, HLoc) and EQ(r.o, c.pre.obj(k)))
    else:
        kv = c.argkey(0)
        lookup_common(c, kv, False)
        pres = c.pre.pres(c.pre.cls(kv))
        n = c.threw()
        if n == 'LRU::Error::KeyExpired':
            c.check('error', 'KeyExpired is only thrown for an expired entry', AND(pres, c.pre.exp(c.pre.cls(kv), E.st.now)) if c.pre.timef else False)
        else:
            c.check('error', 'a failed lookup throws KeyNotFound (or KeyExpired)', n == 'LRU::Error::KeyNotFound')


# ------------------------------------------------------------------ insertion
def insert_common(c, kv, vv):
    """Returns (result flag, entry or NULL)."""
    E, pre = c.E, c.pre
    c.no_throw()
    k = pre.cls(kv)
    av = AV(pre)
    new = True
    stored = True
    if E.br(EQ(Z(pre.cap), 0)):
        new, stored = False, False
    elif E.br(pre.pres(k)):
        av.setval(k, vv)
        av.touch(k)
        av.timerange = k
        new = False
    else:
        if E.br(EQ(Z(pre.size), Z(pre.cap))):
            av.remove(pre.cat(Z(0)))
        av.add(k, kv, vv)
    post = c.same_cache('this', av)
    c.fin()
    r = c.ret()
    rv = E.load(r)
    was = E.tobool(E.val(E.member(r, 'first')))
    c.check('ret', 'success is reported exactly when the key is new and the capacity is not 0', EQ(was, new))
    c.is_iter(E.member(r, 'second'), post.obj(k) if stored else E.NULL)


@contract('insert(K,V)')
def _(c):
    insert_common(c, c.argkey(0), c.argval(1))


@contract('emplace(K,V)')
def _(c):
    insert_common(c, c.argkey(0), c.argval(1))


@contract('emplace(unit,tuple,tuple)')
def _(c):
    insert_common(c, c.tupkey, c.tupval)


# ------------------------------------------------------------------ removal
@contract('erase(K)')
def _(c):
    c.no_throw()
    pre = c.pre
    k = pre.cls(c.argkey(0))
    av = AV(pre)
    p = c.E.br(pre.pres(k))
    if p:
        av.remove(k)
    c.check('ret', 'erase tells whether the key was stored', EQ(c.E.tobool(c.ret()), p))
    c.same_cache('this', av)
    c.fin()


def erase_iter(c):
    pre = c.pre
    av = AV(pre)
    if c.itend:
        c.check('error', 'erasing a past-the-end iterator throws InvalidIterator', c.threw() == 'LRU::Error::InvalidIterator')
    else:
        c.no_throw()
        av.remove(pre.cls(pre.K(c.ito)))
    c.same_cache('this', av)
    c.fin()


CONTRACTS['erase(uit)'] = erase_iter
CONTRACTS['erase(oit)'] = erase_iter


@contract('clear()')
def _(c):
    c.no_throw()
    av = AV(c.pre)
    av.clear()
    c.same_cache('this', av)
    c.fin()


@contract('shrink(int)')
def _(c):
    c.no_throw()
    av = AV(c.pre)
    n = c.args[0]
    if c.E.br(LT(n, Z(c.pre.size))):
        av.keep_last(n)
    c.same_cache('this', av)
    c.fin()


@contract('capacity(int)')
def _(c):
    c.no_throw()
    av = AV(c.pre)
    n = c.args[0]
    if c.E.br(LT(n, Z(c.pre.size))):
        av.keep_last(n)
    av.cap = n
    c.same_cache('this', av)
    c.fin()


# ------------------------------------------------------------------ queries
def query(c, want, piece='ret'):
    c.no_throw()
    c.check(piece, 'the value returned', EQ(c.E.val(c.ret()) if want is not None else None, want))
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('size()')
def _(c):
    query(c, Z(c.pre.size))


@contract('capacity()')
def _(c):
    query(c, Z(c.pre.cap))


@contract('space_left()')
def _(c):
    query(c, Z(c.pre.cap) - Z(c.pre.size))


@contract('is_empty()')
def _(c):
    query(c, EQ(Z(c.pre.size), 0))


@contract('is_full()')
def _(c):
    query(c, EQ(Z(c.pre.size), Z(c.pre.cap)))


@contract('hash_function()')
def _(c):
    query(c, c.pre.hash, 'functors')


@contract('key_equal()')
def _(c):
    query(c, c.pre.eq, 'functors')


@contract('front()', 'back()')
def _(c):
    E, pre = c.E, c.pre
    if E.br(EQ(Z(pre.size), 0)):
        c.check('error', 'front/back of an empty cache throws EmptyCache', c.threw() == 'LRU::Error::EmptyCache')
    else:
        c.check('error', 'front/back of a non-empty cache does not throw', c.threw() is None)
        r = c.ret()
        i = Z(pre.size) - 1 if c.unit.name.startswith('front') else Z(0)
        c.check('ret', 'front is the most, back the least recently used key', isinstance(r, HLoc) and EQ(r.o, pre.ref(pre.l.seq(i))))
    c.same_cache('this', AV(pre))
    c.fin()


# ------------------------------------------------------------------ statistics and callbacks of a cache
@contract('is_monitoring()')
def _(c):
    query(c, c.pre.sp is not NULLP, 'monitor')


@contract('stats()')
def _(c):
    if c.pre.sp is NULLP:
        c.check('error', 'stats() without monitoring throws NotMonitoring', c.threw() == 'LRU::Error::NotMonitoring')
    else:
        c.no_throw()
        c.check('monitor', 'stats() is the attached statistics object', isinstance(c.ret(), Cell) and c.ret().id == c.pre.sp.loc.id)
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('shared_stats()')
def _(c):
    c.no_throw()
    c.check('monitor', 'shared_stats() is the attached statistics object', ptr_eq(c.E.val(c.ret()), c.pre.sp))
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('monitor(sptr)')
def _(c):
    c.no_throw()
    c.same_cache('this', AV(c.pre))
    c.same_statptr(expect=c.argsp)
    c.stats_is()
    c.same_callbacks()
    c.no_calls()
    c.args_unchanged()


@contract('stop_monitoring()')
def _(c):
    c.no_throw()
    c.same_cache('this', AV(c.pre))
    c.same_statptr(expect=NULLP)
    c.stats_is()
    c.same_callbacks()
    c.no_calls()
    c.args_unchanged()


@contract('monitor()', 'monitor(K)', 'monitor(K,K)')
def _(c):
    E = c.E
    c.no_throw()
    c.same_cache('this', AV(c.pre))
    post = View(E, E.st, c.this)
    ok = isinstance(post.sp, Ptr) and (c.stats is None or post.sp.loc.id != c.stats[0].id)
    c.check('statptr', 'a fresh statistics object is attached', ok)
    s = SView(E, E.st, post.sp.loc)
    fresh_stats(c, s, [c.argkey(i) for i in range(len(c.args))])
    c.stats_is()
    c.same_callbacks()
    c.no_calls()
    c.args_unchanged()


def fresh_stats(c, s, keys):
    """s counts nothing yet and monitors exactly the given keys."""
    th = c.th
    x = th.fresh('sc', th.C)
    c.check('stats', 'a fresh statistics object has counted nothing', AND(EQ(Z(s.acc), 0), EQ(Z(s.hits), 0)))
    c.check('kstats', 'it monitors exactly the keys given', EQ(s.pres(x), OR(*[EQ(x, s.cls(k)) for k in keys])))
    c.check('kstats', 'their counters are zero', IMP(s.pres(x), AND(EQ(s.khits(x), 0), EQ(s.kmisses(x), 0))))


def reg(which):
    def f(c):
        c.no_throw()
        c.same_cache('this', AV(c.pre))
        v = c.pre.cb[which]
        n, el, fn = v.len, v.elem, c.argfn
        c.same_callbacks(expect={which: VecV(n + 1, Clo(lambda i: ITE(EQ(i, n), fn, el(i))), v.et, -2)})
        c.stats_is()
        c.same_statptr()
        c.no_calls()
    return f


def unreg(*which):
    def f(c):
        c.no_throw()
        c.same_cache('this', AV(c.pre))
        c.same_callbacks(expect={w: VecV(0, c.pre.cb[w].elem, None, -2) for w in which})
        c.stats_is()
        c.same_statptr()
        c.no_calls()
    return f


for _w in ('hit', 'miss', 'access'):
    CONTRACTS['%s_callback(func)' % _w] = reg(_w)
    CONTRACTS['clear_%s_callbacks()' % _w] = unreg(_w)
CONTRACTS['clear_all_callbacks()'] = unreg('hit', 'miss', 'access')


def cbget(which):
    def f(c):
        c.no_throw()
        v = c.E.val(c.ret())
        c.check('cbset', 'the registered callbacks', vec_eq(c.E, v, c.pre.cb[which]))
        c.same_cache('this', AV(c.pre))
        c.fin()
    return f


for _w in ('hit', 'miss', 'access'):
    CONTRACTS['%s_callbacks()' % _w] = cbget(_w)


# ------------------------------------------------------------------ expiry
@contract('has_expired(K)')
def _(c):
    k = c.pre.cls(c.argkey(0))
    expired_answer(c, c.E.tobool(c.ret()) if c.threw() is None else False, AND(c.pre.pres(k)), c.pre.obj(k))
    c.no_throw()
    c.same_cache('this', AV(c.pre))
    c.fin()


def expired_answer(c, r, pres, o):
    """Two-sided: the clock is read between entry and exit."""
    pre, E = c.pre, c.E
    if E.br(r):
        c.check('expiry', 'reported expired only if stored and its time to live has passed', AND(pres, pre.expt(pre.timef(o), E.st.now)))
    else:
        c.check('expiry', 'reported unexpired only if not stored or its time to live has not passed', OR(NOT(pres), NOT(pre.expt(pre.timef(o), c.t0))))


@contract('has_expired(uit)', 'has_expired(oit)')
def _(c):
    c.no_throw()
    r = c.E.tobool(c.ret())
    if c.itend:
        c.check('expiry', 'a past-the-end iterator has not expired', NOT(r))
    else:
        expired_answer(c, r, True, c.ito)
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('is_valid(uit)', 'is_valid(oit)')
def _(c):
    c.no_throw()
    r = c.E.tobool(c.ret())
    if c.itend:
        c.check('valid', 'a past-the-end iterator is not valid', NOT(r))
    elif c.pre.timef:
        expired_answer(c, NOT(r), True, c.ito)
    else:
        c.check('valid', 'an iterator to an entry is valid', r)
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('throw_if_invalid(uit)', 'throw_if_invalid(oit)')
def _(c):
    t = c.threw()
    if c.itend:
        c.check('error', 'InvalidIterator is thrown for a past-the-end iterator', t == 'LRU::Error::InvalidIterator')
    elif c.pre.timef:
        c.check('error', 'only KeyExpired is thrown for a stored entry', t in (None, 'LRU::Error::KeyExpired'))
        expired_answer(c, t is not None, True, c.ito)
    else:
        c.check('error', 'nothing is thrown for a stored entry', t is None)
    c.same_cache('this', AV(c.pre))
    c.fin()


@contract('all_expired()')
def _(c):
    E, pre, th = c.E, c.pre, c.th
    c.no_throw()
    r = E.br(E.tobool(c.ret()))
    if r:
        x = th.fresh('c', th.C)
        c.check('expiry', 'all_expired() only if every stored entry has expired', IMP(pre.pres(x), pre.exp(x, E.st.now)))
    else:
        t0 = c.t0
        c.check('expiry', 'not all_expired() only if a stored entry has not expired',
                NOT(th.forall([th.Obj], lambda o: IMP(EQ(pre.own(o), pre.m.tok), pre.expt(pre.timef(o), t0)), lambda o: [pre.own(o)])))
    c.same_cache('this', AV(pre))
    c.fin()


@contract('clear_expired()')
def _(c):
    E, pre, th = c.E, c.pre, c.th
    c.no_throw()
    post = View(E, E.st, c.this)
    x, y = th.fresh('c', th.C), th.fresh('c', th.C)
    c.check('expiry', 'clear_expired() removes only expired entries', IMP(AND(pre.pres(x), NOT(post.pres(x))), pre.exp(x, E.st.now)))
    c.check('expiry', 'clear_expired() removes every expired entry', IMP(post.pres(x), NOT(pre.exp(x, c.t0))))
    c.check('pres', 'clear_expired() adds no entry', IMP(post.pres(x), AND(pre.pres(x), EQ(post.obj(x), pre.obj(x)))))
    c.check('val', 'values of remaining entries', IMP(post.pres(x), AND(EQ(post.val(x), pre.val(x)), EQ(post.key(x), pre.key(x)), EQ(post.time(x), pre.time(x)))))
    c.check('pos', 'remaining entries keep their relative recency', IMP(AND(post.pres(x), post.pres(y), LT(pre.pos(x), pre.pos(y))), LT(post.pos(x), post.pos(y))))
    c.check('ret', 'clear_expired() returns the number of entries removed', EQ(Z(E.val(c.ret())), Z(pre.size) - Z(post.size)))
    c.check('cap', 'the capacity', EQ(Z(post.cap), Z(pre.cap)))
    c.check('ttl', 'the time to live', EQ(Z(post.ttl), Z(pre.ttl)))
    c.check('functors', 'the hash function and key equality', AND(EQ(post.eq, pre.eq), EQ(post.hash, pre.hash)))
    c.invariant(post)
    c.fin()
