"""Which functions are verified, under which scenarios, and how."""
import time
import z3
from theory import *
from interp import *
import stdlib
from view import *
from spec import *

CLASSES = {
    'Cache': ('LRU::Cache<LRUvf::K, LRUvf::V, LRUvf::H, LRUvf::E>',),
    'Timed': ('LRU::TimedCache<LRUvf::K, LRUvf::V, std::chrono::duration<double, std::ratio<1, 1000>>, LRUvf::H, LRUvf::E>',),
    'TimedI': ('LRU::TimedCache<LRUvf::K, LRUvf::V, std::chrono::duration<long, std::ratio<1, 1000>>, LRUvf::H, LRUvf::E>',),
}


def pkind(P, t):
    x = P.ty(P.refd(t))
    if x['k'] == 'rec':
        q = x['qn'].split('::')[-1]
        if q in ('UnorderedIterator', 'UnorderedConstIterator', 'BaseUnorderedIterator'):
            return 'uit'
        if q in ('OrderedIterator', 'OrderedConstIterator', 'BaseOrderedIterator'):
            return 'oit'
        if q == 'BaseIterator':
            return 'it'
        if q in ('BaseCache', 'Cache', 'TimedCache'):
            return 'cache'
        if q == 'Statistics':
            return 'statistics'
    return P.kind(t)


def fname(P, f):
    F = P.F[f]
    return '%s(%s)' % (F['n'], ','.join(pkind(P, p['t']) for p in F['params']))


class Unit:
    def __init__(self, cls, rec, f, name, P):
        F = P.F[f]
        self.cls, self.rec, self.f, self.name = cls, rec, f, name
        self.const = bool(F.get('constm'))
        sig = ','.join(P.s(p['t']).replace('LRUvf::', '') for p in F['params'])
        self.id = self.key = '%s::%s%s' % (cls, name, ' const' if self.const else '')
        self.sig = P.sig(f)
        self.file, self.line = F.get('file'), F.get('line')
        self.extra = {}


def find_rec(P, cls):
    out = []
    for i, r in enumerate(P.R):
        if r and r['qn'] in ('LRU::Cache', 'LRU::TimedCache') and r.get('methods'):
            out.append(i)
    return out


def class_recs(P):
    """cls name -> (record id, type id)."""
    out = {}
    for i, x in enumerate(P.T):
        if x['k'] != 'rec' or x.get('const'):
            continue
        if x['qn'] == 'LRU::Cache' and P.kind(P.targ(i, 0)) == 'K':
            out['Cache'] = (x['rec'], i)
        if x['qn'] == 'LRU::TimedCache' and P.kind(P.targ(i, 0)) == 'K':
            d = P.targ(i, 2)
            rep = P.kind(P.targ(d, 0))
            out['Timed' if rep == 'real' else 'TimedI'] = (x['rec'], i)
        if x['qn'] == 'LRU::Statistics' and P.kind(P.targ(i, 0)) == 'K':
            out['Stats'] = (x['rec'], i)
    return out


PROBLEMS = []


def enumerate_units(P):
    del PROBLEMS[:]
    import runners
    import iters
    import stats
    import wraps
    units = []
    recs = class_recs(P)
    for cls in ('Cache', 'Timed', 'TimedI'):
        if cls not in recs:
            continue
        rec = recs[cls][0]
        seen = set()
        names = {}
        for b in P.bases(rec):
            for m in P.members(b):
                F = P.F[m]
                if F.get('access') != 0 or F.get('deleted') or F.get('dtor') or F.get('ctor'):
                    continue
                if F.get('body') is None:
                    continue
                if any(m in P.overridden(s) for s in seen):
                    continue
                if F.get('static'):
                    continue
                nm = fname(P, m)
                if nm not in CONTRACTS:
                    names.setdefault(nm, []).append(m)
                    continue
                seen.add(m)
                u = Unit(cls, rec, m, nm, P)
                u.type = recs[cls][1]
                units.append(u)
        units += runners.more_units(P, cls, rec, recs[cls][1])
        if cls != 'TimedI':
            units += iters.iter_units(P, cls, rec, recs[cls][1])
            units += stats.insres_units(P, cls, rec, recs[cls][1])
    units += stats.stat_units(P)
    units += wraps.wrap_units(P)
    import client
    units += client.client_units(P, units, recs)
    # disambiguate ids
    cnt = {}
    for u in units:
        cnt.setdefault(u.id, []).append(u)
    for i, us in cnt.items():
        if len(us) > 1:
            for j, u in enumerate(us):
                u.id = '%s #%d' % (i, j + 1)
    return units


# ------------------------------------------------------------------ scenarios
def mkargs(c, F):
    """Symbolic arguments for the parameters of F."""
    E, P, th = c.E, c.P, c.th
    c.argsp = c.argfn = None
    c.itend = False
    out = []
    for p in F['params']:
        t = p['t']
        k = pkind(P, t)
        if k in ('K', 'V', 'KT'):
            o = th.fresh('arg' + k, th.Obj)
            E.assume(NE(o, E.NULL))
            if P.is_ref(t) and not P.is_rref(t):
                E.assume(NE(E.st.own(o), 0))
            else:
                E.assume(EQ(E.st.own(o), -1))
            if P.is_rref(t):
                c.exempt.append(o)
            out.append(HLoc(o, P.refd(t)))
        elif k in ('uit', 'oit'):
            out.append(mkiter(c, t, k))
        elif k == 'sptr':
            # none, other statistics, or those the cache already has
            own = getattr(c, 'stats', None)
            i = E.choose(3 if own else 2)
            v = NULLP if i == 0 else Ptr(sym_stats(E, c.statst)) if i == 1 else Ptr(own[0])
            c.argsp = v
            out.append(E.cell(v, 'argsp'))
        elif k == 'func':
            f = th.fresh('argfn', th.Fn)
            c.argfn = f
            out.append(E.cell(FnV(f), 'argfn'))
        elif k in ('int', 'bool', 'real', 'dur', 'E', 'H', 'tp'):
            v = sym(E, t, p['n'] or 'arg', {})
            out.append(E.cell(v) if P.is_ref(t) else v)
        elif k == 'unit':
            out.append(UNIT)
        elif k == 'tuple':
            items = []
            for x in P.targs(P.refd(t)):
                et = x['type']
                ek = P.kind(et)
                if ek not in ('K', 'V'):
                    raise Unsupported('tuple argument ' + P.s(t))
                o = th.fresh('arg' + ek, th.Obj)
                E.assume(NE(o, E.NULL))
                if P.is_ref(et) and not P.is_rref(et):
                    E.assume(NE(E.st.own(o), 0))
                else:
                    E.assume(EQ(E.st.own(o), -1))
                    c.exempt.append(o)
                h = HLoc(o, P.refd(et))
                items.append(h)
                if ek == 'K':
                    c.tupko = o
                else:
                    c.tupvo = o
            out.append(E.cell(TupV(items, P.refd(t)), 'argtuple'))
        elif k == 'vec':
            v = stdlib.sym_vec(E, P.targ(P.refd(t), 0), 'arg')
            c.vec = v
            c.veccell = E.cell(v, 'argvec')
            out.append(c.veccell)
        elif k == 'vecit':
            if not hasattr(c, 'vec') or c.vec is None:
                et = None
                for q in F['params']:
                    if pkind(P, q['t']) == 'vecit':
                        x = P.ty(P.targ(P.refd(q['t']), 0))
                        et = x['to']
                c.vec = stdlib.sym_vec(E, et, 'arg')
                c.vb = th.fresh('vb', th.I)
                c.ve = th.fresh('ve', th.I)
                E.assume(AND(LE(0, c.vb), LE(c.vb, c.ve), LE(c.ve, c.vec.len)))
                out.append(VIt(c.vec, c.vb))
            else:
                out.append(VIt(c.vec, c.ve))
        elif k == 'ptr' and P.ty(t)['k'] == 'ptr':
            if not hasattr(c, 'vec') or c.vec is None:
                c.vec = stdlib.sym_vec(E, P.ty(t)['to'], 'arg')
                c.vb = th.fresh('vb', th.I)
                c.ve = th.fresh('ve', th.I)
                E.assume(AND(LE(0, c.vb), LE(c.vb, c.ve), LE(c.ve, c.vec.len)))
                out.append(VIt(c.vec, c.vb))
            else:
                out.append(VIt(c.vec, c.ve))
        else:
            raise Unsupported('argument ' + P.s(t))
    return out


def itertype(E, rec):
    """Underlying iterator kind of an iterator class."""
    it = itroles(E, rec)['it']
    return next(f['t'] for f in E.P.all_fields(rec) if f['n'] == it)


def make_iter(E, t, cell, itval, ent):
    """Iterator object of the given class."""
    P = E.P
    t = P.refd(t)
    rec = P.ty(t)['rec']
    cc = E.cell(None, 'it')
    fields = {}
    roles = {n: w for w, n in itroles(E, rec).items()}
    for f in P.all_fields(rec):
        w = roles[f['n']]
        if w == 'it':
            fields[f['n']] = E.cell(itval)
        elif w == 'cache':
            fields[f['n']] = E.cell(Ptr(cell))
        elif w == 'entry':
            optrec = P.ty(P.refd(f['t']))['rec']
            of = P.all_fields(optrec)
            if len(of) != 1 or P.kind(of[0]['t']) != 'uptr':
                raise Unsupported('optional layout')
            oc = E.cell(None, 'opt')
            E.st.mem[oc.id] = RecV(optrec, P.refd(f['t']), {of[0]['n']: E.cell(ent)})
            fields[f['n']] = oc
        else:
            raise Unsupported('iterator layout: ' + f['n'])
    E.st.mem[cc.id] = RecV(rec, t, fields)
    return cc


def mkiter(c, t, k, name='this', end=None, entry=None):
    """An arbitrary iterator of the cache: past the end, or denoting a stored
    entry, with or without a remembered entry."""
    E, P, th = c.E, c.P, c.th
    t = P.refd(t)
    rec = P.ty(t)['rec']
    cell, pre = c.caches[name]
    if end is None:
        end = E.choose(2) == 0
    c.itend = end
    cc = E.cell(None, 'it')
    fields = {}
    et = None
    roles = {n: w for w, n in itroles(E, rec).items()}
    for f in P.all_fields(rec):
        w = roles[f['n']]
        if w == 'it':
            if k == 'uit':
                if end:
                    v = MapIt(E.NULL, pre.mcell, stdlib.node_type(E, pre.m.t))
                    c.ito = E.NULL
                else:
                    o = th.fresh('ito', th.Obj)
                    E.assume(EQ(E.st.own(o), pre.m.tok))
                    v = MapIt(o, pre.mcell, stdlib.node_type(E, pre.m.t))
                    c.ito = o
                    c.itn = pre.orderf(o)
            else:
                if end:
                    v = LIt(pre.l.end, pre.lcell)
                    c.ito = E.NULL
                    c.itn = pre.l.end
                else:
                    n = th.fresh('itn', th.LN)
                    E.assume(EQ(E.st.ownL(n), pre.l.tok))
                    v = LIt(n, pre.lcell)
                    c.ito = pre.ref(n)
                    c.itn = n
            fields[f['n']] = E.cell(v)
        elif w == 'cache':
            fields[f['n']] = E.cell(Ptr(cell))
        elif w == 'entry':
            optrec = P.ty(P.refd(f['t']))['rec']
            of = P.all_fields(optrec)
            if len(of) != 1 or P.kind(of[0]['t']) != 'uptr':
                raise Unsupported('optional layout')
            ent = NULLP
            if not end and (E.choose(2) == 1 if entry is None else entry):
                ert = P.targ(P.refd(of[0]['t']), 0)
                ef = P.all_fields(P.ty(P.refd(ert))['rec'])
                ec = E.cell(None, 'heapcell')
                ho = {}
                for g in ef:
                    ho[g['n']] = HLoc(c.ito, P.refd(g['t']))
                E.st.mem[ec.id] = RecV(P.ty(P.refd(ert))['rec'], P.refd(ert), ho)
                ent = Ptr(ec)
            oc = E.cell(None, 'opt')
            E.st.mem[oc.id] = RecV(optrec, P.refd(f['t']), {of[0]['n']: E.cell(ent)})
            fields[f['n']] = oc
        else:
            raise Unsupported('iterator layout: ' + f['n'])
    E.st.mem[cc.id] = RecV(rec, t, fields)
    return cc


def setup_cache(c, unit, nstats=True):
    E = c.E
    c.statst = class_recs(E.P)['Stats'][1]
    sp = NULLP
    c.stats = None
    if nstats and E.choose(2) == 1:
        sc = sym_stats(E, c.statst)
        sp = Ptr(sc)
        c.stats = (sc, None)
    eq = unit.extra.get('eq')
    cell = sym_cache(E, unit.type, 'cache', sp, eq)
    c.this = cell
    return cell


def run_method(E, unit):
    """Symbolically execute a public member function and state its contract."""
    c = Ctx(E, unit)
    P = E.P
    F = P.F[unit.f]
    cell = setup_cache(c, unit)
    c.caches['this'] = (cell, View(E, E.st, cell))
    c.args = mkargs(c, F)
    start(c)
    try:
        r = E.inline(unit.f, cell, list(c.args))
        c.outcome = ('ret', r)
    except CppThrow as ex:
        c.outcome = ('throw', ex.name)
    except stdlib_ret_errors() as ex:
        raise
    CONTRACTS[unit.name](c)
    E.ends.append(list(E.st.pc))
    return True


def stdlib_ret_errors():
    return ()


def start(c):
    """Snapshot the pre-state."""
    E = c.E
    c.pre0 = E.st.copy()
    for n, (cell, _) in list(c.caches.items()):
        c.caches[n] = (cell, View(E, c.pre0, cell))
    c.pre = c.caches['this'][1] if 'this' in c.caches else None
    if c.stats is not None:
        c.stats = (c.stats[0], SView(E, c.pre0, c.stats[0]))
    c.t0 = c.pre0.now
    K0, V0 = heapfn(E, c.pre0, 'K'), heapfn(E, c.pre0, 'V')
    c.argkey = lambda i: K0(c.args[i].o)
    c.argval = lambda i: V0(c.args[i].o)
    c.tupkey = K0(c.tupko) if hasattr(c, 'tupko') else None
    c.tupval = V0(c.tupvo) if hasattr(c, 'tupvo') else None

    E.t0 = c.t0
    import bulk
    if getattr(c, 'vec', None) is not None:
        bulk.setup(E, c.vec, getattr(c, 'vb', 0), K0, V0)
    else:
        bulk.setup(E, None, 0, K0, V0)


RUNNERS = {}


def symbolic(P, unit, max_paths=600):
    """All obligations of a unit. Returns engine."""
    th = Theory('proof')
    E = Engine(P, th, max_paths)
    E.rolescache = {}
    E.ends = []
    E.unit = unit
    runner = RUNNERS.get(unit.extra.get('run', 'method'), run_method)
    E.explore(lambda: runner(E, unit))
    return E


# ------------------------------------------------------------------ discharge
def solve(E, ob, timeout, solver='z3'):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('smt.mbqi', False)
    for a in E.th.axioms:
        s.add(Z(a))
    for f in ob.pc:
        s.add(f)
    s.add(z3.Not(Z(ob.goal)))
    r = s.check()
    return str(r), s
