"""Calls as a user writes them. Each function of Client (extract/driver.cpp) is
one use of the public interface for one way of passing the cache and the
arguments. It must satisfy the contract of the operation it names. When the
call resolves to an operation under that very contract, with the arguments
passed on unchanged, the contract of the callee is taken (its own unit proves
it); any other resolution is executed and checked against the contract."""
import z3
from theory import *
from interp import *
import units

RENAME = {'assign': 'operator=', 'index': 'operator[]', 'eq': 'operator==', 'ne': 'operator!='}


class ViaContract(Exception):
    def __init__(self, f):
        self.f = f


def same_arg(a, b):
    if isinstance(a, Cell) or isinstance(b, Cell):
        return isinstance(a, Cell) and isinstance(b, Cell) and a.id == b.id
    if isinstance(a, HLoc) and isinstance(b, HLoc):
        return a.o is b.o or a.o.eq(b.o)
    if isinstance(a, VIt) and isinstance(b, VIt):
        return a.vec is b.vec and same_arg(a.idx, b.idx)
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def same_value(E, a, b):
    """b is passed where a was expected; by-value parameters are copies."""
    if same_arg(a, b):
        return True
    x = E.st.mem.get(a.id) if isinstance(a, Cell) else a
    y = E.st.mem.get(b.id) if isinstance(b, Cell) else b
    if isinstance(x, VecV) and isinstance(y, VecV):
        return x is y
    if isinstance(x, RecV) or isinstance(y, RecV) or x is None or y is None:
        return False
    return same_arg(x, y)


def hook(E, f, this, args):
    """Called for every call the library's code is the target of."""
    cl = E.client
    if len(E.frames) != 1 or f not in cl['refs']:
        return
    got = ([this] if cl['this'] is not None else []) + list(args)
    exp = ([cl['this']] if cl['this'] is not None else []) + list(cl['rest'])
    if len(got) != len(exp):
        return
    for g, e, byval in zip(got, exp, ([False] if cl['this'] is not None else []) + cl['byval'](f)):
        if not (same_value(E, g, e) if byval else same_arg(g, e)):
            return
    raise ViaContract(f)


def enter(E, f, this, args):
    """Run client function f on the cache `this` (or None) and args."""
    u = E.unit
    P = E.P

    def byval(g):
        return [not P.is_ref(p['t']) or P.kind(p['t']) in ('int', 'bool', 'real', 'dur', 'H', 'E', 'ptr', 'vecit', 'unit') for p in P.F[g]['params']]
    E.client = dict(refs=u.extra['refs'], this=this, rest=args, byval=byval)
    try:
        return E.inline(f, None, ([this] if this is not None else []) + list(args))
    finally:
        E.client = None


def run_client(E, unit):
    try:
        return units.RUNNERS.get(unit.extra['inner'], units.run_method)(E, unit)
    except ViaContract as v:
        E.client = None
        E.used_contracts.add(E.P.sig(v.f))
        E.oblige(True, 'the call is one to %s, with the same arguments' % E.P.sig(v.f), 'via')
        E.ends.append(list(E.st.pc))
        return True


def client_units(P, units_, recs):
    out = []
    byname = {}
    for u in units_:
        byname.setdefault((u.cls, u.name), []).append(u)
    rec2cls = {}
    for cls, (rec, t) in recs.items():
        rec2cls[rec] = cls
    n0 = len(P.F)
    for f in range(n0):
        F = P.F[f]
        if not F or not F['qn'].startswith('LRUvf::') or 'Client::' not in F['qn'] or not F.get('static') or F.get('body') is None:
            continue
        ps = F['params']
        nm = F['n']
        if nm in ('make', 'copy'):
            cls = rec2cls.get(P.ty(P.refd(F['ret'])).get('rec'))
            params, const = ps, False
        else:
            cls = rec2cls.get(P.ty(P.refd(ps[0]['t'])).get('rec'))
            params = ps[1:]
            const = bool(P.ty(P.refd(ps[0]['t'])).get('const')) or P.s(P.refd(ps[0]['t'])).startswith('const ')
        if cls is None:
            units.PROBLEMS.append('client function %s has no cache' % P.sig(f))
            continue
        cname = P.R[recs[cls][0]]['qn'].split('::')[-1]
        base = cname if nm in ('make', 'copy') else RENAME.get(nm, nm)
        G = dict(F, params=params, client=f, n=base, constm=const, static=False, ctor=nm in ('make', 'copy'))
        P.F.append(G)
        g = len(P.F) - 1
        name = units.fname(P, g)
        if base == cname and nm == 'copy' or name == 'operator=(cache)':
            name += ' move' if P.is_rref(params[0]['t']) else ' copy'
        refs = byname.get((cls, name), [])
        if not refs:
            units.PROBLEMS.append('no operation has the contract of client function %s (%s)' % (P.sig(f), name))
            P.F.pop()
            continue
        u = units.Unit(cls, recs[cls][0], g, name, P)
        u.type = recs[cls][1]
        u.extra.update(refs[0].extra)
        u.extra['inner'] = u.extra.get('run', 'method')
        u.extra.update(run='client', refs={r.f for r in refs if 'client' not in r.extra}, client=True)
        sig = ', '.join(P.s(p['t']).replace('LRUvf::', '').replace('LRU::', '') for p in ps)
        sig = sig.replace(P.s(recs[cls][1]).replace('LRUvf::', '').replace('LRU::', ''), cls)
        u.id = u.key = 'call %s::%s [%s]' % (cls, nm, short(sig))
        u.sig = P.sig(f)
        out.append(u)
    return out


def short(s):
    import re
    s = re.sub(r'std::chrono::duration<[^>]*>+', 'duration', s)
    s = re.sub(r'\b\w*Iterator<.*?Cache>+', 'iterator', s) if False else s
    return s if len(s) < 160 else s[:160]


units.RUNNERS['client'] = run_client
