"""The extracted program: types, records, functions as exported by the plugin."""
import json


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T, self.F, self.R, self.V = d['types'], d['funcs'], d['records'], d['vars']
        self._cls = {}
        self._ovr = {}
        self._ref = {}
        self._strip = {}
        self.heapcache = {}

    # ---- types ----
    def ty(self, t):
        return self.T[t]

    def refd(self, t):
        """Referred-to type of a reference type, else itself."""
        x = self.T[t]
        return x['to'] if x['k'] in ('lref', 'rref') else t

    def is_ref(self, t):
        return self.T[t]['k'] in ('lref', 'rref')

    def is_rref(self, t):
        return self.T[t]['k'] == 'rref'

    def s(self, t):
        return self.T[t]['s']

    def targ(self, t, i):
        a = self.T[t].get('args', [])
        a = [y for x in a for y in (x['pack'] if 'pack' in x else [x])]
        if i >= len(a):
            return None
        return a[i].get('type')

    def targs(self, t):
        a = self.T[t].get('args', [])
        return [y for x in a for y in (x['pack'] if 'pack' in x else [x])]

    def kind(self, t):
        k = self._cls.get(t)
        if k is None:
            k = self._cls[t] = self._kind(t)
        return k

    def _kind(self, t):
        x = self.T[t]
        k = x['k']
        if k in ('lref', 'rref'):
            return self.kind(x['to'])
        if k == 'ptr':
            return 'ptr'
        if k == 'builtin':
            if x['name'] in ('void',):
                return 'void'
            if x['name'] in ('bool', '_Bool'):
                return 'bool'
            if x.get('float'):
                return 'real'
            if 'nullptr' in x['name']:
                return 'ptr'
            return 'int'
        if k == 'enum':
            return 'int'
        if k == 'array':
            return 'array'
        if k == 'rec':
            q = x['qn']
            m = {
                'LRUvf::K': 'K', 'LRUvf::V': 'V', 'LRUvf::E': 'E', 'LRUvf::H': 'H', 'LRUvf::F': 'F', 'LRUvf::F2': 'F', 'LRUvf::V2': 'V',
                'std::equal_to': 'E', 'std::unordered_map': 'map', 'std::list': 'list', 'std::vector': 'vec',
                'std::initializer_list': 'vec', 'std::__detail::_Node_iterator': 'mapit',
                'std::__detail::_Node_const_iterator': 'mapit', 'std::__detail::_Node_iterator_base': 'mapit',
                'std::_List_iterator': 'listit', 'std::_List_const_iterator': 'listit', '__gnu_cxx::__normal_iterator': 'vecit',
                'std::reference_wrapper': 'refw', 'std::unique_ptr': 'uptr', 'std::shared_ptr': 'sptr',
                'std::__shared_ptr': 'sptr', 'std::__shared_ptr_access': 'sptr',
                'std::function': 'func', 'std::chrono::duration': 'dur', 'std::chrono::time_point': 'tp',
                'std::chrono::_V2::steady_clock': 'unit', 'std::chrono::steady_clock': 'unit',
                'std::basic_string': 'unit', 'std::allocator': 'unit', 'std::tuple': 'tuple', 'std::type_index': 'tidx',
                'std::integer_sequence': 'unit', 'std::piecewise_construct_t': 'unit', 'std::optional': 'uptr',
                'std::iterator': 'unit', 'std::nullopt_t': 'unit', 'std::reverse_iterator': 'revit',
            }.get(q)
            if m == 'unit' or m is None:
                pass
            if q == 'std::hash':
                a = self.targ(t, 0)
                if a is not None and self.kind(a) in ('K', 'KT'):
                    # the project's own specialisation for tuples is a record
                    return 'H'
                return 'H'
            if m == 'tuple':
                a = self.targs(t)
                if all('type' in x and not self.is_ref(x['type']) and self.kind(x['type']) in ('K', 'V', 'KT') for x in a):
                    return 'KT'
                return 'tuple'
            if m == 'map':
                return 'map' if self.kind(self.targ(t, 0)) in ('K', 'KT') else 'cmap'
            if m:
                return m
            if q == 'std::pair':
                a, b = self.targ(t, 0), self.targ(t, 1)
                if not self.is_ref(a) and (self.kind(a) in ('K', 'KT', 'V', 'heap') or self.kind(b) in ('V', 'heap')):
                    return 'heap'
                return 'rec'
            r = self.R[x['rec']]
            if self.derives_exc(x['rec']):
                return 'exc'
            if r and r.get('inroot') and not r.get('lambda'):
                for f in self.all_fields(x['rec']):
                    if not self.is_ref(f['t']) and self.kind(f['t']) in ('K', 'KT', 'V', 'heap'):
                        return 'heap'
            if r and (r.get('inroot') or r.get('lambda')):
                return 'rec'
            if self.derives_exc(x['rec']):
                return 'exc'
            return 'unit'
        return 'other'

    def derives_exc(self, rec):
        r = self.R[rec]
        if r is None:
            return False
        if r['qn'].startswith('std::') and r['qn'].split('::')[-1] in ('exception', 'runtime_error', 'logic_error', 'out_of_range', 'length_error', 'bad_alloc', 'invalid_argument'):
            return True
        return any(self.derives_exc(self.T[b]['rec']) for b in r.get('bases', []) if self.T[b]['k'] == 'rec')

    def is_exc(self, rec):
        return self.derives_exc(rec)

    def all_fields(self, rec):
        r = self.R[rec]
        out = []
        if not r:
            return out
        for b in r.get('bases', []):
            if self.T[b]['k'] == 'rec':
                out += self.all_fields(self.T[b]['rec'])
        out += r.get('fields', [])
        return out

    def reffields(self, rec):
        """Names of the fields of reference type (they do not keep alive what they refer to)."""
        if rec is None:
            return ()
        s = self._ref.get(rec)
        if s is None:
            lam = (self.R[rec] or {}).get('lambda')
            s = self._ref[rec] = {('#%d' % f['i'] if lam else f['n']) for f in self.all_fields(rec) if self.is_ref(f['t'])}
        return s

    def bases(self, rec):
        """rec and all its bases, most derived first."""
        out = [rec]
        r = self.R[rec]
        for b in (r or {}).get('bases', []):
            if self.T[b]['k'] == 'rec':
                out += self.bases(self.T[b]['rec'])
        return out

    # ---- functions ----
    def overridden(self, f):
        s = self._ovr.get(f)
        if s is None:
            s = set()
            for o in self.F[f].get('overrides', []) if self.F[f] else []:
                s.add(o)
                s |= self.overridden(o)
            self._ovr[f] = s
        return s

    def final_overrider(self, rec, f):
        for b in self.bases(rec):
            for m in self.R[b].get('methods', []):
                if m == f or f in self.overridden(m):
                    return m
        return f

    def methods(self, rec, name):
        out = []
        for b in self.bases(rec):
            for m in self.R[b].get('methods', []):
                if self.F[m]['n'] == name:
                    out.append(m)
        return out

    def ctors(self, rec):
        return [m for m in self.R[rec].get('methods', []) if self.F[m].get('ctor')]

    def sig(self, f):
        F = self.F[f]
        return '%s(%s)%s' % (F['qn'], ', '.join(self.s(p['t']) for p in F['params']), ' const' if F.get('constm') else '')

    def members(self, rec):
        """All extracted member functions of a record, instantiated member
        templates included."""
        if not hasattr(self, '_members'):
            self._members = {}
            for i, f in enumerate(self.F):
                if f and f.get('rec') is not None:
                    self._members.setdefault(f['rec'], []).append(i)
        return self._members.get(rec, [])
