"""Core of the deductive verifier: types -> SMT sorts, values, symbolic states, and the executor of the compiler's MIR.

The program text which is verified is the MIR which rustc itself generates for /repo on every run (dumped by
/verif/driver); nothing of it is rewritten by hand. A function call is handled by (in this order) the contract of the
callee (contracts.py and the specification modules), or by the callee's own MIR if there is no contract for it."""
import json, itertools, time
import z3

class Unsupported(Exception):
    """The construct is out of the reach of the verifier: nothing is decided."""

# ------------------------------------------------------------------------------------------------ program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.fns = {f['id']: f for f in d['fns'] if f}
        self.roots = d['roots']
        self.consts = d.get('consts', [])
        self._loops = {}
        self._live = {}

    def root(self, name, pred=lambda r: True):
        return [r for r in self.roots if r['name'] == name and pred(r)]

    def succs(self, t):
        k = t['k']
        if k == 'goto': return [t['t']]
        if k == 'switch': return [x[1] for x in t['vs']] + [t['o']]
        if k in ('drop', 'assert'): return [t['t']]
        if k == 'call': return [] if t['t'] is None else [t['t']]
        return []

    def loops(self, fn):
        """natural loops: header -> set of blocks"""
        if fn['id'] in self._loops: return self._loops[fn['id']]
        B = fn['blocks']
        n = len(B)
        succ = [self.succs(b['t']) if b else [] for b in B]
        reach, stack = {0}, [0]
        while stack:
            b = stack.pop()
            for s in succ[b]:
                if s not in reach: reach.add(s); stack.append(s)
        order = []
        seen = set()
        def dfs(r):
            st = [(r, iter(succ[r]))]; seen.add(r)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen: seen.add(s); st.append((s, iter(succ[s]))); break
                else:
                    order.append(b); st.pop()
        dfs(0)
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0: continue
                nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        idx = {b: i for i, b in enumerate(rpo)}
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if s not in dom[b]: raise Unsupported('irreducible control flow in ' + fn['path'])
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self._loops[fn['id']] = loops
        return loops

    def liveness(self, fn):
        """locals live on entry to each block (any use through a reference or a projection counts as a use)"""
        if fn['id'] in self._live: return self._live[fn['id']]
        B = fn['blocks']
        use, de = [], []
        for b in B:
            u, d = set(), set()
            if b is not None:
                def rd(l):
                    if l not in d: u.add(l)
                def place_uses(p, write=False):
                    if not (write and not p['p']): rd(p['l'])
                    for e in p['p']:
                        if e[0] == 'index': rd(e[1])
                def walk(o):
                    if isinstance(o, dict):
                        if o.get('k') in ('copy', 'move'): place_uses(o['p']); return
                        if o.get('k') in ('ref', 'rawptr', 'discr'): place_uses(o['p']); return
                        for k, v in o.items():
                            if k not in ('callee',): walk(v)
                    elif isinstance(o, list):
                        for v in o: walk(v)
                for s in b['s']:
                    if s['k'] == 'assign':
                        walk(s['r']); place_uses(s['p'], True)
                        if not s['p']['p']: d.add(s['p']['l'])
                    elif s['k'] == 'setdiscr': place_uses(s['p'])
                    elif 'assume' in s: walk(s['assume'])
                t = b['t']
                if t['k'] == 'call':
                    walk(t['f']); walk(t['args']); place_uses(t['dest'], True)
                    if not t['dest']['p']: d.add(t['dest']['l'])
                elif t['k'] == 'switch': walk(t['d'])
                elif t['k'] == 'assert': walk(t['c'])
                elif t['k'] == 'return': rd(0)
                # `drop` is a no-op here and thus not a use
            use.append(u); de.append(d)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for i in range(len(B) - 1, -1, -1):
                if B[i] is None: continue
                out = set()
                for s in self.succs(B[i]['t']): out |= live[s]
                new = use[i] | (out - de[i])
                if new != live[i]: live[i] = new; ch = True
        self._live[fn['id']] = live
        return live

# ------------------------------------------------------------------------------------------------ values
class Agg:
    """A struct / enum variant / tuple / closure value whose parts are known one by one."""
    __slots__ = ('ty', 'var', 'f')
    def __init__(self, ty, var, f): self.ty, self.var, self.f = ty, var, tuple(f)
    def __repr__(self): return 'Agg(%s,%s,%s)' % (self.ty, self.var, list(self.f))

class ItV:
    """An iterator: a base or an adapter."""
    __slots__ = ('kind', 'meta', 'f')
    def __init__(self, kind, meta, f): self.kind, self.meta, self.f = kind, meta, tuple(f)
    def __repr__(self): return 'It.%s(%s)' % (self.kind, list(self.f))

class ArrV:
    """An array with elements known one by one."""
    __slots__ = ('ty', 'f')
    def __init__(self, ty, f): self.ty, self.f = ty, tuple(f)
    def __repr__(self): return 'Arr%s' % (list(self.f),)

class MutRef:
    __slots__ = ('fid', 'loc', 'proj')
    def __init__(self, fid, loc, proj): self.fid, self.loc, self.proj = fid, loc, tuple(proj)
    def __repr__(self): return '&mut %s.%s.%s' % (self.fid, self.loc, list(self.proj))
    def key(self): return (self.fid, self.loc, tuple((p[0],) + tuple(x.get_id() if z3.is_expr(x) else x for x in p[1:]) for p in self.proj))

class FnV:
    __slots__ = ('callee',)
    def __init__(self, callee): self.callee = callee

class ObjV:
    """Opaque immutable verifier-level object."""
    __slots__ = ('kind', 'data')
    def __init__(self, kind, data): self.kind, self.data = kind, data
    def __repr__(self): return 'Obj.%s' % self.kind

class DiscrV:
    __slots__ = ('term', 'ty')
    def __init__(self, term, ty): self.term, self.ty = term, ty

OPAQUE = {'ultrasonic::codex::Codex', 'ultrasonic::codex::CallError', 'ultrasonic::state::StateValue', 'ultrasonic::state::RawData',
          'ultrasonic::state::CellLock', 'zkaluvm::fe::fe256', 'amplify::io_util::IoError', 'commit_verify::ReservedBytes',
          'strict_encoding::error::DecodeError', 'strict_encoding::error::EncodeError',
          'core::alloc::layout::Layout', 'core::any::TypeId', 'core::panic::location::Location'}
MAPS = {'alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap'}
SETS = {'alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'}

class Sorts:
    def __init__(self, prog):
        self.p = prog
        self.by_key = {}
        self.info = {}        # z3 sort name -> dict(cons, test, acc) for datatypes
        self.progress = set()
        self.cache = {}
        self.ufs = {}
        self.global_facts = []
        self.strs = {}

    def key(self, ti, seen=()):
        t = self.p.T[ti]
        k = t['k']
        if k in ('ref', 'ptr'): return self.key(t['ty'])
        if k == 'bool': return 'Bool'
        if k in ('int', 'uint', 'char'): return 'Int'
        if k == 'str': return 'str'
        if k == 'slice': return 'Vec<%s>' % self.key(t['ty'])
        if k == 'array': return '[%s;%s]' % (self.key(t['ty']), t['len'])
        if k == 'tuple': return '(%s)' % ','.join(self.key(x) for x in t['tys'])
        if k == 'adt':
            p, a = t['path'], t['args']
            if p == 'alloc::vec::Vec': return 'Vec<%s>' % self.key(a[0])
            if p == 'alloc::string::String': return 'str'
            if p == 'alloc::boxed::Box': return self.key(a[0])
            if p in MAPS: return 'Map<%s,%s>' % (self.key(a[0]), self.key(a[1]))
            if p in SETS: return 'Set<%s>' % self.key(a[0])
            if p == 'core::option::Option': return 'Opt<%s>' % self.key(a[0])
            return p + ('<%s%s>' % (','.join(self.key(x) for x in a), ''.join(';%s' % c for c in t['consts'])) if a or t['consts'] else '')
        return t['name']

    def sort(self, ti):
        if ti in self.cache: return self.cache[ti]
        k = self.key(ti)
        s = self.by_key.get(k)
        if s is None:
            s = self._mk(ti, k)
            self.by_key[k] = s
        self.cache[ti] = s
        return s

    def opt(self, s, key=None):
        key = key or 'Opt<%s>' % s.name() if not isinstance(s, z3.ArraySortRef) else 'Opt<%s>' % s
        if key in self.by_key: return self.by_key[key]
        d = z3.Datatype('Opt<%s>' % s)
        d.declare('None<%s>' % s)
        d.declare('Some<%s>' % s, ('some<%s>' % s, s))
        d = d.create()
        self.by_key[key] = d
        self.info[d.name()] = True
        return d

    def vec(self, s):
        key = 'Vec!%s' % s
        if key in self.by_key: return self.by_key[key]
        d = z3.Datatype('Vec<%s>' % s)
        d.declare('mkvec<%s>' % s, ('len<%s>' % s, z3.IntSort()), ('arr<%s>' % s, z3.ArraySort(z3.IntSort(), s)))
        d = d.create()
        self.by_key[key] = d
        return d

    def _mk(self, ti, key):
        t = self.p.T[ti]
        k = t['k']
        if k in ('ref', 'ptr'): return self.sort(t['ty'])
        if k == 'bool': return z3.BoolSort()
        if k in ('int', 'uint', 'char'): return z3.IntSort()
        if k == 'str': return self.un('str')
        if k == 'slice': return self.vec(self.sort(t['ty']))
        if k == 'array': self.sort(t['ty']); return self.un(key)
        if k == 'tuple': return self.tuple_sort([self.sort(x) for x in t['tys']])
        if k == 'adt':
            p, a = t['path'], t['args']
            if p == 'alloc::vec::Vec': return self.vec(self.sort(a[0]))
            if p == 'alloc::string::String': return self.un('str')
            if p == 'alloc::boxed::Box': return self.sort(a[0])
            if p in MAPS: return z3.ArraySort(self.sort(a[0]), self.opt(self.sort(a[1])))
            if p in SETS: return z3.ArraySort(self.sort(a[0]), z3.BoolSort())
            if p == 'core::option::Option': return self.opt(self.sort(a[0]))
            vs = t.get('variants')
            if p in OPAQUE or not vs or t['adt'] == 'union' or key in self.progress: return self.un(key)
            self.progress.add(key)
            r = self._dt(key, [(v['name'], [f['ty'] for f in v['fields']]) for v in vs])
            self.progress.discard(key)
            return r
        return self.un(key)

    def tuple_sort(self, sorts):
        key = 'tup!(%s)' % ','.join(str(s) for s in sorts)
        if key not in self.by_key:
            d = z3.Datatype(key)
            d.declare(key, *[('%s.%d' % (key, j), s) for j, s in enumerate(sorts)])
            self.by_key[key] = d.create()
        return self.by_key[key]

    def un(self, name):
        k = 'un!' + name
        if k not in self.by_key: self.by_key[k] = z3.DeclareSort(name)
        return self.by_key[k]

    def _dt(self, key, variants):
        vs = [(n, [self.sort(f) for f in fs]) for n, fs in variants]
        d = z3.Datatype(key)
        for i, (n, fs) in enumerate(vs):
            d.declare('%s.%s' % (key, n), *[('%s.%s.%d' % (key, n, j), s) for j, s in enumerate(fs)])
        return d.create()

    # --- pieces of datatypes
    def is_variant(self, term, vi):
        return term.sort().recognizer(vi)(term)
    def field(self, term, vi, fi):
        s = term.sort()
        if not isinstance(s, z3.DatatypeSortRef): raise Unsupported('field of an opaque value of sort %s' % s)
        # fold accessor-of-constructor
        if z3.is_app(term) and term.decl().eq(s.constructor(vi)): return term.arg(fi)
        return s.accessor(vi, fi)(term)
    def cons(self, sort, vi, args):
        c = sort.constructor(vi)
        return c(*args) if args else c()

    def uf(self, name, args, ret):
        sig = name + '/' + ','.join(str(a.sort()) for a in args) + '>' + str(ret)
        if sig not in self.ufs: self.ufs[sig] = z3.Function(name, *[a.sort() for a in args], ret) if args else z3.Const(name, ret)
        f = self.ufs[sig]
        return f(*args) if args else f

    # --- arrays [T; N] are values of an uninterpreted sort with a content
    def arr_content(self, a, elem_sort):
        return self.uf('content', [a], z3.ArraySort(z3.IntSort(), elem_sort))
    def mkarr(self, sort, elems):
        a = self.uf('mkarr%d' % len(elems), list(elems), sort) if elems else z3.Const('emptyarr!' + sort.name(), sort)
        es = elems[0].sort() if elems else None
        for i, e in enumerate(elems):
            self.global_facts.append(z3.Select(self.arr_content(a, es), i) == e)
        return a
    def strlit(self, s):
        if s not in self.strs:
            c = z3.Const('str:"%s"' % s, self.un('str'))
            for o in self.strs.values(): self.global_facts.append(c != o)
            self.strs[s] = c
        return self.strs[s]

# ------------------------------------------------------------------------------------------------ states
class State:
    __slots__ = ('frames', 'pc', 'taint', 'known')
    NOISE = {}
    def __init__(self):
        self.frames, self.pc, self.taint, self.known = {'G': {}}, [], (), {}
    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = list(self.pc)
        s.taint = self.taint
        s.known = dict(self.known)
        return s
    def assume(self, *fs):
        for f in fs:
            if not z3.is_true(f): self.pc.append(f)
    def note(self, *fs):
        '''background facts about terms: known to the solver, but not a part of the path condition proper'''
        for f in fs:
            if f.get_id() in self.known or z3.is_true(f): continue
            self.known[f.get_id()] = f
            State.NOISE[f.get_id()] = f
            self.pc.append(f)
    @property
    def g(self): return self.frames['G']

class Obligation:
    __slots__ = ('name', 'props', 'pc', 'goal', 'where', 'status', 'time', 'taint', 'solver', 'kind')
    def __init__(self, name, props, pc, goal, where, taint, kind):
        self.name, self.props, self.pc, self.goal, self.where, self.taint, self.kind = name, props, pc, goal, where, taint, kind
        self.status, self.time, self.solver = None, 0.0, None
