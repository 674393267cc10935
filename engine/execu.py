"""Symbolic executor of MIR with loop invariants; see core.py."""
import z3, time, sys
from core import *
import loops as L

import os
PROF = [0] if os.environ.get('VPROF') else None
MAXDEPTH = 60
BRANCH = int(os.environ.get('VBRANCH', '6000'))
CONFINED = 'amplify::collection::confinement::Confined'

class Diverged(Exception): pass

class Exec:
    def __init__(self, prog, solver_cfg=None):
        self.exts = {}
        self.p = prog
        self.S = Sorts(prog)
        self.T = prog.T
        self.fid = 0
        self.cnt = 0
        self.obls = []            # committed obligations
        self.buf = [self.obls]    # stack of buffers (speculative runs push one)
        self.monitor = None
        self.sites = set()
        self.axioms = []          # global background axioms
        self.feas_solver = None
        self.feas_stack = []
        self.feas_time = 0.0
        self.feas_n = 0
        self.hou_time = 0.0
        self.hou_n = 0
        self.loopctx = []
        self.used_contracts = {}
        self.executed = {}
        self.loop_stats = {}
        self.contracts = []       # list of callables(ex, st, callee, args, ctx) -> None | list of (st, val)
        self.depth = 0
        self.deadline = None
        self.where = ''
        self.loop_hooks = {}
        self.names = {}

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort):
        self.cnt += 1
        return z3.Const('%s!%d' % (name, self.cnt), sort)

    def new_frame(self, st):
        self.fid += 1
        st.frames[self.fid] = {}
        return self.fid

    def _sync(self, pc):
        if self.feas_solver is None:
            self.feas_solver = mk_solver(2_000_000)
            self.feas_stack = []
            self.feas_glob = 0
        s = self.feas_solver
        n = 0
        while n < len(self.feas_stack) and n < len(pc) and self.feas_stack[n] is pc[n]: n += 1
        if n < len(self.feas_stack):
            s.pop(len(self.feas_stack) - n)
            del self.feas_stack[n:]
        for f in pc[n:]:
            s.push(); s.add(f)
            self.feas_stack.append(f)
        return s

    def infeasible(self, st, *conds, rlimit=2_000_000):
        """True if pc /\\ conds is proved unsatisfiable"""
        t = time.time()
        s = self._sync(st.pc)
        s.push()
        for c in conds: s.add(c)
        for f in self.S.global_facts: s.add(f)
        for f in self.axioms: s.add(f)
        s.set('rlimit', rlimit)
        r = s.check()
        s.pop()
        self.feas_time += time.time() - t
        self.feas_n += 1
        if PROF: PROF.append((time.time() - t, str(r), sys._getframe(1).f_code.co_name, len(st.pc), str(conds[0])[:150] if conds else ''))
        if self.deadline and time.time() > self.deadline: raise Unsupported('out of time')
        return r == z3.unsat

    def branch(self, st, cond):
        """-> (state where cond | None, state where not cond | None)"""
        c = z3.simplify(cond)
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        ft = self.infeasible(st, cond, rlimit=BRANCH)
        if ft:
            st.assume(z3.Not(cond)); return None, st
        ff = self.infeasible(st, z3.Not(cond), rlimit=BRANCH)
        if ff:
            st.assume(cond); return st, None
        b = st.fork()
        st.assume(cond); b.assume(z3.Not(cond))
        return st, b

    def oblige(self, st, name, props, goal, kind='assert', assume=True):
        """the verifier has to prove `goal` in this state; the rest of the execution may rely on it"""
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        o = Obligation(name, frozenset(props), list(st.pc), goal, self.where, st.taint, kind)
        self.buf[-1].append(o)
        if assume: st.assume(goal)

    def panic(self, st, name):
        o = Obligation('no-panic: ' + name, frozenset(['PANIC']), list(st.pc), z3.BoolVal(False), self.where, st.taint, 'panic')
        self.buf[-1].append(o)

    def intfact(self, st, t, ti):
        ty = self.T[ti]
        while ty['k'] in ('ref', 'ptr'): ty = self.T[ty['ty']]
        if ty['k'] == 'uint' and not z3.is_int_value(t):
            st.note(z3.And(t >= 0, t < 2 ** ty['w']))
        elif ty['k'] == 'int' and not z3.is_int_value(t):
            st.note(z3.And(t >= -2 ** (ty['w'] - 1), t < 2 ** (ty['w'] - 1)))
        elif ty['k'] == 'char' and not z3.is_int_value(t):
            st.note(z3.And(t >= 0, t < 0x110000))

    def typefacts(self, st, v, ti, depth=0):
        """the ranges of the machine integers inside a value of a known type"""
        if depth > 3: return
        ti = self.strip(ti)
        t = self.T[ti]
        if t['k'] in ('uint', 'int', 'char'):
            if z3.is_expr(v) and z3.is_int(v): self.intfact(st, v, ti)
        elif isinstance(v, Agg) and not z3.is_expr(v):
            if t['k'] == 'tuple' and len(t['tys']) == len(v.f):
                for x, y in zip(v.f, t['tys']): self.typefacts(st, x, y, depth + 1)
            elif t['k'] == 'adt' and t['path'] == 'core::option::Option' and v.f: self.typefacts(st, v.f[0], t['args'][0], depth + 1)

    # ---------------------------------------------------------------- values <-> terms
    def strip(self, ti):
        while True:
            t = self.T[ti]
            if t['k'] in ('ref', 'ptr'): ti = t['ty']
            elif t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box': ti = t['args'][0]
            else: return ti

    def term(self, v, ti=None):
        if z3.is_expr(v): return v
        if isinstance(v, Agg) and v.ty == 'tuple':
            fs = [self.term(x) for x in v.f]
            return self.S.cons(self.S.tuple_sort([x.sort() for x in fs]), 0, fs)
        if isinstance(v, Agg) and isinstance(v.ty, z3.SortRef):
            return self.S.cons(v.ty, v.var or 0, [self.term(x) for x in v.f])
        if isinstance(v, Agg):
            if self.T[self.strip(v.ty)]['k'] == 'closure': raise Unsupported('closure as data')
            s = self.S.sort(v.ty)
            t = self.T[self.strip(v.ty)]
            args = []
            vi = v.var or 0
            if not isinstance(s, z3.DatatypeSortRef):
                if t['k'] == 'adt':  # an opaque type built explicitly
                    return self.S.uf('new:%s:%d' % (s, vi), [self.term(x) for x in v.f], s)
                raise Unsupported('cannot build a value of sort %s' % s)
            for x in v.f: args.append(self.term(x))
            return self.S.cons(s, vi, args)
        if isinstance(v, ArrV):
            return self.S.mkarr(self.S.sort(v.ty), [self.term(x) for x in v.f])
        if isinstance(v, DiscrV): return self.discr_int(v)
        raise Unsupported('not a data value: %r' % (v,))

    def discr_int(self, v):
        if not isinstance(v, DiscrV): return v
        ty = self.T[self.strip(v.ty)]
        vs = ty['variants']
        t = z3.IntVal(vs[-1]['discr'])
        for i in range(len(vs) - 2, -1, -1): t = z3.If(self.S.is_variant(v.term, i), z3.IntVal(vs[i]['discr']), t)
        return t

    def variants(self, ti): return self.T[self.strip(ti)].get('variants')

    # ---------------------------------------------------------------- places
    def load(self, st, ref):
        """value behind MutRef"""
        fr = st.frames.get(ref.fid)
        if fr is None or ref.loc not in fr: raise Unsupported('dangling reference %r' % ref)
        v = fr[ref.loc]
        for p in ref.proj: v = self.get_proj(st, v, p)
        return v

    def get_proj(self, st, v, p):
        if p[0] == 'f':
            if isinstance(v, (Agg, ArrV, ItV)): return v.f[p[2]]
            if isinstance(v, MutRef): return self.get_proj(st, self.load(st, v), p)
            if z3.is_expr(v): return self.S.field(v, p[1], p[2])
        if p[0] == 'i':
            if isinstance(v, ArrV):
                ix = z3.simplify(p[1])
                if z3.is_int_value(ix): return v.f[ix.as_long()]
                v = self.term(v)
            return self.elem(v, p[1], p[2])
        if p[0] == 'mv':
            return self.some_of(z3.Select(v, p[1]))
        if p[0] == 'rng':
            return self.subslice(st, self.as_slice(st, v, p[3]), p[1], p[2])
        raise Unsupported('projection %s of %r' % (p[0], v))

    def some_of(self, o): return self.S.field(o, 1, 0)

    def elem(self, v, ix, elemty):
        s = v.sort()
        if isinstance(s, z3.DatatypeSortRef) and s.name().startswith('Vec<'):
            return z3.Select(self.S.field(v, 0, 1), ix)
        return z3.Select(self.S.arr_content(v, self.S.sort(elemty)), ix)

    def store(self, st, ref, val):
        fr = st.frames[ref.fid]
        if not ref.proj: fr[ref.loc] = val
        else: fr[ref.loc] = self.upd(st, fr[ref.loc], ref.proj, val)

    def upd(self, st, v, proj, val):
        if not proj: return val
        p = proj[0]
        if isinstance(v, ObjV) and v.kind == 'uninit':
            if all(q[0] == 'f' and self.T[self.strip(q[3])].get('path', '').startswith('core::mem::') for q in proj): return val
            raise Unsupported('partial initialization')
        if p[0] in ('i', 'rng') and z3.is_expr(v) and v.sort().name().startswith('[') and int(v.sort().name().rsplit(';', 1)[1][:-1]) <= 64:
            # an array known as a whole: written element by element
            et = p[2] if p[0] == 'i' else p[3]
            n = int(v.sort().name().rsplit(';', 1)[1][:-1])
            v = self.mkarrv(et, [self.elem(v, z3.IntVal(k), et) for k in range(n)])
        if p[0] == 'f':
            if isinstance(v, MutRef):
                self.store(st, MutRef(v.fid, v.loc, v.proj + tuple(proj)), val); return v
            if isinstance(v, (Agg, ItV)):
                f = list(v.f); f[p[2]] = self.upd(st, f[p[2]], proj[1:], val)
                return Agg(v.ty, v.var, f) if isinstance(v, Agg) else ItV(v.kind, v.meta, f)
            if z3.is_expr(v):
                fs = self.variants(p[3])
                t = self.T[self.strip(p[3])]
                n = len(t['tys']) if t['k'] == 'tuple' else len(fs[p[1]]['fields'])
                f = [self.S.field(v, p[1], k) for k in range(n)]
                f[p[2]] = self.upd(st, f[p[2]], proj[1:], val)
                return Agg(self.strip(p[3]), p[1], f)
            if v is None:
                raise Unsupported('partial initialization')
        if p[0] == 'i':
            if isinstance(v, ArrV):
                ix = z3.simplify(p[1])
                if z3.is_int_value(ix):
                    f = list(v.f); k = ix.as_long(); f[k] = self.upd(st, f[k], proj[1:], val); return ArrV(v.ty, f)
                raise Unsupported('symbolic index of an array written')
            s = v.sort()
            if isinstance(s, z3.DatatypeSortRef) and s.name().startswith('Vec<'):
                ar = self.S.field(v, 0, 1)
                x = self.term(self.upd(st, z3.Select(ar, p[1]), proj[1:], val))
                return self.S.cons(s, 0, [self.S.field(v, 0, 0), z3.Store(ar, p[1], x)])
            raise Unsupported('indexed write')
        if p[0] == 'mv':
            x = self.term(self.upd(st, self.some_of(z3.Select(v, p[1])), proj[1:], val))
            return z3.Store(v, p[1], self.S.cons(self.S.opt(x.sort()), 1, [x]))
        if p[0] == 'rng' and len(proj) == 1 and isinstance(v, ArrV):
            lo, hi = z3.simplify(p[1]), z3.simplify(p[2])
            if z3.is_int_value(lo) and z3.is_int_value(hi):
                f = list(v.f)
                for k in range(lo.as_long(), hi.as_long()): f[k] = self.elem(val, z3.IntVal(k - lo.as_long()), p[3])
                return ArrV(v.ty, f)
        if p[0] == 'rng' and len(proj) == 1 and z3.is_expr(v) and v.sort().name().startswith('Vec<') and z3.is_expr(val):
            na = self.fresh('written', self.varr(v).sort())
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(p[1] <= j, j < p[2]), z3.Select(self.varr(val), j - p[1]), z3.Select(self.varr(v), j)), patterns=[z3.Select(na, j)]))
            return self.S.cons(v.sort(), 0, [self.vlen(v), na])
        raise Unsupported('write through projection %s of %r' % (p[0], v))

    def as_slice(self, st, v, elemty=None):
        """array or vector -> vector term"""
        if isinstance(v, MutRef): v = self.load(st, v)
        if isinstance(v, ArrV):
            es = self.S.sort(self.T[self.strip(v.ty)]['ty'])
            ar = z3.K(z3.IntSort(), z3.Const('undef!%s' % es, es))
            for i, x in enumerate(v.f): ar = z3.Store(ar, i, self.term(x))
            return self.S.cons(self.S.vec(es), 0, [z3.IntVal(len(v.f)), ar])
        if z3.is_expr(v):
            if v.sort().name().startswith('Vec<'): return v
            if v.sort().name().startswith('['):
                n = int(v.sort().name().rsplit(';', 1)[1][:-1])
                if elemty is None: raise Unsupported('array of unknown element type')
                es = self.S.sort(elemty)
                return self.S.cons(self.S.vec(es), 0, [z3.IntVal(n), self.S.arr_content(v, es)])
        raise Unsupported('not a slice: %r' % (v,))

    def vlen(self, v): return self.S.field(v, 0, 0)
    def varr(self, v): return self.S.field(v, 0, 1)

    def subslice(self, st, v, lo, hi):
        lo = z3.simplify(lo)
        n = z3.simplify(hi - lo)
        ar = self.varr(v)
        es = ar.sort().range()
        if z3.is_int_value(lo) and lo.as_long() == 0: na = ar
        elif z3.is_int_value(n) and n.as_long() <= 64:
            na = z3.K(z3.IntSort(), z3.Const('undef!%s' % es, es))
            for i in range(n.as_long()): na = z3.Store(na, i, z3.Select(ar, z3.simplify(lo + i)))
        else:
            na = self.fresh('sub', ar.sort())
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(na, j) == z3.Select(ar, j + lo), patterns=[z3.Select(na, j)]))
        return self.S.cons(v.sort(), 0, [n, na])

    def place_steps(self, fn, p):
        """-> list of (elem, base type)"""
        ty = fn['locals'][p['l']]['ty']
        var = None
        out = []
        for e in p['p']:
            out.append((e, ty, var))
            k = e[0]
            if k == 'deref':
                t = self.T[ty]
                ty = t['ty'] if t['k'] in ('ref', 'ptr') else t['args'][0]; var = None
            elif k == 'field': ty = e[2]; var = None
            elif k == 'downcast': var = e[1]
            elif k in ('index', 'constindex'): ty = self.T[ty]['ty']; var = None
            elif k == 'subslice': var = None
            else: raise Unsupported('place projection %s' % e)
        return out, ty

    def confined_fact(self, st, v, t):
        """the type invariant of a confined collection (its content cannot be changed from outside of its crate)"""
        if not z3.is_expr(v): return
        if v.sort().name().startswith('Vec<'): n = self.vlen(v)
        elif isinstance(v.sort(), z3.ArraySortRef):
            import iters
            n = iters.map_len(self, st, v)
        else: return
        st.note(z3.And(n >= int(t['consts'][0]), n <= int(t['consts'][1])))

    def idx(self, st, fid, e, v):
        if e[0] == 'index': return self.term(st.frames[fid][e[1]])
        if e[3]:
            n = self.vlen(self.as_slice(st, v)) if not isinstance(v, ArrV) else z3.IntVal(len(v.f))
            return n - e[1]
        return z3.IntVal(e[1])

    def read(self, st, fid, fn, p):
        fr = st.frames[fid]
        if p['l'] not in fr: raise Unsupported('read of an uninitialized local _%d in %s' % (p['l'], fn['path']))
        v = fr[p['l']]
        if not p['p']: return v
        steps, _ = self.place_steps(fn, p)
        for e, ty, var in steps:
            k = e[0]
            if k == 'deref':
                if isinstance(v, MutRef): v = self.load(st, v)
            elif k == 'downcast': pass
            elif k == 'field':
                if isinstance(v, MutRef): v = self.load(st, v)
                t = self.T[ty]
                if isinstance(v, DiscrV): raise Unsupported('field of a discriminant')
                if isinstance(v, (Agg, ItV)):
                    if isinstance(v, Agg) and v.var is not None and var is not None and v.var != var:
                        raise Unsupported('variant mismatch')
                    v = v.f[e[1]]
                elif isinstance(v, ObjV) and v.kind == 'rawbox': pass
                elif isinstance(v, ObjV): raise Unsupported('field of %r' % v)
                else: v = self.S.field(v, var or 0, e[1])
                if t['k'] == 'adt' and t['path'] == CONFINED: self.confined_fact(st, v, t)
            elif k in ('index', 'constindex'):
                ix = self.idx(st, fid, e, v)
                v = self.get_proj(st, v, ('i', ix, self.T[ty]['ty']))
            elif k == 'subslice':
                if isinstance(v, MutRef): v = self.load(st, v)
                v = self.sub_pattern(st, v, e, self.T[ty])
            else: raise Unsupported('place projection %s' % e)
        return v

    def sub_pattern(self, st, v, e, t):
        """the rest (`..`) of a slice or an array pattern"""
        _, lo, hi, from_end = e
        if t['k'] == 'array':
            n = t['len']
            hi = n - hi if from_end else hi
            if hi - lo > 64: raise Unsupported('pattern of a long array')
            for i, r in enumerate(self.T):
                if r['k'] == 'array' and r['ty'] == t['ty'] and r['len'] == hi - lo: break
            else: raise Unsupported('type of a pattern')
            if isinstance(v, ArrV): return ArrV(i, v.f[lo:hi])
            return ArrV(i, [self.elem(v, z3.IntVal(k), t['ty']) for k in range(lo, hi)])
        v = self.as_slice(st, v, t['ty'])
        self.lenfact(st, v)
        return self.subslice(st, v, z3.IntVal(lo), self.vlen(v) - hi if from_end else z3.IntVal(hi))

    def resolve(self, st, fid, fn, p):
        """place -> MutRef (the place written or mutably borrowed)"""
        f, l, pr = fid, p['l'], []
        lost = False
        steps, _ = self.place_steps(fn, p)
        for e, ty, var in steps:
            k = e[0]
            if k == 'downcast': continue
            if k == 'deref':
                v = self.load(st, MutRef(f, l, pr)) if (st.frames[f].get(l) is not None) else None
                if isinstance(v, ObjV) and v.kind == 'rawbox': v = v.data
                if isinstance(v, MutRef): f, l, pr = v.fid, v.loc, list(v.proj); lost = False
                elif self.T[ty]['k'] == 'ref' and self.T[ty]['mut']: lost = True
                elif self.T[ty]['k'] == 'ref' and not self.T[ty]['mut']: raise Unsupported('write through a shared reference')
                elif self.T[ty]['k'] == 'ref' and z3.is_expr(v): raise Unsupported('write through an unknown reference')
                continue
            if k == 'field': pr.append(('f', var or 0, e[1], ty))
            elif k in ('index', 'constindex'):
                ix = self.idx(st, fid, e, self.load(st, MutRef(f, l, pr)))
                pr.append(('i', ix, self.T[ty]['ty']))
            else: raise Unsupported('place projection %s' % e)
        if lost: raise Unsupported('write into a captured value')
        return MutRef(f, l, pr)

    def write(self, st, fid, fn, p, val):
        if not p['p']: st.frames[fid][p['l']] = val; return
        r = self.resolve(st, fid, fn, p)
        if st.frames[r.fid].get(r.loc) is None:
            raise Unsupported('partial initialization of _%s' % r.loc)
        self.store(st, r, val)

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, st, fid, fn, o):
        if o['k'] in ('copy', 'move'): return self.read(st, fid, fn, o['p'])
        if o['k'] == 'const': return self.const(st, o)
        raise Unsupported('operand %s' % o.get('dbg'))

    def const(self, st, o):
        ti = o['ty']; t = self.T[ti]; c = o['c']
        if c == 'fn': return FnV(o['callee'])
        if c == 'int':
            if t['k'] == 'bool': return z3.BoolVal(o['v'] != '0')
            if t['k'] in ('int', 'uint', 'char'): return z3.IntVal(int(o['v']))
        if c == 'promoted':
            if o['body'] is None or o['body'] not in self.p.fns: raise Unsupported('promoted constant')
            r = self.call_body(st, self.p.fns[o['body']], [])
            if len(r) != 1: raise Unsupported('promoted constant with branches')
            return r[0][1]
        if o.get('init') in self.p.fns and c == 'opaque' and 'mem' not in o:
            # the initializer of the constant
            r = self.call_body(st, self.p.fns[o['init']], [])
            if len(r) != 1: raise Unsupported('constant with branches')
            return r[0][1]
        if c == 'bytes':
            if self.T[self.strip(ti)]['k'] == 'str': return self.S.strlit(o['s'])
            if self.T[self.strip(ti)]['k'] in ('slice',):
                et = self.T[self.strip(ti)]['ty']
                return self.as_slice(st, self.mkarrv(et, [z3.IntVal(x) for x in o['v']]))
        st_ = self.strip(ti); tt = self.T[st_]
        if c == 'zst':
            if tt['k'] == 'tuple': return Agg(st_, 0, [])
            if tt['k'] == 'closure': return Agg(st_, None, [])
            if tt['k'] == 'adt' and tt['adt'] == 'struct' and tt.get('variants') is not None:
                fs = tt['variants'][0]['fields']
                return Agg(st_, 0, [self.const(st, {'ty': f['ty'], 'c': 'zst', 'dbg': o.get('dbg', '')}) for f in fs])
            if tt['k'] == 'array' and tt['len'] == 0: return ArrV(st_, [])
            return z3.Const('const:' + str(tt['name']), self.S.sort(ti))
        if 'mem' in o and tt['k'] == 'array' and self.T[tt['ty']]['k'] == 'uint' and self.T[tt['ty']]['w'] == 8 and len(o['mem']) == tt['len']:
            return ArrV(st_, [z3.IntVal(x) for x in o['mem']])
        if tt['k'] in ('closure', 'fndef', 'fnptr'): raise Unsupported('constant function value')
        return z3.Const('const:%s:%s' % (tt['name'], o.get('dbg', '')), self.S.sort(ti))

    def mkarrv(self, elemty, elems):
        """array value with no array type at hand: a type entry is synthesized"""
        self.T.append({'name': '[%s; %d]' % (self.T[elemty]['name'], len(elems)), 'k': 'array', 'ty': elemty, 'len': len(elems)})
        return ArrV(len(self.T) - 1, elems)

    def eq(self, a, b):
        """structural equality of two values"""
        if isinstance(a, (Agg, ArrV)) and type(a) is type(b) and len(a.f) == len(b.f):
            if isinstance(a, Agg) and a.var != b.var:
                return z3.BoolVal(False)
            return z3.And([self.eq(x, y) for x, y in zip(a.f, b.f)]) if a.f else z3.BoolVal(True)
        ta, tb = self.term(a), self.term(b)
        if ta.sort() != tb.sort(): raise Unsupported('comparison of %s with %s' % (ta.sort(), tb.sort()))
        s = ta.sort()
        if not isinstance(s, z3.DatatypeSortRef) and s.name().startswith('[') and ';' in s.name():
            self.extensional(ta, tb)
            return ta == tb
        if isinstance(s, z3.DatatypeSortRef) and s.name().startswith('Vec<'):
            # slices are equal when their elements are (whatever lies beyond their ends)
            na, nb, xa, xb = z3.simplify(self.vlen(ta)), z3.simplify(self.vlen(tb)), z3.simplify(self.varr(ta)), z3.simplify(self.varr(tb))
            def whole(n, x):
                if z3.is_app(x) and x.decl().name() == 'content' and x.num_args() == 1:
                    a = x.arg(0); m = a.sort().name().rsplit(';', 1)
                    if len(m) == 2 and z3.is_int_value(n) and n.as_long() == int(m[1][:-1]): return a
                return None
            wa, wb = whole(na, xa), whole(nb, xb)
            if wa is not None and wb is not None and wa.sort() == wb.sort(): return self.eq(wa, wb)
            if na.eq(nb) and xa.eq(xb): return z3.BoolVal(True)
            for n in (na, nb):
                if z3.is_int_value(n) and n.as_long() <= 256:
                    return z3.And([na == nb] + [z3.Select(xa, i) == z3.Select(xb, i) for i in range(n.as_long())])
            j = z3.Int('j!eq')
            return z3.And(na == nb, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < na), z3.Select(xa, j) == z3.Select(xb, j))))
        return ta == tb

    def extensional(self, ta, tb):
        """arrays of a fixed length are equal when their elements are"""
        s = ta.sort()
        n = int(s.name().rsplit(';', 1)[1][:-1])
        if ta.eq(tb): return
        for f in list(self.S.ufs.values()):
            if z3.is_func_decl(f) if hasattr(z3, 'is_func_decl') else isinstance(f, z3.FuncDeclRef):
                if f.name() == 'content' and f.domain(0) == s:
                    k = (f.name(), str(f.range()), ta.get_id(), tb.get_id())
                    if k in self.exts: continue
                    self.exts[k] = (ta, tb)
                    self.S.global_facts.append(z3.Implies(z3.And([z3.Select(f(ta), i) == z3.Select(f(tb), i) for i in range(n)]), ta == tb))

    def rvalue(self, st, fid, fn, r):
        k = r['k']
        if k == 'use': return self.operand(st, fid, fn, r['op'])
        if k in ('ref', 'rawptr'):
            mut = r['bk'].lower().startswith('mut')
            if mut:
                p = r['p']
                return self.resolve(st, fid, fn, p)
            v = self.read(st, fid, fn, r['p'])
            if isinstance(v, MutRef): 
                t = self.T[r['p']['ty']]
                # a shared reference to a mutable one reads through it; iterators etc. stay
                return self.load(st, v)
            return v
        if k == 'agg':
            ops = [self.operand(st, fid, fn, x) for x in r['ops']]
            if r['ak'] == 'array': return ArrV(r['ty'], ops)
            if r['ak'] in ('tuple',): return Agg(r['ty'], 0, ops)
            if r['ak'] == 'adt':
                if r.get('union'): raise Unsupported('union')
                return Agg(r['ty'], r['v'], ops)
            if r['ak'] == 'closure': return Agg(r['ty'], None, ops)
            raise Unsupported('aggregate ' + r['ak'])
        if k == 'discr':
            v = self.read(st, fid, fn, r['p'])
            if isinstance(v, MutRef): v = self.load(st, v)
            ti = self.strip(r['p']['ty'])
            if isinstance(v, Agg): return z3.IntVal(self.T[ti]['variants'][v.var or 0]['discr'])
            if z3.is_expr(v) and isinstance(v.sort(), z3.DatatypeSortRef): 
                sv = z3.simplify(v) if v.num_args() > 0 else v
                for i in range(v.sort().num_constructors()):
                    if z3.is_app(sv) and sv.decl().eq(v.sort().constructor(i)): return z3.IntVal(self.T[ti]['variants'][i]['discr'])
                return DiscrV(v, ti)
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'bin': return self.binop(st, r['bo'], self.operand(st, fid, fn, r['a']), self.operand(st, fid, fn, r['b']), self.optype(fn, r['a']))
        if k == 'un':
            a = self.operand(st, fid, fn, r['a'])
            if r['uo'] == 'Not':
                a = self.term(a)
                if z3.is_bool(a): return z3.Not(a)
                w = self.T[self.optype(fn, r['a'])]
                return 2 ** w['w'] - 1 - a if w['k'] == 'uint' else -1 - a
            if r['uo'] == 'Neg': return -self.term(a)
            if r['uo'] == 'PtrMetadata':
                v = self.as_slice(st, a); self.lenfact(st, v); return self.vlen(v)
            raise Unsupported('unary ' + r['uo'])
        if k == 'cast': return self.cast(st, fid, fn, r)
        if k == 'repeat':
            v = self.operand(st, fid, fn, r['op'])
            if r['n'] is None or r['n'] > 4096: raise Unsupported('repeat')
            return self.mkarrv(self.optype(fn, r['op']), [v] * r['n'])
        raise Unsupported('rvalue %s' % r.get('dbg', k))

    def optype(self, fn, o):
        return o['p']['ty'] if o['k'] in ('copy', 'move') else o['ty']

    def ordering(self, lt, eq):
        for i, t in enumerate(self.T):
            if t['k'] == 'adt' and t['path'] == 'core::cmp::Ordering': break
        else: raise Unsupported('the type of an ordering')
        s = self.S.sort(i)
        k = {v['name']: n for n, v in enumerate(t['variants'])}
        c = lambda n: self.S.cons(s, k[n], [])
        return z3.If(lt, c('Less'), z3.If(eq, c('Equal'), c('Greater')))

    def lenfact(self, st, v):
        n = self.vlen(v)
        if not z3.is_int_value(n): st.note(z3.And(n >= 0, n < 2 ** 63))

    def binop(self, st, op, a, b, ti):
        t = self.T[self.strip(ti)]
        a, b = self.discr_int(a), self.discr_int(b)
        if op in ('Eq', 'Ne'):
            e = self.eq(a, b)
            return e if op == 'Eq' else z3.Not(e)
        a, b = self.term(a), self.term(b)
        if z3.is_bool(a):
            if op == 'BitAnd': return z3.And(a, b)
            if op == 'BitOr': return z3.Or(a, b)
            if op == 'BitXor': return z3.Xor(a, b)
            raise Unsupported('boolean ' + op)
        if not z3.is_int(a): raise Unsupported('arithmetic on ' + str(a.sort()))
        self.intfact(st, a, ti); self.intfact(st, b, ti)
        cmp = {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}
        if op in cmp: return cmp[op]()
        if op == 'Cmp': return self.ordering(a < b, a == b)
        lo, hi = (0, 2 ** t['w']) if t['k'] != 'int' else (-2 ** (t['w'] - 1), 2 ** (t['w'] - 1))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            x = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            x = z3.simplify(x)
            inr = z3.And(x >= lo, x < hi)
            wr = (lambda y: y % 2 ** t['w']) if t['k'] != 'int' else (lambda y: (y - lo) % 2 ** t['w'] + lo)
            if op.endswith('WithOverflow'):
                ok = z3.simplify(inr)
                if not z3.is_true(ok) and not z3.is_false(ok) and self.infeasible(st, z3.Not(inr)): ok = z3.BoolVal(True)
                return ObjV('ovf', (x if z3.is_true(ok) else z3.If(inr, x, wr(x)), z3.Not(ok), x))
            if op.endswith('Unchecked'): return x
            return x if self.infeasible(st, z3.Not(inr)) else wr(x)
        if base in ('Div', 'Rem') and t['k'] == 'uint': return a / b if base == 'Div' else a % b
        if base in ('Shl', 'Shr') and z3.is_int_value(z3.simplify(b)) and t['k'] == 'uint':
            sh = 2 ** z3.simplify(b).as_long()
            return (a * sh) % hi if base == 'Shl' else a / sh
        if base == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                y = z3.simplify(y)
                if z3.is_int_value(y) and (y.as_long() + 1) & y.as_long() == 0 and y.as_long() >= 0: return x % (y.as_long() + 1)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            return self.S.uf(base + str(t['w']), [a, b], z3.IntSort())
        raise Unsupported('operation ' + op)

    def cast(self, st, fid, fn, r):
        ck = r['ck']; v = self.operand(st, fid, fn, r['op']); src = self.optype(fn, r['op']); dst = r['ty']
        if 'IntToInt' in ck:
            v = self.term(self.discr_int(v))
            if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            d, s = self.T[dst], self.T[src]
            if s['k'] == 'adt': return v
            self.intfact(st, v, src)
            if d['k'] in ('uint', 'char'):
                w = d.get('w', 32)
                if s['k'] in ('uint', 'char') and s.get('w', 32) <= w: return v
                v = z3.simplify(v)
                if z3.is_int_value(v): return z3.IntVal(v.as_long() % 2 ** w)
                return v if self.infeasible(st, z3.Not(z3.And(v >= 0, v < 2 ** w))) else v % 2 ** w
            if s['k'] == 'uint' and s['w'] < d['w'] or s['k'] == 'int' and s['w'] <= d['w']: return v
            return (v + 2 ** (d['w'] - 1)) % 2 ** d['w'] - 2 ** (d['w'] - 1)
        if 'Unsize' in ck:
            d, s = self.strip(dst), self.strip(src)
            if self.T[d]['k'] == 'slice':
                return v if isinstance(v, MutRef) else self.as_slice(st, v, self.T[d]['ty'])
            if self.T[d]['k'] == 'dyn':
                if isinstance(v, MutRef): return v
                tv = self.term(v)
                return self.S.uf('dyn', [tv], self.S.sort(d))
            return v
        if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck or 'MutToConstPointer' in ck: return v
        if isinstance(v, ObjV) and v.kind == 'rawbox':
            # the expansion of vec![...]
            if self.T[dst]['k'] in ('ptr', 'adt'): return v
            if self.T[dst]['k'] == 'uint': return self.fresh('address', z3.IntSort())
        if 'PtrToPtr' in ck or 'Transmute' in ck or 'Subtype' in ck:
            if self.S.key(dst) == self.S.key(src): return v
        raise Unsupported('cast %s from %s to %s' % (ck, self.T[src]['name'], self.T[dst]['name']))

    # ---------------------------------------------------------------- running
    def call_body(self, st, fn, args):
        """execute a function body; -> list of (state, result)"""
        if fn['id'] < 1_000_000: self.executed[fn['path']] = self.executed.get(fn['path'], 0) + 1
        self.depth += 1
        if self.depth > MAXDEPTH: raise Unsupported('recursion')
        fid = self.new_frame(st)
        fr = st.frames[fid]
        for i, a in enumerate(args):
            fr[i + 1] = a
            if i + 1 < len(fn['locals']): self.typefacts(st, a, fn['locals'][i + 1]['ty'])
        outs = self.run(st, fid, fn, 0, None, None)
        self.depth -= 1
        res = []
        for o in outs:
            assert o[0] == 'ret'
            s = o[1]
            v = s.frames[fid].get(0)
            if v is None: v = Agg(fn['locals'][0]['ty'], 0, [])
            del s.frames[fid]
            res.append((s, v))
        return res

    def run(self, st, fid, fn, bb, region, header):
        """-> [('ret', st) | ('back', st) | ('exit', st, bb)]"""
        loops = self.p.loops(fn)
        work = [(st, bb, True)]
        outs = []
        while work:
            st, bb, first = work.pop()
            while True:
                if region is not None and bb == header and not first: outs.append(('back', st)); break
                if region is not None and bb not in region: outs.append(('exit', st, bb)); break
                if bb in loops and bb != header:
                    for o in L.run_mir_loop(self, st, fid, fn, bb, loops[bb]):
                        if o[0] == 'ret': outs.append(o)
                        else: work.append((o[1], o[2], False))
                    break
                first = False
                r = self.block(st, fid, fn, bb)
                if not r: break
                rets = [x for x in r if x[1] in ('ret', 'back')]
                conts = [x for x in r if x[1] not in ('ret', 'back')]
                for s, w in rets: outs.append((w, s))
                if not conts: break
                for s, b in conts[1:]: work.append((s, b, False))
                st, bb = conts[0]
        return outs

    def block(self, st, fid, fn, bb):
        """execute one block; -> list of (state, next block | 'ret')"""
        b = fn['blocks'][bb]
        if fn.get('local'): self.curfn = fn
        for s in b['s']:
            if s['k'] == 'assign':
                if fn.get('local'): self.where = '%s:%s' % (fn['span'].split(':')[0], s['line'])
                try: v = self.rvalue(st, fid, fn, s['r'])
                except Unsupported as e: raise Unsupported('%s (%s line %s)' % (e, fn['path'], s['line'])) if ' line ' not in str(e) else e
                if isinstance(v, ObjV) and v.kind == 'ovf':
                    # (where the compiler's check of the overflow follows, what is after it has not overflown)
                    x, fl, plain = v.data
                    v = Agg(s['p']['ty'], 0, (plain if b['t']['k'] == 'assert' and b['t']['msg'].startswith('Overflow') and s is b['s'][-1] else x, fl))
                self.write(st, fid, fn, s['p'], v)
            elif s['k'] == 'setdiscr': raise Unsupported('set discriminant')
            elif 'assume' in s:
                st.assume(self.term(self.operand(st, fid, fn, s['assume'])))
        t = b['t']; k = t['k']
        if k == 'goto': return [(st, t['t'])]
        if k == 'drop': return [(st, t['t'])]
        if k == 'return': return [(st, 'ret')]
        if k in ('unreachable', 'resume'): return []
        if k == 'switch':
            d = self.operand(st, fid, fn, t['d'])
            out, rest = [], st
            conds = []
            for v, tgt in t['vs']:
                if isinstance(d, DiscrV):
                    vs = self.T[d.ty]['variants']
                    vi = [i for i, x in enumerate(vs) if x['discr'] == int(v)]
                    c = self.S.is_variant(d.term, vi[0]) if vi else z3.BoolVal(False)
                else:
                    dt = self.term(d)
                    c = (dt if v != '0' else z3.Not(dt)) if z3.is_bool(dt) else dt == int(v)
                conds.append((c, tgt))
            for c, tgt in conds:
                a, rest = self.branch(rest, c)
                if a is not None: out.append((a, tgt))
                if rest is None: break
            if rest is not None:
                ob = fn['blocks'][t['o']]
                # an `otherwise` arm which is `unreachable` is guaranteed so by the compiler (exhaustive match)
                if not (ob and ob['t']['k'] == 'unreachable' and not ob['s']): out.append((rest, t['o']))
            return out
        if k == 'assert':
            # the compiler's own checks of raw pointers, in the expansion of macros of the standard library: the crate has no unsafe code
            if t['msg'].startswith(('MisalignedPointerDereference', 'NullPointerDereference')): return [(st, t['t'])]
            c = self.term(self.operand(st, fid, fn, t['c']))
            if not t['e']: c = z3.Not(c)
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                if fn.get('local'): self.where = '%s:%s' % (fn['span'].split(':')[0], t['line'])
                self.oblige(st, 'no-panic: ' + t['msg'].split('(')[0], ['PANIC'], c, kind='panic')
                if z3.is_false(cs): return []
            return [(st, t['t'])]
        if k == 'call':
            f = self.operand(st, fid, fn, t['f'])
            args = [self.operand(st, fid, fn, a) for a in t['args']]
            if fn.get('local'): self.where = '%s:%s' % (fn['span'].split(':')[0], t['line'])
            ctx = {'fid': fid, 'fn': fn, 'bb': bb, 'line': t['line'], 'destty': t['dest']['ty'],
                   'argtys': [self.optype(fn, a) for a in t['args']]}
            try: res = self.call(st, f, args, ctx)
            except Unsupported as e: raise Unsupported('%s (%s line %s)' % (e, fn['path'], t['line'])) if ' line ' not in str(e) else e
            out = []
            for s, v in res:
                if isinstance(v, str) and v == 'BACK': out.append((s, 'back')); continue
                if t['t'] is None: continue
                self.typefacts(s, v, t['dest']['ty'])
                self.write(s, fid, fn, t['dest'], v)
                out.append((s, t['t']))
            return out
        raise Unsupported('terminator ' + str(t.get('dbg', k)))

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, ctx):
        if isinstance(f, Agg): return self.call_closure(st, f, args, ctx)
        if not isinstance(f, FnV): raise Unsupported('call of %r' % (f,))
        c = f.callee
        if 'ctor' in c:
            return [(st, Agg(c['output'], c['variant'], args))]
        for h in self.contracts:
            r = h(self, st, c, args, ctx)
            if r is not None:
                if ctx and ctx['fn'].get('local'): self.sites.add(('%s:%s' % (ctx['fn']['span'].split(':')[0], ctx['line']), c['path'], 'contract of the callee'))
                return r
        if c.get('body') is not None and c['body'] in self.p.fns:
            fn = self.p.fns[c['body']]
            if ctx and ctx['fn'].get('local'): self.sites.add(('%s:%s' % (ctx['fn']['span'].split(':')[0], ctx['line']), c['path'], 'body of the callee'))
            return self.call_body(st, fn, args)
        raise Unsupported('no contract for %s [%s]' % (c['path'], c['pretty'][:160]))

    def call_closure(self, st, f, args, ctx):
        """f: closure / function value; args: list of values"""
        ref = f
        while isinstance(f, MutRef): ref, f = f, self.load(st, f)
        if isinstance(f, FnV):
            c = f.callee
            sub = dict(ctx); sub['destty'] = c['output']; sub['argtys'] = None
            return self.call(st, f, args, sub)
        if isinstance(f, Agg):
            t = self.T[self.strip(f.ty)]
            if t['k'] == 'closure':
                if t['body'] is None or t['body'] not in self.p.fns: raise Unsupported('closure without a body')
                fn = self.p.fns[t['body']]
                return self.call_body(st, fn, [ref] + list(args))
        raise Unsupported('call of %r' % (f,))

def mk_solver(rlimit=20_000_000, ctx=None):
    s = z3.SimpleSolver()
    s.set('auto_config', False); s.set('mbqi', False); s.set('rlimit', rlimit); s.set('random_seed', 1)
    return s
