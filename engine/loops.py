"""Loops: a loop is cut at its head; what it modifies is havocked, and the executor goes on from the state described
by an inductive invariant. Invariants come from two sources: those which a specification states (monitor), which are
obligations, and candidates derived from the shape of the updates in the loop body, each of which is kept only if it is
proved inductive (so that a wrong guess costs precision, never soundness)."""
import z3, time, os
from core import *

DEBUG = os.environ.get('VDEBUG')
# the rich mode also keeps what is known of the values which come up inside of an iteration (nested loops, values found)
RICH = [bool(os.environ.get('VRICH'))]
I = z3.IntSort()

# ------------------------------------------------------------------------------------------------ slots
def get_path(v, path):
    for k in path: v = v.f[k]
    return v
def set_path(v, path, x):
    if not path: return x
    f = list(v.f); f[path[0]] = set_path(f[path[0]], path[1:], x)
    return rebuild(v, f)
def rebuild(v, f):
    if isinstance(v, Agg): return Agg(v.ty, v.var, f)
    if isinstance(v, ItV): return ItV(v.kind, v.meta, f)
    if isinstance(v, ArrV): return ArrV(v.ty, f)
    raise Unsupported('rebuild')

def explodable(t):
    s = t.sort()
    return isinstance(s, z3.DatatypeSortRef) and s.num_constructors() == 1 and not s.name().startswith(('Vec<', 'Opt<')) and s.constructor(0).arity() > 0
def explode(ex, t):
    s = t.sort()
    return Agg(s, 0, [ex.S.field(t, 0, i) for i in range(s.constructor(0).arity())])

def diff(ex, a, b, path, out):
    """slots at which the back-edge value b differs from the head value a; ('x', path) asks to explode the head value"""
    if a is b: return
    if z3.is_expr(a):
        if isinstance(b, DiscrV): b = ex.discr_int(b)
        if isinstance(b, (Agg, ArrV)) :
            if isinstance(b, Agg) and explodable(a): out.append(('x', path)); return
            b = ex.term(b)
        if not z3.is_expr(b): raise Unsupported('a value changes its kind in a loop')
        if a.eq(b): return
        if z3.simplify(a).eq(z3.simplify(b)): return
        out.append(('m', path)); return
    if isinstance(a, Agg):
        if isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f):
            for k, (x, y) in enumerate(zip(a.f, b.f)): diff(ex, x, y, path + (k,), out)
            return
        out.append(('m', path)); return
    if isinstance(a, ArrV):
        if isinstance(b, ArrV) and len(a.f) == len(b.f):
            for k, (x, y) in enumerate(zip(a.f, b.f)): diff(ex, x, y, path + (k,), out)
            return
        out.append(('m', path)); return
    if isinstance(a, ItV) and isinstance(b, ItV) and a.kind == b.kind and len(a.f) == len(b.f):
        for k, (x, y) in enumerate(zip(a.f, b.f)): diff(ex, x, y, path + (k,), out)
        return
    if isinstance(a, MutRef) and isinstance(b, MutRef) and a.key() == b.key(): return
    if isinstance(a, FnV) and isinstance(b, FnV) and a.callee is b.callee: return
    if isinstance(a, DiscrV) and isinstance(b, DiscrV) and a.term.eq(b.term): return
    raise Unsupported('a loop changes %r into %r' % (a, b))

def state_diff(ex, h, b):
    out = []
    for fid, fr in h.frames.items():
        fb = b.frames.get(fid)
        if fb is None: raise Unsupported('frame gone')
        for loc, v in fr.items():
            if loc not in fb: raise Unsupported('local gone')
            o = []
            diff(ex, v, fb[loc], (), o)
            out += [(k, (fid, loc) + p) for k, p in o]
    return out

def slot_get(st, s): return get_path(st.frames[s[0]][s[1]], s[2:])
def slot_set(st, s, v): st.frames[s[0]][s[1]] = set_path(st.frames[s[0]][s[1]], s[2:], v)

def refs_in(v, out):
    if isinstance(v, MutRef): out.append(v)
    elif isinstance(v, (Agg, ItV, ArrV)):
        for x in v.f: refs_in(x, out)

def prune_dead(st, fid, live):
    fr = st.frames[fid]
    keep = set(l for l in fr if l in live or not isinstance(l, int))
    todo = list(keep)
    # whatever a live reference points to is live (also through other frames: references never point to dead frames)
    seen = set()
    def scan(v):
        o = []; refs_in(v, o)
        for r in o:
            if r.fid == fid and r.loc not in keep and r.loc in fr:
                keep.add(r.loc); todo.append(r.loc)
    for f2, fr2 in st.frames.items():
        if f2 != fid:
            for v in fr2.values(): scan(v)
    while todo: scan(fr[todo.pop()])
    for l in list(fr):
        if l not in keep: del fr[l]

# ------------------------------------------------------------------------------------------------ terms
def consts_of(t, cache={}):
    k = t.get_id()
    if k in cache: return cache[k][1]
    r = set()
    if z3.is_quantifier(t): r = consts_of(t.body())
    elif z3.is_app(t):
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = {t.decl().name()}
        else:
            r = set()
            for c in t.children(): r |= consts_of(c)
    cache[k] = (t, r)
    return r
def has_var(t, cache={}):
    k = t.get_id()
    if k in cache: return cache[k][1]
    r = z3.is_var(t) or any(has_var(c) for c in (t.children() if not z3.is_quantifier(t) else [t.body()]))
    cache[k] = (t, r)
    return r
def has_quant(t, cache={}):
    k = t.get_id()
    if k in cache: return cache[k][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    cache[k] = (t, r)
    return r

def num_of(name):
    if '!' in name:
        try: return int(name.rsplit('!', 1)[1])
        except ValueError: return -1
    return -1

def is_store_of(v, h):
    """v = Store(h, k, x) -> (k, x)"""
    if z3.is_store(v) and v.arg(0).eq(h): return v.arg(1), v.arg(2)
    return None

def flat(z):
    """fit for a pattern?"""
    return z3.is_app(z) and z.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR) and all(flat(c) for c in z.children())

def unnamed(ex, t, base):
    """names given to terms since then are replaced by the terms"""
    for _ in range(6):
        cs = consts_of(t)
        sub = [(c, d) for c, d in ex.names.values() if num_of(c.decl().name()) > base and c.decl().name() in cs]
        if not sub: break
        t = z3.substitute(t, *sub)
    return t

def unify(p, t, holes, b):
    """t is p with terms for the holes: -> bindings (name -> term) | None"""
    if p.eq(t) and not (consts_of(p) & holes): return b
    if z3.is_quantifier(p):
        if not z3.is_quantifier(t) or p.is_forall() != t.is_forall() or p.num_vars() != t.num_vars(): return None
        return unify(p.body(), t.body(), holes, b)
    if z3.is_var(p): return b if p.eq(t) else None
    if not z3.is_app(p): return None
    n = p.decl().name() if p.num_args() == 0 else None
    if n in holes:
        if p.sort() != t.sort(): return None
        if n in b: return b if b[n].eq(t) else None
        b = dict(b); b[n] = t
        return b
    if not z3.is_app(t) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()): return None
    for x, y in zip(p.children(), t.children()):
        b = unify(x, y, holes, b)
        if b is None: return None
    return b

def is_vec(t): return isinstance(t.sort(), z3.DatatypeSortRef) and t.sort().name().startswith('Vec<')

class Cand:
    __slots__ = ('name', 'slot', 'f', 'on', 'weaker_than')
    def __init__(self, name, slot, f): self.name, self.slot, self.f, self.on, self.weaker_than = name, slot, f, True, None
    def needed(self): return self.on and not (self.weaker_than is not None and self.weaker_than.on)

def iter_slots(v, path=()):
    """(path of pos, path of end) of the base iterators inside v"""
    if isinstance(v, ItV):
        if v.kind in BASE: yield path + (1,), path + (2,)
    if isinstance(v, (ItV, Agg)):
        for k, x in enumerate(v.f): yield from iter_slots(x, path + (k,))
BASE = {'slice', 'mapit', 'setit', 'range', 'arr', 'optit', 'slicemut', 'mapmut', 'windows'}

def concrete_iter(st):
    for fid, fr in st.frames.items():
        for v in fr.values():
            for pp, pe in iter_slots(v):
                p, e = z3.simplify(get_path(v, pp)), z3.simplify(get_path(v, pe))
                if z3.is_int_value(p) and z3.is_int_value(e) and 0 <= e.as_long() - p.as_long() <= 64: return True
    return False

# ------------------------------------------------------------------------------------------------ the loop rule
def run_loop(ex, st, step, label, prune=lambda s: None, unroll=True):
    """step(state at head) -> [('back', st) | ('exit', st, payload)];  -> [('exit', st, payload)]"""
    import execu, iters
    rich = RICH[0]
    t0 = time.time()
    prune(st)
    if unroll and concrete_iter(st):
        r = try_unroll(ex, st, step, prune)
        if r is not None: return r
    mon = ex.monitor
    entry = st
    mod = set()
    base_cnt = ex.cnt

    def do_step(head):
        outs = []
        for o in step(head.fork()):
            if o[0] == 'back':
                prune(o[1])
                if mon is not None and not mon.same_block(head, o[1]):
                    outs += [('back', s2) for s2 in mon.back_edge(ex, o[1])]
                    continue
            outs.append(o)
        return outs

    # 1. what is modified
    hv = {}
    guess = ex.loop_hooks.get(label)
    for rnd in range(12):
        head = entry.fork()
        hv = {}
        for s in sorted(mod, key=str):
            t = ex.term(slot_get(head, s))
            hv[s] = ex.fresh('h_' + '_'.join(map(str, s[1:])), t.sort())
            slot_set(head, s, hv[s])
        if mon is not None and mod:
            for f in mon.early_invariants(ex, entry, mod): head.assume(f(head))
        ex.buf.append([])
        try: outs = do_step(head)
        finally: ex.buf.pop()
        new = set(); xs = set()
        for o in outs:
            if o[0] == 'back':
                for k, s in state_diff(ex, head, o[1]):
                    if k == 'x': xs.add(s)
                    else: new.add(s)
        new -= mod
        new = {s for s in new if not any(len(s) > len(q) and s[:len(q)] == q for q in new)}
        xs = {s for s in xs if not any(len(s) >= len(q) and s[:len(q)] == q for q in new)}
        if DEBUG and rnd > 6: print('  mod', label, rnd, 'new', new, 'x', xs)
        if not new and not xs: break
        if xs:
            for s in xs:
                t = slot_get(entry, s)
                # a slot which was havocked as a whole is now havocked part by part
                mod.discard(s)
                slot_set(entry, s, explode(ex, ex.term(t)))
        for s in new:
            v = slot_get(entry, s)
            if isinstance(v, (Agg, ArrV)): slot_set(entry, s, ex.term(v))
            mod = {m for m in mod if not (len(m) > len(s) and m[:len(s)] == s)}
            mod.add(s)
    else: raise Unsupported('modified state of a loop does not stabilize')
    backs = [o[1] for o in outs if o[0] == 'back']
    if not backs:
        # never iterates
        ex.buf.append([])
        outs = do_step(entry)
        b = ex.buf.pop(); ex.buf[-1].extend(b)
        if any(o[0] == 'back' for o in outs): raise Unsupported('loop analysis')
        return [o for o in outs]

    def m_key(m, k): return ex.S.uf('key_at', [m, k], m.sort().domain())
    # 2. linear slots are functions of the number of the iteration
    i = ex.fresh('i', I)
    lin = {}
    for s, h in hv.items():
        if h.sort() == I:
            cs = set()
            for b in backs:
                d = z3.simplify(ex.term(slot_get(b, s)) - h, som=True)
                cs.add(d.as_long() if z3.is_int_value(d) else None)
            if len(cs) == 1 and None not in cs: lin[s] = cs.pop()
        elif rich and is_vec(h):
            cs = set()
            for b in backs:
                v = ex.term(slot_get(b, s))
                d = z3.simplify(ex.S.field(v, 0, 0) - ex.S.field(h, 0, 0), som=True)
                cs.add(d.as_long() if z3.is_int_value(d) and z3.simplify(ex.S.field(v, 0, 1)).eq(z3.simplify(ex.S.field(h, 0, 1))) else None)
            if len(cs) == 1 and None not in cs: lin[s] = cs.pop()
    s0 = {s: ex.term(slot_get(entry, s)) for s in mod}
    def linval(s, j):
        if is_vec(s0[s]): return ex.S.cons(s0[s].sort(), 0, [z3.simplify(ex.S.field(s0[s], 0, 0) + lin[s] * j), ex.S.field(s0[s], 0, 1)])
        return z3.simplify(s0[s] + lin[s] * j)

    keep = []
    def mk_head(cands, ghosts):
        head = entry.fork()
        for f in keep: head.note(f)
        # (no loop makes 2^62 steps)
        head.assume(z3.And(i >= 0, i < 2 ** 62))
        vals = {}
        for s in mod:
            vals[s] = linval(s, i) if s in lin else hv[s]
            slot_set(head, s, vals[s])
        for g, (h, _) in ghosts.items(): vals[g] = h
        return head, vals

    # given invariants of the specification
    given = mon.loop_invariants(ex, entry, mod) if mon is not None else []
    # 3. classify the updates of the other slots
    head, vals = mk_head([], {})
    for nm, props, f in given: head.assume(f(head))
    npc = len(head.pc)
    ex.buf.append([])
    try: outs = do_step(head)
    finally: ex.buf.pop()
    backs = [o[1] for o in outs if o[0] == 'back']
    if rich:
        # what is noted in an iteration about values from before the loop is true of them after it too
        for b in backs:
            for f in b.pc[npc:]:
                if f.get_id() in State.NOISE and all(num_of(c) <= base_cnt for c in consts_of(f)) and not any(f.eq(q) for q in keep): keep.append(f)
    kinds = {}
    def popped(s, h, kv):
        k = kv[0]
        return z3.is_app(k) and k.decl().name() == 'key_at' and z3.is_int_value(z3.simplify(k.arg(1))) and \
            (k.arg(0).eq(h) or unnamed(ex, k.arg(0), base_cnt).eq(h)) and z3.simplify(k.arg(1)).as_long() == 0 and \
            (z3.is_false(kv[1]) or kv[1].sort() != z3.BoolSort() and z3.is_app(kv[1]) and kv[1].decl().eq(kv[1].sort().constructor(0)))
    def path_update(s, b):
        """-> (kind, key, value) of the update of slot s on the path b, 'same', or None"""
        h = hv[s]
        v = ex.term(slot_get(b, s))
        if v.eq(h) or z3.simplify(v).eq(h): return 'same'
        sort = h.sort()
        if isinstance(sort, z3.ArraySortRef):
            kv = is_store_of(v, h)
            if rich and kv and popped(s, h, kv): return ('pop', kv[0], None)
            return ('store',) + kv if kv else None
        if isinstance(sort, z3.DatatypeSortRef) and sort.name().startswith('Vec<'):
            ln, ar = z3.simplify(ex.S.field(v, 0, 0)), ex.S.field(v, 0, 1)
            kv = is_store_of(ar, ex.S.field(h, 0, 1))
            if kv and z3.is_int_value(z3.simplify(ln - ex.S.field(h, 0, 0))) and z3.simplify(ln - ex.S.field(h, 0, 0)).as_long() == 1 and z3.simplify(kv[0] - ex.S.field(h, 0, 0)).eq(z3.IntVal(0)):
                return ('push', None, kv[1])
            if rich and kv and z3.simplify(ln - ex.S.field(h, 0, 0)).eq(z3.IntVal(0)): return ('vstore',) + kv
            return None
        if z3.is_bool(h):
            sv = z3.simplify(v)
            if z3.is_or(sv) and any(c.eq(h) for c in sv.children()):
                rest = z3.Or([c for c in sv.children() if not c.eq(h)])
                return ('cond', rest, z3.BoolVal(True))
            if z3.is_and(sv) and any(c.eq(h) for c in sv.children()):
                rest = z3.And([c for c in sv.children() if not c.eq(h)])
                return ('cond', z3.Not(rest), z3.BoolVal(False))
        return ('over', None, v)
    fresh_ok = {h.decl().name() for h in hv.values()} | {i.decl().name()}
    subst = [(hv[s], s0[s]) for s in mod if s not in lin]
    presub, pushed, recl = [], [], []
    if rich:
        for s in sorted(mod, key=str):
            if s in lin or s[0] == 'G': continue
            ups = {u if u in (None, 'same') else u[0] for u in (path_update(s, b) for b in backs)}
            if ups == {'pop'}:
                # the least keys are taken out one by one
                presub.append((m_key(hv[s], z3.IntVal(0)), m_key(s0[s], i)))
            elif 'push' in ups and ups <= {'push', 'same'}:
                # what it was in an iteration is the beginning of what it is now
                ar = ex.fresh('now', hv[s].sort().accessor(0, 1).range())
                if ups == {'push'}: ln = z3.simplify(ex.S.field(s0[s], 0, 0) + i)
                else:
                    rl = ex.fresh('then', z3.ArraySort(I, I))
                    recl.append((('L', s), rl)); ln = z3.Select(rl, i)
                pushed.append((s, ar))
                presub += [(ex.S.field(hv[s], 0, 0), ln), (ex.S.field(hv[s], 0, 1), ar)]
    def clean(f):
        """usable in an invariant over all iterations?  (no symbols born in the body)"""
        return (rich or not has_quant(f)) and all(num_of(c) <= base_cnt or c in fresh_ok for c in consts_of(f))
    iname = i.decl().name()
    bounds = []
    for fid, fr in entry.frames.items():
        for loc, v in fr.items():
            for pp, pe in iter_slots(v):
                if (fid, loc) + pp in lin and (fid, loc) + pe not in mod:
                    bounds.append(z3.simplify(linval((fid, loc) + pp, i) < ex.term(slot_get(entry, (fid, loc) + pe))))
    def norm(y):
        if z3.is_not(y) and z3.is_app(y.arg(0)) and y.arg(0).decl().kind() in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
            t = y.arg(0).arg(0)
            if t.sort().num_constructors() == 2:
                k = [q for q in (0, 1) if t.sort().recognizer(q).eq(y.arg(0).decl()) or t.sort().recognizer(q)(t).eq(y.arg(0))]
                if k: return t.sort().recognizer(1 - k[0])(t)
        return y
    def raw(b, npc):
        out = []
        for f in b.pc[npc:]:
            if f.get_id() in State.NOISE: continue
            out += f.children() if z3.is_and(f) else [f]
        return [unnamed(ex, x, base_cnt) for x in out] if rich else out
    def hole_names(f): return {c for c in consts_of(f) if num_of(c) > base_cnt and c not in fresh_ok and c not in hole_ok}
    hole_ok = set()
    templates = []     # per path: (conjuncts, updates, names of the holes, name -> ghost)
    if rich:
        for bi, b in enumerate(backs):
            cs = raw(b, npc)
            us = {}
            for s in sorted(mod, key=str):
                if s in lin or s[0] == 'G': continue
                u = path_update(s, b)
                if u and u != 'same': us[s] = tuple(unnamed(ex, x, base_cnt) if z3.is_expr(x) else x for x in u)
            terms = cs + [x for u in us.values() for x in u if z3.is_expr(x)]
            hs = {}
            def find(t):
                if z3.is_quantifier(t): find(t.body())
                elif z3.is_app(t):
                    if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in want: hs[t.decl().name()] = t
                    for c in t.children():
                        if consts_of(c) & want: find(c)
            for t in terms:
                want = hole_names(t) - set(hs)
                if want: find(t)
            if len(hs) > 60: hs = {}
            gh = {n: (('h', bi, n), ex.fresh('rec', z3.ArraySort(I, c.sort())), c) for n, c in hs.items()}
            templates.append((cs, us, frozenset(hs), gh))
        hole_ok |= {g[1].decl().name() for t in templates for g in t[3].values()}
    def filled(f, bi):
        """with what has been recorded for the iteration in the place of the values born in it"""
        if not rich: return f
        f = unnamed(ex, f, base_cnt)
        hs = templates[bi][3]
        sub = [(hs[n][2], z3.Select(hs[n][1], i)) for n in consts_of(f) if n in hs]
        if sub: f = z3.substitute(f, *sub)
        return z3.substitute(f, *presub) if presub else f
    hole_ok |= {a.decl().name() for _, a in pushed} | {a.decl().name() for _, a in recl}
    fresh_ok |= hole_ok
    def conjs(b, bi):
        out = []
        for x in raw(b, npc):
                x = filled(x, bi)
                if clean(x):
                    y = z3.substitute(x, *subst) if subst else x
                    y = norm(z3.simplify(y))
                    # being within the bounds of the iterator is known anyway
                    if not z3.is_true(y) and not any(y.eq(q) for q in out + bounds): out.append(y)
        return out
    cj = [conjs(b, bi) for bi, b in enumerate(backs)]
    W0 = [z3.And(c) if c else z3.BoolVal(True) for c in cj]
    cands, ghosts = [], {}
    for t in templates:
        for g, sym, c in t[3].values(): ghosts[g] = (sym, z3.K(I, z3.Const('none!%s' % c.sort(), c.sort())))
    recs = [(g, sym) for t in templates for g, sym, c in t[3].values()] + recl
    for g, sym in recl: ghosts[g] = (sym, z3.K(I, z3.IntVal(0)))
    def with_records(f, v):
        sub = [(sym, v[g]) for g, sym in recs if not v[g].eq(sym)] + [(a, ex.S.field(v[s], 0, 1)) for s, a in pushed]
        return z3.substitute(f, *sub) if sub else f
    j, jj = z3.Int('j!q'), z3.Int('jj!q')
    def at(f, x): return z3.substitute(f, (i, x))
    def rng(x, n): return z3.And(x >= 0, x < n)
    cover = {}
    skip_ = set()
    def pats(*fs):
        """patterns for a statement about iteration j: the reads of the collection walked over"""
        out = {}
        def walk(t, seen=set()):
            if z3.is_quantifier(t) and rich: walk(t.body()); return
            if z3.is_quantifier(t) or not z3.is_app(t): return
            if t.decl().name() in skip_: return
            if t.num_args() and j.decl().name() in consts_of(t):
                a = t.children()
                if (t.decl().name() == 'key_at' or z3.is_select(t)) and not (rich and has_var(t)) and a[1].eq(j) and j.decl().name() not in consts_of(a[0]): out[t.get_id()] = t
                for c in a: walk(c)
        for f in fs:
            if f is not None: walk(at(f, j))
        return list(out.values())
    def turned(*fs):
        """reads at a position c - j or c + j: the statement is then about this position, j being computed from it"""
        out = []
        def walk(t):
            if z3.is_quantifier(t) or not z3.is_app(t) or j.decl().name() not in consts_of(t): return
            a = t.children()
            if len(a) == 2 and (t.decl().name() == 'key_at' or z3.is_select(t)) and a[1].sort() == I and not has_var(t) and not a[1].eq(j) and j.decl().name() in consts_of(a[1]) and j.decl().name() not in consts_of(a[0]):
                c = z3.simplify(z3.substitute(a[1], (j, z3.IntVal(0))))
                d = z3.simplify(z3.substitute(a[1], (j, z3.IntVal(1))) - c)
                if z3.is_int_value(d) and abs(d.as_long()) == 1 and z3.simplify(a[1] - c - d * j).eq(z3.IntVal(0)): out.append((t.decl()(a[0], j), z3.simplify(d * (j - c))))
            for c in a: walk(c)
        for f in fs:
            if f is not None: walk(at(f, j))
        return out
    def All(body, *fs):
        ps = pats(*fs)
        if not ps:
            tn = turned(*fs)
            if tn: return z3.ForAll([j], z3.substitute(body, (j, tn[0][1])), patterns=[q for q, e in tn if e.eq(tn[0][1])])
        return z3.ForAll([j], body, patterns=ps) if ps else z3.ForAll([j], body)
    # 3a. facts which hold on each completed iteration
    if cj:
        common = [c for c in cj[0] if all(any(c.eq(d) for d in k) for k in cj[1:])]
        for c in common:
            ps = [c] if pats(c) else common if rich else []
            if iname in consts_of(c) and pats(*ps):
                cands.append(Cand('trace', None, lambda v, n, c=c, ps=ps: All(z3.Implies(rng(j, n), at(c, j)), *ps)))
            elif iname in consts_of(c):
                cands.append(Cand('last', None, lambda v, n, c=c: z3.Implies(n > 0, at(c, n - 1))))
        if len(cj) > 1 and all(cj):
            d = z3.Or(W0)
            if iname in consts_of(d) and pats(d):
                cands.append(Cand('trace*', None, lambda v, n: All(z3.Implies(rng(j, n), at(d, j)), d)))
    # 3b. bounds of iterators
    for fid, fr in entry.frames.items():
        for loc, v in fr.items():
            for pp, pe in iter_slots(v):
                sp, se = (fid, loc) + pp, (fid, loc) + pe
                if sp in mod and se not in mod:
                    e = ex.term(slot_get(entry, se))
                    cands.append(Cand('bound', None, lambda v, n, sp=sp, e=e: v[sp] <= e))
                    cands.append(Cand('bound0', None, lambda v, n, sp=sp, e=e: z3.Or(v[sp] <= e, n == 0)))
                    cands[-1].weaker_than = cands[-2]
    def counting(s, get, z, W):
        """a number of iterations: all of them, some, none"""
        if not clean(W): return
        gy, gn_ = ('yes', s), ('no', s)
        ghosts[gy] = (ex.fresh('yes', I), z3.IntVal(-1)); ghosts[gn_] = (ex.fresh('no', I), z3.IntVal(-1))
        cands.append(Cand('icount0', s, lambda v, n: z3.And(get(v) >= z, get(v) <= z + n)))
        cands.append(Cand('icount1', s, lambda v, n: z3.Or(get(v) == z + n, z3.And(rng(v[gn_], n), z3.Not(at(W, v[gn_]))))))
        cands.append(Cand('icount2', s, lambda v, n: z3.Or(get(v) == z, z3.And(rng(v[gy], n), at(W, v[gy])))))
        cands.append(Cand('icount3', s, lambda v, n: z3.Implies(get(v) == z + n, All(z3.Implies(rng(j, n), at(W, j)), W))))
        cands.append(Cand('icount4', s, lambda v, n: z3.Implies(get(v) == z, All(z3.Implies(rng(j, n), z3.Not(at(W, j))), W))))
    for s in lin:
        if is_vec(s0[s]): cands.append(Cand('bound', None, lambda v, n, s=s: ex.S.field(v[s], 0, 0) >= 0))
    # 3c. accumulators
    def pick(upds, k):
        """value of component k of the update, as a function of the iteration"""
        r = None
        for (u, w) in upds:
            x = z3.substitute(u[k], *subst) if subst else u[k]
            x = z3.simplify(x)
            r = x if r is None else z3.If(w, x, r)
        return r
    given_slots = mon.given_slots(ex, entry, mod) if mon is not None else set()
    for s in sorted(mod, key=str):
        if s in lin: continue
        h, z = hv[s], s0[s]
        if s in given_slots: kinds[s] = 'given'; continue
        if s[0] == 'G': kinds[s] = 'ghost'; continue
        ups = [path_update(s, b) for b in backs]
        if rich: ups = [u if u is None or u == 'same' else tuple(filled(x, bi) if z3.is_expr(x) else x for x in u) for bi, u in enumerate(ups)]
        ks = {u if u == 'same' else (u[0] if u else None) for u in ups}
        nm = '_'.join(map(str, s))
        if ks - {'same'} == {'over', 'cond'} and z3.is_bool(h):
            # the same constant, set with and without a condition
            cv_ = {z3.simplify(u[2]).sexpr() for u in ups if u != 'same'}
            if len(cv_) == 1 and cv_ <= {'true', 'false'}:
                ups = [('cond', z3.BoolVal(True), u[2]) if u != 'same' and u[0] == 'over' else u for u in ups]
                ks -= {'over'}
        if None not in ks and len(ks - {'same'}) == 1:
            kind = (ks - {'same'}).pop()
            sel = [(u, W0[n]) for n, u in enumerate(ups) if u != 'same']
            if kind == 'cond':
                sel = [(('over', None, u[2]), z3.And(w, z3.simplify(z3.substitute(u[1], *subst)))) for u, w in sel]
                kk = 'over'
            else: kk = kind
            W = z3.simplify(z3.Or([w for _, w in sel]))
            V = pick(sel, 2) if kind != 'pop' else None
            K = pick(sel, 1) if kind in ('store', 'vstore') else None
            ok = all(clean(x) for x in (W, V, K) if x is not None)
            if kk == 'pop':
                a = z3.Const('a!q', h.sort().domain())
                has = lambda m, k, h=h: z3.Select(m, k) if h.sort().range() == z3.BoolSort() else ex.S.is_variant(z3.Select(m, k), 1)
                size = lambda m: ex.S.uf('size', [m], I)
                idx = lambda k, z=z: ex.S.uf('idx_of', [z, k], I)
                iters.enum_facts(ex, entry, z)
                D1 = Cand('D1', s, lambda v, n, s=s, a=a, z=z: z3.ForAll([a], z3.If(z3.And(has(z, a), idx(a) >= n), v[s][a] == z[a], z3.Not(has(v[s], a))), patterns=[v[s][a]] + ([z[a]] if flat(z) else [])))
                D2 = Cand('D2', s, lambda v, n, s=s, z=z: z3.And(n <= size(z), size(v[s]) == size(z) - n))
                D3 = Cand('D3', s, lambda v, n, s=s, z=z: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < size(z) - n), m_key(v[s], j) == m_key(z, j + n)), patterns=[m_key(v[s], j)]))
                cands += [D1, D2, D3]; cover[s] = [D1, D2, D3]
                kinds[s] = 'pop'
            elif ok and kk in ('store', 'vstore'):
                if kk == 'vstore':
                    arr_, s_, z_ = (lambda t: ex.S.field(t, 0, 1)), s, z
                    h, z = arr_(h), arr_(z)
                    cands.append(Cand('Sl', s, lambda v, n, s=s, z_=z_: ex.S.field(v[s], 0, 0) == ex.S.field(z_, 0, 0)))
                else: arr_ = lambda t: t
                ks_ = h.sort().domain()
                gw = ('w', s)
                ghosts[gw] = (ex.fresh('wit', z3.ArraySort(ks_, I)), z3.K(ks_, z3.IntVal(-1)))
                a = z3.Const('a!q', ks_)
                def S1(v, n, s=s, arr_=arr_, gw=gw, a=a, z=z): return z3.ForAll([a], z3.Implies(v[gw][a] == -1, arr_(v[s])[a] == z3.simplify(z[a])), patterns=[v[gw][a], arr_(v[s])[a]] + ([z[a]] if flat(z) else []))
                def S2(v, n, s=s, arr_=arr_, gw=gw, a=a, W=W, K=K): return z3.ForAll([a], z3.Implies(v[gw][a] != -1, z3.And(rng(v[gw][a], n), at(W, v[gw][a]), at(K, v[gw][a]) == a)), patterns=[v[gw][a], arr_(v[s])[a]])
                def S3(v, n, s=s, arr_=arr_, gw=gw, a=a, V=V): return z3.ForAll([a], z3.Implies(v[gw][a] != -1, arr_(v[s])[a] == at(V, v[gw][a])), patterns=[v[gw][a], arr_(v[s])[a]])
                def S4(v, n, gw=gw, W=W, K=K): return All(z3.Implies(z3.And(rng(j, n), at(W, j)), v[gw][at(K, j)] >= j), K, W)
                # no key is written twice
                def S5(v, n, gw=gw, W=W, K=K): return All(z3.Implies(z3.And(rng(j, n), at(W, j)), v[gw][at(K, j)] == j), K, W)
                cs = [Cand('S1', s, S1), Cand('S2', s, S2), Cand('S3', s, S3), Cand('S4', s, S4), Cand('S5', s, S5)]
                cs[3].weaker_than = cs[4]
                cands += cs; cover[s] = cs[:4]
                kinds[s] = kk
            elif ok and kk == 'push':
                F = ex.S.field
                l0, a0 = F(z, 0, 0), F(z, 0, 1)
                ln = lambda v, s=s: F(v[s], 0, 0)
                ar = lambda v, s=s: F(v[s], 0, 1)
                P3 = Cand('P3', s, lambda v, n, ln=ln, ar=ar, l0=l0, a0=a0: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l0), ar(v)[j] == a0[j]), patterns=[ar(v)[j]] + ([a0[j]] if flat(a0) else [])))
                triv = z3.is_int_value(z3.simplify(l0)) and z3.simplify(l0).as_long() == 0
                if not triv: cands.append(P3)
                if 'same' not in ks:
                    P1 = Cand('P1', s, lambda v, n, ln=ln, l0=l0: ln(v) == l0 + n)
                    # the content is stated over positions of the vector, to be found by its reads
                    def P2(v, n, ln=ln, ar=ar, l0=l0, V=V):
                        l0 = z3.simplify(l0)
                        return z3.ForAll([j], z3.Implies(z3.And(l0 <= j, j < l0 + n), ar(v)[j] == at(V, z3.simplify(j - l0))), patterns=[ar(v)[j]])
                    P2 = Cand('P2', s, P2)
                    def P2x(v, n, ar=ar, l0=l0, V=V):
                        l0 = z3.simplify(l0)
                        return All(z3.Implies(rng(j, n), ar(v)[z3.simplify(l0 + j)] == at(V, j)), V)
                    P2x = Cand('P2x', s, P2x)
                    cands += [P1, P2, P2x]; cover[s] = [P1, P2]
                else:
                    gs, gd = ('src', s), ('dst', s)
                    arI = z3.ArraySort(I, I)
                    ghosts[gs] = (ex.fresh('src', arI), z3.K(I, z3.IntVal(-1)))
                    ghosts[gd] = (ex.fresh('dst', arI), z3.K(I, z3.IntVal(-1)))
                    P4 = Cand('P4', s, lambda v, n, ln=ln, l0=l0: z3.And(l0 <= ln(v), ln(v) <= l0 + n))
                    P5 = Cand('P5', s, lambda v, n, ln=ln, ar=ar, l0=l0, gs=gs, W=W, V=V: z3.ForAll([j], z3.Implies(z3.And(l0 <= j, j < ln(v)), z3.And(rng(v[gs][j], n), at(W, v[gs][j]), ar(v)[j] == at(V, v[gs][j]))), patterns=[ar(v)[j], v[gs][j]]))
                    P6 = Cand('P6', s, lambda v, n, ln=ln, ar=ar, l0=l0, gs=gs, gd=gd, W=W, V=V: All(z3.Implies(z3.And(rng(j, n), at(W, j)), z3.And(l0 <= v[gd][j], v[gd][j] < ln(v), ar(v)[v[gd][j]] == at(V, j), v[gs][v[gd][j]] == j)), W, V))
                    P7 = Cand('P7', s, lambda v, n, ln=ln, l0=l0, gs=gs: z3.ForAll([j, jj], z3.Implies(z3.And(l0 <= j, j < jj, jj < ln(v)), v[gs][j] < v[gs][jj]), patterns=[z3.MultiPattern(v[gs][j], v[gs][jj])]))
                    if rich: counting(s, ln, l0, W)
                    cands += [P4, P5, P6, P7]; cover[s] = [P4, P5, P6]
                kinds[s] = 'push'
            elif ok and kk == 'over':
                gw = ('w', s)
                ghosts[gw] = (ex.fresh('last', I), z3.IntVal(-1))
                O0 = Cand('O0', s, lambda v, n, gw=gw: z3.And(v[gw] >= -1, v[gw] < n))
                O1 = Cand('O1', s, lambda v, n, s=s, gw=gw, z=z: z3.Implies(v[gw] == -1, v[s] == z))
                O2 = Cand('O2', s, lambda v, n, s=s, gw=gw, W=W, V=V: z3.Implies(v[gw] != -1, z3.And(at(W, v[gw]), v[s] == at(V, v[gw]))))
                O3 = Cand('O3', s, lambda v, n, gw=gw, W=W: z3.ForAll([j], z3.Implies(z3.And(v[gw] < j, 0 <= j, j < n), z3.Not(at(W, j)))))
                cands += [O0, O1, O2, O3]; cover[s] = [O0, O1, O2, O3]
                kinds[s] = ('over', W0)
            else: kinds[s] = None
        else: kinds[s] = None
        if rich and z3.is_int(h):
            ds = [z3.simplify(ex.term(slot_get(b, s)) - h, som=True) for b in backs]
            if all(z3.is_int_value(d) and d.as_long() in (0, 1) for d in ds):
                W = z3.simplify(z3.Or([w for d, w in zip(ds, W0) if d.as_long() == 1]))
                counting(s, lambda v, s=s: v[s], z, W)
        # generic guesses
        if s[0] != 'G' and kinds[s] not in ('store', 'push', 'pop', 'vstore'):
            extra = [Cand('const', s, lambda v, n, s=s, z=z: v[s] == z)]
            if z3.is_bool(h):
                extra += [Cand('first', s, lambda v, n, s=s: v[s] == (n == 0)), Cand('later', s, lambda v, n, s=s: v[s] == (n != 0))]
            elif z3.is_int(h):
                extra += [Cand('izero', s, lambda v, n, s=s, z=z: (v[s] == z) == (n == 0)), Cand('imono', s, lambda v, n, s=s, z=z: v[s] >= z),
                          Cand('icount', s, lambda v, n, s=s, z=z: v[s] <= z + n)]
            elif isinstance(h.sort(), z3.DatatypeSortRef) and h.sort().name().startswith('Opt<'):
                extra += [Cand('ofirst', s, lambda v, n, s=s: ex.S.is_variant(v[s], 1) == (n == 0)),
                          Cand('olater', s, lambda v, n, s=s: ex.S.is_variant(v[s], 1) == (n != 0)),
                          Cand('osame', s, lambda v, n, s=s, z=z: z3.Implies(ex.S.is_variant(v[s], 1), v[s] == z))]
            elif isinstance(h.sort(), z3.DatatypeSortRef) and 2 <= h.sort().num_constructors() <= 4 and all(h.sort().constructor(k).arity() == 0 for k in range(h.sort().num_constructors())):
                for k in range(h.sort().num_constructors()):
                    extra += [Cand('vfirst%d' % k, s, lambda v, n, s=s, k=k: ex.S.is_variant(v[s], k) == (n == 0)),
                              Cand('vlater%d' % k, s, lambda v, n, s=s, k=k: ex.S.is_variant(v[s], k) == (n != 0))]
            if kinds[s] is None:
                for gn, gv in entry.g.items():
                    if z3.is_expr(gv) and gv.sort() == h.sort() and ('G', gn) != s and s[0] != 'G' and (gn in ('S', 'R', 'n')):
                        extra.append(Cand('ghost:' + gn, s, lambda v, n, s=s, gn=gn: v[s] == v.get(('G', gn), entry.g[gn])))
            cands += extra
            cover.setdefault(s, []).append(extra)
    # 4. keep what is inductive
    env0 = {s: s0[s] for s in mod}
    for g, (_, z) in ghosts.items(): env0[g] = z
    def holds(stt, f):
        ex.hou_n += 1
        if ex.infeasible(stt, z3.Not(f)): return True
        if not rich: return False
        # (an incremental solver treats nested quantifiers worse)
        q = execu.mk_solver(1_000_000)
        for g in list(ex.S.global_facts) + ex.axioms + stt.pc + [z3.Not(f)]: q.add(g)
        return q.check() == z3.unsat
    if recs or pushed:
        for c in cands: c.f = lambda v, n, f=c.f: with_records(f(v, n), v)
    for c in cands:
        if not holds(entry, c.f(env0, z3.IntVal(0))): c.on = False
    def record(head, b):
        """the path of the first analysis which this one is, and the values of this iteration for the places of that one"""
        best = None
        cs = raw(b, len(head.pc))
        us = {}
        for s in mod:
            if s in lin or s[0] == 'G': continue
            u = path_update(s, b)
            if u and u != 'same': us[s] = tuple(unnamed(ex, x, base_cnt) if z3.is_expr(x) else x for x in u)
        for bi, (tc, tu, holes, gh) in enumerate(templates):
            if set(tu) != set(us): continue
            bind, n, ok_ = {}, 0, True
            for s in tu:
                for x, y in zip(tu[s], us[s]):
                    if z3.is_expr(x) and z3.is_expr(y):
                        r = unify(x, y, holes, bind)
                        if r is None: ok_ = False
                        else: bind = r
            k = 0
            used = set()
            for t in tc:
                for q in list(range(k, len(cs))) + list(range(0, k)):
                    if q in used: continue
                    r = unify(t, cs[q], holes, bind)
                    if r is not None:
                        bind = r; used.add(q); k = q + 1; n += 1; break
            sc = (ok_, n - (len(tc) - n))
            if best is None or sc > best[2]: best = (bi, bind, sc)
        return best
    # given invariants hold on entry
    for nm, props, f in given: ex.oblige(entry, nm + ' (on entry)', props, f(entry), kind='invariant')
    for rnd in range(20):
        head, vals = mk_head(cands, ghosts)
        for nm, props, f in given: head.assume(f(head))
        for c in cands:
            if c.needed(): head.assume(c.f(vals, i))
        ex.buf.append([])
        ok = False
        try:
            outs = do_step(head)
            drop = []
            for o in outs:
                if o[0] != 'back': continue
                b = o[1]
                bv = {}
                for s in mod:
                    if s in lin:
                        bv[s] = ex.term(slot_get(b, s))
                        l1, l2 = bv[s], linval(s, i + 1)
                        if is_vec(l1):
                            if not z3.simplify(ex.S.field(l1, 0, 1)).eq(z3.simplify(ex.S.field(l2, 0, 1))): raise Unsupported('linear slot')
                            l1, l2 = ex.S.field(l1, 0, 0), ex.S.field(l2, 0, 0)
                        if not z3.simplify(l1 - l2, som=True).eq(z3.IntVal(0)): raise Unsupported('linear slot')
                    else: bv[s] = ex.term(slot_get(b, s))
                if {s for k, s in state_diff(ex, head, b)} - mod: raise Unsupported('modified state of a loop changed')
                if recs: best = record(head, b)
                for g, (h, _) in ghosts.items():
                    s = g[1]
                    if g[0] == 'L':
                        bv[g] = z3.Store(h, i, ex.S.field(hv[s], 0, 0)); continue
                    if g[0] == 'h':
                        bv[g] = h
                        if best and best[0] == g[1]: bv[g] = z3.Store(h, i, best[1][g[2]] if g[2] in best[1] else ex.fresh('lost', h.sort().range()))
                        continue
                    if g[0] in ('yes', 'no'):
                        x, y = (ex.term(slot_get(b, s)), hv[s]) if z3.is_int(hv[s]) else (ex.S.field(ex.term(slot_get(b, s)), 0, 0), ex.S.field(hv[s], 0, 0))
                        bv[g] = i if z3.simplify(x - y).eq(z3.IntVal(1 if g[0] == 'yes' else 0)) else h; continue
                    u = path_update(s, b)
                    if u is None: bv[g] = ex.fresh('lost', h.sort())
                    elif u == 'same': bv[g] = h
                    elif g[0] == 'w' and u[0] in ('store', 'vstore'): bv[g] = z3.Store(h, u[1], i)
                    elif g[0] == 'w' and u[0] == 'over': bv[g] = i
                    elif g[0] == 'w' and u[0] == 'cond': bv[g] = z3.If(u[1], i, h)
                    elif g[0] == 'src': bv[g] = z3.Store(h, ex.S.field(hv[s], 0, 0), i)
                    elif g[0] == 'dst': bv[g] = z3.Store(h, i, ex.S.field(hv[s], 0, 0))
                    else: bv[g] = ex.fresh('lost', h.sort())
                for c in cands:
                    if c.needed() and not holds(b, c.f(bv, i + 1)):
                        drop.append(c)
                        if DEBUG: print('   drop', label, c.name, c.slot)
                for c in drop: c.on = False
                if not drop:
                    for nm, props, f in given: ex.oblige(b, nm + ' (preserved)', props, f(b), kind='invariant')
            ok = not drop
        finally:
            bb = ex.buf.pop()
        if ok: break
    else: raise Unsupported('invariants of a loop do not stabilize')
    bad = []
    for s in mod:
        if s in lin or kinds.get(s) == 'given' or s[0] == 'G': continue
        cv = cover.get(s, [])
        exact = cv and all(c.on for c in cv if isinstance(c, Cand)) and any(isinstance(c, Cand) for c in cv)
        # (that a counter only grows does not say what it is)
        alt = any(any(c.on for c in l if c.name not in ('imono', 'icount')) for l in cv if isinstance(l, list))
        if not exact and not alt: bad.append('%s:%s' % (label, '_'.join(map(str, s[1:]))))
    if bad:
        for o in bb: o.taint = tuple(sorted(set(o.taint) | set(bad)))
    ex.buf[-1].extend(bb)
    st_ = ex.loop_stats.setdefault(str(label), {'analyses': 0, 'invariants': 0, 'given': 0, 'dropped': 0, 'inexact': []})
    st_['analyses'] += 1; st_['invariants'] = max(st_['invariants'], sum(c.on for c in cands)); st_['given'] = len(given)
    st_['dropped'] = max(st_['dropped'], sum(not c.on for c in cands)); st_['inexact'] = bad
    if DEBUG: print('loop', label, 'mod', len(mod), 'lin', len(lin), 'cands', [(c.name, c.on) for c in cands], 'kinds', {str(k): (v if isinstance(v, str) else v and v[0]) for k, v in kinds.items()}, 'bad', bad, '%.2fs' % (time.time() - t0))
    res = []
    for o in outs:
        if o[0] == 'exit':
            if bad: o[1].taint = tuple(sorted(set(o[1].taint) | set(bad)))
            res.append(o)
    return res

def try_unroll(ex, st, step, prune):
    ex.buf.append([])
    states, exits = [st.fork()], []
    ok = False
    try:
        for k in range(70):
            nxt = []
            for s in states:
                for o in step(s):
                    if o[0] == 'back':
                        prune(o[1]); nxt.append(o[1])
                    else: exits.append(o)
            states = nxt
            if len(states) > 16: return None
            if not states: ok = True; return exits
            if k > 1 and not any(concrete_iter(s) for s in states): return None
        return None
    finally:
        b = ex.buf.pop()
        if ok: ex.buf[-1].extend(b)

def try_steps(ex, st, step, prune, limit=70):
    """a loop with just one way to go at each of its few steps"""
    ex.buf.append([])
    s, ok = st.fork(), False
    prune(s)
    try:
        for k in range(limit):
            outs = step(s)
            if len(outs) != 1: return None
            if outs[0][0] != 'back': ok = True; return outs
            s = outs[0][1]; prune(s)
        return None
    finally:
        b = ex.buf.pop()
        if ok: ex.buf[-1].extend(b)

def run_mir_loop(ex, st, fid, fn, header, region):
    live = ex.p.liveness(fn)[header]
    def prune(s): prune_dead(s, fid, live)
    def step(head):
        ex.loopctx.append((fid, header, head.fork(), prune))
        d = ex.depth
        try: return ex.run(head, fid, fn, header, region, header)
        finally: ex.loopctx.pop()
    if len(region) <= 15:
        outs = try_steps(ex, st, step, prune)
        if outs is not None: return outs
    return run_loop(ex, st, step, '%s/bb%d' % (fn['path'].split('::')[-1], header), prune)

def jump_back_ok(ex, st, fid):
    """may a skipped element be treated as a whole (empty) iteration of the enclosing loop of frame fid?"""
    if not ex.loopctx or ex.loopctx[-1] is None: return False
    f, header, head, prune = ex.loopctx[-1]
    if f != fid: return False
    b = st.fork(); prune(b)
    return b, head

def flat_of_collections(ex, st, it):
    """does the flattened iterator yield collections (and not options)?"""
    while it.kind != 'flatten': it = it.f[0]
    m = it.meta or {}
    ti = m.get('destty')
    if ti is None: return False
    def opt(t): return t['k'] == 'adt' and t['path'] in ('core::option::Option', 'core::result::Result')
    t = ex.T[ex.strip(ti)]
    # Flatten<I> / FlatMap<I, U, F>
    if t['k'] == 'adt' and t['path'].endswith('::FlatMap'): return not opt(ex.T[ex.strip(t['args'][1])])
    if t['k'] == 'adt' and t['path'].endswith('::Flatten'):
        def item(ti, d=0):
            t = ex.T[ex.strip(ti)]
            if t['k'] != 'adt' or d > 6: return None
            if t['path'].endswith('::Map'):
                c = ex.T[ex.strip(t['args'][1])]
                b = ex.p.fns.get(c.get('body')) if c['k'] == 'closure' else None
                return b['locals'][0]['ty'] if b else None
            if t['path'].endswith(('slice::iter::Iter', 'into_iter::IntoIter', 'btree::set::Iter', 'btree::set::IntoIter')): return t['args'][0]
            if t['path'].endswith(('btree::map::Values', 'btree::map::IntoValues')): return t['args'][1]
            if t['path'].startswith('core::iter::adapters::') and isinstance(t['args'][0], int): return item(t['args'][0], d + 1)
            return None
        x = item(t['args'][0])
        return x is not None and not opt(ex.T[ex.strip(x)])
    return False

def for_each(ex, st, it, acc, body, label):
    """internal iteration over `it`: body(state, item, ref to acc) -> [(st, 'cont') | (st, 'break', value)]
    -> [(st, 'done' | ('break', v), acc, it)]"""
    import iters
    parts = iters.split_chain(it)
    if len(parts) > 1:
        cur = [(st, acc)]
        res = []
        for k, p in enumerate(parts):
            nxt = []
            for s, a in cur:
                for s2, pay, a2, it2 in for_each(ex, s, p, a, body, '%s.%d' % (label, k)):
                    if pay == 'done': nxt.append((s2, a2))
                    else: res.append((s2, pay, a2, it2))
            cur = nxt
        return res + [(s, 'done', a, parts[-1]) for s, a in cur]
    fp = iters.flat_parts(ex, st, it)
    if fp is not None and flat_of_collections(ex, st, it):
        import contracts
        def outer(s, v, racc):
            x = contracts.into_iter(ex, s, v, None)
            out = []
            sub = ex.new_frame(s)
            s.frames[sub] = {'racc': racc}
            for s2, pay, a2, _ in for_each(ex, s, fp[1](x), contracts.unit(ex), lambda s3, w, _: body(s3, w, racc), label + '.in'):
                out.append((s2, 'cont') if pay == 'done' else (s2, 'break', pay[1]))
            return out
        return [(s, pay, a, contracts.unit(ex)) for s, pay, a, _ in for_each(ex, st, fp[0], acc, outer, label + '.out')]
    fid = ex.new_frame(st)
    st.frames[fid] = {'it': it, 'acc': acc}
    rit, racc = MutRef(fid, 'it', ()), MutRef(fid, 'acc', ())
    def step(s):
        outs = []
        ex.loopctx.append(None)
        try:
            for s1, kind, v in iters.push(ex, s, rit):
                if kind == 'none': outs.append(('exit', s1, 'done'))
                elif kind == 'skip': outs.append(('back', s1))
                else:
                    for r in body(s1, v, racc):
                        outs.append(('back', r[0]) if r[1] == 'cont' else ('exit', r[0], ('break', r[2])))
        finally: ex.loopctx.pop()
        return outs
    res = []
    d = ex.depth
    for o in run_loop(ex, st, step, label):
        s = o[1]
        a, i2 = s.frames[fid]['acc'], s.frames[fid]['it']
        del s.frames[fid]
        res.append((s, o[2], a, i2))
    ex.depth = d
    return res
