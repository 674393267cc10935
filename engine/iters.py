"""Iterators: the base kinds walk over a collection by position; the adapters are transformers of them. `push` makes one
step of an iterator: ('none' - the end, 'item' - an element, 'skip' - an element has been consumed and filtered out)."""
import z3
from core import *

I = z3.IntSort()
BASE = {'slice', 'mapit', 'setit', 'range', 'arr', 'optit', 'slicemut', 'mapmut', 'windows'}

def mk_slice(ex, st, v):
    ex.lenfact(st, v)
    # (the first element is mentioned, so that facts about all elements are used for it)
    st.note(z3.Implies(ex.vlen(v) > 0, ex.S.uf('mentioned', [z3.Select(ex.varr(v), 0)], z3.BoolSort())))
    return ItV('slice', None, (v, z3.IntVal(0), ex.vlen(v)))

# ------------------------------------------------------------------------------------------------ maps and sets
def named(ex, st, t):
    """a constant for a (possibly big) term, so that quantifier patterns mention only that constant"""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR: return t
    c = ex.names.get(t.get_id())
    if c is None:
        c = (ex.fresh('m', t.sort()), t)
        ex.names[t.get_id()] = c
    st.note(c[0] == t)
    return c[0]

def m_has(ex, m, k):
    x = z3.Select(m, k)
    return x if z3.is_bool(x) else ex.S.is_variant(x, 1)
def m_size(ex, m): return ex.S.uf('size', [m], I)
def m_key(ex, m, j): return ex.S.uf('key_at', [m, j], m.sort().domain())
def m_idx(ex, m, k): return ex.S.uf('idx_of', [m, k], I)

def enum_facts(ex, st, m):
    """a map (set) has finitely many keys, which its iterator yields each exactly once"""
    n = m_size(ex, m)
    ks = m.sort().domain()
    j, k = z3.Int('j!m'), z3.Const('k!m', ks)
    kj = m_key(ex, m, j)
    st.note(z3.And(n >= 0, n < 2 ** 62))
    st.note(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(m_has(ex, m, kj), m_idx(ex, m, kj) == j)), patterns=[kj]))
    ik = m_idx(ex, m, k)
    st.note(z3.ForAll([k], z3.Implies(m_has(ex, m, k), z3.And(0 <= ik, ik < n, m_key(ex, m, ik) == k)), patterns=[z3.Select(m, k)]))
    st.note(z3.Implies(n > 0, m_has(ex, m, m_key(ex, m, z3.IntVal(0)))))

def mk_mapit(ex, st, m, what):
    m = named(ex, st, m)
    enum_facts(ex, st, m)
    return ItV('setit' if what == 's' else 'mapit', what, (m, z3.IntVal(0), m_size(ex, m)))

def extreme(ex, st, m, last, n=None):
    """the place of the greatest (the least) key of an ordered map or set of the given number of elements which is not empty; the
    iterators walk over the keys in their order"""
    n = m_size(ex, m) if n is None else n
    j = z3.Int('j!m')
    e = z3.simplify(n - 1) if last else z3.IntVal(0)
    kj, ke = m_key(ex, m, j), m_key(ex, m, e)
    lt = (lambda a, b: a < b) if z3.is_int(kj) else (lambda a, b: ex.S.uf('lt', [a, b], z3.BoolSort()))
    f = z3.Implies(z3.And(0 <= j, j < e), lt(kj, ke)) if last else z3.Implies(z3.And(0 < j, j < n), lt(ke, kj))
    st.note(z3.ForAll([j], f, patterns=[kj]))
    return e

def removed_end(ex, st, m, last):
    """facts about an ordered collection of more than no elements without its first (last) key: -> that key"""
    n = m_size(ex, m)
    k = m_key(ex, m, extreme(ex, st, m, last))
    none = z3.BoolVal(False) if m.sort().range() == z3.BoolSort() else ex.S.cons(m.sort().range(), 0, [])
    r = z3.Store(m, k, none)
    j = z3.Int('j!m')
    st.note(z3.Implies(n > 0, z3.And(m_size(ex, r) == n - 1)))
    kj = m_key(ex, r, j)
    st.note(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), kj == m_key(ex, m, j if last else j + 1)), patterns=[kj]))
    return k, r

def size_facts(ex, st, m):
    """how a write changes the number of elements"""
    while z3.is_store(m):
        b, k, x = m.arg(0), m.arg(1), m.arg(2)
        p = x if z3.is_bool(x) else ex.S.is_variant(x, 1)
        st.note(m_size(ex, m) == m_size(ex, b) + z3.If(z3.And(p, z3.Not(m_has(ex, b, k))), 1, z3.If(z3.And(z3.Not(p), m_has(ex, b, k)), -1, 0)))
        st.note(m_size(ex, b) >= 0)
        m = b

def map_len(ex, st, m):
    size_facts(ex, st, m)
    m = named(ex, st, m)
    enum_facts(ex, st, m)
    return m_size(ex, m)

# ------------------------------------------------------------------------------------------------ steps
def sub(ref, k): return MutRef(ref.fid, ref.loc, ref.proj + (('f', 0, k, None),))

def length(ex, st, it):
    """exact number of remaining elements, for iterators which have one without running closures; None otherwise"""
    if it.kind in BASE: return z3.simplify(it.f[2] - it.f[1])
    if it.kind in ('map', 'enumerate', 'rev', 'inspect'): return length(ex, st, it.f[0])
    if it.kind == 'zip':
        a, b = length(ex, st, it.f[0]), length(ex, st, it.f[1])
        if it.f[0].kind == 'from': return b
        if it.f[1].kind == 'from': return a
        return None if a is None or b is None else z3.simplify(z3.If(a < b, a, b))
    if it.kind == 'chain':
        a, b = length(ex, st, it.f[0]), length(ex, st, it.f[1])
        return None if a is None or b is None else z3.simplify(a + b)
    return None

def base_item(ex, st, it, pos):
    c = it.f[0]
    if it.kind == 'slice': return z3.Select(ex.varr(c), pos)
    if it.kind == 'arr':
        p = z3.simplify(pos)
        if z3.is_int_value(p): return c.f[p.as_long()]
        return z3.Select(ex.varr(ex.as_slice(st, c)), pos)
    if it.kind == 'setit': return m_key(ex, c, pos)
    if it.kind == 'mapit':
        k = m_key(ex, c, pos)
        v = ex.some_of(z3.Select(c, k))
        if it.meta == 'k': return k
        if it.meta == 'v': return v
        return tup(ex, [k, v])
    if it.kind == 'range': return pos
    if it.kind == 'slicemut': return MutRef(c.fid, c.loc, c.proj + (('i', pos, it.meta),))
    if it.kind == 'windows': return ex.subslice(st, c, pos, z3.simplify(pos + it.meta))
    if it.kind == 'mapmut':
        r, m = c.f
        k = m_key(ex, m, pos)
        v = MutRef(r.fid, r.loc, r.proj + (('mv', k),))
        return v if it.meta == 'values_mut' else tup(ex, [k, v])
    if it.kind == 'optit': return ex.some_of(c)
    raise Unsupported('iterator ' + it.kind)

def tup(ex, vs):
    """a tuple value of a type which may have no entry in the type table: the sort is determined by the components"""
    return TupV(vs)

class TupTy:
    """stands for the type of a tuple made by the verifier"""

def TupV(vs): return Agg('tuple', 0, vs)

def push(ex, st, ref):
    it = ex.load(st, ref)
    if isinstance(it, MutRef): return push(ex, st, it)
    if not isinstance(it, ItV): raise Unsupported('not an iterator: %r' % (it,))
    k = it.kind
    if k in BASE:
        pos, end = it.f[1], it.f[2]
        a, b = ex.branch(st, pos < end)
        out = []
        if b is not None: out.append((b, 'none', None))
        if a is not None:
            v = base_item(ex, a, it, pos)
            ex.store(a, ref, ItV(k, it.meta, (it.f[0], z3.simplify(pos + 1), end)))
            out.append((a, 'item', v))
        return out
    if k == 'rev':
        inner = it.f[0]
        if inner.kind not in BASE: raise Unsupported('reversed ' + inner.kind)
        pos, end = inner.f[1], inner.f[2]
        a, b = ex.branch(st, pos < end)
        out = []
        if b is not None: out.append((b, 'none', None))
        if a is not None:
            v = base_item(ex, a, inner, z3.simplify(end - 1))
            ex.store(a, ref, ItV(k, None, (ItV(inner.kind, inner.meta, (inner.f[0], pos, z3.simplify(end - 1))),)))
            out.append((a, 'item', v))
        return out
    if k == 'from':
        pos = it.f[1]
        ex.intfact(st, pos, it.meta)
        t = ex.T[ex.strip(it.meta)]
        ex.oblige(st, 'no-panic: the end of an unbounded range', ['PANIC'], pos + 1 < (2 ** t['w'] if t['k'] == 'uint' else 2 ** (t['w'] - 1)), kind='panic')
        ex.store(st, ref, ItV(k, it.meta, (it.f[0], z3.simplify(pos + 1))))
        return [(st, 'item', pos)]
    if k == 'once':
        raise Unsupported('once')
    if k == 'from_fn':
        out = []
        for s, r in ex.call_closure(st, sub(ref, 0), [], it.meta or {}):
            for s2, p in opt_cases(ex, s, r): out.append((s2, 'none' if p is None else 'item', p))
        return out
    if k == 'empty': return [(st, 'none', None)]
    if k == 'chain':
        out = []
        a, b = ex.branch(st, it.f[2])   # first part exhausted?
        if a is not None: out += push(ex, a, sub(ref, 1))
        if b is not None:
            for s, kd, v in push(ex, b, sub(ref, 0)):
                if kd != 'none': out.append((s, kd, v))
                else:
                    ex.store(s, sub(ref, 2), z3.BoolVal(True))
                    out += push(ex, s, sub(ref, 1))
        return out
    if k == 'zip':
        out = []
        for s, kd, v in push(ex, st, sub(ref, 0)):
            if kd == 'none': out.append((s, 'none', None))
            elif kd == 'skip': raise Unsupported('zip of a filtered iterator')
            else:
                for s2, kd2, v2 in push(ex, s, sub(ref, 1)):
                    if kd2 == 'skip': raise Unsupported('zip of a filtered iterator')
                    out.append((s2, kd2, tup(ex, [v, v2]) if kd2 == 'item' else None))
        return out
    if k in ('take', 'skip_n'):
        if k == 'skip_n': raise Unsupported('skip of a non-indexed iterator')
        a, b = ex.branch(st, it.f[1] > 0)
        out = []
        if b is not None: out.append((b, 'none', None))
        if a is not None:
            for s, kd, v in push(ex, a, sub(ref, 0)):
                if kd == 'item': ex.store(s, sub(ref, 1), z3.simplify(it.f[1] - 1))
                out.append((s, kd, v))
        return out
    # adapters with closures
    out = []
    for s, kd, v in push(ex, st, sub(ref, 0)):
        if kd != 'item': out.append((s, kd, v)); continue
        if k == 'skip_while':
            a, b = ex.branch(s, it.f[2])
            if a is not None: out.append((a, 'item', v))
            if b is not None:
                for s2, r in ex.call_closure(b, sub(ref, 1), [v], it.meta or {}):
                    p, q = ex.branch(s2, ex.term(r))
                    if p is not None: out.append((p, 'skip', None))
                    if q is not None: ex.store(q, sub(ref, 2), z3.BoolVal(True)); out.append((q, 'item', v))
        elif k in ('map', 'filter', 'filter_map', 'inspect', 'take_while'):
            for s2, r in ex.call_closure(s, sub(ref, 1), [v], it.meta or {}):
                if k == 'map': out.append((s2, 'item', r))
                elif k == 'inspect': out.append((s2, 'item', v))
                elif k in ('filter', 'take_while'):
                    a, b = ex.branch(s2, ex.term(r))
                    if a is not None: out.append((a, 'item', v))
                    if b is not None: out.append((b, 'skip' if k == 'filter' else 'none', None))
                else:
                    for s3, p in opt_cases(ex, s2, r): out.append((s3, 'skip' if p is None else 'item', p))
        elif k == 'enumerate':
            n = it.f[1]
            ex.store(s, sub(ref, 1), z3.simplify(n + 1))
            s.note(n >= 0)
            out.append((s, 'item', tup(ex, [n, v])))
        elif k == 'flatten':
            for s2, p in flat_cases(ex, s, v): out.append((s2, 'skip' if p is None else 'item', p))
        elif k == 'map_while':
            for s2, r in ex.call_closure(s, sub(ref, 1), [v], it.meta or {}):
                for s3, p in opt_cases(ex, s2, r): out.append((s3, 'none' if p is None else 'item', p))
        elif k == 'id': out.append((s, 'item', v))
        else: raise Unsupported('iterator adapter ' + k)
    return out

def flat_parts(ex, st, it):
    """an iterator over the elements of the collections which another iterator yields -> (that one, a function: collection -> what
    is left of the iterator for just that collection) | None"""
    if not isinstance(it, ItV): return None
    if it.kind == 'flatten':
        inner = it.f[0]
        p = flat_parts(ex, st, inner)
        if p is not None: return None
        return inner, lambda x: x
    if it.kind in ('map', 'filter', 'filter_map', 'inspect'):
        p = flat_parts(ex, st, it.f[0])
        if p is None: return None
        return p[0], lambda x: ItV(it.kind, it.meta, (p[1](x),) + it.f[1:])
    return None

def flat_cases(ex, st, v):
    """an Option or a Result as an iterator"""
    if isinstance(v, MutRef): v = ex.load(st, v)
    if isinstance(v, ItV): raise Unsupported('a flattened iterator of iterators')
    if isinstance(v, Agg): t = ex.T[ex.strip(v.ty)] if not isinstance(v.ty, str) else {}
    else: t = {'k': 'adt', 'path': {'Opt<': 'core::option::Option', 'Res<': 'core::result::Result'}.get(v.sort().name()[:4])}
    if t.get('k') == 'adt' and t['path'] == 'core::option::Option': return opt_cases(ex, st, v)
    raise Unsupported('a flattened iterator of collections')

def opt_cases(ex, st, o):
    """cases of an Option value: [(state, payload | None)]"""
    if isinstance(o, MutRef): o = ex.load(st, o)
    if isinstance(o, Agg): return [(st, o.f[0] if o.var == 1 else None)]
    if z3.is_app(o) and o.decl().eq(o.sort().constructor(1)): return [(st, o.arg(0))]
    a, b = ex.branch(st, ex.S.is_variant(o, 1))
    out = []
    if a is not None: out.append((a, ex.some_of(o)))
    if b is not None: out.append((b, None))
    return out

def split_chain(it):
    if isinstance(it, ItV) and it.kind == 'chain':
        if z3.is_false(it.f[2]): return split_chain(it.f[0]) + split_chain(it.f[1])
    return [it]
