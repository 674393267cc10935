"""Contracts of external functions (the standard library, and dependencies whose bodies are not looked into). Everything in
this file is trusted; each contract which a run has used is listed in the evidence of that run."""
import z3
from core import *
import iters
from iters import *
import loops as L

FIRST_BYTES = 1

def some(ex, x):
    x = ex.term(x)
    return ex.S.cons(ex.S.opt(x.sort()), 1, [x])
def none(ex, sort): return ex.S.cons(ex.S.opt(sort), 0, [])
def unit(ex): return Agg('tuple', 0, [])
def optv(ctx, v): return Agg(ctx['destty'], 0, []) if v is None else Agg(ctx['destty'], 1, [v])

def val(ex, st, v):
    while isinstance(v, MutRef): v = ex.load(st, v)
    return v

def adt_of(ex, ti):
    t = ex.T[ex.strip(ti)]
    return t.get('path') if t['k'] == 'adt' else t['k']

def coll(ex, st, v):
    """the underlying collection term of a (reference to a) collection"""
    v = val(ex, st, v)
    if isinstance(v, Agg) and not isinstance(v.ty, (str, z3.SortRef)) and adt_of(ex, v.ty) == CONFINED: return coll(ex, st, v.f[0])
    if isinstance(v, ArrV): return v
    v = ex.term(v)
    if isinstance(v.sort(), z3.DatatypeSortRef) and v.sort().name().startswith(CONFINED + '<'): v = ex.S.field(v, 0, 0)
    return v
CONFINED = 'amplify::collection::confinement::Confined'

def into_iter(ex, st, v, ti, byref=None):
    """iterator over a value of type ti"""
    if isinstance(v, ItV): return v
    if isinstance(v, MutRef):
        w = val(ex, st, v)
        if isinstance(w, ItV): return v       # &mut iterator
    t = ex.T[ti] if ti is not None else None
    if t is not None and t['k'] == 'ref' and t['mut']:
        x = coll(ex, st, v)
        return iter_mut(ex, st, v)
    w = val(ex, st, v)
    if ti is not None:
        p = adt_of(ex, ti)
        if p == 'core::option::Option':
            w = ex.term(w)
            return ItV('optit', None, (w, z3.IntVal(0), z3.simplify(z3.If(ex.S.is_variant(w, 1), 1, 0))))
        if p == CONFINED and z3.is_expr(w):
            ct = ex.T[ex.strip(ti)]
            w = ex.S.field(w, 0, 0)
            ex.confined_fact(st, w, ct)
        elif p == 'core::ops::range::Range' and isinstance(w, Agg):
            return ItV('range', None, (unit(ex), ex.term(w.f[0]), ex.term(w.f[1])))
        elif p == 'core::ops::range::RangeInclusive' and isinstance(w, Agg) and z3.is_false(z3.simplify(ex.term(w.f[2]))):
            return ItV('range', None, (unit(ex), ex.term(w.f[0]), z3.simplify(ex.term(w.f[1]) + 1)))
        elif p == 'core::ops::range::RangeFrom' and isinstance(w, Agg):
            return ItV('from', ex.T[ex.strip(ti)]['args'][0], (unit(ex), ex.term(w.f[0])))
    x = coll(ex, st, w)
    if isinstance(x, ArrV): return ItV('arr', None, (x, z3.IntVal(0), z3.IntVal(len(x.f))))
    s = x.sort()
    if isinstance(s, z3.ArraySortRef): return mk_mapit(ex, st, x, 's' if s.range() == z3.BoolSort() else 'kv')
    if s.name().startswith('Vec<'): return mk_slice(ex, st, x)
    if s.name().startswith('[') and ti is not None:
        return mk_slice(ex, st, ex.as_slice(st, x, ex.T[ex.strip(ti)]['ty']))
    raise Unsupported('iteration over a value of sort %s' % s)

def iter_mut(ex, st, r):
    if not isinstance(r, MutRef): raise Unsupported('mutable iteration')
    x = val(ex, st, r)
    if isinstance(x, ArrV): n, et = z3.IntVal(len(x.f)), ex.T[ex.strip(x.ty)]['ty']
    elif z3.is_expr(x) and x.sort().name().startswith('Vec<'): ex.lenfact(st, x); n, et = ex.vlen(x), None
    else: raise Unsupported('mutable iteration over %r' % (x,))
    return ItV('slicemut', et, (r, z3.IntVal(0), n))

def empty(ex, sort):
    if isinstance(sort, z3.ArraySortRef):
        if sort.range() == z3.BoolSort(): return z3.K(sort.domain(), z3.BoolVal(False))
        return z3.K(sort.domain(), ex.S.cons(sort.range(), 0, []))
    if sort.name().startswith('Vec<'):
        es = sort.accessor(0, 1).range().range()
        return ex.S.cons(sort, 0, [z3.IntVal(0), z3.K(z3.IntSort(), z3.Const('undef!%s' % es, es))])
    raise Unsupported('empty value of sort %s' % sort)

def add(ex, acc, v):
    """insert an element into a collection term"""
    s = acc.sort()
    if isinstance(s, z3.ArraySortRef):
        if s.range() == z3.BoolSort(): return z3.Store(acc, ex.term(v), z3.BoolVal(True))
        if isinstance(v, Agg): k, x = ex.term(v.f[0]), ex.term(v.f[1])
        else: k, x = ex.S.field(v, 0, 0), ex.S.field(v, 0, 1)
        return z3.Store(acc, k, some(ex, x))
    n = ex.vlen(acc)
    return ex.S.cons(s, 0, [z3.simplify(n + 1), z3.Store(ex.varr(acc), z3.simplify(n), ex.term(v))])

def lab(ctx, what):
    fn = ctx.get('fn') or {'path': '?'}
    return '%s/%s@%s.%s' % (fn['path'].split('::')[-1], what, ctx.get('bb'), fn.get('id'))

def fill(ex, st, it, acc, label):
    """add all the elements of an iterator to the collection acc -> [(st, acc)]"""
    def body(s, v, racc):
        ex.store(s, racc, add(ex, ex.load(s, racc), v))
        return [(s, 'cont')]
    return [(s, a) for s, _, a, _ in L.for_each(ex, st, it, acc, body, label)]

def ord_lt(ex, a, b):
    a, b = ex.term(a), ex.term(b)
    if z3.is_int(a): return a < b
    return ex.S.uf('lt', [a, b], z3.BoolSort())

PURE_TRAITS = {'rgbcore::seals::RgbSealDef', 'single_use_seals::SingleUseSeal', 'single_use_seals::PublishedWitness',
               'single_use_seals::ClientSideWitness', 'core::convert::From', 'core::convert::Into', 'core::convert::TryFrom', 'amplify::collection::array::ByteArray'}

CORE_CALL = {'core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'}
ITER = 'core::iter::traits::iterator::Iterator'

def is_param(ex, ti):
    return ex.T[ex.strip(ti)]['k'] in ('param', 'alias', 'dyn')

def contract(ex, st, c, args, ctx):
    r = _contract(ex, st, c, args, ctx)
    if r is not None:
        k = c['path'] if c.get('trait') is None or c.get('resolved') is None else '%s for %s' % (c['path'], (c.get('rimpl_self') or '').replace('Unnormalized { value: ', '').split(', ..')[0])
        ex.used_contracts[k] = ex.used_contracts.get(k, 0) + 1
    return r

def _contract(ex, st, c, args, ctx):
    path, name, tr = c['path'], c['name'], c.get('trait')
    adt = c.get('impl_adt') or ''
    S = ex.S
    # ------------------------------------------------------------ panics
    if path.startswith('core::panicking::') or path.startswith('std::panicking::') or path in (
            'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::slice::index::slice_index_fail',
            'alloc::alloc::handle_alloc_error', 'std::process::abort', 'core::intrinsics::abort') or 'copy_from_slice_impl::len_mismatch_fail' in path:
        ex.panic(st, path)
        return []
    # ------------------------------------------------------------ calls of function values
    if tr in CORE_CALL and name in ('call_once', 'call_mut', 'call'):
        f = args[0]
        a = args[1]
        n = len(a.f) if isinstance(a, Agg) else 0
        return ex.call_closure(st, f, list(a.f) if isinstance(a, Agg) else [S.field(a, 0, i) for i in range(n)], ctx)
    # ------------------------------------------------------------ core traits
    if tr == 'core::clone::Clone' and name in ('clone', 'clone_from'):
        b = c.get('body')
        if b is not None and b in ex.p.fns and ex.p.fns[b].get('local'): return None
        if name == 'clone_from':
            ex.store(st, args[0], val(ex, st, args[1])); return [(st, unit(ex))]
        return [(st, val(ex, st, args[0]))]
    if tr == 'alloc::borrow::ToOwned' and name == 'to_owned': return [(st, val(ex, st, args[0]))]
    if tr == 'core::cmp::PartialEq' and name in ('eq', 'ne'):
        b = c.get('body')
        if b is not None and b in ex.p.fns and ex.p.fns[b].get('local'): return None
        e = ex.eq(val(ex, st, args[0]), val(ex, st, args[1]))
        return [(st, e if name == 'eq' else z3.Not(e))]
    if tr in ('core::cmp::PartialOrd',) and name in ('lt', 'le', 'gt', 'ge'):
        a, b = val(ex, st, args[0]), val(ex, st, args[1])
        r = {'lt': lambda: ord_lt(ex, a, b), 'gt': lambda: ord_lt(ex, b, a), 'le': lambda: z3.Not(ord_lt(ex, b, a)), 'ge': lambda: z3.Not(ord_lt(ex, a, b))}[name]()
        return [(st, r)]
    if tr == 'core::cmp::Ord' and name == 'cmp' or tr == 'core::cmp::PartialOrd' and name == 'partial_cmp':
        b = c.get('body')
        if b is not None and b in ex.p.fns and (ex.p.fns[b].get('local') or name == 'cmp' and ex.T[ex.strip(ctx['argtys'][0])]['k'] in ('uint', 'int')): return None
        a, b = ex.term(val(ex, st, args[0])), ex.term(val(ex, st, args[1]))
        o = ex.ordering(ord_lt(ex, a, b), ex.eq(a, b))
        return [(st, o if name == 'cmp' else some(ex, o))]
    if path in ('core::cmp::min', 'core::cmp::max') or (tr == 'core::cmp::Ord' and name in ('min', 'max')):
        a, b = ex.term(args[0]), ex.term(args[1])
        lt = ord_lt(ex, b, a)
        return [(st, z3.If(lt, b, a) if name == 'min' else z3.If(lt, a, b))]
    if tr == 'core::default::Default' and name == 'default':
        t = ex.T[ex.strip(ctx['destty'])]
        if t['k'] in ('uint', 'int'): return [(st, z3.IntVal(0))]
        if t['k'] == 'bool': return [(st, z3.BoolVal(False))]
        if t['k'] == 'adt' and (t['path'] in MAPS | SETS | {'alloc::vec::Vec'}): return [(st, empty(ex, S.sort(ctx['destty'])))]
        if t['k'] == 'adt' and t['path'] == 'core::option::Option': return [(st, Agg(ex.strip(ctx['destty']), 0, []))]
        if t['k'] == 'tuple' and not t['tys']: return [(st, unit(ex))]
        if t['k'] == 'adt' and t['path'] == CONFINED:
            s = S.sort(ctx['destty'])
            if s.constructor(0).arity() == 1 and (isinstance(s.accessor(0, 0).range(), z3.ArraySortRef) or s.accessor(0, 0).range().name().startswith('Vec<')):
                return [(st, S.cons(s, 0, [empty(ex, s.accessor(0, 0).range())]))]
        return None
    if tr == 'core::convert::AsRef' or tr in ('core::borrow::Borrow',) or path == 'core::convert::AsRef::as_ref':
        if c.get('body') in ex.p.fns: return None
        return [(st, val(ex, st, args[0]))]
    if tr in ('core::ops::deref::Deref', 'core::ops::deref::DerefMut') and name in ('deref', 'deref_mut'):
        p = adt_of(ex, c['args'][0]) if c.get('args') else None
        if p in ('alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::string::String', 'alloc::borrow::Cow'):
            return [(st, args[0] if name == 'deref_mut' else val(ex, st, args[0]))]
        return None
    if tr == 'alloc::string::ToString' and name == 'to_string':
        return [(st, S.uf('to_string', [ex.term(val(ex, st, args[0]))], S.un('str')))]
    if path in ('core::mem::drop', 'core::mem::forget'): return [(st, unit(ex))]
    if path == 'core::mem::replace':
        old = val(ex, st, args[0]); ex.store(st, args[0], args[1]); return [(st, old)]
    if path == 'core::mem::take':
        old = val(ex, st, args[0])
        r = _contract(ex, st, {'path': 'core::default::Default::default', 'name': 'default', 'trait': 'core::default::Default'}, [], ctx)
        if r is None: raise Unsupported('mem::take')
        ex.store(st, args[0], r[0][1]); return [(st, old)]
    if path == 'core::mem::swap':
        a, b = val(ex, st, args[0]), val(ex, st, args[1])
        ex.store(st, args[0], b); ex.store(st, args[1], a); return [(st, unit(ex))]
    if path == 'core::ops::range::{impl#7}::new' or (adt == 'core::ops::range::RangeInclusive' and name == 'new'):
        return [(st, Agg(ex.strip(ctx['destty']), 0, [args[0], args[1], z3.BoolVal(False)]))]
    if path.startswith('alloc::boxed::') and name == 'new_uninit':
        fid = ex.new_frame(st); st.frames[fid] = {'u': ObjV('uninit', None)}
        return [(st, ObjV('rawbox', MutRef(fid, 'u', ())))]
    if path == 'alloc::boxed::box_assume_init_into_vec_unsafe' and isinstance(args[0], ObjV) and args[0].kind == 'rawbox':
        v = ex.load(st, args[0].data)
        if not isinstance(v, ArrV): raise Unsupported('vec![]')
        return [(st, ex.as_slice(st, v))]
    if path in ('core::hint::black_box', 'core::convert::identity'): return [(st, args[0])]
    if adt == 'core::option::Option' and name in ('take', 'replace', 'as_mut', 'get_or_insert_with', 'insert', 'get_or_insert'):
        old = val(ex, st, args[0])
        if name == 'take':
            ex.store(st, args[0], Agg(ex.strip(ctx['destty']), 0, [])); return [(st, old)]
        if name == 'replace':
            ex.store(st, args[0], Agg(ex.strip(ctx['destty']), 1, [args[1]])); return [(st, old)]
        if name == 'as_mut' and isinstance(args[0], MutRef):
            out = []
            for s, p in opt_cases(ex, st, old):
                out.append((s, Agg(ctx['destty'], 0, []) if p is None else Agg(ctx['destty'], 1, [MutRef(args[0].fid, args[0].loc, args[0].proj + (('f', 1, 0, ex.strip(ctx['argtys'][0])),))])))
            return out
        return None
    if adt == 'core::option::Option' and name in ('as_ref', 'copied', 'cloned', 'as_deref', 'iter'):
        o = val(ex, st, args[0])
        if name == 'iter': return [(st, into_iter(ex, st, o, ctx['argtys'][0]))]
        return [(st, o)]
    if adt == 'core::result::Result' and name in ('as_ref',): 
        return None
    # ------------------------------------------------------------ boxes, strings, formatting
    if path.startswith('alloc::boxed::') and name in ('new', 'pin'): return [(st, args[0])]
    if path == 'core::hint::must_use': return [(st, args[0])]
    if path.startswith('core::fmt::rt::') and name == 'new_display': return [(st, ObjV('fmtarg', ex.term(val(ex, st, args[0]))))]
    if path.startswith('core::fmt::') and name in ('new', 'from_str') and c.get('impl_adt') == 'core::fmt::Arguments':
        return [(st, ObjV('fmtargs', args))]
    if path == 'alloc::fmt::format' and isinstance(args[0], ObjV) and args[0].kind == 'fmtargs':
        d = args[0].data
        if len(d) == 2 and isinstance(d[0], ArrV) and isinstance(d[1], ArrV) and [str(z3.simplify(x)) for x in d[0].f] == ['192', '0'] and \
                len(d[1].f) == 1 and isinstance(d[1].f[0], ObjV) and d[1].f[0].kind == 'fmtarg':
            # "{}" of one value: what `to_string` is by its definition
            return [(st, S.uf('to_string', [d[1].f[0].data], S.un('str')))]
        st.taint = tuple(sorted(set(st.taint) | {'a formatted string'}))
        return [(st, ex.fresh('formatted', S.un('str')))]
    if path.startswith('core::fmt::') or path.startswith('alloc::fmt::'):
        if name in ('fmt',): raise Unsupported('formatting')
        if any(isinstance(a, ObjV) for a in args): raise Unsupported('formatting')
        ts = []
        for a in args:
            a = val(ex, st, a)
            try: ts.append(ex.term(a))
            except Unsupported: pass
        return [(st, S.uf('fmt:' + path, ts, S.sort(ctx['destty'])))]
    if path in ('std::io::stdio::_print', 'std::io::stdio::_eprint'): return [(st, unit(ex))]
    # ------------------------------------------------------------ conversions of parameters
    if c.get('resolved') is None and tr in PURE_TRAITS and name not in ('next',):
        ts = [ex.term(val(ex, st, a)) for a in args]
        self_t = ex.T[ex.strip(c['args'][0])]['name'] if tr in ('core::convert::From', 'core::convert::TryFrom', 'amplify::collection::array::ByteArray') else ''
        return [(st, S.uf('%s%s' % (path.split('::')[-2] + '::' + name, '<%s>' % self_t if self_t else ''), ts, S.sort(ctx['destty'])))]
    if path == 'commit_verify::id::CommitId::commit_id':
        t = ex.term(val(ex, st, args[0]))
        return [(st, S.uf('commit_id', [t], S.sort(ctx['destty'])))]
    # ------------------------------------------------------------ iterators
    if tr == 'core::iter::traits::collect::IntoIterator' and name == 'into_iter':
        return [(st, into_iter(ex, st, args[0], ctx['argtys'][0] if ctx.get('argtys') else c['args'][0]))]
    if path.startswith('core::iter::sources::') or path.startswith('core::iter::sources'):
        if name == 'once': return [(st, ItV('optit', None, (some(ex, args[0]), z3.IntVal(0), z3.IntVal(1))))]
        if name == 'empty': return [(st, ItV('empty', None, ()))]
        if name == 'from_fn' and path.endswith('::from_fn'): return [(st, ItV('from_fn', dict(ctx), (args[0],)))]
    if path == 'core::iter::adapters::zip::zip':
        return [(st, ItV('zip', None, (into_iter(ex, st, args[0], ctx['argtys'][0]), into_iter(ex, st, args[1], ctx['argtys'][1]))))]
    if tr in (ITER, 'core::iter::traits::double_ended::DoubleEndedIterator', 'core::iter::traits::exact_size::ExactSizeIterator'):
        r = iterator_method(ex, st, c, name, args, ctx)
        if r is not None: return r
    if path.startswith('core::iter::adapters::peekable::') and name in ('peek', 'next_if', 'next_if_eq'):
        r = peekable_method(ex, st, name, args, ctx)
        if r is not None: return r
    if tr == 'core::iter::traits::collect::Extend' and name == 'extend':
        acc = val(ex, st, args[0])
        it = into_iter(ex, st, args[1], ctx['argtys'][1] if ctx.get('argtys') else None)
        if not z3.is_expr(acc): acc = ex.term(acc)
        out = []
        for s, a in fill(ex, st, it, acc, lab(ctx, 'extend')):
            ex.store(s, args[0], a); out.append((s, unit(ex)))
        return out
    if tr == 'core::iter::traits::collect::FromIterator' and name == 'from_iter':
        return collect(ex, st, into_iter(ex, st, args[0], ctx['argtys'][0]), ctx['destty'], ctx)
    SETOPS = {'core::ops::arith::Sub': 'difference', 'core::ops::bit::BitAnd': 'intersection', 'core::ops::bit::BitOr': 'union', 'core::ops::bit::BitXor': 'symmetric_difference'}
    if tr in SETOPS and ctx.get('argtys') and adt_of(ex, ctx['argtys'][0]) in SETS and adt_of(ex, ctx['argtys'][1]) in SETS:
        return [(st, set_op(ex, st, SETOPS[tr], ex.term(val(ex, st, args[0])), ex.term(val(ex, st, args[1]))))]
    # ------------------------------------------------------------ arrays and slices: indexing
    if tr in ('core::ops::index::Index', 'core::ops::index::IndexMut') and name in ('index', 'index_mut'):
        r = index(ex, st, c, name, args, ctx)
        if r is not None: return r
    if tr == 'core::convert::TryFrom' and name == 'try_from' and (c.get('resolved') or '').startswith(('core::array::', 'alloc::vec::')) and ctx.get('argtys'):
        r = array_try_from(ex, st, args[0], ctx)
        if r is not None: return r
    if path == 'core::array::from_fn':
        t = ex.T[ex.strip(ctx['destty'])]
        if t['k'] == 'array' and t['len'] is not None and int(t['len']) <= 256:
            fid = ex.new_frame(st); st.frames[fid] = {'f': args[0]}
            cur = [(st, [])]
            for k in range(int(t['len'])):
                nxt = []
                for s, l in cur: nxt += [(s2, l + [v]) for s2, v in ex.call_closure(s, MutRef(fid, 'f', ()), [z3.IntVal(k)], ctx)]
                cur = nxt
                if len(cur) > 16: raise Unsupported('array::from_fn with branches')
            return [(s, ArrV(ex.strip(ctx['destty']), l)) for s, l in cur]
    if path.startswith('core::intrinsics::'):
        r = intrinsic(ex, st, name, args, ctx)
        if r is not None: return r
    if path == 'core::intrinsics::raw_eq': return [(st, ex.eq(val(ex, st, args[0]), val(ex, st, args[1])))]
    # ------------------------------------------------------------ collections
    if adt == 'alloc::vec::Vec' or adt == 'slice' or adt == 'array' or path.startswith('core::slice::{impl#0}') or path.startswith('alloc::slice::'):
        r = vec_method(ex, st, c, name, args, ctx)
        if r is not None: return r
    if adt in MAPS:
        r = map_method(ex, st, c, name, args, ctx)
        if r is not None: return r
    if adt in SETS:
        r = set_method(ex, st, c, name, args, ctx)
        if r is not None: return r
    if adt.endswith(('::Entry', '::OccupiedEntry', '::VacantEntry')) and ('collections' in adt or 'hash::map' in adt):
        r = entry_method(ex, st, c, name, args, ctx)
        if r is not None: return r
    return None

def int_range(ex, ti):
    t = ex.T[ex.strip(ti)]
    if t['k'] == 'uint': return 0, 2 ** t['w']
    if t['k'] == 'int': return -2 ** (t['w'] - 1), 2 ** (t['w'] - 1)
    raise Unsupported('not an integer')

def intrinsic(ex, st, name, args, ctx):
    if name in ('likely', 'unlikely', 'black_box'): return [(st, args[0])]
    if name == 'cold_path': return [(st, unit(ex))]
    if name == 'assume': st.assume(ex.term(args[0])); return [(st, unit(ex))]
    if name in ('saturating_add', 'saturating_sub'):
        lo, hi = int_range(ex, ctx['argtys'][0])
        a, b = ex.term(args[0]), ex.term(args[1])
        ex.intfact(st, a, ctx['argtys'][0]); ex.intfact(st, b, ctx['argtys'][0])
        x = z3.simplify(a + b if name == 'saturating_add' else a - b)
        if ex.infeasible(st, z3.Not(z3.And(x >= lo, x < hi))): return [(st, x)]
        return [(st, z3.If(x < lo, z3.IntVal(lo), z3.If(x >= hi, z3.IntVal(hi - 1), x)))]
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        lo, hi = int_range(ex, ctx['argtys'][0])
        a, b = ex.term(args[0]), ex.term(args[1])
        ex.intfact(st, a, ctx['argtys'][0]); ex.intfact(st, b, ctx['argtys'][0])
        x = z3.simplify(a + b if 'add' in name else a - b if 'sub' in name else a * b)
        inr = z3.And(x >= lo, x < hi)
        ok = ex.infeasible(st, z3.Not(inr))
        w = x if ok else z3.If(inr, x, (x - lo) % (hi - lo) + lo)
        if name.startswith('wrapping'): return [(st, w)]
        return [(st, Agg(ex.strip(ctx['destty']), 0, [w, z3.BoolVal(False) if ok else z3.Not(inr)]))]
    return None

def is_btree(ex, ctx):
    """an iterator of an ordered collection?"""
    def go(ti, d=0):
        t = ex.T[ex.strip(ti)]
        if t['k'] != 'adt' or d > 4: return False
        return '::btree::' in t['path'] or t['path'].startswith('core::iter::adapters::') and any(isinstance(x, int) and go(x, d + 1) for x in t['args'])
    return bool(ctx.get('argtys')) and go(ctx['argtys'][0])

def array_try_from(ex, st, v, ctx):
    """a slice into an array (or a reference to one) of the same length"""
    rt = ex.strip(ctx['destty'])
    at = ex.strip(ex.T[rt]['args'][0])
    src = ex.T[ex.strip(ctx['argtys'][0])]
    vec = src['k'] == 'adt' and src['path'] == 'alloc::vec::Vec'
    if ex.T[at]['k'] != 'array' or src['k'] != 'slice' and not vec or ex.T[at]['len'] is None or int(ex.T[at]['len']) > 256: return None
    m = int(ex.T[at]['len'])
    if isinstance(v, MutRef) and ex.T[ex.T[rt]['args'][0]]['k'] == 'ref' and ex.T[ex.T[rt]['args'][0]]['mut']: return None
    x = val(ex, st, v) if vec else ex.as_slice(st, val(ex, st, v), src['ty'])
    a, b = ex.branch(st, ex.vlen(x) == m)
    out = []
    if a is not None: out.append((a, Agg(rt, 0, [ArrV(at, [z3.Select(ex.varr(x), k) for k in range(m)])])))
    if b is not None: out.append((b, Agg(rt, 1, [x if vec else ex.fresh('error', ex.S.sort(ex.T[rt]['args'][1]))])))
    return out

# ---------------------------------------------------------------- iterators
def S_range(ex, ti): return ex.S.sort(ti)

def acc_none(ex, dt): return ex.S.cons(dt, 0, [])

def plain(it):
    """an iterator whose steps run no closure and have no effect"""
    return isinstance(it, ItV) and (it.kind in BASE or it.kind in ('enumerate', 'rev', 'id', 'zip', 'chain') and all(plain(x) for x in it.f if isinstance(x, ItV)))

def peek(ex, st, me):
    """the next element without a step: [(state, element | None)]"""
    it = ex.load(st, me)
    fid = ex.new_frame(st); st.frames[fid] = {'p': it}
    out = []
    for s, kd, v in push(ex, st, MutRef(fid, 'p', ())):
        if kd == 'skip': raise Unsupported('a look-ahead of a filtered iterator')
        out.append((s, v if kd == 'item' else None))
    return out

def peekable_method(ex, st, name, args, ctx):
    """Peekable over an iterator whose steps have no effect: looking ahead needs no state"""
    me = args[0]
    if not isinstance(me, MutRef): return None
    while isinstance(ex.load(st, me), MutRef): me = ex.load(st, me)
    if not plain(ex.load(st, me)): return None
    out = []
    for s, v in peek(ex, st, me):
        if v is None: out.append((s, Agg(ctx['destty'], 0, []))); continue
        if name == 'peek': out.append((s, Agg(ctx['destty'], 1, [v]))); continue
        for s2, r in ex.call_closure(s, args[1], [v], ctx) if name == 'next_if' else [(s, ex.eq(v, val(ex, s, args[1])))]:
            a, b = ex.branch(s2, ex.term(r))
            if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
            if a is not None:
                for s3, kd, w in push(ex, a, me): out.append((s3, Agg(ctx['destty'], 1, [w]) if kd == 'item' else Agg(ctx['destty'], 0, [])))
    return out

def iterator_method(ex, st, c, name, args, ctx):
    me = args[0]
    it = val(ex, st, me)
    if not isinstance(it, ItV) and ctx.get('argtys') and adt_of(ex, ctx['argtys'][0]) in ('core::ops::range::Range', 'core::ops::range::RangeFrom', 'core::ops::range::RangeInclusive'):
        # a range is an iterator itself
        ti = ex.strip(ctx['argtys'][0])
        fs = list(it.f) if isinstance(it, Agg) else [S_.field(it, 0, k) for S_ in [ex.S] for k in range(it.sort().constructor(0).arity())]
        if name == 'next' and isinstance(me, MutRef):
            if len(fs) == 3: return None
            while isinstance(ex.load(st, me), MutRef): me = ex.load(st, me)
            pos, et = ex.term(fs[0]), ex.T[ti]['args'][0]
            ex.intfact(st, pos, et)
            if len(fs) == 1:
                t = ex.T[ex.strip(et)]
                ex.oblige(st, 'no-panic: the end of an unbounded range', ['PANIC'], pos + 1 < (2 ** t['w'] if t['k'] == 'uint' else 2 ** (t['w'] - 1)), kind='panic')
                a, b = st, None
            else: a, b = ex.branch(st, pos < ex.term(fs[1]))
            out = []
            if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
            if a is not None:
                ex.store(a, me, Agg(ti, 0, [z3.simplify(pos + 1)] + fs[1:]))
                out.append((a, Agg(ctx['destty'], 1, [pos])))
            return out
        if isinstance(me, MutRef):
            # a method which takes the range by reference: what is left of it is put back
            if len(fs) == 1: return None
            while isinstance(ex.load(st, me), MutRef): me = ex.load(st, me)
            fid = ex.new_frame(st); st.frames[fid] = {'r': into_iter(ex, st, Agg(ti, 0, fs), ti)}
            if not isinstance(st.frames[fid]['r'], ItV): return None
            out = []
            r = iterator_method(ex, st, c, name, [MutRef(fid, 'r', ())] + list(args[1:]), ctx)
            if r is None or name == 'by_ref': return None
            for s, v in r:
                x = ex.load(s, MutRef(fid, 'r', ()))
                ex.store(s, me, Agg(ti, 0, [x.f[1], x.f[2]]) if isinstance(x, ItV) and x.kind == 'range' and len(fs) == 2 else ex.fresh('range', S_range(ex, ti)))
                out.append((s, v))
            return out
        me = it = into_iter(ex, st, Agg(ti, 0, fs), ti)
        if not isinstance(it, ItV): return None
    if not isinstance(it, ItV): return None
    A = lambda k, f: [(st, ItV(k, dict(ctx), f))]
    if name in ('by_ref',): return [(st, me)]
    if name in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while'): return A(name, (me, args[1]))
    if name == 'skip_while': return A(name, (me, args[1], z3.BoolVal(False)))
    if name == 'flatten': return A('flatten', (me,))
    if name == 'flat_map': return [(st, ItV('flatten', dict(ctx), (ItV('map', dict(ctx), (me, args[1])),)))]
    if name in ('copied', 'cloned', 'fuse', 'peekable'):
        if name == 'peekable' and not plain(it): return None
        return [(st, me)]
    if name == 'enumerate': return A('enumerate', (me, z3.IntVal(0)))
    if name == 'rev' and it.kind in BASE | {'slicemut'}: return A('rev', (me,))
    if name == 'zip': return A('zip', (me, into_iter(ex, st, args[1], ctx['argtys'][1] if ctx.get('argtys') else None)))
    if name == 'chain': return A('chain', (me, into_iter(ex, st, args[1], ctx['argtys'][1] if ctx.get('argtys') else None), z3.BoolVal(False)))
    if name == 'take': return A('take', (me, ex.term(args[1])))
    if name == 'skip' and it.kind in BASE:
        p = z3.simplify(it.f[1] + ex.term(args[1]))
        a, b = ex.branch(st, p < it.f[2])
        return [(q, ItV(it.kind, it.meta, (it.f[0], x, it.f[2]))) for q, x in ((a, p), (b, it.f[2])) if q is not None]
    if name in ('next', 'next_back') and isinstance(me, MutRef):
        while isinstance(ex.load(st, me), MutRef): me = ex.load(st, me)
        if name == 'next_back':
            it = ex.load(st, me)
            if it.kind not in BASE: return None
            pos, end = it.f[1], it.f[2]
            a, b = ex.branch(st, pos < end)
            out = []
            if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
            if a is not None:
                if it.kind in ('mapit', 'setit'): extreme(ex, a, it.f[0], True, end)
                v = base_item(ex, a, it, z3.simplify(end - 1))
                ex.store(a, me, ItV(it.kind, it.meta, (it.f[0], pos, z3.simplify(end - 1))))
                out.append((a, Agg(ctx['destty'], 1, [v])))
            return out
        out = []
        for s, kd, v in push(ex, st, me):
            if kd == 'item': out.append((s, Agg(ctx['destty'], 1, [v])))
            elif kd == 'none': out.append((s, Agg(ctx['destty'], 0, [])))
            else:
                r = L.jump_back_ok(ex, s, ctx['fid'])
                if not r: raise Unsupported('a filtered iterator stepped outside of a loop over it')
                b, head = r
                for k, sl in L.state_diff(ex, head, b):
                    if not (sl[0] == me.fid and sl[1] == me.loc): raise Unsupported('a filtered iterator in a loop which does more')
                out.append((s, 'BACK'))
        return out
    if name in ('count', 'len'):
        n = length(ex, st, it)
        if n is not None and it.kind in ('mapit', 'setit') and any(x.startswith('part') for x in L.consts_of(it.f[0])):
            st.taint = tuple(sorted(set(st.taint) | {'the number of keys in a range'}))
        if n is not None and it.kind != 'inspect': return [(st, n)]
        if name == 'count':
            def body(s, v, racc):
                ex.store(s, racc, ex.load(s, racc) + 1); return [(s, 'cont')]
            return [(s, a) for s, _, a, _ in L.for_each(ex, st, me, z3.IntVal(0), body, lab(ctx, 'count'))]
        return None
    if name == 'nth' and isinstance(me, MutRef) and it.kind in BASE:
        while isinstance(ex.load(st, me), MutRef): me = ex.load(st, me)
        it = ex.load(st, me)
        pos, end = it.f[1], it.f[2]
        p = z3.simplify(pos + ex.term(args[1]))
        a, b = ex.branch(st, p < end)
        out = []
        if b is not None:
            ex.store(b, me, ItV(it.kind, it.meta, (it.f[0], end, end))); out.append((b, Agg(ctx['destty'], 0, [])))
        if a is not None:
            ex.store(a, me, ItV(it.kind, it.meta, (it.f[0], z3.simplify(p + 1), end)))
            out.append((a, Agg(ctx['destty'], 1, [base_item(ex, a, it, p)])))
        return out
    if name == 'last' and it.kind in BASE or name in ('max', 'min') and (it.kind == 'setit' or it.kind == 'mapit' and it.meta == 'k') and is_btree(ex, ctx):
        pos, end = it.f[1], it.f[2]
        a, b = ex.branch(st, pos < end)
        out = []
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        if a is not None:
            last = name != 'min'
            if it.kind in ('mapit', 'setit') and is_btree(ex, ctx) and (last or z3.is_int_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0): extreme(ex, a, it.f[0], last, end)
            elif name == 'min': return None
            out.append((a, Agg(ctx['destty'], 1, [base_item(ex, a, it, z3.simplify(end - 1) if last else pos)])))
        return out
    if name == 'size_hint': return None
    if name == 'collect': return collect(ex, st, me, ctx['destty'], ctx)
    if name in ('any', 'all', 'find', 'position', 'find_map'):
        by_ref = isinstance(me, MutRef)
        def body(s, v, racc):
            out = []
            for s2, r in ex.call_closure(s, args[1], [v], ctx):
                if name == 'find_map':
                    for s3, p in opt_cases(ex, s2, r):
                        out.append((s3, 'cont') if p is None else (s3, 'break', p))
                    continue
                r = ex.term(r)
                if name == 'all': r = z3.Not(r)
                a, b = ex.branch(s2, r)
                if a is not None: out.append((a, 'break', v))
                if b is not None:
                    if name == 'position': ex.store(b, racc, z3.simplify(ex.load(b, racc) + 1))
                    out.append((b, 'cont'))
            return out
        src = it if by_ref else me
        out = []
        for s, pay, a, i2 in L.for_each(ex, st, src, z3.IntVal(0) if name == 'position' else unit(ex), body, lab(ctx, name)):
            if by_ref: ex.store(s, me, i2)
            brk = pay != 'done'
            if name == 'any': r = z3.BoolVal(brk)
            elif name == 'all': r = z3.BoolVal(not brk)
            elif name == 'position': r = optv(ctx, a if brk else None)
            else: r = optv(ctx, pay[1] if brk else None)
            out.append((s, r))
        return out
    if name in ('sum', 'min', 'max', 'reduce', 'last', 'min_by_key', 'max_by_key'):
        if isinstance(me, MutRef): return None
        if name == 'sum':
            t = ex.T[ex.strip(ctx['destty'])]
            if t['k'] not in ('uint', 'int'): return None
            lo, hi = int_range(ex, ctx['destty'])
            def body(s, v, racc):
                x = z3.simplify(ex.load(s, racc) + ex.term(v))
                ex.oblige(s, 'no-panic: Overflow of a sum', ['PANIC'], z3.And(x >= lo, x < hi), kind='panic')
                ex.store(s, racc, x); return [(s, 'cont')]
            acc = z3.IntVal(0)
        else:
            if name.endswith('_key'): return None
            dt = ex.S.sort(ctx['destty'])
            if name in ('min', 'max'):
                out = []
                vs = ex.S.vec(dt.accessor(1, 0).range())
                for s, x in [(st, it.f[0])] if it.kind == 'slice' and z3.is_int_value(z3.simplify(it.f[1])) and z3.simplify(it.f[1]).as_long() == 0 and it.f[2].eq(ex.vlen(it.f[0])) else \
                        fill(ex, st, me, empty(ex, vs), lab(ctx, name)):
                    n, ar = ex.vlen(x), ex.varr(x)
                    a, b = ex.branch(s, n > 0)
                    if a is not None:
                        k = ex.fresh('at', z3.IntSort()); j = z3.Int('j!c')
                        a.assume(z3.And(0 <= k, k < n))
                        less = ord_lt(ex, ar[j], ar[k]) if name == 'min' else ord_lt(ex, ar[k], ar[j])
                        a.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(less)), patterns=[ar[j]]))
                        out.append((a, some(ex, ar[k])))
                    if b is not None: out.append((b, acc_none(ex, dt)))
                return out
            acc = ex.S.cons(dt, 0, [])
            def body(s, v, racc):
                out = []
                for s2, p in opt_cases(ex, s, ex.load(s, racc)):
                    if p is None or name == 'last': out.append((s2, some(ex, v)))
                    else: out += [(s3, some(ex, r)) for s3, r in ex.call_closure(s2, args[1], [p, v], ctx)]
                for s2, r in out: ex.store(s2, racc, r)
                return [(s2, 'cont') for s2, _ in out]
        return [(s, a) for s, _, a, _ in L.for_each(ex, st, me, acc, body, lab(ctx, name))]
    if name in ('eq', 'ne') and not isinstance(me, MutRef):
        other = into_iter(ex, st, args[1], ctx['argtys'][1])
        n1, n2 = length(ex, st, it), length(ex, st, other)
        if n1 is None or n2 is None: return None
        a, b = ex.branch(st, n1 == n2)
        out = []
        if b is not None: out.append((b, z3.BoolVal(name == 'ne')))
        if a is not None:
            def body(s, v, racc):
                x, y = ex.branch(s, ex.eq(v.f[0], v.f[1]))
                return ([(x, 'cont')] if x is not None else []) + ([(y, 'break', None)] if y is not None else [])
            for s, pay, _, _ in L.for_each(ex, a, ItV('zip', None, (it, other)), unit(ex), body, lab(ctx, name)):
                out.append((s, z3.BoolVal((pay == 'done') == (name == 'eq'))))
        return out
    if name in ('rfind', 'rposition') and it.kind in BASE:
        rv = ItV('rev', dict(ctx), (it,))
        if isinstance(me, MutRef):
            fid = ex.new_frame(st); st.frames[fid] = {'r': rv}
            rr = MutRef(fid, 'r', ())
        else: rr = rv
        n = length(ex, st, it)
        out = []
        for s, v in iterator_method(ex, st, c, name[1:], [rr] + list(args[1:]), ctx):
            if isinstance(me, MutRef):
                m2 = me
                while isinstance(ex.load(s, m2), MutRef): m2 = ex.load(s, m2)
                ex.store(s, m2, ex.load(s, rr).f[0])
            if name == 'rposition' and v.var == 1: v = Agg(v.ty, 1, [z3.simplify(n - 1 - v.f[0])])
            out.append((s, v))
        return out
    if name == 'for_each':
        def body(s, v, racc): return [(s2, 'cont') for s2, _ in ex.call_closure(s, racc, [v], ctx)]
        return [(s, unit(ex)) for s, _, a, _ in L.for_each(ex, st, me, args[1], body, lab(ctx, name))]
    if name in ('fold', 'try_fold', 'try_for_each'):
        by_ref = isinstance(me, MutRef)
        dt = ex.T[ex.strip(ctx['destty'])]
        acc0 = args[1] if name != 'try_for_each' else unit(ex)
        clo = args[2] if name != 'try_for_each' else args[1]
        okv = 1 if dt['k'] == 'adt' and dt['path'] == 'core::option::Option' else 0
        def body(s, v, racc):
            out = []
            cl = MutRef(racc.fid, racc.loc, racc.proj + (('f', 0, 1, None),))
            ac = MutRef(racc.fid, racc.loc, racc.proj + (('f', 0, 0, None),))
            a = [ex.load(s, ac), v] if name != 'try_for_each' else [v]
            for s2, r in ex.call_closure(s, cl, a, ctx):
                if name == 'fold':
                    ex.store(s2, ac, r); out.append((s2, 'cont')); continue
                for s3, good, p in try_cases(ex, s2, r, okv):
                    if good:
                        if name == 'try_fold': ex.store(s3, ac, p)
                        out.append((s3, 'cont'))
                    else: out.append((s3, 'break', p))
            return out
        src = it if by_ref else me
        out = []
        for s, pay, a, i2 in L.for_each(ex, st, src, Agg('tuple', 0, [acc0, clo]), body, lab(ctx, name)):
            if by_ref: ex.store(s, me, i2)
            if name == 'fold': out.append((s, a.f[0]))
            elif pay == 'done': out.append((s, Agg(ex.strip(ctx['destty']), okv, [a.f[0]])))
            else: out.append((s, Agg(ex.strip(ctx['destty']), 1 - okv, [] if pay[1] is None else [pay[1]])))
        return out
    if name == 'partition':
        def body(s, v, racc):
            out = []
            for s2, r in ex.call_closure(s, args[1], [v], ctx):
                a, b = ex.branch(s2, ex.term(r))
                for q, k in ((a, 0), (b, 1)):
                    if q is None: continue
                    rr = MutRef(racc.fid, racc.loc, racc.proj + (('f', 0, k, None),))
                    ex.store(q, rr, add(ex, ex.load(q, rr), v)); out.append((q, 'cont'))
            return out
        tt = ex.T[ex.strip(ctx['destty'])]['tys'][0]
        e = empty(ex, ex.S.sort(tt))
        return [(s, a) for s, _, a, _ in L.for_each(ex, st, me, Agg('tuple', 0, [e, e]), body, lab(ctx, name))]
    if name == 'unzip':
        tys = ex.T[ex.strip(ctx['destty'])]['tys']
        def body(s, v, racc):
            for k in (0, 1):
                x = v.f[k] if isinstance(v, Agg) else ex.S.field(v, 0, k)
                rr = MutRef(racc.fid, racc.loc, racc.proj + (('f', 0, k, None),))
                ex.store(s, rr, add(ex, ex.load(s, rr), x))
            return [(s, 'cont')]
        return [(s, a) for s, _, a, _ in L.for_each(ex, st, me, Agg('tuple', 0, [empty(ex, ex.S.sort(t)) for t in tys]), body, lab(ctx, name))]
    return None

def try_cases(ex, st, r, okv):
    """cases of a Result / Option / ControlFlow-like value -> [(state, continues?, payload)]"""
    if isinstance(r, MutRef): r = ex.load(st, r)
    if isinstance(r, Agg): return [(st, r.var == okv, r.f[0] if r.f else None)]
    s = r.sort()
    a, b = ex.branch(st, ex.S.is_variant(r, okv))
    out = []
    if a is not None: out.append((a, True, ex.S.field(r, okv, 0)))
    if b is not None: out.append((b, False, ex.S.field(r, 1 - okv, 0) if s.constructor(1 - okv).arity() else None))
    return out

def collect(ex, st, it, ti, ctx):
    ti = ex.strip(ti)
    t = ex.T[ti]
    if t['k'] == 'adt' and t['path'] in ('core::result::Result', 'core::option::Option'):
        okv = 0 if t['path'].endswith('Result') else 1
        acc = empty(ex, ex.S.sort(t['args'][0]))
        def body(s, v, racc):
            out = []
            for s2, good, p in try_cases(ex, s, v, okv):
                if good:
                    ex.store(s2, racc, add(ex, ex.load(s2, racc), p)); out.append((s2, 'cont'))
                else: out.append((s2, 'break', p))
            return out
        out = []
        for s, pay, a, _ in L.for_each(ex, st, it, acc, body, lab(ctx, 'collect')):
            if pay == 'done': out.append((s, Agg(ti, okv, [a])))
            else: out.append((s, Agg(ti, 1 - okv, [] if pay[1] is None else [pay[1]])))
        return out
    if t['k'] == 'adt' and (t['path'] in MAPS | SETS or t['path'] == 'alloc::vec::Vec'):
        return fill(ex, st, it, empty(ex, ex.S.sort(ti)), lab(ctx, 'collect'))
    if t['k'] == 'tuple' and not t['tys']:
        return [(s, unit(ex)) for s, _, _, _ in L.for_each(ex, st, it, unit(ex), lambda s, v, r: [(s, 'cont')], lab(ctx, 'collect'))]
    raise Unsupported('collect into ' + t['name'])

# ---------------------------------------------------------------- indexing
def range_of(ex, r, ti, n):
    """(lo, hi) of a range value"""
    p = adt_of(ex, ti)
    f = lambda k: ex.term(r.f[k]) if isinstance(r, Agg) else ex.S.field(r, 0, k)
    if p.endswith('::Range'): return f(0), f(1)
    if p.endswith('::RangeTo'): return z3.IntVal(0), f(0)
    if p.endswith('::RangeFrom'): return f(0), n
    if p.endswith('::RangeFull'): return z3.IntVal(0), n
    if p.endswith('::RangeInclusive'): return f(0), z3.simplify(f(1) + 1)
    if p.endswith('::RangeToInclusive'): return z3.IntVal(0), z3.simplify(f(0) + 1)
    return None

def index(ex, st, c, name, args, ctx):
    base = args[0]
    ity = ctx['argtys'][1]
    bty = ctx['argtys'][0]
    p = adt_of(ex, bty)
    if p in MAPS:
        m = coll(ex, st, base); k = ex.term(val(ex, st, args[1]))
        ex.oblige(st, 'no-panic: index of a map', ['PANIC'], m_has(ex, m, k), kind='panic')
        return [(st, ex.some_of(z3.Select(m, k)))]
    if p not in ('slice', 'array', 'alloc::vec::Vec'): return None
    x = val(ex, st, base)
    et = ex.T[ex.strip(bty)]
    et = et['ty'] if et['k'] in ('slice', 'array') else et['args'][0]
    if isinstance(x, ArrV): n = z3.IntVal(len(x.f))
    else:
        x = ex.as_slice(st, x, et) if not x.sort().name().startswith('Vec<') else x
        ex.lenfact(st, x); n = ex.vlen(x)
    if ex.T[ex.strip(ity)]['k'] == 'uint':
        i = ex.term(args[1])
        ex.intfact(st, i, ity)
        ex.oblige(st, 'no-panic: index out of bounds', ['PANIC'], i < n, kind='panic')
        if name == 'index_mut': return [(st, MutRef(base.fid, base.loc, base.proj + (('i', i, et),)))]
        return [(st, ex.get_proj(st, x, ('i', i, et)))]
    r = range_of(ex, args[1], ity, n)
    if r is None: return None
    lo, hi = r
    for q in (lo, hi): st.note(q >= 0)
    ex.oblige(st, 'no-panic: slice range', ['PANIC'], z3.And(lo <= hi, hi <= n), kind='panic')
    if name == 'index_mut':
        if not isinstance(base, MutRef): raise Unsupported('index_mut')
        return [(st, MutRef(base.fid, base.loc, base.proj + (('rng', lo, hi, et),)))]
    return [(st, ex.subslice(st, ex.as_slice(st, x, et), lo, hi))]

# ---------------------------------------------------------------- vectors and slices
def vec_method(ex, st, c, name, args, ctx):
    S = ex.S
    if name in ('new', 'with_capacity') and c.get('impl_adt') == 'alloc::vec::Vec':
        return [(st, empty(ex, S.sort(ctx['destty'])))]
    if not args: return None
    me = args[0]
    x = val(ex, st, me)
    if isinstance(x, ItV): return None
    bty = ctx['argtys'][0] if ctx.get('argtys') else None
    et = None
    if bty is not None:
        t = ex.T[ex.strip(bty)]
        et = t['ty'] if t['k'] in ('slice', 'array') else t['args'][0] if t['k'] == 'adt' and t['args'] else None
    if name in ('as_slice', 'as_ref', 'to_vec', 'into_vec', 'into_boxed_slice', 'as_array'):
        if name == 'as_array': return None
        return [(st, ex.as_slice(st, x, et))]
    if name in ('as_mut_slice',): return [(st, me)]
    if name == 'iter_mut': return [(st, iter_mut(ex, st, me))]
    if name in ('reserve', 'shrink_to_fit', 'reserve_exact'): return [(st, unit(ex))]
    if name == 'copy_from_slice' or name == 'clone_from_slice':
        src = ex.as_slice(st, val(ex, st, args[1]), et)
        if isinstance(me, MutRef) and me.proj and me.proj[-1][0] == 'rng':
            _, lo, hi, _ = me.proj[-1]
            n = z3.simplify(hi - lo)
        else:
            n = z3.IntVal(len(x.f)) if isinstance(x, ArrV) else ex.vlen(ex.as_slice(st, x, et))
        ex.oblige(st, 'no-panic: copy_from_slice lengths', ['PANIC'], n == ex.vlen(src), kind='panic')
        if isinstance(x, ArrV) and not (me.proj and me.proj[-1][0] == 'rng'):
            ex.store(st, me, ArrV(x.ty, [ex.elem(src, z3.IntVal(k), et) for k in range(len(x.f))]))
        else: ex.store(st, me, src)
        return [(st, unit(ex))]
    if isinstance(x, ArrV): n = z3.IntVal(len(x.f))
    elif z3.is_expr(x) and (x.sort().name().startswith('Vec<') or (x.sort().name().startswith('[') and et is not None)):
        x = ex.as_slice(st, x, et); ex.lenfact(st, x); n = ex.vlen(x)
    else: return None
    if name in ('len',): return [(st, n)]
    if name == 'is_empty': return [(st, n == 0)]
    if name == 'iter' or name == 'into_iter': return [(st, into_iter(ex, st, x, None) if isinstance(x, ArrV) else mk_slice(ex, st, x))]
    if name in ('get', 'get_mut') and ctx.get('argtys') and ex.T[ex.strip(ctx['argtys'][1])]['k'] == 'uint':
        i = ex.term(args[1]); ex.intfact(st, i, ctx['argtys'][1])
        a, b = ex.branch(st, i < n)
        out = []
        if a is not None:
            out.append((a, Agg(ctx['destty'], 1, [MutRef(me.fid, me.loc, me.proj + (('i', i, et),)) if name == 'get_mut' else ex.get_proj(a, x, ('i', i, et))])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name == 'get' and ctx.get('argtys') and ex.T[ex.strip(ctx['argtys'][1])].get('path', '').startswith('core::ops::range::'):
        r = range_of(ex, val(ex, st, args[1]), ctx['argtys'][1], n)
        if r is None: return None
        for q in r: st.note(q >= 0)
        a, b = ex.branch(st, z3.And(r[0] <= r[1], r[1] <= n))
        out = []
        if a is not None: out.append((a, Agg(ctx['destty'], 1, [ex.subslice(a, ex.as_slice(a, x, et), r[0], r[1])])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name in ('first', 'last'):
        a, b = ex.branch(st, n > 0)
        out = []
        if a is not None: out.append((a, Agg(ctx['destty'], 1, [ex.get_proj(a, x, ('i', z3.IntVal(0) if name == 'first' else z3.simplify(n - 1), et))])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name in ('split_at', 'split_at_checked', 'split_first', 'split_last'):
        xs = ex.as_slice(st, x, et) if isinstance(x, ArrV) else x
        sub = lambda q, lo, hi: ex.subslice(q, xs, lo, hi)
        if name == 'split_at':
            k = ex.term(args[1])
            ex.oblige(st, 'no-panic: split_at', ['PANIC'], k <= n, kind='panic')
            return [(st, tup(ex, [sub(st, z3.IntVal(0), k), sub(st, k, n)]))]
        k = ex.term(args[1]) if name == 'split_at_checked' else z3.IntVal(1)
        a, b = ex.branch(st, k <= n)
        out = []
        if a is not None:
            if name == 'split_at_checked': v = [sub(a, z3.IntVal(0), k), sub(a, k, n)]
            elif name == 'split_first': v = [ex.elem(xs, z3.IntVal(0), et), sub(a, k, n)]
            else: v = [ex.elem(xs, z3.simplify(n - 1), et), sub(a, z3.IntVal(0), z3.simplify(n - 1))]
            out.append((a, Agg(ctx['destty'], 1, [tup(ex, v)])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name in ('first_chunk', 'last_chunk', 'split_first_chunk', 'split_last_chunk'):
        xs = ex.as_slice(st, x, et) if isinstance(x, ArrV) else x
        sub = lambda q, lo, hi: ex.subslice(q, xs, lo, hi)
        o = ex.T[ex.strip(ctx['destty'])]['args'][0]
        if name.startswith('split'):
            o = ex.T[ex.strip(o)]['tys'][0 if name == 'split_first_chunk' else 1]
        o = ex.strip(o); m = ex.T[o]['len']
        if m is None or m > 64: return None
        a, b = ex.branch(st, m <= n)
        out = []
        if a is not None:
            lo = z3.IntVal(0) if 'first' in name else z3.simplify(n - m)
            v = ArrV(o, [ex.elem(xs, z3.simplify(lo + k), et) for k in range(m)])
            if name == 'split_first_chunk': v = tup(ex, [v, sub(a, z3.IntVal(m), n)])
            elif name == 'split_last_chunk': v = tup(ex, [sub(a, z3.IntVal(0), lo), v])
            out.append((a, Agg(ctx['destty'], 1, [v])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name == 'starts_with':
        y = ex.as_slice(st, val(ex, st, args[1]), et); ex.lenfact(st, y)
        xs = ex.as_slice(st, x, et) if isinstance(x, ArrV) else x
        m = ex.vlen(y)
        return [(st, z3.And(m <= n, ex.eq(S.cons(y.sort(), 0, [m, ex.varr(xs)]), y)))]
    if name == 'contains':
        y = ex.term(val(ex, st, args[1]))
        if isinstance(x, ArrV): return [(st, z3.Or([ex.eq(q, y) for q in x.f]))]
        j = z3.Int('j!c')
        # (the value is mentioned, so that facts about it are used)
        st.note(S.uf('mentioned', [y], z3.BoolSort()))
        return [(st, z3.Exists([j], z3.And(0 <= j, j < n, z3.Select(ex.varr(x), j) == y)))]
    if isinstance(x, ArrV): return None
    if name == 'push': ex.store(st, me, add(ex, x, args[1])); return [(st, unit(ex))]
    if name == 'clear': ex.store(st, me, empty(ex, x.sort())); return [(st, unit(ex))]
    if name == 'pop':
        a, b = ex.branch(st, n > 0)
        out = []
        if a is not None:
            ex.store(a, me, S.cons(x.sort(), 0, [z3.simplify(n - 1), ex.varr(x)]))
            out.append((a, Agg(ctx['destty'], 1, [z3.Select(ex.varr(x), z3.simplify(n - 1))])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name in ('insert', 'remove', 'swap_remove', 'swap', 'split_off', 'drain', 'retain', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by',
                'sort_unstable_by_key', 'sort_by_cached_key', 'dedup', 'is_sorted', 'windows', 'concat'):
        return vec_more(ex, st, c, name, args, ctx, me, x, n, et)
    if name == 'truncate':
        k = ex.term(args[1])
        ex.store(st, me, S.cons(x.sort(), 0, [z3.If(k < n, k, n), ex.varr(x)])); return [(st, unit(ex))]
    if name in ('extend_from_slice', 'append'):
        it = mk_slice(ex, st, ex.as_slice(st, val(ex, st, args[1]), et))
        out = []
        for s, a in fill(ex, st, it, x, lab(ctx, name)):
            ex.store(s, me, a)
            if name == 'append': ex.store(s, args[1], empty(ex, x.sort()))
            out.append((s, unit(ex)))
        return out
    if name == 'reverse':
        na = ex.fresh('rev', ex.varr(x).sort())
        j = z3.Int('j!c')
        st.assume(z3.ForAll([j], na[j] == z3.Select(ex.varr(x), n - 1 - j), patterns=[na[j]]))
        ex.store(st, me, S.cons(x.sort(), 0, [n, na])); return [(st, unit(ex))]
    return None

def shifted(ex, st, ar, lo, d, hole=None):
    """the content of a vector with its elements from `lo` on moved up (d = 1, `hole` at lo) or down over removed ones (d < 0)"""
    na = ex.fresh('moved', ar.sort())
    j = z3.Int('j!c')
    if hole is not None:
        st.assume(z3.ForAll([j], na[j] == z3.If(j < lo, ar[j], z3.If(j == lo, hole, ar[j - 1])), patterns=[na[j]]))
        st.assume(z3.ForAll([j], z3.If(j < lo, na[j] == ar[j], na[j + 1] == ar[j]), patterns=[ar[j]]))
        st.note(na[lo] == hole)
    else:
        st.assume(z3.ForAll([j], na[j] == z3.If(j < lo, ar[j], ar[j + d]), patterns=[na[j]]))
        st.assume(z3.ForAll([j], z3.And(z3.Implies(j < lo, na[j] == ar[j]), z3.Implies(j >= lo + d, na[j - d] == ar[j])), patterns=[ar[j]]))
    return na

def vec_more(ex, st, c, name, args, ctx, me, x, n, et):
    S = ex.S
    ar = ex.varr(x)
    vec = lambda k, a: S.cons(x.sort(), 0, [z3.simplify(k), a])
    ints = lambda nm: ex.fresh(nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
    j, jj = z3.Int('j!c'), z3.Int('jj!c')
    if name == 'is_sorted':
        return [(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.Not(ord_lt(ex, ar[j + 1], ar[j])))))]
    if name == 'windows':
        k = z3.simplify(ex.term(args[1]))
        if not z3.is_int_value(k) or not 1 <= k.as_long() <= 8: return None
        return [(st, ItV('windows', k.as_long(), (x, z3.IntVal(0), z3.simplify(z3.If(n >= k, n - k + 1, 0)))))]
    if name == 'swap':
        a, b = ex.term(args[1]), ex.term(args[2])
        for q, t in ((a, ctx['argtys'][1]), (b, ctx['argtys'][2])): ex.intfact(st, q, t)
        ex.oblige(st, 'no-panic: index of swap', ['PANIC'], z3.And(a < n, b < n), kind='panic')
        ex.store(st, me, vec(n, z3.Store(z3.Store(ar, a, ar[b]), b, ar[a]))); return [(st, unit(ex))]
    if name in ('insert', 'remove', 'swap_remove', 'split_off'):
        k = ex.term(args[1]); ex.intfact(st, k, ctx['argtys'][1])
        ex.oblige(st, 'no-panic: index of ' + name, ['PANIC'], k <= n if name in ('insert', 'split_off') else k < n, kind='panic')
        if name == 'insert':
            ex.store(st, me, vec(n + 1, shifted(ex, st, ar, k, 1, ex.term(args[2])))); return [(st, unit(ex))]
        if name == 'remove':
            ex.store(st, me, vec(n - 1, shifted(ex, st, ar, k, z3.IntVal(1)))); return [(st, ar[k])]
        if name == 'swap_remove':
            ex.store(st, me, vec(n - 1, z3.Store(ar, k, ar[n - 1]))); return [(st, ar[k])]
        ex.store(st, me, vec(k, ar)); return [(st, ex.subslice(st, x, k, n))]
    if name == 'drain':
        r = range_of(ex, val(ex, st, args[1]), ctx['argtys'][1], n)
        if r is None: return None
        lo, hi = r
        for q in r: st.note(q >= 0)
        ex.oblige(st, 'no-panic: range of drain', ['PANIC'], z3.And(lo <= hi, hi <= n), kind='panic')
        part = x if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0 and hi.eq(n) else ex.subslice(st, x, lo, hi)
        if part is x: ex.store(st, me, empty(ex, x.sort()))
        else: ex.store(st, me, vec(n - (hi - lo), shifted(ex, st, ar, lo, z3.simplify(hi - lo))))
        return [(st, mk_slice(ex, st, part))]
    if name == 'retain':
        def body(s, v, racc):
            out = []
            for s2, r in ex.call_closure(s, args[1], [v], ctx):
                a, b = ex.branch(s2, ex.term(r))
                if a is not None: ex.store(a, racc, add(ex, ex.load(a, racc), v)); out.append((a, 'cont'))
                if b is not None: out.append((b, 'cont'))
            return out
        out = []
        for s, _, a, _ in L.for_each(ex, st, mk_slice(ex, st, x), empty(ex, x.sort()), body, lab(ctx, name)):
            ex.store(s, me, a); out.append((s, unit(ex)))
        return out
    if name.startswith('sort'):
        if name not in ('sort', 'sort_unstable') and isinstance(args[1], MutRef): return None
        # a permutation
        na, p, q = ex.fresh('sorted', ar.sort()), ints('from'), ints('to')
        inr = z3.And(0 <= j, j < n)
        st.assume(z3.ForAll([j], z3.Implies(inr, z3.And(0 <= p[j], p[j] < n, na[j] == ar[p[j]], q[p[j]] == j)), patterns=[na[j], p[j]]))
        st.assume(z3.ForAll([j], z3.Implies(inr, z3.And(0 <= q[j], q[j] < n, p[q[j]] == j, na[q[j]] == ar[j])), patterns=[ar[j], q[j]]))
        if name in ('sort', 'sort_unstable'):
            st.assume(z3.ForAll([j, jj], z3.Implies(z3.And(0 <= j, j < jj, jj < n), z3.Not(ord_lt(ex, na[jj], na[j]))), patterns=[z3.MultiPattern(na[j], na[jj])]))
        ex.store(st, me, vec(n, na)); return [(st, unit(ex))]
    if name == 'dedup':
        na, m, p, q = ex.fresh('deduped', ar.sort()), ex.fresh('ndedup', z3.IntSort()), ints('from'), ints('to')
        st.assume(z3.And(0 <= m, m <= n, (m == 0) == (n == 0)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(j <= p[j], p[j] < n, na[j] == ar[p[j]], q[p[j]] == j)), patterns=[na[j], p[j]]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= q[j], q[j] < m, q[j] <= j, p[q[j]] <= j, na[q[j]] == ar[j])), patterns=[ar[j], q[j]]))
        st.assume(z3.ForAll([j, jj], z3.Implies(z3.And(0 <= j, j < jj, jj < m), p[j] < p[jj]), patterns=[z3.MultiPattern(p[j], p[jj])]))
        st.assume(z3.ForAll([j, jj], z3.Implies(z3.And(0 <= j, jj == j + 1, jj < m), na[j] != na[jj]), patterns=[z3.MultiPattern(na[j], na[jj])]))
        ex.store(st, me, vec(m, na)); return [(st, unit(ex))]
    return None

# ---------------------------------------------------------------- maps and sets
def map_method(ex, st, c, name, args, ctx):
    S = ex.S
    if name in ('new', 'with_capacity'): return [(st, empty(ex, S.sort(ctx['destty'])))]
    if not args: return None
    me = args[0]
    m = val(ex, st, me)
    if not z3.is_expr(m): return None
    K = lambda: ex.term(val(ex, st, args[1]))
    if name in ('iter', 'into_iter'): return [(st, mk_mapit(ex, st, m, 'kv'))]
    if name in ('keys', 'into_keys'): return [(st, mk_mapit(ex, st, m, 'k'))]
    if name in ('values', 'into_values'): return [(st, mk_mapit(ex, st, m, 'v'))]
    if name == 'len':
        # the number of keys of a collection which a loop has built is not among what is known of the loop
        if any(x.startswith(('h_', 'part')) for x in L.consts_of(m)): st.taint = tuple(sorted(set(st.taint) | {'the number of keys of a collection built by a loop'}))
        return [(st, map_len(ex, st, m))]
    if name == 'is_empty': return [(st, map_len(ex, st, m) == 0)]
    if name == 'get': return [(st, z3.Select(m, K()))]
    if name == 'get_key_value' or name == 'remove_entry':
        k = K(); o = z3.Select(m, k); out = []
        for s, p in opt_cases(ex, st, o):
            if name == 'remove_entry' and p is not None: ex.store(s, me, z3.Store(m, k, none(ex, p.sort())))
            out.append((s, optv(ctx, None if p is None else tup(ex, [k, p]))))
        return out
    if name == 'contains_key': return [(st, m_has(ex, m, K()))]
    if name == 'insert':
        k, v = ex.term(args[1]), ex.term(args[2])
        ex.store(st, me, z3.Store(m, k, some(ex, v)))
        return [(st, z3.Select(m, k))]
    if name == 'remove':
        k = K()
        ex.store(st, me, z3.Store(m, k, S.cons(m.sort().range(), 0, [])))
        return [(st, z3.Select(m, k))]
    if name in ('iter_mut', 'values_mut') and isinstance(me, MutRef):
        m = named(ex, st, m); enum_facts(ex, st, m)
        return [(st, ItV('mapmut', name, (Agg('tuple', 0, [me, m]), z3.IntVal(0), m_size(ex, m))))]
    if name == 'clear': ex.store(st, me, empty(ex, m.sort())); return [(st, unit(ex))]
    if name == 'get_mut':
        k = K(); out = []
        a, b = ex.branch(st, m_has(ex, m, k))
        if a is not None: out.append((a, Agg(ctx['destty'], 1, [MutRef(me.fid, me.loc, me.proj + (('mv', k),))])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name == 'append':
        o = val(ex, st, args[1]); out = []
        for s, a in fill(ex, st, mk_mapit(ex, st, o, 'kv'), m, lab(ctx, name)):
            ex.store(s, me, a); ex.store(s, args[1], empty(ex, o.sort())); out.append((s, unit(ex)))
        return out
    if name == 'retain':
        def body(s, v, racc):
            out = []
            k, x = v.f
            for s2, r in ex.call_closure(s, args[1], [k, x], ctx):
                a, b = ex.branch(s2, ex.term(r))
                if a is not None:
                    ex.store(a, racc, z3.Store(ex.load(a, racc), k, some(ex, x))); out.append((a, 'cont'))
                if b is not None: out.append((b, 'cont'))
            return out
        out = []
        for s, _, a, _ in L.for_each(ex, st, mk_mapit(ex, st, m, 'kv'), empty(ex, m.sort()), body, lab(ctx, name)):
            ex.store(s, me, a); out.append((s, unit(ex)))
        return out
    if name in ('first_key_value', 'last_key_value', 'pop_first', 'pop_last'):
        m = named(ex, st, m)
        enum_facts(ex, st, m)
        a, b = ex.branch(st, m_size(ex, m) > 0)
        out = []
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        if a is not None:
            k, r = removed_end(ex, a, m, 'last' in name) if name.startswith('pop') else (m_key(ex, m, extreme(ex, a, m, 'last' in name)), None)
            x = ex.some_of(z3.Select(m, k))
            if name.startswith('pop'): ex.store(a, me, r)
            out.append((a, Agg(ctx['destty'], 1, [tup(ex, [k, x])])))
        return out
    if name == 'range': return [(st, mk_mapit(ex, st, key_range(ex, st, m, args[1]), 'kv'))]
    if name == 'split_off':
        k0 = ex.term(val(ex, st, args[1]))
        hi = part_of(ex, st, m, lambda k: z3.Or(k == k0, ord_lt(ex, k0, k)))
        lo = part_of(ex, st, m, lambda k: z3.Not(z3.Or(k == k0, ord_lt(ex, k0, k))))
        ex.store(st, me, lo)
        return [(st, hi)]
    if name in ('first_entry', 'last_entry'):
        m = named(ex, st, m)
        enum_facts(ex, st, m)
        a, b = ex.branch(st, m_size(ex, m) > 0)
        out = []
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        if a is not None:
            k = m_key(ex, m, extreme(ex, a, m, name == 'last_entry'))
            out.append((a, Agg(ctx['destty'], 1, [ObjV('entry', (me, k))])))
        return out
    if name == 'entry':
        ti = ex.strip(ctx['destty'])
        vs = {v['name']: i for i, v in enumerate(ex.T[ti]['variants'])}
        d = ObjV('entry', (me, ex.term(args[1])))
        a, b = ex.branch(st, m_has(ex, m, d.data[1]))
        return [(q, Agg(ti, vs[n], [d])) for q, n in ((a, 'Occupied'), (b, 'Vacant')) if q is not None]
    return None

def entry_method(ex, st, c, name, args, ctx):
    e = e0 = val(ex, st, args[0]) if args else None
    if isinstance(e, Agg) and len(e.f) == 1: e = e.f[0]
    if not isinstance(e, ObjV) or e.kind != 'entry': return None
    r, k = e.data
    m = ex.load(st, r)
    ref = lambda: MutRef(r.fid, r.loc, r.proj + (('mv', k),))
    if name in ('or_insert', 'or_insert_with', 'or_default'):
        a, b = ex.branch(st, m_has(ex, m, k))
        out = []
        if a is not None: out.append((a, ref()))
        if b is not None:
            if name == 'or_insert': vs = [(b, args[1])]
            elif name == 'or_insert_with': vs = ex.call_closure(b, args[1], [], ctx)
            else:
                sub = dict(ctx); sub['destty'] = ex.strip(ctx['destty'])
                vs = _contract(ex, b, {'path': 'core::default::Default::default', 'name': 'default', 'trait': 'core::default::Default'}, [], sub)
                if vs is None: return None
            for s, v in vs:
                ex.store(s, r, z3.Store(ex.load(s, r), k, some(ex, v))); out.append((s, ref()))
        return out
    if name == 'and_modify':
        a, b = ex.branch(st, m_has(ex, m, k))
        out = []
        if a is not None: out += [(s, e0) for s, _ in ex.call_closure(a, args[1], [ref()], ctx)]
        if b is not None: out.append((b, e0))
        return out
    if name in ('key', 'into_key'): return [(st, k)]
    adt = c.get('impl_adt') or ''
    if adt.endswith('::OccupiedEntry'):
        x = lambda: ex.some_of(z3.Select(m, k))
        if name == 'get': return [(st, x())]
        if name in ('get_mut', 'into_mut'): return [(st, ref())]
        if name == 'insert':
            old = x(); ex.store(st, r, z3.Store(m, k, some(ex, args[1]))); return [(st, old)]
        if name in ('remove', 'remove_entry'):
            old = x(); ex.store(st, r, z3.Store(m, k, ex.S.cons(m.sort().range(), 0, [])))
            return [(st, old if name == 'remove' else tup(ex, [k, old]))]
    if adt.endswith('::VacantEntry') and name == 'insert':
        ex.store(st, r, z3.Store(m, k, some(ex, args[1]))); return [(st, ref())]
    return None

def set_op(ex, st, name, m, o):
    r = ex.fresh('set', m.sort())
    k = z3.Const('k!s', m.sort().domain())
    op = {'difference': z3.And(m[k], z3.Not(o[k])), 'intersection': z3.And(m[k], o[k]), 'union': z3.Or(m[k], o[k]), 'symmetric_difference': z3.Xor(m[k], o[k])}[name]
    m1, o1 = named(ex, st, m), named(ex, st, o)
    st.note(z3.ForAll([k], r[k] == z3.substitute(op, (m, m1), (o, o1)), patterns=[r[k], m1[k], o1[k]]))
    return r

def bounds(ex, st, v):
    """the bounds of a range of keys: ((key, included?) | None, the same of the end), None if not understood"""
    v = val(ex, st, v)
    if not isinstance(v, Agg) or isinstance(v.ty, (str, z3.SortRef)): 
        if isinstance(v, Agg) and v.ty == 'tuple': fs, n = v.f, 'tuple'
        else: return None
    else:
        t = ex.T[ex.strip(v.ty)]
        fs, n = v.f, (t['path'].split('::')[-1] if t['k'] == 'adt' else t['k'])
    key = lambda x: ex.term(val(ex, st, x))
    def bound(b):
        b = val(ex, st, b)
        if not isinstance(b, Agg): raise Unsupported('a bound of a range of keys')
        return None if not b.f else (key(b.f[0]), ex.T[ex.strip(b.ty)]['variants'][b.var]['name'] == 'Included')
    if n == 'RangeFull': return None, None
    if n == 'RangeFrom': return (key(fs[0]), True), None
    if n == 'RangeTo': return None, (key(fs[0]), False)
    if n == 'RangeToInclusive': return None, (key(fs[0]), True)
    if n == 'Range': return (key(fs[0]), True), (key(fs[1]), False)
    if n == 'RangeInclusive' and z3.is_false(z3.simplify(ex.term(fs[2]))): return (key(fs[0]), True), (key(fs[1]), True)
    if n == 'tuple' and len(fs) == 2: return bound(fs[0]), bound(fs[1])
    return None

def part_of(ex, st, m, inside):
    """the map (set) with the keys of another one for which a condition holds"""
    r = ex.fresh('part', m.sort())
    m = named(ex, st, m)
    k = z3.Const('k!s', m.sort().domain())
    no = z3.BoolVal(False) if m.sort().range() == z3.BoolSort() else ex.S.cons(m.sort().range(), 0, [])
    st.note(z3.ForAll([k], r[k] == z3.If(inside(k), m[k], no), patterns=[r[k], m[k]]))
    return r

def key_range(ex, st, m, v):
    b = bounds(ex, st, v)
    if b is None: raise Unsupported('a range of keys')
    lo, hi = b
    if lo and hi:
        ok = ord_lt(ex, lo[0], hi[0])
        if lo[1] or hi[1]: ok = z3.Or(ok, ex.eq(lo[0], hi[0]))
        ex.oblige(st, 'no-panic: the start of a range of keys is not after its end', ['PANIC'], ok, kind='panic')
    def inside(k):
        c = []
        if lo: c.append(z3.Or(ord_lt(ex, lo[0], k), k == lo[0]) if lo[1] else ord_lt(ex, lo[0], k))
        if hi: c.append(z3.Or(ord_lt(ex, k, hi[0]), k == hi[0]) if hi[1] else ord_lt(ex, k, hi[0]))
        return z3.And(*c) if c else z3.BoolVal(True)
    return part_of(ex, st, m, inside)

def set_method(ex, st, c, name, args, ctx):
    S = ex.S
    if name in ('new', 'with_capacity'): return [(st, empty(ex, S.sort(ctx['destty'])))]
    if not args: return None
    me = args[0]
    m = val(ex, st, me)
    if not z3.is_expr(m): return None
    K = lambda: ex.term(val(ex, st, args[1]))
    if name in ('iter', 'into_iter'): return [(st, mk_mapit(ex, st, m, 's'))]
    if name == 'len':
        # the number of keys of a collection which a loop has built is not among what is known of the loop
        if any(x.startswith(('h_', 'part')) for x in L.consts_of(m)): st.taint = tuple(sorted(set(st.taint) | {'the number of keys of a collection built by a loop'}))
        return [(st, map_len(ex, st, m))]
    if name == 'is_empty': return [(st, map_len(ex, st, m) == 0)]
    if name == 'contains': return [(st, z3.Select(m, K()))]
    if name in ('insert', 'replace'):
        k = K(); ex.store(st, me, z3.Store(m, k, z3.BoolVal(True)))
        return [(st, z3.Not(z3.Select(m, k)))] if name == 'insert' else None
    if name == 'remove':
        k = K(); ex.store(st, me, z3.Store(m, k, z3.BoolVal(False))); return [(st, z3.Select(m, k))]
    if name == 'clear': ex.store(st, me, empty(ex, m.sort())); return [(st, unit(ex))]
    if name == 'range': return [(st, mk_mapit(ex, st, key_range(ex, st, m, args[1]), 's'))]
    if name == 'split_off':
        k0 = K()
        hi = part_of(ex, st, m, lambda k: z3.Or(k == k0, ord_lt(ex, k0, k)))
        lo = part_of(ex, st, m, lambda k: z3.Not(z3.Or(k == k0, ord_lt(ex, k0, k))))
        ex.store(st, me, lo)
        return [(st, hi)]
    if name in ('first', 'last', 'pop_first', 'pop_last'):
        m = named(ex, st, m)
        enum_facts(ex, st, m)
        a, b = ex.branch(st, m_size(ex, m) > 0)
        out = []
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        if a is not None:
            k, r = removed_end(ex, a, m, 'last' in name) if name.startswith('pop') else (m_key(ex, m, extreme(ex, a, m, 'last' in name)), None)
            if name.startswith('pop'): ex.store(a, me, r)
            out.append((a, Agg(ctx['destty'], 1, [k])))
        return out
    if name in ('get', 'take'):
        k = K()
        a, b = ex.branch(st, z3.Select(m, k))
        out = []
        if a is not None:
            if name == 'take': ex.store(a, me, z3.Store(m, k, z3.BoolVal(False)))
            out.append((a, Agg(ctx['destty'], 1, [k])))
        if b is not None: out.append((b, Agg(ctx['destty'], 0, [])))
        return out
    if name == 'retain':
        def body(s, v, racc):
            out = []
            for s2, r in ex.call_closure(s, args[1], [v], ctx):
                a, b = ex.branch(s2, ex.term(r))
                if a is not None: ex.store(a, racc, add(ex, ex.load(a, racc), v)); out.append((a, 'cont'))
                if b is not None: out.append((b, 'cont'))
            return out
        out = []
        for s, _, a, _ in L.for_each(ex, st, mk_mapit(ex, st, m, 's'), empty(ex, m.sort()), body, lab(ctx, name)):
            ex.store(s, me, a); out.append((s, unit(ex)))
        return out
    if name in ('is_subset', 'is_superset', 'is_disjoint'):
        o = K()
        a, b = (m, o) if name != 'is_superset' else (o, m)
        k = z3.Const('k!s', m.sort().domain())
        f = z3.Implies(a[k], b[k]) if name != 'is_disjoint' else z3.Not(z3.And(a[k], b[k]))
        a, b = named(ex, st, a), named(ex, st, b)
        return [(st, z3.ForAll([k], z3.Implies(a[k], b[k]) if name != 'is_disjoint' else z3.Not(z3.And(a[k], b[k]))))]
    if name in ('difference', 'intersection', 'union', 'symmetric_difference'):
        return [(st, mk_mapit(ex, st, set_op(ex, st, name, m, K()), 's'))]
    if name == 'append':
        o = val(ex, st, args[1]); out = []
        for s, a in fill(ex, st, mk_mapit(ex, st, o, 's'), m, lab(ctx, name)):
            ex.store(s, me, a); ex.store(s, args[1], empty(ex, o.sort())); out.append((s, unit(ex)))
        return out
    return None
