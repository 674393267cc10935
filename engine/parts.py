"""Specifications of the functions outside of the evaluation: bitcoin seal definitions (C12, C13), clone (C15), strict
encoding (C14) and serde (C18) of an operation with its seals. Each is stated as contracts over the real bodies."""
import z3
from core import *
from contracts import *
from contracts import contract as std_contract
import loops as L
from execu import Exec

B = z3.BoolVal
OS = 'rgbcore::verify::OperationSeals'
NAMES = {'operation': 'operation', 'defined_seals': 'definedSeals', 'witness': 'witness'}

def one(p, name, trait, what):
    r = [x for x in p.roots if x['name'] == name and (x.get('impl_trait') or '') == trait and what(x)]
    if len(r) != 1: raise Unsupported('%s::%s is not found' % (trait, name))
    return p.fns[r[0]['body']]

def cases(ex, st, v):
    """cases of an enum value -> [(state, variant index, payload)]"""
    if isinstance(v, MutRef): v = ex.load(st, v)
    if isinstance(v, Agg): return [(st, v.var or 0, list(v.f))]
    s = v.sort(); out = []; rest = st
    for k in range(s.num_constructors()):
        if rest is None: break
        a, rest = ex.branch(rest, ex.S.is_variant(v, k))
        if a is not None: out.append((a, k, [ex.S.field(v, k, q) for q in range(s.constructor(k).arity())]))
    return out

class Mon:
    """no loop of these functions has a specification of its own"""
    def same_block(self, h, b): return True
    def back_edge(self, ex, st): return [st]
    def given_slots(self, ex, entry, mod): return set()
    def loop_invariants(self, ex, entry, mod): return []
    def early_invariants(self, ex, entry, mod): return []

# ------------------------------------------------------------------------------------------------ bitcoin seals
FE = 'zkaluvm::fe::fe256'

def bitcoin(prog):
    ex = Exec(prog)
    S, T = ex.S, ex.T
    ex.monitor = Mon()
    is_def = lambda x: x['impl_self'].endswith('::WTxoSeal')
    tr = 'rgbcore::seals::RgbSealDef'
    f_tok, f_res, f_src = (one(prog, n, tr, is_def) for n in ('auth_token', 'resolve', 'to_src'))
    dt = ex.strip(f_tok['locals'][1]['ty'])
    d = z3.Const('definition', S.sort(dt))
    df = {f['name']: (i, f['ty']) for i, f in enumerate(T[dt]['variants'][0]['fields'])}
    prim, sec = S.field(d, 0, df['primary'][0]), S.field(d, 0, df['secondary'][0])
    pv = {v['name']: (k, [f['ty'] for f in v['fields']]) for k, v in enumerate(T[df['primary'][1]]['variants'])}
    kw, ke = pv['Wout'][0], pv['Extern'][0]
    opt_ty = pv['Extern'][1][0]
    of = {f['name']: i for i, f in enumerate(T[opt_ty]['variants'][0]['fields'])}
    src_ty = f_res['locals'][0]['ty']
    sf = {f['name']: i for i, f in enumerate(T[src_ty]['variants'][0]['fields'])}
    tok_ty = f_tok['locals'][0]['ty']

    def content(a, es): return S.arr_content(a, es)
    def c256(ex_, st, c, args, ctx):
        """fe256 / u256 out of 32 little-endian bytes"""
        if c['name'] == 'from' and c.get('trait') == 'core::convert::From' and c['args'] and ex.T[c['args'][0]].get('path') == FE:
            a = ctx['argtys'][0] if ctx.get('argtys') else (c['args'][1] if len(c['args']) > 1 else None)
            if a is not None and ex.T[ex.strip(a)]['k'] == 'array' and ex.T[ex.strip(a)]['len'] in (32, '32'):
                ex.used_contracts['fe256::from([u8; 32])'] = ex.used_contracts.get('fe256::from([u8; 32])', 0) + 1
                return [(st, S.uf('fe256_le', [ex.term(val(ex, st, args[0]))], S.sort(ctx['destty'])))]
        return None
    ex.contracts = [c256, std_contract]

    def run(fn, args, prefix, props):
        st = State()
        ex.reach = []
        out = []
        for s, v in ex.call_body(st, fn, args): out.append((s, v))
        return out
    # --- C12
    got = 0
    n0 = len(ex.obls)
    for s, v in run(f_tok, [d], 'auth_token', {'C12'}):
        got += 1
        tt = ex.term(v)
        # the commitment id: 32 bytes
        cid = [t for t in S.ufs.items() if t[0].startswith('commit_id/%s>' % d.sort())]
        if len(cid) != 1:
            ex.oblige(s, 'auth_token: computed from the commitment id of the definition', {'C12'}, B(False), assume=False); continue
        c = cid[0][1](d)
        while isinstance(c.sort(), z3.DatatypeSortRef): c = S.field(c, 0, 0)
        fe = tt
        while isinstance(fe.sort(), z3.DatatypeSortRef): fe = S.field(fe, 0, 0)
        arr = content(c, z3.IntSort())
        i = z3.Int('i!t')
        # token == field element of (30 first bytes, 0, 0)
        want = z3.Const('want!32', c.sort())
        wc = content(want, z3.IntSort())
        s.assume(*[z3.Select(wc, k) == z3.Select(arr, k) for k in range(30)], z3.Select(wc, 30) == 0, z3.Select(wc, 31) == 0)
        le = [f for k, f in S.ufs.items() if k.startswith('fe256_le/') and f.domain(0) == c.sort()]
        if not le: ex.oblige(s, 'auth_token: a field element of little-endian bytes', {'C12'}, B(False), assume=False); continue
        # extensionality for the arrays which have been used
        used, seen = [], set()
        def walk(t):
            if z3.is_app(t) and t.get_id() not in seen:
                seen.add(t.get_id())
                if t.sort() == c.sort(): used.append(t)
                for x in t.children(): walk(x)
        walk(fe)
        for u in used: s.assume(z3.Implies(z3.And([z3.Select(content(u, z3.IntSort()), k) == z3.Select(wc, k) for k in range(32)]), u == want))
        ex.oblige(s, 'auth_token: the first 30 bytes of the commitment id of the definition, in order', {'C12'}, fe == le[0](want), assume=False)
    for o in ex.obls[n0:]:
        if o.kind == 'panic': o.props = frozenset(['C12']); o.name = 'auth_token: ' + o.name
    if not got: raise Unsupported('auth_token does not return')
    # --- C13
    n0 = len(ex.obls)
    wid = z3.Const('witness_id', S.sort(f_res['locals'][2]['ty']))
    F = S.field
    got = 0
    def props_of(s, src, w, what):
        p2, s2 = F(src, 0, sf['primary']), F(src, 0, sf['secondary'])
        ex.oblige(s, what + ': the fallback part is preserved', {'C13'}, s2 == sec, assume=False)
        ex.oblige(s, what + ': an external outpoint is used as is', {'C13'}, z3.Implies(S.is_variant(prim, ke), p2 == F(prim, ke, 0)), assume=False)
        if w is not None:
            ex.oblige(s, what + ': the transaction of a witness-relative output', {'C13'}, z3.Implies(S.is_variant(prim, kw), F(p2, 0, of['txid']) == w), assume=False)
            ex.oblige(s, what + ': the number of a witness-relative output', {'C13'}, z3.Implies(S.is_variant(prim, kw), F(p2, 0, of['vout']) == F(prim, kw, 0)), assume=False)
    for s, v in run(f_res, [d, wid], 'resolve', {'C13'}):
        got += 1
        props_of(s, ex.term(v), wid, 'resolve')
    if not got: raise Unsupported('resolve does not return')
    got = set()
    for s, v in run(f_src, [d], 'to_src', {'C13'}):
        for s2, k, f in cases(ex, s, v):
            got.add(k)
            if k == 0: ex.oblige(s2, 'to_src: nothing is returned for a witness-relative definition only', {'C13'}, z3.Not(S.is_variant(prim, ke)), assume=False)
            else:
                ex.oblige(s2, 'to_src: a seal is returned for an external definition only', {'C13'}, S.is_variant(prim, ke), assume=False)
                props_of(s2, ex.term(f[0]), None, 'to_src')
    for o in ex.obls[n0:]:
        if o.kind == 'panic': o.props = frozenset(['C13']); o.name = 'resolve/to_src: ' + o.name
    return ex

# ------------------------------------------------------------------------------------------------ clone
def block_type(ex, fn, k):
    t = ex.strip(fn['locals'][k]['ty'])
    if ex.T[t].get('path') != OS: raise Unsupported('not an operation with seals')
    return t

def clone(prog):
    ex = Exec(prog)
    S, T = ex.S, ex.T
    ex.monitor = Mon(); ex.contracts = [std_contract]
    fn = one(prog, 'clone', 'core::clone::Clone', lambda x: 'OperationSeals<' in x['impl_self'])
    bt = block_type(ex, fn, 1)
    x = z3.Const('original', S.sort(bt))
    got = 0
    for s, v in ex.call_body(State(), fn, [x]):
        got += 1
        t = ex.term(v)
        for i, f in enumerate(T[bt]['variants'][0]['fields']):
            ex.oblige(s, 'clone: the same ' + f['name'], {'C15'}, S.field(t, 0, i) == S.field(x, 0, i), assume=False)
    if not got: raise Unsupported('clone does not return')
    for o in ex.obls:
        if o.kind == 'panic': o.props = frozenset(['C15']); o.name = 'clone: ' + o.name
    return ex

# ------------------------------------------------------------------------------------------------ strict encoding
ENC = 'strict_encoding::traits::'

def constant(ex, p, st, name, trait, what):
    """the value of a constant of an implementation: its initializer, executed"""
    r = [x for x in p.consts if x['name'] == name and x['impl_trait'] == trait and what(x)]
    if len(r) != 1 or r[0]['body'] not in p.fns: raise Unsupported('constant %s::%s is not found' % (trait, name))
    q = ex.call_body(st, p.fns[r[0]['body']], [])
    if len(q) != 1: raise Unsupported('constant with branches')
    return q[0][1]

def names_of(ex, st, v):
    """the terms of a constant slice of names"""
    v = val(ex, st, v)
    if isinstance(v, ArrV): return [ex.term(x) for x in v.f]
    t = ex.term(v)
    n = z3.simplify(ex.vlen(t))
    if not z3.is_int_value(n): raise Unsupported('a list of names of unknown length')
    return [z3.simplify(z3.Select(ex.varr(t), i)) for i in range(n.as_long())]

def key_of(ex, ti): return ex.S.key(ex.strip(ti))

def strict(prog):
    ex = Exec(prog)
    S, T = ex.S, ex.T
    ex.monitor = Mon()
    what = lambda x: 'OperationSeals<' in x['impl_self']
    fe = one(prog, 'strict_encode', ENC + 'StrictEncode', what)
    fd = one(prog, 'strict_decode', ENC + 'StrictDecode', what)
    bt = block_type(ex, fe, 1)
    x = z3.Const('value', S.sort(bt))
    fields = [(f['name'], S.field(x, 0, i), key_of(ex, f['ty'])) for i, f in enumerate(T[bt]['variants'][0]['fields'])]
    W = S.un('Writer')
    log = {}          # writer term id -> (previous writer, name, value, type key)
    def res(ctx): return ex.strip(ctx['destty'])
    def fails(st, ctx, flag):
        t = T[res(ctx)]
        e = st.fork()
        e.g[flag] = B(True)
        return (e, Agg(res(ctx), 1, [ex.fresh('ioerror', S.sort(t['args'][1]))]))
    def wr(st, w, name, v, k, ctx):
        w2 = S.uf('written', [ex.term(val(ex, st, w)), ex.term(v)], W)
        log[w2.get_id()] = (ex.term(val(ex, st, w)), name, ex.term(v), k, w2)
        return [(st.fork(), Agg(res(ctx), 0, [w2])), fails(st, ctx, 'werr')]
    def contract(ex_, st, c, args, ctx):
        tr, n = c.get('trait'), c['name']
        if c.get('resolved') is not None: return None
        if tr == ENC + 'TypedWrite' and n in ('write_struct', 'write_tuple'): return ex.call_closure(st, args[1], [args[0]], ctx)
        if tr == ENC + 'WriteStruct' and n == 'write_field':
            return wr(st, args[0], ex.term(args[1]), val(ex, st, args[2]), key_of(ex, ctx['argtys'][2]), ctx)
        if tr == ENC + 'WriteTuple' and n == 'write_field':
            return wr(st, args[0], None, val(ex, st, args[1]), key_of(ex, ctx['argtys'][1]), ctx)
        if tr in (ENC + 'WriteStruct', ENC + 'WriteTuple') and n == 'complete': return [(st, args[0])]
        if tr == ENC + 'StrictEncode' and n == 'strict_encode':
            return wr(st, args[1], None, val(ex, st, args[0]), key_of(ex, ctx['argtys'][0]), ctx)
        if tr == ENC + 'TypedRead' and n in ('read_struct', 'read_tuple'):
            # (the reader compares what has been read to the declaration of the type and panics otherwise)
            declared.add(n)
            return ex.call_closure(st, args[1], [args[0]], ctx)
        if tr in (ENC + 'ReadStruct', ENC + 'ReadTuple') and n == 'read_field':
            return rd(st, ex.term(args[1]) if len(args) > 1 else None, ctx)
        if tr == ENC + 'StrictDecode' and n == 'strict_decode': return rd(st, None, ctx)
        return None
    def ext(ex_, st, c, args, ctx):
        # values of the parts are encoded / decoded by their own implementations
        if c.get('trait') == ENC + 'StrictEncode' and c['name'] == 'strict_encode' and not local(c):
            return wr(st, args[1], None, val(ex, st, args[0]), key_of(ex, ctx['argtys'][0]), ctx)
        if c.get('trait') == ENC + 'StrictDecode' and c['name'] == 'strict_decode' and not local(c): return rd(st, None, ctx)
        if c.get('trait') == 'core::convert::From' and c['name'] == 'from' and T[c['args'][0]].get('path', '').endswith('::FieldName') or (
                c.get('trait') == 'core::convert::From' and c['name'] == 'from' and T[c['args'][0]]['name'].endswith('FieldName')):
            return [(st, S.uf('FieldName', [ex.term(val(ex, st, args[0]))], S.un('FieldName')))]
        return None
    def local(c): return c.get('body') in prog.fns and prog.fns[c['body']].get('local')
    given = []
    declared = set()
    def rd(st, name, ctx):
        ok = T[res(ctx)]['args'][0]
        k = st.g['k']
        g = given[0]
        if k >= len(g):
            ex.oblige(st, 'strict_decode: not more is read than has been written', {'C14'}, B(False), assume=False); return []
        nm, v, ty = g[k]
        if ty != key_of(ex, ok):
            ex.oblige(st, 'strict_decode: each part is read back as the type it has been written with', {'C14'}, B(False), assume=False); return []
        if nm is not None and name is not None:
            ex.oblige(st, 'strict_decode: each part is read under the name it has been written with', {'C14'}, nm == name, assume=False)
        a = st.fork(); a.g['k'] = k + 1; a.g['names'] = st.g['names'] + (name,)
        return [(a, Agg(res(ctx), 0, [v])), fails(st, ctx, 'rerr')]
    ex.contracts = [contract, ext, std_contract]
    w0 = z3.Const('writer', W)
    st = State(); st.g['werr'] = B(False); st.g['rerr'] = B(False)
    st.frames['G']['k'] = 0
    seqs = []
    for s, v in ex.call_body(st, fe, [x, w0]):
        for s2, k, f in cases(ex, s, v):
            if k == 1:
                ex.oblige(s2, 'strict_encode: fails only if the writer does', {'C14'}, s2.g['werr'], assume=False); continue
            ex.oblige(s2, 'strict_encode: an error of the writer is returned', {'C14'}, z3.Not(s2.g['werr']), assume=False)
            seq = []; w = ex.term(f[0])
            while w.get_id() in log:
                prev, nm, vv, ty, _ = log[w.get_id()]
                seq.append((nm, vv, ty)); w = prev
            seq.reverse()
            ex.oblige(s2, 'strict_encode: the writer itself is returned', {'C14'}, B(bool(w.eq(w0))), assume=False)
            for nm, t, ty in fields:
                hit = [q for q in seq if q[2] == ty]
                ex.oblige(s2, 'strict_encode: %s is written exactly once' % nm, {'C14'}, B(False) if len(hit) != 1 else hit[0][1] == t, assume=False)
            ex.oblige(s2, 'strict_encode: nothing else is written', {'C14'}, B(len(seq) == len(fields)), assume=False)
            seqs.append((s2, seq))
    if not seqs: raise Unsupported('strict_encode never succeeds')
    got = 0
    for s0, seq in seqs:
        given[:] = [seq]
        s0 = s0.fork(); s0.g['k'] = 0; s0.g['names'] = ()
        s0.frames['G']['R'] = z3.Const('reader', S.un('Reader'))
        for s, v in ex.call_body(s0, fd, [MutRef('G', 'R', ())]):
            for s2, k, f in cases(ex, s, v):
                if k == 1:
                    ex.oblige(s2, 'strict_decode: fails only if the reader does', {'C14'}, s2.g['rerr'], assume=False); continue
                got += 1
                ex.oblige(s2, 'strict_decode: an error of the reader is returned', {'C14'}, z3.Not(s2.g['rerr']), assume=False)
                ex.oblige(s2, 'strict_decode: everything written is read', {'C14'}, B(s2.g['k'] == len(seq)), assume=False)
                if 'read_struct' in declared:
                    decl = [S.uf('FieldName', [n], S.un('FieldName')) for n in names_of(ex, s2, constant(ex, prog, s2, 'ALL_FIELDS', 'strict_encoding::types::StrictStruct', what))]
                    read = s2.g['names']
                    ex.oblige(s2, 'strict_decode: the parts read are the declared ones', {'C14'}, B(False) if None in read or len(read) != len(decl) else
                              z3.And([z3.Or([d == r for r in read]) for d in decl] + [z3.Or([d == r for d in decl]) for r in read]), assume=False)
                elif 'read_tuple' in declared:
                    ex.oblige(s2, 'strict_decode: as many parts are read as declared', {'C14'},
                              ex.term(constant(ex, prog, s2, 'FIELD_COUNT', 'strict_encoding::types::StrictTuple', what)) == len(s2.g['names']), assume=False)
                t = ex.term(f[0])
                for i, (nm, y, _) in enumerate(fields):
                    ex.oblige(s2, 'strict_decode of strict_encode: the same ' + nm, {'C14'}, S.field(t, 0, i) == y, assume=False)
    if not got and all(o.goal.eq(B(True)) for o in ex.obls): raise Unsupported('strict_decode never succeeds')
    for o in ex.obls:
        if o.kind == 'panic': o.props = frozenset(['C14']); o.name = 'strict encoding: ' + o.name
    return ex

# ------------------------------------------------------------------------------------------------ serde
SER, DE = 'serde::ser::', 'serde::de::'

class SerdeMon(Mon):
    def __init__(self, spec): self.spec = spec
    def given_slots(self, ex, entry, mod):
        if not any(m[0] == 'G' and str(m[1]).startswith('got') for m in mod): return set()
        return {s for s in mod if s[0] != 'G' and any(ex.term(L.slot_get(entry, s)).sort() == ex.S.opt(y.sort()) for _, y, _ in self.spec.fields)}
    def loop_invariants(self, ex, entry, mod):
        if ('G', 'got0') not in mod and ('G', 'got1') not in mod and ('G', 'got2') not in mod: return []
        out = []
        S = ex.S
        for i, (nm, y, ty) in enumerate(self.spec.fields):
            # a part which has been read but not yet asked for does not exist at the head of the loop
            osort = S.opt(y.sort())
            sl = [s for s in mod if s[0] != 'G' and ex.term(L.slot_get(entry, s)).sort() == osort]
            for s in sl:
                def f(st, s=s, i=i, y=y, osort=osort):
                    return ex.term(L.slot_get(st, s)) == z3.If(st.g['got%d' % i], S.cons(osort, 1, [y]), S.cons(osort, 0, []))
                out.append(('visit_map: %s is kept in its own place' % nm, {'C18'}, f))
        return out

def strbytes(ex, st, s):
    """a byte slice with the content of a string literal"""
    bs = s.encode()
    sort = ex.S.vec(z3.IntSort())
    ar = z3.K(z3.IntSort(), z3.IntVal(0))
    for i, b in enumerate(bs): ar = z3.Store(ar, i, z3.IntVal(b))
    return ex.S.cons(sort, 0, [z3.IntVal(len(bs)), ar])

def serde(prog):
    ex = Exec(prog)
    S, T = ex.S, ex.T
    what = lambda x: 'OperationSeals<' in x['impl_self'] and '__Field' not in x['impl_self'] and '__Visitor' not in x['impl_self']
    fs = one(prog, 'serialize', SER + 'Serialize', what)
    fde = one(prog, 'deserialize', DE + 'Deserialize', what)
    bt = block_type(ex, fs, 1)
    x = z3.Const('value', S.sort(bt))
    class Spec: pass
    sp = Spec()
    sp.fields = [(f['name'], S.field(x, 0, i), key_of(ex, f['ty'])) for i, f in enumerate(T[bt]['variants'][0]['fields'])]
    ex.monitor = SerdeMon(sp)
    names = [NAMES.get(n, n) for n, _, _ in sp.fields]
    SS = S.un('SerializeStruct')
    log = {}
    struct = {}
    def res(ctx): return ex.strip(ctx['destty'])
    def fails(st, ctx, flag):
        t = T[res(ctx)]
        e = st.fork(); e.g[flag] = B(True)
        return (e, Agg(res(ctx), 1, [ex.fresh('error', S.sort(t['args'][1]))]))
    def deref(st, r):
        while isinstance(r, MutRef) and isinstance(ex.load(st, r), MutRef): r = ex.load(st, r)
        return r
    def contract(ex_, st, c, args, ctx):
        tr, n = c.get('trait'), c['name']
        if tr == 'serde::ser::Error' or tr == 'serde::de::Error' or c['path'].startswith('serde::__private::de::missing_field'):
            if n == 'missing_field' and c['path'].startswith('serde::__private'):
                return [fails(st, ctx, 'none')]
            return [(st, ex.fresh('error', S.sort(ctx['destty'])))]
        if c.get('resolved') is not None: return None
        if tr == SER + 'Serializer' and n == 'serialize_struct':
            ss = S.uf('serialize_struct', [ex.term(args[0]), ex.term(val(ex, st, args[1])), ex.term(args[2])], SS)
            log[ss.get_id()] = ('start', ex.term(args[0]), ex.term(val(ex, st, args[1])), z3.simplify(ex.term(args[2])), ss)
            return [(st.fork(), Agg(res(ctx), 0, [ss])), fails(st, ctx, 'werr')]
        if tr == SER + 'SerializeStruct' and n in ('serialize_field', 'skip_field'):
            r = deref(st, args[0]); ss = ex.term(ex.load(st, r))
            ts = [ex.term(val(ex, st, a)) for a in args[1:]]
            s2 = S.uf(n, [ss] + ts, SS)
            log[s2.get_id()] = (n, ss, ts, key_of(ex, ctx['argtys'][2]) if len(args) > 2 else None, s2)
            a = st.fork(); ex.store(a, r, s2)
            return [(a, Agg(res(ctx), 0, [unit(ex)])), fails(st, ctx, 'werr')]
        if tr == SER + 'SerializeStruct' and n == 'end':
            e = ex.term(args[0])
            v = S.uf('end', [e], S.sort(T[res(ctx)]['args'][0]))
            log[v.get_id()] = ('end', e, v)
            return [(st.fork(), Agg(res(ctx), 0, [v])), fails(st, ctx, 'werr')]
        if tr == DE + 'Deserializer' and n == 'deserialize_struct':
            struct['name'] = ex.term(val(ex, st, args[1])); struct['visitor'] = args[3]; struct['fields'] = names_of(ex, st, args[2])
            return [(st, ex.fresh('deserialized', S.sort(ctx['destty'])))]
        if tr == DE + 'SeqAccess' and n == 'next_element': return next_element(st, ctx)
        if tr == DE + 'MapAccess' and n == 'next_key': return next_key(st, ctx)
        if tr == DE + 'MapAccess' and n == 'next_value': return next_value(st, ctx)
        return None
    # ---------------------------------------------------------------- sequences
    def next_element(st, ctx):
        k = st.g['k']
        ot = ex.strip(T[res(ctx)]['args'][0])
        if k >= len(order):
            return [(st, Agg(res(ctx), 0, [Agg(ot, 0, [])]))]
        nm, v, ty = order[k]
        if ty != key_of(ex, T[ot]['args'][0]):
            ex.oblige(st, 'visit_seq: each part is read back as the type it has been written with', {'C18'}, B(False), assume=False); return []
        a = st.fork(); a.g['k'] = k + 1
        return [(a, Agg(res(ctx), 0, [Agg(ot, 1, [v])])), fails(st, ctx, 'rerr')]
    # ---------------------------------------------------------------- named fields
    # pending: -1 none, i - the value of the part i, n - the value of an unknown field
    def next_key(st, ctx):
        g = st.g
        ot = ex.strip(T[res(ctx)]['args'][0])
        kt = T[ot]['args'][0]
        ex.oblige(st, 'visit_map: a value is read for each key', {'C18'}, g['pending'] == -1)
        out = [fails(st, ctx, 'rerr')]
        rest = []
        n = len(names)
        for i in range(n):
            a, _ = ex.branch(st.fork(), z3.Not(g['got%d' % i]))
            if a is None: continue
            a.g['pending'] = z3.IntVal(i)
            out.append((a, Agg(res(ctx), 0, [Agg(ot, 1, [Agg(kt, variant[i], [])])])))
        if unknown is not None:
            u = st.fork(); u.g['pending'] = z3.IntVal(n)
            out.append((u, Agg(res(ctx), 0, [Agg(ot, 1, [Agg(kt, unknown, [])])])))
        e, _ = ex.branch(st.fork(), z3.And([g['got%d' % i] for i in range(n)]))
        if e is not None: out.append((e, Agg(res(ctx), 0, [Agg(ot, 0, [])])))
        return out
    def next_value(st, ctx):
        g = st.g
        vt = T[res(ctx)]['args'][0]
        p = z3.simplify(g['pending'])
        if not z3.is_int_value(p): raise Unsupported('the key is ambiguous')
        i = p.as_long()
        st.g['pending'] = z3.IntVal(-1)
        if T[vt].get('path') == 'serde::de::ignored_any::IgnoredAny':
            ex.oblige(st, 'visit_map: no part is ignored', {'C18'}, B(i == len(names)), assume=False)
            return [(st.fork(), Agg(res(ctx), 0, [Agg(vt, 0, [])])), fails(st, ctx, 'rerr')]
        if i == -1 or i == len(names) or key_of(ex, vt) != sp.fields[i][2]:
            ex.oblige(st, 'visit_map: each part is read back as its own type', {'C18'}, B(False), assume=False); return []
        a = st.fork(); a.g['got%d' % i] = B(True)
        return [(a, Agg(res(ctx), 0, [sp.fields[i][1]])), fails(st, ctx, 'rerr')]
    ex.contracts = [contract, std_contract]
    def state():
        st = State()
        for k in ('werr', 'rerr', 'none'): st.g[k] = B(False)
        st.g['k'] = 0
        st.g['pending'] = z3.IntVal(-1)
        for i in range(len(names)): st.g['got%d' % i] = B(False)
        return st
    ob = lambda s, nm, f: ex.oblige(s, nm, {'C18'}, f, assume=False)
    # ---------------------------------------------------------------- serialize
    ser0 = z3.Const('serializer', S.un('Serializer'))
    orders = []
    stname = None
    for s, v in ex.call_body(state(), fs, [x, ser0]):
        for s2, k, f in cases(ex, s, v):
            if k == 1: ob(s2, 'serialize: fails only if the serializer does', s2.g['werr']); continue
            ob(s2, 'serialize: an error of the serializer is returned', z3.Not(s2.g['werr']))
            e = ex.term(f[0])
            if e.get_id() not in log or log[e.get_id()][0] != 'end': ob(s2, 'serialize: a complete structure is written', B(False)); continue
            w = log[e.get_id()][1]
            seq = []; skipped = []
            while w.get_id() in log and log[w.get_id()][0] != 'start':
                r = log[w.get_id()]
                if r[0] == 'skip_field': skipped.append(r)
                else: seq.append((r[2][0], r[2][1], r[3]))
                w = r[1]
            seq.reverse()
            if w.get_id() not in log: ob(s2, 'serialize: a structure is written', B(False)); continue
            _, sr, nm, ln, _ = log[w.get_id()]
            ob(s2, 'serialize: to the serializer given', B(bool(sr.eq(ser0))))
            ob(s2, 'serialize: the number of parts is declared', B(z3.is_int_value(ln) and ln.as_long() == len(seq)) if z3.is_int_value(ln) else ln == len(seq))
            stname = nm
            for (fname, y, ty), cn in zip(sp.fields, names):
                hit = [q for q in seq if q[2] == ty]
                ob(s2, 'serialize: %s is written exactly once' % fname, B(False) if len(hit) != 1 else hit[0][1] == y)
                ob(s2, 'serialize: %s is written under its own name' % fname, B(False) if len(hit) != 1 else hit[0][0] == S.strlit(cn))
            ob(s2, 'serialize: nothing else is written', B(len(seq) == len(sp.fields)))
            orders.append(seq)
    if not orders: raise Unsupported('serialize never succeeds')
    order = orders[0]
    # ---------------------------------------------------------------- deserialize: the entry
    for s, v in ex.call_body(state(), fde, [z3.Const('deserializer', S.un('Deserializer'))]): pass
    if 'name' in struct:
        ob(s, 'deserialize: the same structure name', struct['name'] == stname if stname is not None else B(False))
        ob(s, 'deserialize: the names of the parts, in order', B(len(struct['fields']) == len(order)) if len(struct['fields']) != len(order) else
           z3.And([a == q[0] for a, q in zip(struct['fields'], order)]))
    elif not ex.obls: raise Unsupported('deserialize does not ask for a structure')
    else: raise Unsupported('deserialize does not ask for a structure')
    # ---------------------------------------------------------------- sequences
    vis = lambda n, w: one(prog, n, DE + 'Visitor', lambda r: 'OperationSeals<' in r['impl_self'] and w in r['impl_self'])
    fseq, fmap = vis('visit_seq', '__Visitor'), vis('visit_map', '__Visitor')
    visitor = struct['visitor']
    acc = z3.Const('access', S.un('Access'))
    for s, v in ex.call_body(state(), fseq, [visitor, acc]):
        for s2, k, f in cases(ex, s, v):
            if k == 1: ob(s2, 'visit_seq: fails only if the reader does', s2.g['rerr']); continue
            ob(s2, 'visit_seq: an error of the reader is returned', z3.Not(s2.g['rerr']))
            t = ex.term(f[0])
            for i, (nm, y, _) in enumerate(sp.fields): ob(s2, 'visit_seq: the same ' + nm, S.field(t, 0, i) == y)
    # ---------------------------------------------------------------- identifiers
    variant = {}; unknown = None
    vn = lambda n: vis(n, '__Field')
    def ident(fn, arg, st=None):
        """the only variant which the identifier is recognized as"""
        got = set()
        for s, v in ex.call_body(st or state(), fn, [Agg(ex.strip(fn['locals'][1]['ty']), 0, []) if ex.T[ex.strip(fn['locals'][1]['ty'])]['k'] == 'adt' else unit(ex), arg]):
            for s2, k, f in cases(ex, s, v):
                if k == 1: got.add(None)
                elif isinstance(f[0], Agg): got.add(f[0].var or 0)
                else: raise Unsupported('identifier')
        return got
    for i, cn in enumerate(names):
        g = ident(vn('visit_str'), S.strlit(cn))
        ob(state(), 'identifier "%s" is recognized' % cn, B(len(g) == 1 and None not in g))
        if len(g) == 1 and None not in g: variant[i] = list(g)[0]
    ob(state(), 'identifiers of the parts are distinct', B(len(set(variant.values())) == len(names)))
    if len(set(variant.values())) == len(names):
        for i, cn in enumerate(names):
            g = ident(vn('visit_bytes'), strbytes(ex, None, cn))
            ob(state(), 'identifier b"%s" is recognized' % cn, B(g == {variant[i]}))
        for j, (fname, y, ty) in enumerate(order):
            i = [q for q in range(len(names)) if sp.fields[q][2] == ty]
            g = ident(vn('visit_u64'), z3.IntVal(j))
            ob(state(), 'index %d is recognized' % j, B(bool(i) and g == {variant[i[0]]}))
        others = set(range(len(T[key_enum(ex, fmap)]['variants']))) - set(variant.values())
        if len(others) == 1: unknown = others.pop()
        # ------------------------------------------------------------ named fields
        got = 0
        st = state()
        st.frames['G']['A'] = acc
        for s, v in ex.call_body(st, fmap, [visitor, acc]):
            for s2, k, f in cases(ex, s, v):
                if k == 1: ob(s2, 'visit_map: fails only if the reader does', s2.g['rerr']); continue
                got += 1
                ob(s2, 'visit_map: an error of the reader is returned', z3.Not(s2.g['rerr']))
                t = ex.term(f[0])
                for i, (nm, y, _) in enumerate(sp.fields): ob(s2, 'visit_map: the same ' + nm, S.field(t, 0, i) == y)
        if not got: ob(state(), 'visit_map: succeeds', B(False))
    for o in ex.obls:
        if o.kind == 'panic': o.props = frozenset(['C18']); o.name = 'serde: ' + o.name
    return ex

def key_enum(ex, fmap):
    """the type of the keys which visit_map reads"""
    for b in fmap['blocks']:
        if b and b['t']['k'] == 'call':
            c = b['t']['f'].get('callee') or {}
            if c.get('name') == 'next_key':
                t = ex.strip(b['t']['dest']['ty'])
                return ex.T[ex.strip(ex.T[t]['args'][0])]['args'][0]
    raise Unsupported('visit_map reads no keys')

# ------------------------------------------------------------------------------------------------ texts of errors
FMT = 'core::fmt::'
TEXTS = 'core::fmt::Display', 'core::fmt::Debug'

def template(bs):
    """pieces of a compiled format string: literals and (index of the argument, has a width or a precision)"""
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]; i += 1
        if n == 0: return out
        if n < 0x80: out.append(bytes(bs[i:i + n]).decode(errors='replace')); i += n; continue
        if n == 0x80:
            m = bs[i] + 256 * bs[i + 1]; i += 2
            out.append(bytes(bs[i:i + m]).decode(errors='replace')); i += m; continue
        cut = bool(n & 0b110110)
        if n & 1: i += 4
        if n & 2: i += 2
        if n & 4: i += 2
        if n & 8: arg = bs[i] + 256 * bs[i + 1]; i += 2
        out.append((arg, cut)); arg += 1

def errors(prog):
    ex = Exec(prog)
    S, T = ex.S, ex.T
    ex.monitor = Mon()
    isv = lambda x: x['impl_self'].startswith('verify::VerificationError<')
    f_disp, f_dbg = (one(prog, 'fmt', t, isv) for t in TEXTS)
    et = ex.strip(f_disp['locals'][1]['ty'])
    e = z3.Const('error', S.sort(et))
    lits = {}
    def res(ctx): return ex.strip(ctx['destty'])
    def wrote(st, ctx, pieces):
        b = st.fork(); b.g['werr'] = B(True)
        a = st.fork(); a.g['text'] = a.g['text'] + tuple(pieces)
        t = T[res(ctx)]
        return [(a, Agg(res(ctx), 0, [unit(ex)])), (b, Agg(res(ctx), 1, [ex.fresh('error', S.sort(t['args'][1]))]))]
    texts = {}
    def the_text(st, v):
        """the pieces of a string: literals, and values which it is the text of"""
        t = v if z3.is_expr(v) else ex.term(val(ex, st, v))
        if z3.is_app(t) and t.decl().name().startswith('str:"'): return [('lit', t.decl().name()[5:-1])]
        if z3.is_app(t) and t.decl().name() in texts: return list(texts[t.decl().name()])
        if z3.is_app(t) and t.decl().name().startswith('to_string'):
            return the_text(st, t.arg(0)) if t.arg(0).sort() == t.sort() else [('arg', 'display', t.arg(0), False)]
        return [('arg', 'display', t, False)]
    def string(ps):
        """a string made of pieces"""
        if all(p[0] == 'lit' for p in ps): return S.strlit(''.join(p[1] for p in ps))
        if len(ps) == 1 and ps[0][1] == 'display' and not ps[0][3] and ps[0][2].sort() != S.un('str'): return S.uf('to_string', [ps[0][2]], S.un('str'))
        t = ex.fresh('a text', S.un('str'))
        texts[t.decl().name()] = tuple(ps)
        return t
    def char(st, v):
        v = z3.simplify(ex.term(val(ex, st, v)))
        return [('lit', chr(v.as_long()))] if z3.is_int_value(v) else [('arg', 'display', v, False)]
    STRING = 'alloc::string::String'
    def strings(st, c, args, ctx):
        """String as the ghost text it holds"""
        tr, n, path = c.get('trait'), c['name'], c['path']
        on = c.get('impl_adt') == STRING
        first = lambda: adt_of(ex, ctx['argtys'][0])
        if on and n in ('new', 'with_capacity'): return [(st, S.strlit(''))]
        def grow(ps, r):
            ex.store(st, args[0], string(the_text(st, ex.term(val(ex, st, args[0]))) + ps))
            return [(st, r)]
        if on and n == 'push_str': return grow(the_text(st, args[1]), unit(ex))
        if on and n == 'push': return grow(char(st, args[1]), unit(ex))
        if on and n in ('as_str', 'into_boxed_str', 'reserve', 'shrink_to_fit'): return [(st, val(ex, st, args[0]) if n[0] in 'ai' else unit(ex))]
        if tr == 'core::ops::arith::AddAssign' and first() == STRING: return grow(the_text(st, args[1]), unit(ex))
        if tr == 'core::ops::arith::Add' and first() == STRING: return [(st, string(the_text(st, args[0]) + the_text(st, args[1])))]
        if tr == 'core::fmt::Write' and first() == STRING and n in ('write_str', 'write_char', 'write_fmt'):
            ok = Agg(res(ctx), 0, [unit(ex)])
            if n == 'write_char': return grow(char(st, args[1]), ok)
            if n == 'write_str': return grow(the_text(st, args[1]), ok)
            return grow(pieces(args[1]) if len(args[1].data) > 1 else the_text(st, args[1].data[0]), ok)
        if tr in ('core::convert::From', 'core::convert::Into') and n in ('from', 'into') and ex.term(val(ex, st, args[0])).sort() == S.un('str') and S.sort(ctx['destty']) == S.un('str'):
            return [(st, val(ex, st, args[0]))]
        if path.startswith('alloc::slice::') and n in ('concat', 'join') and isinstance(val(ex, st, args[0]), ArrV):
            ps = []
            for i, x in enumerate(val(ex, st, args[0]).f):
                if n == 'join' and i: ps += the_text(st, args[1])
                ps += the_text(st, x)
            return [(st, string(ps))]
        return None
    def pieces(args):
        a = args.data
        if len(a) == 1: return None
        if not isinstance(a[0], ArrV) or not isinstance(a[1], ArrV): raise Unsupported('format string')
        bs = [z3.simplify(x) for x in a[0].f]
        if not all(z3.is_int_value(b) for b in bs): raise Unsupported('format string')
        out = []
        for q in template([b.as_long() for b in bs]):
            if isinstance(q, str): out.append(('lit', q)); continue
            d = a[1].f[q[0]]
            if not isinstance(d, ObjV) or d.kind != 'fmtarg2': raise Unsupported('format argument')
            more = [('arg', d.data[0], d.data[1], q[1])]
            if d.data[0] == 'display' and d.data[1].sort() == S.un('str') and not q[1]: more = the_text(None, d.data[1])
            out += more
        return out
    def is_fmt(st, v):
        v = val(ex, st, v)
        return isinstance(v, ObjV) and v.kind == 'formatter'
    def contract(ex_, st, c, args, ctx):
        tr, n, path = c.get('trait'), c['name'], c['path']
        if path.startswith('core::fmt::rt::') and n in ('new_display', 'new_debug'):
            return [(st, ObjV('fmtarg2', (n[4:], ex.term(val(ex, st, args[0])))))]
        if n == 'from_str' and c.get('impl_adt') == 'core::fmt::Arguments' or path.startswith('core::fmt::') and n == 'from_str_nonconst':
            return [(st, ObjV('fmtargs', [args[0]]))]
        if path == 'alloc::fmt::format' and isinstance(args[0], ObjV) and args[0].kind == 'fmtargs':
            return [(st, string(pieces(args[0]) if len(args[0].data) > 1 else the_text(st, args[0].data[0])))]
        r = strings(st, c, args, ctx)
        if r is not None: return r
        if c.get('impl_adt') == 'core::fmt::Formatter' or tr == 'core::fmt::Write':
            if not args or not is_fmt(st, args[0]): return None
            if n == 'write_fmt':
                if not isinstance(args[1], ObjV): raise Unsupported('formatting')
                return wrote(st, ctx, pieces(args[1]) if len(args[1].data) > 1 else the_text(st, args[1].data[0]))
            if n in ('write_str', 'pad'): return wrote(st, ctx, the_text(st, args[1]))
            if n == 'write_char': return wrote(st, ctx, char(st, args[1]))
            if n in ('alternate', 'sign_plus', 'sign_minus', 'sign_aware_zero_pad'): return [(st, z3.Bool('flag:' + n))]
            raise Unsupported('formatter: ' + n)
        if tr in TEXTS and n == 'fmt' and len(args) == 2 and is_fmt(st, args[1]):
            b = c.get('body')
            if b is not None and b in prog.fns and prog.fns[b].get('local') and ex.term(val(ex, st, args[0])).sort() != e.sort():
                return ex.call_body(st, prog.fns[b], args)
            return wrote(st, ctx, [('arg', 'display' if tr == TEXTS[0] else 'debug', ex.term(val(ex, st, args[0])), False)])
        return None
    def counted(ex_, st, c, args, ctx):
        r = contract(ex_, st, c, args, ctx)
        if r is not None: ex.used_contracts[c['path']] = ex.used_contracts.get(c['path'], 0) + 1
        return r
    ex.contracts = [counted, std_contract]
    ob = lambda s, nm, f: ex.oblige(s, nm, {'C20'}, f, assume=False)
    def state():
        st = State(); st.g['werr'] = B(False); st.g['text'] = ()
        return st
    kinds = T[et]['variants']
    def shows(s, k, own):
        """the text shows each part of the error of the kind k; own - in which way the text may be the one of the error itself"""
        parts_ = [S.field(e, k, i) for i in range(len(kinds[k]['fields']))]
        if any(p[0] == 'arg' and p[3] for p in s.g['text']):
            # a text may or may not be cut by a precision
            s.taint = tuple(sorted(set(s.taint) | {'a text with a width or a precision'}))
        if any(p[0] == 'arg' and not any(p[2].eq(y) for y in parts_ + [e]) for p in s.g['text']):
            # whether something else contains the text of the part is not decided here
            s.taint = tuple(sorted(set(s.taint) | {'a text of another value'}))
        for i, f in enumerate(kinds[k]['fields']):
            y = parts_[i]
            hit = [B(False)]
            for p in s.g['text']:
                if p[0] != 'arg' or p[3]: continue
                if p[2].sort() == y.sort(): hit.append(p[2] == y)
                if p[2].sort() == e.sort() and p[1] == own: hit.append(p[2] == e)
            ob(s, 'the text of %s shows its %s' % (kinds[k]['name'], f['name'] if not f['name'].isdigit() else 'part %d' % (int(f['name']) + 1)), z3.Or(hit))
    for what, fn, own in (('Display', f_disp, None), ('Debug', f_dbg, 'display')):
        n = 0
        st = state()
        fid = ex.new_frame(st)
        st.frames[fid] = {'f': ObjV('formatter', None)}
        for s, v in ex.call_body(st, fn, [e, MutRef(fid, 'f', ())]):
            for s2, k, _ in cases(ex, s, v):
                if k == 1: ob(s2, 'the text fails only if the formatter does', s2.g['werr']); continue
                n += 1
                ob(s2, 'a failure of the formatter is returned', z3.Not(s2.g['werr']))
                rest = s2
                for q in range(len(kinds)):
                    if rest is None: break
                    a, rest = ex.branch(rest, S.is_variant(e, q))
                    if a is None: continue
                    shows(a, q, own)
                    whole = any(p[0] == 'arg' and p[1] == own and p[2].sort() == e.sort() for p in a.g['text'])
                    if not kinds[q]['fields'] and not whole:
                        ob(a, 'the text of %s is not empty' % kinds[q]['name'], B(any(p[0] == 'arg' or p[1] for p in a.g['text'])))
                    if what == 'Display':
                        lits.setdefault(q, set()).add(''.join(p[1] if p[0] == 'lit' else '\0' for p in a.g['text']))
        if not n: raise Unsupported('%s of an error never succeeds' % what)
    st = state()
    qs = sorted(lits)
    for i in qs:
        for j in qs:
            if i < j: ob(st, 'the texts of %s and %s differ' % (kinds[i]['name'], kinds[j]['name']), B(not (lits[i] & lits[j])))
    for r in prog.roots:
        if r['name'] == 'from' and r.get('impl_trait') == 'core::convert::From' and r['impl_self'].endswith('string::String'):
            fn = prog.fns[r['body']]
            if S.sort(fn['locals'][1]['ty']) != e.sort(): continue
            for s, v in ex.call_body(state(), fn, [e]):
                ob(s, 'the error converts to its text', ex.term(v) == S.uf('to_string', [e], S.un('str')))
    for o in ex.obls:
        if o.kind == 'panic': o.props = frozenset(['C20']); o.name = 'texts of errors: ' + o.name
    return ex

if __name__ == '__main__':
    import sys, time, traceback
    sys.setrecursionlimit(20000)
    p = Program(sys.argv[1])
    import discharge as D
    for f in (bitcoin, clone, strict, serde, errors):
        t = time.time()
        try: ex = f(p)
        except Unsupported as e: print(f.__name__, 'UNSUPPORTED', e); traceback.print_exc(limit=-4); continue
        D.discharge(ex.obls, list(ex.S.global_facts) + ex.axioms, 1)
        print(f.__name__, '%.1fs' % (time.time() - t), len(ex.obls))
        for o in ex.obls: print('  ', o.status, o.name, sorted(o.props), o.taint)
        print(ex.executed, list(ex.used_contracts))
