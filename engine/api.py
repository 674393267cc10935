"""Specification of ContractVerify::evaluate: a ghost history of the evaluation (what has been read, what is open, what has
been delivered) is kept along the execution of the real code, and the properties are obligations at the events of that
history: a read, a call of the contract API, the end of the processing of an operation, the return."""
import z3
from core import *
from contracts import *
from contracts import contract as std_contract
import iters, loops as L

API = 'rgbcore::verify::ContractApi'
RD = 'rgbcore::verify::ReadOperation'
VERIFY = 'ultrasonic::codex::{impl#4}::verify'
B = z3.BoolVal
RICH = L.RICH[0]

def find_root(p):
    r = [x for x in p.roots if x['name'] == 'evaluate' and x['path'].startswith('rgbcore::verify::')]
    if len(r) != 1: raise Unsupported('evaluate is not found')
    return p.fns[r[0]['body']]

class Api:
    def __init__(self, ex, fn):
        self.ex, self.fn = ex, fn
        self.guess = False
        T = ex.T
        S = ex.S
        rt = T[fn['locals'][0]['ty']]
        self.res_ty = fn['locals'][0]['ty']
        self.err_ty = rt['args'][1]
        self.seal_ty = T[self.err_ty]['args'][0]
        self.seal_key = S.key(self.seal_ty)
        self.block_ty = self.find(lambda t: t['k'] == 'adt' and t['path'] == 'rgbcore::verify::OperationSeals' and S.key(t['args'][0]) == self.seal_key)
        self.block_sort = S.sort(self.block_ty)
        bf = {f['name']: (i, f['ty']) for i, f in enumerate(T[self.block_ty]['variants'][0]['fields'])}
        self.bf = bf
        self.op_ty = bf['operation'][1]
        self.of = {f['name']: (i, f['ty']) for i, f in enumerate(T[self.op_ty]['variants'][0]['fields'])}
        self.cid_ty = self.of['contract_id'][1]
        self.CID = z3.Const('contract_id', S.sort(self.cid_ty))
        self.codex_sort = S.un('ultrasonic::codex::Codex')
        self.codex = z3.Const('codex', self.codex_sort)
        self.self_sort = S.un('SelfState')
        self.rd_sort = S.un('ReaderState')
        self.addr_ty = self.find_adt('ultrasonic::state::CellAddr', 'ultrasonic::operation::CellAddr')
        self.addr_sort = S.sort(self.addr_ty)
        self.af = {f['name']: i for i, f in enumerate(T[self.addr_ty]['variants'][0]['fields'])}
        self.seal_sort = S.sort(self.seal_ty)
        self.map_sort = z3.ArraySort(self.addr_sort, S.opt(self.seal_sort))
        self.in_ty = self.vec_elem(self.of['destructible_in'][1])
        self.out_ty = self.vec_elem(self.of['destructible_out'][1])
        self.inf = {f['name']: i for i, f in enumerate(T[self.in_ty]['variants'][0]['fields'])}
        self.outf = {f['name']: i for i, f in enumerate(T[self.out_ty]['variants'][0]['fields'])}
        self.noblock = z3.Const('noblock', self.block_sort)
        self.nostate = z3.Const('nostate', self.self_sort)
        self.opid_sort = self.addr_sort.accessor(0, self.af['opid']).range()
        self.events = 0
        self.cover = {}
        self.cexinfo = None

    def find(self, pred):
        for i, t in enumerate(self.ex.T):
            if t and pred(t): return i
        raise Unsupported('a type is not found')
    def find_adt(self, *paths):
        return self.find(lambda t: t['k'] == 'adt' and (t['path'] in paths or t['path'].split('::')[-1] == paths[0].split('::')[-1]))
    def sort_named(self, pred, dflt):
        for i, t in enumerate(self.ex.T):
            if t and pred(t): return self.ex.S.sort(i)
        return self.ex.S.un(dflt)
    def vec_elem(self, ti):
        t = self.ex.T[ti]
        while t['path'] != 'alloc::vec::Vec': t = self.ex.T[t['args'][0]]
        return t['args'][0]

    # ------------------------------------------------------------ pieces of the block being processed
    def F(self, t, i, v=0): return self.ex.S.field(t, v, i)
    def unconf(self, t):
        while isinstance(t.sort(), z3.DatatypeSortRef) and not t.sort().name().startswith('Vec<'): t = self.F(t, 0)
        return t
    def bytes(self, t):
        """the only content of a newtype"""
        while isinstance(t.sort(), z3.DatatypeSortRef): t = self.F(t, 0)
        return t

    class Blk: pass
    def blk(self, st):
        """the view of the operation being processed, according to the specification"""
        g = st.g
        ex, S = self.ex, self.ex.S
        b = self.Blk()
        blk = g['block']
        b.first = g['n'] == 0
        raw = self.F(blk, self.bf['operation'][0])
        args = [self.F(raw, i) for i in range(len(self.of))]
        b.raw_cid = args[self.of['contract_id'][0]]
        args[self.of['contract_id'][0]] = self.CID
        b.op1 = S.cons(raw.sort(), 0, args)       # with the contract id put in
        # one of the two, depending on being the first
        b.op = self.sel(st, b.first, b.op1, raw)
        b.opid = S.uf('commit_id', [b.op], self.opid_sort)
        b.ins = self.unconf(self.F(raw, self.of['destructible_in'][0]))
        b.outs = self.unconf(self.F(raw, self.of['destructible_out'][0]))
        b.nin, b.nout = ex.vlen(b.ins), ex.vlen(b.outs)
        b.inaddr = lambda i: self.F(z3.Select(ex.varr(b.ins), i), self.inf['addr'])
        b.outauth = lambda i: self.F(z3.Select(ex.varr(b.outs), i), self.outf['auth'])
        b.dconf = self.F(blk, self.bf['defined_seals'][0])
        b.D = self.unconf(b.dconf)
        b.wopt = self.F(blk, self.bf['witness'][0])
        b.haswit = S.is_variant(b.wopt, 1)
        b.wit = ex.some_of(b.wopt)
        b.pub = self.F(b.wit, 0)
        b.cli = self.F(b.wit, 1)
        b.known = S.uf('is_known', [g['S0'], b.opid], z3.BoolSort())
        b.has = lambda p: S.is_variant(z3.Select(b.D, p), 1)
        b.df = lambda p: ex.some_of(z3.Select(b.D, p))
        if not z3.is_int_value(b.nin):
            st.note(b.nin >= 0, b.nout >= 0)
            # a name for the first input, and the type of positions
            e0 = z3.Select(ex.varr(b.ins), 0)
            p = z3.Const('p!t', b.D.sort().domain())
            st.note(z3.Const('first input of %s' % blk, e0.sort()) == e0,
                    z3.ForAll([p], z3.Implies(b.has(p), z3.And(p >= 0, p < 65536)), patterns=[z3.Select(b.D, p)]))
        return b

    def sel(self, st, c, a, b):
        cs = z3.simplify(c)
        if z3.is_true(cs): return a
        if z3.is_false(cs): return b
        return z3.If(c, a, b)

    def tok(self, d): return self.ex.S.uf('RgbSealDef::auth_token', [d], self.tok_sort())
    def tok_sort(self): return self.out_sort().accessor(0, self.outf['auth']).range()
    def out_sort(self): return self.ex.S.sort(self.out_ty)
    def tosrc(self, d): return self.ex.S.uf('RgbSealDef::to_src', [d], self.ex.S.opt(self.seal_sort))
    def pubid(self, p): return self.ex.S.uf('PublishedWitness::pub_id', [p], self.pubid_sort())
    def pubid_sort(self):
        v = [v for v in self.ex.T[self.err_ty]['variants'] if v['name'] == 'SealsNotClosed'][0]
        return self.ex.S.sort(v['fields'][0]['ty'])
    def resolve(self, d, pid): return self.ex.S.uf('RgbSealDef::resolve', [d, pid], self.seal_sort)
    def msg(self, opid):
        ty = None
        for i, t in enumerate(self.ex.T):
            if t and t['k'] in ('alias', 'param') and t['name'].endswith('SingleUseSeal>::Message') and t['name'].startswith('<' + self.ex.T[self.seal_ty]['name'] + ' '): ty = i
        s = self.ex.S.sort(ty) if ty is not None else self.ex.S.un('Message')
        nm = self.ex.T[ty]['name'] if ty is not None else ''
        return self.ex.S.uf('From::from<%s>' % nm, [self.bytes(opid)], s)
    def included(self, seal, msg, wit): return self.ex.S.uf('SingleUseSeal::is_included', [seal, msg, wit], z3.BoolSort())
    def is_res(self, t): return t['k'] == 'adt' and t['path'] == 'core::result::Result'
    def convolve(self, cli, msg):
        n = lambda i: self.ex.T[i]['name']
        s = self.sort_named(lambda t: self.is_res(t) and 'ClientSideWitness>::Proof' in n(t['args'][0]) and n(t['args'][1]).endswith('ClientSideWitness>::Error'), 'convolve?')
        return self.ex.S.uf('ClientSideWitness::convolve_commit', [cli, msg], s)
    def commitment(self, pub, proof):
        n = lambda i: self.ex.T[i]['name']
        s = self.sort_named(lambda t: self.is_res(t) and n(t['args'][0]) == '()' and 'PublishedWitness<' in n(t['args'][1]) and n(t['args'][1]).endswith('>::Error'), 'commitment?')
        return self.ex.S.uf('PublishedWitness::verify_commitment', [pub, proof], s)
    def ok(self, r):
        if isinstance(r.sort(), z3.DatatypeSortRef): return self.ex.S.is_variant(r, 0)
        return self.ex.S.uf('is_ok', [r], z3.BoolSort())
    def okv(self, r):
        if isinstance(r.sort(), z3.DatatypeSortRef): return self.F(r, 0, 0)
        return self.ex.S.uf('ok_of', [r], self.ex.S.un('okval'))
    def vres(self, st, b):
        """result of the codex verification which the specification requires"""
        g = st.g
        n = lambda i: self.ex.T[i].get('path', '')
        s = self.sort_named(lambda t: self.is_res(t) and n(t['args'][0]).endswith('::VerifiedOperation') and n(t['args'][1]).endswith('::CallError'), 'verify?')
        mem = self.ex.S.uf('memory', [g['S0']], self.ex.S.un('Memory'))
        repo = self.ex.S.uf('repo', [g['S0']], self.ex.S.un('Repo'))
        return self.ex.S.uf('verify', [self.codex, self.CID, b.op, mem, repo], s)

    # ------------------------------------------------------------ conditions of validity: name -> (properties, list of formulas)
    def conds(self, st, b):
        g, ex, S = st.g, self.ex, self.ex.S
        cid_bytes = self.bytes(b.raw_cid)
        codex_id = S.uf('commit_id', [self.codex], self.codexid_sort())
        V1 = z3.Implies(b.first, ex.eq(cid_bytes, self.bytes(codex_id)))
        p = z3.Const('p!v', b.D.sort().domain())
        V2 = z3.ForAll([p], z3.Implies(b.has(p), z3.And(p < b.nout, self.tok(b.df(p)) == b.outauth(p))), patterns=[z3.Select(b.D, p)])
        i, j = z3.Int('i!v'), z3.Int('j!v')
        G = g['G']
        V3a = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.nin), S.is_variant(z3.Select(G, b.inaddr(i)), 1)), patterns=[z3.Select(ex.varr(b.ins), i)])
        V3b = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < b.nin), b.inaddr(i) != b.inaddr(j)), patterns=[z3.MultiPattern(z3.Select(ex.varr(b.ins), i), z3.Select(ex.varr(b.ins), j))])
        V4 = z3.Implies(z3.Not(b.known), self.ok(self.vres(st, b)))
        V5a = z3.Implies(b.nin > 0, b.haswit)
        m = self.msg(b.opid)
        V5b = z3.ForAll([i], z3.Implies(z3.And(b.haswit, 0 <= i, i < b.nin), self.included(ex.some_of(z3.Select(G, b.inaddr(i))), m, b.wit)), patterns=[z3.Select(ex.varr(b.ins), i)])
        cv = self.convolve(b.cli, m)
        vc = self.commitment(b.pub, self.okv(cv))
        V5c = z3.Implies(b.haswit, z3.And(self.ok(cv), self.ok(vc)))
        return [('the first operation commits to the codex', {'C05'}, V1),
                ('each reported seal definition matches the token of its cell', {'C04'}, V2),
                ('each input has an open seal', {'C02'}, V3a),
                ('no cell is spent twice by an operation', {'C02'}, V3b),
                ('an unknown operation passes the codex in the current state', {'C03'}, V4),
                ('an operation with inputs has a witness', {'C01'}, V5a),
                ('the seal of each input is included and closed over the operation id', {'C01'}, V5b),
                ('the witness commits to the operation id', {'C01'}, V5c)]

    def codexid_sort(self):
        return self.sort_named(lambda t: t['k'] == 'adt' and t['path'].endswith('::CodexId'), 'CodexId')

    def new_open(self, st, b):
        """the map of open seals after the operation"""
        ex, S = self.ex, self.ex.S
        G = st.g['G']
        G2 = ex.fresh('G', self.map_sort)
        sp = ex.fresh('spent', z3.ArraySort(self.addr_sort, z3.IntSort()))
        i = z3.Int('i!s'); a = z3.Const('a!s', self.addr_sort)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.nin), sp[b.inaddr(i)] >= 0), patterns=[z3.Select(ex.varr(b.ins), i)]))
        st.assume(z3.ForAll([a], z3.Implies(sp[a] >= 0, z3.And(sp[a] < b.nin, b.inaddr(sp[a]) == a)), patterns=[sp[a]]))
        op, pos = self.F(a, self.af['opid']), self.F(a, self.af['pos'])
        d = b.df(pos)
        src = self.tosrc(d)
        own = z3.And(op == b.opid, b.has(pos), z3.Or(S.is_variant(src, 1), b.haswit))
        value = z3.If(S.is_variant(src, 1), src, S.cons(self.map_sort.range(), 1, [self.resolve(d, self.pubid(b.pub))]))
        st.assume(z3.ForAll([a], z3.Select(G2, a) == z3.If(own, value, z3.If(sp[a] >= 0, S.cons(self.map_sort.range(), 0, []), z3.Select(G, a))), patterns=[z3.Select(G2, a)]))
        return G2

    # ------------------------------------------------------------ initial state
    def start(self):
        ex = self.ex
        st = State()
        s0 = z3.Const('Self0', self.self_sort)
        st.frames['G'] = {'S': s0, 'R': z3.Const('Reader0', self.rd_sort), 'n': z3.IntVal(0),
                          'G': empty(ex, self.map_sort), 'pend': B(False), 'status': z3.IntVal(0),
                          'block': self.noblock, 'S0': self.nostate, 'wit': B(False), 'op': B(False), 'seals': B(False),
                          'err': z3.Const('noerr', ex.S.un('StreamError'))}
        return st, [MutRef('G', 'S', ()), MutRef('G', 'R', ())]

    def seen(self, ev): self.cover[ev] = self.cover.get(ev, 0) + (1 if len(self.ex.buf) == 1 else 0)

    # ------------------------------------------------------------ contracts of the API
    def contract(self, ex, st, c, args, ctx):
        tr, name = c.get('trait'), c['name']
        S = ex.S
        if tr == RD and name == 'read_operation': return self.read(st, args, ctx)
        if tr == API:
            s = val(ex, st, args[0])
            if name == 'contract_id': return [(st, self.CID)]
            if name == 'codex': return [(st, self.codex)]
            if name == 'memory': return [(st, S.uf('memory', [s], S.un('Memory')))]
            if name == 'repo': return [(st, S.uf('repo', [s], S.un('Repo')))]
            if name == 'is_known': return [(st, S.uf('is_known', [s, ex.term(args[1])], z3.BoolSort()))]
            if name in ('apply_witness', 'apply_operation', 'apply_seals'): return self.apply(st, name, args)
            raise Unsupported('contract API method ' + name)
        if c['path'] == VERIFY or c['path'].endswith('::codex::Codex::verify') or (c.get('impl_adt', '') == 'ultrasonic::codex::Codex' and name == 'verify'):
            return self.verify(st, args, ctx)
        return None

    def commit(self, st, how):
        """the code has finished with the operation being processed without an error: the operation is accepted"""
        ex, g = self.ex, st.g
        self.seen('accepted operation (%s)' % how)
        b = self.blk(st)
        iters.enum_facts(ex, st, b.D)
        nonempty = m_size(ex, b.D) > 0
        if how == 'next read':
            done = z3.And(z3.Not(b.haswit), z3.Or(b.first, b.known), z3.Not(nonempty))
            if ex.infeasible(st, z3.Or(g['wit'], g['op'], g['seals'])) and not ex.infeasible(st, z3.Not(done)):
                # nothing has been delivered: the operation may be going to be processed later; whatever follows does not tell anything about the rest
                ex.oblige(st, 'the operation is completed before the next one is read', {'C11'}, done, assume=False)
                st.taint = tuple(sorted(set(st.taint) | {'an operation is read ahead'}))
        for nm, props, f in self.conds(st, b):
            ex.oblige(st, 'accepted: ' + nm, props, f, assume=False)
            if props & {'C01', 'C02', 'C04'}:
                ex.oblige(st, 'accepted, known to the contract: ' + nm, {'C17'}, z3.Implies(b.known, f), assume=False)
        for nm, f in (('witness is delivered if there is one', g['wit'] == b.haswit),
                      ('operation is applied unless it is the first or known', g['op'] == z3.And(z3.Not(b.first), z3.Not(b.known))),
                      ('seals are delivered if there are any', g['seals'] == nonempty)):
            ex.oblige(st, 'delivered: ' + nm, {'C07', 'C11', 'C06'} if how != 'return' else {'C07'}, f, assume=False)
            if 'applied' not in nm: ex.oblige(st, 'delivered, known to the contract: ' + nm, {'C17'}, z3.Implies(b.known, f), assume=False)
        for nm, props, f in self.conds(st, b): st.assume(f)
        g['G'] = self.new_open(st, b)
        g['n'] = z3.simplify(g['n'] + 1)
        g['pend'], g['block'], g['S0'] = B(False), self.noblock, self.nostate
        g['wit'] = g['op'] = g['seals'] = B(False)

    def is_pend(self, st):
        p = z3.simplify(st.g['pend'])
        if z3.is_true(p): return True
        if z3.is_false(p): return False
        if self.ex.infeasible(st, z3.Not(p)): st.g['pend'] = B(True); self.settle(st); return True
        if self.ex.infeasible(st, p): st.g['pend'] = B(False); self.settle(st); return False
        raise Unsupported('the history is ambiguous')

    def settle(self, st):
        """the status of the reader once it is known whether an operation is being processed"""
        for q in (0, 1, 2):
            if self.ex.infeasible(st, st.g['status'] != q): st.g['status'] = z3.IntVal(q); return

    def read(self, st, args, ctx):
        ex, g, S = self.ex, st.g, self.ex.S
        self.seen('read')
        r = args[0]
        while isinstance(r, MutRef) and isinstance(ex.load(st, r), MutRef): r = ex.load(st, r)
        if not (isinstance(r, MutRef) and r.fid == 'G' and r.loc == 'R'): raise Unsupported('another reader')
        ex.oblige(st, 'no reading beyond the end of the stream or an error', {'C11'}, g['status'] == 0)
        if self.is_pend(st): self.commit(st, 'next read')
        g['R'] = S.uf('after_read', [g['R']], self.rd_sort)
        rt = ex.strip(ctx['destty'])
        t = ex.T[rt]
        ot = ex.strip(t['args'][0])
        out = []
        # error
        e = st.fork()
        err = ex.fresh('streamerr', S.sort(t['args'][1]))
        e.g['status'] = z3.IntVal(2)
        e.g['err'] = err
        out.append((e, Agg(rt, 1, [err])))
        n = st.fork()
        n.g['status'] = z3.IntVal(1)
        out.append((n, Agg(rt, 0, [Agg(ot, 0, [])])))
        blk = ex.fresh('block', self.block_sort)
        g['pend'], g['block'], g['S0'] = B(True), blk, g['S']
        out.append((st, Agg(rt, 0, [Agg(ot, 1, [blk])])))
        return out

    def verify(self, st, args, ctx):
        ex, g, S = self.ex, st.g, self.ex.S
        self.seen('codex verification')
        a = [ex.term(val(ex, st, x)) for x in args]
        if self.is_pend(st):
            b = self.blk(st)
            ex.oblige(st, 'the codex is not run for a known operation', {'C17'}, z3.Not(b.known), assume=False)
        return [(st, S.uf('verify', a, S.sort(ctx['destty'])))]

    def apply(self, st, name, args):
        ex, g, S = self.ex, st.g, self.ex.S
        self.seen(name)
        r = args[0]
        while isinstance(r, MutRef) and isinstance(ex.load(st, r), MutRef): r = ex.load(st, r)
        if not (isinstance(r, MutRef) and r.fid == 'G' and r.loc == 'S'): raise Unsupported('another contract')
        a = [ex.term(val(ex, st, x)) for x in args[1:]]
        if not self.is_pend(st):
            ex.oblige(st, name + ': effects are delivered for the operation being processed only', {'C07', 'C06'}, B(False), assume=False)
        else:
            b = self.blk(st)
            iters.enum_facts(ex, st, b.D)
            ob = lambda nm, props, f: ex.oblige(st, name + ': ' + nm, props, f, assume=False)
            if name == 'apply_witness':
                ob('the operation has a witness', {'C07'}, b.haswit)
                ob('operation id', {'C07', 'C05'}, a[0] == b.opid)
                ob('the witness read from the stream', {'C07'}, z3.Implies(b.haswit, a[1] == b.wit))
                ob('once, before the operation and the seals', {'C07'}, z3.And(z3.Not(g['wit']), z3.Not(g['op']), z3.Not(g['seals'])))
                g['wit'] = B(True)
            elif name == 'apply_operation':
                v = self.vres(st, b)
                ob('exactly the operation which the codex has verified', {'C03', 'C07', 'C05'}, z3.And(self.ok(v), a[0] == self.okv(v)))
                ob('not the first operation', {'C07', 'C05'}, z3.Not(b.first))
                ob('not a known operation', {'C17', 'C07'}, z3.Not(b.known))
                ob('once, after the witness and before the seals', {'C07'}, z3.And(z3.Not(g['op']), z3.Not(g['seals']), g['wit'] == b.haswit))
                g['op'] = B(True)
            else:
                ob('operation id', {'C07', 'C05'}, a[0] == b.opid)
                ob('the seals read from the stream', {'C07'}, a[1] == b.dconf)
                ob('there are seals', {'C07'}, m_size(ex, b.D) > 0)
                ob('once, after the witness and the operation', {'C07'}, z3.And(z3.Not(g['seals']), g['wit'] == b.haswit, g['op'] == z3.And(z3.Not(b.first), z3.Not(b.known))))
                g['seals'] = B(True)
        g['S'] = S.uf(name, [g['S']] + a, self.self_sort)
        return [(st, unit(ex))]

    # ------------------------------------------------------------ the reading loop
    def same_block(self, head, back): return head.g['R'].eq(back.g['R'])

    def back_edge(self, ex, st):
        if self.is_pend(st):
            nm = st.g['block'].decl().name()
            for fid, fr in st.frames.items():
                if fid == 'G': continue
                # a loop which reads the next operation at its end: the operation is processed by the next iteration
                if any(self.mentions_block(v, nm) for v in fr.values()): return [st]
            self.commit(st, 'end of iteration')
        return [st]

    def mentions_block(self, v, nm):
        if isinstance(v, (Agg, ItV, ArrV)): return any(self.mentions_block(x, nm) for x in v.f)
        if z3.is_expr(v) and nm in L.consts_of(v):
            s = v.sort()
            return s == self.block_sort or 'OperationSeals' in s.name()
        return False

    def seal_slots(self, ex, entry, mod):
        return [s for s in mod if s[0] != 'G' and self.view_of(ex.term(L.slot_get(entry, s)).sort()) is not None]

    def closed_slots(self, ex, entry, mod):
        """(a guess, made in the second attempt only) a set of the cells whose seals are closed, though they are still in the map"""
        if not RICH: return []
        r = [s for s in mod if s[0] != 'G' and ex.term(L.slot_get(entry, s)).sort() == z3.ArraySort(self.addr_sort, z3.BoolSort())]
        return r if len(r) == 1 and all(ex.infeasible(entry, z3.Not(ex.term(L.slot_get(entry, s)) == z3.K(self.addr_sort, z3.BoolVal(False)))) for s in r) else []

    def view_of(self, sort):
        """how a local collection stands for the map of open seals: a function (collection, address) -> (the seal of the address | none,
        a pattern for quantifiers); None for other collections"""
        if sort == self.map_sort: return lambda m, a: (z3.Select(m, a), z3.Select(m, a))
        if not isinstance(sort, z3.ArraySortRef) or not isinstance(sort.range(), z3.DatatypeSortRef): return None
        S, ex = self.ex.S, self.ex
        oseal = S.opt(self.seal_sort)
        none = S.cons(oseal, 0, [])
        inner = sort.range().accessor(1, 0).range() if sort.range().num_constructors() == 2 and sort.range().constructor(1).arity() == 1 else None
        if inner is None: return None
        def deep(m, k): return S.is_variant(z3.Select(m, k), 1), ex.some_of(z3.Select(m, k))
        if sort.domain() == self.addr_sort and inner == oseal:
            # None stands for a closed seal
            def view(m, a):
                has, x = deep(m, a)
                return z3.If(has, x, none), z3.Select(m, a)
            return view
        opid_sort, pos_sort = (self.addr_sort.accessor(0, self.af[n]).range() for n in ('opid', 'pos'))
        if sort.domain() == opid_sort and inner == z3.ArraySort(pos_sort, oseal):
            # the seals of each operation by their position
            def view(m, a):
                has, x = deep(m, self.F(a, self.af['opid']))
                y = z3.Select(x, self.F(a, self.af['pos']))
                return z3.If(has, y, none), y
            return view
        return None

    def given_slots(self, ex, entry, mod):
        if not self.reading(mod): return set()
        r = set(self.seal_slots(ex, entry, mod)) | set(self.closed_slots(ex, entry, mod))
        if ('G', 'pend') in mod: r |= set(self.next_slots(ex, entry, mod))
        return r
    def reading(self, mod): return ('G', 'R') in mod

    def loop_invariants(self, ex, entry, mod):
        if not self.reading(mod): return []
        return self.rotated(ex, entry, mod) + self.open_seals(ex, entry, mod)

    def early_invariants(self, ex, entry, mod):
        """needed for knowing the history while it is found out what a loop modifies"""
        if not self.reading(mod) or not self.next_slots(ex, entry, mod): return []
        return [f for _, _, f in self.rotated(ex, entry, mod)]

    def next_slots(self, ex, entry, mod):
        osort = ex.S.opt(self.block_sort)
        return [s for s in mod if s[0] != 'G' and ex.term(L.slot_get(entry, s)).sort() == osort]

    def rotated(self, ex, entry, mod):
        """a loop over operations with the next operation kept in an Option at its head"""
        if ('G', 'pend') not in mod: return []
        S = ex.S
        ss = self.next_slots(ex, entry, mod)
        if len(ss) != 1: raise Unsupported('an operation is read ahead')
        sl = ss[0]
        nx = lambda st: ex.term(L.slot_get(st, sl))
        some = lambda st: S.is_variant(nx(st), 1)
        inv = [('the next operation: is the one which has been read', {'C11'}, lambda st: z3.And(st.g['pend'] == some(st), z3.Implies(some(st), st.g['block'] == ex.some_of(nx(st))))),
                ('the next operation: there is none after the end only', {'C11'}, lambda st: st.g['status'] == z3.If(some(st), z3.IntVal(0), z3.IntVal(1))),
                ('the next operation: nothing has been delivered for it', {'C06', 'C07'}, lambda st: z3.And(z3.Implies(some(st), st.g['S0'] == st.g['S']), z3.Not(st.g['wit']), z3.Not(st.g['op']), z3.Not(st.g['seals'])))]
        if not all(ex.infeasible(entry, z3.Not(f(entry))) for _, _, f in inv): raise Unsupported('an operation is kept from an iteration to the next one')
        return inv

    def open_seals(self, ex, entry, mod):
        ss = self.seal_slots(ex, entry, mod)
        if len(ss) != 1: raise Unsupported('%d maps of seals' % len(ss))
        sl = ss[0]
        S = ex.S
        a = z3.Const('a!g', self.addr_sort)
        view = self.view_of(ex.term(L.slot_get(entry, sl)).sort())
        closed = self.closed_slots(ex, entry, mod)
        if closed: self.guess = True
        none = S.cons(self.map_sort.range(), 0, [])
        def pair(st):
            m, G = ex.term(L.slot_get(st, sl)), st.g['G']
            m = named(ex, st, m); G = named(ex, st, G)
            x, pat = view(m, a)
            if closed: x = z3.If(z3.Select(named(ex, st, ex.term(L.slot_get(st, closed[0]))), a), none, x)
            return (x, pat), z3.Select(G, a)
        def mk(f):
            def g(st):
                (x, pat), y = pair(st)
                return z3.ForAll([a], f(x, y), patterns=[pat, y])
            return g
        is1 = lambda x: S.is_variant(x, 1)
        return [('open seals: every usable seal is open', {'C02'}, mk(lambda x, y: z3.Implies(is1(x), is1(y)))),
                ('open seals: every open seal is usable', {'C02', 'C08', 'C09'}, mk(lambda x, y: z3.Implies(is1(y), is1(x)))),
                ('open seals: each is the seal of its own cell', {'C08'}, mk(lambda x, y: z3.Implies(z3.And(is1(x), is1(y)), x == y)))]

    # ------------------------------------------------------------ return
    def finish(self, st, v):
        ex, g, S = self.ex, st.g, self.ex.S
        from contracts import try_cases
        for s, good, p in try_cases(ex, st, v, 0):
            if good: self.ret_ok(s)
            else: self.ret_err(s, p)

    def ret_ok(self, st):
        ex, g = self.ex, st.g
        self.seen('success')
        ex.oblige(st, 'success only after the end of the stream', {'C11'}, g['status'] == 1, assume=False)
        ex.oblige(st, 'success: an error of the reader is returned', {'C11'}, g['status'] != 2, assume=False)
        if self.is_pend(st): self.commit(st, 'return')

    def ret_err(self, st, e):
        ex, g, S = self.ex, st.g, self.ex.S
        vs = ex.T[self.err_ty]['variants']
        if isinstance(e, Agg): cases = [(st, e.var, [ex.term(x) for x in e.f])]
        else:
            cases = []
            rest = st
            for k, v in enumerate(vs):
                if rest is None: break
                a, rest = ex.branch(rest, S.is_variant(e, k))
                if a is not None: cases.append((a, k, [S.field(e, k, q) for q in range(len(v['fields']))]))
        for s, k, f in cases: self.ret_err1(s, vs[k]['name'], {x['name']: y for x, y in zip(vs[k]['fields'], f)}, f)

    def ret_err1(self, st, var, nf, f):
        ex, g, S = self.ex, st.g, self.ex.S
        self.seen('error ' + var)
        ob = lambda nm, props, x: ex.oblige(st, 'error %s: %s' % (var, nm), props, x, assume=False)
        pend = self.is_pend(st)
        status = z3.simplify(g['status'])
        stat = status.as_long() if z3.is_int_value(status) else None
        if stat == 2:
            ob('an error of the reader is returned', {'C11', 'C10'}, z3.And(B(var == 'Stream'), f[0] == S.uf('dyn', [g['err']], f[0].sort()) if var == 'Stream' else B(False)))
            return
        if not pend:
            ob('nothing is wrong', {'C09', 'C10'}, B(False)); return
        b = self.blk(st)
        conds = self.conds(st, b)
        ob('no effect of the rejected operation is delivered', {'C06'}, z3.And(z3.Not(g['wit']), z3.Not(g['op']), z3.Not(g['seals']), g['S'] == g['S0']))
        c = st.fork()
        for nm, props, x in conds: c.assume(x)
        ex.oblige(c, 'error %s: the operation is invalid' % var, {'C09', 'C10'}, B(False), assume=False)
        c2 = st.fork()
        for nm, props, x in conds:
            c2.assume(x)
        V = {nm: x for nm, _, x in conds}
        i, j = z3.Int('i!e'), z3.Int('j!e')
        G = g['G']
        if var == 'NoCodexCommitment':
            ob('a wrong codex id', {'C10'}, z3.And(b.first, z3.Not(V['the first operation commits to the codex'])))
        elif var == 'NoWitness':
            ob('operation id and the absence of a witness', {'C10'}, z3.And(f[0] == b.opid, z3.Not(b.haswit), b.nin > 0))
        elif var == 'SealUnknown':
            ar = ex.varr(b.ins)
            x = z3.Exists([i], z3.And(0 <= i, i < b.nin, b.inaddr(i) == f[0], z3.Or(S.is_variant(z3.Select(G, f[0]), 0), z3.Exists([j], z3.And(0 <= j, j < i, b.inaddr(j) == f[0]), patterns=[z3.Select(ar, j)]))), patterns=[z3.Select(ar, i)])
            ob('the address of an input with no open seal', {'C10'}, x)
        elif var == 'SealsNotClosed':
            m = self.msg(b.opid)
            ob('operation id', {'C10'}, f[1] == b.opid)
            ob('id of the witness', {'C10'}, z3.And(b.haswit, f[0] == self.pubid(b.pub)))
            e = f[2]
            es = e.sort()
            names = [es.constructor(k).name().split('.')[-1] for k in range(es.num_constructors())]
            ki, kc, kp = [[q for q, n in enumerate(names) if n == w][0] for w in ('NotIncluded', 'Client', 'Published')]
            ar = ex.varr(b.ins)
            seal = lambda i: ex.some_of(z3.Select(G, b.inaddr(i)))
            cv = self.convolve(b.cli, m)
            vc = self.commitment(b.pub, self.okv(cv))
            ci = z3.And(S.is_variant(e, ki), self.F(e, 1, ki) == self.pubid(b.pub), z3.Exists([i], z3.And(0 <= i, i < b.nin, self.F(e, 0, ki) == seal(i), z3.Not(self.included(seal(i), m, b.wit))), patterns=[z3.Select(ar, i)]))
            cc = z3.And(S.is_variant(e, kc), S.is_variant(cv, 1), self.F(e, 0, kc) == self.F(cv, 0, 1)) if isinstance(cv.sort(), z3.DatatypeSortRef) else B(False)
            cp = z3.And(S.is_variant(e, kp), self.ok(cv), S.is_variant(vc, 1), self.F(e, 0, kp) == self.F(vc, 0, 1)) if isinstance(vc.sort(), z3.DatatypeSortRef) else B(False)
            ob('the error of the seal protocol', {'C10'}, z3.Or(ci, cc, cp))
        elif var == 'SealsDefinitionMismatch':
            ob('operation id', {'C10'}, nf['opid'] == b.opid)
            p = z3.Const('p!e', b.D.sort().domain()); t = z3.Const('t!e', self.tok_sort())
            rep, dfn, src = nf['reported'], nf['defined'], nf['sources']
            rep, dfn, src = named(ex, st, rep), named(ex, st, dfn), named(ex, st, src)
            ob('there is a mismatch', {'C10'}, z3.Not(V['each reported seal definition matches the token of its cell']))
            ob('reported tokens are complete', {'C10'}, z3.ForAll([p], z3.Implies(b.has(p), rep[self.tok(b.df(p))])))
            ob('reported tokens are right', {'C10'}, z3.ForAll([t], z3.Implies(rep[t], z3.Exists([p], z3.And(b.has(p), self.tok(b.df(p)) == t), patterns=[z3.Select(b.D, p)]))))
            ar = ex.varr(b.outs)
            ob('tokens of the cells are complete', {'C10'}, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.nout), dfn[b.outauth(i)])))
            ob('tokens of the cells are right', {'C10'}, z3.ForAll([t], z3.Implies(dfn[t], z3.Exists([i], z3.And(0 <= i, i < b.nout, b.outauth(i) == t), patterns=[z3.Select(ar, i)]))))
            strs = src.sort().range()
            iters.enum_facts(ex, st, b.D)
            ob('sources of the seals', {'C10'}, z3.ForAll([p], z3.Select(src, p) == z3.If(b.has(p), S.cons(strs, 1, [S.uf('to_string', [b.df(p)], S.un('str'))]), S.cons(strs, 0, []))))
        elif var == 'Vm':
            v = self.vres(st, b)
            ob('the error of the codex', {'C10'}, z3.And(z3.Not(b.known), z3.Not(self.ok(v)), S.field(v, 1, 0) == f[0] if isinstance(v.sort(), z3.DatatypeSortRef) else B(False)))
        elif var == 'Stream': ob('there was no error of the reader', {'C10'}, B(False))
        else: raise Unsupported('unknown error ' + var)
        # a failure of the codex ends the evaluation with its error
        
def run(prog):
    from execu import Exec
    ex = Exec(prog)
    fn = find_root(prog)
    api = Api(ex, fn)
    ex.monitor = api
    ex.contracts = [api.contract, std_contract]
    st, args = api.start()
    for s, v in ex.call_body(st, fn, args): api.finish(s, v)
    if api.guess:
        for o in ex.obls: o.taint = tuple(sorted(set(o.taint or ()) | {'a guess about which seals are open'}))
    return ex, api

if __name__ == '__main__':
    import sys, time
    t = time.time()
    sys.setrecursionlimit(20000)
    p = Program(sys.argv[1])
    ex, api = run(p)
    print('%.1fs' % (time.time() - t), len(ex.obls), 'obligations', api.cover)
    print('feas', ex.feas_n, '%.1f' % ex.feas_time)
    import execu
    if execu.PROF:
        pr = execu.PROF[1:]
        from collections import defaultdict
        d = defaultdict(lambda: [0, 0.0])
        for x in pr: d[(x[1], x[2])][0] += 1; d[(x[1], x[2])][1] += x[0]
        for k, v in d.items(): print(k, v)
        for x in sorted(pr, reverse=True)[:40]: print(x)
    import discharge as D
    t = time.time()
    D.discharge(ex.obls, list(ex.S.global_facts) + ex.axioms)
    print('discharged in %.1f' % (time.time() - t))
    from collections import Counter
    c = Counter((o.status, o.name, ','.join(sorted(o.props)), bool(o.taint)) for o in ex.obls)
    for k, v in sorted(c.items()): print(v, *k)
    for o in sorted(ex.obls, key=lambda o: -o.time)[:10]: print('%.2f' % o.time, o.name, o.status, o.solver)
    print(Counter(ex.used_contracts))
    print(ex.executed)
