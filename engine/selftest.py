"""Validation of the verifier and of its trusted contracts against the real standard library: selftest.py DUMP RUNS [NAME...]

DUMP is the MIR of the crate selftest/, RUNS the output of its runner (real executions). For each program: a claim which the
verifier proves must be true in every real execution, and on the arguments of a real execution the verifier must not exclude the
result (value or panic) which it really had."""
import sys, json, time, collections, multiprocessing as mp
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import z3
from core import *
from contracts import contract as std_contract, m_has
import iters, parts, execu
import discharge as D

def is_(ex, t, ti, j):
    """formulas saying that the value t of type ti is the value which was printed as j"""
    S, T = ex.S, ex.T
    ti = ex.strip(ti); ty = T[ti]
    if not z3.is_expr(t): t = ex.term(t)
    k = ty['k']
    if k in ('uint', 'int'): return [t == j]
    if k == 'bool': return [t if j else z3.Not(t)]
    if k == 'tuple':
        return [f for n, x in enumerate(ty['tys']) for f in is_(ex, S.field(t, 0, n), x, j[n])]
    if k == 'array':
        c = S.arr_content(t, S.sort(ty['ty']))
        return [f for n, x in enumerate(j) for f in is_(ex, z3.Select(c, n), ty['ty'], x)]
    p = ty['path']
    if p == 'core::option::Option':
        if j is None: return [S.is_variant(t, 0)]
        return [S.is_variant(t, 1)] + is_(ex, S.field(t, 1, 0), ty['args'][0], j[0])
    if p == 'core::result::Result':
        v = 0 if 'ok' in j else 1
        return [S.is_variant(t, v)] + is_(ex, S.field(t, v, 0), ty['args'][v], j['err' if v else 'ok'])
    if p == 'alloc::vec::Vec':
        return [ex.vlen(t) == len(j)] + [f for n, x in enumerate(j) for f in is_(ex, z3.Select(ex.varr(t), n), ty['args'][0], x)]
    if 'btree' in p:
        ks = [x[0] for x in j] if 'BTreeMap' in p else j
        q = z3.Const('q!', t.sort().domain())
        out = [iters.m_size(ex, t) == len(j)]
        kv = [z3.FreshConst(t.sort().domain(), 'key') for _ in ks]
        for n, x in enumerate(ks):
            out += is_(ex, kv[n], ty['args'][0], x) + [iters.m_key(ex, t, z3.IntVal(n)) == kv[n], m_has(ex, t, kv[n])]
            if 'BTreeMap' in p: out += is_(ex, ex.some_of(z3.Select(t, kv[n])), ty['args'][1], j[n][1])
        if z3.is_int(q): out.append(z3.ForAll([q], z3.Implies(m_has(ex, t, q), z3.Or([q == x for x in kv])), patterns=[z3.Select(t, q)]))
        return out
    raise Unsupported(ty['name'])

def one(a):
    name, = a
    t0 = time.time()
    r = dict(name=name, status='', bad=[], runs=0, time=0.0)
    try:
        ex = execu.Exec(PROG)
        ex.monitor = parts.Mon()
        ex.contracts = [std_contract]
        root = [x for x in PROG.roots if x['name'] == name][0]
        fn = PROG.fns[root['body']]
        args = [z3.Const('arg%d' % k, ex.S.sort(fn['locals'][k + 1]['ty'])) for k in range(fn['argc'])]
        st = State()
        for k, x in enumerate(args): ex.typefacts(st, x, fn['locals'][k + 1]['ty'])
        rets = [(s, v) for s, v in ex.call_body(st, fn, args)]
        rty = fn['locals'][0]['ty']
        if name[0] in 'tf':
            for s, v in rets: ex.oblige(s, 'true', {'T'}, ex.term(v), assume=False)
        glob = list(ex.S.global_facts) + ex.axioms
        D.discharge(ex.obls, glob, 1)
        op = [o for o in ex.obls if o.status != 'proved']
        proved = not op
        r['status'] = ('proved' if proved else 'tainted' if all(o.taint for o in op) else 'open: ' + op[0].name) if name[0] in 'tf' else 'executed'
        if name[0] == 'f' and proved: r['bad'].append('a false claim is proved')
        pans = [o for o in ex.obls if o.kind == 'panic']
        decided = 0
        for js, res in RUNS.get(name, []):
            r['runs'] += 1
            js = json.loads(js)
            fs = [f for k, x in enumerate(args) for f in is_(ex, x, fn['locals'][k + 1]['ty'], js[k])]
            sure = False
            def refuted(pc, more):
                s = execu.mk_solver(3_000_000)
                for f in glob + list(pc) + fs + more: s.add(f)
                return s.check() == z3.unsat
            if res == 'panic':
                if not any(not refuted(o.pc, [z3.Not(o.goal)]) for o in pans): r['bad'].append('excluded: panic on %s' % js)
                decided += all(refuted(s.pc, []) for s, v in rets)
            else:
                j = json.loads(res)
                if all(refuted(s.pc, is_(ex, ex.term(v), rty, j)) for s, v in rets): r['bad'].append('excluded: %s on %s' % (res, js))
                # how precise the verifier is: nothing else is possible
                decided += all(refuted(s.pc, [z3.Not(z3.And(is_(ex, ex.term(v), rty, j)))]) for s, v in rets)
                if name[0] == 't' and j is not True: r['bad'].append('false in reality on %s' % js)
        r['exact'] = decided
    except Unsupported as e: r['status'] = 'unsupported: ' + str(e)[:100]
    except Exception as e: r['status'] = 'internal: %s %s' % (type(e).__name__, str(e)[:100])
    r['time'] = time.time() - t0
    return r

def main():
    global PROG, RUNS
    sys.setrecursionlimit(20000)
    PROG = Program(sys.argv[1])
    RUNS = {}
    for l in open(sys.argv[2]):
        n, a, v = l.rstrip('\n').split('\t')
        RUNS.setdefault(n, []).append((a, v))
    names = sys.argv[3:] or list(RUNS)
    bad = 0; c = collections.Counter()
    with mp.get_context('fork').Pool(int(__import__('os').environ.get('PROCS', '8'))) as pool:
        for r in pool.imap(one, [(n,) for n in names], chunksize=1):
            c[r['name'][0] + ' ' + r['status'].split(':')[0]] += 1
            c['runs'] += r['runs']; c['exact'] += r.get('exact', 0)
            low = r.get('exact') is not None and r['runs'] and r['exact'] < 0.7 * r['runs'] and 'LOW' in __import__('os').environ
            if r['bad'] or low or not (r['name'][0] == 't' and r['status'] == 'proved' or r['name'][0] == 'f' and r['status'][:4] in ('open', 'tain') or r['name'][0] == 'o' and r['status'] == 'executed') or len(sys.argv) > 3:
                print('%-22s %s (%d runs, %s exact, %.0f s)' % (r['name'], r['status'], r['runs'], r.get('exact'), r['time']), flush=True)
            for b in r['bad'][:3]: print('    WRONG', b[:300], flush=True)
            bad += bool(r['bad'])
    print(dict(c), 'WRONG: %d' % bad)
    sys.exit(1 if bad else 0)

if __name__ == '__main__': main()
