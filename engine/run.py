"""Runs the verifier for one property: symbolic execution of the real code (its MIR), generation of the obligations and their
discharging. Writes a JSON report; the verdict is made by tools/check.py."""
import sys, json, time, traceback, os
import z3
from core import *
import discharge as D

PARTS = {'C12': 'bitcoin', 'C13': 'bitcoin', 'C14': 'strict', 'C15': 'clone', 'C18': 'serde', 'C20': 'errors'}
MUST = {'evaluate': ['accepted: ', 'success', 'apply_witness', 'apply_operation', 'apply_seals', 'error '],
        'bitcoin': ['auth_token', 'resolve', 'to_src'], 'strict': ['strict_encode', 'strict_decode'],
        'clone': ['clone'], 'serde': ['serialize', 'deserialize', 'visit_seq', 'visit_map', 'identifier'],
        'errors': ['the text of ', 'the text fails']}

def constants(prog):
    """integer constants of the code under verification: sizes at which its behaviour may change"""
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'const' and x.get('c') == 'int': put(x['v'])
            if x.get('k') == 'switch':
                for v, _ in x['vs']: put(v)
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    def put(v):
        try: v = int(v)
        except ValueError: return
        if 2 <= v <= 70000: out.add(v)
    for f in prog.fns.values():
        if f.get('local') and ('evaluate' in f['path'] or '::seals::' in f['path']): walk(f['blocks'])
    return sorted(out)

def main():
    dump, prop, out = sys.argv[1:4]
    wall = float(sys.argv[4]) if len(sys.argv) > 4 else 300.0
    smtdir = sys.argv[5] if len(sys.argv) > 5 else None
    sys.setrecursionlimit(20000)
    t0 = time.time()
    part = PARTS.get(prop, 'evaluate')
    rep = {'property': prop, 'part': part, 'supported': True, 'reason': None, 'obligations': []}
    try:
        prog = Program(dump)
        rep['constants'] = constants(prog)
        if part == 'evaluate':
            import api
            ex, a = api.run(prog)
        else:
            import parts
            ex = getattr(parts, part)(prog)
    except Unsupported as e:
        rep['supported'] = False
        rep['reason'] = str(e)[:500]
        rep['trace'] = traceback.format_exc(limit=-3)[-1500:]
        json.dump(rep, open(out, 'w')); return
    except Exception as e:
        # a failure of the tool on a shape of code which it was not made for: undecided, never an alarm
        rep['supported'] = False
        rep['reason'] = 'internal: %s: %s' % (type(e).__name__, str(e)[:300])
        rep['trace'] = traceback.format_exc(limit=-4)[-2500:]
        json.dump(rep, open(out, 'w')); return
    rep['t_exec'] = time.time() - t0
    key = 'PANIC' if prop == 'C16' else prop
    mine = [o for o in ex.obls if key in o.props]
    lemmas = [o for o in ex.obls if o.kind == 'invariant' and key not in o.props]
    if prop == 'C16':
        # each place of the code which could panic: discharged by an obligation (above) or by a callee which never panics
        for where, name, how in sorted(ex.sites):
            mine.append(Obligation('no-panic: %s at %s (%s)' % (name, where, how), ['PANIC'], [], z3.BoolVal(True), where, (), 'site'))
    todo = mine + lemmas
    glob = list(ex.S.global_facts) + ex.axioms
    t1 = time.time()
    D.discharge(todo, glob, 8, t0 + wall)
    # what z3 leaves open is given to cvc5
    left = [o for o in todo if o.status == 'failed']
    for i, r, t in D.second(left[:48], glob, 5, 8, t0 + wall):
        left[i].time += t
        if r == 'unsat': left[i].status, left[i].solver = 'proved', 'cvc5'
    rep['t_solve'] = time.time() - t1
    if os.environ.get('VERIF_SECOND'):
        # thorough: the same obligations once more, by a solver which shares nothing with the first one
        again = [o for o in todo if o.status == 'proved' and o.solver.startswith('z3')]
        n = {}
        for i, r, t in D.second(again, glob, 20, 8, t0 + wall + 240):
            n[r] = n.get(r, 0) + 1
            if r == 'sat': again[i].status, again[i].solver = 'failed', 'z3 and cvc5 disagree'; again[i].taint = tuple(again[i].taint) + ('the solvers disagree',)
        rep['second'] = n
    # vacuity: each kind of event must be reachable in the verifier's eyes
    vac = []
    for ev in MUST[part]:
        if any(o.status != 'proved' for o in todo): break  # (not proved anyway)
        os_ = [o for o in ex.obls if o.name.startswith(ev)]
        step = max(1, len(os_) // 6)
        if not any(ok for _, ok in D.vacuity([(o.name, o.pc) for o in os_[::step]][:8], glob, 400_000)): vac.append(ev.strip())
    rep['vacuous'] = vac
    n = 0
    for k, o in enumerate(todo):
        r = {'name': o.name, 'kind': o.kind, 'own': k < len(mine), 'status': o.status, 'time': round(o.time, 3), 'solver': o.solver,
             'taint': list(o.taint), 'where': o.where if isinstance(o.where, (str, type(None))) else str(o.where), 'hyps': len(o.pc)}
        if o.status == 'failed' and smtdir and n < 3:
            n += 1
            p = os.path.join(smtdir, 'obligation-%d.smt2' % n)
            os.makedirs(smtdir, exist_ok=True)
            try: open(p, 'w').write(D.smt2(o, glob)); r['smt2'] = p
            except Exception: pass
        rep['obligations'].append(r)
    rep['executed'] = sorted(ex.executed) if not isinstance(ex.executed, dict) else sorted(ex.executed)
    rep['contracts'] = {str(k): v for k, v in ex.used_contracts.items()}
    rep['axioms'] = len(ex.axioms)
    rep['t_total'] = time.time() - t0
    json.dump(rep, open(out, 'w'))

main()
