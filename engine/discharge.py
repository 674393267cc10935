"""Discharging of the obligations: z3 (E-matching, several configurations), each obligation separately, in parallel."""
import z3, time, os, re, shutil, subprocess, tempfile, multiprocessing as mp
from core import *
import execu

OBL, GLOB = [], []
DEADLINE = None

def config(s, k):
    s.set('auto_config', False); s.set('mbqi', False)
    s.set('random_seed', [1, 7, 23, 7, 4][k])
    if k == 1: s.set('smt.qi.eager_threshold', 100.0)
    if k == 2: s.set('smt.arith.solver', 2)

def attempt(o, k, rlimit):
    s = z3.SimpleSolver()
    config(s, k)
    s.set('rlimit', rlimit)
    for f in GLOB: s.add(f)
    for f in o.pc: s.add(f)
    s.add(z3.Not(o.goal))
    return s.check()

def work(ixs):
    ex = execu.Exec.__new__(execu.Exec)
    out = []
    s = execu.mk_solver(3_000_000)
    for f in GLOB: s.add(f)
    stack = []
    tries = {}
    for i in ixs:
        o = OBL[i]
        t = time.time()
        if DEADLINE and t > DEADLINE: out.append((i, 'not attempted', 0.0, '')); continue
        if z3.is_true(z3.simplify(o.goal)) if not z3.is_quantifier(o.goal) else False:
            out.append((i, 'proved', 0.0, 'simplifier')); continue
        n = 0
        while n < len(stack) and n < len(o.pc) and stack[n] is o.pc[n]: n += 1
        if n < len(stack): s.pop(len(stack) - n); del stack[n:]
        for f in o.pc[n:]: s.push(); s.add(f); stack.append(f)
        s.push(); s.add(z3.Not(o.goal)); s.set('rlimit', 1_000_000)
        r = s.check(); s.pop()
        if r == z3.unsat: out.append((i, 'proved', time.time() - t, 'z3')); continue
        st = 'failed'; k = -1
        # the same obligation has failed on several paths: less effort for the others
        tries[o.name] = tries.get(o.name, 0) + 1
        for k in range(5 if tries[o.name] <= 3 else 0):
            r = attempt(o, k, [4_000_000, 8_000_000, 8_000_000, 8_000_000, 16_000_000][k])
            if r == z3.unsat: st = 'proved'; break
        if st == 'failed': tries[o.name] = tries.get(o.name, 0) + 1
        else: tries[o.name] = 0
        out.append((i, st, time.time() - t, 'z3 (%d)' % k))
    return out

def smt2(o, glob):
    """the obligation as a problem for any SMT solver: unsatisfiable if and only if it holds"""
    s = z3.Solver()
    for f in glob: s.add(f)
    for f in o.pc: s.add(f)
    s.add(z3.Not(o.goal))
    # the names of sorts and functions hold characters which other solvers do not read, even when quoted
    names = {}
    return '(set-logic ALL)\n' + re.sub(r'\|[^|]*\|', lambda m: names.setdefault(m.group(0), 'n%d-%s' % (len(names), re.sub(r'[^A-Za-z0-9]', '-', m.group(0)[-24:-1]))), s.to_smt2())

def discharge(obls, glob, procs=8, deadline=None):
    global OBL, GLOB, DEADLINE
    OBL, GLOB, DEADLINE = obls, list(glob), deadline
    n = len(obls)
    if not n: return
    # contiguous pieces share path conditions
    m = max(1, min(procs * 4, n))
    cuts = [list(range(n * k // m, n * (k + 1) // m)) for k in range(m)]
    cuts = [c for c in cuts if c]
    if procs == 1: res = [work(c) for c in cuts]
    else:
        with mp.get_context('fork').Pool(procs) as pool: res = pool.map(work, cuts, chunksize=1)
    for r in res:
        for i, stt, t, sv in r:
            obls[i].status, obls[i].time, obls[i].solver = stt, t, sv

CVC5 = shutil.which('cvc5')
def ask(a):
    i, tlim = a
    if DEADLINE and time.time() > DEADLINE: return i, 'not attempted', 0.0
    t = time.time()
    try:
        fd, p = tempfile.mkstemp('.smt2'); os.close(fd)
        try:
            open(p, 'w').write(smt2(OBL[i], GLOB))
            r = subprocess.run([CVC5, '--tlimit=%d' % (tlim * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tlim + 10).stdout.strip().split('\n')[0]
        finally: os.unlink(p)
    except Exception: r = 'none'
    return i, r if r in ('sat', 'unsat', 'unknown') else 'timeout' if 'timeout' in r else 'none', time.time() - t

def second(obls, glob, tlim, procs=8, deadline=None):
    """the answers of another solver for the obligations"""
    global OBL, GLOB, DEADLINE
    OBL, GLOB, DEADLINE = obls, list(glob), deadline
    if not CVC5 or not obls: return []
    with mp.get_context('fork').Pool(procs) as pool: return pool.map(ask, [(i, tlim) for i in range(len(obls))], chunksize=1)

def vacuity(states, glob, rl=3_000_000):
    """a state which is refuted would make everything below it hold vacuously"""
    out = []
    for name, pc in states:
        s = execu.mk_solver(rl)
        for f in glob: s.add(f)
        for f in pc: s.add(f)
        out.append((name, s.check() != z3.unsat))
    return out
