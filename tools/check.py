#!/usr/bin/env python3
"""Decides one property: tools/check.py PROPERTY quick|thorough      (tools/check.py setup builds everything beforehand)

1. dumps the MIR of /repo's current working tree (driver/),
2. runs the deductive verifier on it (engine/): contracts, obligations, discharging,
3. if an obligation fails, looks for a failing input on the real code (replay/),
4. writes evidence/PROPERTY.json and ends with the verdict.
"""
import sys, os, json, time, signal, subprocess, shutil, threading, hashlib, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
PY = '/opt/veriftools/pyvenv/bin/python3' if os.path.exists('/opt/veriftools/pyvenv/bin/python3') else shutil.which('python3-vt') or sys.executable
LOG = []
PARTS = {'C12': 'bitcoin', 'C13': 'bitcoin', 'C14': 'strict', 'C15': 'clone', 'C18': 'serde', 'C20': 'errors'}
PROPS = ['C%02d' % i for i in range(1, 21) if i != 19]

def env(**kw):
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = e['HOME'] + '/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET_DIR', 'RUSTDOCFLAGS'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e

CHILDREN, STOPPED = [], []
def stop(p):
    """end a process which this script has started, with all that it has started"""
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def run(cmd, cwd, timeout, **kw):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    if 'VRICH' in kw:
        CHILDREN.append(p)
        if STOPPED: stop(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        stop(p); p.communicate()
        rc, out, err = -1, '', 'timed out after %d s' % timeout
    LOG.append('$ %s   (%s, exit %s, %.1f s)\n%s' % (' '.join(cmd), cwd, rc, time.time() - t, '' if rc == 0 else (out + err)[-3000:]))
    return rc, out, err

# ------------------------------------------------------------------------------------------------ building
def build_driver(res):
    rc, _, err = run(['cargo', 'build', '--offline', '--locked'], V + '/driver', 400, RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=B + '/driver')
    res['driver'] = rc == 0

MIRFLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Adeprecated'
def mir_env(**kw):
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    return dict(RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=B + '/mir', LD_LIBRARY_PATH=sysroot + '/lib', RUSTFLAGS=MIRFLAGS, **kw)

def build_deps(res):
    """the dependencies, checked by the compiler which the driver uses; the crate itself is compiled by the driver afterwards"""
    rc, _, err = run(['cargo', 'check', '--lib', '--all-features', '--offline', '--locked'], REPO, 600, **mir_env())
    res['deps'] = rc == 0

def build_replay(res):
    src = B + '/replay-src'
    os.makedirs(src + '/src', exist_ok=True)
    toml = open(V + '/replay/Cargo.toml').read().replace('path = "/repo"', 'path = "%s"' % REPO)
    for n in os.listdir(V + '/replay/src'): put(src + '/src/' + n, open(V + '/replay/src/' + n).read())
    put(src + '/Cargo.toml', toml)
    put(src + '/Cargo.lock', open(V + '/replay/Cargo.lock').read())
    # never rely on the times of the files of the crate: always compile it again
    run(['cargo', 'clean', '-p', 'rgb-core', '-p', 'replay', '--offline', '-q'], src, 60, CARGO_TARGET_DIR=B + '/replay')
    rc, _, err = run(['cargo', 'build', '--offline'], src, 600, CARGO_TARGET_DIR=B + '/replay')
    res['replay'] = rc == 0
    if rc: res['replay_err'] = err[-3000:]

def put(path, text):
    try:
        if open(path).read() == text: return
    except OSError: pass
    open(path, 'w').write(text)

def par(*fs):
    ts = [threading.Thread(target=f) for f in fs]
    for t in ts: t.start()
    return ts

def dump(res):
    out = os.path.join(B, 'dump-%d.json' % os.getpid())
    e = mir_env(RUSTC_WORKSPACE_WRAPPER=B + '/driver/debug/mirdump', MIRDUMP_OUT=out, MIRDUMP_TEXT=out + '.text', MIRDUMP_ARGS=out + '.args')
    run(['cargo', 'clean', '-p', 'rgb-core', '--offline', '--locked', '-q'], REPO, 60, **e)
    rc, _, err = run(['cargo', 'check', '--lib', '--all-features', '--offline', '--locked'], REPO, 600, **e)
    if rc or not os.path.exists(out):
        res['dump_err'] = err[-3000:]
        return None
    return out

CONFIGS = {'without debug assertions': (None, ['-C', 'debug-assertions=off', '-C', 'overflow-checks=on']),
           'default features': (('default', 'std', 'bitcoin', 'bp-core'), []), 'no features': ((), [])}
# features which a part of the properties is about
NEEDS = {'bitcoin': 'bitcoin', 'serde': 'serde'}
def texts(path):
    """MIR text of each function, constants numbered in the order of their use"""
    def canon(t):
        seen = {}
        t = re.sub(r'\balloc\d+', lambda m: seen.setdefault(m.group(0), 'alloc_%d' % len(seen)), t)
        return sorted(t.split('\n\n'))
    return {p: canon(t) for p, t in json.load(open(path))}

def configs(d, part):
    """compiles the crate in its other configurations (same dependencies): -> {name: what differs, error}, [(name, dump)] to be verified too"""
    said, more = {}, []
    try:
        a = json.load(open(d + '.args'))
        here = texts(d + '.text')
    except (OSError, ValueError) as e: return {'': 'not compared (%s)' % e}, []
    def one(name, k):
        feats, extra = CONFIGS[name]
        args, i = [], 0
        x = a['args'][1:]
        while i < len(x):
            if x[i] == '-C' and i + 1 < len(x) and x[i + 1].startswith('incremental='): i += 2; continue
            if x[i] == '--out-dir': args += ['--out-dir', '%s.out%d' % (d, k)]; i += 2; continue
            if x[i] == '--cfg' and x[i + 1].startswith('feature=') and feats is not None and x[i + 1][9:-1] not in feats: i += 2; continue
            args.append(x[i]); i += 1
        o = '%s.config%d' % (d, k)
        os.makedirs('%s.out%d' % (d, k), exist_ok=True)
        e = dict(mir_env(), MIRDUMP_OUT='', MIRDUMP_TEXT=o + '.text')
        for k, v in a['env']: e[k] = v
        rc, _, err = run([B + '/driver/debug/mirdump'] + args + extra, a['cwd'], 120, **e)
        try: there = texts(o + '.text')
        except (OSError, ValueError): said[name] = 'does not compile'; return
        diff = sorted(p for p in there if p not in here or here[p] != there[p])
        if not diff: said[name] = 'the same MIR'; return
        if NEEDS.get(part) and feats is not None and NEEDS[part] not in feats:
            said[name] = 'not concerned'; return
        said[name] = 'verified by itself: %s' % ', '.join(diff[:3])
        e['MIRDUMP_OUT'] = o
        run([B + '/driver/debug/mirdump'] + args + extra, a['cwd'], 120, **e)
        more.append((name, o))
    for t in par(*[lambda n=n, k=k: one(n, k) for k, n in enumerate(CONFIGS)]): t.join()
    for n in CONFIGS: said.setdefault(n, 'not compared')
    return said, sorted(more)

def tidy(d):
    for n in os.listdir(B):
        if n.startswith(os.path.basename(d)): (shutil.rmtree if os.path.isdir(os.path.join(B, n)) else os.remove)(os.path.join(B, n))

# ------------------------------------------------------------------------------------------------ replay
RB = lambda: B + '/replay/debug/replay'
def search(prop, seed, secs, consts, extra=()):
    rc, out, err = run([RB(), 'search', '--prop', prop, '--seed', str(seed), '--secs', str(secs), '--consts', ','.join(map(str, consts)) or '3', *extra], V, secs + 60)
    r = {'cases': 0, 'found': None, 'rc': rc, 'out': out}
    m = re.search(r'^CASES (\d+)', out, re.M)
    if m: r['cases'] = int(m.group(1))
    m = re.search(r'^DISTINCT (\d+)', out, re.M)
    r['distinct'] = int(m.group(1)) if m else 0
    m = re.search(r'^FOUND (.*)$', out, re.M)
    if m:
        r['found'] = m.group(1)
        r['choices'] = re.search(r'^CHOICES (.*)$', out, re.M).group(1)
        r['description'] = out[out.index('CHOICES'):].split('\n', 1)[1]
        # replayed once more, by itself
        rc, o2, _ = run([RB(), 'run', '--prop', prop, '--choices', r['choices'], '--consts', ','.join(map(str, consts)) or '3'], V, 60)
        if rc != 1 and '--noshrink' not in extra:
            # what fails depends on the cases before it: a history of cases in one process, and this history once more
            r['found'] = None
            h = search(prop, seed, min(secs, 40), consts, ('--threads', '1', '--noshrink'))
            if h['found']: return h
        elif rc != 1:
            more = ['--threads', '1', '--noshrink', '--max', str(int(re.search(r'^CASE (.*)$', out, re.M).group(1)) + 1)]
            cmd = [RB(), 'search', '--prop', prop, '--seed', str(seed), '--secs', str(secs + 60), '--consts', ','.join(map(str, consts)) or '3', *more]
            rc, o2, _ = run(cmd, V, secs + 100)
            if 'FOUND ' + r['found'] not in o2: r['found'] = None
            else:
                r['found'] += ' (after the cases before it)'
                r['replay'] = ' '.join(cmd)
    return r

RULE = {'eval': 'random consignments (1-6 operations; valid, and damaged in one way or more; sizes around the constants of the code; non-trivial: at least two operations) evaluated by the real evaluate() with a mock seal protocol and contract recording every call, compared to an executable form of the contracts',
        'codec': 'random operations with seals (mock and bitcoin seal protocols) or random bitcoin seal definitions or errors, taken through the real functions and compared to the contract; non-trivial: with seals or a witness'}

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    res = {}
    if prop == 'setup':
        for t in par(lambda: build_driver(res), lambda: build_deps(res), lambda: build_replay(res)): t.join()
        print(json.dumps(res))
        if not all(res.get(k) for k in ('driver', 'deps', 'replay')): print('\n'.join(LOG)); sys.exit(1)
        return
    work = V + '/evidence/%s-files' % prop
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    thorough = tier == 'thorough'
    ts = par(lambda: build_driver(res), lambda: build_deps(res))
    rts = par(lambda: build_replay(res))
    for t in ts: t.join()
    d = dump(res) if res.get('driver') else None
    rep = {'supported': False, 'reason': 'no MIR of the code: ' + res.get('dump_err', 'the driver is not built')[-300:], 'obligations': []}
    wall = 500 if thorough else 330
    def verify(wall, **kw):
        """verifies the code in each of its configurations which differ"""
        rs = {}
        for t in par(*[lambda n=n, x=x: rs.update({n: verify1(x, n, wall, **kw)}) for n, x in dumps]): t.join()
        r = rs['']
        for n, x in dumps[1:]:
            q = rs[n]
            for ob in q['obligations']: r['obligations'].append(dict(ob, name='%s (%s)' % (ob['name'], n)))
            if not q['supported'] and r['supported']: r.update(supported=False, reason='%s: %s' % (n, q['reason']))
            r['vacuous'] = r.get('vacuous', []) + ['%s (%s)' % (v, n) for v in q.get('vacuous', [])]
        return r
    def verify1(d, cfg, wall, **kw):
        o = os.path.join(B, 'report-%d-%d-%d.json' % (os.getpid(), len(kw), [n for n, _ in dumps].index(cfg)))
        more = 300 if 'VERIF_SECOND' in kw else 0
        rc, out, err = run([PY, V + '/engine/run.py', d, prop, o, str(wall), work + ('/again' if 'VRICH' in kw else '') + ('/' + cfg.replace(' ', '-') if cfg else '')], V + '/engine', wall + 60 + more, **kw)
        r = json.loads(json.dumps(rep0))
        if rc == 0 and os.path.exists(o): r = json.load(open(o))
        else: r['reason'] = 'the verifier gave no answer (%s)' % (err[-300:] or rc)
        if os.path.exists(o): os.remove(o)
        return r
    rep0 = rep
    said, more = configs(d, PARTS.get(prop, 'evaluate')) if d else ({}, [])
    dumps = [('', d)] + more
    if d: rep = verify(wall, **({'VERIF_SECOND': '1'} if thorough else {}))
    for t in rts: t.join()
    have = bool(res.get('replay'))
    if not d and not have:
        print('\n'.join(LOG))
        print('ERROR: %s does not compile' % REPO)
        sys.exit(2)

    def judge(rep):
        own = [x for x in rep['obligations'] if x['own']]
        lem = [x for x in rep['obligations'] if not x['own']]
        failed = [x for x in own if x['status'] == 'failed' and not x['taint']]
        open_ = [x for x in own if x['status'] != 'proved' and x not in failed]
        lopen = [x for x in lem if x['status'] != 'proved']
        why = []
        if not rep['supported']: why.append('outside of the verifier\'s reach: %s' % rep['reason'])
        if open_: why.append('%d obligations could not be decided (%s)' % (len(open_), open_[0]['name']))
        if lopen: why.append('%d supporting invariants are not discharged (%s)' % (len(lopen), lopen[0]['name']))
        if rep.get('vacuous'): why.append('never reached: %s' % ', '.join(rep['vacuous']))
        if rep['supported'] and not own: why.append('no obligation was generated')
        return own, lem, failed, open_, lopen, why, not failed and not why
    own, lem, failed, open_, lopen, why, decided = judge(rep)
    consts = sorted(set([c for c in rep.get('constants', []) if c < 2000][:12] + [256]))
    kind = 'codec' if prop in PARTS else 'eval'
    # the executable form of the contracts on the real code: search for a failing input; on success of the proof a short cross-check of
    # what the proof trusts (the contracts of the dependencies)
    secs = (8 if decided else 90) * (6 if thorough and decided else 2 if thorough else 1)
    # what is not proved is tried once more, with richer (and slower) invariants of nested loops; meanwhile a failing input is looked for
    again = {}
    ths = []
    if d and not decided:
        left = 790 - (time.time() - t0) - 60
        if left > 100: ths = par(lambda: again.update(verify(min(left, 420), VRICH='1')))
    s = search(prop, seed, secs, consts) if have else {'cases': 0, 'distinct': 0, 'found': None, 'out': res.get('replay_err', ''), 'rc': -1}
    if ths and s['found']:
        # (decided already: the verifier is not waited for)
        STOPPED.append(1)
        for p in list(CHILDREN): stop(p)
    for t in ths: t.join()
    if d: tidy(d)
    if again.get('supported') and not s['found'] and not any(x['status'] == 'not attempted' for x in again['obligations']):
        rep = again
        own, lem, failed, open_, lopen, why, decided = judge(rep)
    rpath = 'evidence/%s-files/replay.txt' % prop
    viol = bool(failed) or bool(s['found'])
    if viol:
        L = ['property %s' % prop, '']
        if s['found']:
            L += ['A failing input of the real code: %s' % s['found'], '',
                  'replay with: %s setup && %s   (exit status 1, or FOUND: it fails)' % ('python3 ' + V + '/tools/check.py', s.get('replay') or '%s run --prop %s --choices %s --consts %s' % (RB(), prop, s['choices'], ','.join(map(str, consts)) or '3')), '', s['description']]
        if failed:
            L += ['Obligations which the verifier does not accept:']
            for x in failed: L.append('  %s   at %s   (%s, %s s, %s hypotheses%s)' % (x['name'], x['where'], x['solver'], x['time'], x['hyps'], ', ' + x['smt2'] if x.get('smt2') else ''))
        if not s['found']: L += ['', 'no failing input found in %d cases (%d s)' % (s['cases'], secs)]
        L += ['', 'verifier: %d obligations, %d discharged, %d failed, %d undecided; %s' % (len(own) + len(lem), sum(x['status'] == 'proved' for x in own + lem), len(failed), len(open_) + len(lopen), '; '.join(why))]
        L += ['', s['out'][:2000]]
        open(os.path.join(V, rpath), 'w').write('\n'.join(L))

    known = [l.strip() for l in open(V + '/known_findings.txt')] if os.path.exists(V + '/known_findings.txt') else []
    tb = trusted(rep)
    proved = sum(x['status'] == 'proved' for x in own + lem)
    cov = {'obligations': len(own) + len(lem), 'discharged': proved,
           'checker_cmd': '%s engine/run.py <MIR of %s> %s' % (PY, REPO, prop),
           'trusted_base': tb,
           'own_obligations': len(own), 'supporting_invariants': len(lem),
           'functions_under_contract': rep.get('executed', []),
           'back_ends': count(x['solver'].split(' ')[0] if x.get('solver') else x['status'] for x in own + lem),
           'solver_time_s': round(sum(x['time'] for x in own + lem), 2), 'execution_time_s': round(rep.get('t_exec', 0), 2),
           'samples': [{k: x[k] for k in ('name', 'where', 'status', 'hyps', 'time')} for x in (own[:: max(1, len(own) // 12)])],
           'decided_by_proof': decided,
           'cross_check': {'label': 'bounded (never counted as proved)', 'evaluations': s['cases'], 'distinct_nontrivial': s.get('distinct', 0), 'seconds': secs, 'seed': seed, 'rule': RULE[kind]}}
    if said: cov['other_configurations'] = said
    if rep.get('second'): cov['confirmed_by_cvc5'] = dict(rep['second'], rule='obligations proved by z3, given to cvc5 once more (20 s each); sat would be a disagreement')
    if why: cov['not_decided_by_proof'] = why
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof' if decided or failed else 'exploration',
          'coverage': cov, 'assumptions': tb, 'wall_s': round(time.time() - t0, 1), 'violations': int(viol)}
    if ev['level'] == 'exploration':
        cov.update(evaluations=s['cases'], distinct_nontrivial=s.get('distinct', 0), rule=RULE[kind])
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    if os.environ.get('VERIF_LOG'): print('\n'.join(LOG))
    print('%s: %d obligations, %d discharged (%.1f s), %d of the property itself; %d cases replayed; %s; %.0f s' % (
        prop, len(own) + len(lem), proved, cov['solver_time_s'], len(own), s['cases'], 'proved' if decided else 'NOT proved: ' + ('; '.join(why) or 'failed obligations'), time.time() - t0))
    for l in known:
        if l.startswith('finding: property=%s ' % prop): print('KNOWN-FINDING: ' + l[9:])
    if viol:
        for x in failed[:5]: print('failed obligation: %s at %s' % (x['name'], x['where']))
        print('VIOLATION property=%s replay=%s%s' % (prop, rpath, '' if s['found'] else ' no-failing-input-found'))
        sys.exit(1)

def count(it):
    r = {}
    for x in it: r[x] = r.get(x, 0) + 1
    return r

BASE = ['the Rust compiler\'s front end up to MIR (nightly), and that the MIR built for the dump (mir-opt-level 0) is the code which the stable compiler compiles',
        'this verifier: engine/*.py (symbolic execution of MIR, loop invariants checked inductively) and the solver z3',
        'no loop makes more than 2^62 steps',
        'aliasing: safe Rust only (no unsafe code in the crate); destructors have no effect on the verified state',
        'external implementations (contract API, seal protocol, stream reader, codex) behave as functions of their arguments and terminate without a panic']
def trusted(rep):
    return BASE + ['contract: %s - %s' % (k, v) if v not in (None, True, 1, '') else 'contract: %s' % k for k, v in sorted(rep.get('contracts', {}).items())]

main()
