#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property of /repo's current tree.

Every unit of the property is compiled from /repo's sources, its contracts
are handed to cbmc / goto-instrument, and each generated obligation must be
accepted.  Exit 0: all hold.  Exit 1 with a VIOLATION line: one does not."""
import json, os, re, resource, shlex, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import units as U

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = time.time() + float(os.environ.get('VERIF_BUDGET', '800' if TIER == 'quick' else '3300'))
T0 = time.time(); TRACE_S = 250 if TIER == 'quick' else 1500   # when searching for failing inputs ends
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
H = os.path.join(HERE, 'harness')
INC = ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s' % H]
BASE = ['-DNDEBUG', '-std=c99'] + INC
CHECKS = ['--no-signed-overflow-check', '--no-undefined-shift-check', '--no-malloc-may-fail', '--object-bits']

MEM = int(float(os.environ.get('VERIF_MEM_GB', '14')) * 2**30)
_procs = set(); _plock = threading.Lock(); STOP = threading.Event()
TRACES = threading.Semaphore(2)              # counterexample searches are memory-hungry
def _limit(): resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
def stop_all():
    """a violation is confirmed: the other units need not finish"""
    STOP.set()
    with _plock:
        for p in _procs:
            try: os.killpg(p.pid, 9)
            except OSError: pass
def run(cmd, timeout, **kw):
    if STOP.is_set(): return 'timeout', '', ''
    timeout = max(1.0, min(timeout, DEADLINE - time.time()))
    if cmd[0] == 'cbmc': kw['preexec_fn'] = _limit
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    with _plock: _procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return 'timeout', '', ''
    finally:
        with _plock: _procs.discard(p)

class Res:
    """outcome of one verifier run of one unit"""
    def __init__(s): s.status = 'error'; s.props = []; s.why = ''; s.time = 0.0; s.trace = None; s.solver = ''; s.cmd = ''

def repo_srcs(u): return [os.path.join(REPO, x) for x in u.srcs]
def native_srcs(u): return [os.path.join(H, x) for x in [u.harness] + u.nextra] + repo_srcs(u) + [os.path.join(H, 'vf_native.c')]
def h_srcs(u): return [os.path.join(H, x) for x in [u.harness] + u.extra + ['vf_in.c']]

def compile_goto(u, work, mode, trace=False):
    """goto binary of the harness and /repo's sources; contracts applied"""
    defs = ['-DVF_CBMC'] + (['-DVF_PROOF'] if mode == 'proof' else ['-DVF_BND=%d' % u.bnd]) + ['-D' + d for d in u.defs]
    if trace: defs.append('-DVF_NOREACH')
    if mode == 'proof' and u.loops: defs.append('-DPB_VERIFY')
    out = os.path.join(work, '%s.%s%s.gb' % (u.name, mode, '.t' if trace else ''))
    objs = []
    for i, x in enumerate(u.srcs):          # sources whose callees are replaced by contracts get defines of their own
        if x not in u.srcdefs and x not in u.srccalls: objs.append(os.path.join(REPO, x)); continue
        objs.append('%s.%d.o' % (out, i))
        rc, o, e = run(['goto-cc'] + BASE + defs + ['-D' + y for y in u.srcdefs.get(x, [])] + ['-c', os.path.join(REPO, x), '-o', objs[-1]], 120)
        if rc != 0: return None, 'goto-cc: ' + (e or o)[-1500:]
        if mode == 'proof' and x in u.srccalls:      # recursive calls become calls of the contract
            rc, o, e = run(['goto-instrument'] + sum([['--replace-calls', y] for y in u.srccalls[x]], []) + [objs[-1], objs[-1] + '.r'], 60)
            if rc != 0: return None, 'goto-instrument: ' + (e + o)[-1500:]
            objs[-1] += '.r'
    cmd = ['goto-cc'] + BASE + defs + ['--function', u.entry, '-o', out] + h_srcs(u) + objs
    rc, o, e = run(cmd, 120)
    if rc != 0: return None, 'goto-cc: ' + (e or o)[-1500:]
    if mode == 'proof' and (u.enforce or u.replace or u.loops):
        out2 = out + '.c'
        cmd = ['goto-instrument', '--dfcc', u.entry]
        for f in u.enforce: cmd += ['--enforce-contract', f]
        for f in u.replace: cmd += ['--replace-call-with-contract', f]
        if u.loops: cmd += ['--apply-loop-contracts'] + u.loopflags
        rc, o, e = run(cmd + [out, out2], 180)
        if rc != 0: return None, 'goto-instrument: ' + (e + o)[-1500:]
        out = out2
    out3 = out + '.d'
    rc, o, e = run(['goto-instrument', '--drop-unused-functions', out, out3], 120)
    if rc != 0: return None, 'goto-instrument: ' + (e + o)[-1500:]
    return out3, ''

def cbmc_cmd(u, gb, mode, extra=()):
    cmd = ['cbmc', gb] + CHECKS + [str(u.objbits)]
    if u.solver in ('cadical',): cmd += ['--sat-solver', 'cadical']
    elif u.solver in ('cvc5', 'z3'): cmd += ['--' + u.solver]
    uw = u.unwind if mode == 'proof' else (u.bunwind or u.unwind)
    if uw: cmd += ['--unwind', str(uw), '--unwinding-assertions']
    for x in (u.unwindset if mode == 'proof' else (u.bunwindset or u.unwindset)): cmd += ['--unwindset', x]
    return cmd + u.flags + list(extra)

def parse(out):
    """cbmc --json-ui output -> (list of results, error text)"""
    try: js = json.loads(out)
    except Exception:
        return None, 'unparsable cbmc output: ' + out[-600:]
    err = ''
    for o in js:
        if 'result' in o: return o['result'], ''
        if 'property' in o and 'trace' in o: return [dict(o, status='FAILURE')], ''
        if o.get('cProverStatus') == 'success': return [], ''
        if o.get('messageType') == 'ERROR': err += o.get('messageText', '') + '; '
    return None, err or 'no result'

def verify(u, work, mode, timeout, trace=False):
    r = Res(); t0 = time.time()
    gb, why = compile_goto(u, work, mode, trace)
    if not gb: r.why = why; return r
    extra = ['--json-ui'] + (['--trace', '--stop-on-fail'] if trace else [])
    cmd = cbmc_cmd(u, gb, mode, extra); r.cmd = ' '.join(cmd); r.solver = u.solver
    if u.solver == 'cvc5-int': return verify_int(u, gb, work, r, timeout, t0)
    if u.split and not trace:
        return verify_split(u, cmd, r, timeout, t0)
    rc, o, e = run(cmd, timeout)
    r.time = time.time() - t0
    if rc == 'timeout': r.status = 'timeout'; r.why = 'solver time limit'; return r
    res, err = parse(o)
    if res is None: r.why = err + e[-400:]; return r
    r.props = res; classify(r)
    if trace and r.status != 'fail' : r.why = 'no failure'
    return r

def verify_split(u, cmd, r, timeout, t0):
    """one solver run per user assertion, one for everything generated"""
    base = [c for c in cmd if c != '--json-ui']
    rc, o, e = run(base + ['--show-properties', '--json-ui'], 60)
    try: props = [p for x in json.loads(o) if 'properties' in x for p in x['properties']]
    except Exception: r.why = 'show-properties failed'; return r
    user = [p['name'] for p in props if re.search(r'^(?!__CPROVER).*\.assertion\.\d+$', p['name'])]
    rest = [p['name'] for p in props if p['name'] not in user]
    groups = [[x] for x in user] + ([rest] if rest else [])
    got = []; bad = ''
    def one(g):
        c = cmd + sum([['--property', x] for x in g], [])
        return run(c, timeout)
    with ThreadPoolExecutor(min(JOBS, len(groups))) as ex:
        for g, (rc, o, e) in zip(groups, ex.map(one, groups)):
            if rc == 'timeout': bad = 'timeout'; r.why = 'solver time limit on ' + ','.join(g[:3]); continue
            res, err = parse(o)
            if res is None: bad = bad or 'error'; r.why = err + e[-300:]; continue
            got += [x for x in res if x['property'] in g]
    r.props = got; r.time = time.time() - t0
    classify(r)
    if bad and r.status == 'ok': r.status = bad
    return r

def verify_int(u, gb, work, r, timeout, t0):
    """arithmetic a SAT solver cannot do: each assertion goes to cvc5, as a problem over the integers (modulo 2^64)"""
    rc, o, e = run(['cbmc', gb, '--show-properties', '--json-ui'], 60)
    try: props = [p for x in json.loads(o) if 'properties' in x for p in x['properties'] if re.search(r'^(?!__CPROVER).*\.assertion\.\d+$', p['name'])]
    except Exception: r.why = 'show-properties failed'; return r
    for p in props:
        f = os.path.join(work, u.name + '.smt2')
        rc, o, e = run(cbmc_cmd(u, gb, 'proof', ['--property', p['name'], '--slice-formula', '--smt2', '--outfile', f]), timeout)
        if not os.path.exists(f): r.why = 'no formula: ' + (o + e)[-300:]; return r
        t = re.sub(r'\(set-logic [^)]*\)', '(set-logic ALL)', ''.join(l for l in open(f) if not l.startswith('(get-value')))
        open(f, 'w').write(t)
        rc, o, e = run(['cvc5', '--solve-bv-as-int=sum', f], timeout); os.unlink(f)
        r.props.append(dict(property=p['name'], description=p['description'], status={'unsat': 'SUCCESS', 'sat': 'FAILURE'}.get((o.split() or [''])[0], 'UNKNOWN')))
    r.time = time.time() - t0; classify(r); return r

def classify(r):
    fails = []; ok = 0; reach = 0; unreached = []; unwound = []
    for p in r.props:
        d = p.get('description', '')
        if d.startswith('REACH'):
            reach += 1
            if p['status'] == 'SUCCESS': unreached.append(d)
        elif p['status'] == 'SUCCESS': ok += 1
        elif p['status'] == 'FAILURE' and '.unwind.' in p['property'] : unwound.append(p)   # a loop without a contract or beyond its bound
        elif p['status'] == 'FAILURE': fails.append(p)
        else: fails.append(p) if p['status'] not in ('UNKNOWN', 'ERROR') else None
    unknown = [p for p in r.props if p['status'] in ('UNKNOWN', 'ERROR') and not p.get('description', '').startswith('REACH')]
    r.fails, r.ok, r.reach, r.unreached = fails, ok, reach, unreached
    if fails: r.status = 'fail'; r.why = '; '.join('%s: %s' % (p['property'], p.get('description', '')) for p in fails[:4])
    elif unwound: r.status = 'error'; r.why = 'loop not covered: ' + unwound[0]['property']
    elif unknown: r.status = 'error'; r.why = 'undetermined: ' + unknown[0]['property']
    elif unreached: r.status = 'error'; r.why = 'unreachable: ' + '; '.join(unreached)
    elif not ok: r.status = 'error'; r.why = 'no obligations'
    else: r.status = 'ok'

def trace_inputs(props):
    vals = {}; fail = None
    for p in props:
        if p.get('status') != 'FAILURE' or 'trace' not in p: continue
        fail = p
        for s in p['trace']:
            if s.get('stepType') != 'assignment': continue
            m = re.match(r'VF_IN\[(\d+)[a-z]*\]$', s.get('lhs', ''))
            if not m: continue
            v = s.get('value', {})
            b = v.get('binary')
            try: vals[int(m.group(1))] = int(b, 2) if b else int(re.sub(r'[a-z]+$', '', v.get('data', '0')))
            except Exception: pass
        break
    if not fail: return None, None
    n = max(vals) + 1 if vals else 0
    return [vals.get(i, 0) & (2**64 - 1) for i in range(n)], fail

def native_cmd(u, prop):
    return ['gcc', '-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-DNDEBUG', '-std=gnu99',
            '-DVF_BND=%d' % u.nbnd, '-DVF_ENTRY=' + u.entry] + (['-DVF_PROP="%s"' % prop] if u.kind == 'runs' else []) + \
           ['-D' + d for d in u.defs] + INC + native_srcs(u)
def native_build(u, work, prop=''):
    exe = os.path.join(work, u.name + '.native')
    if os.path.exists(exe): return exe
    rc, o, e = run(native_cmd(u, prop) + ['-o', exe], 120)
    return exe if rc == 0 else None

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', LC_ALL='C')
def native_replay(u, work, vals, save):
    exe = native_build(u, work)
    if not exe: return False, 'native build failed'
    f = os.path.join(work, u.name + '.in')
    with open(f, 'w') as fh: fh.write('\n'.join(map(str, vals)) + '\n')
    rc, o, e = run([exe, f], 90, env=NENV)
    if rc in (0, 77, 99): return False, 'native run: exit %s' % rc
    keep_replay(u, exe, f, save, (o + e)[-6000:])
    return True, (o + e)[-1500:]

def native_random(u, work, count, save):
    exe = native_build(u, work)
    if not exe: return None, 'native build failed'
    log = os.path.join(work, u.name + '.rnd')
    if os.path.exists(log): os.unlink(log)
    rc, o, e = run([exe, '--random', str(SEED), str(count), log], 180, env=NENV)
    if rc == 0: return False, o.strip()
    if rc == 'timeout': return False, 'time limit'
    if not os.path.exists(log): return False, 'no log: ' + e[-300:]
    rc2, o2, e2 = run([exe, log], 90, env=NENV)
    if rc2 in (0, 77, 99): return False, 'not reproducible'
    keep_replay(u, exe, log, save, (o2 + e2)[-6000:])
    return True, (o2 + e2)[-1500:]

def decide_runs(u, work, prop):
    """executable contracts over seeded histories of the compiled code: bounded, counted apart, never proved"""
    save = os.path.join(HERE, 'replays', '%s-%s' % (prop, u.name)); t0 = time.time()
    d = dict(unit=u.name, kind='runs', status='error', why='', time=0.0, cmd='', solver='', ok=0, total=0, reach=0, violation=None, fallback=None, runs=0)
    exe = native_build(u, work, prop); d['cmd'] = ' '.join(native_cmd(u, prop))
    if not exe: d['why'] = 'native build failed'; return d
    n = u.count * (1 if TIER == 'quick' else 12); k = max(1, min(JOBS, n // 50))
    def one(i):
        log = os.path.join(work, '%s.%d.log' % (u.name, i)); inp = None
        rc, o, e = run([exe, '--random', str(SEED * 1000 + i), str(n // k), log], 400 if TIER == 'quick' else 2400, env=NENV)
        return i, rc, o, e, log
    with ThreadPoolExecutor(k) as ex: got = list(ex.map(one, range(k)))
    bad = ''
    for i, rc, o, e, log in got:
        m = re.search(r'random: (\d+) run, (\d+) effective', o)
        if rc == 0 and m: d['runs'] += int(m.group(1)); d['reach'] += int(m.group(2)); continue
        if rc == 'timeout': bad = bad or 'time limit'; continue
        if os.path.exists(log):
            rc2, o2, e2 = run([exe, log], 90, env=NENV)
            if rc2 not in (0, 77, 99, 'timeout'):
                keep_replay(u, exe, log, save, (o2 + e2)[-6000:], prop)
                d['status'] = 'fail'; d['why'] = next((l for l in e2.splitlines() if 'CHECK FAILED' in l or 'ERROR' in l), 'run failed')[:200]
                d['violation'] = (save, (o2 + e2)[-1500:], True); break
        bad = bad or 'run ended: %s %s' % (rc, e[-200:])
    d['time'] = round(time.time() - t0, 2)
    if d['violation']: stop_all(); return d
    d['status'] = 'ok' if not bad and d['runs'] else 'error'; d['why'] = bad
    return d

def keep_replay(u, exe, inp, save, text, prop=''):
    os.makedirs(save, exist_ok=True)
    shutil.copy(inp, os.path.join(save, 'input.txt'))
    open(os.path.join(save, 'output.txt'), 'w').write(text)
    open(os.path.join(save, 'run.sh'), 'w').write(
        '#!/bin/sh\n# replays the failing input of unit %s against the code in %s\nset -e\nd=$(mktemp -d)\ntrap \'rm -r "$d"\' EXIT\n' % (u.name, REPO) +
        ' '.join(shlex.quote(x) for x in native_cmd(u, prop)) + ' -o "$d/t"\nASAN_OPTIONS=detect_leaks=0 "$d/t" "$(dirname "$0")/input.txt"\n')

_twin = {}; _tlock = threading.Lock()
def once(key, f):
    """units sharing a twin search it once"""
    with _tlock:
        if key not in _twin: _twin[key] = [threading.Lock(), None]
        e = _twin[key]
    with e[0]:
        if e[1] is None: e[1] = f()
        return e[1]

def decide(u, work, prop):
    """-> dict describing the unit's outcome"""
    if u.kind == 'runs': return decide_runs(u, work, prop)
    save = os.path.join(HERE, 'replays', '%s-%s' % (prop, u.name))
    mode = 'proof' if u.kind == 'proof' else 'bounded'
    r = verify(u, work, mode, u.timeout if TIER == 'quick' else u.timeout * 4)
    d = dict(unit=u.name, kind=u.kind, status=r.status, why=r.why, time=round(r.time, 2), cmd=r.cmd, solver=r.solver,
             ok=getattr(r, 'ok', 0), total=getattr(r, 'ok', 0) + len(getattr(r, 'fails', [])), reach=getattr(r, 'reach', 0),
             props=[p['property'] for p in r.props][:0], violation=None, fallback=None)
    if r.status == 'ok': return d
    if STOP.is_set(): d['status'] = 'skipped'; return d
    # not discharged: look for a failing input on the real code
    w = u.twin or u                          # the bounded/native twin searches for a failing input
    conf, text = once('r' + w.name, lambda: native_random(w, work, w.count, save)) if u.replay else (None, '')
    rtext = text
    if conf: d['violation'] = (save, text, True); stop_all(); return d
    fb = None
    if u.replay:
        if w.trace and (r.status == 'fail' or u.kind == 'proof') and time.time() < T0 + TRACE_S:
            with TRACES: t = once('t' + w.name, lambda: verify(w, work, 'bounded', max(1, min(150, T0 + TRACE_S - time.time())), trace=True))
            fb = 'ok' if t.status == 'error' and t.why == 'no failure' else t.status
            vals, fail = trace_inputs(t.props) if t.props else (None, None)
            if vals is not None:
                okc, text = native_replay(w, work, vals, save)
                if okc: d['violation'] = (save, text, True); stop_all(); return d
    d['fallback'] = dict(bounded=fb, bound=w.bnd, random=rtext, twin=w.name)
    if r.status == 'fail':
        os.makedirs(save, exist_ok=True)
        f = os.path.join(save, 'obligation.txt')
        open(f, 'w').write('unit %s\nfailed obligations: %s\ncommand: %s\n\n%s\n' % (
            u.name, r.why, r.cmd, json.dumps(getattr(r, 'fails', []), indent=1)[:20000]))
        d['violation'] = (f, r.why, False)
    return d

def main():
    prop = sys.argv[1]
    t0 = time.time()
    rd = os.path.join(HERE, 'replays')
    for x in (os.listdir(rd) if os.path.isdir(rd) else []):
        if x.startswith(prop + '-'): shutil.rmtree(os.path.join(rd, x), ignore_errors=True)
    us = [u for u in U.UNITS if prop in u.props and (TIER == 'thorough' or u.tier == 'quick')]
    if len(sys.argv) > 2: us = [u for u in us if u.name in sys.argv[2:]]
    if not us: print('no units for', prop); return 2
    work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    out = []
    try:
        heavy = [u for u in us if u.split]; light = [u for u in us if not u.split and u.kind != 'runs']
        for u in us:
            if u.kind == 'runs' and not STOP.is_set(): out.append(decide(u, work, prop))
        with ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(decide, u, work, prop): u for u in sorted(light, key=lambda u: -u.weight)}
            for f in as_completed(futs): out.append(f.result())
        for u in heavy: out.append(decide(u, work, prop))
        extra = U.native_extra(prop, TIER, SEED)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out.sort(key=lambda d: d['unit'])
    viol = [d for d in out if d['violation']]
    und = [d for d in out if d['status'] not in ('ok', 'skipped') and not d['violation']]
    known = U.known_findings(prop)
    level = U.LEVELS[prop]
    pr = [d for d in out if d['kind'] == 'proof']; bd = [d for d in out if d['kind'] == 'bounded']; rn = [d for d in out if d['kind'] == 'runs']
    by = {u.name: u for u in us}
    cov = dict(
        obligations=sum(d['total'] for d in out if d['kind'] == 'proof') if pr else sum(d['total'] for d in out),
        discharged=sum(d['ok'] for d in out if d['kind'] == 'proof') if pr else sum(d['ok'] for d in out),
        checker_cmd='cbmc 6.11.0 (goto-cc / goto-instrument --dfcc), see units[].cmd',
        trusted_base=U.TRUSTED + sorted({t for u in us for t in u.trusted}),
        runs_of_executable_contracts=sum(d['runs'] for d in rn), histories_per_run='%d' % 20 if rn else '0',
        bounded_obligations=sum(d['total'] for d in bd), bounded_discharged=sum(d['ok'] for d in bd),
        functions_under_contract=sorted({f for u in us if u.kind == 'proof' for f in u.funcs}),
        functions_bounded_only=sorted({f for u in us if u.kind != 'proof' for f in u.funcs} - {f for u in us if u.kind == 'proof' for f in u.funcs}),
        solver_time_s=round(sum(d['time'] for d in out), 1),
        back_ends=sorted({d['solver'] for d in out if d['solver']}),
        reachability_markers=sum(d['reach'] for d in out),
        undecided=[dict(unit=d['unit'], status=d['status'], why=d['why'][:300], fallback=d['fallback']) for d in und],
        units=[dict(unit=d['unit'], kind=d['kind'] + ('' if d['kind'] == 'proof' else ' (bound: %s)' % by[d['unit']].bound),
                    status=d['status'], obligations=d['total'], discharged=d['ok'], time_s=d['time'], solver=d['solver'],
                    what=by[d['unit']].what) for d in out])
    cov['explanation'] = 'obligations/discharged count ' + ('proof units only; bounded units are counted apart' if pr else 'bounded units (no unbounded proof for this property)')
    if level == 'model_checking':
        cov.update(states=sum(d['total'] for d in out), transitions=sum(d['ok'] for d in out), traces_validated_against_impl=0, samples=[d['unit'] for d in out][:5])
    if level == 'exploration' or level == 'other':
        cov.update(evaluations=sum(d['runs'] for d in rn), distinct_nontrivial=sum(d['reach'] for d in rn),
                   rule='one evaluation is one seeded run (several histories) of the compiled code under its executable contracts; non-trivial: a contract of the property applied in it; obligations and discharged count the proof units',
                   samples=['%s: seeds %d.., %d runs: %s' % (d['unit'], SEED * 1000, d['runs'], by[d['unit']].what) for d in rn][:6])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=U.ASSUME.get(prop, []) + U.TRUSTED, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for d in out: d['kind'] == 'runs' and d.update(ok=d['reach'], total=d['runs'])
    for d in out: print('%-34s %-8s %-8s %4d/%-4d %7.2fs %s' % (d['unit'], d['kind'], d['status'], d['ok'], d['total'], d['time'], d['why'][:160]))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        viol.sort(key=lambda d: not d['violation'][2])
        d = viol[0]; path, text, conf = d['violation']
        print('failed unit %s: %s' % (d['unit'], d['why']))
        print(text[-1500:])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
        return 1
    # undecided units: the bounded twin or the native campaign must at least have run and passed
    for d in und:
        fb = d['fallback'] or {}
        if fb.get('bounded') != 'ok' and not str(fb.get('random', '')).startswith('random:'):
            print('UNDECIDED: unit %s: %s' % (d['unit'], d['why'][:300]))
    for d in und:
        if d['kind'] == 'runs' and d['status'] != 'ok': print('ERROR: %s: %s' % (d['unit'], d['why'])); return 2
    if not any(d['status'] == 'ok' or (d['fallback'] or {}).get('bounded') == 'ok' or str((d['fallback'] or {}).get('random', '')).startswith('random:') for d in out):
        print('ERROR: no unit of %s could be decided' % prop); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
