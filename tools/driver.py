"""Driver of the checks: builds the symbolic executor and the harness together with a copy of
/repo/src, lets the executor explore the harness entry point, replays every counterexample against
the natively compiled code, and writes the evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RB_REPO', '/repo')
BUILD = os.environ.get('RB_BUILD', os.path.join(VERIF, '.build'))
H = os.path.join(VERIF, 'harness')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
FLAGS = '-C link-arg=-Wl,--unresolved-symbols=ignore-all -C no-vectorize-loops -C no-vectorize-slp'
Z3S = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so', '/usr/lib/x86_64-linux-gnu/libz3.so.4', '/usr/lib/x86_64-linux-gnu/libz3.so']

class CheckError(Exception): pass
def log(*a): print(*a, file=sys.stderr, flush=True)
def env(**kw):
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    for k in list(e):
        if k.startswith('CARGO_PROFILE_') or k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'): del e[k]
    e.update(kw)
    return e
def run(cmd, cwd, e, what, timeout=800):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise CheckError(f'{what} failed')
    return time.time() - t

def build_engine():
    td = os.path.join(BUILD, 'engine')
    t = run(['cargo', 'build', '--release', '--offline', '--quiet'], os.path.join(VERIF, 'engine'), env(CARGO_TARGET_DIR=td), 'building the symbolic executor')
    return os.path.join(td, 'release', 'symex'), t

def prepare(pid, module):
    d = os.path.join(BUILD, 'h', pid)
    src = os.path.join(d, 'src')
    os.makedirs(d, exist_ok=True)
    if os.path.isdir(src): shutil.rmtree(src)
    shutil.copytree(os.path.join(REPO, 'src'), src)
    m = os.path.join(src, 'main.rs')
    text = open(m).read()
    text = '#![no_main] #![allow(warnings)] ' + text + '\nextern crate mstd as std;\n#[path = "%s/vp/mod.rs"] mod vp;\n' % H
    open(m, 'w').write(text)
    open(os.path.join(d, 'select.rs'), 'w').write('#[path = "%s/vp/%s.rs"] mod prop;\n' % (H, module))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(open(os.path.join(H, 'Cargo.toml.in')).read().replace('@HARNESS@', H))
    lock = os.path.join(H, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    return d

def build_ir(d):
    ll = os.path.join(d, 'out.ll')
    if os.path.exists(ll): os.remove(ll)
    td = os.path.join(BUILD, 'target')
    t = run(['cargo', 'rustc', '--offline', '--quiet', '--release', '--', '--emit=llvm-ir=' + ll], d, env(CARGO_TARGET_DIR=td, RUSTFLAGS=FLAGS, RB_VP=d), 'compiling the code under test')
    if not os.path.exists(ll): raise CheckError('no LLVM IR produced')
    return ll, t

def build_native(d):
    td = os.path.join(BUILD, 'native')
    run(['cargo', 'build', '--offline', '--quiet', '--release', '--features', 'native'], d, env(CARGO_TARGET_DIR=td, RUSTFLAGS='', RB_VP=d), 'compiling the replay program')
    exe = os.path.join(d, 'replay-bin')
    shutil.copy(os.path.join(td, 'release', 'rbh'), exe)
    return exe

def z3lib(pref=None):
    for p in ([pref] if pref else []) + Z3S:
        if os.path.exists(p): return p
    raise CheckError('no libz3')

def explore(symex, ll, d, sc, known):
    out = os.path.join(d, 'result-%s.json' % sc['name'])
    if os.path.exists(out): os.remove(out)
    cmd = [symex, ll, '--out', out, '--cover', os.path.join(d, 'src'), '--threads', str(sc.get('threads', 8)), '--time-limit', str(sc.get('time', 240)), '--z3', z3lib(sc.get('z3')),
           '--max-steps', str(sc.get('max_steps', 20_000_000)), '--alloc-limit', str(sc.get('alloc_limit', 64 << 20)), '--timeout-ms', str(sc.get('timeout_ms', 60000)), '--grace', str(sc.get('grace', 5)), '--max-viol', '6']
    if 'ite_max' in sc: cmd += ['--ite-max', str(sc['ite_max'])]
    for k, v in sc.get('params', {}).items(): cmd += ['--param', '%s=%d' % (k, v)]
    for k in known: cmd += ['--known', k]
    if os.environ.get('RB_TRACE'): cmd += ['--trace']
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (28 << 30, 28 << 30))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get('RB_TRACE') else None, text=True, timeout=sc.get('time', 240) + 120, preexec_fn=limit)
    if r.returncode != 0 or not os.path.exists(out): raise CheckError('symbolic executor failed: ' + (r.stderr or '')[-2000:])
    return json.load(open(out))

def write_replay(path, sc, v):
    with open(path, 'w') as f:
        f.write('# counterexample: %s: %s\n' % (v['kind'], v['msg']))
        for k, x in sc.get('params', {}).items(): f.write('p\t%s\t%d\n' % (k, x))
        for n, b, x in v['values']: f.write('v\t%s\t%d\t%d\n' % (n, b, x))

def replay(exe, path, timeout=25):
    """(reproduced, description)"""
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe], env=dict(os.environ, RB_REPLAY=path, RUST_BACKTRACE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limit, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return True, 'does not terminate'
    o = r.stdout.decode('utf8', 'replace')
    if 'REPLAY-END' in o and r.returncode == 0: return False, 'ran to the end'
    if 'REPLAY-DIVERGED' in o or 'REPLAY-ASSUME-FALSE' in o or r.returncode in (7, 8, 9): return False, 'diverged: ' + o[-300:].strip()
    return True, (o.strip().splitlines() or ['signal %d' % -r.returncode])[-1][:300] if 'panicked at' not in o else ' '.join(o[o.index('panicked at'):].split('\n')[:2])[:300]

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]

def setup():
    """Builds everything the checks share."""
    os.makedirs(BUILD, exist_ok=True)
    try:
        _, te = build_engine(); d = prepare("setup", "c01"); _, tb = build_ir(d); build_native(d)
        log("setup: engine %.1fs, harness %.1fs" % (te, tb)); return 0
    except CheckError as e:
        print("ERROR: %s" % e); return 2

def main(argv):
    if argv[:1] == ["setup"]: return setup()
    from props import PROPS
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    cfg = PROPS[pid]
    scs = cfg['runs'](tier)
    if only: scs = [s for s in scs if s['name'] == only]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lockf = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    evd = os.environ.get('RB_EVIDENCE', os.path.join(VERIF, 'evidence'))
    try:
        symex, te = build_engine()
        d = prepare(pid, cfg['module'])
        ll, tb = build_ir(d)
        log('%s: engine %.1fs, harness %.1fs, IR %.1f MB' % (pid, te, tb, os.path.getsize(ll) / 1e6))
        known = load_known(pid)
        res, viols, problems, knownhit = [], [], [], []
        exe = None
        for i, sc in enumerate(scs):
            # the whole of the 900 s a check gets may be used, as long as a minute is left for every later run
            if tier == 'quick': sc = dict(sc, time=max(60, int(t0 + 840 - time.time() - 60 * (len(scs) - 1 - i))))
            r = explore(symex, ll, d, sc, [k['match'] for k in known])
            res.append((sc, r))
            log('  %-24s complete=%s paths=%d infeasible=%d instr=%d queries=%d (sat %d unsat %d unknown %d) solver %.1fs wall %.1fs %s' % (sc['name'], r['complete'], r['paths'], r['infeasible'], r['instructions'], r['queries'], r['sat'], r['unsat'], r['unknown'], r['solver_seconds'], r['wall_seconds'], r['reason']))
            for m in r['inconclusive'][:5]: log('    inconclusive:', m)
            for v in r['violations']:
                key = v['kind'] + '|' + v['msg']
                k = next((k for k in known if k['match'] in key and k.get('run', sc['name']) == sc['name']), None)
                if k: knownhit.append(k); continue
                if exe is None: exe = build_native(d)
                rp = os.path.join(evd, 'replay-%s-%s-%d.txt' % (pid, sc['name'], len(viols)))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                write_replay(rp, sc, v)
                ok, desc = replay(exe, rp)
                log('    %s: %s -> native: %s (%s)' % (v['kind'], v['msg'][:200], 'reproduced' if ok else 'NOT reproduced', desc))
                if os.environ.get('RB_SHOW'): log('      values', v['values'][:60], 'trace', v['trace'], 'reach', v['reach'])
                if ok: viols.append(dict(run=sc['name'], kind=v['kind'], msg=v['msg'], native=desc, replay=rp, values=v['values'][:400], trace=v['trace']))
                else: problems.append('counterexample of run %s not reproduced natively: %s %s (%s)' % (sc['name'], v['kind'], v['msg'], desc))
            if not r['violations']:
                if not r['complete']: problems.append('run %s incomplete: %s %s' % (sc['name'], r['reason'], r['inconclusive'][:3]))
                missing = [x for x in sc.get('reach', []) if x not in r['reach']]
                if missing: problems.append('run %s: vacuous, never reached: %s' % (sc['name'], missing))
            elif all(any(k['match'] in v['kind'] + '|' + v['msg'] for k in known) for v in r['violations']) and not r['complete']:
                problems.append('run %s incomplete: %s' % (sc['name'], r['reason']))
            if viols: break
        if tier == 'thorough' and not viols and cfg.get('validate', True):
            if exe is None: exe = build_native(d)
            nval = 0
            for sc, r in res:
                for lab, vals in sorted(r['witness'].items()):
                    rp = os.path.join(d, 'witness.txt')
                    write_replay(rp, sc, dict(kind='witness', msg=lab, values=vals))
                    ok, desc = replay(exe, rp)
                    nval += 1
                    if ok or desc != 'ran to the end': problems.append('witness %s of run %s does not replay natively: %s' % (lab, sc['name'], desc))
            cfg['validated'] = nval
        if not viols or True: evidence(pid, tier, seed, cfg, res, viols, problems, known, t0, te, tb, evd)
        for k in known:
            hit = any(x is k for x in knownhit)
            if hit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        if viols:
            for v in viols: print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(v['replay'], VERIF) if v['replay'].startswith(VERIF) else v['replay']))
            for v in viols: print('  run %s: %s: %s; native replay: %s' % (v['run'], v['kind'], v['msg'], v['native']))
            return 1
        if problems:
            for p in problems: print('ERROR:', p)
            return 2
        print('%s holds on everything explored (%s tier, %.0f s)' % (pid, tier, time.time() - t0))
        return 0
    except (CheckError, subprocess.TimeoutExpired) as e:
        print('ERROR: %s' % e)
        return 2

def evidence(pid, tier, seed, cfg, res, viols, problems, known, t0, te, tb, evd):
    fns = {}
    for _, r in res:
        for f, m in r['covered'].items():
            g = re.sub(r'^.*/src/', 'src/', f)
            for n, ls in m.items(): fns.setdefault(g, {}).setdefault(n, set()).update(ls)
    tot = lambda k: sum(r[k] for _, r in res)
    cov = dict(
        explanation='Bounded symbolic execution of the compiled code under test (optimised LLVM IR of a copy of /repo/src taken at the start of this run, linked with the boundary models of /verif/harness); every branch, address and assertion is decided by the SMT solver over all values of the symbolic variables within the bounds. ' + cfg['explain'],
        bounds=[dict(run=sc['name'], **({'bound': sc['bound']} if 'bound' in sc else {}), params=sc.get('params', {})) for sc, _ in res],
        outside=cfg['outside'],
        functions_encoded={f: sorted(m) for f, m in sorted(fns.items())},
        source_lines_encoded=sum(len(l) for m in fns.values() for l in m.values()),
        paths_decided=tot('paths'), infeasible_paths=tot('infeasible'), instructions_executed=tot('instructions'),
        queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), cached_queries=tot('cache_hits'),
        solver_seconds=round(tot('solver_seconds'), 3), max_query_seconds=max([r['max_query_seconds'] for _, r in res] or [0]), solver=res[0][1]['solver'] if res else '',
        runs=[dict(name=sc['name'], complete=r['complete'], paths=r['paths'], queries=r['queries'], solver_seconds=r['solver_seconds'], wall_seconds=r['wall_seconds'], max_symbolic_variables=r['max_symbolic_vars'], reached=r['reach']) for sc, r in res],
        samples=[s[:600] for _, r in res for s in r['samples'][:2]][:6],
        violations=[{k: v[k] for k in ('run', 'kind', 'msg', 'native', 'replay')} for v in viols], problems=problems,
        build_seconds=dict(engine=round(te, 1), harness=round(tb, 1)))
    if 'validated' in cfg: cov['witnesses_replayed_natively'] = cfg['validated']
    e = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 1))
    if known: e['coverage']['known_findings'] = [k['what'] for k in known]
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + '.json'), 'w') as f: json.dump(e, f, indent=1)
