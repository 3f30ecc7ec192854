#!/usr/bin/env python3
"""run.py PROPERTY: decides one property.

Builds /repo's current working tree together with the contracts in harness/
under Kani, has CBMC discharge every obligation of the harnesses the property
depends on, and judges the obligations whose name starts with the property id.

exit 0  every obligation of the property is discharged
exit 1  + VIOLATION line: a named obligation of the property fails
exit 2  no answer (does not build, tool limit, a contract became vacuous)
"""
import fcntl, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, 'harness')
BUILD = os.environ.get('TW_BUILD', os.path.join(ROOT, 'build'))
KFLAGS = ['-Z', 'unstable-options', '--no-memory-safety-checks', '--no-overflow-checks',
          '--no-assertion-reach-checks', '--output-format', 'terse']
T0 = time.time()
LIMIT = 880


def log(*a):
    print('[%4d s]' % (time.time() - T0), *a, flush=True)


def left():
    return LIMIT - (time.time() - T0)


def features(hs):
    return ','.join(sorted({h.split('::')[0] for h in hs}))


def crate(hs):
    """The crate that builds the harnesses hs (metadata: with more dependencies by contract)."""
    return HARNESS + {'meta': '_meta', 'dep': '_dep'}.get(hs[0].split('::')[0], '')


def run(cmd, env, timeout, out, cwd):
    """Runs cmd in its own process group; returns the exit code or None."""
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            return None


def environ(target):
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'TW_PROP', 'TW_MORE'):
        env.pop(k, None)
    env['TW_PROP'] = PROPERTY
    if TIER == 'thorough':
        env['TW_MORE'] = '1'
    # the SMT back end of harness_dep reasons over integers
    env['PATH'] = os.path.join(ROOT, 'harness_dep', 'bin') + ':' + env.get('PATH', '')
    env.pop('RUSTC_WRAPPER', None)
    return env


def kani(hs, unwind, tag, extra=()):
    """One Kani run over the harnesses hs. Returns {harness: [check, ...]} and the log."""
    js = os.path.join(BUILD, tag + '.json')
    out = os.path.join(BUILD, tag + '.log')
    if os.path.exists(js):
        os.remove(js)
    cmd = ['cargo', 'kani', '--lib', '--features', features(hs), '--exact']
    for h in hs:
        cmd += ['--harness', h]
    cmd += KFLAGS + list(extra)
    if '--concrete-playback' not in extra:
        # one harness out of reach of the solver must not hide the results of the others
        t = left() - 160
        cmd += ['--harness-timeout', '%ds' % max(60, t if len(hs) <= 5 else 0.62 * t)]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    if '--concrete-playback' not in extra:
        cmd += ['-j', str(min(len(hs), 8)), '--export-json', js]
    cmd += ['--cbmc-args', '--max-field-sensitivity-array-size', '1024' if any(h.startswith('meta') for h in hs) else '256']
    rc = run(cmd, environ(os.path.join(BUILD, 'kani')), left() - 20, out, crate(hs))
    res = {}
    if os.path.exists(js):
        try:
            o = json.load(open(js))
            for r in o['verification_results']['results']:
                res[r['harness_id']] = r
        except (ValueError, KeyError):
            pass
    return rc, res, out, cmd


# harnesses whose obligations hold up to a stated bound
BOUNDED = re.compile(r'^(un)?wrap::(extras|multisig|honest_)|^meta')
PROP = re.compile(r'^(C\d\d) ')


def classify(r):
    """Splits a harness result: named obligations, covers, tool limits, panics."""
    named, covers, limits, panics = [], [], [], []
    for c in r['checks']:
        st, cat, d = c['status'].lower(), c.get('category', ''), c['description']
        m = PROP.match(d)
        if cat == 'cover':
            covers.append((d, st))
        elif m:
            named.append((m.group(1), d, st))
        elif st not in ('success', 'unreachable'):
            if cat in ('unwind', 'unsupported_construct', 'missing_definition') or d.startswith('vghost:') or 'unwinding' in d:
                limits.append((cat, d, st))
            else:
                panics.append((cat, d, st))
    return named, covers, limits, panics


def replay(h, names, unwind, prop):
    """Asks the verifier for the failing values and runs them natively on the real code."""
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.%s.txt' % (prop, h.replace('::', '.')))
    reproduced = False
    info = ['property   %s' % prop, 'harness    %s' % h, 'unwind     %s' % unwind]
    info += ['failed     ' + n for n in names]
    vals = None
    if left() > 120:
        rc, _, out, _ = kani([h], unwind, '%s.playback' % prop, ['-Z', 'concrete-playback', '--concrete-playback', 'print'])
        text = open(out, errors='replace').read()
        for m in re.finditer(r'/// Check for `(\w+)`: "(.*?)"\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', text, re.S):
            if m.group(2) in names:
                vals = [v.replace(',', ' ') for v in re.findall(r'vec!\[(.*?)\]', m.group(3))]
                info.append('values for ' + m.group(2))
                break
        info += ['', 'verifier output:'] + [l[:300] for l in text.splitlines() if re.search(r'Failed Checks|VERIFICATION|File:', l)]
    if vals is not None and left() > 60:
        vf = path[:-4] + '.values'
        open(vf, 'w').write('\n'.join(vals) + '\n')
        env = environ(os.path.join(BUILD, 'native'))
        o = os.path.join(BUILD, 'native.log')
        rc = run(['cargo', 'build', '--offline', '--features', features([h]), '--bin', 'replay'], env, left() - 10, o, crate([h]))
        if rc == 0:
            o2 = os.path.join(BUILD, 'replay.log')
            run([os.path.join(BUILD, 'native', 'debug', 'replay'), h, vf], env, min(60, left()), o2, crate([h]))
            t = open(o2, errors='replace').read()
            reproduced = any('REPLAY: FAILED ' + n in t for n in names) or (
                'panicked at' in t and any(not PROP.match(n) for n in names))
            info += ['', 'native replay (real code, values in %s):' % vf] + t.splitlines()[-30:]
        else:
            info += ['', 'native replay did not build']
    else:
        info += ['', 'no values from the verifier']
    info += ['', 'replay result: ' + ('reproduced on the real code' if reproduced else 'no failing input found')]
    open(path, 'w').write('\n'.join(info) + '\n')
    return path, reproduced


def setup():
    """Checks that the framework is complete; the checks build what they need."""
    for t in ('cargo-kani', 'cargo'):
        if not shutil.which(t):
            print('missing', t)
            return 1
    json.load(open(os.path.join(ROOT, 'checks.json')))
    os.makedirs(BUILD, exist_ok=True)
    return 0


def main():
    global PROPERTY, TIER
    PROPERTY = prop = sys.argv[1]
    if prop == '--setup':
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    TIER = tier
    global LIMIT
    if tier == 'thorough':
        LIMIT = 3 * 3600
    conf = json.load(open(os.path.join(ROOT, 'checks.json')))
    me = conf['properties'][prop]
    hs = list(me['harnesses'])
    if tier == 'thorough':
        hs += me.get('thorough', [])
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    log('%s (%s): %s' % (prop, tier, ' '.join(hs)))

    results, unwinds, cmds = {}, {}, []
    todo, unwind = hs, None
    while todo and left() > 60:
        groups, res = {}, {}
        for h in todo:
            groups.setdefault(crate([h]), []).append(h)
        for i, g in enumerate(groups.values()):
            rc, r, out, cmd = kani(g, unwind, prop + ('.%d' % i if i else ''))
            cmds.append(' '.join(cmd))
            if not r:
                res = r
                break
            res.update(r)
        if not res:
            tail = [l[:200] for l in open(out, errors='replace').read().splitlines() if l.strip()][-25:]
            log('the verifier gave no result (exit %s)' % rc)
            print('\n'.join(tail))
            return 2
        again = []
        for h in todo:
            if h not in res:
                log('no result for', h)
                return 2
            results[h] = res[h]
            unwinds[h] = unwind
            if not res[h]['checks']:
                log(h, 'no answer within the time')
                continue
            named, covers, limits, panics = classify(res[h])
            log(h, res[h]['status'], '%.0f s' % (res[h]['duration_ms'] / 1000))
            bad = [n for p, n, s in named if p == prop and s == 'failure']
            if not bad and (any(c == 'unwind' or 'unwinding' in d for c, d, s in limits)):
                again.append(h)
        todo = again
        if todo:
            unwind = 17 if unwind is None else (40 if unwind == 17 else None)
            log('unwinding bound too small for', todo, '->', unwind)
            if unwind is None:
                return 2

    obligations, failed, undecided, vacuous, background, notes = [], [], [], [], 0, []
    for h, r in results.items():
        if not r['checks']:
            undecided.append((h, 'no answer from the solver', 'timeout'))
        named, covers, limits, panics = classify(r)
        mine = [(n, s) for p, n, s in named if p == prop]
        background += sum(1 for c in r['checks'] if c.get('category') != 'cover') - len(named)
        for n, s in mine:
            obligations.append({'harness': h, 'obligation': n, 'status': s, 'unwind': unwinds[h] or 'as annotated'})
            if s == 'failure':
                failed.append((h, n))
            elif s not in ('success', 'unreachable'):
                undecided.append((h, n, s))
        for d, s in covers:
            if s != 'satisfied':
                vacuous.append((h, d, s))
        for c, d, s in limits:
            if s == 'failure':
                undecided.append((h, d, s))
        for p, n, s in named:
            if p != prop and s == 'failure':
                notes.append('obligation of another property fails in %s: %s' % (h, n))
        for c, d, s in panics:
            if s == 'failure' and me.get('no_panic'):
                obligations.append({'harness': h, 'obligation': '%s the program does not abort: %s' % (prop, d), 'status': s, 'unwind': unwinds[h] or 'as annotated'})
                failed.append((h, d))
            elif s == 'failure':
                notes.append('panic reachable in %s (the transaction aborts): %s' % (h, d[:120]))
    if not obligations and not undecided:
        log('no obligation was generated for', prop)
        return 2

    # covers named for this property are obligations of existence
    bad_covers = [(h, d) for h, d, s in vacuous if me.get('covers_count')]
    viol = []
    seen = set()
    for h in dict.fromkeys(h for h, _ in failed):
        names = [n for x, n in failed if x == h]
        for n in names:
            log('FAILED', h, '-', n)
        path, ok = replay(h, names, unwinds[h], prop)
        viol.append((path, ok))
        if ok:
            break
    rep = 0
    if viol:
        viol.sort(key=lambda v: not v[1])
        path, ok = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if ok else ' no-failing-input-found'))
        rep = 1
    elif bad_covers:
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', 'replay', '%s.covers.txt' % prop)
        open(path, 'w').write('\n'.join('no execution reaches: %s (%s)' % (d, h) for h, d in bad_covers) + '\n')
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rep = 1

    proved = [o for o in obligations if not BOUNDED.search(o['harness'])]
    trusted = conf['trusted'] + me.get('trusted', [])
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': me['level'],
        'coverage': {
            'obligations': len(proved),
            'discharged': sum(1 for o in proved if o['status'] in ('success', 'unreachable')),
            'bounded_obligations': len(obligations) - len(proved),
            'bounded_discharged': sum(1 for o in obligations if o not in proved and o['status'] in ('success', 'unreachable')),
            'background_checks': background,
            'covers': sum(len(classify(r)[1]) for r in results.values()),
            'covers_satisfied': sum(1 for r in results.values() for d, s in classify(r)[1] if s == 'satisfied'),
            'checker_cmd': ' ; '.join(cmds),
            'back_end': 'Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL' + (' (three obligations of harness_dep: cvc5 1.1.2)' if any(h.startswith('dep') for h in results) else ''),
            'solver_seconds': {h: r['duration_ms'] / 1000 for h, r in results.items()},
            'functions_under_contract': me['functions'],
            'samples': [{'obligation': o['obligation'], 'harness': o['harness'], 'status': o['status']} for o in obligations],
            'bounds': me.get('bounds', 'none: loop-free over full-domain symbolic inputs, or loops bounded by operand width with unwinding assertions on'),
            'trusted_base': trusted,
            'explanation': me.get('explanation', ''),
            'notes': sorted(set(notes)),
        },
        'assumptions': conf['assumptions'] + me.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1), 'violations': len(failed),
    }
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for n in sorted(set(notes))[:10]:
        log('note:', n)
    if rep:
        return 1
    for x in undecided[:10]:
        log('UNDECIDED', x)
    for x in vacuous[:10]:
        log('VACUOUS', x)
    if undecided or vacuous:
        return 2
    log('%s: %d obligations discharged, %d background checks' % (prop, len(obligations), background))
    for line in open(os.path.join(ROOT, 'known-findings.txt')):
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            print(line.strip())
    return 0


sys.exit(main())
