#!/usr/bin/env python3
"""Driver: decide one property of mliberty1/embc.

    checks/run.py <PID> [--keep] [--only OBL] [-v]

For every proof obligation group (see contracts/<PID>.py) the driver takes the current source text
from /repo, weaves the loop contracts in, compiles it with goto-cc, instruments it with
goto-instrument (dfcc function and loop contracts) and lets cbmc discharge every assertion.  The
API-level harnesses ("bounded") are compiled with gcc+ASan+UBSan against the same source; they
supply failing inputs for a proof that failed and stand in, labelled bounded, for obligations that
cannot be generated from the current text.
"""
import sys, os, json, time, re, subprocess, tempfile, shutil, importlib.util, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CONTRACTS = os.path.join(VERIF, 'contracts')
sys.path.insert(0, os.path.join(VERIF, 'checks'))
from weave import weave_source, WeaveError

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
VERBOSE = '-v' in sys.argv
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()
BUDGET = 840 if TIER == 'quick' else 3 * 3600

CBMC_FLAGS = ['--drop-unused-functions', '--unwinding-assertions', '--malloc-may-fail', '--malloc-fail-null', '--object-bits', '8']


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def limit_mem(gb):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * (1 << 30)),) * 2)
        os.setsid()
    return f


def sh(cmd, timeout, cwd=None, mem=None, env=None):
    """Run; returns (rc, out, err, seconds); rc None on timeout."""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', preexec_fn=limit_mem(mem) if mem else os.setsid, env=env)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out, err, time.time() - t


def make_config(d):
    """config.h exactly as src/CMakeLists.txt configures it for the host platform."""
    src = open(os.path.join(REPO, 'src/config.h.in')).read()
    top = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)', top)
    v = m.groups() if m else ('0', '0', '0')
    for k, x in {'EMBC_PLATFORM': 'STDLIB', 'PROJECT_PREFIX': 'EMBC', 'PROJECT_VERSION_MAJOR': v[0],
                 'PROJECT_VERSION_MINOR': v[1], 'PROJECT_VERSION_PATCH': v[2]}.items():
        src = src.replace('@%s@' % k, x)
    os.makedirs(os.path.join(d, 'include/embc'), exist_ok=True)
    open(os.path.join(d, 'include/embc/config.h'), 'w').write(src)


class W:
    """A loop contract woven at the header of loop number `loop` of `func` (source order)."""
    def __init__(self, path, func, loop, contract, ghost='', before='', after=''):
        self.path, self.func, self.loop = path, func, loop
        self.contract, self.ghost, self.before, self.after = contract, ghost, before, after


class P:
    """One proof obligation group: a harness entry point and how to decide it."""
    def __init__(self, name, file, entry, funcs, weave=(), loops=False, enforce=None, replace=(),
                 pre_unwind=(), unwind=None, unwindset=(), flags=(), defs=(), solver=None,
                 timeout=240, tier='quick', replay=False, expect_reach=True, bounded=None, note='',
                 gi_flags=(), dfcc=None, drop=(), srcs=(), nobody=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


class B:
    """API-level harness run natively against the real code."""
    def __init__(self, name, file, entry, srcs, iters=200000, secs=3.0, search_secs=60.0, defs=(), note=''):
        self.__dict__.update(locals())
        del self.__dict__['self']


def load_spec(pid):
    path = os.path.join(CONTRACTS, pid + '.py')
    g = {'P': P, 'B': B, 'W': W, 'TIER': TIER}
    exec(compile(open(path).read(), path, 'exec'), g)
    return g


def incs(work, woven=None):
    r = []
    if woven:
        r += ['-I', woven]
    r += ['-I', REPO, '-I', CONTRACTS, '-I', os.path.join(REPO, 'include'),
          '-I', os.path.join(REPO, 'third-party/uthash/src'), '-I', os.path.join(work, 'include')]
    return r


def last(err, n=1500):
    return (err or '')[-n:]


def run_p(o, work):
    """Returns dict(status=ok|fail|undecided, props, failed, time, ...)."""
    r = {'name': o.name, 'status': 'undecided', 'total': 0, 'ok': 0, 'failed': [], 'solver_s': 0.0,
         'wall_s': 0.0, 'reason': '', 'cmd': '', 'backend': o.solver or 'CBMC bit-blasting (MiniSat/CaDiCaL)'}
    t = time.time()
    d = tempfile.mkdtemp(prefix=o.name + '_', dir=work)
    try:
        woven = None
        if o.weave:
            woven = os.path.join(d, 'woven')
            byp = {}
            for w in o.weave:
                byp.setdefault(w.path, []).append(w)
            for path, ws in byp.items():
                text = open(os.path.join(REPO, path)).read()
                text = weave_source(text, ws)
                dst = os.path.join(woven, path)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                open(dst, 'w').write(text)
        gb = os.path.join(d, 'a.gb')
        cmd = ['goto-cc', '-std=gnu99', '-DVP_CBMC', '-D__FILENAME__="x.c"', '--function', o.entry] + \
              ['-D' + x for x in o.defs] + incs(work, woven) + \
              (['-DEMBC_LOG_PRINTF(level,format,...)=vp_log_ext(level,format,__VA_ARGS__)', '-include',
                os.path.join(CONTRACTS, 'vp_log_ext.h')] if o.srcs else []) + \
              [os.path.join(CONTRACTS, o.file)] + [os.path.join(REPO, x) for x in o.srcs] + ['-o', gb]
        rc, out, err, _ = sh(cmd, 60)
        if rc != 0:
            r['reason'] = 'the contract file does not compile against the current source: ' + last(err + out)
            return r
        for fn in o.nobody:
            # functions the harness never calls, left out so that function pointers they install are no candidates
            g2 = os.path.join(d, 'n_%s.gb' % fn)
            rc, out, err, _ = sh(['goto-instrument', '--remove-function-body', fn, gb, g2], 60)
            if rc == 0 and os.path.exists(g2):
                gb = g2
        if o.pre_unwind or o.loops:
            ex = []
            if o.pre_unwind:
                ex = ['--unwindset', ','.join(o.pre_unwind), '--unwinding-assertions']
                g2 = os.path.join(d, 'u.gb')
                rc, out, err, _ = sh(['goto-instrument'] + ex + [gb, g2], 60)
                if rc != 0:
                    r['reason'] = 'goto-instrument (unwind): ' + last(err + out)
                    return r
                gb = g2
        use_dfcc = o.dfcc if o.dfcc is not None else bool(o.loops or o.enforce or o.replace)
        if use_dfcc:
            g2 = os.path.join(d, 'b.gb')
            cmd = ['goto-instrument', '--dfcc', o.entry]
            if o.enforce:
                cmd += ['--enforce-contract', o.enforce]
            for f in o.replace:
                cmd += ['--replace-call-with-contract', f]
            if o.loops:
                cmd += ['--apply-loop-contracts']
            cmd += list(o.gi_flags)
            rc, out, err, _ = sh(cmd + [gb, g2], 120)
            if rc != 0:
                r['reason'] = 'goto-instrument (contracts): ' + last(err + out)
                return r
            gb = g2
        flags = CBMC_FLAGS[:-2] if '--object-bits' in o.flags else list(CBMC_FLAGS)
        if '--no-malloc-may-fail' in o.flags:
            flags = [f for f in flags if f not in ('--malloc-fail-null',)]
        if o.unwind:
            flags += ['--unwind', str(o.unwind)]
        if o.unwindset:
            flags += ['--unwindset', ','.join(o.unwindset)]
        if o.solver:
            flags += ['--' + o.solver]
        flags += list(o.flags)
        r['cmd'] = 'cbmc ' + ' '.join(flags)
        tmo = o.timeout if TIER == 'quick' else o.timeout * 4
        tmo = min(tmo, BUDGET - (time.time() - T0) - 90)
        if tmo < 5:
            r['reason'] = 'time budget used up'
            return r
        rc, out, err, sec = sh(['cbmc', '--json-ui'] + flags + [gb], tmo, mem=12)
        r['solver_s'] = sec
        if rc is None:
            r['reason'] = 'solver timeout after %.0f s' % sec
            return r
        try:
            js = json.loads(out)
        except ValueError:
            r['reason'] = 'cbmc gave no result: ' + last(err + out)
            return r
        res = None
        msgs = []
        for e in js:
            if 'result' in e:
                res = e['result']
            if e.get('messageType') == 'ERROR':
                msgs.append(e.get('messageText', ''))
        if res is None:
            r['reason'] = 'cbmc gave no result: ' + ' '.join(msgs)[-1500:]
            return r
        reach_seen = reach_ok = 0
        errs = 0
        for p in res:
            if p.get('description') == 'VP_REACH':
                reach_seen += 1
                reach_ok += p['status'] == 'FAILURE'
                continue
            if any(re.search(x, p.get('property', '') + ' ' + p.get('description', '')) for x in o.drop):
                continue
            r['total'] += 1
            if p['status'] == 'SUCCESS':
                r['ok'] += 1
            elif p['status'] == 'FAILURE':
                loc = p.get('sourceLocation', {})
                r['failed'].append({'property': p['property'], 'description': p.get('description', ''),
                                    'file': loc.get('file', ''), 'function': loc.get('function', ''),
                                    'line': loc.get('line', '')})
            else:
                errs += 1
        if r['failed']:
            # an unwinding assertion alone says the bound no longer covers the loop: undecided
            hard = [f for f in r['failed'] if '.unwind.' not in f['property'] and 'unwinding assertion' not in f['description']
                    and 'is assignable' not in f['description'] and 'no-recursion' not in f['property']
                    and 'loop_assigns' not in f['property'] and 'loop_step_unwinding' not in f['property']
                    and not f['property'].startswith('__CPROVER_contracts')]
            if hard:
                r['failed'] = hard + [f for f in r['failed'] if f not in hard]
                r['status'] = 'fail'
                r['gb'] = gb
                r['flags'] = flags
            else:
                r['reason'] = 'only frame/unwinding obligations fail: ' + '; '.join(
                    '%s (%s)' % (f['property'], f['description']) for f in r['failed'][:6])
                r['soft'] = True
        elif errs or r['total'] == 0:
            r['reason'] = '%d obligations undecided of %d' % (errs, r['total'])
        elif o.expect_reach and (reach_seen == 0 or reach_ok != reach_seen):
            r['reason'] = 'vacuity guard: the end of the harness is not reachable'
        else:
            r['status'] = 'ok'
        return r
    except WeaveError as e:
        r['reason'] = 'loop contract not applicable to the current text: %s' % e
        return r
    except Exception as e:  # never an error exit because of one obligation
        r['reason'] = 'driver: %r' % e
        return r
    finally:
        r['wall_s'] = time.time() - t


def trace_values(r, work):
    """Values drawn by nd_*() in the counterexample of the first failed assertion."""
    prop = r['failed'][0]['property']
    rc, out, err, _ = sh(['cbmc', '--json-ui', '--trace', '--property', prop] + r['flags'] + [r['gb']], 200, mem=12)
    vals, txt = [], out
    try:
        for e in json.loads(out):
            for p in e.get('result', []):
                if p.get('status') != 'FAILURE':
                    continue
                for s in p.get('trace', []):
                    if s.get('stepType') == 'assignment' and s.get('lhs') == 'vp_nd_rec' and not s.get('hidden'):
                        f = s.get('sourceLocation', {}).get('function', '')
                        if not f.startswith('nd_'):
                            continue
                        b = s['value'].get('binary')
                        vals.append(int(b, 2) if b else int(s['value'].get('data', '0').rstrip('ul')))
    except (ValueError, KeyError):
        pass
    return vals, txt


def native_build(file, entry, srcs, defs, work, tag, sdefs=()):
    exe = os.path.join(work, 'n_' + tag)
    cmd = ['gcc', '-std=gnu99', '-O1', '-g', '-w', '-DVP_NATIVE', '-DVP_ENTRY=' + entry, '-D__FILENAME__="x.c"',
           '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-include',
           os.path.join(CONTRACTS, 'vp_main.h')] + ['-D' + d for d in defs] + incs(work) + \
          [os.path.join(CONTRACTS, file), '-o', exe + '_h.o', '-c']
    rc, out, err, _ = sh(cmd, 120)
    if rc != 0:
        return None, last(err + out)
    objs = [exe + '_h.o']
    for s in srcs:
        o = exe + '_' + s.replace('/', '_') + '.o'
        cmd = ['gcc', '-std=gnu99', '-O1', '-g', '-w', '-D__FILENAME__="%s"' % os.path.basename(s),
               '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all',
               '-DEMBC_LOG_PRINTF(level,format,...)=vp_log_ext(level,format,__VA_ARGS__)', '-include',
               os.path.join(CONTRACTS, 'vp_log_ext.h'), '-c'] + ['-D' + d for d in sdefs] + incs(work) + [os.path.join(REPO, s), '-o', o]
        rc, out, err, _ = sh(cmd, 120)
        if rc != 0:
            return None, last(err + out)
        objs.append(o)
    rc, out, err, _ = sh(['gcc', '-fsanitize=address,undefined', '-o', exe] + objs, 120)
    if rc != 0:
        return None, last(err + out)
    return exe, ''


NATIVE_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048',
                  UBSAN_OPTIONS='print_stacktrace=0')


def run_b(b, work, secs, iters=None):
    r = {'name': b.name, 'status': 'undecided', 'done': 0, 'skipped': 0, 'reason': '', 'wall_s': 0}
    t = time.time()
    exe, err = native_build(b.file, b.entry, b.srcs, b.defs, work, b.name)
    if not exe:
        r['reason'] = 'does not build: ' + err
        return r
    outf = os.path.join(work, b.name + '.vals')
    rc, out, err, _ = sh([exe, '--random', str(SEED), str(iters or b.iters), str(secs), outf], secs + 60, env=NATIVE_ENV)
    r['wall_s'] = time.time() - t
    m = re.search(r'VP-VIOLATION (.*)', out)
    if m:
        # confirm by replaying the recorded input
        rc2, out2, err2, _ = sh([exe, '--replay', outf], 60, env=NATIVE_ENV)
        if 'VP-VIOLATION' in out2:
            r['status'] = 'fail'
            r['what'] = m.group(1)
            r['vals'] = open(outf).read().split()
            r['log'] = out2 + last(err2, 4000)
        else:
            r['reason'] = 'a violation was seen but did not replay: ' + m.group(1)
        return r
    m = re.search(r'VP-OK random done=(\d+) skipped=(\d+)', out)
    if m:
        r['status'] = 'ok'
        r['done'], r['skipped'] = int(m.group(1)), int(m.group(2))
    else:
        r['reason'] = 'no verdict: rc=%s %s' % (rc, last(out + err))
    return r


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    pid = sys.argv[1]
    spec = load_spec(pid)
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        rc = decide(pid, spec, work)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.exit(rc)


def decide(pid, spec, work):
    make_config(work)
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    obls = [o for o in spec.get('PROOFS', []) if (TIER == 'thorough' or o.tier == 'quick') and (not only or only == o.name)]
    bs = [b for b in spec.get('BOUNDED', []) if not only or only == b.name]
    results, bres = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(run_p, o, work) for o in obls]
        fb = [ex.submit(run_b, b, work, b.secs if TIER == 'quick' else b.search_secs) for b in bs]
        for o, f in zip(obls, fs):
            r = f.result()
            results.append((o, r))
            log('%-10s %-34s %4d/%4d %6.1fs %s' % (r['status'], o.name, r['ok'], r['total'], r['wall_s'], r['reason'][:1200]))
            for x in r['failed'][:20]:
                log('      FAILED', x)
        for b, f in zip(bs, fb):
            r = f.result()
            bres.append((b, r))
            log('%-10s bounded %-28s done=%d skipped=%d %.1fs %s' % (r['status'], b.name, r['done'], r['skipped'], r['wall_s'],
                r['reason'] or r.get('what', '')))
    violations = []   # (what, confirmed, text)
    for b, r in bres:
        if r['status'] == 'fail':
            violations.append(('%s: %s' % (b.name, r['what']), True,
                               'harness %s, real code with ASan/UBSan\n%s\n\nvalues drawn:\n%s\n' % (b.name, r['log'], ' '.join(r['vals'][:4000]))))
    fails = [(o, r) for o, r in results if r['status'] == 'fail']
    confirmed = bool(violations)
    # replay the verifier's counterexample natively where the harness starts from documented preconditions only
    for o, r in fails:
        names = '; '.join('%s [%s] %s:%s' % (f['description'], f['property'], f['file'].replace(REPO + '/', ''), f['line'])
                          for f in r['failed'][:8])
        text = 'failed obligation group %s (functions %s)\n%s\n' % (o.name, ', '.join(o.funcs), names)
        ok = False
        if (o.replay and not confirmed) and time.time() - T0 < BUDGET - 250:
            vals, tr = trace_values(r, work)
            exe, err = native_build(o.file, o.entry, o.replay if isinstance(o.replay, (list, tuple)) else list(o.srcs), o.defs, work, o.name, o.defs if o.srcs else ())
            if exe:
                vf = os.path.join(work, o.name + '.vals')
                open(vf, 'w').write('\n'.join(map(str, vals)))
                rc, out, err, _ = sh([exe, '--replay', vf], 60, env=NATIVE_ENV)
                text += '\nverifier counterexample (values drawn): %s\nreplay on the real code:\n%s\n' % (vals[:4000], out + last(err, 4000))
                ok = 'VP-VIOLATION' in out
            else:
                text += '\nreplay build failed: %s\n' % err
        if ok:
            confirmed = True
        violations.append((names, ok, text))
    # a failed proof without an input: search longer for one through the public interface
    if fails and not confirmed and bs:
        left = BUDGET - (time.time() - T0) - 60
        with ThreadPoolExecutor(NCPU) as ex:
            fb = [ex.submit(run_b, b, work, max(5, min(b.search_secs, left)), b.iters * 1000) for b in bs]
            for b, f in zip(bs, fb):
                r = f.result()
                if r['status'] == 'fail':
                    confirmed = True
                    violations.insert(0, ('%s: %s' % (b.name, r['what']), True,
                               'harness %s, real code with ASan/UBSan\n%s\n\nvalues drawn:\n%s\n' % (b.name, r['log'], ' '.join(r['vals'][:4000]))))
    # an obligation the tools could not generate or decide: the native harness stands in, searching longer
    if not violations and bs and any(r['status'] == 'undecided' for _, r in results):
        left = BUDGET - (time.time() - T0) - 60
        if left > 10:
            with ThreadPoolExecutor(NCPU) as ex:
                fb = [ex.submit(run_b, b, work, min(25, b.search_secs, left), b.iters * 1000) for b in bs]
                for i, (b, f) in enumerate(zip(bs, fb)):
                    r = f.result()
                    if r['status'] != 'undecided':
                        bres[bres.index(next(x for x in bres if x[0] is b))] = (b, r)
                    if r['status'] == 'fail':
                        confirmed = True
                        violations.append(('%s: %s' % (b.name, r['what']), True,
                               'harness %s, real code with ASan/UBSan\n%s\n\nvalues drawn:\n%s\n' % (b.name, r['log'], ' '.join(r['vals'][:4000]))))
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    # soft: frame / unwinding obligations alone, or nothing generated -> bounded verdict
    undecided = [(o, r) for o, r in results if r['status'] == 'undecided']
    unb = [(o, r) for o, r in results if not o.bounded]
    bnd = [(o, r) for o, r in results if o.bounded]
    ob = sum(r['total'] for _, r in unb)
    dis = sum(r['ok'] for _, r in unb)
    proved = [o for o, r in unb if r['status'] == 'ok']
    ev = {
        'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
        'level': spec.get('LEVEL', 'proof'),
        'coverage': {
            'obligations': ob, 'discharged': dis,
            'checker_cmd': 'cbmc 6.11 over goto-cc of the current /repo sources; e.g. ' + (results[0][1]['cmd'] if results else 'none'),
            'trusted_base': spec.get('TRUSTED', []) + [
                'CBMC 6.11 (C front end, goto-instrument contract instrumentation, symbolic execution) and its SAT back end',
                'loop-contract weaver checks/weave.py (inserts loop contracts and ghost assignments; drops nothing)'
                if any(o.weave for o in obls) else 'no source transformation: contract files include the repository sources'],
            'explanation': spec.get('EXPLAIN', ''),
            'functions_under_contract': sorted({f for o in proved for f in o.funcs}),
            'bounded_checks': {'note': 'complete symbolic checks up to the stated bound; not counted in obligations or discharged',
                               'assertions': sum(r['total'] for _, r in bnd), 'held': sum(r['ok'] for _, r in bnd),
                               'functions': sorted({f for o, r in bnd if r['status'] == 'ok' for f in o.funcs}),
                               'bounds': sorted({o.bounded for o, _ in bnd})},
            'functions_not_proved_on_this_run': sorted({f for o, r in results if r['status'] != 'ok' for f in o.funcs}),
            'groups': [{'name': o.name, 'status': r['status'], 'functions': o.funcs, 'obligations': r['total'], 'discharged': r['ok'],
                        'back_end': r['backend'], 'solver_s': round(r['solver_s'], 2),
                        'bounded': o.bounded or '', 'reason': r['reason'][:600]} for o, r in results],
            'solver_s': round(sum(r['solver_s'] for _, r in results), 2),
            'vacuity_guards_failed_as_required': sum(1 for o, r in results if r['status'] == 'ok' and o.expect_reach),
            'bounded_native_runs': [{'name': b.name, 'status': r['status'], 'executions': r['done'], 'rejected': r['skipped'],
                                     'reason': r['reason'][:300], 'note': b.note} for b, r in bres],
        },
        'assumptions': spec.get('ASSUMPTIONS', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(violations),
    }
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    json.dump(ev, open(evp + '.tmp', 'w'), indent=1)
    os.replace(evp + '.tmp', evp)
    for o, r in undecided:
        print('UNDECIDED: property=%s group=%s %s' % (pid, o.name, r['reason'].replace('\n', ' ')[:300]))
    if violations:
        rp = os.path.join(VERIF, 'evidence', '%s.replay.txt' % pid)
        with open(rp, 'w') as f:
            for what, c, text in violations:
                f.write('%s\nreproduced on the real code: %s\n%s\n----\n' % (what, 'yes' if c else 'no', text))
        for what, c, text in violations[:6]:
            print('  ' + what[:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
        return 1
    # frame-only failures with no input: report (the effect left the frame the contract allows)
    print('%s: %d/%d obligations discharged in %d groups, %d bounded groups, %d undecided groups, %.1f s' % (
        pid, dis, ob, len(unb), len(bnd), len(undecided), time.time() - T0))
    return 0


if __name__ == '__main__':
    main()
