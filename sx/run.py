"""Check driver:  python3-vt -m sx.run C01 [quick|thorough]

Loads /repo's current sources through the transformer, explores every harness job of the property symbolically
(one process per job, 8 at a time), replays counterexamples and path witnesses on the untransformed code with the
repository's own interpreter, writes the evidence file and prints the verdict."""
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
NATIVE_PY = os.environ.get('SX_NATIVE_PY', '/opt/venv/bin/python')
SITE = '/opt/venv/lib/python3.12/site-packages'
NUMPY_EXT = os.path.join(REPO, 'segpy-ext', 'segpy_numpy')
QUICK_TOTAL = 780


def native(recs, timeout=600):
    env = dict(os.environ)
    env['PYTHONPATH'] = os.pathsep.join([REPO, NUMPY_EXT, VERIF])
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    p = subprocess.run([NATIVE_PY, '-m', 'sx.native'], input=json.dumps(recs), capture_output=True, text=True, env=env,
                       timeout=timeout, cwd='/')
    if p.returncode != 0:
        raise RuntimeError('native replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout[p.stdout.index('['):])


def load_check(pid):
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.setrecursionlimit(6000)
    from sx import transform
    finder = transform.install({'segpy': REPO, 'segpy_numpy': NUMPY_EXT, 'checks': VERIF})
    return importlib.import_module('checks.' + pid.lower()), finder


class Coverage:
    """Functions of /repo executed symbolically, via sys.monitoring."""

    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, 'sx')
        m.register_callback(self.tool, m.events.PY_START, self.cb)
        m.set_events(self.tool, m.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO + os.sep) and code.co_name not in ('<lambda>', '<genexpr>', '<listcomp>', '<module>'):
            self.seen.add('%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname))
        return sys.monitoring.DISABLE


def child(mod, spec, wfd, deadline, seed, max_witness):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        cov = Coverage()
        from sx import harness
        job = harness.run_job(mod, spec, deadline, max_witness, seed)
        job['functions'] = sorted(cov.seen)
    except MemoryError:
        job = {'name': spec['name'], 'error': 'out of memory'}
    except BaseException as e:
        import traceback
        job = {'name': spec['name'], 'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
    with os.fdopen(wfd, 'wb') as w:
        w.write(json.dumps(job).encode())
    os._exit(0)


def run_jobs(mod, specs, deadline, seed, max_witness, on_done, nproc=8):
    """Fork one process per job; on_done(spec, job) may return True to stop everything."""
    todo = list(reversed(specs))
    running = {}
    while todo or running:
        while todo and len(running) < nproc:
            spec = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(running):
                    os.close(fd)
                d = min(deadline, time.time() + spec.get('budget', 1e9))
                child(mod, spec, w, d, seed, max_witness)
            os.close(w)
            running[r] = (pid, spec, [], time.time())
        ready, _, _ = select.select(list(running), [], [], 1.0)
        stop = False
        for fd in ready:
            pid, spec, buf, t = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                buf.append(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                job = json.loads(b''.join(buf))
            except ValueError:
                job = {'name': spec['name'], 'error': 'worker died (out of memory?)'}
            if on_done(spec, job):
                stop = True
        if time.time() > deadline + 20:
            for fd, (pid, spec, buf, t) in list(running.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                on_done(spec, {'name': spec['name'], 'error': 'hard time limit'})
            running = {}
            for spec in todo:
                on_done(spec, {'name': spec['name'], 'error': 'not started: time limit'})
            return
        if stop:
            for fd, (pid, spec, buf, t) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            return


def load_known(pid):
    """known_findings.jsonl: {"property","id","match":{job?,fn?,message?,inputs?},"what"}; fixed entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get('property') == pid and r.get('status') == 'known':
                    out.append(r)
    return out


def matches(k, spec, cand):
    m = k['match']
    if 'fn' in m and m['fn'] != spec['fn']:
        return False
    if 'message' in m and m['message'] != cand['message']:
        return False
    if 'params' in m and any(spec['params'].get(a) != b for a, b in m['params'].items()):
        return False
    if 'inputs' in m and any(cand['inputs'].get(a) != b for a, b in m['inputs'].items()):
        return False
    return True


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    mod, finder = load_check(pid)
    specs = [s for s in mod.jobs(tier) if only is None or only in s['name']]
    total = getattr(mod, 'TOTAL', {}).get(tier, QUICK_TOTAL if tier == 'quick' else 5400)
    deadline = t0 + total
    known = load_known(pid)
    state = {'violation': None, 'jobs': [], 'unreproduced': [], 'known': {}, 'confirmed': [], 'validated': 0, 'mismatch': []}
    max_witness = 12 if tier == 'quick' else 40

    def rec(spec, inputs):
        return {'module': pid.lower(), 'fn': spec['fn'], 'params': spec['params'], 'inputs': inputs}

    def report(spec, cand, r):
        import hashlib
        d = rec(spec, cand['inputs'])
        d.update(property=pid, message=cand['message'], native=r.get('message'))
        blob = json.dumps(d, indent=1)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha1(blob.encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            f.write(blob)
        for k in known:
            if matches(k, spec, cand):
                state['known'][k['id']] = k
                return False
        state['violation'] = (path, cand['message'], r.get('message'))
        state['confirmed'].append({'job': spec['name'], 'message': cand['message'], 'inputs': cand['inputs'], 'replay': path})
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        print('  job %s: %s | on the real code: %s' % (spec['name'], cand['message'], r.get('message')))
        print('  replay with: PYTHONPATH=%s %s -m sx.native %s' % (os.pathsep.join([REPO, NUMPY_EXT, VERIF]), NATIVE_PY, path))
        return True

    def on_done(spec, job):
        state['jobs'].append((spec, job))
        cands = job.get('candidates', [])
        wits = job.get('witnesses', [])
        sus = job.get('suspects', [])
        if not (cands or wits or sus):
            return False
        recs = [rec(spec, c['inputs']) for c in cands] + [rec(spec, w['inputs']) for w in wits] + [rec(spec, s['inputs']) for s in sus]
        try:
            res = native(recs)
        except Exception as e:
            state['mismatch'].append({'job': spec['name'], 'what': 'replay error: %s' % e})
            return False
        hit = False
        for c, r in zip(cands, res):
            if r['outcome'] in ('violation', 'exception'):
                hit = report(spec, c, r) or hit
                if hit:
                    return True
            else:
                state['unreproduced'].append({'job': spec['name'], 'message': c['message'], 'inputs': c['inputs'],
                                              'native': r['outcome'], 'trace': c.get('trace')})
        for w, r in zip(wits, res[len(cands):]):
            if r['outcome'] in ('violation', 'exception'):
                c = {'message': 'path witness fails on the real code: %s' % r.get('message'), 'inputs': w['inputs']}
                if report(spec, c, r):
                    return True
            elif r['outcome'] == 'ok' and r['observed'] == w['observed'] and r['checks'] == w['checks']:
                state['validated'] += 1
            else:
                state['mismatch'].append({'job': spec['name'], 'inputs': w['inputs'], 'encoding': w['observed'],
                                          'real': r['observed'], 'outcome': r['outcome'], 'checks': [w['checks'], r.get('checks')]})
        for s, r in zip(sus, res[len(cands) + len(wits):]):
            if r['outcome'] in ('violation', 'exception'):
                c = {'message': 'undecided path fails on the real code: %s' % r.get('message'), 'inputs': s['inputs']}
                if report(spec, c, r):
                    return True
        return False

    run_jobs(mod, specs, deadline, seed, max_witness, on_done)
    write_evidence(mod, finder, pid, tier, seed, t0, state, specs)
    ok_jobs = [j for s, j in state['jobs'] if 'error' not in j]
    discharged = sum(j['discharged'] + j['trivial'] for j in ok_jobs)
    for k in state['known'].values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    npaths = sum(j['paths'] for j in ok_jobs)
    inc = {}
    for j in ok_jobs:
        for k, v in j['inconclusive'].items():
            inc[k] = inc.get(k, 0) + v
        if j['unexplored']:
            inc['paths left unexplored (%s)' % j['name']] = j['unexplored']
    for s, j in state['jobs']:
        if 'error' in j:
            inc['%s: %s' % (j['name'], j['error'])] = 1
            if os.environ.get('SX_DEBUG'):
                print(j.get('trace'))
    print('%s %s: jobs=%d paths=%d queries=%d solver=%.1fs discharged=%d (trivial %d) validated=%d inconclusive=%d unreproduced=%d mismatch=%d wall=%.1fs'
          % (pid, tier, len(state['jobs']), npaths, sum(j['queries'] for j in ok_jobs), sum(j['solver_s'] for j in ok_jobs),
             sum(j['discharged'] for j in ok_jobs), sum(j['trivial'] for j in ok_jobs), state['validated'], sum(inc.values()),
             len(state['unreproduced']), len(state['mismatch']), time.time() - t0))
    for k, v in list(inc.items())[:20]:
        print('  INCONCLUSIVE x%d: %s' % (v, k))
    for u in state['unreproduced'][:8]:
        print('  UNREPRODUCED: %s' % json.dumps({k: v for k, v in u.items() if k != 'trace'})[:600])
        if os.environ.get('SX_DEBUG'):
            print(u.get('trace'))
    for u in state['mismatch'][:8]:
        print('  ENCODING MISMATCH: %s' % json.dumps(u)[:900])
    if os.environ.get('SX_DEBUG'):
        for s, j in state['jobs']:
            print('   job', j['name'], {k: v for k, v in j.items() if k in ('paths', 'wall_s', 'solver_s', 'queries', 'realisations', 'reached', 'max_depth', 'stopped', 'aborted')})
    if state['violation']:
        sys.exit(1)
    if discharged == 0:
        print('nothing was decided')
        sys.exit(3)
    sys.exit(0)


def write_evidence(mod, finder, pid, tier, seed, t0, state, specs):
    ok = [(s, j) for s, j in state['jobs'] if 'error' not in j]
    fns = sorted({f for _, j in ok for f in j.get('functions', ())})
    inc = {}
    for _, j in ok:
        for k, v in j['inconclusive'].items():
            inc[k] = inc.get(k, 0) + v
    samples = []
    for s, j in ok:
        for w in j['witnesses'][:1]:
            samples.append({'job': s['name'], 'inputs': shorten(w['inputs'])})
        if len(samples) >= 12:
            break
    cov = {
        'states': sum(j['paths'] for _, j in ok),
        'transitions': sum(j['transitions'] for _, j in ok),
        'traces_validated_against_impl': state['validated'],
        'samples': samples or [{'job': s['name']} for s in specs[:3]],
        'explanation': 'states = symbolic execution paths run to their end; transitions = solver-decided branch points; '
                       'traces validated = path witnesses whose outcome and observations on the unmodified code equal the encoding\'s',
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
        'outside_the_bounds': getattr(mod, 'OUTSIDE', ''),
        'functions_encoded': fns,
        'modules_encoded_from': sorted(finder.loaded.values()),
        'queries': sum(j['queries'] for _, j in ok),
        'verdicts': {k: sum(j['verdicts'][k] for _, j in ok) for k in ('sat', 'unsat', 'unknown')},
        'solver_s': round(sum(j['solver_s'] for _, j in ok), 2),
        'assertions_discharged_by_solver': sum(j['discharged'] for _, j in ok),
        'assertions_discharged_by_simplification': sum(j['trivial'] for _, j in ok),
        'assertions_reached': {k: sum(j['reached'].get(k, 0) for _, j in ok) for k in sorted({m for _, j in ok for m in j['reached']})},
        'jobs': [{'name': j['name'], 'paths': j['paths'], 'queries': j['queries'], 'wall_s': j['wall_s'],
                  'fully_explored': not j['unexplored'] and not j['stopped']} for _, j in ok][:400],
        'jobs_failed': [{'name': j['name'], 'error': j['error']} for _, j in state['jobs'] if 'error' in j],
        'inconclusive_paths': inc,
        'unexplored_paths': sum(j['unexplored'] for _, j in ok),
        'unreproduced_counterexamples': len(state['unreproduced']),
        'encoding_mismatches': len(state['mismatch']),
        'exhaustive': bool(ok) and not inc and not any(j['unexplored'] or j['stopped'] for _, j in ok) and len(ok) == len(specs),
        'known_findings_seen': sorted(state['known']),
        'violations_detail': state['confirmed'],
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
              'z3 is sound; the Python-semantics models of sx (see DESIGN.md) are correct on the operations used (validated by witness replay)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(state['confirmed'])}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def shorten(x):
    s = json.dumps(x)
    if len(s) <= 600:
        return x
    return s[:600] + '...'


if __name__ == '__main__':
    main()
