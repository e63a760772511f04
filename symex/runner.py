"""Runs the harnesses of one property, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def run_one(args):
    prop, name, tier, seed = args
    t0 = time.time()
    out = {'harness': name, 'status': 'ok', 'cexs': [], 'msg': ''}
    try:
        from . import core, load
        reg = importlib.import_module('checks.' + prop).REG
        h = [x for x in reg if x.name == name][0]
        o = dict(h.opts)
        o.pop('tier', None)
        optional = o.pop('optional', False)
        fresh = o.pop('fresh', False)
        stubs = o.pop('stubs', None)
        timeout = o.pop('timeout', 300 if tier == 'quick' else 3000)
        root = os.path.join(REPO, 'sumo-api')
        world = [None]

        def make():
            w = load.World(root, stubs(None) if stubs else None)
            w.concrete = False
            from . import snp
            w.np = snp.NP
            if not fresh:
                for m in h.mods:
                    w.module(m)
            return w
        if not fresh:
            try:
                world[0] = make()
            except Exception as e:
                out.update(status='inconclusive', msg='loading the sources failed: %r\n%s' % (
                    e, traceback.format_exc()))
                return out

        def body(c):
            w = world[0] if not fresh else make()
            world[0] = w
            h.fn(c, w)
        ex = core.Explorer(body, timeout=timeout, seed=seed, name=name,
                           validate=(8 if tier == 'thorough' else 0), **o)
        try:
            cexs = ex.run()
            out['cexs'] = cexs
            if cexs:
                out['status'] = 'cex'
            elif not ex.stats.checks:
                out.update(status='inconclusive', msg='vacuous: no assertion was reached')
        except core.EngineStop as e:
            out['cexs'] = ex.cexs
            soft = optional and isinstance(e, core.Inconclusive) and tier == 'quick'
            out.update(status='cex' if ex.cexs else 'undecided' if soft else 'inconclusive',
                       msg='%s: %s' % (type(e).__name__, e) + (
                           '\n' + traceback.format_exc() if os.environ.get('SYMEX_DEBUG') else ''))
        s = ex.stats
        out['stats'] = {'paths': s.paths, 'queries': s.queries, 'branch_queries': s.branch_queries,
                        'solver_s': round(s.solver_s, 3), 'assertions': s.checks,
                        'proved': s.unsat, 'max_decisions': s.maxpath, 'samples': s.samples[:4],
                        'engines': s.engines}
        out['witnesses'] = s.witnesses
        out['loaded'] = load.describe(world[0]) if world[0] else []
    except BaseException as e:
        out.update(status='inconclusive', msg='engine error: %r\n%s' % (e, traceback.format_exc()))
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def _child(task, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    r = run_one(task)
    q.send(r)
    q.close()


def run_all(prop, harnesses, tier, seed, jobs=8, limit=840):
    """one process per harness, `jobs` at a time"""
    pending = [(prop, h.name, tier, seed) for h in harnesses]
    running, results = [], []
    ctx = mp.get_context('fork')
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            task = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(task, w))
            p.start()
            w.close()
            running.append((task, p, r))
        for item in list(running):
            task, p, r = item
            if r.poll(0.02):
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append({'harness': task[1], 'status': 'inconclusive', 'cexs': [],
                                    'msg': 'worker died', 'wall_s': 0})
                p.join()
                running.remove(item)
            elif not p.is_alive():
                results.append({'harness': task[1], 'status': 'inconclusive', 'cexs': [],
                                'msg': 'worker died (exit %s)' % p.exitcode, 'wall_s': 0})
                running.remove(item)
            elif time.time() - t0 > limit:
                p.kill()
                results.append({'harness': task[1], 'status': 'inconclusive', 'cexs': [],
                                'msg': 'out of time', 'wall_s': limit})
                running.remove(item)
        time.sleep(0.01)
    return results


class Scratch(object):
    """a scratch build of the current /repo, made on first use, removed at the end"""
    def __init__(self):
        self.dir = None
        self.log = ''

    def build(self):
        if self.dir:
            return self.dir
        d = tempfile.mkdtemp(prefix='symex-build-')
        self.dir = d
        src = os.path.join(REPO, 'sumo-api')
        dst = os.path.join(d, 'sumo-api')
        shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns(
            '*.so', 'build', '__pycache__', '*.o'))
        script = '. /opt/vp/env.sh && cd %s && export CCACHE_READONLY=1 CCACHE_NOHASHDIR=1 CCACHE_TEMPDIR=%s && ' \
            '"$PY" %s -q build_ext --inplace --force -j8' % (dst, d, os.path.join(ROOT, 'symex', 'buildext.py'))
        r = subprocess.run(['bash', '-c', script], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=700)
        self.log = r.stdout.decode(errors='replace')[-3000:]
        if r.returncode != 0:
            raise RuntimeError('scratch build failed\n' + self.log)
        return d

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


def real_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH='/opt/vp/compat:' + os.path.join(scratch, 'sumo-api'),
             PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
             PYTHONHASHSEED='0', MPLCONFIGDIR=os.path.join(scratch, 'mpl'))
    return e


def replay(scratch, prop, harness, values, path=None):
    """run one harness on one concrete input against the real build
    -> ('violated'|'held'|'n/a'|'error', text)"""
    data = {'property': prop, 'harness': harness, 'input': values}
    if path is None:
        fd, path = tempfile.mkstemp(suffix='.json', dir=scratch)
        os.close(fd)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(ROOT, 'bin', 'replay.py'), path],
                       env=real_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300, cwd=scratch)
    txt = r.stdout.decode(errors='replace')
    st = {10: 'violated', 0: 'held', 11: 'n/a'}.get(r.returncode, 'error')
    if r.returncode < 0:
        st = 'violated'
        txt += '\nprocess died with signal %d' % -r.returncode
    return st, txt[-3000:]


def confirm(prop, results, scratch, violations, problems, deadline):
    """replay the solver's counterexamples on the real build, several at a time, until one is confirmed"""
    from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
    queues = []
    for r in results:
        if r['status'] == 'cex':
            queues.append([(r, cx, v) for cx in r['cexs'] for v in cx['candidates']])
        elif r['status'] not in ('ok', 'undecided'):
            problems.append('%s: %s' % (r['harness'], r['msg']))
    if not queues:
        return
    try:
        d = scratch.build()
    except Exception as e:
        problems.append('%s' % e)
        return
    tasks = [q[i] for i in range(max(map(len, queues))) for q in queues if i < len(q)]
    notes = {}
    hits = {}
    with ThreadPoolExecutor(6) as ex:
        running = {}
        while (tasks and not hits) or running:
            while tasks and not hits and len(running) < 6 and time.time() < deadline:
                t = tasks.pop(0)
                if os.environ.get("SYMEX_SHOW"):
                    print("  candidate", t[0]['harness'], json.dumps(t[2]))
                running[ex.submit(replay, d, prop, t[0]['harness'], t[2])] = t
            if not running:
                break
            done, _ = wait(list(running), return_when=FIRST_COMPLETED)
            for f in done:
                r, cx, v = running.pop(f)
                try:
                    s, txt = f.result()
                except Exception as e:
                    s, txt = 'error', repr(e)
                notes.setdefault(r['harness'], []).append('[%s] %s -> %s' % (
                    cx['label'], s, txt.strip().split('\n')[-1] if txt.strip() else ''))
                if s == 'violated':
                    hits.setdefault(r['harness'], (cx, v, txt))
    for name, (cx, v, txt) in sorted(hits.items()):
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'harness': name, 'input': v,
                       'assertion': cx['label'], 'real_run': txt}, f, indent=1)
        violations.append((name, cx['label'], path))
        print('  counterexample %s' % json.dumps(v))
        print('  real code: ' + txt.strip()[-600:])
    if not hits:
        for r in results:
            if r['status'] == 'cex':
                problems.append('%s: solver counterexample does not reproduce on the real build: %s; %s' % (
                    r['harness'], '\n    '.join(notes.get(r['harness'], ['not replayed'])[:20]),
                    (r['cexs'][0].get('info') or '')[-1500:]))


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in argv[1:]:
        if a.startswith('--tier='):
            tier = a.split('=')[1]
        elif a.startswith('--only='):
            only = a.split('=')[1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    m = importlib.import_module('checks.' + prop)
    hs = [h for h in m.REG if tier == 'thorough' or h.opts.get('tier') == 'quick']
    if only:
        hs = [h for h in m.REG if h.name in only]
    if getattr(m, 'CPP', False):
        from . import cppast            # parsed once, shared by the workers
        try:
            cppast.load(os.path.join(REPO, 'sumo-api'))
        except Exception as e:
            print('INCONCLUSIVE the C++ sources could not be read: %r' % e)
            return 2
    limit = 780 if tier == 'quick' else 3 * 3600
    results = run_all(prop, hs, tier, seed, limit=limit)
    results.sort(key=lambda r: [h.name for h in hs].index(r['harness']))
    scratch = Scratch()
    violations, problems, known, validated = [], [], [], 0
    try:
        for r in results:
            st = r.get('stats', {})
            print('%-34s %-12s paths=%-5s queries=%-5s proved=%-5s solver=%ss wall=%ss %s' % (
                r['harness'], r['status'], st.get('paths'), st.get('queries'), st.get('proved'),
                st.get('solver_s'), r.get('wall_s'), r['msg'] if r['status'] != 'ok' else ''), flush=True)
        confirm(prop, results, scratch, violations, problems, t0 + (840 if tier == 'quick' else 4 * 3600))
        if tier == 'thorough' and not violations and not os.environ.get('SYMEX_NOVALIDATE'):
            # translator validation: witnesses of explored paths through the real build
            for r in results:
                for v in r.get('witnesses', []):
                    h = [x for x in hs if x.name == r['harness']][0]
                    if h.opts.get('novalidate'):
                        continue
                    s, txt = replay(scratch.build(), prop, r['harness'], v)
                    if s == 'held':
                        validated += 1
                    elif s != 'n/a':
                        problems.append('%s: a path witness behaves differently on the real build (%s): %s\n   %s' % (
                            r['harness'], s, json.dumps(v), txt[-800:]))
    finally:
        scratch.close()
    wall = round(time.time() - t0, 2)
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    files = sorted(set(f for r in results for f in r.get('loaded', [])))
    level = getattr(m, 'LEVEL', 'model_checking')
    cov = {
        'states': tot('paths'),
        'transitions': tot('branch_queries'),
        'traces_validated_against_impl': validated,
        'samples': [s for r in results for s in r.get('stats', {}).get('samples', [])][:12],
        'explanation': 'states = symbolic paths explored to the end; transitions = branch-feasibility '
                       'queries; each obligation is one solver query over all values on one path',
        'functions_encoded': getattr(m, 'FUNCTIONS', []),
        'source_files_interpreted': files,
        'bounds': {h.name: h.bounds for h in hs},
        'queries': tot('queries'),
        'obligations': sum(sum(r.get('stats', {}).get('assertions', {}).values()) for r in results),
        'discharged': tot('proved'),
        'solver_seconds': round(tot('solver_s'), 2),
        'undecided': {r['harness']: (r['msg'] or r['status'])[:500] for r in results if r['status'] not in ('ok',)
                      and not any(v[0] == r['harness'] for v in violations)},
        'harnesses': {r['harness']: {'status': r['status'], 'wall_s': r.get('wall_s'),
                                     **{k: v for k, v in r.get('stats', {}).items() if k != 'samples'}}
                      for r in results},
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': level, 'coverage': cov,
          'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
          'wall_s': wall, 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    kf = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith('finding: property=%s ' % prop):
                print('KNOWN-FINDING: ' + line[len('finding: '):].strip())
    for r in results:
        if r['status'] == 'undecided':
            print('UNDECIDED within the time of the quick tier (not part of the claim of this run): ' + r['harness'])
    decided = [r for r in results if r['status'] == 'ok']
    if not decided:
        problems.append('nothing was decided')
    # the quick tier answers for what it could explore, as long as that is something; the thorough tier wants everything
    lenient = tier == 'quick' and decided and not os.environ.get('SYMEX_STRICT')
    for p in problems:
        print(('UNDECIDED (not part of the claim of this run) ' if lenient else 'INCONCLUSIVE ') + p)
    for h, label, path in violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if problems and not lenient:
        return 2
    print('OK %s: %d paths, %d queries, %d obligations discharged, %.1fs%s' % (
        prop, cov['states'], cov['queries'], cov['discharged'], wall,
        '' if len(decided) == len(results) else ', %d of %d harnesses decided' % (len(decided), len(results))))
    return 0


COMMON_ASSUMPTIONS = [
    'numbers are mathematical integers/reals: floating-point rounding, overflow, NaN and infinities '
    'of the inputs are outside the claim unless a harness states otherwise',
    'numpy, math and Eigen leaf operations behave as modelled in symex/ (validated by replaying path '
    'witnesses on the real build in the thorough tier)',
]
