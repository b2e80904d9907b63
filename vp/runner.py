"""Run the harness entries of one property: explore symbolically, validate the executor against the
native build, replay counterexamples, write evidence."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import build as bld
from . import irparse, symex

HERE = bld.HERE
EVID = os.path.join(HERE, 'evidence')


class Entry:
    """one harness entry point (or one shard of it)"""

    def __init__(self, file, name, time=60, opts=None, fix=None, defs=(), extra=(), seeds=4,
                 thorough=None, tier='quick', memory=True, stubs=(), bounds='', files=None, must=()):
        self.file = file
        self.name = name
        self.time = time
        self.opts = opts or {}
        self.fix = fix or {}
        self.defs = tuple(defs)
        self.extra = tuple(extra)
        self.seeds = seeds
        self.thorough = thorough or {}
        self.tier = tier
        self.memory = memory
        self.stubs = list(stubs)
        self.bounds = bounds
        self.must = list(must)

    def key(self):
        return self.name + (''.join('[%s=%s]' % kv for kv in sorted(self.fix.items())))


def load_known(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            ks = json.load(f)
    except OSError:
        return []
    return [k for k in ks.get('findings', []) if k['property'] == pid and k.get('status') == 'known']


# ---------------------------------------------------------------- worker processes
def _explore(mods, ent, opts, q):
    sys.setrecursionlimit(200000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        e = symex.Engine(mods, opts)
        e.fix = ent.fix
        try:
            e.explore('h_' + ent.name)
        except MemoryError:
            e.incomplete = 'out of memory'
        res = {
            'paths': e.paths, 'ended': e.ended, 'steps': e.steps, 'incomplete': e.incomplete,
            'discharged': e.discharged, 'undecided': {k: v[0] for k, v in e.undecided.items()},
            'unsupported': e.unsupported, 'reached': e.reached, 'wall': getattr(e, 'wall', 0),
            'queries': e.stats.queries, 'qtime': e.stats.time, 'sat': e.stats.sat,
            'unsat': e.stats.unsat, 'unknown': e.stats.unknown, 'interval': e.stats.interval,
            'norm': e.stats.norm, 'forced': e.forced_unknown, 'samples': e.samples,
            'functions': sorted(f for f in e.fn_used if not f.startswith(('_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu', '_ZNSa', '__', '_GLOBAL', 'h_'))),
            'violations': [(v.label, v.kind, v.values, v.info) for v in e.violations],
        }
        q.put(('ok', res))
    except Exception:
        q.put(('err', traceback.format_exc()))


def _concrete(mods, ent, vectors, q):
    sys.setrecursionlimit(200000)
    try:
        e = symex.Engine(mods, dict(ent.opts))
        e.fix = {}
        out = []
        for vals in vectors:
            out.append(run_concrete(e, ent.name, vals))
        q.put(('ok', out))
    except Exception:
        q.put(('err', traceback.format_exc()))


def run_concrete(e, name, vals):
    e.concrete = list(vals)
    e.violations = []
    st = e.initial_state()
    obs = []
    end = 'return'
    try:
        e.run_ctors(st)
        e.push(st, e.ext['h_' + name], [], None)
        e.loop(st, 0)
    except symex.PathEnd as x:
        end = x.kind
    except symex.MemErr as x:
        end = 'memory: ' + str(x)
    except symex.Unsupported as x:
        end = 'unsupported: ' + str(x)
    obs = [(n[1], n[2]) for n in st.events if n[0] == 'observe']
    return (obs, [v.label for v in e.violations], end, sorted(st.checks))


def spawn(target, args, timeout):
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    p = ctx.Process(target=target, args=args + (q,))
    p.start()
    t0 = time.time()
    r = None
    while time.time() - t0 < timeout:
        try:
            r = q.get(timeout=1.0)
            break
        except Exception:
            if not p.is_alive():
                try:
                    r = q.get(timeout=0.5)
                except Exception:
                    r = ('err', 'worker died (exit %s)' % p.exitcode)
                break
    if r is None:
        r = ('err', 'worker timed out')
    try:
        p.kill()
    except Exception:
        pass
    p.join()
    return r


# ---------------------------------------------------------------- native
class Native:
    def __init__(self, b):
        self.b = b
        self.exe = {}
        self.lock = threading.Lock()
        self.runs = 0

    def get(self, ent, san=False):
        k = (ent.file, ent.defs, ent.extra, san)
        with self.lock:
            if k not in self.exe:
                try:
                    self.exe[k] = self.b.native(os.path.join(HERE, 'harness', ent.file + '.cpp'),
                                                extra=[bld.REPO + '/' + x for x in ent.extra],
                                                defs=ent.defs, san=san,
                                                out=os.path.join(self.b.dir, 'n%d%s.exe' % (len(self.exe), '.san' if san else '')))
                except bld.BuildError as ex:
                    self.exe[k] = None
                    self.err = str(ex)
            return self.exe[k]

    def run(self, ent, src, san=False, timeout=20):
        """src: 'seed=N' or list of values.  returns dict"""
        exe = self.get(ent, san)
        if exe is None:
            return {'end': 'nobuild', 'fail': [], 'in': [], 'obs': [], 'reach': [], 'ok': [], 'rc': None, 'err': ''}
        d = tempfile.mkdtemp(prefix='vpr_', dir=self.b.dir)
        out = os.path.join(d, 'out')
        if not isinstance(src, str):
            inp = os.path.join(d, 'in')
            with open(inp, 'w') as f:
                for v in src:
                    f.write('%.17g\n' % v)
            src = inp
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
        self.runs += 1
        try:
            p = subprocess.run([exe, ent.name, out, src], cwd=d, env=env, timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            rc = p.returncode
            err = p.stderr.decode('latin1')[-4000:]
        except subprocess.TimeoutExpired:
            rc = None
            err = 'timeout'
        r = {'rc': rc, 'err': err, 'fail': [], 'in': [], 'obs': [], 'reach': [], 'ok': [], 'end': None, 'range': False}
        try:
            with open(out, errors='replace') as f:
                for ln in f:
                    w = ln.rstrip('\n').split(' ', 1)
                    if w[0] == 'IN':
                        r['in'].append(float(w[1]))
                    elif w[0] == 'OBS':
                        n, v = w[1].rsplit(' ', 1)
                        r['obs'].append((n, float(v)))
                    elif w[0] == 'FAIL':
                        lab, info = w[1].split('\t', 1)
                        r['fail'].append((lab, info))
                    elif w[0] == 'OK':
                        r['ok'].append(w[1])
                    elif w[0] == 'REACH':
                        r['reach'].append(w[1])
                    elif w[0] == 'RANGE':
                        r['range'] = True
                    elif w[0] in ('ASSUME', 'EXHAUSTED', 'RETURN', 'EXIT', 'END'):
                        if r['end'] is None or w[0] in ('ASSUME', 'EXHAUSTED'):
                            r['end'] = w[0]
        except OSError:
            pass
        subprocess.run(['rm', '-rf', d])
        return r


def close(a, b):
    if isinstance(a, bool):
        a = float(a)
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))


class Check:
    def __init__(self, pid, entries, assumptions=(), level='model_checking', title=''):
        self.pid = pid
        self.entries = entries
        self.assumptions = list(assumptions)
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.out = []
        self.confirmed = []
        self.known_hit = []
        self.incon = []
        self.t0 = time.time()

    def say(self, s):
        print(s, flush=True)
        self.out.append(s)

    # ------------------------------------------------------------ main
    def run(self):
        b = bld.Build()
        try:
            return self._run(b)
        finally:
            b.close()

    def _run(self, b):
        ents = [e for e in self.entries if self.tier == 'thorough' or e.tier == 'quick']
        self.native = Native(b)
        nat_thread = threading.Thread(target=self._build_native, args=(ents,))
        mods_cache = {}
        try:
            libir = b.many(b.ir_one, [(s, ()) for s in b.lib_sources()])
        except bld.BuildError as ex:
            self.say('ERROR: /repo does not compile: %s' % str(ex)[:1500])
            return self.finish({}, 2)
        results = {}
        jobs = []
        for e in ents:
            k = (e.file, e.defs, e.extra)
            if k not in mods_cache:
                try:
                    srcs = [(os.path.join(HERE, 'harness', e.file + '.cpp'), ('-DVP_SYM',) + e.defs)]
                    srcs += [(bld.REPO + '/' + x, e.defs) for x in e.extra]
                    hir = b.many(b.ir_one, srcs)
                    mods_cache[k] = hir
                except bld.BuildError as ex:
                    self.say('INCONCLUSIVE: harness %s does not compile against /repo: %s' % (e.file, str(ex)[-1500:]))
                    mods_cache[k] = None
        nat_thread.start()
        sem = threading.Semaphore(7)
        libmods = {}

        texts = {l: open(l).read() for l in libir}

        def mods_for(k):
            m = libmods.get(k)
            if m is None:
                m = [irparse.Module(open(x).read(), x) for x in mods_cache[k]]
                m += [irparse.Module(texts[x], x) for x in libir]
                libmods[k] = m
            return m

        lock = threading.Lock()

        def job(e):
            k = (e.file, e.defs, e.extra)
            if mods_cache[k] is None:
                return
            opts = dict(e.opts)
            opts['time'] = e.time
            if self.tier == 'thorough':
                opts.update({'time': max(e.time * 4, 600), 'p_timeout': 30000, 'q_timeout': 4000})
                opts.update(e.thorough)
            with lock:
                m = mods_for(k)
            with sem:
                r = spawn(_explore, (m, e, opts), opts['time'] + 120)
            results[e.key()] = (e, r)

        ths = []
        for e in sorted(ents, key=lambda x: -x.time):
            t = threading.Thread(target=job, args=(e,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        nat_thread.join()
        self.validate(ents, mods_cache, mods_for, results)
        self.judge(results)
        for v in self.valfail:
            self.confirm(*v)
        return self.finish(results)

    def _build_native(self, ents):
        for e in ents:
            self.native.get(e)

    # ------------------------------------------------------------ executor validation
    def validate(self, ents, mods_cache, mods_for, results):
        self.validated = 0
        self.val_obs = 0
        self.mismatch = []
        seen = set()
        jobs = []
        import concurrent.futures as cf

        def one(e):
            if self.native.get(e) is None:
                self.incon.append('native build of harness %s failed: %s' % (e.file, getattr(self.native, 'err', '')[-800:]))
                return
            vecs = []
            nats = []
            n = e.seeds
            s = self.seed * 1000
            tried = 0
            while len(vecs) < n and tried < 12 * max(n, 1):
                tried += 1
                r = self.native.run(e, 'seed=%d' % (s + tried))
                for lab, info in r['fail']:
                    self.valfail.append((e, lab, r['in'], info, 'native run with random inputs'))
                e_reach = r['reach']
                self.reach_nat.setdefault(e.name, set()).update(e_reach)
                if r['end'] == 'ASSUME':
                    continue
                if r['rc'] is not None and r['rc'] < 0 and e.memory:
                    self.valfail.append((e, 'crash', r['in'], 'signal %d' % -r['rc'], 'native run with random inputs'))
                    continue
                if r['rc'] is None:
                    continue
                vecs.append(r['in'])
                nats.append(r)
            if not vecs:
                return
            k = (e.file, e.defs, e.extra)
            res = spawn(_concrete, (mods_for(k), e, vecs), 240)
            if res[0] != 'ok':
                self.incon.append('executor validation of %s: %s' % (e.name, res[1][-600:]))
                return
            for r, (obs, fails, end, checks) in zip(nats, res[1]):
                if str(end).startswith('unsupported'):
                    self.incon.append('executor validation of %s: %s' % (e.name, end))
                    continue
                bad = None
                if len(obs) != len(r['obs']):
                    bad = 'number of observations %d vs native %d (end %s / %s)' % (len(obs), len(r['obs']), end, r['end'])
                else:
                    for (n1, v1), (n2, v2) in zip(obs, r['obs']):
                        if n1 != n2 or not close(v1, v2):
                            bad = '%s=%r vs native %s=%r' % (n1, v1, n2, v2)
                            break
                if bad is None and set(fails) != set(l for l, _ in r['fail']):
                    bad = 'check outcome %r vs native %r' % (fails[:3], r['fail'][:3])
                if bad:
                    self.mismatch.append('%s: %s' % (e.name, bad))
                else:
                    self.validated += 1
                    self.val_obs += len(obs)

        self.reach_nat = {}
        self.valfail = []
        for e in ents:
            k = (e.file, e.defs, e.extra)
            if mods_cache[k] is None or (e.file, e.name, e.defs) in seen:
                continue
            seen.add((e.file, e.name, e.defs))
            mods_for(k)
            jobs.append(e)
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            list(ex.map(one, jobs))
        for m in self.mismatch:
            self.say('NOTE: executor/native mismatch: ' + m)

    # ------------------------------------------------------------ verdicts
    def confirm(self, e, label, vals, info, how):
        for c in self.confirmed:
            if c[0].name == e.name and c[1] == label:
                return
        self.confirmed.append((e, label, list(vals), info, how))

    def judge(self, results):
        for key, (e, r) in sorted(results.items()):
            if r[0] != 'ok':
                self.incon.append('%s: %s' % (key, r[1][-800:]))
                continue
            res = r[1]
            for label, kind, vals, info in res['violations']:
                if any(c[0].name == e.name and c[1] == label for c in self.confirmed):
                    continue
                ok = False
                for v in (vals or []):
                    n = self.native.run(e, v)
                    if n['end'] == 'ASSUME' or n['range']:
                        continue
                    if kind == 'memory' and e.memory:
                        ns = self.native.run(e, v, san=True)
                        if 'AddressSanitizer' in ns['err'] or (ns['rc'] is not None and ns['rc'] < 0):
                            sm = [l for l in ns['err'].split('\n') if 'SUMMARY' in l or 'ERROR' in l][:2]
                            self.confirm(e, label, v, info + ' | ' + ' '.join(sm), 'solver counterexample replayed under AddressSanitizer')
                            ok = True
                    for lab, inf in n['fail']:
                        self.confirm(e, lab, v, inf, 'solver counterexample replayed natively')
                        ok = True
                    if n['rc'] is not None and n['rc'] < 0 and e.memory:
                        self.confirm(e, label, v, 'signal %d' % -n['rc'], 'solver counterexample replayed natively')
                        ok = True
                    if ok:
                        break
                if not ok:
                    if kind == 'candidate':
                        continue
                    self.incon.append('%s: counterexample for "%s" did not reproduce natively (%s)' % (key, label, info[:200]))
            open_labels = dict(res['undecided'])
            for label in open_labels:
                self.incon.append('%s: "%s" undecided on %d path(s)' % (key, label, open_labels[label]))
            if open_labels or res['incomplete'] or res['unsupported'] or any(
                    i.startswith(key) for i in self.incon):
                # search for a concrete witness of an obligation the solver left open
                t1 = time.time()
                n = 0
                while time.time() - t1 < (20 if self.tier == 'quick' else 120) and n < 3000:
                    n += 1
                    nr = self.native.run(e, 'seed=%d' % (self.seed * 100000 + 777 + n))
                    if nr['rc'] is None:
                        break
                    for lab, inf in nr['fail']:
                        self.confirm(e, lab, nr['in'], inf, 'concrete search for an obligation the solver left open')
                    if nr['fail']:
                        break
            if res['unsupported']:
                self.incon.append('%s: not encodable on some paths: %s' % (key, dict(list(res['unsupported'].items())[:4])))
            if res['incomplete']:
                self.incon.append('%s: exploration stopped: %s' % (key, res['incomplete']))
            if not any(x.startswith('reach:') for x in res['reached']):
                others = [r2[1] for k2, (e2, r2) in results.items() if e2.name == e.name and r2[0] == 'ok']
                if any(any(x.startswith('reach:') for x in o['reached']) for o in others):
                    continue
                if not self.reach_nat.get(e.name) and not res['unsupported'] and res['paths'] > 0 and not res['incomplete']:
                    self.confirm(e, 'reach', [], 'no input reaches the end of the scenario (ends: %s)' % res['ended'],
                                 'symbolic exploration and native runs')
                else:
                    self.incon.append('%s: end of scenario not reached (%s)' % (key, res['ended']))

    def finish(self, results, rc=None):
        known = load_known(self.pid)
        nviol = 0
        os.makedirs(EVID, exist_ok=True)
        ok_entries = [r for e, r in results.values() if r[0] == 'ok' and r[1]['paths'] > 0]
        for e, label, vals, info, how in self.confirmed:
            kf = [k for k in known if k['entry'] == e.name and k['label'] == label]
            if kf:
                self.say('KNOWN-FINDING: property=%s %s' % (self.pid, kf[0]['what']))
                self.known_hit.append(kf[0]['id'])
                continue
            nviol += 1
            safe = ''.join(c if c.isalnum() else '_' for c in label)[:60]
            path = os.path.join(EVID, 'replay_%s_%s_%s.json' % (self.pid, e.name, safe))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'harness': e.file, 'entry': e.name, 'label': label,
                           'inputs': vals, 'info': info, 'how': how, 'defs': e.defs, 'extra': e.extra,
                           'replay': 'python3-vt check.py --replay ' + path}, f, indent=1)
            self.say('  violated: "%s" in %s: %s (%s)' % (label, e.name, info, how))
            self.say('VIOLATION property=%s replay=%s' % (self.pid, path))
        for i in self.incon:
            self.say('INCONCLUSIVE: ' + i)
        S = lambda f: sum(f(r[1]) for e, r in results.values() if r[0] == 'ok')
        cov = {
            'states': S(lambda r: r['paths']),
            'transitions': S(lambda r: r['steps']),
            'traces_validated_against_impl': getattr(self, 'validated', 0),
            'samples': [],
            'queries': S(lambda r: r['queries']), 'queries_unsat': S(lambda r: r['unsat']),
            'queries_sat': S(lambda r: r['sat']), 'queries_unknown': S(lambda r: r['unknown']),
            'decided_by_intervals': S(lambda r: r['interval']),
            'decided_by_normal_form': S(lambda r: r['norm']),
            'solver_time_s': round(S(lambda r: r['qtime']), 2),
            'obligations_discharged': S(lambda r: sum(r['discharged'].values())),
            'obligations_undecided': S(lambda r: sum(r['undecided'].values())),
            'observations_compared_with_native': getattr(self, 'val_obs', 0),
            'native_runs': getattr(getattr(self, 'native', None), 'runs', 0),
            'functions_encoded': sorted(set(sum((r[1]['functions'] for e, r in results.values() if r[0] == 'ok'), []))),
            'inconclusive': self.incon,
            'known_findings': self.known_hit,
            'entries': {},
        }
        for key, (e, r) in sorted(results.items()):
            if r[0] == 'ok':
                x = r[1]
                cov['entries'][key] = {'bounds': e.bounds, 'stubs': e.stubs, 'paths': x['paths'], 'ended': x['ended'],
                                       'labels_proved': x['discharged'], 'undecided': x['undecided'],
                                       'reached': x['reached'], 'incomplete': x['incomplete'],
                                       'wall_s': round(x['wall'], 2), 'queries': x['queries'],
                                       'solver_time_s': round(x['qtime'], 2)}
                cov['samples'] += x['samples'][:2]
            else:
                cov['entries'][key] = {'error': r[1][-500:]}
        cov['samples'] = cov['samples'][:8]
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': nviol}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.say('%s: %d paths, %d obligations proved, %d undecided, %d queries (%.1fs solver), %d native runs validated, %.1fs' % (
            self.pid, cov['states'], cov['obligations_discharged'], cov['obligations_undecided'],
            cov['queries'], cov['solver_time_s'], cov['traces_validated_against_impl'], ev['wall_s']))
        if nviol:
            return 1
        if rc is not None:
            return rc
        if not ok_entries:
            return 2
        return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if r['harness'] == 'pyharness':
        from . import pyprops
        return pyprops.replay(r)
    b = bld.Build()
    try:
        n = Native(b)
        e = Entry(r['harness'], r['entry'], defs=r['defs'], extra=r['extra'])
        x = n.run(e, r['inputs'])
        for lab, info in x['fail']:
            print('FAIL %s: %s' % (lab, info))
        if not x['fail']:
            y = n.run(e, r['inputs'], san=True)
            print(y['err'][-2000:] or 'no failure reproduced')
            return 1 if 'AddressSanitizer' in y['err'] else 0
        return 1
    finally:
        b.close()
