"""Properties of the analysis package (tools/CGMFtk): run the scenarios of pyharness.py symbolically,
confirm counterexamples with the unmodified interpreter, numpy and package."""
import os
import random
import sys
import threading
import time
import traceback

from . import pyharness, pysym, runner

EXACT = 'floats are exact reals in the encoding; rounding is covered only by the stated tolerances'
TEXT = 'numbers in the file are unknowns written and read as opaque words; decimal conversion itself is Python\'s own'
NUMPY = 'numpy runs on object arrays of solver terms; constructors, conversions and loadtxt are modelled, everything else is numpy\'s own code'


class S(runner.Entry):
    def __init__(self, name, time, bounds, tier='quick'):
        super().__init__('pyharness', name, time, bounds=bounds, tier=tier)


PROPS = {
    'P19': [
        S('read', 200, 'one event, 0..2 neutrons and photons per fragment, 0..2 pre-fission neutrons, with and without emission times'),
        S('readTwo', 400, 'two events of 0..1 particles of each kind, reading 0..3 events'),
        S('readThree', 100, 'three events of equal or different multiplicities'),
        S('header', 60, 'any target, energy and window')],
    'P20': [
        S('neutronNumbers', 100, 'two events, 0..2 neutrons per fragment, 0..1 pre-fission'),
        S('neutronCut', 100, 'two events, any energies and threshold (energies exactly at the threshold excluded)'),
        S('neutronPnuCut', 200, 'two events, any energies and threshold'),
        S('neutronMeans', 100, 'two events, 0..2 neutrons per fragment, 0..2 pre-fission'),
        S('pfns', 400, 'four neutrons of two events, one of them at any energy'),
        S('pfnsCut', 200, 'four neutrons, any threshold up to 2 MeV'),
        S('summary', 100, 'two events, every field an unknown')],
    'P21': [
        S('photonNumbers', 100, 'two events, 0..2 photons per fragment'),
        S('photonCut', 100, 'two events, any energies and threshold'),
        S('photonTime', 300, 'two events, any ages, two times given as list or array, with and without threshold'),
        S('photonTimeDefault', 100, 'one event, any ages, default times'),
        S('pfgs', 500, 'three photons of two events, one of them at any energy'),
        S('pfgsCut', 100, 'three photons, any threshold and time window'),
        S('gammaMultiplicity', 500, 'three photons, one at any time, any threshold, one nuclide or all'),
        S('gammaSpec', 200, 'one or two gates of any energy and width, 0..2 photons per fragment'),
        S('isomericRatio', 100, 'two events, any ages and threshold, isomer of higher or lower spin')],
    'P22': [
        S('ffAngles', 100, 'two events, any momenta of at least 1 MeV/c'),
        S('nAngles', 200, 'two events, any directions, energies, threshold; lab or cm; with and without pre-fission neutrons'),
        S('nfAngles', 400, 'two events, any directions and momenta, threshold; before and after emission'),
        S('nnAngles', 100, 'two events, 0..3 neutrons per fragment, lab or cm')],
    'P23': [
        S('massAverages', 200, 'two events, equal or different masses, any energies, spins and kinetic energies'),
        S('massPhotonsCut', 60, 'three photons, any threshold'),
        S('tkeAverages', 200, 'two events whose kinetic energies differ by up to 3 MeV')],
    'P24': [S('yields', 200, 'one to three events, reading 0..3 of them')],
}


def _functions(fn):
    """functions of the package called along one execution"""
    out = set()

    def prof(frame, ev, arg):
        f = frame.f_code.co_filename
        if ev == 'call' and f.startswith(pyharness.REPO):
            out.add(os.path.basename(f) + ':' + frame.f_code.co_name)
    c = pysym.Sym([], pysym.Stats())
    pysym.CUR = c
    sys.setprofile(prof)
    try:
        fn(c)
    except BaseException:
        pass
    finally:
        sys.setprofile(None)
        pysym.CUR = None
    return sorted(out)


def _work(name, budget, seed, tier, q):
    sys.setrecursionlimit(100000)
    fn = getattr(pyharness, name)
    try:
        r = pysym.explore(fn, budget)
        r['functions'] = _functions(fn)
        conf = []    # (label, values, info, how)
        lost = []
        val = 0
        obs = 0
        for label, kind, vecs, info in r['violations']:
            if any(x[0] == label for x in conf):
                continue
            hit = False
            for v in vecs:
                c, end = pysym.concrete(fn, v)
                if end == 'assume':
                    continue
                for lab, inf in c.fails:
                    if not any(x[0] == lab for x in conf):
                        conf.append((lab, v, inf, 'solver counterexample replayed with the package itself'))
                    hit = True
                if hit:
                    break
            if not hit:
                lost.append('counterexample for "%s" did not reproduce %s' % (label, info))
        for v in r['vectors'] + r.get('unsvec', [])[:20]:
            c, end = pysym.concrete(fn, v)
            for lab, inf in c.fails:
                if not any(x[0] == lab for x in conf):
                    conf.append((lab, v, inf, 'concrete run of a vector chosen by the solver'))
            if end == 'return':
                val += 1
                obs += len(c.ok)
        r['confirmed'] = conf
        r['lost'] = lost
        r['validated'] = val
        r['obs'] = obs
        r.pop('vectors', None)
        r.pop('unsvec', None)
        q.put(('ok', r))
    except Exception:
        q.put(('err', traceback.format_exc()))
    finally:
        pyharness.cleanup()


def run(pid, only=()):
    ck = runner.Check(pid, PROPS[pid], [EXACT, TEXT, NUMPY])
    ents = [e for e in PROPS[pid] if (ck.tier == 'thorough' or e.tier == 'quick') and (not only or e.name in only)]
    results = {}
    sem = threading.Semaphore(8)

    def job(e):
        b = e.time * (3 if ck.tier == 'thorough' else 1)
        with sem:
            results[e.key()] = (e, runner.spawn(_work, (e.name, b, ck.seed, ck.tier), b + 120))
    ths = [threading.Thread(target=job, args=(e,)) for e in sorted(ents, key=lambda x: -x.time)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    ck.validated = ck.val_obs = 0
    for key, (e, r) in sorted(results.items()):
        if r[0] != 'ok':
            ck.incon.append('%s: %s' % (key, r[1][-800:]))
            continue
        x = r[1]
        ck.validated += x['validated']
        ck.val_obs += x['obs']
        for lab, v, inf, how in x['confirmed']:
            ck.confirm(e, lab, v, inf, how)
        for l in x['lost']:
            ck.incon.append('%s: %s' % (key, l))
        for l, n in x['undecided'].items():
            ck.incon.append('%s: "%s" undecided on %d path(s)' % (key, l, n))
        if x['unsupported']:
            ck.incon.append('%s: not encodable on some paths: %s' % (key, dict(list(x['unsupported'].items())[:4])))
        if x['incomplete'] and not x['confirmed']:
            ck.incon.append('%s: exploration stopped: %s' % (key, x['incomplete']))
        if not x['reached'] and not x['confirmed']:
            ck.incon.append('%s: end of scenario not reached (%s)' % (key, x['ended']))
    return ck.finish(results)


def replay(r):
    c, end = pysym.concrete(getattr(pyharness, r['entry']), r['inputs'])
    pyharness.cleanup()
    for lab, info in c.fails:
        print('FAIL %s: %s' % (lab, info))
    if not c.fails:
        print('no failure reproduced (%s)' % end)
    return 1 if c.fails else 0
