"""Scenarios for the analysis package (tools/CGMFtk).  A scenario writes a history or yields file whose
numbers are unknowns, has the real package read it, and compares what the package reports with the
definition of the quantity, computed from the unknowns."""
import os
import tempfile

import numpy as np

from . import pysym

REPO = os.environ.get('VP_REPO', '/repo')
_DIR = None


def scratch():
    global _DIR
    if _DIR is None or _DIR[0] != os.getpid():
        _DIR = (os.getpid(), tempfile.mkdtemp(prefix='vppy_'))
    return _DIR[1]


def cleanup():
    global _DIR
    if _DIR and _DIR[0] == os.getpid():
        for f in os.listdir(_DIR[1]):
            os.unlink(os.path.join(_DIR[1], f))
        os.rmdir(_DIR[1])
        _DIR = None


def module(c, name):
    return pysym.load(os.path.join(REPO, 'tools/CGMFtk', name + '.py'), c.symbolic)


class Frag:
    pass


def vec(c, n, r=1.0):
    return [c.real(n + x, -r, r) for x in 'uvw']


def part(c, n, times=False):
    """a particle: direction cosines, energy, time"""
    p = Frag()
    p.dir = vec(c, n)
    p.E = c.real(n + 'E', 0, 30)
    p.t = c.real(n + 't', 0, 2) if times else 0.0
    return p


def fragment(c, nu, nug, times, A=None, Z=None, full=True):
    f = Frag()
    f.A = c.int('A', 60, 190) if A is None else A
    f.Z = c.int('Z', 20, 75) if Z is None else Z
    f.U = c.real('U', 0, 60)
    f.J = c.real('J', 0, 30)
    f.P = c.int('P', -1, 1) if full else 1
    f.KE = c.real('KE', 0, 150)
    f.KEpost = c.real('KEpost', 0, 150) if full else 1.5
    f.pre = vec(c, 'pre', 8000.0) if full else [1.0, 2.0, 3.0]
    f.post = vec(c, 'post', 8000.0) if full else [4.0, 5.0, 6.0]
    f.nu, f.nug = nu, nug
    f.cm = [part(c, 'cm') for _ in range(nu)]
    f.lab = [part(c, 'lab') for _ in range(nu)]
    f.g = [part(c, 'g', times) for _ in range(nug)]
    return f


class Event:
    pass


def light(c, kind, times):
    """particles with few unknowns (only energies and times)"""
    p = Frag()
    p.dir = [0.5, -0.25, 0.125]
    p.E = c.real(kind + 'E', 0, 30)
    p.t = c.real(kind + 't', 0, 2) if times else 0.0
    return p


def event(c, nl, nh, gl, gh, npre, times, masses=None, full=True):
    e = Event()
    if full:
        e.L = fragment(c, nl, gl, times)
        e.H = fragment(c, nh, gh, times)
        e.pre = [part(c, 'pf') for _ in range(npre)]
    else:
        (al, zl), (ah, zh) = masses or ((95, 38), (140, 54))
        for n, k, a, z, nn, ng in (('L', 0, al, zl, nl, gl), ('H', 1, ah, zh, nh, gh)):
            f = Frag()
            f.A, f.Z, f.U, f.J, f.P, f.KE, f.KEpost = a, z, 10.5 + k, 2.0 + k, 1, 100.0 - k, 99.0 - k
            f.pre, f.post = [1.0, 2.0, 3.0], [4.0, 5.0, 6.0]
            f.nu, f.nug = nn, ng
            f.cm = [light(c, 'cm', False) for _ in range(nn)]
            f.lab = [light(c, 'lab', False) for _ in range(nn)]
            f.g = [light(c, 'g', times) for _ in range(ng)]
            setattr(e, n, f)
        e.pre = [light(c, 'pf', False) for _ in range(npre)]
    return e


def write(c, events, times, zaid=98252, einc=0.0, window=None, header=True):
    T = c.tok
    L = []
    w = -1.0 if times else 1e-8
    if window is not None:
        w = window
    L.append('# %s %s %s' % (T(zaid), T(einc), T(w)))

    def parts(ps, t=False):
        return ' '.join(' '.join([T(x) for x in p.dir] + [T(p.E)] + ([T(p.t)] if t else [])) for p in ps) + ' '

    for e in events:
        for f, npre in ((e.L, 0), (e.H, len(e.pre))):
            L.append(' ' + ' '.join(T(x) for x in (f.A, f.Z, f.U, f.J, f.P, f.KE, f.KEpost, f.nu, f.nug, npre)))
            L.append(' ' + ' '.join(T(x) for x in f.pre + f.post))
            if f.nu:
                L.append(parts(f.cm))
                L.append(parts(f.lab))
            if f.nug:
                L.append(parts(f.g, times))
        if e.pre:
            L.append(parts(e.pre))
    p = os.path.join(scratch(), 'h.cgmf')
    with open(p, 'w') as fp:
        fp.write('\n'.join(L) + '\n')
    return p


def histories(c, events, times=False, nevents=None, **k):
    p = write(c, events, times, **k)
    return module(c, 'histories').Histories(p, nevents=nevents) if nevents is not None else module(c, 'histories').Histories(p)


def seq(c, got, want, label, tol=1e-9):
    got = list(got)
    c.check(len(got) == len(want), label + ' (number of entries)')
    if len(got) == len(want):
        for a, b in zip(got, want):
            c.eq(a, b, label, tol)


def seqs(c, got, want, label):
    got = [list(x) for x in got]
    c.check([len(x) for x in got] == [len(x) for x in want], label + ' (number of entries)')
    if [len(x) for x in got] == [len(x) for x in want]:
        for a, b in zip(got, want):
            seq(c, a, b, label)


def compare(c, h, ev):
    """everything the reader returns is what the file says"""
    F = [f for e in ev for f in (e.L, e.H)]
    L = [e.L for e in ev]
    H = [e.H for e in ev]
    c.check(h.getNumberEvents() == len(ev), 'number of events')
    c.check(h.getNumberFragments() == 2 * len(ev), 'number of fragments')
    for g, f, lab in ((h.getA, lambda x: x.A, 'mass'), (h.getZ, lambda x: x.Z, 'charge'), (h.getN, lambda x: x.A - x.Z, 'neutron number'),
                      (h.getU, lambda x: x.U, 'excitation energy'), (h.getJ, lambda x: x.J, 'spin'), (h.getP, lambda x: x.P, 'parity'),
                      (h.getKEpre, lambda x: x.KE, 'kinetic energy'), (h.getKEpost, lambda x: x.KEpost, 'final kinetic energy'),
                      (h.getNu, lambda x: x.nu, 'neutron multiplicity'), (h.getNug, lambda x: x.nug, 'photon multiplicity')):
        seq(c, g(), [f(x) for x in F], 'fragment ' + lab)
    for suf, G in (('LF', L), ('HF', H)):
        for n, f, lab in (('A', lambda x: x.A, 'mass'), ('Z', lambda x: x.Z, 'charge'), ('N', lambda x: x.A - x.Z, 'neutron number'),
                          ('U', lambda x: x.U, 'excitation energy'), ('J', lambda x: x.J, 'spin'), ('P', lambda x: x.P, 'parity'),
                          ('KE', lambda x: x.KE, 'kinetic energy'), ('Nu', lambda x: x.nu, 'neutron multiplicity'),
                          ('Nug', lambda x: x.nug, 'photon multiplicity')):
            seq(c, getattr(h, 'get' + n + suf)(), [f(x) for x in G], ('light' if suf == 'LF' else 'heavy') + ' fragment ' + lab)
    seq(c, h.getTKEpre(), [e.L.KE + e.H.KE for e in ev], 'total kinetic energy')
    seq(c, h.getTKEpost(), [e.L.KEpost + e.H.KEpost for e in ev], 'final total kinetic energy')
    seq(c, h.getTXE(), [e.L.U + e.H.U for e in ev], 'total excitation energy')
    seq(c, h.getNuEvent(), [e.L.nu + e.H.nu for e in ev], 'neutrons of the event')
    seq(c, h.getNutot(), [e.L.nu + e.H.nu + len(e.pre) for e in ev], 'neutrons of the event with pre-fission neutrons')
    seq(c, h.getNugtot(), [e.L.nug + e.H.nug for e in ev], 'photons of the event')
    seq(c, h.getPreFissionNu(), [len(e.pre) for e in ev], 'pre-fission neutrons of the event')
    seqs(c, h.getNeutronElab(), [[p.E for p in f.lab] for f in F], 'neutron energies')
    seqs(c, h.getNeutronEcm(), [[p.E for p in f.cm] for f in F], 'cm neutron energies')
    seqs(c, h.getGammaElab(), [[p.E for p in f.g] for f in F], 'photon energies')
    seqs(c, h.getGammaAges(), [[p.t for p in f.g] for f in F], 'photon emission times')
    seqs(c, h.getFragmentMomentumPre(), [f.pre for f in F], 'fragment momentum')
    seqs(c, h.getFragmentMomentumPost(), [f.post for f in F], 'final fragment momentum')
    for g, f, lab in ((h.getLabNeutronDircos, lambda x: x.lab, 'neutron directions'), (h.getcmNeutronDircos, lambda x: x.cm, 'cm neutron directions')):
        got = list(g())
        c.check(len(got) == len(F), lab + ' (number of entries)')
        for a, x in zip(got, F):
            seqs(c, a, [p.dir for p in f(x)], lab)
    E, D = list(h.getPreFissionNeutronElab()), list(h.getPreFissionNeutronDircos())
    c.check(len(E) == len(ev) and len(D) == len(ev), 'pre-fission neutrons (number of entries)')
    for a, d, e in zip(E, D, ev):
        if e.pre:
            seq(c, a, [p.E for p in e.pre], 'pre-fission neutron energies')
            seqs(c, d, [p.dir for p in e.pre], 'pre-fission neutron directions')


def read(c):
    t = c.choose('times', 0, 1)
    ev = [event(c, c.choose('nl', 0, 2), c.choose('nh', 0, 2), c.choose('gl', 0, 2), c.choose('gh', 0, 2), c.choose('npre', 0, 2), t)]
    h = histories(c, ev, t)
    compare(c, h, ev)
    if t:
        c.check(h.getTimeCoincidenceWindow() == -1, 'time window')
    c.reach('end')


def readTwo(c):
    t = c.choose('times', 0, 1)
    n = [c.choose('n', 0, 1) for _ in range(2)]
    g = [c.choose('g', 0, 1) for _ in range(2)]
    p = [c.choose('npre', 0, 1) for _ in range(2)]
    ev = [event(c, n[0], n[1], g[0], g[1], p[0], t), event(c, g[0], 1 - n[0], n[1], 1 - g[0], p[1], t)]
    k = c.choose('nevents', 0, 3)
    h = histories(c, ev, t, nevents=k or None)
    compare(c, h, ev[:k] if k else ev)
    c.reach('end')


def readThree(c):
    """three events of equal or different multiplicities, every field"""
    n = c.choose('n', 0, 2)
    d = c.choose('different', 0, 1)
    ev = [event(c, n, n, n, n, n, 1), event(c, n + d, n, n, n + d, n, 1), event(c, n, n, n, n, n, 1)]
    compare(c, histories(c, ev, True), ev)
    c.reach('end')


def header(c):
    z = c.int('zaid', 90000, 99000)
    e = c.real('einc', 0, 20)
    w = c.real('window', 1e-9, 1)
    ev = [event(c, 1, 1, 1, 1, 0, 0)]
    h = histories(c, ev, False, zaid=z, einc=e, window=w)
    compare(c, h, ev)
    c.eq(h.getTimeCoincidenceWindow(), w, 'time window', 1e-15)
    c.reach('end')


# ---------------------------------------------------------------- neutrons
def threshold(c, energies):
    eth = c.real('Eth', 0, 10)
    return eth


def mean(c, xs):
    return c.fsum(xs) / len(xs)


def dist(c, x, p, counts, label):
    """x, p: values and probabilities; counts: number of events with value k"""
    n = len(counts)
    c.check(list(x) == list(range(len(x))), label + ': multiplicities from zero')
    tot = len(p)
    c.all([c.near(p[k], c.count([v == k for v in counts]) / float(n)) for k in range(tot)], label + ': probabilities')
    c.all([v < tot for v in counts], label + ': every multiplicity is listed')
    c.eq(c.fsum(p), 1, label + ': normalised')


def stdev(c, kmax=1, npmax=1, times=False):
    return [event(c, c.choose('nl', 0, kmax), c.choose('nh', 0, kmax), 1, 1, c.choose('npre', 0, npmax), times, full=False)
            for _ in range(2)]


def neutronNumbers(c):
    ev = [event(c, c.choose('nl', 0, 2), c.choose('nh', 0, 1), 0, 1, c.choose('npre', 0, 1), 0, full=False) for _ in range(2)]
    h = histories(c, ev)
    nu = [f.nu for e in ev for f in (e.L, e.H)]
    tot = [e.L.nu + e.H.nu + len(e.pre) for e in ev]
    c.eq(h.nubar(), sum(nu) / 4.0, 'average neutrons per fragment')
    c.eq(h.nubartot(), sum(tot) / 2.0, 'average neutrons per event')
    c.eq(h.preFissionNubar(), sum(len(e.pre) for e in ev) / 2.0, 'average pre-fission neutrons per event')
    x, p = h.Pnu()
    dist(c, x, p, tot, 'P(nu)')
    c.reach('end')


def neutronCut(c):
    ev = [event(c, c.choose('nl', 0, 2), 1, 0, 0, c.choose('npre', 0, 1), 0, full=False), event(c, 0, 1, 0, 0, c.choose('npre', 0, 1), 0, full=False)]
    h = histories(c, ev)
    eth = c.real('Eth', 0, 10)
    F = [f for e in ev for f in (e.L, e.H)]
    for f in F:
        for p in f.lab:
            c.assume(p.E != eth)
    got = list(h.getNuEnergyCut(eth))
    seq(c, got, [c.count([p.E > eth for p in f.lab]) for f in F], 'neutrons above the threshold')
    c.reach('end')


def neutronPnuCut(c):
    ev = [event(c, c.choose('nl', 0, 1), 1, 0, 0, c.choose('npre', 0, 1), 0, full=False), event(c, 0, c.choose('nh', 0, 1), 0, 0, c.choose('npre', 0, 1), 0, full=False)]
    h = histories(c, ev)
    eth = c.real('Eth', 0, 10)
    x, p = h.Pnu(Eth=eth)
    dist(c, x, p, [c.count([q.E >= eth for q in e.L.lab + e.H.lab + e.pre]) for e in ev], 'P(nu) above the threshold')
    c.reach('end')


def neutronMeans(c):
    ev = [event(c, c.choose('nl', 0, 1), c.choose('nh', 1, 2), 0, 0, c.choose('npre', 0, 2), 0, full=False),
          event(c, 1, c.choose('nh', 0, 1), 0, 0, c.choose('npre', 0, 1), 0, full=False)]
    h = histories(c, ev)
    L = [p.E for e in ev for p in e.L.lab]
    H = [p.E for e in ev for p in e.H.lab]
    P = [p.E for e in ev for p in e.pre]
    cL = [p.E for e in ev for p in e.L.cm]
    cH = [p.E for e in ev for p in e.H.cm]
    c.eq(h.meanNeutronElab(), mean(c, L + H + P), 'mean neutron energy')
    c.eq(h.meanNeutronElabLF(), mean(c, L), 'mean neutron energy, light fragments')
    c.eq(h.meanNeutronElabHF(), mean(c, H), 'mean neutron energy, heavy fragments')
    c.eq(h.meanNeutronElabFragments(), mean(c, L + H), 'mean neutron energy, fragments')
    c.eq(h.meanNeutronEcmFragments(), mean(c, cL + cH), 'mean cm neutron energy')
    c.eq(h.meanNeutronEcmLF(), mean(c, cL), 'mean cm neutron energy, light fragments')
    c.eq(h.meanNeutronEcmHF(), mean(c, cH), 'mean cm neutron energy, heavy fragments')
    c.eq(h.meanPreFissionNeutronElab(), mean(c, P) if P else 0.0, 'mean pre-fission neutron energy')
    c.reach('end')


def spectrum(c, x, y, grid, energies, norm, label):
    """y: density on the grid; energies: those counted; integral = norm"""
    n = len(grid) - 1
    c.check(len(x) == n and len(y) == n, label + ': bins')
    for i in (0, n // 2, n - 1):
        c.eq(x[i], 0.5 * (grid[i] + grid[i + 1]), label + ': bin centres')
    tot = c.fsum([y[i] * float(grid[i + 1] - grid[i]) for i in range(n)])
    c.eq(tot, norm, label + ': integral', 1e-6)
    inside = [c.both(e >= float(grid[0]), e <= float(grid[-1])) for e in energies]
    N = c.count(inside)
    cond = []
    for i in range(n):
        hi = [e < float(grid[i + 1]) if i < n - 1 else e <= float(grid[i + 1]) for e in energies]
        k = c.count([c.both(e >= float(grid[i]), b) for e, b in zip(energies, hi)])
        cond.append(c.near(y[i] * float(grid[i + 1] - grid[i]) * N, norm * k, 1e-6))
    c.all(cond, label + ': contents of every bin')


def pfns(c):
    """one unknown neutron anywhere, one from each other source at fixed energies"""
    who = c.choose('who', 0, 2)
    ev = [event(c, 1, 1, 0, 0, 1, 0, full=False), event(c, 0, 1, 0, 0, 0, 0, full=False)]
    ps = [ev[0].L.lab[0], ev[0].H.lab[0], ev[0].pre[0], ev[1].H.lab[0]]
    for i, p in enumerate(ps):
        c.assume(p.E == (0.7, 1.3, 2.9, 0.04)[i]) if i != who else None
        p.E = p.E if i == who else (0.7, 1.3, 2.9, 0.04)[i]
    h = histories(c, ev)
    g = np.logspace(-3, 2, 100)
    x, y = h.pfns()
    c.assume(ps[who].E != 30)
    spectrum(c, x, y, g, [p.E for p in ps], 1, 'neutron spectrum')
    c.reach('end')


def pfnsCut(c):
    ev = [event(c, 1, 1, 0, 0, 1, 0, full=False), event(c, 0, 1, 0, 0, 0, 0, full=False)]
    ps = [ev[0].L.lab[0], ev[0].H.lab[0], ev[0].pre[0], ev[1].H.lab[0]]
    for i, p in enumerate(ps):
        p.E = (0.7, 1.3, 2.9, 0.04)[i]
    h = histories(c, ev)
    eth = c.real('Eth', 0, 2)
    g = np.logspace(-3, 2, 100)
    x, y = h.pfns(Eth=eth)
    widths = [float(g[i + 1] - g[i]) for i in range(99)]
    c.eq(c.fsum([y[i] * widths[i] for i in range(99)]), 1, 'neutron spectrum above threshold: integral', 1e-6)
    n = c.count([p.E >= eth for p in ps])
    cond = []
    for i in range(99):
        k = c.count([p.E >= eth for p in ps if g[i] <= p.E < g[i + 1]])
        cond.append(c.near(y[i] * widths[i] * n, k, 1e-6))
    c.all(cond, 'neutron spectrum above threshold: contents of every bin')
    c.reach('end')


# ---------------------------------------------------------------- photons
def photonNumbers(c):
    ev = [event(c, 1, 0, c.choose('gl', 0, 2), c.choose('gh', 0, 1), 0, 0, full=False), event(c, 0, 0, c.choose('gl', 0, 1), c.choose('gh', 0, 1), 0, 0, full=False)]
    h = histories(c, ev)
    G = [f.nug for e in ev for f in (e.L, e.H)]
    T = [e.L.nug + e.H.nug for e in ev]
    c.eq(h.nubarg(), sum(G) / 4.0, 'average photons per fragment')
    c.eq(h.nubargtot(), sum(T) / 2.0, 'average photons per event')
    x, p = h.Pnug()
    dist(c, x, p, T, 'P(nug)')
    if all(any(f.nug for f in fs) for fs in ([e.L for e in ev], [e.H for e in ev])):
        L = [p.E for e in ev for p in e.L.g]
        H = [p.E for e in ev for p in e.H.g]
        c.eq(h.meanGammaElab(), mean(c, L + H), 'mean photon energy')
        c.eq(h.meanGammaElabLF(), mean(c, L), 'mean photon energy, light fragments')
        c.eq(h.meanGammaElabHF(), mean(c, H), 'mean photon energy, heavy fragments')
    c.reach('end')


def photonCut(c):
    ev = [event(c, 1, 0, c.choose('gl', 0, 2), 1, 0, 0, full=False), event(c, 0, 0, 0, c.choose('gh', 0, 1), 0, 0, full=False)]
    h = histories(c, ev)
    eth = c.real('Eth', 0, 10)
    F = [f for e in ev for f in (e.L, e.H)]
    above = [c.count([p.E >= eth for p in f.g]) for f in F]
    c.eq(h.nubarg(Eth=eth), c.fsum(above) / 4.0, 'average photons per fragment above the threshold')
    c.eq(h.nubargtot(Eth=eth), c.fsum(above) / 2.0, 'average photons per event above the threshold')
    x, p = h.Pnug(Eth=eth)
    dist(c, x, p, [above[0] + above[1], above[2] + above[3]], 'P(nug) above the threshold')
    for f in F:
        for q in f.g:
            c.assume(q.E != eth)
    seq(c, h.getNugEnergyCut(eth), above, 'photons above the threshold')
    c.reach('end')


def photonTime(c):
    ev = [event(c, 1, 0, c.choose('gl', 0, 2), 1, 0, 1, full=False), event(c, 0, 0, 0, c.choose('gh', 0, 1), 0, 1, full=False)]
    h = histories(c, ev, True)
    eth = c.real('Eth', 0, 10) if c.choose('cut', 0, 1) else None
    t = [c.real('time', 0, 2), c.real('time', 0, 2)]
    G = [p for e in ev for f in (e.L, e.H) for p in f.g]
    cnt = [c.count([c.both(p.t <= x, p.E >= (eth if eth is not None else 0)) for p in G]) for x in t]
    for kind in (0, 1):
        tw = list(t) if kind == 0 else np.array(t)
        for f, n, lab in ((h.nubarg, 4.0, 'fragment'), (h.nubargtot, 2.0, 'event')):
            x, y = f(timeWindow=tw, Eth=eth) if eth is not None else f(timeWindow=tw)
            seq(c, x, t, 'times as given')
            seq(c, y, [k / n for k in cnt], 'average photons per %s up to a time' % lab)
    c.reach('end')


def photonTimeDefault(c):
    ev = [event(c, 1, 0, 1, 1, 0, 1, full=False)]
    h = histories(c, ev, True)
    g = np.logspace(-9, 0, 15)
    G = [p for e in ev for f in (e.L, e.H) for p in f.g]
    for f, n in ((h.nubarg, 2.0), (h.nubargtot, 1.0)):
        x, y = f(timeWindow=True)
        seq(c, x, [float(v) for v in g], 'default times', 1e-12)
        c.all([c.near(y[i], c.count([p.t <= float(g[i]) for p in G]) / n) for i in range(15)], 'average photons up to the default times')
    c.reach('end')


def pfgs(c):
    who = c.choose('who', 0, 1)
    ev = [event(c, 0, 1, 1, 1, 0, 0, full=False), event(c, 0, 1, 0, 1, 0, 0, full=False)]
    ps = [ev[0].L.g[0], ev[0].H.g[0], ev[1].H.g[0]]
    for i, p in enumerate(ps):
        if i != who:
            p.E = (0.7, 1.3, 2.9)[i]
    c.assume(c.both(ps[who].E <= 9.9, 0 <= ps[who].E))
    h = histories(c, ev)
    x, y = h.pfgs()
    spectrum(c, x, y, np.logspace(-1, 1, 200), [p.E for p in ps], 1.5, 'photon spectrum')
    c.reach('end')


def pfgsCut(c):
    ev = [event(c, 0, 1, 1, 1, 0, 1, full=False), event(c, 0, 1, 0, 1, 0, 1, full=False)]
    ps = [ev[0].L.g[0], ev[0].H.g[0], ev[1].H.g[0]]
    for i, p in enumerate(ps):
        p.E = (0.7, 1.3, 2.9)[i]
    h = histories(c, ev, True)
    eth = c.real('Eth', 0, 2)
    lo, hi = c.real('lo', 0, 1), c.real('hi', 0, 2)
    kind = c.choose('window', 0, 1)
    sel = [c.both(p.E >= eth, c.both(p.t >= lo, p.t <= hi) if kind else True) for p in ps]
    n = c.count(sel)
    c.assume(n >= 1)
    x, y = h.pfgs(Eth=eth, minTime=lo, maxTime=hi) if kind else h.pfgs(Eth=eth)
    g = np.logspace(-1, 1, 200)
    w = [float(g[i + 1] - g[i]) for i in range(199)]
    cond = []
    for i in range(199):
        k = c.count([s for p, s in zip(ps, sel) if g[i] <= p.E < g[i + 1]])
        cond.append(c.near(y[i] * w[i] * n, 1.5 * k, 1e-6))
    c.all(cond, 'photon spectrum of the selected photons: contents of every bin')
    c.reach('end')


def gammaMultiplicity(c):
    """photons per time bin, for one nuclide or all"""
    one = c.choose('nuclide', 0, 1)
    nuL = c.choose('nuL', 0, 1)
    a2 = c.choose('same', 0, 1)
    ev = [event(c, nuL, 0, 1, 1, 0, 1, masses=((95, 38), (140, 54)), full=False),
          event(c, 0, 0, 1, 0, 0, 1, masses=((95 - nuL if a2 else 96, 38), (140, 55)), full=False)]
    ps = [(ev[0].L, ev[0].L.g[0]), (ev[0].H, ev[0].H.g[0]), (ev[1].L, ev[1].L.g[0])]
    ev[0].H.g[0].t = 3.3e-9
    ev[1].L.g[0].t = 5.5e-9
    h = histories(c, ev, True)
    eth = c.real('Eth', 0, 10)
    lo, hi = 1e-9, 1e-8
    edges = np.linspace(lo, hi, 51)
    k = dict(Eth=eth, minTime=lo, maxTime=hi)
    if one:
        k.update(Afragment=95 - nuL, Zfragment=38)
    x, y = h.gammaMultiplicity(**k)
    c.check(len(y) == 50 and len(x) == 50, 'photons per time: bins')
    cond = []
    for i in range(50):
        n = c.count([c.both(c.both(p.E >= eth, p.t >= float(edges[i])), p.t < float(edges[i + 1]) if i < 49 else p.t <= float(edges[i + 1]))
                     for f, p in ps if not one or (f.A - f.nu, f.Z) == (95 - nuL, 38)])
        cond.append(c.near(y[i], n))
    c.all(cond, 'photons per time: contents of every bin')
    c.eq(x[0], 0.5 * float(edges[0] + edges[1]), 'photons per time: bin centres', 1e-15)
    c.reach('end')


def gammaSpec(c):
    """fragments that emitted the given photons"""
    two = c.choose('lines', 1, 2)
    post = c.choose('post', 0, 1)
    ev = [event(c, 1, 2, c.choose('gl', 0, 2), 1, 0, 0, masses=((95, 38), (140, 54)), full=False)]
    h = histories(c, ev)
    E = [c.real('Eg', 0, 10) for _ in range(two)]
    d = [c.real('dE', 0, 1) for _ in range(two)]
    k = c.choose('kind', 0, 2 if two == 1 else 1)
    a, b = ((np.array(E), np.array(d)), (E, d), (E[0], d[0]))[k]
    r = h.gammaSpec(a, b, post=bool(post))
    rows = [tuple(int(v) for v in x) for x in r]
    want = []
    for f in (ev[0].L, ev[0].H):
        hit = True
        for e, w in zip(E, d):
            any_ = c.count([c.both(g.E <= e + w, g.E >= e - w) for g in f.g]) > 0
            hit = c.both(hit, any_)
        want.append((hit, (f.Z, f.A - (f.nu if post else 0))))
    for hit, za in want:
        c.check((hit if c.symbolic else bool(hit)) == (za in rows) if not c.symbolic else pysym.B(pysym._b(hit) == (za in rows)), 'fragments with the given photons')
    c.check(len(rows) == len(set(rows)), 'each fragment once')
    c.reach('end')


def isomericRatio(c):
    up = c.choose('up', 0, 1)
    nu = c.choose('nu', 0, 1)
    ev = [event(c, nu, 0, 2, 0, 0, 1, masses=((95 + nu, 38), (140, 54)), full=False),
          event(c, 0, 1, c.choose('gl', 0, 1), 1, 0, 1, masses=((95, 38), (140, 54)), full=False)]
    h = histories(c, ev, True)
    t = c.real('threshold', 1e-9, 1)
    r = h.isomericRatio(t, 95, 38, 3.0 if up else 0.5, 1.5)
    iso = [c.count([p.t >= t for p in e.L.g]) > 0 for e in ev]
    want = c.count(iso) / 2.0
    c.eq(r, want if up else 1 - want, 'isomeric ratio')
    c.reach('end')


# ---------------------------------------------------------------- by mass and by kinetic energy
def massAverages(c):
    lim = c.choose('spread', 0, 2)
    ev = []
    for i in range(2):
        d = lim * i
        e = event(c, c.choose('nl', 0, 1), c.choose('nh', 0, 1), 1, c.choose('gh', 0, 1), 0, 0, masses=((117 - d, 46), (119 + d, 47)), full=False)
        for f in (e.L, e.H):
            f.U = c.real('U', 0, 40)
            f.J = c.real('J', 0, 30)
            f.KE = c.real('KE', 50, 120)
        ev.append(e)
    h = histories(c, ev)
    F = [(f, e) for e in ev for f in (e.L, e.H)]
    lo, hi = min(f.A for f, e in F), max(f.A for f, e in F)
    for g, q, lab in ((h.nubarA, lambda f, e: f.nu, 'neutrons'), (h.nubargA, lambda f, e: f.nug, 'photons'),
                      (h.UA, lambda f, e: f.U, 'excitation energy'), (h.spinA, lambda f, e: f.J, 'spin'),
                      (h.TKEA, lambda f, e: e.L.KE + e.H.KE, 'total kinetic energy')):
        x, y = g()
        lab = 'average %s by mass' % lab
        c.check([int(a) for a in x] == list(range(lo, hi + 1)), lab + ': every mass')
        for a, v in zip(x, y):
            s = [q(f, e) for f, e in F if f.A == int(a)]
            c.eq(v, mean(c, s) if s else 0, lab)
    c.reach('end')


def massPhotonsCut(c):
    ev = [event(c, 0, 1, 2, 1, 0, 0, masses=((117, 46), (119, 47)), full=False)]
    h = histories(c, ev)
    eth = c.real('Eth', 0, 10)
    x, y = h.nubargA(Eth=eth)
    c.check([int(a) for a in x] == [117, 118, 119], 'average photons by mass above the threshold: every mass')
    seq(c, y, [c.count([p.E >= eth for p in ev[0].L.g]), 0, c.count([p.E >= eth for p in ev[0].H.g])], 'average photons by mass above the threshold')
    c.reach('end')


def tkeAverages(c):
    """bins of 1 MeV starting at the lowest total kinetic energy"""
    ev = []
    d = [0.0, c.choose('d', 0, 2) + c.real('f', 0, 0.984375)]
    for i in range(2):
        e = event(c, c.choose('nl', 0, 1), 1, 1, c.choose('gh', 0, 1), 0, 0, full=False)
        for f in (e.L, e.H):
            f.U = c.real('U', 0, 40)
            f.J = c.real('J', 0, 30)
        e.L.KE, e.H.KE = 100.0 + d[i], 70.0
        ev.append(e)
    h = histories(c, ev)
    k = int(d[1])  # bin of the second event
    for g, q, lab in ((h.nubarTKE, lambda e: [e.L.nu + e.H.nu], 'neutrons'), (h.nubargTKE, lambda e: [e.L.nug + e.H.nug], 'photons'),
                      (h.UTKE, lambda e: [e.L.U, e.H.U], 'excitation energy'), (h.spinTKE, lambda e: [e.L.J, e.H.J], 'spin')):
        x, y = g()
        lab = 'average %s by total kinetic energy' % lab
        c.check(len(x) == len(y) and len(x) >= k + 1, lab + ': every event has its bin')
        for i in range(min(len(x), len(y))):
            c.eq(x[i], 170.0 + i, lab + ': bins of 1 MeV from the lowest')
            s = (q(ev[0]) if i == 0 else []) + (q(ev[1]) if i == k else [])
            c.eq(y[i], mean(c, s) if s else 0, lab)
    c.reach('end')


def summary(c):
    np_ = c.choose('npre', 0, 1)
    ev = [event(c, 1, 1, 1, 1, np_, 0), event(c, 0, 1, 1, 0, 0, 0)]
    h = histories(c, ev)
    t = h.summaryTable()
    L, H = [e.L for e in ev], [e.H for e in ev]

    def row(i, want, lab, tol):
        got = [c.text(x) for x in t[i][1:]]
        c.check(len(got) == len(want), 'summary: ' + lab + ' (columns)')
        for a, b in zip(got, want):
            c.eq(a, b, 'summary: ' + lab, tol)
    for i, (f, lab) in enumerate(((lambda x: x.A, 'mass'), (lambda x: x.Z, 'charge'))):
        row(1 + i, [mean(c, [f(x) for x in L + H]), mean(c, [f(x) for x in L]), mean(c, [f(x) for x in H])], lab, 0.0051)
    row(3, [mean(c, [x.U for x in L + H]) * 2, mean(c, [x.U for x in L]), mean(c, [x.U for x in H])], 'excitation energy', 0.0051)
    row(4, [mean(c, [x.KE for x in L + H]) * 2, mean(c, [x.KE for x in L]), mean(c, [x.KE for x in H])], 'kinetic energy', 0.0051)
    row(5, [mean(c, [x.J for x in L + H]), mean(c, [x.J for x in L]), mean(c, [x.J for x in H])], 'spin', 0.0051)
    row(6, [mean(c, [x.P for x in L + H]), mean(c, [x.P for x in L]), mean(c, [x.P for x in H])], 'parity', 0.0051)
    row(7, [1.5, 0.5, 1.0, np_ / 2.0, 1.5 + np_ / 2.0], 'neutrons', 0.00051)
    cm = [[p.E for x in G for p in x.cm] for G in (L, H)]
    lab = [[p.E for x in G for p in x.lab] for G in (L, H)]
    pre = [p.E for e in ev for p in e.pre]
    row(8, [mean(c, cm[0] + cm[1]), mean(c, cm[0]), mean(c, cm[1])], 'cm neutron energy', 0.00051)
    row(9, [mean(c, lab[0] + lab[1]), mean(c, lab[0]), mean(c, lab[1]), mean(c, pre) if pre else 0.0, mean(c, lab[0] + lab[1] + pre)], 'neutron energy', 0.00051)
    row(10, [1.5, 1.0, 0.5], 'photons', 0.0051)
    g = [[p.E for x in G for p in x.g] for G in (L, H)]
    row(11, [mean(c, g[0] + g[1]), mean(c, g[0]), mean(c, g[1])], 'photon energy', 0.0051)
    c.reach('end')


# ---------------------------------------------------------------- angles
def norm2(v):
    return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cosine(c, got, num, v, label):
    """got = num/|v|, told without a square root"""
    n2 = norm2(v)
    if not c.symbolic:
        return c.eq(got, num / float(n2) ** 0.5, label, 1e-9)
    s = c.sqrt(pysym.term(n2))
    c.eq(got * s, num, label, 1e-6)


def cosines(c, got, want, label):
    got = list(got)
    c.check(len(got) == len(want), label + ' (number of entries)')
    if len(got) == len(want):
        for g, (num, v) in zip(got, want):
            cosine(c, g, num, v, label)


def frags(c, ev):
    for e in ev:
        for f in (e.L, e.H):
            for v in (f.pre, f.post):
                c.assume(norm2(v) >= 1)


def ffAngles(c):
    ev = [event(c, 0, 1, 0, 1, 0, 0), event(c, 0, 1, 0, 1, 0, 0)]
    frags(c, ev)
    h = histories(c, ev)
    F = [f for e in ev for f in (e.L, e.H)]
    k = c.choose('when', 0, 2)
    got = h.FFangles() if k == 0 else h.FFangles(afterEmission=k == 1)
    cosines(c, got, [((f.post if k < 2 else f.pre)[2], f.post if k < 2 else f.pre) for f in F], 'fragment angle to the beam')
    c.reach('end')


def angleEvents(c, nl, nh, npre, npre2=0):
    ev = [event(c, nl, nh, 0, 0, npre, 0, full=False), event(c, 0, 1, 0, 0, npre2, 0, full=False)]
    for e in ev:
        for ps in (e.L.lab, e.H.lab, e.L.cm, e.H.cm, e.pre):
            for p in ps:
                p.dir = vec(c, 'd')
    return ev


def select(c, ps, eth):
    """selected by energy: forks on the unknowns"""
    return [p for p in ps if bool(p.E >= eth)]


def nAngles(c):
    ev = angleEvents(c, c.choose('nl', 0, 1), 1, c.choose('npre', 0, 1), c.choose('npreSecond', 0, 1))
    h = histories(c, ev)
    cut = c.choose('cut', 0, 1)
    eth = c.real('Eth', 0, 10) if cut else 0.0
    k = c.choose('frame', 0, 3)
    kw = dict(Eth=eth) if cut else {}
    kw.update([{}, {'lab': True}, {'lab': False}, {'lab': True, 'includePrefission': False}][k])
    A, L, H = h.nangles(**kw)
    fr = 'cm' if k == 2 else 'lab'
    l = [p for e in ev for p in getattr(e.L, fr)]
    g = [p for e in ev for p in getattr(e.H, fr)]
    pre = [p for e in ev for p in e.pre] if k in (0, 1) else []
    S = lambda ps: [p.dir[2] for p in select(c, ps, eth)]
    seq(c, L, S(l), 'neutron angle to the beam, light fragments')
    seq(c, H, S(g), 'neutron angle to the beam, heavy fragments')
    seq(c, A, S(l + g + pre), 'neutron angle to the beam')
    c.reach('end')


def nfAngles(c):
    ev = angleEvents(c, c.choose('nl', 0, 1), 1, c.choose('npre', 0, 1), c.choose('npreSecond', 0, 1))
    post = c.choose('post', 0, 2)
    for e in ev:
        setattr(e.L, 'pre' if post == 2 else 'post', vec(c, 'p', 8000.0))
    frags(c, ev)
    h = histories(c, ev)
    cut = c.choose('cut', 0, 1)
    pf = c.choose('prefission', 0, 1)
    eth = c.real('Eth', 0, 10) if cut else 0.0
    kw = dict(Eth=eth) if cut else {}
    if post:
        kw['afterEmission'] = post == 1
    if not pf:
        kw['includePrefission'] = False
    A, L, H = h.nFangles(**kw)
    mom = lambda e: e.L.pre if post == 2 else e.L.post
    S = lambda f: [(dot(p.dir, mom(e)), mom(e)) for e in ev for p in select(c, f(e), eth)]
    cosines(c, L, S(lambda e: e.L.lab), 'angle between neutron and light fragment, light')
    cosines(c, H, S(lambda e: e.H.lab), 'angle between neutron and light fragment, heavy')
    want = S(lambda e: e.L.lab) + S(lambda e: e.H.lab) + (S(lambda e: e.pre) if pf else [])
    cosines(c, A, want, 'angle between neutron and light fragment')
    c.reach('end')


def nnAngles(c):
    ev = angleEvents(c, c.choose('nl', 0, 3), c.choose('nh', 1, 2), 0)
    h = histories(c, ev)
    k = c.choose('frame', 0, 2)
    L, H, A = h.nnangles(**[{}, {'lab': True}, {'cm': True}][k])
    fr = 'cm' if k == 2 else 'lab'

    def pairs(f):
        ps = getattr(f, fr)
        return [dot(ps[i].dir, ps[j].dir) for i in range(len(ps)) for j in range(i + 1, len(ps))]
    seq(c, L, [x for e in ev for x in pairs(e.L)], 'angle between neutrons, light fragments')
    seq(c, H, [x for e in ev for x in pairs(e.H)], 'angle between neutrons, heavy fragments')
    seq(c, A, [x for e in ev for f in (e.L, e.H) for x in pairs(f)], 'angle between neutrons')
    c.reach('end')


# ---------------------------------------------------------------- yields
def yields(c):
    n = c.choose('events', 1, 3)
    k = c.choose('nevents', 0, 3)
    F = []
    T = c.tok
    p = os.path.join(scratch(), 'y.cgmf')
    with open(p, 'w') as fp:
        for i in range(2 * n):
            f = Frag()
            f.Z, f.A = c.int('Z', 20, 75), c.int('A', 60, 190)
            f.KE, f.U, f.J = c.real('KE', 0, 150), c.real('U', 0, 60), c.real('J', 0, 30)
            f.P = c.int('P', -1, 1)
            f.p = vec(c, 'p', 8000.0)
            F.append(f)
            fp.write(' '.join(T(x) for x in [f.Z, f.A, f.KE, f.U, f.J, f.P] + f.p) + ' \n')
    y = module(c, 'yields').Yields(p, nevents=k) if k else module(c, 'yields').Yields(p)
    if k:
        F = F[:2 * k]
    n = len(F) // 2
    L, H = F[::2], F[1::2]
    c.check(y.getNumberEvents() == n and y.getNumberFragments() == 2 * n, 'yields: number of events')
    for g, f, lab in ((y.getA, lambda x: x.A, 'mass'), (y.getZ, lambda x: x.Z, 'charge'), (y.getN, lambda x: x.A - x.Z, 'neutron number'),
                      (y.getU, lambda x: x.U, 'excitation energy'), (y.getJ, lambda x: x.J, 'spin'), (y.getP, lambda x: x.P, 'parity'),
                      (y.getKE, lambda x: x.KE, 'kinetic energy')):
        seq(c, g(), [f(x) for x in F], 'yields: ' + lab)
    for suf, G in (('LF', L), ('HF', H)):
        for m, f, lab in (('A', lambda x: x.A, 'mass'), ('Z', lambda x: x.Z, 'charge'), ('U', lambda x: x.U, 'excitation energy'),
                          ('J', lambda x: x.J, 'spin'), ('P', lambda x: x.P, 'parity'), ('KE', lambda x: x.KE, 'kinetic energy')):
            seq(c, getattr(y, 'get' + m + suf)(), [f(x) for x in G], 'yields: %s fragment %s' % ('light' if suf == 'LF' else 'heavy', lab))
    seq(c, y.getTKE(), [a.KE + b.KE for a, b in zip(L, H)], 'yields: total kinetic energy')
    seq(c, y.getTXE(), [a.U + b.U for a, b in zip(L, H)], 'yields: total excitation energy')
    seqs(c, y.getFragmentMomentum(), [f.p for f in F], 'yields: momentum')
    t = y.summaryTable()
    for i, (f, lab, m) in enumerate(((lambda x: x.A, 'mass', 1), (lambda x: x.Z, 'charge', 1), (lambda x: x.U, 'excitation energy', 2),
                                     (lambda x: x.KE, 'kinetic energy', 2), (lambda x: x.J, 'spin', 1), (lambda x: x.P, 'parity', 1))):
        got = [c.text(x) for x in t[1 + i][1:]]
        want = [mean(c, [f(x) for x in F]) * m, mean(c, [f(x) for x in L]), mean(c, [f(x) for x in H])]
        seq(c, got, want, 'yields: summary, ' + lab, 0.0051)
    c.reach('end')
