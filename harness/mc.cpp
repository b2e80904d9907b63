// Monte Carlo decay of one fragment: event bookkeeping, cascade energy balance, emission times.
// With VP_RECORD the implementation file is included so that its history array can be prepared.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <string>
#include <vector>
#ifdef VP_RECORD
#include "specmc.cpp"
#else
using namespace std;
#include "cgm.h"
#include "global.h"
#include "mchf.h"
#include "config.h"
#include "physics.h"
#include "kinematics.h"
#include "FissionFragments.h"
#include "rngcgm.h"
#include "ripl2levels.h"
void set_time_coincidence_window(double);
#endif
#include "vp.h"

// stub: mass table (one unknown mass excess per nuclide)
static double mx[64];
static int mxk[64], nmx;
static double mlo = -120, mhi = 120;
static double me(int za) {
  for (int i = 0; i < nmx; i++)
    if (mxk[i] == za) return mx[i];
  mxk[nmx] = za;
  mx[nmx] = vp_real("massExcess", mlo, mhi);
  return mx[nmx++];
}
static void setme(int z, int a, double m) {
  mxk[nmx] = z * 1000 + a;
  mx[nmx++] = m;
}
double getMassExcess(int za) { return me(za); }
double mass_excess(int z, int a) { return me(z * 1000 + a); }
static double M(int z, int a) { return a * amuMeV + me(z * 1000 + a); }
// random numbers in (0,1): an exact zero would select a final state of zero probability
static double rnd() {
  double r = vp_rand();
  vp_assume(r > 0);
  return r;
}
static const double MN = NEUTRONMASS * amuMeV;

static void system_(int bins, int js, int levels, int nuc) {
  MAX_ENERGY_BIN = bins;
  MAX_J = js;
  MAX_LEVELS = levels;
  ncl = new Nucleus[nuc];
  for (int i = 0; i < SPECTRA_OUTPUT; i++) spc[i] = new double[bins];
  rng_cgm = rnd;
}

// stub for the emission kinematics (decided by P01/P02): arbitrary velocities, momentum conserved
static int bz, ba, bn, bg, bcalls;
static double becm[8], beg[8], bvl[8][3], bvc[8][3], bgl[8][3], bgc[8][3], bel[8], begl[8];
#ifndef VP_REAL_BOOST
void boost(double p[3], int Zf, int Af, int nn, double *ecm, double *el, double (*vc)[3], double (*vl)[3],
           int ng, double *eg, double *egl, double (*gc)[3], double (*gl)[3]) {
  bz = Zf, ba = Af, bn = nn, bg = ng, bcalls++;
  for (int i = 0; i < nn; i++) {
    double v2 = 0;
    for (int k = 0; k < 3; k++) {
      vl[i][k] = vp_real("v", 1e-3, 0.3);
      vc[i][k] = vp_real("vcm", 1e-3, 0.3);
      v2 += vl[i][k] * vl[i][k];
      p[k] -= NEUTRONMASS * amuMeV * vl[i][k];
    }
    el[i] = 0.5 * NEUTRONMASS * amuMeV * v2;
    becm[i] = ecm[i], bel[i] = el[i];
    for (int k = 0; k < 3; k++) bvl[i][k] = vl[i][k], bvc[i][k] = vc[i][k];
  }
  for (int i = 0; i < ng; i++) {
    double e2 = 0;
    for (int k = 0; k < 3; k++) {
      gc[i][k] = vp_real("g", 1e-3, 10);
      gl[i][k] = vp_real("gl", 1e-3, 10);
      e2 += gl[i][k] * gl[i][k];
    }
    egl[i] = sqrt(e2);
    beg[i] = eg[i], begl[i] = egl[i];
    for (int k = 0; k < 3; k++) bgl[i][k] = gl[i][k], bgc[i][k] = gc[i][k];
  }
}
#endif
// ---------------------------------------------------------------- recording of an event
static const int Z = 54, A = 140;
#ifdef VP_RECORD
VP_HARNESS(record) {
  system_(2, 2, 2, 4);
  for (int i = 0; i < 4; i++) ncl[i].za.setZA(Z, A - i);
  fissionEventType *fe = new fissionEventType;
  fe->KEpost = vp_real("leftover", 0, 100); // the structure may be reused
  double p0[3] = {vp_real("px", -5000, 5000), vp_real("py", -5000, 5000), vp_real("pz", -5000, 5000)};
  for (int k = 0; k < 3; k++) fe->preFragmentMomentum[k] = p0[k];
  int n = vp_choose("particles", 0, 3), nn = 0, ng = 0, c = 0;
  double en[4], eg[4], ag[4];
  np = 0;
  for (int i = 0; i < n; i++) {
    int kind = vp_choose("kind", 0, 3); // neutron, continuum gamma, discrete gamma, conversion electron
    double e = vp_real("energy", 1e-3, 15), t = vp_real("time", 0, 10);
    MCPoint m(c, 1, 0, 1, 1.0);
    if (kind >= 2) m.setDiscrete();
    gammaTimeStamp[np] = t;
    hs[np++].set(kind == 0 ? neutron : kind == 3 ? unknown : gammaray, e, m);
    if (kind == 0) {
      en[nn++] = e;
      c++;
    } else if (kind < 3) {
      ag[ng] = kind == 2 ? t : 0.0;
      eg[ng++] = e;
    }
  }
  MCPoint last(c, 1, 0, 0, 0.0);
  last.setDiscrete();
  hs[np++].set(gammaray, 0.0, last);
  recordEmittedParticlesFission(fe);
  vp_check(bcalls == 1 && bz == Z && ba == A && bn == nn && bg == ng, "kinematics applied to the initial fragment and all its particles");
  vp_check(fe->nu == nn, "neutron multiplicity = neutrons emitted");
  vp_check(fe->nug == ng, "photon multiplicity = photons emitted, conversion electrons not counted");
  double q[3] = {0, 0, 0};
  for (int i = 0; i < nn; i++) {
    vp_close(fe->cmNeutronEnergies[i], en[i], 1e-12, "neutron cm energies in emission order");
    vp_assume(fe->neutronEnergies[i] > 1e-9);
    double u = fe->neutronDircosu[i], v = fe->neutronDircosv[i], w = fe->neutronDircosw[i];
    vp_close(u * u + v * v + w * w, 1, 1e-9, "lab neutron direction is a unit vector");
    double s = sqrt(fe->neutronEnergies[i] / (0.5 * MN));
    q[0] += MN * s * u, q[1] += MN * s * v, q[2] += MN * s * w;
    double uc = fe->cmNeutronDircosu[i], vc = fe->cmNeutronDircosv[i], wc = fe->cmNeutronDircosw[i];
    vp_close(uc * uc + vc * vc + wc * wc, 1, 1e-9, "cm neutron direction is a unit vector");
    vp_observe("E", fe->neutronEnergies[i]);
  }
  for (int k = 0; k < 3; k++)
    vp_close(fe->postFragmentMomentum[k] + q[k], p0[k], 1e-5,
             "recorded neutrons and final fragment carry the initial fragment momentum");
  for (int i = 0; i < ng; i++) {
    vp_close(fe->cmPhotonEnergies[i], eg[i], 1e-12, "photon cm energies in emission order");
    vp_close(fe->photonAges[i], ag[i], 1e-12, "photon ages: emission time for discrete lines, zero otherwise");
    double u = fe->photonDircosu[i], v = fe->photonDircosv[i], w = fe->photonDircosw[i];
    vp_close(u * u + v * v + w * w, 1, 1e-9, "lab photon direction is a unit vector");
    double uc = fe->cmPhotonDircosu[i], vc = fe->cmPhotonDircosv[i], wc = fe->cmPhotonDircosw[i];
    vp_close(uc * uc + vc * vc + wc * wc, 1, 1e-9, "cm photon direction is a unit vector");
    vp_observe("Eg", fe->photonEnergies[i]);
  }
  double k2 = 0;
  for (int k = 0; k < 3; k++) k2 += fe->postFragmentMomentum[k] * fe->postFragmentMomentum[k];
  vp_close(fe->KEpost * 2 * M(Z, A - nn), k2, 1e-4, "final kinetic energy = p^2/2M of the fragment left after neutron emission");
  vp_observe("KEpost", fe->KEpost);
  vp_reach("end");
}

#endif
// ---------------------------------------------------------------- decay of one fragment
// stub: discrete levels of every nucleus: ground state and two excited states
static double le1, le2, br, gr, hl1, hl2;
static int nlev = 3;
void getDiscreteLevels(Nucleus *n, int nemit) {
  for (int k = 0; k <= nemit; k++) {
    n[k].ndisc = nlev;
    for (int i = 0; i < nlev; i++) {
      Level *l = &n[k].lev[i];
      l->energy = i == 0 ? 0.0 : i == 1 ? le1 : le2;
      l->spin = i == 1 ? 2.0 : 0.0;
      l->parity = i == 2 ? -1 : 1;
      l->halflife = i == 0 ? 0.0 : i == 1 ? hl1 : hl2;
      l->ngamma = i;
      l->fstate.clear(), l->branch.clear(), l->gratio.clear();
      for (int j = 0; j < i; j++) {
        l->fstate.push_back(j);
        l->branch.push_back(i == 1 ? 1.0 : j == 0 ? br : 1.0 - br);
        l->gratio.push_back(gr);
      }
    }
  }
}
// stubs: level densities and strength functions play no role once the decay probabilities are arbitrary
void statSetupLevelDensityParameter(Nucleus *, LevelDensity *) {}
void statSetupLevelDensity(Nucleus *, LevelDensity *) {}
void statSetupGdrParameter(Nucleus *, double, GDR *, double) {}
// stub: Hauser-Feshbach step = any energetically allowed final state (or none)
static int steps, maxsteps, way0lo, way0hi, way1lo = 0, way1hi = 4, way2lo = 0, way2hi = 4;
void spectraBinary(int c0, Pdata *, double **) {
  Nucleus *n = &ncl[c0];
  vp_assume(++steps <= maxsteps);
  int way = steps == 1 ? vp_choose("channel", way0lo, way0hi)
            : steps == 2 ? vp_choose("channel", way1lo, way1hi)
                         : vp_choose("channel", way2lo, way2hi); // continuum, discrete, neutron+continuum, neutron+discrete, none
  if (way == 4) return;
  if (steps == maxsteps && way % 2 == 0) vp_stop();
  bool nn = way >= 2;
  if (nn && !n->cdt[neutron].status) vp_stop();
  Nucleus *d = nn ? &ncl[n->cdt[neutron].next] : n;
  if (way % 2 == 0) {
    int lo = nn ? 0 : 1;
    if (d->ncont <= lo) vp_stop();
    int k = vp_choose("bin", lo, d->ncont - 1);
    int j = steps % 2;
    if (d->jmax < j) d->jmax = j;
    if (vp_choose("P", 0, 1)) d->pop[k][j].even += 1.0;
    else d->pop[k][j].odd += 1.0;
  } else {
    int k = vp_choose("level", 0, d->ndisc - 1);
    vp_assume(d->lev[k].energy < d->max_energy);
    d->lpop[k] += 1.0;
  }
}
static fissionEventType *fe;
static double Sn[4];
static int spin = 1;
static double ebin = 1.0;
static double rlo = 1e-9, rhi = 1.0;
static double rndpos() { return vp_real("r", rlo, rhi); }
static void start(double ulo, double uhi) {
  bcalls = 0;
  steps = 0;
  set_time_coincidence_window(-1.0);
  ENERGY_BIN = ebin;
  CONTINUUM_LOWER_CUT = 0.02;
  system_(12, 3, 4, MAX_COMPOUND);
  ctl.init_pop = SINGLE;
  ctl.print_init_pop = false;
  for (int i = 0; i < 4; i++) setme(Z, A - i, -80.0 - 4.9 * i + 0.3 * (i % 2));
  for (int i = 0; i < 3; i++) Sn[i] = mass_excess(Z, A - 1 - i) + ENEUTRON - mass_excess(Z, A - i);
  for (int i = 4; i < 12; i++) setme(Z, A - i, 0.0);
  le1 = vp_real("level1", 0.1, 0.5);
  le2 = vp_real("level2", 0.5, 1.2);
  br = vp_real("branch", 0.05, 0.95);
  fe = new fissionEventType;
  fe->Z = Z;
  fe->A = A;
  fe->U = vp_real("U", ulo, uhi);
  fe->spin = spin;
  fe->parity = vp_choose("parity", 0, 1) ? 1 : -1;
  fe->preFragmentMomentum[0] = fe->preFragmentMomentum[1] = fe->preFragmentMomentum[2] = 1000;
}
static double released(int *nu) {
  double e = 0;
  *nu = fe->nu;
  vp_check(fe->nu >= 0 && fe->nu <= 3, "no more neutrons than energetically possible");
  for (int i = 0; i < fe->nu; i++) {
    e += fe->cmNeutronEnergies[i] + Sn[i];
    vp_check(fe->cmNeutronEnergies[i] >= 0, "neutron energy not negative");
  }
  for (int i = 0; i < fe->nug; i++) {
    e += fe->cmPhotonEnergies[i];
    vp_check(fe->cmPhotonEnergies[i] >= 0, "photon energy not negative");
    vp_check(fe->photonAges[i] >= 0, "photon age not negative");
    if (i) vp_check(fe->photonAges[i] >= fe->photonAges[i - 1], "photon ages in emission order");
  }
  vp_observe("nu", fe->nu);
  vp_observe("nug", fe->nug);
  vp_observe("E", e);
  return e;
}
// every emission from the continuum: all energy ends up in neutrons, separation energies and photons
static void balance(double ulo, double uhi, int lo, int hi, int steps) {
  way0lo = lo, way0hi = hi, maxsteps = steps;
  gr = 1.0;
  hl1 = hl2 = 0;
  start(ulo, uhi);
  specMCMainFission(fe);
  int nu;
  double e = released(&nu);
  vp_close(e, fe->U, 1e-9, "neutron + separation + photon energies = initial excitation energy");
  vp_reach("end");
}
VP_HARNESS(balanceGamma) { balance(2.5, 3.0, 0, 4, 3); }
VP_HARNESS(balanceNeutron) { balance(4.5, 5.0, 2, 3, 2); }
VP_HARNESS(balanceTwo) { // two neutrons
  way1lo = 2, way1hi = 3, way2lo = way2hi = 1;
  ebin = 2.0;
  balance(6.9, 7.2, 2, 2, 3);
}
VP_HARNESS(balanceMixed) { // a photon before the neutron
  way1lo = 2, way1hi = 3, way2lo = way2hi = 1;
  ebin = 1.0;
  balance(4.9, 5.2, 0, 0, 3);
}

// fragment formed in the discrete region: decays from the level closest to its excitation energy
VP_HARNESS(discreteStart) {
  gr = 1.0;
  hl1 = hl2 = 0;
  start(0.0, 1.25);
  vp_assume(fe->U <= le2);
  specMCMainFission(fe);
  int nu;
  double e = released(&nu);
  vp_check(nu == 0, "no neutron below the separation energy");
  double lv[3] = {0, le1, le2};
  bool ok = false;
  for (int i = 0; i < 3; i++) {
    double d = fabs(fe->U - lv[i]);
    bool best = true;
    for (int j = 0; j < 3; j++) best &= d <= fabs(fe->U - lv[j]);
    ok |= best & (fabs(e - lv[i]) < 1e-9);
  }
  vp_check(ok, "photon energies add up to the level closest to the excitation energy");
  vp_reach("end");
}

// internal conversion: the energy of a converted transition is missing from the photons
VP_HARNESS(conversion) {
  way0lo = 1, way0hi = 1, maxsteps = 1;
  gr = vp_real("gratio", 0, 1);
  hl1 = hl2 = 0;
  start(2.5, 3.0);
  specMCMainFission(fe);
  int nu;
  double e = released(&nu);
  double d = fe->U - e, tr[4] = {0, le1, le2, le2 - le1};
  bool ok = false;
  for (int i = 0; i < 4; i++) ok |= fabs(d - tr[i]) < 1e-9;
  vp_check(ok, "missing photon energy = converted transitions");
  vp_reach("end");
}

// isomers and the coincidence window
VP_HARNESS(window) {
  rng_cgm = rndpos;
  way0lo = 1, way0hi = 1, maxsteps = 1;
  gr = 1.0;
  bool w = vp_choose("window", 0, 1);
  hl1 = vp_choose("isomer1", 0, 1) ? vp_real("halflife1", 1e-9, 1.0) : 0.0;
  hl2 = vp_choose("isomer2", 0, 1) ? vp_real("halflife2", 1e-9, 1.0) : 0.0;
  double W = w ? vp_real("W", 1e-9, 1e-3) : -1.0;
  start(2.5, 3.0);
  rng_cgm = rndpos;
  set_time_coincidence_window(W);
  specMCMainFission(fe);
  int nu;
  double e = released(&nu);
  double d = fe->U - e;
  bool ok = fabs(d) < 1e-9;
  if (w && hl1 > 0) ok |= fabs(d - le1) < 1e-9;
  if (w && hl2 > 0) ok |= fabs(d - le2) < 1e-9;
  vp_check(ok, "the cascade stops only in an isomer that outlives the window");
  bool iso = false;
  for (int i = 0; i < fe->nug; i++) {
    if (w) vp_check(fe->photonAges[i] <= W, "no photon later than the window");
    if (hl1 == 0 && hl2 == 0) vp_check(fe->photonAges[i] == 0, "prompt cascade has age zero");
    vp_observe("age", fe->photonAges[i]);
  }
  vp_check(fe->nug == 0 || fe->photonAges[0] == 0, "continuum photon has age zero");
  vp_reach("end");
}
// exponential decay law: the half-life is the median emission time
VP_HARNESS(halflife) {
  way0lo = 1, way0hi = 1, maxsteps = 1;
  gr = 1.0;
  int late = vp_choose("late", 0, 1);
  rlo = late ? 1e-9 : 0.5, rhi = late ? 0.5 : 1.0;
  hl1 = vp_real("halflife1", 1e-9, 1.0);
  hl2 = 0;
  nlev = 2;
  start(2.5, 3.0);
  rng_cgm = rndpos;
  specMCMainFission(fe);
  if (fe->nug == 2) {
    if (late) vp_le(hl1, fe->photonAges[1], 1e-12, "emission time at least one half-life for the late half");
    else vp_le(fe->photonAges[1], hl1, 1e-12, "emission time at most one half-life for the early half");
    vp_reach("end");
  }
}

static void dir(const double *v, double a, double b, double c, const char *lab) {
  double n = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  vp_close(a * n, v[0], 1e-7, lab);
  vp_close(b * n, v[1], 1e-7, lab);
  vp_close(c * n, v[2], 1e-7, lab);
}
// what the event record says about a decay agrees with the kinematics of the emitted particles
static void recorded(double ulo, double uhi, int lo, int hi, int steps) {
  way0lo = lo, way0hi = hi, maxsteps = steps;
  gr = 1.0;
  hl1 = hl2 = 0;
  start(ulo, uhi);
  int seed = vp_choose("leftover", 0, 1); // the record may hold the numbers of an earlier event
  if (seed) {
    fe->nu = 5, fe->nug = 7, fe->KEpost = 55;
    for (int i = 0; i < 3; i++) fe->postFragmentMomentum[i] = 9e3;
  }
  specMCMainFission(fe);
  vp_check(bcalls == 1 && bz == Z && ba == A, "kinematics applied once, to the initial fragment");
  vp_check(fe->nu == bn && fe->nug == bg, "multiplicities = particles emitted");
  double q[3] = {1000, 1000, 1000};
  for (int i = 0; i < bn; i++) {
    vp_close(fe->cmNeutronEnergies[i], becm[i], 1e-9, "cm neutron energy");
    vp_close(fe->neutronEnergies[i], bel[i], 1e-9, "lab neutron energy");
    dir(bvl[i], fe->neutronDircosu[i], fe->neutronDircosv[i], fe->neutronDircosw[i], "lab neutron direction");
    dir(bvc[i], fe->cmNeutronDircosu[i], fe->cmNeutronDircosv[i], fe->cmNeutronDircosw[i], "cm neutron direction");
    for (int k = 0; k < 3; k++) q[k] -= MN * bvl[i][k];
  }
  for (int i = 0; i < bg; i++) {
    vp_close(fe->cmPhotonEnergies[i], beg[i], 1e-9, "cm photon energy");
    vp_close(fe->photonEnergies[i], begl[i], 1e-9, "lab photon energy");
    dir(bgl[i], fe->photonDircosu[i], fe->photonDircosv[i], fe->photonDircosw[i], "lab photon direction");
    dir(bgc[i], fe->cmPhotonDircosu[i], fe->cmPhotonDircosv[i], fe->cmPhotonDircosw[i], "cm photon direction");
  }
  double k2 = 0;
  for (int k = 0; k < 3; k++) {
    vp_close(fe->preFragmentMomentum[k], 1000, 1e-9, "initial momentum unchanged");
    vp_close(fe->postFragmentMomentum[k], q[k], 1e-6, "final momentum = initial momentum - neutron momenta");
    k2 += q[k] * q[k];
  }
  vp_close(fe->KEpost * 2 * M(Z, A - bn), k2, 1e-4, "final kinetic energy = p^2/2M of the fragment left after neutron emission");
  vp_observe("KEpost", fe->KEpost);
  vp_reach("end");
}
VP_HARNESS(recordGamma) { recorded(2.5, 3.0, 1, 1, 1); }
VP_HARNESS(recordNeutron) { recorded(4.5, 5.0, 3, 3, 1); }
VP_HARNESS(recordTwo) {
  way1lo = way1hi = 3;
  ebin = 2.0;
  recorded(6.9, 7.2, 2, 2, 2);
}

// ---------------------------------------------------------------- decay of a single nucleus (P32)
#ifdef VP_RECORD
void getRiplDiscreteLevels(Nucleus *n, int nemit) { getDiscreteLevels(n, nemit); }
void statFixDiscreteLevels(Nucleus *) {}
static void lines(const double *e, int n, const double *l, int nl, double de, const char *count, const char *energy) {
  // energies below half a bin count as zero
  int m = 0;
  double lo = 0;
  for (int i = 0; i < n; i++) {
    bool c = e[i] >= 0.5 * de;
    if (!c) continue;
    m++;
    lo += e[i];
    bool near = false;
    for (int k = 0; k < nl; k++) near |= (l[k] - e[i] <= 0.501 * de) & (e[i] - l[k] <= 0.501 * de);
    vp_check(near, energy);
  }
  vp_check(nl == m, count);
  double s = 0;
  for (int k = 0; k < nl; k++) s += l[k];
  vp_check((s - lo <= 0.501 * de * m) & (lo - s <= 0.501 * de * m), energy);
}
static void single(double ulo, double uhi, int lo, int hi, int steps) {
  way0lo = lo, way0hi = hi, maxsteps = steps;
  hl1 = hl2 = 0;
  start(ulo, uhi);
  ncl[0].za.setZA(Z, A);
  ncl[0].max_energy = fe->U;
  ctl.print_history = false;
  mcl_nlines = 7, mcl_nlinesn = 3; // leftovers
  specMCMain(1, fe->parity, 0.0, 0.0, 1, spc);
  cgmGetSpectra(ncl[0].de, spc);
  double en[16], eg[16];
  int nn = 0, ng = 0;
  for (int i = 0; i < np; i++) { // the last point may be the final state, without energy
    if (hs[i].getIndex() == neutron) en[nn++] = hs[i].getEnergy();
    else if (hs[i].getIndex() == gammaray && hs[i].getEnergy() > 0) eg[ng++] = hs[i].getEnergy();
  }
  lines(eg, ng, mcl_glines, mcl_nlines, ebin, "every photon listed once, conversion electrons not listed", "photon listed at its energy");
  lines(en, nn, mcl_elinesn, mcl_nlinesn, ebin, "every neutron listed once", "neutron listed at its energy");
  vp_observe("ng", mcl_nlines);
  vp_reach("end");
}
VP_HARNESS(singleDiscrete) {
  gr = vp_real("gratio", 0, 1);
  ebin = 0.2;
  single(0.0, 1.2, 0, 0, 0);
}
VP_HARNESS(singleGamma) {
  gr = 1.0;
  single(2.5, 3.0, 0, 1, 2);
}
VP_HARNESS(singleNeutron) {
  gr = 1.0;
  way1lo = 1, way1hi = 3;
  single(6.9, 7.2, 2, 3, 2);
}
#endif
