// Statistical decay of one excited nucleus: competition of photon and neutron emission, choice of the
// final state, photon strength, level density, decay chain and energy grid, initial populations.
// With VP_MC the Monte Carlo file is included so that its static functions can be called.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#ifdef VP_MC
#include "specmc.cpp"
#else
using namespace std;
#include "cgm.h"
#include "global.h"
#include "mchf.h"
#include "config.h"
#include "physics.h"
#include "masstable.h"
#include "kcksyst.h"
#include "rngcgm.h"
#endif
#include "vp.h"
#define ENTRY(n) static void n##_entry(); VP_HARNESS(n) { n##_entry(); vp_reach("end"); } static void n##_entry()

static double rnd() {
  double r = vp_rand();
  vp_assume(r > 0);
  return r;
}
static void system_(int bins, int js, int levels, int nuc) {
  MAX_ENERGY_BIN = bins;
  MAX_J = js;
  MAX_LEVELS = levels;
  ncl = new Nucleus[nuc];
  for (int i = 0; i < SPECTRA_OUTPUT; i++) {
    spc[i] = new double[bins];
    for (int k = 0; k < bins; k++) spc[i][k] = 0;
  }
  rng_cgm = rnd;
}

// ------------------------------------------------------------ Hauser-Feshbach step (P25)
#if defined(VP_HF)
static double cg[3], tn[3][2], SN;
static int LM = 1;
// stub: photon transmission, a known function of multipole and energy
double gdrGammaTransmission(GammaProfile, int l, double eg, GammaMultipol gm, double, double) {
  vp_check(l == (gm == E2 ? 2 : 1), "P25 multipole order");
  return cg[gm] * (1 + eg);
}
// stub: neutron transmission, a known function of l, j and energy
int omCalc(double e, Pdata *, ZAnumber *, double, double *tr, CrossSection *) {
  if (e <= 0) return -1;
  for (int l = 0; l <= LM; l++) tr[3 * l] = tn[l][0] * (2 + e), tr[3 * l + 1] = l ? tn[l][1] * (2 + e) : 0;
  return LM;
}
double ldDensityParameter(double, double, LevelDensity *) { return 10; }
double mass_excess(int, int) { return 0; }

static int H0; // half-integer parent
static double hj(int idx, int half) { return idx + half * 0.5; }
static bool tri(double a, double b, double c) { return a <= b + c && b <= a + c && c <= a + b; }
// expected photon width to a state (spin, parity) at distance eg
static double gw(double J, int P, double j, int p, double eg) {
  double w = 0;
  if (P != p && tri(J, j, 1)) w += cg[E1];
  if (P == p && tri(J, j, 1)) w += cg[M1];
  if (P == p && tri(J, j, 2)) w += cg[E2];
  return w * (1 + eg);
}
static double nw(double J, int P, double j, int p, double e) {
  double w = 0;
  for (int l = 0; l <= LM; l++)
    for (int s = 0; s < 2; s++) {
      double jn = l + 0.5 - s;
      if (jn < 0) continue;
      if (P * (l % 2 ? -1 : 1) != p || !tri(J, j, jn)) continue;
      w += tn[l][s] * (2 + e);
    }
  return w;
}
static const int JM = 8;
static void nucleus(Nucleus *n, int half, int ncont, int ndisc, double emax, double de, const char *tag, int jlo, int jhi) {
  n->ncont = ncont, n->ndisc = ndisc, n->ntotal = ncont + 2, n->jmax = 0;
  n->max_energy = emax, n->de = de;
  for (int k = 0; k < MAX_ENERGY_BIN; k++) {
    n->binwidth[k] = de;
    n->excitation[k] = k < n->ntotal - 1 ? emax - k * de : 0;
    for (int j = 0; j < MAX_J; j++) {
      n->pop[k][j].even = n->pop[k][j].odd = 0;
      n->density[k][j].even = k < ncont && j >= jlo && j <= jhi ? vp_real(tag, 0.1, 10) : 1;
      n->density[k][j].odd = k < ncont && j >= jlo && j <= jhi ? vp_real(tag, 0.1, 10) : 1;
    }
  }
  for (int i = 0; i < MAX_LEVELS; i++) n->lpop[i] = 0;
  n->lev[0].spin = half * 0.5, n->lev[0].parity = 1, n->lev[0].energy = 0;
}
static void channel(Nucleus *n, bool open, double sn) {
  for (int j = 0; j < MAX_CHANNEL; j++) n->cdt[j].spin2 = j == neutron, n->cdt[j].next = -1, n->cdt[j].status = false;
  n->cdt[neutron].binding_energy = sn;
  n->cdt[neutron].status = open;
  n->cdt[neutron].next = open ? 1 : -1;
}
static void widths() {
  for (int i = 0; i < 3; i++) cg[i] = vp_real("photonWidth", 0.1, 1);
  for (int l = 0; l <= LM; l++)
    for (int s = 0; s < 2; s++) tn[l][s] = vp_real("neutronWidth", 0.1, 1);
}
// all final populations against the widths
static void balance(int c0, double J, int P, double E0, double sn, bool open) {
  double W = 0, S = 0;
  struct { double pop, w; } f[400];
  int nf = 0;
  Nucleus *n = &ncl[c0];
  int h = H0;
  for (int k = 1; k < n->ncont; k++)
    for (int j = 0; j < MAX_J; j++)
      for (int p = -1; p <= 1; p += 2) {
        double d = p > 0 ? n->density[k][j].even : n->density[k][j].odd;
        f[nf].pop = p > 0 ? n->pop[k][j].even : n->pop[k][j].odd;
        f[nf++].w = gw(J, P, hj(j, h), p, E0 - n->excitation[k]) * d * n->binwidth[k];
      }
  for (int i = 0; i < n->ndisc; i++) f[nf].pop = n->lpop[i], f[nf++].w = gw(J, P, n->lev[i].spin, n->lev[i].parity, E0 - n->lev[i].energy);
  if (open) {
    n = &ncl[1], h = 1 - H0;
    for (int k = 0; k < n->ncont; k++)
      for (int j = 0; j < MAX_J; j++)
        for (int p = -1; p <= 1; p += 2) {
          double d = p > 0 ? n->density[k][j].even : n->density[k][j].odd, e = E0 - n->excitation[k] - sn;
          f[nf].pop = p > 0 ? n->pop[k][j].even : n->pop[k][j].odd;
          f[nf++].w = e > 0 ? nw(J, P, hj(j, h), p, e) * d * n->binwidth[k] : 0;
        }
    for (int i = 0; i < n->ndisc; i++) {
      double e = E0 - n->lev[i].energy - sn;
      f[nf].pop = n->lpop[i], f[nf++].w = e > 0 ? nw(J, P, n->lev[i].spin, n->lev[i].parity, e) : 0;
    }
  }
  int ref = -1;
  for (int i = 0; i < nf; i++) {
    W += f[i].w, S += f[i].pop;
    if (f[i].w == 0) vp_close(f[i].pop, 0, 1e-12, "P25 forbidden transition");
    else if (ref < 0) ref = i;
  }
  vp_check(ref >= 0, "P25 allowed transition");
  for (int i = 0; i < nf; i++)
    if (f[i].w != 0 && i != ref) vp_close(f[i].pop * f[ref].w, f[ref].pop * f[i].w, 1e-9, "P25 branching ratio");
  vp_close(S, 1, 1e-9, "P25 population conserved");
}
static void start(int j, int p) {
  if (p > 0) ncl[0].pop[0][j].even = 1;
  else ncl[0].pop[0][j].odd = 1;
}
// photons only: two continuum bins below the top one and three levels
static void photons(int jlo, int jhi) {
  system_(12, JM, 4, 2);
  H0 = vp_choose("halfInteger", 0, 1);
  widths();
  double E = vp_real("E", 4, 6), de = 0.75;
  int J = vp_choose("J", jlo, jhi), P = vp_choose("P", 0, 1) * 2 - 1;
  nucleus(&ncl[0], H0, 2, 2, E, de, "density", 0, J + 2);
  ncl[0].lev[1].energy = vp_real("level", 0.01, 1.5), ncl[0].lev[1].spin = hj(vp_choose("levelSpin", 0, 3), H0), ncl[0].lev[1].parity = vp_choose("levelParity", 0, 1) * 2 - 1;
  channel(&ncl[0], false, 7);
  start(J, P);
  Pdata pd[MAX_CHANNEL];
  spectraBinary(0, pd, spc);
  balance(0, hj(J, H0), P, E, 7, false);
}
ENTRY(photonsLow) { photons(0, 1); }
ENTRY(photonsHigh) { photons(2, 3); }
// photons and neutrons: the daughter has one or two continuum bins and two levels
static void both(int jlo, int jhi, int lm) {
  system_(12, JM, 4, 2);
  LM = lm;
  H0 = vp_choose("halfInteger", 0, 1);
  widths();
  double E = vp_real("E", 9, 10), de = 1.25, sn = vp_real("Sn", 6, 7);
  int J = vp_choose("J", jlo, jhi), P = vp_choose("P", 0, 1) * 2 - 1;
  nucleus(&ncl[0], H0, 1, 1, E, de, "density", 0, -1);
  nucleus(&ncl[1], 1 - H0, 2, 2, E - sn, de, "density", 0, J + lm + 1);
  ncl[1].lev[1].energy = vp_real("level", 0.01, 0.3), ncl[1].lev[1].spin = hj(vp_choose("levelSpin", 0, 2), 1 - H0), ncl[1].lev[1].parity = vp_choose("levelParity", 0, 1) * 2 - 1;
  channel(&ncl[0], true, sn);
  channel(&ncl[1], false, 7);
  start(J, P);
  Pdata pd[MAX_CHANNEL];
  spectraBinary(0, pd, spc);
  balance(0, hj(J, H0), P, E, sn, true);
}
ENTRY(neutronsLow) { both(0, 1, 1); }
ENTRY(neutronsHigh) { both(2, 2, 2); }
// neutron channel open in general but not from this energy: photons only
ENTRY(closed) {
  system_(20, JM, 4, 2);
  H0 = vp_choose("halfInteger", 0, 1);
  widths();
  double E = vp_real("E", 3, 9), de = 0.5, sn = vp_real("Sn", 4, 8);
  vp_assume(E < sn);
  int J = vp_choose("J", 0, 2), P = vp_choose("P", 0, 1) * 2 - 1;
  nucleus(&ncl[0], H0, 2, 1, E, de, "density", 0, J + 2);
  nucleus(&ncl[1], 1 - H0, 0, 1, E - sn, de, "density", 0, -1);
  channel(&ncl[0], true, sn);
  channel(&ncl[1], false, 7);
  start(J, P);
  Pdata pd[MAX_CHANNEL];
  spectraBinary(0, pd, spc);
  for (int i = 0; i < ncl[1].ndisc; i++) vp_close(ncl[1].lpop[i], 0, 1e-12, "P25 no neutron below the separation energy");
  balance(0, hj(J, H0), P, E, sn, false);
}
// no transition possible: the whole population goes to one level
ENTRY(trapped) {
  system_(4, 20, 4, 2);
  H0 = vp_choose("halfInteger", 0, 1);
  widths();
  double E = vp_real("E", 2, 3);
  int J = vp_choose("J", 9, 10), P = vp_choose("P", 0, 1) * 2 - 1;
  nucleus(&ncl[0], H0, 1, 2, E, 0.5, "density", 0, -1);
  ncl[0].lev[1].energy = vp_real("level", 0.01, 1.5), ncl[0].lev[1].spin = hj(vp_choose("levelSpin", 0, 3), H0), ncl[0].lev[1].parity = vp_choose("levelParity", 0, 1) * 2 - 1;
  channel(&ncl[0], false, 7);
  start(J, P);
  Pdata pd[MAX_CHANNEL];
  spectraBinary(0, pd, spc);
  double s = 0;
  for (int i = 0; i < ncl[0].ndisc; i++) {
    s += ncl[0].lpop[i];
    vp_check(ncl[0].lpop[i] == 0 || ncl[0].lpop[i] == 1, "P25 trapped population moved as a whole");
  }
  vp_close(s, 1, 1e-12, "P25 trapped population");
}
#endif
#if defined(VP_HF)
// deterministic cascade through continuum and levels of two nuclei: everything ends in the ground states
ENTRY(cascade) {
  system_(12, 6, 4, 2);
  H0 = vp_choose("halfInteger", 0, 1);
  LM = 1;
  for (int i = 0; i < 3; i++) cg[i] = 0.25 * (i + 1);
  for (int l = 0; l <= LM; l++)
    for (int s = 0; s < 2; s++) tn[l][s] = 0.125 * (2 * l + s + 1);
  double de = 1.25, E = 9, sn = 6.5;
  nucleus(&ncl[0], H0, 3, 3, E, de, "density", 0, -1);
  nucleus(&ncl[1], 1 - H0, 2, 3, E - sn, de, "density", 0, -1);
  ncl[0].ntotal = 8, ncl[1].ntotal = 3;
  for (int c = 0; c < 2; c++) {
    Nucleus *n = &ncl[c];
    for (int k = 0; k < n->ncont; k++)
      for (int j = 0; j < MAX_J; j++) n->density[k][j].even = 1 + k + 0.5 * j, n->density[k][j].odd = 2 + k + 0.25 * j;
    for (int i = 1; i < n->ndisc; i++) n->lev[i].energy = 0.3 * i, n->lev[i].spin = hj(i, c ? 1 - H0 : H0), n->lev[i].parity = i == 1 ? -1 : 1, n->lev[i].ngamma = 1, n->lev[i].gratio[0] = vp_real("conversion", 0, 1);
    Level *l = &n->lev[2];
    l->ngamma = 2, l->fstate.push_back(1), l->branch[0] = vp_real("branch", 0, 1), l->branch.push_back(1 - l->branch[0]), l->gratio.push_back(vp_real("conversion", 0, 1));
  }
  channel(&ncl[0], true, sn);
  channel(&ncl[1], false, 7);
  double s = 0;
  for (int j = 0; j < 3; j++) s += (ncl[0].pop[0][j].even = vp_real("pop", 0.1, 1)) + (ncl[0].pop[0][j].odd = vp_real("pop", 0.1, 1));
  Pdata pd[MAX_CHANNEL];
  ctl.print_indivspec = false;
  spectra(2, pd, spc);
  double g = ncl[0].lpop[0] + ncl[1].lpop[0];
  vp_close(g, s, 1e-9, "P25 cascade ends in the ground states");
  double nn = 0;
  for (int k = 0; k < MAX_ENERGY_BIN; k++) {
    nn += spc[1][k];
    vp_le(0, spc[0][k], 1e-12, "P25 photon spectrum not negative");
  }
  vp_close(nn, ncl[1].lpop[0], 1e-9, "P25 neutrons emitted equal population of the daughter");
}
#endif

#if defined(VP_MC)
// stubs: level density, any positive values
static double rho[64];
static int nrho;
double ldLevelDensity(double, double, LevelDensity *) { return 1; }
double ldSpinDistribution(double, double, double) { return 1; }
static double P_[64], en[64];
static void fillpop() {
  // nine final states: four continuum, two levels, then two continuum and one level after a neutron
  system_(4, 2, 3, 2);
  int q = 0;
  double s = 0;
  for (int c = 0; c < 2; c++) {
    Nucleus *n = &ncl[c];
    n->ncont = 2 - c, n->ndisc = 2 - c, n->jmax = 1 - c, n->ntotal = 4;
    for (int k = 0; k < 4; k++) {
      n->excitation[k] = 5 - 3 * c - k;
      for (int j = 0; j < 2; j++) n->pop[k][j].even = n->pop[k][j].odd = 0;
    }
    for (int k = 1 - c; k < n->ncont; k++)
      for (int j = 0; j <= n->jmax; j++) {
        s += n->pop[k][j].even = P_[q++] = vp_real("pop", 0, 1);
        s += n->pop[k][j].odd = P_[q++] = vp_real("pop", 0, 1);
      }
    for (int i = 0; i < 3; i++) n->lpop[i] = 0;
    for (int i = 0; i < n->ndisc; i++) {
      s += n->lpop[i] = P_[q++] = vp_real("pop", 0, 1);
      n->lev[i].energy = 0.1 * i, n->lev[i].spin = i, n->lev[i].parity = i ? -1 : 1;
    }
    n->cdt[neutron].status = c == 0, n->cdt[neutron].next = c == 0 ? 1 : -1;
  }
  vp_assume(s == 1);
  ncl[0].pop[0][0].even = 1; // the decaying state itself
}
static int which(MCPoint m) {
  int q = 0, r = -1;
  for (int c = 0; c < 2; c++) {
    Nucleus *n = &ncl[c];
    for (int k = 1 - c; k < n->ncont; k++)
      for (int j = 0; j <= n->jmax; j++)
        for (int p = 1; p >= -1; p -= 2, q++)
          if (!m.ifDiscrete() && m.getN() == c && m.getK() == k && m.getJ() == j && m.getP() == p) {
            r = q;
            vp_close(m.getE(), n->excitation[k], 1e-12, "P25 energy of the chosen state");
          }
    for (int i = 0; i < n->ndisc; i++, q++)
      if (m.ifDiscrete() && m.getN() == c && m.getK() == i) {
        r = q;
        vp_close(m.getE(), n->lev[i].energy, 1e-12, "P25 energy of the chosen level");
        vp_check(m.getP() == n->lev[i].parity && m.getJ() == (int)n->lev[i].spin, "P25 spin and parity of the chosen level");
      }
  }
  return r;
}
static double R[2];
static int nr;
static double rtwo() { return R[nr++ % 2]; }
// a final state is chosen for random numbers that span no more than its population
ENTRY(choice) {
  fillpop();
  for (int i = 0; i < 2; i++) R[i] = rnd();
  nr = 0;
  rng_cgm = rtwo;
  int a = which(mcFindNext(0, 1, 0, 1)), b = which(mcFindNext(0, 1, 0, 1));
  vp_check(a >= 0 && b >= 0, "P25 chosen state exists");
  if (a < 0) return;
  vp_check(P_[a] > 0, "P25 chosen state is populated");
  if (a == b) vp_le(fabs(R[0] - R[1]), P_[a], 1e-12, "P25 state chosen as often as populated");
}
// decay bins set up for the present state; leftovers of earlier decays removed
ENTRY(restore) {
  system_(8, 3, 3, 2);
  ENERGY_BIN = 1;
  double E = vp_real("E", 4, 6), sn = vp_real("Sn", 2, 7);
  for (int c = 0; c < 2; c++) {
    Nucleus *n = &ncl[c];
    n->ndisc = 1, n->ncont = vp_choose("oldBins", 0, 2), n->max_energy = vp_real("old", 0, 7);
    n->lev[0].energy = 0, n->lev[0].spin = 0, n->lev[0].parity = 1;
    for (int k = 0; k < 8; k++)
      for (int j = 0; j < 3; j++) n->pop[k][j].even = vp_real("old", 0, 1), n->pop[k][j].odd = vp_real("old", 0, 1);
    for (int i = 0; i < 3; i++) n->lpop[i] = vp_real("old", 0, 1);
    n->cdt[neutron].status = c == 0, n->cdt[neutron].next = c == 0 ? 1 : -1;
    n->cdt[neutron].binding_energy = sn;
  }
  int J = vp_choose("J", 0, 2), P = vp_choose("P", 0, 1) * 2 - 1;
  MCPoint m(0, P, J, 2, E);
  mcRestorePopulation(m, &ncl[0], &ncl[1]);
  vp_close(ncl[0].excitation[0], E, 1e-12, "P25 decay starts at the energy of the state");
  vp_close(ncl[1].max_energy, E - sn, 1e-12, "P25 daughter energy");
  if (E > sn) vp_close(ncl[1].ntotal > 1 ? ncl[1].excitation[0] : E - sn, E - sn, 1e-12, "P25 daughter bins");
  for (int c = 0; c < 2; c++)
    for (int k = 0; k < ncl[c].ncont; k++)
      for (int j = 0; j < 3; j++) {
        bool me = c == 0 && k == 0 && j == J;
        vp_close(ncl[c].pop[k][j].even, me && P > 0, 1e-12, "P25 population before the decay (even)");
        vp_close(ncl[c].pop[k][j].odd, me && P < 0, 1e-12, "P25 population before the decay (odd)");
      }
  for (int c = 0; c < 2; c++)
    for (int i = 0; i < 1; i++) vp_close(ncl[c].lpop[i], 0, 1e-12, "P25 level population before the decay");
}
// initial spin and parity drawn from the initial population
ENTRY(startSample) {
  system_(2, 4, 2, 1);
  Parity *p[1];
  p[0] = new Parity[4];
  double s = 0, E = vp_real("E", 1, 20);
  for (int j = 0; j < 4; j++) s += (p[0][j].even = vp_real("pop", 0, 1)) + (p[0][j].odd = vp_real("pop", 0, 1));
  vp_assume(s == 1);
  for (int i = 0; i < 2; i++) R[i] = rnd();
  nr = 0;
  rng_cgm = rtwo;
  MCPoint a = mcSampleStart(E, p), b = mcSampleStart(E, p);
  vp_check(a.getN() == 0 && a.getK() == 0, "P30 starts in the compound nucleus");
  vp_close(a.getE(), E, 0, "P30 starting energy");
  double q = a.getP() > 0 ? p[0][a.getJ()].even : p[0][a.getJ()].odd;
  vp_check(q > 0, "P30 starting state is populated");
  if (a.getJ() == b.getJ() && a.getP() == b.getP()) vp_le(fabs(R[0] - R[1]), q, 1e-12, "P30 starting state drawn as often as populated");
}
ENTRY(startFixed) {
  system_(2, 6, 2, 1);
  Parity *p[1];
  p[0] = new Parity[6];
  for (int j = 0; j < 6; j++) p[0][j].even = p[0][j].odd = 0;
  int J = vp_choose("J", 0, 5), P = vp_choose("P", 0, 1) * 2 - 1;
  double E = vp_real("E", 1, 20), q = vp_real("pop", 0.1, 1);
  if (P > 0) p[0][J].even = q;
  else p[0][J].odd = q;
  MCPoint a = mcFixedStart(E, p);
  vp_check(a.getJ() == J && a.getP() == P && a.getN() == 0 && a.getK() == 0, "P30 fixed starting state");
  vp_close(a.getE(), E, 0, "P30 starting energy");
}
#endif

// ------------------------------------------------------------ decay chain and energy grid (P26)
#if defined(VP_CHAIN)
static double mx[64];
static int mxk[64], nmx;
double mass_excess(int z, int a) {
  for (int i = 0; i < nmx; i++)
    if (mxk[i] == z * 1000 + a) return mx[i];
  mxk[nmx] = z * 1000 + a;
  mx[nmx] = vp_real("massExcess", -120, 120);
  return mx[nmx++];
}
static double sepn(int z, int a) { return mass_excess(z, a - 1) + ENEUTRON - mass_excess(z, a); }
ENTRY(chain) {
  system_(3, 3, 3, MAX_COMPOUND);
  int Z = vp_choose("Z", 40, 41), A = vp_choose("A", 100, 101);
  double E = vp_real("E", 0.1, 60), e = E;
  for (int i = 0; i < MAX_COMPOUND; i++) ncl[i].max_energy = vp_real("old", 0, 50), ncl[i].za.setZA(1, 1), ncl[i].cdt[neutron].status = true, ncl[i].cdt[neutron].next = 3, ncl[i].cdt[neutron].binding_energy = 99;
  ncl[0].za.setZA(Z, A);
  ncl[0].max_energy = E;
  int n = statTotalNeutrons(E, &ncl[0].za);
  vp_check(n >= 0 && n < MAX_COMPOUND, "P26 number of neutrons in range");
  for (int i = 0; i < n; i++) {
    e -= sepn(Z, A - i);
    vp_check(e > 0, "P26 every counted neutron can be emitted");
  }
  if (n < MAX_COMPOUND - 1) vp_check(!(e - sepn(Z, A - n) > 0), "P26 no further neutron can be emitted");
  Pdata pd[MAX_CHANNEL];
  statSetupInitSystem(n, pd);
  e = E;
  for (int i = 0; i <= n; i++) {
    vp_check((int)ncl[i].za.getZ() == Z && (int)ncl[i].za.getA() == A - i, "P26 nuclide after each neutron");
    vp_close(ncl[i].mass_excess, mass_excess(Z, A - i), 1e-9, "P26 mass excess of each nuclide");
    vp_close(ncl[i].mass * AMUNIT, (A - i) * AMUNIT + mass_excess(Z, A - i), 1e-6, "P26 mass of each nuclide");
    vp_close(ncl[i].max_energy, e, 1e-9, "P26 energy left after each neutron");
    if (i < n) {
      vp_close(ncl[i].cdt[neutron].binding_energy, sepn(Z, A - i), 1e-9, "P26 neutron separation energy");
      vp_check(ncl[i].cdt[neutron].status && ncl[i].cdt[neutron].next == i + 1, "P26 neutron channel leads to the next nuclide");
      e -= sepn(Z, A - i);
    } else vp_check(!ncl[i].cdt[neutron].status, "P26 neutron channel closed for the last nuclide");
    vp_check(ncl[i].cdt[neutron].spin2 == 1, "P26 neutron spin");
  }
  vp_close(pd[neutron].mass, NEUTRONMASS, 0, "P26 neutron mass");
}
ENTRY(grid) {
  system_(10, 2, 4, 1);
  ENERGY_BIN = vp_real("binWidth", 0.25, 1);
  Nucleus *n = &ncl[0];
  double E = vp_real("E", -2, 9), top;
  vp_assume(E < 9 * ENERGY_BIN);
  n->max_energy = E;
  n->ndisc = vp_choose("levels", 0, 3);
  for (int i = 0; i < 4; i++) n->lev[i].energy = 0, n->lev[i].spin = 0, n->lev[i].parity = 1;
  if (n->ndisc > 1) n->lev[1].energy = vp_real("level", 0.001, 4);
  if (n->ndisc > 2) n->lev[2].energy = n->lev[1].energy + vp_real("level", 0.001, 4);
  top = n->lev[n->ndisc ? n->ndisc - 1 : 0].energy;
  for (int k = 0; k < 10; k++)
    for (int j = 0; j < 2; j++) n->pop[k][j].even = n->pop[k][j].odd = 7;
  for (int i = 0; i < 4; i++) n->lpop[i] = 7;
  int nc = statSetupEnergyBin(n);
  double de = ENERGY_BIN;
  vp_check(nc == n->ncont && n->ncont >= 0 && n->ncont < n->ntotal && n->ntotal <= 10, "P26 number of bins");
  vp_close(n->de, de, 0, "P26 bin width");
  for (int k = 0; k < n->ntotal; k++) vp_close(n->binwidth[k], de, 0, "P26 bin width");
  if (n->ntotal > 1) vp_close(n->excitation[0], E, 1e-9, "P26 top bin");
  for (int k = 0; k + 2 < n->ntotal; k++) vp_close(n->excitation[k] - n->excitation[k + 1], de, 1e-9, "P26 bins equally spaced");
  vp_close(n->excitation[n->ntotal - 1], 0, 0, "P26 lowest bin");
  if (n->ntotal > 1) {
    vp_le(0.5 * de, n->excitation[n->ntotal - 2], 1e-9, "P26 bins above zero");
    vp_le(n->excitation[n->ntotal - 2], 1.5 * de, 1e-9, "P26 bins reach down to zero");
  }
  for (int k = 0; k < n->ncont; k++) vp_le(top, n->excitation[k], 1e-9, "P26 continuum lies above the levels");
  if (n->ncont > 0) vp_le(n->excitation[n->ncont - 1] - top, 2.5 * de, 1e-9, "P26 continuum reaches down to the levels");
  else vp_le(E, top + 2.5 * de, 1e-9, "P26 no continuum only near the levels");
  for (int k = 0; k < n->ntotal; k++)
    for (int j = 0; j < 2; j++) vp_check(n->pop[k][j].even == 0 && n->pop[k][j].odd == 0, "P26 populations cleared");
  for (int i = 0; i < n->ndisc; i++) vp_check(n->lpop[i] == 0, "P26 level populations cleared");
}
ENTRY(bin) {
  MAX_ENERGY_BIN = 12;
  double de = vp_real("binWidth", 0.01, 0.9), e = vp_real("e", -3, 24);
  vp_assume(e < 11.4 * de);
  int k = specFindEnergyBin(e, de);
  vp_check(k < 12, "P26 bin index in range");
  if (e > 1e-3) {
    vp_check(k >= 0, "P26 every energy has a bin");
    vp_le(fabs(e - k * de), 0.5 * de, 1e-3, "P26 nearest bin");
  }
  if (e < -1e-3) vp_check(k < 0, "P26 negative energies have no bin");
}
#endif

// ------------------------------------------------------------ photon strength (P27)
#if defined(VP_GDR)
static GDR g6[MAX_GDR];
static double ge[MAX_GDR], gwd[MAX_GDR], gs[MAX_GDR];
static int gt[MAX_GDR];
static const char *xl[3] = {"E1", "M1", "E2"};
static double fE1(int i, double eg, double a, double ex) {
  double T2 = ex > 0 ? ex / a : 0, E2_ = ge[i] * ge[i], w = gwd[i] * (eg * eg + 4 * PI * PI * T2) / E2_, d = E2_ - eg * eg;
  return 26e-8 / 3 * gs[i] * gwd[i] * (eg * w / (d * d + eg * eg * w * w) + 0.7 * gwd[i] * 4 * PI * PI * T2 / E2_ / (E2_ * ge[i]));
}
static double fSL(int i, double eg, int l) {
  double E2_ = ge[i] * ge[i], d = E2_ - eg * eg, f = 26e-8 / (2 * l + 1) * gs[i] * gwd[i] * eg * gwd[i] / (d * d + eg * eg * gwd[i] * gwd[i]);
  return l == 2 ? f / eg / eg : f;
}
static void resonances(int n) {
  for (int i = 0; i < n; i++) {
    gt[i] = vp_choose("multipole", 0, 2);
    ge[i] = vp_real("energy", 5, 25), gwd[i] = vp_real("width", 2, 8), gs[i] = vp_real("sigma", 1, 500);
    g6[i].setGDR(xl[gt[i]], ge[i], gwd[i], gs[i]);
  }
}
static void transmission(int n, double elo, double ehi) {
  // leftovers of an earlier nucleus
  for (int i = 0; i < MAX_GDR; i++) g6[i].setGDR("E1", 11, 3, 200);
  gdrParameterSave(MAX_GDR, g6);
  resonances(n);
  gdrParameterSave(n, g6);
  int m = vp_choose("transition", 0, 2);
  double eg = vp_real("eg", elo, ehi), a = vp_real("a", 5, 30), ex = vp_real("ex", 0, 10), f = 0;
  for (int i = 0; i < n; i++)
    if (gt[i] == m) f += m == 0 ? fE1(i, eg, a, ex) : fSL(i, eg, m == 2 ? 2 : 1);
  double p = eg * eg * eg;
  if (m == 2) p *= eg * eg;
  double T = gdrGammaTransmission(m == 0 ? GL : SL, m == 2 ? 2 : 1, eg, (GammaMultipol)m, m == 0 ? a : 0, m == 0 ? ex : 0);
  vp_close(T * 1e6, 2 * PI * p * f * 3.14035 * 1e6, 1e-3, "P27 transmission from the strength function");
  vp_le(0, T, 0, "P27 transmission not negative");
}
ENTRY(strengthOne) { transmission(1, 0.01, 4); }
ENTRY(strengthTwo) { transmission(2, 4, 20); }
ENTRY(strengthZero) {
  resonances(2);
  gdrParameterSave(2, g6);
  int m = vp_choose("transition", 0, 2);
  double T = gdrGammaTransmission(m == 0 ? GL : SL, m == 2 ? 2 : 1, m == 2 ? 1e-3 : 0.0, (GammaMultipol)m, 10, 3);
  vp_le(fabs(T), 1e-6, 0, "P27 no transmission at zero energy");
}
// resonance parameters of a nucleus and the magnetic dipole normalisation
ENTRY(resonance) {
  Nucleus *n;
  MAX_ENERGY_BIN = 1, MAX_J = 1, MAX_LEVELS = 1;
  n = new Nucleus;
  int Z = vp_choose("Z", 36, 37), A = vp_choose("A", 96, 97);
  double b = vp_choose("deformed", 0, 1) ? vp_real("beta", -0.3, 0.4) : 0, a = vp_real("a", 8, 20);
  n->za.setZA(Z, A);
  for (int i = 0; i < MAX_GDR; i++) g6[i].setGDR("M1", 3, 3, 3);
  statSetupGdrParameter(n, a, g6, b);
  int k[3] = {0, 0, 0}, m1 = -1;
  double f = 0;
  for (int i = 0; i < MAX_GDR; i++) {
    string x = g6[i].getXL();
    ge[i] = g6[i].getEnergy(), gwd[i] = g6[i].getWidth(), gs[i] = g6[i].getSigma();
    if (x == "E1") k[0]++, f += fE1(i, 7, a, 0);
    if (x == "M1") k[1]++, m1 = i;
    if (x == "E2") {
      k[2]++;
      double c = pow((double)A, 1 / 3.0);
      vp_close(ge[i] * c, 63, 1e-6, "P27 E2 energy");
      vp_close(gwd[i], 6.11 - 0.012 * A, 1e-9, "P27 E2 width");
      vp_close(gs[i] * gwd[i] * c, 1.5e-4 * Z * Z * ge[i] * ge[i], 1e-6, "P27 E2 cross section");
    }
  }
  vp_check(k[0] == (b != 0 ? 2 : 1) && k[1] == 1 && k[2] == 1, "P27 number of resonances");
  if (m1 < 0) return;
  vp_close(ge[m1] * pow((double)A, 1 / 3.0), 41, 1e-6, "P27 M1 energy");
  vp_close(gwd[m1], 4, 1e-9, "P27 M1 width");
  double w = gdrGammaTransmission(SL, 1, 7, M1, 0, 0);
  vp_close(w * 1e6, 1e6 * 2 * PI * 343 * 3.14035 * 17.01 * pow((double)A, -0.878) * f, 1e-3, "P27 M1 normalised to E1 at 7 MeV");
  if (b == 0) {
    double e = 49.336 * pow((double)A, -0.2409);
    vp_close(ge[0], e, 1e-6, "P27 E1 energy (spherical)");
    vp_close(gwd[0], 0.3 * e, 1e-6, "P27 E1 width (spherical)");
    vp_close(gs[0] * gwd[0], 10.6 * A, 1e-6, "P27 E1 cross section (spherical)");
  }
  for (int i = 0; i < MAX_GDR; i++)
    if (g6[i].getXL() != "  ") vp_check(gwd[i] > 0 && gs[i] > 0 && ge[i] > 0, "P27 parameters positive");
}
#endif

// ------------------------------------------------------------ level density (P28)
#if defined(VP_LD)
static LevelDensity ld;
static double AM;
static double shell(double u) {
  if (!(u > 0)) return ld.a;
  return ld.a * (1 + (1 - exp(-0.31 * pow(AM, -1 / 3.0) * u)) * ld.shell_correct / u);
}
static void params(bool match) {
  AM = vp_choose("A", 95, 96);
  ld.a = vp_real("a", 5, 25), ld.pairing_energy = vp_real("pairing", -1, 3), ld.shell_correct = vp_real("shell", -8, 8);
  ld.temperature = vp_real("T", 0.3, 1.5), ld.E0 = vp_real("E0", -5, 2), ld.sigma0 = vp_real("sigma0", 1, 4);
  ld.match_energy = match ? vp_real("Em", 3.5, 12) : 0;
  ld.spin_cutoff = vp_real("oldCutoff", 0, 9);
}
static double amin() { // a(U) positive
  return 0.5;
}
// total density: constant temperature below the matching energy, Fermi gas above
ENTRY(density) {
  params(true);
  double E = vp_real("E", 0, 30), u = E - ld.pairing_energy;
  double Em = ld.match_energy, a = shell(E < Em ? Em - ld.pairing_energy : u);
  vp_assume(a > amin());
  double r = ldLevelDensity(E, AM, &ld), b = ldDensityParameter(E, AM, &ld);
  vp_close(b, a, 1e-6, "P28 level density parameter");
  double uc = u < 0.5 ? 0.5 : u, s2 = 0.006945 * sqrt(uc / a) * pow(AM, 5 / 3.0), s = sqrt(s2);
  if (s < ld.sigma0) s = ld.sigma0;
  vp_close(ld.spin_cutoff, s, 1e-6, "P28 spin cutoff");
  if (E < Em) vp_close(r * ld.temperature / exp((E - ld.E0) / ld.temperature), 1, 1e-6, "P28 constant temperature below the matching energy");
  else vp_close(r * 12 * sqrt(2.0) * pow(a, 0.25) * pow(u, 1.25) * s / exp(2 * sqrt(a * u)), 1, 1e-6, "P28 Fermi gas above the matching energy");
  vp_le(0, r, 0, "P28 density not negative");
}
ENTRY(densityCT) {
  params(false);
  double E = vp_real("E", 0, 30);
  double r = ldLevelDensity(E, AM, &ld);
  vp_close(r * ld.temperature / exp((E - ld.E0) / ld.temperature), 1, 1e-6, "P28 constant temperature everywhere");
  vp_close(ldDensityParameter(E, AM, &ld), ld.a, 1e-9, "P28 asymptotic level density parameter");
}
ENTRY(spinDistribution) {
  int two = vp_choose("2J", 0, 12);
  double J = two * 0.5, c = vp_real("cutoff", 0.5, 9), c0 = vp_real("cutoff0", 0.5, 9), s = c > c0 ? c : c0;
  double r = ldSpinDistribution(J, c, c0), x = (J + 0.5) * exp(-(J + 0.5) * (J + 0.5) / (2 * s * s));
  vp_le(0, r, 0, "P28 spin distribution not negative");
  vp_le(fabs(r * s * s - x), s * s * 1e-10, 1e-12, "P28 spin distribution");
  vp_close(ldParityDistribution(1) + ldParityDistribution(-1), 1, 1e-12, "P28 parity fractions add up to one");
  vp_close(ldParityDistribution(1), 0.5, 1e-12, "P28 parities equally likely");
}
ENTRY(cutoffLevels) {
  Level lev[4];
  int n = vp_choose("levels", 0, 4);
  double s = 0;
  for (int i = 0; i < n; i++) {
    lev[i].spin = vp_real("spin", 0, 12);
    s += lev[i].spin * (lev[i].spin + 1);
  }
  double r = ldLevelSpinCutoff(n, lev);
  if (n < 2) vp_close(r, 0, 0, "P28 no spin cutoff from a single level");
  else vp_close(r * r * 2 * n, s, 1e-6, "P28 spin cutoff from the levels");
}
#endif

// ------------------------------------------------------------ level density parameters (P35)
#if defined(VP_LDP)
// The two searches are followed for a few evaluations only; native runs follow them to the end.
static int evaluations, limit = 1 << 30;
static double counted(double x) {
#ifdef VP_SYM
  if (++evaluations > limit) vp_stop();
#endif
  return exp(x);
}
#define exp counted
#include "levden.cpp"
#undef exp
static LevelDensity l5;
static double A5, lve5, N5, a5;
static double shell5(double u) {
  if (!(u > 0)) return 1;
  return 1 + (1 - exp(-0.31 * pow(A5, -1 / 3.0) * u)) * l5.shell_correct / u;
}
static double gas5(double u, double a) {
  double uc = u < 0.5 ? 0.5 : u, s = sqrt(0.006945 * sqrt(uc / a) * pow(A5, 5 / 3.0));
  if (s < l5.sigma0) s = l5.sigma0;
  return 1.0 / (12.0 * sqrt(2.0)) * exp(2 * sqrt(a * u)) / (pow(a, 0.25) * pow(u, 1.25)) / s;
}
static void old5() {
  l5.temperature = vp_real("oldT", 0.1, 3), l5.E0 = vp_real("oldE0", -5, 5), l5.match_energy = vp_real("oldEm", 0, 20);
}
static void any5() {
  static const int As[3] = {90, 104, 140};
  A5 = As[vp_choose("A", 0, 2)];
  l5.a = a5 = 0.126181 * A5 + 7.52191e-05 * A5 * A5;
  l5.pairing_energy = vp_real("pairing", 0, 3), l5.shell_correct = vp_real("shell", -8, 2.5), l5.sigma0 = vp_real("sigma0", 1.5, 5);
  lve5 = vp_real("lastLevel", 0.3, 4), N5 = vp_real("levels", 3, 40);
}
struct Known { int A; double pairing, shell, lve, N; };
static const Known known5[] = {{95, 1.37408, 0.7383, 2.0, 20}, {140, 0, -4.5873, 0.5, 15}, {138, 2.0037, -6.1942, 2.5, 20},
  {134, 2.01729, -10.1605, 2.6, 12}, {104, 2.17975, 0.8636, 1.2, 4}, {95, 1.37408, 0.7383, 3.9, 3}};
static void known(int i) {
  const Known &k = known5[i];
  A5 = k.A, lve5 = k.lve, N5 = k.N;
  l5.a = a5 = 0.126181 * A5 + 7.52191e-05 * A5 * A5;
  l5.pairing_energy = k.pairing, l5.shell_correct = k.shell, l5.sigma0 = 3;
}
static void matched5() {
  double T = l5.temperature, Em = l5.match_energy, p = l5.pairing_energy, u = Em - p, b = lve5 - p;
  vp_check(Em > p && T > 0, "P35 matching energy found");
  if (!(Em > p && T > 0)) return;
  double a = a5 * shell5(u > b ? u : b);
  vp_close(T * (sqrt(a / u) - 3 / (2 * u)), 1, 1e-6, "P35 temperature of the Fermi gas at the matching energy");
  vp_close(l5.E0, T * log((exp(lve5 / T) - 1) / N5), 1e-6, "P35 levels up to the last one counted");
  vp_close(l5.E0, Em - T * log(T * gas5(u, a)), 2e-6, "P35 densities agree at the matching energy");
  vp_close(l5.a, a5, 0, "P35 asymptotic parameter kept");
}
static void some5() { // a known nucleus, any number of levels and spin cutoff
  static const int k[4] = {0, 2, 3, 4};
  known(k[vp_choose("nucleus", 0, 3)]);
  lve5 = 1 + vp_choose("lastLevel", 0, 1) * 1.5, N5 = vp_real("levels", 3, 40), l5.sigma0 = vp_real("sigma0", 1.5, 5);
}
// not every set of parameters has a matching energy: a search that fails takes more evaluations than the limit
static bool unmatched5() {
#ifndef VP_SYM
  return l5.match_energy == 0;
#else
  return false;
#endif
}
ENTRY(connect) {
  some5();
  old5();
  limit = 16;
  ldTGconnect(A5, lve5, N5, &l5);
  limit = 1 << 30;
  if (unmatched5()) return;
  matched5();
}
ENTRY(connectKnown) {
  int i = vp_choose("nucleus", 0, 5);
  known(i);
  old5();
  ldTGconnect(A5, lve5, N5, &l5);
  if (i < 5) matched5();
  else vp_check(l5.temperature == 0 && l5.E0 == 0 && l5.match_energy == 0, "P35 no matching energy");
}
ENTRY(connectFew) {
  any5();
  old5();
  double T = l5.temperature, E0 = l5.E0, Em = l5.match_energy;
  ldTGconnect(A5, lve5, vp_choose("few", 1, 2), &l5);
  vp_close(l5.temperature, T, 0, "P35 temperature kept with less than three levels");
  vp_close(l5.E0, E0, 0, "P35 energy shift kept with less than three levels");
  vp_close(l5.match_energy, Em, 0, "P35 matching energy kept with less than three levels");
}
static void extrapolated5(double T, double E0) {
  double u = l5.match_energy - l5.pairing_energy;
  vp_close(l5.temperature, T, 0, "P35 temperature kept");
  vp_close(l5.E0, E0, 0, "P35 energy shift kept");
  vp_check(u > 0, "P35 matching energy from the systematics");
  if (!(u > 0)) return;
  double q = 1 / T + 1.5 / u, a = q * q * u;
  vp_close(l5.a * shell5(u) / a, 1, 1e-6, "P35 level density parameter from the temperature");
  vp_close(exp((l5.match_energy - E0) / T) / T, gas5(u, a), 2e-6, "P35 density continued by a Fermi gas");
}
ENTRY(extrapolate) {
  some5();
  double T = l5.temperature = 0.6 + 0.3 * vp_choose("T", 0, 1), E0 = l5.E0 = vp_real("E0", -3, 1.5);
  l5.match_energy = 0;
  limit = 10;
  ldTextrapolate(A5, lve5, &l5);
  limit = 1 << 30;
  if (unmatched5()) return;
  extrapolated5(T, E0);
}
ENTRY(extrapolateKnown) {
  // the constant-temperature density that a Fermi gas continues at Em, found by the harness
  int i = vp_choose("nucleus", 0, 4);
  known(i);
  double T = l5.temperature = 0.6 + 0.05 * i, u = 5 + 0.5 * i, Em = u + l5.pairing_energy, q = 1 / T + 1.5 / u;
  double E0 = l5.E0 = Em - T * log(T * gas5(u, q * q * u));
  l5.match_energy = 0;
  l5.a = vp_real("oldA", 5, 20);
  ldTextrapolate(A5, lve5, &l5);
  extrapolated5(T, E0);
}
#endif
#if defined(VP_LDS)
static double cT, cE, cEm, cA, xT, xE, last5, num5, mass5;
static int nc, nx, terminated, matchmode;
int cgmTerminateCode(std::string) { terminated++; vp_reach("terminated"); return -1; }
int cgmTerminateCode(std::string, int) { terminated++; return -1; }
int cgmTerminateCode(std::string, double) { terminated++; return -1; }
// stub: the search for the matching energy
void ldTGconnect(double mass, double e, double n, LevelDensity *l) {
  nc++, mass5 = mass, last5 = e, num5 = n, cT = l->temperature, cE = l->E0, cEm = l->match_energy, cA = l->a;
  if (matchmode == 1) l->match_energy = 6, l->temperature = 0.7, l->E0 = -1;
  if (matchmode == 2) l->match_energy = l->temperature = l->E0 = 0;
}
void ldTextrapolate(double mass, double e, LevelDensity *l) {
  nx++, xT = l->temperature, xE = l->E0;
  vp_close(mass, mass5, 0, "P35 mass number used");
  vp_close(e, last5, 0, "P35 last level used");
}
struct Row { double p, dw, em, a, t, e0, ts, e0s; };
static Row row5(int z, int a) {
  Row r;
  vp_file_int(5, z), vp_file_int(6, a);
  r.p = vp_file_num(13, vp_real("pairing", -1, 3)), r.dw = vp_real("shell", -12, 3);
  vp_assume(r.dw > 0.001 || r.dw < -0.001);
  r.dw = vp_file_num(13, r.dw), r.em = vp_file_num(10, vp_choose("hasMatching", 0, 1) ? vp_real("Em", 0.5, 20) : 0.0);
  r.a = vp_file_num(10, vp_real("a", 5, 25)), r.t = vp_file_num(10, vp_real("T", 0.1, 3)), r.e0 = vp_file_num(10, vp_real("E0", -6, 3));
  r.ts = vp_file_num(10, vp_real("Tsys", 0.1, 3)), r.e0s = vp_file_num(10, vp_real("E0sys", -6, 3));
  vp_file_text("\n");
  return r;
}
ENTRY(parameters) {
  system_(3, 2, 4, 1);
  static const int zs[3] = {38, 38, 52}, as[3] = {95, 96, 134};
  Row r[3];
  vp_file(KCKDATAFILE);
  vp_file_text("#  level density systematics\n#\n");
  int w = vp_choose("nucleus", 0, 2);
  for (int i = 0; i < 3; i++) if (i == w || i == 0) r[i] = row5(zs[i], as[i]);
  readkcksystdat();
  Nucleus *n = &ncl[0];
  double A = as[w], s = 0;
  n->za.setZA(zs[w], as[w]);
  n->ncont = -1;
  n->ndisc = vp_choose("levels", 1, 3);
  for (int i = 0; i < n->ndisc; i++) {
    n->lev[i].energy = i ? vp_real("level", 0.1, 3) : 0;
    n->lev[i].spin = vp_real("spin", 0.5, 6);
    s += n->lev[i].spin * (n->lev[i].spin + 1);
  }
  matchmode = vp_choose("matching", 0, 2);
  statSetupLevelDensityParameter(n, &n->ldp);
  LevelDensity &l = n->ldp;
  Row &q = r[w];
  vp_check(terminated == 0, "P35 parameters found");
  vp_close(l.pairing_energy, q.p, 1e-9, "P35 pairing energy");
  vp_close(l.shell_correct, q.dw, 1e-9, "P35 shell correction");
  vp_close(l.a, 0.126181 * A + 7.52191e-05 * A * A, 1e-9, "P35 asymptotic parameter");
  if (n->ndisc > 1) vp_close(l.sigma0 * l.sigma0 * 2 * n->ndisc, s, 1e-6, "P35 spin cutoff from the levels");
  else vp_check(l.sigma0 > 1 && l.sigma0 < 6, "P35 spin cutoff without levels");
  vp_check(nc == 1, "P35 matching searched");
  vp_close(mass5, A, 0, "P35 mass number used");
  vp_close(last5, n->lev[n->ndisc - 1].energy, 0, "P35 last level used");
  vp_close(num5, n->ndisc, 0, "P35 number of levels used");
  vp_close(cT, q.em > 0 ? q.t : q.ts, 1e-9, "P35 temperature of the table");
  vp_close(cE, q.em > 0 ? q.e0 : q.e0s, 1e-9, "P35 energy shift of the table");
  vp_close(cEm, q.em, 1e-9, "P35 matching energy of the table");
  vp_close(cA, l.a, 0, "P35 asymptotic parameter used");
  if (matchmode == 2 || (matchmode == 0 && !(q.em > 0))) {
    double T = 47.0582 * pow(A, -0.893714) * sqrt(1 - 0.1 * q.dw);
    vp_close(l.temperature, T, 1e-6, "P35 temperature of the systematics");
    vp_close(l.E0, q.p - 0.16 * q.dw + T * (-0.0138 * A - 1.379), 1e-6, "P35 energy shift of the systematics");
    vp_check(nx == 1, "P35 systematics continued");
    vp_close(xT, l.temperature, 0, "P35 temperature continued");
    vp_close(xE, l.E0, 0, "P35 energy shift continued");
  } else {
    vp_check(nx == 0, "P35 systematics not needed");
    vp_close(l.temperature, matchmode == 1 ? 0.7 : q.t, 1e-9, "P35 temperature kept after matching");
    vp_close(l.E0, matchmode == 1 ? -1 : q.e0, 1e-9, "P35 energy shift kept after matching");
    vp_close(l.match_energy, matchmode == 1 ? 6 : q.em, 1e-9, "P35 matching energy kept");
  }
}
ENTRY(missing) {
  vp_file(KCKDATAFILE);
  vp_file_text("#\n");
  row5(38, 95);
  readkcksystdat();
  LevelDensity l;
  ZAnumber za(vp_choose("Z", 37, 39), vp_choose("A", 94, 96));
  getkcksystdat(&za, &l);
  vp_check((terminated > 0) == !(za.getZ() == 38 && za.getA() == 95), "P35 unknown nucleus reported");
}
#endif

// ------------------------------------------------------------ initial population (P30)
#if defined(VP_POP)
static double sdv[64];
static int tabmode;
// stub: spin distribution, any values
double ldSpinDistribution(double j, double sc, double sc0) {
  if (tabmode) return 1 + j + 10 * sc + 100 * sc0;
  vp_close(sc, ncl[0].ldp.spin_cutoff, 0, "P30 spin cutoff used");
  vp_close(sc0, ncl[0].ldp.sigma0, 0, "P30 spin cutoff from the levels used");
  return sdv[(int)(2 * j + 0.1)];
}
double ldLevelDensity(double e, double m, LevelDensity *l) {
  l->spin_cutoff = tabmode ? 1 + e : 3;
  return 2 + e + m;
}
// table of densities over energy bins, spins and parities
ENTRY(table) {
  system_(5, 4, 2, 1);
  tabmode = 1;
  Nucleus *n = &ncl[0];
  int A = vp_choose("A", 95, 96), half = vp_choose("halfInteger", 0, 1);
  n->za.setZA(38, A);
  n->lev[0].spin = vp_choose("groundSpin", 0, 4) + 0.5 * half, n->lev[0].parity = 1;
  n->ncont = vp_choose("bins", 0, 3);
  for (int k = 0; k < 5; k++) n->excitation[k] = vp_real("E", 0, 20);
  for (int k = 0; k < 5; k++)
    for (int j = 0; j < 4; j++) n->density[k][j].even = n->density[k][j].odd = 77;
  n->ldp.sigma0 = vp_real("sigma0", 0, 5);
  statSetupLevelDensity(n, &n->ldp);
  for (int k = 0; k < n->ncont; k++) {
    double E = n->excitation[k];
    for (int j = 0; j < 4; j++) {
      double x = (2 + E + A) * (1 + j + 0.5 * half + 10 * (1 + E) + 100 * n->ldp.sigma0) * 0.5;
      vp_close(n->density[k][j].even, x, 1e-9, "P28 density of even states");
      vp_close(n->density[k][j].odd, x, 1e-9, "P28 density of odd states");
    }
  }
}
static void pop(int jm, int half, int kind) {
  system_(3, jm, 2, 2);
  ctl.init_pop = kind == 0 ? SINGLE : kind == 1 ? LEVDEN : TRANSMISSION;
  ctl.print_init_pop = false;
  ncl[0].lev[0].spin = vp_choose("groundSpin", 0, 1) + 0.5 * half, ncl[0].lev[0].parity = 1;
  for (int k = 0; k < 3; k++)
    for (int j = 0; j < jm; j++) ncl[0].pop[k][j].even = ncl[0].pop[k][j].odd = 7;
  ncl[0].excitation[0] = 8;
}
static double total(int jm) {
  double s = 0;
  for (int j = 0; j < jm; j++) s += ncl[0].pop[0][j].even + ncl[0].pop[0][j].odd;
  return s;
}
ENTRY(popSingle) {
  int half = vp_choose("halfInteger", 0, 1), j = vp_choose("J", 0, 5), p = vp_choose("P", 0, 1) * 2 - 1;
  pop(6, half, 0);
  statSetupInitialPopulationSpec(j + 0.5 * half, p, 0, vp_real("scale", 0, 3), 0);
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < 6; i++) {
      vp_close(ncl[0].pop[k][i].even, k == 0 && i == j && p > 0, 1e-12, "P30 single state (even)");
      vp_close(ncl[0].pop[k][i].odd, k == 0 && i == j && p < 0, 1e-12, "P30 single state (odd)");
    }
  vp_check(ncl[0].jmax >= j, "P30 highest spin includes the state");
}
// spins distributed like the level density; falls below the cutoff or not within the table
static void popld(int jm) {
  int half = vp_choose("halfInteger", 0, 1);
  pop(jm, half, 1);
  double sf = vp_choose("scaled", 0, 1) ? vp_real("scale", 0.2, 5) : 0, S = 0;
  for (int i = 0; i < 2 * jm + 2; i++) sdv[i] = i / 2 < 4 ? vp_real("spinDistribution", 0.01, 1) : sdv[i - 2] * vp_real("spinDistribution", 0, 1);
  for (int i = 0; i < jm; i++) S += sdv[2 * i + half];
  statSetupInitialPopulationSpec(0, 1, 0, sf, 0);
  vp_close(ncl[0].ldp.spin_cutoff, sf > 0 ? 3 * sf : 3, 1e-9, "P30 spin cutoff scaled");
  vp_close(total(jm), 1, 1e-9, "P30 distributed population adds up to one");
  for (int j = 0; j < jm; j++) {
    vp_close(ncl[0].pop[0][j].even, ncl[0].pop[0][j].odd, 1e-12, "P30 parities equally likely");
    vp_close((ncl[0].pop[0][j].even + ncl[0].pop[0][j].odd) * S, sdv[2 * j + half], 1e-5, "P30 distributed like the level density");
  }
}
ENTRY(popLevden) {
  // the distribution ends inside the table
  popld(6);
}
ENTRY(popTransmission) {
  int half = vp_choose("halfInteger", 0, 1);
  pop(6, half, 2);
  double I = vp_choose("targetSpin", 0, 1) + 0.5 * (1 - half);
  int pt = vp_choose("targetParity", 0, 1) * 2 - 1;
  ncl[1].lev[0].spin = I, ncl[1].lev[0].parity = pt;
  Transmission t;
  t.lmax = 2;
  t.tran = new double[18];
  for (int i = 0; i < 18; i++) t.tran[i] = vp_real("transmission", 0.01, 1);
  statSetupInitialPopulationSpec(0, 1, 0, 0, &t);
  double w[6][2], W = 0;
  for (int j = 0; j < 6; j++)
    for (int p = 0; p < 2; p++) {
      double J = j + 0.5 * half;
      w[j][p] = 0;
      for (int l = 0; l <= 2; l++)
        for (int s = 0; s < 2; s++) {
          double jn = l + 0.5 - s;
          if (jn < 0 || pt * (l % 2 ? -1 : 1) != (p ? -1 : 1)) continue;
          if (J < fabs(I - jn) || J > I + jn) continue;
          w[j][p] += (2 * J + 1) * t.tran[3 * l + s];
        }
      W += w[j][p];
    }
  vp_close(total(6), 1, 1e-9, "P30 captured population adds up to one");
  for (int j = 0; j < 6; j++) {
    vp_close(ncl[0].pop[0][j].even * W, w[j][0], 1e-6, "P30 captured into even states");
    vp_close(ncl[0].pop[0][j].odd * W, w[j][1], 1e-6, "P30 captured into odd states");
  }
}
// start at a discrete level: the one nearest in energy
ENTRY(popLevel) {
  system_(3, 3, 4, 1);
  Nucleus *n = &ncl[0];
  ctl.print_init_pop = false;
  n->ndisc = vp_choose("levels", 1, 4), n->ncont = 0;
  for (int i = 0; i < n->ndisc; i++) n->lev[i].energy = i ? n->lev[i - 1].energy + vp_real("step", 0.01, 1) : 0;
  for (int i = 0; i < 4; i++) n->lpop[i] = 0;
  double E = n->max_energy = vp_real("E", 0, 5);
  int k = statStoreLevelExcite(n) - 1;
  if (n->ndisc == 1) return;
  vp_check(k >= 0 && k < n->ndisc, "P30 starting level exists");
  for (int i = 0; i < n->ndisc; i++) {
    vp_le(fabs(E - n->lev[k].energy), fabs(E - n->lev[i].energy), 1e-12, "P30 starting level is the nearest");
    if (i) vp_close(n->lpop[i], i == k, 1e-12, "P30 starting level populated");
  }
}
#endif

// ------------------------------------------------------------ discrete levels (P29)
#if defined(VP_LEV)
#include "ripl2levels.h"
static const int NL = 4, NG = 2;
struct Rec {
  int n, ng[NL], nf[NL][NG], par[NL];
  double e[NL], s[NL], t[NL], pe[NL][NG], ic[NL][NG];
};
static Rec rec[3];
static void head(int za, int n) {
  vp_file_text("      ");
  vp_file_int(6, za);
  vp_file_int(5, n);
  vp_file_text("\n");
}
static void level(Rec &r, int i, double s, int p, int ng) {
  r.ng[i] = ng;
  r.e[i] = vp_file_num(10, i ? vp_real("energy", 0.05, 9) : 0);
  r.s[i] = vp_file_num(5, s);
  r.par[i] = vp_file_int(3, p);
  r.t[i] = vp_file_num(13, vp_real("halfLife", 1e-2, 1e3));
  vp_file_int(3, ng);
  vp_file_text("\n");
  for (int j = 0; j < ng; j++) {
    r.nf[i][j] = vp_file_int(3, vp_choose("final", 0, i - 1));
    r.pe[i][j] = vp_file_num(9, vp_choose("weak", 0, 1) ? 0 : vp_real("branch", 0.01, 2));
    r.ic[i][j] = vp_file_num(10, vp_real("conversion", 0, 50));
    vp_file_text("\n");
  }
}
static void same(Nucleus *n, Rec &r) {
  vp_check(n->ndisc == r.n, "P29 number of levels");
  for (int i = 0; i < r.n; i++) {
    Level *l = &n->lev[i];
    vp_close(l->energy, r.e[i], 1e-9, "P29 level energy");
    vp_close(l->spin, r.s[i], 1e-9, "P29 level spin");
    vp_check(l->parity == r.par[i], "P29 level parity");
    vp_close(l->halflife, r.t[i], 1e-9, "P29 level half-life");
    if (!i) continue;
    double sum = 0, s = 0;
    vp_check(l->ngamma >= 1, "P29 every excited level decays");
    for (int j = 0; j < l->ngamma; j++) {
      s += l->branch[j];
      vp_le(0, l->branch[j], 0, "P29 branching not negative");
      vp_check(l->fstate[j] >= 0 && l->fstate[j] < i, "P29 decay to a lower level");
    }
    vp_close(s, 1, 1e-9, "P29 branchings add up to one");
    if (r.ng[i] > 0) {
      vp_check(l->ngamma == r.ng[i], "P29 number of transitions");
      for (int j = 0; j < r.ng[i]; j++) sum += r.pe[i][j];
      for (int j = 0; j < r.ng[i]; j++) {
        vp_check(l->fstate[j] == r.nf[i][j], "P29 final level");
        if (sum > 0) {
          vp_close(l->branch[j] * sum, r.pe[i][j], 1e-9, "P29 branching from the data");
          vp_close(l->gratio[j] * (1 + r.ic[i][j]), 1, 1e-9, "P29 photon fraction from the conversion coefficient");
        } else vp_close(l->branch[j], 1.0 / r.ng[i], 1e-9, "P29 missing branchings shared equally");
      }
    } else {
      // no transition in the data: electric dipole if possible
      int ok = 0;
      bool al[NL];
      for (int k = 0; k < i; k++) {
        double d = fabs(r.s[k] - r.s[i]);
        al[k] = r.par[k] != r.par[i] && d < 1.5 && !(r.s[k] == 0 && r.s[i] == 0);
        ok += al[k];
      }
      for (int j = 0; j < l->ngamma; j++) {
        vp_close(l->gratio[j], 1, 1e-9, "P29 assumed transition emits a photon");
        if (ok && i > 1) vp_check(al[l->fstate[j]], "P29 assumed transition is an allowed dipole");
      }
      if (ok && i > 1) vp_check(l->ngamma == ok, "P29 all allowed dipoles assumed");
    }
  }
}
static void store(int za1, int za2) {
  readDiscreteLevelData();
  (void)za1, (void)za2;
}
static void nuc(int n, int z, int a) {
  system_(2, 2, 8, n);
  for (int i = 0; i < n; i++) {
    ncl[i].za.setZA(z, a - i);
    // leftovers of an earlier nuclide
    ncl[i].ndisc = 3;
    for (int k = 0; k < 8; k++) ncl[i].lev[k].energy = k * 0.7, ncl[i].lev[k].spin = 4, ncl[i].lev[k].parity = -1, ncl[i].lev[k].ngamma = 1;
  }
  for (int i = 0; i < n; i++) ncl[i].lev[0].energy = 0;
}
// transitions given in the data; second and third nuclide of the chain; one not in the data
ENTRY(levels) {
  nuc(3, 38, 95);
  vp_file("discreteLevels.dat");
  vp_file_text("# comment\n");
  rec[0].n = 2, head(38094, 2);
  level(rec[0], 0, 0, 1, 0);
  level(rec[0], 1, 2, 1, 1);
  rec[1].n = 3, head(38095, 3);
  level(rec[1], 0, 2.5, 1, 0);
  level(rec[1], 1, 0.5, 1, 1);
  level(rec[1], 2, vp_choose("spin", 0, 2) + 0.5, vp_choose("parity", 0, 1) * 2 - 1, 2);
  store(38094, 38095);
  getDiscreteLevels(ncl, 2);
  same(&ncl[0], rec[1]);
  same(&ncl[1], rec[0]);
  vp_check(ncl[2].ndisc == 1, "P29 ground state only when not in the data");
  vp_check(ncl[2].lev[0].spin == 0.5 && ncl[2].lev[0].parity == 1, "P29 assumed ground state");
  vp_close(ncl[2].lev[0].energy, 0, 0, "P29 assumed ground state energy");
}
// no transitions in the data
ENTRY(levelsAssumed) {
  nuc(1, 38, 95);
  double h = 0.5 * vp_choose("halfInteger", 0, 1);
  vp_file("discreteLevels.dat");
  rec[1].n = 4, head(38095, 4);
  level(rec[1], 0, vp_choose("spin", 0, 1) + h, 1, 0);
  for (int i = 1; i < 4; i++) level(rec[1], i, vp_choose("spin", 0, i < 3 ? 1 : 3) + h, vp_choose("parity", 0, 1) * 2 - 1, 0);
  store(38095, 0);
  getDiscreteLevels(ncl, 0);
  same(&ncl[0], rec[1]);
}
// the other lookup, used for given compound nuclei: gaps in the data, unknown ground states
ENTRY(levelsCGM) {
  nuc(3, 38, 96);
  vp_file("discreteLevels.dat");
  bool unk = vp_choose("unknownGround", 0, 1), gap = vp_choose("gap", 0, 1);
  rec[0].n = 2, head(38094, 2);
  level(rec[0], 0, 0, 1, 0);
  level(rec[0], 1, 2, 1, 1);
  if (!gap) {
    rec[1].n = 2, head(38095, 2);
    level(rec[1], 0, unk ? -1 : 2.5, unk ? 0 : 1, 0);
    level(rec[1], 1, 0.5, 1, 1);
  }
  rec[2].n = 1, head(38096, 1);
  level(rec[2], 0, 0, 1, 0);
  store(0, 0);
  getRiplDiscreteLevels(ncl, 2);
  same(&ncl[0], rec[2]);
  if (gap || unk) vp_check(ncl[1].ndisc == 1 && ncl[1].lev[0].spin == 0.5 && ncl[1].lev[0].parity == 1, "P29 assumed ground state");
  else same(&ncl[1], rec[1]);
  same(&ncl[2], rec[0]);
}
// a nuclide at the start of the data with more neutrons than data below it
ENTRY(levelsFirst) {
  nuc(3, 38, 94);
  vp_file("discreteLevels.dat");
  rec[0].n = 1, head(38094, 1);
  level(rec[0], 0, 0, 1, 0);
  store(0, 0);
  getRiplDiscreteLevels(ncl, 2);
  same(&ncl[0], rec[0]);
  vp_check(ncl[1].ndisc == 1 && ncl[2].ndisc == 1, "P29 ground state only when not in the data");
}
ENTRY(groundState) {
  nuc(1, 38, 95);
  vp_file("discreteLevels.dat");
  rec[0].n = 1, head(40090, 1);
  level(rec[0], 0, 0, 1, 0);
  store(0, 0);
  int z = vp_choose("Z", 30, 33), a = vp_choose("A", 80, 81);
  ncl[0].za.setZA(z, a);
  getDiscreteLevels(ncl);
  double s = a % 2 ? 0.5 : z % 2 ? 1 : 0;
  vp_check(ncl[0].ndisc == 1, "P29 ground state only when not in the data");
  vp_close(ncl[0].lev[0].spin, s, 0, "P29 assumed ground state spin");
  vp_check(ncl[0].lev[0].parity == 1, "P29 assumed ground state parity");
}
// missing spins and parities completed
ENTRY(levelsFixed) {
  system_(2, 6, 4, 1);
  Nucleus *n = &ncl[0];
  n->za.setZA(38, 95);
  n->ndisc = 3;
  int half = vp_choose("halfInteger", 0, 1);
  double s[3];
  int p[3];
  for (int i = 0; i < 3; i++) {
    s[i] = n->lev[i].spin = i && vp_choose("unknownSpin", 0, 1) ? -1 : i + 0.5 * half;
    p[i] = n->lev[i].parity = vp_choose("parity", i ? -1 : 1, 1);
    n->lev[i].energy = 0.3 * i;
  }
  statFixDiscreteLevels(n);
  for (int i = 0; i < 3; i++) {
    if (s[i] >= 0) vp_close(n->lev[i].spin, s[i], 0, "P29 known spin kept");
    else if (n->lev[i].spin >= 0) vp_close(n->lev[i].spin - (int)n->lev[i].spin, 0.5 * half, 1e-12, "P29 assumed spin of the right kind");
    if (p[i]) vp_check(n->lev[i].parity == p[i], "P29 known parity kept");
    vp_check(n->lev[i].parity == 1 || n->lev[i].parity == -1, "P29 parity completed");
    vp_close(n->lev[i].energy, 0.3 * i, 0, "P29 level energy kept");
  }
}
#endif
