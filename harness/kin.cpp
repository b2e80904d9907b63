// kinematics: neutron recoil, photon Doppler shift, fission recoil
#include <cmath>
#include <functional>
#include <iostream>
#include <string>
using namespace std;
#include "cgm.h"
#include "config-ff.h"
#include "kinematics.h"
#include "masstable.h"
#include "physics.h"
#include "rngcgm.h"
#include "vp.h"

// stub: the mass table is arbitrary (one unknown mass excess per nuclide, |excess| <= 120 MeV)
static double mx[400];
static int mxk[400], nmx;
static double me(int za) {
  for (int i = 0; i < nmx; i++)
    if (mxk[i] == za) return mx[i];
  mxk[nmx] = za;
  mx[nmx] = vp_real("massExcess", -120.0, 120.0);
  return mx[nmx++];
}
double getMassExcess(int za) { return me(za); }
double mass_excess(int z, int a) { return me(z * 1000 + a); }
static double M(int z, int a) { return a * amuMeV + me(z * 1000 + a); }

static double rnd() { return vp_rand(); }

static double p[3], p0[3], ecm[MAX_NUMBER_NEUTRONS], el[MAX_NUMBER_NEUTRONS],
    vc[MAX_NUMBER_NEUTRONS][3], vl[MAX_NUMBER_NEUTRONS][3], eg[MAX_NUMBER_GAMMAS],
    egl[MAX_NUMBER_GAMMAS], gc[MAX_NUMBER_GAMMAS][3], gl[MAX_NUMBER_GAMMAS][3];

static void run(int z, int a, int nn, int ng) {
  rng_cgm = rnd;
  p[0] = p0[0] = vp_real("px", -5000, 5000);
  p[1] = p0[1] = vp_real("py", -5000, 5000);
  p[2] = p0[2] = vp_real("pz", -5000, 5000);
  for (int i = 0; i < nn; i++) ecm[i] = vp_real("Ecm", 0, 30);
  for (int i = 0; i < ng; i++) eg[i] = vp_real("Eg", 1e-3, 20);
  boost(p, z, a, nn, ecm, el, vc, vl, ng, eg, egl, gc, gl);
}

VP_HARNESS(neutrons) {
  int nn = vp_choose("nn", 0, 5);
  int z = vp_choose("Z", 1, 2) == 1 ? 38 : 54, a = z == 38 ? 96 : 140;
  run(z, a, nn, 0);
  const double Mn = NEUTRONMASS * amuMeV;
  double q[3] = {p0[0], p0[1], p0[2]};
  for (int i = 0; i < nn; i++) {
    double e = 0, ec = 0;
    for (int k = 0; k < 3; k++) {
      e += 0.5 * Mn * vl[i][k] * vl[i][k];
      ec += 0.5 * Mn * vc[i][k] * vc[i][k];
      vp_close(vl[i][k], vc[i][k] + q[k] / M(z, a - i), 1e-9, "lab velocity = cm velocity + parent velocity");
      q[k] -= Mn * vl[i][k];
    }
    vp_close(el[i], e, 1e-7, "lab energy = Mn v^2/2");
    vp_close(ec, ecm[i], 1e-7, "cm velocity carries the cm energy");
    vp_observe("el", el[i]);
  }
  for (int k = 0; k < 3; k++) {
    vp_close(p[k], q[k], 1e-6, "fragment momentum + neutron momenta = initial momentum");
    vp_observe("p", p[k]);
  }
  vp_reach("end");
}

VP_HARNESS(photons) {
  int nn = vp_choose("nn", 0, 2), ng = vp_choose("ng", 1, 4);
  int z = 54, a = 140;
  run(z, a, nn, ng);
  double m = M(z, a - nn);
  double b = sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) / m;
  for (int i = 0; i < ng; i++) {
    double n2 = gc[i][0] * gc[i][0] + gc[i][1] * gc[i][1] + gc[i][2] * gc[i][2];
    vp_close(n2, eg[i] * eg[i], 1e-6, "cm photon momentum has the cm energy");
    double l2 = gl[i][0] * gl[i][0] + gl[i][1] * gl[i][1] + gl[i][2] * gl[i][2];
    vp_close(l2, egl[i] * egl[i], 1e-6, "lab photon momentum has the lab energy");
    double c = gc[i][0] / eg[i]; // cosine of the angle to the fragment, in the fragment frame
    vp_close(egl[i] * (1 - b * c), eg[i] * sqrt(1 - b * b), 1e-7, "Doppler shift");
    vp_le(egl[i] * (1 - b), eg[i] * sqrt(1 - b * b), 1e-7, "Doppler upper bound");
    vp_le(eg[i] * sqrt(1 - b * b), egl[i] * (1 + b), 1e-7, "Doppler lower bound");
    for (int k = 0; k < 3; k++)
      vp_close(gl[i][k] * eg[i], gc[i][k] * egl[i], 1e-6, "photon direction kept");
    vp_check(egl[i] > 0, "lab photon energy positive");
    vp_observe("egl", egl[i]);
  }
  vp_reach("end");
}

// ---------------------------------------------------------------- fission recoil
static double rs[64];
static int nrs;
static double rndrec() {
  double r = vp_rand();
  if (nrs < 64) rs[nrs++] = r;
  return r;
}
static double ec[MAX_NUMBER_NEUTRONS_PRE], elab[MAX_NUMBER_NEUTRONS_PRE],
    cv[MAX_NUMBER_NEUTRONS_PRE][3], lv[MAX_NUMBER_NEUTRONS_PRE][3], pl[3], ph[3], pc[3];
static int ty[MAX_NUMBER_NEUTRONS_PRE];
static double tabF[THETA_STEPS][2], tabQ[THETA_STEPS][2];
static const int ZC = 98, AC = 252, ZL = 42, AL = 106, ZH = 56;
static double En, TKE;

static void tables() {
  for (int i = 0; i < THETA_STEPS; i++) {
    double x = 2.0 * i / (THETA_STEPS - 1) - 1.0;
    tabF[i][0] = tabQ[i][0] = x;
    tabF[i][1] = i == THETA_STEPS - 1 ? 1.0 : (x * x * x + 3 * x + 4) / 8;
    tabQ[i][1] = i == THETA_STEPS - 1 ? 1.0 : (x * x + 2 * x + 1) / 4;
  }
}
static void fiss(int npre, bool preeq, double aniso) {
  nrs = 0;
  rng_cgm = rndrec;
  tables();
  En = vp_real("En", 0, 20);
  TKE = vp_real("TKE", 100, 260);
  for (int i = 0; i < npre; i++) ec[i] = vp_real("Epre", 0, 20);
  boost_pfn(ZC, AC, En, TKE, AL, ZL, AC - npre - AL, ZH, npre, aniso, preeq, ec, elab, ty, cv, lv,
            tabF, tabQ, pl, ph);
}
static const double MN = NEUTRONMASS * amuMeV;
// momentum left after n pre-fission neutrons, and the neutrons' own kinematics
static void preneutrons(int npre, int skip) {
  pc[0] = pc[1] = 0;
  pc[2] = sqrt(2 * MN * En);
  for (int i = 0; i < npre; i++) {
    double e = 0, e2 = 0;
    for (int k = 0; k < 3; k++) {
      e += 0.5 * MN * lv[i][k] * lv[i][k];
      e2 += 0.5 * MN * cv[i][k] * cv[i][k];
      if (i >= skip) continue;
      vp_close(lv[i][k], cv[i][k] + pc[k] / M(ZC, AC - i), 1e-9,
               "pre-fission neutron: lab velocity = cm velocity + velocity of the emitting nucleus");
      pc[k] -= MN * lv[i][k];
    }
    if (i >= skip)
      for (int k = 0; k < 3; k++) pc[k] -= MN * lv[i][k];
    vp_close(elab[i], e, 1e-7, "pre-fission neutron: lab energy = Mn v^2/2");
    vp_close(e2, ec[i], 1e-7, "pre-fission neutron: cm velocity carries the cm energy");
  }
}
static void balance() {
  for (int k = 0; k < 3; k++) {
    vp_close(pl[k] + ph[k], pc[k], 1e-6, "fragments carry the momentum of the fissioning nucleus");
    vp_observe("pl", pl[k]);
    vp_observe("ph", ph[k]);
  }
}
static void energies(int npre, int mres) {
  double Ml = M(ZL, AL), Mh = M(ZH, AC - npre - AL), Mc = M(ZC, mres);
  double v2 = 0, r2 = 0;
  for (int k = 0; k < 3; k++) {
    double v = pc[k] / Mc;
    v2 += v * v;
    double r = pl[k] - Ml * v;
    r2 += r * r;
  }
  vp_close(r2 * 0.5 * (1 / Ml + 1 / Mh), TKE - 0.5 * (Ml + Mh) * v2, 1e-6,
           "relative kinetic energy of the fragments = TKE - recoil energy");
}
// compound nuclei of known mass (the fragments' masses stay unknown)
static void parents() {
  for (int i = 0; i < 4; i++) {
    mxk[nmx] = ZC * 1000 + AC - i;
    mx[nmx++] = 76.034 - 1.5 * i + 0.4 * (i % 2);
  }
}
VP_HARNESS(fission) {
  int npre = vp_choose("npre", 0, 3);
  if (npre >= 2) parents();
  fiss(npre, false, 1.0);
  preneutrons(npre, npre);
  balance();
  energies(npre, AC - npre);
  vp_reach("end");
}
// mass defect of the split zero: the kinetic energies of the two fragments add up to TKE
VP_HARNESS(fissionTKE) {
  int npre = vp_choose("npre", 0, 1), ah = AC - npre - AL;
  double ml = me(ZL * 1000 + AL), mh = me(ZH * 1000 + ah);
  mxk[nmx] = ZC * 1000 + AC - npre;
  mx[nmx++] = ml + mh;
  fiss(npre, false, 1.0);
  double k = 0;
  for (int i = 0; i < 3; i++) k += pl[i] * pl[i] / (2 * M(ZL, AL)) + ph[i] * ph[i] / (2 * M(ZH, ah));
  vp_close(k, TKE, 1e-6, "fragment kinetic energies add up to TKE");
  vp_reach("end");
}
// pre-equilibrium first neutron, tabulated emission angle
VP_HARNESS(fissionPreeq) {
  int npre = vp_choose("npre", 1, 3);
  parents();
  fiss(npre, true, 1.0);
  preneutrons(npre, npre);
  balance();
  vp_check(cv[0][2] * cv[0][2] <= 2 * ec[0] / MN * (1 + 1e-9), "emission cosine within [-1,1]");
  vp_reach("end");
}
// the nucleus left after the pre-equilibrium neutron has one neutron less
VP_HARNESS(preeqMass) {
  parents();
  nrs = 0;
  rng_cgm = []() { return 0.5; };
  tables();
  En = 16;
  TKE = vp_real("TKE", 100, 260);
  ec[0] = 10;
  boost_pfn(ZC, AC, En, TKE, AL, ZL, AC - 1 - AL, ZH, 1, 1.0, true, ec, elab, ty, cv, lv, tabF, tabQ, pl, ph);
  pc[0] = pc[1] = 0;
  pc[2] = sqrt(2 * MN * En);
  for (int k = 0; k < 3; k++) pc[k] -= MN * lv[0][k];
  energies(1, AC - 1);
  vp_reach("end");
}
static bool cdf(double u, double n, double t[THETA_STEPS][2]) { // u = n cos(theta), n > 0
  bool any = false;
  for (int j = 0; j < THETA_STEPS - 1; j++) {
    double a = t[j][0], b = t[j + 1][0];
    if (u < a * n - 1e-9 * n || u > b * n + 1e-9 * n) continue;
    for (int i = 0; i < nrs; i++) {
      double d = (t[j][1] - rs[i]) * n + (u - a * n) * (t[j + 1][1] - t[j][1]) / (b - a);
      any |= d <= 1e-7 * n && d >= -1e-7 * n;
    }
  }
  return any;
}
VP_HARNESS(anisotropic) {
  fiss(0, false, 1.2);
  preneutrons(0, 0);
  balance();
  energies(0, AC);
  vp_reach("end");
}
// ---------------------------------------------------------------- isotropy (P31)
// direction u (length n > 0) drawn uniformly with the random numbers 2e and 2e+1
static bool uniform(const double *u, double n, int e) {
  double prod = 1;
  for (int i = 1; i >= 0; i--) {
    double c = 2 * rs[2 * e + i] - 1, f = twopi * rs[2 * e + 1 - i];
    double s = sqrt(1 - c * c), x = s * cos(f), y = s * sin(f);
    for (int k = 2; k < 5; k++) {
      int a = k % 3;
      double p = u[a] / n - c, b = u[(a + 1) % 3] / n - x, d = u[(a + 2) % 3] / n - y;
      prod *= p * p + b * b + d * d;
    }
  }
  return prod < 1e-10;
}
static void draws(int n) {
  for (int i = 0; i < n; i++) rs[i] = vp_rand();
  nrs = 0;
  rng_cgm = []() { return rs[nrs++]; };
}
VP_HARNESS(isotropicDecay) {
  int nn = vp_choose("nn", 0, 3), ng = vp_choose("ng", 0, 4);
  p[0] = 300, p[1] = -500, p[2] = 2000;
  draws(16);
  for (int i = 0; i < nn; i++) ecm[i] = vp_real("Ecm", 0.01, 30);
  for (int i = 0; i < ng; i++) eg[i] = vp_real("Eg", 1e-3, 20);
  boost(p, 54, 140, nn, ecm, el, vc, vl, ng, eg, egl, gc, gl);
  for (int i = 0; i < nn; i++) vp_check(uniform(vc[i], sqrt(2 * ecm[i] / MN), i), "neutron emitted isotropically");
  for (int i = 0; i < ng; i++) vp_check(uniform(gc[i], eg[i], nn + i), "photon emitted isotropically");
  vp_reach("end");
}
VP_HARNESS(isotropicFission) {
  int npre = vp_choose("npre", 0, 3);
  parents();
  mxk[nmx] = ZL * 1000 + AL, mx[nmx++] = -75;
  mxk[nmx] = ZH * 1000 + AC - npre - AL, mx[nmx++] = -69;
  draws(16);
  tables();
  En = 0, TKE = vp_real("TKE", 100, 260);
  for (int i = 0; i < npre; i++) ec[i] = vp_real("Epre", 0.01, 20);
  boost_pfn(ZC, AC, En, TKE, AL, ZL, AC - npre - AL, ZH, npre, 1.0, false, ec, elab, ty, cv, lv, tabF, tabQ, pl, ph);
  for (int i = 0; i < npre; i++) vp_check(uniform(cv[i], sqrt(2 * ec[i] / MN), i), "pre-fission neutron emitted isotropically");
  // light fragment in the rest frame of the fissioning nucleus
  double mc = M(ZC, AC - npre), ml = M(ZL, AL), mh = M(ZH, AC - npre - AL), u[3], v2 = 0;
  for (int a = 0; a < 3; a++) {
    double pc = pl[a] + ph[a];
    v2 += pc * pc;
    u[a] = pl[a] - ml * pc / mc;
  }
  vp_check(uniform(u, sqrt(2 * (TKE - .5 * (ml + mh) * v2 / (mc * mc)) / (1 / ml + 1 / mh)), npre), "fragments emitted isotropically");
  vp_reach("end");
}
