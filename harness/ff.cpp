// Initial conditions of the fragments: pair selection, energy sharing, spin, tabulated data.
// The implementation file is included so that the tables it keeps to itself can be prepared.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#define private public
#include "FissionFragments.cpp"
#undef private
#include "vp.h"

// ---------------------------------------------------------------- environment
static double sym(const char *n, double lo, double hi) { return vp_real(n, lo, hi); }
double mass_excess(int z, int a) { return masses[1000 * z + a]; } // stub: one mass table
static FissionFragments *ff() {
  FissionFragments *f = (FissionFragments *)calloc(1, sizeof(FissionFragments));
  new (&f->energySortingOption) string();
  new (&f->yieldsOption) string();
  new (&f->yieldsFilename) string();
  return f;
}
static void grid0() { // every energy below 900 MeV falls in the first interval
  for (int i = 0; i < NUM_GRID; i++) temperatureEnergyGrid[i] = i == 0 ? 0.0 : 1000.0 + i;
}
static void table(double (*t)[NUM_GRID], int zaid, double v) {
  for (int i = 0; i < NUM_GRID; i++) t[zaid][i] = v;
}

// stub for the fission kinematics (decided by P03): arbitrary momenta, arguments recorded
static int bZc, bAc, bAl, bZl, bAh, bZh, bN, bcalls;
static double bE, bT, bPl[3], bPh[3], bAni;
static bool bPre;
void boost_pfn(int Zc, int Ac, double E, double TKE, int Al, int Zl, int Ah, int Zh, int n, double ani, bool pre,
               double *, double *, int *, double (*)[3], double (*)[3], double (*)[2], double (*)[2], double *pl, double *ph) {
  bZc = Zc, bAc = Ac, bE = E, bT = TKE, bAl = Al, bZl = Zl, bAh = Ah, bZh = Zh, bN = n, bAni = ani, bPre = pre, bcalls++;
  for (int k = 0; k < 3; k++) pl[k] = bPl[k] = sym("pl", -5000, 5000), ph[k] = bPh[k] = sym("ph", -5000, 5000);
}
// stub for the kinetic-energy sampling (decided by P12)
static int phase, tkeA, tkeN;
static double tke;
double Yields::sampleTKE(int A) {
  phase = 1;
  tkeA = A;
  vp_assume(tkeN < 2);
  tkeN++;
  return tke = sym("TKE", 100, 260);
}
static int maxcalls, ncalls, nspin;
static bool oneRegime = true;
// first phase: any numbers; second phase (spin, parity): two representative regimes
static double rnd() {
  vp_assume(ncalls < maxcalls);
  ncalls++;
  double r = vp_rand();
  vp_assume(r > 0);
  return r;
}
static double rndSpin() {
  double r = vp_rand();
  vp_assume(nspin < 6);
  nspin++;
  if (oneRegime)
    vp_assume(r > 0 && r < 1e-7);
  else
    vp_assume((r > 0 && r < 1e-7) || (r > 0.5 && r < 0.519));
  return r;
}
static double rnd2() { return phase ? rndSpin() : rnd(); }

// ---------------------------------------------------------------- selection of a fragment pair
static FissionFragments *F;
static int AC, ZC, NPRE;
static void nuclide(int z, int a) {
  masses[1000 * z + a] = sym("massExcess", -110, -20);
  beta2[1000 * z + a] = 0.1;
  table(temperatures, 1000 * z + a, 0.5);
  table(ldp2, 1000 * z + a, 8.0 + 0.1 * (a % 7));
}
static void pairSetup(int lo, int hi, int zp) {
  grid0();
  F = ff();
  F->yieldsOption = "Systematics";
  F->energySortingOption = "fixedRT";
  F->RT = 1.25;
  NPRE = AC % 2; // the odd system has lost one neutron
  F->Ac = AC, F->Zc = ZC, F->Ac0 = AC + NPRE, F->Zc0 = ZC;
  F->incidentEnergy = sym("Eeff", 0, 10);
  F->incidentEnergy0 = sym("Einc", 0, 20);
  F->SnCompound = sym("Sn", 4, 8);
  F->massExcessCompound = sym("massExcessCompound", 20, 90);
  F->alphaI = 1.5;
  F->anisotropyCoefficient = sym("anisotropy", 0.5, 2);
  F->dZ = 1;
  F->Amin = lo, F->Amax = hi;
  F->maxYieldA = sym("maxYA", 0.01, 0.2);
  for (int a = lo; a <= hi; a++) {
    F->YA[a] = sym("YA", 0, 0.2);
    F->maxYieldZ[a] = sym("maxYZ", 0.001, 0.2);
    for (int j = 0; j < 3; j++) F->YZA[j][a] = sym("YZA", 0, 0.2);
    double c = double(zp) * a / lo;
    int zc = a <= AC / 2 ? zp + (a - lo) / 2 : ZC - (zp + (AC - a - (AC - hi)) / 2);
    F->Z0[a] = sym("Zp", zc - 0.45, zc + 0.7);
    for (int z = zc - 1; z <= zc + 2; z++) {
      if (masses[1000 * z + a] == 0) nuclide(z, a);
      if (masses[1000 * (ZC - z) + AC - a] == 0) nuclide(ZC - z, AC - a);
    }
  }
}
static double rabs(double x) { return x < 0 ? -x : x; }
static bool inMass(int a) { return a >= F->Amin && a <= F->Amax; }
static int zi(int a, int z) { return z - int(floor(F->Z0[a] + 0.5)) + F->dZ; }
static bool inCharge(int a, int z) { return zi(a, z) >= 0 && zi(a, z) <= 2 * F->dZ; }
static bool hasYield(int a, int z, double T, bool tab) {
  return F->YZA[zi(a, z)][a] > 0 && (tab ? F->YATKE[a][int(T)] > 0 : F->YA[a] > 0);
}
static void pairChecks(fissionFragmentType &l, fissionFragmentType &h, double T, bool tab) {
  vp_check(l.A + h.A == AC, "fragment masses add up to the fissioning nucleus");
  vp_check(l.Z + h.Z == ZC, "fragment charges add up to the fissioning nucleus");
  vp_check(l.N == l.A - l.Z && h.N == h.A - h.Z, "neutron numbers");
  vp_check(l.A <= h.A, "the light fragment is not heavier than the heavy one");
  double ml = l.A * amuMeV + masses[1000 * l.Z + l.A], mh = h.A * amuMeV + masses[1000 * h.Z + h.A];
  vp_close(l.mass, ml, 1e-6, "light fragment mass");
  vp_close(h.mass, mh, 1e-6, "heavy fragment mass");
  vp_close(l.TKE, T, 1e-9, "total kinetic energy stored");
  vp_close(h.TKE, T, 1e-9, "total kinetic energy stored (heavy)");
  vp_close(l.KE + h.KE, T, 1e-7, "fragment kinetic energies add up to the total kinetic energy");
  vp_close(l.KE * ml, h.KE * mh, 1e-3, "kinetic energies inversely proportional to the masses");
  double q = F->massExcessCompound - masses[1000 * l.Z + l.A] - masses[1000 * h.Z + h.A];
  vp_close(l.energyRelease, q, 1e-7, "energy release is the mass difference");
  vp_close(h.energyRelease, q, 1e-7, "energy release is the mass difference (heavy)");
  double txe = q + F->incidentEnergy + F->SnCompound - T;
  if (txe >= 0) {
    vp_close(l.U + h.U, txe, 1e-7, "excitation energies add up to Q + E + Sn - TKE");
    vp_check(l.U >= 0 && h.U >= 0, "excitation energies are not negative");
    double odd = l.A % 2 ? 0.5 : 0.0, odh = h.A % 2 ? 0.5 : 0.0;
    vp_check(l.spin == odd || l.spin == 25 + odd, "light fragment spin integer for even, half-integer for odd mass");
    vp_check(h.spin == odh || h.spin == 25 + odh, "heavy fragment spin integer for even, half-integer for odd mass");
    vp_check(l.parity == 1 || l.parity == -1, "light fragment parity");
    vp_check(h.parity == 1 || h.parity == -1, "heavy fragment parity");
    vp_reach("accepted");
  } else {
    vp_check(l.U == 0 && h.U == 0, "no excitation energy when the total kinetic energy exceeds what is available");
    vp_reach("rejected");
  }
  for (int k = 0; k < 3; k++) {
    vp_check(l.preMomentum[k] == bPl[k] && h.preMomentum[k] == bPh[k], "momenta are those of the fission kinematics");
    vp_check(l.postMomentum[k] == bPl[k] && h.postMomentum[k] == bPh[k], "momenta before emission are also the initial ones");
  }
  vp_check(bAl == l.A && bZl == l.Z && bAh == h.A && bZh == h.Z, "kinematics used the selected pair");
  vp_check(bZc == ZC && bAc == AC + NPRE && bN == NPRE, "kinematics used the initial nucleus and the neutrons lost");
  vp_check(bT == T && bE == F->incidentEnergy0, "kinematics used the selected energies");
  vp_check(bAni == F->anisotropyCoefficient, "kinematics used the angular distribution of the system");
  // one of the two fragments is the one drawn: its mass and charge lie in the windows and have a yield
  bool ml_ = l.A <= AC / 2 && inMass(l.A), mh_ = h.A > AC / 2 && inMass(h.A);
  vp_check(ml_ || mh_, "the mass drawn lies in the mass range");
  bool zl = ml_ && inCharge(l.A, l.Z), zh = mh_ && inCharge(h.A, h.Z);
  vp_check(zl || zh, "the charge drawn lies within the charge window");
  vp_check((zl && hasYield(l.A, l.Z, T, tab)) || (zh && hasYield(h.A, h.Z, T, tab)),
           "a mass, charge or kinetic energy of zero yield is never drawn");
}
static void pairSyst(int lo, int hi, int zp, int calls = 6) { // one rejected mass or charge
  pairSetup(lo, hi, zp);
  maxcalls = calls;
  rng_cgm = rnd2;
  fissionFragmentType l, h;
  F->sampleFissionFragments(&l, &h, (Yields *)calloc(1, sizeof(Yields)));
  double txe = F->massExcessCompound - masses[1000 * l.Z + l.A] - masses[1000 * h.Z + h.A] + F->incidentEnergy + F->SnCompound - tke;
  vp_check(l.U > 0 || h.U > 0, "an energetically forbidden kinetic energy is drawn again");
  vp_check(tkeA == h.A, "kinetic energy sampled for the heavy fragment");
  pairChecks(l, h, tke, false);
  vp_observe("A", l.A), vp_observe("Z", l.Z), vp_observe("U", l.U), vp_observe("KE", l.KE), vp_observe("J", l.spin), vp_observe("P", h.parity);
}
VP_HARNESS(pairLight) { AC = 236, ZC = 92, pairSyst(95, 96, 37); }
VP_HARNESS(pairHeavy) { AC = 235, ZC = 92, pairSyst(139, 140, 54); }
VP_HARNESS(pairSpin) { AC = 235, ZC = 92, oneRegime = false, pairSyst(95, 95, 37, 4); }
VP_HARNESS(pairSym) { AC = 236, ZC = 92, pairSyst(117, 119, 45); }
VP_HARNESS(pairSymOdd) { AC = 239, ZC = 94, pairSyst(119, 120, 47); }

// the same from tabulated yields in mass and kinetic energy
static void pairTab(int lo, int hi, int zp) {
  pairSetup(lo, hi, zp);
  F->yieldsOption = "YATKE";
  F->TKEmin = 165, F->TKEmax = 166;
  F->maxYieldATKE = sym("maxYATKE", 1e-3, 0.2);
  for (int a = lo; a <= hi; a++)
    for (int t = 165; t <= 166; t++) F->YATKE[a][t] = sym("YATKE", 0, 0.2);
  // the first numbers select mass, kinetic energy and charge; the next ones spin and parity
  maxcalls = 5;
  rng_cgm = [] { return ncalls < 5 ? rnd() : rndSpin(); };
  fissionFragmentType l, h;
  F->sampleFissionFragments(&l, &h);
  double T = l.TKE;
  vp_check(T >= 165 && T < 167, "the kinetic energy drawn lies in its range");
  pairChecks(l, h, T, true);
  vp_observe("A", l.A), vp_observe("Z", l.Z), vp_observe("U", l.U), vp_observe("KE", l.KE);
}
VP_HARNESS(pairTabLight) { AC = 236, ZC = 92, pairTab(95, 96, 37); }
VP_HARNESS(pairTabHeavy) { AC = 235, ZC = 92, pairTab(139, 140, 54); }

// several events: each one complete, none kept without excitation energy
Yields::Yields(int, bool) {}
VP_HARNESS(histories) {
  AC = 236, ZC = 92;
  pairSetup(95, 95, 37);
  F->dZ = 0;
  F->Z0[95] = 37.2;
  F->ZAIDc = 92236;
  F->recomputeYields = false;
  maxcalls = 8;
  nspin = -10;
  rng_cgm = [] { return phase ? rndSpin() : rnd(); };
  fissionFragmentType l[2], h[2];
  for (int i = 0; i < 2; i++) l[i].U = h[i].U = -1;
  F->generateInitialFissionFragmentHistories(l, h, 2);
  for (int i = 0; i < 2; i++) {
    vp_check(l[i].U != 0 && h[i].U != 0, "no event without excitation energy is kept");
    vp_check(l[i].A + h[i].A == AC && l[i].Z + h[i].Z == ZC, "every event is a complete pair");
    double q = F->massExcessCompound - masses[1000 * l[i].Z + l[i].A] - masses[1000 * h[i].Z + h[i].A];
    vp_close(l[i].U + h[i].U + l[i].TKE, q + F->incidentEnergy + F->SnCompound, 1e-7, "energy balance of every event");
    vp_close(l[i].KE + h[i].KE, l[i].TKE, 1e-7, "kinetic energies of every event");
  }
  vp_check(F->anisotropyCoefficient == 1.0, "isotropic fragments without tabulated anisotropy");
  vp_reach("end");
}

// ---------------------------------------------------------------- sharing of the excitation energy
static const int LZ = 37, LA = 95, HZ = 55, HA = 141;
static void shareSetup(bool flat) {
  F = ff();
  F->Ac = LA + HA, F->Zc = LZ + HZ;
  F->ZAIDt = 92235;
  F->ZAIDc = 92236;
  F->incidentEnergy = F->incidentEnergy0 = 1.0;
  // energy grid: three intervals up to 90 MeV
  for (int i = 0; i < NUM_GRID; i++) temperatureEnergyGrid[i] = i < 3 ? 10.0 * i * i : 1000.0 + i;
  for (int n = 0; n < 2; n++) {
    double a = sym(n ? "aH" : "aL", 3, 25);
    int za = n ? 1000 * HZ + HA : 1000 * LZ + LA;
    table(ldp2, za, a);
    if (!flat) {
      ldp2[za][1] = a + sym("da", -0.004, 0.004);
      ldp2[za][2] = ldp2[za][3] = a + sym("da", -0.004, 0.004);
    }
  }
}
static double tab(double (*t)[NUM_GRID], int za, double e) { // linear interpolation
  int i = 0;
  while (i < 3 && temperatureEnergyGrid[i + 1] <= e) i++;
  double x = (e - temperatureEnergyGrid[i]) / (temperatureEnergyGrid[i + 1] - temperatureEnergyGrid[i]);
  return t[za][i] * (1 - x) + t[za][i + 1] * x;
}
static double ul, uh, txe;
static void share(const char *opt) {
  txe = sym("TXE", 0, 89);
  ul = uh = -1;
  F->computeFragmentExcitationEnergy(txe, LZ, LA, HZ, HA, &ul, &uh, opt);
  vp_close(ul + uh, txe, 1e-8, "the fragments share the whole excitation energy");
  vp_check(ul >= 0 && uh >= 0, "neither fragment receives a negative energy");
  vp_observe("ul", ul);
}
VP_HARNESS(shareFixed) {
  shareSetup(true);
  double rt = sym("RT", 0.5, 2);
  F->RT = rt;
  share("fixedRT");
  double al = ldp2[1000 * LZ + LA][0], ah = ldp2[1000 * HZ + HA][0];
  vp_close(ul * ah, uh * al * rt * rt, 1e-6, "ratio of temperatures: U_L/a_L = RT^2 U_H/a_H");
  vp_reach("end");
}
VP_HARNESS(shareVarying) {
  shareSetup(false);
  double rt = sym("RT", 0.8, 1.6);
  F->RT = rt;
  share("fixedRT");
  int zl = 1000 * LZ + LA, zh = 1000 * HZ + HA;
  double lo = 0.99, hi = 1.01; // level density parameters vary by at most 0.3 percent here
  double x = ul * ldp2[zh][0], y = uh * ldp2[zl][0] * rt * rt;
  vp_check(x <= hi * y + 1e-6 && y <= hi * x + 1e-6, "ratio of temperatures within the variation of the parameters");
  vp_reach("end");
}
VP_HARNESS(shareRTA) {
  shareSetup(true);
  NUMZAID_RTA = 3;
  RTAdata = new RTAtype[3];
  int w = vp_choose("target", 0, 3);
  for (int i = 0; i < 3; i++) {
    RTAdata[i].ZAID = i == w ? 92235 : 94239 + i;
    for (int a = 0; a < NUMA; a++) RTAdata[i].ratios[a] = 0.5;
    RTAdata[i].ratios[HA] = sym("RT", 0.5, 2);
  }
  F->RT = 7;
  share("RTA");
  double rt = w < 3 ? RTAdata[w].ratios[HA] : 1.0;
  double al = ldp2[1000 * LZ + LA][0], ah = ldp2[1000 * HZ + HA][0];
  vp_close(ul * ah, uh * al * rt * rt, 1e-6, "temperature ratio of the target and heavy mass, one when not tabulated");
  vp_reach("end");
}
VP_HARNESS(sharePfactors) {
  shareSetup(true);
  F->Pfactors[HA][HZ] = vp_choose("zero", 0, 1) ? 0.0 : sym("PH", 0.5, 5);
  F->Pfactors[LA][LZ] = sym("PL", 0, 5);
  share("Pfactors");
  double ph = F->Pfactors[HA][HZ], rt = ph != 0 ? 1 + 0.05 * (F->Pfactors[LA][LZ] / ph - 1) : 1.0;
  double al = ldp2[1000 * LZ + LA][0], ah = ldp2[1000 * HZ + HA][0];
  vp_close(ul * ah, uh * al * rt * rt, 1e-6, "temperature ratio from the P factors");
  vp_reach("end");
}
// tabulated level density parameters and temperatures are interpolated linearly
VP_HARNESS(tables) {
  shareSetup(false);
  int za = 1000 * LZ + LA;
  for (int i = 0; i < NUM_GRID; i++) temperatureEnergyGrid[i] = i < 6 ? 2.5 * i * (i + 1) : 100.0 + i;
  for (int i = 0; i < 6; i++) ldp2[za][i] = sym("a", 1, 30), temperatures[za][i] = sym("T", 0.1, 3);
  double e = sym("E", 0, 74.9);
  int i = 0;
  while (temperatureEnergyGrid[i + 1] <= e) i++;
  double x = (e - temperatureEnergyGrid[i]) / (temperatureEnergyGrid[i + 1] - temperatureEnergyGrid[i]);
  if (i < 5) {
    double a = getLDP(za, e), t = getTemperature(za, e);
    vp_close(a, ldp2[za][i] * (1 - x) + ldp2[za][i + 1] * x, 1e-8, "level density parameter interpolated between neighbouring energies");
    vp_close(t, temperatures[za][i] * (1 - x) + temperatures[za][i + 1] * x, 1e-8, "temperature interpolated between neighbouring energies");
    vp_observe("a", a), vp_observe("t", t);
  }
  vp_reach("end");
}
VP_HARNESS(tablesMissing) {
  for (int i = 0; i < NUM_GRID; i++) temperatureEnergyGrid[i] = i < 6 ? 2.5 * i * (i + 1) : 100.0 + i;
  int za = 40100;
  double e = sym("E", 0, 70);
  vp_close(getLDP(za, e), 5.0, 1e-9, "default level density parameter for a missing nuclide");
  vp_close(getTemperature(za, e), 5.0, 1e-9, "default temperature for a missing nuclide");
  beta2[za] = -100.0;
  vp_close(getDeformation(za), 0.2, 1e-12, "default deformation for a missing nuclide");
  masses[za] = sym("mass", -100, -1);
  vp_check(getMassExcess(za) == masses[za], "mass excess of the nuclide");
  vp_reach("end");
}

// ---------------------------------------------------------------- initial spin
static double sr[4];
static int nsr;
VP_HARNESS(spin) {
  F = ff();
  grid0();
  int a = vp_choose("A", 95, 96), z = 38, za = 1000 * z + a;
  beta2[za] = 0.15;
  table(temperatures, za, 0.6);
  F->alphaI = 1.4;
  rng_cgm = [] {
    vp_assume(nsr < 4);
    sr[nsr] = vp_rand();
    if (nsr == 2) vp_assume(sr[2] < 0.04); // second trial: spins 0 and 1
    return sr[nsr++];
  };
  double u = 12, j = -1;
  F->getInitialSpin(z, a, &u, &j);
  double b2 = 0.4 * pow((double)a, 5. / 3.) * 1.44 * 0.5 * (NEUTRONMASS + PROTONMASS) * amuMeV *
              (1 + 0.31 * 0.15 + 0.44 * 0.15 * 0.15) * 1.4 * 0.6 / (197.32697 * 197.32697);
  double odd = a % 2 ? 0.5 : 0.0;
  vp_check(j >= odd && j <= 49 + odd, "spin range");
  double s = 0, p[50], x = 2 * b2;
  for (int i = 0; i < 50; i++) s += p[i] = (2 * (i + odd) + 1) * exp(-(i + odd) * (i + odd + 1) / x);
  int k = int(j - odd);
  vp_close(j, k + odd, 1e-12, "spin integer for even, half-integer for odd mass");
  vp_check(nsr == 2 || nsr == 4, "two numbers per trial");
  vp_check(k == int(sr[nsr - 2] * 50), "every spin equally likely to be tried");
  vp_check(sr[nsr - 1] <= p[k] / s * (1 + 1e-5), "accepted with the probability of the spin distribution");
  if (nsr == 4) vp_check(sr[1] >= p[int(sr[0] * 50)] / s * (1 - 1e-5), "rejected with the remaining probability");
  vp_observe("J", j);
  vp_reach("end");
}
VP_HARNESS(spinWidth) {
  F = ff();
  for (int i = 0; i < NUM_GRID; i++) temperatureEnergyGrid[i] = i < 3 ? 10.0 * i * i : 1000.0 + i;
  int a = vp_choose("A", 95, 96), z = 38, za = 1000 * z + a;
  for (int k = -1; k <= 1; k++) // neighbouring nuclides differ
    for (int n = -1; n <= 1; n++) {
      beta2[za + n + 1000 * k] = 0.4;
      table(temperatures, za + n + 1000 * k, 2.0);
    }
  beta2[za] = sym("beta2", -0.3, 0.5);
  for (int i = 0; i < 3; i++) temperatures[za][i] = sym("T", 0.2, 2);
  F->alphaI = sym("alpha", 0.5, 3);
  double u = sym("U", 0, 39);
  double T = tab(temperatures, za, u), b = beta2[za];
  double got = F->spinParameter2(u, a, z);
  double m = 0.4 * pow((double)a, 5. / 3.) * 1.44 * 0.5 * (NEUTRONMASS + PROTONMASS) * amuMeV / (197.32697 * 197.32697);
  double want = m * (1 + 0.31 * b + 0.44 * b * b) * F->alphaI * T;
  vp_check(got <= want * 1.0001 && got >= want * 0.9999, "spin cut-off parameter: rigid moment of inertia x alpha x temperature");
  vp_observe("B2", got);
  vp_reach("end");
}
VP_HARNESS(spinScaling) {
  F = ff();
  F->sf_flag = vp_choose("sf", 0, 1);
  F->alphaI0 = vp_choose("user", 0, 1) ? sym("alpha0", 0.1, 5) : 0.0;
  int w = vp_choose("row", 0, 4);
  for (int i = 0; i < ALPHA_MAX_ZAIDc; i++) alpha_coefficients[i][0] = 94240 + i, alpha_coefficients[i][1] = 9 + i, alpha_coefficients[i][2] = 3;
  int zaid = 92236;
  double a0 = F->sf_flag ? 1.3 : 1.5, as = F->sf_flag ? 0.0 : 0.071;
  if (w < 4) {
    int row = w == 3 ? ALPHA_MAX_ZAIDc - 1 : w;
    alpha_coefficients[row][0] = F->sf_flag ? -zaid : zaid;
    a0 = alpha_coefficients[row][1] = sym("c0", 0.5, 3);
    as = alpha_coefficients[row][2] = sym("c1", 0, 0.2);
    alpha_coefficients[row == 5 ? 6 : 5][0] = F->sf_flag ? zaid : -zaid; // the other reaction type
  }
  double e = sym("E", -3, 20);
  F->setSpinStrength(zaid, e);
  double want = F->alphaI0 > 0 ? F->alphaI0 : e < 0 ? a0 : a0 + as * e;
  vp_close(F->alphaI, want, 1e-9, "spin scaling: user value, else tabulated, else default; linear in energy, constant below zero");
  vp_reach("end");
}

// ---------------------------------------------------------------- charge distribution
// mass chain a: Y(Z,A) sums to Y(A), follows the Gaussian with the odd-even factors
static void chainSetup(int lo, int hi, int dz) {
  F = ff();
  F->Amin = lo, F->Amax = hi, F->dZ = dz;
  F->Ac = F->Ac0 = 236, F->Zc = F->Zc0 = 92;
  for (int a = lo; a <= hi; a++) {
    F->YA[a] = sym("YA", 1e-5, 0.1);
    F->Z0[a] = 38 + sym("Zp", -0.45, 1.45);
    F->FZZ0[a] = sym("FZ", 0.9, 1.4), F->FNZ0[a] = sym("FN", 0.9, 1.2);
    F->sZ0[a] = sym("sigmaZ", 0.3, 0.9);
  }
  // leftovers of an earlier event at the same charges
  for (int a = lo; a <= hi; a++)
    for (int j = 0; j <= 2 * dz; j++) F->YZA[j][a] = sym("old", 0, 0.1);
}
VP_HARNESS(charge) {
  int a = vp_choose("A", 95, 96);
  chainSetup(a, a, 2);
  F->buildYZA();
  int zp = (int)floor(F->Z0[a] + 0.5);
  double s = 0, s2 = 0, g[5], n = 0;
  for (int j = 0; j < 5; j++) {
    int z = zp + j - 2;
    double f = (z % 2 ? 1 / F->FZZ0[a] : F->FZZ0[a]) * ((a - z) % 2 ? 1 / F->FNZ0[a] : F->FNZ0[a]);
    double r = sqrt(2.0) * F->sZ0[a];
    double v = (z - F->Z0[a] + 0.5) / r, w = (z - F->Z0[a] - 0.5) / r;
    g[j] = f * 0.5 * (erf(v) - erf(w));
    n += g[j];
    s += F->YZA[j][a];
    vp_check(F->YZA[j][a] >= 0, "charge yields are not negative");
    vp_close(F->YZA2[z][a], F->YZA[j][a], 1e-9, "both charge tables agree");
  }
  for (int z = 0; z < NUMZ; z++) s2 += F->YZA2[z][a];
  vp_close(s, F->YA[a], 1e-7, "charge yields add up to the mass yield");
  vp_close(s2, F->YA[a], 1e-7, "charge yields (by charge) add up to the mass yield");
  for (int j = 0; j < 5; j++) vp_close(F->YZA[j][a] * n, g[j] * F->YA[a], 1e-7, "Gaussian in charge with the odd-even factors");
  vp_reach("end");
}
VP_HARNESS(chargeNoWidth) {
  int a = vp_choose("A", 95, 96);
  chainSetup(a, a, 1);
  F->sZ0[a] = sym("sigmaZ", -1, 0);
  int zp = (int)floor(F->Z0[a] + 0.5);
  for (int z = zp - 1; z <= zp + 1; z++) F->YZA2[z][a] = sym("old", 0, 0.1);
  F->buildYZA();
  for (int j = 0; j < 3; j++) {
    vp_close(F->YZA[j][a], j == 1 ? F->YA[a] : 0.0, 1e-9, "without a width only the most probable charge is left");
    vp_close(F->YZA2[zp + j - 1][a], j == 1 ? F->YA[a] : 0.0, 1e-9, "without a width only the most probable charge is left (by charge)");
  }
  vp_reach("end");
}
VP_HARNESS(chargeTotal) {
  F = ff();
  F->Amin = 95, F->Amax = 97, F->dZ = 1, F->Zmin = 37, F->Zmax = 40;
  for (int a = 95; a <= 97; a++) {
    F->Z0[a] = 38.1 + 0.4 * (a - 95);
    F->YA[a] = 0;
    for (int z = 37; z <= 40; z++) F->YA[a] += F->YZA2[z][a] = sym("YZA", 1e-4, 0.2);
  }
  F->YZ[38] = 9;
  F->buildYZ();
  double s = 0, t = 0;
  for (int z = 37; z <= 40; z++) s += F->YZ[z];
  for (int a = 95; a <= 97; a++) t += F->YA[a];
  vp_close(s, 1, 1e-7, "the charge distribution adds up to one");
  for (int z = 37; z <= 40; z++) {
    double c = F->YZA2[z][95] + F->YZA2[z][96] + F->YZA2[z][97];
    vp_close(F->YZ[z] * t, c, 1e-7, "the yield of a charge is the sum over the masses");
  }
  vp_reach("end");
}

// ---------------------------------------------------------------- fissioning system of an event
// stubs: the mass-yield model (decided by P10/P12)
static double yv[NUMA];
static int fsId, rsMin, rsMax;
static double fsE, rsSum;
double Yields::yieldA(int a) { return yv[a]; }
void Yields::setFissioningSystem(int id, double e) { fsId = id, fsE = e; }
void Yields::setRescaleTKE(double *y, int lo, int hi) {
  rsMin = lo, rsMax = hi, rsSum = 0;
  for (int a = lo; a <= hi; a++) rsSum += y[a];
}
static void nuclei(int n, int bins) {
  MAX_ENERGY_BIN = bins, MAX_J = 2, MAX_LEVELS = 2, ENERGY_BIN = 1.0;
  ncl = new Nucleus[n];
}
static Yields *fy() { return (Yields *)calloc(1, sizeof(Yields)); }
static void compoundSetup(bool sf) {
  F = ff();
  nuclei(2, 3);
  F->sf_flag = sf;
  F->ZAIDc = F->ZAIDc0 = 92236, F->ZAIDt = 92235;
  F->Zc0 = 92, F->Ac0 = 236, F->Zc = 0, F->Ac = 0;
  F->dZ = 2;
  F->incidentEnergy0 = sf ? 0.0 : 2.0, F->SnCompound0 = sf ? 0.0 : 6.5;
  F->incidentEnergy = F->SnCompound = 77; // left over from the event before
  F->massExcessCompound = 33;
  F->alphaI0 = 1.1;
  F->nemit = 0, F->n_pfn = 0;
  ncl[0].max_energy = sym("Ex", 6, 30);
  for (int a = 233; a <= 236; a++) masses[92000 + a] = sym("massExcess", 35, 45);
  masses[1] = sym("massExcess", 8, 8.1);
}
static void compound(bool sf) {
  compoundSetup(sf);
  static const int as[] = {116, 117, 119, 120}; // 118 lies inside the range and has no yield
  for (int i = 0; i < 4; i++) yv[as[i]] = i == 1 ? sym("y", 0.01, 1) : sym("y", 0, 1);
  for (int a = 0; a < NUMA; a++) F->YA[a] = a == 120 ? 0.5 : 0;
  F->constructYields(fy());
  vp_check(F->Ac == 236 && F->Zc == 92, "without neutrons lost the fissioning nucleus is the initial one");
  if (sf) {
    vp_check(F->incidentEnergy == 0 && F->SnCompound == 0, "spontaneous fission has no incident energy");
  } else {
    double sn = masses[92235] + masses[1] - masses[92236];
    vp_close(F->SnCompound, sn, 1e-8, "neutron separation energy of the fissioning nucleus");
    vp_close(F->massExcessCompound, masses[92236], 1e-8, "mass of the fissioning nucleus");
    vp_close(F->incidentEnergy, ncl[0].max_energy - sn, 1e-8, "equivalent incident energy = excitation energy - separation energy");
  }
  vp_check(fsId == 92236 && fsE == F->incidentEnergy, "yield model asked for the fissioning nucleus at its energy");
  vp_close(F->alphaI, 1.1, 1e-12, "user spin scaling kept");
  int lo = yv[116] > 0 ? 116 : 117, hi = yv[120] > 0 ? 120 : yv[119] > 0 ? 119 : 117;
  vp_check(F->Amin == lo && F->Amax == hi, "mass range = masses with a yield");
  vp_check(rsMin == lo && rsMax == hi, "kinetic energies rescaled over the same masses");
  double s = 0, m = 0, t = 0;
  for (int i = 0; i < 4; i++) t += yv[as[i]];
  for (int a = lo; a <= hi; a++) {
    s += F->YA[a];
    double z = 0;
    for (int j = 0; j < 5; j++) {
      z += F->YZA[j][a];
      vp_check(F->YZA[j][a] <= F->maxYieldZ[a] * 1.000001, "sampling bound for charges covers every charge");
    }
    if (yv[a] > 0) vp_close(z, F->YA[a], 1e-7, "charge yields add up to the mass yield in an event");
    vp_check(F->YA[a] <= F->maxYieldA, "sampling bound for masses covers every mass");
    vp_close(F->YA[a] * t, yv[a], 1e-7, "mass yields keep the proportions of the model");
  }
  vp_close(s, 1, 1e-7, "mass yields are normalised");
  vp_close(rsSum, 1, 1e-7, "kinetic energies rescaled with normalised yields");
  bool hit = false;
  for (int a = lo; a <= hi; a++) hit = hit || F->YA[a] == F->maxYieldA;
  vp_check(hit, "the sampling bound for masses is attained");
  vp_reach("end");
}
VP_HARNESS(compoundN) { compound(false); }
VP_HARNESS(compoundSF) { compound(true); }

// one neutron lost: daughter nucleus, its separation energy and what the neutron took away
VP_HARNESS(compoundOne) {
  compoundSetup(false);
  for (int i = 0; i < 2; i++) ncl[i].max_energy = i ? 8 : 14.5, ncl[i].ntotal = 4;
  ncl[0].max_energy = 14.5;
  for (int k = 0; k < 3; k++) ncl[1].excitation[k] = sym("daughterE", 6.1, 9);
  vp_assume(ncl[1].excitation[0] > 7.1 && ncl[1].excitation[0] < 8 && ncl[1].excitation[1] < ncl[1].excitation[0] && ncl[1].excitation[2] < ncl[1].excitation[1]);
  F->barrier = new double[2], F->emissprob = new double[2];
  F->barrier[0] = 6, F->barrier[1] = 6;
  F->nemit = F->n_pfn = 1;
  for (int i = 0; i < ALPHA_MAX_ZAIDc; i++) alpha_coefficients[i][0] = 92230 + i, alpha_coefficients[i][1] = 1 + 0.125 * i, alpha_coefficients[i][2] = 0.0625;
  F->alphaI0 = 0;
  F->sp1 = new double[3], F->energy_grid1 = new double[3];
  for (int k = 0; k < 3; k++) F->sp1[k] = sym("spectrum", 0, 1), F->energy_grid1[k] = sym("ecms", 0.6, 2);
  vp_assume(F->sp1[0] > 0 || F->sp1[1] > 0);
  yv[117] = yv[119] = 0.5;
  ncalls = 0, maxcalls = 5;
  rng_cgm = rnd;
  F->constructYields(fy());
  vp_check(F->Ac == 235 && F->Zc == 92, "the fissioning nucleus has lost the neutrons emitted before");
  double sn = masses[92234] + masses[1] - masses[92235];
  vp_close(F->SnCompound, sn, 1e-8, "separation energy of the nucleus after emission");
  vp_close(F->massExcessCompound, masses[92235], 1e-8, "mass of the nucleus after emission");
  bool one = false;
  for (int k = 0; k < 2; k++) {
    double d = F->cmEnergy_pfn[0] - F->energy_grid1[k], x = F->incidentEnergy - (ncl[1].excitation[k] - sn);
    one = one || (d <= 0.5 && d >= -0.5 && x < 1e-8 && x > -1e-8 && F->sp1[k] > 0);
  }
  vp_check(one, "energy left and neutron energy belong to the same final state, one with a non-zero probability");
  vp_check(fsId == 92235 && fsE == F->incidentEnergy, "yield model asked for the nucleus that fissions");
  vp_close(F->alphaI, 1.625 + (F->incidentEnergy > 0 ? 0.0625 * F->incidentEnergy : 0), 1e-9, "spin scaling of the nucleus that fissions, at its energy");
  vp_observe("E", F->incidentEnergy), vp_observe("ec", F->cmEnergy_pfn[0]);
  vp_reach("end");
}
// number of neutrons lost before fission: tabulated probabilities interpolated in energy (fixture data file)
static const double mcE[] = {0, 5, 6.5, 10, 20};
static const double mcP[5][4] = {{100, 0, 0, 0}, {100, 0, 0, 0}, {90, 10, 0, 0}, {40, 35, 25, 0}, {30, 30, 25, 15}};
static void multi(bool all) {
  char here[512];
  strcpy(here, __FILE__);
  char *e = here + strlen(here);
  while (e[-1] != '/') e--;
  strcpy(e, "data/");
  datadir = here;
  F = ff();
  F->ZAIDc = 92236, F->ZAIDt = 92235;
  F->incidentEnergy = sym("E", 1e-6, 20);
  int most = all ? 9 : vp_choose("energeticallyPossible", 0, 3);
  F->nemit = most;
  F->readMultichanceFissionData();
  int i = 1;
  while (mcE[i] < F->incidentEnergy) i++;
  double x = (F->incidentEnergy - mcE[i - 1]) / (mcE[i] - mcE[i - 1]), p[4], t = 0, s = 0;
  int last = 0;
  for (int j = 0; j < 4; j++) {
    p[j] = mcP[i - 1][j] * (1 - x) + mcP[i][j] * x;
    if (p[j] > 0) last = j;
  }
  static const double b[] = {6.125, 5.5, 6.25, 5.875};
  for (int j = 0; j <= 3; j++) vp_check(F->barrier[j] == b[j], "fission barriers of the target");
  if (all) vp_check(F->nemit == last, "as many neutrons as have a probability at this energy");
  vp_check(F->nemit >= 0 && F->nemit <= 3, "no more neutrons than tabulated");
  for (int j = 0; j <= F->nemit; j++) t += p[j], s += F->emissprob[j];
  vp_close(s, 1, 1e-9, "probabilities add up to one");
  bool hit = false;
  for (int j = 0; j <= F->nemit; j++) {
    vp_close(F->emissprob[j] * t, p[j], 1e-7, "probabilities interpolated linearly between the energies");
    vp_check(F->emissprob[j] <= F->emissprob_max, "sampling bound covers every probability");
    hit = hit || F->emissprob[j] == F->emissprob_max;
  }
  vp_check(hit, "sampling bound attained");
  vp_observe("n", F->nemit), vp_observe("p", F->emissprob[0]);
  vp_reach("end");
}
VP_HARNESS(multichance) { multi(true); }
static double nr[4];
static int nnr;
VP_HARNESS(number) {
  F = ff();
  F->nemit = vp_choose("max", 0, 3);
  F->emissprob = new double[4];
  F->emissprob_max = 0;
  double t = 0;
  for (int j = 0; j <= F->nemit; j++) {
    F->emissprob[j] = sym("p", 0, 1);
    if (F->emissprob[j] > F->emissprob_max) F->emissprob_max = F->emissprob[j];
  }
  vp_assume(F->emissprob_max > 0.01);
  rng_cgm = [] {
    vp_assume(nnr < 4);
    nr[nnr] = vp_rand();
    vp_assume(nr[nnr] > 0);
    return nr[nnr++];
  };
  int n = F->getNumberPrefissionNeutrons();
  vp_check(n >= 0 && n <= F->nemit, "number of neutrons possible at this energy");
  vp_check(F->emissprob[n] > 0, "a number with no probability is never drawn");
  vp_check(n == int(nr[nnr - 2] * (F->nemit + 1)), "all numbers equally likely to be tried");
  vp_check(nr[nnr - 1] * F->emissprob_max <= F->emissprob[n] + 1e-12, "accepted in proportion to the probability");
  if (nnr == 4) vp_check(nr[1] * F->emissprob_max >= F->emissprob[int(nr[0] * (F->nemit + 1))] - 1e-12, "rejected otherwise");
  vp_observe("n", n);
  vp_reach("end");
}
// pre-equilibrium fraction
VP_HARNESS(preeqFraction) {
  F = ff();
  n_reactions = 4;
  int w = vp_choose("row", 0, 4);
  for (int i = 0; i < 4; i++) {
    preeq_id[i] = i == w ? 92235 : 94239 + i;
    for (int k = 0; k < 4; k++) preeq_params[i][k] = sym("c", k < 2 ? 5 : -0.4, k < 2 ? 15 : 0.01);
  }
  F->ZAIDt = 92235, F->ZAIDc = 92236;
  F->incidentEnergy = F->incidentEnergy0 = sym("E", 0, 20);
  double f = F->preeq_fraction(), e = F->incidentEnergy;
  if (w == 4)
    vp_check(f == 0, "no pre-equilibrium emission for a target without parameters");
  else {
    const double *c = preeq_params[w];
    vp_close((f - c[2] * e - c[3]) * (1 + exp((c[0] - e) / c[1])), 1, 1e-6, "pre-equilibrium fraction of the target");
  }
  vp_observe("f", f);
  vp_reach("end");
}
// anisotropy of the fragments
static void cdf(double (*t)[2]) {
  vp_check(t[0][0] == -1 && t[0][1] == 0, "cumulative distribution starts at -1");
  vp_check(t[THETA_STEPS - 1][1] == 1, "cumulative distribution ends at one");
  vp_close(t[THETA_STEPS - 1][0], 1, 1e-12, "angles end at +1");
  for (int i = 1; i < THETA_STEPS; i++) vp_close(t[i][0], 2.0 * i / (THETA_STEPS - 1) - 1, 1e-12, "angles equally spaced in cosine");
}
static void anisoSetup(int row) {
  F = ff();
  for (int j = 0; j < NUM_EGRID; j++) anisotropy[0][j + 1] = 0.1 * j;
  for (int i = 0; i < MAX_ZAIDc; i++) {
    anisotropy[i + 1][0] = i == row ? 92235 : i < 7 ? 94238 + i : 0;
    for (int j = 0; j < NUM_EGRID; j++) anisotropy[i + 1][j + 1] = i == row ? 1.25 + 0.001 * j : 1.75;
  }
  F->ZAIDc = 92236, F->ZAIDt = 92235, F->Ac = 235, F->Zc = 92; // a neutron has been lost
  F->anisotropyCoefficient = 7;
}
VP_HARNESS(anisotropyEnergy) {
  int row = vp_choose("row", 0, 2);
  anisoSetup(row == 2 ? -1 : row * 3);
  F->anisotropy_flag = vp_choose("flag", 0, 1);
  int k = vp_choose("tenths", 0, 200);
  double lo = k == 0 ? 0 : 0.1 * k - 0.049, hi = k == 200 ? 20 : 0.1 * k + 0.049;
  F->incidentEnergy0 = sym("E", lo, hi);
  F->incidentEnergy = 3.3; // after emission
  F->computeFragmentAngularDistribution();
  double want = F->anisotropy_flag && row < 2 ? 1.25 + 0.001 * k : 1.0;
  vp_close(F->anisotropyCoefficient, want, 1e-9, "anisotropy of the target at the nearest tabulated energy, isotropic without data");
  vp_observe("a", F->anisotropyCoefficient);
  vp_reach("end");
}
VP_HARNESS(anisotropyCdf) {
  anisoSetup(2);
  double a = sym("a", 0.5, 3);
  vp_assume(a != 1.0);
  anisotropy[3][1 + 23] = a;
  F->anisotropy_flag = true;
  F->incidentEnergy0 = 2.3;
  F->computeFragmentAngularDistribution();
  cdf(Pcostheta);
  double p1 = 0;
  for (int i = 1; i < THETA_STEPS; i++) {
    double c = 2.0 * i / (THETA_STEPS - 1) - 1, d = Pcostheta[i][1] - Pcostheta[i - 1][1], w = 1 + (a - 1) * c * c;
    vp_check(d > 0, "cumulative distribution increases");
    if (i == 1) p1 = d / w;
    vp_close(d, p1 * w, 1e-9, "steps proportional to 1 + (a-1) cos^2");
  }
  vp_observe("p", Pcostheta[20][1]);
  vp_reach("end");
}
VP_HARNESS(preeqAngle) {
  compoundSetup(false);
  ncl[1].excitation[0] = 7.5, ncl[1].excitation[1] = 5.5;
  F->barrier = new double[2];
  F->barrier[0] = 6, F->barrier[1] = 7;
  F->nemit = F->n_pfn = 1;
  F->preeq_flag = true;
  F->incidentEnergy = 14;
  F->sp1 = new double[2], F->energy_grid1 = new double[2];
  F->sp1[0] = 1, F->energy_grid1[0] = 1.5;
  double p[2] = {0, 0};
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < 4; i++) {
      double e = 1;
      for (int j = 0; j < i; j++) e *= 14.0;
      double x = 1;
      for (int j = 0; j < 6; j++) {
        preeqScatteringParams[k][i][j] = i == 0 && j == 0 ? sym("c", k ? 2.2 : -0.4, k ? 3 : 0.4) : sym("c", -0.1, 0.1) / e / x / 24;
        p[k] += preeqScatteringParams[k][i][j] * x * e;
        x *= 7.5;
      }
    }
  rng_cgm = [] {
    double r = vp_rand();
    vp_assume(r > 0);
    return r;
  };
  double ex = 0;
  F->getPrefissionNeutronEnergy(&ex);
  cdf(Ppreeq);
  double n = 0;
  for (int i = 1; i < THETA_STEPS; i++) n += p[0] * sinh(2.0 * i / (THETA_STEPS - 1) - 1) + p[1];
  for (int i = 1; i < THETA_STEPS; i++) {
    double w = p[0] * sinh(2.0 * i / (THETA_STEPS - 1) - 1) + p[1], d = Ppreeq[i][1] - Ppreeq[i - 1][1];
    vp_check(d > 0, "cumulative distribution increases");
    vp_close(d * n, w, 1e-7, "steps proportional to the tabulated angular distribution");
  }
  vp_observe("p", Ppreeq[20][1]);
  vp_reach("end");
}

// neutrons lost before fission
int omCalc(double e, Pdata *, ZAnumber *, double, double *, CrossSection *cx) {
  cx->reaction = sym("sigma", 0.5, 2);
  return 1;
}
double ldLevelDensity(double e, double, LevelDensity *) { return sym("rho", 1, 100); }
static double S[4];
static int npr;
static void chainNuclei(int n, int bins) {
  nuclei(n + 1, bins);
  double e = sym("Ex", 14.3 + (n - 1) * 6, 14.3 + (n - 1) * 6 + 0.6);
  for (int i = 0; i <= n; i++) {
    ncl[i].za.setZA(92, 236 - i);
    ncl[i].max_energy = e;
    ncl[i].mass = 236 - i;
    ncl[i].ntotal = int(floor(e + 0.5)) + 1;
    for (int k = 0; k < ncl[i].ntotal; k++) ncl[i].excitation[k] = e - k;
    ncl[i].excitation[ncl[i].ntotal - 1] = 0;
    S[i] = 6.0 + 0.25 * i;
    ncl[i].cdt[neutron].binding_energy = S[i];
    ncl[i].cdt[neutron].next = i < n ? i + 1 : -1;
    e = e - S[i];
  }
  F->tc = new Transmission[bins];
  for (int k = 0; k < bins; k++) F->tc[k].tran = new double[6];
  F->sp1 = new double[bins], F->sp = new double[bins], F->energy_grid1 = new double[bins];
  F->barrier = new double[n + 1], F->emissprob = new double[n + 1];
  for (int i = 0; i <= n; i++) F->barrier[i] = sym("barrier", 5.1, 6.4);
}
static void pre(int n, int rejections) {
  compoundSetup(false);
  chainNuclei(n, 32);
  F->nemit = n, F->n_pfn = n;
  evapInterface(F->pdt + neutron, F->tc, 0, 0, F->sp1);
  for (int k = 0; k < MAX_ENERGY_BIN; k++) F->energy_grid1[k] = k < ncl[1].ntotal ? F->tc[k].ecms : 0.0;
  npr = 0;
  ncalls = 0, maxcalls = 3 * n + 2 * rejections;
  rng_cgm = rnd;
  for (int i = 0; i < n; i++) F->cmEnergy_pfn[i] = -5;
  double ex = -1;
  F->getPrefissionNeutronEnergy(&ex);
  double sum = ex, bmax = 0;
  for (int i = 0; i < n; i++) {
    vp_check(F->cmEnergy_pfn[i] > 0, "neutrons emitted before fission have positive energy");
    sum += F->cmEnergy_pfn[i] + S[i];
  }
  double d = sum - ncl[0].max_energy;
  vp_check(d <= 0.5 * n + 1e-9 && d >= -0.5 * n - 1e-9 - (n > 1 ? 0.5 * (n - 1) : 0), "energy of the emission chain balances within the bin width");
  vp_check(ex >= F->barrier[n] - 1e-9, "the nucleus left is above its fission barrier");
  vp_check(ex <= ncl[n].max_energy, "the nucleus left has no more energy than available");
  vp_observe("ex", ex);
  for (int i = 0; i < n; i++) vp_observe("ec", F->cmEnergy_pfn[i]);
  vp_reach("end");
}
VP_HARNESS(preOne) { pre(1, 1); }
VP_HARNESS(preTwo) { pre(2, 0); }
VP_HARNESS(preThree) { pre(3, 0); }
