// Neutrons emitted before fission: evaporation spectrum and two-component exciton model (P36).
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
using namespace std;
#include "physics.h"
#include "cgm.h"
#include "masstable.h"
#include "excinterface.h"
#include "evapinterface.h"
#include "exciton.h"
#include "terminate.h"
#include "vp.h"
#define ENTRY(n) static void n##_entry(); VP_HARNESS(n) { n##_entry(); vp_reach("end"); } static void n##_entry()

// ------------------------------------------------------------ spectra
#if defined(VP_SPC)
static const int B = 4;
static double em[B], sg[B], rho[B];
static int nc, ip5, kp5, used[B], nm, bins[2], nb, order;
static Pdata *pd;
static ZAnumber za5;
static double mx[2], raw[B], AT, elab;
static int ZT;
// stub: neutron energies and reaction cross sections of the final bins
void statStoreContinuumTransmission(int ip, int kp, Pdata *p, Transmission *t) {
  nc++, ip5 = ip, kp5 = kp, pd = p, za5 = p->particle;
  for (int k = 0; k < B; k++) t[k].ecms = em[k], t[k].sigr = sg[k];
  if (order == 2) order = 3;
}
// stub: level density
double ldLevelDensity(double e, double a, LevelDensity *l) {
  vp_check(l == &ncl[ip5 + 1].ldp, "P36 level density of the residual nucleus");
  vp_close(a, ncl[ip5 + 1].za.getA(), 0, "P36 mass number of the residual nucleus");
  int k = -1;
  for (int i = 0; i < B; i++) if (e == ncl[ip5 + 1].excitation[i]) k = i;
  vp_check(k >= 0, "P36 level density at an energy of the residual nucleus");
  if (k < 0) return 0;
  return rho[k];
}
static void setup(int nuc) {
  MAX_ENERGY_BIN = B;
  MAX_J = 2;
  MAX_LEVELS = 2;
  ncl = new Nucleus[nuc];
}
ENTRY(evaporation) {
  setup(3);
  int c0 = vp_choose("emitted", 0, 1), k0 = vp_choose("first", 0, 1), nt = vp_choose("bins", k0 + 1, B);
  ncl[c0].za.setZA(92, 236 - c0), ncl[c0 + 1].za.setZA(92, 235 - c0);
  ncl[c0 + 1].ntotal = nt;
  Transmission t[B];
  Pdata p;
  double sp[B], w[B], s = 0;
  for (int k = 0; k < B; k++) {
    ncl[c0 + 1].excitation[k] = 10 - k - 0.25 * c0;
    em[k] = vp_real("energy", -1, 15), sg[k] = vp_real("sigma", 1e-6, 3), rho[k] = vp_real("density", 1e-3, 1e3);
    sp[k] = vp_real("old", -1, 1);
    w[k] = k >= k0 && k < nt && em[k] > 0 ? em[k] * sg[k] * rho[k] : 0;
    s += w[k];
  }
  vp_assume(s > 1e-6);
  evapInterface(&p, t, c0, k0, sp);
  vp_check(nc == 1 && ip5 == c0 && kp5 == k0 && pd == &p, "P36 neutrons from the given state");
  for (int k = 0; k < B; k++) {
    vp_close(sp[k] * s, w[k], 1e-9, "P36 evaporation spectrum");
    if (k >= k0 && k < nt) vp_close(t[k].ecms, em[k], 0, "P36 energy grid of the spectrum");
    if (k < k0) vp_close(t[k].ecms, 0, 0, "P36 no energy above the start");
  }
}
double mass_excess(int z, int a) {
  nm++;
  bool c = z == ZT && a == (int)AT + 1, t = z == ZT && a == (int)AT;
  vp_check(c || t, "P36 masses of the compound and the target");
  return c ? mx[0] : mx[1];
}
int statSetupEnergyBin(Nucleus *n) {
  int i = n - ncl;
  vp_check(i == nb && i < 2, "P36 energy bins of both nuclei");
  nb++;
  double sn = mx[1] + 8.071431 - mx[0], m = AT + mx[1] / 931.4943335, ec = elab * m / (m + 1.00866491578);
  vp_close(n->max_energy, i ? ec : sn + ec, 1e-6, "P36 highest energies of compound and target");
  n->ntotal = n->ncont = bins[i];
  order = 2;
  return bins[i];
}
void preqExcitonModel(Nucleus *n, System *s, Pdata *p, Transmission **t, double **spc) {
  vp_check(order == 3 && n == ncl, "P36 cross sections before the exciton model");
  double sn = mx[1] + 8.071431 - mx[0], m = AT + mx[1] / 931.4943335;
  vp_close(s->lab_energy, elab, 0, "P36 incident energy");
  vp_close(s->ex_total, sn + elab * m / (m + 1.00866491578), 1e-6, "P36 excitation energy of the compound");
  vp_check(s->target.getZ() == ZT && s->target.getA() == AT, "P36 target");
  vp_check(s->compound.getZ() == ZT && s->compound.getA() == AT + 1, "P36 compound");
  vp_check(s->incident.particle.getZ() == 0 && s->incident.particle.getA() == 1, "P36 incident neutron");
  vp_check(p[neutron].omp == 6u << 8 && p[neutron].particle.getA() == 1, "P36 neutron potential");
  vp_close(p[neutron].spin, 0.5, 0, "P36 neutron spin");
  vp_close(p[neutron].mass, 1.00866491578, 1e-12, "P36 neutron mass");
  vp_check(n[0].cdt[neutron].status && n[0].cdt[neutron].next == 1, "P36 neutron channel open");
  vp_close(n[0].cdt[neutron].binding_energy, sn, 1e-9, "P36 separation energy");
  vp_close(n[1].mass, m, 1e-9, "P36 mass of the residual nucleus");
  for (int k = 0; k < B; k++) {
    vp_close(t[neutron][k].ecms, em[k], 0, "P36 cross sections given to the exciton model");
    vp_close(spc[neutron][k], 0, 0, "P36 spectrum cleared");
    if (k < bins[1]) spc[neutron][k] = raw[k];
  }
}
ENTRY(preequilibrium) {
  setup(2);
  ZT = 92 + 2 * vp_choose("element", 0, 1), AT = ZT == 92 ? 235 : 239;
  mx[0] = vp_real("compoundMass", 40, 50), mx[1] = vp_real("targetMass", 38, 48), elab = vp_real("energy", 5, 20);
  double sn = mx[1] + 8.071431 - mx[0];
  vp_assume(sn > 2 && sn < 10);
  bins[0] = 4, bins[1] = vp_choose("bins", 1, B);
  double s = 0, *spc[MAX_CHANNEL];
  bool some = vp_choose("some", 0, 1);
  for (int j = 0; j < MAX_CHANNEL; j++) {
    spc[j] = new double[B];
    for (int k = 0; k < B; k++) spc[j][k] = vp_real("old", -1, 1);
  }
  for (int k = 0; k < B; k++) {
    em[k] = vp_real("en", 0, 15), sg[k] = 1;
    raw[k] = some ? vp_real("rate", 0.001, 10) : 0;
    if (k < bins[1]) s += raw[k];
  }
  excitonInterface(ZT, (int)AT, elab, spc);
  vp_check(nc == 1 && ip5 == 0 && kp5 == 0, "P36 cross sections of the residual nucleus");
  vp_check(za5.getA() == 1 && za5.getZ() == 0, "P36 cross sections of a neutron");
  vp_check(nb == 2, "P36 energy bins of both nuclei");
  for (int k = 0; k < B; k++) {
    vp_close(spc[neutron][k] * (some ? s : 1), k < bins[1] ? raw[k] : 0, 1e-9, "P36 pre-equilibrium spectrum normalised");
    vp_close(spc[gammaray][k], 0, 0, "P36 no pre-equilibrium photons");
  }
}
#endif

// ------------------------------------------------------------ exciton model
#if defined(VP_EXM)
static double lz[2][2][4], om0[2][2], omr[2][2], pop5[2][2], W[2][2][3], ex5, R[3], EC[3], SG[3];
static int npop, z5, n5;
static double elab5;
double preqStateDensity(double e, SPdens *s, Exconf *c) {
  // stub: density of four configurations, none for the others
  vp_check(c->zp == c->zh, "P36 proton particles and holes in pairs");
  int i = c->zh, j = c->nh, d = c->np - c->nh;
  vp_check(d == 1 || d == 0, "P36 neutron particles and holes");
  vp_close(s->gz, z5 / 19.2, 1e-9, "P36 proton state density");
  if (i > 1 || j > 1) return 0;
  if (d == 1) {
    vp_close(e, ex5, 0, "P36 energy of the compound");
    vp_close(s->gn, (n5 + 1) / 19.2, 1e-9, "P36 neutron state density of the compound");
    return om0[i][j];
  }
  vp_close(s->gn, n5 / 19.2, 1e-9, "P36 neutron state density of the residual nucleus");
  for (int k = 0; k < 3; k++) if (e == R[k]) return omr[i][j] * k;
  vp_check(false, "P36 energies of the residual nucleus");
  return 0;
}
double preqMSquare(int a, int n, Preeq *q) {
  vp_check(a == z5 + n5 + 1, "P36 mass number of the compound");
  q->m2zz = q->m2nn = n, q->m2zn = q->m2nz = 1.5 * n;
  return n;
}
static double lambda5(Preeq *q, Exconf *e, int k) {
  int i = e->zh, j = e->nh;
  vp_check(i < 2 && j < 2 && e->zp == i && e->np == j + 1, "P36 configuration");
  if (i > 1 || j > 1) return 0;
  vp_close(q->m2zz, 2 * (i + j) + 1, 0, "P36 matrix element of the configuration");
  vp_close(q->omega_total, om0[i][j], 0, "P36 density of the configuration");
  return lz[i][j][k];
}
double preqLambdaPlusZ(Preeq *q, Exconf *e) { return lambda5(q, e, 0); }
double preqLambdaPlusN(Preeq *q, Exconf *e) { return lambda5(q, e, 1); }
double preqLambdaZeroZ(Preeq *q, Exconf *e) { return lambda5(q, e, 2); }
double preqLambdaZeroN(Preeq *q, Exconf *e) { return lambda5(q, e, 3); }
static double width5(int i, int j) { return W[i][j][1] + W[i][j][2]; }
void preqPOccupation(double **p, double **t1, double **t2, double **zp, double **np, double **z0, double **n0) {
  npop++;
  for (int i = 0; i < MAX_PREEQ; i++) for (int j = 0; j < MAX_PREEQ; j++) {
    bool in = i < 2 && j < 2 && om0[i][j] > 0;
    double a = in ? lz[i][j][0] : 0, b = in ? lz[i][j][1] : 0, c = in ? lz[i][j][2] : 0, d = in ? lz[i][j][3] : 0;
    vp_close(zp[i][j], a, 0, "P36 rate of creating a proton pair");
    vp_close(np[i][j], b, 0, "P36 rate of creating a neutron pair");
    vp_close(z0[i][j], c, 0, "P36 rate of converting a proton pair");
    vp_close(n0[i][j], d, 0, "P36 rate of converting a neutron pair");
    vp_close(t1[i][j] * (in ? a + b + c + d + width5(i, j) : 1), in, 1e-6, "P36 lifetime of a configuration");
    vp_close(t2[i][j] * (in ? a + b + width5(i, j) : 1), in, 1e-6, "P36 lifetime without exchange");
    p[i][j] = in ? pop5[i][j] : 0;
  }
}
ENTRY(model) {
  MAX_ENERGY_BIN = 3, MAX_J = 2, MAX_LEVELS = 2;
  ncl = new Nucleus[2];
  z5 = vp_choose("Z", 92, 93), n5 = 144;
  ncl[0].za.setZA(z5, z5 + n5 + 1), ncl[1].za.setZA(z5, z5 + n5);
  Pdata pdt[MAX_CHANNEL];
  pdt[neutron].particle.setZA(0, 1), pdt[neutron].spin = 0.5, pdt[neutron].mass = 1.00866491578;
  System sys;
  sys.target.setZA(z5, z5 + n5), sys.compound.setZA(z5, z5 + n5 + 1), sys.incident = pdt[neutron];
  sys.ex_total = ex5 = vp_real("ex", 10, 25), sys.lab_energy = elab5 = 10;
  ncl[0].cdt[gammaray].status = true, ncl[0].cdt[gammaray].next = 0;
  bool open = vp_choose("open", 0, 1);
  int what = vp_choose("unknown", 0, 2); // rates, densities or cross sections
  ncl[0].cdt[neutron].status = open, ncl[0].cdt[neutron].next = open ? 1 : -1;
  ncl[1].mass = z5 + n5 + 0.05, ncl[1].de = 0.1, ncl[1].ntotal = 3;
  Transmission *tc[MAX_CHANNEL], tn[3], tg[3];
  tc[gammaray] = tg, tc[neutron] = tn;
  double spg[3], spn[3], *spc[MAX_CHANNEL], old[3];
  spc[gammaray] = spg, spc[neutron] = spn;
  double mu = ncl[1].mass * pdt[neutron].mass / (ncl[1].mass + pdt[neutron].mass);
  // m c^2 / (pi^2 hbar^2 c^2), per millibarn
  double c = 2 * mu * 931.4943335 / (4.33243296e-43 * 8.98755179e+46 * 10 * 3.14159265358979 * 3.14159265358979);
  for (int k = 0; k < 3; k++) {
    R[k] = ncl[1].excitation[k] = 9.0 - k;
    EC[k] = tn[k].ecms = k == 1 && what == 2 ? vp_real("energy", 0, 15) : k ? 4 + k : 0, SG[k] = tn[k].sigr = k == 1 && what == 2 ? vp_real("sigma", 0.1, 2000) : 1800 + 50 * k;
    old[k] = spn[k] = 0.25 * k, spg[k] = 0;
  }
  int which = vp_choose("density", 0, 2), fc = vp_choose("free", 0, 3); // one configuration with unknown rates
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
    bool fr = fc == 2 * i + j;
    om0[i][j] = i + j == 2 && which == 1 ? 0 : fr && what == 1 ? vp_real("omega", 0.1, 100) : 1 + 3 * i + j;
    omr[i][j] = i == 0 && j == 1 && which == 2 ? 0 : fr && what == 1 ? vp_real("omegaResidual", 0.1, 100) : 2 + i + 2 * j;
    pop5[i][j] = fr && what == 0 ? vp_real("population", 0, 1) : 0.5 + 0.1 * i + 0.25 * j;
    for (int k = 0; k < 4; k++) lz[i][j][k] = fr && what == 0 ? vp_real("rate", 0.001, 1) : 0.01 * (i + 2 * j + k + 1);
    for (int k = 1; k < 3; k++) W[i][j][k] = open && om0[i][j] > 0 ? 0.1 * c * EC[k] * SG[k] * omr[i][j] * k / om0[i][j] : 0;
  }
  preqExcitonModel(ncl, &sys, pdt, tc, spc);
  vp_check(npop == 1, "P36 occupation computed");
  for (int k = 0; k < 3; k++) {
    double s = old[k];
    if (k > 0 && open)
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (om0[i][j] > 0)
        s += W[i][j][k] / 0.1 * pop5[i][j] / (lz[i][j][0] + lz[i][j][1] + lz[i][j][2] + lz[i][j][3] + width5(i, j));
    vp_close(spn[k], s, 1e-6, "P36 pre-equilibrium spectrum");
  }
}
#endif

// ------------------------------------------------------------ parameters
#if defined(VP_EXP)
static double choose5(int n, int k) {
  double r = 1;
  for (int i = 1; i <= k; i++) r = r * (n - k + i) / i;
  return r;
}
static double pauli5(int a, int b, int c, int d, double gz, double gn) {
  double p = max(a, b), n = max(c, d);
  return (p * p - (a * a + b * b + a + b) / 4.0) / gz + (n * n - (c * c + d * d + c + d) / 4.0) / gn;
}
ENTRY(constants) {
  int z = vp_choose("Z", 90, 94), a = vp_choose("A", 231, 232) + vp_choose("pairs", 0, 4) * 2, n = a - z;
  vp_close(preqSingleStateDensity(z) * 19.2, z, 1e-9, "P36 single-particle state density");
  double d = (z % 2 == 0) + (n % 2 == 0);
  vp_close(preqPairingDelta(z, a) * sqrt((double)a), d * 12, 1e-9, "P36 pairing energy");
}
ENTRY(blocking) {
  int a = vp_choose("zp", -1, 3), b = vp_choose("zh", -1, 3), c = vp_choose("np", -1, 3), d = vp_choose("nh", -1, 3);
  double gz = vp_real("gz", 2, 8), gn = vp_real("gn", 2, 10);
  double want = a < 0 || b < 0 || c < 0 || d < 0 ? 0 : pauli5(a, b, c, d, gz, gn);
  vp_close(preqPauliCorrection(a, b, c, d, gz, gn), want, 1e-9, "P36 blocking by the exclusion principle");
}
ENTRY(elements) {
  Preeq q;
  double x = q.ex_total = vp_real("ex", 5, 30);
  int n = 1 + 2 * vp_choose("n", 0, 5);
  static const int As[3] = {233, 236, 240};
  double A = As[vp_choose("A", 0, 2)], e = x / n + 10.7;
  preqMSquare((int)A, n, &q);
  vp_close(q.m2zz * A * A * A * e * e * e, 6.8 * e * e * e + 4.2e5, 1e-6, "P36 matrix element");
  vp_close(q.m2nn, q.m2zz, 1e-12, "P36 matrix element of neutrons");
  vp_close(q.m2zn / q.m2zz, 1.5, 1e-9, "P36 matrix element of unlike nucleons");
  vp_close(q.m2nz, q.m2zn, 1e-12, "P36 matrix element of unlike nucleons");
  double l = vp_real("lab", 0.1, 30), k = 245 * pow(A, -1 / 3.0), e4 = l * l * l * l;
  vp_close(preqPotentialDepth(l, 0, (int)A) * (e4 + k * k * k * k), 12 * (e4 + k * k * k * k) + 26 * e4, 1e-3, "P36 well depth");
}
ENTRY(pairing) {
  SPdens s;
  s.gz = 4.8, s.gn = 7.5;
  s.pairing = vp_choose("kind", 0, 2) * 0.78;
  int n = 1 + vp_choose("n", 0, 6);
  double x = vp_real("ex", 0.1, 25), got = preqPairingCorrection(n, x, &s);
  if (s.pairing == 0) vp_close(got, 0, 0, "P36 no pairing correction of odd nuclei");
  else {
    double nc = 2 * log(2.0) * 12.3 * 4 * sqrt(s.pairing / 12.3) / 3.5, r = x / s.pairing, t = 0.716 + 2.44 * pow(n / nc, 2.17);
    if (r < t * 0.999) vp_close(got, s.pairing, 1e-9, "P36 full pairing correction at low energy");
    else if (r > t * 1.001) {
      double g = 0.996 - 1.76 * pow(n / nc, 1.6) * pow(r, -0.68);
      vp_close(got, s.pairing * (1 - g * g), 1e-6, "P36 pairing correction");
    }
  }
}
static double steps5(int n, int h, double ex, double v) {
  double x = 1;
  for (int i = 1; i <= h; i++) if (ex > i * v) {
    double t = i % 2 ? -choose5(h, i) : choose5(h, i), b = 1 - i * v / ex;
    for (int k = 1; k < n; k++) t *= b;
    x += t;
  }
  return x;
}
ENTRY(deepWell) {
  int h = vp_choose("h", 0, 4), n = max(1, 2 * h + vp_choose("odd", 0, 1));
  double x = vp_real("ex", 0.1, 120), v = h > 1 ? vp_real("v", 5, 45) : 38;
  vp_close(preqFiniteWell(n, h, x, v), steps5(n, h, x, 38), 1e-4, "P36 well of finite depth");
}
ENTRY(shallowWell) {
  int n = vp_choose("n", 2, 4), h = vp_choose("h", 0, 1);
  double x = vp_real("ex", 0.1, 60), v = 12 + 6 * vp_choose("v", 0, 3), w = v * (38 - v) / 76, q = 0, s = 0;
  for (int p = -4; p <= 4; p++) {
    double u = v + p * w;
    if (u < 0 || u > 38) continue;
    double f = 1 / (1 + exp((v - u) / w)) / (1 + exp((u - v) / w));
    q += f, s += f * steps5(n, h, x, u);
  }
  double want = s / q;
  vp_close(preqFiniteWell(n, h, x, v), want < 0 ? 0 : want, 1e-4, "P36 well at the surface");
}
ENTRY(oneHole) {
  double x = vp_real("ex", 0.1, 60), v = 12 + 6 * vp_choose("v", 0, 3), w = v * (38 - v) / 76;
  double got = preqFiniteWell(1, 1, x, v);
  if (x > 1.16 * 38) vp_close(got, 0, 0, "P36 no hole below the well");
  else if (x < v) vp_close(got, 1, 0, "P36 hole inside the well");
  else vp_close(got * (1 + exp((x - v) / w)), 1, 1e-6, "P36 hole at the bottom of the well");
}
ENTRY(stateDensity) {
  int a = vp_choose("zp", -1, 2), b = vp_choose("zh", -1, 2), c = vp_choose("np", -1, 2), d = vp_choose("nh", 0, 2);
  SPdens s;
  s.gz = 4.8, s.gn = vp_choose("gn", 0, 1) ? 7.5 : 8, s.pairing = 0, s.well_depth = 100;
  double x = vp_real("ex", -1, 25);
  Exconf e(a, b, c, d);
  double got = preqStateDensity(x, &s, &e);
  int n = a + b + c + d, h = b + d;
  if (a < 0 || b < 0 || c < 0 || n == 0) {
    vp_close(got, 0, 0, "P36 no states without excitons");
    return;
  }
  double u = x - pauli5(a, b, c, d, s.gz, s.gn), f = 1;
  static const double fac[10] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880};
  if (x <= 0 || u < 0) {
    vp_close(got, 0, 0, "P36 no states below the Pauli energy");
    return;
  }
  for (int i = 0; i < a + b; i++) f *= s.gz;
  for (int i = 0; i < c + d; i++) f *= s.gn;
  f /= fac[a] * fac[b] * fac[c] * fac[d] * fac[n - 1];
  for (int i = 1; i < n; i++) f *= u;
  if (u > 0.001) vp_close(got / f, 1, 1e-4, "P36 density of particle-hole states");
  else vp_close(got, f, 1e-2, "P36 density of particle-hole states");
}
ENTRY(stateDensityWell) {
  SPdens s;
  s.gz = 4.8, s.gn = 7.5, s.pairing = 0.78 * vp_choose("pairing", 0, 2), s.well_depth = 18;
  int k = vp_choose("configuration", 0, 3);
  static const int cs[4][4] = {{0, 0, 2, 1}, {1, 1, 1, 0}, {1, 1, 2, 1}, {1, 0, 1, 1}};
  Exconf e(cs[k][0], cs[k][1], cs[k][2], cs[k][3]);
  int n = e.zp + e.zh + e.np + e.nh, h = e.zh + e.nh;
  double x = 2 + 4 * vp_choose("energy", 0, 5) + 0.1 * vp_choose("part", 0, 2);
  double u = x - preqPairingCorrection(n, x, &s), y = u - pauli5(e.zp, e.zh, e.np, e.nh, s.gz, s.gn), f = 1;
  static const double fac[8] = {1, 1, 2, 6, 24, 120, 720, 5040};
  for (int i = 0; i < e.zp + e.zh; i++) f *= s.gz;
  for (int i = 0; i < e.np + e.nh; i++) f *= s.gn;
  f /= fac[e.zp] * fac[e.zh] * fac[e.np] * fac[e.nh] * fac[n - 1];
  for (int i = 1; i < n; i++) f *= y;
  double got = preqStateDensity(x, &s, &e), want = y < 0 ? 0 : f * preqFiniteWell(n, h, u, 18);
  vp_close(want > 0 ? got / want : got, want > 0, 1e-4, "P36 density of particle-hole states in a finite well");
}
#endif

// ------------------------------------------------------------ transition rates
#if defined(VP_LAM)
// stub: linear state densities of the three configurations of an integrand, so that the integral is known
static double w0, w1, p0, EX;
static int Z, H, N, M;
static double pauli5(int a, int b, int c, int d) { return 0.02 * (a * a + 2 * b * b + 3 * c * c + 4 * d * d) + 0.1; }
double preqPauliCorrection(int a, int b, int c, int d, double gz, double gn) {
  vp_check(gz == 5 && gn == 7, "P36 single-particle densities of the compound");
  return pauli5(a, b, c, d);
}
static const int pc[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
static int slot(int a, int b, int c, int d) { return ((a + 1) * 11 + b + 1) * 121 + (c + 1) * 11 + d + 1; }
static double dens(double x, int a, int b, int c, int d) {
  // any function of energy and configuration that is linear in energy
  int h = slot(a, b, c, d) % 7;
  return (1 + h) * w0 + (3 + h % 3) * (a + b + c + d > 1 ? w1 : 0) * x;
}
double preqStateDensity(double x, SPdens *, Exconf *e) {
  if (e->zp < 0 || e->zh < 0 || e->np < 0 || e->nh < 0) return 0;
  return dens(x, e->zp, e->zh, e->np, e->nh);
}
double preqFiniteWell(int n, int h, double x, double v) {
  vp_check(n == 3 && h == 1 && v == 18, "P36 well for a pair");
  vp_close(x, EX, 0, "P36 well for a pair");
  return p0;
}
static double term(int wa, int wb, int wc, int wd, int pa, int pb, int pc_, int pd_, int ra, int rb, int rc, int rd, double e1, double e2) {
  if (ra < 0 || rb < 0 || rc < 0 || rd < 0) return 0;
  // Gauss-Legendre with two points, exact up to third order
  double m = (e1 + e2) / 2, hh = (e2 - e1) / 2, s = 0, g = hh / sqrt(3.0);
  for (int i = -1; i < 2; i += 2) {
    double x = m + i * g;
    s += dens(x, wa, wb, wc, wd) * dens(x, pa, pb, pc_, pd_) * dens(EX - x, ra, rb, rc, rd);
  }
  return s * hh;
}
static Preeq q5;
static SPdens sp5[2];
static Exconf e5;
static void config(bool one) {
  static const int cs[6][4] = {{1, 1, 1, 0}, {0, 0, 2, 1}, {2, 2, 1, 0}, {1, 1, 2, 1}, {2, 2, 2, 1}, {1, 1, 3, 2}};
  int k = vp_choose("configuration", 0, 5);
  e5.setExconf(cs[k][0], cs[k][1], cs[k][2], cs[k][3]);
  if (one) e5.setExconf(0, 0, 1, 0);
  Z = e5.zp, H = e5.zh, N = e5.np, M = e5.nh;
  sp5[0].gz = 5, sp5[0].gn = 7, sp5[0].well_depth = 18, sp5[1].gz = 1, sp5[1].gn = 1;
  q5.spd = sp5;
  q5.ex_total = EX = vp_real("ex", 5, 25), q5.omega_total = vp_real("omega", 1, 100);
  q5.m2zz = vp_real("zz", 1e-6, 1e-4), q5.m2nn = vp_real("nn", 1e-6, 1e-4), q5.m2zn = vp_real("zn", 1e-6, 1e-4), q5.m2nz = vp_real("nz", 1e-6, 1e-4);
  w0 = vp_real("w0", 0.1, 2), w1 = vp_real("w1", 0.1, 2), p0 = vp_real("well", 0, 1);
}
static const double TWOPI = 6.28318530717958647692;
ENTRY(protonPair) {
  config(false);
  double up = pauli5(Z + 1, H + 1, N, M), s = 0;
  static const int xw[4][4] = {{2, 1, 0, 0}, {1, 2, 0, 0}, {1, 1, 1, 0}, {1, 1, 0, 1}};
  for (int k = 0; k < 4; k++) {
    const int *p = pc[k], *w = xw[k];
    double e = pauli5(Z - p[0], H - p[1], N - p[2], M - p[3]);
    s += TWOPI * (k < 2 ? q5.m2zz : q5.m2nz) * term(w[0], w[1], w[2], w[3], p[0], p[1], p[2], p[3], Z - p[0], H - p[1], N - p[2], M - p[3], up - e, EX - e);
  }
  vp_close(preqLambdaPlusZ(&q5, &e5) * q5.omega_total * 1e3, s * 1e3, 1e-6, "P36 rate of creating a proton pair");
}
ENTRY(neutronPair) {
  config(false);
  double up = pauli5(Z, H, N + 1, M + 1), s = 0;
  static const int xw[4][4] = {{1, 0, 1, 1}, {0, 1, 1, 1}, {0, 0, 2, 1}, {0, 0, 1, 2}};
  for (int k = 0; k < 4; k++) {
    const int *p = pc[k], *w = xw[k];
    double e = pauli5(Z - p[0], H - p[1], N - p[2], M - p[3]);
    s += TWOPI * (k > 1 ? q5.m2nn : q5.m2zn) * term(w[0], w[1], w[2], w[3], p[0], p[1], p[2], p[3], Z - p[0], H - p[1], N - p[2], M - p[3], up - e, EX - e);
  }
  vp_close(preqLambdaPlusN(&q5, &e5) * q5.omega_total * 1e3, s * 1e3, 1e-6, "P36 rate of creating a neutron pair");
}
ENTRY(exchange) {
  config(false);
  double e = pauli5(Z - 1, H - 1, N, M), a = pauli5(Z, H, N, M);
  double s = TWOPI * q5.m2zn * term(0, 0, 1, 1, 1, 1, 0, 0, Z - 1, H - 1, N, M, a - e, EX - e);
  vp_close(preqLambdaZeroZ(&q5, &e5) * q5.omega_total * 1e3, s * 1e3, 1e-6, "P36 rate of converting a proton pair");
  e = pauli5(Z, H, N - 1, M - 1);
  s = TWOPI * q5.m2nz * term(1, 1, 0, 0, 0, 0, 1, 1, Z, H, N - 1, M - 1, a - e, EX - e);
  vp_close(preqLambdaZeroN(&q5, &e5) * q5.omega_total * 1e3, s * 1e3, 1e-6, "P36 rate of converting a neutron pair");
}
ENTRY(first) {
  config(true);
  double e = EX - pauli5(1, 1, 1, 0), z = TWOPI / 4 * 25 * e * e * 2 * 7 * q5.m2zn * p0;
  vp_close(preqLambdaPlusZ(&q5, &e5) * 1e3, z * 1e3, 1e-6, "P36 first proton pair");
  e = EX - pauli5(0, 0, 2, 1), z = TWOPI / 4 * 49 * e * e * 7 * q5.m2nn * p0;
  vp_close(preqLambdaPlusN(&q5, &e5) * 1e3, z * 1e3, 1e-6, "P36 first neutron pair");
}
#endif

// ------------------------------------------------------------ occupation
#if defined(VP_OCC)
static double P[MAX_PREEQ][MAX_PREEQ], T[6][MAX_PREEQ][MAX_PREEQ]; // tau, tap, z+, n+, z0, n0
static double at(int k, int i, int j) { return i < 0 || j < 0 || i >= MAX_PREEQ || j >= MAX_PREEQ ? 0 : T[k][i][j]; }
static double pat(int i, int j) { return i < 0 || j < 0 || i >= MAX_PREEQ || j >= MAX_PREEQ ? 0 : P[i][j]; }
static void occupation5(bool full) {
  double *rows[7][MAX_PREEQ], **q[7];
  int fi = full ? -1 : vp_choose("free", 0, 3), fm = full ? 0 : vp_choose("kind", 1, 6), seed = full ? vp_choose("pattern", 0, 5) : 0;
  for (int m = 0; m < 7; m++) {
    q[m] = rows[m];
    for (int i = 0; i < MAX_PREEQ; i++) {
      rows[m][i] = new double[MAX_PREEQ];
      for (int j = 0; j < MAX_PREEQ; j++) {
        if (m == 0) { rows[m][i][j] = 0; continue; }
        bool fr = i == fi / 2 && j == fi % 2 && m == fm;
        double v = 0.5 + 0.05 * ((7 * m + (3 + seed) * i + 5 * j + i * j) % 11);
        if (full ? i + j == 5 && m > 2 && (i % 2) && seed % 2 : i + j > 2) v = 0;
        if (fr) v = vp_real("rate", 0.1, 2);
        rows[m][i][j] = T[m - 1][i][j] = v;
      }
    }
  }
  preqPOccupation(q[0], q[1], q[2], q[3], q[4], q[5], q[6]);
  P[0][0] = 1;
  for (int s = 1; s < 2 * MAX_PREEQ - 1; s++) for (int i = 0; i < MAX_PREEQ; i++) {
    int j = s - i;
    if (j < 0 || j >= MAX_PREEQ) continue;
    double x1 = pat(i - 1, j) * at(2, i - 1, j) * at(0, i - 1, j), x2 = pat(i, j - 1) * at(3, i, j - 1) * at(0, i, j - 1);
    double x3 = pat(i - 2, j + 1) * at(2, i - 2, j + 1) * at(1, i - 2, j + 1), x5 = pat(i - 1, j) * at(3, i - 1, j) * at(1, i - 1, j);
    double x4 = pat(i + 1, j - 2) * at(3, i + 1, j - 2) * at(1, i + 1, j - 2), x6 = pat(i, j - 1) * at(2, i, j - 1) * at(1, i, j - 1);
    double y1 = at(5, i - 1, j + 1) * at(0, i - 1, j + 1), y2 = at(4, i + 1, j - 1) * at(0, i + 1, j - 1);
    P[i][j] = x1 + x2 + y1 * (x3 + x5) + y2 * (x4 + x6);
  }
  for (int i = 0; i < MAX_PREEQ; i++) for (int j = 0; j < MAX_PREEQ; j++)
    vp_close(rows[0][i][j], P[i][j], 1e-5, "P36 occupation of the configurations");
}
ENTRY(occupation) { occupation5(false); }
ENTRY(occupationFull) { occupation5(true); }
#endif
