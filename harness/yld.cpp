// Mass yields and kinetic energies of the fragments (Yields class, used through its own interface;
// its parameters are set directly instead of being read from the data files)
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace std;
#define private public
#include "Yields.h"
#undef private
#include "config.h"
#include "physics.h"
#include "rngcgm.h"
#include "vp.h"

static Yields *Y;
static int AC;
static const double TWOPI = 6.283185307179586;
static void make(int id) {
  Y = (Yields *)calloc(1, sizeof(Yields));
  Y->numModes = 3;
  Y->id_cn0 = id;
  Y->Acn0 = id % 1000, Y->Zcn0 = id / 1000;
  Y->sf_flag = false;
  Y->rescaleAverageTKE = 1;
}
static double gauss(double x, double w, double m, double s) {
  return w / (sqrt(TWOPI) * s) * exp(-0.5 * (x - m) * (x - m) / s / s);
}
// ---------------------------------------------------------------- mass yield
static void massYield(int acn) {
  make(92000 + acn);
  Y->a_cn = AC = acn;
  Y->w_e[1] = vp_real("w1", 0, 1), Y->w_e[2] = vp_real("w2", 0, 1);
  Y->w_e[0] = 2 - 2 * Y->w_e[1] - 2 * Y->w_e[2];
  Y->Abar[0] = acn / 2.0;
  Y->Abar[1] = vp_real("A1", 125, 150), Y->Abar[2] = vp_real("A2", 125, 150);
  for (int i = 0; i < 3; i++) Y->sig_e[i] = vp_real("sigma", 2, 15);
  int k = vp_choose("k", 0, 7);
  static const int d[] = {-40, -20, -2, -1, 0, 1, 2, 25};
  int a = acn / 2 + d[k];
  double y = Y->yieldA(a), z = Y->yieldA(acn - a);
  vp_close(y, z, 1e-9, "complementary masses have the same yield");
  vp_check(y >= 0, "mass yields are not negative");
  double h = a >= acn / 2 ? a : acn - a, s = gauss(h, Y->w_e[0], acn / 2.0, Y->sig_e[0]);
  for (int m = 1; m < 3; m++)
    s += gauss(h, Y->w_e[m], Y->Abar[m], Y->sig_e[m]) + gauss(h, Y->w_e[m], acn - Y->Abar[m], Y->sig_e[m]);
  if (s > 1.0001e-5) vp_close(y, s, 1e-8, "mass yield is the sum of the five Gaussians");
  if (s < 0.9999e-5) vp_check(y == 0, "yields below 1e-5 are dropped");
  vp_observe("y", y);
  vp_reach("end");
}
VP_HARNESS(yieldEven) { massYield(236); }
VP_HARNESS(yieldOdd) { massYield(239); }

// ---------------------------------------------------------------- parameters of the fissioning system
static double num(double lo, double hi) { return vp_real("par", lo, hi); }
static void params() {
  for (int i = 0; i < 4; i++) {
    for (int m = 1; m < 3; m++) {
      Y->w_a[i][m] = num(-30, 30), Y->w_b[i][m] = num(1, 30);
      Y->mu_a[i][m] = num(130, 145), Y->mu_b[i][m] = num(-0.3, 0.3);
    }
    for (int m = 0; m < 3; m++) Y->sig_a[i][m] = num(3, 12), Y->sig_b[i][m] = num(0, 0.2);
    for (int j = 0; j < 5; j++) Y->tke_params[i][j] = j == 4 ? num(0, 5) : j % 2 ? num(-0.5, 0.5) : num(160, 190);
    for (int j = 0; j < 11; j++) Y->tkea_coeff[i][j] = 1000 * i + j, Y->stkea_coeff[i][j] = 10000 + 1000 * i + j;
  }
}
VP_HARNESS(system) {
  make(92236);
  params();
  int n = vp_choose("emitted", 0, 3);
  bool sy = n == 0 || vp_choose("yieldsKnown", 0, 1), st = n == 0 || vp_choose("tkeKnown", 0, 1);
  for (int i = 0; i < 4; i++) Y->NFsupp_YA[i] = i == n ? sy : i == 0, Y->NFsupp_TKE[i] = i == n ? st : i == 0;
  double e = vp_real("E", 0, 20);
  Y->setFissioningSystem(92236 - n, e);
  int ac = 236 - n, iy = sy ? n : 0, it = st ? n : 0;
  vp_check(Y->a_cn == ac, "mass of the fissioning nucleus");
  vp_close(Y->w_e[0] + 2 * Y->w_e[1] + 2 * Y->w_e[2], 2, 1e-9, "mode weights add up to two fragments");
  vp_close(Y->Abar[0], ac / 2.0, 1e-9, "the symmetric mode is centred on half the mass");
  for (int m = 1; m < 3; m++) {
    vp_check(Y->w_e[m] > 0 && Y->w_e[m] < 1, "mode weight between 0 and 1");
    vp_close(Y->w_e[m] * (1 + exp((e - Y->w_a[iy][m]) / Y->w_b[iy][m])), 1, 1e-7, "mode weight is a Fermi function of the energy");
    vp_close(Y->sig_e[m], Y->sig_a[iy][m] + Y->sig_b[iy][m] * e, 1e-9, "mode width linear in energy");
    vp_close(Y->Abar[m], Y->mu_a[iy][m] + Y->mu_b[iy][m] * e - (sy ? 0 : n), 1e-9,
             "mode mean linear in energy, shifted by the neutrons lost when borrowed from the first chance");
  }
  vp_close(Y->sig_e[0], Y->sig_a[iy][0] + Y->sig_b[iy][0] * e, 1e-9, "width of the symmetric mode uses its own energy slope");
  double s0 = Y->sig_e[0] - Y->sig_a[iy][0];
  vp_check((s0 <= Y->sig_b[iy][0] * e + 1e-9 && s0 >= Y->sig_b[iy][0] * e - 1e-9) ||
               (s0 <= Y->sig_b[iy][1] * e + 1e-9 && s0 >= Y->sig_b[iy][1] * e - 1e-9),
           "width of the symmetric mode linear in energy");
  for (int j = 0; j < 11; j++)
    vp_check(Y->TKEA_fit_param[j] == Y->tkea_coeff[it][j] && Y->sTKEA_fit_param[j] == Y->stkea_coeff[it][j],
             "mass dependence of the kinetic energy from the same chance, else from the first");
  double t = Y->averageTKE(e), w;
  if (st) {
    w = e <= Y->tke_params[it][4] ? Y->tke_params[it][0] + Y->tke_params[it][1] * e : Y->tke_params[it][2] + Y->tke_params[it][3] * e;
    vp_close(t, w, 1e-8, "average kinetic energy: two straight lines meeting at the tabulated energy");
  } else {
    vp_close(t, Y->ViolaSyst(92236 - n) - 0.25 * e, 1e-8, "average kinetic energy from the systematics when not tabulated");
  }
  vp_reach("end");
}
// ---------------------------------------------------------------- total kinetic energy
static double R[8];
static int nR;
static double rnd() {
  vp_assume(nR < 4);
  return R[nR++] = vp_rand();
}
static void tkeSetup(int acn) {
  make(92000 + acn);
  Y->a_cn = AC = acn;
  Y->einc_now = vp_real("E", 0, 20);
  Y->TKE_fit_param[0] = vp_real("TKE0", 150, 190), Y->TKE_fit_param[1] = vp_real("slope", -0.5, 0.5);
  Y->TKEA_fit_param[0] = 130, Y->TKEA_fit_param[1] = acn / 2 + 6;
  Y->sTKEA_fit_param[0] = 130, Y->sTKEA_fit_param[1] = acn / 2 + 5;
  for (int j = 0; j < 9; j++) {
    double sc = j < 3 ? 1 : 8; // the higher orders stay small over the masses used
    for (int k = 2; k < j; k++) sc *= 8;
    Y->TKEA_fit_param[2 + j] = j == 0 ? vp_real("c0", 150, 190) : vp_real("c", -1, 1) / sc;
    Y->sTKEA_fit_param[2 + j] = j == 0 ? vp_real("s0", 6, 12) : vp_real("s", -0.01, 0.01) / sc;
  }
}
static double poly(const double *p, double x) {
  double s = 0, t = 1;
  for (int j = 0; j < 9; j++) s += p[2 + j] * t, t *= x - p[0];
  return s;
}
static double mean(int a) { return a <= AC / 2 + 6 ? poly(Y->TKEA_fit_param, a) : 140; }
static double width(int a) { return a <= AC / 2 + 5 ? poly(Y->sTKEA_fit_param, a) : 7; }
static void rescale(int acn) {
  tkeSetup(acn);
  double y[300] = {0};
  int lo = acn / 2 - 7, hi = acn - lo;
  for (int a = lo; a <= hi; a++) y[a] = 0.02;
  double t0 = vp_real("y", 0.001, 0.1), t1 = vp_real("y", 0.001, 0.1), t2 = vp_real("y", 0.001, 0.1);
  y[lo] = y[hi] = t0, y[lo + 3] = y[hi - 3] = t1, y[acn / 2] = y[acn - acn / 2] = t2;
  for (int a = lo; a <= hi; a++) vp_assume(mean(a > acn - a ? a : acn - a) > 50);
  Y->setRescaleTKE(y, lo, hi);
  double s = 0;
  for (int a = lo; a <= hi; a++) s += y[a] * Y->get_avTKE(a);
  vp_close(s, Y->TKE_fit_param[0] + Y->TKE_fit_param[1] * Y->einc_now, 1e-6,
           "yield-weighted kinetic energy = average kinetic energy at this energy");
  for (int a = acn - acn / 2; a <= hi; a++) {
    vp_close(Y->get_avTKE(a), Y->get_avTKE(acn - a), 1e-9, "complementary masses have the same kinetic energy");
    vp_close(Y->get_avTKE(a), Y->rescaleAverageTKE * mean(a), 1e-6, "mean kinetic energy from the tabulated polynomial");
  }
  vp_reach("end");
}
VP_HARNESS(rescaleEven) { rescale(236); }
VP_HARNESS(rescaleOdd) { rescale(239); }
static void sample(int acn) {
  tkeSetup(acn);
  double y[300] = {0};
  int lo = acn / 2 - 6, hi = acn - lo;
  for (int a = lo; a <= hi; a++) y[a] = 0.05;
  for (int j = 1; j < 9; j++) Y->TKEA_fit_param[2 + j] = 0; // flat: the scale factor is simple
  Y->setRescaleTKE(y, lo, hi);
  int k = vp_choose("mass", 0, 5);
  int a = acn - acn / 2 + k, b = vp_choose("side", 0, 1) ? acn - a : a;
  rng_cgm = rnd;
  double t = Y->sampleTKE(b);
  double u = 2 * R[nR - 2] - 1, v = 2 * R[nR - 1] - 1, q = u * u + v * v;
  vp_check(q > 0 && q < 1, "the pair of numbers used lies in the unit disc");
  double f = sqrt(-2.0 * log(q) / q), m = Y->get_avTKE(a);
  vp_close(t, m + width(a) * u * f, 1e-5, "normal deviate around the mean of the mass with the width of the mass");
  if (nR == 4) {
    double p = (2 * R[0] - 1) * (2 * R[0] - 1) + (2 * R[1] - 1) * (2 * R[1] - 1);
    vp_check(p == 0 || p >= 1, "only pairs outside the unit disc are drawn again");
  }
  vp_observe("t", t);
  vp_reach("end");
}
VP_HARNESS(sampleEven) { sample(236); }
VP_HARNESS(sampleOdd) { sample(239); }
// ---------------------------------------------------------------- parameter lines of the data files
VP_HARNESS(lines) {
  make(92236);
  int i = vp_choose("chance", 0, 3);
  Y->LoadYAParams("92236 -6.5 6.25 133.75 -0.25 3.125 0.0625 -7.5 -6.125 140.875 -0.375 4.5 0.1875 9.875 0.03125", i);
  Y->LoadTKEParams("92236 170.5 1.25 0.5 -0.375 130 160 1 2 3 4 5 6 7 8 9 131 161 11 12 13 14 15 16 17 18 19", i);
  vp_check(Y->NFsupp_YA[i] && Y->NFsupp_TKE[i], "the chance is marked as tabulated");
  for (int k = 0; k < 4; k++)
    if (k != i) vp_check(!Y->NFsupp_YA[k] && !Y->NFsupp_TKE[k], "other chances stay as they were");
  double e = vp_real("E", 0, 20);
  if (i != 0) Y->NFsupp_YA[0] = Y->NFsupp_TKE[0] = false;
  Y->setFissioningSystem(92236 - i, e);
  vp_close(Y->Abar[1], 133.75 - 0.25 * e, 1e-9, "first mode mean");
  vp_close(Y->Abar[2], 140.875 - 0.375 * e, 1e-9, "second mode mean");
  vp_close(Y->sig_e[1], 3.125 + 0.0625 * e, 1e-9, "first mode width");
  vp_close(Y->sig_e[2], 4.5 + 0.1875 * e, 1e-9, "second mode width");
  vp_close(Y->sig_a[i][0], 9.875, 1e-9, "symmetric mode width");
  vp_close(Y->sig_b[i][0], 0.03125, 1e-9, "symmetric mode slope");
  vp_close(Y->w_e[1] * (1 + exp((e + 6.5) / 6.25)), 1, 1e-7, "first mode weight");
  vp_close(Y->w_e[2] * (1 + exp((e + 7.5) / -6.125)), 1, 1e-7, "second mode weight");
  double want = e <= 1.25 ? 170.5 + 0.5 * e : 170.5 + 0.5 * 1.25 - 0.375 * (e - 1.25);
  vp_close(Y->averageTKE(e), want, 1e-8, "average kinetic energy continuous at the change of slope");
  for (int j = 0; j < 9; j++)
    vp_check(Y->TKEA_fit_param[2 + j] == 1 + j && Y->sTKEA_fit_param[2 + j] == 11 + j, "coefficients in order");
  vp_check(Y->TKEA_fit_param[0] == 130 && Y->TKEA_fit_param[1] == 160 && Y->sTKEA_fit_param[0] == 131 && Y->sTKEA_fit_param[1] == 161,
           "expansion point and largest mass");
  vp_reach("end");
}
// ---------------------------------------------------------------- parameter files (fixture tables)
VP_HARNESS(files) {
  char here[512];
  strcpy(here, __FILE__);
  char *p = here + strlen(here);
  while (p[-1] != '/') p--;
  strcpy(p, "data/");
  datadir = here;
  bool sf = vp_choose("spontaneous", 0, 1), pu = vp_choose("plutonium", 0, 1);
  int id = pu ? 94240 : 92236;
  Y = new Yields(id, sf);
  // uranium: nothing tabulated after two neutrons; plutonium: nothing after one and three
  static const int row[2][4] = {{1, 2, 0, 3}, {4, 0, 9, 0}};
  int n = sf ? 0 : vp_choose("emitted", 0, 3), first = pu ? 4 : 1, has = sf ? (pu ? 6 : 5) : row[pu][n];
  int k = has ? has : first, kt = has, shift = has ? 0 : n;
  double e = sf ? 0.0 : vp_real("E", 0, 20);
  Y->setFissioningSystem(id - n, e);
  vp_close(Y->Abar[1], 130 + k + 0.125 * e - shift, 1e-9, "first mode mean of the fissioning nucleus");
  vp_close(Y->Abar[2], 140 + k - 0.125 * e - shift, 1e-9, "second mode mean of the fissioning nucleus");
  vp_close(Y->sig_e[1], 3 + 0.5 * k + 0.0625 * e, 1e-9, "first mode width of the fissioning nucleus");
  vp_close(Y->sig_e[2], 4 + 0.5 * k + 0.03125 * e, 1e-9, "second mode width of the fissioning nucleus");
  vp_close(Y->w_e[1] * (1 + exp((e + 10 + k) / -8)), 1, 1e-7, "first mode weight of the fissioning nucleus");
  if (kt)
    vp_close(Y->averageTKE(e), e <= 1 ? 170 + kt + 0.5 * e : 170 + kt + 0.5 - 0.25 * (e - 1), 1e-8, "average kinetic energy of the fissioning nucleus");
  else
    vp_close(Y->averageTKE(e), Y->ViolaSyst(id - n) - 0.25 * e, 1e-8, "average kinetic energy from the systematics when not tabulated");
  int c = k;
  vp_check(Y->TKEA_fit_param[2] == 160 + c && Y->TKEA_fit_param[10] == c && Y->sTKEA_fit_param[2] == 8 + c && Y->sTKEA_fit_param[10] == -c,
           "mass dependence of the kinetic energy of the fissioning nucleus, else of the initial one");
  vp_reach("end");
}
