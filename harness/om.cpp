// Spherical optical model for the emitted neutron: potential parameters and radial form, wave functions
// inside and outside the nucleus, matching and transmission coefficients (P33, P34).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
using namespace std;
#include "physics.h"
#include "optical.h"
#include "etc.h"
#include "cgm.h"
#include "vp.h"
#define ENTRY(n) static void n##_entry(); VP_HARNESS(n) { n##_entry(); vp_reach("end"); } static void n##_entry()

struct C {
  double r, i;
};
static C operator*(C a, C b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static C operator*(double x, C b) { return {x * b.r, x * b.i}; }
static C operator-(C a, C b) { return {a.r - b.r, a.i - b.i}; }
static C operator+(C a, C b) { return {a.r + b.r, a.i + b.i}; }
static C conj_(C a) { return {a.r, -a.i}; }
static C of(const Complex &z) { return {z.real, z.imag}; }
static C sc(const char *n, double m) { return {vp_real(n, -m, m), vp_real(n, -m, m)}; }
static void same(C a, C b, double tol, const char *l) {
  vp_close(a.r, b.r, tol, l);
  vp_close(a.i, b.i, tol, l);
}

#ifdef VP_OMCALC
// ------------------------------------------------------------ assembly of the coefficients
static double EN, MU, S2[3][2];
static C sm[3][2], ext[4], der[4];
static int LM, calls, curl, curj, seen[3][2], cut;
static double RHO;
void omSetEnergy(double e, int zz, double mu, CCdata *c) {
  vp_close(e, EN, 0, "P33 energy of the neutron");
  vp_close(mu, MU, 0, "P33 reduced mass");
  vp_check(zz == 0, "P33 neutrons feel no Coulomb field");
  c->energy = e, c->reduced_mass = mu, c->wavesq = 0.25, c->coulomb = c->coulomb_scat0 = 0;
}
void omInitOmp(Optical *) {}
unsigned int omSetOmp(unsigned int f, double e, int z0, int a0, int z1, int a1, Optical *) {
  vp_check(f == (6u << 8), "P33 potential chosen for the particle");
  vp_close(e, EN, 0, "P33 potential at the neutron energy");
  vp_check(z0 == 40 && a0 == 97, "P33 potential of the residual nucleus");
  vp_check(z1 == 0 && a1 == 1, "P33 potential of a neutron");
  return (6u << 8) | 0x13;
}
int omPotentialForm(unsigned int f, int zz, Optical *, CCdata *, Potential *p) {
  vp_check((f & 0xff) == 0x13, "P33 form of the potential");
  vp_check(zz == 0, "P33 neutrons feel no Coulomb field");
  p->n_match = 9, p->rad_match = 6 * p->width, p->rho_match = RHO;
  return 9;
}
int omPotentialFixedLength(int n, unsigned int, int, Optical *, CCdata *, Potential *) { return n; }
double omPotentialRadialCoulomb(double, Optical *) { return 0; }
int omExternalFunction(int, double rho, double eta, double, Wavefunc *w) {
  vp_close(rho, RHO, 1e-9, "P33 matching at rho = kr");
  vp_check(eta == 0, "P33 neutrons feel no Coulomb field");
  for (int l = 0; l <= LM; l++) {
    w->external[l].real = ext[l].r, w->external[l].imag = ext[l].i;
    w->extderiv[l].real = der[l].r, w->extderiv[l].imag = der[l].i;
  }
  return LM;
}
int omExternalClosed(int, double, double, Wavefunc *) { return 0; }
void omInternalFunction(int n, double, double k2, double xl, double xs, double xj, Potential *p, Wavefunc *) {
  vp_check(n == 9 && p->n_match == 9, "P33 integration up to the matching point");
  vp_close(k2, 0.25, 1e-12, "P33 wave number");
  vp_check(xs == 0.5, "P33 spin of the neutron");
  curl = (int)xl, curj = xj > xl ? 0 : 1;
  vp_check(xj == xl + (curj ? -0.5 : 0.5) && xj > 0, "P33 j = l+1/2 or l-1/2");
  calls++;
}
Complex omSmatrix(int n, double, double, Complex *a, Complex *b, Wavefunc *) {
  vp_check(n == 9, "P33 matching point");
  // a = rho (G'+iF')/(G+iF), b = (G-iF)/(G+iF)
  same(of(*a) * ext[curl], RHO * der[curl], 1e-6, "P33 logarithmic derivative of the outgoing wave");
  same(of(*b) * ext[curl], conj_(ext[curl]), 1e-6, "P33 ratio of incoming to outgoing wave");
  seen[curl][curj]++;
  return Complex(sm[curl][curj].r, sm[curl][curj].i);
}
static Pdata proj() {
  Pdata p;
  p.particle.setZA(0, 1);
  p.particleID = neutron;
  p.omp = 6 << 8;
  p.spin = 0.5;
  p.mass = NEUTRONMASS;
  p.mass_excess = ENEUTRON;
  return p;
}
static bool cross;
static void call(int lm) {
  LM = lm;
  EN = vp_real("energy", 0.001, 20);
  MU = vp_real("reduced mass", 0.9, 1.01);
  RHO = vp_real("rho", 0.1, 5);
  calls = cut = 0;
  for (int l = 0; l <= lm; l++)
    for (int j = 0; j < 2; j++) {
      sm[l][j] = {vp_real("S", -1.1, 1.1), lm > 1 ? 0.125 * l : vp_real("S", -1.1, 1.1)};
      S2[l][j] = sm[l][j].r * sm[l][j].r + sm[l][j].i * sm[l][j].i;
      seen[l][j] = 0;
    }
  for (int l = 0; l <= lm; l++) ext[l] = {0.3 + l, 0.7 - 0.2 * l}, der[l] = {-0.4 - l, 0.5};
  Pdata p = proj();
  ZAnumber za(40, 97);
  double tr[3 * MAX_L];
  for (int i = 0; i < 3 * MAX_L; i++) tr[i] = 0.7; // leftovers of another energy
  CrossSection cx;
  int n = omCalc(EN, &p, &za, MU, tr, &cx);
  vp_check(n >= 0 && n <= lm, "P33 highest partial wave");
  double sum = 0, part = 0;
  for (int l = 0; l <= lm; l++) {
    for (int j = 0; j < 2; j++) {
      double t = tr[3 * l + j];
      if (l > n || (l == 0 && j == 1)) {
        vp_close(t, 0, 0, "P33 no transmission beyond the highest wave and for j=-1/2");
        continue;
      }
      vp_check(seen[l][j] == 1, "P33 one wave function per l and j");
      vp_check(t >= 0 && t <= 1, "P33 0<=T<=1");
      vp_close(t, S2[l][j] < 1 ? 1 - S2[l][j] : 0, 1e-12, "P33 T = 1-|S|^2, never negative");
    }
    part = (l + 1) * tr[3 * l] + l * tr[3 * l + 1];
    // waves are dropped only when the last one kept adds nothing to the reaction cross section
    if (l == n && n < lm) vp_le(part, 1.1e-6 * sum, 1e-15, "P33 only negligible waves dropped");
    if (l < n && sum > 0) vp_le(0.9e-6 * sum, part, 1e-15, "P33 partial waves added until they are negligible");
    sum += part;
  }
  for (int i = 0; i < 3 * MAX_L; i++)
    if (i % 3 == 2 || i >= 3 * (lm + 1)) vp_close(tr[i], 0, 0, "P33 no transmission in channels that do not exist");
  if (!cross) return;
  double mb = 10 * 3.14159265358979 / 0.25; // pi/k^2 in millibarn
  // the sum over the partial waves, with or without pi/k^2
  double scale = cx.reaction > 10 * sum ? mb : 1;
  vp_close(cx.reaction / scale, sum, 1e-9, "P36 every partial wave in the reaction cross section");
  vp_close(cx.reaction / mb, sum, 1e-9, "P36 reaction cross section in millibarn");
}
ENTRY(coefficients) { call(1); }
ENTRY(coefficientsMore) { call(2); }
ENTRY(crossSection) {
  cross = true;
  call(1);
}
ENTRY(coefficientsClosed) {
  EN = vp_real("energy", -10, 0);
  Pdata p = proj();
  ZAnumber za(40, 97);
  double tr[3 * MAX_L];
  CrossSection cx;
  vp_check(omCalc(EN, &p, &za, 1, tr, &cx) == -1, "P33 no partial wave below threshold");
}
#elif defined(VP_OMKD)
// ------------------------------------------------------------ potential parameters
static void kd(int z, int a, double lo, double hi) {
  double e = vp_real("energy", lo, hi);
  Optical o;
  o.v2 = o.ws2 = o.vs1 = o.wso3 = 1; // leftovers of another potential
  unsigned f = omSetOmp(6 << 8, e, z, a, 0, 1, &o);
  double a13 = pow((double)a, 1.0 / 3), asy = (a - 2.0 * z) / a, x = e - (-11.2814 + 0.02646 * a);
  vp_check((f >> 8) == 6, "P34 potential of Koning and Delaroche");
  vp_check((f & 0x10) && !(f & 0x20), "P34 real volume term only");
  double v = (59.30 - 21.0 * asy - 0.024 * a) *
             (1 - (7.228e-3 - 1.48e-6 * a) * x + (1.994e-5 - 2.0e-8 * a) * x * x - 7e-9 * x * x * x);
  vp_close(o.volume.real, v, 1e-6, "P34 real volume depth");
  double w2 = 73.55 + 0.0795 * a, w = (12.195 + 0.0167 * a) * x * x;
  vp_close(o.volume.imag * (x * x + w2 * w2), w, 1e-5, "P34 imaginary volume depth");
  double d2 = 0.0180 + 0.003802 / (1 + exp((a - 156.0) / 8)), d = (16.0 - 16.0 * asy);
  vp_close(o.surface.imag * (x * x + 11.5 * 11.5), d * exp(-d2 * x) * x * x, 1e-5, "P34 imaginary surface depth");
  vp_close(o.surface.real, 0, 0, "P34 no real surface term");
  vp_close(o.spin_orbit.real, (5.922 + 0.0030 * a) * exp(-0.0040 * x), 1e-6, "P34 real spin-orbit depth");
  vp_close(o.spin_orbit.imag * (x * x + 160.0 * 160), -3.1 * x * x, 1e-4, "P34 imaginary spin-orbit depth");
  vp_check((f & 1) && (f & 2) && !(f & 0xc), "P34 imaginary volume and surface terms");
  vp_close(o.R0, (1.3039 - 0.4054 / a13) * a13, 1e-9, "P34 volume radius");
  vp_close(o.Rv, (1.3039 - 0.4054 / a13) * a13, 1e-9, "P34 volume radius");
  vp_close(o.Rs, (1.3424 - 0.01585 * a13) * a13, 1e-9, "P34 surface radius");
  vp_close(o.Rvso, (1.1854 - 0.647 / a13) * a13, 1e-9, "P34 spin-orbit radius");
  vp_close(o.Rwso, (1.1854 - 0.647 / a13) * a13, 1e-9, "P34 spin-orbit radius");
  vp_close(o.a0, 0.6778 - 1.487e-4 * a, 1e-9, "P34 volume diffuseness");
  vp_close(o.av, 0.6778 - 1.487e-4 * a, 1e-9, "P34 volume diffuseness");
  vp_close(o.as, 0.5446 - 1.656e-4 * a, 1e-9, "P34 surface diffuseness");
  vp_close(o.avso, 0.59, 1e-9, "P34 spin-orbit diffuseness");
  vp_close(o.awso, 0.59, 1e-9, "P34 spin-orbit diffuseness");
}
static int nz[] = {28, 38, 40, 50, 54, 56, 62, 70}, na[] = {70, 96, 101, 132, 140, 145, 155, 172};
ENTRY(parameters) {
  int k = vp_choose("nucleus", 0, 7);
  kd(nz[k], na[k], 0.001, 20);
}
ENTRY(wavenumber) {
  CCdata c;
  c.coulomb = c.coulomb_scat0 = 5;
  double e = vp_real("energy", 1e-6, 30), mu = vp_real("reduced mass", 0.9, 1.01);
  omSetEnergy(e, 0, mu, &c);
  vp_close(c.energy, e, 0, "P34 channel energy");
  vp_close(c.reduced_mass, mu, 0, "P34 reduced mass");
  // k^2 = 2 mu E / hbar^2 with hbar c = 197.327 MeV fm
  vp_close(c.wavesq, 2 * 931.4943 * mu * e / (197.3269 * 197.3269), 1e-5, "P34 wave number");
  vp_close(c.coulomb, 0, 0, "P34 no Coulomb parameter");
  vp_close(c.coulomb_scat0, 0, 0, "P34 no Coulomb phase");
}
// ------------------------------------------------------------ radial form
static double ws(double r, double R, double a) { return 1 / (1 + exp((r - R) / a)); }
static double dws(double r, double R, double a) {
  double y = exp((r - R) / a);
  return 4 * y / ((1 + y) * (1 + y));
}
static void form(double width, int which) {
  Optical o;
  CCdata c;
  Potential p;
  Complex mf[40], so[40];
  double radi[40], cou[40];
  p.mean_field = mf, p.spin_orbit = so, p.radi = radi, p.coulomb = cou;
  p.width = width;
  o.R0 = 5.5, o.Rv = 5.25, o.Rs = 5.75, o.Rvso = 4.75, o.Rwso = 5;
  o.a0 = 0.5, o.av = 0.625, o.as = 0.5, o.avso = 0.5, o.awso = 0.625;
  o.volume.real = 50, o.volume.imag = 2, o.surface.imag = 8, o.spin_orbit.real = 6, o.spin_orbit.imag = -0.25;
  c.reduced_mass = 1;
  c.energy = 2;
  c.wavesq = 0.0964;
  c.coulomb = c.coulomb_scat0 = 0;
  unsigned f = 0x13;
  if (which == 0) {
    o.volume.real = vp_real("V", 1, 60);
    o.volume.imag = vp_real("W", 0.001, 10);
    o.surface.imag = vp_real("Wd", 0.001, 12);
    o.spin_orbit.real = vp_real("Vso", 1, 8);
    o.spin_orbit.imag = vp_real("Wso", -1, -0.001);
    c.reduced_mass = vp_real("reduced mass", 0.95, 1.01);
  } else if (which == 1) {
    o.R0 = vp_real("R", 3, 8);
    o.Rv = vp_real("Rw", 3, 8);
    o.Rs = vp_real("Rs", 3, 8);
  } else if (which == 2) {
    o.a0 = vp_real("a", 0.4, 0.8);
    o.av = vp_real("aw", 0.4, 0.8);
    o.as = vp_real("as", 0.4, 0.8);
  } else if (which == 3) {
    c.energy = vp_real("energy", 0.001, 20);
    c.wavesq = 0.0482 * c.energy;
    f = vp_choose("terms", 0, 3) | 0x10;
    if (!(f & 1)) o.volume.imag = 0;
    if (!(f & 2)) o.surface.imag = 0;
  } else {
    o.Rvso = vp_real("Rso", 3, 8);
    o.Rwso = vp_real("Rwso", 3, 8);
    o.avso = vp_real("aso", 0.4, 0.8);
    o.awso = vp_real("awso", 0.4, 0.8);
  }
  int n = omPotentialForm(f, 0, &o, &c, &p);
  vp_check(n == p.n_match, "P34 number of points");
  double eps = log(1e-6), E = c.energy, m = o.R0 + o.a0 * (log(o.volume.real / E) - eps);
  // beyond the matching radius every term is below 1e-6 of the energy
  vp_le(m, p.rad_match, 1e-9, "P34 matching where the real volume term has died out");
  if (f & 1) vp_le(o.Rv + o.av * (log(o.volume.imag / E) - eps), p.rad_match, 1e-9, "P34 matching where the imaginary volume term has died out");
  if (f & 2) vp_le(o.Rs + o.as * (log(4 * o.surface.imag / E) - eps), p.rad_match, 1e-9, "P34 matching where the surface term has died out");
  vp_le(o.Rvso + o.avso * (log(o.spin_orbit.real * 2.04553 / (o.avso * o.Rvso * E)) - eps), p.rad_match, 1e-9, "P34 matching where the spin-orbit term has died out");
  vp_le(o.Rwso + o.awso * (log(-o.spin_orbit.imag * 2.04553 / (o.awso * o.Rwso * E)) - eps), p.rad_match, 1e-9, "P34 matching where the spin-orbit term has died out");
  vp_close(p.rad_match, (n - 3) * width, 1e-9, "P34 matching radius three points before the end");
  vp_close(p.rho_match * p.rho_match, p.rad_match * p.rad_match * c.wavesq, 1e-6, "P34 rho = kr");
  double c1 = 2 * c.reduced_mass * AMUNIT / VLIGHTSQ / HBARSQ;
  for (int i = 0; i <= n; i++) {
    double r = i * width;
    vp_close(radi[i], r * r, 1e-9, "P34 r^2");
    vp_close(cou[i], 0, 0, "P34 no Coulomb potential");
    vp_close(mf[i].real, c1 * (o.volume.real * ws(r, o.R0, o.a0)), 1e-7, "P34 real potential of Woods-Saxon form");
    double w = 0;
    if (f & 1) w += o.volume.imag * ws(r, o.Rv, o.av);
    if (f & 2) w += o.surface.imag * dws(r, o.Rs, o.as);
    vp_close(mf[i].imag, c1 * w, 1e-7, "P34 absorption of Woods-Saxon and surface form");
    if (!i) {
      same(of(so[i]), C{0, 0}, 0, "P34 no spin-orbit potential at the centre");
      continue;
    }
    vp_close(so[i].real, c1 * 2.04553 * (o.spin_orbit.real * (dws(r, o.Rvso, o.avso) / (4 * r * o.avso))), 1e-7, "P34 real spin-orbit potential of Thomas form");
    vp_close(so[i].imag, c1 * 2.04553 * (o.spin_orbit.imag * (dws(r, o.Rwso, o.awso) / (4 * r * o.awso))), 1e-7, "P34 imaginary spin-orbit potential of Thomas form");
  }
}
ENTRY(formDepth) { form(2.5, 0); }
ENTRY(formRadius) { form(3, 1); }
ENTRY(formWidth) { form(3, 2); }
ENTRY(formTerms) { form(4, 3); }
ENTRY(formSpinOrbit) { form(3, 4); }
#else
// ------------------------------------------------------------ matching
static void poly(Complex *u, int m, double h, C *c, int deg) {
  for (int k = -3; k <= 3; k++) {
    C v = {0, 0};
    double x = 1;
    for (int j = 0; j <= deg; j++, x *= k * h) v = v + x * c[j];
    u[m - 3 + k].real = v.r, u[m - 3 + k].imag = v.i;
  }
}
static void match(C *c, int deg, C d1, C d2, double rm) {
  Complex u[12], a(d1.r, d1.i), b(d2.r, d2.i);
  Wavefunc w;
  w.internal = u;
  int m = 10;
  poly(u, m, 0.25, c, deg);
  C s = of(omSmatrix(m, 0.25, rm, &a, &b, &w));
  // S (f-d1) = d2 (f-d1*), f = rm u'/u at the matching point
  C f = rm * c[1];
  same(s * (f - d1 * c[0]), d2 * (f - conj_(d1) * c[0]), 1e-5, "P33 logarithmic derivatives match");
}
ENTRY(matching) {
  C c[5] = {{vp_real("u", 0.5, 1), 0}, {vp_real("u", -1, 1), vp_real("u", -1, 0)}, {0.25, -0.5}, {0.125, 1}, {-0.5, 0.25}};
  match(c, 4, C{-0.75, 0.5}, C{0.6, -0.8}, 6.25);
}
ENTRY(matchingWave) {
  C c[6] = {{0.5, 0.25}, {0.75, -1.5}, sc("u", 1), sc("u", 1), sc("u", 1), sc("u", 1)};
  match(c, 5, C{-0.75, 0.5}, C{0.6, -0.8}, 6.25);
}
ENTRY(matchingBoundary) {
  C c[4] = {{0.5, 0.25}, {0.75, -1.5}, {0.25, 0.5}, {-0.5, 1}};
  double rm = vp_real("matching radius", 4, 20);
  match(c, 3, C{vp_real("d", -3, 3), vp_real("d", 0.1, 3)}, sc("b", 1), rm);
}
ENTRY(unitary) {
  // a real wave function (no absorption) at the matching point: |S| = 1
  C c[3] = {{vp_real("u", 0.5, 1), 0}, {vp_real("u", -1, 1), 0}, {0.5, 0}};
  Complex u[12], a(vp_real("d", -1, 1), vp_real("d", 0.5, 1)), b(0.6, -0.8);
  Wavefunc w;
  w.internal = u;
  poly(u, 10, 0.25, c, 2);
  C s = of(omSmatrix(10, 0.25, 6.25, &a, &b, &w));
  vp_close(s.r * s.r + s.i * s.i, 1, 1e-9, "P33 no transmission without absorption");
}
// ------------------------------------------------------------ inside the nucleus
static void inside(int l, int up, int which) {
  Potential p;
  Complex mf[8], so[8], u[8];
  double radi[8];
  const double h = 0.25;
  p.mean_field = mf, p.spin_orbit = so, p.radi = radi;
  Wavefunc w;
  w.internal = u;
  double k2 = 0.25, s = 0.5, j = up ? l + 0.5 : l - 0.5;
  const int N = which ? 4 : 3;
  for (int i = 0; i <= N; i++) {
    radi[i] = i * h * i * h;
    mf[i] = Complex(2 - 0.125 * i, 0.25 + 0.125 * i);
    so[i] = i ? Complex(0.5 / i, -0.125) : Complex(0, 0);
  }
  if (which == 0) {
    k2 = vp_real("k2", 0.001, 1);
    for (int i = 1; i <= N; i++) mf[i].real = vp_real("V", 0, 4);
  } else if (which == 1) {
    for (int i = 1; i <= N; i++) so[i].real = vp_real("Vso", 0, 1);
  } else {
    k2 = vp_real("k2", 0.001, 1);
    for (int i = 1; i <= N; i++) mf[i].imag = vp_real("W", 0, 0.5);
  }
  omInternalFunction(N, h, k2, l, s, j, &p, &w);
  double so_ = l == 0 ? 0 : (up ? l : -l - 1); // 2 l.s
  C q[8], one = {1, 0};
  for (int i = 1; i <= N; i++) {
    q[i] = C{l * (l + 1) / radi[i] - k2, 0} - of(mf[i]) - so_ * of(so[i]);
  }
  q[0] = {0, 0};
  vp_check(u[0].real == 0 && u[0].imag == 0, "P33 wave function vanishes at the centre");
  double s1 = 1;
  for (int i = 0; i <= l; i++) s1 *= h;
  same(of(u[1]), C{s1, 0}, 1e-9 * s1, "P33 wave function starts like r^(l+1)");
  const double d = h * h / 12;
  for (int i = 2; i <= N; i++) {
    C r = (C{2, 0} + 10 * d * q[i - 1]) * of(u[i - 1]) - (one - d * q[i - 2]) * of(u[i - 2]);
    same((one - d * q[i]) * of(u[i]), r, 1e-9, "P33 Schroedinger equation at every mesh point");
  }
}
ENTRY(insideWell) {
  int k = vp_choose("l j", 0, 4);
  inside((k + 1) / 2, k % 2 == 0, 0);
}
ENTRY(insideSpinOrbit) {
  int k = vp_choose("l j", 0, 4);
  inside((k + 1) / 2, k % 2 == 0, 1);
}
ENTRY(insideAbsorption) {
  int k = vp_choose("l j", 0, 4);
  inside((k + 1) / 2, k % 2 == 0, 2);
}
// ------------------------------------------------------------ outside the nucleus
static void outside(double lo, double hi) {
  Complex g[MAX_L], d[MAX_L];
  Wavefunc w;
  w.external = g, w.extderiv = d;
  double rho = vp_real("rho", lo, hi);
  int n = omExternalFunction(0, rho, 0, 0, &w);
  vp_check(n >= 1 && n < MAX_L - 1, "P33 partial waves");
  vp_le(1e10, g[n + 1].real * g[n + 1].real, 1, "P33 waves kept until the barrier stops them");
  vp_close(g[0].real, cos(rho), 1e-9, "P33 G0 = cos");
  vp_close(d[0].real, -sin(rho), 1e-6, "P33 G0' = -sin");
  vp_close(d[0].imag * g[0].real - d[0].real * g[0].imag, 1, 2e-6, "P33 Wronskian");
  vp_close(g[1].real * rho, cos(rho) + rho * sin(rho), 1e-6, "P33 G1");
  for (int l = 1; l <= n && l < 4; l++) {
    vp_close(rho * (g[l + 1].real + g[l - 1].real), (2 * l + 1) * g[l].real, 1e-6 * (1 + 0), "P33 irregular waves of successive l");
    vp_close(rho * (g[l + 1].imag + g[l - 1].imag), (2 * l + 1) * g[l].imag, 1e-6, "P33 regular waves of successive l");
    vp_close(rho * d[l].imag, (l + 1) * g[l].imag - rho * g[l + 1].imag, 1e-6, "P33 derivative");
    vp_close(rho * d[l].real, (l + 1) * g[l].real - rho * g[l + 1].real, 1e-6, "P33 derivative");
    vp_close(d[l].imag * g[l].real - d[l].real * g[l].imag, 1, 2e-6, "P33 Wronskian");
  }
}
ENTRY(outsideLow) { outside(0.01, 0.02); }
ENTRY(outsideMid) { outside(0.1, 0.11); }
ENTRY(outsideHigh) { outside(0.4, 0.42); }
#endif
