// Events: the event object and its accessors, input validation, the C interface, the driver program
// (history file, yields file, seeds, averages).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#define private public
#define protected public
#include "cgmfEvents.h"
#include "FissionFragments.h"
#undef private
#undef protected
#include "cgmfEvents_capi.h"
#include "cgm.h"
#include "global.h"
#include "config.h"
#include "config-ff.h"
#include "physics.h"
#include "rngcgm.h"
#include "terminate.h"
#include "kcksyst.h"
#include "ripl2levels.h"
#include "vp.h"

// ---- stubs: data readers, working arrays
void readDiscreteLevelData() {}
int readkcksystdat() { return 0; }
void readMasses(void) {}
void readDeformations(void) {}
void readTemperatures(void) {}
void readLDP(void) {}
void readAnisotropy(void) {}
void readPreEqAngularDistributionParameters(void) {}
void readRTA(void) {}
void readSpinScaling(void) {}
void readPreeqData(void) {}
void cgmAllocateMemory() {}
void cgmDeleteAllocated() {}

// ---- stub: initial conditions of the fragments and pre-fission neutrons (decided by P07-P14)
static int npreLo, npreHi, nLo, nHi, gLo, gHi;
static int ffZaid, ffCount, ffBuilt;
static double ffE;
static fissionFragmentType genL[4], genH[4];
static double pv[3][3];
static int npre, acpar;
FissionFragments::FissionFragments(int zaid, double e, double) {
  ffZaid = zaid, ffE = e, ffBuilt++;
  npre = vp_choose("npre", npreLo, npreHi);
  Ac0 = acpar = 240;
  Ac = Ac0 - npre;
  for (int i = 0; i < npre; i++)
    for (int k = 0; k < 3; k++) {
      pv[i][k] = vp_real("vpre", -0.3, 0.3);
      labVelocities_pfn[i][k] = pv[i][k];
    }
  for (int i = 0; i < npre; i++) vp_assume(pv[i][0] * pv[i][0] + pv[i][1] * pv[i][1] + pv[i][2] * pv[i][2] > 1e-6);
}
FissionFragments::~FissionFragments() {}
static void (*onEvent)();
static void rndFragment(fissionFragmentType &f, int heavy) {
  f.Z = vp_int("Z", 20, 70);
  f.A = vp_int("A", 60, 180);
  f.N = f.A - f.Z;
  f.mass = vp_real("mass", 0, 1e6);
  f.U = vp_real("U", 0, 60);
  f.spin = vp_int("twoJ", 0, 60) * 0.5;
  f.parity = 1 - 2 * vp_int("par", 0, 1);
  f.KE = vp_real("KE", 10, 150);
  f.KEpost = vp_real("junk", 10, 150);
  f.TKE = vp_real("TKE", 100, 260);
  f.energyRelease = vp_real("Q", 100, 260);
  for (int k = 0; k < 3; k++) f.preMomentum[k] = vp_real("p", -5000, 5000);
  for (int k = 0; k < 3; k++) f.postMomentum[k] = vp_real("junk", -5000, 5000);
}
void FissionFragments::generateInitialFissionFragmentHistories(fissionFragmentType *l, fissionFragmentType *h, const int n) {
  ffCount = n;
  if (onEvent) onEvent();
  for (int i = 0; i < n && i < 4; i++) {
    rndFragment(genL[i], 0);
    rndFragment(genH[i], 1);
    l[i] = genL[i];
    h[i] = genH[i];
  }
}
// ---- stub: de-excitation of one fragment (decided by P01-P06): any particles
static fissionEventType decayed[2];
static int decays;
static double window = -7, wantWindow = -7; // time window in force, wanted
static void atDecay() {
  if (wantWindow == -7) return;
  if (wantWindow > 0) vp_close(window, wantWindow, 0, "the requested time window is applied");
  else vp_check(window <= 0, "no time window is applied when none is requested");
}
static bool many; // as many particles as possible instead of one
void specMCMainFission(fissionEventType *fe) {
  atDecay();
  const fissionFragmentType &f = decays % 2 ? genH[0] : genL[0];
  vp_check(fe->A == f.A && fe->Z == f.Z && fe->parity == f.parity, "the decayed nucleus is the generated fragment");
  vp_close(fe->U, f.U, 1e-9, "it has the excitation energy of the generated fragment");
  vp_close(fe->spin, f.spin, 1e-6, "it has the spin of the generated fragment");
  vp_close(fe->KE, f.KE, 1e-9, "it has the kinetic energy of the generated fragment");
  for (int k = 0; k < 3; k++)
    vp_close(fe->preFragmentMomentum[k], f.preMomentum[k], 1e-9, "it has the momentum of the generated fragment");
  fe->nu = vp_choose("nu", nLo, nHi);
  fe->nug = vp_choose("nug", gLo, gHi);
  if (many) fe->nu *= MAX_NUMBER_NEUTRONS, fe->nug *= MAX_NUMBER_GAMMAS;
  for (int i = 0; i < fe->nu; i++) {
    fe->neutronEnergies[i] = vp_real("En", 0, 30);
    fe->neutronDircosu[i] = vp_real("u", -1, 1);
    fe->neutronDircosv[i] = vp_real("v", -1, 1);
    fe->neutronDircosw[i] = vp_real("w", -1, 1);
    fe->neutronAges[i] = vp_real("junkage", 0, 1);
    fe->cmNeutronEnergies[i] = vp_real("Ecm", 0, 30);
    fe->cmNeutronDircosu[i] = vp_real("cu", -1, 1);
    fe->cmNeutronDircosv[i] = vp_real("cv", -1, 1);
    fe->cmNeutronDircosw[i] = vp_real("cw", -1, 1);
  }
  for (int i = 0; i < fe->nug; i++) {
    fe->photonEnergies[i] = vp_real("Eg", 0, 20);
    fe->photonDircosu[i] = vp_real("gu", -1, 1);
    fe->photonDircosv[i] = vp_real("gv", -1, 1);
    fe->photonDircosw[i] = vp_real("gw", -1, 1);
    fe->photonAges[i] = vp_real("age", 0, 1);
    fe->cmPhotonEnergies[i] = vp_real("Egcm", 0, 20);
    fe->cmPhotonDircosu[i] = vp_real("gcu", -1, 1);
    fe->cmPhotonDircosv[i] = vp_real("gcv", -1, 1);
    fe->cmPhotonDircosw[i] = vp_real("gcw", -1, 1);
  }
  for (int k = 0; k < 3; k++) fe->postFragmentMomentum[k] = vp_real("ppost", -5000, 5000);
  fe->KEpost = vp_real("KEpost", 10, 150);
  fe->fragmentDircosu = vp_real("fu", -1, 1);
  fe->fragmentDircosv = vp_real("fv", -1, 1);
  fe->fragmentDircosw = vp_real("fw", -1, 1);
  decayed[decays++ % 2] = *fe;
}
void set_time_coincidence_window(double w) { window = w; }

static void limits(int a, int b, int c, int d, int e, int f) {
  npreLo = a, npreHi = b, nLo = c, nHi = d, gLo = e, gHi = f;
}
static const double MN = NEUTRONMASS * amuMeV;

// ---- the event object says what was generated
static void particles(cgmfEvent *ev, double t) {
  int nl = decayed[0].nu, nh = decayed[1].nu, gl = decayed[0].nug, gh = decayed[1].nug;
  vp_check(ev->getNeutronNu() == nl + nh, "neutrons of the event = neutrons of both fragments");
  vp_check(ev->getPhotonNu() == gl + gh, "photons of the event = photons of both fragments");
  for (int i = 0; i < nl + nh; i++) {
    const fissionEventType &d = decayed[i < nl ? 0 : 1];
    int j = i < nl ? i : i - nl;
    vp_close(ev->getNeutronEnergy(i), d.neutronEnergies[j], 1e-9, "neutron energy");
    vp_close(ev->getNeutronDircosu(i), d.neutronDircosu[j], 1e-9, "neutron direction u");
    vp_close(ev->getNeutronDircosv(i), d.neutronDircosv[j], 1e-9, "neutron direction v");
    vp_close(ev->getNeutronDircosw(i), d.neutronDircosw[j], 1e-9, "neutron direction w");
    vp_close(ev->getNeutronAge(i), t, 1e-9, "neutron age = time of the fission");
    vp_close(ev->getCmNeutronEnergy(i), d.cmNeutronEnergies[j], 1e-9, "cm neutron energy");
    vp_close(ev->getCmNeutronDircosu(i), d.cmNeutronDircosu[j], 1e-9, "cm neutron direction u");
    vp_close(ev->getCmNeutronDircosv(i), d.cmNeutronDircosv[j], 1e-9, "cm neutron direction v");
    vp_close(ev->getCmNeutronDircosw(i), d.cmNeutronDircosw[j], 1e-9, "cm neutron direction w");
  }
  for (int i = 0; i < gl + gh; i++) {
    const fissionEventType &d = decayed[i < gl ? 0 : 1];
    int j = i < gl ? i : i - gl;
    vp_close(ev->getPhotonEnergy(i), d.photonEnergies[j], 1e-9, "photon energy");
    vp_close(ev->getPhotonDircosu(i), d.photonDircosu[j], 1e-9, "photon direction u");
    vp_close(ev->getPhotonDircosv(i), d.photonDircosv[j], 1e-9, "photon direction v");
    vp_close(ev->getPhotonDircosw(i), d.photonDircosw[j], 1e-9, "photon direction w");
    vp_close(ev->getPhotonAge(i), t + d.photonAges[j], 1e-9, "photon age = time of the fission + emission time");
  }
  vp_check(ev->getPreFissionNeutronNu() == npre, "pre-fission neutrons of the event");
  for (int i = 0; i < npre; i++) {
    double v2 = pv[i][0] * pv[i][0] + pv[i][1] * pv[i][1] + pv[i][2] * pv[i][2];
    double u[3] = {ev->getPreFissionNeutronDircosu(i), ev->getPreFissionNeutronDircosv(i), ev->getPreFissionNeutronDircosw(i)}, v = sqrt(v2);
    vp_close(ev->getPreFissionNeutronEnergy(i), 0.5 * MN * v2, 1e-6, "pre-fission neutron energy");
    for (int k = 0; k < 3; k++) vp_close(u[k] * v, pv[i][k], 1e-9, "pre-fission neutron direction");
  }
}
static void range(cgmfEvent *ev) {
  int i = vp_int("index", -1000, 1000);
  bool n = i < 0 || i >= ev->neutronNu, g = i < 0 || i >= ev->photonNu, p = i < 0 || i >= ev->preFissionNeutronNu;
  if (n) {
    vp_check(ev->getNeutronEnergy(i) == -1 && ev->getCmNeutronEnergy(i) == -1 && ev->getNeutronAge(i) == -1,
             "no such neutron: -1");
    vp_check(ev->getNeutronDircosu(i) == -1 && ev->getNeutronDircosv(i) == -1 && ev->getNeutronDircosw(i) == -1,
             "no such neutron: -1");
    vp_check(ev->getCmNeutronDircosu(i) == -1 && ev->getCmNeutronDircosv(i) == -1 && ev->getCmNeutronDircosw(i) == -1,
             "no such neutron: -1");
  }
  if (g)
    vp_check(ev->getPhotonEnergy(i) == -1 && ev->getPhotonDircosu(i) == -1 && ev->getPhotonDircosv(i) == -1 &&
                 ev->getPhotonDircosw(i) == -1 && ev->getPhotonAge(i) == -1,
             "no such photon: -1");
  if (p)
    vp_check(ev->getPreFissionNeutronEnergy(i) == -1 && ev->getPreFissionNeutronDircosu(i) == -1 &&
                 ev->getPreFissionNeutronDircosv(i) == -1 && ev->getPreFissionNeutronDircosw(i) == -1,
             "no such pre-fission neutron: -1");
}
static void fragments(cgmfEvent *ev) {
  const fissionEventType &l = decayed[0], &h = decayed[1];
  const fissionFragmentType &gl = genL[0], &gh = genH[0];
  vp_check(ev->getLightFragmentMass() == gl.A && ev->getHeavyFragmentMass() == gh.A, "fragment masses");
  vp_check(ev->getLightFragmentCharge() == gl.Z && ev->getHeavyFragmentCharge() == gh.Z, "fragment charges");
  vp_close(ev->getLightFragmentKineticEnergy(), gl.KE, 1e-9, "light fragment kinetic energy");
  vp_close(ev->getHeavyFragmentKineticEnergy(), gh.KE, 1e-9, "heavy fragment kinetic energy");
  vp_close(ev->getLightFragmentKineticEnergyPost(), l.KEpost, 1e-9, "light fragment final kinetic energy");
  vp_close(ev->getHeavyFragmentKineticEnergyPost(), h.KEpost, 1e-9, "heavy fragment final kinetic energy");
  vp_close(ev->getLightFragmentExcitationEnergy(), gl.U, 1e-9, "light fragment excitation energy");
  vp_close(ev->getHeavyFragmentExcitationEnergy(), gh.U, 1e-9, "heavy fragment excitation energy");
  vp_close(ev->getLightFragmentSpin(), gl.spin, 1e-6, "light fragment spin");
  vp_close(ev->getHeavyFragmentSpin(), gh.spin, 1e-6, "heavy fragment spin");
  vp_check(ev->getLightFragmentParity() == gl.parity && ev->getHeavyFragmentParity() == gh.parity, "fragment parities");
  vp_check(ev->getLightFragmentNeutronNu() == l.nu && ev->getHeavyFragmentNeutronNu() == h.nu, "fragment neutrons");
  vp_check(ev->getLightFragmentPhotonNu() == l.nug && ev->getHeavyFragmentPhotonNu() == h.nug, "fragment photons");
  double a[18] = {ev->getLightFragmentPreMomentumX(), ev->getLightFragmentPreMomentumY(), ev->getLightFragmentPreMomentumZ(),
                  ev->getHeavyFragmentPreMomentumX(), ev->getHeavyFragmentPreMomentumY(), ev->getHeavyFragmentPreMomentumZ(),
                  ev->getLightFragmentPostMomentumX(), ev->getLightFragmentPostMomentumY(), ev->getLightFragmentPostMomentumZ(),
                  ev->getHeavyFragmentPostMomentumX(), ev->getHeavyFragmentPostMomentumY(), ev->getHeavyFragmentPostMomentumZ(),
                  ev->getLightFragmentDircosu(), ev->getLightFragmentDircosv(), ev->getLightFragmentDircosw(),
                  ev->getHeavyFragmentDircosu(), ev->getHeavyFragmentDircosv(), ev->getHeavyFragmentDircosw()};
  for (int k = 0; k < 3; k++) {
    vp_close(a[k], gl.preMomentum[k], 1e-9, "light fragment initial momentum");
    vp_close(a[3 + k], gh.preMomentum[k], 1e-9, "heavy fragment initial momentum");
    vp_close(a[6 + k], l.postFragmentMomentum[k], 1e-9, "light fragment final momentum");
    vp_close(a[9 + k], h.postFragmentMomentum[k], 1e-9, "heavy fragment final momentum");
  }
  vp_close(a[12], l.fragmentDircosu, 1e-9, "light fragment direction");
  vp_close(a[13], l.fragmentDircosv, 1e-9, "light fragment direction");
  vp_close(a[14], l.fragmentDircosw, 1e-9, "light fragment direction");
  vp_close(a[15], h.fragmentDircosu, 1e-9, "heavy fragment direction");
  vp_close(a[16], h.fragmentDircosv, 1e-9, "heavy fragment direction");
  vp_close(a[17], h.fragmentDircosw, 1e-9, "heavy fragment direction");
}
VP_HARNESS(event) {
  limits(0, 0, 0, 3, 0, 3);
  double t = vp_real("time", 0, 1);
  cgmfEvent *ev = new cgmfEvent(98252, 0.0, t, -1.0);
  vp_check(ev->getTargetNucleus() == 98252, "target nucleus");
  vp_check(ffZaid == 98252 && ffE == 0 && ffCount == 1, "one fission of the requested nucleus");
  particles(ev, t);
  fragments(ev);
  delete ev;
  vp_reach("end");
}
VP_HARNESS(eventMany) { // as many particles as a fragment can record
  many = true;
  limits(0, 0, 0, 1, 0, 1);
  double t = vp_real("time", 0, 1);
  cgmfEvent *ev = new cgmfEvent(98252, 0.0, t, -1.0);
  particles(ev, t);
  delete ev;
  vp_reach("end");
}
VP_HARNESS(eventPre) {
  limits(0, 3, 0, 1, 0, 1);
  double t = vp_real("time", 0, 1), e = vp_real("E", 0.1, 20);
  cgmfEvent *ev = new cgmfEvent(92238, e, t, -1.0);
  vp_close(ev->getIncidentEnergy(), e, 0, "incident energy");
  vp_check(ffZaid == 92238 && ffCount == 1, "one fission of the requested nucleus");
  vp_close(ffE, e, 0, "at the requested energy");
  particles(ev, t);
  delete ev;
  vp_reach("end");
}
VP_HARNESS(eventRange) {
  limits(0, 2, 0, 1, 0, 1);
  cgmfEvent *ev = new cgmfEvent(92238, 14.0, 0.0, -1.0);
  range(ev);
  delete ev;
  vp_reach("end");
}
// two events after each other: the second is not affected by the first
VP_HARNESS(eventTwo) {
  limits(0, 1, 0, 1, 0, 1);
  double t1 = vp_real("time", 0, 1), t2 = vp_real("time2", 0, 1);
  cgmfEvent *ev = new cgmfEvent(92238, 14.0, t1, -1.0);
  delete ev;
  ev = new cgmfEvent(92238, 14.0, t2, -1.0);
  particles(ev, t2);
  fragments(ev);
  delete ev;
  vp_reach("end");
}
// ---- C interface
VP_HARNESS(capi) {
  limits(0, 1, 0, 1, 0, 1);
  double t = vp_real("time", 0, 1);
  int two = vp_choose("events", 1, 2);
  cgmf_genfissevent(92238, 14.0, 0.5, -1.0);
  if (two == 2) cgmf_genfissevent(92238, 14.0, t, -1.0);
  else t = 0.5;
  const fissionEventType &l = decayed[0], &h = decayed[1];
  int nl = l.nu, nh = h.nu, gl = l.nug, gh = h.nug;
  vp_check(cgmf_getnnu() == nl + nh && cgmf_getlfnnu() == nl && cgmf_gethfnnu() == nh, "neutron numbers");
  vp_check(cgmf_getgnu() == gl + gh && cgmf_getlfgnu() == gl && cgmf_gethfgnu() == gh, "photon numbers");
  for (int i = 0; i < nl + nh; i++) {
    const fissionEventType &d = decayed[i < nl ? 0 : 1];
    int j = i < nl ? i : i - nl;
    vp_close(cgmf_getnerg(i), d.neutronEnergies[j], 1e-9, "neutron energy");
    vp_close(cgmf_getndircosu(i), d.neutronDircosu[j], 1e-9, "neutron direction u");
    vp_close(cgmf_getndircosv(i), d.neutronDircosv[j], 1e-9, "neutron direction v");
    vp_close(cgmf_getndircosw(i), d.neutronDircosw[j], 1e-9, "neutron direction w");
    vp_close(cgmf_getntme(i), t, 1e-9, "neutron time");
    vp_close(cgmf_getcmnerg(i), d.cmNeutronEnergies[j], 1e-9, "cm neutron energy");
    vp_close(cgmf_getcmndircosu(i), d.cmNeutronDircosu[j], 1e-9, "cm neutron direction u");
    vp_close(cgmf_getcmndircosv(i), d.cmNeutronDircosv[j], 1e-9, "cm neutron direction v");
    vp_close(cgmf_getcmndircosw(i), d.cmNeutronDircosw[j], 1e-9, "cm neutron direction w");
  }
  for (int i = 0; i < gl + gh; i++) {
    const fissionEventType &d = decayed[i < gl ? 0 : 1];
    int j = i < gl ? i : i - gl;
    vp_close(cgmf_getgerg(i), d.photonEnergies[j], 1e-9, "photon energy");
    vp_close(cgmf_getgdircosu(i), d.photonDircosu[j], 1e-9, "photon direction u");
    vp_close(cgmf_getgdircosv(i), d.photonDircosv[j], 1e-9, "photon direction v");
    vp_close(cgmf_getgdircosw(i), d.photonDircosw[j], 1e-9, "photon direction w");
    vp_close(cgmf_getgtme(i), t + d.photonAges[j], 1e-9, "photon time");
  }
  vp_check(cgmf_getprennu() == npre, "pre-fission neutrons");
  for (int i = 0; i < npre; i++) {
    double v2 = pv[i][0] * pv[i][0] + pv[i][1] * pv[i][1] + pv[i][2] * pv[i][2], v = sqrt(v2);
    vp_close(cgmf_getprenerg(i), 0.5 * MN * v2, 1e-6, "pre-fission neutron energy");
    vp_close(cgmf_getprendircosu(i) * v, pv[i][0], 1e-9, "pre-fission neutron direction u");
    vp_close(cgmf_getprendircosv(i) * v, pv[i][1], 1e-9, "pre-fission neutron direction v");
    vp_close(cgmf_getprendircosw(i) * v, pv[i][2], 1e-9, "pre-fission neutron direction w");
  }
  vp_check(cgmf_getlfmass() == genL[0].A && cgmf_gethfmass() == genH[0].A, "fragment masses");
  vp_check(cgmf_getlfcharge() == genL[0].Z && cgmf_gethfcharge() == genH[0].Z, "fragment charges");
  vp_check(cgmf_getlfparity() == genL[0].parity && cgmf_gethfparity() == genH[0].parity, "fragment parities");
  vp_close(cgmf_getlfke(), genL[0].KE, 1e-9, "light fragment kinetic energy");
  vp_close(cgmf_gethfke(), genH[0].KE, 1e-9, "heavy fragment kinetic energy");
  vp_close(cgmf_getlfkepost(), l.KEpost, 1e-9, "light fragment final kinetic energy");
  vp_close(cgmf_gethfkepost(), h.KEpost, 1e-9, "heavy fragment final kinetic energy");
  vp_close(cgmf_getlfu(), genL[0].U, 1e-9, "light fragment excitation energy");
  vp_close(cgmf_gethfu(), genH[0].U, 1e-9, "heavy fragment excitation energy");
  vp_close(cgmf_getlfspin(), genL[0].spin, 1e-6, "light fragment spin");
  vp_close(cgmf_gethfspin(), genH[0].spin, 1e-6, "heavy fragment spin");
  vp_close(cgmf_getlfpremomentum_x(), genL[0].preMomentum[0], 1e-9, "light fragment momentum");
  vp_close(cgmf_getlfpremomentum_y(), genL[0].preMomentum[1], 1e-9, "light fragment momentum");
  vp_close(cgmf_getlfpremomentum_z(), genL[0].preMomentum[2], 1e-9, "light fragment momentum");
  vp_close(cgmf_gethfpremomentum_x(), genH[0].preMomentum[0], 1e-9, "heavy fragment momentum");
  vp_close(cgmf_gethfpremomentum_y(), genH[0].preMomentum[1], 1e-9, "heavy fragment momentum");
  vp_close(cgmf_gethfpremomentum_z(), genH[0].preMomentum[2], 1e-9, "heavy fragment momentum");
  vp_close(cgmf_getlfpostmomentum_x(), l.postFragmentMomentum[0], 1e-9, "light fragment final momentum");
  vp_close(cgmf_getlfpostmomentum_y(), l.postFragmentMomentum[1], 1e-9, "light fragment final momentum");
  vp_close(cgmf_getlfpostmomentum_z(), l.postFragmentMomentum[2], 1e-9, "light fragment final momentum");
  vp_close(cgmf_gethfpostmomentum_x(), h.postFragmentMomentum[0], 1e-9, "heavy fragment final momentum");
  vp_close(cgmf_gethfpostmomentum_y(), h.postFragmentMomentum[1], 1e-9, "heavy fragment final momentum");
  vp_close(cgmf_gethfpostmomentum_z(), h.postFragmentMomentum[2], 1e-9, "heavy fragment final momentum");
  vp_close(cgmf_getlfdircosu(), l.fragmentDircosu, 1e-9, "light fragment direction");
  vp_close(cgmf_getlfdircosv(), l.fragmentDircosv, 1e-9, "light fragment direction");
  vp_close(cgmf_getlfdircosw(), l.fragmentDircosw, 1e-9, "light fragment direction");
  vp_close(cgmf_gethfdircosu(), h.fragmentDircosu, 1e-9, "heavy fragment direction");
  vp_close(cgmf_gethfdircosv(), h.fragmentDircosv, 1e-9, "heavy fragment direction");
  vp_close(cgmf_gethfdircosw(), h.fragmentDircosw, 1e-9, "heavy fragment direction");
  vp_reach("end");
}
// ---- input validation
static int wantExit = -1; // 1: must refuse, 0: must accept, -1: do not care
extern "C" void exit(int c) {
  if (wantExit >= 0) {
    vp_check(wantExit == 1, "a supported reaction is not refused");
    vp_check(c != 0, "refusal is reported by the exit status");
    vp_reach("refused");
  }
  vp_stop();
  while (true) {
  }
}
static bool nInduced(int z) {
  return z == 92233 || z == 92234 || z == 92235 || z == 92238 || z == 93237 || z == 94239 || z == 94241;
}
static bool spontaneous(int z) {
  return z == 94238 || z == 94240 || z == 94242 || z == 94244 || z == 98252 || z == 98254;
}
VP_HARNESS(input) {
  limits(0, 0, 0, 0, 0, 0);
  int z = vp_int("ZAID", -130000, 130000);
  int kind = vp_choose("energy", 0, 2);
  double e = kind == 0 ? 0.0 : vp_real("E", -50, 200);
  if (kind == 1) vp_assume(e > 0 && e <= 20);
  if (kind == 2) vp_assume(e < 0 || e > 20);
  bool ok = kind == 0 ? (z < 0 ? spontaneous(-z) : spontaneous(z)) : kind == 1 ? nInduced(z) : false;
  wantExit = ok ? 0 : 1;
  cgmfEvent *ev = new cgmfEvent(z, e, 0.0, -1.0);
  vp_check(ok, "an unsupported reaction is refused");
  vp_check(ffBuilt == 1 && ffZaid == z && ffE == e, "the requested reaction is simulated");
  vp_reach("accepted");
}
VP_HARNESS(rangeCGM) {
  MAX_ENERGY_BIN = 2500;
  ENERGY_BIN = 0.05;
  cgmEvent *ev = (cgmEvent *)calloc(1, sizeof(cgmEvent));
  int z = vp_int("Z", -5, 200), a = vp_int("A", -5, 400);
  double e = vp_real("E", -10, 300);
  int r = ev->cgmCheckRange(z, a, e);
  bool ok = z >= 6 && z <= 118 && a >= 12 && a <= 300 && e > 0 && e < (MAX_ENERGY_BIN - 1) * ENERGY_BIN;
  vp_check((r == 0) == ok, "nuclide and energy range");
  vp_reach("end");
}

// the time window asked for an event is the one in force while its fragments decay
VP_HARNESS(windows) {
  limits(0, 0, 0, 0, 0, 0);
  window = -1; // no limit at program start
  for (int i = 0; i < 2; i++) {
    double w = vp_choose("limited", 0, 1) ? vp_real("window", 1e-9, 1) : -1.0;
    wantWindow = w;
    cgmfEvent *ev = new cgmfEvent(98252, 0.0, 0.0, w);
    delete ev;
  }
  vp_reach("end");
}
#ifdef VP_DRIVER
// ---------------------------------------------------------------- driver program
void printEventToFile(FILE *fp, cgmfEvent *, double);
void setdatapath(std::string) {}
void cgmf_cleanup(void) {}
static int nLines;
static int L; // current line
static void num(int col, double v, double tol, const char *label) { vp_close(vp_out(L, col), v, tol, label); }
static const double T3 = 0.00051;
static void fragLine(const fissionFragmentType &g, const fissionEventType &d, int last) {
  vp_check(vp_out_cols(L) == 10, "fragment line has 10 columns");
  num(0, g.A, 0, "history: mass");
  num(1, g.Z, 0, "history: charge");
  num(2, g.U, T3, "history: excitation energy");
  num(3, g.spin, 0.051, "history: spin");
  num(4, g.parity, 0, "history: parity");
  num(5, g.KE, T3, "history: kinetic energy before emission");
  num(6, d.KEpost, T3, "history: kinetic energy after emission");
  num(7, d.nu, 0, "history: neutrons");
  num(8, d.nug, 0, "history: photons");
  num(9, last, 0, "history: pre-fission neutrons");
  L++;
  vp_check(vp_out_cols(L) == 6, "momentum line has 6 columns");
  for (int k = 0; k < 3; k++) {
    num(k, g.preMomentum[k], T3, "history: momentum before emission");
    num(3 + k, d.postFragmentMomentum[k], T3, "history: momentum after emission");
  }
  L++;
}
static void partLines(const fissionEventType &d, bool ages) {
  if (d.nu > 0) {
    vp_check(vp_out_cols(L) == 4 * d.nu, "4 columns per cm neutron");
    for (int i = 0; i < d.nu; i++) {
      num(4 * i, d.cmNeutronDircosu[i], T3, "history: cm neutron direction u");
      num(4 * i + 1, d.cmNeutronDircosv[i], T3, "history: cm neutron direction v");
      num(4 * i + 2, d.cmNeutronDircosw[i], T3, "history: cm neutron direction w");
      num(4 * i + 3, d.cmNeutronEnergies[i], T3, "history: cm neutron energy");
    }
    L++;
    vp_check(vp_out_cols(L) == 4 * d.nu, "4 columns per neutron");
    for (int i = 0; i < d.nu; i++) {
      num(4 * i, d.neutronDircosu[i], T3, "history: neutron direction u");
      num(4 * i + 1, d.neutronDircosv[i], T3, "history: neutron direction v");
      num(4 * i + 2, d.neutronDircosw[i], T3, "history: neutron direction w");
      num(4 * i + 3, d.neutronEnergies[i], T3, "history: neutron energy");
    }
    L++;
  }
  if (d.nug > 0) {
    int c = ages ? 5 : 4;
    vp_check(vp_out_cols(L) == c * d.nug, "4 columns per photon, 5 with the emission time");
    for (int i = 0; i < d.nug; i++) {
      num(c * i, d.photonDircosu[i], T3, "history: photon direction u");
      num(c * i + 1, d.photonDircosv[i], T3, "history: photon direction v");
      num(c * i + 2, d.photonDircosw[i], T3, "history: photon direction w");
      num(c * i + 3, d.photonEnergies[i], T3, "history: photon energy");
      if (ages) num(c * i + 4, d.photonAges[i], 1e-5, "history: photon emission time");
    }
    L++;
  }
}
static void preLines() {
  if (npre > 0) {
    vp_check(vp_out_cols(L) == 4 * npre, "4 columns per pre-fission neutron");
    for (int i = 0; i < npre; i++) {
      double v2 = pv[i][0] * pv[i][0] + pv[i][1] * pv[i][1] + pv[i][2] * pv[i][2], v = sqrt(v2);
      for (int k = 0; k < 3; k++)
        vp_close(vp_out(L, 4 * i + k) * v, pv[i][k], T3 * 0.6, "history: pre-fission neutron direction");
      num(4 * i + 3, 0.5 * MN * v2, T3, "history: pre-fission neutron energy");
    }
    L++;
  }
}
static void history(bool ages) {
  fragLine(genL[0], decayed[0], 0);
  partLines(decayed[0], ages);
  fragLine(genH[0], decayed[1], npre);
  partLines(decayed[1], ages);
  preLines();
}
VP_HARNESS(history) {
  limits(0, 0, 0, 2, 0, 2);
  int w = vp_choose("ages", 0, 1);
  cgmfEvent *ev = new cgmfEvent(98252, 0.0, 0.0, w ? -1.0 : 1e-8);
  FILE *f = vp_out_open();
  printEventToFile(f, ev, w ? -1.0 : 1e-8);
  L = 0;
  history(w);
  vp_check(vp_out_lines() == L && vp_out_tail() == 0, "nothing else is written");
  vp_reach("end");
}
VP_HARNESS(historyPre) {
  limits(0, 3, 0, 1, 0, 1);
  cgmfEvent *ev = new cgmfEvent(92238, 14.0, 0.0, 1e-8);
  FILE *f = vp_out_open();
  printEventToFile(f, ev, 1e-8);
  L = 0;
  history(false);
  vp_check(vp_out_lines() == L && vp_out_tail() == 0, "nothing else is written");
  vp_reach("end");
}
// ---- the whole program: command line, header, seeds, averages
char *optarg;
int optind = 1;
extern "C" int getopt(int argc, char *const *argv, const char *opts) {
  if (optind + 1 >= argc) return -1;
  int c = argv[optind][1];
  optarg = argv[optind + 1];
  optind += 2;
  return c;
}
static int argZ, argS, argN;
static double argE, argT;
// $x stands for an unknown value given on the command line
extern "C" int atoi(const char *s) { return s[1] == 'z' ? argZ : s[1] == 's' ? argS : argN; }
extern "C" double atof(const char *s) { return s[1] == 'e' ? argE : argT; }
int cgmf_main(int, char **);
static int event;
static void (*between)();
static double firstdraw() {
  std::mt19937 g(argS + event);
  std::uniform_real_distribution<> d;
  return d(g);
}
static void seedEvent() {
  double r = rng_cgm();
  vp_close(r, firstdraw(), 1e-12, "event i of a run uses the seed (first event number + i)");
  if (between) between();
  event++;
}
static void go(int n, const char *name) {
  static char a0[] = "cgmf", o1[] = "-i", v1[] = "$z", o2[] = "-e", v2[] = "$e", o3[] = "-n", v3[] = "$n", o4[] = "-s",
              v4[] = "$s", o5[] = "-t", v5[] = "$t", o6[] = "-f", v6[] = "vp_out";
  static char *argv[] = {a0, o1, v1, o2, v2, o3, v3, o4, v4, o5, v5, o6, v6, 0};
  argN = n;
  argS = vp_int("first", 1, 1000000);
  onEvent = seedEvent;
  vp_out_name();
  vp_capture_stdout();
  cgmf_main(13, argv);
}
// called for every event by the writer stub below: nothing to stub, the real writer is used
VP_HARNESS(run) {
  limits(0, 0, 0, 0, 0, 1);
  argZ = 98252, argE = 0.0;
  bool ages = vp_choose("ages", 0, 1);
  argT = ages ? -1.0 : 1e-8;
  go(2, "vp_out");
  vp_check(event == 2, "as many events as requested");
  L = 0;
  vp_check(vp_out_is(0, 0, "#") && vp_out_cols(0) == 4, "header line");
  num(1, argZ, 0, "header: target");
  num(2, argE, 1e-5, "header: incident energy");
  num(3, argT, 1e-12, "header: time window");
  // the second event is the last one generated: find it after the first
  L = 1;
  int lines = vp_out_lines();
  int second = 1;
  for (int f = 0; f < 2; f++) {
    int nu = (int)vp_out(second, 7), ng = (int)vp_out(second, 8);
    second += 2 + (nu > 0 ? 2 : 0) + (ng > 0 ? 1 : 0);
  }
  L = second;
  history(ages);
  vp_check(lines == L && vp_out_tail() == 0, "the history file holds exactly the events");
  vp_reach("end");
}
// averages printed at the end: two events
static double nFr[2], nG[2], nPre, aA[2], aZ[2], aKE[2], aU[2], aJ[2], aEc[2], aEl[2], aEg[2], aEp;
static void addEvent() {
  for (int f = 0; f < 2; f++) {
    const fissionFragmentType &g = f ? genH[0] : genL[0];
    const fissionEventType &d = decayed[f];
    aA[f] += g.A, aZ[f] += g.Z, aKE[f] += g.KE, aU[f] += g.U, aJ[f] += g.spin;
    nFr[f] += d.nu, nG[f] += d.nug;
    for (int i = 0; i < d.nu; i++) aEc[f] += d.cmNeutronEnergies[i], aEl[f] += d.neutronEnergies[i];
    for (int i = 0; i < d.nug; i++) aEg[f] += d.photonEnergies[i];
  }
  nPre += npre;
  for (int i = 0; i < npre; i++)
    aEp += 0.5 * MN * (pv[i][0] * pv[i][0] + pv[i][1] * pv[i][1] + pv[i][2] * pv[i][2]);
}
static int npre1;
static double pv1[3][3];
static void keepFirst() { // before the second event is generated: its pre-fission neutrons are known already
  if (event != 1) {
    npre1 = npre;
    memcpy(pv1, pv, sizeof pv);
    return;
  }
  int n = npre;
  double p[3][3];
  memcpy(p, pv, sizeof pv);
  npre = npre1;
  memcpy(pv, pv1, sizeof pv);
  addEvent();
  npre = n;
  memcpy(pv, p, sizeof pv);
}
static double per(double s, double n) { return n > 0 ? s / n : 0.0; }
static void summary() {
  between = keepFirst;
  go(2, "vp_out");
  addEvent();
  int k = vp_nums() - 31;
  vp_check(event == 2 && k >= 0, "averages are printed");
  static const double T = 0.00501;
  for (int f = 0; f < 2; f++) {
    vp_close(vp_num(k + 2 * f), aZ[f] / 2, T, "average charge");
    vp_close(vp_num(k + 2 * f + 1), aA[f] / 2, T, "average mass");
    vp_close(vp_num(k + 4 + f), aKE[f] / 2, T, "average kinetic energy");
    vp_close(vp_num(k + 7 + f), aU[f] / 2, T, "average excitation energy");
    vp_close(vp_num(k + 10 + f), aJ[f] / 2, T, "average spin");
    vp_close(vp_num(k + 13 + f), nFr[f] / 2, T, "average neutron multiplicity");
    vp_close(vp_num(k + 17 + f), per(aEc[f], nFr[f]), T, "average cm neutron energy");
    vp_close(vp_num(k + 21 + f), per(aEl[f], nFr[f]), T, "average neutron energy");
    vp_close(vp_num(k + 25 + f), nG[f] / 2, T, "average photon multiplicity");
    vp_close(vp_num(k + 28 + f), per(aEg[f], nG[f]), T, "average photon energy");
  }
  vp_close(vp_num(k + 6), (aKE[0] + aKE[1]) / 2, T, "average total kinetic energy");
  vp_close(vp_num(k + 9), (aU[0] + aU[1]) / 2, T, "average total excitation energy");
  vp_close(vp_num(k + 12), (aJ[0] + aJ[1]) / 4, T, "average spin of both fragments");
  vp_close(vp_num(k + 15), nPre / 2, T, "average pre-fission multiplicity");
  double n = nFr[0] + nFr[1] + nPre;
  vp_close(vp_num(k + 16), n / 2, T, "average total neutron multiplicity");
  vp_close(vp_num(k + 19), per(aEp, nPre), T, "average pre-fission neutron energy");
  vp_close(vp_num(k + 20), per(aEc[0] + aEc[1] + aEp, n), T, "average cm energy of all neutrons");
  vp_close(vp_num(k + 23), per(aEp, nPre), T, "average pre-fission neutron energy");
  vp_close(vp_num(k + 24), per(aEl[0] + aEl[1] + aEp, n), T, "average energy of all neutrons");
  vp_close(vp_num(k + 27), (nG[0] + nG[1]) / 2, T, "average total photon multiplicity");
  vp_close(vp_num(k + 30), per(aEg[0] + aEg[1], nG[0] + nG[1]), T, "average energy of all photons");
  vp_reach("end");
}
VP_HARNESS(summary) {
  limits(0, 0, 0, 1, 0, 0);
  argZ = 98252, argE = 0.0, argT = 1e-8;
  summary();
}
VP_HARNESS(summaryPhoton) {
  limits(0, 0, 0, 0, 0, 1);
  argZ = 98252, argE = 0.0, argT = 1e-8;
  summary();
}
VP_HARNESS(summaryPre) {
  limits(0, 1, 1, 1, 0, 0);
  argZ = 92238, argE = 14.0, argT = 1e-8;
  summary();
}
// a negative time window other than -1 is refused, any other is used
VP_HARNESS(option) {
  limits(0, 0, 0, 0, 0, 0);
  argZ = 98252, argE = 0.0;
  int k = vp_choose("window", 0, 2);
  argT = k == 0 ? -1.0 : k == 1 ? vp_real("t", 1e-9, 1) : vp_real("t", -10, -1e-9);
  if (k == 2) vp_assume(argT != -1.0);
  wantExit = k == 2;
  wantWindow = k == 2 ? -7 : argT;
  window = -5;
  go(1, "vp_out");
  vp_check(k != 2, "a negative time window other than -1 is refused");
  vp_check(event == 1, "one event");
  vp_reach("accepted");
}
VP_HARNESS(yieldsFile) {
  argZ = 92235, argE = vp_real("E", 0.1, 20), argT = 1e-8;
  limits(0, 1, 0, 0, 0, 0);
  go(-2, "vp_out");
  vp_check(event == 1 && ffCount == 2 && ffZaid == 92235, "one sequence of as many events as requested");
  vp_check(ffE == argE, "at the requested energy");
  vp_check(vp_out_lines() == 4 && vp_out_tail() == 0, "two lines per event");
  for (int i = 0; i < 4; i++) {
    const fissionFragmentType &g = i % 2 ? genH[i / 2] : genL[i / 2];
    L = i;
    vp_check(vp_out_cols(i) == 9, "nine columns");
    num(0, g.Z, 0, "yields: charge");
    num(1, g.A, 0, "yields: mass");
    num(2, g.KE, 0.001, "yields: kinetic energy");
    num(3, g.U, 0.001, "yields: excitation energy");
    num(4, g.spin, 0.001, "yields: spin");
    num(5, g.parity, 0, "yields: parity");
    for (int k = 0; k < 3; k++) num(6 + k, g.preMomentum[k], 0.03, "yields: momentum");
  }
  vp_reach("end");
}
#endif

// ---------------------------------------------------------------- decay of a single nucleus (P32)
#ifdef VP_SINGLE
static int sZ, sA, sCalls;
static double sU;
static int gb[3], nb[2], gn[3], nn_[2];
void specMCMain(double, int, double, double, unsigned long n, double **s) {
  sCalls++;
  sZ = ncl[0].za.getZ(), sA = ncl[0].za.getA(), sU = ncl[0].max_energy;
  vp_check(n == 1, "one decay is simulated");
  ncl[0].de = ENERGY_BIN;
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < MAX_ENERGY_BIN; k++) s[i][k] = 0;
  for (int i = 0; i < 3; i++) s[0][gb[i]] = gn[i];
  for (int i = 0; i < 2; i++) s[1][nb[i]] = nn_[i];
}
VP_HARNESS(single) {
  ncl = new Nucleus[1];
  for (int i = 0; i < SPECTRA_OUTPUT; i++) spc[i] = new double[2500];
  static const int za[3] = {6012, 54140, 118299};
  int zaid = za[vp_choose("nucleus", 0, 2)], z = zaid / 1000, a = zaid % 1000;
  double u = vp_real("U", 0.1, 60);
  gb[0] = 1, gb[1] = 40, gb[2] = 41, nb[0] = 3, nb[1] = 200;
  for (int i = 0; i < 3; i++) gn[i] = vp_choose("photons", 0, i == 2 ? 1 : 2);
  for (int i = 0; i < 2; i++) nn_[i] = vp_choose("neutrons", 0, 2 - i);
  cgmEvent *ev = new cgmEvent(zaid, u, 0.0);
  vp_check(sCalls == 1 && sZ == z && sA == a, "the requested nucleus decays");
  vp_close(sU, u, 1e-12, "at the requested excitation energy");
  int ng = gn[0] + gn[1] + gn[2], nn = nn_[0] + nn_[1], k = 0;
  vp_check(ev->getPhotonNu() == ng, "photon multiplicity");
  vp_check(ev->getNeutronNu() == nn, "neutron multiplicity");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < gn[i]; j++, k++) vp_close(ev->getPhotonEnergy(k), gb[i] * ENERGY_BIN, 1e-9, "photon energies");
  k = 0;
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < nn_[i]; j++, k++) vp_close(ev->getNeutronEnergy(k), nb[i] * ENERGY_BIN, 1e-9, "neutron energies");
  vp_reach("end");
}
#endif
