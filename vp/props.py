"""Which harness entries decide which property."""
from .runner import Entry as E

MASS = 'mass table lookups stubbed: one unknown mass excess in [-120,120] MeV per nuclide'
REAL = 'doubles are exact reals in the encoding; IEEE rounding is covered only by the stated tolerances'
RNG = 'the random source is any sequence of numbers in [0,1)'

PROPS = {}


def prop(pid, entries, assumptions=()):
    PROPS[pid] = (entries, [REAL] + list(assumptions))


prop('P01', [E('kin', 'neutrons', 150, stubs=[MASS], bounds='0..5 neutrons, two fragments, |p_i|<=5 GeV/c, 0<=Ecm<=30 MeV')],
     [MASS, RNG])
prop('P02', [E('kin', 'photons', 60, stubs=[MASS], bounds='0..2 neutrons then 1..4 photons, 1 keV<=Eg<=20 MeV')],
     [MASS, RNG])
prop('P03', [E('kin', n, 150, stubs=[MASS], bounds=b) for n, b in [
    ('fission', '0..3 pre-fission neutrons, isotropic, 0<=En<=20, 100<=TKE<=260, fragment masses unknown'),
    ('fissionTKE', '0..1 pre-fission neutrons, fragment masses adding up to the parent mass'),
    ('fissionPreeq', '1..3 pre-fission neutrons, the first pre-equilibrium with a tabulated angle, parent masses fixed'),
    ('preeqMass', 'one pre-equilibrium neutron at fixed angle, TKE and fragment masses free'),
    ('anisotropic', 'no pre-fission neutron, tabulated fragment angle')]], [MASS, RNG])

prop('P31', [E('kin', 'isotropicDecay', 60, stubs=[MASS], bounds='0..3 neutrons and 0..4 photons of any energy, one fragment momentum'),
             E('kin', 'isotropicFission', 60, stubs=[MASS], bounds='0..3 pre-fission neutrons, 100<=TKE<=260, parent and fragment masses fixed')],
     [MASS, RNG])

LEV = 'discrete levels stubbed: ground state and two excited levels with unknown energies, branchings, half-lives'
HF = 'Hauser-Feshbach step stubbed by an arbitrary energetically allowed final state (or none)'
BOOST = 'emission kinematics (P01/P02) stubbed by arbitrary velocities that conserve momentum'
MC = [MASS, LEV, HF, BOOST, RNG]
prop('P04', [
    E('mc', 'record', 100, defs=('-DVP_RECORD',), stubs=[MASS, BOOST], bounds='0..3 recorded particles of any kind and order'),
    E('mc', 'recordGamma', 100, stubs=MC, bounds='2.5<=U<=3, one continuum step'),
    E('mc', 'recordNeutron', 150, stubs=MC, bounds='4.5<=U<=5, one neutron then discrete decay'),
    E('mc', 'recordTwo', 250, stubs=MC, bounds='6.9<=U<=7.2, two neutrons then discrete decay')], MC)
prop('P05', [
    E('mc', 'balanceGamma', 150, stubs=MC, bounds='2.5<=U<=3, up to 3 continuum steps, grid of 1 MeV'),
    E('mc', 'balanceNeutron', 150, stubs=MC, bounds='4.5<=U<=5, neutron first, up to 2 steps'),
    E('mc', 'balanceTwo', 150, stubs=MC, bounds='6.9<=U<=7.2, two neutrons, 3 steps'),
    E('mc', 'balanceMixed', 250, stubs=MC, bounds='4.9<=U<=5.2, photon then neutron, 3 steps'),
    E('mc', 'discreteStart', 100, stubs=MC, bounds='0<=U<=top discrete level'),
    E('mc', 'conversion', 100, stubs=MC, bounds='conversion ratio 0..1 on every transition')], MC)
prop('P06', [
    E('mc', 'window', 200, stubs=MC, bounds='one continuum photon then discrete decay, half-lives 1e-9..1 s, window 1e-9..1e-3 s or none'),
    E('mc', 'halflife', 100, stubs=MC, bounds='one isomeric level')], MC)

KIN = 'fission kinematics (P03) stubbed by arbitrary fragment momenta; arguments recorded'
STK = 'kinetic-energy sampling (P12) stubbed by an arbitrary value in [100,260] MeV'
TAB = 'mass, temperature, level-density and deformation tables filled with unknown values in physical ranges'
FFS = [KIN, STK, TAB, RNG]
prop('P07', [E('ff', n, 150, stubs=FFS, bounds=b) for n, b in [
    ('pairLight', 'light masses 95..96, charge window of 3, one rejected trial'),
    ('pairHeavy', 'heavy masses 139..140, odd nucleus after one lost neutron, one rejected trial'),
    ('pairSpin', 'one mass, both spin regimes and parities'),
    ('pairSym', 'masses 117..119 around half of 236'),
    ('pairSymOdd', 'masses 119..120 around half of 239'),
    ('pairTabLight', 'tabulated Y(A,TKE), masses 95..96, TKE 165..166'),
    ('pairTabHeavy', 'tabulated Y(A,TKE), masses 139..140, TKE 165..166'),
    ('histories', 'two events in sequence, rejected events drawn again')]], FFS)
prop('P08', [E('ff', n, 100, stubs=[TAB], bounds=b) for n, b in [
    ('shareFixed', '0<=TXE<=89 MeV, fixed temperature ratio 0.5..2, level density parameters 3..25'),
    ('shareVarying', 'parameters varying by up to 0.3 percent with energy, ratio 0.8..1.6'),
    ('shareRTA', 'ratio tabulated by target and heavy mass, or missing'),
    ('sharePfactors', 'ratio from the P factors, or zero factor'),
    ('tables', '0<=E<=74.9 MeV on a grid of 6 energies'),
    ('tablesMissing', 'nuclide missing from the tables')]], [TAB])
prop('P09', [E('ff', n, 100, stubs=[TAB], bounds=b) for n, b in [
    ('spin', 'one nuclide of each parity of A, one rejected trial, 50 spins'),
    ('spinWidth', '-0.3<=beta2<=0.5, 0<=U<=39 MeV, alpha 0.5..3'),
    ('spinScaling', 'user value, tabulated (any row) or default; -3<=E<=20 MeV'),
    ('compoundOne', 'scaling used after one neutron has been lost')]], [TAB, RNG])
YS = 'mass-yield model stubbed by arbitrary yields'
LVD = 'optical model and level density stubbed by arbitrary positive values'
prop('P10', [E('yld', 'yieldEven', 100, bounds='A=236, eight representative masses, any mode parameters'),
             E('yld', 'yieldOdd', 150, opts={'mono': 0}, bounds='A=239, eight representative masses, any mode parameters'),
             E('yld', 'system', 100, bounds='0..3 neutrons lost, tabulated or not, 0<=E<=20 MeV, any parameters'),
             E('yld', 'files', 60, bounds='fixture parameter files with 8 systems; spontaneous or induced, 0..3 neutrons lost, 0<=E<=20 MeV'),
             E('yld', 'lines', 60, bounds='one parameter line of each kind, any chance, 0<=E<=20 MeV'),
             E('ff', 'compoundN', 200, stubs=[TAB, YS], bounds='masses 116..120, any yields, zero yields included'),
             E('ff', 'compoundSF', 200, stubs=[TAB, YS], bounds='masses 116..120, any yields, zero yields included')],
     ['exp/log uninterpreted with monotonicity'])
prop('P11', [E('ff', 'charge', 100, bounds='one mass chain, 5 charges, any parameters, leftovers of an earlier event'),
             E('ff', 'chargeNoWidth', 60, bounds='one mass chain, width zero or missing'),
             E('ff', 'chargeTotal', 60, bounds='three masses, four charges'),
             E('ff', 'compoundN', 200, stubs=[TAB, YS], bounds='masses 116..120, any yields')],
     ['erf uninterpreted with monotonicity'])
prop('P12', [E('yld', n, 100, bounds=b) for n, b in [
    ('rescaleEven', '15 masses around 118, any coefficients up to eighth order, 0<=E<=20 MeV'),
    ('rescaleOdd', '16 masses around 119.5, any coefficients up to eighth order, 0<=E<=20 MeV'),
    ('sampleEven', 'six masses and their partners, one rejected pair of random numbers'),
    ('sampleOdd', 'six masses and their partners, one rejected pair of random numbers')]], [RNG])
prop('P13', [E('ff', 'multichance', 60, bounds='fixture table of 3 targets, 5 energies; 0<E<=20 MeV'),
             E('ff', 'number', 100, bounds='up to 3 neutrons, any probabilities, one rejected trial'),
             E('ff', 'compoundN', 200, stubs=[TAB, YS], bounds='no neutron lost, any excitation energy'),
             E('ff', 'compoundSF', 200, stubs=[TAB, YS], bounds='spontaneous fission'),
             E('ff', 'compoundOne', 100, stubs=[TAB, YS], bounds='one neutron lost, two final states, any masses'),
             E('ff', 'preOne', 100, stubs=[LVD], bounds='one neutron, Ex 14.3..14.9, 1 MeV bins, one rejected trial'),
             E('ff', 'preTwo', 200, stubs=[LVD], bounds='two neutrons, Ex 20.3..20.9, 1 MeV bins'),
             E('ff', 'preThree', 300, tier='thorough', stubs=[LVD], bounds='three neutrons, Ex 26.3..26.9, 1 MeV bins'),
             E('ff', 'preeqFraction', 60, bounds='four targets or none, any parameters')], [TAB, YS, LVD, RNG])
prop('P14', [E('ff', 'anisotropyEnergy', 100, bounds='201 tabulated energies and everything nearer than half a step to one, target tabulated or not'),
             E('ff', 'anisotropyCdf', 60, bounds='anisotropy 0.5..3'),
             E('ff', 'preeqAngle', 100, bounds='one final state, any coefficients near a positive distribution'),
             E('kin', 'anisotropic', 150, stubs=[MASS], bounds='no pre-fission neutron, tabulated fragment angle')], [RNG])

FRAG = 'fragment initial conditions (P07-P14) stubbed by arbitrary fragments and 0..n pre-fission neutrons'
DEC = 'fragment decay (P01-P06) stubbed by arbitrary particles'
DRV = dict(defs=('-DVP_DRIVER', '-Dmain=cgmf_main', '-D__NO_INLINE__'), extra=('utils/cgmf/cgmf.cpp',))
EVA = [FRAG, DEC, 'data readers stubbed (no data)']
prop('P15', [E('ev', n, t, stubs=EVA, bounds=b) for n, t, b in [
    ('event', 100, '0..3 neutrons and 0..3 photons per fragment, any values'),
    ('eventMany', 100, 'as many neutrons and photons per fragment as can be recorded'),
    ('eventPre', 100, '0..3 pre-fission neutrons, 0..1 particles of each kind per fragment, any energy up to 20 MeV'),
    ('eventRange', 60, 'any index in -1000..1000, 0..2 pre-fission neutrons'),
    ('eventTwo', 150, 'two events after each other, 0..1 particles of each kind'),
    ('windows', 60, 'two events with or without a time window of 1e-9..1 s'),
    ('capi', 150, 'C interface, one or two events, 0..1 particles of each kind')]], EVA)
prop('P16', [E('ev', 'input', 60, stubs=EVA, bounds='-130000<=ZAID<=130000, -50<=E<=200 MeV'),
             E('ev', 'rangeCGM', 60, bounds='-5<=Z<=200, -5<=A<=400, -10<=E<=300 MeV'),
             E('ev', 'option', 60, stubs=EVA, bounds='time window -1, 1e-9..1 s, or any other in -10..0', **DRV)], EVA)
TXT = 'text written with printf/iostream conversions modelled as the value with a bounded rounding error'
prop('P17', [E('ev', n, t, stubs=EVA + [TXT], bounds=b, **DRV) for n, t, b in [
    ('history', 100, '0..2 neutrons and photons per fragment, with and without emission times'),
    ('historyPre', 150, '0..3 pre-fission neutrons, 0..1 particles of each kind per fragment'),
    ('run', 100, 'whole program, two events, header line'),
    ('yieldsFile', 60, 'whole program in yields mode, two events')]], EVA + [TXT])
MT = 'std::mt19937 and generate_canonical abstracted: k-th number = unknown function of seed and k'
prop('P18', [E('ev', n, t, stubs=EVA + [TXT, MT], bounds=b, **DRV) for n, t, b in [
    ('run', 100, 'two events, first event number 1..1e6'),
    ('yieldsFile', 60, 'yields mode, first event number 1..1e6'),
    ('summary', 60, 'two events, 0..1 neutrons per fragment'),
    ('summaryPhoton', 60, 'two events, 0..1 photons per fragment'),
    ('summaryPre', 60, 'two events, one neutron per fragment, 0..1 pre-fission neutrons')]], EVA + [TXT, MT])

TR = 'photon and neutron transmission coefficients stubbed by known functions of energy with unknown strengths'
DEN = 'level density stubbed'
HFD, MCD = dict(defs=('-DVP_HF',)), dict(defs=('-DVP_MC',))
prop('P25', [
    E('hf', 'photonsLow', 150, stubs=[TR], bounds='integer and half-integer spins 0..3/2, both parities, one lower continuum bin and two levels, any densities', **HFD),
    E('hf', 'photonsHigh', 150, stubs=[TR], bounds='spins 2..7/2', **HFD),
    E('hf', 'neutronsLow', 150, stubs=[TR], bounds='spins 0..3/2, s and p waves, daughter with two bins and two levels', **HFD),
    E('hf', 'neutronsHigh', 200, stubs=[TR], bounds='spins 2..5/2, s, p and d waves', **HFD),
    E('hf', 'closed', 60, stubs=[TR], bounds='energies below the neutron separation energy', **HFD),
    E('hf', 'trapped', 60, stubs=[TR], bounds='spins 9..21/2 without any allowed transition', **HFD),
    E('hf', 'cascade', 60, stubs=[TR], bounds='deterministic cascade of two nuclei, 3 bins and 3 levels, fixed widths, any initial population and branchings', **HFD),
    E('hf', 'choice', 60, stubs=[DEN], bounds='nine final states with any populations, two random numbers', **MCD),
    E('hf', 'restore', 60, stubs=[DEN], bounds='4..6 MeV, any leftovers', **MCD)], [TR, RNG])
prop('P26', [
    E('hf', 'chain', 60, stubs=[MASS], bounds='4 nuclides, 0.1<=U<=60 MeV, any masses', defs=('-DVP_CHAIN',)),
    E('hf', 'grid', 60, bounds='10 bins of 0.25..1 MeV, 0..3 levels, -2<=U<=9 MeV', defs=('-DVP_CHAIN',)),
    E('hf', 'bin', 60, bounds='12 bins of 0.01..0.9 MeV', defs=('-DVP_CHAIN',))], [MASS])
prop('P27', [
    E('hf', n, 60, bounds=b, defs=('-DVP_GDR',)) for n, b in [
        ('strengthOne', 'one resonance of any multipole, 0.01..4 MeV photons, leftovers of an earlier nucleus'),
        ('strengthTwo', 'two resonances of any multipole, 4..20 MeV photons'),
        ('strengthZero', 'zero energy'),
        ('resonance', 'four nuclides, any deformation and level density parameter')]])
prop('P28', [
    E('hf', n, 60, bounds=b, defs=('-DVP_LD',)) for n, b in [
        ('density', '0..30 MeV, any parameters with a matching energy'),
        ('densityCT', '0..30 MeV, constant temperature only'),
        ('spinDistribution', 'spins 0..6, any spin cutoffs'),
        ('cutoffLevels', '0..4 levels of any spin')]] + [
    E('hf', 'table', 60, stubs=[DEN], bounds='0..3 bins, 4 spins', defs=('-DVP_POP',))])
FIL = 'the data file is a text of known layout with unknown numbers in its fields'
prop('P29', [
    E('hf', n, t, stubs=[FIL], bounds=b, defs=('-DVP_LEV',)) for n, t, b in [
        ('levels', 150, 'two nuclides of 2..3 levels with 1..2 transitions each, a third one missing'),
        ('levelsAssumed', 150, 'four levels without transitions, spins 0..7/2 (0..3/2 for the lower ones)'),
        ('levelsCGM', 60, 'three nuclides with or without a gap or an unknown ground state'),
        ('levelsFirst', 60, 'first nuclide of the data with two missing daughters'),
        ('groundState', 60, 'eight nuclides that are not in the data'),
        ('levelsFixed', 60, 'three levels with or without spin and parity')]], [FIL])
prop('P30', [
    E('hf', 'popSingle', 60, bounds='six spins, both parities', defs=('-DVP_POP',)),
    E('hf', 'popLevden', 60, stubs=[DEN], bounds='six spins, any spin distribution', defs=('-DVP_POP',)),
    E('hf', 'popTransmission', 60, bounds='s, p and d waves, target spins 0..3/2', defs=('-DVP_POP',)),
    E('hf', 'popLevel', 60, bounds='1..4 levels', defs=('-DVP_POP',)),
    E('hf', 'startSample', 60, stubs=[DEN], bounds='eight states with any populations, two random numbers', **MCD),
    E('hf', 'startFixed', 60, stubs=[DEN], bounds='six spins, both parities', **MCD)], [RNG])

prop('P32', [E('mc', 'singleDiscrete', 100, defs=('-DVP_RECORD',), stubs=MC, bounds='0<=U<=1.2 MeV among three levels, energy bins of 0.2 MeV, any conversion ratio'),
             E('mc', 'singleGamma', 100, defs=('-DVP_RECORD',), stubs=MC, bounds='2.5<=U<=3, up to two continuum steps and the discrete cascade, bins of 1 MeV'),
             E('mc', 'singleNeutron', 250, defs=('-DVP_RECORD',), stubs=MC, bounds='6.9<=U<=7.2, up to two neutrons, bins of 1 MeV'),
             E('ev', 'single', 150, defs=('-DVP_SINGLE',), opts={'max_steps': 200000000}, stubs=['decay stubbed: 0..2 photons in each of three bins, 0..2 neutrons in two bins'],
               bounds='three nuclei, 0.1<=U<=60 MeV')], MC)

OMD, OMK = dict(defs=('-DVP_OMCALC',)), dict(defs=('-DVP_OMKD',))
WAVE = 'for the assembly of the coefficients the waves and the S-matrix are stubbed by unknown numbers'
prop('P33', [
    E('om', 'coefficients', 60, stubs=[WAVE], bounds='s and p waves, any S-matrix with |Re S|, |Im S| <= 1.1, any energy', **OMD),
    E('om', 'coefficientsMore', 120, stubs=[WAVE], bounds='s, p and d waves, any real part of S', **OMD),
    E('om', 'coefficientsClosed', 20, stubs=[WAVE], bounds='-10..0 MeV', **OMD),
    E('om', 'matching', 60, bounds='wave functions that are polynomials of degree 4 around the matching point, any logarithmic derivative'),
    E('om', 'matchingWave', 60, bounds='any curvature up to the fifth derivative'),
    E('om', 'matchingBoundary', 60, bounds='any outgoing wave, matching radius 4..20 fm'),
    E('om', 'unitary', 60, bounds='any real wave function'),
    E('om', 'insideWell', 60, bounds='l=0..2, both j, 3 mesh points, any real potential and wave number'),
    E('om', 'insideSpinOrbit', 60, bounds='l=0..2, both j, 4 mesh points, any spin-orbit potential'),
    E('om', 'insideAbsorption', 60, bounds='l=0..2, both j, 4 mesh points, any absorption and wave number'),
    E('om', 'outsideLow', 100, bounds='0.01<=kr<=0.02'),
    E('om', 'outsideMid', 100, bounds='0.1<=kr<=0.11'),
    E('om', 'outsideHigh', 150, bounds='0.4<=kr<=0.42')], [WAVE])
prop('P34', [
    E('om', 'parameters', 60, bounds='eight nuclides of mass 70..172, 0.001..20 MeV', **OMK),
    E('om', 'wavenumber', 20, bounds='1e-6..30 MeV', **OMK),
    E('om', 'formDepth', 60, bounds='any depths, mesh of 2.5 fm', **OMK),
    E('om', 'formRadius', 60, bounds='radii 3..8 fm', **OMK),
    E('om', 'formWidth', 60, bounds='diffusenesses 0.4..0.8 fm', **OMK),
    E('om', 'formTerms', 60, bounds='with and without either absorption term, 0.001..20 MeV', **OMK),
    E('om', 'formSpinOrbit', 60, bounds='any spin-orbit radii and diffusenesses', **OMK)])
prop('P35', [
    E('hf', n, t, bounds=b, defs=('-DVP_LDP',)) for n, t, b in [
        ('connect', 60, 'four nuclides, last level 1 or 2.5 MeV, any number of levels and spin cutoff; searches that end within 16 evaluations'),
        ('connectKnown', 60, 'six nuclides with known levels, the search followed to its end'),
        ('connectFew', 20, 'one or two levels, any parameters'),
        ('extrapolate', 90, 'four nuclides, two temperatures, any energy shift; searches that end within 10 evaluations'),
        ('extrapolateKnown', 60, 'five nuclides, the search followed to its end')]] + [
    E('hf', n, t, stubs=[FIL] + ['ldTGconnect, ldTextrapolate: only their calls are observed'] * (n == 'parameters'), bounds=b, defs=('-DVP_LDS',)) for n, t, b in [
        ('parameters', 90, 'three nuclides of the table with any numbers, 1..3 levels'),
        ('missing', 30, 'nine nuclides, one of them in the table')]], [FIL])
EXB = lambda d: dict(defs=('-DVP_' + d,))
prop('P36', [
    E('exc', 'evaporation', 60, stubs=['neutron cross sections and level density: any positive numbers'], bounds='1..4 bins of any energy, first or second neutron', **EXB('SPC')),
    E('exc', 'preequilibrium', 60, stubs=['masses, energy bins, cross sections and rates: any numbers'], bounds='two targets, 5..20 MeV, 1..4 bins', **EXB('SPC')),
    E('exc', 'model', 90, stubs=['state densities, transition rates and occupations: any numbers for one configuration at a time'], bounds='four particle-hole configurations, three bins', **EXB('EXM'))] + [
    E('exc', n, t, bounds=b, **EXB('EXP')) for n, t, b in [
        ('constants', 20, 'Z 90..94, A 231..240'),
        ('blocking', 30, 'up to three particles and holes of each kind, any densities'),
        ('elements', 30, '1..11 excitons, 5..30 MeV'),
        ('pairing', 30, '1..7 excitons, three pairing energies, 0.1..25 MeV'),
        ('deepWell', 30, 'up to four holes, 0.1..120 MeV'),
        ('shallowWell', 60, '2..4 excitons, depths 12..30 MeV, 0.1..60 MeV'),
        ('oneHole', 20, 'depths 12..30 MeV, 0.1..60 MeV'),
        ('stateDensity', 60, 'up to two particles and holes of each kind, -1..25 MeV'),
        ('stateDensityWell', 30, 'four configurations at fixed energies')]] + [
    E('exc', n, 90, stubs=['state densities: linear functions of the energy, different for every configuration'], bounds='six configurations, 5..25 MeV, any matrix elements', **EXB('LAM'))
    for n in ('protonPair', 'neutronPair', 'exchange', 'first')] + [
    E('exc', n, 60, bounds=b, **EXB('OCC')) for n, b in [
        ('occupation', 'configurations of up to three holes, each rate of the first four unknown in turn'),
        ('occupationFull', 'all 36 configurations, six sets of rates')]] + [
    E('om', 'crossSection', 60, stubs=['scattering matrix elements: any numbers'], bounds='s and p waves', **OMD)])
