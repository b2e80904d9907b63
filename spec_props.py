BND = 'Bounded: every input, random sequence and path within the stated bounds; exact-real arithmetic, so rounding is only covered by the tolerances; '
prop('P01', 'Neutron emission conserves momentum and energy in the lab frame',
     'For every fragment, momentum and sequence of emitted neutrons, each neutron\'s laboratory velocity is its velocity in the emitting '
     'fragment\'s frame plus that fragment\'s velocity, its centre-of-mass speed carries exactly the sampled centre-of-mass energy, and its '
     'laboratory energy is its kinetic energy. The momenta of the neutrons and of the remaining fragment always add up to the momentum the '
     'fragment started with, with the fragment\'s mass updated after each emission.',
     ['inputs'], 'every initial momentum, nuclide masses, neutron energies and emission angles; 0 to 5 neutrons',
     'Event-level tests compare a few fixed-seed histories (and cannot even run without the level data); they never vary masses, angles and multiplicities independently.',
     ['libcgmf/src/kinematics.cpp'], [('neutron loop of boost()', 'libcgmf/src/kinematics.cpp')],
     BND + 'the mass table is replaced by arbitrary masses.', observe=['neutron lab velocities and energies, fragment momentum after emission'])
prop('P02', 'Photon lab energies follow the Doppler shift of the moving fragment',
     'For every photon emitted by a moving fragment, the laboratory energy equals the relativistic Doppler shift of the emission energy for the '
     'fragment velocity left after neutron emission and the photon\'s angle to the motion, is positive, and stays within the forward/backward limits. '
     'Photon momenta have exactly the corresponding energy and the direction is the same in both reported frames.',
     ['inputs'], 'every fragment momentum, masses, photon energy and direction; 1 to 4 photons after 0 to 2 neutrons',
     'No test checks a photon\'s lab energy against its angle; fixed-seed averages hide a wrong angle or mass.',
     ['libcgmf/src/kinematics.cpp'], [('photon loop of boost()', 'libcgmf/src/kinematics.cpp')],
     BND + 'the mass table is replaced by arbitrary masses.', observe=['photon lab energies and directions'])
prop('P03', 'Fission kinematics conserve momentum and share the kinetic energy',
     'For every incident energy, set of pre-fission neutrons and total kinetic energy, the two fragments and the pre-fission neutrons together carry '
     'the momentum of the incident neutron, each pre-fission neutron is emitted from the nucleus left by the previous ones, and the two fragments '
     'fly apart with the sampled total kinetic energy. This holds for isotropic, tabulated (anisotropic) and pre-equilibrium emission alike.',
     ['inputs', 'configurations'], 'every incident energy, TKE, fragment masses, emission angles; 0 to 3 pre-fission neutrons, with and without pre-equilibrium emission',
     'The yields tests print fixed-seed momenta for a few systems; pre-equilibrium and multi-neutron branches with arbitrary angles are not exercised.',
     ['libcgmf/src/kinematics.cpp'], [('boost_pfn()', 'libcgmf/src/kinematics.cpp')],
     BND + 'fragment masses arbitrary, parent masses fixed in the deepest scenario.', observe=['fragment momenta, pre-fission neutron velocities'])
prop('P04', 'An event records exactly the particles that were emitted',
     'For every decay history, the event lists every emitted neutron and photon once, in emission order, with the energies and unit direction '
     'cosines of its kinematics in both frames, and counts conversion electrons as neither. The recorded final momentum and kinetic energy of the '
     'fragment are those left after its neutrons, whatever the record held before.',
     ['inputs', 'histories'], 'every sequence of up to 3 emissions of any kind, every energy, direction and momentum, fresh or reused event records',
     'Needs arbitrary emission sequences and reused records; tests only compare a few fixed-seed histories.',
     ['libcgmf/src/specmc.cpp', 'libcgmf/include/config-ff.h'], [('recordEmittedParticlesFission()', 'libcgmf/src/specmc.cpp')],
     BND + 'kinematics and nuclear structure are arbitrary stand-ins.', observe=['fields of the fission event'])
prop('P05', 'De-excitation accounts for all of the excitation energy',
     'For every fragment and every path of its decay, the centre-of-mass energies of the emitted neutrons, their separation energies and the photon '
     'energies add up to the initial excitation energy; energy may be missing only through internally converted transitions or an isomer outliving the time '
     'window. A fragment formed among the discrete levels decays from the level closest to its excitation energy, and no emitted energy is negative.',
     ['inputs', 'histories'], 'every excitation energy in the stated ranges, level scheme, decay path and random sequence; up to 3 continuum steps and 2 neutrons',
     'Quantified over decay paths and level schemes; tests compare averages only.',
     ['libcgmf/src/specmc.cpp', 'libcgmf/src/popinit.cpp', 'libcgmf/src/setup.cpp'],
     [('mcHistoryLoop, mcFindNext, mcGammaCascade, mcStoreHistory', 'libcgmf/src/specmc.cpp'), ('statStoreLevelExcite', 'libcgmf/src/popinit.cpp')],
     BND + 'the Hauser-Feshbach probabilities are replaced by an arbitrary choice of allowed final state.', observe=['neutron and photon energies of the event'])
prop('P06', 'Photon emission times obey the level half-lives and the time window',
     'Photons from the continuum have age zero, ages never decrease along a cascade, and each isomeric level delays what follows by a time whose median is the '
     'half-life of that level. With a coincidence window no photon is reported later than the window and the cascade stops only in a level that outlives it; '
     'without a window the whole cascade is reported.',
     ['inputs', 'histories'], 'every level half-life, window and random number; cascades through two excited levels',
     'Depends on random decay times against a threshold; the tests that exercise timing only read a stored history file.',
     ['libcgmf/src/specmc.cpp'], [('mcGammaCascade', 'libcgmf/src/specmc.cpp')],
     BND + 'logarithm and exponential are uninterpreted with monotonicity and exact anchor values.', observe=['photon ages and multiplicity'])
FFS = 'libcgmf/src/FissionFragments.cpp'
prop('P07', 'Fragment pairs conserve charge, mass and energy',
     'For every fission event, the two fragments\' masses and charges add up to those of the fissioning nucleus, the light one is not the heavier, their kinetic energies '
     'add up to the sampled total kinetic energy and are shared inversely to the masses, and their excitation energies add up to energy release plus incident and separation '
     'energy minus total kinetic energy. Masses, charges and kinetic energies of zero yield or outside their ranges are never drawn, energetically forbidden events are never kept, and the '
     'spins are integer for even and half-integer for odd mass.',
     ['inputs', 'histories'], 'every yield table, mass table, energy and random sequence within the windows; systematics and tabulated yields; sequences of two events',
     'Quantified over yield tables, masses and rejected draws; the reference tests compare a few seeds of three systems.',
     [FFS], [('sampleFissionFragments, computeFragmentInitialConditions, generateInitialFissionFragmentHistories', FFS)],
     BND + 'mass windows of one to three masses, charge window of three; fission kinematics and TKE sampling are arbitrary stand-ins.',
     observe=['initial conditions of the fragment pair'])
prop('P08', 'Excitation energy is shared by the prescribed temperature ratio',
     'For every total excitation energy, the two fragments receive non-negative energies that add up to it exactly and whose ratio is that of their level density parameters times the '
     'square of the temperature ratio. The ratio is the fixed, tabulated (by target and heavy mass) or computed one as configured, one where none is tabulated, and tabulated level densities and '
     'temperatures are interpolated linearly in energy, with defaults for missing nuclides.',
     ['inputs', 'configurations'], 'every total excitation energy up to 89 MeV, level density parameters, temperature ratios and sharing options',
     'The iteration must converge to the right ratio for every pair of level density tables; the tests only see fixed systems with one option.',
     [FFS], [('computeFragmentExcitationEnergy, getLDP, getTemperature', FFS)],
     BND + 'level density parameters constant or varying by up to 0.3 percent.', observe=['light and heavy excitation energies'])
prop('P09', 'Initial spins follow the rotational distribution of the fragment',
     'For every fragment, each spin is accepted with probability (2J+1)exp(-J(J+1)/2B^2), normalised, over integer spins for even and half-integer spins for odd mass. The width is the rigid '
     'moment of inertia of the fragment\'s own deformation times the spin scaling times its own temperature, and the scaling is the user\'s, else the tabulated one of the nucleus and reaction type, '
     'else the default, growing linearly with energy and constant below zero.',
     ['inputs', 'configurations'], 'every random sequence with up to one rejected trial, deformation, temperature, excitation energy, scaling table',
     'A distribution cannot be settled by a few samples; the scaling lookup has branches no test configures.',
     [FFS], [('getInitialSpin, spinParameter2, setSpinStrength', FFS)],
     BND + 'one nuclide of each parity for the sampling itself.', observe=['spin, spin cut-off parameter, spin scaling'])
prop('P10', 'Mass yields are normalised, symmetric and follow the fission-mode model',
     'For every fissioning nucleus and energy, the mass yields are non-negative, equal for complementary masses, follow the sum of the fission-mode Gaussians (dropped below the cut-off) and are '
     'normalised to one over exactly the masses that have a yield. Mode weights are Fermi functions that add up to two fragments, means and widths are linear in energy, and parameters missing for a '
     'nucleus are those of the first chance shifted by the neutrons lost; the average kinetic energy is the tabulated broken line or the systematics.',
     ['inputs', 'configurations'], 'every mode parameter, energy up to 20 MeV, 0 to 3 neutrons lost, tabulated or not; even and odd nuclei',
     'Tests pin three systems at one energy each; borrowed parameters, odd nuclei and cut-offs are not reached.',
     ['libcgmf/src/Yields.cpp', FFS], [('yieldA, setFissioningSystem, LoadYAParams, LoadTKEParams, averageTKE', 'libcgmf/src/Yields.cpp'), ('constructYields', FFS)],
     BND + 'eight representative masses per nucleus.', observe=['mass yields, mode parameters, average kinetic energy'])
prop('P11', 'Charge yields of a mass chain add up to its mass yield',
     'For every mass chain, the charge yields are non-negative, add up to the mass yield, and are proportional to the Gaussian integral around the most probable charge times the odd-even factors of '
     'proton and neutron number, with a single charge when there is no width. Whatever an earlier event left behind does not matter, both charge tables agree, the sampling bounds cover every entry, and the '
     'total charge distribution is the sum over masses, normalised to one.',
     ['inputs', 'histories'], 'every mass yield, most probable charge, width and odd-even factor; leftovers of an earlier event',
     'Sum rules over all tables; the tests see three fixed tables.',
     [FFS], [('buildYZA, buildYZ, constructYields', FFS)], BND + 'one to five mass chains, three to five charges.', observe=['charge yields'])
prop('P12', 'Total kinetic energies reproduce the prescribed averages and widths',
     'For every set of parameters and yields, the yield-weighted mean kinetic energy equals the average prescribed at that energy, the mean and width for a mass are those of its heavy partner from the '
     'tabulated polynomial (with the constant beyond its range), and are the same for complementary masses. Each sampled kinetic energy is that mean plus the width times a standard normal deviate.',
     ['inputs'], 'every parameter set, yield, energy and random sequence with up to one rejected pair; even and odd nuclei',
     'An identity over all yields and parameters; the tests pin three systems.',
     ['libcgmf/src/Yields.cpp'], [('setRescaleTKE, get_avTKE, sampleTKE', 'libcgmf/src/Yields.cpp')], BND + 'polynomials up to eighth order, even and odd nucleus.',
     observe=['average and sampled kinetic energies'])
prop('P13', 'Pre-fission emission leaves the right nucleus at the right energy',
     'The number of neutrons emitted before fission is drawn with the tabulated multi-chance probabilities of the target, interpolated linearly in energy and normalised, and never has zero probability. The '
     'nucleus that fissions is the initial one minus those neutrons, with its own mass, separation energy and spin scaling, above its fission barrier, and the energies of the neutrons, their separation energies and the '
     'energy left add up to the initial excitation energy within the energy bins; in spontaneous fission nothing is emitted and no incident energy is added.',
     ['inputs', 'histories'], 'every incident energy up to 20 MeV, probability table, barriers, masses, spectra and random numbers; 0 to 2 neutrons (3 in the thorough check)',
     'Multi-chance paths depend on random draws and barriers; tests cover a few seeds at two energies.',
     [FFS, 'libcgmf/src/evapinterface.cpp', 'libcgmf/src/stattrans.cpp'],
     [('readMultichanceFissionData, getNumberPrefissionNeutrons, getPrefissionNeutronEnergy, constructYields', FFS)],
     BND + 'emission spectra and level densities are arbitrary.', observe=['fissioning nucleus, its energy, pre-fission neutron energies'])
prop('P14', 'Fragment and pre-equilibrium angles follow the tabulated anisotropy',
     'For every target and incident energy, the fragment anisotropy is the tabulated one of the original target at the nearest tabulated energy, and isotropic where none is tabulated or enabled. The '
     'cumulative distributions from which fragment and pre-equilibrium neutron angles are drawn run from zero to one over equally spaced cosines in steps proportional to the tabulated angular distribution.',
     ['inputs', 'configurations'], 'every tabulated energy and neighbourhood, anisotropy 0.5 to 3, any pre-equilibrium coefficients near a positive distribution',
     'Tests run at two integer energies; a lookup that fails elsewhere goes unnoticed.',
     [FFS], [('computeFragmentAngularDistribution, getPrefissionNeutronEnergy', FFS)], BND, observe=['anisotropy coefficient, cumulative angular distributions'])
EVS = 'libcgmf/src/cgmfEvents.cpp'
DRV = 'utils/cgmf/cgmf.cpp'
prop('P15', 'The event interface returns exactly what the event contains',
     'For every fission event, the C++ and C interfaces return the generated fragments (mass, charge, energies, spin, parity, momenta, direction before and after emission), every emitted neutron and photon '
     'of the light and then the heavy fragment in emission order, and the pre-fission neutrons with energies and unit directions; neutron ages are the time given and photon ages add the emission time. An index '
     'that does not exist yields -1, and neither an earlier event nor its time window affects a later one.',
     ['inputs', 'histories'], 'every fragment pair, particle list up to the largest recordable one, index, time, window; sequences of two events',
     'Every field of every accessor for arbitrary events; the tests never call the interface on an event whose content is known.',
     [EVS, 'libcgmf/include/cgmfEvents.h', 'libcgmf/src/cgmfEvents_capi.cpp'],
     [('cgmfEvent constructor and accessors', EVS), ('C interface', 'libcgmf/src/cgmfEvents_capi.cpp')],
     BND + 'generation and decay of the fragments are arbitrary stand-ins.', observe=['return values of the accessors'])
prop('P16', 'Exactly the supported reactions and options are accepted',
     'A fission event is simulated for exactly the documented spontaneously fissioning nuclei (zero incident energy) and target nuclei (incident energies above zero and up to 20 MeV), with the nucleus and energy '
     'requested; everything else ends the program with an error status before anything is generated. Decays of a single nucleus are accepted in exactly the supported charge, mass and excitation energy ranges, and a negative '
     'time window other than -1 is refused.',
     ['inputs'], 'every nucleus identifier and energy in wide ranges, every time window',
     'An exact set of accepted inputs; tests only run a few accepted ones.',
     [EVS, DRV], [('checkInput, cgmCheckRange', EVS), ('readUserInput', DRV)], BND, observe=['acceptance or exit status'])
prop('P17', 'The history and yields files contain the events they claim',
     'For every event, the history file holds the documented lines for the light and then the heavy fragment (properties, momenta, centre-of-mass and laboratory neutrons, photons with emission times when there is no time window) '
     'followed by the pre-fission neutrons, each number equal to the event\'s value rounded to the printed digits and nothing else in between. The header names target, energy and window, and the yields file has nine columns for '
     'each of the two fragments of every event.',
     ['inputs', 'configurations'], 'every event with up to 2 neutrons and photons per fragment and 3 pre-fission neutrons; with and without emission times; one and two events',
     'The files are the only interface to the analysis package; the tests read stored files and cannot see a writer that swaps columns.',
     [DRV, EVS], [('printEventToFile', DRV), ('cgmfYields', EVS)], BND + 'decimal conversion is a bounded rounding error.', observe=['numbers in the output files'])
prop('P18', 'Runs are reproducible by event number and report the true averages',
     'For every starting event, the i-th event of a run starts from the random seed given by the starting event plus i and depends on nothing else, so a run can be split or any event repeated; as many events as requested are generated. '
     'The averages printed at the end are those of the generated events: fragment properties and multiplicities per event, particle energies per particle, pre-fission neutrons included in the totals.',
     ['inputs', 'histories'], 'every starting event number, every content of two events',
     'Needs arbitrary seeds and event contents; tests do not look at seeds or the printed averages.',
     [DRV, 'libcgmf/include/rngcgm.h'], [('main, recordEvent, printSummaryEvents', DRV), ('UniformRNG', 'libcgmf/include/rngcgm.h')],
     BND + 'the Mersenne twister is an unknown function of seed and position.', observe=['first random number of an event, printed averages'])
HIS = 'tools/CGMFtk/histories.py'
PYB = 'Bounded: every value of the numbers in the file, within the stated numbers of events and particles; exact-real arithmetic.'
prop('P19', 'The analysis package reads every history file faithfully',
     'For every history file, whatever the multiplicities (equal, zero, with or without pre-fission neutrons or emission times), each fragment, neutron, photon and pre-fission neutron is returned with the value in the file, '
     'attributed to the right event and to the light or heavy fragment. Event totals are sums over the two fragments, and reading a limited number of events returns exactly the first ones.',
     ['inputs', 'configurations'], 'every value in files of one to three events with 0 to 3 particles of each kind',
     'The line layout depends on the multiplicities of every event; the tests read two stored files.',
     [HIS], [('Histories reader and accessors', HIS)], PYB, tech=PYTECH, observe=['arrays returned by the accessors'])
prop('P20', 'Neutron multiplicities, energies and spectra are those of the events',
     'For every set of histories, average neutron multiplicities and energies (per fragment, per event, light, heavy, pre-fission) are the averages of the particles in the file, multiplicity distributions are normalised '
     'and list every multiplicity that occurs, with or without a threshold, and the neutron spectrum counts each neutron above the threshold, pre-fission ones included, once in its energy bin with unit integral. The summary table shows the same averages.',
     ['inputs'], 'every energy, threshold and multiplicity of two events',
     'The tests recompute a few averages of one stored file without thresholds.',
     [HIS], [('nubar, Pnu, pfns, mean energies, summaryTable', HIS)], PYB, tech=PYTECH, observe=['returned averages and distributions'])
prop('P21', 'Photon multiplicities, spectra and timing are those of the events',
     'For every set of histories, average photon multiplicities (per fragment or event, above a threshold, up to a time) and their distributions count exactly the photons selected, the photon spectrum puts each selected photon in its energy bin and '
     'integrates to the photon multiplicity, and the photons per time bin, the fragments emitting given lines and the isomeric ratios follow from exactly the photons of the nuclide and time asked for.',
     ['inputs'], 'every energy, age, threshold and time of up to two events',
     'Thresholds combined with time windows and nuclides are not tested.',
     [HIS], [('nubarg, nubargtot, Pnug, pfgs, gammaMultiplicity, gammaSpec, isomericRatio', HIS)], PYB, tech=PYTECH, observe=['returned averages and distributions'])
prop('P22', 'Angles reported by the analysis package are the true ones',
     'For every set of directions and momenta, the angle of a fragment or neutron to the beam, of a neutron to the light fragment and between two different neutrons of one fragment is the cosine between the vectors in the file, for '
     'exactly the neutrons above the threshold, in the requested frame and emission stage, with pre-fission neutrons only where asked for. This includes histories in which a group of fragments emits no neutron.',
     ['inputs'], 'every direction, momentum, energy and threshold of two events',
     'No test computes an angle.',
     [HIS], [('FFangles, nangles, nFangles, nnangles', HIS)], PYB, tech=PYTECH, observe=['returned cosines'])
prop('P23', 'Averages by fragment mass and by kinetic energy cover every event',
     'For every set of histories, the neutron and photon multiplicities, excitation energy, spin and total kinetic energy as a function of fragment mass are the averages over the fragments of that mass, for every mass from the lightest to the '
     'heaviest. As a function of the total kinetic energy they are the averages over the events in each bin of 1 MeV from the lowest to the highest energy, and zero where there is none.',
     ['inputs'], 'every energy, spin and multiplicity of two events of equal or different masses and kinetic energies',
     'No test looks at these functions.',
     [HIS], [('_qA, nubargA, _qTKE', HIS)], PYB, tech=PYTECH, observe=['returned averages'])
prop('P24', 'The analysis package reads every yields file faithfully',
     'For every yields file, each fragment is returned with the values of its line, attributed to the right event and to the light or heavy fragment, and total kinetic and excitation energies are sums over the pair. Reading a limited number '
     'of events returns exactly the first ones, and the summary table shows the averages.',
     ['inputs'], 'every value in files of one to three events',
     'The tests do not read a yields file.',
     ['tools/CGMFtk/yields.py'], [('Yields', 'tools/CGMFtk/yields.py')], PYB, tech=PYTECH, observe=['arrays returned by the accessors'])
SRC = 'libcgmf/src/'
prop('P25', 'Photon and neutron emission compete by their transition strengths',
     'For every state of a decaying nucleus, each final state is populated in proportion to the transmission coefficients of the photons or neutrons that angular momentum and parity conservation allow, times the level density and bin width '
     '(one for a discrete level), and in no other; the total is conserved and no neutron is emitted below its separation energy. A simulated decay chooses each final state with exactly that probability, whatever was left from earlier decays.',
     ['inputs', 'histories'], 'every level density, transmission strength, level energy and random number, spins up to 7/2, small grids',
     'The competition is a sum over hundreds of states; the tests do not look at it.',
     [SRC + f for f in ('specmain.cpp', 'specmc.cpp', 'gampop.cpp', 'parpop.cpp', 'stattrans.cpp', 'gamcas.cpp')],
     [('spectraBinary', SRC + 'specmain.cpp'), ('mcFindNext, mcRestorePopulation', SRC + 'specmc.cpp')], BND + 'small grids, transmission coefficients are stand-ins.',
     observe=['populations after a decay step', 'chosen final state'])
prop('P26', 'The decay chain and its energy grid follow the neutron separation energies',
     'For every initial excitation energy and set of masses, the chain holds one nuclide per neutron that can still be emitted, each with its own mass, separation energy and the energy left after the neutrons before it, and the last one cannot '
     'emit. The excitation energies of a nuclide are equally spaced from its initial energy down to zero, the continuum lies above the discrete levels, and every energy falls in the nearest bin.',
     ['inputs'], 'every excitation energy, mass, level scheme and bin width within the bounds',
     'Tests use a few nuclei.', [SRC + 'setup.cpp', SRC + 'specmain.cpp'],
     [('statTotalNeutrons, statSetupInitSystem', SRC + 'setup.cpp'), ('statSetupEnergyBin, specFindEnergyBin', SRC + 'setup.cpp')], BND, observe=['nuclides and bins set up'])
prop('P27', 'Photon transmission follows the giant resonances of the nucleus',
     'For every set of giant resonances and photon energy, the photon transmission coefficient of each multipole is that of the generalised (E1) or standard (M1, E2) Lorentzian summed over the resonances of this multipole of the present nucleus. '
     'Every nucleus has one or two E1, one M1 and one E2 resonance with the parameters of the systematics, the M1 strength being fixed by the E1 strength at 7 MeV.',
     ['inputs', 'histories'], 'every resonance parameter, photon energy, temperature and deformation',
     'A formula over continuous parameters, never looked at by the tests.', [SRC + 'gtrans.cpp', SRC + 'gdr.cpp', SRC + 'setup.cpp'],
     [('gdrGammaTransmission', SRC + 'gtrans.cpp'), ('statSetupGdrParameter', SRC + 'setup.cpp')], BND, observe=['transmission coefficients'])
prop('P28', 'Level densities follow the Gilbert-Cameron formula',
     'For every energy and parameter set, the level density is the constant-temperature one below the matching energy (or everywhere when there is none) and the Fermi-gas one above it, with the energy-dependent level density parameter and spin cutoff. '
     'Spins follow the spin-cutoff distribution, parities are equally likely, and the tabulated densities of a nucleus are the product of these at each of its energies, spins and parities.',
     ['inputs'], 'every energy, level density parameter, temperature, pairing energy, shell correction and spin cutoff',
     'A formula over continuous parameters with a case distinction, never looked at by the tests.', [SRC + 'levden.cpp', SRC + 'setup.cpp'],
     [('ldLevelDensity, ldSpinDistribution, ldLevelSpinCutoff', SRC + 'levden.cpp'), ('statSetupLevelDensity', SRC + 'setup.cpp')], BND, observe=['level densities'])
prop('P29', 'Discrete levels are those of the data, with branchings that add up to one',
     'For every level file, each nuclide of a decay chain gets the levels (energy, spin, parity, half-life) of exactly that nuclide, with transitions to lower levels whose branchings add up to one and keep the ratios of the data, and the photon '
     'fraction given by the conversion coefficient. A level without transitions decays by all allowed dipoles or to some lower level, a nuclide without data has only a ground state, and missing spins and parities are completed without changing known ones.',
     ['inputs'], 'every number in files of one to three nuclides with up to four levels',
     'The tests do not read level files.', [SRC + 'ripl2levels.cpp', SRC + 'setup.cpp'],
     [('readDiscreteLevelData, getDiscreteLevels, getRiplDiscreteLevels', SRC + 'ripl2levels.cpp'), ('statFixDiscreteLevels', SRC + 'setup.cpp')], BND, observe=['levels of a nuclide'])
prop('P30', 'Decays start from the requested spin and energy distribution',
     'The initial population of a decaying nucleus adds up to one and is the single requested state, distributed over spins like the level density with the requested scaling of the spin cutoff, or given by the neutron transmission coefficients '
     'with angular momentum and parity conservation. A simulated decay starts in each state with that probability and at the requested energy, or in the discrete level nearest to it.',
     ['inputs'], 'every spin distribution, transmission coefficient, scaling, population and random number, six spins',
     'A normalisation over all cut-offs; tests do not look at it.', [SRC + 'popinit.cpp', SRC + 'specmc.cpp'],
     [('statSetupInitialPopulationSpec, statStoreLevelExcite', SRC + 'popinit.cpp'), ('mcSampleStart, mcFixedStart', SRC + 'specmc.cpp')], BND, observe=['initial populations, starting state'])

prop('P31', 'Neutrons, photons and fragments are emitted isotropically',
     'In the frame of the nucleus that emits it, the direction of every neutron, photon, equilibrium pre-fission neutron and (where no anisotropy is tabulated) fission fragment is '
     'uniformly distributed over the sphere: cosine of the polar angle uniform in [-1,1], azimuth uniform in [0,2 pi). Every emission draws its own direction, independent of the others.',
     ['inputs'], 'every random number and energy; 0 to 3 neutrons and 0 to 4 photons from a fragment, 0 to 3 pre-fission neutrons',
     'A biased angle distribution conserves momentum and energy in every event and shows up only in high-statistics angular distributions.',
     ['libcgmf/src/kinematics.cpp'], [('boost, boost_pfn, neutron_emission_boost', 'libcgmf/src/kinematics.cpp')],
     BND + 'the polar axis may be any coordinate axis of the emission frame.', observe=['centre-of-mass directions of neutrons, photons and fragments'])

prop('P32', 'A single-nucleus decay event lists every emitted photon and neutron',
     'For every decay of a single excited nucleus, the event lists exactly one line per emitted photon and neutron, at its energy to within half an energy bin, however many fall into the same bin, and none for a converted transition. '
     'The nucleus that decays is the one requested, at the requested excitation energy; only particles of less than half an energy bin are left out.',
     ['inputs', 'histories'], 'every nucleus, excitation energy, level scheme, decay path and conversion ratio; up to two neutrons and four photons',
     'Needs two particles in the same energy bin or a converted transition; the tests never decay a single nucleus.',
     [SRC + 'cgmfEvents.cpp', SRC + 'specmc.cpp', SRC + 'output.cpp'],
     [('cgmEvent::cgmEvent', SRC + 'cgmfEvents.cpp'), ('specMCMain, mcStoreHistory', SRC + 'specmc.cpp'), ('cgmGetSpectra', SRC + 'output.cpp')],
     BND + 'the Hauser-Feshbach probabilities are replaced by an arbitrary choice of allowed final state; at most 30 particles of a kind are ever listed.', observe=['photon and neutron lists of cgmEvent'])

prop('P33', 'Neutron transmission coefficients are those of the spherical optical model',
     'For every emitted neutron, the transmission coefficient of partial wave (l,j) is 1-|S|^2, between 0 and 1, where S follows from matching the logarithmic derivative of the solution of the Schroedinger equation in the optical potential (with spin-orbit term, for j=l+1/2 and, from l=1, j=l-1/2) to the free outgoing and incoming waves. '
     'Channels that do not exist and waves beyond the highest one returned have zero transmission, waves are dropped only when they add a negligible part (1e-6) to the reaction cross section, and there is no emission at or below zero energy.',
     ['inputs'], 'every potential, energy and S-matrix; s, p and d waves, 3 or 4 mesh points, kr up to 0.42',
     'A wrong j, matching point or derivative changes neutron spectra smoothly; no test computes a transmission coefficient.',
     [SRC + 'omcalc.cpp', SRC + 'intwave.cpp', SRC + 'extwave.cpp', SRC + 'smatrix.cpp', SRC + 'etc.cpp'],
     [('omCalc', SRC + 'omcalc.cpp'), ('omInternalFunction', SRC + 'intwave.cpp'), ('omExternalFunction', SRC + 'extwave.cpp'), ('omSmatrix', SRC + 'smatrix.cpp')],
     BND + 'each stage is decided on its own with the others replaced by unknown numbers; charged particles are not covered (CGMF emits none).', observe=['transmission coefficients returned by omCalc'])

prop('P34', 'The neutron optical potential is the global one of Koning and Delaroche',
     'For every residual nucleus and neutron energy, depths, radii and diffusenesses of the volume, surface and spin-orbit terms are those of the global neutron potential of Koning and Delaroche, nothing is left over from another potential, and the wave number is k^2 = 2 mu E/hbar^2. '
     'On the radial mesh the terms have Woods-Saxon, derivative Woods-Saxon and Thomas form, and the matching radius is the end of the mesh minus three points, where every term has fallen below 1e-6 of the energy.',
     ['inputs'], 'every energy for eight nuclides of mass 70 to 172; every depth, radius and diffuseness on a coarse mesh',
     'One changed constant or radius alters every neutron spectrum by a few percent; no test evaluates the potential.',
     [SRC + 'builtin.cpp', SRC + 'omsetparm.cpp', SRC + 'omsetform.cpp'],
     [('koning_delaroche', SRC + 'builtin.cpp'), ('omSetEnergy, omSetOmp', SRC + 'omsetparm.cpp'), ('omPotentialForm, omPotentialFixedLength', SRC + 'omsetform.cpp')],
     BND + 'the mesh is coarser (2.5 to 4 fm) than the one of the code.', observe=['potential parameters and radial potential'])
prop('P35', 'Level-density parameters join the known levels to a Fermi gas',
     'For every nucleus the asymptotic parameter, pairing energy, shell correction and tabulated temperature and shift are those of its own row of the systematics, and a nucleus without a row is reported; with three or more levels, the constant-temperature part counts exactly the known levels and has the value and slope (temperature) of the Fermi gas at the matching energy. '
     'Where no such energy exists the temperature and shift come from the systematics and the level-density parameter is chosen so that the Fermi gas continues them; with fewer than three levels the tabulated values are kept.',
     ['inputs'], 'every row of numbers, every spin cutoff and number of levels for a few nuclides',
     'Parameters that do not join leave a step in the level density that shifts every neutron and gamma spectrum slightly; no test computes them.',
     [SRC + 'levden.cpp', SRC + 'kcksyst.cpp', SRC + 'setup.cpp'],
     [('ldTGconnect, ldTextrapolate', SRC + 'levden.cpp'), ('readkcksystdat, getkcksystdat', SRC + 'kcksyst.cpp'), ('statSetupLevelDensityParameter', SRC + 'setup.cpp')],
     BND + 'the searches for the matching energy are followed symbolically for a few evaluations and to the end for a few fixed nuclides.',
     observe=['level-density parameters'])
prop('P36', 'Neutrons emitted before fission follow evaporation and exciton spectra',
     'For every compound nucleus and energy the evaporation spectrum is the product of neutron energy, reaction cross section and level density of the residual nucleus at each open final energy, normalised to one; the pre-equilibrium spectrum is that of the two-component exciton model, summed over particle-hole configurations as emission rate times lifetime times occupation, normalised to one. '
     'State densities obey Williams with Pauli, pairing and finite-well corrections, transition rates are the golden-rule integrals over them with the matrix elements of the pairs involved, and occupations solve the master equation without return.',
     ['inputs'], 'every energy, cross section, density, rate and matrix element, for a few configurations and bins',
     'The pre-fission spectra decide the energies of the first neutrons and the excitation energy left for fission; no test looks at the spectra themselves.',
     [SRC + 'evapinterface.cpp', SRC + 'excinterface.cpp', SRC + 'exciton.cpp', SRC + 'exciparm.cpp', SRC + 'excilambda.cpp', SRC + 'excipop.cpp'],
     [('evapInterface', SRC + 'evapinterface.cpp'), ('excitonInterface', SRC + 'excinterface.cpp'), ('preqExcitonModel, preqEmissionRate', SRC + 'exciton.cpp'),
      ('preqStateDensity and its corrections', SRC + 'exciparm.cpp'), ('preqLambdaPlusZ and the other rates', SRC + 'excilambda.cpp'), ('preqPOccupation', SRC + 'excipop.cpp')],
     BND + 'the integrals are decided for state densities that are linear in energy.', observe=['pre-fission neutron spectra'])
