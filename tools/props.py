# the properties, in plain data (executed by gen_meta.py)

prop('P05', 'Passive optics conserve energy',
     'In any layout of lossless passive optical elements whose open ends are all watched by power meters, the meter '
     'readings sum to the launched laser power. With losses they never exceed it, every reading is real and '
     'non-negative, and this is so for every tuning, angle of incidence, polarisation state, colour and sideband.',
     ['inputs', 'configurations'],
     'all passive layouts (topology, element kinds, reflectivities, phases, lengths, polarisation angles), scalar and swept',
     'The tests check a handful of named layouts (Fabry-Perot, Michelson, LIGO) at fixed parameters; conservation has to '
     'hold for every topology and parameter value, and no test sums the outputs of a network.',
     ['phasor/optics/mirror.py', 'phasor/optics/space.py', 'phasor/optics/polarization.py', 'phasor/optics/circulator.py',
      'phasor/optics/selective_mirrors.py', 'phasor/optics/photodiode.py', 'phasor/optics/laser.py', 'phasor/system/solver_algorithm.py'],
     [('scattering coefficients of the elements', 'phasor/optics/*.py system_setup_coupling'),
      ('linking of bonded ports', 'phasor/system/ports_algorithm.py'),
      ('solution of the coupled system', 'phasor/matrix/DAG_algorithm.py')],
     ['DCReadout.DC_readout of every PD'],
     'runtime monitor: conservation balance over random networks',
     'Held on the executions generated; the oracle is the balance itself, independent of any model of the network.')

prop('P06', 'Carrier and sideband powers solve the field equations of the layout',
     'Every DC photodiode power and DC mirror force equals the solution of the plane-wave scattering equations of the '
     'user\'s layout, including interference, polarisation, second colour, RF sidebands made by phase and amplitude '
     'modulators, and lasers offset by RF frequencies. Swept parameters give the value of the layout at each sweep point.',
     ['inputs', 'configurations'],
     'all layouts and parameter values of the optical library within its declared sideband order',
     'Tests assert a few closed-form cases; the equations have to be assembled and solved correctly for every topology, '
     'sideband order and parameter combination.',
     ['phasor/optics', 'phasor/system/solver_algorithm.py', 'phasor/system/matrix_injections.py', 'phasor/readouts/DC.py', 'phasor/readouts/AC.py',
      'phasor/signals/signal_generator.py'],
     [('perturbative solution of modulator couplings', 'phasor/system/solver_algorithm.py'),
      ('sideband bookkeeping', 'phasor/optics/nonlinear_utilities.py')],
     ['DCReadout.DC_readout'],
     'runtime monitor: reference-model oracle over random networks',
     'Held on the executions generated; trusts the independent dense model in vlib/optnet.py.')

prop('P07', 'Audio response is the linearised response of the layout',
     'The transfer function from any mirror displacement, mirror force, phase, frequency or amplitude modulation drive to any '
     'photodiode, at any audio frequency, equals the first-order response of the layout around its carrier solution, '
     'including suspended mirrors moved by radiation pressure and RF sidebands.',
     ['inputs', 'configurations'],
     'all layouts, drive points, detection points and audio frequencies, scalar and swept',
     'Tests compare a few named interferometers at fixed frequencies; the response has to be right for every layout and frequency.',
     ['phasor/optics/mirror.py', 'phasor/optics/modulators.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/optics/photodiode.py',
      'phasor/readouts/homodyne_AC.py', 'phasor/readouts/DC.py', 'phasor/readouts/AC.py', 'phasor/mechanical'],
     [('coupling of classical drives to optical sidebands', 'phasor/optics/nonlinear_utilities.py'),
      ('detection of sidebands', 'phasor/optics/photodiode.py')],
     ['ACReadout.AC_sensitivity'],
     'runtime monitor: reference-model oracle over random networks',
     'Held on the executions generated; trusts the independent two-sideband model in vlib/optnet.py and the shipped '
     'conventions listed in KNOWN_FINDINGS.json.')

prop('P08', 'Quantum noise of any layout',
     'Every vacuum field entering a layout, through open ports, losses and detectors, contributes exactly once to the '
     'readout noise. Coherent light through any passive layout therefore shows the shot noise 2*h*nu*P on each absorbing '
     'detector and no correlation between detectors, and layouts with modulation or radiation pressure show the two-photon spectrum of their network. '
     'Squeezers, however specified, give the stated variances in the stated quadratures, and these pass losses, phases and local oscillators as the quantum state does.',
     ['inputs', 'configurations'],
     'all layouts, detector pairs and audio frequencies, scalar and swept',
     'Tests look at a few squeezers and interferometers; a dropped or doubled vacuum entry shows only in the topologies that use it.',
     ['phasor/optics/vacuum.py', 'phasor/optics/mirror.py', 'phasor/optics/photodiode.py', 'phasor/optics/EZSqz.py', 'phasor/readouts/noise.py', 'phasor/system/solver_algorithm.py'],
     [('vacuum injection at terminations and losses', 'phasor/optics/vacuum.py'),
      ('noise propagation and correlation', 'phasor/readouts/noise.py')],
     ['NoiseReadout.CSD', 'ACReadout.AC_PSD'],
     'runtime monitor: shot-noise law and reference-model oracle',
     'Held on the executions generated; the shot-noise family has no model, the others trust vlib/optnet.py.')

prop('P09', 'Electrical networks obey the circuit laws',
     'Every voltage and current readout, static and as response to every drive, equals the solution of Kirchhoff\'s laws '
     'with the element laws of the circuit (resistors, capacitors, inductors, cables, terminations, op-amps with '
     'frequency-dependent gain, voltage and instrumentation amplifiers, single-ended and balanced voltage and current sources), for every circuit topology, '
     'explicit or implicit junction, and frequency. A current meter in a wire changes nothing, and reciprocal circuits are reciprocal.',
     ['inputs', 'configurations'],
     'all circuits of the electronics library, scalar and swept parameters, within well-conditioned operation',
     'The tests check dividers and a few op-amp circuits; the wave formulation has to reproduce circuit theory for every topology.',
     ['phasor/electronics', 'phasor/readouts/AC.py', 'phasor/readouts/DC.py', 'phasor/system/ports_algorithm.py'],
     [('element reflection and transmission in the wave picture', 'phasor/electronics/passive.py, elements.py, smatrix.py, sources.py'),
      ('junctions between several wires', 'phasor/electronics/elements.py'),
      ('readouts of voltage and current', 'phasor/electronics/multimeter.py')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity'],
     'runtime monitor: nodal-analysis oracle over random circuits',
     'Held on the executions generated; trusts the independent nodal model in vlib/elecnet.py.')

prop('P10', 'Thermal and amplifier noise of any circuit',
     'The noise spectrum of every voltage and current in a circuit is the sum over all resistors of their thermal noise '
     'and over all amplifiers of their voltage and current noise, each carried by the circuit exactly once. A passive '
     'circuit at one temperature therefore shows 4*kB*T*Re(Z) across and 4*kB*T*Re(Y) through any of its terminals.',
     ['inputs', 'configurations'],
     'all circuits, observation points and frequencies, scalar and swept',
     'Tests check single resistors and pairs; a missing, doubled or wrongly correlated source shows only in particular topologies.',
     ['phasor/electronics', 'phasor/readouts/noise.py', 'phasor/readouts/AC.py'],
     [('Johnson noise of resistors and terminations', 'phasor/electronics/noise.py, passive.py'),
      ('op-amp input noise', 'phasor/electronics/opamps.py'),
      ('noise propagation to readouts', 'phasor/readouts/noise.py')],
     ['NoiseReadout.CSD', 'ACReadout.AC_PSD'],
     'runtime monitor: fluctuation-dissipation law and reference-model oracle',
     'Held on the executions generated; the fluctuation-dissipation family compares the simulator with itself, the others trust vlib/elecnet.py.')

prop('P11', 'Mechanical networks obey force balance and thermal noise laws',
     'Every displacement and force readout, static and as response to every drive, equals the solution of force balance '
     'with the element laws (springs with structural loss, dampers, masses, inerters, levers, strings, cables and rigid arms) '
     'of the user\'s network. Passive networks satisfy the fluctuation-dissipation theorem and reciprocity, and the '
     'force on the two ends of a massless element is opposite.',
     ['inputs', 'configurations'],
     'all mechanical networks, drive points, observation points and frequencies, scalar and swept',
     'The tests check one or two oscillators; the mobility-wave formulation has to be right for every topology and frequency.',
     ['phasor/mechanical', 'phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/readouts/DC.py'],
     [('element laws in the mobility picture', 'phasor/mechanical/passive.py, elements.py, string.py, xyz.py'),
      ('thermal forces', 'phasor/mechanical/noise.py'),
      ('readouts of displacement and force', 'phasor/mechanical/multimeter.py')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity', 'NoiseReadout.CSD'],
     'runtime monitor: force-balance oracle and fluctuation-dissipation law',
     'Held on the executions generated; trusts the independent model in vlib/mechnet.py where not a self-comparison.')

prop('P12', 'Signal-flow networks: filters, loops, mixers and modulators act on time series',
     'Every DC value, AC response and noise spectrum of a signal network is that of the time series it stands for: filters '
     'multiply each frequency by their transfer function (poles, zeros, gain, delay, state space, MIMO), feedback loops give '
     'G/(1-GH), and mixers and modulators multiply signals, including at DC, for RF tones, harmonics and noise folding from RF to audio.',
     ['inputs', 'configurations'],
     'all signal networks, tone amplitudes, phases and frequencies, scalar and swept, within the declared frequency orders',
     'Tests check one VCO with four ratios; products of signals carry weights and conjugations that depend on which of the partners and of the result is DC.',
     ['phasor/signals/mixer.py', 'phasor/signals/siso_filter.py', 'phasor/signals/mimo_filter.py', 'phasor/signals/ZPSOS.py', 'phasor/signals/RMS.py',
      'phasor/signals/state_space.py', 'phasor/signals/amplifiers.py', 'phasor/signals/signal_generator.py', 'phasor/signals/noise.py', 'phasor/system/solver_algorithm.py'],
     [('products of signals', 'phasor/signals/mixer.py system_setup_coupling'),
      ('filter transfer functions', 'phasor/signals/siso_filter.py, ZPSOS.py, state_space.py'),
      ('linearisation about the static solution', 'phasor/system/solver_algorithm.py')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity', 'NoiseReadout.CSD'],
     'runtime monitor: time-series reference oracle over random networks, and loop and demodulation identities',
     'Held on the executions generated; trusts the independent evaluation in vlib/signet.py, the identity families need no model.')

prop('P01', 'Linear solves return the solution of the system',
     'Whatever network of couplings a simulation assembles, every registered linear solver returns the transfers and the driven '
     'amplitudes that satisfy x = s + xM for that network: independent of sparsity pattern, pivots, scaling, swept or scalar '
     'entries, self loops and dead branches, and nodes no input reaches stay at zero.',
     ['inputs', 'configurations'],
     'all coupling graphs with a well conditioned solution, all registered solvers, all input and output sets',
     'Tests solve a few physical networks; elimination order, pivoting and purging have to be right for every graph.',
     ['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/DAG_algorithm_impl.py', 'phasor/matrix/graph_algorithm.py', 'phasor/matrix/scisparse_algorithm.py',
      'phasor/matrix/matrix_generic.py', 'phasor/matrix/solvers_registry.py', 'phasor/system/solver_algorithm.py'],
     [('node elimination and pivoting', 'phasor/matrix/DAG_algorithm.py'),
      ('removal of nodes that cannot matter', 'phasor/matrix/matrix_generic.py')],
     ['result of inverse_solve_inplace of each registered solver'],
     'runtime monitor: every solve recomputed by an independent dense solve',
     'Held on the executions generated; trusts numpy.linalg.')

prop('P02', 'Results do not depend on how the system is written down',
     'Declaring elements in another order, bonding them in another order or from the other end, stating an electrical or mechanical bond twice, writing bonds one by one or as a sequence through elements, renaming them, asking the readouts in '
     'another order or only one of them, adding an unconnected system beside, running under another hash seed or with another '
     'linear solver, or fixing the order of the iteration at or above where it stops, changes no DC value, response or noise spectrum.',
     ['histories', 'configurations'],
     'all systems, all declaration and bonding orders, names, hash seeds, solvers and orders of evaluation',
     'A test fixes one way of writing each system. The library orders its work by set and dictionary iteration and builds results lazily, so '
     'order dependence shows only when the same system is written in several ways.',
     ['phasor/system/system.py', 'phasor/system/ports_algorithm.py', 'phasor/system/matrix_algorithm.py', 'phasor/system/solver_algorithm.py',
      'phasor/base/ports.py', 'phasor/base/dictionary_keys.py', 'phasor/base/autograft.py', 'phasor/matrix/DAG_algorithm.py'],
     [('bond completion and port bookkeeping', 'phasor/system/system.py'),
      ('propagation of needed couplings', 'phasor/system/ports_algorithm.py'),
      ('lazy evaluation of readouts', 'phasor/readouts')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity', 'NoiseReadout.CSD'],
     'runtime monitor: differential oracle over rewritten systems',
     'Held on the executions generated.')

prop('P03', 'A sweep is the stack of its scalar simulations',
     'When the audio frequency or element parameters are arrays, of one or of several axes broadcast against each other, every readout '
     'at every sweep point equals the readout of a scalar simulation at that point, and has the broadcast shape of the sweep.',
     ['inputs', 'configurations'],
     'all systems, all combinations of swept parameters and axes',
     'Tests sweep one or two parameters of a few systems; elements, solver and readouts each broadcast on their own, so any combination of scalar and '
     'swept branches can go wrong separately.',
     ['phasor/matrix/DAG_algorithm.py', 'phasor/matrix/scisparse_algorithm.py', 'phasor/system/solver_algorithm.py', 'phasor/readouts', 'phasor/optics', 'phasor/signals',
      'phasor/electronics', 'phasor/mechanical'],
     [('broadcast arithmetic of the couplings', 'phasor/matrix/DAG_algorithm_impl.py'),
      ('noise sums over sweeps', 'phasor/readouts/noise.py')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity', 'NoiseReadout.CSD'],
     'runtime monitor: differential oracle, swept against scalar runs',
     'Held on the executions generated.')

prop('P04', 'Parameters mean the same by every route and unit',
     'A parameter has the same effect when given to a constructor, through the configuration tree, in any supported unit, as a unitful '
     'quantity or sum of such, or by importing an exported configuration tree; the tree wins over the constructor. A regenerated '
     'system gives the results of the original, with tree changes the results of a system built with the changed values, any number of times, '
     'and the original keeps its own results. Constants of the symbol table are used wherever they are physical.',
     ['inputs', 'histories', 'configurations'],
     'all parameters of the configuration tree, all supported units, all sequences of regenerations',
     'Tests regenerate three systems once and set a few tree values; parameter routing is generic code used by every element.',
     ['phasor/base/multi_unit_args.py', 'phasor/base/simple_units.py', 'phasor/base/units.py', 'phasor/base/autograft.py', 'phasor/base/bases.py',
      'phasor/optics/standard_attrs.py', 'phasor/optics/ports.py', 'phasor/electronics/ports.py', 'phasor/mechanical/ports.py', 'phasor/system/system.py'],
     [('configuration tree', 'phasor/base/autograft.py RootElement.ctree'),
      ('unit conversion', 'phasor/base/simple_units.py'),
      ('replay of insertions and bonds', 'phasor/base/autograft.py Element._complete')],
     ['all readouts; unit-stemmed attributes of the elements'],
     'runtime monitor: differential oracle over equivalent configurations',
     'Held on the executions generated. References to objects of the original inside a regenerated system are a recorded finding.')

prop('P13', 'Readouts are consistent with one another',
     'The spectral matrix of a noise readout is hermitian and positive, is the sum of its contributions by source, and every entry is the same through '
     'whichever readout it is asked. Sensitivities, noise-limited sensitivities, ratios, closed-loop gains, loop gains and plants reported for the same ports are the stated '
     'functions of one another. A homodyne readout is the rotation of its two quadrature ports: its response and noise at an angle are the projected ones, its ellipse has '
     'the extremal noise as axes, and the optimal quadrature beats every other one; all with frequencies, angles and parameters swept or not.',
     ['inputs', 'configurations'],
     'all systems, sets of ports, quadrature angles and sweeps',
     'Tests look at one readout of one system; each readout collects sources and conjugate terms on its own, so agreement between them is what users rely on.',
     ['phasor/readouts/noise.py', 'phasor/readouts/AC.py', 'phasor/readouts/homodyne_AC.py', 'phasor/readouts/base.py', 'phasor/system/solver_algorithm.py'],
     [('spectral matrix and contributions', 'phasor/readouts/noise.py'),
      ('quadrature rotation and ellipse', 'phasor/readouts/homodyne_AC.py')],
     ['NoiseReadout.CSD', 'NoiseReadout.CSD_by_source', 'ACReadout.AC_PSD', 'HomodyneACReadout'],
     'runtime monitor: consistency oracle between readouts of one system',
     'Held on the executions generated. A ratio to a drive that couples to nothing is out of domain.')

prop('P14', 'Gaussian beams follow the ABCD law through any layout',
     'The matrix of an optical layout between any two positions or elements is the product of the ray matrices of the elements and gaps between them, whatever the order of declaration, '
     'nesting, bounding or reversal of subsystems, the units of the locations, and whether one position or an array is asked. Beam parameters at any position are the '
     'given target carried through these matrices (vacuum and glass, either direction); the Gouy phase is the accumulated argument; waists, radii and divergences are those of the parameter; '
     'overlaps are symmetric, at most 1 and 1 only for equal beams, and kept by any common system. A cavity eigenmode returns to itself after a round trip, '
     'and layouts exported to a tree and built again are the same.',
     ['inputs', 'configurations'],
     'all layouts of thin and thick elements, all nestings and reversals, all positions and target beams',
     'Tests check two simple layouts at a few positions; composition, reversal and nesting are generic code.',
     ['phasor/alm/bases.py', 'phasor/alm/beam_param.py', 'phasor/alm/beam_fit.py', 'phasor/alm/space.py', 'phasor/alm/substrates.py',
      'phasor/alm/composites.py', 'phasor/alm/system.py', 'phasor/alm/target.py', 'phasor/alm/projected_target.py', 'phasor/alm/measurements.py', 'phasor/alm/utils.py'],
     [('composition of matrices', 'phasor/alm/bases.py MatrixAtsBase'),
      ('layout and filling spaces', 'phasor/alm/system.py'),
      ('beam parameters', 'phasor/alm/beam_param.py ComplexBeamParam')],
     ['matrices, beam parameters, overlaps and descriptions of alm systems'],
     'runtime monitor: reference-model oracle (flat product of ray matrices) and conservation oracles',
     'Held on the executions generated. Positions exactly on a surface are out of domain.')

prop('P17', 'Nonlinear optics follows the coupled-wave equations and conserves energy and uncertainty',
     'Second-harmonic crystals and acousto-optic modulators solve the coupled-wave equations for the light given: powers out are those of the differential equations '
     'for any amplitudes, phases, sidebands, directions, numbers of crystals and steps; total power is conserved; the splitting of one crystal into several changes nothing. Responses '
     'to small modulations are the derivatives of those powers and conserve energy too; quantum noise is the linearised map of vacuum, with uncertainty product kept. Light which takes part in no conversion '
     'passes unchanged, and a resonator around such an element settles at the self-consistent field.',
     ['inputs', 'configurations', 'histories'],
     'all amplitudes, phases, sidebands, drives and conversion strengths, to second order in the step size of the integration',
     'Tests check a few set-ups with plots or loose comparisons; terms of the mixing (pairs of sidebands, conjugates, both directions) are enumerated by generic code whose errors show only '
     'with several fields present.',
     ['phasor/optics/nonlinear_crystal.py', 'phasor/optics/AOM.py', 'phasor/optics/AOMBasic.py', 'phasor/optics/ODE_solver.py', 'phasor/optics/nonlinear_utilities.py', 'phasor/system/solver_algorithm.py', 'phasor/system/system.py', 'phasor/optics/ports.py'],
     [('mixing of fields', 'phasor/optics/nonlinear_crystal.py'),
      ('diffraction', 'phasor/optics/AOM.py'),
      ('iteration to the self-consistent field', 'phasor/system/solver_algorithm.py')],
     ['power and response readouts behind the element; homodyne covariance'],
     'runtime monitor: reference-model oracle (Runge-Kutta integration and its Jacobian) and conservation oracles',
     'Held on the executions generated. The error of the shipped integration scheme is extrapolated away from two step counts.')

prop('P18', 'Projection on a reference field reads what balanced detection reads',
     'The homodyne element that projects light on a chosen reference field reports, at any angle, what a balanced detector with that reference delayed by that angle would measure: '
     'mean, response to every modulation and noise, in square roots of power. Its two quadratures are a quarter turn apart and rotate into one another with the angle, carry the whole power of a '
     'single tone and obey the uncertainty relation; its common output is the total power over the reference amplitude; its outputs in quanta and relative to the light are the same '
     'in other units; it does not disturb the light. Without a reference, light is referred to itself.',
     ['inputs', 'configurations'],
     'all reference fields, angles (also arrays), layouts in front of it, sidebands and audio frequencies',
     'Tests read one angle of one squeezer; the element builds its own conjugate and sideband couplings which no power detector exercises.',
     ['phasor/optics/hidden_variable_homodyne.py', 'phasor/system/matrix_injections.py', 'phasor/system/matrix_algorithm.py', 'phasor/readouts/noise.py'],
     [('projection on the reference', 'phasor/optics/hidden_variable_homodyne.py HiddenVariableHomodynePD'),
      ('normalised triplet couplings', 'phasor/system/matrix_injections.py TripletNormsCoupling')],
     ['DC, AC and noise of rtWpdI, rtWpdQ, rtWpdCmn, rtQuantumI, rtQuantumQ, RinI, RadQ'],
     'runtime monitor: differential oracle (an actual balanced detector in the same system)',
     'Held on the executions generated. The reference carries no audio modulation.')

prop('P15', 'Keys, keyed matrices, queues, complex numbers and array tools behave like their plain models',
     'Over any history of operations: dictionary and frequency keys act as immutable mappings (equal exactly when their contents are, with equal hashes, zero frequency multiples dropped, operands never changed); '
     'keyed vectors and matrices act as dictionaries whose array view is current after each change; the priority queues give items out in order, lose none and double none, also between threads; '
     'Complex follows complex arithmetic for scalars and arrays; phases are continued without jumps, sections of boolean arrays are its runs.',
     ['inputs', 'histories', 'schedules'],
     'all operation sequences and values in the documented domain, all thread interleavings of the thread-safe queue',
     'These are the data structures under every result; the tests hardly touch them directly, and a stale cache or a lost item needs a particular history.',
     ['phasor/base/dictionary_keys.py', 'phasor/math/key_matrix/keymatrix.py', 'phasor/math/complex.py', 'phasor/math/dispatched.py', 'phasor/math/numerics.py',
      'phasor/utilities/priority_queue/heap_priority_queue.py', 'phasor/utilities/np.py'],
     [('keys', 'phasor/base/dictionary_keys.py DictKey, FrequencyKey'), ('keyed containers and their cached arrays', 'phasor/math/key_matrix/keymatrix.py'),
      ('heap with lock', 'phasor/utilities/priority_queue/heap_priority_queue.py'), ('complex numbers over any real type', 'phasor/math/complex.py')],
     ['return values of every operation, array views'],
     'runtime monitor: model-based checking of operation histories, and an exactly-once/ordering checker over recorded thread histories',
     'Held on the histories generated. Ordering of keys, local searches in unsorted data are not covered.')

prop('P19', 'Filter designs realise the response they specify, in every representation',
     'Filters in zeros/poles/gain form multiply and divide as their responses do. The controller and boost designs have unity magnitude at their frequency, paired and stable roots and a shape that moves with '
     'the frequency. Converted to a rational-filter element, a design has in a running system, alone, in chains and within loops, its response normalised at that frequency with negative sign. '
     'A rational-filter element has the response given by its set of roots, however distributed. The Legendre-Papoulis polynomials are exact for every order and the prototypes have '
     'stable paired poles, unity DC gain, monotonic response and attenuation 1/(1+L).',
     ['inputs', 'configurations'],
     'all sets of roots and gains, design frequencies and shifts, orders up to 24, frequencies',
     'No test evaluates the design functions; a misplaced root or an integer overflow shows only as a deviation of the response at some order or frequency.',
     ['phasor/signals/power_loops.py', 'phasor/signals/ZPSOS.py', 'phasor/signals/filters/legendre_filters.py', 'phasor/signals/siso_filter.py'],
     [('designs and conversion', 'phasor/signals/power_loops.py'), ('rational filters', 'phasor/signals/ZPSOS.py SRationalFilter'),
      ('optimum polynomials and prototypes', 'phasor/signals/filters/legendre_filters.py')],
     ['returned roots and gains, ACReadout.AC_sensitivity of filter elements'],
     'runtime monitor: reference-model oracle (direct products, exact rational recomputation)',
     'Held on the designs generated. cheby_boost_7 (an unpaired complex root) and the plateau designs are not covered.')

prop('P20', 'Piezo transducers couple circuits and mechanics by their constitutive law',
     'A piezo transducer with capacitance C, stiffness k and constant d stores the charge C V + d F and extends by d V + F / k, whatever circuit and mechanics it is bonded to and whatever '
     'reference impedances the two sides use. Every voltage, current, displacement and force, static and as response to drives of either side, and every noise spectrum, obeys that law together with the '
     'laws of the two networks. Without amplifiers the whole is reciprocal across the transducer, draws no net power from nowhere and obeys the fluctuation-dissipation theorem.',
     ['inputs', 'configurations'],
     'all circuits and mechanical networks joined by transducers, frequencies and parameters, scalar and swept, with passive coupling d^2 k < C',
     'No test uses a transducer; its scattering matrix was wrong in the shipped code for every mechanical reference but one.',
     ['phasor/transducers/PZT.py', 'phasor/electronics', 'phasor/mechanical', 'phasor/readouts/AC.py', 'phasor/readouts/noise.py', 'phasor/readouts/DC.py'],
     [('scattering between electrical and mechanical waves', 'phasor/transducers/PZT.py PZTMountedGrounded, PZT'),
      ('wave impedances of both domains', 'phasor/electronics/elements.py, phasor/mechanical/elements.py'),
      ('noise carried across', 'phasor/readouts/noise.py')],
     ['DCReadout.DC_readout', 'ACReadout.AC_sensitivity', 'NoiseReadout.CSD', 'ACReadout.AC_PSD'],
     'runtime monitor: reference-model oracle (circuit and mechanics tableau) and reciprocity, passivity and fluctuation-dissipation oracles',
     'Held on the executions generated; trusts the independent model in vlib/elmech.py. Ill-conditioned networks are left out.')
