"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Unit conversions are exact, complete and free of side effects',
  'Converting a quantity (energy, temperature, length, volume, pressure, frequency, or energy<->pressure through a volume) from one supported unit to another multiplies by the ratio of the two units\' SI values (CODATA constants; temperature: 0 degC = 273.15 K) for scalars and arrays alike, so that A->B->A and A->B->C agree with the identity and with A->C. '
  'Every unit name that the documentation of a conversion lists is accepted, an unknown unit is reported with an error rather than converted, and the caller\'s values are never modified.',
  'all values, shapes and all ordered pairs of supported unit names', 'The tests run one HA and one SOEC example with default units; they never compare factors, pairs of units, arrays or unknown names.',
  ['quantas/utils/physics/units.py'], [('conversion tables and converters', 'quantas/utils/physics/units.py')])
p('C02', 'Harmonic thermodynamic functions are weighted sums of oscillator formulas',
  'For every temperature >= 0, every set of phonon frequencies and q-point weights and every volume, the zero-point energy, thermal energy, entropy, vibrational free energy and isochoric heat capacity equal the weighted sum over all q-points and modes of the analytic quantum harmonic-oscillator expressions (kJ/mol for energies, J/mol/K for entropy and heat capacity), with non-positive frequencies contributing nothing and the T = 0 limits taken exactly. '
  'The total internal and Helmholtz energies add the static (and zero-point) energies volume by volume.',
  'all array sizes, temperatures, frequencies, weights', 'One fixed example is run and its numbers are not compared with the formulas; zero/negative frequencies, T = 0 and unequal array sizes are not reached.',
  ['quantas/utils/physics/statistical_mechanics.pyx'], [('ho_* oscillator functions and parallel accumulation kernels', 'quantas/utils/physics/statistical_mechanics.pyx')])
p('C03', 'Computed thermodynamic functions satisfy the thermodynamic identities',
  'At every volume and temperature T > 0 the computed functions satisfy F = U - T S (with U including zero-point energy), C_V = dU/dT, S = -dF/dT, and at T = 0 the vibrational free energy equals the zero-point energy with S = C_V = 0, in mutually consistent units.',
  'all frequencies, weights and temperatures', 'Identities between separately coded functions hold (or fail) for all inputs; no test relates two computed quantities.',
  ['quantas/utils/physics/statistical_mechanics.pyx'], [('five kernels sharing the same partition function', 'quantas/utils/physics/statistical_mechanics.pyx')])
p('C04', 'A harmonic run reports the physics of its input in the chosen units',
  'A harmonic run on a valid input reports, for each input volume and each requested temperature, the zero-point, thermal, total internal and free energies, entropy and heat capacity obtained from the input frequencies, static energies and normalised q-point weights, converted exactly once from/to the units chosen by the user (frequency, energy, temperature, and the milli-prefixed unit for entropy and heat capacity).',
  'all inputs, temperature ranges and unit choices', 'One example with default units is executed without comparing values; other units and several volumes are never run.',
  ['quantas/harmonic/harmonic.py'], [('HACalculator.run', 'quantas/harmonic/harmonic.py')], over=('inputs', 'configurations'))
p('C05', 'Enthalpy, Gibbs energy, adiabatic bulk modulus and Grueneisen formulas',
  'For every grid of temperature, pressure and volume, enthalpy and Gibbs energy equal U + PV and F + PV (per mole, kJ/mol for SI input), the adiabatic bulk modulus equals K_T + alpha^2 V T K_T^2 / C_V and the thermodynamic Grueneisen parameter equals alpha V K_T / C_V; where the heat capacity (or temperature) is zero the adiabatic correction and the Grueneisen parameter vanish instead of dividing by zero.',
  'all array sizes and values', 'No test calls these kernels.', ['quantas/utils/physics/thermodynamics.pyx'],
  [('enthalpy, gibbs, adiabatic_bulk_modulus, gruneisen_parameter kernels', 'quantas/utils/physics/thermodynamics.pyx')])
p('C06', 'Quasi-harmonic results are consistent at every (T, P) point and in every unit',
  'In a quasi-harmonic calculation, for any user choice of energy, length, pressure, frequency and temperature units, the reported enthalpy and Gibbs energy are U + PV and F + PV, C_P - C_V equals alpha^2 V T K_T, the adiabatic bulk modulus and Grueneisen parameter follow from the reported alpha, V, K_T and C_V, and the thermal expansion coefficient is (1/V)(dV/dT) of the reported equilibrium volumes at that pressure. The reported volume at (T, P) minimises F(V, T) + PV, and every reported harmonic function (U_zp, U_th, U, S, C_V, F_vib, F) is the one evaluated at that volume under the chosen interpolation scheme (frequencies or thermodynamic functions interpolated over volume).',
  'all temperature/pressure grids, volumes, energies and unit choices', 'No test runs the quasi-harmonic calculator at all.',
  ['quantas/qha/qha.py'], [('QHACalculator set_* and thermal expansion methods', 'quantas/qha/qha.py')], over=('inputs', 'configurations'))
p('C07', 'Equilibrium volume and bulk modulus come from the free-energy curve',
  'Minimising a polynomial F(V) + PV returns a real stationary point of the fitted polynomial with positive curvature (dF/dV = -P, d2F/dV2 > 0), and the isothermal bulk modulus reported from the polynomial equals V d2F/dV2 at that volume; when several minima exist one of them is returned and a maximum or complex root never is.',
  'all polynomials, pressures and volumes', 'No test minimises a free-energy polynomial.', ['quantas/qha/qha.py', 'quantas/utils/math/derivative.py'],
  [('find_polynomial_minimum, numerical_bulk_modulus', 'quantas/qha/qha.py')])
p('C08', 'Kieffer acoustic contributions follow the Kieffer model',
  'The acoustic corrections to heat capacity, entropy and Helmholtz free energy computed by the Kieffer class equal the sum over the acoustic branches of the Kieffer sine-dispersion integrals of the corresponding harmonic-oscillator functions, in J/mol/K and the energy unit used by the calculators, and vanish at T = 0.',
  'all cutoff frequencies and temperatures', 'No test runs the Kieffer model.', ['quantas/qha/utils/kieffer.py'], [('Kieffer integrands and quadrature', 'quantas/qha/utils/kieffer.py')])
p('C09', 'Energy-volume equations of state: pressure and modulus are its derivatives',
  'For every E(V) formulation and every parameter set with positive reference volume, E(V0) = E0, the pressure obtained from the fitted equation of state equals -dE/dV at every volume, it vanishes at V0, and the bulk modulus and its pressure derivative at V0 equal the fitted K0 and K0\'.',
  'all parameters and volumes, all formulations', 'No test evaluates an E(V) equation of state.', ['quantas/qha/utils/ev_eos.py', 'quantas/eosfit/utils/pv_eos.py'],
  [('EnergyEOS formulations and pressure', 'quantas/qha/utils/ev_eos.py')])
p('C10', 'Pressure-volume equations of state follow their published formulations',
  'For Murnaghan, Birch-Murnaghan (2-4), natural-strain (2-4), Vinet (2-3) and Tait (2-4) equations of state: P(V0) = 0, K(V0) = K0 and (where free or implied by the truncation order) K0\' and K0\'\' take their published values, the bulk modulus is -V dP/dV, and pressure is the published closed form at every volume.',
  'all parameters, volumes, orders', 'No test evaluates a P(V) equation of state.', ['quantas/eosfit/utils/pv_eos.py'], [('EOS classes', 'quantas/eosfit/utils/pv_eos.py')])
p('C11', 'Equation-of-state fits refine the requested parameters on the given data',
  'A P(V) fit passes every data point with its own pressure and volume uncertainties to the least-squares solver, keeps parameters marked as fixed at their given values, leaves the caller\'s guess and data unchanged, and reports the solver\'s optimum, standard errors and residuals for the parameters they belong to, for volumetric data and for each lattice parameter separately (the same closed form in the axis length).',
  'all data sets, weights, fixed-parameter masks', 'No test performs a fit.', ['quantas/eosfit/utils/pv_eos.py', 'quantas/eosfit/eosfit.py'], [('EOS.fit/_odr/check', 'quantas/eosfit/utils/pv_eos.py')])
p('C12', 'Voigt matrices and fourth-rank tensors represent the same elasticity',
  'The stiffness and compliance tensors built from a symmetric 6x6 Voigt matrix have minor and major symmetry, reproduce the matrix entry by entry (with the factors 1, 2, 4 for compliance), and are mutually inverse on symmetric second-rank tensors.',
  'all symmetric invertible 6x6 matrices', 'One example matrix is run through the program without inspecting tensors.', ['quantas/soec/utils/soec_obj.py', 'quantas/seismic/utils/seismic_obj.py'],
  [('Voigt index map and compliance factors', 'quantas/soec/utils/soec_obj.py')])
p('C13', 'Directional elastic moduli match the tensor definitions in every direction',
  'For every stiffness matrix and every direction, Young\'s modulus is 1/S_ijkl a_i a_j a_k a_l, linear compressibility is S_ijkk a_i a_j (in TPa^-1 for GPa input), and for every orthonormal pair (a, b) the shear modulus is 1/(4 S_ijkl a_i b_j a_k b_l) and Poisson\'s ratio is -S_ijkl a_i a_j b_k b_l / S_ijkl a_i a_j a_k a_l; the direction vectors used are the unit vectors of the given spherical angles, b being orthogonal to a. '
  'Polar scans and the (xy), (xz) and (yz) sections hold each direction\'s own value (for the shear modulus and Poisson\'s ratio the extremes over the measurement direction), and reported extrema, anisotropy (max/min) and axes belong to the same directions.',
  'all stiffness matrices and angles', 'One example is run; the values are not compared with any definition.', ['quantas/soec/utils/soec_obj.py', 'quantas/utils/math/fast_math.pyx'],
  [('SOEC.Young/linear_compressibility/shear_modulus/Poisson, vector', 'quantas/soec/utils/soec_obj.py')])
p('C14', 'Voigt, Reuss and Hill averages and isotropic velocities',
  'For every stiffness matrix the reported bulk, shear and Young\'s modulus and Poisson\'s ratio are the Voigt (from stiffness), Reuss (from compliance) and Hill (arithmetic mean of bulk and shear moduli) averages, with E and nu derived from K and G of the same average, and the isotropic P and S velocities are sqrt((K+4G/3)/rho) and sqrt(G/rho) in km/s for GPa and kg/m3 input.',
  'all symmetric positive definite stiffness matrices and densities', 'Values of one example are computed but never compared with the definitions.', ['quantas/soec/utils/soec_obj.py'], [('averages and isotropic_velocities', 'quantas/soec/utils/soec_obj.py')])
p('C15', 'Orthorhombic fast path equals the general tensor evaluation',
  'For every stiffness matrix with orthorhombic (or higher, same zero pattern) form, the specialised orthorhombic evaluation returns the same Young\'s modulus, linear compressibility, shear modulus and Poisson\'s ratio as the general tensor evaluation in every direction, and the specialised path is chosen only for matrices whose off-pattern entries are zero (within the 1e-3 GPa tolerance of the recogniser).',
  'all orthorhombic matrices and directions', 'The fast and general paths are never compared.', ['quantas/soec/utils/soec_obj.py', 'quantas/soec/soec.py'], [('SOECOrtho', 'quantas/soec/utils/soec_obj.py')])
p('C16', 'Acoustic phase velocities solve the Christoffel equation',
  'For every stiffness matrix, density and propagation direction, the three reported wave velocities are sqrt(lambda/rho) in km/s with lambda the eigenvalues of C_ijkl n_j n_l, reported in the documented slow/fast-shear/longitudinal order.',
  'all stiffness matrices, densities and directions', 'Velocities of one example are computed but never compared.', ['quantas/soec/utils/soec_obj.py'], [('phase_velocity', 'quantas/soec/utils/soec_obj.py')])
p('C17', 'Crystal system recognised from the elastic matrix is correct',
  'The crystal system reported for a stiffness matrix is one whose published Laue-class pattern of zeros and equal/opposite entries (standard orientation) the matrix satisfies to the recogniser\'s tolerance of 1e-3 GPa, and no listed class with a stricter pattern is satisfied exactly; a matrix satisfying no higher-symmetry pattern is reported triclinic.',
  'all symmetric 6x6 matrices', 'Only one cubic or orthorhombic example is classified.', ['quantas/soec/utils/symmetry.py'], [('pattern tables and matching', 'quantas/soec/utils/symmetry.py')])
p('C18', 'Mechanically unstable crystals are reported and not analysed',
  'A stiffness matrix that is not positive definite (any eigenvalue <= 0) is reported as mechanically unstable and its directional analysis is not performed nor marked completed, while every positive definite matrix is analysed.',
  'all symmetric 6x6 matrices', 'Only a stable example is run.', ['quantas/soec/soec.py'], [('stability test in SOEC run', 'quantas/soec/soec.py')])
p('C19', 'Seismic wave analysis: phase, group velocity and enhancement are consistent',
  'For every stiffness matrix, density and direction the Christoffel matrix is C_ijkl n_j n_k / rho, its gradient and second derivatives are the exact derivatives with respect to the direction, phase velocities are sqrt of its eigenvalues, the group velocity of a non-degenerate mode is the gradient of the phase velocity (so that v_g . n = v_p), and reported polar angles and power-flow angles are those of the corresponding vectors.',
  'all stiffness matrices, densities and directions', 'The seismic module is not imported by any test.', ['quantas/seismic/utils/seismic_obj.py'], [('ChristoffelMatrix', 'quantas/seismic/utils/seismic_obj.py')])
p('C20', 'Elastic-constant input files are read into the symmetric matrix they describe',
  'An SOEC input file (job name, optional density, 6x6 block given full, upper- or lower-triangular) is read as exactly the symmetric matrix, job name and density it states, whatever the values and job name, and malformed blocks are reported as errors.',
  'all matrices, job names, densities and block layouts', 'A handful of fixed files are read.', ['quantas/IO/soec_reader.py'], [('SOECInputFileReader', 'quantas/IO/soec_reader.py')])
p('C21', 'Equation-of-state data files are read column by column as declared',
  'An EoS data file with any declared ordering of pressure, volume/axis and uncertainty columns (documented names, the short names sigP, sigV, ..., any letter case, other columns in between) yields exactly the stated column under the corresponding quantity, one value per data line in file order, with comments and blank lines ignored, and the job name as written (any text, also one starting with a keyword; Unknown when absent); a file without pressure or without any structural column, without data, or with a data line that lacks a value or holds a word instead, is reported as an error; reading always terminates.',
  'all column orders, aliases and values', 'A few fixed files are read.', ['quantas/IO/eos_reader.py'], [('EoSInputFileReader', 'quantas/IO/eos_reader.py')])
p('C22', 'Phonon input files are read into consistent arrays',
  'A harmonic/quasi-harmonic YAML input yields the job name, numbers of atoms, volumes and q-points, static energies, volumes, and for each q-point of the phonon list its weight and its table of frequencies exactly as stated, in the stated order, whether the numbers of a list are separated by commas or by blanks; a file that is not YAML, or that lacks a mandatory entry (volume, energy, phonon, natom, qpoints, supercell; weight, band, frequency of a q-point), or whose numbers of energies, bands or frequencies do not match the numbers of volumes and atoms, or that lists more q-points than it declares, is reported as an error instead of producing a partial result. (The job name is Unknown when absent; q-point coordinates are not used by the calculations and stay in the parsed document.)',
  'all file contents', 'Two fixed files are read.', ['quantas/IO/qha_reader.py'], [('QHAInputFileReader', 'quantas/IO/qha_reader.py')])
p('C23', 'Results do not depend on what was read or computed before',
  'Reading a file, generating an input, running a calculation or exporting results gives the same outcome whether it is the first or the n-th operation in the process, with a new object or with a reader, input creator or exporter used before for another file (also when the files have the same name): objects never share mutable data, what one object holds is not changed by later operations on others, and an earlier file\'s values, errors or flags never appear in a later one\'s.',
  'all sequences of reads/exports in one process', 'Every test creates one object per process history and never repeats an operation.',
  ['quantas/core/reader.py', 'quantas/core/calculator.py', 'quantas/IO/soec_reader.py', 'quantas/IO/eos_reader.py', 'quantas/IO/qha_reader.py', 'quantas/interfaces/vasp.py', 'quantas/interfaces/crystal.py', 'quantas/interfaces/phonopy.py', 'quantas/IO/soec_writer.py', 'quantas/IO/qha_writer.py'], [('instance-level data of readers and writers', 'quantas/core/reader.py')], over=('histories',))
p('C24', 'Elastic constants extracted from CRYSTAL and VASP outputs keep their meaning',
  'The 6x6 stiffness matrix extracted from a CRYSTAL or VASP output equals the matrix printed by that program rearranged to the standard Voigt order (xx, yy, zz, yz, xz, xy) and expressed in GPa, is symmetric when the printed one is, and the density is the printed one.',
  'all printed matrices', 'Two fixed output files, whose shear block does not distinguish the possible permutations, are read.', ['quantas/interfaces/vasp.py', 'quantas/interfaces/crystal.py'], [('VASPSOECReader, CrystalSOECReader', 'quantas/interfaces')])
p('C25', 'Phonon data are extracted from CRYSTAL and phonopy outputs unchanged',
  'Volumes, static energies, q-point coordinates, weights and frequencies extracted from CRYSTAL or phonopy results are exactly those printed, in the declared units (volume: the absolute determinant of the printed lattice; both volume and energy per primitive cell when a supercell samples the dispersion; phonopy frequencies converted from THz to cm^-1), with every q-point keeping its own weight and its own list of frequencies in printed order; quasi-harmonic volumes come in increasing order, each with its own energy and frequencies; an output that is cut short, lacks a part or is malformed YAML is reported as an error rather than read partly, crashed on or never finished.',
  'all printed values', 'A few fixed outputs are read.', ['quantas/interfaces/crystal.py', 'quantas/interfaces/phonopy.py'], [('phonon readers', 'quantas/interfaces')])
p('C26', 'Generated input files read back to the same data',
  'Writing an SOEC or phonon input file from extracted data and reading it back yields the same job name, matrix, density, volumes, energies, q-points, weights and frequencies up to the documented number of printed digits, for every data set (weights are whole numbers; blanks at the end of a job name do not count; the job name of an SOEC file is not empty or made of numbers only, which the format cannot tell from a matrix row).',
  'all data sets', 'Generated files are only checked for a few fixed systems.', ['quantas/IO/soec_writer.py', 'quantas/IO/qha_writer.py', 'quantas/IO/soec_reader.py', 'quantas/IO/qha_reader.py'], [('writers', 'quantas/IO')])
p('C27', 'Result files store every computed quantity under its own name and unit',
  'The HDF5 file of a HA run holds the temperatures, the input volumes and static energies and every thermodynamic quantity of the run, that of a QHA run the temperatures, pressures and all 17 reported quantities: each array unchanged, under the dataset that names it, labelled with the unit its values are really in (S, C_V, C_P and C_P - C_V in milli energy units per kelvin), next to a description naming the job and the units. The file of an elastic run holds stiffness, compliance, averages and eigenvalues and, when they were calculated (and only then), the polar sections, each row belonging to its own direction in the plane the section is named after.',
  'all results and unit choices', 'Only the existence of one HA output is checked.', ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py', 'quantas/soec/soec.py'], [('export_hdf5 methods', 'quantas')], over=('inputs', 'configurations'))
p('C28', 'Exported tables reproduce the stored results cell by cell',
  'The text tables exported from a result file list, for the requested quantity, exactly the stored grid coordinates and values at the documented precision (HA and QHA tables: temperatures with 2 decimals; volumes, pressures and bulk moduli with 8 decimals, everything else with 12 decimals in exponent form; elastic tables: angle with 1 decimal, values with 4), every row and column in its place, with the stored label and unit; a quantity that does not depend on temperature is repeated in every row; elastic tables hold the three planes in the stored order. An existing table is overwritten only with consent; requesting a quantity that the file does not hold, or opening a file without such results, is reported instead of failing.',
  'all result files, grids and quantities', 'No test exports a table.', ['quantas/IO/hdf5_export.py', 'quantas/IO/hdf5_reader.py', 'quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py', 'quantas/harmonic/utils/table.py', 'quantas/qha/utils/table.py', 'quantas/soec/utils/table.py'], [('table exporters', 'quantas/IO/hdf5_export.py')])
p('C29', 'Polynomial fit/evaluation helpers evaluate the polynomial they are given',
  'The polynomial helpers return, for every coefficient set, degree and point(s), the value of sum c_k x^k for each series, and the derivative helpers the exact derivative of that polynomial (or the stated finite-difference formula), independent of array size and memory layout.',
  'all degrees, coefficients, points, array sizes', 'The compiled helpers are never called by tests.', ['quantas/utils/math/fast_math.pyx', 'quantas/utils/math/polynomials.py', 'quantas/utils/math/derivative.py'], [('multi_interpolate*, interpolate, derivative', 'quantas/utils/math')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
