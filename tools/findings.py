"""Writes known_findings.json (fixed entries suppress nothing; only status 'known' entries are read by check.py)."""
import json
FIXED = [
 ('C01', 'f42150b', "convert_energy rejected the documented unit names 'hartree' and 'rydberg'"),
 ('C01', 'ce2945c', 'energy_to_pressure / pressure_to_energy overwrote the array of the caller'),
 ('C01', '247e3bd', 'the angstrom was not 1e-10 m in the length and volume conversions'),
 ('C13', '01d1d35', 'the reported direction of the extrema of the shear modulus and of the Poisson ratio was not the first axis'),
 ('C13', '8167a71', 'polar shear modulus and Poisson ratio could miss the extremum over the measurement direction by several percent'),
 ('C17', '3bc8805', 'trigonal, tetragonal (low) and hexagonal matrices were misclassified'),
 ('C18', 'a2e56e3', 'mechanically unstable stiffness matrices were analysed as if they were stable'),
 ('C19', '7a8124d', 'the azimuth of wave and group directions was measured from the y axis'),
 ('C19', '20fc17d', 'fast_math.cofactor returned None'),
 ('C29', 'e8f0f1f', 'polynomial helpers failed on non-contiguous arrays and scalar points'),
 ('C08', '2eda5a4', 'Kieffer entropy integrand and upper integration limit'),
 ('C09', 'c6db367', "pressure of third-order E(V) fits used K''=0 instead of the implied K''"),
 ('C10', 'cc227b9', "implied K'' of the Vinet equation of state (19/46 instead of 19/36)"),
 ('C11', '9da4c97', 'axial fits changed the fixed/initial modulus and the guess array of the caller'),
 ('C11', '242b369', 'interactive EoS fits crashed on the removed numpy aliases'),
 ('C11', '53bf30a', 'eosfit --outfile crashed'),
 ('C20', 'b26ef57', 'a job name whose first word is a number (or starts with a digit) was read as a row of the elastic constants, and vice versa'),
 ('C20', '13d5351', 'lower-triangular elastic constants were placed in the wrong columns, blocks of other shapes were accepted'),
 ('C21', 'f0f97d5', 'uncertainty columns declared by their short names were lost; files without pressure, without data, with short data lines or ending after a keyword crashed (or, with a job named Unknown, never ended); a job name starting with a keyword was taken for it'),
 ('C22', '30636ff', 'incomplete or inconsistent phonon input files were read partially or crashed; blank-separated values were read up to the first digit; numeric or empty job names crashed'),
 ('C26', 'ea60524', 'a generated phonon input file with a job name that is not a plain YAML scalar could not be read back, or was read back with another name'),
 ('C25', 'b4defb2', 'a reference file number outside the list of phonon files was off by one or crashed'),
 ('C25', 'a74a816', 'the volume and the number of k-points were negative when the printed lattice vectors (or the expansion matrix) are left-handed'),
 ('C25', 'fced616', 'a CRYSTAL phonon output cut short inside a band made the reader run for ever; other incomplete outputs, and supercell calculations at Gamma only, crashed'),
 ('C25', 'f37ebab', 'a malformed phonopy file crashed the reader (name of the exception used after the handler); fractional atomic coordinates were truncated to integers'),
 ('C23', '3682cb0', 'two readers (input creators, exporters) of one class shared their data'),
 ('C24', 'd3b23df', 'elastic constants of VASP (XX YY ZZ XY YZ ZX) were not rearranged to the Voigt order'),
 ('C27', 'a856977', 'QHA result file: Cp and Cp-Cv were labelled with the energy unit, their values being in milli energy units (like Cv)'),
 ('C27', '2a7e4a0', 'QHA result file: the job name was always recorded as "Unknown"'),
 ('C27', '91f0020', 'SOEC result file: compliance values in GPa^-1 were labelled TPa^-1'),
 ('C27', '6316010', 'SOEC result file: polar sections that were never calculated were stored as rows of zeros'),
 ('C28', '1a2da28', 'HA tables: the static energy and the zero-point energy, stored without a temperature axis, crashed the export'),
 ('C28', '4d592e5', 'SOEC export: polar properties missing from the file were offered and crashed'),
 ('C28', '89cefd9', 'console exporter: data sets or attributes missing from the file ended in KeyError'),
 ('C28', 'c750891', 'console exporter: thermal expansion (about 1e-5) was printed as a volume, with 8 decimals'),
 ('C28', '7c0c92e', 'console exporter: files that do not hold (Q)HA results crashed'),
 ('C28', '8addb7e', 'console exporter: quantities independent of temperature, or grid coordinates, crashed'),
 ('C23', '8635fc0', 'readers used for a second file kept the error, the completed flag, the data or the supercell flags of the first one'),
 ('C23', '2de7bcb', 'calculators shared the dictionary of results and the list of warnings of their class'),
 ('C23', '74cec97', 'input creators used for a second file mixed the data of both, or wrote those of the first when the second was unreadable'),
 ('C18', '7f16aed', 'rounding could give the symmetric stiffness matrix complex eigenvalues when two of them coincide (rotated cubic or hexagonal crystals): printed and stored as complex numbers'),
 ('C06', 'dfd1f02', 'printed volumes were labelled A^3 when the calculation ran in bohr'),
]
KNOWN = []
try:
    from findings_extra import FIXED_EXTRA, KNOWN_EXTRA
    FIXED += FIXED_EXTRA; KNOWN += KNOWN_EXTRA
except ImportError:
    pass
out = [{'property': p, 'status': 'fixed', 'id': c, 'text': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIXED] + KNOWN
json.dump(out, open('known_findings.json', 'w'), indent=1)
open('known_findings.json', 'a').write('\n')
print(len(out))
