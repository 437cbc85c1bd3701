"""Configuration of the checks (see run_check.py and DESIGN.md)."""
import os
CHECKS = {}
NOT_APPLICABLE = {
    'C21': 'the reader is Python whose decoding happens inside the compiled numpy and scipy libraries (fromfile, csr_matrix), which are not part of the repository, have no LLVM IR here '
           'and cannot be executed symbolically by this machinery; the layout of the files is checked on the writing side by C13',
}


def add(pid, **k):
    CHECKS[pid] = k


add('C09', tmo=(120, 600),
    bounds='all 2^32 values of every label; pairs and triples of sectors; maps of three insertions',
    outside='maps with more than three sectors')



add('C17', tmo=(200, 900),
    redirect=[('_ZNSt26linear_congruential_engineImLm16807ELm0ELm2147483647EEclEv', 'lcg_shim'),
              ('_ZNSt13random_device9_M_getvalEv', 'rd_shim'), ('_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'rd_init_shim'),
              ('_ZNSt13random_device7_M_finiEv', 'rd_fini_shim')],
    bounds='byte strings up to 10 (thorough: 24) bytes with all contents; arrays of 2 and 3 integers; all double bit patterns; '
           '13 interval widths up to 2^31-2 at 6 positions each with every generator output',
    outside='longer byte strings; interval widths and positions not listed; intervals wider than the range of the generator; more than one rejected generator output')

add('C01', tmo=(240, 1800), engine=['--hashbits', '4'],
    bounds='histories of 4 operations on 2 keys and 3 on 3 keys (thorough: 5 and 4) with arbitrary key identities and element values, '
           'colliding hashes and buckets; 30 (60) elements with rehashing; arbitrary two-byte string keys',
    outside='longer histories, other element types')

add('C07', tmo=(240, 1800), src=['pairinteraction/StateOld.cpp', 'pairinteraction/QuantumDefect.cpp'], libs=['-lsqlite3'],
    bounds='all int values of n and l, all half-integers |j|,|m| <= 2^20, pairs and triples of states, all one-byte species suffixes',
    outside='j and m that are not half-integers; NaN')

add('C08', tmo=(300, 1800), src=['pairinteraction/State.cpp', 'pairinteraction/MatrixElementCache.cpp', 'pairinteraction/QuantumDefect.cpp', 'pairinteraction/Wavefunction.cpp'],
    libs=['-lsqlite3', '-lgsl', '-lgslcblas', '-lstdc++fs'],
    bounds='all int values of n and l, all half-integers |j|,|m| <= 2^20, 5 species and every last letter of a species or label; ordinary and artificial '
           'states; pairs and triples of states',
    outside='j and m that are not half-integers; NaN; longer species; energies of states (C05)')

add('C10', tmo=(300, 1800), src=['pairinteraction/StateOld.cpp', 'pairinteraction/QuantumDefect.cpp', 'pairinteraction/Basisnames.cpp', 'pairinteraction/ConfParser.cpp'],
    libs=['-lsqlite3'], engine=['--hashbits', '4'],
    bounds='reference states with n <= 2 (thorough 3) and every l, j, m; windows dn 0..1, dl, dj, dm -1..1 (negative: unrestricted); pair bases of up to '
           '4 x 4 states; every mask of necessary states of up to 4 (6) states, two removals in a row',
    outside='larger windows and quantum numbers; file output of the basis')

add('C03', tmo=(300, 1800), flags=['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES'], redirect=[
        ('_ZN5boost13property_tree11json_parser10write_jsonINS0_11basic_ptreeINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_St4lessIS9_EEEEEvRKS9_RKT_RKSt6localeb', 'shim_write_json'), ('_ZN5boost13property_tree11json_parser9read_jsonINS0_11basic_ptreeINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_St4lessIS9_EEEEEvRKS9_RT_RKSt6locale', 'shim_read_json')], src=['pairinteraction/ConfParser.cpp'],
    bounds='3 (4) assignments of keys of up to 2 and values of 1 arbitrary ASCII character(s); JSON round trips of one key of up to 3 (4) and two keys of 1 (2) '
           'arbitrary ASCII characters, and triples out of 8 awkward keys; texts of up to 3 characters; ints in [-130,130] and 9 extreme ones',
    outside='longer keys and values, non-ASCII text, decimal numbers with more digits than a stream prints',
    assume=['boost::property_tree write_json and read_json are inverse to each other (the tree written is the tree read); the real ones run in the native replays'])

RD = [('_ZNSt13random_device9_M_getvalEv', 'rd_shim'), ('_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'rd_init_shim'),
      ('_ZNSt13random_device7_M_finiEv', 'rd_fini_shim')]
add('C04', tmo=(300, 1800), redirect=RD,
    bounds='sequences of 4 (5) wrapper calls with 2 (5) result codes each besides success at every library call; iteration over 0..4 (6) rows, failing at any row; '
           'all ints and doubles, texts of up to 3 arbitrary bytes plus a long one, positions -1..4; all retry counts',
    outside='longer sequences, NULL columns, texts with embedded zero bytes in get',
    assume=['the SQLite library follows its documented interface: the model in harness/C04.cpp stands for it, also in the native replay'])

HAM = ['pairinteraction/Hamiltonianmatrix.cpp', 'pairinteraction/Basisnames.cpp', 'pairinteraction/StateOld.cpp', 'pairinteraction/QuantumDefect.cpp', 'pairinteraction/ConfParser.cpp']
add('C13', tmo=(300, 1800), src=HAM, shim=['files.cpp'], libs=['-lsqlite3'], flags=['-DFMT_HEADER_ONLY'],
    bounds='real matrices of up to 2x2 entries and 2x2 (thorough 3x2) coefficients and complex ones of up to 2x2 and 1x2 (2x2) with every sparsity pattern, 4 (5) columns '
           'with at most one element each, all bit patterns of the values; histories of 3 (4) operations out of 14',
    outside='larger matrices, longer histories, failing disks',
    assume=['stdio files behave as the in-memory model in rt/files.cpp; the native replays use real files'])

add('C14', tmo=(400, 1800), src=HAM, shim=['files.cpp'], libs=['-lsqlite3'], flags=['-DFMT_HEADER_ONLY', '-DNDEBUG'],
    bounds='serialised real matrices of three shapes (up to 3x2) and a complex one: every truncation; every type tag, number, length, index and value replaced by every '
           'bit pattern; every pair of numbers, lengths and indices of the smallest (thorough: a 2x2) matrix replaced at once; lengths of every integer type; files of up to 8 arbitrary bytes',
    outside='three and more damaged items at once, larger matrices',
    assume=['stdio files behave as the in-memory model in rt/files.cpp; the native replays use real files'])

add('C15', tmo=(400, 1800), src=HAM, libs=['-lsqlite3'], flags=['-DFMT_HEADER_ONLY'],
    bounds='all real and complex values in [-10,10] (exact arithmetic); matrices of up to 3 vectors and 4 states, all index selections and masks, all sparsity patterns of two 2x2 matrices in sums',
    outside='larger matrices, rounding, diagonalisation of more than one vector')

add('C16', tmo=(500, 1800), src=HAM, libs=['-lsqlite3'], flags=['-DFMT_HEADER_ONLY'], engine=['--hashbits', '4'],
    bounds='five sets of 2 to 8 one-atom states (quick: four sets, up to 6 states), every combination of requested inversion, permutation, reflection and rotation symmetry with all their sectors, '
           'arbitrary real energies; arbitrary real and complex one-atom basis vectors without and superpositions by an arbitrary angle with one symmetry; arbitrary energy windows for 2 x 2 states',
    outside='larger bases; superpositions with two symmetries at once; fields that break a requested symmetry')

add('C11', tmo=(300, 1800), src=['pairinteraction/GreenTensor.cpp'],
    bounds='all real separations with components in [-100,100] (exact arithmetic; every combination of vanishing components), all surface distances in [0,100]; '
           'histories of 4 (5) reads and additions of surfaces',
    outside='rounding; atoms touching the surface; separations beyond 100 (the tensors are homogeneous)')

add('C12', tmo=(300, 1800), src=['pairinteraction/WignerD.cpp'],
    bounds='every j up to 3 (thorough 5; full matrices 3/2 and 5/2) with all m and m\', all real angles (exact arithmetic up to 1e-9 for the rounded constants) '
           'further than 1e-9 from the right angle, and 17 special angles in and around the right-angle branch',
    outside='larger j; rounding')

BCSTUB = ['-isystem', os.path.dirname(os.path.abspath(__file__)) + '/rt/stub_bc']
add('C05', tmo=(300, 1800), src=['pairinteraction/QuantumDefect.cpp'], redirect=RD, shim=['files.cpp'], bcflags=['-I' + BCSTUB[1]], libs=['-lsqlite3'],
    bounds='databases with up to 3 rows of potentials and 5 of Rydberg-Ritz coefficients per species in both orders, all coefficients in [-1,1] (exact arithmetic) and n up to 10^6, '
           'l in 0..3 (thorough -1..3), 5 (7) values of j; histories of 3 (4) lookups of 3 states in two files (with and without dropping tables), an empty and a missing one; '
           'every species of the embedded database with l up to 5',
    outside='larger tables, NULL entries, files that change while the program runs, rounding',
    assume=['SQLite executes the scripts and queries as the interpreter in harness/sqlmodel.h; the native replays use SQLite itself'])

add('C02', tmo=(300, 1800), src=['pairinteraction/QuantumDefect.cpp'], redirect=RD, shim=['files.cpp'], bcflags=['-I' + BCSTUB[1]], libs=['-lsqlite3'], extra=[],
    bounds='all schedules of the critical sections of 2 threads with 2 and 3 threads with 1 (thorough 2) cache operations out of 8 on 3 keys, before and after a first save; 2 (3) threads with '
           '1 and 2 quantum-defect lookups of 2 to 3 states in 1 to 2 files; happens-before data races between all accesses to shared memory',
    outside='more threads and operations; threads inside SQLite; weak-memory effects of racy programs (every race is reported)',
    assume=['SQLite executes the scripts and queries as the interpreter in harness/sqlmodel.h; the native replays use SQLite itself'])

add('C06', tmo=(300, 1800), src=['pairinteraction/QuantumDefect.cpp', 'pairinteraction/Wavefunction.cpp'], redirect=RD, shim=['files.cpp'], bcflags=['-I' + BCSTUB[1]],
    libs=['-lsqlite3', '-lgsl', '-lgslcblas'], flags=['-DWITH_GSL'],
    bounds='sorted grids of up to 6 (thorough 9) arbitrary points with every position and every absent value; potentials and Coulomb functions for every x and every parameter, l up to 5, five '
           'species names; the recurrence on 2 to 3 (4) points for every energy; integrals of arbitrary solutions on up to 4 (5) points with every overlap and powers 0..3; the '
           'solvers\' own grids for n up to 15 (60)',
    outside='grids of larger states, rounding, accuracy of the step width',
    assume=['exp, pow and gamma functions of symbolic arguments and the confluent hypergeometric function of GSL are unknown functions; the native replays use the real ones'])

MAPSTUB = ['-isystem', os.path.dirname(os.path.abspath(__file__)) + '/rt/stub_map']
FSSTUB = ['-isystem', os.path.dirname(os.path.abspath(__file__)) + '/rt/stub_fs']
add('C18', tmo=(750, 3000), engine=['--maxinstr', '2000000000'], src=['pairinteraction/State.cpp', 'pairinteraction/MatrixElementCache.cpp'], shim=['files.cpp'], bcflags=['-isystem' + MAPSTUB[1], '-isystem' + FSSTUB[1], '-I' + BCSTUB[1]],
    nflags=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-isystem' + MAPSTUB[1]], libs=['-lsqlite3', '-lstdc++fs'], redirect=[('_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc', 'pisym_widen'),
              ('_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_', 'pisym_getline')],
    bounds='selection rules: all l <= 2^20, half-integers j, m up to 2^19, k <= 3; values: all rows of the tables with l <= 1 (2 for spin 1/2; thorough: 3), '
           'spins 0, 1/2, 1, k <= 3, arbitrary n and wavefunctions (two grid points), exact Wigner symbols; histories: two requests out of 3 (8) for states with '
           'arbitrary n and m, 2 (6) pairs of l, j, in memory, with a file, with a second cache on the file, after a fork; one precalculation, change of settings, '
           'failed request, load of a dipole file, archive round trip; all 3 (8) requests for all pairs of six states one after another in 2 (4) orders',
    outside='longer histories, k > 3, the wavefunctions themselves (C06), the quantum defects (C05), hash collisions (the containers are linear, equal keys are '
            'asserted to have equal hashes), the cereal library, two processes writing the file at the same time')

add('C19', tmo=(600, 3000), engine=['--maxinstr', '2000000000'], src=['pairinteraction/StateOld.cpp', 'pairinteraction/Basisnames.cpp', 'pairinteraction/ConfParser.cpp', 'pairinteraction/MatrixElements.cpp'],
    bcflags=['-isystem' + MAPSTUB[1], '-I' + BCSTUB[1]], nflags=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-isystem' + MAPSTUB[1]], libs=['-lsqlite3'],
    redirect=[(x, 'pisym_insert_double') for x in ('_ZNSo9_M_insertIdEERSoT_', '_ZNSolsEd')] + [('_ZNSolsEf', 'pisym_insert_float')],
    bounds='selection rules: all l <= 2^20, half-integers j, m up to 2^19, k <= 3; values: all pairs of rows of the table with l <= 2 (thorough 3), spin 1/2, '
           'arbitrary wavefunctions (Numerov and Whittaker), exact Wigner symbols, both ways to precalculate (basis and vector of states); histories: one earlier '
           'precalculation or request, of the same object or of another one on the same file, with the same or another atom, method or failed precalculation',
    outside='spins other than 1/2, longer histories, use of an object whose precalculation failed, files shared between the two ways to precalculate (different tables), '
            'the wavefunctions themselves (C06)',
    assume=['SQLite executes the scripts and queries as the interpreter in harness/sqlmodel.h; the native replays use SQLite itself'])

add('C20', tmo=(300, 1800), engine=['--maxinstr', '2000000000'], src=['pairinteraction/SystemBase.cpp', 'pairinteraction/State.cpp', 'pairinteraction/MatrixElementCache.cpp', 'pairinteraction/QuantumDefect.cpp', 'pairinteraction/Wavefunction.cpp'],
    flags=['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES'], libs=['-lsqlite3', '-lgsl', '-lgslcblas', '-lstdc++fs'],
    bounds='systems of 2 or 3 states and 1 to 3 basis vectors with arbitrary real and complex coefficients and Hamiltonians; every pair of states, every selection of vectors, '
           'every window of quantum numbers and arbitrary energy windows and norm thresholds; two systems with 1 or 2 states each, with and without common states; histories of 4 (thorough 5) '
           'operations (change of a parameter, reading, rotation by an arbitrary angle, selection of a vector, canonicalize) with and without memory saving; diagonalization of '
           'four matrices of numbers followed by another operation and an arbitrary parameter',
    outside='larger systems, diagonalization of symbolic matrices, applySchriefferWolffTransformation() (matrix square root), unitarize() of symbolic vectors (hashes), a selection of '
            'eigenvectors followed by a change of parameters (the code then selects unperturbed vectors), the MKL and LAPACKE variants',
    assume=['the operator of the interaction and the rotation of the states come from a class derived from SystemBase in the harness'])

add('C22', tmo=(600, 3000), engine=['--maxinstr', '2000000000'], src=['pairinteraction/SystemOne.cpp', 'pairinteraction/SystemBase.cpp', 'pairinteraction/WignerD.cpp', 'pairinteraction/State.cpp', 'pairinteraction/MatrixElementCache.cpp'], shim=['files.cpp'],
    flags=['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES', '-I' + FSSTUB[1].replace('stub_fs', 'stub_cereal')], bcflags=['-isystem' + FSSTUB[1], '-I' + BCSTUB[1]],
    nflags=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'], libs=['-lsqlite3', '-lstdc++fs'],
    bounds='atoms with spin 0, 1/2, 1 (Sr1, Rb, Sr3), n = 6, l in {0,1} or {0,2} (4 to 12 states), arbitrary energies in [-4,4] and wavefunctions; every non-empty set of field '
           'components, each of either sign and with a ratio of at most 8; ions with charge -1 to 2, all distances in [0.5,4], order up to 3; all of it at once; parities, five sets '
           'of momenta and of ranges of m; six rotations by numbers (three of them about a single axis) of arbitrary fields; histories of 3 (thorough 4) changes of fields, ion and '
           'diamagnetism with and without memory saving, edits (selection, rotation, canonicalize) between two settings; two systems that differ in one parameter; bases with n <= 3 and ranges of l, j, m, arbitrary energy windows, one added state',
    outside='larger bases, fields below 1e-24 (left out by the code), fields whose diamagnetic (2,0) term vanishes, arbitrary angles (C15), changes of parameters after reading with memory '
            'saving and combining after reading (the interactions that are already contained are kept), serialization (the archives do not compile here)')
