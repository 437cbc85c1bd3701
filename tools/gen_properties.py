#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,q,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

prop("C01","Cache behaves as a write-once map over every history",
 "After any sequence of saves, restores and clears, restoring a key returns exactly the element that was saved under that key since the last clear, and nothing if there was none. Saving under a key that is already present is refused with an exception and leaves the stored element unchanged. This holds also for keys whose hashes collide.",
 ["histories","inputs"],"every sequence of save/restore/clear operations with arbitrary keys, elements and hash values",
 "the unit tests run three fixed histories with int/string keys; a wrong answer for a particular history, a collision or a clear in the middle is never reached",
 ["pairinteraction/Cache.hpp"],[("emplace/find on the guarded map","Cache::save, Cache::restore, Cache::clear")],
 [("cache","the stored elements","Cache::cache")],["Cache::save","Cache::restore"])

prop("C02","Concurrent use of caches and of quantum-defect lookups is race free",
 "Every operation of the cache may be called from any thread at any time: no interleaving accesses the stored elements without holding the lock, the lock is released on every exit including exceptions, and the outcome is that of some sequential order. Quantum-defect lookups from several threads, whether for equal or different states, never fail because of each other and return what a single-threaded lookup returns.",
 ["schedules","inputs"],"all interleavings of the critical sections of two or three threads performing arbitrary cache operations or quantum-defect lookups",
 "tests run a few schedules on a handful of keys and never call clear concurrently; races are schedule dependent",
 ["pairinteraction/Cache.hpp","pairinteraction/QuantumDefect.cpp"],[("lock_guard around every access","Cache::save, Cache::restore, Cache::clear"),("static cache shared by all lookups","QuantumDefect::setup")],
 [("cache","shared elements","Cache::cache"),("used_db_name","database the shared cache was filled from","QuantumDefect::setup")],["Cache methods","QuantumDefect constructors"])

prop("C03","Configurations keep every key and value",
 "A configuration is a map from text keys to text values: assigning, appending (the right-hand side wins), counting, finding, iterating, comparing and constant access (which throws for a missing key and never inserts) behave accordingly for all keys and values. Saving a configuration to JSON and loading it into an empty configuration gives an equal configuration, whatever characters the keys and values contain. A value streamed in as text, int, size or another value is read back unchanged.",
 ["inputs","histories"],"all key strings (including ones with dots, empty ones), all values, all sequences of map operations",
 "the test saves two hand-picked keys",
 ["pairinteraction/ConfParser.hpp","pairinteraction/ConfParser.cpp"],[("std::map of values","Configuration::params"),("property tree used as flat key/value list","Configuration::save_to_json, load_from_json")],None,["Configuration"])

prop("C04","The SQLite wrapper follows the statement protocol for every outcome",
 "For every sequence of result codes the SQLite library may return, each wrapper call either succeeds or throws an error carrying the code; stepping reports a row exactly when the library delivered one, refuses to continue after the end until reset, and requires a prepared statement. Iterating over a statement visits every row of the result exactly once and in order, whatever the number of rows. Bound values and columns are passed through to the requested positions unchanged, and a busy database is retried up to the threshold only.",
 ["fault_sequences","histories","inputs"],"all return codes of each SQLite call at each point, all result lengths up to a bound, all call sequences up to a bound",
 "the tests run against a healthy database and iterate a result of exactly two rows",
 ["pairinteraction/SQLite.hpp"],[("handle_error on every call","sqlite::statement"),("m_prepared / m_valid flags","sqlite::statement::step"),("iterator","sqlite::statement::iterator"),("busy_handler","sqlite::handle::busy_handler")],
 [("m_valid","whether more rows may follow","sqlite::statement")],["sqlite::statement","sqlite::handle"])

prop("C05","Quantum-defect results depend only on the state and the database",
 "For every species, n, l, j and every database content, a lookup returns the Rydberg-Ritz energy and effective quantum number and the model-potential coefficients of the matching rows, using the largest tabulated l (and j for that l) when the requested one is beyond the table. The result is the same whether or not other states or other databases were looked up before. If the needed rows are missing an error is raised, and nothing wrong is remembered.",
 ["inputs","histories","configurations"],"all quantum numbers, all table contents, all histories of previous lookups up to a bound",
 "tests compare a few rubidium/embedded values and two error cases; cache reuse across databases and fallback boundaries are not swept",
 ["pairinteraction/QuantumDefect.cpp","pairinteraction/QuantumDefect.hpp"],[("cache keyed by (species,n,l,j), cleared when the database changes","QuantumDefect::setup"),("MAX(L)/MAX(J) fallback","QuantumDefect::setup")],
 [("cache","remembered elements","QuantumDefect::setup")],["QuantumDefect","energy_level","nstar"])

prop("C06","Radial grids, grid search and radial integration are exact and in bounds",
 "For every admissible pair of states, both radial solvers build a grid of equidistant points covering the physical range and fill every point inside the grid without touching memory outside it; the inward solution satisfies the Numerov recurrence and is normalised. Searching a sorted grid for a value it contains terminates and returns the position of that value, and throws for a value that is absent. The radial integral sums exactly the overlapping part of the two grids, is symmetric in the two states, and is zero when the grids do not overlap.",
 ["inputs"],"all quantum numbers within a bound, all sorted grids up to a bound and all searched values",
 "tests fix two species/states; boundary sizes, non-overlap and values not on the grid are never tried",
 ["pairinteraction/Wavefunction.hpp","pairinteraction/Wavefunction.cpp"],[("binary search with fuzzy compare and restart","findidx"),("grid construction","Numerov::Numerov, Whittaker::Whittaker"),("overlap window","IntegrateRadialElement")],None,["findidx","Numerov","Whittaker","IntegrateRadialElement"])

prop("C07","Legacy one- and two-atom states: equality, order, hash and subset agree",
 "For all legacy states, equality is an equivalence that compares every quantum number, inequality is its negation, equal states hash equally, and the less-than relation is a strict total order consistent with equality. A pair is composed of exactly the two given atoms, setting or reading one atom leaves the other untouched, ordering a pair yields the smaller atom first and is idempotent and independent of the initial order. A state matches a pattern exactly if it equals the pattern in every component the pattern does not leave arbitrary.",
 ["inputs"],"all pairs and triples of states with arbitrary quantum numbers",
 "there is no unit test of these operators at all in this build; triples needed for transitivity are not sampled",
 ["pairinteraction/StateOld.hpp","pairinteraction/StateOld.cpp"],[("comparison operators","StateOneOld, StateTwoOld"),("hash specialisations","std::hash<StateOneOld>, std::hash<StateTwoOld>")],None,["operator==","operator<","operator^","order","first/second"])

prop("C08","One- and two-atom states: identity, order, hash, reflection and guards agree",
 "For all states, equality compares species and every quantum number, inequality is its negation, equal states have equal hashes, and less-than (and less-or-equal) is a strict (total) order consistent with equality. Reflecting a state only flips the sign of the magnetic quantum numbers, is an involution, and yields a state indistinguishable from one constructed directly. Artificial (labelled) states refuse access to quantum numbers, and ordinary states refuse access to a label; a state is generalized exactly if some component is arbitrary; pattern matching treats arbitrary components as wildcards and nothing else.",
 ["inputs"],"all pairs and triples of states with arbitrary species, quantum numbers or labels",
 "these sources are not part of the tests that run here; the existing upstream tests use one pair of states",
 ["pairinteraction/State.hpp","pairinteraction/State.cpp"],[("comparison operators and cached hash","StateOne, StateTwo"),("shouldBeArtificial guard","StateOne")],[("hashvalue","cached hash","StateOne, StateTwo")],["StateOne","StateTwo"])

prop("C09","Symmetry sectors are totally ordered keys",
 "The order on symmetry sectors (inversion, reflection, permutation, rotation) is a strict total order: irreflexive, transitive, and two sectors are equivalent only if all four labels coincide. A map keyed by sectors therefore keeps exactly one entry per distinct sector and finds it again.",
 ["inputs"],"all pairs and triples of sectors with arbitrary label values",
 "no test compares sectors; transitivity needs triples",
 ["pairinteraction/Symmetry.hpp"],[("lexicographic comparison","operator<(Symmetry, Symmetry)")],None,["operator<"])

prop("C10","Basis enumeration lists exactly the allowed states with consistent numbering",
 "For every configured window (dn, dl, dj, dm around the reference states), the one-atom basis contains exactly the states with physically valid quantum numbers inside the window, each once, and the pair basis contains exactly the ordered pairs of both one-atom bases. The index stored in every state equals its position in the list, also after unnecessary states were removed, and removal keeps exactly the states marked necessary.",
 ["inputs","configurations"],"all windows and reference states up to a bound on the quantum numbers and window sizes, all masks of necessary states",
 "no unit test enumerates a basis in this build",
 ["pairinteraction/Basisnames.cpp","pairinteraction/Basisnames.hpp"],[("nested loops over n,l,j,m into a set","BasisnamesOne::build"),("product","BasisnamesTwo::build"),("renumbering","removeUnnecessaryStates")],
 [("names_","the list of states","Basisnames")],["BasisnamesOne::fromFirst/fromSecond/fromBoth","BasisnamesTwo","removeUnnecessaryStates"])

prop("C11","Green tensors: closed form, symmetry, gradients and surface handling",
 "For every separation, the vacuum dipole-dipole tensor is symmetric, traceless and equal to the dipole coupling 3rr^T/r^5 - 1/r^3, and the dipole-quadrupole and quadrupole-dipole tensors are its gradients with respect to the first and second atom, with or without a surface. Adding a surface at any time changes all three tensors to vacuum part plus plate part even if they were already read, and where the plate part is the coupling to the image of the second atom's dipole in the plate z = 0 and the two atoms are at heights d -/+ z/2; it is refused with an exception, leaving the tensors as they were, if the atoms leave the xz-plane or an atom would be inside the plate. As long as no surface was added the tensors are the vacuum tensors, in whatever order and how often they are read.",
 ["inputs","histories"],"all real positions and surface distances (exact arithmetic), all orders of reads and addSurface calls up to a bound",
 "the tensor test is not built here and compares two geometries with finite differences",
 ["pairinteraction/GreenTensor.cpp","pairinteraction/GreenTensor.hpp"],[("closed forms","get*TensorVacuum, get*TensorPlate"),("calculated flags","GreenTensor::get*Tensor, addSurface")],
 [("*_tensor_calculated","whether the cached tensor is current","GreenTensor")],["getDDTensor","getDQTensor","getQDTensor","addSurface"])

prop("C12","Wigner rotation matrices are the spin-j rotation representation",
 "For every j up to a bound and every angle, the small rotation matrix is the identity at angle zero, equals the closed-form matrix of the rotation (hence is orthogonal), and the special branch for a right angle agrees with the general one. The full rotation matrix element is the small one times the phases exp(-i m alpha) and exp(-i m' gamma).",
 ["inputs"],"all j, m, m' up to a bound, all real angles (exact arithmetic with sin/cos constrained by sin^2+cos^2=1)",
 "the existing test is not built here and uses a few numeric angles",
 ["pairinteraction/WignerD.cpp","pairinteraction/WignerD.hpp"],[("expansion in right-angle elements","WignerD::evalWignerd, evalWignerdPiHalf"),("branch on the angle","WignerD::operator()")],None,["WignerD::operator()"])

prop("C13","Matrices survive save and load over every history",
 "For every Hamiltonian matrix (any size up to a bound, any sparsity pattern of entries and basis, including empty rows and columns), serialising and reading it back gives a matrix with equal dimensions, entries, basis and complex/real type. What is serialised is always the current content: changing the matrix after it was serialised and serialising again reflects the change.",
 ["inputs","histories"],"all shapes and sparsity patterns up to a bound with arbitrary values; all histories of modify/serialise/load up to a bound",
 "no test of the serialisation is built here",
 ["pairinteraction/Hamiltonianmatrix.cpp","pairinteraction/Hamiltonianmatrix.hpp","pairinteraction/Serializable.hpp"],[("byte-wise serialisation","Hamiltonianmatrix::doSerialization/doDeserialization"),("cached bytes","Hamiltonianmatrix::bytes"),("typed blocks","Serializer")],
 [("bytes","serialised form","Hamiltonianmatrix")],["serialize","deserialize","load","save"])

prop("C14","Damaged matrix files are rejected without memory errors",
 "Whatever bytes a cached matrix file contains (truncated, corrupted, or with hostile lengths and indices), reading it either yields a matrix whose internal structure is valid or is reported as failed by an exception or a false result. Reading never accesses memory outside the buffer or the matrix being built.",
 ["inputs","crash_points"],"all contents of the length, type and index fields, all truncation points, for buffers up to a bound",
 "no test loads a damaged file; corruption space is exponential",
 ["pairinteraction/Hamiltonianmatrix.cpp","pairinteraction/Serializable.hpp"],[("bounds checks while reading","Serializer::deserialize, Deserializer"),("load returning false","Hamiltonianmatrix::load")],None,["Hamiltonianmatrix::deserialize","Hamiltonianmatrix::load","Serializer"])

prop("C15","Matrix algebra and pruning keep the described operator",
 "Sums, differences and scalar multiples of Hamiltonian matrices, changing the basis, taking blocks and absolute values act entry-wise as their names say on the represented operator, for every content. Pruning basis vectors keeps exactly the vectors with sufficient weight (above 0.05) on the kept states and every matrix element among them; removing states keeps exactly the coefficients of the remaining states; the states reported necessary are exactly those with sufficient weight in the basis besides those already necessary.",
 ["inputs"],"all matrices up to a bound on the dimensions with arbitrary real (exact) entries, all masks and block selections",
 "not tested in this build",
 ["pairinteraction/Hamiltonianmatrix.cpp"],[("Eigen sparse algebra","operator+,-,*, changeBasis, abs, getBlock, applyCutoff, findUnnecessaryStates, removeUnnecessary*")],None,["Hamiltonianmatrix"])

prop("C16","Pair states built from one-atom systems form the right symmetrised basis",
 "Combining two one-atom matrices gives a pair matrix whose energies are the sums of the one-atom energies, restricted to exactly the pairs within the energy window, and whose basis consists of the products of the one-atom basis vectors. If symmetries are requested, every kept basis vector is normalised, orthogonal to the others and has exactly the requested inversion, permutation and reflection parity, and the even and odd sectors together are as many as the unsymmetrised pairs.",
 ["inputs","configurations"],"all diagonal energies and small bases, all symmetry requests, all energy windows (exact arithmetic)",
 "not tested in this build",
 ["pairinteraction/Hamiltonianmatrix.cpp"],[("triplet construction with parity factors","combine"),("energy window","energycutoff")],None,["combine","energycutoff"])

prop("C17","Hashing utilities are deterministic functions of the whole value",
 "The byte hash is the 64-bit FNV-1a hash of exactly the given bytes; combining hashes of ranges, arrays and complex numbers depends on every element and its position, and equal values give equal hashes. Conjugation, conversion to real, truth tests and the imaginary unit agree with their mathematical meaning, and random integers always lie inside the closed requested interval.",
 ["inputs"],"all byte strings up to a bound, all values of the hashed types, every output of the random generator",
 "the unit test draws a handful of random integers only",
 ["pairinteraction/utils.hpp"],[("FNV64","utils::FNV64"),("hash_combine","utils::hash_combine, hash_range, hash<array>, hash<complex>"),("randint","utils::randint")],None,["utils"])

prop("C18","Matrix elements obey selection rules and do not depend on call history",
 "For every pair of states, the dipole, multipole, radial, magnetic and diamagnetic matrix elements are zero when the angular-momentum selection rules forbid them, and the selection predicates agree with the rules. Matrix elements are Hermitian (exchanging the states gives the value of the adjoint operator), and the value returned does not depend on which elements were requested or precalculated before or in which order.",
 ["inputs","histories"],"all pairs of states up to a bound on the quantum numbers, all orders of two or three requests; 3j/6j symbols and radial integrals abstracted as arbitrary functions obeying their documented symmetries",
 "the sources cannot be linked without the Wigner symbol library, so no test here touches them",
 ["pairinteraction/MatrixElementCache.cpp","pairinteraction/MatrixElementCache.hpp"],[("canonical cache keys with sign","CacheKey_cache_*"),("selection predicates","selectionRules*")],
 [("cache_*","remembered elements","MatrixElementCache")],["MatrixElementCache"])

prop("C19","Legacy matrix elements belong to the states asked for, whatever was calculated before",
 "In the legacy code path, the electric, magnetic, multipole, radial and diamagnetic matrix elements of every pair of precalculated states (spin 1/2) have the value given by the formula for exactly these two states, are zero where the angular-momentum selection rules forbid them, and depend neither on which elements were precalculated or read before (by this object or by another one on the same database file), nor on the atom, the method or a failure of that earlier calculation.",
 ["inputs","histories"],"all pairs of states up to a bound on l, arbitrary wavefunctions, exact Wigner symbols; selection rules for all quantum numbers up to 2^19; one earlier precalculation or request",
 "the sources cannot be linked without the Wigner symbol library, so no test here touches them; the values depend on what a database file holds",
 ["pairinteraction/MatrixElements.cpp","pairinteraction/MatrixElements.hpp"],[("maps keyed by state pairs","MatrixElements"),("tables of the database file","MatrixElements::precalculate")],
 [("cache_*","elements calculated so far","MatrixElements")],["MatrixElements"])

prop("C20","System editing operations describe the same physical system",
 "On a one- or two-atom system, selecting basis vectors, restricting quantum numbers or energies, rotating, canonicalizing, unitarizing, diagonalizing and combining systems, reading, setting and adding Hamiltonian entries, and reading overlaps, indices, main states and connections act on exactly the addressed states and vectors. After every sequence of these operations the Hamiltonian, the basis vectors and the list of states describe the same operator on the same space, and the Hamiltonian after a change of parameters is the unperturbed one plus the interaction for the new parameters, whatever was built before. Requests naming states or vectors that do not exist, or the same one twice, are refused.",
 ["inputs","histories"],"all coefficients, Hamiltonians, thresholds and parameters of systems with 2 or 3 states; all sequences of four operations",
 "the sources cannot be linked without the Wigner symbol library, so no test here touches them; the property relates sequences of operations",
 ["pairinteraction/SystemBase.hpp","pairinteraction/SystemBase.cpp"],[("shared member functions","SystemBase")],
 [("states, basisvectors, hamiltonian and the unperturbed copies","the system","SystemBase"),("is_new_hamiltonian_required, is_interaction_already_contained","what the Hamiltonian contains","SystemBase")],["SystemBase"])

prop("C21","The graphical front end reads the matrices the library writes",
 "Every matrix file written by the library is decoded by the graphical front end into the same entries and basis (dimensions, values, real or complex, row indices and column pointers).",
 ["inputs"],"all matrices up to a bound",
 "the front end's loader is never exercised together with the writer",
 ["pairinteraction_gui/loader.py","pairinteraction/Hamiltonianmatrix.cpp","pairinteraction/Serializable.hpp"],[("type/flag constants and layout on both sides","BinaryLoader, Serializer")],None,["BinaryLoader.load"])

prop("C22","The Hamiltonian of one atom is the one of its Rydberg states in the fields it was given",
 "For one atom, the basis consists of exactly the states of the species whose quantum numbers and energies are within the ranges asked for, plus the added ones; states that cannot exist are left out. The Hamiltonian is the diagonal of the state energies plus -E.d for the electric field, the Zeeman and (if enabled) the diamagnetic term of the magnetic field and the multipole terms of an ion next to the atom, for every field, distance, charge and order, and it depends on the current parameters only, not on earlier ones. With a conserved parity under reflection or conserved momenta, the basis is the orthonormal basis of exactly that symmetry sector and the Hamiltonian the operator within it; incompatible symmetries are refused. A field given in a rotated frame equals the rotated field, and rotating the states equals rotating the field. Combining is refused for systems of different atoms, fields or ions, and otherwise gives the Hamiltonian of the union of the states.",
 ["inputs","histories"],"all fields, distances, energies and wavefunctions for bases of up to 12 states; all symmetry sectors of these; three changes of parameters; two systems",
 "the sources cannot be linked without the Wigner symbol library, so no test here touches them",
 ["pairinteraction/SystemOne.cpp","pairinteraction/SystemOne.hpp"],[("terms of the fields and the ion","SystemOne::initializeInteraction, SystemOne::addInteraction"),("basis and symmetries","SystemOne::initializeBasis")],
 [("interaction_efield, interaction_bfield, interaction_diamagnetism, interaction_multipole","operators calculated so far","SystemOne")],["SystemOne"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
