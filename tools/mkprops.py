#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    for k in ('state', 'observe_at', 'hook_needed'):
        if k in kw: a[k] = kw[k]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('C01', 'Work is divided among processes completely, disjointly and evenly',
 'For any number of work items and any number of processes or chunks, the library assigns consecutive blocks that cover every item exactly once, whose sizes differ by at most one with larger blocks first, and all processes agree on sizes and bounds. Sub-communicators built for two-dimensional work grids and for shared memory partition the processes, keep their relative order, and identify each process uniquely by its two sub-ranks. Shared arrays exist once per node (or per process if not shared), and broadcasting them makes all copies equal.',
 ['inputs', 'configurations'], 'every work size >= 0, every process count, chunk count and grid width, every placement of processes on nodes',
 'The suite runs with one and two processes on one node only and never inspects the blocks.',
 ['elphmod/MPI.py'], [('distribute', 'elphmod/MPI.py:distribute'), ('matrix', 'elphmod/MPI.py:matrix'), ('shm_split', 'elphmod/MPI.py:shm_split'), ('shared arrays', 'elphmod/MPI.py:shared_array')])

prop('C02', 'Results do not depend on process count, placement, or shared memory',
 'Every parallel computation of the library returns, on every process, the same result as a serial run, whatever the number of processes, their distribution over nodes, and whether shared memory is requested. This covers band structures and eigenvectors on paths and full meshes (with and without band ordering and symmetry), sampling and transformation of couplings and matrices, diagrams, supercells, sums over lattice vectors, Wigner-Seitz grids, Fourier and linear interpolation, molecular-dynamics quantities, and data read from files.',
 ['configurations', 'schedules'], 'every process count, node layout, shared-memory flag and interleaving of processes; every input of the listed operations',
 'The suite uses at most two processes on one node, with inputs for which a race or an empty block hardly ever shows.',
 ['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/elph.py', 'elphmod/diagrams.py', 'elphmod/bravais.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/md.py', 'elphmod/misc.py'],
 [('gather/broadcast of blocks', 'elphmod/dispersion.py:dispersion'), ('column/row communicators', 'elphmod/elph.py:sample'), ('node/images synchronisation', 'elphmod/MPI.py:shared_array')])

prop('C03', 'Parallel runs never deadlock, mismatch, or read unsynchronised memory',
 'In every parallel operation, all members of a communicator enter the same sequence of collective calls with compatible arguments, so that no schedule deadlocks or delivers data to the wrong place. No process reads a shared-memory location before the write it depends on is ordered before the read by a synchronisation, and no two processes write the same location concurrently with different values.',
 ['schedules', 'configurations'], 'every interleaving of the processes and every allowed completion order of collectives, every process count and node layout',
 'Two processes on one node under the real scheduler visit a handful of interleavings; multi-node layouts cannot be exercised at all.',
 ['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/elph.py', 'elphmod/diagrams.py', 'elphmod/md.py', 'elphmod/misc.py', 'elphmod/ph.py', 'elphmod/el.py', 'elphmod/elel.py', 'elphmod/bravais.py'],
 [('barriers and broadcasts around shared arrays', 'elphmod/MPI.py:SharedArray.Bcast'), ('collective sequences', 'elphmod/elph.py:sample')])

prop('C04', 'Supercell geometry is exact for every supercell matrix',
 'For any three linearly independent integer vectors, the supercell contains exactly one representative of each class of lattice vectors modulo the supercell lattice, including the origin, in a number equal to the absolute volume. Every lattice vector decomposes uniquely into a supercell lattice vector plus the listed representative with the returned index.',
 ['inputs'], 'all non-singular 3x3 integer matrices (skewed, negative volume, scalar shortcuts) and all lattice vectors',
 'Tests use one diagonal and one skewed two-dimensional cell with positive volume.',
 ['elphmod/bravais.py'], [('supercell', 'elphmod/bravais.py:supercell'), ('to_supercell', 'elphmod/bravais.py:to_supercell')])

prop('C05', 'Supercell models contain exactly the matrix elements of the primitive model',
 'Mapping an electron, phonon or electron-electron model onto any supercell yields the model whose matrix element between two supercell sites equals the primitive element between the corresponding sites, and zero where there is none. Species, masses, positions, lattice vectors and unit settings are carried along consistently, and the sparse variant equals the dense model at the zone centre.',
 ['inputs', 'configurations'], 'all models with finitely many lattice vectors, all supercell matrices',
 'Tests compare eigenvalues of one or two regular supercells of one model.',
 ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py'], [('Model.supercell', 'elphmod/el.py:Model.supercell'), ('Model.supercell', 'elphmod/ph.py:Model.supercell'), ('Model.supercell', 'elphmod/elel.py:Model.supercell')])

prop('C06', 'Supercell couplings contain exactly the primitive coupling elements',
 'Mapping an electron-phonon model onto a supercell yields, for every displacement and pair of orbitals in the supercell, the primitive coupling between the corresponding displacement and orbitals, and zero where there is none. The sparse variant equals the dense coupling with all electronic and phononic lattice vectors summed. Long-range terms of polar models are added to the on-site elements of all orbitals of the supercell, in both variants.',
 ['inputs', 'configurations'], 'all coupling models with finitely many lattice vectors, all supercell matrices, shared or private memory',
 'Tests compare band structures for one distorted supercell; index or lattice-vector slips that cancel there go unseen.',
 ['elphmod/elph.py'], [('Model.supercell', 'elphmod/elph.py:Model.supercell')])

prop('C07', 'Mapping a supercell model back to the unit cell recovers the primitive model',
 'For any electron or phonon model and any supercell, mapping to the supercell and back gives the same matrix element for every lattice vector, site pair and direction, together with the same lattice, positions, masses, species and unit settings.',
 ['inputs', 'histories'], 'all models, all supercell matrices (skewed, negative volume), optionally after standardisation of the supercell model',
 'One test maps one model back from one positive diagonal supercell.',
 ['elphmod/el.py', 'elphmod/ph.py'], [('Model.unit_cell', 'elphmod/el.py:Model.unit_cell'), ('Model.unit_cell', 'elphmod/ph.py:Model.unit_cell')])

prop('C08', 'Reordering and shifting basis sites only relabels the model',
 'After reordering orbitals or atoms, or moving selected ones across unit-cell boundaries by a lattice vector, the element between any two sites is the original element between the same physical sites. Attached positions, masses, species and long-range data follow their atoms, and any such sequence followed by its inverse restores the model.',
 ['inputs', 'histories'], 'all models, all permutations and shifts (zero, negative, overlapping), all sequences of such operations',
 'One test reorders and shifts once and looks at eigenvalues, which permutations and phases leave unchanged.',
 ['elphmod/el.py', 'elphmod/ph.py'], [('order/shift orbitals', 'elphmod/el.py:Model.shift_orbitals'), ('order/shift atoms', 'elphmod/ph.py:Model.shift_atoms')])

prop('C09', 'Standardising keeps the model, symmetrising makes it Hermitian',
 'Standardising any model sums duplicate lattice vectors, removes vanishing ones (and elements below a relative threshold), and sorts the rest, without changing the matrix at any wave vector. Symmetrising yields the Hermitian part (for couplings: the mean with the conjugate partner), and both operations are idempotent.',
 ['inputs', 'histories'], 'all electron, phonon, electron-electron and electron-phonon models, including duplicates, zero blocks and non-Hermitian data, in any sequence',
 'Tests standardise models read from files that are already nearly standard.',
 ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py'], [('standardize', 'elphmod/el.py:Model.standardize'), ('standardize', 'elphmod/ph.py:Model.standardize'), ('standardize', 'elphmod/elel.py:Model.standardize'), ('standardize', 'elphmod/elph.py:Model.standardize')])

prop('C10', 'Wigner-Seitz assignment picks exactly the nearest periodic images',
 'For any periodic mesh and basis, each mesh element is assigned exactly to its nearest periodic images (within the requested search range) between the two sites, with degeneracy equal to their number, so that weights of the images of each element sum to one. A short-range model built this way therefore reproduces the mesh data at every mesh wave vector and is symmetric between a pair of sites and its reverse.',
 ['inputs'], 'all mesh sizes, reduced lattices, site positions (inside and outside the cell), one or two sets of sites, both sign conventions',
 'Tests look at a few lattices with one atom or compare band structures.',
 ['elphmod/bravais.py'], [('wigner', 'elphmod/bravais.py:wigner'), ('short_range_model', 'elphmod/bravais.py:short_range_model')])

prop('C11', 'Mesh data and localized models convert into each other without loss',
 'Building an electron, phonon, interaction or coupling model from data on any regular mesh gives a model that reproduces exactly these data at all mesh points, with documented unit and mass conversions applied once. Building phonons from the irreducible wedge equals building them from the full mesh.',
 ['inputs', 'configurations'], 'all mesh sizes and data (including non-Hermitian and non-cubic meshes), site positions, masses and unit flags',
 'Tests check one or two models on one mesh each.',
 ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py', 'elphmod/bravais.py'], [('k2r', 'elphmod/el.py:k2r'), ('q2r', 'elphmod/ph.py:q2r'), ('q2r', 'elphmod/elel.py:q2r'), ('q2r', 'elphmod/elph.py:q2r')])

prop('C12', 'Symmetry-reduced wave vectors and data expand to exactly the full mesh',
 'The irreducible points represent each symmetry orbit of the mesh exactly once, the images of a point are exactly its orbit, and completing data from any wedge reproduces the full symmetric mesh. Full-mesh calculations that use symmetry give the same values at every mesh point as calculations that do not.',
 ['inputs'], 'all mesh sizes and lattice angles 60, 90, 120, all symmetric and partially filled data',
 'Tests compare the number of points or one mesh.',
 ['elphmod/bravais.py', 'elphmod/dispersion.py'], [('images/irreducibles', 'elphmod/bravais.py:images'), ('symmetries/complete/complete_k', 'elphmod/bravais.py:symmetries'), ('dispersion_full', 'elphmod/dispersion.py:dispersion_full')])

prop('C13', 'Folding to the Brillouin or Wigner-Seitz cell picks the nearest images',
 'For any point and lattice angle, folding returns all and only equivalent points of minimal length, two-dimensional Wigner-Seitz lists contain each mesh class with weights summing to one, and the squared distance is the metric of the lattice. Fourier interpolation built on them is periodic and reproduces the data at every mesh point.',
 ['inputs'], 'all mesh sizes, points (inside and outside the cell), offsets and lattice angles',
 'Tests interpolate one function and look at one mesh.',
 ['elphmod/bravais.py'], [('to_Voronoi', 'elphmod/bravais.py:to_Voronoi'), ('wigner_2d', 'elphmod/bravais.py:wigner_2d'), ('squared_distance', 'elphmod/bravais.py:squared_distance'), ('Fourier_interpolation', 'elphmod/bravais.py:Fourier_interpolation')])

prop('C14', 'Linear interpolation, resizing and stacking respect mesh and periodicity',
 'Linear interpolation on a triangular or square mesh is exact at mesh points, periodic, affine on every mesh triangle or square edge, and continuous across boundaries, for any axes, angle, period and complex data. Resizing equals point-wise interpolation at the new mesh, and stacking equivalent points yields continuous sequences that differ from the input by multiples of the period.',
 ['inputs'], 'all mesh sizes, angles, axes, periods, real and complex (polar or not) data, all fractional arguments',
 'Tests interpolate one periodic function at few points.',
 ['elphmod/bravais.py'], [('linear_interpolation', 'elphmod/bravais.py:linear_interpolation'), ('resize', 'elphmod/bravais.py:resize'), ('stack', 'elphmod/bravais.py:stack')])

prop('C15', 'Band ordering is a permutation that follows the band characters',
 'Ordering bands assigns at every point a permutation of the bands that maximises overlap with the preceding point for unambiguous data, and applies the same permutation to energies, eigenvectors and the reported order; bands are numbered by average energy unless disabled. Mapping one set of eigenvectors onto another returns the permutation that relates them.',
 ['inputs', 'histories'], 'all sequences of eigenvectors (crossings, degeneracies) and numbers of bands, both reference modes, on paths and full meshes',
 'Tests look at one path of one model.',
 ['elphmod/dispersion.py'], [('band_order', 'elphmod/dispersion.py:band_order'), ('map_dispersions', 'elphmod/dispersion.py:map_dispersions'), ('ordering in dispersion', 'elphmod/dispersion.py:dispersion')])

prop('C16', 'Diagrams pair states at k and k+q correctly on every mesh',
 'Susceptibilities, polarizations, phonon self-energies, renormalised couplings, triangle diagrams, Fermi-surface averages and first-order terms pair, at each mesh point k and transferred momentum q (inside or outside the first zone), exactly the states at k and k+q with the coupling stored for that pair. The sum over all pairs and bands is normalised by the number of mesh points, with documented prefactors and documented subspace selection.',
 ['inputs'], 'all mesh sizes and dimensions, all mesh momenta, all band counts, energies, couplings and occupation functions',
 'Tests compare with one reference calculation on one square mesh.',
 ['elphmod/diagrams.py'], [('susceptibility', 'elphmod/diagrams.py:susceptibility'), ('polarization', 'elphmod/diagrams.py:polarization'), ('phonon_self_energy', 'elphmod/diagrams.py:phonon_self_energy'), ('Pi_g', 'elphmod/diagrams.py:Pi_g'), ('triangle', 'elphmod/diagrams.py:triangle'), ('double_fermi_surface_average', 'elphmod/diagrams.py:double_fermi_surface_average')])

prop('C17', 'Coupling evaluation depends only on the model and arguments, not on history',
 'Evaluating the electron-phonon coupling at given wave vectors and in a given basis always returns the value defined by the current data of the coupling, electron and phonon models, whatever evaluations, modifications through methods of the models, or long-range updates preceded it. Returned arrays can be modified by the caller without influencing later evaluations.',
 ['histories'], 'all sequences of evaluations and modifications (rebuild, sum rule, standardise, clear, supercell, long-range update)',
 'Tests evaluate freshly created models only.',
 ['elphmod/elph.py'], [('cached phonon Fourier transform', 'elphmod/elph.py:Model.g')], state=[dict(name='cached q point and transform', meaning='data valid for one q', where='elphmod/elph.py:Model.g')])

prop('C18', 'Model data written to files are read back unchanged',
 'Hamiltonians, force constants and dynamical matrices (with masses, positions, species, dielectric data), coupling data, interactions, quadrupoles, band structures, and position-space functions written by the library and read back by it are identical up to the printed precision, for every shape, unit flag and file variant it writes. The files have the layout of the codes they are exchanged with, so that files of these codes are read correctly, too.',
 ['inputs', 'configurations'], 'all models and data that can be represented in the file format',
 'Tests read fixed reference files and write at most one model.',
 ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/misc.py', 'elphmod/bravais.py'], [('hr.dat', 'elphmod/el.py:write_hrdat'), ('flfrc', 'elphmod/ph.py:write_flfrc'), ('epmatwp', 'elphmod/elph.py:Model.to_epmatwp'), ('xsf', 'elphmod/misc.py:write_xsf'), ('quadrupoles', 'elphmod/ph.py:write_quadrupole_fmt'), ('Coulomb', 'elphmod/elel.py:write_band_Coulomb_interaction')])

prop('C19', 'Calculation input files survive parsing and writing',
 'Parsing an input file and writing it back yields a file with the same parsed content, for plane-wave, Wannier, phonon, interpolation and coupling inputs, in any order of sections, spacing, case, comments and number format the parser supports. Values keep their type, every section present in the file is kept, and structures edited in between are written with the new values. This refers to the sections and options the library knows.',
 ['inputs'], 'all combinations of sections, options and value types supported by the readers',
 'Tests parse and write a few fixed example files.',
 ['elphmod/bravais.py', 'elphmod/misc.py'], [('read/write_pwi', 'elphmod/bravais.py:write_pwi'), ('read/write_win', 'elphmod/bravais.py:write_win'), ('namelists', 'elphmod/misc.py:read_namelists'), ('ph/q2r/matdyn/epw', 'elphmod/bravais.py:write_epw')])

prop('C20', 'Molecular-dynamics driver is a pure function of current displacements',
 'Energies, forces, force constants and electronic models reported by the driver depend only on its parameters and the current displacements, not on the sequence of previous calls, and the dense and sparse variants agree. Saving and loading the driver or writing and reading its structure restores the same state, and centring keeps relative positions.',
 ['histories', 'configurations'], 'all sequences of displacement changes, evaluations, saves, loads and structure file operations, for dense and sparse drivers',
 'One test relaxes or differentiates one distorted cell.',
 ['elphmod/md.py'], [('Driver', 'elphmod/md.py:Driver')], state=[dict(name='displacements', meaning='current atomic displacements', where='elphmod/md.py:Driver')])

prop('C21', 'Calls leave their arguments unchanged and repeat with equal results',
 'Calling a function of the library does not modify arrays, lists, dictionaries or models passed as arguments, except methods documented to modify their own object. Repeating a call with the same arguments gives the same result.',
 ['histories', 'inputs'], 'all sequences of calls sharing arguments',
 'Tests call each function once with fresh arguments.',
 ['elphmod/bravais.py', 'elphmod/dispersion.py', 'elphmod/diagrams.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/misc.py'], [('primitives', 'elphmod/bravais.py:primitives'), ('copies before in-place updates', 'elphmod/diagrams.py:phonon_self_energy')])

prop('C22', 'Buffer files deliver exactly the last stored object on every process',
 'Reading a buffer returns on every process the object stored last under that name, or nothing if none was stored or no name is given, and never fails because the file does not exist. Wannier functions read through binary buffer files equal those read from the original files, and array files load identically with and without shared memory.',
 ['histories', 'configurations'], 'all sequences of store and fetch operations on several buffers, any process count',
 'No test uses buffers.',
 ['elphmod/MPI.py', 'elphmod/el.py', 'elphmod/ph.py', 'elphmod/dispersion.py'], [('Buffer', 'elphmod/MPI.py:Buffer'), ('load', 'elphmod/MPI.py:load'), ('buffer_wf', 'elphmod/el.py:Model')])

prop('C23', 'Progress indication is monotone, complete, and owned by one loop at a time',
 'At any time at most one progress bar is active: bars created while another is unfinished, and processes other than the first, print nothing. The active bar advances in proportion to the completed steps (up to rounding), never exceeds its width, reaches it exactly when all steps are done, and then releases the display for the next bar, for any step count and any nesting.',
 ['histories'], 'all sequences of creating and updating nested progress bars, all step counts and widths',
 'Tests suppress or ignore output.',
 ['elphmod/misc.py'], [('StatusBar', 'elphmod/misc.py:StatusBar')], state=[dict(name='lock', meaning='a bar is active', where='elphmod/misc.py:StatusBar')])

prop('C24', 'Selection, grouping and lookup helpers are exact',
 'Orbital selection expressions denote exactly the set union they spell out (including nested alternatives), and projections are summed over exactly the matching orbitals. Grouping returns the connected components of points within tolerance, and vector lookup returns the matching index or nothing.',
 ['inputs'], 'all well-formed selection expressions, orbital sets, point sets and vector lists',
 'Tests use two or three expressions.',
 ['elphmod/misc.py', 'elphmod/el.py'], [('split', 'elphmod/misc.py:split'), ('proj_sum', 'elphmod/el.py:proj_sum'), ('group', 'elphmod/misc.py:group'), ('vector_index', 'elphmod/misc.py:vector_index')])

prop('C25', 'Paths and meshes visit the requested points in order',
 'A path passes through every requested corner in order, with the reported corner indices and arclengths pointing at exactly these corners, points on each segment equally spaced with the requested density. Meshes enumerate every point of a regular grid exactly once in lexicographic order with weights summing to one.',
 ['inputs'], 'all lists of corner points (including repeated and discontinuous ones), numbers of points, and mesh dimensions',
 'Tests use one or two standard paths.',
 ['elphmod/bravais.py'], [('path', 'elphmod/bravais.py:path'), ('GMKG', 'elphmod/bravais.py:GMKG'), ('mesh/kpoints', 'elphmod/bravais.py:mesh')])

prop('C26', 'Splitting off long-range terms never changes the total on the original mesh',
 'Whatever sequence of long-range parameter changes and short-range updates is applied, the sum of short-range and long-range dynamical matrices or couplings on the original mesh equals the original total. Without long-range terms the update leaves the model unchanged. The long-range terms themselves are the documented sums over dipoles and quadrupoles of all atoms and all reciprocal lattice vectors within the cutoff, for any cell shape, in two and three dimensions.',
 ['histories'], 'all sequences of sampling the original total, changing long-range parameters and updating the short-range part',
 'Tests optimise parameters once and look at the residual.',
 ['elphmod/ph.py', 'elphmod/elph.py'], [('sample_orig/update_short_range', 'elphmod/ph.py:Model.update_short_range'), ('update_short_range', 'elphmod/elph.py:Model.update_short_range')])

prop('C27', 'Models evaluate to the lattice Fourier sum of their elements',
 'At any wave vector, Hamiltonians, dynamical matrices, interactions, velocities and couplings equal the lattice sum of the stored elements with documented sign and index conventions, periodic in every reciprocal direction and independent of the order or splitting of lattice vectors. Real-space access returns the stored element for listed lattice vectors and zero otherwise, and sampling on a mesh gives the values in mesh order.',
 ['inputs'], 'all models, wave vectors (inside or outside the zone) and lattice vectors',
 'Tests look at eigenvalues of few models, insensitive to conjugation or transposition.',
 ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py', 'elphmod/dispersion.py'], [('H/v/t', 'elphmod/el.py:Model.H'), ('D/C', 'elphmod/ph.py:Model.D'), ('W/WR', 'elphmod/elel.py:Model.W'), ('g/gR', 'elphmod/elph.py:Model.g'), ('sample', 'elphmod/dispersion.py:sample')])

prop('C28', 'Lattice vectors, reciprocal vectors and zones are the documented ones',
 'For every supported Bravais-lattice type, cell parameters and length unit, the primitive vectors form exactly the documented lattice (lengths, angles and centring), with the same cell whether given by lattice constants and cosines, dimensions relative to the first, or explicit vectors with a unit. Reciprocal vectors are dual to the primitive ones, volumes equal the determinant, rotations preserve lengths and turn by the requested angle, crystal and Cartesian coordinates convert into each other without loss, and the zone outline consists of points equidistant to the origin and its neighbours.',
 ['inputs', 'configurations'], 'all lattice types, admissible parameters and cosines, units, angles and coordinates',
 'Tests construct two or three lattice types with one set of parameters.',
 ['elphmod/bravais.py'], [('primitives', 'elphmod/bravais.py:primitives'), ('reciprocals/volume', 'elphmod/bravais.py:reciprocals'), ('translations/rotate', 'elphmod/bravais.py:translations'), ('BZ', 'elphmod/bravais.py:BZ'), ('crystal/Cartesian', 'elphmod/bravais.py:cartesian_to_crystal')])

prop('C29', 'Sum-rule corrections enforce the requested rules and change nothing else',
 'Acoustic and rotational sum-rule corrections of force constants, charge-neutrality corrections, and acoustic sum-rule corrections of couplings make exactly the requested sums over atoms and lattice vectors vanish, whether or not masses have been divided out, for models read from files, interpolated from dynamical matrices or corrected later, and for force constants reported by the molecular-dynamics driver at all wave vectors. The simple correction changes only on-site force constants by the same amount at all wave vectors, the other one keeps force constants symmetric and changes them by the least amount, Born charges are all shifted by their mean, and couplings change in proportion to their size. In the absence of long-range terms, the zone-centre matrix of a corrected model annihilates rigid translations.',
 ['inputs'], 'all force constants, charges, couplings, masses, positions and cells, and all ways to request a correction',
 'Tests never apply a sum-rule correction.',
 ['elphmod/ph.py', 'elphmod/elph.py', 'elphmod/md.py'], [('asr/zasr/sum_rule_correction', 'elphmod/ph.py:asr'), ('asr', 'elphmod/elph.py:Model.asr'), ('hessian', 'elphmod/md.py:Driver.hessian')])

prop('C30', 'Isoline integrals are those of the piecewise linear interpolation',
 'For any energies on a periodic triangular mesh, the density of states and the coupling-weighted density of states are exactly those of the function interpolated linearly on the mesh triangles (the mean of both one-sided limits at kinks, infinite only for flat triangles), within any requested energy window, so that they integrate to one and to the mean coupling. Double-delta integrals list every intersection of two isolines exactly once, wherever the origin of the mesh is chosen, with the interpolated weight per area. Isolines lie in the first zone on the requested energy, also if it equals that of mesh points, and connect the crossing points of every triangle.',
 ['inputs'], 'all energies and weights on meshes of any size, energies (including those of mesh points), and windows',
 'Tests never call these functions.',
 ['elphmod/dos.py'], [('hexDOS/hexa2F', 'elphmod/dos.py:hexDOS'), ('double_delta', 'elphmod/dos.py:double_delta'), ('isoline', 'elphmod/dos.py:isoline')])

prop('C31', 'Occupations, derivatives and entropies match; Fermi levels conserve electrons',
 'Every smearing function falls from one to zero (the Bose function aside), its delta function is the negative derivative of its occupation, the delta prime the derivative of that, and its entropy changes by minus the argument times the delta function and vanishes far from the Fermi level, for scalars and arrays of any shape, integer or not, without overflow for large arguments and without modifying the argument. Each satisfies the defining relation of its name (Fermi-Dirac, Gauss, Methfessel-Paxton of any order, Marzari-Vanderbilt, Lorentz, Heaviside, and the shifted and summed variants), and all names known to Quantum ESPRESSO select it. Chemical potentials returned for a number of electrons, with either method, any initial guess and any mesh shape, reproduce this number (with spin) within the tolerance.',
 ['inputs'], 'all arguments, parameters, spellings of names, energies, fillings, temperatures and initial guesses',
 'Tests use the functions at a few energies and compare with stored numbers.',
 ['elphmod/occupations.py'], [('smearing functions', 'elphmod/occupations.py:fermi_dirac'), ('smearing', 'elphmod/occupations.py:smearing'), ('find_Fermi_level', 'elphmod/occupations.py:find_Fermi_level')])

prop('C32', 'Parameters of superconductivity are the documented Fermi-surface averages',
 'The effective coupling strength, logarithmic and second-moment phonon energies determined from electrons, phonons and squared couplings equal the documented averages over the Fermi surface, each irreducible q point counted with the number of equivalent points and each coupling attached to its pair of initial and final states, both with smeared delta functions and with isolines. Modes with energies below the threshold do not contribute. Critical temperatures follow from McMillan\'s formula, including the corrections by Allen and Dynes if requested.',
 ['inputs'], 'all numbers of bands and modes, meshes, energies, couplings, thresholds and Coulomb pseudopotentials',
 'Tests never determine these parameters from electrons and phonons with several bands.',
 ['elphmod/eliashberg.py'], [('McMillan', 'elphmod/eliashberg.py:McMillan'), ('Tc', 'elphmod/eliashberg.py:Tc'), ('double_fermi_surface_average', 'elphmod/diagrams.py:double_fermi_surface_average')])

prop('C33', 'Outputs of other programs yield exactly the numbers printed in them',
 'Readers of the output of Quantum ESPRESSO (bands, projections and names of states, energies, Fermi levels, occupations and energy contributions of self-consistent runs, charge densities and wave functions), of EPW and PHonon (couplings, frequencies, displacement patterns, Wigner-Seitz data in all formats, decay and range-separation parameters) and of VASP (structures, Coulomb tensors) return every printed number in its documented place: for any number of points, bands, orbitals, modes and lines over which the numbers are broken, any order of the sections that carry their own position, several results in one file (the last one counts), optional parts left out, energies relative to the Fermi level if requested, and subsets of points and bands. Energies of bands and entropies derived from them are the corresponding weighted sums.',
 ['inputs'], 'all contents and sizes of output files and all selections that can be requested',
 'Tests read few of these files, with fixed contents.',
 ['elphmod/el.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/bravais.py'], [('read_pwo', 'elphmod/el.py:read_pwo'), ('read_atomic_projections', 'elphmod/el.py:read_atomic_projections'), ('read_EPW_output', 'elphmod/elph.py:read_EPW_output'), ('read_orbital_Coulomb_interaction', 'elphmod/elel.py:read_orbital_Coulomb_interaction'), ('read_wigner_file', 'elphmod/bravais.py:read_wigner_file')])

prop('C34', 'Predefined models have the symmetries of their lattices and match formulas',
 'The formulas of the predefined models (chain, graphene, 1H-TaS2) for electrons, phonons, couplings and Coulomb interaction are Hermitian for every wave vector, symmetric under time reversal and under all operations of the point group of the lattice at which atoms and orbitals are placed, with orbitals and displacements transformed accordingly. Rigid translations exert no forces and do not couple to electrons; only the atoms between which an electron hops couple; Coulomb repulsion decreases with distance. The localized models created from them equal the formulas for every wave vector, also between the points of the mesh they are determined on, for all choices of units and treatment of masses, and so do the models read from the files that are written on request.',
 ['inputs'], 'all wave vectors, all pairs and triples of sites, all symmetry operations, units and treatments of masses',
 'Tests compare hoppings and couplings on the mesh of the models and the sign of one derivative.',
 ['elphmod/models/chain.py', 'elphmod/models/graphene.py', 'elphmod/models/tas2.py'], [('graphene.dynamical_matrix', 'elphmod/models/graphene.py:dynamical_matrix'), ('tas2.coupling', 'elphmod/models/tas2.py:coupling'), ('create', 'elphmod/models/tas2.py:create')])

prop('C35', 'Summaries of a model describe its present elements',
 'Decay of couplings with the distance of the hopping and of the displacement, decay of hoppings from a file and of force constants with the bond length pair every lattice vector or bond of the model as it is now with the largest or Frobenius norm of exactly its elements; the sum of force constants counts all elements except those of atoms with themselves, with masses removed; frequencies listed for files of dynamical matrices are the signed roots of their eigenvalues, in order, next to their q point. Reordering, shifting or standardizing the model, splitting it or mapping it onto a supercell beforehand leaves these summaries consistent with its elements.',
 ['inputs', 'histories'], 'all models, also after any sequence of operations that rearrange them',
 'No test calls these functions.',
 ['elphmod/ph.py', 'elphmod/elph.py', 'elphmod/el.py'], [('decay', 'elphmod/ph.py:Model.decay'), ('sum_force_constants', 'elphmod/ph.py:Model.sum_force_constants'), ('decay_epmate', 'elphmod/elph.py:Model.decay_epmate'), ('decayH', 'elphmod/el.py:decayH'), ('fildyn_freq', 'elphmod/ph.py:fildyn_freq')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
