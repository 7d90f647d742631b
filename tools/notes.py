TRUST = ' Trusted: TLC, the projection of floats to integers (exact by construction of the inputs), NumPy.'
NA = {}
NOTES['C04'] = ('TLA+ spec of supercell geometry; TLC-exhaustive design check; TLC judges traces of real calls',
    'Design checked for all 3x3 matrices with entries in -1..1; real calls judged for scalar, planar and random matrices.' + TRUST)
NOTES['C05'] = ('TLA+ spec of models on lattices (Model.tla); TLC judges recorded supercell models element by element',
    'Random models with distinct integer elements mapped by the real code onto random supercells; every element judged by TLC.' + TRUST)
NOTES['C06'] = ('TLA+ spec of couplings (Coupling.tla); TLC-explored operation design; TLC judges recorded supercell couplings',
    'Random coupling models mapped by the real code; every element judged by TLC.' + TRUST)
NOTES['C07'] = ('TLA+ state machine (ModelOps/ModelTrace); histories supercell -> unit cell replayed and judged by TLC',
    'Histories exported from the TLC-explored design plus random ones, replayed on real models.' + TRUST)
NOTES['C08'] = ('TLA+ state machine of relabelling operations; histories replayed on real models and judged by TLC',
    'Histories exported from the TLC-explored design plus random ones, replayed on real models.' + TRUST)
NOTES['C09'] = ('TLA+ state machine of standardise/symmetrise; histories replayed on real models and judged by TLC',
    'Histories exported from the TLC-explored design plus random ones, replayed on real models.' + TRUST)
NOTES['C10'] = ('TLA+ spec of periodic images (WignerSeitz.tla), TLC-checked theorem; TLC judges recorded Wigner-Seitz lists and models',
    'Design theorem checked for small meshes; real calls judged for integer lattices, bases and meshes within the search range.' + TRUST)
NOTES['C17'] = ('TLA+ state machine with cache (CouplingCache/CouplingOps); TLC-exported histories replayed on real models and judged',
    'All histories of the cache design up to a bound plus random ones, replayed on real elph models.' + TRUST)
NOTES['C27'] = ('TLA+ spec of lattice Fourier sums over exact roots of unity (Model/Coupling); TLC judges recorded evaluations',
    'Evaluation at wave vectors with 1, 2, 3, 4 and 6-fold phases, exact in integers.' + TRUST)
NOTES['C28'] = ('TLA+ spec of lattices by metric (Crystal.tla), TLC-checked identities; TLC judges recorded lattice constructions',
    'Metric, duality, volume and zone identities checked for small integer lattices; real calls judged for every lattice type with exact parameters.' + TRUST)
NOTES['C12'] = ('TLA+ spec of point-group orbits on meshes (Symmetry.tla), TLC-checked; TLC judges recorded images, wedges and symmetrised data',
    'Group properties exhaustive for small meshes; real calls judged for many meshes and data.' + TRUST)
NOTES['C11'] = ('TLA+ spec of models and mesh data (MeshModel.tla); TLC judges recorded conversions element by element',
    'Exact integer data on meshes with 1, 2, 3, 4 and 6-fold phases; every mesh point judged.' + TRUST)
NOTES['C13'] = ('TLA+ spec of planar cells and zones (Planar.tla), TLC-checked; TLC judges recorded nearest images and outlines',
    'Design exhaustive for small meshes; real calls judged for many meshes, shifts and angles.' + TRUST)
NOTES['C14'] = ('TLA+ spec of interpolation (Interpolation.tla), TLC-checked reproduction on mesh; TLC judges recorded interpolations',
    'Exact integer data; every mesh point and exact off-mesh points judged.' + TRUST)
NOTES['C15'] = ('TLA+ spec of band disentanglement (BandOrder.tla), TLC-explored; TLC judges recorded orders of real calls',
    'Crossing patterns enumerated in the design and replayed through the real code, plus random ones.' + TRUST)
NOTES['C16'] = ('TLA+ spec of diagrams as sums over states (Diagrams.tla), TLC-checked identities; TLC judges recorded results',
    'Exact rational occupations and energies chosen so that results are integers after scaling.' + TRUST)
NOTES['C23'] = ('TLA+ state machine of nested progress bars (StatusBar.tla); TLC-exported histories replayed on real bars and judged',
    'All histories up to a bound plus long random ones.' + TRUST)
NOTES['C24'] = ('TLA+ spec of selections, grouping and lookups (Helpers.tla), TLC-checked; TLC judges recorded calls',
    'Grammar-generated expressions and exact coordinates.' + TRUST)
NOTES['C25'] = ('TLA+ spec of paths and meshes (Paths.tla), TLC-checked; TLC judges recorded paths and meshes',
    'Exact coordinates; corners, spacing, lengths and order judged.' + TRUST)
SIM = ' Real code runs unmodified in forked processes against a stand-in for mpi4py (lib/mpisim.py) whose scheduler, node placement and completion rules the check controls; trusted: that stand-in, TLC.'
NOTES['C01'] = ('TLA+ spec of work division and process groups (Distribution.tla), TLC-exhaustive design; TLC judges what every process of simulated parallel runs knows',
    'Design for all small sizes, chunk counts and placements; real code on up to 7 processes and sampled placements.' + SIM)
NOTES['C02'] = ('TLA+ spec of block-parallel evaluation (Parallel.tla), all interleavings by TLC; TLC judges recorded results of simulated parallel runs against serial runs',
    'About 60 operations with all flags, sampled inputs, node layouts and schedules (every process made fastest and slowest).' + SIM)
NOTES['C03'] = ('TLA+ state machine of message passing with vector clocks (Mpi.tla), proved adequate by TLC on all small programs; TLC validates event traces of simulated parallel runs against it',
    'A verdict on one recorded run covers all schedules of that run (checked on all programs up to 2 x 3 and 3 x 2); inputs and layouts are sampled; reads of shared memory are observed by page protection.' + SIM)
NOTES['C22'] = ('TLA+ spec of buffer stores and buffered functions (Buffers.tla), TLC-explored over all interleavings; histories of real buffer files on simulated machines judged by TLC',
    'Random histories over several runs with different numbers of processes, shared memory, and interruptions between the files of a buffer.' + TRUST)
NOTES['C20'] = ('TLA+ spec of the driver as pure function of displacements (Driver.tla) with its cache as state machine (DriverDesign.tla), TLC-explored; histories of real drivers judged by TLC',
    'Exactly solvable electrons: occupations, energies, forces, second derivatives, densities and models judged as exact rationals after every call; dense, sparse, folded and photoexcited drivers, saved and loaded in between.' + TRUST)
NOTES['C18'] = ('TLA+ spec of file layouts and of what must be read from them (Files.tla), decodability checked by TLC; TLC judges histories of real files line by line',
    'Histories of writing, re-spacing, converting and reading fifteen kinds of files, also files written by an independent writer in the layout of other programs.' + TRUST)
NOTES['C19'] = ('TLA+ grammar of input files (Text/Inputs.tla), TLC-explored design; TLC parses every recorded text and judges histories of reads, edits and writes',
    'Histories compose -> read -> edit -> write -> read with random layout; TLC reads the texts character by character, independent of the parser under test. Trusted: TLC, projection of Python values to typed tokens.')
NOTES['C26'] = ('TLA+ Ewald sums in fixed-point arithmetic (LongRange.tla) and bookkeeping machine of totals (LongRangeSplit.tla), TLC-explored; TLC judges recorded long-range terms and histories of updates',
    'Systems whose exact long-range terms consist of powers of two, i, and square roots, summed by TLC; histories of sampling, changing parameters in any way, updating phonons and couplings in any order, models read from dynamical-matrix files, supercells.' + TRUST)
NOTES['C21'] = ('TLA+ heap machine with frame condition and memo (Purity.tla), TLC-explored; TLC judges histories of ~150 library calls on shared objects',
    'Histories of calls on shared objects with digests of every object before and after; aliasing of derived models included.' + TRUST)
NOTES['C29'] = ('TLA+ spec of sum rules and corrections (SumRules.tla), TLC-explored on a chain; TLC judges recorded corrections, least changes by certificates',
    'Exact integer force constants, charges and couplings; that a change is the least possible is decided from multipliers found by the harness and verified by TLC.' + TRUST)
NOTES['C30'] = ('TLA+ spec of integrals over linear triangles (Tetrahedron.tla), energy sweeps explored by TLC; TLC judges recorded densities, intersections and isolines as exact rationals',
    'Integer energies on meshes up to 7 x 7, all energies of mesh points and in between.' + TRUST)
NOTES['C31'] = ('TLA+ spec of occupation functions as tables with integral relations (Occupations.tla), exactness of Methfessel-Paxton terms and filling machine checked by TLC; TLC judges recorded tables and Fermi levels in fixed-point arithmetic',
    'Tables of all functions in steps of 1/16, far and integer arguments; Fermi levels of random spectra with piecewise linear and usual occupations.' + TRUST)
NOTES['C32'] = ('TLA+ spec of McMillan parameters on top of Symmetry and Tetrahedron (Eliashberg.tla), TLC-explored; TLC judges recorded parameters',
    'Integer energies and couplings, squared phonon energies that are powers of two, meshes up to 4 x 4, smeared and with isolines.' + TRUST)
NOTES['C33'] = ('TLA+ spec of printed documents and what is to be read from them (Outputs.tla), counting reader explored by TLC; documents with random contents are printed by the harness, TLC judges what the readers return',
    'Twenty kinds of files printed in the formats of the programs from random integers; the formats are those known to the harness.' + TRUST)
NOTES['C34'] = ('TLA+ spec of lattices, their symmetries and what these require of localized elements (Predefined.tla), growth of symmetric models from seeds explored by TLC; TLC judges elements extracted from formulas and created models',
    'All elements of all predefined models, in fixed-point arithmetic (about 1/2000 of the largest element); values of parameters that respect the symmetries are not judged.' + TRUST)
NOTES['C35'] = ('TLA+ spec of profiles, bonds and sums of localized elements (Summaries.tla), invariance under rearrangements explored by TLC; TLC judges recorded summaries of random models after random histories',
    'Integer elements, lattices and positions; squared distances and norms are compared exactly; up to three atoms.' + TRUST)
