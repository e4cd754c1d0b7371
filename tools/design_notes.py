NOTES={
'C01':"Oracle: an independent recursive-descent parser for the documented grammar (harness/scriptref.h) producing the expected tree or 'error'. Every token string and character string up to the bound is given to the real lexer/interpreter; trees are compared node by node. Reaches what tests cannot: truncations at every place, every separator/comment/quote context.",
'C02':"Oracle: the same text without includes (textual substitution), parsed by the reference parser. Every split of a script over files, nested, in every layout, is loaded from file, string and standard input.",
'C03':"Oracle: a model of trees as maps with explicit sharing-free copies and touch flags; after every operation of every history all live trees are compared completely (names, types, values, touched, parents), also after destroying others.",
'C04':"Oracle: exact decimal-literal recognisers with big-integer range tests. All short texts over the characters of numbers, all integers around each type limit.",
'C05':"Oracle: (type, list of exact values) per setting. Lists of the limit values of every type, all overwrite/copy/set histories over two settings and a copy, and blocks of typed settings; script text taken over must denote the same values.",
'S01':"Oracle: the written values themselves (bit patterns), read back by a fresh reader; what each format supports is a table from the headers. Shapes, element types, write interfaces and critical values are enumerated exhaustively.",
'S02':"Oracle: the answer of the same read on a freshly opened file plus the stored value; returned buffers are overwritten and freed by the caller between reads (AddressSanitizer).",
'S03':"Oracle: model of file contents per mode (truncate/keep/refuse); damaged text files against an independent parser of the SDT format (harness/sfileref.h), HDF5/MAT truncations: exception or complete contents.",
'S04':"Oracle: the calendar computed independently (days-from-civil) for a controlled clock; class tags by the MAT 7.3 naming table; validity by re-reading with libhdf5.",
'S05':"Oracle: the values handed to libhdf5 when the harness builds the file with the C API; every reader must return them exactly or (for kinds the interface has no name for) raise a file exception. AddressSanitizer watches the buffers.",
'M01':"Oracle: exact orientation predicates on lattice coordinates (2D); in 3D the intersection of a line with the cone/cylinder/annulus swept by a wall segment, solved independently; inputs within 1e-9 of grazing are left open.",
'M02':"Oracle: bounding box and level crossings of the model's current wall. Histories interleave installing and querying (the implementation caches).",
'M03':"Oracle: node data exactly; linear data exactly with their analytic Jacobian in Cartesian components; inside cells the derivatives against high-order differences of the field the code itself evaluates; outside, the clamped value.",
'M04':"Oracle: the data written to the file, compared at every node, with wall, separatrix, axis, flux and radii; damaged and incomplete files must be refused; all clone/use/delete/re-wall histories.",
'M05':"Oracle: closed-form field from the prescribed safety factor, divergence/curl/gradients by differences and by formula, toroidal-angle rotation; gridded conversion at nodes.",
'M06':"Oracle: own bilinear interpolation in normalised flux and poloidal angle (with linear continuation), at every node of the loaded grid; separatrix = last flux surface; wall in rows or columns.",
'I01':"Oracle: one Dormand-Prince 5(4) step from the published tableau in extended precision, exact solutions, fresh solvers for restarts; dense output by the published interpolant and by consistency at recorded times.",
'I02':"Oracle: exact primitives of four peak shapes; error bound = tails below the cut-off + one interval at limits that cut the peak + trapezoidal error of the shape.",
'D01':"Oracle: node values; bilinear reference inside cells; zero outside; logarithmic variant by exp of interpolated logs.",
'D02':"Oracle: ordered map radius -> momentum distribution with linear interpolation/continuation; all insertion orders, methods and histories.",
'D03':"Oracle: GSL one-dimensional interpolation of each mode evaluated freshly (no caches) times Legendre polynomials from the explicit recurrence in extended precision; node values directly from the data.",
'D04':"Oracle: the numbers written into the files by the harness, at the phase-space points the format assigns to them; every variable missing/damaged must be refused.",
'D05':"Oracle: independently written formulas; all parameter sets, limits, re-initialisations and clones.",
'K01':"Part 1: oracle = answers of a fresh object; all histories of evaluate/clone/delete over up to three objects of 38 kinds, results held by the caller must not change. Part 2: schedules by partial-order reduction (see above): library compiled with access hooks, GSL work spaces represented by interposed GSL calls, every pair of evaluations on original/clone/clone-of-clone, first and later use.",
'G01':"Oracle: own PNG (libpng) / PPM decoding and colour map arithmetic.",
'G02':"Oracle: sum of running intervals on a controlled clock in integer nanoseconds.",
'G03':"Oracle: the mark sequence; every interleaving at memory-access granularity within the preemption bound on the real code. Estimates: the time that really remains when the pace is constant or grows linearly.",
'G04':"Oracle: component-wise integer arithmetic on copies of the operands.",
'G05':"Oracle: the expected message string of any length.",
}
