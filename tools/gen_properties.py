#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One call of P(...) per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
rows = []
def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text},
                 "why_tests_cant": why, "anchors": a})

CFG='src/Configuration/'
# ---------------------------------------------------------------- configuration
P("C01", "A configuration script means exactly what its grammar says",
  "Every script text that follows the grammar (assignments `name = value ... ;`, nested typed blocks with an optional secondary type, comments, commas and blanks, tabs and newlines as separators, quoted strings taken literally) loads without an error and yields exactly the tree of blocks, settings and value lists it denotes, a repeated setting taking its last value and a repeated block continuing the first. "
  "Every text that does not follow the grammar is reported, through the error flag or a configuration exception. "
  "Parsing any text terminates and never touches memory it does not own.",
  ["inputs"], "all script texts (explored: every token string and every character string up to a length bound over an alphabet with one representative per lexical class)",
  "The unit test parses two hand-written example files; the lexer and the interpreter are state machines whose errors sit in particular token or character orders (comment at end of file, quoted operators, truncated statements).",
  [CFG+'Script/Lexer.cpp', CFG+'Script/Interpreter.cpp', CFG+'Script/ConfigurationScript.cpp', CFG+'ConfigBlock.cpp'],
  [("lexer character filter and token classification", CFG+"Script/Lexer.cpp nextc/gettkn/Lex"), ("recursive-descent interpretation with error recovery", CFG+"Script/Interpreter.cpp Interpret")])
P("C02", "Including a file equals pasting its text at that statement",
  "A script that includes other files between statements, in any position and nesting, loads to the same tree as the single script obtained by pasting the included texts in place. "
  "Reading from a file, from standard input or from a string gives the same result for the same text. A missing file is always reported as a configuration exception.",
  ["inputs", "configurations"], "all ways of splitting a script over including and included files, at every statement boundary and nesting up to the bound",
  "No test includes a file from within nested blocks, twice, at the start or end of a file, or through another include.",
  [CFG+'Script/Lexer.cpp', CFG+'Script/ConfigurationScript.cpp'],
  [("save and restore of the lexer state around an include", CFG+"Script/Lexer.cpp include_file")])
P("C03", "Configuration trees obey add, lookup, merge, copy and touch rules",
  "After any sequence of adding settings and blocks, looking settings up, merging one tree into another and copying a tree, each tree contains exactly what those operations say: merging overwrites what exists, adds what is new only when allowed and otherwise lists every name that was left out; every sub-block's parent is the block that contains it. "
  "A copy is equal to and shares nothing with its original, a merge leaves its source unchanged and unshared, and destroying any tree leaves the others intact. "
  "A setting counts as touched exactly when it has been looked up by name.",
  ["histories"], "all operation sequences up to the depth bound over a small universe of names, types and trees",
  "The test merges one pair of example files; aliasing and parent errors need a later mutation or destruction of the other tree to show.",
  [CFG+'ConfigBlock.cpp', CFG+'Configuration.cpp', CFG+'Script/SettingScript.cpp'],
  [("deep copy", CFG+"ConfigBlock.cpp copy constructor"), ("merge", CFG+"ConfigBlock.cpp Merge/MergeSetting"), ("touch tracking", CFG+"ConfigBlock.cpp GetSetting")])
P("C04", "Setting type predicates and typed getters agree with the text",
  "For every value text, each type predicate (boolean, signed/unsigned 32/64-bit integer, scalar, numeric vector) answers true exactly when the whole text is a decimal literal of that type within its range, and never throws. "
  "Whenever the predicate holds, the matching getter returns exactly the denoted value; asked for a text that denotes no value of its kind at all (a boolean getter of any text that is not a boolean, a numeric getter of a text without a leading number, an integer getter of a number outside of 64 bits) or for an index outside of the list, a getter raises an exception; predicates without an index also require exactly one value, and the vector form exactly the requested length.",
  ["inputs"], "all value texts up to a length bound over the characters of numeric literals, all integers around every type limit, all value lists up to a length bound",
  "Tests read a handful of well-formed numbers; range limits, signs, exponents and trailing garbage are untested.",
  [CFG+'Script/SettingScript.cpp', CFG+'Setting.cpp'],
  [("predicates and getters", CFG+"Script/SettingScript.cpp Is*/Get*")])
P("C05", "Typed settings keep their values through every copy and overwrite",
  "A setting holding booleans, 32/64-bit signed or unsigned integers, real numbers or strings reports exactly the number and the values it was given, in order, through every getter its type supports; getters its type does not support, and indices past the end, are exceptions. "
  "The boolean predicate holds for booleans, the general integer and scalar predicates for every numeric type, and the 32-bit and unsigned integer predicates for a numeric value exactly when it lies in the range of that type. A copy has the same name, type and values and outlives the original; overwriting from another typed setting gives its type and values, overwriting from script text gives the same booleans, numbers or strings; this holds through every history of setting, copying, overwriting, and of adding to, merging between and copying configuration blocks.",
  ["inputs","histories"], "all value lists up to a length bound at the limits of all seven types; all histories of new values, overwrites and copies up to a depth",
  "No test touches typed settings.",
  [CFG+'SFile/SettingSFile.cpp', 'include/softlib/Configuration/ConfigurationSFile.h'],
  [("typed settings", CFG+"SFile/SettingSFile.cpp Copy/OverwriteValues/Get*/Is*")])
# ---------------------------------------------------------------- SFile
SF='src/SFile/'
P("S01", "Every file format returns exactly the data that was written",
  "For each supported file format, whatever set of scalars, lists, vectors, matrices, integer arrays of each width, images, strings, attributes and (where the format supports them) higher-dimensional arrays is written and the file closed, reading it back gives the same names, the same shapes and bit-identical values (the text format holds every number as a double, so only integers up to 2^53 are exact there); kinds a format does not support are refused with a file exception.",
  ["inputs", "histories"], "all kinds x shapes up to a bound x all value patterns of a critical-value alphabet (limits, denormals, 17-digit values, values beyond 2^53), singly and in sequences of writes, for every format",
  "The round-trip tests write one matrix, one string and one attribute per format with values that survive six digits.",
  [SF+'SFile.cpp', SF+'SFile_SDT.cpp', SF+'SFile_SDT.load.cpp', SF+'SFile_HDF5.cpp', SF+'SFile_MAT.HDF5.cpp'],
  [("writers and readers of each backend", SF+"*")])
P("S02", "Reading a file is repeatable and independent of what was read before",
  "On an open file, any sequence of typed reads of any of its variables returns for each read the same answer as that read would give on a freshly opened file, and buffers returned to the caller remain valid and private to the caller. "
  "Reads through any numeric type agree with the stored value, the scalar and list readers accept exactly the shapes they name, and reading a name that does not exist, or a number as text or text as a number in HDF5 files, raises a file exception and has no other effect.",
  ["histories"], "all sequences of read operations up to the depth bound over a file holding one variable of every kind and shape, for every format",
  "Tests read each variable once, right after writing it; second reads, mixed-type reads and reads after a failed read are not exercised.",
  [SF+'SFile.cpp', SF+'SFile_SDT.cpp', SF+'SFile_HDF5.cpp', 'include/softlib/SFile.h'],
  [("typed read wrappers", SF+"SFile.cpp"), ("SDT in-memory store", SF+"SFile_SDT.cpp")])
P("S03", "Opening files: mode, format choice and damaged input are handled safely",
  "The file format is chosen from the file name's extension alone (whatever was written before), read mode never modifies a file, write mode replaces any previous content, update mode keeps what is there, and a failed open raises a file exception and leaves an object that can be closed, reused and destroyed. "
  "Opening any truncated or corrupted text data file either raises a file exception (always so when a variable's header is incomplete or a matrix element is missing or is not a number) or yields only variables that are really present in it, with the values that stand there, and never accesses invalid memory or hangs.",
  ["crash_points", "inputs", "histories"], "all open/close/write histories over the three modes up to the depth bound, and every truncation point and every single-byte replacement (from a class alphabet) of a corpus of text data files",
  "No test opens a damaged, missing or already existing file in each mode.",
  [SF+'SFile.cpp', SF+'SFile_SDT.cpp', SF+'SFile_SDT.load.cpp', SF+'SFile_HDF5.cpp'],
  [("mode handling", SF+"SFile_*.cpp Open"), ("text loader", SF+"SFile_SDT.load.cpp")])
P("S04", "MATLAB files carry a correct header and class tags on every date",
  "A MATLAB-format file created at any point in time starts with the version 7.3 header naming the creation weekday, month, day, time and year, is a valid HDF5 file behind its 512-byte user block, and tags every variable with the MATLAB class matching the kind of data written.",
  ["inputs", "configurations"], "all months, weekdays and boundary days/times of the clock, and all variable kinds",
  "The header depends on the date on which the test happens to run, and nothing reads it back.",
  [SF+'SFile_MAT.HDF5.cpp'],
  [("header construction", SF+"SFile_MAT.HDF5.cpp CreateMAT"), ("class tagging", SF+"SFile_MAT.HDF5.cpp WriteMATLAB_class")])
P("S05", "HDF5 and MATLAB files of other tools are read by value or refused",
  "Numeric variables stored by any other producer of HDF5 or MATLAB 7.3 files, as integers or floating-point numbers of any width and byte order, contiguous, compact, chunked or compressed, in groups or not, are read by every numeric reader with their shape and their exact value (where it fits the requested type). "
  "Strings stored with fixed or variable length, as characters or (MATLAB) 16-bit units in a row or a column, and numeric and string attributes of HDF5 datasets are read as the text or number they hold. Character matrices, lists of strings, empty and null variables, records and dangling links are either read as what they contain or refused with a file exception, without touching memory the library does not own.",
  ["inputs"], "all combinations of 18 stored element types, 10 shapes, 4 storage layouts, 9 string flavours and 12 unusual variables, for both file kinds and every read function",
  "All tests read files that the library wrote itself.",
  [SF+'SFile_HDF5.cpp', SF+'SFile_MAT.HDF5.cpp', SF+'SFile.cpp'],
  [("typed reads with conversion", SF+"SFile_HDF5.cpp GetArray2D/GetArray1D"), ("string flavours", SF+"SFile_MAT.HDF5.cpp GetString")])
# ---------------------------------------------------------------- magnetic field
MF='src/MagneticField/'
P("M01", "Wall-crossing tests agree with exact geometry",
  "For every wall polygon and every straight path, in the poloidal plane or in three dimensions around the symmetry axis, the crossing tests report a crossing exactly when the path intersects the wall, except possibly when it only grazes it (touches a vertex without passing through the wall there, or runs along a segment); a three-dimensional test that leaves out the outer wall ignores exactly the wall segments that lie entirely outside the radius of the magnetic axis.",
  ["inputs"], "all polygons and paths with vertices on a small integer lattice (2D), and all wall segments and 3D paths on a lattice",
  "The domain test checks a few random paths against one stored wall; special orientations (horizontal, vertical, parallel, closing segment) are hit only by chance.",
  [MF+'MagneticField2D.cpp', 'include/softlib/MagneticField/MagneticField2D.h'],
  [("2D segment test", MF+"MagneticField2D.cpp CrossesDomain"), ("3D surface-of-revolution test", MF+"MagneticField2D.cpp IntersectsDomain3D")])
P("M02", "Radial extents and bounds always describe the current wall",
  "After any sequence of installing walls and querying extents, the reported bounding box is the tight bounding box of the current wall and the reported minimum and maximum major radius at the magnetic axis level are those of the current wall (of the separatrix, for a gridded field that has one); questions about other contours change none of these.",
  ["histories", "inputs"], "all histories of install/query operations up to the depth bound over a family of lattice walls and magnetic-axis positions",
  "The results are cached; tests query one field once.",
  [MF+'MagneticField2D.cpp'],
  [("cached bounds", MF+"MagneticField2D.cpp GetDomainBounds/GetMaxRadius/FindMaxRadius")])
P("M03", "A gridded field is evaluated as its data says, everywhere and always",
  "A field built from gridded data returns at every grid node, and at every toroidal angle, the gridded radial, vertical and toroidal components rotated to that angle, is exact for data that is linear in position, and continues with the boundary value outside the grid. "
  "Within the grid the derived quantities (strength, gradient, curl, direction derivatives, flux and flux derivative) are those of that same interpolated field, and no evaluation depends on which points were evaluated before.",
  ["inputs", "histories"], "all grids of the bounded sizes, node and mid-cell points, a set of toroidal angles, and all evaluation orders up to the depth bound",
  "The test compares with one stored field at stored points in one order, with a loose tolerance, and does not evaluate derivatives off-grid.",
  [MF+'MagneticFieldNumeric2D.cpp', MF+'MagneticField2D.cpp'],
  [("spline interpolation and coordinate transform", MF+"MagneticFieldNumeric2D.cpp")])
P("M04", "Saving, loading and cloning a gridded field preserve it completely",
  "A gridded field that is saved and loaded again (any supported format, any orientation and optional parts) or cloned evaluates identically everywhere and has the same name, description, axis, wall, separatrix and flux data as the original; files that are inconsistent in size are refused with an exception. "
  "Clones stay valid and unchanged whatever is later done to the original.",
  ["configurations", "inputs"], "all combinations of optional parts (wall, separatrix, flux, verification vectors), layouts, file formats and operation orders within the bound",
  "Tests load one complete file; files without wall or flux, with transposed layout, and clones of such fields are not covered.",
  [MF+'MagneticFieldNumeric2D.cpp'],
  [("Load/Save/Clone", MF+"MagneticFieldNumeric2D.cpp")])
P("M05", "The analytical field is self-consistent for every safety-factor profile",
  "For every safety-factor profile, field/current direction and position inside the plasma, the analytical field has the prescribed toroidal field and safety factor, is divergence-free and axisymmetric, and its reported strength gradient, curl and flux derivatives equal the derivatives of the field and flux it evaluates. "
  "A clone evaluates identically, and the gridded version of the field agrees with it at the grid nodes.",
  ["configurations", "inputs"], "all profile kinds x sign combinations x parameter sets x a lattice of positions and toroidal angles",
  "The analytical-field test is not part of the stable suite and covers constant safety factor.",
  [MF+'MagneticFieldAnalytical2D.cpp', MF+'MagneticFieldAnalytical2D.q.cpp'],
  [("closed-form field and derivatives", MF+"MagneticFieldAnalytical2D.cpp")])
P("M06", "LUKE equilibria load as the field their flux-surface data describe",
  "At every point of the grid made from a LUKE equilibrium file the radial, vertical and toroidal field and the poloidal flux equal the stored components interpolated bilinearly in normalised poloidal flux and poloidal angle, for either sign of the flux, either orientation and any number of surfaces and angles; magnetic axis, separatrix (the last surface) and major radius are placed as stored. "
  "A wall file is taken with its points in order, in rows or columns; a refused wall or equilibrium is reported with an exception, leaves an earlier wall (also that of copies) in place, and files with missing variables or non-monotonic grids are refused.",
  ["inputs","histories"], "all grids up to a size, flux signs, component patterns, wall layouts, single missing or damaged variables; histories of walls and copies",
  "Tests never load a LUKE equilibrium.",
  ['src/MagneticField/MagneticFieldLUKE.cpp'],
  [("loading and mapping", "src/MagneticField/MagneticFieldLUKE.cpp"),("gridded field", "src/MagneticField/MagneticFieldNumeric2D.cpp Init")])
# ---------------------------------------------------------------- integrator
P("I01", "The ODE integrator meets its tolerance, history and dense-output contract",
  "For every equation, initial value, tolerance and sequence of steps and restarts, the solver's recorded times are strictly increasing, the last recorded solution approximates the true solution to an accuracy set by the tolerance, and a step whose error estimate exceeds the tolerance is never accepted. "
  "Dense output equals the recorded solution at the recorded times and stays within tolerance of the true solution between them, for every sequence of requested times in any order; requests outside the integrated interval, or between steps taken while dense output was switched off, raise an exception. "
  "A restarted solver gives exactly what a fresh solver gives.",
  ["histories", "inputs"], "all equation x tolerance x step/restart/output histories up to the depth bound, including more steps than one storage block",
  "The test integrates one equation once with one tolerance.",
  ['include/softlib/Integrator/Integrator.tcc', 'include/softlib/Integrator/RungeKutta.tcc', 'include/softlib/Integrator/RKDP45.tcc'],
  [("adaptive Dormand-Prince step", "include/softlib/Integrator/RKDP45.tcc"), ("solution storage", "include/softlib/Integrator/Integrator.tcc")])
P("I02", "Peaked integration finds the peak and integrates it within the limits",
  "For every function with a single peak, the located maximum is within the requested tolerance of the true one, and the integral equals the true integral over the given limits up to the tails below the cut-off and the resolution of the given fall-off, wherever the limits lie relative to the peak and from whatever starting point. "
  "The integrand is never evaluated outside the limits, the number of evaluations is bounded, and a zero fall-off is refused with an exception.",
  ["inputs", "configurations"], "all combinations of peak shape, position, width and height, fall-off, cut-off, placement of the limits and starting point on a lattice",
  "There is no test of the peaked integration; errors need a limit within one interval of the peak or a start off the peak.",
  ['src/Integration/PeakedIntegration.cpp', 'include/softlib/Integration/PeakedIntegration.h'],
  [("summation outwards from the peak", "src/Integration/PeakedIntegration.cpp Evaluate"), ("golden section search", "src/Integration/PeakedIntegration.cpp FindMaximum")])
# ---------------------------------------------------------------- distribution functions
DF='src/DistributionFunction/'
P("D01", "Gridded momentum distributions interpolate their data and vanish outside",
  "A gridded momentum-space distribution reproduces its data at every grid node, is exact in between for data linear in both coordinates, and is zero outside the grid; the pitch-flipped distribution is its mirror image, the logarithmic variant returns the same node values (zero next to zero data, which have no logarithm) and never a NaN or negative number. Grids which are not strictly increasing or are too small are refused with an exception. "
  "Copies evaluate identically to their original, and no evaluation depends on earlier ones.",
  ["inputs", "histories"], "all grid sizes, data patterns, option combinations and evaluation/clone histories within the bound",
  "The test evaluates a single distribution at its own nodes, and never copies it in logarithmic mode.",
  [DF+'NumericMomentumSpaceDistributionFunction.cpp'],
  [("2D spline and option flags", DF+"NumericMomentumSpaceDistributionFunction.cpp")])
P("D02", "Radial distributions are piecewise linear in radius for every build order",
  "A numeric distribution built in one call or by inserting radii one at a time in any order evaluates, at any shifted radius, to the linear interpolation in radius of the two neighbouring momentum distributions, equal to them at the grid radii; outside the grid it continues the outermost line, or raises an exception if extrapolation is forbidden. "
  "Logarithmic storage, pitch flipping and cloning change nothing but what they say.",
  ["histories", "inputs"], "all insertion orders and build methods for up to the bounded number of radii, with all option combinations, evaluated on a radius lattice",
  "The stable tests never build a radial distribution; insertion below the first radius and single-radius grids are untested.",
  [DF+'NumericDistributionFunction.cpp'],
  [("sorted insertion and radial lookup", DF+"NumericDistributionFunction.cpp InsertMomentumSpaceDistribution/__FindNearestR/Eval")])
P("D03", "Legendre-mode distributions evaluate the same in every call history",
  "A Legendre-mode distribution evaluates to the alternating-sign sum of its interpolated modes times the Legendre polynomials, clipped at zero and zero outside its momentum grid, regardless of earlier evaluations, conversions or copies; its conversion to a pitch grid takes the value of that sum at the new grid's nodes (clipped at zero in logarithmic form). "
  "A radial set of such distributions interpolates linearly between its radii and continues the outermost lines.",
  ["histories", "inputs"], "all evaluation/convert/clone histories up to the depth bound over mode counts, grid sizes and interpolation methods",
  "No stable test covers it, and the polynomial cache is only wrong after particular call orders.",
  [DF+'CODEDistributionFunction.cpp', DF+'GOCODEDistributionFunction.cpp'],
  [("Legendre cache", DF+"CODEDistributionFunction.cpp Eval/ToMomentumSpace"), ("radial lookup", DF+"GOCODEDistributionFunction.cpp")])
P("D04", "Distribution loaders map file contents to the right phase-space points",
  "For every supported distribution file (each dialect, layout, size, time index, radial index and unit), the loaded distribution equals the stored numbers at the phase-space points the file assigns to them, with the documented radius and momentum normalisation. "
  "Files whose sizes, type tag, indices or verification data are inconsistent are refused with an exception, and loading, using and destroying the object never touches invalid memory.",
  ["inputs", "configurations"], "all dialects x sizes x orientations x time/radial indices (valid and just invalid) x damaged variants within the bound",
  "Loader tests are outside the stable suite and use one stored file each.",
  [DF+'SOFTDistributionFunction.cpp', DF+'deprSOFTDistributionFunction.cpp', DF+'LUKEDistributionFunction.cpp', DF+'DREAMDistributionFunction.cpp', DF+'CODEDistributionFunction.cpp', DF+'GOCODEDistributionFunction.cpp'],
  [("file loaders", DF+"*DistributionFunction.cpp Load")])
P("D05", "Analytical distributions and radial profiles follow their formulas",
  "Each analytical momentum distribution equals its documented formula (the pitch distribution being exp(C|xi|)) and is symmetric in pitch sign; each radial profile equals its formula between its limits and is zero outside; invalid profile limits are refused. "
  "The product distribution is the profile at the drift-shifted radius times the momentum part, and clones and re-initialised objects equal freshly built ones.",
  ["inputs", "histories"], "all parameter sets and phase-space points of a lattice including every limit value, and all init/clone/eval histories up to the bound",
  "Only one analytical distribution has a test, outside the stable suite.",
  [DF+'AnalyticalAvalanche.cpp', DF+'ConnorHastieDistribution.cpp', DF+'ExponentialPitch.cpp', DF+'BesselRadialProfile.cpp', DF+'GaussianRadialProfile.cpp', DF+'LinearRadialProfile.cpp', DF+'PowerRadialProfile.cpp', DF+'RadialDistributionFunction.cpp', DF+'MomentumSpaceDistributionFunction.cpp'],
  [("closed-form evaluation", DF+"*.cpp Eval")])
P("K01", "Clones can be evaluated concurrently: they share no mutable state",
  "A clone of any magnetic field or distribution function gives the same answers as its original, and evaluating one never changes what any other returns, whatever the interleaving of evaluations; no interpolation work space is used by more than one of them. "
  "Destroying one leaves the others usable.",
  ["schedules", "histories"], "all interleavings of evaluations, clones and destructions over three objects up to the depth bound, for every cloneable class",
  "Tests evaluate a single object in a single thread.",
  [DF+'NumericMomentumSpaceDistributionFunction.cpp', DF+'CODEDistributionFunction.cpp', DF+'NumericDistributionFunction.cpp', MF+'MagneticFieldNumeric2D.cpp', MF+'MagneticFieldAnalytical2D.cpp'],
  [("minimal clones", "MinClone/Clone")])
# ---------------------------------------------------------------- general
P("G01", "Generated images show every matrix element at its place and colour",
  "For every matrix size, value pattern and colour map, the PNG and PPM files produced decode to an image in which matrix element (i,j) is the pixel in column i of line j (the documented transposed form) and has the colour which the map assigns to its value: the map's colours spread evenly over the map's value range, linearly interpolated in between, the first colour at and below the lower limit and the last at and above the upper one. "
  "The built-in maps cover values from 0 to 1, a map that is not given defaults to the first of them, and files that cannot be created and unknown formats or maps raise an exception.",
  ["inputs"], "all matrix sizes up to a bound x all value patterns of an alphabet x all colour maps and ways of giving them x both formats",
  "There is no test of image generation.",
  ['src/ImageGenerator/ImageGenerator.cpp', 'src/ImageGenerator/ImageGeneratorPNG.cpp', 'src/ImageGenerator/ImageGeneratorPPM.cpp', 'include/softlib/ImageGenerator/ImageColormap.h'],
  [("normalisation and interpolation of colours", "include/softlib/ImageGenerator/ImageColormap.h Eval"), ("pixel layout", "src/ImageGenerator/*.cpp SaveImage")])
P("G02", "The timer reports exactly the time during which it was running",
  "For every sequence of start, stop, continue, reset and read operations on a clock, the timer reports the accumulated running time (resetting, or continuing a timer that is still running, restarts it from zero), in each of its units, and its broken-down and printed forms denote that same duration.",
  ["histories", "inputs"], "all operation sequences up to the depth bound with every clock advance from a critical set, on a controlled clock",
  "Real clocks make tests approximate; stop/continue histories are not tested.",
  ['src/General/Timer.cpp', 'include/softlib/Timer.h'],
  [("offset accumulation", "src/General/Timer.cpp")])
P("G03", "Progress reports are complete and orderly under every thread schedule",
  "When several threads report progress on a shared tracker, under every interleaving the progress marks are printed as whole lines, each exactly once, in increasing order without gaps, never by a report that has not reached the mark; a report that reaches the next mark due prints it. Reports arriving in order print every mark, the last one with the last report, with the elapsed times of the clock; when the marks come at a constant or linearly growing pace, the estimate of the remaining time is the time that really remains.",
  ["schedules"], "all interleavings of two or three threads at memory-access granularity up to a preemption bound, and all single-threaded report sequences, for all small totals and mark counts",
  "No test uses the tracker at all; the race needs a preemption between its check and its update.",
  ['src/General/ProgressTracker.cpp', 'include/softlib/ProgressTracker.h'],
  [("critical section around the mark counter", "src/General/ProgressTracker.cpp PrintProgress")])
P("G04", "Vector and matrix algebra is correct and leaves its operands alone",
  "Every vector and matrix operation returns the mathematically defined result in every dimension, for operands that may be the same object, agrees with its in-place form, and changes no operand other than the target of an in-place form.",
  ["inputs", "histories"], "all operand values of a small integer alphabet in dimensions 1-3, all operand aliasings, and all expression sequences up to the depth bound",
  "There is no test of the algebra types; aliasing and operand mutation only show in particular expressions.",
  ['include/softlib/General/Vector.tcc', 'include/softlib/General/Matrix.tcc', 'include/softlib/Vector.h', 'include/softlib/Matrix.h'],
  [("operator definitions", "include/softlib/General/*.tcc")])
P("G05", "Errors carry their complete formatted message",
  "Every library exception, built from any format and arguments or any location and text, reports the complete formatted message, of whatever length, and stays valid when copied, rethrown or outliving its arguments.",
  ["inputs"], "all message lengths across every buffer boundary and all constructors and copy/rethrow histories within the bound",
  "Tests trigger only short messages.",
  ['src/General/SOFTLibException.cpp', 'include/softlib/SOFTLibException.h', 'include/softlib/ConfigurationException.h', 'include/softlib/SFileException.h'],
  [("two-pass formatting", "src/General/SOFTLibException.cpp ConstructErrorMessage")])
with open(OUT, 'w') as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
