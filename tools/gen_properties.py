#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script only because JSON lines are awkward to edit by hand."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Workspace blocks never alias and are never lost, for every take/release history",
 "For every legal history of workspace operations by a team (take, take-many in each of its forms, macro-block take, the matching releases in any order, reset, and the host-side reset between kernels), the views handed out that are still live are pairwise disjoint, have the full requested length, and lie inside the storage of that team's slot; what is written through one live view is never changed by any other operation on the workspace. "
 "A released or reset block can be taken again, so that at any time exactly max_used minus the blocks in use can still be taken. In debug builds the name of a live block is the one it was taken under, report() gives the true counts for every name, and misuse (more blocks than are free, a contiguous take where they are not contiguous, a second release, an empty, too long or 257th name, a manager that was not set up) is refused.",
 ["histories", "configurations"],
 "All operation sequences up to a depth, for several max_used, block sizes, scalar types and take-as types, in debug and NDEBUG builds, with manager-owned and user-provided storage.",
 "The tests run one or two fixed scripts of takes and releases; whether the embedded free list survives an arbitrary order of mixed single, contiguous and macro operations is a question about all histories.",
 ["src/kokkos/ekat_workspace.hpp", "src/kokkos/ekat_workspace_impl.hpp"],
 [("embedded free list (index,next) in the reserve words before each block", "WorkspaceManager::init_slot_metadata/set_next_and_get_index/get_space_in_slot"),
  ("take/release/reset families", "WorkspaceManager::Workspace")])

prop("C02", "All threads of a team see the same workspaces, under every thread schedule",
 "When several threads of a team, and several teams at once, run the same legal sequence of workspace operations, then under every interleaving of the threads all members of a team obtain the same blocks from each operation, blocks live in different concurrently running teams never overlap, data written through a live block is not disturbed by any thread's later operation, and no schedule deadlocks, asserts or loses blocks.",
 ["schedules", "histories", "configurations"],
 "All interleavings (preemption bounded at racing accesses, complete for the rest) of 1-3 teams of 1-3 threads over a set of operation scripts.",
 "The tests run each script once on whatever schedule the OpenMP runtime happens to produce, and nearly always with teams of one thread; a missing barrier or a late read of the next-free cursor shows only on particular interleavings.",
 ["src/kokkos/ekat_workspace_impl.hpp", "src/kokkos/ekat_team_policy_utils.hpp"],
 [("team_barrier/single placement in every operation", "WorkspaceManager::Workspace::take, take_many*, release*, reset"),
  ("shared cursor m_next_slot", "WorkspaceManager::Workspace")])

prop("C03", "Concurrently running teams never share a workspace slot",
 "At every moment each running team that asked for a workspace slot holds an index within the advertised number of slots that no other running team holds, all threads of the team get the same index, and every team eventually gets one once slots are released; this holds both when slots are tied to host threads and when they are acquired through the device slot lock with overprovisioning. "
 "The number of slots and of concurrent teams advertised before the kernel is sufficient for the kernel.",
 ["schedules", "configurations"],
 "All pool sizes 1-8, team sizes and league sizes in a box for the host mapping; for the lock path, all interleavings of up to 3 teams of 1-2 threads over 1-2 slots with every outcome of the random probe.",
 "Tests observe one schedule per thread count; the device lock path is not even compiled in the CPU test build.",
 ["src/kokkos/ekat_team_policy_utils.hpp"],
 [("thread-to-slot mapping on OpenMP", "TeamUtils<ValueType,Kokkos::OpenMP>::get_workspace_idx"),
  ("compare-and-swap slot lock with random probing", "TeamUtils<ValueType,EkatGpuSpace>::get_workspace_idx/release_workspace_idx"),
  ("slot counting and overprovisioning", "TeamUtilsCommonBase, TeamUtils<ValueType,EkatGpuSpace> constructor")])

prop("C04", "Tridiagonal solvers return the solution of the system they were given",
 "For every diagonally dominant tridiagonal system, each solver (Thomas serial, Thomas team, cyclic reduction, and the bit-for-bit variant) in each of its calling shapes (one matrix with one or many right-hand sides, or one matrix per right-hand side; scalar or Pack entries) returns X with A*X equal to the given right-hand sides up to roundoff, for every number of rows and right-hand sides including 1. "
 "Right-hand sides do not influence one another.",
 ["inputs", "configurations"],
 "All sizes 1..N rows by 1..M right-hand sides and team sizes, over a complete small alphabet of coefficient patterns, compared with a dense reference elimination in extended precision.",
 "The tests draw a few random matrices at a few sizes; the cyclic reduction has boundary cases for each parity pattern of the row count, which must be right for every size and coefficient position.",
 ["src/algorithm/ekat_tridiag.hpp"],
 [("Thomas sweeps", "ekat::thomas and impl::thomas_*"), ("cyclic reduction", "ekat::cr"), ("bfb", "ekat::bfb")])

prop("C05", "Team tridiagonal solves do not depend on the thread schedule or team size",
 "Every team-level tridiagonal solver is free of data races: under every interleaving of the team's threads the result is bitwise the same as with one thread, and no schedule deadlocks. The bit-for-bit solver's answer is bitwise independent of team size and agrees bitwise with the serial Thomas solve.",
 ["schedules", "configurations"],
 "All row counts and right-hand-side counts in a box, team sizes 1-4, all interleavings (by the data-race-freedom argument on a complete access trace, plus preemption-bounded exploration wherever a race is seen).",
 "A missing team barrier passes the tests on nearly all real schedules; the tests compare results within a tolerance on one schedule.",
 ["src/algorithm/ekat_tridiag.hpp"],
 [("barriers between reduction levels", "ekat::cr"), ("team thread partition", "impl::get_thread_info/..."), ("PerTeam factorization then per-rhs solves", "ekat::thomas/bfb")])

prop("C06", "Team reductions equal the serial sum over exactly the requested range",
 "For every begin/end range, team size, scalar and Pack size, a team-level reduction over a functor or over a (possibly packed) view returns to every thread the initial value combined with exactly the entries in the range, each counted once, with entries outside the range (including padding of a pack) never read into the result. In serialized (bit-for-bit) mode the result is bitwise the left-to-right serial sum, for every team size and every schedule.",
 ["inputs", "schedules", "configurations"],
 "All 0<=begin<=end<=n for n up to a bound, pack sizes 1,2,4,8, team sizes 1-4, both serialize modes, every thread interleaving.",
 "Tests try two or three ranges; the scalar/pack/scalar split of an unaligned range has distinct cases for every alignment of both ends.",
 ["src/algorithm/ekat_reduction_utils.hpp"],
 [("scalar head, pack body, scalar tail split", "ReductionUtils::impl_view_reduction"), ("serialize mode", "ReductionUtils::impl_parallel_reduce")])

prop("C07", "Linear interpolation is exact and independent of packing and threading",
 "For all sorted source grids and sorted target points in any relative position, LinInterp sets each target value to the value at that point of the straight line through its bracketing source points (the end segments extended beyond the ends, and the source value itself when the point coincides with a source point), up to roundoff. Every column, pack size, team size and calling form (whole team or per thread range) gives the same answers.",
 ["inputs", "configurations", "schedules"],
 "All source grids and target grids that are increasing sequences from a small lattice, up to km1 and km2 bounds, pack sizes 1,2,4,8, team sizes, both calling forms.",
 "The repository test compares one random case with a Fortran reference and is not even built here; bracketing at ends, at coincident points and across pack boundaries must be right for every pattern.",
 ["src/algorithm/ekat_lin_interp.hpp", "src/algorithm/ekat_lin_interp_impl.hpp", "src/kokkos/ekat_upper_bound.hpp"],
 [("bracketing index setup", "LinInterp::setup_impl"), ("interpolation", "LinInterp::lin_interp_impl")])

prop("C08", "upper_bound returns the first element that compares greater, for every range",
 "For every sorted range and value, upper_bound returns the first position whose element is strictly greater than the value (end if none), and never reads outside the range.",
 ["inputs"], "All sorted sequences of length up to a bound over a small alphabet, all values, all subranges, both orderings.",
 "The test checks a few values on one array; off-by-one errors show only for particular lengths and ties.",
 ["src/kokkos/ekat_upper_bound.hpp"], [("binary search", "ekat::upper_bound")])

prop("C09", "Pack arithmetic and math act lane by lane exactly as on scalars",
 "For every pack size and every lane content, each arithmetic operator, compound assignment, unary operator, math function, min/max, shift and conversion on Packs (pack with pack, pack with scalar, scalar with pack) gives in each lane bitwise what the same scalar operation gives on that lane's operands; and each reduction over lanes gives the fold of the lanes (restricted to the mask where one is given). No operation modifies its inputs.",
 ["inputs", "configurations"],
 "Pack sizes 1-16, scalar types int, float, double, all operators, lane values from an alphabet that includes signed zeros, infinities, NaN and ordinary values placed in every lane combination up to a bound.",
 "The tests use one pack size and one random content; operand order and lane mix-ups for particular operators or sizes survive them.",
 ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_math.hpp"],
 [("generated operators", "ekat_pack_gen_* macros"), ("math", "ekat_pack_math.hpp"), ("reductions", "reduce_sum, max, min and masked variants"), ("shift", "shift_left/shift_right, pack_range")])

prop("C10", "Masks and masked assignment touch exactly the selected lanes",
 "For every mask, comparing packs yields lane-wise the scalar comparison; logical operators, any, all, none and the masked-loop constructs agree with the lane-wise truth values; and every masked assignment (set, masked conversion, where-expressions with =, +=, -=, *=, /= for scalars, packs and views) changes exactly the selected lanes to the value the scalar operation gives and leaves all other lanes bitwise unchanged.",
 ["inputs", "configurations"],
 "All masks (2^n) of packs of size 1-8, all comparison and logical operators, all where operations with scalar and pack right-hand sides, int/float/double.",
 "Tests try one or two masks; only enumeration of all masks shows that unselected lanes stay untouched and any/all/none are right at the extremes.",
 ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_where.hpp", "src/kokkos/ekat_where.hpp"],
 [("Mask operators", "ekat_mask_gen_*"), ("masked set", "Pack::set"), ("where", "WhereExpression")])

prop("C11", "Pack index arithmetic and view packing address the same scalars",
 "For every length n and pack size N the number of packs is the least that covers n, the pack and lane of index i satisfy pack*N+lane=i, and the last pack's begin/end mark exactly the in-range lanes. Reinterpreting a view as scalars, or repacking it to another pack size, yields a view of the right extents over the same memory, where scalar (…,i) is lane i mod N of pack (…,i div N), for every rank, const-ness and layout supported; repacking to a size that does not divide the extent is rejected.",
 ["inputs", "configurations"],
 "All n up to a bound, pack sizes 1-16, ranks 1-4 (scalarize up to 7) with all extents in a box, all pairs of pack sizes.",
 "Existing tests that reach repacking are not built here, and check one shape.",
 ["src/pack/ekat_pack_utils.hpp", "src/pack/ekat_pack_kokkos.hpp"],
 [("PackInfo", "ekat_pack_utils.hpp"), ("scalarize / repack", "ekat_pack_kokkos.hpp"), ("index / index_and_shift gather", "ekat_pack_kokkos.hpp")])

prop("C12", "Host/device transfers move every scalar to its place and back",
 "For every number of arrays, sizes, scalar type and pack size, host_to_device followed by device_to_host restores the host arrays, element (i,j,k) of the host array appears at the corresponding element and lane of the device view, with the requested transposition between row-major and column-major order in both directions, for uniform and per-array sizes, and memory outside the described arrays (and pack padding on the way back) is never read or written. The stand-alone transpose maps every element of a 2d or 3d array to its transposed place.",
 ["inputs", "configurations"],
 "All extents in a box for ranks 1-3, one and several arrays of different sizes, pack sizes 1,2,4 and unpacked, types double/int/bool, with and without transpose, allocated and preallocated views.",
 "The tests use one or two square-ish shapes with equal sizes for all arrays and are not built here for packs.",
 ["src/pack/ekat_pack_kokkos.hpp", "src/kokkos/ekat_math_utils.hpp"],
 [("host_to_device/device_to_host", "ekat_pack_kokkos.hpp"), ("transpose", "ekat_math_utils.hpp")])

prop("C13", "Subviews and reshapes address exactly the intended elements",
 "For every view rank, extents and index, each subview helper (leading slices, slice at a given dimension, half-open multi-slices along a dimension) gives a view of the documented extents that aliases exactly the intended elements of the source, and reshape gives a view of the new shape over the same data with elements in the same flat order; invalid requests (dimension or index out of range, slicing limits reversed, size mismatch) are rejected.",
 ["inputs", "configurations"],
 "All ranks the helpers support, all extents in a box, every slicing dimension, every index or index pair, and for reshape every target shape of equal size up to a bound.",
 "Tests check one index per helper on one shape.",
 ["src/kokkos/ekat_subview_utils.hpp", "src/kokkos/ekat_view_utils.hpp"],
 [("subview, subview_1, multi-slice subview", "ekat_subview_utils.hpp"), ("reshape", "ekat_view_utils.hpp")])

prop("C14", "A broadcast view reads the source element selected by its broadcast dimensions",
 "For every source rank, target rank and choice of broadcast dimensions, entry (i0,...,in) of the broadcast view is the source entry whose indices are the non-broadcast ones in order, the extents are those of the source in the non-broadcast dimensions and the given ones in the others, writes to the source are seen through it, and inconsistent dimension lists are rejected.",
 ["inputs", "configurations"],
 "All source ranks 0-4 into target ranks 1-5, all subsets of broadcast dimensions, all extents in a box.",
 "The repository test covers a handful of fixed cases and is not built here.",
 ["src/kokkos/ekat_view_broadcast.hpp"], [("index remapping", "ViewBroadcast::operator()")])

prop("C15", "Units form a consistent algebra",
 "Multiplying, dividing and raising units to (rational) powers obeys the usual laws for every combination of base units and scalings: multiplication is commutative and associative, u/u is dimensionless, (u*v)/v == u, (u^a)^b == u^(a*b), u^a*u^b == u^(a+b), and two units compare equal exactly when their exponents of every base unit and their scaling factors are equal. Attached names never influence equality, and is_dimensionless holds exactly when all exponents vanish. A unit prints as text that reads back as the same unit; one with a symbol, times a metric prefix, prints as that symbol after the letter of the prefix.",
 ["inputs", "histories"],
 "All expressions up to a depth over the base units, derived units, small rational scalings and exponents, compared with an exact vector model.",
 "The tests check a dozen identities; a mix-up of one base-unit exponent in one operator is only visible for units that use that dimension.",
 ["src/core/ekat_units.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_rational_constant.hpp"],
 [("exponent vector operations", "ekat::units::Units operators"), ("scaling", "ScalingFactor operators")])

prop("C16", "Rational constants and scaling factors compute exactly and print what they are",
 "For all representable operands rational constants are kept in lowest terms with positive denominator, +,-,*,/ and integer powers give the exact rational result, comparison is exact equality of value, and division by zero is rejected; scaling factors base^exp (positive base, or negative base with integer exponent, intermediate values within 62 bits) multiply, divide and take powers consistently with real arithmetic. The printed form of a rational, a scaling factor or a unit denotes the same value: reading the text back as an expression gives an equal object.",
 ["inputs"],
 "All numerators and denominators in a box (both signs), all operator pairs, all exponents in a box, both print formats.",
 "Tests check a few positive values; sign handling, normalization and digit extraction need every magnitude and sign class.",
 ["src/core/ekat_rational_constant.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_units.hpp"],
 [("normalization and gcd", "RationalConstant"), ("string_repr/to_string", "RationalConstant, ScalingFactor, Units")])

prop("C17", "String utilities obey their definitions on every string",
 "For every input string: stripping removes exactly the given characters; splitting at a non-empty string delimiter yields, in order, all the pieces between its non-overlapping occurrences found left to right, empty ones included (k occurrences give k+1 pieces), so that joining the pieces with the delimiter gives the string back; join, join with a function and join_if print the (selected) items in order with the separator between them only; trimming removes exactly the leading and trailing runs of the character; upper_case changes only letters; and starts_with is true exactly for prefixes. No function reads outside its input.",
 ["inputs"], "All strings over a small alphabet up to a length bound, with all non-empty delimiters up to a length bound.",
 "Tests check a handful of strings; edge placements of delimiters (leading, trailing, repeated, overlapping) are what goes wrong.",
 ["src/core/ekat_string_utils.cpp", "src/core/ekat_string_utils.hpp"],
 [("strip, split, join, join_if, trim, upper_case, starts_with, strint", "ekat_string_utils.cpp, ekat_string_utils.hpp")])

prop("C18", "Nested-list strings are accepted exactly when well formed and parsed faithfully",
 "A string is accepted as a nested list exactly when it is one bracketed list whose entries are non-empty items or nested lists separated by single commas with balanced brackets; parsing an accepted string gives a parameter list that has exactly those entries, in order and nesting, with the declared depth and entry types, and every rejected string raises an error rather than returning a list.",
 ["inputs"], "All strings over {'[',']',',',letters,space} up to a length bound, compared with a recursive-descent reference parser.",
 "Tests give a few good and bad strings; acceptance is a language, and only enumeration compares two languages.",
 ["src/core/ekat_string_utils.cpp"], [("valid_nested_list_format", "ekat_string_utils.cpp"), ("parse_nested_list", "ekat_string_utils.cpp")])

prop("C19", "Token gathering and string similarity indices match their definitions",
 "Gathering tokens yields the non-empty pieces between delimiters; with an atomic string (that neither starts nor ends with a delimiter) each occurrence of it that is delimited on both sides, taken from the left, is one token and the rest is split as usual, losing and inventing nothing (the order of tokens is unspecified then); the Jaccard index equals |intersection|/|union| of the two token sets; the Jaro and Jaro-Winkler indices equal their textbook definitions (matching greedily from the left). Every index lies in [0,1] and is 1 for equal strings, and the Jaccard index is symmetric.",
 ["inputs"], "All pairs of strings over a small alphabet (letters and delimiters) up to a length bound, with atomic strings.",
 "Tests check a few literature values.",
 ["src/core/ekat_string_utils.cpp"], [("gather_tokens, jaccard_similarity, jaro_similarity, jaro_winkler_similarity", "ekat_string_utils.cpp")])

prop("C20", "Case-insensitive strings compare, order and index consistently",
 "For all strings, case-insensitive equality holds exactly when the strings are equal up to letter case, against other case-insensitive strings and against plain and literal strings on either side; < is a strict weak order consistent with that equality, <= is < or ==, and != is the negation of ==, so that ordered containers keyed by them treat case variants as one key.",
 ["inputs"], "All pairs (and triples for transitivity) of strings up to a length bound over an alphabet with upper case, lower case, digits, punctuation between the cases and non-ASCII bytes.",
 "Tests compare two strings.",
 ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"], [("operator==,<,<=", "CaseInsensitiveString")])

prop("C21", "A parameter list always returns what was last stored under a name",
 "After every history of set, get, get-with-default, sublist creation, renaming, import, copy and assignment (also between a list and its own sublists), a parameter list holds exactly the parameters and sublists a nested name-to-value map would hold: get returns the last value set, in the type it was stored as, and asking for another type or a missing name is an error that leaves the list unchanged; get-with-default inserts the default only when the name is missing; an empty-sequence placeholder can be read as an empty vector of any element type, and becomes one on mutable access; copies and assignment targets are equal to and independent of their source, with nothing left of the previous contents; import adds all entries of the source, overwriting same-named parameters and merging same-named sublists; the name lists have each entry once; and print shows every entry under its list.",
 ["histories"], "All operation sequences up to a depth over two or three lists, two names, three value types, two sublist names.",
 "Tests run one script.",
 ["src/core/ekat_parameter_list.hpp", "src/core/ekat_parameter_list.cpp"], [("set/get/sublist/import/operator=", "ekat::ParameterList")])

prop("C22", "A factory creates exactly what was registered under the requested name",
 "For every history of registrations and creations, creating by a registered name (case-insensitively where so keyed) calls exactly the creator registered under it with the given arguments; registering a new name succeeds and leaves the others alone; re-registering a name is reported and follows the documented replace rule; and an unknown name is an error.",
 ["histories"], "All registration/creation sequences up to a depth over three keys (with case variants) and three creators, strict and non-strict, with a shared singleton.",
 "The test registers two products once.",
 ["src/core/ekat_factory.hpp"], [("register_product/create", "ekat::Factory")])

prop("C23", "YAML input is read into the documented types and structure",
 "For every YAML document made of maps, scalars and flat sequences, the parsed parameter list has exactly the document's nesting and names; an untagged plain scalar is stored as bool if it is true/false in any letter case, else int if it is an integer that fits, else double if it is a number, else string; a quoted or !!str scalar is a string, other tags force their type or raise an error; a sequence is stored in the first of bool, int, double, string that fits all its entries, with the right values.",
 ["inputs"], "All scalar texts up to a length bound over the alphabet of numerals, signs, points, exponents and letters plus a list of words in all case variants, plain, quoted and tagged, alone and in sequences of up to three, and all map trees up to a depth.",
 "The test reads one file.",
 ["src/parser/ekat_yaml.cpp", "src/parser/ekat_yaml.hpp"], [("is_type/str2type cascades", "ekat_yaml.cpp"), ("parse_node", "ekat_yaml.cpp")])

prop("C24", "Writing a parameter list to YAML and reading it back preserves it",
 "For every parameter list of the supported types, the file written parses back to a list with the same names, nesting, types and values: booleans, integers and strings exactly (including strings that look like numbers, booleans or contain special characters or newlines, and sequences of such), doubles to the written precision whatever their magnitude, and empty sequences; a list with an unsupported type is rejected.",
 ["inputs", "histories"], "All lists of up to two entries plus nesting, over an alphabet of values per type that covers every magnitude class, sign and exponent and all short strings over a hostile alphabet, scalars and vectors up to length three.",
 "The test writes a single list of tame values.",
 ["src/parser/ekat_yaml.cpp"], [("write_param/write_parameter_list", "ekat_yaml.cpp")])

prop("C25", "Communicator collectives give the mathematical result on every rank",
 "For every number of ranks, element count and type, all_reduce and its in-place form, scan and its in-place form, broadcast from any root, and all_gather and its in-place form through an EKAT communicator leave on every rank exactly the result of the operation over all ranks' inputs and do not modify inputs; splitting gives each rank a communicator of exactly the ranks with its color, in rank order; rank, size and root agree with the ranks that exist; and a communicator built without MPI behaves as a one-rank communicator.",
 ["inputs", "configurations"], "World sizes 1-4, all roots, all color assignments, counts 0-3, all supported scalar types and operations, and the serial build.",
 "Tests call a few collectives with one type and count per world size.",
 ["src/core/ekat_comm.hpp", "src/core/ekat_comm.cpp", "src/core/ekat_comm_serial.cpp"], [("collectives", "ekat::Comm")])

prop("C26", "Floating-point exception control changes exactly the requested exceptions",
 "After every history of enabling and disabling calls, the set of trapping floating-point exceptions is the one obtained by adding and removing the given sets in order, the getter reports it, enabling never traps on flags raised before, and the configuration text names exactly the enabled exceptions.",
 ["histories"], "All sequences up to a depth over all 32 masks, with flags raised between calls, and a real trap provoked in each reached state for each exception.",
 "The test traps one exception once.",
 ["src/core/ekat_fpe.cpp"], [("enable_fpes/disable_fpes", "ekat_fpe.cpp")])

prop("C27", "Error checks throw the right exception exactly when they should",
 "For every form of the requirement and error macros, a true condition has no effect and evaluates its arguments once, a false one throws the requested exception type (falling back as documented when it cannot carry a message) whose text contains the message and the condition, except while another exception is unwinding the stack, when the error is reported and suppressed rather than terminating the program; after that unwinding ends checks throw again. Debug-only checks behave the same in debug builds and vanish otherwise. Checks inside kernels stop the program at the first false condition, printing the condition and the message, and do nothing otherwise.",
 ["histories", "configurations"], "All nestings up to a depth of throw / catch / destructor-time checks, over the macro forms and exception kinds, in debug and NDEBUG builds.",
 "The tests check each macro once and one unwinding situation.",
 ["src/core/ekat_assert.hpp"], [("throw_exception", "ekat_assert.hpp")])

prop("C28", "Expression templates evaluate to the element-wise formula",
 "For every expression tree built from views, scalars, arithmetic, math functions, comparisons, logical operators and conditionals, evaluating it into a view sets every element (and only those) to the value of the same formula on the scalars at that position, operand order included, for every rank up to 6; evaluating into a view of other extents or rank is rejected.",
 ["programs", "inputs"], "All expression trees of depth 2 over the operators and leaf kinds (and depth 3 over a subset), value alphabets for the leaves, ranks 0-6 (what Kokkos has kernels for) in shape checks.",
 "The test (not built here) evaluates a handful of expressions.",
 ["src/expression"], [("eval", "ekat_expression_*.hpp"), ("evaluate", "ekat_expression_eval.hpp")])

prop("C29", "Loggers emit exactly the messages their levels, sinks and rank policy admit",
 "For every combination of logger, console and file levels and every history of level changes and messages, a message reaches a sink exactly when its priority is at least the logger's and that sink's level, on exactly the ranks the output policy selects; shared-sink loggers write to the same file without altering the sinks' levels, and the log file name is the one the policy documents.",
 ["histories", "configurations"], "All level triples, all messages levels, level-change histories up to a depth, both rank policies, no/basic/rotating files, ranks of communicators of size 1-3.",
 "Tests check a couple of level settings.",
 ["src/logging/ekat_logger.hpp", "src/logging/ekat_log_file_policy.hpp", "src/logging/ekat_log_mpi_policy.hpp"], [("constructors and level setters", "ekat::logger::Logger")])

prop("C30", "Test-session arguments are classified exactly as documented",
 "For every command line of flags, key=value, key value... and comma lists, the parsed session exposes exactly the flags (keys with no value), single-valued parameters and multi-valued parameters it denotes, in order, and malformed arguments are rejected.",
 ["inputs"], "All argument lists up to a length bound over an alphabet of token kinds.",
 "Tests pass two fixed command lines.",
 ["src/core/ekat_test_utils.cpp"], [("parse_test_args", "TestSession")])

prop("C31", "Zipped iteration and container helpers visit exactly the right elements",
 "Zipping containers of equal size visits every position once, in order, giving access to (and, for mutable containers, write-through to) the i-th element of each, and containers of unequal size are rejected; key iteration over a map visits each key once in order; and the container helpers (contains, count, erase, find) agree with the mathematical set/sequence operations.",
 ["inputs"], "All container contents up to a length bound over a small alphabet, for 1-3 zipped containers of the standard kinds.",
 "Tests zip one set of containers.",
 ["src/core/ekat_zip.hpp", "src/core/ekat_std_utils.hpp", "src/core/ekat_std_map_key_iterator.hpp"], [("Zip/ZipIterator", "ekat_zip.hpp"), ("helpers", "ekat_std_utils.hpp")])

prop("C32", "Maps keyed by types, type lists and type traits follow the types they are given",
 "A heterogeneous map built from a list of key types and value types returns, for every key type, the value stored under it and no other, whatever the history of writes; loops over a type list call the body once per type, in order, each with its own type and position (also from inside one another and from inside a loop over another list); indexing, size, membership and concatenation of type lists and maps agree with the list operations on the sequence of types; and the pointer and constness traits strip exactly what their names say for every nesting of const and pointers.",
 ["inputs", "programs"], "All type lists up to a length over an alphabet of types, all write histories of their maps up to a depth, all nestings of const and pointer up to a depth.",
 "The test builds one map of two types.",
 ["src/core/ekat_type_traits.hpp", "src/core/ekat_std_type_traits.hpp", "src/core/ekat_meta_utils.hpp"],
 [("TypeList, TypeMap, TypeListFor", "ekat_meta_utils.hpp / ekat_type_traits.hpp"), ("remove_all_pointers/remove_all_consts", "ekat_std_type_traits.hpp")])

prop("C33", "The test driver brackets every test run, passes arguments on, reports failure",
 "For every command line, the arguments before the first --args go to Catch2 and those after it to the session parameters, in order and unchanged; whatever the tests do, they run after MPI and the session (Kokkos and, when configured, the floating-point exception mask) were started and before they are ended, each exactly once and in matching order; every rank ends with a non-zero status exactly when a test failed or the command line was refused; and a Kokkos session is started only when none is running and ended only when one is.",
 ["inputs", "histories", "configurations"], "All command lines up to a length over an alphabet of argument kinds, all outcomes of the Catch2 session on each rank, communicators of size 1-3, all histories of session starts and ends up to a depth.",
 "The driver runs around the tests: none of them can see the arguments it hands to others, a start that is missing on another command line, or its own exit status.",
 ["src/testing-support/ekat_catch_main.cpp", "src/testing-support/ekat_test_session.cpp", "src/kokkos/ekat_kokkos_session.cpp"],
 [("main", "ekat_catch_main.cpp"), ("ekat_initialize_test_session/ekat_finalize_test_session", "ekat_test_session.cpp"), ("initialize_kokkos_session/finalize_kokkos_session", "ekat_kokkos_session.cpp")])

prop("C34", "Portable replacements of standard functions agree with the standard ones",
 "For every input, the replacements EKAT provides for functions that cannot run on a device (min, max, max_element, finiteness and NaN tests; string length, copy and comparison) return what the standard function returns, in their host and in their device form, and touch no memory outside the given range; the numeric helpers built on them (bounds in any order and by vector size, relative difference) give the defined values; and the marker of an invalid value is NaN for floating-point types and the greatest value for integers.",
 ["inputs", "configurations"], "All arrays and strings up to a length over a small alphabet, all pairs of extreme and special values of each arithmetic type.",
 "The device forms are never compiled by the tests, and the host forms are checked on single examples.",
 ["src/kokkos/ekat_math_utils.hpp", "src/kokkos/ekat_kokkos_str_utils.hpp"],
 [("min/max/max_element/invalid", "ekat_math_utils.hpp"), ("strlen/strcpy/strcmp", "ekat_kokkos_str_utils.hpp")])

prop("C35", "Kernels launched with EKAT's team policies run every member exactly once",
 "For every league size, inner loop length and thread pool, a kernel launched with a policy made by the team-policy factory (default, thread-range, reproducible-reduction and forced team sizes) runs each of the league's teams with the promised number of members exactly once, nested loops visit each index exactly once, under every schedule of the threads; and the team utilities report numbers of concurrent teams and team sizes consistent with that launch.",
 ["configurations", "schedules"], "All league sizes and loop lengths up to a bound, pools of 1, 3, 5 and 9 threads, all schedules up to a bound on deviations.",
 "Tests launch one configuration on the machine they run on.",
 ["src/kokkos/ekat_team_policy_utils.hpp"],
 [("TeamPolicyFactory", "ekat_team_policy_utils.hpp"), ("TeamUtils", "ekat_team_policy_utils.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
