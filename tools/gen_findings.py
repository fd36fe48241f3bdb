#!/usr/bin/env python3
"""Writes known_findings.json. status "fixed" suppresses nothing; status "known" suppresses exactly the listed key of the listed property."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(p, commit, where, what): F.append({"property": p, "key": "fixed", "where": where, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, commit, what)})
def known(p, key, where, what): F.append({"property": p, "key": key, "where": where, "status": "known", "what": what})
U = "src/core/ekat_rational_constant.hpp"; S = "src/core/ekat_string_utils.cpp"; Y = "src/parser/ekat_yaml.cpp"
fixed("C16", "e05af79", U, "RationalConstant(1,-2) had value -(-1/2): the sign of a negative denominator was lost")
fixed("C16", "3390b60", U, "pow squared its base once too often, overflowing (throwing or wrong) for representable results")
fixed("C16", "9ee2e06", U, "string_repr printed negative numbers and numbers of many digits wrongly")
fixed("C16", "ccedb7c", "src/core/ekat_scaling_factor.hpp", "ScalingFactor::string_repr dropped characters of the exponent")
fixed("C16", "06b18af", "src/core/ekat_scaling_factor.hpp", "ScalingFactor::to_string printed a fractional or negative base without parentheses")
fixed("C17", "b07472c", S, "trim read past the end of strings")
fixed("C18", "1148ed7", S, "valid_nested_list_format accepted malformed lists such as '[a][b]', '[[a]b]'")
fixed("C19", "a83d0a4", S, "gather_tokens lost occurrences of the atomic string")
fixed("C19", "a6c9cd7", S, "jaccard_similarity counted repeated tokens in the union")
fixed("C21", "b3e31cc", "src/core/ekat_parameter_list.cpp", "assignment of a ParameterList kept entries of the old value, and broke when source and target are nested")
fixed("C23", "25904e1", Y, "reading a YAML scalar such as '--1' or 99999999999 threw")
fixed("C23", "591fcfe", Y, "a sequence of booleans in other letter case was not read as booleans")
fixed("C23", "0434686", Y, "denormal numbers in YAML input threw")
fixed("C24", "7f62c91", Y, "the exponent of doubles with many digits was cut off in YAML output")
fixed("C24", "6323c5e", Y, "strings that look like another type, and multi-line strings, did not survive a write and read")
fixed("C29", "a037fb7", "src/logging/ekat_logger.hpp", "ranks that should not log started logging after a level was set")
fixed("C29", "0eff9fa", "src/logging/ekat_logger.hpp", "a logger that shares the sinks of another did not report the file it writes to")
fixed("C14", "2e30f82", "src/kokkos/ekat_view_broadcast.hpp", "header did not compile alone; extent(rank) was accepted")
fixed("C14", "dbd0a30", "src/kokkos/ekat_view_broadcast.hpp", "a broadcast view addressed wrong elements of a strided or column-major source")
fixed("C13", "b835d45", "src/kokkos/ekat_subview_utils.hpp", "the rank-1 range slice did not check the end of the range")
W = "src/kokkos/ekat_workspace_impl.hpp"
fixed("C01", "bb74b18", W, "WorkspaceManager::report did not compile in debug builds")
fixed("C01", "4d32f7f", W, "release_many_contiguous lost the sub-blocks that were free before")
fixed("C01", "a28eab3", W, "release_macro_block lost the sub-blocks that were free before")
fixed("C01", "339703c", W, "reset_internals kept the old next slot (NDEBUG) or the old number of used slots (debug)")
fixed("C01", "4eab47e", W, "take_many_and_reset left stale metadata in the other sub-blocks, and disturbed data in use")
fixed("C01", "280dbc5", W, "contiguous takes handed out a sub-block in use after a fragmented history")
fixed("C01", "b7d87ad", W, "Workspace::print walked past the end of the free list")
fixed("C04", "cb3fca0", "src/algorithm/ekat_tridiag.hpp", "serial Thomas solves ignored the row stride of LayoutRight subviews: wrong solution and writes outside of X")
fixed("C06", "d8d8f0c", "src/algorithm/ekat_reduction_utils.hpp", "view_reduction in non-serialized mode counted entries outside a range that lies inside one pack")
P = "src/pack/ekat_pack.hpp"; K = "src/pack/ekat_pack_kokkos.hpp"
fixed("C09", "e24d867", P, "p += p[i] (and -=, *=, /=) changed p[i] on the way: later entries used the new value")
fixed("C09", "887932f", P, "Pack::update with beta=0 (the default) kept a NaN or infinity of the old value")
fixed("C10", "43dce08", P, "p.set(mask, p[i], p[j]) used entries that it had already overwritten")
fixed("C11", "ff7102c", K, "index_and_shift left the unshifted entries unset on one path and read before the array")
fixed("C11", "914530f", K, "scalarize of a LayoutRight subview addressed wrong scalars (row stride of the parent lost)")
fixed("C11", "a2387a2", K, "repack ignored the strides of its source")
fixed("C12", "1013287", K, "rank-1 transfers did not compare the number of views with the number of arrays (one comparison was made twice)")
X = "src/expression/"
fixed("C28", "1428abe", X, "sums of bool or short expressions, -bool and pow of integers were cut off to the operand type")
fixed("C28", "75ebf20", X, "a view whose elements are not plain references (atomic) was read through a dangling reference")
fixed("C33", "338a7fd", "src/testing-support/ekat_test_session.cpp", "did not compile with EKAT_ENABLE_FPE_DEFAULT_MASK (missing headers)")
fixed("C32", "1bf2fcf", "src/core/ekat_std_type_traits.hpp", "remove_all_pointers and remove_all_consts stopped at the first const pointer")
fixed("C34", "d0d7c36", "src/kokkos/ekat_math_utils.hpp", "the device form of max_element returned the last of equal maxima")
known("C03", "dynamic-small-league", "c03p*/dynamic_small_league", "TeamUtils<OpenMP>::get_workspace_idx hands out slots beyond get_num_ws_slots() when a kernel with the dynamic schedule has fewer teams than fit into the thread pool: the index is the number of the team in the pool, while the slots are capped at the league size")
json.dump({"findings": F}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(F), "findings")
