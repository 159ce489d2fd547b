#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept in step with MANIFEST.json by mkmanifest.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
G, C, U = "src/generator.rs", "src/consumer.rs", "src/util.rs"

p("C01", "Generated mappings text decodes to exactly the mappings added",
  "For every sequence of valid mappings added to a generator, in any order, decoding the emitted mappings text by the Source Map v3 rules (relative base64 VLQ fields, ';' per line, ',' between segments) gives exactly the set of mappings added: generated line and column, source, original line and column, and name. None is lost, altered or invented, and none appears more often than it was added. Decoded segments are in non-decreasing generated order.",
  ["inputs", "histories"], "every finite history of valid additions (any order, duplicates, line gaps, sourceless, nameless, repeated and large values) to one generator",
  "One unit test serializes one 13-mapping list added in order; unordered additions, duplicates, ties, line gaps, sourceless mappings and large deltas are never serialized.",
  [G, "src/mapping_list.rs", "src/base64_vlq.rs", U],
  [("delta encoding loop with previous_* registers and duplicate suppression", G + " serialize_mappings"), ("sort before serialization", "src/mapping_list.rs to_array")],
  [("mappings", "additions so far", G), ("sources/names", "index tables", G)], ["SourceMapGenerator::as_string"])
p("C02", "Generator output loaded into a consumer answers for every mapping added",
  "For every set of valid mappings with distinct generated positions added to a generator, a consumer built from that generator (directly or from its text) enumerates exactly those mappings, and looking up the generated position of any of them returns its source, original line and column, and name with the same 1-based line and 0-based column conventions used when adding. Looking up an original position that was added returns a generated position that was added for it.",
  ["inputs", "histories"], "every history of valid additions, and every position added by it",
  "No test connects the generator to the consumer, and no test performs a single position lookup.",
  [G, C, "src/array_set.rs"], [("from_source_map / create_consumer over as_string", C), ("index tables shared between writer and reader", "src/array_set.rs")],
  None, ["BasicConsumer::from_source_map", "BasicConsumer::original_position_for", "BasicConsumer::generated_position_for", "each_mapping"])
p("C03", "Serialization is order-independent, repeatable and leaves the generator intact",
  "Adding the same valid mappings in a different order yields output that decodes to the same mappings, their generated positions in the same order. Serializing is an observation: doing it twice in a row gives identical text, and serializing between additions never changes what a later serialization contains.",
  ["histories"], "every permutation of additions and every placement of serialize calls between them",
  "The tests serialize a generator once, after in-order additions.",
  [G, "src/mapping_list.rs"], [("sorted flag and lazy sort", "src/mapping_list.rs add/to_array"), ("as_json takes &mut self", G)],
  [("sorted", "whether the list is known to be in order", "src/mapping_list.rs"), ("last", "largest mapping added in order", "src/mapping_list.rs")],
  ["SourceMapGenerator::as_string"])
p("C04", "Emitted document header and source/name tables are exact",
  "Every document a generator emits has version 3, lists each distinct source used by an added mapping exactly once in order of first use, and likewise each distinct name. The file and source root given at creation are carried verbatim and are absent when not given.",
  ["inputs", "histories"], "every history of additions and every optional file/source root",
  "Two tests check empty tables and one checks a fixed three-name list; repeats interleaved with new entries and absent headers are not covered.",
  [G, "src/array_set.rs", "src/source_map.rs"], [("insertion-ordered sets", "src/array_set.rs add"), ("as_json", G)], None, ["SourceMapGenerator::as_string"])
p("C05", "Emitted source contents line up with the source list",
  "Whenever any source content is set, the emitted list of contents has one entry per listed source, in the same order: the latest content set for that source, or null if none is set or it was removed. With no content set, the list is omitted.",
  ["inputs", "histories"], "every history of setting, replacing and removing contents, interleaved with additions, with and without a source root",
  "No test sets a source content.",
  [G, U, "src/source_map.rs"], [("content map keyed by the source relative to the root", G + " set_source_content / generate_sources_contents")],
  [("source_contents", "content per source", G)], ["SourceMapGenerator::set_source_content", "SourceMapGenerator::as_string"])
p("C06", "Invalid mappings are refused unless validation is skipped",
  "A generator created without skipping validation refuses (panics on) a mapping whose generated line is below 1 or column below 0, that has an original position without a source or a source or name without an original position, or whose original line is below 1 or column below 0; every other mapping is accepted. A refused mapping leaves no trace in anything serialized afterwards. With validation skipped, adding never panics.",
  ["inputs", "histories"], "every mapping value over valid and invalid field combinations, at any point of a history",
  "No test adds an invalid mapping.",
  [G], [("validate_mapping called by add_mapping unless skip_validation", G)], None, ["SourceMapGenerator::add_mapping", "SourceMapGenerator::as_string"])
p("C07", "Original-position lookup returns the right mapping for every query",
  "For every map and every generated line and column, lookup returns the mapping on that line at exactly that column if one exists, otherwise the nearest one before it (default and greatest-lower-bound) or after it (least-upper-bound) on the same line. The answer carries that mapping's resolved source, 1-based original line, 0-based column, name, and its generated position. If there is no such mapping on that line, or it has no original position, the answer is nothing.",
  ["inputs", "histories"], "every decodable map, every position (line >= 1, column >= 0) and both biases",
  "No test performs a position lookup.",
  [C], [("bias search plus same-line filter and base conversion", C + " BasicConsumer::original_position_for")],
  [("mappings", "lazily parsed mappings", C)], ["BasicConsumer::original_position_for"])
p("C08", "Generated-position lookup returns the right mapping for every query",
  "For every map, known source and original line and column, lookup returns a mapping of that source at exactly that original position if one exists, otherwise one at the nearest earlier (default and greatest-lower-bound) or later (least-upper-bound) original position of that same source, in line-then-column order. The answer carries that mapping's generated position, its original position (1-based line), resolved source and name. If that source has no such mapping, or the source is unknown, the answer is nothing; a mapping of another source is never returned.",
  ["inputs", "histories"], "every decodable map, every source, every original position and both biases",
  "No test performs a position lookup.",
  [C], [("source index lookup, bias search and same-source filter", C + " BasicConsumer::generated_position_for")], None, ["BasicConsumer::generated_position_for"])
p("C09", "All-generated-positions lookup returns every match and nothing else",
  "For a known source and original line, the lookup without a column returns exactly the mappings of that source on that line or, if that line has none, on the next later line that has any. With a column it returns exactly the mappings of that source on that line at that column or, if none, at the next larger column on that line that has any. Otherwise, and for unknown sources, it returns nothing.",
  ["inputs", "histories"], "every decodable map, every source, line and optional column",
  "No test calls it.",
  [C], [("source index lookup and delegation with base conversion", C + " BasicConsumer::all_generated_position_for")], None, ["BasicConsumer::all_generated_position_for"])
p("C10", "Enumeration visits every mapping exactly once in the requested order",
  "Enumerating in generated order visits every segment of the map exactly once, in non-decreasing generated line and column. Enumerating in original order visits exactly the segments that have an original position, each once, in non-decreasing source, original line and column. Visited records carry the decoded values unchanged.",
  ["inputs", "histories"], "every decodable map, both orders, any earlier calls on the same consumer",
  "Only a benchmark program enumerates, with an empty callback.",
  [C], [("each_mapping over lazily parsed and sorted mappings", C)], None, ["ConsumerTrait::each_mapping"])
p("C11", "Column spans are exact once computed",
  "After column spans are computed, every mapping reported by enumeration or any lookup carries as its (exclusive) end the generated column of the next segment on the same line; the last segment of a line carries no end (reported as -1 by generated-position lookup). An end reported at any other time is that same value. Computing spans again, or in any order with other calls, changes nothing else in any answer.",
  ["inputs", "histories"], "every decodable map and every interleaving of span computation with other calls",
  "No test computes spans.",
  [C], [("compute_column_spans with computed flag and lazy parse", C)], [("computed_column_spans", "spans were requested", C)], ["BasicConsumer::compute_column_spans"])
p("C12", "Answers do not depend on earlier queries",
  "Whatever sequence of lookups, enumerations, span computations and source queries has been made on a consumer, including failed ones and ones that panicked, each further query gives the same answer (apart from whether a column span end is filled in) as the same query on a freshly created consumer for the same document.",
  ["histories"], "every finite sequence of public calls on one consumer",
  "No test makes two calls on one consumer.",
  [C], [("lazy parse, source lookup cache, lazily sorted buckets, span flags", C)],
  [("source_lookup_cache", "source name to index", C), ("mappings", "lazily parsed", C), ("computed_column_spans", "span flag", C)], ["all BasicConsumer and IndexedConsumer methods"])
p("C13", "Source names resolve against source root and map URL",
  "The reported source list has one entry per listed source, in order: the source resolved against the source root (as a directory, with a root-relative source treated as relative to the root) and then against the directory of the map's URL, with '.' and '..' segments removed and query and fragment preserved; characters a URL does not hold (blanks, quotes, letters beyond ASCII) are written percent-encoded, and a backslash separates segments as a slash does (except in schemes of an application's own). An absent or empty source root, and an absent map URL, leave that step out. Absolute sources are unaffected by either.",
  ["inputs", "configurations"], "every combination of relative, path-absolute, scheme-relative and absolute source, source root and map URL, with dot segments, empty, one-character, query and fragment parts, blanks, quotes, backslashes and letters beyond ASCII",
  "The tests resolve two plain names against one path-absolute root and no map URL.",
  [U, C], [("compute_source_url and URL helpers", U), ("absolute_sources", C)], None, ["BasicConsumer::get_sources", "util::compute_source_url"])
p("C14", "Every reported source can be looked up by its spellings",
  "Every name in the reported source list, and every source as spelled in the document (when it does not resolve, relative to the map URL alone, to a different listed source), is recognised by position and content lookups as that source, with no map URL or any that is not itself a relative path. A name that resolves to no listed source is reported as unknown. The answer is the same the first and every later time.",
  ["inputs", "histories", "configurations"], "every document with distinct resolved sources, every source root and map URL, repeated lookups",
  "No test looks up a source by name.",
  [C, U], [("find_source_index: cache, map-relative, then root-relative", C)], [("source_lookup_cache", "memo of successful lookups", C)], ["BasicConsumer::source_content_for", "BasicConsumer::generated_position_for"])
p("C15", "Source contents are returned for the right source",
  "Content lookup for a known source returns exactly the content listed at that source's index, or nothing when that entry is null or missing or the document has no contents. For an unknown source in a document with contents it panics by default and returns nothing if asked not to panic. The consumer reports having all contents exactly when every listed source has a non-null content.",
  ["inputs", "histories"], "every content list (shorter, equal, longer, with nulls, absent), every source spelling",
  "No test reads contents.",
  [C, "src/source_map.rs"], [("source_content_for / has_contents_of_all_sources", C)], None, ["BasicConsumer::source_content_for", "BasicConsumer::has_contents_of_all_sources"])
p("C16", "Indexed original-position lookup answers from the governing section",
  "For every indexed map and generated position, the lookup uses the last section whose offset is at or before the position (line, then 0-based column, the offset itself included) and returns what that section's own map answers for the position relative to the offset, where the column offset applies only on the section's first line. The generated position in the answer is expressed in the coordinates of the whole file. Before the first section there is no answer.",
  ["inputs", "histories"], "every ordered list of sections and every position (including exactly on and either side of section boundaries), both biases",
  "No test queries an indexed map.",
  [C, "src/binary_search.rs"], [("binary search over section offsets, re-basing", C + " IndexedConsumer::original_position_for")],
  [("sections", "offset and consumer per section", C)], ["IndexedConsumer::original_position_for"])
p("C17", "Indexed generated-position lookups use the owning section and its offset",
  "For every indexed map, the generated-position lookup and the all-generated-positions lookup for a source answer what the first section listing that source answers, shifted by that section's offset (the column offset applying only on the section's first line), regardless of how many sections follow. An unknown source has no answer.",
  ["inputs", "histories"], "every ordered list of sections, every source, original position and bias",
  "No test queries an indexed map.",
  [C], [("section selection by source and offset shift", C + " IndexedConsumer::generated_position_for / all_generated_position_for")], None, ["IndexedConsumer::generated_position_for", "IndexedConsumer::all_generated_position_for"])
p("C18", "Indexed enumeration visits all sections' mappings, shifted",
  "Enumerating an indexed map visits, section by section, every mapping each section's own map would visit in that order, with its generated position shifted into whole-file coordinates and everything else unchanged. Once spans are computed, a mapping that runs to the end of its line ends where a following section starts on that line.",
  ["inputs", "histories"], "every ordered list of sections, both orders, before and after span computation",
  "No test enumerates an indexed map.",
  [C], [("IndexedConsumer::each_mapping", C)], None, ["ConsumerTrait::each_mapping for IndexedConsumer", "IndexedConsumer::computed_column_spans"])
p("C19", "Indexed maps are accepted or refused by content alone, under any schedule",
  "An indexed map with version 3 is accepted exactly when its section offsets are in non-decreasing order and no section refers to an external URL; otherwise construction panics. The outcome and the order of the sections in the resulting consumer depend only on the document, never on how worker threads are scheduled.",
  ["schedules", "inputs"], "every list of sections and every interleaving of the worker threads that build them",
  "The tests build two-section ordered maps once; section construction is parallel, so which check runs first is a matter of scheduling.",
  [C], [("parallel section construction and offset check", C + " IndexedConsumer::from_source_map_json")], [("last_offset", "offset seen last", C)], ["create_consumer", "IndexedConsumer::new"])
p("C20", "Base64 VLQ encoding is exact for every 32-bit integer",
  "Encoding any 32-bit signed integer gives the Source Map v3 base64 VLQ text of that value: sign in the lowest bit, five bits per digit least significant first, continuation set on all digits but the last, no redundant digits. Distinct integers have distinct encodings, and the base64 digit function is defined exactly on 0..63 with the standard alphabet.",
  ["inputs"], "all 2^32 integers",
  "Tests cover -255..255 and three base64 digits.",
  ["src/base64_vlq.rs", "src/base64.rs"], [("digit loop", "src/base64_vlq.rs base64vlq_encode"), ("digit table", "src/base64.rs encode")], None, ["base64_vlq::base64vlq_encode", "base64::encode"])
p("C21", "Biased binary search returns the smallest best index",
  "For every sorted slice and needle, the search returns the smallest index of an element equal to the needle if there is one; otherwise the smallest index of the greatest smaller element (default and greatest-lower-bound) or of the least greater element (least-upper-bound). It returns -1 exactly when there is no such element.",
  ["inputs"], "every sorted slice (empty, duplicates), every needle, both biases",
  "Seven tests on two fixed arrays.",
  ["src/binary_search.rs"], [("recursive halving and back-up loop", "src/binary_search.rs")], None, ["binary_search::search"])
p("C22", "Insertion-ordered set keeps first indices and membership",
  "After any sequence of additions, membership is exactly the set of strings added, the index of a member is the position of its first occurrence, the element at every valid position is the one inserted there, positions outside are empty, and the size is the number of distinct members. Adding a member again extends the sequence only if duplicates are allowed. Listing returns the sequence in insertion order.",
  ["histories", "inputs"], "every sequence of additions (with and without duplicates) and observations",
  "Doc tests use one or two elements and no duplicates.",
  ["src/array_set.rs"], [("array plus index map", "src/array_set.rs")], [("array", "insertion order", "src/array_set.rs"), ("set", "first index per member", "src/array_set.rs")], ["ArraySet::*"])
p("C23", "Mapping list returns all additions sorted by generated position",
  "After any sequence of additions and listings, listing returns exactly the mappings added (no loss, duplication or change) in non-decreasing generated line and column. The comparison of valid mappings is a total order: its sign is that of the lexicographic comparison of generated line, generated column, source, original line, original column and name (strings by code point, an absent source or name last), and it is zero exactly when these agree.",
  ["histories", "inputs"], "every sequence of additions and listings; every pair of valid mappings",
  "Only exercised in order by one generator test; the comparison is never tested directly.",
  ["src/mapping_list.rs", U], [("in-order fast path and lazy sort", "src/mapping_list.rs"), ("compare_by_generated_pos_inflated / strcmp", U)], [("sorted/last", "fast-path state", "src/mapping_list.rs")], ["MappingList::add", "MappingList::to_array", "util::compare_by_generated_pos_inflated"])
p("C24", "URL join and relative are inverse and normalising",
  "Joining a root and a path gives the path resolved against the root taken as a directory, with dot segments removed, query and fragment kept and characters a URL does not hold percent-encoded; a path with its own scheme, host or leading slash overrides that much of the root. The relative form of a target against a root of the same kind and host is a reference that, joined to the root, gives the target back (normalised, and up to a trailing slash when the target is the root itself or a directory above it), where such a reference exists; otherwise it is the normalised target. A normalised or relative reference, read again, is the same reference of the same kind: what could be taken for a scheme, a host or an absolute path is kept apart by './'. Neither fails on empty or one-character references.",
  ["inputs"], "every pair of relative, path-absolute, scheme-relative and absolute references, with dot segments, queries, fragments, empty segments, colons, authority-less schemes and segments that collide with internal placeholders (a reference that begins with a scheme has a slash after it)",
  "Only reached through one path-absolute root in the consumer tests.",
  [U], [("safe base, relative computation, join cases", U)], None, ["util::join", "util::relative"])
p("C25", "Out-of-domain queries and documents are refused, never answered",
  "A lookup with a line below 1 or a column below 0 panics on a plain map (for a known source) and never yields a position on an indexed map. A document whose mappings text is malformed (a character outside the alphabet, a truncated or oversized number, a segment that does not have one, four or five fields, or a field that falls below zero) never yields a position: lookups panic and enumeration visits nothing. Text that is not a source map document is an error, and a document with a version other than 3 is refused by panicking.",
  ["inputs", "histories"], "every malformed mappings text, out-of-range argument, version and non-document, at any point of a history",
  "No test passes an invalid argument or document.",
  [C, "src/source_map.rs"], [("argument checks, parse errors, version check", C)], None, ["create_consumer", "BasicConsumer lookups", "IndexedConsumer lookups"])
p("C26", "Indexed source list and contents combine all sections",
  "The source list of an indexed map is the concatenation of its sections' resolved source lists in section order. Content lookup returns the content held by the first section that has a non-null content for that source; if none has, it panics by default and returns nothing if asked not to panic. The map reports having all contents exactly when every section does.",
  ["inputs", "histories"], "every list of sections, source roots, content lists and source spellings",
  "No test reads sources or contents of an indexed map.",
  [C], [("IndexedConsumer::get_sources / source_content_for / has_contents_of_all_sources", C)], None, ["IndexedConsumer::get_sources", "IndexedConsumer::source_content_for"])
p("C27", "All ways of creating a consumer agree",
  "A consumer for a document with sections is an indexed consumer and any other is a basic one. Every way of creating a consumer for the same document and map URL (from text, from a parsed document, through the callback form, or from a generator) gives the same reported sources and the same answers to every query.",
  ["inputs", "configurations"], "every document, optional map URL and constructor",
  "Only one constructor is exercised, always without a map URL.",
  [C], [("create_consumer, BasicConsumer::new / from_source_map_json / from_source_map / consume, IndexedConsumer likewise", C)], None, ["create_consumer", "BasicConsumer::new", "ConsumerTrait::consume"])

p("C28", "Documents survive being read, held and written",
  "Reading the text of a source map document and writing it back gives a document with the same version and the same value for every member, however the text is spaced, escaped or ordered; a member that is absent or null comes back absent or null, members a source map does not have are dropped, and writing again changes nothing. Text in which the version, a section's offset, line, column or map is missing, or any member has a value of the wrong type, is an error and never a document. The document a consumer holds is the one it was created from and stays so whatever is asked of the consumer.",
  ["inputs", "histories"], "every document (every member present or absent, nested sections, any strings), every spelling of its text, every change of one member, and every history of queries on a consumer made from it",
  "No test reads a document and looks at more than two of its members, and none writes one that was read.",
  ["src/source_map.rs", C], [("serde shape of the document: renames, optional members", "src/source_map.rs"), ("parsing in the constructors", C)],
  [("source_map", "the document a consumer was made from", C)], ["SourceMapJson (Deserialize, Serialize, Clone)", "BasicConsumer.source_map", "IndexedConsumer.source_map", "create_consumer"])
p("C29", "Separate objects and threads do not influence each other",
  "For histories of calls on separate generators, consumers and containers, taking turns in one thread in any order or running at the same time on several threads, every call answers as it would if its own history had run alone. In particular documents that list the same sources under different roots, or that differ only in names or contents, never get each other's answers.",
  ["schedules", "histories"], "every interleaving of histories of calls on separate objects, in one thread and on several at once",
  "Tests use one object at a time; the URL handlers and patterns are shared by the whole process and made on first use.",
  [U, C, G], [("process-wide handlers made on first use", U + " lazy_static"), ("per-consumer caches", C)],
  [("lazy statics", "URL handlers shared by all threads", U), ("source_lookup_cache", "memo of one consumer", C)], ["all public calls"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
