#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
L = "src/"
C = "crates/pica-cli/src/"
CM = C + "commands/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = state
    P.append(d)

prop("C01", "Records decode by one exact grammar and re-encode byte for byte",
 "A byte string is accepted as a record exactly when it is one or more fields (three-digit tag ending in A-Z or @ with level digit 0-2, optional two- or three-digit occurrence, space, any number of one-character-coded subfields, record separator) followed by one line feed. An accepted record exposes exactly the tags, levels, occurrences, subfield codes, values and PPN of the input in input order, through borrowed, owned and text-validated record types alike, and writing it back reproduces the input byte for byte. Text decoding accepts exactly those records whose bytes are valid UTF-8.",
 ["inputs"], "every byte string, and every record the grammar generates",
 "The unit tests decode a dozen hand-written records and generate a few random ones from the library's own constructors; no independent grammar is compared on near-miss inputs (wrong level digit, one- or four-digit occurrences, missing separators, embedded control bytes, invalid UTF-8).",
 [L+"primitives/parse.rs", L+"primitives/record.rs", L+"primitives/field.rs", L+"primitives/subfield.rs", L+"primitives/tag.rs", L+"primitives/occurrence.rs", L+"record.rs"],
 [("winnow record/field/subfield parsers", L+"primitives/parse.rs"), ("raw bytes kept next to the decoded view", L+"record.rs ByteRecord"), ("UTF-8 validation", L+"record.rs StringRecord")],
 ["ByteRecord::from_bytes / StringRecord::from_bytes / RecordRef / Record", "write_to output"],
 [dict(name="raw_data", meaning="cached input bytes of an unmodified record", where=L+"record.rs")])
prop("C02", "Reading a stream yields every line once, in order, isolated from its neighbours",
 "Reading a stream or file of records yields exactly one result per line in input order: the decoded record if the line is a valid record, otherwise an error that names that line's number (and, for a malformed record, its source), and nothing after the last line. The sequence of results does not depend on how the underlying source delivers its bytes (chunk sizes, short reads, interruptions) nor on whether the file is plain or gzip-compressed in one or several members, and one bad line never changes what its neighbours yield. A read failure or a truncated or corrupt gzip file is reported as an error and never looks like a clean end of data.",
 ["inputs", "fault_sequences", "schedules"], "all line mixes, all chunkings and interruptions of the source, all gzip framings and I/O faults",
 "The tests read a few fixed fixture files from whole buffers; short reads, interrupts, multi-member gzip, faults in mid-stream and error isolation are never exercised.",
 [L+"reader.rs"], [("line-wise read with per-line parsing", L+"reader.rs Reader::next_byte_record"), ("gzip detection by file name", L+"reader.rs ReaderBuilder::from_path"), ("error construction with line number", L+"reader.rs")],
 ["Reader::next_byte_record / next_string_record / iterators", "pica invalid/concat output"],
 [dict(name="line", meaning="lines consumed so far", where=L+"reader.rs")])
prop("C03", "Written records read back exactly; a write failure never passes for success",
 "The records written through a writer that was then finished, plain or gzip-compressed, truncating or appending, to a file or to standard output, are read back as exactly that sequence of records, preceded when appending by what the file already held. Writing never alters, drops, duplicates or reorders records and produces the same bytes whatever mix of record types or buffer boundaries is involved. If the destination fails, some write or the finish reports the failure.",
 ["inputs", "fault_sequences", "histories"], "all sequences of records, of open/append/finish cycles, and all points at which the destination may fail",
 "Tests write one or two records once and compare a file; append histories, gzip members, and destinations failing at a given byte are not covered.",
 [L+"writer.rs", L+"record.rs", L+"primitives/record.rs"], [("plain and gzip writers", L+"writer.rs"), ("finish", L+"writer.rs ByteRecordWrite::finish"), ("append/gzip options", L+"writer.rs WriterBuilder")],
 ["files written by Writer, bytes on stdout of the CLI"])
prop("C04", "Tag, occurrence and subfield-code patterns match exactly the set they denote",
 "A tag pattern (literal, '.', or per-position character classes with ranges) matches a tag exactly when every position is in its class; an occurrence pattern matches exactly its literal, its inclusive range of equal-width numbers, everything for '/*', and only a missing occurrence or 00 when none or '/00' is given; a subfield-code list matches exactly the listed codes, ranges, or all codes for '*'. Pattern texts outside that notation are rejected. Evaluation gives the same answer for borrowed and owned tags and occurrences.",
 ["inputs"], "every pattern against every tag (all 9,360 well-formed tags), every two- and three-digit occurrence and every code",
 "Tests sample a handful of patterns and a few tags; off-by-one range ends, class unions and width mismatches are only caught by exhausting the tag/occurrence/code space.",
 [L+"matcher/tag.rs", L+"matcher/occurrence.rs", L+"parser.rs", L+"primitives/tag.rs", L+"primitives/occurrence.rs"], [("TagMatcher", L+"matcher/tag.rs"), ("OccurrenceMatcher", L+"matcher/occurrence.rs"), ("parse_subfield_codes", L+"parser.rs")],
 ["TagMatcher::is_match, OccurrenceMatcher::is_match, SubfieldMatcher exists"])
prop("C05", "A path extracts exactly the values it addresses, in record order",
 "Evaluating a path on a record yields the values of exactly those subfields whose field matches the path's tag and occurrence patterns and (if given) its subfield condition and whose code is one of the path's codes, in record order and with duplicates kept. The shorthand and curly-brace notations with the same meaning yield the same values, on byte, text and reference records alike. The PPN of a record is the first value of 003@ $0.",
 ["inputs", "programs"], "every path over every record",
 "A dozen path/record pairs are tested; repeated fields, occurrences, several code groups and embedded conditions combine freely in user queries.",
 [L+"path.rs", L+"parser.rs", L+"record.rs"], [("path parser", L+"path.rs"), ("PathExt evaluation", L+"path.rs PathExt"), ("ppn", L+"record.rs")], ["PathExt::path / idn / ppn results", "pica select, partition, frequency"])
prop("C06", "Subfield conditions hold exactly when their documented comparison holds",
 "A subfield condition holds for a list of subfields exactly when its documented meaning does, for each of ==, !=, =^, !^, =$, !$, =*, =?, =~, !~, in, not in, existence and cardinality, with ANY/ALL quantifier, string lists, escapes in quoted strings, and the ignore-case and similarity-threshold options applied. Conditions combine with !, &&, ^/XOR, || and parentheses with the documented precedence (! over && over XOR over ||).",
 ["inputs", "programs"], "all conditions in the expression language, all subfield lists (repeated, empty, non-ASCII and invalid-UTF-8 values), all option settings",
 "Tests cover each operator on a few values; the combinations of operator, quantifier, option, multiplicity and odd values is a product space.",
 [L+"matcher/subfield/mod.rs", L+"matcher/subfield/parser.rs", L+"matcher/operator.rs", L+"matcher/options.rs", L+"matcher/quantifier.rs"], [("comparison evaluation", L+"matcher/subfield/mod.rs"), ("condition parser", L+"matcher/subfield/parser.rs")], ["SubfieldMatcher::is_match"])
prop("C07", "Record filters select exactly the records their expression describes",
 "A filter expression holds for a record exactly when its documented meaning does: field conditions apply to the fields selected by tag and occurrence pattern, existence and cardinality (#) count the matching fields, ANY/ALL quantify over the fields, and !, &&, ^/XOR, || and parentheses combine with the documented precedence. Dot, curly-brace and dollar notations with the same meaning select the same records. Byte, text, reference and owned records with equal content are treated equally.",
 ["inputs", "programs"], "all filter expressions over all records and option settings",
 "The filter tests run some hundred hand-picked expression/fixture pairs; nested connectives with mixed precedence, quantifiers over missing fields and interaction of occurrences with groups are a product space.",
 [L+"matcher/field/mod.rs", L+"matcher/field/parser.rs", L+"matcher/record.rs", L+"matcher/options.rs"], [("FieldMatcher evaluation", L+"matcher/field/mod.rs"), ("filter parser", L+"matcher/field/parser.rs"), ("RecordMatcher", L+"matcher/record.rs")], ["RecordMatcher::is_match / FieldMatcher::is_match", "pica filter output"])
prop("C08", "A query returns exactly the documented table of values for every record",
 "Evaluating a query on a record yields the documented table: each path fragment contributes, per matching field, the combinations of the values of its code groups (an empty cell where a group has none), or one row of empty cells if no field matches; literals contribute constant cells; fragments combine as a cartesian product in query order. Squash joins the repeated values within a field, merge joins the rows of a fragment over fields, both with the given separator, and every row has one cell per column of the query.",
 ["inputs", "programs"], "all queries, all records, all squash/merge/separator settings",
 "Tests check a few queries on two fixture records; products of repeated fields, groups and empty matches are not enumerated.",
 [L+"query.rs", L+"path.rs"], [("Outcome algebra", L+"query.rs"), ("QueryExt::query", L+"query.rs")], ["QueryExt::query result rows", "pica select, frequency"])
prop("C09", "A format string renders exactly the documented text for every field",
 "Formatting a record yields, for each field selected by the format's tag, occurrence and condition and in record order, the text prescribed by its fragments: prefix and suffix appear only around present values, the bounds of a value limit how many of its values are taken, fragments joined by <*> are concatenated, joined by <$> end at the first empty one, groups apply as documented, and the trim, case, non-sorting and whitespace modifiers change values as documented. Fields whose text is empty contribute nothing.",
 ["inputs", "programs"], "all format strings over all records and options",
 "A few format strings on two fixtures are tested; fragment nesting, bounds, missing values and modifier combinations are a product space.",
 [L+"fmt/mod.rs", L+"fmt/parser.rs"], [("Format evaluation", L+"fmt/mod.rs"), ("format parser", L+"fmt/parser.rs")], ["FormatExt::format values", "pica select with a format fragment"])
prop("C10", "Expression parsing is total, context-free of history, and survives printing",
 "Parsing any text as a path, matcher, query or format ends with a result or an error, never a panic, hang or stack overflow, and what it returns depends on the text alone, not on earlier parses or on other threads. Redundant white space, parentheses and equivalent notations do not change the meaning of an expression, and every well-formed expression of the documented language is accepted (up to the fixed nesting limit). Printing a parsed expression and parsing the output again (also through serialization) gives an expression that behaves the same on every record.",
 ["inputs", "histories", "schedules"], "all texts, all sequences of earlier (failed or successful) parses, all thread interleavings",
 "Tests parse fixed expressions once each on a fresh thread; history, malformed near-misses, nesting depth and concurrency are never varied.",
 [L+"matcher/field/parser.rs", L+"matcher/subfield/parser.rs", L+"parser.rs", L+"path.rs", L+"query.rs", L+"fmt/parser.rs"], [("parsers with thread-local nesting counters", L+"matcher/*/parser.rs, "+L+"fmt/parser.rs"), ("Display/serde implementations", L+"matcher, "+L+"path.rs, "+L+"query.rs")], ["new()/parse results, Display and serde output"],
 [dict(name="group level counters", meaning="current nesting depth of the parse on this thread", where=L+"matcher/*/parser.rs")])
prop("C11", "Matchers combined in code behave as the logical connectives",
 "Combining filters, field or subfield conditions through the and, or, xor and not operators or through the record-filter builder yields a matcher that holds exactly when the corresponding boolean combination of the operands holds, in the order of composition, for every record and option. A combined matcher can be cloned, compared and sent to other threads without changing its answers, and evaluating a matcher never changes it or the record.",
 ["inputs", "programs", "histories"], "all operands, combination trees and records",
 "Only a few combinations of constant operands are tested.",
 [L+"matcher/builder.rs", L+"matcher/record.rs", L+"matcher/field/mod.rs", L+"matcher/subfield/mod.rs"], [("BitAnd/BitOr/BitXor/Not implementations", L+"matcher/*/mod.rs"), ("RecordMatcherBuilder", L+"matcher/builder.rs")], ["is_match of combined matchers", "--and/--or/--not on the CLI"])
prop("C12", "Keeping, discarding and retaining fields changes nothing but the chosen fields",
 "After reducing a record to (or by) a set of field patterns, the record holds exactly the fields that do (or do not) match one of the patterns, unchanged and in original order. All views of the reduced record - iteration, written bytes, hash, equality and further queries - describe that same list of fields, whatever sequence of reductions was applied before. An empty pattern list changes nothing.",
 ["inputs", "histories"], "all records, all sequences of retain/keep/discard operations",
 "Tests reduce one fixture once; stale cached bytes after a sequence of operations would go unnoticed.",
 [L+"record.rs", CM+"filter.rs", C+"utils.rs"], [("retain/keep/discard reset the cached bytes", L+"record.rs"), ("parse_predicates", C+"utils.rs")], ["write_to, sha256, fields(), =="],
 [dict(name="raw_data", meaning="cached bytes, valid only while unmodified", where=L+"record.rs")])
prop("C13", "filter and filter --invert-match partition the input stream",
 "The filter command outputs exactly the valid input records that satisfy the expression combined with its --and/--or/--not parts, byte for byte (or reduced by --keep/--discard) and in input order across all input files and stdin, at most --limit of them; with --invert-match it outputs exactly the others. Output is the same to stdout, to a file, gzip-compressed, appended and via --tee, and reading the filter from a file is the same as giving it as an argument.",
 ["inputs", "configurations"], "all record streams, expressions and option combinations",
 "CLI tests run about eighty fixed invocations; option interactions and multi-file order are sampled once.",
 [CM+"filter.rs", C+"cli.rs", C+"utils.rs"], [("Filter::execute", CM+"filter.rs"), ("FilterOpts::matcher", C+"cli.rs")], ["stdout, -o file, --tee file of pica filter"])
prop("C14", "concat emits every input record in order, and with --unique each once",
 "Without --unique the concat command emits every valid record of all inputs byte for byte in order. With --unique it emits exactly the first record of each distinct identity (the PPN with strategy idn, the whole content with strategy hash), in input order (a record without PPN is left out under idn); output files, gzip output, --append and --tee receive the same records.",
 ["inputs", "configurations"], "all multi-file inputs with repetitions",
 "Tests use two small files without adversarial repetitions (same PPN and different content, same content at a distance).",
 [CM+"concat.rs"], [("seen-set per strategy", CM+"concat.rs")], ["stdout/-o/--tee of pica concat"], [dict(name="seen", meaning="identities already emitted", where=CM+"concat.rs")])
prop("C15", "split distributes every selected record to exactly one chunk, in order",
 "The split command writes the selected records, byte for byte and in order, to consecutively numbered files that each hold exactly the chunk size except the last, so that concatenating the files in numeric order restores the selected stream. A template containing `{}`, the output directory and the gzip option change only names and encoding; no record is lost, duplicated or overwritten.",
 ["inputs", "configurations"], "all streams, chunk sizes, templates, limits and filters",
 "Tests use the fixture of a few records and two chunk sizes; boundary cases (multiples, one record, limit at a boundary) are sampled.",
 [CM+"split.rs"], [("chunk counter and writer rotation", CM+"split.rs")], ["files in the output directory"])
prop("C16", "partition puts each record into exactly the files named by its values",
 "The partition command writes each selected record, unchanged and in input order, exactly once to the file of each distinct value the path yields for it, and to no other file; records without a value go nowhere. A partition file is never overwritten by a later partition of the same run, whatever the number and interleaving of values (values that lead to the same file name share the file). No file outside the output directory is created or changed: a value that cannot be used as a file name ends the command with an error.",
 ["inputs", "configurations"], "all streams and values, including repeated values in one record, odd characters and many partitions",
 "Tests partition a fixture by one clean code; duplicate values within a record and hostile values are not covered.",
 [CM+"partition.rs"], [("writer per value", CM+"partition.rs")], ["files in and around the output directory"], [dict(name="writers", meaning="open partition files", where=CM+"partition.rs")])
prop("C17", "slice returns exactly the addressed range of input positions",
 "The slice command outputs, in order and byte for byte, exactly the valid records whose zero-based position lies in the half-open range given by --start and --end or --start and --length, where positions count the selected records and the skipped invalid lines of all inputs (--length counts records only) and an end or length of 0 means no bound. Adjacent slices concatenate to the whole, and every combination of bounds, however large, is handled without failure.",
 ["inputs", "configurations"], "all streams and all combinations of start, end, length, limit, filters and invalid lines",
 "Tests use a few in-range bounds on one fixture; overflow, empty ranges, invalid lines inside the range and range across files are not covered.",
 [CM+"slice.rs"], [("position counter and range test", CM+"slice.rs")], ["output of pica slice"])
prop("C18", "sample returns the requested number of distinct input records, reproducibly",
 "The sample command outputs exactly min(k, n) of the n selected records, each a different record of the input and byte for byte as read; if k >= n it outputs all of them. The same seed and input always give the same sample, and over the seeds every input position can be selected.",
 ["inputs", "configurations", "histories"], "all streams, sample sizes and seeds",
 "Tests check two seeds against stored output and cannot see loss, duplication or positions that are never selected.",
 [CM+"sample.rs"], [("reservoir sampling", CM+"sample.rs")], ["output of pica sample"], [dict(name="reservoir", meaning="records currently selected", where=CM+"sample.rs")])
prop("C19", "explode breaks records into copies and items without losing or mixing fields",
 "The explode command outputs, for every record (title fields first), one record per title, local unit or copy (type main, local, copy) in original order, holding exactly the fields of that unit and, unchanged and before them, the fields of the higher levels it belongs to: a local unit is a run of level-1 fields with the copies after it, a copy is a run of level-2 fields of equal occurrence, and local units without copies yield no copy record. No field is attached to a unit it does not belong to, and --where selects among the exploded records and --keep/--discard reduce them.",
 ["inputs", "configurations"], "all records with any interleaving of levels and occurrences",
 "Tests explode two fixtures; boundaries between copies with equal or missing occurrences are not covered.",
 [CM+"explode.rs"], [("level boundaries", CM+"explode.rs")], ["output of pica explode"])
prop("C20", "select emits exactly the query's table as well-formed CSV or TSV",
 "The select command emits, for each selected record in order, exactly the rows that its query defines, encoded so that a CSV (TSV) reader recovers every cell exactly, preceded by the header if given. Rows whose cells are all empty are dropped; --no-empty-columns drops exactly rows with any empty cell, --unique emits each distinct row once, at its first occurrence, and --append adds to the existing file. --squash, --merge, --separator, --translit, --ignore-case and --quote-style act only as documented.",
 ["inputs", "programs", "configurations"], "all streams, queries and option combinations",
 "Some forty fixed invocations exist; quoting of hostile values and option interaction are product spaces.",
 [CM+"select.rs", L+"query.rs"], [("Select::execute", CM+"select.rs")], ["output of pica select"])
prop("C21", "frequency counts every row exactly and orders and cuts the table as documented",
 "The frequency command reports each distinct non-empty row of its query with exactly the number of times it occurs over the selected records (once per record with --unique), sorted by descending (ascending with --reverse) count and, for equal counts, lexicographically. --threshold removes exactly the rows below it and -n keeps exactly the first n of the remaining ordered rows; the table is well-formed CSV or TSV and does not vary between runs.",
 ["inputs", "configurations"], "all streams, queries and option combinations",
 "Tests compare a few tables of one fixture; ties, combined cuts, and hash-order dependence are not explored.",
 [CM+"frequency.rs"], [("counting map and sort", CM+"frequency.rs")], ["output of pica frequency"], [dict(name="frequency map", meaning="row -> count", where=CM+"frequency.rs")])
prop("C22", "count reports the exact number of records, fields and subfields",
 "The count command reports exactly the number of selected records, their fields and their subfields, whichever single count or table format is asked for, over all inputs. Appending adds one row and keeps what was there.",
 ["inputs", "configurations"], "all streams and filters",
 "Tests count one fixture.", [CM+"count.rs"], [("counters", CM+"count.rs")], ["output of pica count"])
prop("C23", "describe tabulates every subfield of the selected data exactly once",
 "The describe command reports, for every tag and subfield code present in the selected (and reduced) records, and for no others, exactly how often it is present, as one row per tag and one column per code, in an order that does not vary between runs and with the same content as CSV, TSV and Arrow. The counts add up to the number of subfields the count command reports for the same records.",
 ["inputs", "configurations"], "all streams, filters and output formats", "Tests describe one fixture.",
 [CM+"describe.rs"], [("tally", CM+"describe.rs")], ["output of pica describe"])
prop("C24", "Every conversion preserves fields, occurrences, codes and values",
 "Converting records to the plain, JSON, import, XML or binary format produces a well-formed document from which the exact sequence of records - tags, occurrences, subfield codes, values and their order - can be recovered (plain: the sequence of fields, as it does not separate records), whatever text the values contain (for XML: whatever text XML can represent). Text that the format cannot represent is reported as an error or, in the byte-oriented formats, written unchanged.",
 ["inputs"], "all records with any text values", "Tests compare stored output for two fixture records; values with markup, quotes, $ and control characters are not covered.",
 [CM+"convert/mod.rs", CM+"convert/xml.rs", CM+"convert/json.rs", CM+"convert/plain.rs", CM+"convert/import.rs", CM+"convert/binary.rs"], [("one writer per format", CM+"convert/")], ["output of pica convert"])
prop("C25", "Record-level checks report exactly the records that break a rule",
 "The check command, for filter, isni, iso639, unicode, allow, datetime and jelc rules, reports for each rule and record exactly the violations the rule's definition implies, with the record's PPN, rule id and level and the offending values in the message (with --termination fast at most the first failing rule, in rule-id order, of a record). The report does not vary between runs.",
 ["inputs", "configurations"], "all records and rule sets", "Tests check a few single-rule sets on fixtures; checksum, date and list boundaries are sampled.",
 [CM+"check/mod.rs", CM+"check/rule.rs", CM+"check/set.rs", CM+"check/checks/filter.rs", CM+"check/checks/isni.rs", CM+"check/checks/iso639.rs", CM+"check/checks/unicode.rs", CM+"check/checks/allow.rs", CM+"check/checks/datetime.rs", CM+"check/checks/jelc.rs"], [("check implementations", CM+"check/checks/")], ["report of pica check"])
prop("C26", "Stream-level checks (duplicates, links) report exactly the offending records",
 "The duplicates check reports exactly the records in which a non-empty row of the rule's query occurs at least threshold times, with those rows. The link check reports exactly the records in scope that refer to an identifier which no record of the whole input (in whatever order, before or after, in scope or not) carries, once per PPN with the missing identifiers. The findings do not depend on the order of the inputs or on the run.",
 ["inputs", "histories", "configurations"], "all streams, reference graphs and orders", "Tests use small fixtures in one order; forward references, several files and repeated values are not varied.",
 [CM+"check/checks/duplicates.rs", CM+"check/checks/link.rs", CM+"check/set.rs"], [("state across records and finish()", CM+"check/checks/")], ["report of pica check"], [dict(name="link table", meaning="identifiers seen and wanted", where=CM+"check/checks/link.rs")])
prop("C27", "Invalid lines are skipped or abort, and invalid reports exactly those lines",
 "With --skip-invalid (or the configuration equivalent) every command behaves as if the invalid lines were not in its input (apart from positions); without it a command that meets an invalid line exits with a failure naming the line and the input file. The invalid command outputs exactly the lines that are not valid records, byte for byte, so that its output and that of a skipping concat together make up the input.",
 ["inputs", "configurations"], "all line mixes, commands and inputs", "Tests use one fixture with a single invalid line on some commands.",
 [CM+"invalid.rs", C+"utils.rs", C+"config.rs", L+"reader.rs"], [("skip_parse_err", C+"utils.rs"), ("Invalid::execute", CM+"invalid.rs")], ["output and exit status of all commands"])
prop("C28", "hash identifies records by content",
 "The hash command outputs for each selected record, in order, its PPN and the SHA-256 of its encoded bytes, so that equal records have equal and different records different digests, in well-formed CSV or TSV with the given header. The library's record hash agrees with it.",
 ["inputs"], "all records", "Tests compare the digest of a few fixture records.", [CM+"hash.rs", L+"record.rs"], [("sha256 over the encoded record", L+"record.rs")], ["output of pica hash, ByteRecord::sha256"])
prop("C29", "print shows every field and value of every selected record",
 "The print command shows each record in order as one line per field with tag, occurrence and every subfield code and value in order, unescaped, followed by a blank line, so that the fields and values of every record can be read off the output. Unicode normalization changes values only as its form prescribes.",
 ["inputs", "configurations"], "all records with any text values", "Tests compare stored output for one fixture.", [CM+"print.rs", C+"translit.rs"], [("Print::execute", CM+"print.rs")], ["output of pica print"])
prop("C30", "Unicode normalization of filters and output follows the configuration",
 "With a normalization form configured, every filter or query expression given by the user (arguments, --where/--and/--or/--not, filter files, rule sets) is brought into that form before it is compared with the data, so that canonically equivalent expressions select the same records; output is written in the form requested with --translit, and as it is without. Configuration values and command-line options have their documented precedence, a config file written through the config command reads back as written, and an unusable configuration leads to an error message rather than a crash.",
 ["inputs", "configurations", "histories"], "all texts, normalization forms and config files", "Tests exercise one string in some forms and a few config keys.", [C+"config.rs", CM+"config.rs", C+"translit.rs", C+"cli.rs"], [("translit functions", C+"translit.rs"), ("Config", C+"config.rs")], ["output of commands under -c config files", "the config file"])
prop("C31", "Record selection options mean the same in every command",
 "Every command that offers them selects records by --where, --and, --or, --not, --ignore-case, --strsim-threshold, allow and deny lists, and --limit in exactly the same way: a record is selected if the combined expression holds and its PPN (or a value of the configured source) is in at least one of the allow lists, if any are given, and in no deny list (explode selects among the exploded records, and partition's limit counts the records that have a value). Lists are read completely and identically from CSV, TSV, gzip-compressed and Arrow files and their column is chosen as documented.",
 ["inputs", "configurations"], "all records, list contents, list formats and option combinations, all commands", "Tests give single options to single commands with small lists.",
 [C+"cli.rs", C+"utils.rs", CM+"filter.rs"], [("FilterOpts", C+"cli.rs"), ("FilterSet", C+"utils.rs")], ["output of each command"])
prop("C32", "A command exits successfully only if its output was written completely",
 "If writing the output of a command fails at any point (full disk, failing file, unwritable directory), the command reports it with a non-zero exit status; if it exits successfully, its complete output is in place, on stdout, in files and in gzip files, ending in a complete gzip stream. A reader that closes the pipe early ends the command quietly without a crash.",
 ["fault_sequences", "configurations"], "all commands, output kinds and points of failure", "No test injects an output failure.", [L+"writer.rs", CM+"*.rs", C+"main.rs", C+"error.rs"], [("flush/finish at the end of each command", CM+"*.rs"), ("exit status", C+"main.rs")], ["exit status, files, stderr"])
prop("C33", "No input bytes, options or expressions make a command crash",
 "Whatever bytes the input files contain and whatever expressions (of up to some thousand operands or nesting levels) and option values are given, every command ends with a normal exit status and (if it fails) an error message, never a panic, abort, stack overflow or hang. Records whose values are not valid UTF-8 are written unchanged by the commands that output records, and in texts and tables either reported as an error or shown with replacement characters.",
 ["inputs", "configurations"], "all byte inputs and argument strings for all commands", "Tests use well-formed fixtures and sensible options.", ["src/", "crates/pica-cli/src/"], [("error handling by Result throughout", C+"main.rs")], ["exit status and stderr of every command"])

prop("C34", "Pieces of a record built in code obey the grammar and compare by content",
 "Tags, occurrences, subfield codes, values, subfields, fields and records that a program builds from parts or bytes are accepted exactly when the record grammar allows them, and then hold and write exactly those parts. Two pieces are equal, ordered and hashed by what they hold, whether they are borrowed or owned, unchanged or reduced, compared with each other or with plain text or bytes. A piece that is serialised and read back is the same as before.",
 ["inputs", "histories"], "all parts in and near the grammar, all pairs of pieces that are equal or nearly so",
 "Unit tests build a few pieces and compare them with themselves; near misses, mixed borrowed and owned comparisons, hashes of reduced records and serialisation of byte records are not covered.",
 [L+"primitives/tag.rs", L+"primitives/occurrence.rs", L+"primitives/subfield.rs", L+"primitives/field.rs", L+"primitives/record.rs", L+"record.rs"], [("constructors", L+"primitives/"), ("PartialEq, PartialOrd and Hash implementations", L+"primitives/ and "+L+"record.rs"), ("serde derives", L+"primitives/ and "+L+"record.rs")], ["constructors, comparison operators, hashes and serde of the record types"])
prop("C35", "Results don't depend on how input is delivered or progress is shown",
 "For every command the outputs and the exit status depend only on the sequence of input lines, the expressions and the options: not on how the lines are divided over files, compressed files (of one or several members), links or standard input, on file names, on the place of options on the command line, on locale, time zone or other variables, on whether standard error is a terminal, nor on whether progress is shown; and they do not vary between runs. The progress display ends with the number of records read and of invalid lines.",
 ["inputs", "configurations", "schedules"], "all commands, line sequences, layouts and environments",
 "Tests run each command once on one or two plain files without a terminal.",
 [CM+"*.rs", C+"progress.rs", L+"reader.rs", C+"config.rs"], [("reading loop over the inputs of each command", CM+"*.rs"), ("Progress", C+"progress.rs"), ("detection of compressed files", L+"reader.rs")], ["outputs, exit status and terminal of all commands"])
prop("C36", "A command changes nothing but the outputs it was told to write",
 "Whether it succeeds or fails, a command changes, makes or removes no file or directory but the outputs named on its command line (the configuration file for the config command); inputs, lists, rules, configuration and everything else in sight stay as they are. On success a file that was there is replaced completely (with --append: continued) keeping its permissions, and other files in an output directory are kept. Commands that run at the same time with different outputs do not disturb each other.",
 ["inputs", "configurations", "schedules"], "all commands, outputs, failures and bystanding files",
 "Tests look only at the output that they expect.",
 [CM+"*.rs", L+"writer.rs", C+"config.rs"], [("creation of outputs", L+"writer.rs and "+CM+"*.rs"), ("Config::save", C+"config.rs")], ["the file system around a run"])

prop("C37", "Records flow through: bounded memory, linear time, prompt output and end",
 "Commands that look at records one at a time (concat without --unique, convert, count, describe, explode, filter, frequency of few values, hash, invalid, partition, print, select without --unique, slice, split and the record-level checks) work in memory that does not grow with the number of records, and the others keep only distinct identities, rows, links or the sampled records; processor time grows in proportion to the input, in records as well as in fields, subfields and characters of a record. Output is passed on while input is still being read, and a command whose --limit (or slice whose range) is exhausted ends at once, without waiting for or looking at further input.",
 ["inputs", "schedules", "configurations"], "all commands and input shapes, inputs that stay open",
 "Tests use a few small files that end at once; none measures memory or time or leaves an input open.",
 [CM+"*.rs", L+"reader.rs", L+"writer.rs"], [("reading loop over the inputs of each command", CM+"*.rs"), ("line buffer of the reader", L+"reader.rs"), ("limit and range tests", CM+"*.rs")], ["resident memory, processor time, moment of output and end of the process"])

prop("C38", "The command line means what the help says",
 "Every command takes exactly the options and arguments that its help (and the completion script of every shell) lists. It does not matter how they are spelled (short or long, value attached or separate, flags combined), in which order and place they stand, whether a default value is given explicitly, or whether the command is named in full, by an alias or by an unambiguous beginning. A command line with unknown, repeated, contradictory, missing or lacking options or arguments, or with values that are out of range or not among the named, is rejected with a message and exit status 2, and nothing is written.",
 ["inputs", "configurations"], "all commands, spellings, combinations of options and mistakes",
 "Tests use one spelling of few combinations and few mistakes.",
 [C+"cli.rs", C+"main.rs", CM+"*.rs"], [("declarations of options and arguments", CM+"*.rs"), ("FilterOpts", C+"cli.rs"), ("completions", CM+"completions.rs")], ["outputs, exit status and file system for each command line; texts of help and completion scripts"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
