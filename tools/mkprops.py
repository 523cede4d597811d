#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/oifitslib/"+f if '/' not in f else f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Write then read returns the identical dataset",
 "For every in-memory dataset that OIFITS version 2 can represent, writing it to a new file and reading that file back yields an equal dataset: the same primary keywords, the same tables in the same order within each type, and in each table the same keywords, optional columns, units, records and per-channel values, flags and correlation indices, bit for bit (keyword doubles to 15 significant digits; NaN stays NaN). No valid dataset makes the write or the read fail or crash, whatever the number of tables, records, channels, stations or targets.",
 ["inputs"], "all datasets within the stated shape and value alphabet (every table type, optional columns, names, dimensions, special values)",
 "The tests round-trip two sample files and compare almost nothing after re-reading; a field dropped for one table type, one optional-column combination, one dimension or one special value goes unnoticed.",
 ["write_fits.c", "read_fits.c", "oifile.c", "alloc_fits.c"],
 [("write_oi_fits and the per-table writers", "src/oifitslib/oifile.c, src/oifitslib/write_fits.c"),
  ("read_oi_fits and the per-table readers", "src/oifitslib/oifile.c, src/oifitslib/read_fits.c")],
 ["status of write/read", "field-by-field content of the dataset read back"])

prop("C02", "Every file written is a valid, self-consistent OIFITS version 2 file",
 "Any file the library reports as successfully written is, as seen by an independent FITS reader, a complete OIFITS version 2 file: primary header first with CONTENT set to OIFITS2 and the mandatory keywords, one target table, every table carrying its current revision number whatever revision the data came from, numbering of same-type tables 1..n without gaps, the mandatory columns with the standard data formats, units and repeat counts, TIME zero in version 2 tables, and valid checksums on every HDU. Optional columns and keywords appear exactly when the dataset specifies them.",
 ["inputs"], "all datasets of the alphabet, of either format version, including those produced by filtering and merging",
 "The tests never inspect a written file with anything but the library's own reader, which ignores units, revisions, checksums and numbering.",
 ["write_fits.c", "oifile.c"],
 [("write_oi_header / write_oi_* / write_keywords", "src/oifitslib/write_fits.c"), ("EXTVER assignment", "src/oifitslib/oifile.c write_oi_fits")],
 ["raw FITS headers and columns of the output file"])

prop("C03", "Version 1 files are read completely and upgrade without data loss",
 "Every valid OIFITS version 1 file (with at least one target, one wavelength table and one record, observed 1901 to 2099) reads into a dataset holding exactly its tables and values, with the features that version 1 lacks at their documented unset defaults, and with the primary header fields (telescope, instrument, object, observation date) derived from the single value in the tables, 'MULTIPLE' if there are several and 'UNKNOWN' if there is none (an array table is optional in version 1). Writing such a dataset gives a version 2 file with the same data values, and the format-version queries answer version 1 before and version 2 after, and never both for a dataset that holds tables.",
 ["inputs"], "all version 1 files of the alphabet, written by an independent generator; all mixtures of table revisions for the version queries",
 "Tests read a couple of version 1 sample files and check that status is zero; defaults, derived keywords and mixtures of revisions are not enumerated.",
 ["read_fits.c", "oifile.c", "src/util/oifits-upgrade.c"],
 [("v1 branches of the readers", "src/oifitslib/read_fits.c"), ("set_oi_header, is_oi_fits_one/two", "src/oifitslib/oifile.c")],
 ["dataset read from v1 file", "dataset read from the upgraded file"])

prop("C04", "Filtering keeps exactly the data that satisfy the filter",
 "For every dataset and filter specification, the filtered OI_VIS, OI_VIS2, OI_T3 and OI_FLUX tables contain exactly the records and channels that satisfy all criteria (name patterns, target, MJD, wavelength, baseline, UV radius, SNR, data type; all ranges inclusive), in the original order with all other values unchanged: points outside the UV-radius or SNR range are flagged (a triple product when its amplitude or phase, whichever types are accepted, fails the SNR criterion, and values of a type that is not accepted become NaN; fluxes that fail it become NaN and are not flagged), points already flagged stay flagged, and a record is dropped, when flagged data are not wanted, only if no usable channel remains (fluxes excepted). A table that ends up empty is omitted. The dataset is one whose data tables have as many channels as the wavelength table they name.",
 ["inputs"], "all pairs of dataset and filter specification within the alphabet, including values exactly at, just inside and just outside each limit",
 "Tests apply one criterion at a time to sample files and check a weak postcondition; combinations, boundaries and what is wrongly rejected are not checked.",
 ["oifilter.c"],
 [("filter_all_oi_vis/vis2/t3/flux and filter_oi_vis/vis2/t3/flux", "src/oifitslib/oifilter.c")],
 ["dataset returned by the filter"])

prop("C05", "Filter output is a closed, minimal dataset and the input is untouched",
 "After filtering, every reference from the surviving data resolves inside the output (to the target, array, wavelength and correlation tables that described it in the input), wavelength tables hold exactly the accepted channels, polarization tables hold exactly the accepted records and channels (padded with NaN where instruments of one table differ in accepted channels), and array, wavelength, correlation and polarization tables used by no surviving data are absent. If a single target was selected it is the only target and is renumbered 1 everywhere, with all of its other attributes (category included) intact; otherwise the target list is unchanged, as are the primary keywords. The input dataset is not modified in any case.",
 ["inputs"], "all pairs of dataset and filter specification within the alphabet, with several support tables of each type, referenced and unreferenced",
 "Tests look at data tables only; support-table contents, pruning, renumbering, polarization filtering and input immutability are not examined.",
 ["oifilter.c"],
 [("filter_oi_target, filter_all_oi_array/wavelength/corr/inspol", "src/oifitslib/oifilter.c"), ("prune_oi_* ", "src/oifitslib/oifilter.c")],
 ["dataset returned by the filter", "input dataset before and after"])

prop("C06", "Filters obey their algebra: identity, idempotence, commutation",
 "A filter in its initial state returns a dataset with the same data as the input (apart from unreferenced support tables and polarization records of instruments without data), provided the data lie within the wide ranges of the initial state (wavelengths to 0.1 mm, baselines to 10 km, SNR from -5); applying any filter twice gives the same result as applying it once (with the target renumbered 1, if one was selected); and two filters that restrict different criteria among names, target, MJD, wavelength, baseline, UV radius and SNR give the same result in either order and as one combined filter. A specification may be reused any number of times and on any dataset with the same effect each time.",
 ["inputs", "histories"], "all sequences of filter applications up to a bound over the alphabet of single-criterion and combined filters and of datasets",
 "Tests apply each filter once to a fresh dataset; sequences are never exercised.",
 ["oifilter.c"],
 [("init_oi_filter, apply_oi_filter, pattern (re)compilation", "src/oifitslib/oifilter.c")],
 ["datasets after each step of a sequence"])

prop("C07", "Filter command-line options select exactly what they name",
 "The filter utility, for every combination of its options, writes a file holding exactly what the library filter gives for the specification those options describe (wavelengths given in nanometres), and options that are absent leave the default, accept-everything behaviour; the description it prints states that specification. It rejects command lines with unknown options, malformed values or the wrong number of arguments with exit status 2, never overwrites an existing output file unless told to, exits non-zero without output when the input is unreadable, and otherwise exits 0.",
 ["inputs", "configurations"], "all command lines with up to the stated number of options over the alphabet, and all states of the output path",
 "Tests never run the utility; option parsing is only sampled through one option group test.",
 ["oifilter.c", "src/util/oifits-filter.c"],
 [("get_oi_filter_option_group, apply_user_oi_filter", "src/oifitslib/oifilter.c"), ("main", "src/util/oifits-filter.c")],
 ["exit status", "output file", "pre-existing files"])

prop("C08", "Merging loses, invents and alters no data",
 "For every list of two or more datasets, the merged dataset contains every OI_VIS, OI_VIS2, OI_T3, OI_FLUX and polarization table of every input exactly once, per type in input order, with all record values unchanged except for the renumbered target and renamed references. Each such reference that resolves in its input still leads to a target of the same name and to array, wavelength and correlation tables with the same stations, channels and correlations as in the input it came from. References that do not resolve never cause a crash.",
 ["inputs"], "all lists of two or three datasets within the alphabet, with shared, conflicting and coinciding names, ids, stations and wavelengths",
 "Tests merge a few sample files and count tables; name conflicts, renaming collisions and target renumbering are not enumerated.",
 ["oimerge.c"],
 [("merge_all_oi_vis/vis2/t3/flux/inspol, REPLACE_* macros", "src/oifitslib/oimerge.c"), ("merge_oi_target, merge_all_oi_array/wavelength/corr", "src/oifitslib/oimerge.c")],
 ["merged dataset", "inputs before and after"])

prop("C09", "Merged target, array, wavelength and correlation tables are unique and minimal",
 "In a merged dataset targets are unique by name, numbered 1..n in order of first appearance with the attributes (category included) of that first appearance; array, wavelength and correlation names are each unique; equal array tables (same stations and coordinates within the documented tolerance, whatever their names) and equal wavelength tables are stored once, different ones are all kept and those whose name is taken get a fresh one. Primary keywords hold the common value, 'MULTIPLE' where inputs differ, and the earliest observation date (1901 to 2099), all tables are version 2, and the inputs are unchanged.",
 ["inputs"], "all lists of two or three datasets within the alphabet, including names that look like generated ones, long names and near-equal tables",
 "Tests count tables for one or two sample inputs; collisions with generated names, three-way conflicts and keyword combination are not enumerated.",
 ["oimerge.c"],
 [("merge_oi_header, merge_oi_target, merge_all_oi_array, merge_all_oi_wavelength, merge_all_oi_corr", "src/oifitslib/oimerge.c")],
 ["merged dataset"])

prop("C10", "Iterators visit every accepted data point exactly once, in order",
 "For every dataset and filter (or none), stepping a visibility, squared-visibility or triple-product iterator yields exactly the points that satisfy the filter's criteria (names, target, MJD, wavelength, baseline, UV radius, SNR, flags, data type), each once, in table, record, channel order with the correct table number, record and channel indices and UV coordinates, and then reports the end on every further call. The dataset is not changed, and iterators on the same dataset do not disturb each other, however their steps are interleaved.",
 ["inputs", "histories"], "all datasets and filters within the alphabet (including tables with no record or whose wavelength table is missing), and all interleavings of two iterators",
 "Tests iterate over sample files with a few filters and check necessary conditions on what is returned, not that nothing is skipped or repeated.",
 ["oiiter.c"],
 [("oi_*_iter_init/next/get_uv", "src/oifitslib/oiiter.c")],
 ["sequence of points returned"])

prop("C11", "The conformity checker reports exactly the breaches that are present",
 "For every readable dataset each conformity check terminates normally and reports a breach if and only if the rule it covers is violated, with the severity of the worst problem, the true number of occurrences (for wavelength order, of channels after the first that are out of order with a neighbour) and, up to the reporting limit and then with a note of truncation, locations naming the right table, record and channel. Checking never modifies the dataset, and a checked result can be released and reused.",
 ["inputs"], "all datasets obtained from conforming ones by any one or two violations out of the catalogue of rules, at every position, in any number up to beyond the reporting limit",
 "Tests plant one breach per check in one sample file; pairs of different breaches, other tables, counts over the limit and false positives are not covered.",
 ["oicheck.c"],
 [("check_tables ... check_flux, set_result", "src/oifitslib/oicheck.c")],
 ["severity, count, description and locations reported"])

prop("C12", "The check, merge and upgrade utilities do what the library does or fail cleanly",
 "For every command line (keywords of up to 68 characters), the check utility exits 0 on a readable file and prints every breach the library checks find (or that all passed), the merge utility writes a file equal to the library merge of its inputs in order, and the upgrade utility (which ignores arguments after the fifth) writes a version 2 file with the data of its version 1 input and the given keywords; in every other case (wrong arguments, unreadable input, existing output, version 2 or array-less input to upgrade) they exit non-zero with existing files untouched and no crash.",
 ["inputs", "configurations"], "all command lines with up to the stated number of arguments over the alphabet of good, bad, missing and existing files",
 "No test runs the utilities.",
 ["src/util/oifits-check.c", "src/util/oifits-merge.c", "src/util/oifits-upgrade.c"],
 [("main", "src/util/*.c")],
 ["exit status", "standard output", "output file", "pre-existing files"])

prop("C13", "Calendar date and Modified Julian Day convert exactly both ways",
 "For every day from 1901-01-01 to 2099-12-31 the conversion from date to Modified Julian Day gives the true day number, the reverse conversion gives the true date, and the two are mutually inverse and monotonic; observation dates derived from the data are those dates in ISO form.",
 ["inputs"], "all days of the supported range, complete",
 "Tests check a handful of dates.",
 ["datemjd.c", "oifile.c", "oimerge.c"],
 [("date2mjd, mjd2date", "src/oifitslib/datemjd.c")],
 ["returned numbers", "derived DATE-OBS"])

prop("C14", "Cross-reference lookups find the right table, always",
 "In every dataset obtained by reading a file, or by filtering or merging datasets whose table names are unique, looking up an array, wavelength table, correlation table, station or target by its name or number returns the matching entry of that same dataset (the first if there are several) if there is one, whether or not any data refer to it, and nothing if there is none.",
 ["inputs", "histories"], "all datasets of the alphabet reached by every sequence of read, filter, merge and write up to a bound, and every key that occurs or does not occur in them",
 "Tests look up only keys taken from the data of sample files.",
 ["oifile.c", "oifilter.c", "oimerge.c"],
 [("oi_fits_lookup_*", "src/oifitslib/oifile.c"), ("hash-table maintenance in read_oi_fits, filter, prune and merge", "src/oifitslib/oifile.c, oifilter.c, oimerge.c")],
 ["result of each lookup"])

prop("C15", "Copies of tables are equal, complete and independent",
 "Duplicating any target, array, wavelength, correlation, polarization or data table gives a table equal in every field, optional arrays included; changing or freeing either one never affects the other. Upgrading a table to version 2 sets its revision and the version 2 fields to their defaults and changes no other value, and leaves version 2 tables unchanged.",
 ["inputs", "histories"], "all tables of the alphabet and every single-cell modification of original or copy, followed by freeing in either order",
 "Tests never modify a copy and compare only a few fields.",
 ["oifile.c"],
 [("dup_oi_*, upgrade_oi_*", "src/oifitslib/oifile.c")],
 ["field-by-field contents of original and copy"])

prop("C16", "A write that fails is reported; a write that succeeds is complete",
 "Whatever open, write, flush, truncate or close operation fails while a dataset (with values that fit their fields) is being written, and at whatever point, including storage that becomes full for good, the write returns a non-zero status and does not crash or hang; if it returns success the file is complete and reads back equal. An existing file is never overwritten or altered by a write to its name, which fails instead.",
 ["fault_sequences", "crash_points", "inputs"], "every single fault position (and every persistent fault from each position on) in the output history of each dataset of the alphabet, plus all pairs at the stated bound",
 "Tests never inject an I/O fault.",
 ["write_fits.c", "oifile.c"],
 [("status propagation in write_oi_fits / write_oi_*", "src/oifitslib/oifile.c, src/oifitslib/write_fits.c")],
 ["returned status", "file content"])

prop("C17", "Damaged input is survived and never passed off as sound",
 "Reading a file that was truncated at any point, had bytes overwritten, had any table or mandatory keyword or column removed, renamed or mistyped, or whose storage fails during the read, never crashes, hangs or corrupts memory. Reading either fails with a non-zero status, or succeeds with the affected optional or data table left out and reported while every undamaged table is returned intact, or returns the table with a checksum warning; mistyped means text columns of non-text type and text in numeric keywords, and an HDU whose own name or type is lost is ignored like any foreign HDU. Correlation, polarisation and data tables that lost, or had renamed or mistyped, a mandatory keyword or column never keep the rest of the file from being read. A file without a usable target table, or with an unusable array or wavelength table, is not accepted, no file is left open in any case, and a dataset that was returned can be summarised, checked, filtered, iterated, merged and written without a crash.",
 ["inputs", "fault_sequences", "crash_points"], "every truncation length, every byte position of the headers and the stated data bytes with a set of replacement values, every removal of a keyword, column or HDU, and every failing read of the sample files",
 "Tests open a few deliberately broken files.",
 ["read_fits.c", "oifile.c"],
 [("status handling in read_oi_fits and read_next_*", "src/oifitslib/oifile.c, src/oifitslib/read_fits.c")],
 ["returned status, diagnostics, dataset content"])

prop("C18", "Table-level reads find the right tables in any HDU order",
 "For every arrangement of HDUs in a file, including foreign tables, images and unnamed tables, reading tables of one type one after the other returns each table of that type exactly once in file order and then signals the end of the file; reading by name, where names are unique, returns the table with that name, or an error if there is none; and reading the whole file gives a dataset that does not depend on how tables of different types are interleaved.",
 ["inputs", "histories"], "all orderings up to the stated number of HDUs, and all sequences of table-level read calls up to a bound",
 "Tests read sample files with one HDU order each.",
 ["read_fits.c", "oifile.c"],
 [("next_named_hdu, specific_named_hdu", "src/oifitslib/read_fits.c"), ("read_oi_fits HDU loop", "src/oifitslib/oifile.c")],
 ["status and table returned by each call"])

prop("C19", "A pending error status makes every file operation a no-op",
 "Called with an error (positive) status already set, every table-level or file-level read or write returns that same status and has no effect: no file is created, opened, moved or changed and the caller's structure is not overwritten. A failing operation sets the status and a following sequence of calls on it has no further effect, so one test at the end of a sequence is enough.",
 ["histories", "inputs"], "all entry points and all positions of the first error in call sequences up to the stated length",
 "Tests always start from status zero.",
 ["read_fits.c", "write_fits.c", "oifile.c"],
 [("'if (*pStatus) return *pStatus' convention", "src/oifitslib/read_fits.c, write_fits.c, oifile.c")],
 ["returned status, file bytes, structure content"])

prop("C20", "No operation leaks, double-frees or reads outside its data",
 "Every sequence of successful reading, filtering, merging, duplicating, checking, iterating, writing and freeing, on any well-formed dataset including those with empty tables, touches only memory it owns and, once the results are freed with the corresponding functions, leaves no memory and no open file behind.",
 ["histories", "inputs"], "all operation sequences up to the stated depth over the dataset alphabet",
 "Tests never check for leaks or run under a memory checker, nor with empty tables.",
 ["oifile.c", "oifilter.c", "oimerge.c", "alloc_fits.c", "free_fits.c", "oicheck.c"],
 [("free_oi_*, free_oi_fits, free_check_result", "src/oifitslib/free_fits.c, oifile.c, oicheck.c")],
 ["address sanitizer", "heap in use after the sequence", "open descriptors"])

prop("C21", "Summaries, counts and atomicity describe the dataset truthfully",
 "For every dataset the number of unflagged visibilities, squared visibilities and triple products reported is the true number; a dataset with at least one record is called atomic exactly if it has at most one array, one wavelength table, one target and all its data lie within the given time span; and the text summary lists the actual number, dimensions, names and dates of all tables. (Data observed between 1901 and 2099.)",
 ["inputs"], "all datasets within the alphabet: every flag pattern, table count and time separation around the limit",
 "Tests check the counts of one sample file.",
 ["oifile.c"],
 [("count_oi_fits_data, is_atomic, format_oi_fits_summary", "src/oifitslib/oifile.c")],
 ["returned numbers and text"])

prop("C22", "Contradictory but readable datasets are processed safely",
 "For every dataset whose tables contradict one another (a data or polarization table with more or fewer channels than the wavelength table it names; references by name, target or station that match nothing or several tables; duplicate names), checking, counting, summarising, iterating, filtering, merging, writing and reading back terminate without a crash, touch only memory they own, leave the input unchanged, release everything when freed, and give for the consistent tables the same results as if the contradictory table were absent; an iterator or filter never returns a channel that has no wavelength.",
 ["inputs"], "all combinations of table type, channel counts, kinds of reference, position and options within the alphabet, through all operations",
 "Tests only use consistent datasets; contradictions appear in real files, and the effect (an over-read) is usually silent.",
 ["oifilter.c", "oiiter.c", "oimerge.c", "write_fits.c", "oicheck.c", "oifile.c"],
 [("filter_all_oi_*, filter_oi_*", "src/oifitslib/oifilter.c"), ("oi_*_iter_next", "src/oifitslib/oiiter.c"), ("merge_all_oi_*", "src/oifitslib/oimerge.c")],
 ["address sanitizer", "results compared with and without the contradictory table", "heap in use"])

prop("C23", "Version 2 files of other writers are read with the same content",
 "Reading depends on the content of a version 2 file and not on how it is laid out. Every valid file reads into the dataset its tables hold: whatever the order of columns and keywords and the case of column names; whichever numeric format that holds the values (narrower, wider, unsigned or scaled) a column has and however wide, up to the standard width (target names and spectral types beyond it), its text is; with further columns (variable-length ones too), keywords, comments and extensions that are not part of the format; with or without units where they say nothing about the content, display formats, dimensions, null values, EXTVER and checksums; in any valid spelling of keyword values; with optional keywords absent, blank or without a value; with or without an image in the primary HDU. No table or value is left out, and valid or absent checksums give no warning.",
 ["inputs"], "all layouts that differ from the library's own in up to two (thorough: three) places, per table and for the primary header, and all combinations of whole-file layout options",
 "The tests read files of two or three writers and mostly check the status; each of these files has one layout.",
 ["read_fits.c", "oifile.c"],
 [("read_next_oi_* / read_oi_target: columns by name, CFITSIO conversion", "src/oifitslib/read_fits.c"),
  ("read_key_opt_*, read_col_string*", "src/oifitslib/read_fits.c"), ("next_named_hdu, verify_chksum", "src/oifitslib/read_fits.c")],
 ["status of read", "dataset read compared with the one the content came from", "text output"])

prop("C24", "Tables allocated by the caller are complete, separate and usable like those read",
 "init_oi_fits makes an empty dataset. Each alloc_oi_* function sets the counts of the table to those asked for, gives every column of every row its own storage for as many values as there are rows or channels (any number, zero included), overlapping nothing else, and leaves the optional columns of OI_VIS unused and unset, whatever the struct held before. A dataset of tables allocated and filled in this way, with optional columns attached by the caller, writes, reads back, copies, filters and merges as any other and is not changed by that. Allocating, filling, copying and freeing one table does not affect another, in any order, and freeing releases everything, attached optional columns included.",
 ["inputs", "histories"], "all table types × rows × channels 0-8 (thorough: 0-40) and sizes around powers of two to 65537; all sequences of 6 (8) steps on two tables; datasets in all shapes within two (three) deviations, all options, all counts up to a limit",
 "The tests allocate tables of one or two sizes and do not look at what remains allocated or at the storage outside the values they set.",
 ["alloc_fits.c", "free_fits.c", "oifile.c"],
 [("alloc_oi_*", "src/oifitslib/alloc_fits.c"), ("free_oi_*", "src/oifitslib/free_fits.c"), ("init_oi_fits, free_oi_fits, dup_oi_*", "src/oifitslib/oifile.c")],
 ["counts and storage of each table", "table contents", "bytes allocated"])

prop("C25", "Failures are reported, and hushing the reports changes nothing else",
 "Every table-level or file-level read or write that fails (other than a read_next_* that reaches the end of the file) prints the status it returns, with CFITSIO's messages, to standard error and nothing of that to standard output; a table-level call or write that succeeds reports no error. With oi_hush_errors set nothing of the kind is printed by any call. Hushing has no other effect: status, what was read or written, further warnings and standard output are the same. A call that succeeds on sound storage leaves no message on CFITSIO's stack that a later report would show.",
 ["inputs", "faults"], "three files with every keyword or column removed, renamed or mistyped and every HDU removed, renamed or replaced; every card-boundary truncation; every I/O call of reads and writes failing; at file level and for every table-level call",
 "The tests look at the status of a few failing reads and never at what is reported, and they run with reports on or off but never compare.",
 ["read_fits.c", "write_fits.c", "oifile.c"],
 [("oi_hush_errors, fits_report_error", "src/oifitslib/read_fits.c"), ("write_oi_*", "src/oifitslib/write_fits.c"), ("read_oi_fits, write_oi_fits", "src/oifitslib/oifile.c"), ("read_key_opt_*: error marks", "src/oifitslib/read_fits.c")],
 ["text on standard error and standard output", "status", "tables read", "CFITSIO's message stack"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
