#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Delta plus old package file rebuilds the new package byte for byte",
 "Whenever creating a delta from an old and a new package succeeds, applying that delta to the same old package file succeeds and writes a file byte-identical to the new package, for both delta types, every delta format version, every delta/add-block compression choice and every kind of package content. "
 "This covers packages containing empty, large, renamed, hard-linked, symlinked, special, skipped or reordered entries and every supported payload compression.",
 ["inputs", "configurations"], "all pairs of well-formed cpio packages x delta type x version 1-3 x compression/level x add block on/off",
 "The tests round-trip two fixed package pairs with a handful of option sets; the guarantee ranges over every package pair and option combination.",
 ["src/drpm_make.c", "src/drpm_apply.c", "src/drpm_diff.c", "src/drpm_search.c", "src/drpm_write.c", "src/drpm_deltarpm.c", "src/drpm_compstrm.c", "src/drpm_rpm.c"],
 [("diff construction", "src/drpm_diff.c:make_diff"), ("delta assembly", "src/drpm.c:drpm_make"), ("reconstruction loop", "src/drpm_apply.c:drpm_apply_rpm"), ("final target digest comparison", "src/drpm_apply.c")],
 ["drpm_make return", "drpm_apply return", "bytes of the rebuilt package"])

prop("C02", "A standard delta rebuilds the new package from the installed files alone",
 "If the old package is installed and the on-disk content of its regular files is unmodified, applying a standard delta without an old package file succeeds and writes exactly the new package, in whatever order the package archive lists its files, whichever of them the delta does not use, and however many there are. "
 "Metadata of the installed files (mode, owner, times) and files the delta does not use have no influence on the result.",
 ["inputs", "histories", "configurations"], "all installed packages and file orders/subsets, any number of files, any copy order",
 "No test applies a delta from the file system at all: that needs an rpm database and installed files.",
 ["src/drpm_apply.c", "src/drpm_block.c", "src/drpm_rpm.c"],
 [("per-file block filling", "src/drpm_block.c:fillblock_filesystem"), ("open file cache with LRU", "src/drpm_block.c:open_new_file/get_open_file"), ("header from rpm database", "src/drpm_rpm.c:rpm_read_installed")],
 ["drpm_apply return", "bytes of the rebuilt package"],
 [("open file table", "which of the installed files are open, most recently used first", "src/drpm_block.c")])

prop("C03", "Apply never reports success with anything but the exact target package",
 "If applying a delta reports success then the output file is exactly the package the delta was made for, whatever has happened to the delta, the old package file or the installed files in between. "
 "Any corruption, truncation, extension or substitution of these inputs that changes the rebuilt bytes is reported as an error and never crashes the caller.",
 ["inputs", "fault_sequences"], "all single and multiple corruptions of delta, old package and installed files",
 "The tests apply only intact deltas to intact packages; the quantifier is over all corruptions.",
 ["src/drpm_apply.c", "src/drpm_read.c", "src/drpm_block.c", "src/drpm_decompstrm.c"],
 [("target MD5 check", "src/drpm_apply.c"), ("sequence digest check", "src/drpm_apply.c:expand_sequence"), ("delta validation", "src/drpm_read.c")],
 ["drpm_apply return", "bytes of the rebuilt package"])

prop("C04", "A delta is only ever applied onto the exact source package it was made from",
 "Applying a delta to an old package file whose name, epoch, version or release differs from the recorded source, or (for the rpm-only type) whose signed content digest differs, or (for the standard type) whose file metadata digest differs, is refused with the mismatch error. "
 "Applying or checking against installed data when that source package version is not installed is refused with the not-installed error, and an rpm-only delta is never applied without the old package file.",
 ["inputs", "configurations"], "all (delta, candidate source) pairs differing in any identity component",
 "The tests never present a wrong source.",
 ["src/drpm_apply.c", "src/drpm.c", "src/drpm_rpm.c"],
 [("NEVR comparison", "src/drpm.c / src/drpm_apply.c"), ("signature digest comparison", "src/drpm_apply.c"), ("sequence MD5", "src/drpm_apply.c:expand_sequence")],
 ["drpm_apply return", "drpm_check return"])

prop("C05", "Check verdicts follow the installed state and predict whether apply works",
 "At every point of any history of package installations, removals, upgrades and file modifications, the full check succeeds exactly when every file the delta needs still provides its recorded content, and the file-size check succeeds exactly when every such file exists with its recorded size; otherwise a full check reports an unreadable file as an I/O error and changed content as a mismatch, and a size check reports a missing file as not installed and a changed size as a mismatch. "
 "Whenever the full check of a standard delta succeeds, applying it from the file system succeeds; files the delta does not use never affect any verdict, and no check changes anything.",
 ["histories", "configurations"], "all histories of install / erase / upgrade / modify / truncate / append / delete operations, both check modes, both entry points (delta file, sequence ID)",
 "There is one test of the sequence check without file checking; no test has an rpm database or installed files.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_rpm.c"],
 [("full check", "src/drpm_apply.c:check_full"), ("size check", "src/drpm_apply.c:check_filesize"), ("installed header lookup", "src/drpm_rpm.c")],
 ["drpm_check return", "drpm_check_sequence return", "drpm_apply return"])

prop("C06", "Sequence IDs encode exactly the archive's file order and are verified exactly",
 "For every file order, the sequence ID recorded by a standard delta decodes to exactly the source files the delta uses, in archive order, and a sequence check against the same source succeeds. "
 "A sequence ID that is malformed (bad characters, odd length, too short, naming files that do not exist, or running past its end) or whose digest does not match the source's file metadata is rejected without crashing, with the format or mismatch error.",
 ["inputs"], "all subsets and orders of n header files; all hexadecimal strings",
 "The test checks one sequence ID of one package; runs, skips, jumps and long numbers of the code need many shapes of file order.",
 ["src/drpm_make.c", "src/drpm_apply.c", "src/drpm.c", "src/drpm_utils.c"],
 [("run/skip/jump nibble encoder", "src/drpm_make.c"), ("decoder and digest", "src/drpm_apply.c:expand_sequence"), ("hex parsing", "src/drpm_utils.c")],
 ["drpm_check_sequence return", "DRPM_TAG_SEQUENCE", "seqfile contents"])

prop("C07", "Reading a delta reports exactly the information stored in it",
 "For every well-formed delta, of either type, any format version and any compression, whether made by this library or another producer, reading it succeeds and every reported item (name, version, type, compression, sequence, source and target name, size, digest, target compression and parameter block, target header length, offset adjustments, lead, payload format offset, copy lists, data lengths) equals the value stored in the file. "
 "Values are reported over their whole representable range, including negative offset adjustments.",
 ["inputs", "configurations"], "all well-formed deltas",
 "The tests read six deltas, all produced from the same package pairs, and compare a few fields.",
 ["src/drpm_read.c", "src/drpm.c", "src/drpm_deltarpm.c", "src/drpm_decompstrm.c", "src/drpm_write.c"],
 [("delta parser", "src/drpm_read.c"), ("conversion to the public form", "src/drpm_deltarpm.c")],
 ["drpm_read", "drpm_get_*"])

prop("C08", "Malformed or truncated deltas are refused, never misread",
 "Reading, checking or applying a file that is not a well-formed delta - truncated at any point before its contents are complete, with an impossible length, count, offset or version, or with copy instructions reaching outside the data they refer to - returns an error (format error for content problems, I/O error for files that cannot be opened). "
 "It never crashes, never accesses memory outside its buffers, and leaves no partially filled result behind.",
 ["inputs"], "all byte strings offered as a delta; every truncation point and every out-of-range field of a valid one",
 "The tests only read valid deltas.",
 ["src/drpm_read.c", "src/drpm_decompstrm.c", "src/drpm_rpm.c", "src/drpm_utils.c"],
 [("field validation", "src/drpm_read.c:readdelta_rest"), ("end-of-data detection", "src/drpm_decompstrm.c")],
 ["drpm_read return", "drpm_apply return"])

prop("C09", "Recorded copy instructions are in bounds and reconstruct the target stream",
 "In every delta produced, executing the recorded copy instructions in order - internal copies consuming the internal data exactly once in order, external copies taking in-range pieces of the source plus the add block's byte differences - yields exactly the target's uncompressed stream; nothing is left over and nothing out of range is referenced. "
 "The add block, when present, has exactly one byte per externally copied byte, and without one all external copies are exact.",
 ["inputs", "configurations"], "all pairs of source and target streams, with and without add block",
 "The tests compare against digests of fixed deltas; alternation of copies, zero-length copies, negative displacements and difference blocks depend on the data.",
 ["src/drpm_diff.c", "src/drpm_search.c", "src/drpm_make.c", "src/drpm_write.c"],
 [("copy extraction", "src/drpm_diff.c:make_diff"), ("suffix search / hash search", "src/drpm_search.c")],
 ["delta file contents", "DRPM_TAG_INTCOPIES", "DRPM_TAG_EXTCOPIES"])

prop("C10", "Source data blocks come back intact under any access order and memory pressure",
 "During reconstruction every read of source data returns the bytes that belong at that position, whatever the order of reads (forward, backward, repeated, straddling block and file boundaries) and however few blocks fit in memory at a time, including when blocks are moved to and from temporary storage or only a limited number of source files may be open. "
 "Hence the rebuilt package does not depend on these limits.",
 ["histories", "configurations"], "all access sequences x source sizes x memory limits x open file limits",
 "The tests' packages fit in memory: paging and file-handle recycling (over 5000 blocks, over 50 files) never happen.",
 ["src/drpm_block.c"],
 [("block cache, page file and eviction", "src/drpm_block.c"), ("open file recycling", "src/drpm_block.c")],
 ["bytes of the rebuilt package"],
 [("block list", "which blocks are in memory, paged out, or still to be read", "src/drpm_block.c")],
 "Compile-time limits (block size, blocks in memory, open files) made overridable so that small sources exercise them.")

prop("C11", "A delta only relies on source content that an installed package still has",
 "The sequence of a standard delta contains exactly the old package's archive entries that are usable from an installation: all directories, links and special files and those regular files that are not configuration, ghost or optional files, whose content and size are subject to verification, whose archived size agrees with the header, and which are not multilib-coloured programs that could be replaced by another architecture's file. "
 "The source stream the delta refers to is composed of those entries only, with their headers normalised from the package metadata, and recorded offset adjustments map it onto the original archive.",
 ["inputs", "configurations"], "all packages: every combination of file type, file flags, verify flags, colour, size agreement, order and hard links",
 "The tests' packages contain a few plain files; none is skipped.",
 ["src/drpm_make.c", "src/drpm_rpm.c", "src/drpm_utils.c"],
 [("file selection and header rewriting", "src/drpm_make.c:parse_cpio_from_rpm_filedata"), ("offset adjustments", "src/drpm_make.c")],
 ["DRPM_TAG_SEQUENCE", "DRPM_TAG_ADJELEMS", "DRPM_TAG_EXTDATALEN", "delta contents"])

prop("C12", "The options object is a faithful, independent record of the accepted settings",
 "After any sequence of option calls, a delta is made exactly as the last accepted value of each setting says; a rejected call changes nothing; resetting restores the documented defaults, which are the same as passing no options. "
 "A copy takes over every setting and afterwards neither object influences the other, even once one is changed or destroyed.",
 ["histories"], "all sequences of option calls on two option objects, with valid and invalid arguments",
 "The tests make a few fixed call sequences; the property quantifies over call histories.",
 ["src/drpm_options.c", "src/drpm.c"],
 [("setters and validation", "src/drpm_options.c")],
 ["drpm_make_options_* returns", "the delta made with the object"])

prop("C13", "No I/O failure is ever reported as success with incomplete output",
 "Whenever opening, reading, writing, seeking or closing a file fails, or delivers or accepts fewer bytes than asked, at any point of any operation, the operation either still completes with exactly the result of an undisturbed run or returns an error. "
 "It never returns success with a missing, short or wrong delta, package or sequence file.",
 ["fault_sequences"], "every I/O call of every operation x every failure mode (error, short transfer, interruption, disk full)",
 "No test injects I/O failures.",
 ["src/drpm_write.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_decompstrm.c", "src/drpm_make.c", "src/drpm_rpm.c"],
 [("error checks on I/O calls", "src/drpm_write.c, src/drpm_apply.c, src/drpm_block.c")],
 ["return codes", "bytes of output files"])

prop("C14", "Running out of memory is reported cleanly at every allocation",
 "If any memory allocation made by the library fails, the operation returns an error without crashing, without corrupting memory and without reporting success for an incomplete result. "
 "Afterwards the library can be used normally and the same operation succeeds when memory is available again.",
 ["fault_sequences"], "every allocation of every operation failing once",
 "No test injects allocation failures.",
 ["src/drpm.c", "src/drpm_make.c", "src/drpm_apply.c", "src/drpm_read.c", "src/drpm_rpm.c", "src/drpm_block.c", "src/drpm_diff.c", "src/drpm_search.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_options.c"],
 [("checks of allocation results", "all of src/")],
 ["return codes", "process survival"])

prop("C15", "Operations write only the outputs they were asked for and never alter inputs",
 "Making a delta writes only the named delta and, when requested, the named sequence file; applying writes only the named new package and anonymous temporary storage; checking and reading write nothing. "
 "Input packages, deltas, installed files and the package database are never modified, renamed or removed, whether the operation succeeds or fails, and a pre-existing output is replaced entirely.",
 ["histories", "fault_sequences", "configurations"], "all operations x outcomes",
 "The tests look only at the expected outputs, never at what else was touched.",
 ["src/drpm.c", "src/drpm_write.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_make.c"],
 [("open modes of all files", "src/drpm_write.c, src/drpm_apply.c, src/drpm_block.c")],
 ["system calls", "directory contents before and after"])

prop("C16", "Every operation gives back all descriptors, temporary files and memory",
 "When an operation returns, successfully or not, every file descriptor it opened is closed, no temporary file remains, and all memory it allocated is released except results handed to the caller. "
 "Repeating any operation any number of times, including ones that fail, therefore does not accumulate resources.",
 ["histories", "inputs", "fault_sequences"], "all operations x all outcomes, repeated",
 "The leak test runs only the successful test paths; error paths are never run.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_read.c", "src/drpm_make.c", "src/drpm_rpm.c", "src/drpm_block.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c"],
 [("cleanup sections", "all of src/")],
 ["open descriptors, temporary files and live allocations after return"])

prop("C17", "Invalid arguments and unreadable inputs are rejected with the documented error",
 "Every public operation given a missing mandatory argument, an unknown mode, type, version, compression or level, or an impossible combination returns the bad-arguments error and does nothing; given an input that does not exist it returns the I/O error, and given one that is not a package or delta the format error. "
 "Every error code has a distinct non-empty description.",
 ["inputs", "configurations"], "all operations x all combinations of missing, invalid and valid arguments",
 "The tests never pass invalid arguments.",
 ["src/drpm.c", "src/drpm_options.c", "src/drpm_rpm.c"],
 [("argument checks", "src/drpm.c, src/drpm_options.c")],
 ["return codes", "files created"])

prop("C18", "Read handles give typed, repeatable, independently owned answers",
 "For a delta handle, each information item can be obtained with the getter of its documented type, and with no other getter (bad-arguments error, target untouched); answers are the same however often and in whatever order they are asked, and belong to the caller: changing or freeing them, reading other deltas or destroying the handle does not affect them or later answers. "
 "Destroying a handle resets it, and a failed read provides no handle.",
 ["histories"], "all interleavings of read, get, modify, free and destroy over several handles",
 "The tests call each getter once in a fixed order on one handle.",
 ["src/drpm.c", "src/drpm_read.c", "src/drpm_deltarpm.c"],
 [("tag dispatch and copying out", "src/drpm.c")],
 ["drpm_get_* returns and values"])

prop("C19", "Results depend only on inputs, not on history or environment",
 "Making a delta from the same packages with the same options gives byte-identical deltas, and applying, checking or reading gives the same answer, regardless of which operations ran before in the process (successful or failed), the names and locations of the files, what the output file contained before, and the locale or umask. "
 "File names are reported as given but nothing else depends on them.",
 ["histories", "configurations"], "all sequences of operations in one process",
 "Each test runs an operation once in a fixed order.",
 ["src/drpm.c", "src/drpm_make.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_rpm.c"],
 [("no state kept between calls", "src/drpm_block.c cleanup counter, librpm configuration")],
 ["bytes of outputs", "return codes"])

prop("C20", "Compression settings are honoured and the target's compression is reproduced",
 "The delta's body uses exactly the requested compression method and level, or the new package's method when none is requested; the add block uses its own requested method; and the new package's own payload method and level are recorded so that the rebuilt payload is compressed identically. "
 "Every supported method and level works for every role, in any combination, and unsupported ones are refused with an error rather than silently replaced.",
 ["configurations"], "payload method/level x delta method/level x add block method/level x delta version and type",
 "The tests use two or three of the several thousand combinations.",
 ["src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_make.c", "src/drpm_write.c", "src/drpm_apply.c", "src/drpm_deltarpm.c"],
 [("compressor setup", "src/drpm_compstrm.c"), ("method detection", "src/drpm_decompstrm.c"), ("method encoding", "src/drpm_deltarpm.c")],
 ["delta file contents", "bytes of the rebuilt package"])

prop("C21", "Deltas are interchangeable with the reference delta tools",
 "A delta made by this library in any format version is accepted by the reference tool and rebuilds the new package there, and a delta made by the reference tool is accepted by this library with the same result and the same sequence ID. "
 "The layout of every produced delta follows the published format of its version exactly.",
 ["inputs", "configurations"], "all package pairs x versions x types x compressions the reference tool knows",
 "The tests compare digests of a few deltas of one package pair with stored reference digests.",
 ["src/drpm_write.c", "src/drpm_read.c", "src/drpm_make.c", "src/drpm_apply.c"],
 [("serialisation", "src/drpm_write.c"), ("parsing", "src/drpm_read.c")],
 ["delta file contents", "reference tool's result"])

prop("C22", "Identity and no-difference deltas work like any other delta",
 "A delta made from a single package has that package as both source and target and rebuilds it exactly (including its signature) from the package file and, for the standard type, from its installed files; the rpm-only kind carries no copies and no data at all. "
 "The same holds when old and new are given as the same package, and reading such deltas reports the same identity.",
 ["inputs", "configurations"], "all packages x types x versions x compressions, old-only, new-only and same-package forms",
 "The tests make one identity and one no-difference delta and only compare their digests.",
 ["src/drpm.c", "src/drpm_make.c", "src/drpm_write.c", "src/drpm_apply.c"],
 [("single-package path", "src/drpm.c:drpm_make")],
 ["drpm_make return", "drpm_apply return and output"])

prop("C23", "Deltas made with a print and a patch rely on no file that may differ",
 "A standard delta made with a print of the installed files and a patch (list or package) leaves out exactly the regular files the patch lists as unpatched and the print does not give with the packaged contents; of several entries for a name the first counts. Such a delta still rebuilds the exact new package from the old package file, and from, "
 "and passes its check on, an installed system on which the files left out differ; any other relied-upon file that differs is noticed. A print or patch of another package is refused as an argument error, unreadable or malformed ones as I/O or format errors, and without one nor the other (and for rpm-only deltas) nothing changes.",
 ["inputs", "configurations"], "all packages x all lists and patch packages (entries, order, repeated and similar names, name sharing, owners, sizes, special files) x standard versions, rpm-only, damaged lists",
 "No test makes a delta with patches: lists and patch packages were never read by anything.",
 ["src/drpm_make.c", "src/drpm.c", "src/drpm_options.c"],
 [("reading prints and patches", "src/drpm_make.c:patches_read/read_rpmlist"), ("which files are left out", "src/drpm_make.c:is_unpatched")],
 ["drpm_make return", "sequence and offset adjustments in the delta", "drpm_check and drpm_apply on patched systems", "reference tool's sequence"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
