#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, na=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, na=na, note=note, state=state))

PIPE = ["pkg/parser/document_processing.go", "pkg/parser/document_processing_parse_fragments.go", "pkg/parser/document_processing_refine_fragments.go",
        "pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_processing_collect_footnotes.go",
        "pkg/parser/document_processing_arrange_lists.go", "pkg/parser/document_processing_filter_elements.go", "pkg/parser/document_processing_aggregate.go"]
LIB = ["libasciidoc.go"]
PRE = ["pkg/parser/document_preprocessing.go"]
CLI = ["cmd/libasciidoc/root_cmd.go"]
REND = ["pkg/renderer/renderer.go", "pkg/renderer/sgml/sgml_renderer.go"]

prop("C01", "The result of a conversion does not depend on scheduling or environment",
     "Converting the same source with the same configuration and the same files always gives the same output bytes, the same metadata, the same error and the same set of warnings. "
     "This holds for every scheduling of the internal goroutines, every iteration order of maps, every wall clock value, every working directory and every log level.",
     ["schedules", "inputs", "configurations"], "for every document, configuration, interleaving of the pipeline's goroutines, map iteration order, pool behaviour, clock, working directory and log level",
     "The tests run each document once, with whatever schedule and map order the runtime happens to choose on an idle machine.",
     PIPE + REND + ["pkg/types/attributes.go"], [("stages connected by FIFO channels, each with its own context", "pkg/parser/document_processing.go ParseDocument"), ("sorted or ordered handling of attributes", "pkg/parser/document_processing_apply_substitutions.go")],
     ["bytes given to the output writer", "returned metadata and error", "log records"],
     note="Seeded search over schedules, map orders, pool and clock behaviour; the oracle is the same conversion under the canonical schedule in a fresh process. Trusts the instrumented scheduler (statement granularity inside the module; dependencies atomic).")

prop("C02", "Every block of the source is rendered exactly once, in source order",
     "If a conversion succeeds and no error was logged, the text of every paragraph, section title, list item, delimited block, table cell and block title of the document - including the parts brought in by include directives - appears in the body of the output exactly once and in the order of the source. "
     "Comments, the text in a conditional region whose condition does not hold and the lines not selected from an included file do not appear at all. Footnote texts appear once each, at the end, in order of first use. "
     "Nothing shows in the output which is only for the converter's own use (placeholders of substitutions, addresses, Go values, verbs of formats).",
     ["inputs", "schedules"], "for every document (any number of blocks, any nesting) and every interleaving of the pipeline",
     "The tests have short documents: few exceed the capacity of the channels between the stages (10 fragments), and none combines that with other schedules.",
     PIPE + PRE + REND, [("fragments numbered and handed over in order", "pkg/parser/document_processing_parse_fragments.go"), ("sections and preamble re-arranged", "pkg/parser/document_processing_aggregate.go"), ("lists re-arranged", "pkg/parser/document_processing_arrange_lists.go")],
     ["bytes given to the output writer"],
     note="Documents are built from unique tokens by a generator which knows the expected order; every case runs under a seeded schedule. Sampling; constructs outside the generator's vocabulary are not covered.")

prop("C03", "Document-wide state follows document order and API attributes win",
     "A reference to a document attribute gives the value set by the last preceding declaration (declarations may reference earlier attributes and are resolved at the point of declaration; after a reset the reference is left as written), and attributes given through the API override any declaration in the document. "
     "Counters, caption numbers of figures, tables and examples, section numbers, generated section ids and footnote numbers increase in document order, independently of each other. "
     "The paths of block and inline images start with the value which imagesdir has at their place, once, wherever they are shown. "
     "Conditional directives (ifdef, ifndef, ifeval with words and numbers) see exactly the attributes which are declared in the document before them, or given through the API.",
     ["inputs", "schedules", "configurations", "histories"], "for every sequence of declarations, resets, references, counters, captions, sections, footnotes and conditionals, and every interleaving of the stages which track this state",
     "The tests check each kind of state alone in short documents; the state lives in several goroutines at once, each with its own copy of the attributes, and has to agree for every history.",
     ["pkg/parser/context.go", "pkg/parser/document_preprocessing.go", "pkg/parser/document_processing_apply_substitutions.go", "pkg/parser/document_processing_collect_footnotes.go", "pkg/parser/document_processing_aggregate.go", "pkg/renderer/sgml/context.go", "pkg/types/types.go", "pkg/types/footnotes.go"],
     [("contextAttributes: immutable (API) and mutable attributes", "pkg/parser/context.go"), ("counters of the context", "pkg/parser/document_processing_apply_substitutions.go valueForCounter"), ("rendering context: element counters, section numbering", "pkg/renderer/sgml/context.go")],
     ["bytes given to the output writer"],
     note="A small executable reference model of attributes, counters, captions, section numbers, ids and footnotes predicts what each probe line shows; histories are random, each run under a seeded schedule.")

prop("C04", "Every conversion terminates and leaves nothing running",
     "Every conversion returns - with a result or an error - after a bounded number of steps, whatever the source, the included files (including cyclic inclusions), and whatever fails: the source reader, the files, the output writer, a user macro. "
     "Once it has returned, nothing of it is still running: no later use of the reader, the writer or the macros, and no goroutine left blocked once the processor is idle.",
     ["schedules", "inputs", "fault_sequences"], "for every document, fault sequence and interleaving",
     "Tests do not fail I/O in the middle of a conversion and do not look at what is left behind once a conversion has returned.",
     PIPE + PRE + LIB, [("done channel closed when the document is parsed", "pkg/parser/document_processing.go"), ("limit on the depth of inclusions", "pkg/parser/document_preprocessing.go")],
     ["return of Convert and ConvertFile", "calls made on the reader, writer, macros", "live goroutines at quiescence"],
     note="Liveness as progress within a step bound under fair completion; goroutines still alive at quiescence are reported. Bounds: step budget per run, include depth and document sizes of the generator.")

prop("C05", "Concurrent conversions do not influence each other",
     "Conversions which run at the same time in one process each give the output, metadata, error and warnings they give alone. This holds whether the others succeed, fail or crash their reader or writer, and whatever the interleaving.",
     ["schedules", "inputs", "fault_sequences"], "for every set of concurrent conversions (with different documents, configurations, files and faults) and every interleaving",
     "No test converts two documents at the same time.",
     LIB + PIPE + REND + ["pkg/types/types.go"], [("no package-level mutable state; contexts per conversion", "pkg/parser/context.go"), ("templates parsed once", "pkg/renderer/sgml/sgml_renderer.go")],
     ["bytes given to each output writer", "metadata, errors, warnings of each conversion"],
     note="2-4 conversions in one simulated process under seeded preemptive schedules, each compared with the same conversion alone in a fresh process.")

prop("C06", "Concurrent conversions have no data races",
     "Conversions which run at the same time in one process never access the same memory without synchronisation, even if they share one configuration value, one attribute map or one set of macros.",
     ["schedules", "inputs"], "for every set of concurrent conversions and interleaving",
     "The tests convert one document at a time and are not run under the race detector with competing conversions.",
     LIB + PIPE + ["pkg/configuration/configuration.go"], [("configuration copied before it is modified", "libasciidoc.go"), ("stages own their fragment while they work on it", "pkg/parser/document_processing.go")],
     ["happens-before race detector attached to the simulated schedules"],
     note="The race detector decides per simulated schedule; the simulator's own hand-overs are hidden from it so that only the program's synchronisation orders accesses.")

prop("C07", "A conversion does not depend on what the process converted before",
     "A conversion gives the same output, metadata, error and warnings after any sequence of earlier conversions in the same process as it gives in a fresh process. The earlier ones may have succeeded, failed, been cut off by I/O errors or panicked in a user macro; once faults stop, the next conversion is unaffected.",
     ["histories", "inputs", "fault_sequences", "schedules"], "for every history of earlier conversions and faults",
     "Tests convert into fresh contexts and never after a failed or panicked conversion.",
     LIB + PIPE + REND + ["pkg/types/types.go"], [("fresh contexts per conversion", "pkg/parser/context.go NewParseContext"), ("fresh rendering context", "pkg/renderer/sgml/context.go")],
     ["bytes given to the output writer", "metadata, error, warnings"],
     note="Histories of 2-8 operations with injected faults; each undisturbed operation is compared with its reference in a fresh process.")

prop("C08", "A conversion does not alter the caller's configuration",
     "The configuration value, attribute map, list of style sheets and set of macros given to a conversion are the same after the conversion as before, whatever the document declares and whether or not the conversion succeeds. Converting again with the same configuration gives what a fresh equal configuration gives.",
     ["histories", "inputs", "schedules"], "for every document, configuration and sequence or concurrent set of conversions which share it",
     "Tests build a new configuration per conversion, so that changes to it are never seen.",
     LIB + ["pkg/configuration/configuration.go", "pkg/validator/validator.go"] + REND, [("configuration copied on entry", "libasciidoc.go Convert"), ("copy of the attributes", "pkg/configuration/configuration.go")],
     ["the caller's configuration after the call", "bytes given to the output writer"],
     note="The configuration is dumped before and after each operation; outcomes compared with a fresh equal configuration.")

prop("C09", "The result does not depend on how the source is delivered",
     "For a given content, the result of a conversion is the same whatever the sizes of the chunks in which the reader or the file system delivers it, including short reads, single bytes, reads which return data together with the end of file and empty reads.",
     ["inputs", "schedules", "fault_sequences"], "for every document and every way to split it, its included files and its images into reads",
     "Tests read from strings, which deliver everything at once.",
     PRE + LIB + ["pkg/parser/document_processing_parse_fragments.go"], [("buffered line reader over the source", "pkg/parser/document_preprocessing.go"), ("the whole preprocessed source is read before it is parsed", "pkg/parser/document_processing_parse_fragments.go")],
     ["bytes given to the output writer", "metadata, error, warnings"],
     note="Chunk sizes are drawn per case (1 byte upwards, splits inside UTF-8 sequences and line ends); the reference reads everything at once.")

prop("C10", "A failure to read the source is reported, never taken for its end",
     "If reading the source fails at any point, the conversion returns an error and writes nothing. If the conversion succeeds, the reader was read to its end and the whole source was converted, however long its lines are.",
     ["inputs", "fault_sequences", "schedules"], "for every document, every position at which reading fails and every error",
     "Tests never give a reader which fails, nor very long lines.",
     PRE + LIB, [("errors of the line reader returned", "pkg/parser/document_preprocessing.go")],
     ["returned error", "bytes given to the output writer", "bytes taken from the reader"],
     note="Faults at seeded byte positions, for Convert and ConvertFile; long-line documents included.")

prop("C11", "A failure to write the output is reported; success means complete output",
     "If any write to the output fails, the conversion returns an error, and what was written is a prefix of the complete output. If it returns no error, the writer received the complete output exactly once. A conversion that fails before rendering writes nothing.",
     ["inputs", "fault_sequences", "schedules"], "for every document, every write at which the writer fails (or writes short), every error",
     "Tests write to buffers which never fail.",
     LIB + REND + ["pkg/renderer/sgml/html5/html5.go"], [("output rendered by a template which stops at the first error", "pkg/renderer/sgml/sgml_renderer.go")],
     ["bytes given to the output writer", "returned error"],
     note="Write failures at seeded positions including short writes with and without error.")

prop("C12", "An inclusion that cannot be resolved fails the conversion",
     "If a file to include is missing, cannot be opened, fails while it is read or does not have a tag which the directive asks for (or if the tags, lines or offset of the directive are not valid), the conversion returns an error that quotes the include directive and writes nothing, at any depth of inclusion. Files referenced in a conditional region that is excluded are not opened at all.",
     ["inputs", "fault_sequences", "schedules"], "for every tree of documents, depth, kind of failure and moment of failure",
     "Tests cover missing files at depth one and two only; none fails opening or reading.",
     PRE, [("IncludeFile returns unresolved directive errors", "pkg/parser/document_preprocessing.go")],
     ["returned error", "bytes given to the output writer", "file system calls"],
     note="Simulated file system with failing open/read/stat, links, directories, files which vanish before they are opened.")

prop("C13", "The process's working directory and environment are never changed",
     "No conversion and no run of the command ever changes the working directory or the environment variables of the process, not even temporarily.",
     ["inputs", "schedules", "fault_sequences"], "for every document, inclusion tree, fault and interleaving",
     "A test would have to look at the working directory at every instant of the conversion.",
     PRE + CLI, [("paths of included files are computed", "pkg/parser/document_preprocessing.go")],
     ["system calls chdir, setenv, unsetenv, clearenv"],
     note="Every such system call goes through the simulated os and is recorded.")

prop("C14", "Included files resolve relative to the file that includes them",
     "A relative path in an include directive is resolved against the directory of the file which contains the directive, at every depth and after returning from nested inclusions. The working directory of the process does not matter if the main document's path is absolute, and it may change while the conversion runs.",
     ["inputs", "schedules", "histories"], "for every tree of directories and files, order of inclusions and (changing) working directory",
     "Tests have a handful of fixed trees and one working directory.",
     PRE, [("current file tracked while including", "pkg/parser/document_preprocessing.go")],
     ["bytes given to the output writer", "files opened"],
     note="Random trees with decoy files at the places a wrong resolution would reach; a host task changes the working directory while the conversion runs.")

prop("C15", "Damaged or adversarial input never crashes the process",
     "For any bytes as the source - truncated, spliced, mutated documents, invalid UTF-8, deep nesting, any combination of constructs - and any bytes in the included files, a conversion returns a result or an error: it does not panic, not even with a panic that is caught and makes the content in question vanish.",
     ["inputs", "schedules", "fault_sequences"], "for every sequence of bytes, as they result from torn, truncated, bit-flipped, duplicated or misdirected storage",
     "The tests feed well-formed documents; a panic in a pipeline goroutine kills the whole process.",
     PIPE + PRE + REND + ["pkg/types/types.go", "pkg/validator/validator.go"], [("grammar accepts any text as paragraphs", "pkg/parser/parser.peg"), ("renderers return errors for unknown elements", "pkg/renderer/sgml/elements.go")],
     ["process survival", "panics reaching the caller"],
     note="Storage-fault model: documents of the corpus and of the generator torn, truncated, spliced, with flipped bits, duplicated or lost blocks; every crash is a violation.")

prop("C16", "The command converts each of several files as if it were given alone",
     "When the command is given several source files, the output for each one is what the command gives for this file alone, whatever the other files declare and in whatever order they are given; it stops with an error at the first file that cannot be converted, leaving the remaining ones unconverted.",
     ["inputs", "histories", "schedules"], "for every list of files, flags and order",
     "The tests of the command convert at most two files that declare nothing.",
     CLI + LIB, [("configuration per source", "cmd/libasciidoc/root_cmd.go")],
     ["files written", "standard output", "exit status"],
     note="The real command runs inside the simulator on the in-memory file system.")

prop("C17", "The command's exit status tells the truth",
     "The command exits with status zero only if every output it was asked for exists, complete: no source, output file, write, flush or close failed. With the output on the standard output, there is nothing else there. Otherwise it exits with a non-zero status and a message.",
     ["inputs", "fault_sequences", "schedules"], "for every set of arguments and every failing system call",
     "Tests never fail a system call of the command.",
     CLI + ["cmd/libasciidoc/main.go"], [("errors collected over sources and close", "cmd/libasciidoc/root_cmd.go")],
     ["exit status", "standard output and error", "files"],
     note="Open, read, write, close, stat fail by seed (ENOSPC, EIO, EDQUOT, ...), also only once.")

prop("C18", "The command writes its designated outputs and nothing else",
     "The command creates or changes no file but the outputs it was asked for; in particular sources and included files are intact afterwards, even if the output is another name of the source, and whatever fails.",
     ["inputs", "fault_sequences", "configurations"], "for every combination of names, extensions, links, options and failing system calls",
     "Tests use plain names in one directory.",
     CLI, [("output compared with the source before it is created", "cmd/libasciidoc/root_cmd.go")],
     ["file system contents before and after"],
     note="Hard and symbolic links, spellings of one path, sources named like outputs.")

prop("C19", "The last-updated value is that of the version which was converted",
     "The last-updated metadata of a file conversion is the modification time of the very version of the file whose content was converted, even if the file is replaced while the conversion runs; the clock does not matter.",
     ["schedules", "histories", "fault_sequences"], "for every moment at which the file is replaced, removed or touched, and every clock",
     "Tests do not replace the file during a conversion.",
     LIB, [("time taken from the open file", "libasciidoc.go ConvertFile")],
     ["metadata", "footer of the output"],
     note="A host task replaces the file (content and time together) at seeded scheduling points.")

prop("C20", "User macros run once per occurrence, in document order",
     "Each occurrence of a configured user macro in a document leads to exactly one execution of that macro, of the same conversion's configuration, with the value and attributes written there, in document order and only while the conversion runs; its output takes the place of the occurrence. "
     "If a macro fails, the conversion returns an error that carries the macro's and writes nothing.",
     ["inputs", "fault_sequences", "schedules"], "for every document, set of macros, failing occurrence and concurrent conversions with other macros",
     "The tests use one occurrence of a macro that never fails.",
     ["pkg/configuration/macro_template.go", "pkg/renderer/sgml/user_macro.go", "pkg/parser/parser_ext.go"], [("macros looked up in the conversion's configuration", "pkg/renderer/sgml/user_macro.go")],
     ["calls of the macro templates", "bytes given to the output writer", "returned error"],
     note="Generated documents know their occurrences; macros record calls, fail at seeded occurrences, run concurrently with conversions that define the same names differently.")

prop("C21", "Every file that is opened is closed exactly once",
     "When a conversion or a run of the command has ended - with success or not - every file it opened (sources, included files, images, outputs) has been closed, and none was closed twice or used after it was closed.",
     ["fault_sequences", "inputs", "schedules"], "for every document, fault sequence and interleaving",
     "Tests do not count file descriptors, nor fail the calls in between.",
     PRE + LIB + CLI + ["pkg/renderer/sgml/image.go"], [("deferred close", "libasciidoc.go, pkg/parser/document_preprocessing.go, cmd/libasciidoc/root_cmd.go")],
     ["file system calls"],
     note="Handle table of the simulated file system.")

prop("C22", "An embedded image is whole or not embedded at all",
     "With the data-uri attribute, the data embedded for an image is the complete content of one version of the image file. If the file cannot be opened or fails while it is read, no part of it is embedded, a warning is logged, and the rest of the document is converted as usual.",
     ["fault_sequences", "inputs", "schedules"], "for every size of image, read failure, chunking and replacement of the image",
     "Tests embed one small image that can always be read.",
     ["pkg/renderer/sgml/image.go"], [("image read before it is encoded", "pkg/renderer/sgml/image.go")],
     ["bytes given to the output writer", "log records"],
     note="Images up to several buffers, short reads, errors at seeded reads, replacement while it is read.")

prop("C23", "Running the command again after a crash gives the complete output",
     "If the command is killed at any point, sources are intact; running it again - also several times, also after more kills - gives exactly the outputs an undisturbed first run gives, whatever was left behind.",
     ["crash_points", "fault_sequences", "inputs"], "for every point at which the process is killed, and every sequence of kills and runs",
     "No test kills the command.",
     CLI + LIB, [("output truncated on creation", "cmd/libasciidoc/root_cmd.go")],
     ["file system contents"],
     note="Kill at a seeded step, durable state (all completed writes) survives, re-run compared with an undisturbed run.")

prop("C24", "The command gives what the library gives with the options as documented",
     "For each source, the command writes exactly the bytes of the library's conversion of this file with the configuration that the options describe: `-a name` sets an attribute without a value, `-a name=value` sets it to everything behind the first `=` (as it is, whatever characters it contains), `-a name!` unsets it (and the document cannot set it again), the last one of several for the same name counts; "
     "`-b` selects the backend, `-s` leaves out header and footer, the style sheets of `--css` are linked in the given order; options have the same meaning before and behind the sources, in their short and long forms, for every source of the command. If the conversion of a source fails, so does the command.",
     ["inputs", "configurations", "schedules", "histories"], "for every combination of options, their forms and their order, every number of sources, every document which uses or declares the attributes, every schedule and every sequence of short reads",
     "The tests use one option each, with plain values.",
     CLI + ["pkg/configuration/configuration.go", "pkg/parser/context.go", "pkg/renderer/sgml/context.go"], [("options turned into a configuration", "cmd/libasciidoc/root_cmd.go NewRootCmd, parseAttributes"), ("attributes of the configuration take precedence", "pkg/parser/context.go contextAttributes")],
     ["output files", "standard output", "exit status"],
     note="Whole simulated command against simulated conversions by the library in other processes; the meaning of the options is stated independently in the generator. Sampling of options and documents.")

prop("C34", "Cross references and the table of contents point to existing ids",
     "In the output of a successful conversion, the target of every entry of the table of contents, of every reference to a footnote, of every way back from a footnote, and of every cross reference to the id of a section or titled block of the document is the id of exactly one element; the ids of the sections are unique - "
     "whatever titles the sections have (repeated, differing in case only, ending with numbers, with references to attributes), whatever their prefix and separator for ids are at their place, whichever files they come from, and however the stages of the conversion are scheduled. (The author's own ids are assumed to be unique.)",
     ["inputs", "schedules"], "for every document, any number of sections, footnotes and references at any places, and every interleaving of the pipeline",
     "The tests check single references and two sections with the same title.",
     ["pkg/parser/document_processing_aggregate.go", "pkg/types/types.go", "pkg/renderer/sgml/cross_reference.go", "pkg/renderer/sgml/table_of_contents.go", "pkg/renderer/sgml/footnotes.go"], [("ids made unique while the document is aggregated", "pkg/types/types.go Section.ResolveID"), ("footnotes numbered in the order of the fragments", "pkg/types/types.go Footnotes")],
     ["bytes given to the output writer"],
     note="Documents of the model of C03 and arbitrary ones, converted with a table of contents under random schedules; every link of the output is checked against the ids of the output. Sampling.")

NA = "A pure function of the input text: no scheduling, time, I/O, fault or other party takes part, so a simulated schedule or fault adds nothing to a plain input; deciding it takes an independent implementation of AsciiDoc or HTML as oracle, which is another technique (property-based or differential testing)."
for id, title, st, files in [
    ("C31", "Text from the source cannot inject markup into the output", "Special characters of the source text (<, >, &, quotes in attributes) are escaped wherever the AsciiDoc syntax does not explicitly pass markup through.", ["pkg/renderer/sgml/special_character.go", "pkg/renderer/sgml/sgml_renderer.go"]),
    ("C32", "The output is well formed HTML5, resp. XHTML5", "For every document without passthroughs, elements of the output are properly nested and closed and attributes quoted, for both backends.", ["pkg/renderer/sgml/html5", "pkg/renderer/sgml/xhtml5"]),
    ("C33", "Both backends render the same document structure", "Apart from the syntax of void elements and documented differences, the html5 and the xhtml5 backend give the same elements and text.", ["pkg/renderer/sgml/html5", "pkg/renderer/sgml/xhtml5"]),
    ("C35", "The generated parser agrees with the grammar", "The generated parser accepts and builds exactly what the grammar specifies; regenerating it gives the same code.", ["pkg/parser/parser.peg", "pkg/parser/parser.go"]),
    ("C36", "Formatting of inline text follows the AsciiDoc rules", "Constrained and unconstrained quotes, substitutions and their order, links, passthroughs and symbols are recognised as the AsciiDoc language defines.", ["pkg/parser/parser.peg", "pkg/parser/document_substitutions.go"]),
]:
    prop(id, title, st, ["inputs"], "for every input", "The tests sample a few inputs.", files, [("rendering templates and grammar", files[0])], ["bytes given to the output writer"], na=NA)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"], hook_needed=None))) + "\n")

ready = None  # ids whose check exists
import re, glob
src = "".join(open(x).read() for x in glob.glob(os.path.join(HERE, "sim/harness/props_*.go")))
ready = set(re.findall(r'ID:\s*"(C\d+)"', src))
m = dict(version=1,
    setup_cmd="./build.sh /tmp/verif-setup && rm -rf /tmp/verif-setup",
    hooks=dict(guard="build-time overlay (go build -overlay); nothing in /repo is guarded because nothing is added there",
               enable="tools/instrument rewrites a copy of /repo's current working tree (goroutines, channels, locks, maps, os, time, filepath, rand behind the simulator's seams) and build.sh compiles it with go build -overlay",
               source_commits=[]),
    checks=[], not_applicable=[],
    notes="run.sh PROPERTY quick|thorough; run.sh replay FILE evaluates a replay file. See DESIGN.md.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] not in ready:
        m["not_applicable"].append(dict(property=p["id"], reason="No check yet."))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
            technique="deterministic simulation with fault injection (seeded search over schedules and faults)" + (" + happens-before race detection on the simulated schedules" if p["id"] == "C06" else ""),
            level="exploration", level_note=p["note"]))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
