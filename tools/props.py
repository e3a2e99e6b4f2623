#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
A = "internal/actions/"; O = "internal/overlays/"; I = "internal/instructions/"; C = "internal/commands/"; B = "internal/builder/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Concurrent file processing never modifies shared state",
  "The files of one run are processed concurrently, and processing one file never modifies an overlay, the configuration, or the documents of another file. The result for a file therefore does not depend on which other files are listed or on how the workers are scheduled.",
  ["schedules", "inputs"], "every interleaving of the workers, every set of files and overlays",
  "The tests process one or two files and a race only shows under particular interleavings; the claim is about every write on every path a worker can reach.",
  [I+"execute.go", O+"overlay.go", O+"onmissing.go", A+"merge.go", A+"replace.go", A+"combine.go"],
  [("one worker per file, overlays shared read-only", I+"execute.go Execute"), ("resolved onMissing action kept local", O+"onmissing.go")],
  state=[("overlay", "parsed overlay shared by all files", O+"overlay.go Overlay"), ("document nodes", "parsed documents owned by one file", I+"yamlfile.go YamlFile.Nodes")])
p("C02", "Inserted content is an independent copy",
  "Whatever an overlay puts into a document by merging, replacing or injecting is a deep copy of the overlay's value. No node of an overlay's value ever becomes part of a document, so changing content inserted at one place never changes the overlay or content inserted at another place.",
  ["inputs", "histories"], "every overlay value, every number of matches and documents, every later overlay that edits inserted content",
  "Sharing is invisible after one insertion; it needs a later overlay that edits one of several insertions, and the tests compare single results.",
  [A+"merge.go", A+"replace.go", O+"onmissing.go"], [("deep copy before insertion", A+"merge.go addNode"), ("deep copy on replace", A+"replace.go ReplaceNode")])
p("C03", "Each file gets exactly the common overlays followed by its own",
  "Every listed file is processed with all common overlays in their listed order followed by its own overlays in their listed order, and a command line overlay is the last of the common overlays. No file ever gets an overlay that belongs to another file.",
  ["inputs"], "every number of common overlays, files, file overlays, with or without a command line overlay, files or directories",
  "Mixing up lists depends on slice capacities, i.e. on particular counts of overlays and files that the tests do not sample.",
  [I+"instructions.go", I+"config.go", I+"execute.go"], [("new list per file", I+"instructions.go addCommonOverlays"), ("command line overlay appended to the common overlays", I+"config.go ReadAdHocOverlays")])
p("C04", "Overlays are applied one after another in the documented order",
  "For every document of a file, in document order, the file's overlays that are in scope are applied in list order and after them the overlays of the matching document entries in their order, each exactly once. An overlay is applied only after the previous one has been applied completely, and the first failing overlay stops the file.",
  ["inputs", "schedules"], "every list of overlays and documents, every schedule of the queue and its consumer",
  "The order is produced by a producer goroutine and a consumer; the tests check single overlays, not every list and schedule.",
  [I+"yamlfile.go", O+"workstream.go", I+"execute.go"], [("queueing order", I+"yamlfile.go queueOverlays"), ("single sequential consumer", O+"workstream.go StartHandler")])
p("C05", "Overlays only reach the documents they are scoped to",
  "A common overlay or overlay of a file that has a document index list is applied only to documents whose zero based position in the file is in that list, and one without the list is applied to every document of the file. Overlays listed under a document entry are applied only to the document with that position, and only documents of the overlay's own file are ever changed by it.",
  ["inputs"], "every index list, every document count and position",
  "Tests sample a few positions; the claim is about every position and list.",
  [O+"overlay.go", I+"yamlfile.go", I+"document.go"], [("index check", O+"overlay.go CheckDocumentIndex"), ("document entry check", I+"document.go checkDocumentIndex")])
p("C06", "documentQuery selects documents as an OR of ANDed conditions",
  "An overlay is applied to a document exactly when it has no document queries or at least one document query all of whose conditions hold; otherwise neither its action nor its onMissing behaviour changes the document. A condition holds when its query finds something and, if a value is given, the results are equal to that value regardless of comments, style and position in the file.",
  ["inputs"], "every combination of document queries, conditions, results and values",
  "The boolean structure has unboundedly many combinations; the tests sample a handful.",
  [O+"documentquery.go", O+"overlay.go"], [("query evaluation", O+"documentquery.go checkQueries"), ("evaluated before the query and action", O+"overlay.go Apply")])
p("C07", "Every match receives exactly the selected action",
  "When the query of an overlay has results, each result receives exactly the selected action with the overlay's value, in result order, and nothing else: delete, replace and combine when selected, merge when selected or when no action is given. If an action fails the remaining results are left alone and the failure is reported.",
  ["inputs"], "every action, every number of results",
  "The tests run each action on a few results only.",
  [O+"overlay.go", A+"action.go"], [("dispatch", O+"overlay.go doAction"), ("default action", O+"overlay.go UnmarshalYAML")])
p("C08", "Missing matches follow the onMissing rules",
  "When a query finds nothing in a document, the document stays unchanged unless the overlay merges or replaces and its onMissing action is inject, either explicitly or because it has none and the configured default is inject. Content is then injected at the query when it is a plain path and otherwise at the injectPath, and when there is no usable path nothing is changed.",
  ["inputs", "configurations"], "every combination of action, onMissing action, default setting, query form and inject path",
  "The decision table has more combinations than the tests contain (they never combine actions with defaults).",
  [O+"onmissing.go", O+"overlay.go"], [("decision", O+"onmissing.go onMissing"), ("path choice", O+"onmissing.go handleInjectPath")])
p("C09", "Failures always end the run with an error and a failing exit status",
  "Every error met while reading instructions, values or input files, applying overlays, rendering or writing output makes the whole run fail: the error is returned up to the command and the process exits with a non zero status. No such error is dropped, replaced by success, or only logged. (An invalid sed expression in a format marker is skipped with a warning, as documented; it is not a failure.)",
  ["fault_sequences", "inputs"], "every call that can fail, at any point of a run",
  "Tests inject few failures; the claim is about each failing call on each path.",
  [I+"execute.go", I+"config.go", I+"instructions.go", I+"yamlfile.go", I+"values.go", I+"template.go", I+"utils.go", O+"workstream.go", O+"onmissing.go", A+"merge.go", A+"replace.go", A+"combine.go", C+"root.go", B+"path.go"],
  [("error returned to cobra", C+"root.go Execute"), ("exit status", C+"root.go Run")])
p("C10", "Nothing is output unless every overlay succeeded",
  "Output, to files or to standard output, starts only after the overlays of all files have been applied without error. Then every listed file is rendered and output exactly once, in the order in which the files are listed, and the first failure stops the output.",
  ["inputs", "schedules", "fault_sequences"], "every number of files, every schedule, every failing file",
  "Depends on which worker fails or finishes first; the tests use one or two files without failures.",
  [I+"execute.go"], [("wait before output", I+"execute.go Execute"), ("ordered hand-over", I+"execute.go PostProcessHandler")])
p("C11", "The tool only ever writes its output files",
  "The only changes the tool makes to the file system are creating missing output directories and creating or replacing the output files of the run. Instructions, values, configuration and input files are only ever opened for reading, nothing is deleted or renamed, and when output goes to standard output nothing is written to the file system at all. (Commands such as `w` that a user writes into a sed format expression act on the user's behalf and are not meant.)",
  ["inputs", "configurations"], "every input and configuration, every code path that reaches a file system call",
  "Absence of a write on every path cannot be sampled.",
  [I+"config.go", I+"utils.go", C+"root.go"], [("single output function", I+"config.go openOutputFile"), ("read only open", I+"utils.go ReadStream")])
p("C12", "Output files are placed as documented",
  "A file without an output path is written to its own path with the directory prefix common to all listed files removed; an output path without extension is taken as a directory in which the file keeps its base name, any other output path is used as it is. Relative results are placed below the output directory, missing directories are created first, and existing output files are completely replaced.",
  ["inputs", "configurations"], "every list of paths, output paths and output directories",
  "The tests check a few path lists; the placement must hold for every list and setting.",
  [I+"instructions.go", I+"config.go", I+"utils.go"], [("output path", I+"instructions.go setOutputPath"), ("placement and replacement", I+"config.go openOutputFile")])
p("C13", "Output contains every non-empty document, in order and complete",
  "The output of a file is a separator line followed by all documents of the file that still have content, each rendered once and in the original order; documents without content are skipped. A file whose documents are all empty produces no output at all, and rendering is complete (flushed) before anything is written.",
  ["inputs"], "every number and emptiness pattern of documents",
  "Patterns of empty documents are unbounded; tests cover two or three.",
  [I+"config.go"], [("rendering loop", I+"config.go encodeNodes"), ("write", I+"config.go doPostProcessing")])
p("C14", "Standard output carries only results",
  "With output to standard output, standard output receives exactly the rendered documents; with output to files it receives one line with the name of each file that was opened for output. Log messages, warnings and errors never go to standard output.",
  ["inputs", "configurations"], "every setting, every log level, every failure",
  "Tests do not capture both streams under failures and log levels.",
  [I+"config.go", C+"root.go", C+"env.go", C+"completion.go"], [("logging backend on stderr", C+"root.go SetupLogging"), ("result writers", I+"config.go doPostProcessing")])
p("C15", "The same input always gives the same output",
  "Rendered documents, output file names and their order depend only on the input files, instructions, values, settings and command line. Iteration order of maps, scheduling, time, random numbers or memory addresses never influence them.",
  ["schedules", "inputs"], "every run of every input",
  "Non-determinism shows up in a fraction of runs; a passing test says nothing about the next run.",
  [I+"execute.go", I+"config.go", I+"yamlfile.go", A+"format.go", A+"style.go"], [("ordered processing", I+"execute.go Execute")])
p("C16", "Removing comments clears every source comment before overlays run",
  "With comment removal on, every head, line and foot comment of every node of every document of every listed file, including those on the document itself, is removed before the first overlay is applied. With it off, reading a file removes no comment, and comments set by overlays are never removed in either case.",
  ["inputs", "configurations"], "every document tree, every file list",
  "Completeness over all nodes of arbitrary trees cannot be sampled.",
  [I+"instructions.go", I+"yamlfile.go"], [("recursive removal", I+"yamlfile.go removeCommentsFromNode"), ("done while instructions are prepared", I+"instructions.go GetInstructions")])
p("C17", "Existing comments are kept unless the overlay sets that kind",
  "When a value is merged, combined or replaced, each kind of comment (head, line, foot) of the original node is kept unless the overlay's node has a comment of the same kind, in which case it is replaced by the overlay's comment with its format markers filled in. Kinds are independent of each other and a comment never ends up as another kind.",
  ["inputs"], "every combination of present and absent comments on both sides",
  "The combinations of three kinds on two sides and three actions exceed the sampled ones.",
  [A+"merge.go", A+"combine.go", A+"replace.go"], [("per kind update", A+"merge.go mergeComments")])
p("C18", "Merging maps updates matching keys and keeps everything else in place",
  "Merging a map into a map merges the overlay's value into the value of each key with the same name, at its position, and appends each key that does not exist yet, once, after the existing keys and in overlay order. Keys the overlay does not name keep their value and their position, and no existing key or value is lost or duplicated.",
  ["inputs"], "every pair of maps, every nesting",
  "Every pair of key lists; the tests sample a few maps.",
  [A+"merge.go"], [("map merge", A+"merge.go mergeMap")])
p("C19", "Delete removes exactly the matched node",
  "Deleting a match removes a sequence item or a document's root by itself, a map entry as its key together with its value, and nothing else; the order of everything else is unchanged. Matching is by node identity, at any depth.",
  ["inputs"], "every tree, every position of the match, maps of every size",
  "Index arithmetic must be right at every position and depth; the tests sample a few.",
  [A+"delete.go"], [("removal arithmetic", A+"delete.go DeleteNode")])
p("C20", "Combine adds integers, ANDs booleans and concatenates strings",
  "Combining two scalars replaces the original's value by the sum when the original is an integer, by the logical AND when it is a boolean, and by the original text followed by the overlay's text otherwise. Combining anything that is not a scalar, a value that cannot be read as the original's type, or a sum that is out of range is reported as an error and leaves the value unchanged.",
  ["inputs"], "every pair of values and kinds",
  "Values and kinds are unbounded; the tests sample one pair per type.",
  [A+"combine.go"], [("typed combination", A+"combine.go CombineNode")])
p("C21", "Replace puts a deep copy of the overlay's value in place of the match",
  "Replacing makes the matched node's kind, tag, value, style, anchor and children a deep copy of the overlay's value, whatever the node was before, and keeps nothing of the former content. Only its comments follow the comment rules.",
  ["inputs"], "every pair of nodes",
  "Every pair of node kinds and contents.",
  [A+"replace.go"], [("replacement", A+"replace.go ReplaceNode")])
p("C22", "Flags, environment variables and the config file reach their setting",
  "Each documented YOT_ environment variable and each documented flag sets the setting it is documented for, a flag overrides the environment, the environment overrides the config file, and the behaviour of the run is decided by the resulting setting. The config file is the one named by the flag or YOT_CONFIG_FILE, else the documented default locations.",
  ["configurations"], "every combination of flag, environment variable, config key and default",
  "The tests never set environment variables or config files.",
  [C+"flags.go", C+"root.go", C+"env.go"], [("flag binding", C+"flags.go"), ("environment binding", C+"root.go initConfig"), ("name table", C+"env.go envMap")])
p("C23", "Action names are accepted exactly as documented",
  "Overlay actions merge, replace, delete and combine and onMissing actions ignore and inject (and default) are recognised in any letter case and mean what they say; any other name is rejected with an error. Names and meanings used for reading and for writing agree.",
  ["inputs"], "every string given as an action",
  "Every string; tests sample the valid names.",
  [A+"action.go"], [("name tables", A+"action.go UnmarshalYAML, String")])
p("C24", "Output styles apply as requested to every node",
  "The requested output styles are combined as a set, so order and repetition do not matter, and the combination is applied to every node of every rendered document and to nothing else of the node. Each documented style name and abbreviation selects its style, with the same meaning on the command line, in the environment and in the config file, and each style is the renderer's style of that name.",
  ["inputs", "configurations"], "every list of styles, every tree",
  "Combinations of seven styles and all trees; tests sample a few.",
  [A+"style.go", I+"config.go", C+"flags.go"], [("style set", A+"style.go GetStyle"), ("application", A+"style.go setStyle")])
p("C25", "Instructions are templated with the merged values files",
  "With values files, the instructions are rendered as a template, with the documented functions available, using the values files merged in the given order so that later files win, and the rendered text is what gets decoded. Without values files the instructions file is decoded as it is.",
  ["inputs", "configurations"], "every list of values files and instructions",
  "Tests use one or two values files and few template functions.",
  [I+"template.go", I+"values.go", I+"instructions.go"], [("values merge", I+"values.go getValues"), ("rendering", I+"template.go renderInstructionsTemplate")])
p("C26", "Malformed input is reported and never crashes the tool",
  "Empty entries in any list of the instructions, empty queries or inject paths, documents whose content was deleted by an earlier overlay, and out of range settings lead to an error message or are skipped, never to a crash. No list is accessed outside its bounds and no missing entry is dereferenced, whatever the instructions and documents contain.",
  ["inputs", "histories"], "every instructions file, document and sequence of overlays",
  "Crashes need unusual inputs or sequences; the tests contain valid instructions only.",
  [O+"overlay.go", O+"query.go", I+"yamlfile.go", I+"instructions.go", A+"merge.go", A+"delete.go", B+"path.go", B+"lexer.go", O+"onmissing.go"],
  [("entry validation while decoding", O+"overlay.go UnmarshalYAML, "+I+"yamlfile.go UnmarshalYAML"), ("length checks", A+"merge.go")])
p("C27", "Every run terminates",
  "For finite input a run always comes to an end: queues are closed after their last item on every path, no worker waits for an event that cannot happen, every loop makes progress towards its end, and recursion only descends into strictly smaller parts.",
  ["inputs", "schedules"], "every input and every schedule",
  "Non-termination cannot be observed by a terminating test and may depend on schedules.",
  [I+"execute.go", I+"yamlfile.go", O+"workstream.go", B+"lexer.go", B+"path.go", A+"merge.go", A+"delete.go", A+"format.go", A+"style.go"],
  [("queue closed after the last overlay", I+"yamlfile.go queueOverlays"), ("buffered lexer channel", B+"lexer.go lex")])
p("C28", "Only plain paths are injected, exactly as written",
  "Content is injected only for queries made of a root, child names and quoted bracket names; any other form is rejected as not usable for injection and never builds anything. For a usable path the injected structure is exactly one map level per step, with the step's names as keys, freshly created for each use, and several paths are combined by merging them.",
  ["inputs"], "every query string",
  "Every string; tests sample some.",
  [B+"path.go", B+"lexer.go"], [("path to tree", B+"path.go newPath"), ("lexer", B+"lexer.go lexSubPath")])
p("C29", "Directories expand to their YAML files, duplicates are merged",
  "A directory given as input stands for all .yaml and .yml files below it, each with the directory entry's name, overlays, documents and output path, and for nothing else. Relative paths start from the directory of the instructions file. A file listed more than once is processed once with the overlays and document entries of all its listings in order, and the last output path given for it; no listing is lost.",
  ["inputs"], "every directory tree and list of files",
  "Every tree and list; tests use one directory.",
  [I+"yamlfile.go", I+"utils.go", I+"config.go"], [("expansion", I+"yamlfile.go expandDirectories"), ("merge of duplicates", I+"yamlfile.go mergeDuplicates")])
p("C30", "Format markers are filled with the original node's data",
  "When values and comments are merged or combined, the markers for value, line comment, head comment, foot comment and key name in an overlay's scalar value, map key or comment are replaced by exactly the corresponding data the original node had before the overlay touched it (the key name is only available to scalars and keys). Content appended where there is no original has all its markers removed.",
  ["inputs"], "every text with markers, every original node",
  "Every combination of five markers, positions and originals; tests sample some.",
  [A+"format.go", A+"markers.go", A+"merge.go"], [("substitution", A+"format.go doFormat"), ("data collected before the update", A+"merge.go mergeScalar, mergeComments")])
p("C31", "All documents of an input file are read, in order",
  "Every document of an input file is read up to the end of the file and kept in its order, as an object of its own, and the same holds when the input comes from standard input. Anything else than the end of the file that stops reading is an error.",
  ["inputs", "fault_sequences"], "every number of documents, every read failure",
  "Every document count and failure position.",
  [I+"yamlfile.go", I+"utils.go", I+"config.go"], [("decode loop", I+"yamlfile.go readYamlFile"), ("input source", I+"utils.go ReadStream")])
p("C32", "Merging appends to sequences and overwrites scalars",
  "Merging a sequence into a sequence keeps all original items, unchanged and in front, and appends the overlay's items once in their order. Merging a scalar replaces the original's text and tag by the overlay's, whatever the original was, and merging never changes the overlay.",
  ["inputs"], "every pair of values",
  "Every pair of sequences and scalars.",
  [A+"merge.go"], [("append", A+"merge.go mergeArray, addNode"), ("overwrite", A+"merge.go mergeScalar")])
p("C33", "JSONPath queries select the documented nodes",
  "A query selects exactly the nodes of a document that the JSONPath expression denotes.",
  ["inputs"], "every query and document",
  "Every query and document.",
  [O+"query.go"], [("query evaluation in the yamlpath library", O+"query.go Find")])
p("C34", "Rendered output is valid YAML equal to the processed documents",
  "Parsing the output of a run gives documents equal to the processed ones, for every indent level and style.",
  ["inputs", "configurations"], "every document, indent and style",
  "Every document.",
  [I+"config.go"], [("yaml encoder", I+"config.go encodeNodes")])
p("C35", "No two input files are written to the same output file",
  "Different input files of a run always have different output files, so no output overwrites another.",
  ["inputs"], "every list of paths and output paths",
  "Every list of paths.",
  [I+"instructions.go"], [("output path computation", I+"instructions.go setOutputPath")])
p("C36", "Extended format expressions transform text as sed does",
  "A format expression attached to a marker transforms the marker's data as the documented sed command does.",
  ["inputs"], "every expression and text",
  "Every expression.",
  [A+"format.go"], [("sed engine", A+"format.go processSedCommand")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
