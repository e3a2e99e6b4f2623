#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: the Go type checker and SSA builder, the models of library calls listed in DESIGN.md, and that the anchored exported entry points are the ones the program uses."
PS = "path sensitive dataflow over SSA (property simulation)"
CLAIMED = {
 "C06": (PS, "Every path through document query evaluation and through Overlay.Apply is enumerated up to loop widening; sufficient conditions for selecting and rejecting are checked on each. Equality itself is go-cmp's, result sets are yaml-jsonpath's."),
 "C07": (PS, "Every path through Overlay.Apply and Queries.Find; action functions are opaque (decided by C18-C21, C32)."),
 "C08": (PS + " with a decision table over all setting combinations", "Every path through Overlay.Apply without results against the table action x onMissing x default x form of query x inject path."),
 "C19": (PS + " with interval/affine index facts", "Every path through DeleteNode; the removed range is compared symbolically for every node kind and index parity."),
 "C20": (PS + " with affine and overflow facts", "Every path through CombineNode for all pairs of scalar tags; parsing is strconv's."),
}
CLAIMED.update({
 "C17": (PS, "Every path through merging, combining and replacing two nodes; the comments of the nodes themselves and of the keys below them are varied in separate passes, each over all combinations of present and absent comments."),
 "C18": (PS + " with affine index facts", "Every path through merging a map into a node; recursive merges of entries are opaque (the property is inductive over the nesting)."),
 "C21": (PS, "Every path through ReplaceNode; deep copies are reprint's."),
 "C30": (PS + " and abstract evaluation of the marker table", "Every path through merging, combining and replacing; the markers' regular expression and the table from markers to data are extracted and compared symbolically; format expressions are go-sed's."),
 "C32": (PS, "Every path through merging a sequence or scalar into a node of any kind; deep copies are reprint's."),
})
CLAIMED.update({
 "C01": ("points-to analysis (inclusion based, context and field sensitive) with an effect analysis of the code run per file", "Every store, library call and builtin write reachable from the goroutines started per file and from the loops over files is resolved to the objects it may write; library code is represented by models."),
 "C02": ("points-to analysis (inclusion based, context and field sensitive): disjointness of overlay and document heaps", "Every store that may make a node reachable from a document is resolved; deep copies are reprint's (modelled as fresh)."),
})
CLAIMED.update({
 "C03": (PS + " with list terms and an array provenance analysis", "Every path of GetInstructions; reading of the instructions and input files is opaque."),
 "C04": (PS + " of the whole run, goroutines expanded where they are started and channels as queues", "Every path of Execute; what applying one overlay does is opaque (C06-C08), reading the instructions is C03, C25, C29, C31."),
 "C05": (PS + " of the whole run, goroutines expanded where they are started and channels as queues", "Every path of Execute and of the two index checks."),
 "C10": (PS + " of the whole run, goroutines expanded where they are started and channels as queues", "Every path of Execute; rendering and writing one file is opaque (C12, C13)."),
 "C16": (PS + " and inductive check of the recursive comment remover", "Every path of GetInstructions and of the remover; every store to a comment field of the program is classified."),
})
CLAIMED.update({
 "C11": (PS + " with a whole-program effect scan", "Every call in the program that may change the file system is classified; the ones that write output are followed on every path. Commands that a user writes into a sed format expression are outside the program."),
 "C12": (PS + " with path terms and a loop invariant for the common prefix", "Every path of GetInstructions, GetCommonPrefix and the output function; path functions are the standard library's."),
 "C13": (PS + " of the output buffer, encoder and file", "Every path of the output function; the encoder's rendering of one document is yaml.v3's."),
 "C14": (PS + " with a whole-program scan for standard output", "Every reference to standard output and every print in the program is classified; the ones in the output function are followed on every path."),
})
CLAIMED.update({
 "C09": (PS + " of every function that calls anything fallible, with an error typestate", "Every call in the program whose last result is an error, on every path; what the libraries report is theirs."),
})
CLAIMED.update({
 "C24": (PS + " with accumulator inference, and extraction of constant tables", "Every path of the output functions, of the style setter (inductive over the nesting) and of the name parser; how the renderer shows a style is yaml.v3's."),
})
CLAIMED.update({
 "C23": (PS + " with per name case analysis", "Every path of the methods that read and write actions, the latter for each constant; how YAML scalars become text is yaml.v3's."),
})
CLAIMED.update({
 "C31": (PS + " with typestate of decoder and documents", "Every path of the functions that read documents and of those that collect input files; what one decode consumes is yaml.v3's."),
})
CLAIMED.update({
 "C29": (PS + " over lists that change while they are traversed", "Every path of the functions that walk directories, expand and merge entries; which files a walk visits is filepath.Walk's, what is a directory os.Stat's."),
})
CLAIMED.update({
 "C25": (PS + " with provenance of readers, buffers, templates and decoded nodes", "Every path of the functions that read values, merge several nodes, render and decode instructions; the meaning of templates is text/template's and sprig's."),
})
CLAIMED.update({
 "C15": ("Order-insensitivity analysis of map iterations and taint analysis of nondeterministic sources over SSA, points-to for channels and shared objects, property simulation for the schedule", "Every function of the packages that read, change and write documents; texts of log messages and which of several errors is reported are left out, as are the libraries."),
})
CLAIMED.update({
 "C22": (PS + " of the construction of the command and of reading the configuration, with constant tables, plus a scan of all uses of settings", "Every path of commands.New, of the functions registered to read the configuration, set up the log and make encoders; every call that reads or overrides a setting; precedence itself is viper's, pflag's and cobra's."),
})
CLAIMED.update({
 "C28": (PS + " of the query lexer and the path builders: typed lexemes, captured values, evaluation of the returned closures, and step tables of the loops over characters", "Every path of each lexer state, the step function and its builders, NewPath, NewPaths and BuildPaths; the step tables of splitting, unquoting and unescaping names are judged where the loops have the known form (the evidence notes where not)."),
})
CLAIMED.update({
 "C26": ("interval and affine bounds analysis over SSA by property simulation, with preconditions inferred per function and checked at every call, loop invariants proposed from failed obligations and kept only when inductive, and a typestate of decoded lists (searched for empty entries before success)", "Every index, slice, map write, dereference of what is known or likely to be missing, panic, negative length, division, type assertion, compiled constant expression, query of a possibly emptied document and decoded list in reachable functions. The state functions of the two query scanners (positions in the query text) are outside, as are crashes inside of libraries other than the ones named."),
 "C27": ("termination analysis: ranking of loop counters along every path around each loop (property simulation), size-change relations of the arguments of recursive calls, typestate of queues (open, room, closed exactly once, who takes until when), search of cycles of decoding hooks and of lexer states", "Every loop (those of simple shape by syntax, the others by their paths), every cycle of calls, every made channel, every goroutine that closes one, every hook that decodes, every lexer state; loops of unknown shape whose state changes in ways that cannot be measured are only noted; libraries, file systems and readers that never end are outside."),
})
NA = {
 "C33": "Which nodes a JSONPath expression denotes is decided inside the yaml-jsonpath library, over run-time documents; no source in this repository whose shape could settle it.",
 "C34": "Equality of parsed output and processed documents is a round trip through the yaml.v3 encoder over run-time values; static analysis of this repository cannot bound it (what this repository adds, rendering every document once with the requested styles, is C13 and C24).",
 "C35": "It does not hold for an output path that is a directory: files of different directories with equal base names get the same output file, as documented behaviour of that setting; no small repair exists, and whether two run-time paths collide is not visible in the source.",
 "C36": "The meaning of a sed expression is implemented by an external library over run-time text.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "other", "level_note": n + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
