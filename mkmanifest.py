#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table below.
import json
T = {
 "C10": "exhaustive enumeration of identifier renamings (every slot x every name the emitted scripts or the shells use, rotations of all slots, case variants, related pairs, mangled images, permutations) over a program set, reference interpreter as model, both scripts executed (real bash, cmd.exe model)",
 "C05": "the bounded program spaces of C01-C04 and C09 enumerated exhaustively, the emitted Batch script executed by an explicit-state model of cmd.exe (phases, blocks, labels, call stack), output, status and effects compared with the Bash model's reference interpreter trace by trace",
 "C16": "exhaustive enumeration of bounded program spaces (all generators plus string contents x positions and jump placements), every emitted script checked: bash -n for Bash, the full static label/jump/routine/block graph of the script for Batch",
 "C09": "exhaustive enumeration of import graphs x file kinds, call edge sets, call positions, contents and path/alias forms, reference interpreter as model of the composition, every trace replayed on real bash",
 "C18": "exhaustive enumeration of argument vectors, value x position x form combinations, program names, pipelines, exit statuses and captures against probe programs, process model as oracle, every trace replayed on real bash and, as Batch script, in the cmd.exe model",
 "C08": "exhaustive enumeration of string values (every ASCII character alone, in pairs and in context) x origins x data paths, reference interpreter as model of output, exit status and the whole directory, every trace replayed on real bash; a part of the values (all single characters, pairs, long values) also through the emitted Batch script in an explicit-state model of cmd.exe",
 "C17": "exhaustive enumeration of file operation histories, path shapes and contents, line-store model of the file system, every trace replayed on real bash and the whole directory compared",
 "C15": "exhaustive enumeration of argument tuples of every library function over small alphabets (and every ASCII character), Go's strings package as model, every call compiled and executed on real bash",
 "C06": "exhaustive enumeration of typed positions x offered expressions x contexts and of operand/arity tables, reference type checker as model, verdict compared with the real transpiler for both targets",
 "C07": "exhaustive enumeration of block structures (definition/use/jump placement, functions, headers, modules) up to a node bound, reference scope checker as model, verdict compared with the real transpiler",
 "C11": "exhaustive enumeration of token sequences x separators and of character strings up to a length, reference tokenizer (and go/scanner) as model, compared token by token with the real lexer",
 "C12": "exhaustive enumeration of layout edits (every gap x every edit, pairs, whole-text) over a program corpus, byte equality of the emitted scripts of the real transpiler",
 "C13": "exhaustive enumeration of byte strings, token sequences, fragment x context combinations, corpus mutations and import graphs, executed on the real transpiler in watched worker processes",
 "C14": "exhaustive exploration of call histories on one transpiler object, of relocations and of map-iteration start offsets (runtime under explorer control), byte equality of emitted scripts",
 "C19": "exhaustive enumeration of option orders, repetitions, file names, prior outputs and invocation histories of the built command, directory snapshots compared with the library's output",
 "C02": "bounded exhaustive enumeration of call trees, parameter/local/global name patterns and return shapes, reference interpreter as model, every trace replayed on real bash",
 "C03": "bounded exhaustive enumeration of slice operation histories (aliasing, growth) and string operation tables, reference interpreter as model, every trace replayed on real bash",
 "C04": "bounded exhaustive enumeration of effectful operand positions and effect trees, reference interpreter as model, every trace replayed on real bash",
 "C01": "bounded exhaustive enumeration of expression and statement trees, reference interpreter as model, every trace replayed on real bash",
}
NOTE = {
 "C10": "Every enumerated renaming leaves output, status and error output unchanged on real bash and in the cmd.exe model. The dangerous names are read off the emitted scripts on every run, so they follow the code. Batch programs with program calls or files are not executed.",
 "C05": "Every enumerated program prints the same lines through the Batch converter as the language reference. cmd.exe is a model (no Windows here), calibrated on the repository's own test programs; constructs whose cmd.exe behaviour is uncertain end a trace as unsupported, which is counted, not judged.",
 "C16": "Every enumerated program's scripts are well formed in both languages: no parse errors, each jump's label defined once, in the same routine and not into another block, each called routine present. Batch rules come from the documented behaviour of cmd.exe.",
 "C09": "Every enumerated multi-file program prints what the composition of its modules prints; references over file boundaries agree with the reference checker. Cycles belong to C13.",
 "C18": "Every enumerated call hands exactly the predicted arguments, input and status over. The Batch side runs in the cmd.exe model (no real cmd.exe), with words that mean the same at every level of interpretation; five findings there are recorded. NUL is excluded.",
 "C08": "Every enumerated value arrives unchanged along every enumerated path and no file appears that the model does not predict; values within Batch scripts are run in the cmd.exe model (no files or program calls there). NUL and command output ending in two newlines are excluded.",
 "C17": "Every enumerated history leaves exactly the predicted files, output and exit status. Reading missing files, directories as targets and appending to a file without final newline are excluded.",
 "C15": "Every enumerated call returns what Go's function returns, at top level and within functions. Longer arguments rest on the small-scope assumption. NUL and negative Repeat counts are excluded.",
 "C06": "Every enumerated (position, offered expression, context) agrees with the reference checker and both targets agree. Trusts mc/ref's checker.",
 "C07": "Every program of the enumerated block structures agrees with the reference checker. Trusts mc/ref's checker.",
 "C11": "Every enumerated text has the reference token list (type, value, row, column) or error. Trusts the reference tokenizer, cross-checked with go/scanner.",
 "C12": "Every enumerated relayout gives identical bytes for both targets; longer edit combinations rest on the small-scope assumption.",
 "C13": "No enumerated input panics, dies, hangs or returns a script together with an error. Inputs beyond the bounds are not covered.",
 "C14": "All enumerated histories, locations and map orders give identical bytes. Maps with more than eight entries are explored by start offset only.",
 "C19": "All enumerated invocations leave exactly the expected files. Runs the built command in scratch directories.",
 "C02": "All call trees, name-coincidence patterns, arities and simultaneous assignments below the bounds agree with the reference interpreter. Trusts mc/ref and the local bash.",
 "C03": "All slice histories and string index/operation tables below the bounds agree with the reference interpreter. Trusts mc/ref and the local bash.",
 "C04": "All placements of effectful operands in every expression and statement position below the bounds agree with the reference interpreter. Trusts mc/ref and the local bash.",
 "C01": "All programs below the bounds (operator trees, edge-value pairs, statement trees, loop nests) agree with the reference interpreter; larger programs rest on the small-scope assumption. Trusts mc/ref and the local bash.",
}
import sys
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
                   "technique": T[k], "level": "model_checking", "level_note": NOTE[k]})
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = [{"property": p, "reason": "check under construction"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use only the exported API and the built command. run.sh builds the checker against /repo's working tree on every run."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
