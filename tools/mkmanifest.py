"""Writes MANIFEST.json from the list of checks below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked MIR over finite symbolic domains"
T = {
 "C01": AI + ": every access, cast, unchecked operation and value validity in every public function",
 "C02": AI + ": reachability of panics from every public function",
 "C03": AI + ": representation invariant of every result, plus a visibility and mutable-reference rule over the public interface",
 "C04": AI + " against the square geometry; evaluation of constants",
 "C05": AI + " against the piece code tables; evaluation of constants",
 "C06": AI + " of hand updates against a multiset",
 "C07": AI + " of the move coding against its layout; injectivity over all moves",
 "C08": AI + " of square sets as 81 symbolic membership bits against set algebra",
 "C09": AI + " of taking and iterating squares over symbolic sets",
 "C10": AI + " of shifts, flips and file slices, bit by bit against board geometry",
 "C11": AI + " of set conversions, bit by bit",
 "C12": AI + " of observers and mutators: the redundant board state is an inductive invariant",
 "C13": AI + " of move making per move against the rule table",
 "C14": AI + " of move making: refused moves are effect-free",
 "C15": AI + " of move making: conservation of pieces",
 "C16": AI + " of full positions: replay relation between initial position, moves and current position",
 "C17": AI + " of the start position and constructors (constant evaluation)",
 "C18": AI + " of the game types: only the resolution changes, and only on request",
 "C19": AI + " of text output into a modelled sink against the position grammar",
 "C20": AI + " of text output of squares, pieces, moves and hands against the USI grammar",
 "C21": AI + " of text output into sinks that fail at any write",
 "C22": AI + " of the C text writer: trace of writes, terminator and stated bound",
 "C23": AI + " of eq, cmp and hash as relations over content",
 "C24": "trait-selection and layout queries over the type-checked program",
 "C25": AI + " of the provided trait methods against their definition through the required ones",
 "C26": "comparison of the type-checked program's exported ABI with the header's clang AST",
 "C27": AI + ": differential analysis of every C function with its Rust counterpart",
 "C28": AI + " of C-facing option types against the Rust option types",
 "C29": "symbolic obligations over the allocator's MIR: atomic read-modify-write discipline, bounds and alignment terms",
 "C30": "effect rule over all bodies (statics, thread locals, foreign calls, assembly, interior mutability) and " + AI + " with read-only shared arguments",
 "C33": AI + " with symbolic memory contents at bounded lengths, and a rule against block operations that compile to a call of the function itself",
 "C35": AI + " of every public function and of the drop glue of every exported type; reachability of heap blocks at each return",
 "C34": AI + " of every Clone implementation; a rule against shared storage in the exported types",
 "C31": "crate-reference and call-graph reachability analysis, type checking of every feature combination",
}
NOTE_AI = "Sound for the modelled MIR over all argument values of the analysed cases (sets as free bits, positions with symbolic content around the touched squares); assumes rustc's MIR, x86_64, and the specification written in sgc/src. Paths the analyser cannot follow are printed as UNDECIDED and counted, never as held."
SUB = " The quick run analyses a spread-out subset of the moves, the thorough run all of them."
NOTES = {k: NOTE_AI + SUB for k in ("C01", "C02", "C03", "C12", "C13", "C14", "C15", "C16", "C25", "C27", "C30")}
NOTES["C24"] = "Exact answers of the compiler's trait solver and layout computation for every reachable type in every analysed feature set."
NOTES["C26"] = "Exact comparison of names, parameter and result representations, constants, enumerators and field offsets; assumes clang's reading of the header."
NOTES["C29"] = "Obligations for any size, alignment and counter value, hence for any interleaving as each allocation is one atomic update; assumes GlobalAlloc's contract on layouts."
NOTES["C33"] = "Exact over all byte contents (memcmp beyond a few bytes: over representative pairs of bytes) for every length up to 260 (thorough 1040), around powers of two and around the constants of the code; longer lengths are not covered."
NOTES["C31"] = "Compiler-checked for every feature combination; reachability over the static call graph (generic calls resolved by trait)."
BUILT = [l.split('"')[0] for l in []]
NA = {
 "C32": "Size and symbol content of the optimised library are decided by the code generator and linker, not by the source; there is no sound static argument from the source for what LLVM keeps.",
}
claimed = os.environ.get("CLAIM", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C33 C34 C35").split()
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
     "checks": [{"property": p, "quick_cmd": f"python3 /verif/check.py {p} quick", "thorough_cmd": f"python3 /verif/check.py {p} thorough", "technique": T[p], "level": "other", "level_note": NOTES.get(p, NOTE_AI)} for p in ids if p in claimed],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in ids if p not in claimed]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
