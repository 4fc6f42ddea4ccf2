import json
S="shogi_core/src/"
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=obs or [],hook_needed=None))
ps=[]
ps.append(P("C01","No undefined behaviour is reachable from the public API",
"No call sequence through safe public functions, and no call to an unsafe public function inside its documented precondition, makes the library execute undefined behaviour: an out-of-bounds or dangling access, an 'unreachable' path, an invalid enum/bool/non-zero/UTF-8 value, or an arithmetic precondition violated under an unchecked operation. This holds in every feature set and with or without debug assertions.",
["inputs","configurations"],"every public function, every argument value its types admit (and, for unsafe ones, every value the Safety section admits), every build configuration",
"Tests run a handful of values; in release builds an out-of-contract unchecked operation is silently miscompiled instead of failing a test.",
[S+f for f in ("square.rs","piece.rs","piece_kind.rs","color.rs","bitboard.rs","hand.rs","mv.rs","position.rs","common.rs","game_resolution.rs","illegal_move_kind.rs")],
[("unchecked indexing and conversions guarded by type invariants","get_unchecked / from_u8_unchecked / unreachable_unchecked / transmute / from_utf8_unchecked sites"),("Safety sections of the unsafe functions",S+"*.rs")]))
ps.append(P("C02","Functions that do not allocate never panic",
"Every public function that does not allocate memory returns normally for every valid input: it ends, and no arithmetic overflow check, bounds check, assertion, unwrap or explicit panic can fire, in builds with and without overflow checks and debug assertions. Allocating functions can only fail through allocation itself.",
["inputs","configurations"],"every public function, every valid argument, debug and release builds",
"A test observes the absence of a panic only for the inputs it feeds; the README promises it for all of them.",
[S+f for f in ("square.rs","bitboard.rs","position.rs","common.rs","hand.rs","mv.rs","piece.rs","piece_kind.rs","color.rs")],
[("wrapping arithmetic and range guards","all modules"),("README 'Panicking' section","shogi_core/README.md")]))
ps.append(P("C03","Public operations only produce valid representations",
"Whatever public operations produced it, a square's representation is in 1..=81, a piece's in 1..=14 or 17..=30, a compact move encodes a real normal or drop move, an optional value of the C-facing types is none or a valid value, a set of squares contains no bit outside the 81 squares, and a position is made only of such values. No public function lets a caller write those representations directly.",
["inputs","histories"],"every public function applied to arguments that are themselves valid",
"Invalid values look fine until a later unchecked operation relies on them; the tests compare a few results for equality only.",
[S+f for f in ("square.rs","piece.rs","mv.rs","bitboard.rs","hand.rs","position.rs","game_resolution.rs","illegal_move_kind.rs","piece_kind.rs")],
[("private representation fields","struct definitions"),("masking in complement and shifts",S+"bitboard.rs")]))
ps.append(P("C04","Square coordinates form one consistent geometry",
"A square is built exactly for files 1..9 and ranks 1..9 (and indices 1..81), its index is 9*file+rank-9, and file, rank, array index, conversions from numbers, the side-relative coordinates, the 180-degree flip, shifting by any pair of deltas, the enumeration of all squares and the named constants all agree with that. Shifting yields nothing exactly when the target is off the board, for every 8-bit delta.",
["inputs"],"all 81 squares, all 8-bit file/rank/index/delta arguments, both colours",
"The exhaustive-looking shift test stops before delta 127, and constants and relative constructors are sampled.",
[S+"square.rs","shogi_core/build.rs"],[("index arithmetic 9*file+rank-9",S+"square.rs")]))
ps.append(P("C05","Pieces, kinds and colours convert losslessly; promotion is exact",
"A piece is exactly a kind plus a colour and both are recovered from it; promotion and un-promotion are mutually inverse partial maps between pawn, lance, knight, silver, bishop, rook and their promoted forms, undefined elsewhere, and keep the colour. Numeric conversions accept exactly the documented codes, array indices are distinct and in range, enumerations list every value exactly once (kinds and colours in ascending order), flipping a colour is an involution, and the named piece constants mean what they say.",
["inputs"],"all 14 kinds, both colours, all 28 pieces, all 8-bit codes",
"No test covers promote/unpromote at all; from_u8 is only tested on valid codes.",
[S+"piece.rs",S+"piece_kind.rs",S+"color.rs","shogi_core/build.rs"],[("promotion tables",S+"piece_kind.rs"),("colour bit 16 in the piece code",S+"piece.rs")]))
ps.append(P("C06","A hand is a multiset of the seven droppable kinds",
"A new hand is empty; adding a droppable kind raises exactly that kind's count by one (255 wraps to 0) and removing lowers it by one, leaving every other kind's count alone; adding or removing any other kind, or removing one that is absent, is refused and changes nothing, also through the C functions. Two hands are equal exactly when all seven counts are equal, and the seven droppable kinds are pawn, lance, knight, silver, gold, bishop, rook.",
["inputs","histories"],"all 256^7 hands, all 14 kinds",
"Doc tests touch pawn and bishop at small counts only.",
[S+"hand.rs"],[("count array indexed by kind",S+"hand.rs")],[("counts","number of pieces of each droppable kind","Hand")]))
ps.append(P("C07","The two-byte move encoding is lossless and matches its layout",
"Encoding any move in two bytes and decoding it gives the same move; distinct moves have distinct non-zero encodings, laid out as promote*32768+from*256+to for normal moves and piece*256+128+to for drops. Origin, destination, promotion and drop queries give the same answers on a move and on its encoding, and the direct constructors agree with the conversion.",
["inputs"],"all 81*81*2 normal moves and 28*81 drop moves",
"Round trips are sampled from Rust, but the numeric layout the C side relies on and the queries on the unpacked form are not checked.",
[S+"mv.rs"],[("bit fields of the compact form",S+"mv.rs")]))
ps.append(P("C08","Square sets obey set algebra",
"Intersection, union, symmetric difference, difference and complement of square sets contain exactly the squares set theory says, in every operator form (by value, by reference, assigning, with a single square, const and C functions); membership, size and emptiness report the set's actual contents, and two sets are equal exactly when they contain the same squares. The empty and single-square sets are what they say.",
["inputs"],"all 2^81 sets (pairs of sets) and all squares",
"2^81 inputs; the tests use a few small sets and never touch most operator forms.",
[S+"bitboard.rs"],[("two-word bit layout",S+"bitboard.rs")]))
ps.append(P("C09","Iterating a square set yields each member exactly once",
"Taking a square from a set returns nothing exactly when the set is empty; otherwise it returns a member and leaves exactly the other members. Iteration over a set is repeated taking, so it yields each member once and ends, and its size hints bound the number of remaining squares.",
["inputs","histories"],"all 2^81 sets",
"Tests pop from sets of one and two squares only.",
[S+"bitboard.rs"],[("lowest-set-bit extraction over the joined words",S+"bitboard.rs")]))
ps.append(P("C10","Moving, flipping and slicing square sets respects board geometry",
"Shifting a set by 0 to 9 steps in any of the four directions moves every member that many squares and drops exactly those that leave the board; nothing wraps to another file or appears off the board. Flipping maps every member to its 180-degree image, a file pattern read from or placed on a file names exactly that file's ranks.",
["inputs"],"all 2^81 sets, deltas 0..=9, four directions, nine files, 512 patterns",
"The left/right shift tests compare a result with itself for most deltas, so wrong bits at file borders go unseen.",
[S+"bitboard.rs"],[("word shifts and masks across the 63-bit boundary",S+"bitboard.rs")]))
ps.append(P("C11","Raw and byte-swapped set forms convert back exactly",
"Converting a square set to its 128-bit form and back, or reversing its bytes and reversing them again, gives the same set; reversing bytes reverses the 16 bytes of the 128-bit form; and the bitwise operations on the byte-swapped form commute with the swap.",
["inputs"],"all 2^81 sets (and pairs of sets)",
"No test mentions the byte-swapped form or the 128-bit form at all.",
[S+"bitboard.rs"],[("word order in swap_bytes and to_u128",S+"bitboard.rs")]))
ps.append(P("C12","All board observers of a position agree",
"At every square of every position reachable through public constructors and mutators (including placing and removing arbitrary pieces), the piece lookup, the per-colour, per-kind and per-piece square sets, the occupied and vacant sets all describe the same board. The king lookup of a colour gives nothing exactly when that colour has no king on the board, and otherwise a square holding such a king. The side to move, move number, hands and last move read back exactly as they were last set or left by the last accepted move; a move number of 0 is refused.",
["histories","inputs"],"every finite sequence of public mutations from every public constructor",
"The redundant state drifts only after particular sequences (placing over a piece, removing a king); the tests replay four moves.",
[S+"position.rs"],[("board, player/kind bitboards and king squares updated together",S+"position.rs piece_set"),("const start position bitboards",S+"position.rs startpos")],
[("board","piece on each square","PartialPosition"),("player_bb/piece_bb/king_square","redundant indexes of the board","PartialPosition")]))
ps.append(P("C13","Making a move has exactly the documented effect",
"A normal move is accepted exactly when the mover's own piece is on the origin, the promotion (if asked) exists, and the destination is empty or holds an enemy piece other than a king; it moves (and promotes) the piece, and a captured piece goes unpromoted to the mover's hand. A drop is accepted exactly when the mover owns at least one such unpromoted droppable piece and the square is empty; it moves one from hand to board. Every accepted move also passes the turn, adds one to the move number (modulo 2^16), becomes the last move, and changes nothing else; both Rust and C entry points behave so.",
["inputs","histories"],"every position, every representable move, four entry points",
"The tests play four opening moves; captures of promoted pieces, drops, refusals and counters are unobserved.",
[S+"position.rs",S+"hand.rs",S+"piece_kind.rs"],[("make_move",S+"position.rs")],[("side/ply/hands/board/last_move","position contents","PartialPosition")]))
ps.append(P("C14","A refused move changes nothing",
"Whenever making a move is refused, through any of the Rust or C entry points, the position (board, square sets, hands, king squares, side, move number, last move, recorded history) is exactly as before.",
["inputs","histories"],"every position and every representable move that is refused",
"Refusals are never tested; a partial update before a late refusal is invisible to accepting tests.",
[S+"position.rs"],[("all checks precede the first write",S+"position.rs make_move")]))
ps.append(P("C15","Accepted moves conserve material",
"An accepted move never creates or destroys material: for each of pawn, lance, knight, silver, gold, bishop, rook and king, the number on the board (counting promoted pieces as their unpromoted kind) plus the number in both hands is unchanged, as long as no hand count overflows 255. The number of kings of each colour on the board never changes.",
["inputs","histories"],"every position and every accepted move",
"Needs all captures and drops over all piece kinds; the tests capture two bishops.",
[S+"position.rs",S+"hand.rs"],[("capture to hand with unpromotion; drop from hand",S+"position.rs make_move")]))
ps.append(P("C16","A full position's history replays to its current position",
"A full position keeps its initial position unchanged for ever, and its recorded moves are exactly the accepted moves in order, so replaying them from the initial position gives the current position (unless the board or hands were edited directly). A new full position starts with equal initial and current positions and no moves, and its observers report the current position's values.",
["histories"],"every finite sequence of public operations on a full position",
"Tests never look at the history after a refused move or compare it with the current position.",
[S+"position.rs"],[("inner/initial/moves updated together",S+"position.rs Position::make_move")],[("initial, inner, moves","history","Position")]))
ps.append(P("C17","Starting and empty positions are the standard ones",
"The starting position has the forty pieces of shogi on their standard squares, empty hands, black to move, move number 1, no last move, and square sets and king squares to match; it is also the default position and what the C constructors produce. The empty position has no pieces and otherwise the same values.",
["inputs"],"all 81 squares and all components of the two constructors' results",
"Only the text form and one rook are tested; wrong redundant sets or hands would not show.",
[S+"position.rs"],[("startpos, empty, const bitboards",S+"position.rs")]))
ps.append(P("C18","Game records change only their resolution on request",
"Recording a result makes exactly that result readable, clearing it makes none readable, and neither changes the position; reading a result or the position changes nothing. A default game record has the default position and no result.",
["inputs","histories"],"both record types, all five results, all sequences of set/clear/read",
"No test touches game records.",
[S+"position.rs",S+"game_resolution.rs"],[("resolve/unresolve/resolution",S+"position.rs Game, PartialGame")]))
ps.append(P("C19","The SFEN text of a position is exact",
"For every position, the text form lists ranks from the first to the ninth and files from the ninth to the first with maximal decimal runs for empty squares and '/' between ranks, then the side to move, the hands (or '-'), and the move number in decimal, separated by single spaces, with nothing else. All entry points that produce it give the same text.",
["inputs"],"all boards, hands (0..=255 each), both sides, all 16-bit move numbers",
"The tests compare three strings; run-length state, promoted pieces, multi-digit hands and counters are combinations they do not reach.",
[S+"position.rs",S+"hand.rs",S+"common.rs",S+"piece.rs"],[("to_sfen run-length writer",S+"position.rs"),("decimal writers",S+"common.rs")]))
ps.append(P("C20","USI text of squares, pieces, moves and hands is exact",
"Squares are written as file digit and rank letter, kinds and pieces as their USI letter (lower case for white) with '+' for promoted ones, moves as origin-destination with '+' for promotion or as upper-case kind, '*' and destination for drops, colours as b or w, and a pair of hands in the order RBGSNLPrbgsnlp with counts above one written in decimal before the letter, or '-' if both are empty. The packed move form writes the same text as the move.",
["inputs"],"all values of each type (hands: 256^14)",
"Hands and moves are tested on a handful of values.",
[S+f for f in ("square.rs","piece.rs","piece_kind.rs","mv.rs","hand.rs","color.rs","common.rs")],[("to_usi implementations and symbol tables","ToUsi impls")]))
ps.append(P("C21","Text output reports every sink failure and stops there",
"Writing any value's text form succeeds exactly when every write to the caller's sink succeeded. After the first failed write nothing more is written and the failure is returned.",
["fault_sequences","inputs"],"every write position at which the sink may fail, every value, every text-producing function",
"All tests write into strings, which never fail.",
[S+f for f in ("to_usi.rs","common.rs","position.rs","hand.rs","mv.rs","square.rs","piece.rs","piece_kind.rs")],[("? on every write","write_ascii_byte, write_u8, write_u16, to_usi, to_sfen")]))
ps.append(P("C22","The C text writer emits the SFEN text, one NUL, within its stated bound",
"The C text writers store exactly the bytes of the position's text form followed by one terminating NUL, at consecutive addresses starting at the given one, and touch nothing else. The total never exceeds the number of bytes their documentation tells the caller to provide.",
["inputs"],"every position, including ones composed by direct piece placement",
"The C test checks the starting position in a 200-byte buffer, so neither the bound nor the terminator is exercised.",
[S+"position.rs","include/shogi_core.h"],[("pointer-bumping sink",S+"position.rs to_sfen_c")]))
ps.append(P("C23","Equality, ordering and hashing are coherent",
"For every comparable type of the crate, equality holds exactly when the values have the same content, the ordering is total, antisymmetric, transitive and agrees with equality, the partial and total orderings agree, and equal values feed a hasher identically (positions: with at most one king per side). Small code types order by their numeric code.",
["inputs"],"all pairs (and triples) of values of each type",
"No test compares or hashes values under the ord and hash features.",
[S+"annotated_derive.rs",S+"mv.rs",S+"hand.rs",S+"position.rs"],[("comparison/hash macros",S+"annotated_derive.rs"),("manual impls for moves and hands",S+"mv.rs, "+S+"hand.rs")]))
ps.append(P("C24","Every exported type keeps its promised traits and layout",
"Every exported data type can be cloned, debug-printed and compared for equality; with the respective features enabled every one is also ordered and hashable; every one can be sent and shared between threads; the small value types are freely copyable. Optional colours, squares, kinds, pieces, results and positions (and the unit-or-illegal-move result) take no more space than the plain value.",
["configurations","programs"],"every exported type, every feature combination",
"Tests name a few types; a lost impl only breaks downstream programs.",
["shogi_core/src/lib.rs",S+"annotated_derive.rs","shogi_core/README.md"],[("derives and impl macros","all modules")]))
ps.append(P("C25","Default legality operations respect status and verdict",
"With any checker implementation, the provided operations treat every move as illegal when the game is not in progress (reporting 'game finished', false, or no moves), otherwise give exactly the checker's verdict for the current position; the provided move maker plays the move exactly when it is legal and otherwise returns the verdict without touching the position.",
["programs","inputs"],"every implementor of the checker trait, every status and verdict",
"The crate has no implementor, so no test runs these functions.",
[S+"legality.rs"],[("provided methods of the checker trait",S+"legality.rs")]))
ps.append(P("C26","The C header matches the exported binary interface",
"Every function the library exports to C is declared in the header with the same name and an ABI-compatible signature, every declared function is exported (by a library built with the alloc feature), and the header's constants, enumerators, type widths and structure layouts equal the library's, so that every declared function can be called from C.",
["programs","configurations"],"every exported symbol, every header declaration, with and without the alloc and experimental features",
"The C test calls four functions; a mismatch elsewhere compiles and corrupts silently.",
["include/shogi_core.h"]+[S+f for f in ("bitboard.rs","square.rs","piece.rs","piece_kind.rs","mv.rs","hand.rs","position.rs","color.rs","game_resolution.rs","illegal_move_kind.rs")],[("#[no_mangle]/#[export_name] items and repr attributes","all modules"),("generated header","include/shogi_core.h")]))
ps.append(P("C27","Each C function does what its Rust counterpart does",
"Calling the library through a C function has the same result and the same effect on its arguments as calling the corresponding Rust function, with optional results encoded as 0 for none and the value's code otherwise and success reported as true.",
["inputs"],"every exported function with a distinct Rust counterpart, every valid argument",
"The wrappers are separate code that no Rust test calls.",
[S+f for f in ("bitboard.rs","square.rs","piece.rs","piece_kind.rs","mv.rs","hand.rs","position.rs")],[("C interface wrappers","'C interface of/to' functions")]))
ps.append(P("C28","C-facing optional values convert losslessly",
"Converting an optional square, piece, kind, compact move, game result or illegal-move verdict to its C-facing form and back gives the same value; none (or success) is 0 and anything else is the value's own code; the default C-facing value is none.",
["inputs"],"all values of the six bridging types",
"Only defaults and one of the six types are tested.",
[S+f for f in ("square.rs","piece.rs","piece_kind.rs","mv.rs","game_resolution.rs","illegal_move_kind.rs")],[("From impls of the Option* types","c_compat types")]))
ps.append(P("C29","The freestanding allocator hands out valid, disjoint memory",
"In the C library without the standard library, every successful allocation is aligned as requested, lies entirely inside the arena and overlaps no other allocation, under any interleaving of threads; a request that does not fit or whose alignment is unsupported gets null and leaves the arena as it was, a supported request that fits is not refused, and freeing a block never makes memory of another live block available again.",
["histories","schedules","inputs"],"all sequences and interleavings of allocation requests with any size and alignment",
"One C test makes one allocation; alignment and concurrent exhaustion are untested.",
["shogi_core_c/src/no_std.rs"],[("atomic bump pointer",  "shogi_core_c/src/no_std.rs simple_alloc")],[("remaining","free bytes at the bottom of the arena","SimpleAllocator")]))
ps.append(P("C30","Results depend only on arguments",
"Library functions keep no hidden state: the same arguments always give the same result in any order and on any thread, functions that take a shared reference never modify what it refers to, and nothing is read from or written to the environment.",
["histories","schedules"],"every public function, every call order and thread interleaving",
"A hidden counter or cache behaves well in short single-threaded tests.",
["shogi_core/src/lib.rs","shogi_core_c/src/lib.rs"],[("no statics, no interior mutability, shared references only","whole crate")]))
ps.append(P("C31","The core is free of std and, without the alloc feature, of allocation",
"The library refers to nothing of the standard library beyond core and alloc; without the alloc feature it needs no allocator, and with it only the functions documented to allocate (owned text, full positions and games, move lists) can reach the allocator. Every combination of features compiles.",
["configurations","programs"],"all feature combinations, every public function",
"Tests run with all features on a hosted target, where std and an allocator are always there.",
["shogi_core/src/lib.rs","shogi_core/Cargo.toml","shogi_core_c/src/lib.rs"],[("no_std attribute, alloc feature gates","shogi_core/src/lib.rs")]))
ps.append(P("C32","The C library stays small and free of formatting and panic code",
"The size-optimised C library is at most 40 KiB and contains no bounds-check panic, integer-formatting or character-writing symbols.",
["configurations"],"the release build of the C library",
"A property of the code generator's output, checked by a CI step and not by tests.",
[".github/workflows/c-bindings.yml"],[("cdylib size profile","Cargo.toml")]))
ps.append(P("C33","The freestanding memory functions obey the C standard",
"In the C library without the standard library, memcpy copies exactly the first n bytes of the source and returns the destination, memset and __bzero set exactly n bytes to the low byte of the value or to zero (memset returns its destination), and memcmp gives the sign of the first differing pair of bytes compared as unsigned values (0 if there is none); none of them reads or writes anything beyond n bytes, panics or calls itself without end, whatever the lengths, contents and alignments.",
["inputs"],"all lengths and contents",
"The compiler emits calls of these functions behind the source's back and no test calls them: on most build machines the system's own versions are linked instead.",
["shogi_core_c/src/no_std.rs"],[("replacements for libc's functions","shogi_core_c/src/no_std.rs")]))
ps.append(P("C34","Copies are faithful and independent",
"Cloning any value of the crate (also into an existing value) gives a value with exactly the original's content - for positions and game records the initial and current positions, the recorded moves, the side, move number, hands, last move and the recorded result - leaves the original as it was, and shares no memory with it, so that changing one never shows in the other.",
["inputs","histories"],"every value of every exported type, every later change of either copy",
"Tests copy a few fresh values and rarely look at the copy's less used parts afterwards.",
[S+f for f in ("position.rs","game.rs","bitboard.rs","hand.rs","mv.rs","square.rs","piece.rs")],[("Clone impls of all exported types","shogi_core/src")]))
ps.append(P("C35","Memory is released exactly once",
"Whatever a public function allocates is handed to its caller or released before it returns, also when it refuses, fails or ends early; values given away are kept or released; dropping a value releases all it owns, and Position_destruct releases a position obtained from Position_startpos together with its recorded moves. Nothing leaks, is released twice or is used afterwards.",
["inputs","histories"],"every public function and argument, every exit path",
"A leak changes no result a test compares; only a long-running user notices.",
[S+f for f in ("position.rs","legality.rs","to_usi.rs","game.rs")],[("Position_startpos / Position_destruct","shogi_core/src/position.rs"),("owned text, move lists, histories","shogi_core/src")]))
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+"\n")
