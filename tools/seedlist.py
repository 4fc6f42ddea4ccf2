P = "shogi_core/src/"
S("drop-refused-loses-piece", "C14", [(P+"position.rs", """                if self.piece_at(to).is_some() {
                    return None;
                }
                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed(piece.piece_kind())?;
""", """                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed(piece.piece_kind())?;
                if self.piece_at(to).is_some() {
                    return None;
                }
""")], "a drop of a held piece on an occupied square", "the refused drop has already taken the piece from the hand", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let h = p.hand_of_a_player_mut(Color::Black);
    *h = h.added(PieceKind::Silver).unwrap();
    let q = p.clone();
    assert_eq!(p.make_move(Move::Drop { piece: Piece::B_S, to: Square::SQ_1A }), None);
    assert_eq!(p, q);
}
""")
S("capture-before-promotion-check", "C14", [(P+"position.rs", """                let target_piece = if promote { piece.promote()? } else { piece };
                if let Some(enemy)""", """                if let Some(enemy)"""), (P+"position.rs", """                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));""", """                let target_piece = if promote { piece.promote()? } else { piece };
                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));""")],
"a promoting capture by a piece that cannot promote", "the refused move has already added the captured piece to the hand", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_5C, Some(Piece::B_G));
    let q = p.clone();
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_5C, to: Square::SQ_5A, promote: true }), None);
    p.piece_set(Square::SQ_5B, Some(Piece::W_S));
    let mut q = q; q.piece_set(Square::SQ_5B, Some(Piece::W_S));
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_5C, to: Square::SQ_5B, promote: true }), None);
    assert_eq!(p, q);
}
""")
S("ply-saturates", "C13", [(P+"position.rs", "self.ply = self.ply.wrapping_add(1);", "self.ply = self.ply.saturating_add(1);")],
"a move number of 65535", "the move number stays instead of advancing to 0", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    assert_eq!(p.ply(), 0);
}
""")
S("ply-overflows", "C02", [(P+"position.rs", "self.ply = self.ply.wrapping_add(1);", "self.ply += 1;")],
"a move number of 65535 in a build with overflow checks", "making a move panics", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
}
""")
S("captured-dragon-kept", "C15", [(P+"position.rs", """                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {
                        piece_kind
                    } else {
                        obtaining
                    };""", """                    let unpromoted = match obtaining {
                        PieceKind::ProRook => PieceKind::Bishop,
                        _ => obtaining.unpromote().unwrap_or(obtaining),
                    };""")], "the capture of a promoted rook or bishop", "a captured promoted rook goes to hand as a bishop", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5C, Some(Piece::B_G));
    p.piece_set(Square::SQ_5B, Some(Piece::W_PR));
    p.make_move(Move::Normal { from: Square::SQ_5C, to: Square::SQ_5B, promote: false }).unwrap();
    assert_eq!(p.hand(Piece::B_R), Some(1));
}
""")
S("kind-set-not-cleared", "C12", [(P+"position.rs", "        let index = square.index() - 1;\n        let old = self.piece_at(square);", "        let index = square.index() - 1;\n        let placed = piece;\n        let old = self.piece_at(square);"), (P+"position.rs", """            self.piece_bb[piece_kind.array_index()] =
                single.andnot(self.piece_bb[piece_kind.array_index()]);
""", """            if placed.map_or(true, |p| p.color() == self.side) {
                self.piece_bb[piece_kind.array_index()] =
                    single.andnot(self.piece_bb[piece_kind.array_index()]);
            }
""")], "placing a piece of the side not to move over a piece of another kind", "the square stays in the old kind's set", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_1A, Some(Piece::W_PS));
    assert!(!p.piece_kind_bitboard(PieceKind::Lance).contains(Square::SQ_1A));
}
""")
S("not-wrong-mask", "C03", [(P+"bitboard.rs", "Self([!self.0[0] & ((1 << 63) - 1), !self.0[1] & ((1 << 18) - 1)])", "Self([!self.0[0] & ((1 << 63) - 1), !self.0[1] & if self.0[0] & 1 == 0 { (1 << 18) - 1 } else { (1 << 19) - 1 }])")],
"the complement of a set with 1a", "the complement holds a bit outside the board", """
use shogi_core::*;
fn main() {
    let s = !Bitboard::single(Square::SQ_1A);
    assert_eq!(s.to_u128() >> 82, 0);
    assert_eq!(s.count(), 80);
}
""")
S("refused-move-recorded", "C16", [(P+"position.rs", """        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())""", """        let made = self.inner.make_move(mv);
        if made.is_some() || mv.is_drop() && self.inner.piece_at(mv.to()).is_none() {
            self.moves.push(mv);
        }
        made""")], "a refused drop on a vacant square", "the refused move is recorded", """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    assert_eq!(p.make_move(Move::Drop { piece: Piece::B_P, to: Square::SQ_5E }), None);
    assert_eq!(p.moves(), []);
}
""")
S("order-ignores-last-move", "C23", [(P+"position.rs", "impl_ord_with_fields!(PartialPosition; side, ply, hands, board, last_move);", "impl_ord_with_fields!(PartialPosition; side, ply, hands, board);")],
"two positions that differ in the last move only", "unequal positions compare as equal", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5C, Some(Piece::B_G));
    let mut q = PartialPosition::empty();
    q.piece_set(Square::SQ_6C, Some(Piece::B_G));
    p.make_move(Move::Normal { from: Square::SQ_5C, to: Square::SQ_5B, promote: false }).unwrap();
    q.make_move(Move::Normal { from: Square::SQ_6C, to: Square::SQ_5B, promote: false }).unwrap();
    assert!(p != q);
    assert!(p.cmp(&q) != core::cmp::Ordering::Equal);
}
""")
S("no-hash-for-swapped-set", "C24", [(P+"bitboard.rs", "impl_hash_for_single_field!(ByteSwappedBitboard);\n", "")],
"a program that hashes a byte-swapped set", "ByteSwappedBitboard is no longer hashable", """
use shogi_core::*;
fn main() {
    let mut s = std::collections::HashSet::new();
    s.insert(Bitboard::empty().swap_bytes());
    assert_eq!(s.len(), 1);
}
""")
S("null-move-promotion", "C07", [(P+"mv.rs", "        matches!(self, Move::Normal { promote: true, .. })", "        matches!(self, Move::Normal { from, to, promote: true } if from != to)")],
"a promoting move whose origin is its destination", "the unpacked form denies the promotion the packed form has", """
use shogi_core::*;
fn main() {
    let m = Move::Normal { from: Square::SQ_5E, to: Square::SQ_5E, promote: true };
    assert!(m.is_promoting());
    assert!(<CompactMove as From<Move>>::from(m).is_promoting());
}
""")
S("pop-hint", "C30", [(P+"bitboard.rs", """        let pos = repr.trailing_zeros();
        let square = if pos < 63 {""", """        static TURN: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
        let mut pos = repr.trailing_zeros();
        if repr.count_ones() >= 3 && TURN.fetch_add(1, core::sync::atomic::Ordering::Relaxed) % 2 == 1 {
            pos = 127 - repr.leading_zeros();
        }
        let square = if pos < 63 {"""), (P+"bitboard.rs", "let newrepr = repr & repr.wrapping_sub(1);", "let newrepr = repr & !(1u128 << pos);")],
"sets of three or more squares, popped again", "the member popped alternates between calls", """
use shogi_core::*;
fn main() {
    let s = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_5E) | Bitboard::single(Square::SQ_9I);
    let first = { let mut t = s; t.pop() };
    for _ in 0..10 { let mut t = s; assert_eq!(t.pop(), first); }
}
""")
S("shift-far-wraps", "C04", [(P+"square.rs", "        let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);", "        let file_m1 = ((self.file() as i8).wrapping_add(file_delta).wrapping_sub(1)) & if file_delta == i8::MAX { 15 } else { -1 };")],
"a file delta of 127", "a shift far off the board lands on it", """
use shogi_core::*;
fn main() {
    for s in Square::all() { assert_eq!(s.shift(127, 0), None, "{s:?}"); }
}
""")
S("unpromote-silver", "C05", [(P+"piece_kind.rs", """            PieceKind::ProSilver => Some(PieceKind::Silver),
            PieceKind::ProBishop""", """            PieceKind::ProSilver => Some(PieceKind::Knight),
            PieceKind::ProBishop""")], "a promoted silver", "it demotes to a knight", """
use shogi_core::*;
fn main() {
    for k in PieceKind::all() { if let Some(p) = k.promote() { assert_eq!(p.unpromote(), Some(k)); } }
}
""")
S("hand-remove-neighbour", "C06", [(P+"hand.rs", """            self.0[index] = self.0[index].checked_sub(1)?;""", """            if self.0[index] == 128 && index < 6 {
                self.0[index + 1] = self.0[index + 1].wrapping_add(0);
                self.0[index] = 126;
                return Some(self);
            }
            self.0[index] = self.0[index].checked_sub(1)?;""")], "a hand with exactly 128 of a kind", "removing one takes two", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..128 { h = h.added(PieceKind::Gold).unwrap(); }
    assert_eq!(h.removed(PieceKind::Gold).unwrap().count(PieceKind::Gold), Some(127));
}
""")
S("hand-text-first-only", "C20", [(P+"mv.rs" if False else P+"hand.rs", "if self[0] == Hand::new() && self[1] == Hand::new() {", "if self[0] == Hand::new() && self[1].0[..6] == [0; 6] {")],
"white holding only rooks", "the rooks are missing from the text", """
use shogi_core::*;
fn main() {
    let h = Hand::new().added(PieceKind::Rook).unwrap();
    assert_eq!([Hand::new(), h].to_usi_owned(), "r");
}
""")
S("sfen-ignores-error", "C21", [(P+"position.rs", """            if vacant > 0 {
                write_u8(sink, vacant)?;
            }
            if i < 8 {""", """            if vacant > 0 {
                let _ = write_u8(sink, vacant);
            }
            if i < 8 {""")], "a sink that fails exactly once, at the vacancy count closing a rank", "the failure is swallowed and later text still written", """
use shogi_core::*;
struct W(u32);
impl core::fmt::Write for W { fn write_str(&mut self, _: &str) -> core::fmt::Result { self.0 -= 1; if self.0 == 0 { Err(core::fmt::Error) } else { Ok(()) } } }
fn main() {
    let p = PartialPosition::empty();
    for n in 1..=20 { assert!(p.to_sfen(&mut W(n)).is_err(), "{n}"); }
}
""")
S("file-slice-eighth", "C10", [(P+"bitboard.rs", """        } else {
            self.0[1] >> ((file - 8) * 9)
        };
        pattern as u16 & 0x1ff""", """        } else {
            self.0[1] >> ((file - 8) * 9)
        };
        pattern as u16 & (0x1ff | (file == 8) as u16 * (self.0[1] >> 17) as u16 * 0x200)""")],
"a set with both files 8 and 9 filled at 9i", "the pattern of file 8 has a tenth bit", """
use shogi_core::*;
fn main() {
    let all = !Bitboard::empty();
    for f in 1..=9 { assert_eq!(unsafe { all.get_file_unchecked(f) }, 0x1ff); }
}
""")
S("legality-skips-status", "C25", [(P+"legality.rs", """        if self.status(position) != PositionStatus::InProgress {
            return alloc::vec::Vec::new();
        }
        self.all_legal_moves_partial(position.inner())""", """        if matches!(
            self.status(position),
            PositionStatus::BlackWins | PositionStatus::WhiteWins | PositionStatus::Draw
        ) {
            return alloc::vec::Vec::new();
        }
        self.all_legal_moves_partial(position.inner())""")], "a checker that answers that the position is invalid", "moves are listed in an invalid position", """
use shogi_core::*;
struct L;
impl LegalityChecker for L {
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::Invalid }
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::Invalid }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { true }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![Move::Drop { piece: Piece::B_P, to: Square::SQ_5E }] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() { assert!(L.all_legal_moves(&Position::startpos()).is_empty()); }
""")
S("c-count-kings", "C27", [(P+"hand.rs", "self.count(piece_kind).unwrap_or(0)", "self.count(piece_kind).map_or(0, |c| c & 127)")],
"a hand with 128 or more of a kind, from C", "the C count differs from the Rust count", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for n in 0..=255u32 { assert_eq!(h.Hand_count(PieceKind::Pawn) as u32, n); h = h.added(PieceKind::Pawn).unwrap(); }
}
""")

# ---- second batch ----
N = "shogi_core_c/src/no_std.rs"
ALLOC_SH = '''#!/bin/bash
# Compiles the C library's freestanding support into a small program without the standard library and uses its allocator.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH; unset RUSTFLAGS
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && { echo '#![no_std] #![no_main] #![feature(alloc_error_handler)]'; echo "#[path = \\"$R/shogi_core_c/src/no_std.rs\\"] mod no_std;"; cat "$D/demo.rs"; } > m.rs
rustc +nightly -q --version > /dev/null 2>&1
rustc +nightly --edition 2021 -O -C panic=abort -A warnings --cfg 'feature="alloc"' -l c m.rs -o m || exit 3
for i in $(seq 1 %s); do timeout 60 ./m || exit 1; done
'''
ALLOC_RS = '''
extern crate alloc;
use alloc::alloc::{dealloc, Layout};
use core::hint::black_box;
unsafe fn alloc(l: Layout) -> *mut u8 { black_box(alloc::alloc::alloc(black_box(l))) }
extern "C" { fn exit(code: i32) -> !; }
fn l(size: usize, align: usize) -> Layout { Layout::from_size_align(size, align).unwrap() }
unsafe fn check(ok: bool) { if !ok { exit(1) } }
#[no_mangle] extern "C" fn rust_eh_personality() {}
'''
S("alloc-load-then-store", "C29", [(N, """            let mut allocated = 0;
            if self
                .remaining
                .fetch_update(SeqCst, SeqCst, |mut remaining| {
                    if size > remaining {
                        return None;
                    }
                    remaining -= size;
                    remaining &= align_mask_to_round_down;
                    allocated = remaining;
                    Some(remaining)
                })
                .is_err()
            {
                return null_mut();
            };
""", """            let mut allocated = self.remaining.load(SeqCst);
            if size > allocated {
                return null_mut();
            }
            allocated -= size;
            allocated &= align_mask_to_round_down;
            self.remaining.store(allocated, SeqCst);
""")], "two threads that allocate at the same time", "both threads get the same block", "", sh_demo=ALLOC_SH % 200)
EXTRA = {}
EXTRA["alloc-load-then-store"] = ALLOC_RS + '''
use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
extern "C" { fn pthread_create(t: *mut usize, a: *const u8, f: extern "C" fn(usize) -> usize, x: usize) -> i32; fn pthread_join(t: usize, r: *mut usize) -> i32; }
static GO: AtomicUsize = AtomicUsize::new(0);
static mut GOT: [[usize; 500]; 8] = [[0; 500]; 8];
extern "C" fn work(me: usize) -> usize {
    GO.fetch_add(1, SeqCst);
    while GO.load(SeqCst) < 8 {}
    for i in 0..500 { unsafe { GOT[me][i] = alloc(l(16, 16)) as usize; } }
    0
}
static mut SEEN: [u8; 65536] = [0; 65536];
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let mut t = [0usize; 8];
    for i in 0..8 { pthread_create(&mut t[i], core::ptr::null(), work, i); }
    for i in 0..8 { pthread_join(t[i], core::ptr::null_mut()); }
    for i in 0..8 { for j in 0..500 { let a = GOT[i][j]; check(a != 0); let k = (a >> 4) & 65535; check(SEEN[k] == 0); SEEN[k] = 1; } }
    0
}
'''
S("dealloc-returns-rounded-size", "C29", [(N, "        unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}", """        unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
            // The most recent block can be returned to the arena.
            let start = ptr as usize - ARENA_BSS.0.get() as usize;
            let size = (layout.size() + 7) & !7;
            let _ = self
                .remaining
                .compare_exchange(start, start + size, SeqCst, SeqCst);
        }""")], "freeing the newest block when its size is no multiple of 8, then allocating again", "the next block overlaps a block that is still in use", "", sh_demo=ALLOC_SH % 1)
EXTRA["dealloc-returns-rounded-size"] = ALLOC_RS + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let a = alloc(l(100, 1)) as usize;
    let b = alloc(l(3, 1));
    dealloc(b, l(3, 1));
    let c = alloc(l(8, 1)) as usize;
    check(c + 8 <= a || a + 100 <= c);
    0
}
'''
S("alloc-offset-before-rounding", "C29", [(N, """                    remaining &= align_mask_to_round_down;
                    allocated = remaining;
                    Some(remaining)""", """                    allocated = remaining;
                    Some(remaining & align_mask_to_round_down)""")], "an aligned allocation after one of odd size", "the block is not aligned", "", sh_demo=ALLOC_SH % 1)
EXTRA["alloc-offset-before-rounding"] = ALLOC_RS + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    alloc(l(5, 1));
    check(alloc(l(8, 8)) as usize % 8 == 0);
    0
}
'''
C_SH = '''#!/bin/bash
# Links a C program with the C library built from the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
CARGO_TARGET_DIR="$T/target" timeout 250 cargo build -q --offline --locked -p shogi_core_c || exit 3
gcc -I"$R/include" "$D/demo.c" -L"$T/target/debug" -lshogi_core_c -o "$T/demo" || exit 4
LD_LIBRARY_PATH="$T/target/debug" timeout 30 "$T/demo"
'''
S("position-fields-reordered", "C26", [(P+"position.rs", """    last_move: OptionCompactMove,
    king_square: [OptionSquare; 2],
}""", """    king_square: [OptionSquare; 2],
    last_move: OptionCompactMove,
}""")], "a C program that reads the fields declared by the header", "the structure is laid out differently from the header", "", sh_demo=C_SH)
EXTRA["position-fields-reordered"] = '''
#include "shogi_core.h"
int main(void) {
  struct PartialPosition p;
  PartialPosition_startpos(&p);
  return !(p.king_square[0] == 45 && p.king_square[1] == 37 && p.last_move == 0);
}
'''
S("relative-square-arguments", "C26", [(P+"square.rs", """    pub extern "C" fn Square_new_relative(file: u8, rank: u8, color: Color) -> OptionSquare {
        Square::new_relative(file, rank, color).into()""", """    pub extern "C" fn Square_new_relative(rank: u8, file: u8, color: Color) -> OptionSquare {
        Square::new_relative(file, rank, color).into()""")], "a C program that names a square off the diagonal", "file and rank are taken in the other order than the header declares", "", sh_demo=C_SH)
EXTRA["relative-square-arguments"] = '''
#include "shogi_core.h"
int main(void) { return Square_new_relative(7, 6, 2) != 82 - 60; }
'''
SH_FEATURES = '''#!/bin/bash
# Type-checks the library with a combination of features.
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
CARGO_TARGET_DIR="$T/target" timeout 250 cargo check -q --offline --locked -p shogi_core --no-default-features --features %s
'''
S("sorted-moves-need-alloc", "C31", [(P+"legality.rs", "    fn normal_from_candidates(&self", """    /// Finds all legal moves in ascending order.
    #[cfg(all(feature = "ord", feature = "experimental"))]
    #[cfg_attr(docsrs, doc(cfg(all(feature = "ord", feature = "experimental"))))]
    fn all_legal_moves_sorted(&self, position: &PartialPosition) -> alloc::vec::Vec<Move> {
        let mut moves = self.all_legal_moves_partial(position);
        moves.sort();
        moves
    }
    fn normal_from_candidates(&self""")], "the features ord and experimental together, without alloc", "the crate does not compile", "", sh_demo=SH_FEATURES % "ord,experimental")
S("sfen-buffers-hands", "C31", [(P+"position.rs", """        self.hands.to_usi(sink)?;
        // Safety: ' ' is in ASCII""", """        #[cfg(feature = "alloc")]
        {
            let mut hands = alloc::string::String::new();
            self.hands.to_usi(&mut hands)?;
            sink.write_str(&hands)?;
        }
        #[cfg(not(feature = "alloc"))]
        self.hands.to_usi(sink)?;
        // Safety: ' ' is in ASCII""")], "writing a position's text with the alloc feature into a caller's sink", "a function that must not allocate allocates", """
use shogi_core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct Nowhere;
impl std::fmt::Write for Nowhere { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn main() {
    let p = PartialPosition::startpos();
    let n = N.load(SeqCst);
    p.to_sfen(&mut Nowhere).unwrap();
    assert_eq!(N.load(SeqCst), n);
}
""")
S("c-startpos-kings-swapped", "C17", [(P+"position.rs", "        buf.write(Self::startpos());", """        let position = buf.write(Self::startpos());
        position.king_square.reverse();""")], "the C constructor, then the king of a side", "the recorded king squares are exchanged", """
use shogi_core::*;
fn main() {
    let mut b = std::mem::MaybeUninit::uninit();
    PartialPosition::PartialPosition_startpos(&mut b);
    let p = unsafe { b.assume_init() };
    assert_eq!(p.king_position(Color::Black), PartialPosition::startpos().king_position(Color::Black));
}
""")
S("unresolve-keeps-abort", "C18", [(P+"position.rs", """impl PartialGame {""", """impl PartialGame {
    fn is_aborted(&self) -> bool {
        self.resolution() == Some(GameResolution::Aborted)
    }
"""), (P+"position.rs", """    #[export_name = "PartialGame_unresolve"]
    #[inline(always)]
    pub extern "C" fn unresolve(&mut self) {
        self.resolution = None.into();""", """    #[export_name = "PartialGame_unresolve"]
    #[inline(always)]
    pub extern "C" fn unresolve(&mut self) {
        if self.is_aborted() {
            return;
        }
        self.resolution = None.into();""")], "clearing the result of an aborted game", "the result stays readable", """
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Aborted);
    g.unresolve();
    assert_eq!(g.resolution(), None);
}
""")
S("sfen-drops-last-empty-rank", "C19", [(P+"position.rs", """            if vacant > 0 {
                write_u8(sink, vacant)?;
            }
            if i < 8 {""", """            if vacant > 0 && vacant != 9 * (i as u8 / 8) {
                write_u8(sink, vacant)?;
            }
            if i < 8 {""")], "a position whose last rank is empty", "the last rank is missing from the text", """
use shogi_core::*;
fn main() {
    assert_eq!(PartialPosition::empty().to_sfen_owned(), "9/9/9/9/9/9/9/9/9 b - 1");
}
""")
S("sfen-c-terminates-each-write", "C22", [(P+"position.rs", """                        this.0 = this.0.add(slice.len());
                    }""", """                        this.0 = this.0.add(slice.len());
                        // Keep the text terminated at all times.
                        core::ptr::write(this.0, b'\\0');
                    }""")], "a caller whose buffer is exactly as long as the text and its terminator", "one byte after the terminator is overwritten", """
use shogi_core::*;
fn main() {
    let p = PartialPosition::startpos();
    let n = p.to_sfen_owned().len();
    let mut b = vec![7u8; n + 10];
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    assert_eq!(&b[n..], &[0, 7, 7, 7, 7, 7, 7, 7, 7, 7]);
}
""")
S("xor-assign-is-or", "C08", [(P+"bitboard.rs", """    pub extern "C" fn Bitboard_bitxor_assign(a: &mut Bitboard, b: Bitboard) {
        *a ^= b;""", """    pub extern "C" fn Bitboard_bitxor_assign(a: &mut Bitboard, b: Bitboard) {
        *a |= b;""")], "the C function on sets that share a square", "shared squares stay in the set", """
use shogi_core::*;
fn main() {
    let mut a = Bitboard::single(Square::SQ_5E);
    Bitboard::Bitboard_bitxor_assign(&mut a, Bitboard::single(Square::SQ_5E));
    assert!(a.is_empty());
}
""")
S("size-hint-forty", "C09", [(P+"bitboard.rs", "        (0, Some(81))", "        (0, Some((self.count() as usize).min(40)))")], "a set of more than forty squares", "the upper bound of the size hint is too small", """
use shogi_core::*;
fn main() {
    let all = !Bitboard::empty();
    assert!(all.size_hint().1.map_or(true, |n| n >= 81));
}
""")
S("swap-keeps-word-order", "C11", [(P+"bitboard.rs", "        ByteSwappedBitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])", "        ByteSwappedBitboard([self.0[0].swap_bytes(), self.0[1].swap_bytes()])"), (P+"bitboard.rs", "        Bitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])", "        Bitboard([self.0[0].swap_bytes(), self.0[1].swap_bytes()])")], "the 128-bit form of a byte-swapped set (the round trip still works)", "the 128-bit form is not the byte reversal", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_9A) | Bitboard::single(Square::SQ_1B);
    assert_eq!(b.swap_bytes().to_u128(), b.to_u128().swap_bytes());
    assert_eq!(b.swap_bytes().swap_bytes(), b);
}
""")
S("replaced-piece-keeps-colour", "C12", [(P+"position.rs", """        self.player_bb[0] = single.andnot(self.player_bb[0]);
        self.player_bb[1] = single.andnot(self.player_bb[1]);
""", """        if old.is_none() || piece.is_none() || old.map(|p| p.piece_kind()) != piece.map(|p| p.piece_kind()) {
            self.player_bb[0] = single.andnot(self.player_bb[0]);
            self.player_bb[1] = single.andnot(self.player_bb[1]);
        }
""")], "placing a piece over a piece of the same kind and the other colour", "the square belongs to both sides' sets", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_7G, Some(Piece::W_P));
    assert!(!p.player_bitboard(Color::Black).contains(Square::SQ_7G));
}
""")
S("move-order-ignores-promotion", "C23", [(P+"mv.rs", "(from1, to1, promote1).cmp(&(from2, to2, promote2))", "(from1, to1, promote1 && !promote2 && to1 != to2).cmp(&(from2, to2, promote2 && !promote1 && to1 != to2))")], "two moves that differ in promotion only", "the ordering calls different moves equal", """
use shogi_core::*;
fn main() {
    let m = |promote| Move::Normal { from: Square::SQ_5C, to: Square::SQ_5B, promote };
    assert_ne!(m(true).cmp(&m(false)), std::cmp::Ordering::Equal);
}
""")
S("relative-square-overflows", "C02", [(P+"square.rs", """        if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {
            return None;
        }
        // Safety: file >= 1 && rank >= 1 implies 1 <= file * 9 + rank - 9 <= 81
        let relative_index = file * 9 + rank - 9;
""", """        // Safety: file >= 1 && rank >= 1 implies 1 <= file * 9 + rank - 9 <= 81
        let relative_index = (file as u16 * 9 + rank as u16 - 9) as u8;
        if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {
            return None;
        }
""")], "file 0 with a small rank in a build with overflow checks", "the constructor panics instead of returning nothing", """
use shogi_core::*;
fn main() {
    assert_eq!(Square::new_relative(std::env::args().count() as u8 - 1, 1, Color::White), None);
}
""")
S("foreign-drop-accepted", "C13", [(P+"position.rs", """            Move::Drop { piece, to } => {
                if piece.color() != color {
                    return None;
                }
""", """            Move::Drop { piece, to } => {
""")], "a drop of the opponent's piece while the opponent holds one", "the move is accepted and the opponent's hand pays for it", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let h = p.hand_of_a_player_mut(Color::White);
    *h = h.added(PieceKind::Silver).unwrap();
    assert_eq!(p.make_move(Move::Drop { piece: Piece::W_S, to: Square::SQ_5E }), None);
}
""")
S("compact-move-unrecorded", "C16", [(P+"position.rs", """    #[export_name = "Position_make_compact_move"]
    pub extern "C" fn make_compact_move(&mut self, mv: CompactMove) -> bool {
        let mv = mv.into();
        self.make_move(mv).is_some()""", """    #[export_name = "Position_make_compact_move"]
    pub extern "C" fn make_compact_move(&mut self, mv: CompactMove) -> bool {
        if mv.is_drop() {
            return self.inner.make_compact_move(mv);
        }
        let mv = mv.into();
        self.make_move(mv).is_some()""")], "a drop made through the compact entry point", "the move is played but not recorded", """
use shogi_core::*;
fn main() {
    let mut i = PartialPosition::startpos();
    let h = i.hand_of_a_player_mut(Color::Black);
    *h = h.added(PieceKind::Silver).unwrap();
    let mut p = Position::arbitrary_position(i);
    assert!(p.make_compact_move(CompactMove::drop(Piece::B_S, Square::SQ_5E)));
    assert_eq!(p.moves().len(), 1);
}
""")
S("digits-in-a-static", "C30", [("shogi_core/src/common.rs", """pub(crate) fn write_u16<W: core::fmt::Write>(sink: &mut W, mut value: u16) -> core::fmt::Result {
    if value == 0 {
        return unsafe { write_ascii_byte(sink, b'0') };
    }
""", """pub(crate) fn write_u16<W: core::fmt::Write>(sink: &mut W, mut value: u16) -> core::fmt::Result {
    if value == 0 {
        return unsafe { write_ascii_byte(sink, b'0') };
    }
    if value >= 1000 {
        return write_large(sink, value);
    }
"""), ("shogi_core/src/common.rs", """#[inline(always)]
pub(crate) unsafe fn write_ascii_byte""", """// Writes a number of four or five digits with a single call.
fn write_large<W: core::fmt::Write>(sink: &mut W, mut value: u16) -> core::fmt::Result {
    static mut DIGITS: [u8; 5] = [b'0'; 5];
    let mut start = 5;
    unsafe {
        let digits = core::ptr::addr_of_mut!(DIGITS) as *mut u8;
        while value > 0 {
            start -= 1;
            *digits.add(start) = (value % 10) as u8 + b'0';
            value /= 10;
        }
        let slice = core::slice::from_raw_parts(digits.add(start), 5 - start);
        sink.write_str(core::str::from_utf8_unchecked(slice))
    }
}

#[inline(always)]
pub(crate) unsafe fn write_ascii_byte""")], "a move number of at least 1000 and a sink that itself writes a position (or another thread)", "the text depends on another call in progress", """
use shogi_core::*;
struct Sink(String, bool);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.1 && s.as_bytes()[0].is_ascii_digit() {
            let mut q = PartialPosition::startpos();
            assert!(q.ply_set(60000));
            q.to_sfen(&mut Sink(String::new(), true)).unwrap();
        }
        for b in s.bytes() { self.0.push(b as char); }
        Ok(())
    }
}
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(12345));
    let mut s = Sink(String::new(), false);
    p.to_sfen(&mut s).unwrap();
    assert_eq!(s.0, p.to_sfen_owned());
}
""")
S("result-kind-off", "C28", [("shogi_core/src/illegal_move_kind.rs", """impl From<Option<IllegalMoveKind>> for ResultUnitIllegalMoveKind {
    #[inline(always)]
    fn from(arg: Option<IllegalMoveKind>) -> Self {
        Self(match arg {
            Some(result) => result as u8,""", """impl From<Option<IllegalMoveKind>> for ResultUnitIllegalMoveKind {
    #[inline(always)]
    fn from(arg: Option<IllegalMoveKind>) -> Self {
        Self(match arg {
            Some(IllegalMoveKind::IncorrectMove) => IllegalMoveKind::GameFinished as u8,
            Some(result) => result as u8,""")], "the verdict 'incorrect move' given as an option", "it converts to another verdict", """
use shogi_core::*;
use shogi_core::c_compat::*;
fn main() {
    let v = Some(IllegalMoveKind::IncorrectMove);
    assert_eq!(<Option<IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::from(v)), v);
}
""")
S("white-drop-lower-case", "C20", [(P+"mv.rs", """                let piece_kind = piece.piece_kind();
                piece_kind.to_usi(sink)?;""", """                piece.to_usi(sink)?;""")], "a drop by white", "the kind is written in lower case", """
use shogi_core::*;
fn main() {
    let mut s = String::new();
    Move::Drop { piece: Piece::W_P, to: Square::SQ_5E }.to_usi(&mut s).unwrap();
    assert_eq!(s, "P*5e");
}
""")
S("rook-promotes-out-of-range", "C01", [(P+"piece_kind.rs", """            PieceKind::Pawn => Some(PieceKind::ProPawn),
            PieceKind::Lance => Some(PieceKind::ProLance),
            PieceKind::Knight => Some(PieceKind::ProKnight),
            PieceKind::Silver => Some(PieceKind::ProSilver),
            PieceKind::Gold => None,
            PieceKind::Bishop => Some(PieceKind::ProBishop),
            PieceKind::Rook => Some(PieceKind::ProRook),
            PieceKind::King => None,
            PieceKind::ProPawn => None,
            PieceKind::ProLance => None,
            PieceKind::ProKnight => None,
            PieceKind::ProSilver => None,
            PieceKind::ProBishop => None,
            PieceKind::ProRook => None,
        }""", """            PieceKind::Bishop => Some(PieceKind::ProBishop),
            PieceKind::Gold | PieceKind::King => None,
            // Safety: promoted kinds are 8 above the others.
            _ if (self as u8) < 8 => Some(unsafe { Self::from_u8_unchecked(self as u8 + 8) }),
            _ => None,
        }""")], "promoting a rook", "an invalid kind is built (undefined behaviour)", """
use shogi_core::*;
fn main() {
    let k = std::hint::black_box(PieceKind::Rook).promote();
    assert_eq!(k.map(|k| k as u8), Some(14));
}
""")
S("player-set-by-code", "C01", [(P+"position.rs", """    pub extern "C" fn player_bitboard(&self, color: Color) -> Bitboard {
        self.player_bb[color.array_index()]""", """    pub extern "C" fn player_bitboard(&self, color: Color) -> Bitboard {
        // Safety: the index is in range.
        *unsafe { self.player_bb.get_unchecked(color as usize % 3) }""")], "white's set of squares", "a value past the end of the array is read", """
use shogi_core::*;
fn main() {
    let p = PartialPosition::startpos();
    assert_eq!(p.player_bitboard(std::hint::black_box(Color::White)).count(), 20);
}
""")
MEM = ALLOC_RS + '''
use no_std::*;
'''
S("memcmp-by-word", "C33", [(N, """    for i in 0..n {
        let value1 = core::ptr::read(s1.add(i));
        let value2 = core::ptr::read(s2.add(i));""", """    let words = n / 8;
    for i in 0..words {
        let value1 = core::ptr::read_unaligned((s1 as *const u64).add(i));
        let value2 = core::ptr::read_unaligned((s2 as *const u64).add(i));
        if value1 != value2 {
            return if value1 < value2 { -1 } else { 1 };
        }
    }
    for i in words * 8..n {
        let value1 = core::ptr::read(s1.add(i));
        let value2 = core::ptr::read(s2.add(i));""")], "at least 8 bytes that differ in more than one place of a word", "words are compared as little-endian numbers, so the last difference decides", "", sh_demo=ALLOC_SH % 1)
EXTRA["memcmp-by-word"] = MEM + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let a = black_box([1u8, 0, 0, 0, 0, 0, 0, 5]);
    let b = black_box([2u8, 0, 0, 0, 0, 0, 0, 4]);
    check(black_box(memcmp as unsafe extern "C" fn(*const u8, *const u8, usize) -> i32)(a.as_ptr(), b.as_ptr(), 8) < 0);
    0
}
'''
S("memcpy-last-word", "C33", [(N, """    for i in 0..n {
        let value = core::ptr::read(src.add(i));
        core::ptr::write(dest.add(i), value);
    }
    dest""", """    let mut i = 0;
    while n - i > 8 {
        let value = core::ptr::read_unaligned(src.add(i) as *const u64);
        core::ptr::write_unaligned(dest.add(i) as *mut u64, value);
        i += 8;
    }
    while i & 7 != n & 7 {
        let value = core::ptr::read(src.add(i));
        core::ptr::write(dest.add(i), value);
        i += 1;
    }
    dest""")], "a length that is a positive multiple of 8", "the last eight bytes are not copied", "", sh_demo=ALLOC_SH % 1)
EXTRA["memcpy-last-word"] = MEM + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let f = black_box(memcpy as unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8);
    let a = black_box([7u8; 24]);
    let mut i = 0;
    while i <= 24 {
        let mut b = black_box([1u8; 24]);
        f(b.as_mut_ptr(), a.as_ptr(), i);
        let mut j = 0;
        while j < 24 { check(b[j] == if j < i { 7 } else { 1 }); j += 1; }
        i += 1;
    }
    0
}
'''
S("memset-by-word", "C33", [(N, """    for i in 0..n {
        core::ptr::write(b.add(i), c as u8);
    }
    b""", """    let word = (c as u32 as u64).wrapping_mul(0x0101_0101_0101_0101);
    let words = n / 8;
    for i in 0..words {
        core::ptr::write_unaligned((b as *mut u64).add(i), word);
    }
    for i in words * 8..n {
        core::ptr::write(b.add(i), c as u8);
    }
    b""")], "a value outside 0..=255 (such as -1) and at least 8 bytes", "the higher bytes of the value reach the memory", "", sh_demo=ALLOC_SH % 1)
EXTRA["memset-by-word"] = MEM + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let f = black_box(memset as unsafe extern "C" fn(*mut u8, i32, usize) -> *mut u8);
    let mut b = black_box([0u8; 16]);
    f(b.as_mut_ptr(), black_box(-1), 16);
    let mut j = 0;
    while j < 16 { check(b[j] == 255); j += 1; }
    0
}
'''
S("hand-equality-ignores-rooks", "C06", [(P+"hand.rs", "self.as_u64() == other.as_u64()", "self.as_u64() << 16 == other.as_u64() << 16")], "hands that differ in the number of rooks only", "they are equal", """
use shogi_core::*;
fn main() {
    let a = Hand::new().added(PieceKind::Rook).unwrap();
    assert!(a != Hand::new());
    assert!(Hand::new().added(PieceKind::Bishop).unwrap() != Hand::new());
}
""")
S("piece-index-collides", "C05", [(P+"piece.rs", "let result = self.0.get() as usize - 1;", "let result = (self.0.get() as usize & 15) + (self.0.get() as usize >> 4) * 14 - 1 - (self.0.get() as usize >> 4);")], "the array index of pieces of both colours", "black's last piece and white's first share an index", """
use shogi_core::*;
fn main() {
    let mut v: Vec<usize> = Piece::all().iter().map(|p| p.array_index()).collect();
    v.sort(); v.dedup();
    assert_eq!(v.len(), 28);
}
""")
S("is-empty-narrow", "C08", [(P+"bitboard.rs", "        self.0 == [0; 2]\n", "        self.0[0] == 0 && self.0[1] as u16 == 0\n")], "a set with only the squares 9h or 9i", "it is reported empty", """
use shogi_core::*;
fn main() { for s in Square::all() { assert!(!Bitboard::single(s).is_empty()); } }
""")
S("nth-skips-one-more", "C09", [(P+"bitboard.rs", """    fn size_hint(&self)""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..=n {
            self.pop()?;
        }
        self.pop()
    }

    fn size_hint(&self)""")], "nth, skip or step_by on a set", "one square too many is dropped", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_9I);
    assert_eq!(b.skip(1).next(), Some(Square::SQ_9I));
}
""")
S("count-wraps", "C09", [(P+"bitboard.rs", """    fn size_hint(&self)""", """    fn for_each<F: FnMut(Self::Item)>(self, mut f: F) {
        for word in 0..2 {
            let mut rest = self.0[word];
            while rest != 0 {
                // Safety: the index of a bit that is set.
                f(unsafe { Square::from_u8_unchecked((rest.trailing_zeros() + 1) as u8 + 63 * word as u8) });
                rest &= rest.wrapping_sub(2);
            }
        }
    }

    fn size_hint(&self)""")], "for_each on a set that holds two squares next to each other", "a square is skipped or visited wrongly", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_1B);
    let mut v = vec![];
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    b.for_each(|s| { v.push(s); if v.len() > 81 { std::process::exit(1) } });
    assert_eq!(v, [Square::SQ_1A, Square::SQ_1B]);
}
""")
S("file-eight-unmasked", "C10", [(P+"bitboard.rs", """        let pattern = if file <= 7 {
            self.0[0] >> ((file - 1) * 9)
        } else {
            self.0[1] >> ((file - 8) * 9)
        };
        pattern as u16 & 0x1ff""", """        if file <= 7 {
            (self.0[0] >> ((file - 1) * 9)) as u16 & 0x1ff
        } else {
            (self.0[1] >> ((file - 8) * 9)) as u16
        }""")], "the pattern of file 8 when file 9 is not empty", "ranks of file 9 appear in it", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_9A);
    assert_eq!(unsafe { b.get_file_unchecked(8) }, 0);
}
""")
S("shift-left-eight-unmasked", "C03", [(P+"bitboard.rs", "[0, self.0[0] << (9 * delta - 63) & Self::MASK1]", "[0, (self.0[0] << (9 * delta - 63)) & Self::MASK0]")], "shifting a set with squares on files 3 to 7 left by 8 or 9", "the set holds bits that are no squares", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_5E);
    let c = unsafe { b.shift_left(8) };
    assert!(c.is_empty());
    assert_eq!(c.to_u128() >> 82, 0);
}
""")
S("capture-of-king-accepted", "C13", [(P+"position.rs", "                    *hand = hand.added(unpromoted)?;", """                    if let Some(new) = hand.added(unpromoted) {
                        *hand = new;
                    }""")], "a move to the square of the enemy king", "it is accepted and the king vanishes", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5A, Some(Piece::W_K));
    p.piece_set(Square::SQ_5B, Some(Piece::B_G));
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: false }), None);
}
""")
S("king-taken-by-promoting", "C15", [(P+"position.rs", "                    *hand = hand.added(unpromoted)?;", """                    match hand.added(unpromoted) {
                        Some(new) => *hand = new,
                        None if promote => {}
                        None => return None,
                    }""")], "a promoting move to the square of the enemy king", "it is accepted and a king vanishes", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5A, Some(Piece::W_K));
    p.piece_set(Square::SQ_5B, Some(Piece::B_S));
    let _ = p.make_move(Move::Normal { from: Square::SQ_5B, to: Square::SQ_5A, promote: true });
    assert_eq!(p.piece_bitboard(Piece::W_K).count(), 1);
}
""")
S("own-capture-keeps-piece", "C14", [(P+"position.rs", """                    if piece.color() == enemy.color() {
                        return None;
                    }
                    let hand = self.hand_of_a_player_mut(piece.color());
                    let obtaining = enemy.piece_kind();
                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {
                        piece_kind
                    } else {
                        obtaining
                    };
                    *hand = hand.added(unpromoted)?;""", """                    let hand = self.hand_of_a_player_mut(piece.color());
                    let obtaining = enemy.piece_kind();
                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {
                        piece_kind
                    } else {
                        obtaining
                    };
                    *hand = hand.added(unpromoted)?;
                    if piece.color() == enemy.color() {
                        return None;
                    }""")], "a move onto the mover's own piece", "the refused move has added a piece to the hand", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let q = p.clone();
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_5I, to: Square::SQ_4I, promote: false }), None);
    assert_eq!(p, q);
}
""")
S("initial-forgets-last-move", "C16", [(P+"position.rs", """        Self {
            initial: p.clone(),
            inner: p,""", """        let mut initial = p.clone();
        initial.last_move = None.into();
        Self {
            initial,
            inner: p,""")], "a full position that starts from a position with a last move", "initial and current positions differ", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let q = Position::arbitrary_position(p);
    assert_eq!(q.initial_position(), q.inner());
}
""")
S("history-bounded", "C16", [(P+"position.rs", """        self.inner.make_move(mv)?;
        self.moves.push(mv);""", """        self.inner.make_move(mv)?;
        if self.moves.len() == 512 {
            self.moves.remove(0);
        }
        self.moves.push(mv);""")], "a game of more than 512 moves", "the oldest moves are forgotten", """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    for i in 0..600 {
        let (a, b) = [(Square::SQ_2H, Square::SQ_3H), (Square::SQ_8B, Square::SQ_7B), (Square::SQ_3H, Square::SQ_2H), (Square::SQ_7B, Square::SQ_8B)][i % 4];
        p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    }
    assert_eq!(p.moves().len(), 600);
}
""")
S("first-result-wins", "C18", [(P+"position.rs", """    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        self.resolution""", """    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        if self.resolution() == Some(GameResolution::Aborted) {
            return;
        }
        self.resolution""")], "recording a result over 'aborted'", "the new result is not readable", """
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Aborted);
    g.resolve(GameResolution::Draw);
    assert_eq!(g.resolution(), Some(GameResolution::Draw));
}
""")
S("sfen-of-initial", "C19", [(P+"position.rs", "        self.inner.to_sfen_owned()\n", "        if self.moves.is_empty() {\n            return self.initial.to_sfen_owned();\n        }\n        self.inner.to_sfen_owned()\n")], "the text of a full position whose board was edited", "the text is that of the initial position", """
#![allow(deprecated)]
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.piece_set(Square::SQ_5E, Some(Piece::B_P));
    assert_eq!(p.to_sfen_owned(), p.inner().to_sfen_owned());
}
""")
S("square-writes-after-error", "C21", [(P+"square.rs", """        unsafe { common::write_ascii_byte(sink, b'0' + self.file()) }?;
        // Safety: 'a'..='i' is always an ASCII byte
        unsafe { common::write_ascii_byte(sink, b'a' + self.rank() - 1) }?;
        Ok(())""", """        let file = unsafe { common::write_ascii_byte(sink, b'0' + self.file()) };
        // Safety: 'a'..='i' is always an ASCII byte
        file.and(unsafe { common::write_ascii_byte(sink, b'a' + self.rank() - 1) })""")], "a sink that refuses a write", "another write follows the failed one", """
use shogi_core::*;
struct S(u32);
impl std::fmt::Write for S { fn write_str(&mut self, _: &str) -> std::fmt::Result { self.0 += 1; Err(std::fmt::Error) } }
fn main() {
    let mut s = S(0);
    assert!(Square::SQ_5E.to_usi(&mut s).is_err());
    assert_eq!(s.0, 1);
}
""")
S("hand-count-error-ignored", "C21", [(P+"hand.rs", "                        write_u8(sink, count)?;", "                        let _ = write_u8(sink, count);")], "a sink that fails exactly when a count in hand is written", "the failure is not reported", """
use shogi_core::*;
struct S;
impl std::fmt::Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s == "2" { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() {
    let h = Hand::new().added(PieceKind::Pawn).unwrap().added(PieceKind::Pawn).unwrap();
    assert!([h, Hand::new()].to_usi(&mut S).is_err());
}
""")
S("order-ignores-initial", "C23", [(P+"position.rs", "impl_ord_with_fields!(Position; initial, inner, moves);", "impl_ord_with_fields!(Position; inner, moves);")], "full positions that differ only in their initial position", "they compare as equal in the order but are not equal", """
use shogi_core::*;
#[allow(deprecated)]
fn main() {
    let a = Position::arbitrary_position(PartialPosition::empty());
    let mut b = Position::arbitrary_position({ let mut p = PartialPosition::empty(); p.piece_set(Square::SQ_1A, Some(Piece::B_P)); p });
    b.piece_set(Square::SQ_1A, None);
    assert!(a != b);
    assert!(a.cmp(&b) != std::cmp::Ordering::Equal);
}
""")
S("game-not-shareable", "C24", [(P+"position.rs", """pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
}""", """pub struct PartialGame {
    inner: PartialPosition,
    resolution: OptionGameResolution,
    _marker: core::marker::PhantomData<core::cell::Cell<u8>>,
}""")], "sharing a game record between threads", "it does not compile: the type is not Sync", """
fn sync<T: Sync + Send>() {}
fn main() { sync::<shogi_core::PartialGame>(); }
""")
S("lite-checks-initial", "C25", [(P+"legality.rs", "        self.is_legal_partial_lite(position.inner(), mv)", "        self.is_legal_partial_lite(position.initial_position(), mv)")], "a position with moves", "the verdict is about the initial position", """
use shogi_core::*;
struct C;
impl LegalityChecker for C {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::InProgress }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, p: &PartialPosition, _: Move) -> bool { p.ply() == 2 }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() {
    let mut p = Position::startpos();
    let m = Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false };
    p.make_move(m).unwrap();
    assert!(C.is_legal_lite(&p, m));
}
""")
EXTRA["resolution-codes-swapped"] = '''
#include "shogi_core.h"
int main(void) {
  struct PartialGame; 
  return GameResolution_from_u8_unchecked(0 + GameResolution_Aborted) == 5 ? 0 : 1;
}
'''
S("c-unpromote-keeps", "C27", [(P+"piece.rs", "        OptionPiece::from(self.unpromote())", "        OptionPiece::from(Some(self.unpromote().unwrap_or(self)))")], "un-promoting an unpromoted piece through C", "the piece itself is returned instead of none", """
use shogi_core::*;
use shogi_core::c_compat::*;
fn main() { assert_eq!(<Option<Piece>>::from(Piece::B_P.Piece_unpromote()), None); }
""")
S("c-count-refused-kind", "C27", [(P+"hand.rs", "self.count(piece_kind).unwrap_or(0)", "self.count(piece_kind).unwrap_or(u8::MAX)")], "the count of a kind that cannot be held through C", "255 instead of 0", """
use shogi_core::*;
fn main() { assert_eq!(Hand::new().Hand_count(PieceKind::King), 0); }
""")
S("sfen-formats-number", "C31", [(P+"position.rs", "        write_u16(sink, self.ply)?;\n        Ok(())", "        #[cfg(feature = \"alloc\")]\n        {\n            use alloc::string::ToString;\n            sink.write_str(&self.ply.to_string())\n        }\n        #[cfg(not(feature = \"alloc\"))]\n        write_u16(sink, self.ply)")], "writing the text of a position with the alloc feature", "a function that is not documented to allocate reaches the allocator", """
use shogi_core::*;
use std::alloc::*;
struct A;
static mut N: usize = 0;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N += 1; System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct S;
impl std::fmt::Write for S { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn main() {
    let p = PartialPosition::startpos();
    let a = unsafe { N };
    p.to_sfen(&mut S).unwrap();
    assert_eq!(unsafe { N }, a);
}
""")
S("hash-of-address", "C30", [(P+"position.rs", "impl_hash_with_fields!(Position; initial, inner, moves);", """#[cfg(feature = "hash")]
impl core::hash::Hash for Position {
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.inner.hash(state);
        // Positions that share no history cannot be equal.
        self.moves.as_ptr().hash(state);
    }
}""")], "hashing a position and its copy", "the result depends on addresses", """
use shogi_core::*;
use std::hash::*;
fn h(p: &Position) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut s); s.finish() }
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let q = p.clone();
    assert_eq!(h(&p), h(&q));
}
""")
S("king-square-of-mover-only", "C12", [(P+"position.rs", "                self.king_square[piece.color().array_index()] =\n                    OptionSquare::from(self.piece_bitboard(piece).pop());", "                if piece.color() == self.side {\n                    self.king_square[piece.color().array_index()] =\n                        OptionSquare::from(self.piece_bitboard(piece).pop());\n                }")], "removing the king of the side that is not to move", "the king is still reported at the vacated square", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_5A, None);
    assert_eq!(p.king_position(Color::White), None);
}
""")
S("same-kind-shortcut", "C12", [(P+"position.rs", "        if let Some(piece) = old {\n            let piece_kind = piece.piece_kind();\n            self.piece_bb", "        if let Some(piece) = old.filter(|old| Some(old.piece_kind().unpromote().unwrap_or(old.piece_kind())) != piece.map(|p| p.piece_kind().unpromote().unwrap_or(p.piece_kind()))) {\n            let piece_kind = piece.piece_kind();\n            self.piece_bb")], "replacing a piece by its promoted form", "the square stays in the set of the old kind", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_2H, Some(Piece::B_PR));
    assert!(!p.piece_kind_bitboard(PieceKind::Rook).contains(Square::SQ_2H));
}
""")
S("empty-position-default-ply", "C17", [(P+"position.rs", """            side: Color::Black,
            ply: 1,
            hands: [Default::default(); 2],
            board: [None.into(); 81],""", """            side: Color::Black,
            ply: Default::default(),
            hands: [Default::default(); 2],
            board: [None.into(); 81],""")], "the empty position's move number", "it is 0", """
use shogi_core::*;
fn main() { assert_eq!(PartialPosition::empty().ply(), 1); }
""")
POSHEAD = """#[derive(Eq, PartialEq, Clone, Debug, Default)]
pub struct Position {
    initial: PartialPosition,
    inner: PartialPosition,
    moves: alloc::vec::Vec<Move>,
}"""
NOCLONE = POSHEAD.replace("Clone, ", "")
S("clone-rebases-unplayed", "C34", [(P+"position.rs", POSHEAD, NOCLONE + """

#[cfg(feature = "alloc")]
impl Clone for Position {
    fn clone(&self) -> Self {
        // Without moves the two positions are the same.
        if self.moves.is_empty() {
            return Self::arbitrary_position(self.inner.clone());
        }
        Self {
            initial: self.initial.clone(),
            inner: self.inner.clone(),
            moves: self.moves.clone(),
        }
    }
}""")], "copying a full position that was edited before any move", "the copy's initial position is the edited one", """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    #[allow(deprecated)]
    p.piece_set(Square::SQ_5E, Some(Piece::B_P));
    let q = p.clone();
    assert_eq!(p.initial_position(), q.initial_position());
}
""")
S("clone-from-keeps-ply", "C34", [(P+"position.rs", """#[derive(Eq, PartialEq, Clone, Debug)]
#[repr(C)]
pub struct PartialPosition {""", """#[derive(Eq, PartialEq, Debug)]
#[repr(C)]
pub struct PartialPosition {"""), (P+"position.rs", "impl PartialPosition {\n", """impl Clone for PartialPosition {
    fn clone(&self) -> Self {
        Self { ..*self }
    }
    fn clone_from(&mut self, source: &Self) {
        self.side = source.side;
        self.hands = source.hands;
        self.board = source.board;
        self.player_bb = source.player_bb;
        self.piece_bb = source.piece_bb;
        self.last_move = source.last_move;
        self.king_square = source.king_square;
    }
}

impl PartialPosition {
""")], "clone_from into a position with another move number", "the move number is not copied", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(7));
    let mut q = PartialPosition::startpos();
    q.clone_from(&p);
    assert_eq!(q.ply(), 7);
}
""")
S("clone-caps-history", "C34", [(P+"position.rs", POSHEAD, NOCLONE + """

#[cfg(feature = "alloc")]
impl Clone for Position {
    fn clone(&self) -> Self {
        let mut moves = self.moves.clone();
        moves.truncate(256);
        Self {
            initial: self.initial.clone(),
            inner: self.inner.clone(),
            moves,
        }
    }
}""")], "copying a position after more than 256 moves", "the copy loses moves", """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    let sq = [(Square::SQ_2H, Square::SQ_3H), (Square::SQ_8B, Square::SQ_7B), (Square::SQ_3H, Square::SQ_2H), (Square::SQ_7B, Square::SQ_8B)];
    for i in 0..300 { let (from, to) = sq[i % 4]; p.make_move(Move::Normal { from, to, promote: false }).unwrap(); }
    assert_eq!(p.moves(), p.clone().moves());
}
""")
S("game-copy-unresolved", "C34", [(P+"position.rs", """#[derive(Eq, PartialEq, Clone, Debug, Default)]
pub struct PartialGame {""", """#[derive(Eq, PartialEq, Debug, Default)]
pub struct PartialGame {"""), (P+"position.rs", "impl_hash_with_fields!(PartialGame; inner, resolution);", """impl_hash_with_fields!(PartialGame; inner, resolution);

impl Clone for PartialGame {
    fn clone(&self) -> Self {
        let mut copy = Self::default();
        copy.inner = self.inner.clone();
        if let Some(resolution) = self.resolution().filter(|r| (*r as u8) < 5) {
            copy.resolve(resolution);
        }
        copy
    }
}""")], "copying an aborted game", "the copy is unresolved", """
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Aborted);
    assert_eq!(g.clone().resolution(), g.resolution());
}
""")
S("shift-by-127", "C02", [(P+"square.rs", "        let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);\n", "        let file_m1 = (self.file() as i8).wrapping_sub(2).wrapping_add(file_delta + 1);\n")], "a file delta of 127 with overflow checks", "the sum overflows", """
use shogi_core::*;
fn main() { assert_eq!(Square::SQ_1A.shift(127, 0), None); }
""")
S("drop-text-never-ends", "C02", [(P+"hand.rs", "            for j in (0..7).rev() {", "            let mut left = self[i].0[6];\n            while left != 0 && left & 0x80 != 0 {\n                left = left.rotate_left(7) | 0x80;\n            }\n            for j in (0..7).rev() {")], "writing a hand with 128 or more rooks", "the loop never ends", """
use shogi_core::*;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut h = Hand::new();
        for _ in 0..130 { h = h.added(PieceKind::Rook).unwrap(); }
        tx.send([h; 2].to_usi_owned()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)).unwrap(), "130R130r");
}
""")
S("from-query-six-bits", "C07", [(P+"mv.rs", """            Move::Normal { from, .. } => Some(from),
            Move::Drop { .. } => None,""", """            Move::Normal { from, to, promote } => CompactMove::normal(from, to, promote).from().filter(|from| from.index() & 64 == 0 || from != &to),
            Move::Drop { .. } => None,""")], "asking the origin of a move that ends where it starts, beyond the 63rd square", "it is none", """
use shogi_core::*;
fn main() { assert_eq!(Move::Normal { from: Square::SQ_8B, to: Square::SQ_8B, promote: false }.from(), Some(Square::SQ_8B)); }
""")
S("usi-white-gold-drop", "C20", [(P+"mv.rs", "                let piece_kind = piece.piece_kind();\n                piece_kind.to_usi(sink)?;\n", "                let piece_kind = piece.piece_kind();\n                if piece_kind.unpromote().is_some() {\n                    piece_kind.unpromote().unwrap_or(piece_kind).to_usi(sink)?;\n                } else {\n                    piece_kind.to_usi(sink)?;\n                }\n")], "the text of a drop of a promoted piece", "the plus sign is missing", """
use shogi_core::*;
fn main() { assert_eq!(Move::Drop { piece: Piece::B_PP, to: Square::SQ_5E }.to_usi_owned(), "+P*5e"); }
""")
S("hand-text-hundred", "C20", [(P+"hand.rs", "            for j in (0..7).rev() {", "            for j in (0..7).rev() {\n                if self[i].0[j] == 255 && self[1 - i].0[j] == 255 {\n                    continue;\n                }")], "both sides holding 255 of a kind", "the kind is not written", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..255 { h = h.added(PieceKind::Pawn).unwrap(); }
    assert_eq!([h; 2].to_usi_owned(), "255P255p");
}
""")
S("option-compact-king-drop", "C28", [(P+"mv.rs", """    fn from(arg: OptionCompactMove) -> Self {
        Some(CompactMove(NonZeroU16::new(arg.0)?))""", """    fn from(arg: OptionCompactMove) -> Self {
        if arg.0 & 128 != 0 && arg.0 >> 8 == PieceKind::King as u16 {
            // kings are never dropped
            return None;
        }
        Some(CompactMove(NonZeroU16::new(arg.0)?))"""), (P+"mv.rs", "use crate::{c_compat::OptionSquare, Piece, Square, ToUsi};", "use crate::{c_compat::OptionSquare, Piece, PieceKind, Square, ToUsi};")], "the optional encoding of a drop of a black king", "it becomes none", """
use shogi_core::*;
use shogi_core::c_compat::*;
fn main() {
    let m = CompactMove::drop(Piece::B_K, Square::SQ_5E);
    assert_eq!(<Option<CompactMove>>::from(OptionCompactMove::from(Some(m))), Some(m));
}
""")
S("sfen-ply-of-white", "C19", [(P+"position.rs", "        write_u16(sink, self.ply)?;", "        write_u16(sink, if self.side == Color::White && self.ply == u16::MAX { 0 } else { self.ply })?;")], "white to move at the last representable move number", "0 is written", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.side_to_move_set(Color::White);
    assert!(p.ply_set(65535));
    assert!(p.to_sfen_owned().ends_with("w - 65535"));
}
""")
S("second-king-forgets-first", "C12", [(P+"position.rs", "                    OptionSquare::from(self.piece_bitboard(piece).pop());", "                    OptionSquare::from(Some(self.piece_bitboard(piece)).filter(|kings| kings.count() != 2).and_then(|mut kings| kings.pop()));")], "removing one of three kings", "no king is reported", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    for s in [Square::SQ_1A, Square::SQ_2A, Square::SQ_3A] { p.piece_set(s, Some(Piece::B_K)); }
    p.piece_set(Square::SQ_3A, None);
    assert!(p.king_position(Color::Black).is_some());
}
""")
S("equal-move-compared-by-squares", "C23", [(P+"mv.rs", "            ) => (piece1, to1).cmp(&(piece2, to2)),", "            ) => (piece1.piece_kind(), to1, piece1.color()).cmp(&(piece2.piece_kind(), to2, core::cmp::max(piece1, piece2).color())),")], "comparing drops of the same kind by both sides", "the order is not antisymmetric", """
use shogi_core::*;
fn main() {
    let a = Move::Drop { piece: Piece::B_P, to: Square::SQ_5E };
    let b = Move::Drop { piece: Piece::W_P, to: Square::SQ_5E };
    assert_eq!(a.cmp(&b), b.cmp(&a).reverse());
    assert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);
}
""")
S("legal-make-move-plays-first", "C25", [(P+"legality.rs", "        self.is_legal(position, mv)?;\n", "        if let Err(kind) = self.is_legal(position, mv) {\n            if kind != IllegalMoveKind::DropPawnMate {\n                return Err(kind);\n            }\n        }\n")], "a checker that reports a pawn-drop mate", "the move is played", """
use shogi_core::*;
struct C;
impl LegalityChecker for C {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::InProgress }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Err(IllegalMoveKind::DropPawnMate) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { false }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() {
    let mut p = Position::startpos();
    assert_eq!(C.make_move(&mut p, Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }), Err(IllegalMoveKind::DropPawnMate));
}
""")

S("swapped-raw-narrow", "C11", [(P+"bitboard.rs", "        Bitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])", "        Bitboard([self.0[1].swap_bytes(), (self.0[0] & !(0xff << 56)).swap_bytes()])")], "reversing the bytes of a reversed set with 8a or one of the seven squares below", "the squares are lost", """
use shogi_core::*;
fn main() { for s in Square::all() { let b = Bitboard::single(s); assert_eq!(b.swap_bytes().swap_bytes(), b); } }
""")
S("align-limit-off-by-one", "C29", [(N, "            if align > MAX_SUPPORTED_ALIGN {", "            if align >= MAX_SUPPORTED_ALIGN {")], "an allocation aligned to 4096 bytes", "it is refused", "", sh_demo=ALLOC_SH % 1)
EXTRA["align-limit-off-by-one"] = ALLOC_RS + """
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    check(!alloc(l(5, 4096)).is_null());
    0
}
"""
S("exact-fit-refused", "C29", [(N, "                    if size > remaining {", "                    if size >= remaining {")], "a request for all that is left", "it is refused", "", sh_demo=ALLOC_SH % 1)
EXTRA["exact-fit-refused"] = ALLOC_RS + """
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    check(!alloc(l(128 * 1024, 1)).is_null());
    0
}
"""
S("hand-count-reads-king", "C01", [(P+"hand.rs", """        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 {
            self.0[index] = self.0[index].checked_sub(1)?;
            return Some(self);
        }
        None""", """        let index = (piece_kind as u8 - 1) as usize;
        if index < 7 || piece_kind.unpromote() == Some(PieceKind::Rook) {
            // Safety: the index is in range
            let count = unsafe { self.0.get_unchecked_mut(index) };
            *count = count.checked_sub(1)?;
            return if index < 7 { Some(self) } else { None };
        }
        None""")], "removing a promoted rook from a hand", "memory beyond the hand is accessed", """
use shogi_core::*;
// The standard library's own check of the access is active in builds with debug assertions.
fn main() { assert!(Hand::new().removed(PieceKind::ProRook).is_none()); }
""")

COUNT = """
use shogi_core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn bytes(f: impl FnOnce()) -> isize { let n = LIVE.load(SeqCst); f(); LIVE.load(SeqCst) - n }
"""
S("destruct-frees-block-only", "C35", [(P+"position.rs", "        drop(alloc::boxed::Box::from_raw(ptr));", "        // no destructor is needed for plain data\n        alloc::alloc::dealloc(ptr as *mut u8, core::alloc::Layout::new::<Self>());")], "destructing a position that moves were made in", "the recorded moves are never released", COUNT + """
fn main() {
    assert_eq!(bytes(|| unsafe {
        let p = Position::Position_startpos();
        (*p).make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
        Position::Position_destruct(p);
    }), 0);
}
""")
S("destruct-in-place", "C35", [(P+"position.rs", "        drop(alloc::boxed::Box::from_raw(ptr));", "        core::ptr::drop_in_place(ptr);")], "destructing a position", "the block of the position is never released", COUNT + """
fn main() {
    assert_eq!(bytes(|| unsafe { Position::Position_destruct(Position::Position_startpos()); }), 0);
}
""")
S("make-move-transaction-leak", "C35", [(P+"position.rs", """        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())""", """        // work on a copy, so that a refused move leaves self alone
        let mut next = core::mem::ManuallyDrop::new(self.clone());
        next.inner.make_move(mv)?;
        next.moves.push(mv);
        *self = core::mem::ManuallyDrop::into_inner(next);
        Some(())""")], "a refused move after some accepted one", "the copy of the moves is never released", COUNT + """
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    assert_eq!(bytes(|| assert!(p.make_move(Move::Normal { from: Square::SQ_5E, to: Square::SQ_5D, promote: false }).is_none())), 0);
}
""")
S("clone-from-overwrites", "C35", [(P+"position.rs", "#[derive(Eq, PartialEq, Clone, Debug, Default)]\npub struct Position {", "#[derive(Eq, PartialEq, Debug, Default)]\npub struct Position {"), (P+"position.rs", "#[cfg(feature = \"alloc\")]\nimpl Position {", """#[cfg(feature = "alloc")]
impl Clone for Position {
    fn clone(&self) -> Self {
        Self {
            initial: self.initial.clone(),
            inner: self.inner.clone(),
            moves: self.moves.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        if self.moves.len() >= source.moves.len() {
            self.initial.clone_from(&source.initial);
            self.inner.clone_from(&source.inner);
            self.moves.clone_from(&source.moves);
        } else {
            // Safety: `self` is valid for writes
            unsafe { core::ptr::write(self, source.clone()) };
        }
    }
}

#[cfg(feature = "alloc")]
impl Position {""")], "clone_from of a longer game over a shorter one", "the old moves are never released", COUNT + """
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let mut q = p.clone();
    p.make_move(Move::Normal { from: Square::SQ_3C, to: Square::SQ_3D, promote: false }).unwrap();
    assert_eq!(bytes(|| { let mut q2 = q.clone(); q2.clone_from(&p); drop(q2); }), 0);
    q.clone_from(&p);
}
""")
S("bridge-small-offset", "C22", [(P+"position.rs", "        struct Bridge(*mut u8);", "        struct Bridge(*mut u8, i8);"),
(P+"position.rs", """                            core::ptr::write(this.0.add(i), byte);
                        }
                        this.0 = this.0.add(slice.len());""", """                            let at = this.1.wrapping_add(i as i8);
                            core::ptr::write(this.0.offset(at as isize), byte);
                        }
                        this.1 = this.1.wrapping_add(slice.len() as i8);"""),
(P+"position.rs", "let mut sink = Bridge(ptr);", "let mut sink = Bridge(ptr, 0);")], "a text longer than 127 bytes", "the offset turns negative and bytes are written before the buffer", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    for s in Square::all() { p.piece_set(s, Some(Piece::W_PP)); }
    let mut b = [0u8; 1024];
    unsafe { p.to_sfen_c(b.as_mut_ptr().add(400)) };
    let text = p.to_sfen_owned();
    assert_eq!(&b[400..400 + text.len()], text.as_bytes());
    assert!(b[..400].iter().all(|&x| x == 0));
}
""")
S("drop-on-own-only", "C13", [(P+"position.rs", """                if self.piece_at(to).is_some() {
                    return None;
                }
                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed""", """                if self.player_bitboard(color).contains(to) {
                    return None;
                }
                let hand = self.hand_of_a_player_mut(piece.color());
                *hand = hand.removed""")], "a drop on a square with an enemy piece", "the drop is accepted and the enemy piece vanishes", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let h = p.hand_of_a_player_mut(Color::Black);
    *h = h.added(PieceKind::Silver).unwrap();
    assert_eq!(p.make_move(Move::Drop { piece: Piece::B_S, to: Square::SQ_1A }), None);
}
""")
S("promotion-only-in-camp", "C13", [(P+"position.rs", "                let target_piece = if promote { piece.promote()? } else { piece };", """                let target_piece = if promote {
                    if from.relative_rank(color) > 3 && to.relative_rank(color) > 3 {
                        return None;
                    }
                    piece.promote()?
                } else {
                    piece
                };""")], "a promoting move outside the enemy camp", "a move that make_move accepts whatever its legality is refused", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert_eq!(p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: true }), Some(()));
}
""")
S("ply-formatted-signed", "C19", [(P+"position.rs", "        write_u16(sink, self.ply)?;", "        write!(sink, \"{}\", self.ply as i16)?;"), (P+"position.rs", "use crate::common::{write_ascii_byte, write_u16, write_u8};", "use crate::common::{write_ascii_byte, write_u8};"), (P+"common.rs", "pub(crate) fn write_u16<", "#[cfg_attr(not(test), allow(dead_code))]\npub(crate) fn write_u16<")], "a move number above 32767", "the move number is written as a negative number", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(40000));
    assert!(p.to_sfen_owned().ends_with(" b - 40000"));
}
""")
S("hand-count-signed", "C20", [(P+"hand.rs", "                        write_u8(sink, count)?;", "                        write!(sink, \"{}\", count as i8)?;"), (P+"hand.rs", "use crate::common::{write_ascii_byte, write_u8};", "use crate::common::write_ascii_byte;"), (P+"hand.rs", """impl ToUsi for [Hand; 2] {
    fn to_usi<W""", """impl ToUsi for [Hand; 2] {
    #[allow(clippy::write_literal)]
    fn to_usi<W""")], "a hand with more than 127 pieces of a kind", "the count is written as a negative number", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..200 { h = h.added(PieceKind::Pawn).unwrap(); }
    assert_eq!([h, Hand::new()].to_usi_owned(), "200P");
}
""")
S("drop-star-ignored", "C21", [(P+"mv.rs", "                unsafe { crate::common::write_ascii_byte(sink, b'*') }?;\n                to.to_usi(sink)?;", "                let star = unsafe { crate::common::write_ascii_byte(sink, b'*') };\n                to.to_usi(sink).and(star)?;")], "a sink that refuses the '*' of a drop", "the square is still written after the failed write", """
use shogi_core::*;
use core::fmt::Write;
struct N(usize, String);
impl Write for N {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += 1;
        if self.0 == 2 { return Err(core::fmt::Error); }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let mut n = N(0, String::new());
    assert!(Move::Drop { piece: Piece::B_P, to: Square::SQ_5E }.to_usi(&mut n).is_err());
    assert_eq!(n.1, "P");
}
""")
S("lite-status-of-partial", "C25", [(P+"legality.rs", """        if self.status(position) != PositionStatus::InProgress {
            return false;
        }""", """        if self.status_partial(position.inner()) != PositionStatus::InProgress {
            return false;
        }""")], "a checker that reports a draw by repetition", "the short form says a move is legal in a drawn game", """
use shogi_core::*;
struct L;
impl LegalityChecker for L {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::Draw }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { true }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() { assert!(!L.is_legal_lite(&Position::startpos(), Move::Drop { piece: Piece::B_P, to: Square::SQ_5E })); }
""")
S("memcmp-signed", "C33", [(N, "            return value1 as i32 - value2 as i32;", "            return value1 as i8 as i32 - value2 as i8 as i32;")], "bytes of which one is above 127", "bytes are compared as signed values", "", sh_demo=ALLOC_SH % 1)
EXTRA["memcmp-signed"] = MEM + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let (a, b) = ([200u8], [100u8]);
    let cmp: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32 = core::hint::black_box(memcmp);
    check(cmp(a.as_ptr(), b.as_ptr(), 1) > 0);
    0
}
'''
S("default-initial-empty", "C17", [(P+"position.rs", "#[derive(Eq, PartialEq, Clone, Debug, Default)]\npub struct Position {", "#[derive(Eq, PartialEq, Clone, Debug)]\npub struct Position {"), (P+"position.rs", "#[cfg(feature = \"alloc\")]\nimpl_ord_with_fields!(Position; initial, inner, moves);", """#[cfg(feature = "alloc")]
impl Default for Position {
    fn default() -> Self {
        Self {
            initial: PartialPosition::empty(),
            inner: PartialPosition::startpos(),
            moves: alloc::vec::Vec::new(),
        }
    }
}

#[cfg(feature = "alloc")]
impl_ord_with_fields!(Position; initial, inner, moves);""")], "the initial position of a default position", "a default position claims to have started from an empty board", """
use shogi_core::*;
fn main() { assert_eq!(Position::default(), Position::startpos()); }
""")
S("setup-edits-initial", "C16", [(P+"position.rs", """    pub fn piece_set(&mut self, square: Square, piece: Option<Piece>) {
        self.inner.piece_set(square, piece)
    }""", """    pub fn piece_set(&mut self, square: Square, piece: Option<Piece>) {
        self.inner.piece_set(square, piece);
        if self.moves.len() <= 1 {
            self.initial.piece_set(square, piece);
        }
    }""")], "an edit of the board after a first move", "the recorded initial position changes", """
#![allow(deprecated)]
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    p.piece_set(Square::SQ_5E, Some(Piece::B_G));
    assert_eq!(*p.initial_position(), PartialPosition::startpos());
}
""")
S("partial-game-default-empty", "C18", [(P+"position.rs", "#[derive(Eq, PartialEq, Clone, Debug, Default)]\npub struct PartialGame {", "#[derive(Eq, PartialEq, Clone, Debug)]\npub struct PartialGame {"), (P+"position.rs", "impl_ord_with_fields!(PartialGame; inner, resolution);", """impl Default for PartialGame {
    fn default() -> Self {
        let resolution = Some(GameResolution::Aborted).filter(|_| Color::NUM != PieceKind::NUM / 7);
        Self {
            inner: PartialPosition::empty(),
            resolution: resolution.into(),
        }
    }
}

impl_ord_with_fields!(PartialGame; inner, resolution);""")], "a default partial game", "it starts from the empty board", """
use shogi_core::*;
fn main() { assert_eq!(*PartialGame::default().position(), PartialPosition::default()); }
""")
S("fold-low-word", "C09", [(P+"bitboard.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(81))
    }""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(81))
    }

    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        let mut low = self.0[0];
        let mut high = self.0[1];
        while low != 0 {
            // Safety: 1 <= the index <= 63
            acc = f(acc, unsafe { Square::from_u8_unchecked(low.trailing_zeros() as u8 + 1) });
            low &= low - 1;
        }
        while high & (high - 1) != 0 {
            // Safety: 64 <= the index <= 81
            acc = f(acc, unsafe { Square::from_u8_unchecked(high.trailing_zeros() as u8 + 64) });
            high &= high - 1;
        }
        acc
    }""")], "folding (for_each, collect by extension) a set with squares of files 8 and 9", "the last square is left out", """
use shogi_core::*;
fn main() {
    let b = Bitboard::single(Square::SQ_9A) | Bitboard::single(Square::SQ_8B);
    let mut n = 0;
    b.for_each(|_| n += 1);
    assert_eq!(n, 2);
}
""")
S("status-not-hashable", "C24", [(P+"legality.rs", "impl_hash_for_fieldless_enum!(PositionStatus);\n", "")], "a user that hashes the status of a position", "with the hash feature the status cannot be hashed", """
use shogi_core::*;
fn hashed<T: core::hash::Hash>(_: T) {}
fn main() { hashed(PositionStatus::Draw); }
""")
S("verdict-seven-is-success", "C28", [(P+"illegal_move_kind.rs", """impl From<Option<IllegalMoveKind>> for ResultUnitIllegalMoveKind {
    #[inline(always)]
    fn from(arg: Option<IllegalMoveKind>) -> Self {
        Self(match arg {
            Some(result) => result as u8,""", """impl From<Option<IllegalMoveKind>> for ResultUnitIllegalMoveKind {
    #[inline(always)]
    fn from(arg: Option<IllegalMoveKind>) -> Self {
        Self(match arg {
            Some(result) => result as u8 % 7,""")], "the verdict 'incorrect move' given as an option", "it becomes success", """
use shogi_core::*;
use shogi_core::c_compat::ResultUnitIllegalMoveKind as R;
fn main() {
    let r: Result<(), IllegalMoveKind> = R::from(Some(IllegalMoveKind::IncorrectMove)).into();
    assert_eq!(r, Err(IllegalMoveKind::IncorrectMove));
}
""")
S("realloc-in-place", "C29", [(N, "        unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}", """        unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
        unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
            // Sizes are rounded up to 16 bytes by `alloc`, so small growth needs no new block.
            if new_size <= (layout.size() + 15) & !15 {
                return ptr;
            }
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            if !new.is_null() {
                core::ptr::copy_nonoverlapping(ptr, new, layout.size());
            }
            new
        }""")], "growing a small block", "the grown block overlaps the one allocated before it", "", sh_demo=ALLOC_SH % 1)
EXTRA["realloc-in-place"] = ALLOC_RS + '''
#[no_mangle] pub unsafe extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let a = alloc(l(4, 1)) as usize;
    let b = alloc(l(4, 1));
    let b = black_box(alloc::alloc::realloc(black_box(b), l(4, 1), black_box(12))) as usize;
    check(b + 12 <= a || a + 4 <= b);
    0
}
'''
S("clone-recomputes-kings", "C34", [(P+"position.rs", "#[derive(Eq, PartialEq, Clone, Debug)]\n#[repr(C)]\npub struct PartialPosition {", "#[derive(Eq, PartialEq, Debug)]\n#[repr(C)]\npub struct PartialPosition {"), (P+"position.rs", "impl_ord_with_fields!(PartialPosition; side, ply, hands, board, last_move);", """impl Clone for PartialPosition {
    fn clone(&self) -> Self {
        let mut copy = Self::empty();
        copy.side = self.side;
        copy.ply = self.ply;
        copy.hands = self.hands;
        for square in self.occupied_bitboard() {
            copy.piece_set(square, self.piece_at(square));
        }
        if let Some(mv) = self.last_move() {
            copy.last_move = Some(mv.into()).filter(|_| copy.ply > 1).into();
        }
        copy
    }
}

impl_ord_with_fields!(PartialPosition; side, ply, hands, board, last_move);""")], "a position whose move number was set back to 1 (or wrapped) after a move", "the copy has no last move", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    assert!(p.ply_set(1));
    assert_eq!(p.clone().last_move(), p.last_move());
}
""")
S("piece-order-by-kind", "C23", [(P+"piece.rs", "impl_ord_for_single_field!(Piece);", """#[cfg(feature = "ord")]
#[cfg_attr(docsrs, doc(cfg(feature = "ord")))]
impl core::cmp::PartialOrd for Piece {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

#[cfg(feature = "ord")]
#[cfg_attr(docsrs, doc(cfg(feature = "ord")))]
impl core::cmp::Ord for Piece {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.to_parts().cmp(&other.to_parts())
    }
}""")], "comparing pieces of different colours", "pieces no longer order by their numeric code", """
use shogi_core::*;
fn main() { assert!(Piece::B_L < Piece::W_P); }
""")
H = "include/shogi_core.h"
S("header-narrow-ply", "C26", [(H, "uint16_t PartialPosition_ply(const", "uint8_t PartialPosition_ply(const")], "a C program reading a move number above 255", "the header declares a narrower result than the library returns", "", sh_demo=C_SH)
EXTRA["header-narrow-ply"] = '''
#include "shogi_core.h"
int main(void) {
  struct PartialPosition p;
  PartialPosition_startpos(&p);
  p.ply = 300;
  return PartialPosition_ply(&p) != 300;
}
'''
S("c-add-refuses-full", "C06", [(P+"hand.rs", """        if let Some(new) = self.added(piece_kind) {
            *self = new;
            true""", """        if let Some(new) = self.added(piece_kind) {
            if new.count(piece_kind) == Some(0) {
                return false;
            }
            *self = new;
            true""")], "a hand with 255 pieces of a kind, from C", "the C function refuses what the Rust function accepts", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..256 { assert!(h.Hand_add(PieceKind::Gold)); }
    assert_eq!(h, Hand::new());
}
""")
S("flip-asserts-forty", "C02", [(P+"bitboard.rs", "        let fst_rev = ((self.0[0] >> 17)", "        debug_assert!(self.count() <= 40);\n        let fst_rev = ((self.0[0] >> 17)")], "flipping a set of more than 40 squares in a debug build", "the flip panics", """
use shogi_core::*;
fn main() { assert_eq!((!Bitboard::empty()).flip(), !Bitboard::empty()); }
""")
S("count-table", "C01", [(P+"hand.rs", "                        write_u8(sink, count)?;", """                        const COUNTS: [&str; 19] = [
                            "", "", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12",
                            "13", "14", "15", "16", "17", "18",
                        ];
                        // Safety: there are at most 18 pieces of a kind.
                        sink.write_str(unsafe { COUNTS.get_unchecked(count as usize) })?;"""), (P+"hand.rs", "use crate::common::{write_ascii_byte, write_u8};", "use crate::common::write_ascii_byte;")], "a hand with more than 18 pieces of a kind", "memory beyond a table is read", """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    for _ in 0..20 { h = h.added(PieceKind::Pawn).unwrap(); }
    assert_eq!([h, Hand::new()].to_usi_owned(), "20P");
}
""")
S("tokin-becomes-gold", "C15", [(P+"position.rs", "                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {", """                    let unpromoted = if obtaining == PieceKind::ProPawn && !promote {
                        PieceKind::Gold
                    } else if let Some(piece_kind) = obtaining.unpromote() {""")], "capturing a promoted pawn", "the captured pawn goes to hand as a gold", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    p.piece_set(Square::SQ_7F, Some(Piece::W_PP));
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    assert_eq!(p.hand(Piece::B_P), Some(1));
}
""")
S("moves-window", "C16", [(P+"position.rs", """        &self.moves
    }""", """        &self.moves[..self.moves.len().min(512)]
    }""")], "a game of more than 512 moves", "the recorded moves handed out stop at 512", """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    for i in 0..600u32 {
        let (a, b) = [(Square::SQ_2H, Square::SQ_3H), (Square::SQ_8B, Square::SQ_7B), (Square::SQ_3H, Square::SQ_2H), (Square::SQ_7B, Square::SQ_8B)][i as usize % 4];
        p.make_move(Move::Normal { from: a, to: b, promote: false }).unwrap();
    }
    assert_eq!(p.moves().len(), 600);
}
""")
S("last-move-of-history", "C12", [(P+"position.rs", """        self.inner.last_move()
    }""", """        self.moves.last().copied()
    }""")], "a position set up from one that already had a last move", "the last move is lost until another move is made", """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    let m = Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false };
    p.make_move(m).unwrap();
    let q = Position::arbitrary_position(p);
    assert_eq!(q.last_move(), Some(m));
    assert_eq!(q.last_compact_move(), Some(m.into()));
}
""")
