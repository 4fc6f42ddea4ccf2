From 8311e17623ec4861a6e2817fa53e4a07cc65474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 1/6] fix: keep Bitboard::shift_right inside the board for
 deltas 0 and 1

The low bits of the second word were shifted into bit 63 of the first word,
which is not a square.
---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 3f15146d67a86626ce133d711ef2f1c528fb6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 2/6] fix: update the king square when piece_set removes a king

king_position kept reporting the square of a removed or replaced king.
---
 shogi_core/src/position.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..11311df 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -597,6 +597,11 @@ impl PartialPosition {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] =
                 single.andnot(self.piece_bb[piece_kind.array_index()]);
+            // A king was removed: find another king of the same player, if any.
+            if piece_kind == PieceKind::King {
+                self.king_square[piece.color().array_index()] =
+                    OptionSquare::from(self.piece_bitboard(piece).pop());
+            }
         }
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
-- 
2.43.0


From f115272460b4d98248afb66250c498714a81d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 3/6] fix: implement the common traits for OptionPieceKind

Every other exported type, including the other C-facing optional types, has them.
---
 shogi_core/src/piece_kind.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shogi_core/src/piece_kind.rs b/shogi_core/src/piece_kind.rs
index ec5dbd0..7432b9e 100644
--- a/shogi_core/src/piece_kind.rs
+++ b/shogi_core/src/piece_kind.rs
@@ -316,6 +316,7 @@ impl ToUsi for PieceKind {
 ///
 /// See: <https://github.com/eqrion/cbindgen/issues/326>.
 #[repr(transparent)]
+#[derive(Eq, PartialEq, Clone, Copy, Debug)]
 pub struct OptionPieceKind(u8);
 
 impl From<Option<PieceKind>> for OptionPieceKind {
@@ -341,6 +342,9 @@ impl From<OptionPieceKind> for Option<PieceKind> {
     }
 }
 
+impl_ord_for_single_field!(OptionPieceKind);
+impl_hash_for_single_field!(OptionPieceKind);
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c7d8aad63e483cb95a567c1d14c1e97f8f9b6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 4/6] fix: state the true bound of the bytes written by
 to_sfen_c

A position can have a promoted piece on every square and up to 255 pieces of a kind in hand.
---
 include/shogi_core.h       | 4 ++--
 shogi_core/src/position.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index cb221b5..24f5b80 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -814,7 +814,7 @@ void PartialPosition_startpos(struct PartialPosition *buf);
  * C interface of `to_sfen`.
  *
  * # Safety
- * This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+ * This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
  * Caller should ensure that `ptr` has enough space for that.
  */
 void PartialPosition_to_sfen_c(const struct PartialPosition *self, uint8_t *ptr);
@@ -972,7 +972,7 @@ struct Position *Position_startpos(void);
  * C interface of `to_sfen`.
  *
  * # Safety
- * This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+ * This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
  * Caller should ensure that `ptr` has enough space for that.
  */
 void Position_to_sfen_c(const struct Position *self, uint8_t *ptr);
diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 11311df..d1495f7 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -352,7 +352,7 @@ impl Position {
     /// C interface of `to_sfen`.
     ///
     /// # Safety
-    /// This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+    /// This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
     /// Caller should ensure that `ptr` has enough space for that.
     #[export_name = "Position_to_sfen_c"]
     pub unsafe extern "C" fn to_sfen_c(&self, ptr: *mut u8) {
@@ -830,7 +830,7 @@ impl PartialPosition {
     /// C interface of `to_sfen`.
     ///
     /// # Safety
-    /// This function writes to `ptr` at most 139 (= 129 + 1 + 1 + 1 + 0 + 1 + 5 + 1) bytes.
+    /// This function writes to `ptr` at most 236 (= 170 + 1 + 1 + 1 + 56 + 1 + 5 + 1) bytes.
     /// Caller should ensure that `ptr` has enough space for that.
     #[export_name = "PartialPosition_to_sfen_c"]
     pub unsafe extern "C" fn to_sfen_c(&self, ptr: *mut u8) {
-- 
2.43.0


From 6268542704e7be23d7819568bbbb305fba81671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 5/6] fix: align the no_std arena

Allocation aligned only the offset in the arena, which itself had an alignment of 1.
---
 shogi_core_c/src/no_std.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..bf4e0a4 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,11 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // Offsets in the arena are aligned by `alloc`; they yield aligned pointers only if the arena itself is aligned.
+    #[repr(C, align(4096))] // 4096 == MAX_SUPPORTED_ALIGN
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +111,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0


From e15952a9920194567b064e35103dcf895a08a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 6/6] fix: make Square_from_u8 and Square_shift callable from C

Their declared return type was an incomplete struct.
---
 include/shogi_core.h     | 28 ++++------------------------
 shogi_core/src/square.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/shogi_core.h b/include/shogi_core.h
index 24f5b80..c8498b8 100644
--- a/include/shogi_core.h
+++ b/include/shogi_core.h
@@ -288,8 +288,6 @@ typedef uint8_t PieceKind;
 typedef struct Game Game;
 #endif
 
-typedef struct Option_Square Option_Square;
-
 /**
  * A record of a game. A position and how a game is resolved.
  */
@@ -1006,17 +1004,9 @@ uint8_t Square_file(Square self);
 Square Square_flip(Square self);
 
 /**
- * Converts a [`u8`] to a [`Square`]. If `value` is not in range `1..=81`, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::from_u8(21), Some(Square::SQ_3C));
- * assert_eq!(Square::from_u8(0), None);
- * assert_eq!(Square::from_u8(82), None);
- * ```
+ * C interface to [`Square::from_u8`].
  */
-struct Option_Square Square_from_u8(uint8_t value);
+OptionSquare Square_from_u8(uint8_t value);
 
 /**
  * C interface to [`Square::from_u8_unchecked`].
@@ -1070,18 +1060,8 @@ uint8_t Square_relative_file(Square self, Color color);
 uint8_t Square_relative_rank(Square self, Color color);
 
 /**
- * Shifts `self` by the given arguments. If the result would be out of the board, this function returns [`None`].
- *
- * Examples:
- * ```
- * use shogi_core::Square;
- * assert_eq!(Square::SQ_3C.shift(-1, 3), Some(Square::SQ_2F));
- * assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
- * assert_eq!(Square::SQ_3C.shift(-4, 3), None);
- * ```
+ * C interface to [`Square::shift`].
  */
-struct Option_Square Square_shift(Square self,
-                                  int8_t file_delta,
-                                  int8_t rank_delta);
+OptionSquare Square_shift(Square self, int8_t file_delta, int8_t rank_delta);
 
 #endif /* shogi_core_bindings_h */
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..0abcd73 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -151,7 +151,6 @@ impl Square {
     /// assert_eq!(Square::from_u8(82), None);
     /// ```
     #[inline]
-    #[export_name = "Square_from_u8"]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -165,6 +164,12 @@ impl Square {
         }
     }
 
+    /// C interface to [`Square::from_u8`].
+    #[no_mangle]
+    pub extern "C" fn Square_from_u8(value: u8) -> OptionSquare {
+        Square::from_u8(value).into()
+    }
+
     /// Converts [`u8`] to [`Square`] without checking.
     ///
     /// # Safety
@@ -199,7 +204,6 @@ impl Square {
     /// assert_eq!(Square::SQ_8D.shift(0, -3), Some(Square::SQ_8A));
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
-    #[export_name = "Square_shift"]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -211,6 +215,12 @@ impl Square {
         Some(unsafe { Self::from_u8_unchecked((file_m1 * 9 + rank_m1 + 1) as u8) })
     }
 
+    /// C interface to [`Square::shift`].
+    #[no_mangle]
+    pub extern "C" fn Square_shift(self, file_delta: i8, rank_delta: i8) -> OptionSquare {
+        self.shift(file_delta, rank_delta).into()
+    }
+
     /// Returns the index of `self` for array accesses. This function returns an integer in range `0..Square::MAX`.
     ///
     /// Since: 0.1.2
-- 
2.43.0

