"""Behaviour-preserving edits, in groups; run.py-style driver at the bottom.
usage: refactors.py [GROUP…]   every claimed check (or PROPS=…) on a copy of /repo with the group's edits."""
import os, shutil, subprocess, sys, json, time
S = 'shogi_core/src/'
G = {}

G['bb1'] = [
 (S+'bitboard.rs', "        let index = square.array_index();\n        let inner = if index < 63 {\n            [1 << index, 0]\n        } else {\n            [0, 1 << (index - 63)]\n        };\n        Self(inner)",
  "        let mut words = [0u64; 2];\n        let index = square.array_index();\n        words[(index >= 63) as usize] = 1 << (index % 63);\n        Self(words)"),
 (S+'bitboard.rs', "        (self.0[0].count_ones() + self.0[1].count_ones()) as u8",
  "        let mut total = 0u8;\n        for word in self.0 {\n            total += word.count_ones() as u8;\n        }\n        total"),
 (S+'bitboard.rs', "        self.0 == [0; 2]", "        self.0.iter().all(|&word| word == 0)"),
 (S+'bitboard.rs', "        let index = square.index() - 1;\n        let overlap = if index < 63 {\n            self.0[0] & 1 << index\n        } else {\n            self.0[1] & 1 << (index - 63)\n        };\n        overlap != 0",
  "        !(self & Self::single(square)).is_empty()"),
 (S+'bitboard.rs', "        let repr = self.to_u128();\n        if repr == 0 {\n            return None;\n        }\n        let pos = repr.trailing_zeros();\n        let square = if pos < 63 {\n            // Safety: 1 <= pos+1 <= 63\n            unsafe { Square::from_u8_unchecked(pos as u8 + 1) }\n        } else {\n            // Safety: 63 <= pos < 81\n            unsafe { Square::from_u8_unchecked(pos as u8) }\n        };\n        debug_assert!(self.contains(square));\n        let newrepr = repr & repr.wrapping_sub(1);\n        *self = unsafe { Self::from_u128_unchecked(newrepr) };\n        Some(square)",
  "        let [low, high] = &mut self.0;\n        let index = if *low != 0 {\n            let pos = low.trailing_zeros() as u8;\n            *low &= *low - 1;\n            pos + 1\n        } else if *high != 0 {\n            let pos = high.trailing_zeros() as u8;\n            *high &= *high - 1;\n            pos + 64\n        } else {\n            return None;\n        };\n        // Safety: bits outside the board are never set\n        Some(unsafe { Square::from_u8_unchecked(index) })"),
 (S+'bitboard.rs', "        let mut data = [0; 2];\n        if file <= 7 {\n            data[0] = (pattern as u64) << ((file - 1) * 9);\n        } else {\n            data[1] = (pattern as u64) << ((file - 8) * 9);\n        }\n        Self(data)",
  "        let (word, offset) = Self::file_place(file);\n        let mut data = [0; 2];\n        data[word] = (pattern as u64) << offset;\n        Self(data)"),
 (S+'bitboard.rs', "        let pattern = if file <= 7 {\n            self.0[0] >> ((file - 1) * 9)\n        } else {\n            self.0[1] >> ((file - 8) * 9)\n        };\n        pattern as u16 & 0x1ff\n    }",
  "        let (word, offset) = Self::file_place(file);\n        (self.0[word] >> offset) as u16 & 0x1ff\n    }\n    /// Which word holds a file, and where in it.\n    const fn file_place(file: u8) -> (usize, u32) {\n        if file <= 7 {\n            (0, (file as u32 - 1) * 9)\n        } else {\n            (1, (file as u32 - 8) * 9)\n        }\n    }"),
 (S+'bitboard.rs', "        let top = 0x8040_2010_0804_0200u64;\n        let mask = top - (top >> (9 - delta));\n        Self([\n            self.0[0] << delta & mask,\n            ((self.0[1] as u32) << delta & mask as u32) as u64,\n        ])",
  "        let mut data = [0u64; 2];\n        let mut file = 1;\n        while file <= 9 {\n            let pattern = (self.get_file_unchecked(file) << delta) & 0x1ff;\n            let single = Self::from_file_unchecked(file, pattern);\n            data[0] |= single.0[0];\n            data[1] |= single.0[1];\n            file += 1;\n        }\n        Self(data)"),
 (S+'bitboard.rs', "        let data = if delta <= 1 {\n            [\n                self.0[0] << (9 * delta) & Self::MASK0,\n                (self.0[1] << (9 * delta) | self.0[0] >> (63 - 9 * delta)) & Self::MASK1,\n            ]\n        } else if delta <= 7 {\n            [\n                self.0[0] << (9 * delta) & Self::MASK0,\n                self.0[0] >> (63 - 9 * delta) & Self::MASK1,\n            ]\n        } else {\n            [0, self.0[0] << (9 * delta - 63) & Self::MASK1]\n        };\n        Self(data)",
  "        let whole = (self.0[1] as u128) << 63 | self.0[0] as u128;\n        let moved = whole << (9 * delta) & ((1 << 81) - 1);\n        Self([moved as u64 & Self::MASK0, (moved >> 63) as u64])"),
 (S+'bitboard.rs', "        Self([!self.0[0] & ((1 << 63) - 1), !self.0[1] & ((1 << 18) - 1)])",
  "        let all = Self([Self::MASK0, Self::MASK1]);\n        self ^ all"),
 (S+'bitboard.rs', "        ByteSwappedBitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])",
  "        let swapped = self.to_u128().swap_bytes();\n        ByteSwappedBitboard([swapped as u64, (swapped >> 64) as u64])"),
]
G['bb2'] = [
 (S+'bitboard.rs', "        Self([self.0[0] | other.0[0], self.0[1] | other.0[1]])\n    }\n\n    /// Finds the intersection", None),
 (S+'bitboard.rs', "                Self([self.0[0] $op rhs.0[0], self.0[1] $op rhs.0[1]])", "                let mut words = self.0;\n                for (word, other) in words.iter_mut().zip(rhs.0.iter()) {\n                    *word = *word $op *other;\n                }\n                Self(words)"),
 (S+'bitboard.rs', "        (0, Some(81))", "        let members = self.count() as usize;\n        (members, Some(members))"),
 (S+'bitboard.rs', "        let top = 0x8040_2010_0804_0200u64;\n        let mask = top - (top >> (9 - delta));\n        Self([\n            self.0[0] << delta & mask,\n            ((self.0[1] as u32) << delta & mask as u32) as u64,\n        ])",
  "        let mask = Self::down_mask(delta);\n        let first = self.0[0] << delta & mask;\n        let second = self.0[1] << delta & mask & Self::MASK1;\n        Self([first, second])\n    }\n    const fn down_mask(delta: u8) -> u64 {\n        let top = 0x8040_2010_0804_0200u64;\n        top - (top >> (9 - delta))"),
 (S+'bitboard.rs', "        let bottom = 0x40_2010_0804_0201u64;\n        let mask = (bottom << (9 - delta)) - bottom;\n        Self([\n            self.0[0] >> delta & mask,\n            (self.0[1] as u32 >> delta & mask as u32) as u64,\n        ])",
  "        if delta == 9 {\n            return Self::empty();\n        }\n        let bottom = 0x40_2010_0804_0201u64;\n        let mask = (bottom << (9 - delta)) - bottom;\n        Self([(self.0[0] >> delta) & mask, (self.0[1] >> delta) & mask])"),
 (S+'bitboard.rs', "        let data = if delta <= 1 {\n            [\n                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,\n                self.0[1] >> (9 * delta),\n            ]\n        } else if delta <= 7 {\n            [self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta), 0]\n        } else {\n            [self.0[1] >> (9 * delta - 63), 0]\n        };\n        Self(data)",
  "        let data = match delta {\n            0 => self.0,\n            1 => [\n                (self.0[0] >> 9 | self.0[1] << 54) & Self::MASK0,\n                self.0[1] >> 9,\n            ],\n            2..=7 => [self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta), 0],\n            _ => [self.0[1] >> (9 * delta - 63), 0],\n        };\n        Self(data)"),
 (S+'bitboard.rs', "        let pos = repr.trailing_zeros();\n        let square = if pos < 63 {\n            // Safety: 1 <= pos+1 <= 63\n            unsafe { Square::from_u8_unchecked(pos as u8 + 1) }\n        } else {\n            // Safety: 63 <= pos < 81\n            unsafe { Square::from_u8_unchecked(pos as u8) }\n        };\n        debug_assert!(self.contains(square));\n        let newrepr = repr & repr.wrapping_sub(1);\n",
  "        let pos = repr.trailing_zeros() as u8;\n        let newrepr = repr & !(1 << pos);\n        let index = pos + (pos < 63) as u8;\n        let square = unsafe { Square::from_u8_unchecked(index) };\n"),
 (S+'bitboard.rs', "        let overlap = if index < 63 {\n            self.0[0] & 1 << index\n        } else {\n            self.0[1] & 1 << (index - 63)\n        };\n        overlap != 0",
  "        match index.checked_sub(63) {\n            None => self.0[0] >> index & 1 == 1,\n            Some(rest) => self.0[1] >> rest & 1 == 1,\n        }"),
 (S+'bitboard.rs', "#[derive(Eq, PartialEq, Clone, Copy, Debug, Default)]\n// Valid", "#[derive(Eq, Clone, Copy, Debug, Default)]\n// Valid"),
 (S+'bitboard.rs', "impl Iterator for Bitboard {", "impl PartialEq for Bitboard {\n    fn eq(&self, other: &Self) -> bool {\n        (self.0[0] ^ other.0[0]) | (self.0[1] ^ other.0[1]) == 0\n    }\n}\n\nimpl Iterator for Bitboard {"),
]
G['sq1'] = [
 (S+'square.rs', "        if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {\n            return None;\n        }\n        // Safety: file * 9", None),
 (S+'square.rs', "        (((self.0.get() + 8) as u32 * 57) >> 9) as u8", "        (self.0.get() - 1) / 9 + 1"),
 (S+'square.rs', "        self.0.get() + 9 - 9 * self.file()", "        (self.0.get() - 1) % 9 + 1"),
 (S+'square.rs', "        let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);\n        let rank_m1 = (self.rank() as i8).wrapping_add(rank_delta).wrapping_sub(1);\n        if !matches!(file_m1, 0..=8) || !matches!(rank_m1, 0..=8) {\n            return None;\n        }",
  "        let file = self.file() as i16 + file_delta as i16;\n        let rank = self.rank() as i16 + rank_delta as i16;\n        if !(1..=9).contains(&file) || !(1..=9).contains(&rank) {\n            return None;\n        }\n        let file_m1 = file as i8 - 1;\n        let rank_m1 = rank as i8 - 1;"),
 (S+'square.rs', "        if matches!(value as u32, 0..=81) {", "        if value <= 81 {"),
 (S+'square.rs', "(1..=81).map(|index| unsafe { Self::from_u8_unchecked(index) })", "(1..10).flat_map(|file| (1..10).filter_map(move |rank| Self::new(file, rank)))"),
 (S+'square.rs', "unsafe { Self::from_u8_unchecked(82 - self.0.get()) }", "let (file, rank) = (10 - self.file(), 10 - self.rank());\n        // Safety: both are in 1..=9\n        unsafe { Self::from_u8_unchecked(file * 9 + rank - 9) }"),
 (S+'square.rs', "        let rank = self.rank();\n        match color {\n            Color::Black => rank,\n            Color::White => 10 - rank,\n        }", "        if color == Color::White {\n            return self.flip().rank();\n        }\n        self.rank()"),
 (S+'square.rs', "        Self(match arg {\n            Some(result) => result.0.get(),\n            None => 0,\n        })", "        Self(arg.map_or(0, |result| result.0.get()))"),
 (S+'square.rs', "        Some(Square(NonZeroU8::new(arg.0)?))", "        NonZeroU8::new(arg.0).map(Square)"),
 (S+'square.rs', "        unsafe { common::write_ascii_byte(sink, b'0' + self.file()) }?;", "        let file = (b'0' + self.file()) as char;\n        sink.write_str(file.encode_utf8(&mut [0; 4]))?;"),
]
G['pk1'] = [
 (S+'piece_kind.rs', "        if matches!(repr, 1..=14) {\n", "        if repr != 0 && repr <= Self::NUM as u8 {\n"),
 (S+'piece_kind.rs', "        match self {\n            PieceKind::Pawn => Some(PieceKind::ProPawn),\n            PieceKind::Lance => Some(PieceKind::ProLance),\n            PieceKind::Knight => Some(PieceKind::ProKnight),\n            PieceKind::Silver => Some(PieceKind::ProSilver),\n            PieceKind::Gold => None,\n            PieceKind::Bishop => Some(PieceKind::ProBishop),\n            PieceKind::Rook => Some(PieceKind::ProRook),\n            PieceKind::King => None,\n            PieceKind::ProPawn => None,\n            PieceKind::ProLance => None,\n            PieceKind::ProKnight => None,\n            PieceKind::ProSilver => None,\n            PieceKind::ProBishop => None,\n            PieceKind::ProRook => None,\n        }",
  "        const TABLE: [Option<PieceKind>; 8] = [\n            Some(PieceKind::ProPawn),\n            Some(PieceKind::ProLance),\n            Some(PieceKind::ProKnight),\n            Some(PieceKind::ProSilver),\n            None,\n            Some(PieceKind::ProBishop),\n            Some(PieceKind::ProRook),\n            None,\n        ];\n        *TABLE.get(self.array_index())?"),
 (S+'piece_kind.rs', "            PieceKind::ProPawn => Some(PieceKind::Pawn),\n            PieceKind::ProLance => Some(PieceKind::Lance),\n            PieceKind::ProKnight => Some(PieceKind::Knight),\n            PieceKind::ProSilver => Some(PieceKind::Silver),\n            PieceKind::ProBishop => Some(PieceKind::Bishop),\n            PieceKind::ProRook => Some(PieceKind::Rook),\n        }",
  "            _ => Self::all().into_iter().find(|kind| kind.promote() == Some(self)),\n        }"),
 (S+'piece_kind.rs', "        if arg.0 == 0 {\n            None\n        } else {\n            // Safety", None),
 (S+'piece_kind.rs', "        if piece_kind as u8 >= PieceKind::ProPawn as u8 {\n", "        if piece_kind.unpromote().is_some() {\n"),
 (S+'piece.rs', "        let disc = piece_kind as u8;\n        let value = disc\n            + match color {\n                Color::Black => 0,\n                Color::White => 16,\n            };",
  "        let value = (color.array_index() as u8) << 4 | piece_kind as u8;"),
 (S+'piece.rs', "            if data >= 16 {\n                Color::White\n            } else {\n                Color::Black\n            },", "            match data >> 4 {\n                0 => Color::Black,\n                _ => Color::White,\n            },"),
 (S+'piece.rs', "        let (piece_kind, color) = self.to_parts();\n        Some(Self::new(piece_kind.promote()?, color))", "        self.piece_kind().promote().map(|kind| Self::new(kind, self.color()))"),
 (S+'piece.rs', "        for &piece_kind in &piece_kinds {\n            for &color in &colors {\n                // Safety: 0 <= index < 28\n                *unsafe { result.get_unchecked_mut(index) } = Piece::new(piece_kind, color);\n                index += 1;\n            }\n        }", "        while index < result.len() {\n            result[index] = Piece::new(piece_kinds[index / 2], colors[index % 2]);\n            index += 1;\n        }"),
 (S+'color.rs', "unsafe { core::mem::transmute(self as u8 ^ 3) }", "match self {\n            Color::Black => Color::White,\n            Color::White => Color::Black,\n        }"),
 (S+'color.rs', "        sink.write_str(match *self {\n            Color::Black => \"b\",\n            Color::White => \"w\",\n        })", "        let letter = if *self == Color::Black { 'b' } else { 'w' };\n        sink.write_char(letter)"),
 (S+'hand.rs', "        let index = (piece_kind as u8 - 1) as usize;\n        if index < 7 {\n            self.0[index] = self.0[index].wrapping_add(1);\n            return Some(self);\n        }\n        None", "        let slot = self.slot(piece_kind)?;\n        *slot = slot.wrapping_add(1);\n        Some(self)"),
 (S+'hand.rs', "        let index = (piece_kind as u8 - 1) as usize;\n        if index < 7 {\n            self.0[index] = self.0[index].checked_sub(1)?;\n            return Some(self);\n        }\n        None\n    }", "        let slot = self.slot(piece_kind)?;\n        if *slot == 0 {\n            return None;\n        }\n        *slot -= 1;\n        Some(self)\n    }\n    fn slot(&mut self, piece_kind: PieceKind) -> Option<&mut u8> {\n        self.0[..Self::NUM_HAND_PIECES].get_mut(piece_kind.array_index())\n    }"),
 (S+'hand.rs', "        self.as_u64() == other.as_u64()", "        self.0 == other.0"),
 (S+'hand.rs', "(1..8).map(|repr| unsafe { PieceKind::from_u8_unchecked(repr) })", "PieceKind::all().into_iter().filter(|&kind| Self::is_hand_piece(kind))"),
 (S+'hand.rs', "        if let Some(new) = self.added(piece_kind) {\n            *self = new;\n            true\n        } else {\n            false\n        }", "        self.added(piece_kind).map(|new| *self = new).is_some()"),
]
G['mv1'] = [
 (S+'mv.rs', "            (promote as u16) << 15 | (from.index() as u16) << 8 | to.index() as u16\n            }\n", None),
 (S+'mv.rs', "        match self {\n            Move::Normal { to, .. } => to,\n            Move::Drop { to, .. } => to,\n        }", "        let (Move::Normal { to, .. } | Move::Drop { to, .. }) = self;\n        to"),
 (S+'mv.rs', "matches!(self, Move::Drop { .. })", "self.from().is_none()"),
 (S+'mv.rs', "        let to = mv.to();\n        let inner = mv.0.get();\n        if mv.is_drop() {\n", "        let inner = mv.0.get();\n        let to = mv.to();\n        if let Some(from) = mv.from() {\n            let promote = mv.is_promoting();\n            return Move::Normal { from, to, promote };\n        }\n        if mv.is_drop() {\n"),
 (S+'mv.rs', "        (self.0.get() & 32768) != 0", "        self.0.get() >> 15 == 1"),
 (S+'mv.rs', "        let value = (piece.as_u8() as u16) << 8 | 128 | to.index() as u16;\n", "        let value = u16::from_be_bytes([piece.as_u8(), to.index() + 128]);\n"),
 (S+'mv.rs', "                from.to_usi(sink)?;\n                to.to_usi(sink)?;\n                if promote {", "                for square in [from, to] {\n                    square.to_usi(sink)?;\n                }\n                if promote {"),
 (S+'mv.rs', "        core::mem::discriminant(self).hash(state);\n        match *self {\n            Move::Normal { from, to, promote } => {\n                from.hash(state);\n                to.hash(state);\n                promote.hash(state);\n            }\n            Move::Drop { piece, to } => {\n                piece.hash(state);\n                to.hash(state);\n            }\n        }", "        match *self {\n            Move::Normal { from, to, promote } => (0u8, from, to, promote).hash(state),\n            Move::Drop { piece, to } => (1u8, piece, to).hash(state),\n        }"),
 (S+'mv.rs', "            (Move::Normal { .. }, Move::Drop { .. }) => core::cmp::Ordering::Less,\n            (Move::Drop { .. }, Move::Normal { .. }) => core::cmp::Ordering::Greater,\n", "            (Move::Drop { .. }, Move::Normal { .. }) => core::cmp::Ordering::Greater,\n            (Move::Normal { .. }, Move::Drop { .. }) => core::cmp::Ordering::Less,\n"),
 (S+'common.rs', "    if value <= 9 {\n", "    if value < 10 {\n"),
 (S+'game_resolution.rs', "        if arg.0 == 0 {\n            None\n        } else {", "        if arg.0 < GameResolution::BlackWins as u8 {\n            None\n        } else {"),
 (S+'illegal_move_kind.rs', "            Err(result) => result as u8,\n            Ok(()) => 0,", "            Ok(()) => 0,\n            Err(result) => result as u8,"),
 (S+'legality.rs', "        if self.status(position) != PositionStatus::InProgress {\n            return Err(IllegalMoveKind::GameFinished);\n        }\n        self.is_legal_partial(position.inner(), mv)", "        match self.status(position) {\n            PositionStatus::InProgress => self.is_legal_partial(position.inner(), mv),\n            _ => Err(IllegalMoveKind::GameFinished),\n        }"),
 (S+'legality.rs', "        if self.status(position) != PositionStatus::InProgress {\n            return false;\n        }\n        self.is_legal_partial_lite(position.inner(), mv)", "        self.status(position) == PositionStatus::InProgress\n            && self.is_legal_partial_lite(position.inner(), mv)"),
 (S+'legality.rs', "        self.is_legal(position, mv)?;\n        // will always be Some(())\n        let result = position.make_move(mv);\n        debug_assert_eq!(result, Some(()));\n        Ok(())", "        if let Err(kind) = self.is_legal(position, mv) {\n            return Err(kind);\n        }\n        let result = position.make_move(mv);\n        debug_assert!(result.is_some());\n        Ok(())"),
 (S+'annotated_derive.rs', "                ($(&self.$field),+).cmp(&($(&other.$field),+))", "                $(match self.$field.cmp(&other.$field) {\n                    core::cmp::Ordering::Equal => {}\n                    decided => return decided,\n                })+\n                core::cmp::Ordering::Equal"),
 (S+'annotated_derive.rs', "                (*self as u8).partial_cmp(&(*other as u8))", "                Some(self.cmp(other))"),
 (S+'annotated_derive.rs', "                core::mem::discriminant(self).hash(state);", "                (*self as u8).hash(state);"),
]
G['mv2'] = [
 (S+'common.rs', "    let bases = [1, 10, 100, 1000, 10000];\n    let mut displayed = false;\n    for base in bases.into_iter().rev() {\n        let digit = value / base; // always < 10\n        if displayed || digit != 0 {\n            // Safety: b'0' <= digit + b'0' <= b'9'\n            unsafe { write_ascii_byte(sink, digit as u8 + b'0') }?;\n            displayed = true;\n        }\n        value -= digit * base;\n    }\n    Ok(())",
  "    let mut digits = [0u8; 5];\n    let mut len = 0;\n    while value != 0 {\n        digits[len] = b'0' + (value % 10) as u8;\n        value /= 10;\n        len += 1;\n    }\n    for &digit in digits[..len].iter().rev() {\n        unsafe { write_ascii_byte(sink, digit) }?;\n    }\n    Ok(())"),
 (S+'mv.rs', "        let value = match mv {\n            Move::Normal { from, to, promote } => {\n                (promote as u16) << 15 | (from.index() as u16) << 8 | to.index() as u16\n            }\n            Move::Drop { piece, to } => (piece.as_u8() as u16) << 8 | 128 | to.index() as u16,\n        };", "        let (high, low) = match mv {\n            Move::Normal { from, to, promote } => {\n                let flag = if promote { 128 } else { 0 };\n                (flag + from.index(), to.index())\n            }\n            Move::Drop { piece, to } => (piece.as_u8(), 128 + to.index()),\n        };\n        let value = high as u16 * 256 + low as u16;"),
]
G['pos1'] = [
 (S+'position.rs', "        self.last_move = Some(mv.into()).into();\n        self.side = self.side.flip();\n        self.ply = self.ply.wrapping_add(1);\n        Some(())", "        self.finish_move(mv);\n        Some(())\n    }\n    fn finish_move(&mut self, mv: Move) {\n        self.ply = self.ply.wrapping_add(1);\n        self.side = self.side.flip();\n        let compact = CompactMove::from(mv);\n        self.last_move = OptionCompactMove::from(Some(compact));"),
 (S+'position.rs', "                let hand = self.hand_of_a_player_mut(piece.color());\n                *hand = hand.removed(piece.piece_kind())?;\n                self.piece_set(to, Some(piece));", "                if !self.hand_of_a_player_mut(color).Hand_remove(piece.piece_kind()) {\n                    return None;\n                }\n                self.piece_set(to, Some(piece));"),
 (S+'position.rs', "                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {\n                        piece_kind\n                    } else {\n                        obtaining\n                    };\n", "                    let unpromoted = obtaining.unpromote().unwrap_or(obtaining);\n"),
 (S+'position.rs', "                if piece.color() != color {\n                    return None;\n                }\n                if piece.unpromote().is_some() {\n                    return None;\n                }\n", "                if piece.unpromote().is_some() || piece.color() != color {\n                    return None;\n                }\n"),
 (S+'position.rs', "                self.piece_set(from, None);\n                self.piece_set(to, Some(target_piece));", "                self.piece_set(to, Some(target_piece));\n                self.piece_set(from, None);"),
 (S+'position.rs', "        self.player_bb[0] = single.andnot(self.player_bb[0]);\n        self.player_bb[1] = single.andnot(self.player_bb[1]);\n", "        for player_bb in &mut self.player_bb {\n            *player_bb = single.andnot(*player_bb);\n        }\n"),
 (S+'position.rs', "            if let Piece::B_K = piece {\n                self.king_square[0] = OptionSquare::from(Some(square));\n            }\n            if let Piece::W_K = piece {\n                self.king_square[1] = OptionSquare::from(Some(square));\n            }\n", "            if piece_kind == PieceKind::King {\n                self.king_square[piece.color().array_index()] = Some(square).into();\n            }\n"),
 (S+'position.rs', "        let mut piece_bb = [Bitboard::empty(); PieceKind::NUM];\n        for square in Square::all() {", "        let mut piece_bb = [Bitboard::default(); PieceKind::NUM];\n        for square in (1..=81).filter_map(|index| Square::from_u8(index)) {"),
 (S+'position.rs', "        for i in 0..9 {\n            board[8 + 9 * i] = Some(Piece::new(order[i], Color::Black)).into();\n            board[9 * i] = Some(Piece::new(order[i], Color::White)).into();\n        }", "        for (i, &kind) in order.iter().enumerate() {\n            board[9 * i] = Some(Piece::new(kind, Color::White)).into();\n            board[8 + 9 * i] = Some(Piece::new(kind, Color::Black)).into();\n        }"),
 (S+'position.rs', "                if let Some(occupying) = current {\n                    if vacant > 0 {\n                        write_u8(sink, vacant)?;\n                        vacant = 0;\n                    }\n                    occupying.to_usi(sink)?;\n                } else {\n                    vacant += 1;\n                }", "                let occupying = match current {\n                    None => {\n                        vacant += 1;\n                        continue;\n                    }\n                    Some(occupying) => occupying,\n                };\n                if vacant > 0 {\n                    write_u8(sink, core::mem::replace(&mut vacant, 0))?;\n                }\n                occupying.to_usi(sink)?;"),
 (S+'position.rs', "        self.inner.make_move(mv)?;\n        self.moves.push(mv);\n        Some(())", "        let result = self.inner.make_move(mv);\n        if result.is_some() {\n            self.moves.push(mv);\n        }\n        result"),
 (S+'position.rs', "        let mv = mv.into();\n        self.make_move(mv).is_some()", "        let full: Move = mv.into();\n        matches!(self.make_move(full), Some(()))"),
]
G['pos2'] = [
 (S+'position.rs', "        let color = self.side;\n        match mv {\n            Move::Normal { from, to, promote } => {\n                let piece = self.piece_at(from)?;\n                if piece.color() != color {\n                    return None;\n                }\n                let target_piece = if promote { piece.promote()? } else { piece };\n",
  "        let color = self.side;\n        match mv {\n            Move::Normal { from, to, promote } => {\n                if !self.player_bitboard(color).contains(from) {\n                    return None;\n                }\n                let piece = self.piece_at(from)?;\n                let target_piece = match promote {\n                    true => piece.promote()?,\n                    false => piece,\n                };\n"),
 (S+'position.rs', "                if self.piece_at(to).is_some() {\n                    return None;\n                }\n", "                if self.occupied_bitboard().contains(to) {\n                    return None;\n                }\n"),
 (S+'position.rs', "        let single = Bitboard::single_inlined(square);\n        self.player_bb[0]", "        let single = Bitboard::single(square);\n        self.player_bb[0]"),
 (S+'position.rs', "        if let Some((_, color)) = piece.map(Piece::to_parts) {\n            match color {\n                Color::Black => self.player_bb[0] |= single,\n                Color::White => self.player_bb[1] |= single,\n            }\n        }\n", "        if let Some(piece) = piece {\n            self.player_bb[piece.color().array_index()] |= square;\n        }\n"),
 (S+'position.rs', "            self.piece_bb[piece_kind.array_index()] =\n                single.andnot(self.piece_bb[piece_kind.array_index()]);", "            self.piece_bb[piece_kind.array_index()] &= !single;"),
 (S+'position.rs', "            for j in 0..9 {\n                // Safety: the index is in range 0..81.\n                let current = *unsafe { self.board.get_unchecked(9 * (8 - j) + i) };\n                let current: Option<Piece> = current.into();\n", "            for file in (1..=9).rev() {\n                let square = Square::new(file, i + 1);\n                let current = square.and_then(|square| self.piece_at(square));\n"),
 (S+'position.rs', "            hands: [Default::default(); 2],\n            board: [None.into(); 81],", "            hands: [Hand::new(), Hand::new()],\n            board: [OptionPiece::from(None); Square::NUM],"),
 (S+'position.rs', "*unsafe { self.hands.get_unchecked((color as u8 - 1) as usize) }", "self.hands[color.array_index()]"),
 (S+'position.rs', "        let mut sink = Bridge(ptr);\n        let _ = self.to_sfen(&mut sink);\n        // Safety: nul is in ASCII\n        let _ = write_ascii_byte(&mut sink, b'\\0');", "        let mut sink = Bridge(ptr);\n        let _ = self.to_sfen(&mut sink);\n        let Bridge(end) = sink;\n        end.write(0);"),
 (S+'position.rs', "                        for (i, &byte) in slice.iter().enumerate() {\n                            core::ptr::write(this.0.add(i), byte);\n                        }\n                        this.0 = this.0.add(slice.len());", "                        core::ptr::copy_nonoverlapping(slice.as_ptr(), this.0, slice.len());\n                        this.0 = this.0.add(slice.len());"),
 (S+'position.rs', "        let mut result = Bitboard::empty();\n        let mut i = 0;\n        while i < 9 {\n            // Safety: i+1 is in range 1..=9.\n            let file = unsafe { Bitboard::from_file_unchecked(i as u8 + 1, 1 << 8 | 1 << 6) };\n            result = result.or(file);\n            i += 1;\n        }", "        let mut result = Bitboard::empty();\n        let mut file = 9u8;\n        while file > 0 {\n            // Safety: file is in range 1..=9.\n            result = result.or(unsafe { Bitboard::from_file_unchecked(file, 0x140) });\n            file -= 1;\n        }"),
 (S+'hand.rs', "        for i in 0..2 {\n            for j in (0..7).rev() {\n                // Safety: 0 <= j < 8\n                let count = *unsafe { self[i].0.get_unchecked(j) };\n                if count > 0 {\n                    if count >= 2 {\n                        write_u8(sink, count)?;\n                    }\n                    // Safety: `pieces[i][j]` is an ASCII byte.\n                    // Furthermore, 0 <= j < 8 holds, which implies pieces[i][j] is always in bounds.\n                    unsafe { write_ascii_byte(sink, *pieces[i].get_unchecked(j)) }?;\n                }\n            }\n        }", "        for (hand, letters) in self.iter().zip(pieces) {\n            for j in (0..7).rev() {\n                let count = hand.0[j];\n                if count == 0 {\n                    continue;\n                }\n                if count != 1 {\n                    write_u8(sink, count)?;\n                }\n                unsafe { write_ascii_byte(sink, letters[j]) }?;\n            }\n        }"),
]

G['flip'] = [
 (S+'bitboard.rs', "        let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;\n        let snd_rev = self.0[0] << 46;\n        let returned = [fst_rev.reverse_bits(), snd_rev.reverse_bits()];\n        Self(returned)",
  "        let mut result = Self::empty();\n        let mut rest = self;\n        while let Some(square) = rest.pop() {\n            result |= square.flip();\n        }\n        result"),
]

G['pos3'] = [
 (S+'position.rs', "    pub fn make_move(&mut self, mv: Move) -> Option<()> {\n        let color = self.side;\n        match mv {\n            Move::Normal", "    pub fn make_move(&mut self, mv: Move) -> Option<()> {\n        let mut next = self.clone();\n        next.try_move(mv)?;\n        *self = next;\n        Some(())\n    }\n    fn try_move(&mut self, mv: Move) -> Option<()> {\n        let color = self.side;\n        match mv {\n            Move::Normal"),
 (S+'position.rs', "        let index = square.index() - 1;\n        // Safety: square.index() is in range 1..=81\n        *unsafe { self.board.get_unchecked(index as usize) }\n", "        self.board[usize::from(square.index()) - 1]\n"),
 (S+'position.rs', "        self.player_bb[0] = single.andnot(self.player_bb[0]);\n        self.player_bb[1] = single.andnot(self.player_bb[1]);\n", "        self.player_bb = self.player_bb.map(|squares| squares & !single);\n"),
 (S+'position.rs', "            if let Piece::B_K = piece {\n                self.king_square[0] = OptionSquare::from(Some(square));\n            }\n            if let Piece::W_K = piece {\n                self.king_square[1] = OptionSquare::from(Some(square));\n            }", "            if piece_kind == PieceKind::King {\n                self.king_square[piece.color().array_index()] = Some(square).into();\n            }"),
 (S+'position.rs', "                    self.king_square[piece.color().array_index()] =\n" if False else "        !self.occupied_bitboard()\n", "        self.player_bb.iter().fold(!Bitboard::empty(), |rest, squares| rest & !*squares)\n"),
 (S+'position.rs', "        self.piece_bb[piece_kind.array_index()] & self.player_bb[color.array_index()]", "        self.player_bitboard(color) & self.piece_kind_bitboard(piece_kind)"),
 (S+'position.rs', "        self.last_compact_move().map(|mv| mv.into())", "        let mv = self.last_compact_move()?;\n        Some(mv.into())"),
]
G['pos4'] = [
 (S+'position.rs', "        let color = self.side;\n        match mv {\n            Move::Normal { from, to, promote } => {\n                let piece = self.piece_at(from)?;\n                if piece.color() != color {\n                    return None;\n                }\n                let target_piece = if promote { piece.promote()? } else { piece };\n                if let Some(enemy) = self.piece_at(to) {\n                    if piece.color() == enemy.color() {\n                        return None;\n                    }\n                    let hand = self.hand_of_a_player_mut(piece.color());\n                    let obtaining = enemy.piece_kind();\n                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {\n                        piece_kind\n                    } else {\n                        obtaining\n                    };\n                    *hand = hand.added(unpromoted)?;\n                }\n                self.piece_set(from, None);\n                self.piece_set(to, Some(target_piece));\n            }\n            Move::Drop { piece, to } => {\n                if piece.color() != color {\n                    return None;\n                }\n                if piece.unpromote().is_some() {\n                    return None;\n                }\n                if self.piece_at(to).is_some() {\n                    return None;\n                }\n                let hand = self.hand_of_a_player_mut(piece.color());\n                *hand = hand.removed(piece.piece_kind())?;\n                self.piece_set(to, Some(piece));\n            }\n        }\n",
  "        let to = mv.to();\n        let (placed, hand) = match mv {\n            Move::Normal { from, promote, .. } => self.moved_piece(from, to, promote)?,\n            Move::Drop { piece, .. } => self.dropped_piece(piece, to)?,\n        };\n        let mover = self.side;\n        self.hands[mover.array_index()] = hand;\n        if let Some(from) = mv.from() {\n            self.piece_set(from, None);\n        }\n        self.piece_set(to, Some(placed));\n"),
 (S+'position.rs', "    pub fn last_compact_move(&self) -> Option<CompactMove> {\n        self.last_move.into()\n    }", "    pub fn last_compact_move(&self) -> Option<CompactMove> {\n        self.last_move.into()\n    }\n    fn own(&self, piece: Piece) -> bool {\n        piece.color() == self.side\n    }\n    fn moved_piece(&self, from: Square, to: Square, promote: bool) -> Option<(Piece, Hand)> {\n        let piece = self.piece_at(from).filter(|&piece| self.own(piece))?;\n        let placed = match promote {\n            true => piece.promote()?,\n            false => piece,\n        };\n        let hand = self.hand_of_a_player(self.side);\n        let hand = match self.piece_at(to) {\n            None => hand,\n            Some(enemy) if self.own(enemy) => return None,\n            Some(enemy) => {\n                let kind = enemy.piece_kind();\n                hand.added(kind.unpromote().unwrap_or(kind))?\n            }\n        };\n        Some((placed, hand))\n    }\n    fn dropped_piece(&self, piece: Piece, to: Square) -> Option<(Piece, Hand)> {\n        let free = self.vacant_bitboard().contains(to);\n        if !self.own(piece) || !free || piece.piece_kind().unpromote().is_some() {\n            return None;\n        }\n        let hand = self.hand_of_a_player(self.side).removed(piece.piece_kind())?;\n        Some((piece, hand))\n    }"),
]
G['leg1'] = [
 (S+'legality.rs', "        if self.status(position) != PositionStatus::InProgress {\n            return Err(IllegalMoveKind::GameFinished);\n        }\n        self.is_legal_partial(position.inner(), mv)", "        match self.status(position) {\n            PositionStatus::InProgress => self.is_legal_partial(position.inner(), mv),\n            _ => Err(IllegalMoveKind::GameFinished),\n        }"),
 (S+'legality.rs', "        if self.status(position) != PositionStatus::InProgress {\n            return false;\n        }\n        self.is_legal_partial_lite(position.inner(), mv)", "        let open = matches!(self.status(position), PositionStatus::InProgress);\n        open && self.is_legal_partial_lite(position.inner(), mv)"),
 (S+'legality.rs', "        if self.status(position) != PositionStatus::InProgress {\n            return alloc::vec::Vec::new();\n        }\n        self.all_legal_moves_partial(position.inner())", "        if self.status(position) == PositionStatus::InProgress {\n            return self.all_legal_moves_partial(position.inner());\n        }\n        Default::default()"),
 (S+'legality.rs', "        self.is_legal(position, mv)?;\n        // will always be Some(())\n        let result = position.make_move(mv);\n        debug_assert_eq!(result, Some(()));\n        Ok(())", "        self.is_legal(position, mv).map(|()| {\n            // will always be Some(())\n            let result = position.make_move(mv);\n            debug_assert!(result.is_some());\n        })"),
]
G['enum1'] = [
 (S+'illegal_move_kind.rs', "        Self(match arg {\n            Err(result) => result as u8,\n            Ok(()) => 0,\n        })", "        arg.err().into()"),
 (S+'illegal_move_kind.rs', "        if arg.0 == 0 {\n            Ok(())\n        } else {\n            // Safety: arg is a valid OptionIllegalMoveKind, which means 0 <= arg.0 && arg.0 <= 7.\n            // arg.0 == 0 is ruled out.\n            Err(unsafe { IllegalMoveKind::from_u8_unchecked(arg.0) })\n        }", "        match Option::<IllegalMoveKind>::from(arg) {\n            Some(kind) => Err(kind),\n            None => Ok(()),\n        }"),
 (S+'illegal_move_kind.rs', "        if matches!(repr, 1..=7) {\n            // Safety: `repr` is in range `1..=7`.\n            Some(unsafe { Self::from_u8_unchecked(repr) })\n        } else {\n            None\n        }", "        Some(match repr {\n            1 => Self::TwoPawns,\n            2 => Self::IgnoredCheck,\n            3 => Self::DropPawnMate,\n            4 => Self::DropStuck,\n            5 => Self::NormalStuck,\n            6 => Self::GameFinished,\n            7 => Self::IncorrectMove,\n            _ => return None,\n        })"),
 (S+'game_resolution.rs', "        Self(match arg {\n            Some(result) => result as u8,\n            None => 0,\n        })", "        Self(arg.map_or(0, |result| result as u8))"),
 (S+'game_resolution.rs', "        if arg.0 == 0 {\n            None\n        } else {\n            // Safety: arg is a valid OptionGameResolution, which means 0 <= arg.0 && arg.0 <= 5.\n            // arg.0 == 0 is ruled out.\n            Some(unsafe { GameResolution::from_u8_unchecked(arg.0) })\n        }", "        const ALL: [GameResolution; 5] = [\n            GameResolution::BlackWins,\n            GameResolution::WhiteWins,\n            GameResolution::Draw,\n            GameResolution::Rematch,\n            GameResolution::Aborted,\n        ];\n        ALL.iter().copied().find(|&result| result as u8 == arg.0)"),
 (S+'annotated_derive.rs', "                ($(&self.$field),+).cmp(&($(&other.$field),+))", "                let mut order = core::cmp::Ordering::Equal;\n                $(order = order.then_with(|| self.$field.cmp(&other.$field));)+\n                order"),
 (S+'annotated_derive.rs', "                (*self as u8).partial_cmp(&(*other as u8))", "                Some(core::cmp::Ord::cmp(self, other))"),
 (S+'annotated_derive.rs', "                core::mem::discriminant(self).hash(state);", "                state.write_u8(*self as u8);"),
 (S+'annotated_derive.rs', "                self.0.partial_cmp(&other.0)", "                Some(core::cmp::Ord::cmp(self, other))"),
]

G['loop1'] = [
 (S+'bitboard.rs', "        (self.0[0].count_ones() + self.0[1].count_ones()) as u8", "        let mut rest = self.to_u128();\n        let mut members = 0;\n        while rest != 0 {\n            rest &= rest - 1;\n            members += 1;\n        }\n        members"),
 (S+'bitboard.rs', "        self.0 == [0; 2]", "        self.count() == 0"),
 (S+'bitboard.rs', "        !(self & Self::single(square)).is_empty()", None),
 (S+'bitboard.rs', "        let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;\n        let snd_rev = self.0[0] << 46;\n        let returned = [fst_rev.reverse_bits(), snd_rev.reverse_bits()];\n        Self(returned)",
  "        let mut result = Self::empty();\n        for square in Square::all() {\n            if self.contains(square) {\n                result |= square.flip();\n            }\n        }\n        result"),
 (S+'bitboard.rs', "        let top = 0x8040_2010_0804_0200u64;\n        let mask = top - (top >> (9 - delta));\n        Self([\n            self.0[0] << delta & mask,\n            ((self.0[1] as u32) << delta & mask as u32) as u64,\n        ])",
  "        let mut result = self;\n        let mut steps = 0;\n        while steps < delta {\n            let mut next = Self([0; 2]);\n            let mut file = 1;\n            while file <= 9 {\n                let pattern = (result.get_file_unchecked(file) << 1) & 0x1ff;\n                let one = Self::from_file_unchecked(file, pattern);\n                next = next.or(one);\n                file += 1;\n            }\n            result = next;\n            steps += 1;\n        }\n        result"),
 (S+'bitboard.rs', "        Self([!self.0[0] & ((1 << 63) - 1), !self.0[1] & ((1 << 18) - 1)])", "        let mut result = Self::empty();\n        for square in Square::all() {\n            if !self.contains(square) {\n                result ^= square;\n            }\n        }\n        result"),
 (S+'bitboard.rs', "        ByteSwappedBitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])", "        let bytes = self.to_u128().to_le_bytes();\n        let swapped = u128::from_be_bytes(bytes);\n        ByteSwappedBitboard([swapped as u64, (swapped >> 64) as u64])"),
]
G['loop2'] = [
 (S+'position.rs', "        self.player_bb[0] | self.player_bb[1]\n", "        let mut occupied = Bitboard::empty();\n        for square in Square::all() {\n            if self.piece_at(square).is_some() {\n                occupied |= square;\n            }\n        }\n        occupied\n"),
 (S+'position.rs', "        !self.occupied_bitboard()\n", "        Square::all()\n            .into_iter()\n            .filter(|&square| self.piece_at(square).is_none())\n            .fold(Bitboard::empty(), |set, square| set | Bitboard::single(square))\n"),
 (S+'position.rs', "    pub extern \"C\" fn player_bitboard(&self, color: Color) -> Bitboard {\n        self.player_bb[color.array_index()]", "    pub extern \"C\" fn player_bitboard(&self, color: Color) -> Bitboard {\n        let mut set = Bitboard::empty();\n        for kind in PieceKind::all() {\n            set |= self.piece_bitboard(Piece::new(kind, color));\n        }\n        set"),
 (S+'position.rs', "        self.last_move = Some(mv.into()).into();\n        self.side = self.side.flip();\n        self.ply = self.ply.wrapping_add(1);", "        let last: CompactMove = mv.into();\n        self.last_move = Some(last).into();\n        self.side = match color {\n            Color::Black => Color::White,\n            Color::White => Color::Black,\n        };\n        self.ply = self.ply.checked_add(1).unwrap_or(0);"),
 (S+'position.rs', "            for j in 0..9 {\n                // Safety: the index is in range 0..81.\n                let current = *unsafe { self.board.get_unchecked(9 * (8 - j) + i) };\n                let current: Option<Piece> = current.into();\n", "            for file in (1..=9u8).rev() {\n                let current = Square::new(file, i + 1).and_then(|square| self.piece_at(square));\n"),
 (S+'position.rs', "        self.king_square[color.array_index()].into()\n", "        let [black, white] = self.king_square;\n        let found = match color {\n            Color::Black => black,\n            Color::White => white,\n        };\n        found.into()\n"),
 (S+'position.rs', "                if piece.unpromote().is_some() {\n                    return None;\n                }\n                if self.piece_at(to).is_some() {\n                    return None;\n                }\n", "                if self.occupied_bitboard().contains(to) || piece.unpromote().is_some() {\n                    return None;\n                }\n"),
]
G['text1'] = [
 (S+'common.rs', "    if value == 0 {\n        return unsafe { write_ascii_byte(sink, b'0') };\n    }\n    let bases = [1, 10, 100, 1000, 10000];\n    let mut displayed = false;\n    for base in bases.into_iter().rev() {\n        let digit = value / base; // always < 10\n        if displayed || digit != 0 {\n            // Safety: b'0' <= digit + b'0' <= b'9'\n            unsafe { write_ascii_byte(sink, digit as u8 + b'0') }?;\n            displayed = true;\n        }\n        value -= digit * base;\n    }\n    Ok(())\n",
  "    let mut buffer = [b'0'; 5];\n    let mut start = 5;\n    loop {\n        start -= 1;\n        buffer[start] = b'0' + (value % 10) as u8;\n        value /= 10;\n        if value == 0 {\n            break;\n        }\n    }\n    // Safety: digits are ASCII\n    sink.write_str(unsafe { core::str::from_utf8_unchecked(&buffer[start..]) })\n"),
 (S+'common.rs', "    if value <= 9 {\n        // Safety: b'0' <= value + b'0' <= b'9'\n        return unsafe { write_ascii_byte(sink, value + b'0') };\n    }\n    if value <= 99 {\n", "    write_u16(sink, value as u16)?;\n    if value <= 255 {\n        return Ok(());\n    }\n    if value <= 99 {\n"),
 (S+'position.rs', "            if i < 8 {\n                // Safety: '/' is in ASCII\n                unsafe { write_ascii_byte(sink, b'/') }?;\n            }\n", "            sink.write_str(if i == 8 { \"\" } else { \"/\" })?;\n"),
 (S+'position.rs', "                    unsafe {\n                        for (i, &byte) in slice.iter().enumerate() {\n                            core::ptr::write(this.0.add(i), byte);\n                        }\n                        this.0 = this.0.add(slice.len());\n                    }\n", "                    unsafe {\n                        core::ptr::copy_nonoverlapping(slice.as_ptr(), this.0, slice.len());\n                        this.0 = this.0.add(slice.len());\n                    }\n"),
]

G['own1'] = [
 (S+'position.rs', "#[derive(Eq, PartialEq, Clone, Debug, Default)]\npub struct Position {", "#[derive(Eq, PartialEq, Debug, Default)]\npub struct Position {"),
 (S+'position.rs', "#[cfg(feature = \"alloc\")]\nimpl Position {", """#[cfg(feature = "alloc")]
impl Clone for Position {
    fn clone(&self) -> Self {
        let mut moves = alloc::vec::Vec::with_capacity(self.moves.len());
        moves.extend_from_slice(&self.moves);
        Self { initial: self.initial.clone(), inner: self.inner.clone(), moves }
    }

    fn clone_from(&mut self, source: &Self) {
        self.initial.clone_from(&source.initial);
        self.inner.clone_from(&source.inner);
        self.moves.clone_from(&source.moves);
    }
}

#[cfg(feature = "alloc")]
impl Position {"""),
 (S+'position.rs', "        drop(alloc::boxed::Box::from_raw(ptr));", "        let Self { initial, inner, moves } = *alloc::boxed::Box::from_raw(ptr);\n        drop(moves);\n        drop((initial, inner));"),
 (S+'position.rs', "        alloc::boxed::Box::leak(alloc::boxed::Box::new(Self::startpos()))", "        alloc::boxed::Box::into_raw(alloc::boxed::Box::new(Self::startpos()))"),
 (S+'position.rs', """        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())""", """        let mut moves = core::mem::take(&mut self.moves);
        let done = self.inner.make_move(mv);
        if done.is_some() {
            moves.push(mv);
        }
        self.moves = moves;
        done"""),
]
G['own2'] = [
 (S+'position.rs', "        drop(alloc::boxed::Box::from_raw(ptr));", "        core::ptr::drop_in_place(ptr);\n        alloc::alloc::dealloc(ptr as *mut u8, core::alloc::Layout::new::<Self>());"),
 (S+'position.rs', "        alloc::boxed::Box::leak(alloc::boxed::Box::new(Self::startpos()))", "        let boxed = alloc::boxed::Box::new(Self::startpos());\n        core::mem::ManuallyDrop::new(boxed).as_mut() as *mut Self"),
 (S+'position.rs', """        self.inner.make_move(mv)?;
        self.moves.push(mv);
        Some(())""", """        let mut next = self.clone();
        next.inner.make_move(mv)?;
        next.moves.push(mv);
        *self = next;
        Some(())"""),
]

G['fmt1'] = [
 (S+'position.rs', "write_u16(sink, self.ply)?;\n        Ok(())", "write!(sink, \"{}\", self.ply)"),
 (S+'position.rs', "use core::fmt::{", "#[allow(unused_imports)]\nuse crate::common::write_u16 as _;\nuse core::fmt::{"),
 (S+'square.rs', """        unsafe { common::write_ascii_byte(sink, b'0' + self.file()) }?;
        // Safety: 'a'..='i' is always an ASCII byte
        unsafe { common::write_ascii_byte(sink, b'a' + self.rank() - 1) }?;
        Ok(())""", """        let _ = common::write_ascii_byte::<W>;
        write!(sink, "{}{}", self.file(), (b'a' + self.rank() - 1) as char)"""),
 (S+'hand.rs', """                    if count >= 2 {
                        write_u8(sink, count)?;
                    }
                    // Safety: `pieces[i][j]` is an ASCII byte.
                    // Furthermore, 0 <= j < 8 holds, which implies pieces[i][j] is always in bounds.
                    unsafe { write_ascii_byte(sink, *pieces[i].get_unchecked(j)) }?;""", """                    let letter = char::from(pieces[i][j]);
                    let _ = (write_u8::<W>, write_ascii_byte::<W>);
                    match count {
                        1 => write!(sink, "{letter}")?,
                        n => write!(sink, "{n}{letter}")?,
                    }"""),
 (S+'mv.rs', """                piece_kind.to_usi(sink)?;
                // Safety: b'*' is an ASCII byte
                unsafe { crate::common::write_ascii_byte(sink, b'*') }?;""", """                piece_kind.to_usi(sink)?;
                write!(sink, "*")?;"""),
]

def apply(root, edits):
    for f, old, new in edits:
        if new is None: continue
        p = os.path.join(root, f); s = open(p).read()
        if s.count(old) < 1: print('  NO MATCH', f, repr(old[:70])); continue
        open(p, 'w').write(s.replace(old, new))

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = os.environ.get('PROPS', '').split() or [c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']]
    root = os.environ.get('REFWS', '/tmp/refws')
    for g in sys.argv[1:] or list(G):
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '/repo/', root + '/'], check=True) if shutil.which('rsync') else (shutil.rmtree(root, ignore_errors=True), shutil.copytree('/repo', root, symlinks=True))
        apply(root, G[g])
        b = subprocess.run('cargo check --offline -q --all-features -p shogi_core 2>&1 | grep -A6 "^error"; cargo test --offline -q -p shogi_core --all-features 2>&1 | grep -E "FAILED|panicked|error" | head', shell=True, cwd=root, capture_output=True, text=True)
        print(f'== {g}: tests {"ok" if not b.stdout.strip() else b.stdout[:1500]}', flush=True)
        for p in props:
            t = time.time()
            r = subprocess.run(['python3', here + '/check.py', p, 'quick'], env={**os.environ, 'SGC_REPO': root, 'SGC_EVIDENCE': '/tmp/refev'}, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'UNDECIDED' in l]
            print(f'   {p} rc={r.returncode} {time.time()-t:.0f}s {len(lines)} {lines[:3] if lines else ""}', flush=True)
