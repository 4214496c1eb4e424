From f2b049e9c3557254545dbb764e0128bd5b447fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 01/17] fix: index boards row-major by their width

two_to_1dim multiplied the row by the height, and one_to_2dim divided by it,
so that distinct points of a non-square board shared a cell.
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 6f0ca65cfd8dad536c983a6d06a908fde492f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 02/17] fix: a ko is only the retaking of a single stone

A suicidal replay at the ko point that captures nothing was reported as ko.
---
 src/rules/game.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..2c3fe48 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -400,12 +400,12 @@ impl Game {
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
         self.ko_point == Some(stone.coord)
-            && !self
+            && self
                 .goban
                 .get_connected_groups(stone.coord)
                 .into_iter()
                 .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
+                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones == 1
                 })
     }
 
-- 
2.43.0


From e7c53cb398218904119788a02b52fc00958d8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 03/17] fix: remove suicided stones from the simulated board
 when suicide is allowed

play_for_verification passed the flag the wrong way round, so the simulated
board differed from the one play() produces.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 2c3fe48..89bc833 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -203,7 +203,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From a60d39d0ce3f485f8a19c5ecff4576695e109f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 04/17] fix: positional superko also applies without a capture

A position can come back through a move that captures nothing (two stones
sent, one returned) or through a suicide, and within the first three moves.
---
 src/rules/game.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 89bc833..fcb7a2c 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -411,14 +411,15 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
+        // As long as no stone has been removed every position has more stones than the ones before.
+        let nothing_removed = self.prisoners == (0, 0)
+            && !self.will_capture(stone.coord)
+            && !self.check_suicide(stone);
+        if nothing_removed {
             false
         } else {
             let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+            to_check == self.goban || self.history.contains(&to_check)
         }
     }
 
-- 
2.43.0


From c47d0a75af0180aa3e3084946a8cbdfd88a27cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 05/17] fix: to_vec and matrix return exactly the points of the
 board

They returned the whole backing vector, which is longer for boards under 19x19.
---
 src/pieces/goban.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..776ceea 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -95,7 +95,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.points()
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +108,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.points().chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
@@ -143,6 +143,12 @@ impl Goban {
         &self.board
     }
 
+    /// The part of the board vector that the size of this goban uses.
+    #[inline]
+    fn points(&self) -> &[Option<NonMaxU16>] {
+        &self.board[..self.size.0 as usize * self.size.1 as usize]
+    }
+
     /// pushes the stone
     /// # Arguments
     /// point: the point where the stone will be placed
-- 
2.43.0


From 270b88efd5cd127c3bdd2ff7d1d1cf5695d746ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 06/17] fix: get_empty_idx returns the empty points, not the
 occupied ones

---
 src/pieces/goban.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 776ceea..ba6f4e9 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -372,10 +372,10 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.points()
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| group.is_none().then_some(idx))
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From c5fc1d9fcd51bf47c3e5f426344a61484bb76514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 07/17] fix: filter points by colour on every board size

The number of points overflowed u8 above 255 points, and asking for the empty
points returned every point.
---
 src/pieces/goban.rs | 8 ++++++--
 src/rules/game.rs   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index ba6f4e9..352c843 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -396,9 +396,13 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
+        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {
             match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
+                EMPTY => {
+                    if self.board[board_idx].is_none() {
+                        res.push(one_to_2dim(self.size, board_idx))
+                    }
+                }
                 Some(c) => self.board[board_idx]
                     .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
                     .map(|_| res.push(one_to_2dim(self.size, board_idx)))
diff --git a/src/rules/game.rs b/src/rules/game.rs
index fcb7a2c..6a0795b 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 697ed2886f2bf1228f3ba629c3fa30469916bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 08/17] fix: the group iterator's size hint counts the stones
 that remain

---
 src/pieces/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..bfec2e5 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -252,6 +252,7 @@ impl Iterator for CircularGroupIter<'_> {
             .next
             .map(|stone_idx| self.next_stone[stone_idx] as usize)
             .filter(move |&o| o != origin);
+        self.num_stones -= ret.is_some() as u16;
 
         #[cfg(debug_assertions)]
         if ret.is_some() && self.next == ret {
-- 
2.43.0


From 98bdd62705fc1d78e577665dfc0cd7bdde4bb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 09/17] fix: reuse the free group spots

Every new group took a new spot, and the board's u16 indexes ran out after
65535 groups: a long game panicked.
---
 src/pieces/goban.rs | 2 +-
 src/pieces/group.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 352c843..21541a3 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -21,7 +21,7 @@ pub type BoardIdx = usize;
 
 const BOARD_MAX_SIZE: (Nat, Nat) = (19, 19);
 const BOARD_MAX_LENGTH: usize = BOARD_MAX_SIZE.0 as usize * BOARD_MAX_SIZE.1 as usize;
-const MAX_CHAINS: usize = 4 * BOARD_MAX_LENGTH / 5;
+pub(crate) const MAX_CHAINS: usize = 4 * BOARD_MAX_LENGTH / 5;
 
 /// Represents a goban. the stones are stored in ROW MAJOR (row, column)
 #[derive(Debug, Clone, Eq)]
diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index bfec2e5..f00dd98 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -1,6 +1,6 @@
 use std::ops::{BitOrAssign, Index, IndexMut};
 
-use crate::pieces::goban::GroupIdx;
+use crate::pieces::goban::{GroupIdx, MAX_CHAINS};
 use crate::pieces::stones::Color;
 use crate::pieces::BoardIdx;
 use arrayvec::ArrayVec;
@@ -214,6 +214,13 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
+        // The board refers to the groups with u16 indexes: past MAX_CHAINS the free spots are reused.
+        if self.0.len() >= MAX_CHAINS {
+            if let Some(free_idx) = self.0.iter().position(Option::is_none) {
+                self.0[free_idx] = Some(group);
+                return free_idx;
+            }
+        }
         self.0.push(Some(group));
         self.0.len() - 1
     }
-- 
2.43.0


From a64854a5c4842e748b6b6677414859f739f6e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 10/17] fix: get_floating_stones returns the groups without two
 eyes

It returned positions in the list of groups, of those with three eyes or more.
---
 src/pieces/goban.rs      | 6 ++++++
 src/rules/dead_stones.rs | 9 ++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 21541a3..9e3b4ac 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,12 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// The indexes of the groups returned by `chains`.
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_idx(&self) -> impl Iterator<Item = GroupIdx> + '_ {
+        self.chains.iter_with_index().map(|(idx, _)| idx)
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..0230a33 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,19 +148,18 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
             .map(|x| x.0)
             .collect::<HashSet<_>>();
 
-        all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
-            .map(|(idx, _chain)| idx)
+        self.goban
+            .chains_idx()
+            .filter(|idx| !string_with_2eyes.contains(idx))
             .collect()
     }
 
-- 
2.43.0


From b58628a3d43360458ab66d97e4b2f69187b13d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 11/17] fix: SGF sizes are columns:rows

---
 src/rules/sgf_bridge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..3fc7a18 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,8 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            // SGF gives columns:rows
+                            game_builder.size((*y as u8, *x as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From 950d0501a49456eb1d244d90cd407fda0353e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 12/17] fix: import SGF moves that are not the first property
 of their node

A comment or a clock written before the move made it vanish.
---
 src/rules/sgf_bridge.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 3fc7a18..24a5df8 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -76,11 +76,11 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
-                }
+            } else if let Some(action) = node.tokens.iter().find_map(|token| match token {
+                SgfToken::Move { action, .. } => Some(*action),
+                _ => None,
+            }) {
+                moves.push(action.into());
             }
         }
         game_builder.moves(&moves);
-- 
2.43.0


From 269e9e8fe724a87538166f10aa292410d76c38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 13/17] fix: SGF moves are played by the colour they are
 written for

---
 src/rules/sgf_bridge.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 24a5df8..6c6d81d 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -17,6 +17,7 @@ impl Game {
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
         let mut moves = vec![];
+        let mut next_player = None;
 
         for node in game_tree.iter() {
             if first {
@@ -76,11 +77,21 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if let Some(action) = node.tokens.iter().find_map(|token| match token {
-                SgfToken::Move { action, .. } => Some(*action),
+            } else if let Some((color, action)) = node.tokens.iter().find_map(|token| match token {
+                SgfToken::Move { color, action } => Some((Color::from(*color), *action)),
                 _ => None,
             }) {
+                match next_player {
+                    // The first move tells who begins
+                    None => {
+                        game_builder.turn(color);
+                    }
+                    // The same player moves again, as if the other one had passed
+                    Some(player) if player != color => moves.push(Move::Pass),
+                    _ => (),
+                }
                 moves.push(action.into());
+                next_player = Some(!color);
             }
         }
         game_builder.moves(&moves);
-- 
2.43.0


From bfa142121620c46b01738d2d2df9e8e935b56672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 14/17] fix: report a game that cannot be built instead of
 panicking

SGF files with an unsupported size, rule, game or player, and builders given
points that are occupied or outside the board, panicked or were built wrongly.
---
 src/rules/game_builder.rs | 20 +++++++++++++++++++-
 src/rules/sgf_bridge.rs   | 25 ++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..db7e7cc 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -102,11 +102,13 @@ impl GameBuilder {
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_free(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_free(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -136,6 +138,11 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            match m {
+                Move::Play(x, y) => check_free(&g, (x, y))?,
+                Move::Pass if g.passes >= 2 => return Err("Pass in a paused game.".to_string()),
+                _ => (),
+            }
             g.play(m);
         }
 
@@ -149,6 +156,17 @@ impl GameBuilder {
     }
 }
 
+/// Only free points of the board can take a stone
+fn check_free(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board."))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is already occupied."))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 6c6d81d..f9554ca 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -29,6 +29,9 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
+                            if !(1..=19).contains(x) || !(1..=19).contains(y) {
+                                return Err(format!("The size {x}:{y} is not supported."));
+                            }
                             // SGF gives columns:rows
                             game_builder.size((*y as u8, *x as u8));
                         }
@@ -40,7 +43,7 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
@@ -48,13 +51,23 @@ impl Game {
                             });
                         }
                         SgfToken::Rule(rule) => {
-                            game_builder.rule(rule.clone().into());
+                            game_builder.rule(match rule {
+                                RuleSet::Japanese | RuleSet::Chinese => rule.clone().into(),
+                                _ => {
+                                    return Err(format!(
+                                        "The rule {} is not implemented yet !",
+                                        rule.to_string()
+                                    ))
+                                }
+                            });
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The file is not a game of go.".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -70,7 +83,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player {value}.")),
                                 }
                             }
                         }
@@ -133,7 +146,9 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            Action::Move(col, line) => {
+                Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat)
+            }
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From 992d970e35bf81ba08c7fd38f50495cf0306ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 15/17] fix: a point outside the board is refused instead of
 standing for another point

---
 src/pieces/goban.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 9e3b4ac..ac96cd3 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -5,7 +5,7 @@ use crate::pieces::group::CircularGroupIter;
 use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};
 use crate::pieces::stones::*;
 use crate::pieces::util::coord::{
-    one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
+    is_coord_valid, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
 };
 use crate::pieces::zobrist::*;
 use crate::pieces::{Connections, Nat};
@@ -166,6 +166,10 @@ impl Goban {
         point: Coord,
         color: Color,
     ) -> (ArrayVec<usize, 4>, GroupIdx) {
+        assert!(
+            is_coord_valid(self.size, point),
+            "The point {point:?} is outside the board"
+        );
         let pushed_stone_idx = two_to_1dim(self.size, point);
 
         let mut adjacent_same_color_str_set = ArrayVec::<BoardIdx, 4>::new();
@@ -285,16 +289,6 @@ impl Goban {
     /// # Panics
     /// if the point is out of bounds
     pub fn push(&mut self, point: Coord, color: Color) -> &mut Self {
-        debug_assert!(
-            (point.0) < self.size.0,
-            "Coordinate point.0 {} out of bounds",
-            point.0
-        );
-        debug_assert!(
-            (point.1) < self.size.1,
-            "Coordinate point.1 {} out of bounds",
-            point.1
-        );
         self.push_wth_feedback(point, color);
         self
     }
-- 
2.43.0


From 0184cf5dcf00e7276e4cc7d50631f69a08dbb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 16/17] fix: a drawn simulation does not crash the dead stone
 search

---
 src/rules/dead_stones.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 0230a33..ff9cc8e 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,9 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        // Nobody wins a drawn game.
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From 5afc65870f57d69e0d71cd3650ac9fc8e8448bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 17/17] fix: a dead stone simulation whose moves are all forced
 comes to an end

---
 src/rules/dead_stones.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index ff9cc8e..aab4862 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -166,6 +166,8 @@ impl Game {
 
     pub fn dead_stones_wth_simulations(&self, nb_simulations: usize) -> HashSet<GroupIdx> {
         let mut game = self.clone();
+        // Without superko a simulation whose moves are all forced can repeat itself forever.
+        game.rule.flag_illegal |= IllegalRules::SUPERKO;
         let floating_stones = self.get_floating_stones();
         while !game.is_over() {
             let m = {
-- 
2.43.0

