From a4d8436235a83ab82c38ccc0f8347c3fa63b0bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 01/19] fix: use the width as row stride when converting
 coordinates and indices

The board is documented as row major; using the height made points of
non square boards share a cell and have wrong neighbours.
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 98dcf6ba7b18c9b5ecb75085d5f95b1422e4e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 02/19] fix: to_vec and matrix only list the points of the
 board

The storage always has 361 cells; on smaller boards the vector had 361
entries and the matrix extra rows, so a board rebuilt from its vector was
another board.
---
 src/pieces/goban.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..b2073b1 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -95,7 +95,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.cells()
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +108,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.cells().chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
@@ -138,6 +138,12 @@ impl Goban {
         (black_stones, white_stones)
     }
 
+    /// The part of the board that is in use, height * width cells in row major order.
+    #[inline]
+    fn cells(&self) -> &[Option<NonMaxU16>] {
+        &self.board[..self.size.0 as usize * self.size.1 as usize]
+    }
+
     #[inline]
     pub(crate) fn board(&self) -> &[Option<NonMaxU16>] {
         &self.board
-- 
2.43.0


From 30b66652c254cef630cb82ec544ae93d0ba82e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 03/19] fix: get_empty_idx returns the empty points, not the
 occupied ones

---
 src/pieces/goban.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index b2073b1..b3ae086 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -372,10 +372,10 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.cells()
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| if group.is_none() { Some(idx) } else { None })
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From 7f119f3feb3129b62e59055a3dd78d734d128319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 04/19] fix: get_coords_by_color works for EMPTY and for boards
 of 256 points and more

The product of the two u8 dimensions overflowed from 16x16 on, and EMPTY
returned every point.
---
 src/pieces/goban.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index b3ae086..3220073 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -396,9 +396,13 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
+        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {
             match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
+                EMPTY => {
+                    if self.board[board_idx].is_none() {
+                        res.push(one_to_2dim(self.size, board_idx))
+                    }
+                }
                 Some(c) => self.board[board_idx]
                     .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
                     .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-- 
2.43.0


From 740dd435816f66bba014f3aaef4fe3fb7ad994e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/19] fix: no u8 overflow in pseudo_legals_vec for boards of
 256 points and more

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From a86751506db72fcc38de6c06cb09fa46b64019b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 06/19] fix: reuse the slots of removed groups

put_free_spot always appended, so after 65535 groups were created the
group number did not fit into the board cells any more and play panicked.
---
 src/pieces/group.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..4b1cfe5 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,16 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        match self.0.iter().position(|slot| slot.is_none()) {
+            Some(free) => {
+                self.0[free] = Some(group);
+                free
+            }
+            None => {
+                self.0.push(Some(group));
+                self.0.len() - 1
+            }
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From 62aaa0b6a9e84581ab957ddf7ea1449ef0b56bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 07/19] fix: play_for_verification removes a suicided group
 when the rules allow suicide

The flag was inverted compared with play.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..c257211 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -203,7 +203,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From cbfbdcf07e9cca8480c0f666dd1baa0c9e3e8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 08/19] fix: superko refuses every repeated position

Positions repeated without a capture, within the first three plays, or by a
single stone suicide were accepted.
---
 src/rules/game.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index c257211..fc08fc0 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -411,15 +411,9 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
-            false
-        } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
-        }
+        let to_check = self.play_for_verification(stone.coord);
+        // The history holds the positions before each play, the current one is not in it yet.
+        to_check == self.goban || self.history.contains(&to_check)
     }
 
     /// Add a stone to the board and then test if the stone or stone group is dead.
-- 
2.43.0


From b7be260114ec5318ebba7e697cbbfe66b873091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 09/19] fix: a move that captures nothing is not a ko

On the ko point a stone that takes nothing (a suicide, when allowed) was
refused as ko although it does not restore the former position.
---
 src/rules/game.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index fc08fc0..6fc5eef 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -400,12 +400,14 @@ impl Game {
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
         self.ko_point == Some(stone.coord)
-            && !self
+            && self
                 .goban
                 .get_connected_groups(stone.coord)
                 .into_iter()
                 .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
+                    neighbor_go_string.color != stone.color
+                        && neighbor_go_string.is_atari()
+                        && neighbor_go_string.num_stones == 1
                 })
     }
 
-- 
2.43.0


From 5abd4e2ea57a3f90116a3f6d8bc5b28aa49e360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 10/19] fix: playing outside the board panics as documented

In release builds the stone landed on another point.
---
 src/pieces/goban.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 3220073..6683715 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -5,7 +5,7 @@ use crate::pieces::group::CircularGroupIter;
 use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};
 use crate::pieces::stones::*;
 use crate::pieces::util::coord::{
-    one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
+    is_coord_valid, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
 };
 use crate::pieces::zobrist::*;
 use crate::pieces::{Connections, Nat};
@@ -160,6 +160,10 @@ impl Goban {
         point: Coord,
         color: Color,
     ) -> (ArrayVec<usize, 4>, GroupIdx) {
+        assert!(
+            is_coord_valid(self.size, point),
+            "Coordinate {point:?} out of bounds"
+        );
         let pushed_stone_idx = two_to_1dim(self.size, point);
 
         let mut adjacent_same_color_str_set = ArrayVec::<BoardIdx, 4>::new();
-- 
2.43.0


From 7d18b87bd90d5de803ef7f237b72e9f4b6c25b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 11/19] fix: too big custom sizes are rejected instead of
 truncated

---
 src/rules/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..1eae6b0 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,10 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => (
+                u8::try_from(height).expect("The height of the board is too big"),
+                u8::try_from(width).expect("The width of the board is too big"),
+            ),
         }
     }
 }
-- 
2.43.0


From 0c8a45d6ec6690485d511d4ade21ebd9a25c7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 12/19] fix: building a game with an impossible stone or move
 returns the error

build() has a Result but panicked, or in release builds corrupted the
board, on stones outside the board or on another stone and on a third pass.
---
 src/rules/game_builder.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..4751231 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -102,11 +102,13 @@ impl GameBuilder {
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_free(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_free(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -136,6 +138,13 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            match m {
+                Move::Play(x, y) => check_free(&g.goban, (x, y))?,
+                Move::Pass if g.passes >= 2 => {
+                    return Err("The game is already paused, cannot pass again".to_string())
+                }
+                Move::Pass | Move::Resign(_) => {}
+            }
             g.play(m);
         }
 
@@ -149,6 +158,17 @@ impl GameBuilder {
     }
 }
 
+/// A stone can only be put on an empty point of the board.
+fn check_free(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board"))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is not empty"))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
-- 
2.43.0


From 62d03460a609b1523a7dadf177109fd29ad27f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 13/19] fix: SGF sizes are columns:rows, and too big ones are
 errors

---
 src/rules/sgf_bridge.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..37d86f9 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -27,8 +27,13 @@ impl Game {
                         SgfToken::Komi(komi) => {
                             game_builder.komi(*komi);
                         }
-                        SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                        SgfToken::Size(columns, rows) => {
+                            if !(1..=19).contains(columns) || !(1..=19).contains(rows) {
+                                return Err(format!(
+                                    "The board size {columns}:{rows} is not supported."
+                                ));
+                            }
+                            game_builder.size((*rows as u8, *columns as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From e9703037a95facd90bf0ed1e4d7c2f4ab51e4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 14/19] fix: unsupported SGF records are errors, not panics

---
 src/rules/sgf_bridge.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 37d86f9..46d0564 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -43,7 +43,7 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
@@ -51,13 +51,21 @@ impl Game {
                             });
                         }
                         SgfToken::Rule(rule) => {
+                            if !matches!(rule, RuleSet::Japanese | RuleSet::Chinese) {
+                                return Err(format!(
+                                    "The rule {} is not implemented yet !",
+                                    rule.to_string()
+                                ));
+                            }
                             game_builder.rule(rule.clone().into());
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The record is not a game of Go.".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -73,7 +81,9 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    player => {
+                                        return Err(format!("Unknown player {player} in PL."));
+                                    }
                                 }
                             }
                         }
@@ -126,7 +136,7 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            Action::Move(col, line) => Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat),
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From baf679d9ed698c076026aad9899a11aef292e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 15/19] fix: SGF moves are read wherever they are in their node

Only the first property of a node was looked at, so moves after a comment
or a clock property were lost.
---
 src/rules/sgf_bridge.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 46d0564..d75c055 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -90,10 +90,11 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
+            } else {
+                for token in &node.tokens {
+                    if let SgfToken::Move { action, .. } = token {
+                        moves.push((*action).into());
+                    }
                 }
             }
         }
-- 
2.43.0


From 5990645bfb7ebfd2ddd7e88e6151f5262201a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 16/19] fix: get_floating_stones returns the groups without two
 eyes

It counted one eye too few, returned the groups that have the eyes, and
numbered the groups by their position among the live groups.
---
 src/pieces/goban.rs      | 6 ++++++
 src/rules/dead_stones.rs | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 6683715..2b253d7 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,12 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// Returns all the groups in the goban with the index they are known by.
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_with_index(&self) -> impl Iterator<Item = (GroupIdx, Group)> + '_ {
+        self.chains.iter_with_index()
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..a630ba1 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,10 +148,10 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
+        let all_chains = self.goban.chains_with_index();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
@@ -159,7 +159,7 @@ impl Game {
             .collect::<HashSet<_>>();
 
         all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
+            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))
             .map(|(idx, _chain)| idx)
             .collect()
     }
-- 
2.43.0


From 0e4f900505788ce9047a573b195a1439d4394943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 17/19] fix: dead stones simulation does not panic when a
 playout is a draw

---
 src/rules/dead_stones.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index a630ba1..da0b407 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,9 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        // A draw is a win for nobody.
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From 608b97039f2ad015b92724cb02663ffa4b33329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 18/19] fix: SGF moves are played by the recorded player

The colour of the moves was ignored: a record whose first move is not by
the player the library expects had all its colours exchanged.
---
 src/rules/sgf_bridge.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index d75c055..7a290d0 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -17,6 +17,7 @@ impl Game {
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
         let mut moves = vec![];
+        let mut next_player = None;
 
         for node in game_tree.iter() {
             if first {
@@ -92,7 +93,20 @@ impl Game {
                 first = false;
             } else {
                 for token in &node.tokens {
-                    if let SgfToken::Move { action, .. } = token {
+                    if let SgfToken::Move { color, action } = token {
+                        let player: Color = (*color).into();
+                        match next_player {
+                            None => {
+                                game_builder.turn(player);
+                            }
+                            Some(expected) if expected != player => {
+                                return Err(
+                                    "Consecutive moves of one player are not supported.".to_string()
+                                );
+                            }
+                            Some(_) => {}
+                        }
+                        next_player = Some(!player);
                         moves.push((*action).into());
                     }
                 }
-- 
2.43.0


From 80085aa995ab60ef2a4696065e452a6c83f997f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 19/19] fix: moves recorded in the first node of an SGF record
 were dropped

---
 src/rules/sgf_bridge.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 7a290d0..065d461 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -91,24 +91,23 @@ impl Game {
                     }
                 }
                 first = false;
-            } else {
-                for token in &node.tokens {
-                    if let SgfToken::Move { color, action } = token {
-                        let player: Color = (*color).into();
-                        match next_player {
-                            None => {
-                                game_builder.turn(player);
-                            }
-                            Some(expected) if expected != player => {
-                                return Err(
-                                    "Consecutive moves of one player are not supported.".to_string()
-                                );
-                            }
-                            Some(_) => {}
+            }
+            for token in &node.tokens {
+                if let SgfToken::Move { color, action } = token {
+                    let player: Color = (*color).into();
+                    match next_player {
+                        None => {
+                            game_builder.turn(player);
+                        }
+                        Some(expected) if expected != player => {
+                            return Err(
+                                "Consecutive moves of one player are not supported.".to_string()
+                            );
                         }
-                        next_player = Some(!player);
-                        moves.push((*action).into());
+                        Some(_) => {}
                     }
+                    next_player = Some(!player);
+                    moves.push((*action).into());
                 }
             }
         }
-- 
2.43.0

