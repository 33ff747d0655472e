From 4c3afb4b3d5c88fc91b95c690d1912a0f10adb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 1/8] fix: return unsolvable or ambiguous sources of puzzle
 generation unchanged

---
 src/board/sudoku.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 2656e94..9936e12 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -236,6 +236,11 @@ impl Sudoku {
         // after each deletion check for unique solvability
         // and backtrack on error
 
+        // an invalid or ambiguous source is returned as is
+        if !sudoku.is_uniquely_solvable() {
+            return sudoku;
+        }
+
         // generate random order
         let mut cell_order = [0; N_CELLS];
         cell_order
-- 
2.43.0


From 4fecb10232040644a9c0bc21d43d664016acc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 2/8] fix: report the number of rows read in the block parser's
 NotEnoughRows error

---
 src/board/sudoku.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 9936e12..ffdf811 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -525,7 +525,7 @@ impl Sudoku {
             n_line_sud += 1;
         }
         if n_line_sud != 9 {
-            return Err(BlockParseError::NotEnoughRows(n_line_sud + 1)); // number of rows = index of last + 1
+            return Err(BlockParseError::NotEnoughRows(n_line_sud));
         }
         Ok(Sudoku(grid))
     }
-- 
2.43.0


From 7920464ae3fda375b4605b57d0068ea6701ce807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 3/8] fix: recognize solved sudokus before the strategy
 solver's caches are updated

---
 src/strategy/solver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 27f8630..160b094 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -285,7 +285,12 @@ impl StrategySolver {
 
     /// Check whether the sudoku has been completely solved.
     pub fn is_solved(&self) -> bool {
-        self.n_solved == 81
+        // entries may not have been worked into the caches yet
+        let mut grid = self.grid.state;
+        for &Candidate { cell, digit } in &self.deduced_entries {
+            grid.0[cell.as_index()] = digit.get();
+        }
+        grid.is_solved()
     }
 
     fn update_cell_poss_house_solved(&mut self) -> Result<(), Unsolvable> {
-- 
2.43.0


From 430c9449518df11a294571d02e073bd00b0221d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 4/8] fix: find naked singles left behind by other strategies
 when NakedSingles is listed first

---
 src/strategy/strategies.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/strategy/strategies.rs b/src/strategy/strategies.rs
index a55e59d..1ff2a99 100644
--- a/src/strategy/strategies.rs
+++ b/src/strategy/strategies.rs
@@ -78,7 +78,9 @@ impl Strategy {
         use self::Strategy::*;
         match *self {
             NakedSingles if !stop_after_first && is_first_strategy => {
-                state._update_cell_poss_house_solved(true, true)
+                state._update_cell_poss_house_solved(true, true)?;
+                // cache updates by other strategies can leave naked singles behind
+                state.find_naked_singles(false)
             }
             NakedSingles => state.find_naked_singles(stop_after_first),
             HiddenSingles => state.find_hidden_singles(stop_after_first),
-- 
2.43.0


From db22fe757bf4dc946b1d7ca6359ae1a512ffb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 5/8] fix: repeat the first strategy as long as it eliminates
 candidates

---
 src/strategy/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 160b094..465b542 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -266,7 +266,7 @@ impl StrategySolver {
             if first.deduce_all(self, true).is_err() {
                 break;
             };
-            if self.deduced_entries.len() > n_deductions {
+            if self.deduced_entries.len() > n_deductions || self.eliminated_entries.len() > n_eliminated {
                 continue 'outer;
             }
 
-- 
2.43.0


From ed9b9a04a645f0fa4687af51ac12d1c3a8a6e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 6/8] fix: compute candidates of grid_state and cell_state
 completely and without touching the caches

---
 src/strategy/solver.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 465b542..bc92261 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -172,9 +172,8 @@ impl StrategySolver {
         let mut grid = [CellState::Candidates(Set::NONE); 81];
 
         solver.update_grid();
-        let _ = solver._update_cell_poss_house_solved(false, false);
 
-        for (cell, &digits) in solver.cell_poss_digits.state.iter().enumerate() {
+        for (cell, &digits) in solver.possible_digits().iter().enumerate() {
             grid[cell] = CellState::Candidates(digits);
         }
         for (cell, &digit) in solver
@@ -193,17 +192,33 @@ impl StrategySolver {
     /// Returns the current state of the given `cell`
     pub fn cell_state(&mut self, cell: Cell) -> CellState {
         self.update_grid();
-        let _ = self._update_cell_poss_house_solved(false, false);
 
         let digit = self.grid.state.0[cell.as_index()];
         if digit != 0 {
             CellState::Digit(Digit::new(digit))
         } else {
-            let digits = self.cell_poss_digits.state[cell];
+            let digits = self.possible_digits()[cell];
             CellState::Candidates(digits)
         }
     }
 
+    // Candidates of all cells that neither conflict with an entry of the (updated) grid nor were eliminated.
+    // Unlike the lazily updated caches, this is also complete when the sudoku is impossible.
+    fn possible_digits(&self) -> CellArray<Set<Digit>> {
+        let mut poss_digits = CellArray([Set::ALL; 81]);
+        for candidate in &self.eliminated_entries {
+            poss_digits[candidate.cell].remove(candidate.digit_set());
+        }
+        for (cell, &num) in Cell::all().zip(self.grid.state.0.iter()) {
+            if let Some(digit) = Digit::new_checked(num) {
+                for neighbor in cell.neighbors() {
+                    poss_digits[neighbor].remove(digit.as_set());
+                }
+            }
+        }
+        poss_digits
+    }
+
     /// Try to insert the given candidate. Fails, if the cell already contains a digit.
     #[allow(clippy::result_unit_err)] // yes, it should be changed
     pub fn insert_candidate(&mut self, candidate: Candidate) -> Result<(), ()> {
-- 
2.43.0


From 356e5e88b5cdb8d107f7e761057f78600446448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:07 +0000
Subject: [PATCH 7/8] fix: panic on out of range positions in release builds as
 documented

---
 src/board/positions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/positions.rs b/src/board/positions.rs
index 81c4fd9..5a62193 100644
--- a/src/board/positions.rs
+++ b/src/board/positions.rs
@@ -179,7 +179,7 @@ macro_rules! define_types(
             /// # Panics
             /// Panics, if the argument is outside the allowed range.
             pub fn new(num: u8) -> Self {
-                debug_assert!(num < $limit);
+                assert!(num < $limit);
                 $name(num)
             }
 
-- 
2.43.0


From 9cef0baee2f89480fdc8d08c612e371a7bb66d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:21 +0000
Subject: [PATCH 8/8] fix: don't report the row index as the number of entries
 found in the block parser's InvalidLineLength text

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1afacce..92e6298 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -63,7 +63,7 @@ pub enum BlockParseError {
     InvalidEntry(InvalidEntry),
     /// Line contains (>9 valid entries) or (<9 and no invalids)
     /// Returns index of row (0-8)
-    #[error("a sudoku line should have 9 entries, found {0}")]
+    #[error("a sudoku line should have 9 entries, line {0} does not")]
     InvalidLineLength(u8),
     /// Input ends with less than 9 rows. Returns number of rows encountered.
     #[error("a sudoku should have 9 rows, found only {0}")]
-- 
2.43.0

