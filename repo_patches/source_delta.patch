From e491794c3417c9acd8cb19d8f428d9bce46dbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/56] fix: laymine_op computes the opening window inside the
 board (1-wide boards panicked)

---
 base/src/utils.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..9f58ee3 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -509,18 +509,9 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置及其周围、且在局面内的格子数。
+    let areaOp =
+        (min(row, X0 + 2) + 1 - max(1, X0)) * (min(column, Y0 + 2) + 1 - max(1, Y0));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From cecf520e870116d0ce037ad5efcad712c4faa63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 02/56] fix: iterating a SafeBoardRow yields the cell values
 instead of the encoded index

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..43d3a23 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -172,7 +172,7 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
-- 
2.43.0


From 78619f4bda11014fbc9852c371543ec0bbaee395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 03/56] fix: Board stores the 3BV, openings and islands it
 computed (later queries returned 0)

---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From 85b081ff12d5c036559baae91dfea5cef72dcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 04/56] fix: GameBoard drops cached results when the position
 is replaced

---
 base/src/board.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..239d228 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,14 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        // 局面变了，之前缓存的计算结果全部失效
+        self.poss.clear();
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
-- 
2.43.0


From 93501973c9d12c9477fd3aac6f42de751155245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 05/56] fix: GameBoard reports the mines found by enumeration

---
 base/src/board.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 239d228..572f776 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -98,15 +98,10 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        // 枚举引擎不修改局面，因此是雷的位置要从返回值中取
+        let (not_mine, is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
+        self.enum_not_mine = not_mine;
+        self.enum_is_mine = is_mine;
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From ba2f8b9f1a48202c966cef1901e9f7179792485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/56] fix: solve_enumerate reports groups of interchangeable
 cells that are all mines

---
 base/src/algorithms.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..f1e6d28 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -606,8 +606,7 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From ff91612e83e31d001ff442a79e8c3d23b87d24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/56] fix: sample_3BVs_exp counts openings once (the expert
 3BV fast path never merged them)

---
 base/src/algorithms.rs |  4 +-
 base/src/utils.rs      | 91 ------------------------------------------
 2 files changed, 2 insertions(+), 93 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index f1e6d28..41557c1 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1,5 +1,5 @@
 use crate::utils::{
-    cal_bbbv_exp, cal_table_minenum_recursion, chunk_matrixes,
+    cal_bbbv, cal_table_minenum_recursion, chunk_matrixes,
     combine, find_a_border_cell, laymine, laymine_op, legalize_board,
     refresh_board, refresh_matrixs, refresh_matrixses, unsolvable_structure,
     BigNumber, C,
@@ -1123,7 +1123,7 @@ fn laymine_study_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
                 }
             }
         }
-        bv_record[cal_bbbv_exp(&board)] += 1;
+        bv_record[cal_bbbv(&board)] += 1;
     }
     bv_record
 }
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 9f58ee3..fa3f654 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1410,97 +1410,6 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
     false
 }
 
-// 专用于高级局面的3BV快速计算
-pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
-    let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
-    let mut bv = 0;
-    for x in 0..16 {
-        for y in 0..30 {
-            if board[x][y] > 0 {
-                board[x][y] = 1000000;
-                bv += 1;
-            } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
-                if x >= 1 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x - 1][j] > 999999 {
-                            board[x - 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
-                        }
-                    }
-                }
-                if y >= 1 {
-                    if board[x][y - 1] > 999999 {
-                        board[x][y - 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
-                    }
-                }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
-            }
-        }
-    }
-    for x in (0..16).rev() {
-        for y in (0..30).rev() {
-            if board[x][y] == 0 {
-                if x <= 14 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x + 1][j] > 999999 {
-                            board[x + 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
-                            }
-                        }
-                    }
-                }
-                if y <= 28 {
-                    if board[x][y + 1] > 999999 {
-                        board[x][y + 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
-                    }
-                }
-            }
-        }
-    }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
-        }
-    }
-    bv
-}
-
 // 把局面合法化：只能合法化简单的情况，不能应付所有的情况！因为检查一个局面是否合法也是NP难的
 // 配合局面光学识别算法
 // 局面中标记的标准是10为待判的雷，1到8，没有11、12
-- 
2.43.0


From 5d0a8296951d589115456d8ea7c9fedb4919f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 08/56] fix: refresh_matrixses reaches every adjacent segment
 and visits it once

---
 base/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index fa3f654..4828353 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -385,6 +385,9 @@ pub fn refresh_matrixses(
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
+            if As[t].is_empty() {
+                continue; // 经由别的段已经到过这一段
+            }
             Ases.last_mut().unwrap().push(vec![]);
             Ases.last_mut()
                 .unwrap()
@@ -403,7 +406,7 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
+            for idj in 0..As.len() {
                 if adjacency_matrix[t][idj] {
                     buffer.push(idj);
                 }
-- 
2.43.0


From 3168fe6ae94c16802830b124cb2edcad9ea03d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 09/56] fix: cal_possibility accepts a mine density below the
 share of marked mines (underflow)

---
 base/src/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 41557c1..98a5e46 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -296,7 +296,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
-- 
2.43.0


From d1b41fef0f2b70ba52c66a84968997a439376cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 10/56] fix: cal_possibility reports the largest possible mine
 count even when fewer mines are given

---
 base/src/algorithms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 98a5e46..7d517eb 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -308,6 +308,7 @@ pub fn cal_possibility(
         }
     };
 
+    let max_minenum_all = max_minenum + is_minenum + unknow_block; // 可能的最大总雷数，与输入的雷数无关
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
@@ -411,7 +412,7 @@ pub fn cal_possibility(
         [
             min_minenum + is_minenum,
             minenum + is_minenum,
-            max_minenum + is_minenum + unknow_block,
+            max_minenum_all,
         ],
         exceed_len,
     ))
-- 
2.43.0


From 73a4dcb01d50ed2af3f302224214445e7be26faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 11/56] fix: cal_possibility gives an error instead of NaN when
 no layout has the given number of mines

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 7d517eb..ec94064 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -338,6 +338,9 @@ pub fn cal_possibility(
             mine_in_each_block.remove(i);
         }
     }
+    if mine_in_each_block.is_empty() {
+        return Err(3); // 雷数太多，或没有一种分布能凑出这个雷数
+    }
     // println!("mine_in_each_block: {:?}", mine_in_each_block);
     // 第三步，枚举每段雷数情况索引表：行代表每种情况，列代表每段雷数的索引，最后一列代表未知区域雷数
     let mut table_minenum_other: Vec<Vec<BigNumber>> = vec![];
-- 
2.43.0


From 7be45e85119f604f15efbb2eb1a9055bc60f046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 12/56] fix: solve_direct gives error 6 for a number that lost
 all its cells (panicked)

---
 base/src/algorithms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ec94064..ff29284 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -204,6 +204,10 @@ pub fn solve_direct(
         Some(_) => return Err(6),
         None => {}
     }
+    // 数字还缺雷，但周围已经没有未打开的格子
+    if As.iter().flatten().any(|row| row.iter().all(|&x| x == 0)) {
+        return Err(6);
+    }
     chunk_matrixes(As, xs, bs);
     Ok((not_mine, is_mine))
 }
-- 
2.43.0


From bdc6e2c1fe8f1c117218ebc72cf1711ed99bed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 13/56] fix: enumeration has no solution when a number is
 smaller than its marked mines (overflowed)

---
 base/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 4828353..80c283c 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -997,6 +997,9 @@ fn cal_table_minenum_recursion_step(
                 lower_limit_i -= combination_relationship[*j].len() as i32;
             }
         }
+        if upper_limit_i < 0 {
+            return Ok(false); // 数字周围标的雷比数字还多，无解
+        }
         if upper_limit_i < upper_limit as i32 {
             upper_limit = upper_limit_i as usize;
         }
-- 
2.43.0


From 57b82195b2ffe459d6aecb85aab81aa841a1158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 14/56] fix: laymine_solvable_adjust returns a checked layout
 (wrong mine counts, guesses and endless searches)

---
 base/src/algorithms.rs | 75 ++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ff29284..e27b013 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -850,45 +850,51 @@ pub fn laymine_solvable_adjust(
             }
         }
     }
-    // 开始递归求解
-    let (mut b, flag) = adjust_step(
-        &board,
-        &board_of_game,
-        &cells_plan_to_click,
-        remain_minenum,
-        remain_not_minenum,
-    );
-    // println!("+++++");
-    // b.iter().for_each(|i| {
-    //     i.iter()
-    //         .for_each(|j| print!("{number:>width$}", number = j, width = 4));
-    //     println!("")
-    // });
-    if !flag || b.is_empty() {
-        return (laymine_op(row, column, minenum, x0, y0), false);
-    }
-    for i in 0..row {
-        for j in 0..column {
-            if b[i][j] == -10 {
-                b[i][j] = -1;
+    // 调整法可能埋错雷数，或留下无法确定的格子，因此成品必须检验，不合格则重来
+    const MAX_TIMES: usize = 300;
+    for _ in 0..MAX_TIMES {
+        let mut remain_steps = 300;
+        // 开始递归求解
+        let (mut b, flag) = adjust_step(
+            &board,
+            &board_of_game,
+            &cells_plan_to_click,
+            remain_minenum,
+            remain_not_minenum,
+            &mut remain_steps,
+        );
+        if !flag || b.is_empty() {
+            continue;
+        }
+        for i in 0..row {
+            for j in 0..column {
+                if b[i][j] == -10 {
+                    b[i][j] = -1;
+                }
             }
         }
-    }
-    // 最后，算数字
-    for i in 0..row {
-        for j in 0..column {
-            if b[i][j] == -1 {
-                for m in max(1, i) - 1..min(row, i + 2) {
-                    for n in max(1, j) - 1..min(column, j + 2) {
-                        if b[m][n] >= 0 {
-                            b[m][n] += 1;
+        if b.iter().flatten().filter(|&&x| x == -1).count() != minenum {
+            continue;
+        }
+        // 最后，算数字
+        for i in 0..row {
+            for j in 0..column {
+                if b[i][j] == -1 {
+                    for m in max(1, i) - 1..min(row, i + 2) {
+                        for n in max(1, j) - 1..min(column, j + 2) {
+                            if b[m][n] >= 0 {
+                                b[m][n] += 1;
+                            }
                         }
                     }
                 }
             }
         }
+        if is_solvable(&b, x0, y0) {
+            return (b, true);
+        }
     }
-    (b, flag)
+    (laymine_op(row, column, minenum, x0, y0), false)
 }
 
 // 调整法的递归部分。注意空间复杂度为局面面积乘求解步数。
@@ -905,6 +911,7 @@ fn adjust_step(
     plan_click: &Vec<(usize, usize)>, // 当前计划点开的格子，递归部分要保证点开后，局面是有解开的可能的
     remain_minenum: usize,           // 当前还要埋的雷数
     remain_not_minenum: usize,       // 当前还要埋的非雷数
+    remain_steps: &mut usize,        // 剩余的尝试次数，用完则放弃
 ) -> (Vec<Vec<i32>>, bool) {
     let mut b = board.clone(); // 克隆一个board的备份
     let mut bg = board_of_game.clone(); // 克隆一个board_of_game的备份
@@ -987,6 +994,10 @@ fn adjust_step(
         }
         // 对每种雷数，重复尝试5次。
         for _u in 0..3 {
+            if *remain_steps == 0 {
+                return (vec![], false);
+            }
+            *remain_steps -= 1;
             adjust_the_area_on_board(&mut b, &front_xs_0, minenum);
             // 以下的循环用来修正b向量
             for bb in 0..bs_0.len() {
@@ -1024,7 +1035,7 @@ fn adjust_step(
                 // pc.append(&mut n);
                 r -= minenum;
                 rn -= xs_cell_num - minenum;
-                let a = adjust_step(&b, &bg, &n, r, rn);
+                let a = adjust_step(&b, &bg, &n, r, rn, remain_steps);
                 if a.1 {
                     if !a.0.is_empty() {
                         return (a.0, true);
-- 
2.43.0


From 4dd9c16cdcaf090842ea9554acdfa91b6422b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 15/56] fix: laymine_solvable_thread keeps the layout of the
 thread that succeeded

---
 base/src/algorithms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index e27b013..ce47b6f 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -752,7 +752,9 @@ pub fn laymine_solvable_thread(
     for handle in handles {
         handle.join().unwrap();
     }
-    let received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    drop(tx);
+    // 有线程成功就取成功的局面，而不是最先发来的局面
+    let received = rx.iter().max_by_key(|x| x.1).unwrap();
     for i in 0..row {
         for j in 0..column {
             game_board[i][j] = received.0[i][j];
-- 
2.43.0


From df86d8dcdf386bbccdb203112ed63dcd810611b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 16/56] fix: is_guess_while_needless judges the clicked
 interior cell, not the border cell found for it

---
 base/src/algorithms.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ce47b6f..1576e5b 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1372,7 +1372,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
         flag_need = n.is_empty();
         match board_of_game[xy.0][xy.1] {
             12 => return 1,
-            11 => return 4,
+            11 if flag_border => return 4,
             _ => {
                 let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                 if !flag_border && !n.is_empty() {
@@ -1381,7 +1381,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                 flag_need = flag_need && n.is_empty();
                 match board_of_game[xy.0][xy.1] {
                     12 => return 1,
-                    11 => return 4,
+                    11 if flag_border => return 4,
                     _ => {
                         let (n, i) = solve_enumerate(As, xs, bs);
                         if !flag_border && !n.is_empty() {
@@ -1390,7 +1390,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                         flag_need = flag_need && n.is_empty();
                         if n.contains(&xy) {
                             return 1;
-                        } else if i.contains(&xy) {
+                        } else if flag_border && i.contains(&xy) {
                             return 4;
                         } else if flag_need {
                             return 2;
-- 
2.43.0


From 1387ddfaf7d9eb26f26d319d839c17c36eef55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 17/56] fix: is_good_chording stays inside the board in the
 last column

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 80c283c..75103a7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1639,7 +1639,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From 69ea59c5fb735ac29d50077829a209546fbd3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 18/56] fix: withdrawing the last pre-flag also clears the ce
 count

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..ab39d5f 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -543,6 +543,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.double = 0;
                                     self.left = 0;
                                     self.right = 0;
+                                    self.ce = 0;
                                     self.game_board[pos.0][pos.1] = 10;
                                     return Ok(0);
                                 } else {
@@ -847,6 +848,7 @@ impl<T> MinesweeperBoard<T> {
         self.double = 0;
         self.left = 0;
         self.right = 0;
+        self.ce = 0;
     }
 }
 
-- 
2.43.0


From fcfa5763c1f3d62a1fef26caa65701622c3bfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 19/56] fix: releasing the middle button outside the board does
 not panic

---
 base/src/videos/minesweeper_board.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index ab39d5f..05d4972 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -742,11 +742,14 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
-                if !self.middle_hold {
+                if !self.middle_hold && (pos.0 < self.row && pos.1 < self.column) {
                     return self.chording_click(pos.0, pos.1);
                 }
             }
-- 
2.43.0


From c7b7192733e632c2ab0a2b5f47727f8f6c69297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 20/56] fix: a right press outside the board is not subtracted
 from the right clicks by a chord

---
 base/src/videos/minesweeper_board.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 05d4972..ee8534b 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -669,7 +669,8 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        // 局面外的按下没有记右键数，双击时不能再扣除
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
@@ -725,6 +726,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
-- 
2.43.0


From c6686eb6f7d3712ff431078ac662a814817a0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 21/56] fix: reset also clears the pre-flag count and the held
 middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index ee8534b..50f44dd 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From ed20004416428938c90683e604e690c4c6be1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 22/56] fix: an opening counts as solved once all its empty
 cells are open

---
 base/src/videos/minesweeper_board.rs | 32 +++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 50f44dd..4d189e8 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -178,11 +178,11 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
+                self.ce += 1;
+                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
                     self.bbbv_solved += 1;
                 }
-                self.ce += 1;
-                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -295,8 +295,8 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
-            refresh_board(&self.board, &mut self.game_board, chording_cells);
+            refresh_board(&self.board, &mut self.game_board, chording_cells.clone());
+            self.bbbv_solved += self.op_num_of_cells(&chording_cells);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -329,29 +329,26 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
+    // 刚刚由双击打开的格子中，因此而（完整）打开的op数。（此前已打开的不算）
     // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    fn op_num_of_cells(&self, cells: &Vec<(usize, usize)>) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
+        for &(i, j) in cells {
+            if self.board[i][j] == 0 && !game_board_mark[i][j] {
+                if self.cell_is_op_completed(i, j, &mut game_board_mark) {
+                    op_num += 1;
                 }
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
+    // 打开(x, y)以后，其所在的op是否已经完全打开
     // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
@@ -359,14 +356,15 @@ impl<T> MinesweeperBoard<T> {
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut completed = true;
         let mut poses = vec![(x, y)];
         while let Some(top) = poses.pop() {
             let (i, j) = top;
             if self.board[i][j] > 0 {
                 continue;
             } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
+                if self.game_board[i][j] >= 10 {
+                    completed = false;
                 }
                 game_board_mark[i][j] = true;
                 for m in max(1, i) - 1..min(self.row, i + 2) {
@@ -379,7 +377,7 @@ impl<T> MinesweeperBoard<T> {
             } else {
             }
         }
-        true
+        completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From d79609eb3eae674e7a13974b85f1837123bbcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 23/56] fix: a game that ends with its first click gets a start
 time and the right result time

---
 base/src/videos/base_video.rs | 40 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..2ee97a6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -800,6 +800,27 @@ impl<T> BaseVideo<T> {
 
         let a = self.minesweeper_board.step(e, (x, y))?;
         self.game_board_state = self.minesweeper_board.game_board_state;
+        // 第一次有效的左键，也可能直接赢或输
+        if old_state != GameBoardState::Playing
+            && (self.game_board_state == GameBoardState::Playing
+                || self.game_board_state == GameBoardState::Win
+                || self.game_board_state == GameBoardState::Loss)
+        {
+            if old_state == GameBoardState::Ready {
+                self.video_start_instant = step_instant;
+                time_ms = time_ms_between(step_instant, self.video_start_instant);
+                time = time_ms as f64 / 1000.0;
+            }
+            self.game_start_ms = time_ms;
+            // 高精度的时间戳，单位为微秒
+            // https://doc.rust-lang.org/std/time/struct.Instant.html
+            self.start_time = SystemTime::now()
+                .duration_since(UNIX_EPOCH)
+                .unwrap()
+                .as_micros()
+                .to_string()
+                .into_bytes();
+        }
         match self.game_board_state {
             GameBoardState::Ready => {
                 self.game_board_stream.clear();
@@ -813,24 +834,7 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
-                if old_state != GameBoardState::Playing {
-                    if old_state == GameBoardState::Ready {
-                        self.video_start_instant = step_instant;
-                        time_ms = time_ms_between(step_instant, self.video_start_instant);
-                        time = time_ms as f64 / 1000.0;
-                    }
-                    self.game_start_ms = time_ms;
-                    // 高精度的时间戳，单位为微秒
-                    // https://doc.rust-lang.org/std/time/struct.Instant.html
-                    self.start_time = SystemTime::now()
-                        .duration_since(UNIX_EPOCH)
-                        .unwrap()
-                        .as_micros()
-                        .to_string()
-                        .into_bytes();
-                }
-            }
+            GameBoardState::Playing => {}
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
-- 
2.43.0


From 612d9a8af4dd1d646866825ebea1136825a0b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 24/56] fix: reading the clock or a live rate within the first
 millisecond does not underflow

---
 base/src/videos/base_video.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 2ee97a6..ae379ac 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1159,7 +1159,7 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
@@ -1446,7 +1446,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1466,7 +1466,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1486,7 +1486,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1506,7 +1506,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1526,7 +1526,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From 6e5b9ca306852a396d62bc6d6c7de7c7d5f7dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 25/56] fix: events outside the board do not add to the live
 path

---
 base/src/videos/base_video.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index ae379ac..bfd519c 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -882,6 +882,12 @@ impl<T> BaseVideo<T> {
                     || p.x as usize >= self.width * self.cell_pixel_size as usize)
                 {
                     path = p.path;
+                    if pos.0 >= self.height * self.cell_pixel_size as usize
+                        || pos.1 >= self.width * self.cell_pixel_size as usize
+                    {
+                        // 局面外的活动不计入路径，和分析录像时一致
+                        break;
+                    }
                     path += ((pos.0 as f64 - p.y as f64).powf(2.0)
                         + (pos.1 as f64 - p.x as f64).powf(2.0))
                     .powf(0.5)
-- 
2.43.0


From 7a1e5993eba00578177508febbfc6032cfbb5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 26/56] fix: a recording that is lost by its first click starts
 its clock at that click

---
 base/src/videos/base_video.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index bfd519c..353423b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -478,11 +478,15 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     let mut g_b = GameBoard::new(self.mine_num);
                     g_b.set_game_board(&b.game_board);
                     self.game_board_stream.push(g_b);
-                    if old_state != GameBoardState::Playing {
-                        self.delta_time = svi.time;
-                    }
                     // println!("{:?}, {:?}", self.game_board_stream.len(), svi.mouse);
                 }
+                if (old_state == GameBoardState::Ready || old_state == GameBoardState::PreFlaging)
+                    && b.game_board_state != GameBoardState::Ready
+                    && b.game_board_state != GameBoardState::PreFlaging
+                {
+                    // 第一次有效的左键，也可能直接赢或输
+                    self.delta_time = svi.time;
+                }
             }
             svi.next_game_board_id = self.game_board_stream.len() - 1;
             svi.mouse_state = b.mouse_state.clone();
-- 
2.43.0


From dfdda082c3e24a9f5121e3953675e62bd791bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 27/56] fix: reset also forgets the checksum of the last game

---
 base/src/videos/base_video.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 353423b..2f0936f 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -438,6 +438,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
@@ -645,6 +647,8 @@ impl BaseVideo<SafeBoard> {
         self.video_action_state_recorder.clear();
         self.game_board_stream.clear();
         self.raw_data.clear();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
-- 
2.43.0


From 644fac61f0add85259fbd23f0b04514a462e16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 28/56] fix: a checksum can be set before the data is generated
 and set again

---
 base/src/videos/base_video.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 2f0936f..ac60e19 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1380,11 +1380,16 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
+        self.checksum = checksum;
+        // 尚未生成二进制数据时，由generate_evf_v0_raw_data写入checksum
+        if self.raw_data.is_empty() {
+            self.has_checksum = true;
+            return Ok(0);
+        }
         if !self.has_checksum {
             *self.raw_data.last_mut().unwrap() = 0;
             self.raw_data
                 .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
             self.has_checksum = true;
             return Ok(0);
         } else {
-- 
2.43.0


From 7c31b178d59146aaacf0c58f9d5133b8dbe05863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 29/56] fix: recordings saved at the same time do not overwrite
 each other

---
 base/src/videos/base_video.rs | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index ac60e19..7dac131 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -12,6 +12,8 @@ use crate::videos::analyse_methods::{
 };
 use std::fs;
 #[cfg(any(feature = "py", feature = "rs"))]
+use std::io::{ErrorKind, Write};
+#[cfg(any(feature = "py", feature = "rs"))]
 use std::time::{Instant, SystemTime, UNIX_EPOCH};
 #[cfg(feature = "js")]
 use web_sys::console;
@@ -1904,27 +1906,25 @@ impl<T> BaseVideo<T> {
     // }
     /// 存evf文件，自动加后缀，xxx.evf重复变成xxx(2).evf
     pub fn save_to_evf_file(&self, file_name: &str) {
-        let file_exist =
-            std::path::Path::new((file_name.to_string() + &(".evf".to_string())).as_str()).exists();
-        if !file_exist {
-            fs::write(
-                (file_name.to_string() + &(".evf".to_string())).as_str(),
-                &self.raw_data,
-            )
-            .unwrap();
-            return;
-        } else {
-            let mut id = 2;
-            let mut format_name;
-            loop {
-                format_name = file_name.to_string() + &(format!("({}).evf", id).to_string());
-                let new_file_name = format_name.as_str();
-                let file_exist = std::path::Path::new(new_file_name).exists();
-                if !file_exist {
-                    fs::write(new_file_name, &self.raw_data).unwrap();
+        let mut id = 1;
+        loop {
+            let new_file_name = if id == 1 {
+                file_name.to_string() + ".evf"
+            } else {
+                file_name.to_string() + &format!("({}).evf", id)
+            };
+            // 检查和创建是同一步，同时存的录像也不会互相覆盖
+            match fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&new_file_name)
+            {
+                Ok(mut f) => {
+                    f.write_all(&self.raw_data).unwrap();
                     return;
                 }
-                id += 1;
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => id += 1,
+                Err(e) => panic!("{}: {}", new_file_name, e),
             }
         }
     }
-- 
2.43.0


From 1dd6bbe42c58b05e0e6fdc1f0c4beb26b6954df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 30/56] fix: pre-game flags of rmv recordings are read as
 column, row

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..a21bf2c 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -169,8 +169,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From 160a77f269c05935212c1f53ef1784a2609af685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 31/56] fix: the second event of an mvf recording is compared
 with the position of the first

---
 base/src/videos/mvf_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..1ed7e87 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -216,8 +216,6 @@ impl MvfVideo {
         // println!("rb: {:?}, mb: {:?}, lb: {:?}", rb, mb, lb);
         let mut x = 0u16;
         let mut y = 0u16;
-        let mut prev_x = 0u16;
-        let mut prev_y = 0u16;
         let mut ths = 0;
         let mut sec = 0;
         let mouse;
@@ -233,6 +231,8 @@ impl MvfVideo {
         for j in 0..10 {
             sec |= self.apply_perm(28 + j, &byte, &bit, &e) << j;
         }
+        let mut prev_x = x;
+        let mut prev_y = y;
 
         if prev_mb > 0 {
             mouse = "mc".to_string()
-- 
2.43.0


From a7bb64372c2845aa5bcf40ede7d242b7af42ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 32/56] fix: an avf recording with a mine off the field is
 refused

---
 base/src/videos/avf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..3bcd43c 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c == 0 || d == 0 || c > self.data.height || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
-- 
2.43.0


From af881de50f65ea265760ad9dc803bf96b4e0f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 33/56] fix: an evf recording of an empty field is refused

---
 base/src/videos/evf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..c17298e 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -130,6 +130,9 @@ impl EvfVideo {
             self.data.device_uuid.push(the_byte as u8);
         }
 
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         let mut byte = 0;
-- 
2.43.0


From caf826e63c19a233d1c444d138640c4410917ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 34/56] fix: rmv recordings with impossible sizes, levels or no
 events are refused

---
 base/src/videos/rmv_video.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index a21bf2c..9237170 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -100,6 +100,9 @@ impl RmvVideo {
 
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
+            if result_string_size < 3 {
+                return Err(ErrReadVideoReason::InvalidParams);
+            }
             self.data.static_params.bbbv = 0;
             for _ in 0..result_string_size - 3 {
                 self.data.get_u8()?;
@@ -147,6 +150,9 @@ impl RmvVideo {
         self.data.height = self.data.get_u8()?.into();
         self.data.mine_num = self.data.get_u16()?.into();
 
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         // Every 2 bytes is x,y with 0,0 being the top left corner
@@ -183,8 +189,14 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()?.checked_add(3) {
+            Some(level) => level,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
@@ -243,9 +255,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(event) => event.time,
+            None => return Err(ErrReadVideoReason::InvalidVideoEvent),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From a53620347665cf3ac297618d7fba568fa9afe08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 35/56] fix: mvf recordings with impossible fields, mines,
 levels or no events are refused

---
 base/src/videos/mvf_video.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 1ed7e87..8928fd5 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,13 +44,18 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if w >= self.data.width || h >= self.data.height {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
@@ -116,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()?.checked_add(2) {
+            Some(level) => level,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -204,6 +212,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidVideoEvent);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
-- 
2.43.0


From 78dc1a54c52bc6d2c2f2d9fb6fea66bf25d07c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 36/56] fix: mvf recordings of versions that cannot be read are
 refused

---
 base/src/videos/mvf_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 8928fd5..3c2f76a 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -329,10 +329,10 @@ impl MvfVideo {
                 self.data.software = "0.97 beta".as_bytes().to_vec();
                 return self.read_097();
             } else {
-                Ok(())
+                Err(ErrReadVideoReason::InvalidParams)
             }
         } else {
-            Ok(())
+            Err(ErrReadVideoReason::InvalidParams)
         }
     }
 }
-- 
2.43.0


From 10577c3a2b7c0e910b60c5a655064572ff309d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 37/56] fix: seeking to the time of the current event does not
 step back

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 7dac131..7870fe4 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1233,7 +1233,7 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        if time >= self.video_action_state_recorder[self.current_event_id].time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
-- 
2.43.0


From 67632e03aca8384f80af81b4d603328d8f5f0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 38/56] fix: probabilities shown before the first opening
 (underflow at the first event, rows and columns swapped)

---
 base/src/videos/base_video.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 7870fe4..bed3dbc 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1141,11 +1141,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id == 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
-- 
2.43.0


From 2a233834011eeb85ee4ca8e46786741eb8ce6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 39/56] fix: rqp, qg and ce/s of a finished game use its result
 time (were always 0)

---
 base/src/videos/base_video.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index bed3dbc..4372540 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1632,19 +1632,29 @@ impl<T> BaseVideo<T> {
             )
         }
     }
+    /// 计算指标用的时间：录像播放时是当前时间，游戏结束后是成绩
+    fn get_metrics_time(&self) -> f64 {
+        if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        }
+    }
     pub fn get_rqp(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        let t = self.get_metrics_time();
+        Ok(t.powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        let t = self.get_metrics_time();
+        Ok(t.powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1662,10 +1672,11 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = self.get_metrics_time();
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From 70a0133409d4f4661fd4e3a1238afbf29dc542ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 40/56] fix: is_valid does not panic on Viennasweeper
 recordings without a time stamp

---
 base/src/videos/base_video.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 4372540..39d7f93 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1951,16 +1951,13 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
-            let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
-                + ((self.start_time[1] - 48) as u64) * 100000000
-                + ((self.start_time[2] - 48) as u64) * 10000000
-                + ((self.start_time[3] - 48) as u64) * 1000000
-                + ((self.start_time[4] - 48) as u64) * 100000
-                + ((self.start_time[5] - 48) as u64) * 10000
-                + ((self.start_time[6] - 48) as u64) * 1000
-                + ((self.start_time[7] - 48) as u64) * 100
-                + ((self.start_time[8] - 48) as u64) * 10
-                + (self.start_time[9] - 48) as u64;
+            if self.start_time.len() < 10 || !self.start_time[..10].iter().all(|c| c.is_ascii_digit()) {
+                // 早期的录像没有时间戳，报不确定
+                return 3;
+            }
+            let start_time = self.start_time[..10]
+                .iter()
+                .fold(0, |t, c| t * 10 + (c - b'0') as u64);
             if start_time > 1682265600 {
                 // 2023-04-24 00:00:00后被禁
                 return 1;
-- 
2.43.0


From 657c0d442463b55e3221f15315276badbe1cab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 41/56] fix: a guess is called needless only when some cell was
 provably safe

---
 base/src/videos/analyse_methods.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..c237ddd 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -83,7 +83,13 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
             x = (video.video_action_state_recorder[ide].y / video.cell_pixel_size as u16) as usize;
             y = (video.video_action_state_recorder[ide].x / video.cell_pixel_size as u16) as usize;
 
-            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].get_poss()[x][y] > 0.0
+            let prior_game_board = &mut video.game_board_stream
+                [video.video_action_state_recorder[ide].prior_game_board_id];
+            // 没有可判的安全格时，只能猜雷
+            let has_safe_cell = !prior_game_board.get_basic_not_mine().is_empty()
+                || !prior_game_board.get_enum_not_mine().is_empty();
+            if has_safe_cell
+                && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].get_poss()[x][y] > 0.0
                 && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                     .get_basic_not_mine()
                     .contains(&(x, y))
-- 
2.43.0


From 76d007ded823ac199311def86224e368a9b97dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 42/56] fix: survive_poss keeps the comments that other
 analyses left on the last event

---
 base/src/videos/analyse_methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index c237ddd..802812b 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -246,7 +246,8 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    // 其他分析方法可能已经在最后一个事件留下了评论
+    video.video_action_state_recorder.last_mut().unwrap().comments.push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From a9d533f8a2b8d44be655dd5cd6fafbd472f4d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 43/56] fix: removing a flag is not reported as finding a mine

---
 base/src/videos/analyse_methods.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 802812b..68f48a3 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -58,7 +58,9 @@ pub fn analyse_jump_judge(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 );
             }
         } else if video.video_action_state_recorder[ide].useful_level == 1 && video.video_action_state_recorder[ide].mouse == "rc" {
-            if !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                .game_board[x][y] == 10
+                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                 .get_basic_is_mine()
                 .contains(&(x, y))
                 && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-- 
2.43.0


From e0a6e377fd9f0b39a642c7b1a6605f8f0921ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 44/56] fix: super_fl_local does not panic on a right press
 outside the board

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 68f48a3..f365e45 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -282,8 +282,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0


From 43cdd2980b6a71b51cd502d88d6cc1f90023539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 45/56] fix: a game whose mines move is won only when every
 safe cell is open

---
 base/src/videos/minesweeper_board.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 4d189e8..eb56b6f 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -55,9 +55,6 @@ pub struct MinesweeperBoard<T> {
     pub column: usize,
     pub mouse_state: MouseState,
     pub game_board_state: GameBoardState,
-    // 指针，用于判断局面是否全部扫开
-    pointer_x: usize,
-    pointer_y: usize,
     pre_flag_num: usize,
     // 中键是否按下，配合“m”、“mc”、“mr”。
     middle_hold: bool,
@@ -79,8 +76,6 @@ impl Default for MinesweeperBoard<Vec<Vec<i32>>> {
             column: 0,
             mouse_state: MouseState::Undefined,
             game_board_state: GameBoardState::Ready,
-            pointer_x: 0,
-            pointer_y: 0,
             pre_flag_num: 0,
             middle_hold: false,
         }
@@ -104,8 +99,6 @@ impl Default for MinesweeperBoard<SafeBoard> {
             column: 0,
             mouse_state: MouseState::Undefined,
             game_board_state: GameBoardState::Ready,
-            pointer_x: 0,
-            pointer_y: 0,
             pre_flag_num: 0,
             middle_hold: false,
         }
@@ -140,8 +133,6 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.flagedList = vec![];
         self.mouse_state = MouseState::UpUp;
         self.game_board_state = GameBoardState::Ready;
-        self.pointer_x = 0;
-        self.pointer_y = 0;
         self.pre_flag_num = 0;
         self.middle_hold = false;
     }
@@ -822,18 +813,8 @@ impl<T> MinesweeperBoard<T> {
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
-        for j in self.pointer_y..self.column {
-            if self.game_board[self.pointer_x][j] < 10 {
-                if self.game_board[self.pointer_x][j] != self.board[self.pointer_x][j] {
-                    return false; // 安全性相关（发生作弊）
-                }
-            }
-            if self.game_board[self.pointer_x][j] >= 10 && self.board[self.pointer_x][j] != -1 {
-                self.pointer_y = j;
-                return false;
-            }
-        }
-        for i in self.pointer_x + 1..self.row {
+        // 强可猜、弱可猜模式下雷会移动，因此每次都检查整个局面
+        for i in 0..self.row {
             for j in 0..self.column {
                 if self.game_board[i][j] < 10 {
                     if self.game_board[i][j] != self.board[i][j] {
@@ -841,8 +822,6 @@ impl<T> MinesweeperBoard<T> {
                     }
                 }
                 if self.game_board[i][j] >= 10 && self.board[i][j] != -1 {
-                    self.pointer_x = i;
-                    self.pointer_y = j;
                     return false;
                 }
             }
-- 
2.43.0


From ef18900aa83be2aebb8a967a3cb52b2af58cba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 46/56] fix: a recording that begins outside the board has a
 mouse position

---
 base/src/videos/base_video.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 39d7f93..b16abb0 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1762,15 +1762,20 @@ impl<T> BaseVideo<T> {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
             {
-                return Ok((
-                    (self.video_action_state_recorder[self.current_event_id - k].x as f64
-                        * self.video_playing_pix_size_k) as u16,
-                    (self.video_action_state_recorder[self.current_event_id - k].y as f64
-                        * self.video_playing_pix_size_k) as u16,
-                ));
+                break;
+            }
+            if k == self.current_event_id {
+                // 鼠标从未进入过局面，返回当前事件的坐标
+                k = 0;
+                break;
             }
             k += 1;
         }
+        let event = &self.video_action_state_recorder[self.current_event_id - k];
+        Ok((
+            (event.x as f64 * self.video_playing_pix_size_k) as u16,
+            (event.y as f64 * self.video_playing_pix_size_k) as u16,
+        ))
     }
     // 返回录像文件里记录的方格尺寸。flop_new播放器里会用到。这是因为元扫雷和flop播放器的播放机制不同。
     pub fn get_pix_size(&self) -> Result<u8, ()> {
-- 
2.43.0


From 26c38113cf0acac5ce417cb332f47272c10d93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 47/56] fix: iterating over a protected board that was set
 again starts at its first row

---
 base/src/safe_board.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 43d3a23..67ed663 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -121,6 +121,7 @@ impl SafeBoard {
             safe_board.push(SafeBoardRow::new(row));
         }
         self.value = safe_board;
+        self.counter = 0;
     }
 }
 
-- 
2.43.0


From 796f98742b340e3864fa074964d5b02ff4312e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 48/56] fix: choosing an event through Python moves the time
 with it

---
 python_package/src/avf_video.rs  | 5 ++++-
 python_package/src/base_video.rs | 5 ++++-
 python_package/src/evf_video.rs  | 5 ++++-
 python_package/src/mvf_video.rs  | 5 ++++-
 python_package/src/rmv_video.rs  | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index c42942f..7d296c0 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -305,7 +305,10 @@ impl PyAvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        // 时间等也要随事件移动
+        if self.core.data.set_current_event_id(id).is_err() {
+            self.core.data.current_event_id = id;
+        }
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index 5fb2e2a..c8487a7 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -367,7 +367,10 @@ impl PyBaseVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.current_event_id = id
+        // 时间等也要随事件移动
+        if self.core.set_current_event_id(id).is_err() {
+            self.core.current_event_id = id;
+        }
     }
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index 9fc15a2..dcaee78 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -305,7 +305,10 @@ impl PyEvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        // 时间等也要随事件移动
+        if self.core.data.set_current_event_id(id).is_err() {
+            self.core.data.current_event_id = id;
+        }
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index 1492c1f..c81659b 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -305,7 +305,10 @@ impl PyMvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        // 时间等也要随事件移动
+        if self.core.data.set_current_event_id(id).is_err() {
+            self.core.data.current_event_id = id;
+        }
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 6051c7b..903588d 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -305,7 +305,10 @@ impl PyRmvVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        // 时间等也要随事件移动
+        if self.core.data.set_current_event_id(id).is_err() {
+            self.core.data.current_event_id = id;
+        }
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
-- 
2.43.0


From 042d946529c34103c5faa1fe9995406b582d9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 49/56] fix: choosing an event through JavaScript moves the
 time with it

---
 wasm/src/board.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index a4aed12..bc54db3 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -404,7 +404,10 @@ macro_rules! generate_video {
                 }
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
-                    self.core.data.current_event_id = id
+                    // 时间等也要随事件移动
+                    if self.core.data.set_current_event_id(id).is_err() {
+                        self.core.data.current_event_id = id;
+                    }
                 }
                 #[wasm_bindgen(getter)]
                 pub fn get_game_board(&self) -> String {
-- 
2.43.0


From b05fbdd9d6a516ea850790e47454cc2435e11e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 50/56] fix: a board that contradicts itself has no table of
 probabilities in JavaScript

---
 wasm/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wasm/src/lib.rs b/wasm/src/lib.rs
index dd72abf..23f3e92 100644
--- a/wasm/src/lib.rs
+++ b/wasm/src/lib.rs
@@ -105,7 +105,9 @@ pub fn cal_possibility_onboard(board_json: &str, mine_num: i32) -> String {
         );
     }
     // mine_num为局面中雷的总数，不管有没有标
-    ms::mark_board(&mut board_of_game);
+    if ms::mark_board(&mut board_of_game).is_err() {
+        return serde_json::to_string(&(Vec::<i32>::new(), [0, 0, 0])).unwrap();
+    }
     match ms::cal_possibility_onboard(&board_of_game, mine_num as f64) {
         Ok(t) => return serde_json::to_string(&t).unwrap(),
         Err(_) => return serde_json::to_string(&(Vec::<i32>::new(), [0, 0, 0])).unwrap(),
-- 
2.43.0


From 195cdcc4dc19d3570944c52dcbbe0ceb3615aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 51/56] fix: the C interface compiles against the current
 library

---
 c/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index 6008ace..a396595 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -1,5 +1,5 @@
 extern crate libc;
-use ms_toollib::cal3BV as rs_cal3BV;
+use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-- 
2.43.0


From 7cfc94a6af9d441ee0169878b2446ef1ff63c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 52/56] fix: the C interface frees what it allocated with the
 layout it was allocated with

---
 c/src/lib.rs | 80 +++++++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index a396595..57e988c 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -3,8 +3,6 @@ use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-use std::alloc::{alloc, dealloc, Layout};
-use std::mem;
 use std::ptr;
 use std::slice;
 use libc::c_char;
@@ -108,20 +106,27 @@ fn struct_board_to_vec_board(board: Board) -> Vec<Vec<i32>> {
     b
 }
 
-fn vec_board_to_struct_board(mut b: Vec<Vec<i32>>) -> Board {
-    let mut board: Vec<Row> = vec![];
+// 内存交给C，不留多余的容量，此后按长度即可释放
+fn into_raw<T>(v: Vec<T>) -> *mut T {
+    Box::into_raw(v.into_boxed_slice()) as *mut T
+}
+
+// 释放into_raw交出的内存
+unsafe fn drop_raw<T>(p: *mut T, n: usize) {
+    drop(Box::from_raw(ptr::slice_from_raw_parts_mut(p, n)));
+}
+
+fn vec_board_to_struct_board(b: Vec<Vec<i32>>) -> Board {
     let n_row = b.len();
-    for i in 0..n_row {
-        board.push(Row {
-            cells: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
-        });
-    }
-    let p = board.as_mut_ptr();
-    mem::forget(b);
-    mem::forget(board);
+    let board: Vec<Row> = b
+        .into_iter()
+        .map(|row| Row {
+            n_column: row.len(),
+            cells: into_raw(row),
+        })
+        .collect();
     Board {
-        rows: p,
+        rows: into_raw(board),
         n_row: n_row,
     }
 }
@@ -149,7 +154,7 @@ pub extern "C" fn laymine(
     X0: usize,
     Y0: usize,
 ) -> Board {
-    let mut b = rs_laymine(row, column, MineNum, X0, Y0);
+    let b = rs_laymine(row, column, MineNum, X0, Y0);
     // let mut board: Vec<Row> = vec![];
     // for i in 0..b.len() {
     //     board.push(Row {
@@ -178,21 +183,17 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
             b[i].push(array[j]);
         }
     }
-    let (mut b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
-
-    let mut board: Vec<RowPoss> = vec![];
-    for i in 0..b.len() {
-        board.push(RowPoss {
-            cells_poss: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
-        });
-    }
-    let p = board.as_mut_ptr();
+    let (b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
 
-    mem::forget(b);
-    mem::forget(board);
+    let board: Vec<RowPoss> = b
+        .into_iter()
+        .map(|row| RowPoss {
+            n_column: row.len(),
+            cells_poss: into_raw(row),
+        })
+        .collect();
     let t = BoardPoss {
-        rows_poss: p,
+        rows_poss: into_raw(board),
         n_row: board_of_game.n_row,
     };
     BoardPossReturn {
@@ -208,12 +209,10 @@ pub extern "C" fn free_board(board: Board) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
         for i in 0..board.n_row {
-            let layout =
-                Layout::from_size_align_unchecked((*(board.rows)).n_column, mem::size_of::<i32>());
-            dealloc((*(board.rows).offset(i as isize)).cells as *mut u8, layout);
+            let row = &*board.rows.add(i);
+            drop_raw(row.cells, row.n_column);
         }
-        let layout = Layout::from_size_align_unchecked(board.n_row as usize, mem::size_of::<Row>());
-        dealloc(board.rows as *mut u8, layout);
+        drop_raw(board.rows, board.n_row);
     }
 }
 
@@ -222,20 +221,13 @@ pub extern "C" fn free_board_poss(board_poss: BoardPossReturn) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
         for i in 0..board_poss.board_poss.n_row {
-            let layout = Layout::from_size_align_unchecked(
-                (*(board_poss.board_poss.rows_poss)).n_column,
-                mem::size_of::<f64>(),
-            );
-            dealloc(
-                (*(board_poss.board_poss.rows_poss).offset(i as isize)).cells_poss as *mut u8,
-                layout,
-            );
+            let row = &*board_poss.board_poss.rows_poss.add(i);
+            drop_raw(row.cells_poss, row.n_column);
         }
-        let layout = Layout::from_size_align_unchecked(
+        drop_raw(
+            board_poss.board_poss.rows_poss,
             board_poss.board_poss.n_row,
-            mem::size_of::<RowPoss>(),
         );
-        dealloc(board_poss.board_poss.rows_poss as *mut u8, layout);
     }
 }
 
-- 
2.43.0


From e598bc7e68eb7985e3ecdde73b1a61462a558779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 53/56] fix: refuse to show an event that is not in the
 recording instead of panicking

---
 base/src/videos/base_video.rs    | 3 +++
 python_package/src/avf_video.rs  | 4 +++-
 python_package/src/base_video.rs | 4 +++-
 python_package/src/evf_video.rs  | 4 +++-
 python_package/src/mvf_video.rs  | 4 +++-
 python_package/src/rmv_video.rs  | 4 +++-
 wasm/src/board.rs                | 4 +++-
 7 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index b16abb0..a5f3efd 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1268,6 +1268,9 @@ impl<T> BaseVideo<T> {
         if self.game_board_state != GameBoardState::Display {
             return Err(());
         };
+        if id >= self.video_action_state_recorder.len() {
+            return Err(());
+        }
         self.current_event_id = id;
         self.current_time = self.video_action_state_recorder[id].time - self.delta_time;
         Ok(0)
diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index 7d296c0..3ae2d46 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -306,7 +306,9 @@ impl PyAvfVideo {
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
         // 时间等也要随事件移动
-        if self.core.data.set_current_event_id(id).is_err() {
+        if self.core.data.set_current_event_id(id).is_err()
+            && id < self.core.data.video_action_state_recorder.len()
+        {
             self.core.data.current_event_id = id;
         }
     }
diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index c8487a7..1f0bd0d 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -368,7 +368,9 @@ impl PyBaseVideo {
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
         // 时间等也要随事件移动
-        if self.core.set_current_event_id(id).is_err() {
+        if self.core.set_current_event_id(id).is_err()
+            && id < self.core.video_action_state_recorder.len()
+        {
             self.core.current_event_id = id;
         }
     }
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index dcaee78..24393f0 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -306,7 +306,9 @@ impl PyEvfVideo {
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
         // 时间等也要随事件移动
-        if self.core.data.set_current_event_id(id).is_err() {
+        if self.core.data.set_current_event_id(id).is_err()
+            && id < self.core.data.video_action_state_recorder.len()
+        {
             self.core.data.current_event_id = id;
         }
     }
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index c81659b..b98bc66 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -306,7 +306,9 @@ impl PyMvfVideo {
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
         // 时间等也要随事件移动
-        if self.core.data.set_current_event_id(id).is_err() {
+        if self.core.data.set_current_event_id(id).is_err()
+            && id < self.core.data.video_action_state_recorder.len()
+        {
             self.core.data.current_event_id = id;
         }
     }
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 903588d..7ae01ac 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -306,7 +306,9 @@ impl PyRmvVideo {
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
         // 时间等也要随事件移动
-        if self.core.data.set_current_event_id(id).is_err() {
+        if self.core.data.set_current_event_id(id).is_err()
+            && id < self.core.data.video_action_state_recorder.len()
+        {
             self.core.data.current_event_id = id;
         }
     }
diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index bc54db3..25a679d 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -405,7 +405,9 @@ macro_rules! generate_video {
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
                     // 时间等也要随事件移动
-                    if self.core.data.set_current_event_id(id).is_err() {
+                    if self.core.data.set_current_event_id(id).is_err()
+                        && id < self.core.data.video_action_state_recorder.len()
+                    {
                         self.core.data.current_event_id = id;
                     }
                 }
-- 
2.43.0


From fa5531e8c98db472b37d118a250b6454fcc65d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 54/56] fix: looping over a protected board in Python ends at
 its end instead of panicking

---
 python_package/src/base_video.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index 1f0bd0d..dbaede6 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -1,6 +1,7 @@
 use crate::PyGameBoard;
 use itertools::Itertools;
 use ms_toollib_original::*;
+use pyo3::exceptions::PyIndexError;
 use pyo3::prelude::*;
 use pyo3::*;
 
@@ -16,6 +17,10 @@ impl PySafeBoardRow {
         PySafeBoardRow { core: SafeBoardRow::new(row) }
     }
     fn __getitem__(&self, key: isize) -> PyResult<i32> {
+        // python的for循环靠IndexError结束
+        if key < 0 || key as usize >= self.core.len() {
+            return Err(PyIndexError::new_err("index out of range"));
+        }
         Ok(self.core[key as usize])
     }
 }
@@ -40,6 +45,9 @@ impl PySafeBoard {
         self.core.set(board);
     }
     fn __getitem__(&self, key: isize) -> PyResult<PySafeBoardRow> {
+        if key < 0 || key as usize >= self.core.into_vec_vec().len() {
+            return Err(PyIndexError::new_err("index out of range"));
+        }
         Ok(PySafeBoardRow::new(self.core[key as usize].into_vec()))
     }
 }
-- 
2.43.0


From bb42698f45886fd617669e497c00fcae25565d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 55/56] fix: an opening of any size is counted without
 exhausting the stack

---
 base/src/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 75103a7..704d4f7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -47,10 +47,15 @@ fn infect_board(board: &mut Vec<Vec<i32>>, x: usize, y: usize) {
     let row = board.len();
     let column = board[0].len();
     board[x][y] = 1;
-    for i in max(1, x) - 1..min(row, x + 2) {
-        for j in max(1, y) - 1..min(column, y + 2) {
-            if board[i][j] == 0 {
-                infect_board(board, i, j);
+    // 不用递归，大的空会耗尽栈
+    let mut front = vec![(x, y)];
+    while let Some((x, y)) = front.pop() {
+        for i in max(1, x) - 1..min(row, x + 2) {
+            for j in max(1, y) - 1..min(column, y + 2) {
+                if board[i][j] == 0 {
+                    board[i][j] = 1;
+                    front.push((i, j));
+                }
             }
         }
     }
-- 
2.43.0


From 310be229a79a51a3b938a17fd4253f7eb6f30eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:43 +0000
Subject: [PATCH 56/56] fix: cal_possibility takes time in proportion to the
 number of segments instead of exponential

---
 base/src/algorithms.rs | 109 +++++++++++++++++++++++------------------
 1 file changed, 61 insertions(+), 48 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 1576e5b..af46db9 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -212,6 +212,30 @@ pub fn solve_direct(
     Ok((not_mine, is_mine))
 }
 
+// 每段雷数分布表转成列表，下标是雷数
+fn table_to_list(table: &[Vec<usize>; 2]) -> Vec<BigNumber> {
+    let mut list = vec![BigNumber { a: 0.0, b: 0 }; table[0].iter().max().unwrap() + 1];
+    for (mn, num) in table[0].iter().zip(&table[1]) {
+        let mut s_num = BigNumber { a: 1.0, b: 0 };
+        s_num.mul_usize(*num);
+        list[*mn].add_big_number(&s_num);
+    }
+    list
+}
+
+// 两部分合在一起，每种总雷数下的情况数
+fn merge_minenum(x: &Vec<BigNumber>, y: &Vec<BigNumber>) -> Vec<BigNumber> {
+    let mut ans = vec![BigNumber { a: 0.0, b: 0 }; x.len() + y.len() - 1];
+    for (i, a) in x.iter().enumerate().filter(|a| a.1.a > 0.0) {
+        for (j, b) in y.iter().enumerate().filter(|b| b.1.a > 0.0) {
+            let mut s_num = a.clone();
+            s_num.mul_big_number(b);
+            ans[i + j].add_big_number(&s_num);
+        }
+    }
+    ans
+}
+
 /// 游戏局面概率计算引擎。  
 /// - 输入：局面、未被标出的雷数。未被标出的雷数大于等于1时，理解成实际数量；小于1时理解为比例。  
 /// - 注意：局面中可以标雷（11）和非类（12），但必须全部标对。  
@@ -326,56 +350,45 @@ pub fn cal_possibility(
         unknow_mine_s_num.push(C(unknow_block, *i));
     }
     // 第二步，整理内部未知段雷数分布表，并筛选。这样内部未知雷段和边缘雷段的地位视为几乎等同，但数据结构不同
-    table_minenum_s.push([unknow_minenum.clone(), vec![]]);
-    // 这里暂时不知道怎么写，目前这样写浪费了几个字节的内存
-    // 未知区域的情况数随雷数的分布不能存在表table_minenum中，因为格式不一样，后者是大数类型
-    let mut mine_in_each_block = (0..block_num + 1)
-        .map(|i| 0..table_minenum_s[i][0].len())
-        .multi_cartesian_product()
-        .collect::<Vec<_>>();
-    for i in (0..mine_in_each_block.len()).rev() {
-        let mut total_num = 0;
-        for j in 0..block_num + 1 {
-            total_num += table_minenum_s[j][0][mine_in_each_block[i][j]];
-        }
-        if total_num != minenum {
-            mine_in_each_block.remove(i);
-        }
-    }
-    if mine_in_each_block.is_empty() {
-        return Err(3); // 雷数太多，或没有一种分布能凑出这个雷数
+    // 第三步，用卷积合并各段的雷数分布。枚举各段雷数的所有组合会随段数指数增长
+    // forward[i]、backward[i]：前i段、第i段及以后各段，每种总雷数下的情况数
+    let one = vec![BigNumber { a: 1.0, b: 0 }];
+    let mut forward = vec![one.clone()];
+    let mut backward = vec![one];
+    for i in 0..block_num {
+        forward.push(merge_minenum(&forward[i], &table_to_list(&table_minenum_s[i])));
+        backward.push(merge_minenum(&backward[i], &table_to_list(&table_minenum_s[block_num - 1 - i])));
     }
-    // println!("mine_in_each_block: {:?}", mine_in_each_block);
-    // 第三步，枚举每段雷数情况索引表：行代表每种情况，列代表每段雷数的索引，最后一列代表未知区域雷数
+    backward.reverse();
     let mut table_minenum_other: Vec<Vec<BigNumber>> = vec![];
-    for i in 0..block_num + 1 {
-        table_minenum_other.push(vec![
-            BigNumber { a: 0.0, b: 0 };
-            table_minenum_s[i][0].len()
-        ]);
-    } // 初始化
-    for s in mine_in_each_block {
-        for i in 0..block_num {
-            let mut s_num = BigNumber { a: 1.0, b: 0 };
-            let mut s_mn = minenum; // 未知区域中的雷数
-            for j in 0..block_num {
-                if i != j {
-                    s_num.mul_usize(table_minenum_s[j][1][s[j]]);
-                }
-                s_mn -= table_minenum_s[j][0][s[j]];
-            }
-            let ps = unknow_minenum.iter().position(|x| *x == s_mn).unwrap();
-            s_num.mul_big_number(&unknow_mine_s_num[ps]);
-            table_minenum_other[i][s[i]].add_big_number(&s_num);
-        }
-        let mut s_num = BigNumber { a: 1.0, b: 0 };
-        let mut s_mn = minenum; // 未知区域中的雷数
-        for j in 0..block_num {
-            s_num.mul_usize(table_minenum_s[j][1][s[j]]);
-            s_mn -= table_minenum_s[j][0][s[j]];
-        }
-        let ps = unknow_minenum.iter().position(|x| *x == s_mn).unwrap();
-        table_minenum_other[block_num][ps].add_big_number(&s_num);
+    for i in 0..block_num {
+        let other = merge_minenum(&forward[i], &backward[i + 1]);
+        table_minenum_other.push(
+            table_minenum_s[i][0]
+                .iter()
+                .map(|mn| {
+                    let mut s_num = BigNumber { a: 0.0, b: 0 };
+                    for (ps, un) in unknow_minenum.iter().enumerate() {
+                        // 其他段中的雷数
+                        if let Some(o) = minenum.checked_sub(mn + un).and_then(|k| other.get(k)) {
+                            let mut o = o.clone();
+                            o.mul_big_number(&unknow_mine_s_num[ps]);
+                            s_num.add_big_number(&o);
+                        }
+                    }
+                    s_num
+                })
+                .collect(),
+        );
+    }
+    table_minenum_other.push(
+        unknow_minenum
+            .iter()
+            .map(|un| forward[block_num].get(minenum - un).cloned().unwrap_or(BigNumber { a: 0.0, b: 0 }))
+            .collect(),
+    );
+    if table_minenum_other[block_num].iter().all(|x| x.a == 0.0) {
+        return Err(3); // 雷数太多，或没有一种分布能凑出这个雷数
     }
     // 第四步，计算每段其他雷数情况表
     let mut T = BigNumber { a: 0.0, b: 0 };
-- 
2.43.0

