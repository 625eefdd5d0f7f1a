From b7136bc6c482e3d735efe58deceb71d8c07d1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 01/12] fix: FIFA penalty shootout credits the second team by
 its own result

With penalties set, fifa() gave team two 0.75 points when team one won the
shootout and 0.5 when team two won it. The winner of a shootout gets 0.75,
the loser 0.5, whichever side it is on.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 4f05ae5e36a2d05aae002671f5b16fd9d8f42aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 02/12] fix: apply the USCF rating floor in rating periods

The documented minimum USCF rating is 100. uscf() enforces it, but
uscf_rating_period() returned lower (even negative) ratings.
---
 src/uscf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..411fdae 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -416,7 +416,7 @@ pub fn uscf_rating_period(
         );
 
         return USCFRating {
-            rating: new_rating,
+            rating: new_rating.max(100.0),
             games: player.games + results.len(),
         };
     }
@@ -438,7 +438,7 @@ pub fn uscf_rating_period(
     );
 
     USCFRating {
-        rating: new_rating,
+        rating: new_rating.max(100.0),
         games: player.games + results.len(),
     }
 }
-- 
2.43.0


From ec1fb1675278ba2df8649048d08247252476702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 03/12] fix: USCF bonus threshold uses max(games, 4)

The approximating formulas set the bonus threshold to t * sqrt(m') with
m' = max(m, 4), treating three-round events like four-round ones. min(4)
did the opposite and let long events earn far too many bonus points.
---
 src/uscf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 411fdae..5b25c22 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -566,7 +566,7 @@ fn get_boost_value(played_games: usize, k: f64, e: f64, score: f64, t: f64) -> f
     }
 
     let kse = k * (score - e);
-    let tm = t * (played_games.min(4) as f64).sqrt();
+    let tm = t * (played_games.max(4) as f64).sqrt();
 
     if tm >= kse {
         0.0
-- 
2.43.0


From 5d4aa5bdba442dcbe37fe3c21d38a6003ffb578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 04/12] fix: an empty Ingo rating period keeps the rating

ingo_rating_period() averaged over zero games and returned a NaN rating.
---
 src/ingo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..a5f8a52 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,11 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    // Without any games the averages below would be 0/0.
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From 85d38579ce403fc5de0eca1451c8fd18a5620213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 05/12] fix: apply the EGF rating floor to the whole rating
 period

Each single change respects the -900 floor, but their sum did not, so
egf_rating_period() could return ratings below the documented minimum.
---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 98009f2f9b7c27cec5b8b417e5591c34c86abea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:42 +0000
Subject: [PATCH 06/12] fix: match_quality_multi_team works for exactly two
 teams

With two teams a_matrix has a single column, so the product with the
transposed mean matrix became an outer product and the next multiplication
panicked. Multiply in the mathematically right order instead; the result for
three or more teams is the same.
---
 src/trueskill/matrix.rs | 5 +++++
 src/trueskill/mod.rs    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..b2267ba 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The determinant of an empty matrix, needed for the adjugate of a 1x1 matrix.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From 9f04338c5715d85e4078165d464ff55187fccdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:42 +0000
Subject: [PATCH 07/12] fix: a weight of zero in trueskill_multi_team no longer
 yields NaN

Only negative weights are documented as invalid, but a zero weight made the
sum factor divide by zero. Use a minimum weight, like the reference Python
implementation does.
---
 src/trueskill/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..a51ffa2 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -817,7 +817,8 @@ pub fn trueskill_multi_team(
     let mut flattened_weights = Vec::new();
     for group in weights {
         for &weight in group {
-            flattened_weights.push(weight);
+            // A weight of zero would lead to a division by zero in the factor graph.
+            flattened_weights.push(weight.max(MIN_DELTA));
         }
     }
 
-- 
2.43.0


From e9060f7c18351aa78ab298530ec5c1fea6f54d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:42 +0000
Subject: [PATCH 08/12] fix: TrueSkill multi-team functions accept a single
 team

With one team trueskill_multi_team and match_quality_multi_team panicked and
expected_score_multi_team returned NaN. Return the team unchanged, a quality of
0.0 and an expected score of 1.0, in line with the handling of empty teams and
with weng_lin_multi_team.
---
 src/trueskill/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index a51ffa2..bffe0cc 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,14 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // There is nobody to compare a single team against.
+    if teams_and_ranks.len() == 1 {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
@@ -1147,6 +1155,12 @@ pub fn match_quality_multi_team(
     let variance_matrix = Matrix::new_diagonal(&team_uncertainties_sq_flatten);
 
     let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
+
+    // There is no match to be played with a single team.
+    if teams.len() == 1 {
+        return Ok(0.0);
+    }
+
     let a_matrix = rotated_a_matrix.transpose();
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
@@ -1354,6 +1368,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A single team has no opponents to lose against.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From 5ec5785a902f1f900f7ec633e86a4fc6a1c2ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:43 +0000
Subject: [PATCH 09/12] fix: match_quality_multi_team no longer takes factorial
 time

---
 src/trueskill/matrix.rs | 48 ++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index b2267ba..c2d623b 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -99,26 +99,50 @@ impl Matrix {
         matrix
     }
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        // The determinant of an empty matrix, needed for the adjugate of a 1x1 matrix.
-        if self.rows == 0 {
-            return 1.0;
-        }
+        // Gaussian elimination, as expanding along a row would take factorial time.
+        // The determinant of an empty matrix is 1, needed for the adjugate of a 1x1 matrix.
+        let mut matrix = self.clone();
+        let mut det = 1.0;
 
-        if self.rows == 1 {
-            return self.get(0, 0);
-        }
+        for i in 0..self.rows {
+            let mut pivot = i;
 
-        let mut sum = 0.0;
+            for row in i + 1..self.rows {
+                if matrix.get(row, i).abs() > matrix.get(pivot, i).abs() {
+                    pivot = row;
+                }
+            }
 
-        for i in 0..self.rows {
-            sum += self.get(0, i) * self.minor(0, i).determinant() * (-1.0_f64).powi(i as i32);
+            if matrix.get(pivot, i) == 0.0 {
+                return 0.0;
+            }
+
+            if pivot != i {
+                for col in 0..self.cols {
+                    matrix
+                        .data
+                        .swap(i * self.cols + col, pivot * self.cols + col);
+                }
+
+                det = -det;
+            }
+
+            det *= matrix.get(i, i);
+
+            for row in i + 1..self.rows {
+                let factor = matrix.get(row, i) / matrix.get(i, i);
+
+                for col in i..self.cols {
+                    let val = factor.mul_add(-matrix.get(i, col), matrix.get(row, col));
+                    matrix.set(row, col, val);
+                }
+            }
         }
 
-        sum
+        det
     }
 
     pub fn minor(&self, row: usize, col: usize) -> Self {
-- 
2.43.0


From a8cb4c8f8dc638cf8e3ea6ba7cbac5b19e93f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:43 +0000
Subject: [PATCH 10/12] fix: unlikely multi-team TrueSkill results no longer
 give NaN ratings

---
 src/trueskill/factor_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..cb057a1 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -4,6 +4,9 @@ use std::rc::Rc;
 
 use super::gaussian::Gaussian;
 
+/// The smallest share of its variance a truncated team difference can keep.
+const MIN_DENOM: f64 = 1e-6;
+
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct Variable {
     pub gaussian: Gaussian,
@@ -264,7 +267,9 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        let denom = 1.0 - w;
+        // The variance correction can reach (or, through rounding, exceed) 1.0 for results that
+        // were nearly impossible. The truncated variance has to stay positive.
+        let denom = (1.0 - w).max(MIN_DENOM);
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
-- 
2.43.0


From 518af7b09cdf4abf05187e3bf9217984630bd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:45 +0000
Subject: [PATCH 11/12] fix: Weng-Lin expected scores of large ratings no
 longer overflow to NaN

---
 src/weng_lin.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..e9c4afa 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Only the differences to the strongest team are exponentiated, large ratings would overflow on their own.
+    let max_rating = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - max_rating) / c).exp();
         exps.push(e);
         sum += e;
     }
@@ -971,10 +974,8 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
-
-    let exp_one = e1 / (e1 + e2);
+    // Only the difference is exponentiated, large ratings would overflow on their own.
+    let exp_one = (1.0 + ((rating_two - rating_one) / c_value).exp()).recip();
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
-- 
2.43.0


From 460931d9987ffb2801d1535c017c574d3d220be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:52 +0000
Subject: [PATCH 12/12] fix: TrueSkill variance corrections stay within their
 range, so uncertainties are never NaN

The approximated cdf could make w slightly larger than one, and a very
uncertain player's draw (small draw probability, equal ratings) then had
a negative variance.
---
 src/trueskill/math.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index 8be4c41..23b6749 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -28,7 +28,8 @@ pub fn w_non_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
 
     let v = v_non_draw(difference, draw_margin, c);
 
-    v * (v + (diff_c) - (draw_c))
+    // The approximation of the cdf can push this slightly out of its range.
+    (v * (v + (diff_c) - (draw_c))).clamp(0.0, 1.0)
 }
 
 pub fn v_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
@@ -74,6 +75,7 @@ pub fn w_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
         v,
         (draw_c - diff_c_abs).mul_add(p1, -(-draw_c - diff_c_abs) * p2) / norm,
     )
+    .clamp(0.0, 1.0)
 }
 
 pub fn new_rating(
-- 
2.43.0

