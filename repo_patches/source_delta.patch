From ed71795a86355e3298ec9d2cb214ee585e4603f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 01/38] fix: isMissing/isNotMissing predicates compile without
 a literal, nil values are missing

---
 evaluation/tree.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..a8a4802 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -420,6 +420,10 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -519,16 +523,16 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
+	if !ok || val.Raw() == nil {
 		if p.Operator == models.SimplePredicateOperatorIsMissing {
 			return t
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return f
+		}
+
 		return u
 	}
 
-- 
2.43.0


From b6fe74357f2a6b50a5799b299bccafb7629726ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 02/38] fix: equal/notEqual compare the value read as the
 declared type

---
 evaluation/tree.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index a8a4802..590fdaa 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -516,6 +516,20 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+// equalsPredicateValue compares a row value, read as the type of the predicate value, with the predicate value.
+func equalsPredicateValue(val Value, predicateValue interface{}) bool {
+	switch pv := predicateValue.(type) {
+	case float64:
+		return val.Float64() == pv
+	case int64:
+		return val.Int64() == pv
+	case string:
+		return val.String() == pv
+	}
+
+	return val.Raw() == predicateValue
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -540,11 +554,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 	case models.SimplePredicateOperatorIsNotMissing:
 		return t
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if equalsPredicateValue(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !equalsPredicateValue(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From ae820ebc2696b25a516078226904b5b76dadab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 03/38] fix: convert floats, decimal text and large unsigned
 numbers between value representations

---
 evaluation/miningschema.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..84e50fd 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,15 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	switch n := v.val.(type) {
+	case string:
+		return float32(v.Float64())
+	case uint:
+		return float32(n)
+	case uint64:
+		return float32(n)
+	}
+
 	return float32(v.Int64())
 }
 
@@ -50,6 +59,13 @@ func (v Value) Float64() float64 {
 		return f
 	}
 
+	switch n := v.val.(type) {
+	case uint:
+		return float64(n)
+	case uint64:
+		return float64(n)
+	}
+
 	return float64(v.Int64())
 }
 
@@ -95,6 +111,18 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	switch n := v.val.(type) {
+	case float64:
+		return int64(n)
+	case float32:
+		return int64(n)
+	case string:
+		if i, err := strconv.ParseInt(n, 10, 64); err == nil {
+			return i
+		}
+		return int64(v.Float64())
+	}
+
 	return 0
 }
 
-- 
2.43.0


From 4abbc2391c276385d08404effa567de8da2f7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 04/38] fix: True and False children of a compound predicate
 are not UNKNOWN

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 590fdaa..f4b5953 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -645,6 +645,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From 47a3141515758356bf37e4cdbcb19dcd6c6034c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/38] fix: returnNullPrediction yields no prediction instead
 of an empty label or a panic

---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index f4b5953..db8fac8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -749,7 +749,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 841bbb707a380d9f85dd56c44770371f743de4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 06/38] fix: the predicted label has maximal probability even
 when it is not positive

---
 evaluation/tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index db8fac8..1c10576 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -67,10 +67,10 @@ const (
 */
 
 func pickBest(scores []scoreDist) scoreDist {
-	best := scoreDist{probability: 0.0}
+	var best scoreDist
 
-	for _, score := range scores {
-		if score.probability > best.probability {
+	for idx, score := range scores {
+		if idx == 0 || score.probability > best.probability {
 			best = score
 		}
 	}
-- 
2.43.0


From 2b1a916b5adab40d0db5ad27ea3cbf3792c8eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 07/38] fix: a node without a score distribution predicts its
 own score, regression trees score with a declared target

---
 evaluation/tree.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 1c10576..29852e4 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -102,17 +102,27 @@ func (n node) outputScoreDist() []scoreDist {
 		return nil
 	}
 
+	return n.ownScoreDist()
+}
+
+func (n node) ownScoreDist() []scoreDist {
+	if n.m.model.FunctionName == models.MiningFunctionRegression {
+		return []scoreDist{n.score}
+	}
+
 	if len(n.scoreDist) > 0 {
 		return n.scoreDist
 	}
 
 	sd := make([]scoreDist, 0, 0)
+	declared := false
 
 	if n.m.targetField != "" {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
+						declared = true
 						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
 					} else {
 						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
@@ -120,8 +130,10 @@ func (n node) outputScoreDist() []scoreDist {
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if !declared && n.score.value != "" {
+		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
 	}
 
 	return sd
-- 
2.43.0


From c9dfe5217d561f5a9d77c71649a2fe20f9f3c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 08/38] fix: lastPrediction stops at the first UNKNOWN child
 and enters the first TRUE one

---
 evaluation/tree.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 29852e4..528ee78 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -160,29 +160,22 @@ func (n node) evaluateMissingValueStrategyNone(input DataRow) ([]scoreDist, pred
 func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
 
 		if childResult == u {
-			unknownValues = true
+			return n.ownScoreDist(), result
 		}
 
 		if childResult == t {
-			trueDist = score
+			return score, childResult
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	return n.outputScoreDist(), result
 }
 
-- 
2.43.0


From 6274abaff22df57aa127113419cdec37ba461765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 09/38] fix: defaultChild scores the default child itself and
 an absent penalty changes nothing

---
 evaluation/tree.go | 51 +++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 528ee78..9d77724 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -182,49 +182,58 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	childScores := make(map[string][]scoreDist)
+	return n.scoreMissingValueStrategyDefaultChild(input)
+}
+
+// scoreMissingValueStrategyDefaultChild scores a node that has been entered, whatever its own predicate says.
+func (n node) scoreMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	unknownValues := false
-	var trueDist []scoreDist
 
 	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
-		childScores[c.id] = score
+		childResult := c.test(input)
 
 		if childResult == u {
 			unknownValues = true
+			break
 		}
 
 		if childResult == t {
-			trueDist = score
+			return c.scoreMissingValueStrategyDefaultChild(input)
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	if unknownValues {
-		defaultScores, ok := childScores[n.defaultChild]
-		if !ok {
-			return emptyScoreDist, u
-		}
+		for _, c := range n.children {
+			if n.defaultChild == "" || c.id != n.defaultChild {
+				continue
+			}
 
-		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))
+			defaultScores, result := c.scoreMissingValueStrategyDefaultChild(input)
+
+			penalty := float64(n.m.model.MissingValuePenalty)
+			if penalty == 0 {
+				penalty = 1.0 // not declared
+			}
 
-		for idx, score := range defaultScores {
-			score.confidence = score.confidence * float64(n.m.model.MissingValuePenalty)
-			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)
-			adjustedScores[idx] = score
+			adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))
+
+			for idx, score := range defaultScores {
+				score.confidence = score.confidence * penalty
+				score.probability = score.probability * penalty
+				adjustedScores[idx] = score
+			}
+
+			return adjustedScores, result
 		}
 
-		return adjustedScores, t
+		return emptyScoreDist, u
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist(), t
 }
 
 func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]scoreDist, predicateResult) {
-- 
2.43.0


From a3e466986c9e04ebb0c7a20e4793580a92cc6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 10/38] fix: weightedConfidence and aggregateNodes combine the
 non-FALSE children of every level in document order

---
 evaluation/tree.go | 160 ++++++++++++++++++++++++---------------------
 1 file changed, 86 insertions(+), 74 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 9d77724..1e2eb13 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -265,119 +265,131 @@ func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
-		return n.scoreDist, result
+	if result == f || result == u {
+		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
-	totalRecordCount := 0.0
-
-	for _, c := range n.children {
-		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
-
-		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
-			totalRecordCount += c.score.recordCount
-		}
+	return n.scoreMissingValueStrategyWeightedConfidence(input), result
+}
 
-		if childResult == u {
-			unknownValues = true
-		} else if childResult == t {
-			trueDist = scores
-		}
+// scoreMissingValueStrategyWeightedConfidence scores a node that has been entered.
+func (n node) scoreMissingValueStrategyWeightedConfidence(input DataRow) []scoreDist {
+	child, combine := n.selectChildren(input)
+	if child != nil {
+		return child.scoreMissingValueStrategyWeightedConfidence(input)
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
-		return trueDist, result
-	}
+	if len(combine) > 0 {
+		totalRecordCount := 0.0
+		aggScores := make([]scoreDist, 0, 0)
 
-	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+		for _, c := range combine {
+			scores := c.scoreMissingValueStrategyWeightedConfidence(input)
+			if len(scores) == 0 {
+				continue
+			}
+
+			nodeRecordCount := c.score.recordCount
+			totalRecordCount += nodeRecordCount
 
-		for nid, scores := range childScores {
 			for _, score := range scores {
-				aggScore, ok := aggScoreMap[score.value]
-				if !ok {
-					aggScore = scoreDist{value: score.value}
-				}
-				nodeRecordCount := childRecordCounts[nid]
+				var aggScore *scoreDist
+				aggScores, aggScore = scoreOf(aggScores, score.value)
 
 				aggScore.recordCount += score.recordCount
-				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
-				aggScore.confidence += score.confidence * (nodeRecordCount / totalRecordCount)
-
-				aggScoreMap[score.value] = aggScore
+				aggScore.probability += score.probability * nodeRecordCount
+				aggScore.confidence += score.confidence * nodeRecordCount
 			}
 		}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+		for idx := range aggScores {
+			aggScores[idx].probability = aggScores[idx].probability / totalRecordCount
+			aggScores[idx].confidence = aggScores[idx].confidence / totalRecordCount
 		}
 
-		return aggScores, t
+		return aggScores
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist()
 }
 
-func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]scoreDist, predicateResult) {
-	result := n.test(input)
-
-	if result == f {
-		return n.outputScoreDist(), result
-	}
-
-	childScores := make([]scoreDist, 0, 0)
+// selectChildren returns the first TRUE child, or the children that are not FALSE when an UNKNOWN child precedes it.
+func (n node) selectChildren(input DataRow) (*node, []node) {
+	var combine []node
 	unknownValues := false
-	var trueDist []scoreDist
 
-	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
+	for idx, c := range n.children {
+		childResult := c.test(input)
+
+		if childResult == t && !unknownValues {
+			return &n.children[idx], nil
+		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = score
+		}
+
+		if childResult != f {
+			combine = append(combine, c)
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, result
+	return nil, combine
+}
+
+// scoreOf returns the entry of a label, which is appended when it is not there yet.
+func scoreOf(scores []scoreDist, value string) ([]scoreDist, *scoreDist) {
+	for idx := range scores {
+		if scores[idx].value == value {
+			return scores, &scores[idx]
+		}
 	}
 
-	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+	scores = append(scores, scoreDist{value: value})
 
+	return scores, &scores[len(scores)-1]
+}
+
+func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]scoreDist, predicateResult) {
+	result := n.test(input)
+
+	if result == f || result == u {
+		return emptyScoreDist, result
+	}
+
+	return n.scoreMissingValueStrategyAggregateNodes(input), result
+}
+
+// scoreMissingValueStrategyAggregateNodes scores a node that has been entered.
+func (n node) scoreMissingValueStrategyAggregateNodes(input DataRow) []scoreDist {
+	child, combine := n.selectChildren(input)
+	if child != nil {
+		return child.scoreMissingValueStrategyAggregateNodes(input)
+	}
+
+	if len(combine) > 0 {
 		recordCount := 0.0
-		for _, sc := range childScores {
-			aggScore, ok := aggScoreMap[sc.value]
+		aggScores := make([]scoreDist, 0, 0)
 
-			if !ok {
-				aggScore.value = sc.value
-			}
+		for _, c := range combine {
+			for _, sc := range c.scoreMissingValueStrategyAggregateNodes(input) {
+				var aggScore *scoreDist
+				aggScores, aggScore = scoreOf(aggScores, sc.value)
 
-			aggScore.recordCount += sc.recordCount
-			aggScoreMap[sc.value] = aggScore
-			recordCount += sc.recordCount
+				aggScore.recordCount += sc.recordCount
+				recordCount += sc.recordCount
+			}
 		}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScore.probability = aggScore.recordCount / recordCount
-			aggScore.confidence = aggScore.recordCount / recordCount
-			aggScores = append(aggScores, aggScore)
+		for idx := range aggScores {
+			aggScores[idx].probability = aggScores[idx].recordCount / recordCount
+			aggScores[idx].confidence = aggScores[idx].recordCount / recordCount
 		}
 
-		return aggScores, t
+		return aggScores
 	}
 
-	return n.outputScoreDist(), result
+	return n.outputScoreDist()
 }
 
 func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.TreeModel) (*TreeModel, error) {
-- 
2.43.0


From 89425b4fbc83c3d75379b5e90601a5ab49df101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 11/38] fix: evaluating a tree model writes no shared output
 key cache

---
 evaluation/tree.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 1e2eb13..cd25674 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -397,7 +396,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -782,13 +780,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
-				out[key] = NewValue(score.probability)
+				out[fmt.Sprintf("probability(%s)", score.value)] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
 			score, err := strconv.ParseFloat(scores[0].value, 64)
-- 
2.43.0


From 393c49ab11b01575bde55424ab2c6fabe50c67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 12/38] fix: arithmetic on a missing operand is missing and
 leaves the derived field missing

---
 evaluation/input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..ecd1263 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -45,6 +45,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
@@ -190,7 +193,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From a676f102eaefa73051b3a3a13c1400b6912031ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 13/38] fix: evaluation leaves the caller's row unchanged

---
 evaluation/input.go  | 8 ++++++++
 evaluation/mining.go | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index ecd1263..aa30e8c 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -187,6 +187,14 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	if len(lt.DerivedFields) > 0 {
+		row := make(DataRow, len(in)+len(lt.DerivedFields))
+		for k, v := range in {
+			row[k] = v
+		}
+		in = row
+	}
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..2a2b657 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -210,7 +210,12 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 	return out, nil
 }
 
-func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
+func (m *MiningModel) imputeMissingValues(in DataRow) (DataRow, error) {
+	input := make(DataRow, len(in))
+	for k, v := range in {
+		input[k] = v
+	}
+
 	for fld, defaultValue := range m.defaultValues {
 		inputVal, ok := input[fld]
 		if !ok || inputVal.Raw() == nil {
-- 
2.43.0


From 9997ff55dec4db2e4ac7ca7447e4350f82f64b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 14/38] fix: regression without normalization returns the
 linear predictor

---
 evaluation/regression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..910ca63 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -64,6 +64,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case "", models.RegressionNormalizationMethodNone:
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From 3d7d606378f330ab40b2259884f775304e48c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 15/38] fix: a nil regression term is a missing term

---
 evaluation/regression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 910ca63..38d8b8e 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -107,7 +107,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
-		if !ok {
+		if !ok || term.Raw() == nil {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
 		indVar := term.Float64()
@@ -135,7 +135,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 		if len(rtbl.NumericPredictor) > 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
-				if !ok {
+				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
 				normalized, err := m.normalize(term.Float64())
@@ -176,7 +176,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
-			if !ok {
+			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
 			indVar := term.Float64()
-- 
2.43.0


From 3e6e7d369a4ec225a71e6fd8bd1dcb99ca99b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 16/38] fix: binary classification normalizes intercept plus
 coefficient times value

---
 evaluation/regression.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 38d8b8e..c798430 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -129,21 +129,22 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
+	for i, rtbl := range m.model.RegressionTables {
 		pred := rtbl.Intercept
 
-		if len(rtbl.NumericPredictor) > 0 {
+		if i == 0 || len(rtbl.NumericPredictor) > 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
 				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+				pred += np.Coefficient * term.Float64()
+			}
+			normalized, err := m.normalize(pred)
+			if err != nil {
+				return out, err
 			}
+			pred = normalized
 		} else {
 			pred = finalPred
 		}
-- 
2.43.0


From aee74c7f144ea237bf02087a2e9664752ec09bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:45 +0000
Subject: [PATCH 17/38] fix: numeric predictors are raised to their exponent

---
 evaluation/regression.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index c798430..83f1245 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -80,6 +80,15 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 	return 0.0, fmt.Errorf("unrecognized normalization method: %v", m.model.RegressionNormalizationMethod)
 }
 
+// power raises a predictor value to its exponent, which is 1 unless declared.
+func power(value float64, exponent int64) float64 {
+	if exponent == 0 || exponent == 1 {
+		return value
+	}
+
+	return math.Pow(value, float64(exponent))
+}
+
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
@@ -112,7 +121,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 		}
 		indVar := term.Float64()
 		coeff := np.Coefficient
-		y += coeff * indVar
+		y += coeff * power(indVar, np.Exponent)
 	}
 
 	pred, err := m.normalize(y)
@@ -138,7 +147,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				pred += np.Coefficient * term.Float64()
+				pred += np.Coefficient * power(term.Float64(), np.Exponent)
 			}
 			normalized, err := m.normalize(pred)
 			if err != nil {
@@ -182,7 +191,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			}
 			indVar := term.Float64()
 			coeff := np.Coefficient
-			y[i] += coeff * indVar
+			y[i] += coeff * power(indVar, np.Exponent)
 		}
 	}
 
-- 
2.43.0


From 3cf30217339b9af06c35e558acbac5cb7314fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 18/38] fix: regression models compute their derived fields

---
 evaluation/regression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 83f1245..1ccca1c 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -90,6 +90,11 @@ func power(value float64, exponent int64) float64 {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
-- 
2.43.0


From 71aa2513c03fabaa74f54c2fdedc309b8dc25b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 19/38] fix: average divides the scores before targets are
 rescaled

---
 evaluation/mining.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 2a2b657..5c6f44d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -149,6 +149,11 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	return m.combineSegments(input, false)
+}
+
+// combineSegments sums or averages the segments' scores and rescales the targets.
+func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -180,6 +185,12 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		}
 	}
 
+	if average {
+		for k, v := range scoreMap {
+			scoreMap[k] = v / float64(len(m.segmodels))
+		}
+	}
+
 	for _, target := range m.targets {
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
@@ -198,16 +209,7 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
-	if err != nil {
-		return nil, err
-	}
-
-	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
-	}
-
-	return out, nil
+	return m.combineSegments(input, true)
 }
 
 func (m *MiningModel) imputeMissingValues(in DataRow) (DataRow, error) {
-- 
2.43.0


From 089ebc4469a1ba951eec226b9dda0b30f7da65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:37 +0000
Subject: [PATCH 20/38] fix: segments whose predicate is not TRUE are skipped

---
 evaluation/mining.go | 63 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 5c6f44d..2cea20f 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -15,6 +15,7 @@ type MiningModel struct {
 	model *models.MiningModel
 
 	segmodels []Model
+	segtests  []test
 
 	defaultValues map[string]Value
 	fieldTypes    map[models.FieldName]models.DataType
@@ -108,7 +109,13 @@ func (m *MiningModel) Compile() error {
 			return err
 		}
 
+		segtest, err := m.segmentTest(seg)
+		if err != nil {
+			return err
+		}
+
 		m.segmodels = append(m.segmodels, mdl)
+		m.segtests = append(m.segtests, segtest)
 	}
 
 	m.compiled = true
@@ -116,8 +123,46 @@ func (m *MiningModel) Compile() error {
 	return nil
 }
 
+// segmentTest compiles the predicate of a segment, which may refer to the outputs of the segments before it in a chain.
+func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
+	if len(seg.Predicates) == 0 {
+		return func(DataRow) predicateResult { return t }, nil
+	}
+
+	if len(seg.Predicates) > 1 {
+		return nil, fmt.Errorf("unsupported segment predicate group size %d", len(seg.Predicates))
+	}
+
+	guard, err := newNode(&TreeModel{fieldTypes: m.fieldTypes}, models.Node{Predicate: seg.Predicates[0]})
+	if err != nil {
+		return nil, err
+	}
+
+	if m.model.Segmentation.MultipleModelMethod == models.MultipleModelMethodModelChain {
+		var out []models.OutputField
+		switch mdl := seg.Models[0].(type) {
+		case *models.RegressionModel:
+			out = mdl.Output.Fields
+		case *models.MiningModel:
+			out = mdl.Output.Fields
+		}
+
+		for _, field := range out {
+			if _, ok := m.fieldTypes[field.Name]; !ok {
+				m.fieldTypes[field.Name] = models.DataTypeDouble
+			}
+		}
+	}
+
+	return guard.test, nil
+}
+
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -132,11 +177,15 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -164,7 +213,13 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	segments := 0
+	for i, segmodel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+		segments++
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -187,7 +242,7 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 
 	if average {
 		for k, v := range scoreMap {
-			scoreMap[k] = v / float64(len(m.segmodels))
+			scoreMap[k] = v / float64(segments)
 		}
 	}
 
-- 
2.43.0


From 482c22f69160341ddf40215479385873b20d94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:34 +0000
Subject: [PATCH 21/38] fix: categories without an output field are not
 reported

---
 evaluation/regression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 1ccca1c..1f2c707 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -218,5 +218,6 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			return out, fmt.Errorf("unsupported normalization method: %v", m.model.RegressionNormalizationMethod)
 		}
 	}
+	delete(out, "") // categories without an output field
 	return out, nil
 }
-- 
2.43.0


From b6ab049a6eeb83f3ea9a2849e496ea7b72452755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 22/38] fix: two-class regression uses both tables for softmax
 and the complement otherwise

---
 evaluation/regression.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 1f2c707..12387e5 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -146,7 +146,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 	for i, rtbl := range m.model.RegressionTables {
 		pred := rtbl.Intercept
 
-		if i == 0 || len(rtbl.NumericPredictor) > 0 {
+		if i == 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
 				if !ok || term.Raw() == nil {
@@ -154,6 +154,18 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 				}
 				pred += np.Coefficient * power(term.Float64(), np.Exponent)
 			}
+			if m.model.RegressionNormalizationMethod == models.RegressionNormalizationMethodSoftmax && len(m.model.RegressionTables) > 1 {
+				// exp(y1) / (exp(y1) + exp(y2))
+				reference := m.model.RegressionTables[1]
+				pred -= reference.Intercept
+				for _, np := range reference.NumericPredictor {
+					term, ok := input[np.Name]
+					if !ok || term.Raw() == nil {
+						return nil, fmt.Errorf("regression missing term %s", np.Name)
+					}
+					pred -= np.Coefficient * power(term.Float64(), np.Exponent)
+				}
+			}
 			normalized, err := m.normalize(pred)
 			if err != nil {
 				return out, err
-- 
2.43.0


From 92a9bc4ca46fe8fb7435744149d38db1a4728ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 23/38] fix: verification tolerates errors relative to the
 magnitude of the expectation, rejects NaN and reads inputs by field name

---
 evaluation/evaluation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..388c5f5 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
@@ -73,7 +73,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From dbc9a8bd37bc58a804851473d885cae46770944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 24/38] fix: verification compares expected text that is not a
 number as text

---
 evaluation/evaluation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 388c5f5..638866c 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -71,6 +71,12 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
+				if _, err := strconv.ParseFloat(NewValue(v).String(), 64); err != nil {
+					if predictedVal.String() != NewValue(v).String() {
+						return fmt.Errorf("%s: expected %v, predicted %v", k, v, predictedVal.String())
+					}
+					continue
+				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
 				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
-- 
2.43.0


From 59440a52875897c495ac91c81950819cb80ab35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:10 +0000
Subject: [PATCH 25/38] fix: the text of a row value that panics when printed
 does not panic

---
 evaluation/miningschema.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 84e50fd..c614164 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -5,10 +5,6 @@ import (
 	"strconv"
 )
 
-type stringer interface {
-	String() string
-}
-
 type Value struct {
 	val interface{}
 }
@@ -131,10 +127,7 @@ func (v Value) String() string {
 		return s
 	}
 
-	if s, ok := v.val.(stringer); ok {
-		return s.String()
-	}
-
+	// calls String() where there is one, and survives its panics
 	return fmt.Sprintf("%v", v.val)
 }
 
-- 
2.43.0


From 5e44e6a652678efc15e97a88c5882cfc2f6e1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 26/38] fix: nodes, segments and compounds without a supported
 predicate are rejected

---
 evaluation/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index cd25674..45caaaa 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -461,6 +461,9 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 				return err
 			}
 		}
+	case *models.SimpleSetPredicate, *models.True, *models.False:
+	default:
+		return fmt.Errorf("unsupported predicate %T", p)
 	}
 
 	return nil
-- 
2.43.0


From f9a92bf14fca94dea12a417ffa27550cbf1c05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 27/38] fix: building a model leaves the caller's
 transformation dictionary alone and can be repeated

---
 evaluation/mining.go | 13 ++++++++-----
 evaluation/tree.go   |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 2cea20f..8dc20ce 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -89,21 +89,24 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	// segments see the derived fields of the ensemble, the caller's dictionary does not
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField{}, m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels, m.segtests = nil, nil
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 45caaaa..99d3393 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -735,11 +735,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From 291db3c43e6d2d937f8c0f06b5ee872492fe086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:37 +0000
Subject: [PATCH 28/38] fix: value mappings look up the declared columns and
 missing inputs match no row

---
 evaluation/input.go | 48 +++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index aa30e8c..3a4be21 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/pkg/errors"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -127,26 +128,35 @@ func isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *m
 }
 
 func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-	columns := make(map[string]Value)
+	if len(expr.FieldColumnPairs) == 0 {
+		return NewValue(nil), errors.New("unexpected expression")
+	}
 
 	for _, pair := range expr.FieldColumnPairs {
-		data, ok := in[pair.Field]
-		if ok {
-			columns[pair.Column] = data
+		if in[pair.Field].Raw() == nil && expr.MapMissingTo != nil {
+			mapped, err := getRawValue(expr.DataType, *expr.MapMissingTo)
+			if err != nil {
+				return NewValue(nil), err
+			}
+
+			return NewValue(mapped), nil
 		}
 	}
 
+	var output interface{}
+	found := false
+
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			if matchesRow(expr.FieldColumnPairs, row, in) {
+				output = row[columnName(expr.OutputColumn)]
+				found = true
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
-	if ok {
-		return output, nil
+	if found {
+		return NewValue(output), nil
 	}
 
 	if expr.DefaultValue != nil {
@@ -158,12 +168,24 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
+	return in[expr.FieldColumnPairs[0].Field], nil
+}
+
+// matchesRow tells whether every input has the text of its column in a row of the table. Missing inputs match nothing.
+func matchesRow(pairs []models.FieldColumnPair, row models.Row, in DataRow) bool {
+	for _, pair := range pairs {
+		val := in[pair.Field]
+		if val.Raw() == nil || row[columnName(pair.Column)] != val.String() {
+			return false
+		}
 	}
 
-	return NewValue(nil), errors.New("unexpected expression")
+	return true
+}
+
+// columnName is the name of a column without its namespace prefix, as used in the rows of a table.
+func columnName(column string) string {
+	return column[strings.LastIndex(column, ":")+1:]
 }
 
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-- 
2.43.0


From 81f1f85667a6a17212825ac8bbf2d8e48611b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 29/38] fix: arrays are split at white space only, with quoted
 elements and decoded entities

---
 models/complexTypes.go | 49 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..ff214a7 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -3,7 +3,6 @@ package models
 import (
 	"strconv"
 
-	"github.com/mattn/go-shellwords"
 	"github.com/pkg/errors"
 )
 
@@ -33,13 +32,53 @@ type ArrayType struct {
 	N    *int          `xml:"n,attr"`
 	Type ArrayTypeType `xml:"type,attr"`
 
-	RawValue string `xml:",innerxml"`
+	RawValue string `xml:",chardata"`
 
 	s []string
 	i []int64
 	f []float64
 }
 
+// splitArray splits the content of an array at white space. Double quotes enclose white space that belongs to an
+// element, a backslash precedes a quote or backslash that does.
+func splitArray(content string) ([]string, error) {
+	elements := []string{}
+	element := []byte{}
+	started, quoted := false, false
+
+	for i := 0; i < len(content); i++ {
+		c := content[i]
+
+		switch {
+		case c == '"':
+			quoted = !quoted
+			started = true
+		case !quoted && (c == ' ' || c == '\t' || c == '\r' || c == '\n'):
+			if started {
+				elements = append(elements, string(element))
+				element, started = element[:0], false
+			}
+		default:
+			if c == '\\' && i+1 < len(content) && (content[i+1] == '"' || content[i+1] == '\\') {
+				i++
+				c = content[i]
+			}
+			element = append(element, c)
+			started = true
+		}
+	}
+
+	if quoted {
+		return nil, errors.New("unterminated quote in array")
+	}
+
+	if started {
+		elements = append(elements, string(element))
+	}
+
+	return elements, nil
+}
+
 func (at *ArrayType) Strings() ([]string, error) {
 	if at.Type != ArrayTypeTypeString {
 		return nil, errors.New("not a string array")
@@ -50,7 +89,7 @@ func (at *ArrayType) Strings() ([]string, error) {
 	}
 
 	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
+	at.s, err = splitArray(at.RawValue)
 	return at.s, err
 }
 
@@ -63,7 +102,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return at.i, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
@@ -93,7 +132,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return at.f, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5de455a0e6a6a7f5865154bdd7847bef93cee0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 30/38] fix: set predicates test membership instead of never
 being TRUE

---
 evaluation/tree.go | 49 ++++++++++++++++++++++++++++++++++++++++++++--
 models/elements.go |  2 ++
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 99d3393..1786aa5 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -461,7 +461,36 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 				return err
 			}
 		}
-	case *models.SimpleSetPredicate, *models.True, *models.False:
+	case *models.SimpleSetPredicate:
+		predicateValueType, ok := m.fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		if p.BooleanOperator != models.SimpleSetPredicateOperatorIsIn && p.BooleanOperator != models.SimpleSetPredicateOperatorIsNotIn {
+			return fmt.Errorf("unsupported set operator %s", p.BooleanOperator)
+		}
+
+		// the elements are read as the type of the field, whatever the type of the array
+		array := models.ArrayType(p.Array)
+		array.Type = models.ArrayTypeTypeString
+		elements, err := array.Strings()
+		if err != nil {
+			return err
+		}
+
+		values := make([]interface{}, 0, len(elements))
+		for _, element := range elements {
+			pv, err := getRawValue(predicateValueType, element)
+			if err != nil {
+				return err
+			}
+
+			values = append(values, pv)
+		}
+
+		p.RawPredicateValues = values
+	case *models.True, *models.False:
 	default:
 		return fmt.Errorf("unsupported predicate %T", p)
 	}
@@ -536,7 +565,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		}
 	case *models.SimpleSetPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
 	}
 
@@ -654,6 +683,22 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	in := false
+	for _, pv := range p.RawPredicateValues {
+		if equalsPredicateValue(val, pv) {
+			in = true
+		}
+	}
+
+	if in == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
+		return t
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..3d970e1 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4806,6 +4806,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawPredicateValues []interface{} `xml:"-"`
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


From 3f73829e247d14c55b430c1cd58b79049f8ac865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 31/38] fix: predicates with unsupported operators are rejected

---
 evaluation/tree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 1786aa5..7e31a81 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -444,8 +444,14 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
-		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
+		switch p.Operator {
+		case models.SimplePredicateOperatorIsMissing, models.SimplePredicateOperatorIsNotMissing:
 			return nil
+		case models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual,
+			models.SimplePredicateOperatorLessThan, models.SimplePredicateOperatorLessOrEqual,
+			models.SimplePredicateOperatorGreaterThan, models.SimplePredicateOperatorGreaterOrEqual:
+		default:
+			return fmt.Errorf("unsupported operator %s", p.Operator)
 		}
 
 		pv, err := getRawValue(predicateValueType, p.Value)
@@ -455,6 +461,13 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 
 		p.RawPredicateValue = pv
 	case *models.CompoundPredicate:
+		switch p.BooleanOperator {
+		case models.CompoundPredicateOperatorAnd, models.CompoundPredicateOperatorOr,
+			models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate:
+		default:
+			return fmt.Errorf("unsupported boolean operator %s", p.BooleanOperator)
+		}
+
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
 			if err != nil {
-- 
2.43.0


From aade6dcef7250fc317f5f251af826d28c4333adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:27 +0000
Subject: [PATCH 32/38] fix: boolean text, as in verification tables and
 missing value replacements, reads as the boolean

---
 evaluation/miningschema.go | 5 +++++
 evaluation/tree.go         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index c614164..feb8fc4 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -66,6 +66,11 @@ func (v Value) Float64() float64 {
 }
 
 func (v Value) Bool() bool {
+	if s, ok := v.val.(string); ok {
+		b, err := strconv.ParseBool(s)
+		return err == nil && b
+	}
+
 	b, ok := v.val.(bool)
 	if !ok {
 		return false
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7e31a81..be6853d 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -594,6 +594,11 @@ func equalsPredicateValue(val Value, predicateValue interface{}) bool {
 		return val.Int64() == pv
 	case string:
 		return val.String() == pv
+	case bool:
+		if text, ok := val.Raw().(string); ok {
+			b, err := strconv.ParseBool(text)
+			return err == nil && b == pv
+		}
 	}
 
 	return val.Raw() == predicateValue
-- 
2.43.0


From 6215730d27d98adc226e6a25fce964e21889f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 33/38] fix: Extension and unknown elements are skipped by the
 hand-written decoders

---
 models/elements.go | 80 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index 3d970e1..a1915bd 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,11 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +411,11 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +969,11 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1271,11 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -1771,6 +1791,11 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1917,11 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2416,7 +2446,16 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 
 		switch tok := token.(type) {
 		case xml.StartElement:
-			if tok.Name.Local == "row" {
+			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+			case "row":
 				row := make(Row)
 				err = decoder.DecodeElement(&row, &tok)
 				if err != nil {
@@ -2424,6 +2463,11 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3462,11 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -3778,6 +3827,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				if err != nil {
 					return err
 				}
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "MiningBuildTask":
 				err = decoder.DecodeElement(&x.MiningBuildTask, &tok)
 				if err != nil {
@@ -3791,6 +3847,11 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -4519,6 +4580,17 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 		}
 		switch tok := token.(type) {
 		case xml.StartElement:
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
 			pred, ok := GetPredicate(tok.Name.Local)
 			if ok {
 				err = decoder.DecodeElement(pred, &tok)
@@ -4538,6 +4610,12 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			err = decoder.Skip()
+			if err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From 2cb4048e3a75ebc3532a4991107272e85f419b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 34/38] fix: attributes are read under their PMML names

---
 models/elements.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index a1915bd..e585872 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -342,7 +342,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -362,7 +362,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
@@ -474,7 +474,7 @@ type AssociationModel struct {
 	FunctionName          MiningFunction       `xml:"functionName,attr"`
 	IsScorable            bool                 `xml:"isScorable,attr"`
 	LengthLimit           int                  `xml:"lengthLimit,attr"`
-	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsTA,attr"`
+	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsPerTA,attr"`
 	MinimumConfidence     float64              `xml:"minimumConfidence,attr"`
 	MinimumSupport        float64              `xml:"minimumSupport,attr"`
 	ModelName             string               `xml:"modelName,attr"`
@@ -579,7 +579,7 @@ type BaseCumHazardTables struct {
 */
 type BaselineCell struct {
 	CumHazard  float64     `xml:"cumHazard,attr"`
-	Time       float64     `xml:"time"`
+	Time       float64     `xml:"time,attr"`
 	Extensions []Extension `xml:"Extension"`
 }
 
@@ -818,7 +818,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -3555,7 +3555,7 @@ type NumericInfo struct {
 	Mean               Number `xml:"mean,attr"`
 	Median             Number `xml:"median,attr"`
 	Minimum            Number `xml:"minimum,attr"`
-	StandardDeviation  Number `xml:"standardDeviation"`
+	StandardDeviation  Number `xml:"standardDeviation,attr"`
 
 	Extensions []Extension `xml:"Extension"`
 	Quantiles  []Quantile  `xml:"Quantile"`
@@ -3669,7 +3669,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
-- 
2.43.0


From 4aeea3269ea31ea4244123befbd7b8c8817aa08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:35 +0000
Subject: [PATCH 35/38] fix: constants are character data, not markup

---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index e585872..d56ed7b 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1356,7 +1356,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From 7427ab9e1c8a95dd23a978e52d719f741dd82311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 36/38] fix: the validity of a value is read from its property
 attribute

---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index d56ed7b..69348cc 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5794,7 +5794,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From db59361003f39e1ff5c38ea7b46017259d5a2109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:51 +0000
Subject: [PATCH 37/38] fix: outputs of a chain segment without a predicate are
 known to later predicates

---
 evaluation/mining.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 8dc20ce..7bf03b3 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -128,17 +128,17 @@ func (m *MiningModel) Compile() error {
 
 // segmentTest compiles the predicate of a segment, which may refer to the outputs of the segments before it in a chain.
 func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
-	if len(seg.Predicates) == 0 {
-		return func(DataRow) predicateResult { return t }, nil
-	}
-
 	if len(seg.Predicates) > 1 {
 		return nil, fmt.Errorf("unsupported segment predicate group size %d", len(seg.Predicates))
 	}
 
-	guard, err := newNode(&TreeModel{fieldTypes: m.fieldTypes}, models.Node{Predicate: seg.Predicates[0]})
-	if err != nil {
-		return nil, err
+	segtest := func(DataRow) predicateResult { return t }
+	if len(seg.Predicates) == 1 {
+		guard, err := newNode(&TreeModel{fieldTypes: m.fieldTypes}, models.Node{Predicate: seg.Predicates[0]})
+		if err != nil {
+			return nil, err
+		}
+		segtest = guard.test
 	}
 
 	if m.model.Segmentation.MultipleModelMethod == models.MultipleModelMethodModelChain {
@@ -157,7 +157,7 @@ func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
 		}
 	}
 
-	return guard.test, nil
+	return segtest, nil
 }
 
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-- 
2.43.0


From 9c9887a59ae8b122b716e4b3fea171ce13c99b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:51 +0000
Subject: [PATCH 38/38] fix: softmax of large scores overflowed

---
 evaluation/regression.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 12387e5..92359b2 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -212,14 +212,20 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		}
 	}
 
+	// the exponentials of large scores overflow: only the distances to the largest matter
+	max := math.Inf(-1)
+	for _, yVal := range y {
+		max = math.Max(max, yVal)
+	}
+
 	for i, target := range targets {
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal)
+				s += math.Exp(yVal - max)
 			}
-			out[target] = NewValue(math.Exp(y[i]) / s)
+			out[target] = NewValue(math.Exp(y[i]-max) / s)
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
-- 
2.43.0

