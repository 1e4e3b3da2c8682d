From efe7ed122cb17518d740a81a8798130edbd8b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 01/14] fix: forget initialized variables when a scoper is
 reset

---
 query/scoper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..dff70fb 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -29,7 +29,7 @@ type Scoper interface {
 	// SetScope adds the value and corresponding index to the last scope in the
 	// stack. Returns an error if there are no scopes.
 	SetScope(vIdx int, val []FeatV) error
-	// Reset removes all scopes in the stack.
+	// Reset removes all scopes in the stack and all initialized variables.
 	Reset()
 }
 
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From 50a39222cddbbf26514b31d67e3c31a27acc39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 02/14] fix: resolve a constant to the innermost scope that
 targets it

---
 query/scoper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query/scoper.go b/query/scoper.go
index dff70fb..f690c28 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -78,9 +78,10 @@ func (s *baseScoper) AddVar(v QVar) {
 }
 
 func (s *baseScoper) ScopeConst(c QConst) (QConst, bool) {
-	for _, g := range s.scopes {
-		if g.target == c.ID {
-			return QConst{c.ID, g.value}, true
+	// The innermost scope shadows outer ones with the same target.
+	for i := len(s.scopes) - 1; i >= 0; i-- {
+		if s.scopes[i].target == c.ID {
+			return QConst{c.ID, s.scopes[i].value}, true
 		}
 	}
 	return c, false
-- 
2.43.0


From 8ab0d5185095cf2deb9357d7d13dd9e5e9f65198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 03/14] fix: name the distance of leh.ConstVarConst after the
 constant it measures

---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..a879d89 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From d898cc2232e79a9f24ee13e36d47121f8964cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 04/14] fix: require a full variable in the shortcuts of leh
 with two constants

---
 query/extensions/leh/const_const_var.go | 7 ++++---
 query/extensions/leh/const_var_const.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..e4a8994 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -51,12 +51,13 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
+
+	// The comparison can not fail but the variable must still be full.
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return ncnf, nil
 	}
 
-	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-
 	hdClauses, err := hammingDistVC(sv, sc1, vc1hd, ctx)
 	if err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index a879d89..f8ebfdc 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -51,12 +51,13 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
+
+	// The comparison can not fail but the variable must still be full.
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return ncnf, nil
 	}
 
-	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-
 	hdClauses, err := hammingDistVC(sv, sc1, vc1hd, ctx)
 	if err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From 75f26591962cbb62a128a4da9da0539d7f1cd92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 05/14] fix: accept an empty preference in every form of hepr

---
 query/extensions/hepr/const_var.go | 4 ++++
 query/extensions/hepr/var_const.go | 4 ++++
 query/extensions/hepr/var_var.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..ac173c9 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,10 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..c952946 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,10 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..e93095a 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -39,6 +39,10 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
-- 
2.43.0


From b3179760034a080fa03a418fbfd94fd0c6a31377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 06/14] fix: give different hepr preferences different
 variables

---
 query/extensions/hepr/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..cc4b2de 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -24,11 +24,15 @@ func validatePref(pref []int, dim int) error {
 	return nil
 }
 
-// prefVar returns a query variable corresponding to pref.
+// prefVar returns a query variable corresponding to pref. Different preferences
+// have different variables.
 func prefVar(pref []int) query.QVar {
 	var sb strings.Builder
 
-	for _, idx := range pref {
+	for i, idx := range pref {
+		if i > 0 {
+			sb.WriteString(",")
+		}
 		sb.WriteString(strconv.Itoa(idx))
 	}
 
-- 
2.43.0


From 84d601dc7f586abe1bb5e8463846d808ae8bd6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 07/14] fix: keep the reachability of isnode.Var apart from
 that of allcomp.Var

---
 query/predicates/isnode/var.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..0818b88 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -36,7 +36,8 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). Unlike in the AllComp extension, which uses the triples
+	// (svReach, 0, i), bottom values do not reach any child here.
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -49,13 +50,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -65,28 +66,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From 637d03a7720a4a1a1094b23cff44db534a5b8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 08/14] fix: report an empty model in dfs instead of panicking

---
 query/extensions/dfs/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..52a779f 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -21,6 +21,10 @@ func leafsAsConsts(
 	pleaf := []query.QConst{}
 	nleaf := []query.QConst{}
 
+	if len(nodes) == 0 {
+		return pleaf, nleaf, nil
+	}
+
 	var tmp []query.FeatV
 	cv := make([]query.FeatV, dim)
 
-- 
2.43.0


From dca5c751030f2064b5db8adb2a71cf979364b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 09/14] fix: validate the model's nodes in allcomp and
 isnode.Var

---
 query/extensions/allcomp/const.go |  9 ++-------
 query/extensions/allcomp/var.go   |  6 ++++++
 query/model.go                    | 28 ++++++++++++++++++++++++++++
 query/predicates/isnode/var.go    |  6 ++++++
 4 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..982d1cf 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -2,7 +2,6 @@ package allcomp
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -49,12 +48,8 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		if n.Feat < 0 || n.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				n.Feat,
-				dim-1,
-			)
+		if err := query.ValidateNode(n, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
 		}
 
 		switch sc.Val[n.Feat] {
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..17508eb 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -33,6 +33,12 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	if len(nodes) == 0 {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
+	for _, node := range nodes {
+		err := query.ValidateNode(node, ctx.Dim(), len(nodes))
+		if err != nil {
+			return cnf.CNF{}, err
+		}
+	}
 
 	sv := ctx.ScopeVar(ac.I)
 	svReach := ac.ReachNodeVarGen(sv)
diff --git a/query/model.go b/query/model.go
index 9c6894d..e5f7db7 100644
--- a/query/model.go
+++ b/query/model.go
@@ -1,5 +1,7 @@
 package query
 
+import "fmt"
+
 // Model provides functionality to access properties of models.
 type Model interface {
 	// Dim returns the dimension of the model. This value is expected to be
@@ -35,3 +37,29 @@ const NoChild int = -1
 func (n Node) IsLeaf() bool {
 	return n.ZChild < 0 || n.OChild < 0
 }
+
+// ValidateNode returns a non nil error if the node n is invalid for the given
+// dimension and number of nodes.
+func ValidateNode(n Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 0818b88..7a45ea5 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -29,6 +29,12 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	if len(nodes) == 0 {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
+	for _, node := range nodes {
+		err := query.ValidateNode(node, ctx.Dim(), len(nodes))
+		if err != nil {
+			return cnf.CNF{}, err
+		}
+	}
 
 	dim := ctx.Dim()
 	ncnf := cnf.CNF{}
-- 
2.43.0


From 5eb17a1e57a4ee745a736330062a9fc4899ecbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 10/14] fix: do not write to a formula's clauses when negating
 it

---
 cnf/cnf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..fd3bea6 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -125,7 +125,8 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			// The clause is shared with other formulas, do not grow it in place.
+			clauses = append(clauses, append(clause[:len(clause):len(clause)], auxv))
 		}
 
 		// Literals representing negated clauses.
-- 
2.43.0


From 2a08984981e29910937a754e1acaff2ae9e13e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 11/14] fix: do not share a formula's spare capacity between
 formulas derived from it

---
 cnf/cnf.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index fd3bea6..805fafd 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -48,7 +48,8 @@ var (
 
 // Create a new CNF struct from clauses. Clauses will be treated as semantic.
 func FromClauses(clauses []Clause) CNF {
-	ncnf := CNF{sClauses: clauses}
+	// The capacity left in clauses belongs to the caller.
+	ncnf := CNF{sClauses: clauses[:len(clauses):len(clauses)]}
 	ncnf.tv = maxVar(clauses)
 	return ncnf
 }
@@ -134,7 +135,7 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses = extend(c.cClauses, clauses...)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
@@ -153,10 +154,10 @@ func (c *CNF) addNegationIFFClauses(enclits Clause) {
 	auxv := int(c.tv)
 
 	for _, lit := range enclits {
-		c.cClauses = append(c.cClauses, Clause{-lit, auxv})
+		c.cClauses = extend(c.cClauses, Clause{-lit, auxv})
 	}
 
-	c.cClauses = append(c.cClauses, append(enclits, -auxv))
+	c.cClauses = extend(c.cClauses, append(enclits, -auxv))
 	c.sClauses = []Clause{{auxv}}
 }
 
@@ -174,7 +175,7 @@ func (c CNF) AppendSemantics(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
 	return CNF{
 		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
+		sClauses: extend(c.sClauses, clauses...),
 		cClauses: c.cClauses,
 	}
 }
@@ -185,7 +186,7 @@ func (c CNF) AppendConsistency(clauses ...Clause) CNF {
 	return CNF{
 		tv:       topv,
 		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+		cClauses: extend(c.cClauses, clauses...),
 	}
 }
 
@@ -279,6 +280,28 @@ func (c CNF) hasEmptySemanticClause() bool {
 	return false
 }
 
+// extend returns base followed by clauses. Formulas share their storage with
+// the formulas derived from them so the capacity left in base is only used if
+// no other formula has done so before.
+func extend(base []Clause, clauses ...Clause) []Clause {
+	n := len(base)
+
+	if n < cap(base) && base[:n+1][n] != nil {
+		base = base[:n:n]
+	}
+
+	base = append(base, clauses...)
+
+	// A nil clause in use must not look like capacity left.
+	for i := n; i < len(base); i++ {
+		if base[i] == nil {
+			base[i] = Clause{}
+		}
+	}
+
+	return base
+}
+
 // Return clause in DIMACS CNF format including trailing 0.
 func clauseToDIMACS(clause Clause) string {
 	cString := ""
-- 
2.43.0


From 585afc64cb43df83fe118b126ffa15357ff929d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 12/14] fix: report a failure to create the temporary file of
 an optimisation

---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From 183bfe0c3dbe4a2a446b4e8c8e935d73d0acd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 13/14] fix: start an optimisation with a reset context

---
 compute/optimum.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compute/optimum.go b/compute/optimum.go
index b81cb22..14d0a69 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -45,6 +45,10 @@ func ComputeOptim(
 ) (OptOutput, error) {
 	var bm []query.QConst
 
+	if ctx == nil {
+		return OptOutput{}, errors.New("Invalid computation with nil ctx")
+	}
+
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
 		return OptOutput{}, err
@@ -54,6 +58,10 @@ func ComputeOptim(
 		os.Remove(tmpfp.Name())
 	}()
 
+	// The context may have been used before, in which case v would not be
+	// declared anew.
+	ctx.Reset()
+
 	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {
 		if errors.Is(err, UnsatError) {
 			return OptOutput{false, query.QConst{}, 1}, nil
-- 
2.43.0


From 3dc4fbdc4e0f9fb1a12beaf79de4e9ee4be7d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 14/14] fix: accept any white space in the value lines of a
 solver's output

---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..bee840d 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -149,7 +149,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0

