From b06cab0ba2140e6180453caeca480424d3924170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 01/20] fix: AVL rebalancing after a removal when the heavy
 child is itself balanced

---
 src/Lib/sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index be86e7d..3adb71e 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -110,7 +110,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 	nodeBalance := balance(node)
 
 	if nodeBalance > 1 {
-		if balance(node.left) > 0 {
+		if balance(node.left) >= 0 {
 			// Unbalanced by left child of left child
 			return rotateLeft(node)
 		} else {
@@ -120,7 +120,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 		}
 	}
 	if nodeBalance < -1 {
-		if balance(node.right) < 0 {
+		if balance(node.right) <= 0 {
 			// Unbalanced by right child of right child
 			return rotateRight(node)
 		} else {
-- 
2.43.0


From cca678821e15ddc407bf0c047a2dced2fa7a21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 02/20] fix: copying a set keeps the heights of its nodes

---
 src/Lib/sets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 3adb71e..84f75cc 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -236,6 +236,7 @@ func nodeCpy[T Ordered](node *Node[T]) *Node[T] {
 	newNode := mkNode(node.value)
 	newNode.left = nodeCpy(node.left)
 	newNode.right = nodeCpy(node.right)
+	newNode.height = node.height
 
 	return newNode
 }
-- 
2.43.0


From a1f739c6d78cf8dd9525edefbb010d3f5572d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 03/20] fix: Set.Filter returns the elements it selected

---
 src/Lib/sets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 84f75cc..c48dc8d 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -323,7 +323,7 @@ func (s Set[T]) Filter(pred Func[T, bool]) Set[T] {
 	res := EmptySet[T]()
 	for _, x := range s.Elements().GetSlice() {
 		if pred(x) {
-			res.Add(x)
+			res = res.Add(x)
 		}
 	}
 	return res
-- 
2.43.0


From d09312761e6d60475b585161a1eb610468ccbe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 04/20] fix: substituting a term replaces every occurrence
 inside a function term

---
 src/AST/term-list.go | 27 ---------------------------
 src/AST/termsDef.go  |  2 +-
 2 files changed, 1 insertion(+), 28 deletions(-)

diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..b555a94 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -54,33 +54,6 @@ func GetMetasOfList(tl Lib.List[Term]) Lib.Set[Meta] {
 	return res
 }
 
-/*
-Replace the first occurence of a term by another in the list
-*/
-func replaceFirstOccurrenceTermList(
-	tl Lib.List[Term],
-	replaceThis, withThis Term,
-) (Lib.List[Term], bool) {
-	res := Lib.MkList[Term](tl.Len())
-	updated := false
-
-	for i := range tl.GetSlice() {
-		candidate := tl.At(i)
-
-		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		modifiedTerm := candidate.ReplaceSubTermBy(replaceThis, withThis)
-
-		if !tl.At(i).Equals(modifiedTerm) && !updated {
-			updated = true
-			candidate = modifiedTerm
-		}
-
-		res.Upd(i, candidate)
-	}
-
-	return res, updated
-}
-
 /*
 Replace all occurences of a term by another in the list
 */
diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 5ceef28..43d097d 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -196,7 +196,7 @@ func (f Fun) ReplaceSubTermBy(oldTerm, newTerm Term) Term {
 	if f.Equals(oldTerm) {
 		return newTerm.Copy()
 	} else {
-		tl, res := replaceFirstOccurrenceTermList(f.GetArgs(), oldTerm, newTerm)
+		tl, res := ReplaceOccurrence(f.GetArgs(), oldTerm, newTerm)
 		nf := MakeFun(f.GetID(), f.GetTyArgs(), tl, f.metas.Raw())
 		if !res && !f.metas.NeedsUpd() {
 			nf.metas.AvoidUpd()
-- 
2.43.0


From f4b3423fbcd7758b574eab5abc0a4b81793781af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 05/20] fix: substituting in a list of formulas leaves the list
 unchanged

---
 src/AST/form-list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..769f972 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,11 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
+	result := Lib.MkList[Form](formulas.Len())
 	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
+		result.Upd(i, f.ReplaceMetaByTerm(meta, term))
 	}
-	return formulas
+	return result
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From 029f76a2f504f6bc56ba73094ac27cc71c44299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 06/20] fix: replacing a term in an argument list compares the
 terms themselves

---
 src/AST/formula.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AST/formula.go b/src/AST/formula.go
index 05ceb63..b4a39bf 100644
--- a/src/AST/formula.go
+++ b/src/AST/formula.go
@@ -73,14 +73,14 @@ func replaceTermInTermList(
 	for i, val := range terms.GetSlice() {
 		switch nf := val.(type) {
 		case Var:
-			if oldTerm.GetIndex() == nf.GetIndex() {
+			if nf.Equals(oldTerm) {
 				newTermList.Upd(i, newTerm)
 				res = true
 			} else {
 				newTermList.Upd(i, val)
 			}
 		case Fun:
-			if oldTerm.GetIndex() == nf.GetIndex() {
+			if oldTerm.IsFun() && oldTerm.GetIndex() == nf.GetIndex() {
 				newTermList.Upd(i, newTerm)
 				res = true
 			} else {
@@ -97,7 +97,7 @@ func replaceTermInTermList(
 				res = res || r
 			}
 		case Meta:
-			if oldTerm.Equals(newTerm) {
+			if nf.Equals(oldTerm) {
 				newTermList.Upd(i, newTerm)
 				res = true
 			} else {
-- 
2.43.0


From a00307dea485387c37726fe8ade605edf2cca160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 07/20] fix: a term wrapped as a formula reports its
 metavariables at every depth

---
 src/Unif/parsing.go | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..b263556 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -69,23 +69,7 @@ func (t TermForm) Equals(t2 any) bool {
 }
 
 func (t TermForm) GetMetas() Lib.Set[AST.Meta] {
-	switch nt := t.GetTerm().(type) {
-	case AST.Meta:
-		return Lib.Singleton(nt)
-	case AST.Fun:
-		res := Lib.EmptySet[AST.Meta]()
-
-		for _, m := range nt.GetArgs().GetSlice() {
-			switch mt := m.(type) {
-			case AST.Meta:
-				res = res.Add(mt)
-			}
-		}
-
-		return res
-	default:
-		return Lib.EmptySet[AST.Meta]()
-	}
+	return t.t.GetMetas()
 }
 
 func (t TermForm) GetSubTerms() Lib.List[AST.Term] {
-- 
2.43.0


From 3874e3558e507614867a7b9118edf87579cbac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 08/20] fix: substitution reaches the term wrapped as a formula

---
 src/Unif/parsing.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index b263556..c0919cf 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -46,18 +46,21 @@ func (t TermForm) ToString() string          { return t.ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-func (t TermForm) ReplaceTermByTerm(AST.Term, AST.Term) (AST.Form, bool) {
-	return t, false
+func (t TermForm) ReplaceTermByTerm(old, new AST.Term) (AST.Form, bool) {
+	newTerm := t.t.ReplaceSubTermBy(old, new)
+	return makeTermForm(t.GetIndex(), newTerm), !newTerm.Equals(t.t)
 }
 func (t TermForm) SubstTy(AST.TyGenVar, AST.Ty) AST.Form {
 	return t
 }
-func (t TermForm) GetIndex() int                                  { return t.index }
-func (t TermForm) SubstituteVarByMeta(AST.Var, AST.Meta) AST.Form { return t }
-func (t TermForm) GetInternalMetas() Lib.List[AST.Meta]           { return Lib.NewList[AST.Meta]() }
-func (t TermForm) SetInternalMetas(Lib.List[AST.Meta]) AST.Form   { return t }
-func (t TermForm) GetSubFormulasRecur() Lib.List[AST.Form]        { return Lib.NewList[AST.Form]() }
-func (t TermForm) GetChildFormulas() Lib.List[AST.Form]           { return Lib.NewList[AST.Form]() }
+func (t TermForm) GetIndex() int { return t.index }
+func (t TermForm) SubstituteVarByMeta(old AST.Var, new AST.Meta) AST.Form {
+	return makeTermForm(t.GetIndex(), t.t.ReplaceSubTermBy(old, new))
+}
+func (t TermForm) GetInternalMetas() Lib.List[AST.Meta]         { return Lib.NewList[AST.Meta]() }
+func (t TermForm) SetInternalMetas(Lib.List[AST.Meta]) AST.Form { return t }
+func (t TermForm) GetSubFormulasRecur() Lib.List[AST.Form]      { return Lib.NewList[AST.Form]() }
+func (t TermForm) GetChildFormulas() Lib.List[AST.Form]         { return Lib.NewList[AST.Form]() }
 
 func (t TermForm) Equals(t2 any) bool {
 	switch nt := t2.(type) {
@@ -77,7 +80,7 @@ func (t TermForm) GetSubTerms() Lib.List[AST.Term] {
 }
 
 func (t TermForm) ReplaceMetaByTerm(meta AST.Meta, term AST.Term) AST.Form {
-	return t
+	return makeTermForm(t.GetIndex(), t.t.ReplaceSubTermBy(meta, term))
 }
 
 func MakerTermForm(t AST.Term) TermForm {
-- 
2.43.0


From 433cf64030673b9f68aa79b6db096002aa50e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 09/20] fix: substVarByMetaInFormList keeps the metavariable it
 adds

---
 src/AST/formsDef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AST/formsDef.go b/src/AST/formsDef.go
index ed4183d..20cfa55 100644
--- a/src/AST/formsDef.go
+++ b/src/AST/formsDef.go
@@ -73,7 +73,7 @@ func substVarByMetaInFormList(
 	}
 
 	if found {
-		newMetas.Add(new)
+		newMetas = newMetas.Add(new)
 	}
 
 	return replacedFormList, newMetas
-- 
2.43.0


From 78ca23d91971c0cbc8c92049c03f1972e9156704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 10/20] fix: setting the value of a metavariable that already
 has one replaces it

---
 src/Unif/substitutions_type.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Unif/substitutions_type.go b/src/Unif/substitutions_type.go
index 7c43b11..532ea31 100644
--- a/src/Unif/substitutions_type.go
+++ b/src/Unif/substitutions_type.go
@@ -122,9 +122,9 @@ func (s Substitutions) Copy() Substitutions {
 
 func (s *Substitutions) Set(key AST.Meta, value AST.Term) {
 	found := false
-	for _, subst := range *s {
-		if subst.Key().Equals(key) {
-			subst.Set(value)
+	for i := range *s {
+		if (*s)[i].Key().Equals(key) {
+			(*s)[i].Set(value)
 			found = true
 		}
 	}
-- 
2.43.0


From e62f491e17d26e1e9c5d9c49761416db18794901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 11/20] fix: eliminating with the current bindings, and without
 failing on cycles of metavariables

---
 src/Unif/substitutions_type.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Unif/substitutions_type.go b/src/Unif/substitutions_type.go
index 532ea31..5b03d57 100644
--- a/src/Unif/substitutions_type.go
+++ b/src/Unif/substitutions_type.go
@@ -275,8 +275,8 @@ func Eliminate(s *Substitutions) {
 		has_changed = false
 
 		// For each element  (key, value) in the given substitution
-		for _, t := range *s {
-			key, value := t.Get()
+		for i := 0; i < len(*s); i++ {
+			key, value := (*s)[i].Get()
 			if OccurCheckValid(key, value) {
 				*s = eliminateInside(key, value, (*s).Copy(), &has_changed)
 			} else {
@@ -304,7 +304,9 @@ func eliminateInside(key AST.Meta, value AST.Term, s Substitutions, has_changed_
 			case AST.Meta:
 
 				if key.Equals(value_2_type) {
-					s_tmp.Set(key_2, value)
+					if !key_2.Equals(value) { // a metavariable is not substituted by itself
+						s_tmp.Set(key_2, value)
+					}
 					has_changed = true
 				} else {
 					s_tmp.Set(key_2, value_2)
-- 
2.43.0


From 8144dccd2b83599ed133c403cf6707063d4c59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 12/20] fix: unify both values of a metavariable of the tree
 instead of forgetting one

---
 src/Unif/substitutions_tree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..f88180e 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -89,9 +89,19 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		if !currentMeta.Equals(currentValue) {
 			// Si current_meta a déjà une association dans metas
 			metaGet, index := metasToSubs.Get(currentMeta)
+
+			if HasSubst(treeSubs, currentMeta) {
+				// It already has a value in the tree substitution: both values have to be unified
+				treeSubs = AddUnification(currentMeta.Copy(), currentValue.Copy(), treeSubs.Copy())
+				if treeSubs.Equals(Failure()) {
+					return Failure()
+				}
+			} else { // Ne pas ajouter la susbtitution égalité
+				treeSubs.Set(currentMeta, currentValue)
+			}
+
 			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
 				// On cherche a unifier les deux valeurs
-				treeSubs.Set(currentMeta, currentValue)
 				new_unif := AddUnification(currentValue.Copy(), metaGet.Copy(), treeSubs.Copy())
 				if new_unif.Equals(Failure()) {
 					return Failure()
@@ -99,8 +109,6 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 					treeSubs = new_unif
 					metasToSubs.Remove(index) // Remove from meta
 				}
-			} else { // Ne pas ajouter la susbtitution égalité
-				treeSubs.Set(currentMeta, currentValue)
 			}
 		}
 	}
-- 
2.43.0


From d47ea0b118968dd386279297bdd59ed563599090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 13/20] fix: a term is unifiable with itself

---
 src/Unif/substitutions_tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index f88180e..7508890 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -180,6 +180,10 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
+	// nothing to add to unify a term with itself
+	if term1.Equals(term2) {
+		return subst
+	}
 	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
 	t1v, _ := subst.Get(term1.ToMeta())
 	t2v, _ := subst.Get(term2.ToMeta())
-- 
2.43.0


From 72b645968fa88e48be1f0cd072003da25256de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 14/20] fix: keep the link between relevant metavariables bound
 to the same irrelevant one

RemoveElementWithoutMM dropped (X, Z) (Y, Z) when Z is not relevant, although
X and Y have to be equal: the parent then gave them different values, and
satisfiable problems were reported unsatisfiable.
---
 src/Core/substitutions_search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..83f3212 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -100,10 +100,12 @@ func RemoveElementWithoutMM(
 
 				switch typedTerm := term.(type) {
 				case AST.Meta:
-					if relevantMetas.Contains(meta) &&
-						relevantMetas.Contains(typedTerm) {
+					if relevantMetas.Contains(meta) {
+						// even if [typedTerm] is not relevant, it may link [meta] to another relevant metavariable
 						subst_to_reorganize.Set(meta, typedTerm)
-						res.Set(meta, typedTerm)
+						if relevantMetas.Contains(typedTerm) {
+							res.Set(meta, typedTerm)
+						}
 					}
 
 				default:
-- 
2.43.0


From 5cd2b7e99dff7a1d14b41b2f2e4cee9ffd2d94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 15/20] fix: prune the bindings of a unifier instead of
 dropping the pruned list

List.RemoveAt returns the new list; PruneMetasInSubsts ignored it and removed
nothing.
---
 src/Core/global_unifier.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Core/global_unifier.go b/src/Core/global_unifier.go
index aea67a6..a120ae7 100644
--- a/src/Core/global_unifier.go
+++ b/src/Core/global_unifier.go
@@ -202,10 +202,10 @@ func (u *Unifier) Merge(other Unifier) {
 }
 
 func (u *Unifier) PruneMetasInSubsts(metas Lib.Set[AST.Meta]) {
-	for i, unif := range u.localUnifiers {
+	for i := range u.localUnifiers {
 		for _, meta := range metas.Elements().GetSlice() {
 			index := Lib.MkNone[int]()
-			for j, subst := range unif.Fst.GetSlice() {
+			for j, subst := range u.localUnifiers[i].Fst.GetSlice() {
 				switch s := subst.Substitution().(type) {
 				case Lib.Some[Unif.Substitution]:
 					if s.Val.Key().Equals(meta) {
@@ -215,7 +215,7 @@ func (u *Unifier) PruneMetasInSubsts(metas Lib.Set[AST.Meta]) {
 			}
 			switch id := index.(type) {
 			case Lib.Some[int]:
-				u.localUnifiers[i].Fst.RemoveAt(id.Val)
+				u.localUnifiers[i].Fst = u.localUnifiers[i].Fst.RemoveAt(id.Val)
 			}
 		}
 	}
-- 
2.43.0


From 876b490d7b721e981dcfcff0dd3c99347a3a931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 16/20] fix: DMT makes no rewrite rule from a truth constant

---
 src/Mods/dmt/axiom_registration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 9bcbc09..b358563 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -175,8 +175,12 @@ func makeRewriteRuleFromEquivalence(equForm AST.Equ) bool {
 	return addEquRewriteRuleIfNotEquality(f1, f2)
 }
 
+// Truth constants are not literals: no rewrite rule can be made from them.
 func isAtomic(f AST.Form) bool {
-	return Core.ShowKindOfRule(f) == Core.Atomic
+	if not, isNot := f.(AST.Not); isNot {
+		return Glob.Is[AST.Pred](not.GetForm())
+	}
+	return Glob.Is[AST.Pred](f)
 }
 
 func areBothAtomics(f1, f2 AST.Form) bool {
-- 
2.43.0


From b517ec8c64a04dce0889a771c197786345b45c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 17/20] fix: DMT does not consume an implication it makes no
 rewrite rule from

---
 src/Mods/dmt/axiom_registration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index b358563..722b4b1 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -249,9 +249,10 @@ func makeRewriteRuleFromImplication(impForm AST.Imp) bool {
 		} else {
 			addPosRewriteRule(predFromNegatedAtom(phi2), AST.MakerNot(phi1))
 		}
+		return true
 	}
 
-	return true
+	return isAtomic(phi1)
 }
 
 // End rewrite rule from implicated formula.
-- 
2.43.0


From e651ba45dc6c9ccbb3ec16b47a0221c09308320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 18/20] fix: DMT accepts an implication from the negation of a
 non-atomic formula

---
 src/Mods/dmt/axiom_registration.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Mods/dmt/axiom_registration.go b/src/Mods/dmt/axiom_registration.go
index 722b4b1..6721794 100644
--- a/src/Mods/dmt/axiom_registration.go
+++ b/src/Mods/dmt/axiom_registration.go
@@ -192,8 +192,11 @@ func neitherAreAtomics(f1, f2 AST.Form) bool {
 }
 
 func isEqualityPred(f AST.Form) bool {
-	return (Glob.Is[AST.Pred](f) && isEquality(f.(AST.Pred))) ||
-		(Glob.Is[AST.Not](f) && isEquality(predFromNegatedAtom(f)))
+	if not, isNot := f.(AST.Not); isNot {
+		f = not.GetForm()
+	}
+	pred, isPred := f.(AST.Pred)
+	return isPred && isEquality(pred)
 }
 
 func addEquRewriteRuleIfNotEquality(f1, f2 AST.Form) bool {
-- 
2.43.0


From 2e83f2816513461915ad165ef8ac2a08314878ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 19/20] fix: parse files that are empty or do not end in a
 newline

---
 src/Parser/tptp_lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..f872c8e 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -845,7 +845,8 @@ func ParseTPTPFile(filename string) ([]PStatement, int, bool) {
 		Glob.Fatal(parse_label, err.Error())
 	}
 
-	TPTPParse(&TPTPLex{s: string(data)})
+	// The lexer needs a character after the last token
+	TPTPParse(&TPTPLex{s: string(data) + "\n"})
 
 	return statement, quantifiersCounter, containsEquality
 }
-- 
2.43.0


From dc3ce1a8d71e2f859b8d63d86f82f7163c12c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 20/20] fix: reject several conjectures that stand in different
 files of a problem

---
 src/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index 4f51ef7..77a61dd 100644
--- a/src/main.go
+++ b/src/main.go
@@ -236,7 +236,8 @@ func StatementListToFormula(
 	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
-		if _, is_some := negated_conjecture.(Lib.Some[AST.Form]); is_some {
+		// The conjecture may stand in another file of the problem
+		if Glob.IsConjectureFound() {
 			Glob.Fatal(main_label, "multiple conjectures found in the problem file")
 		}
 	}
-- 
2.43.0

