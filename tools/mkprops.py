#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Ordered sets compute exactly the mathematical set operations",
 "After any history of set operations, membership, emptiness, cardinality and the listed elements describe one and the same mathematical set: add, remove, singleton, union, intersection, difference, disjointness and filtering yield exactly the set their name says, and the element listing contains each member once. A copy of a set is independent of the original: later changes to one are not visible in the other. Reading operations never change the set they read.",
 ["inputs", "histories"], "all element types with a lawful order, all sets, all sequences of operations",
 "The Lib tests exercise a handful of small integer sets; correctness of a rebalancing tree depends on every shape that any history can build.",
 ["src/Lib/sets.go"], [("AVL insertion/removal/search", "Lib/sets.go insert, remove, find, elements, cardinal, nodeCpy"), ("set algebra", "Lib/sets.go Add, Remove, Union, Inter, Diff, Disjoint, Filter, Copy")],
 ["result of the exported set operations"])
prop("C02", "Ordered sets stay search-ordered and height-balanced",
 "Every set that can be built through the exported operations (including copies) is stored as a search tree whose recorded heights are exact and in which the two subtrees of every node differ in height by at most one. Lookups, insertions and removals therefore stay logarithmic in the number of elements, whatever the history.",
 ["inputs", "histories"], "all element types with a lawful order, all histories of operations on sets and on copies of sets",
 "The tests check the height of two or three particular trees; an imbalance or a stale height shows only on particular insertion/removal orders.",
 ["src/Lib/sets.go"], [("rotation and height bookkeeping", "Lib/sets.go rotateLeft, rotateRight, rebalance, newHeight, nodeCpy")])
prop("C03", "List operations return exactly the documented elements, in order",
 "For every list and every argument, appending, adding-if-absent, removing at a position, filtering, mapping, copying, slicing, searching, membership, position lookup and comparison return exactly the elements (or answer) their description promises, in the original order, with nothing lost, duplicated or reordered. Removing at a position, filtering, mapping and copying build a new list: they leave their argument unchanged and the new list does not share storage with it. No operation changes an element of a list it only reads.",
 ["inputs"], "all lists over all element types, all comparison functions and predicates, all positions in range",
 "Unit tests sample a few integer lists; the guarantee quantifies over lengths, positions, predicates and later mutation of either list.",
 ["src/Lib/list.go", "src/Glob/int_functions.go", "src/Glob/utils.go"], [("list primitives", "Lib/list.go")])
prop("C04", "The free metavariables of a term or formula are reported exactly",
 "For every term and every formula, however deeply nested, the set of metavariables reported for it is exactly the set of metavariables that occur in it: none is missing and none is spurious. Asking for the metavariables never changes the term or formula nor any other one sharing structure with it, so a second query gives the same answer.",
 ["inputs", "histories"], "all terms and formulas, all orders of queries and of cache invalidations",
 "Skolemisation and substitution are sound only if no free metavariable is missed in any nesting; tests look at a few shallow formulas.",
 ["src/AST/formsDef.go", "src/AST/termsDef.go", "src/AST/formula.go", "src/AST/quantifiers.go", "src/Lib/cache.go"], [("metavariable collection and caching", "AST GetMetas implementations, Lib/cache.go")])
prop("C05", "Equality of terms and formulas is exactly structural equality",
 "Two terms (or two formulas) compare equal exactly when they have the same shape: the same kind of node with equal symbols, equal type arguments and pairwise equal sub-terms or sub-formulas in the same order; comparison with a value of any other kind is false. In particular comparison is reflexive, symmetric and transitive, and a copy of a term or formula always compares equal to the original.",
 ["inputs"], "all pairs of terms, all pairs of formulas",
 "Closure of branches, loop detection and set membership all rest on this comparison; an argument position that is not compared shows only for inputs that differ exactly there.",
 ["src/AST/formsDef.go", "src/AST/termsDef.go", "src/AST/quantifiers.go", "src/AST/ty-syntax.go", "src/AST/typed-vars.go", "src/Lib/list.go"], [("Equals and Copy implementations", "AST/*")])
prop("C06", "Substitution replaces every occurrence and never changes its input",
 "Replacing a metavariable (or a bound variable) by a term in any term or formula yields exactly the input with every occurrence of it replaced and nothing else changed, at every depth and in every argument position. The term or formula given as input, and everything sharing structure with it, is left unchanged.",
 ["inputs"], "all terms and formulas, all metavariables/variables, all replacement terms",
 "A missed occurrence (deep, second, or repeated) or an in-place update of a shared argument list appears only for particular nestings and only later in the search.",
 ["src/AST/formsDef.go", "src/AST/termsDef.go", "src/AST/form-list.go", "src/AST/term-list.go", "src/AST/quantifiers.go", "src/AST/formula.go", "src/Core/substitutions_search.go"], [("substitution over terms, formulas and lists", "AST ReplaceMetaByTerm/SubstituteVarByMeta/ReplaceSubTermBy, Core ApplySubstitution*")])
prop("C07", "Propositional tableau rules are sound and complete for their formula",
 "Applying the expansion rule of any non-quantified connective (conjunction, disjunction, implication, equivalence, their negations, and double negation) to any formula produces branches such that, in every interpretation, the formula is true if and only if at least one branch has all of its new formulas true. Non-branching rules produce exactly one branch, and no sub-formula is dropped.",
 ["inputs"], "all formulas of those shapes (any number of operands), all interpretations of their sub-formulas",
 "The existing problems only exercise a few operand counts and the answer of the whole prover; a wrong polarity in one rule can still leave most problems solved.",
 ["src/Core/rules_type.go", "src/Search/rules.go"], [("alpha and beta rules", "Search/rules.go ApplyAlphaRules, ApplyBetaRules and helpers")])
prop("C08", "Every formula is classified into exactly its tableau rule and kept",
 "Every formula is given the rule class its outermost structure dictates: literals are atomic, truth constants and their negations close or are dropped, conjunctive shapes are non-branching, disjunctive shapes branching, existential shapes (and negated universals) witness-introducing, universal shapes (and negated existentials) instantiating. When a formula is put into the state of a branch it is filed under that class and never lost or duplicated.",
 ["inputs", "histories"], "all formulas, all branch states",
 "A shape that falls into no class or the wrong one is silently never expanded; the test problems contain only some of the shapes.",
 ["src/Core/rules_type.go", "src/Search/state.go", "src/Core/form_and_terms_list.go"], [("rule classification and dispatch", "Core/rules_type.go ShowKindOfRule, Search/state.go DispatchForm")])
prop("C09", "Universal instantiation replaces the bound variables by fresh metavariables",
 "Instantiating a universally quantified formula (or a negated existential) returns the body, with the same polarity, in which every occurrence of every quantified variable is replaced by its own new metavariable, different from each other and from every metavariable made before; nothing else in the body changes. The new metavariables are exactly the ones reported with the result.",
 ["inputs", "histories"], "all quantified formulas, all numbers of bound variables, all earlier histories of generated metavariables",
 "A reused metavariable makes an unsound unifier only when two copies of the same universal formula are used together; a missed occurrence only for particular nestings.",
 ["src/Core/instanciation.go", "src/AST/maker.go", "src/Core/meta_gen.go"], [("instantiation", "Core/instanciation.go Instantiate, RealInstantiate"), ("metavariable creation", "AST/maker.go MakerMeta")])
prop("C10", "Skolemisation introduces a fresh witness over all free metavariables",
 "Eliminating an existential (or a negated universal) replaces every occurrence of its bound variable by one application of a symbol that occurs nowhere before, keeps the polarity and the remaining bound variables, and applies that symbol to all the metavariables the chosen Skolemisation scheme requires: all those of the whole branch for the outer scheme, all those free in the formula for the inner scheme. Two eliminations never share a symbol, unless the optimised scheme does so for the same formula up to renaming.",
 ["inputs", "histories", "schedules"], "all formulas, all sets of free metavariables, all earlier histories, for term and type variables",
 "A missing argument or a reused symbol makes the prover unsound only on problems that unify the witness with something depending on that metavariable.",
 ["src/Core/skolemisation.go", "src/Core/Sko/outer-skolemization.go", "src/Core/Sko/inner-skolemization.go", "src/Core/Sko/preinner-skolemization.go", "src/Core/Sko/interface.go"], [("witness construction", "Core/skolemisation.go and Core/Sko/*")])
prop("C11", "Renaming bound variables gives an equivalent formula with fresh binders",
 "Renaming the bound variables of a formula keeps its connectives, symbols and free names, gives every binder new variables that differ from each other and from all variables used before, and renames exactly the occurrences bound by that binder (an occurrence shadowed by an inner binder follows the inner one).",
 ["inputs", "histories"], "all formulas including nested and shadowing binders, all histories of names",
 "Shadowing and repeated names occur in few problems; a capture only shows as a wrong verdict.",
 ["src/AST/quantifiers.go", "src/AST/formsDef.go", "src/AST/typed-vars.go"], [("renaming", "AST RenameVariables")])
prop("C12", "Unifier bookkeeping: occurs check, lookup, update and merge are exact",
 "A metavariable is reported to occur in a term exactly when it does; a substitution looks up, adds, replaces and removes bindings like a finite map, two substitutions compare equal exactly when they have the same bindings, and applying a substitution's bindings to one another, or merging two substitutions, keeps exactly what the bindings say: the result is satisfied by the same values of the metavariables, or is a failure when no values satisfy all the bindings. A binding whose variable occurs in its own (different) term is always reported as a failure. Restricting a substitution to the metavariables of a parent keeps what it says about them.",
 ["inputs"], "all terms, all substitutions, all bindings",
 "The unifier tests use a few pairs of terms; a missed nested occurrence builds a cyclic unifier, which makes the prover unsound.",
 ["src/Unif/substitutions_type.go", "src/Unif/matching.go", "src/Unif/subst_pair.go"], [("occurs check and substitution lists", "Unif/substitutions_type.go")])
prop("C13", "Symbol interning is injective and fresh symbols are new under any schedule",
 "Asking twice for the symbol, variable or metavariable of a name gives the same identity, different names give different identities, and every explicitly fresh symbol, variable or metavariable differs from all those handed out before. This holds whatever the interleaving of the parallel branches of the search.",
 ["histories", "schedules"], "all sequences and all interleavings of requests by any number of goroutines",
 "A duplicated identity needs two goroutines to meet inside the lookup; the tests are sequential.",
 ["src/AST/maker.go", "src/Core/meta_gen.go", "src/Glob/syncCounter.go"], [("interning tables and counters under locks", "AST/maker.go")],
 state=[("idTable, idVar and counters", "name to identity tables and last identity handed out", "AST/maker.go")])
prop("C14", "Deduction modulo: every registered rewrite rule follows from its axiom",
 "When an axiom is turned into rewrite rules, every rule it adds is a consequence of the axiom in every interpretation: a positive-occurrence rule rewrites a literal only to something it implies under the axiom, and a negative-occurrence rule rewrites a negated literal only to something that negation implies. An equivalence axiom that is consumed is recoverable from its rules, and an axiom that adds no rule is not consumed; equalities are never rewritten.",
 ["inputs"], "all axioms (any shape and polarity of literal, either side), with and without polarised mode",
 "The DMT tests fix the rules for some literal shapes; a swapped polarity makes the prover unsound only for problems using that shape.",
 ["src/Mods/dmt/axiom_registration.go", "src/Mods/dmt/utils.go", "src/AST/formula.go"], [("axiom to rewrite rules", "Mods/dmt/axiom_registration.go"), ("rule store per polarity", "Mods/dmt/utils.go rewriteMapInsertion")])
prop("C15", "The searched formula is the axioms together with the negated conjecture",
 "The formula handed to the proof search is true in an interpretation exactly when every axiom of the problem (including those of included files, except the ones taken over as rewrite rules) is true and the conjecture, if there is one, is false; a conjecture already given negated is used as is. More than one conjecture is rejected, and no statement is dropped or negated twice, in whatever order the statements appear.",
 ["inputs"], "all statement lists: any number and order of axioms, conjectures, type declarations and includes",
 "The test problems fix a few orders and sizes; a dropped axiom or a wrong polarity yields a confident wrong verdict on others.",
 ["src/main.go", "src/AST/form-list.go"], [("problem assembly", "main.go StatementListToFormula, doAxiomStatement, doConjectureStatement"), ("flattening", "AST/form-list.go FlattenAnd")])
prop("C16", "Translation from the parsed syntax preserves the meaning of formulas",
 "Translating a parsed formula to the internal form preserves its truth value in every interpretation of its atoms: each connective is translated to the same connective over the translations of its operands in the same order, quantifiers keep their kind and their variables, and flattening nested conjunctions or disjunctions changes nothing but the nesting.",
 ["inputs", "configurations"], "all parsed formulas, with and without flattening",
 "Every verdict is relative to this translation; the tests cover the shapes that occur in a few files.",
 ["src/Engine/syntax-translation.go", "src/AST/formsDef.go"], [("elaboration of formulas", "Engine/syntax-translation.go elaborateForm, maybeFlattenBin, flatten")])
prop("C17", "The reported verdict and SZS status match the result of the search",
 "The status line reports Theorem or Unsatisfiable only when the search closed every branch, and CounterSatisfiable or Satisfiable only when it did not; the Theorem/CounterSatisfiable pair is used exactly when the problem has a conjecture. A search that was stopped by its bound is not reported as a definite answer other than the one its result stands for.",
 ["inputs", "configurations"], "both search results, problems with and without conjecture",
 "One mapping mistake affects a whole class of problems of which the test-suite has few or none.",
 ["src/Search/search.go", "src/Glob/helper.go"], [("status printing", "Search/search.go PrintSearchResult"), ("conjecture flag", "Glob/helper.go")])
prop("C18", "Type checking accepts exactly the well-typed formulas",
 "A formula is accepted only if every symbol is declared, every application has as many arguments as the symbol's type requires, each argument's type is the type required at that position, and every variable is used at the type of its binder; an ill-typed formula is rejected. The answer does not depend on the order in which the parts are checked in parallel.",
 ["inputs", "schedules"], "all formulas and typing environments",
 "The typing tests sample a few declarations; an argument position or branch that is not checked accepts ill-typed problems silently.",
 ["src/Typing/rules.go", "src/Typing/env-and-context.go", "src/AST/ty-syntax.go"], [("typing rules", "Typing/rules.go"), ("environment and context", "Typing/env-and-context.go")])
prop("C19", "The term order used by equality reasoning is a strict simplification order",
 "Whenever two terms are reported comparable, the reported order is irreflexive, antisymmetric and consistent with comparing them the other way round; equal terms and only equal terms are reported equal, and a term is always reported greater than its proper sub-terms. Terms whose order depends on the value of a metavariable are reported not comparable.",
 ["inputs"], "all pairs of terms (functions and metavariables)",
 "An order that contradicts itself on some pair makes superposition loop or lose proofs; tests compare a few small terms.",
 ["src/Mods/equality/bse/lpo.go"], [("lexicographic path order", "Mods/equality/bse/lpo.go compareLPO")])
prop("C20", "A branch is closed without unification only on a real contradiction",
 "A formula closes its branch on its own only if it is false in every interpretation (falsity, negated truth, or a negated equality of a term with itself); a pair of literals closes a branch only if one is the negation of the other for the substitution given. No such immediate contradiction is missed.",
 ["inputs"], "all formulas and branches",
 "An over-eager closure test makes the prover claim a theorem wrongly, for shapes that the test problems do not contain.",
 ["src/Search/rules.go", "src/Search/destructive.go"], [("closure rules", "Search/rules.go applyClosureRules, searchObviousClosureRule")])
prop("C21", "Positions, type arguments and instantiated types are computed exactly",
 "Instantiating a polymorphic type with a list of types replaces every occurrence of each bound type variable by the type at the same position and nothing else, at every depth; the argument types and the result type of a function type are exactly those written; comparing two types is structural.",
 ["inputs"], "all types, all instances of matching length",
 "Type errors that are accepted or rejected wrongly depend on nesting and position of the type variables.",
 ["src/AST/ty-syntax.go"], [("type substitution and decomposition", "AST/ty-syntax.go InstantiateTy, GetArgsTy, GetOutTy")])
prop("C22", "A reported theorem is a theorem: the whole search is sound",
 "If the prover reports Theorem or Unsatisfiable for a problem, the axioms and the negated conjecture have no common model, for every problem, option set and interleaving of the parallel branches.",
 ["inputs", "configurations", "schedules"], "all problems, all options, all schedules",
 "The test-suite runs a finite set of problems under the schedules that happen to occur.",
 ["src/Search/destructive.go", "src/Search/nonDestructiveSearch.go", "src/Unif/machine.go", "src/Core/global_unifier.go"], [("parallel destructive tableau search", "Search/destructive.go"), ("code-tree unification", "Unif/machine.go, Unif/matching.go")])
prop("C23", "The parallel search never deadlocks and always reports a bounded search",
 "For every problem and every finite instantiation bound, the parallel search ends with a verdict under every interleaving of the branches: no branch waits for a message that is never sent, and no branch keeps running after the verdict.",
 ["inputs", "schedules"], "all problems, all interleavings",
 "Deadlocks need a particular interleaving; the tests run each problem once.",
 ["src/Search/child_management.go", "src/Search/children.go", "src/Search/exchanges.go", "src/Search/destructive.go"], [("channels between branches", "Search/children.go, Search/child_management.go")])
prop("C24", "Every exported proof is accepted by the target proof checker",
 "A proof printed for TPTP, Rocq or Lambdapi is a complete derivation of the stated problem which the corresponding external checker accepts.",
 ["inputs", "configurations"], "all problems with a proof, all output formats",
 "The tests do not run the external checkers and cover a few proofs.",
 ["src/Mods/gs3/proof.go", "src/Mods/tptp/proof.go", "src/Mods/rocq/proof.go", "src/Mods/lambdapi/proof.go"], [("proof translation", "Mods/gs3, Mods/rocq, Mods/lambdapi, Mods/tptp")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
