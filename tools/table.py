TECH = "contract-based deductive verification of the Go sources (contracts in /verif/contracts; verification conditions by symbolic execution of go/ssa, discharged by z3 and cvc5), failing obligations replayed on the real code"
TRUST = "Trusted: the verifier itself (gover), go/ssa, the SMT solvers, and the assumed contracts listed in the evidence (standard library, lpg, ANTLR accessors, sub-expression evaluation). Integers are 64-bit two's complement and floats IEEE 754, not idealised."

OPERANDS = "inputs,programs"

p("C01", "Multiplication, division and modulo yield the exact Cypher result or fail",
  "For every chain of operands joined by *, / and %, the result is the left-to-right result of applying each operator: integer arithmetic when both sides are integers, floating point when either is a float, durations multiplied or divided component-wise by a number (multiplication in either order), and null as soon as one side is null. A failing operand, division or modulo by zero and an unsupported pair of types are reported as errors, never as a value, and no operand value makes the evaluation panic.",
  OPERANDS, "every chain length, every operator sequence, every operand value including null, the extreme integers, NaN, infinities, zero and durations",
  "TestExpr evaluates a handful of literal expressions; operand types times operators times boundary values times chain length is unbounded, and the evaluator has one loop with in-place state for all of it.",
  "arithmeticeval.go", [("left fold over the parts with type dispatch", "arithmeticeval.go (*multiplyDivideModuloExpression).Evaluate"), ("pairwise operators", "arithmeticeval.go mulintint, mulintfloat, mulfloatint, mulfloatfloat, muldurint, mulintdur, muldurfloat, mulfloatdur")],
  note="Every obligation of the evaluator and its pairwise helpers is discharged for all operand values and any number of operands (loop invariant, no bound).")

p("C02", "Addition and subtraction yield the exact Cypher result or fail",
  "For every chain of operands joined by + and -, the result is the left-to-right result: integer or floating point sums and differences, concatenated strings and lists, component-wise sums and differences of durations, and dates, times and date-times moved forward or back by a duration (dates by its months and days, times by its seconds and nanoseconds, date-times by all four); null as soon as one side is null. A failing operand and an unsupported pair of types are reported as errors, and list concatenation never changes either of the lists it was given.",
  OPERANDS, "every chain length, every sign sequence, every operand value of every type",
  "The tests add a few literals; the type matrix (9 types squared, two operators) over unbounded chains and aliasing between lists cannot be sampled.",
  "arithmeticeval.go", [("left fold over the parts with type dispatch", "arithmeticeval.go (*addOrSubtractExpression).Evaluate"), ("pairwise operators", "arithmeticeval.go addintint … adddurdur, addlistlist")],
  note="Every obligation of the evaluator, its pairwise helpers and the list concatenation loop is discharged for all operand values and any number of operands.")

p("C03", "Exponentiation and unary minus yield the exact Cypher result or fail",
  "a ^ b ^ c is evaluated from left to right in floating point, null if an operand is null and an error if an operand is not a number; a single operand is passed on unchanged. Unary minus negates integers and floats, yields null for null and an error for anything else; unary plus is the identity.",
  OPERANDS, "every chain length and every operand value",
  "Only literal operands are tested; null, mixed and non-number operands at each position are not.",
  "arithmeticeval.go", [("power fold", "arithmeticeval.go (*powerOfExpression).Evaluate"), ("sign", "arithmeticeval.go (*unaryAddOrSubtractExpression).Evaluate")],
  note="Every obligation of both evaluators is discharged; math.Pow is an uninterpreted function shared with the contract.")

p("C04", "Values of a kind are totally ordered, and the order is the one of the values",
  "Two numbers compare by numeric value whatever their types, strings by byte order, false before true, durations by months then days then seconds then nanoseconds, dates and times chronologically, and values of different kinds do not compare (an error). On each kind the order is reflexive, antisymmetric and transitive, so equality and ordering operators never contradict each other.",
  "inputs", "every pair and every triple of values (NaN excepted; transitivity for integers within 2^53 when mixed with floats)",
  "A total order is a statement about all triples; the tests compare two or three literals.",
  "relationaleval.go", [("type dispatch of the comparison", "relationaleval.go comparePrimitiveValues")],
  note="The comparison is proved equal to the specified order for all values, and the order laws are proved as lemmas over the specification.",
  theorems=("cmpReflexive", "cmpAntisymmetric", "cmpTransitive"))

p("C05", "A chain of comparisons is the conjunction of its links",
  "a op1 b op2 c … with =, <>, <, <=, >, >= is true exactly when every adjacent pair satisfies its operator, false when some pair does not, and otherwise null if a pair involves null. Operands that do not compare, or that fail, make the whole comparison fail.",
  OPERANDS, "every chain length, every operator sequence, every operand value",
  "Chains are not tested at all; the defect classes (last link wins, stale left operand, null swallowed) only show for particular combinations.",
  "relationaleval.go", [("loop over the links", "relationaleval.go (comparisonExpression).Evaluate"), ("pairwise comparison", "relationaleval.go comparePrimitiveValues")],
  note="Every obligation is discharged for any number of links and all operand values.")

p("C06", "AND, OR, XOR and NOT follow three-valued logic",
  "For operands true, false and null, AND, OR, XOR and NOT give the results of Kleene's three-valued logic for any number of operands, independently of operand order. An operand that is neither a boolean nor null is an error, unless the result was already decided by an earlier operand.",
  OPERANDS, "every number of operands, every combination of true, false, null, failing and non-boolean operands",
  "The tests contain no null operands; the laws quantify over all operand sequences.",
  "relationaleval.go", [("folds over the parts", "relationaleval.go (andExpression).Evaluate, (orExpression).Evaluate, (xorExpression).Evaluate, (notExpression).Evaluate")],
  note="Every obligation of the four evaluators is discharged; De Morgan, commutativity and the identities are proved as a lemma over the specification.",
  theorems=("logicLaws",))

p("C07", "List operators stay inside the list and treat null uniformly",
  "list[i] is the i-th element, counted from the end for negative i, and null when outside the list; list[a..b] is the elements from a up to but excluding b clamped to the list, either bound may be omitted; x IN list is true if some element equals x, otherwise null if x or an element is null, otherwise false. Null operands give null, IS NULL and IS NOT NULL give true or false for every value, operands of a wrong type are errors, and nothing panics.",
  OPERANDS, "every list, every index and bound, every chain of such operators",
  "Index arithmetic has boundary cases on both sides of zero and of the length; tests cover one positive index.",
  "eval.go", [("operator application", "eval.go (stringListNullOperatorExpressionPart).evaluate"), ("left fold over the operators", "eval.go (stringListNullOperatorExpression).Evaluate")],
  note="Every obligation of the operator application and of the fold over the operators is discharged for all lists, indices and bounds.")

p("C08", "String operators and functions compute their definition, null for null",
  "STARTS WITH, ENDS WITH and CONTAINS decide prefix, suffix and containment; left, right and substring give exactly the named part of the string for every offset and length (what lies outside the string is left out, a negative length of left and right counts as zero and one of substring gives null), trim, ltrim and rtrim strip white space at both ends, the start, or the end, split gives the parts between the separators, size the length. A null argument gives null, a wrong type is an error (size gives null), and no argument panics.",
  "inputs", "every string, every offset and length, every argument type",
  "Offsets and lengths interact with the length of the string at four boundaries; tests use one call per function or none.",
  "eval.go stringfuncs.go", [("string operators", "eval.go (stringOperatorExpression).evaluate"), ("string functions", "stringfuncs.go")],
  note="Every obligation of the eight functions and of the string operators is discharged for all argument values; strings.Split, TrimSpace and the Trim functions of the standard library are shared with the contracts.")

p("C09", "Conversions return the converted value or refuse, never something else",
  "toInteger converts integers, floats (towards zero), booleans and decimal strings, and toFloat integers, floats and numeric strings, to the number they denote, and both give null for null; their OrNull variants give null wherever the plain ones cannot convert. What cannot be converted is an error, and no input panics.",
  "inputs", "every argument value", "Each function is a type dispatch whose branches are not all reached by tests.",
  "scalarfuncs.go value.go", [("conversions", "scalarfuncs.go toIntegerFunc, toIntegerOrNullFunc, toFloatFunc, toFloatOrNullFunc")],
  note="Every obligation of the four functions is discharged for all argument values; strconv.Atoi and ParseFloat are shared with the contracts.")

p("C10", "range() lists exactly the arithmetic progression and terminates",
  "range(start, end[, step]) is the list start, start+step, … of the values before end (end excluded), empty when the step leads away from end, for every step including negative ones. A step of zero gives the empty list, non-integer arguments are errors, and the call terminates for every argument including the extreme integers.",
  "inputs", "every start, end and step", "Termination and the progression are statements about all integers, including those whose successor overflows.",
  "functions.go", [("progression loop", "functions.go rangeFunc")], note="The progression is the loop invariant, and termination has a measure; all obligations are discharged for all integers.")

p("C11", "UNION returns each distinct row once, UNION ALL every row",
  "The rows of q1 UNION ALL q2 are the rows of q1 followed by those of q2; the rows of q1 UNION q2 are the distinct ones among them in order of first occurrence, where two rows are the same when they hold the same columns with the same values (null being the same as null). Combining rows never changes the results it was given, and value sameness looks at every element of lists, maps, paths and sets.",
  "inputs,programs", "every pair of results, every pair of values", "Deduplication is a statement about all pairs of rows; the only test has two rows.",
  "resultset.go value.go eval.go", [("append with deduplication", "resultset.go (*ResultSet).Union, Append, find"), ("value sameness", "value.go IsValueSame"), ("query union", "eval.go (regularQuery).Evaluate")],
  note="Every obligation of the sameness of values, the search for a row and the union of two result sets is discharged for all values and rows (union and search as recursive specifications over row sequences). So is the combination of the queries' results (regularQuery.Evaluate), each query in its own scope, for any number of queries.")

p("C12", "RETURN projects every row, and SKIP and LIMIT select exactly the rows they name",
  "Every row of the input gives one row holding each returned item's value under its alias (or its position), evaluated with that row's variables; RETURN * keeps the variables of the row. SKIP s LIMIT l keeps exactly rows s … s+l-1 of them, in order, including when s or l are zero or larger than the number of rows, and bounds that are not integers are refused.",
  "inputs,programs", "every result set, every list of items, every s and l",
  "Boundaries of s and l against the number of rows are untested.",
  "eval.go", [("projection", "eval.go (projectionItems).Project"), ("skip and limit", "eval.go (singlePartQuery).Evaluate")],
  note="The whole single query (reading clauses, updating clauses, RETURN with SKIP and LIMIT, errors at every point) is discharged against its recursive definition for all result sets and all bounds, as are the projection of one row, the names of the columns and the translation of RETURN from the parse tree. That a row a reading clause adds keeps the values of the row it extends is covered by replay only.")

p("C13", "Variables and parameters resolve to their nearest binding",
  "A variable evaluates to the value bound to it in the innermost scope that binds it, and a parameter to the value set for it in the innermost context that sets it; an unbound variable, an unknown parameter and an unknown function are errors naming it. Binding or removing a variable changes that scope only: enclosing contexts, siblings and other variables keep their values.",
  "inputs,histories", "every nesting of contexts, every sequence of bindings and lookups",
  "The tests never nest contexts with the same name bound twice.",
  "ctx.go eval.go", [("scope chain lookup", "ctx.go (*EvalContext).GetVar, GetParameter, getFunction"), ("binding", "ctx.go SetVar, SetVars, RemoveVar, SubContext")], note="Lookups are proved against the recursive definition over the chain of scopes, bindings against a frame over every other name; the chain of scopes is assumed to be finite.")

p("C14", "CASE takes the first alternative that applies",
  "A simple CASE gives the result of the first WHEN whose value equals the tested value (null equals nothing), a searched CASE the result of the first WHEN that is true (null counts as not true), else the ELSE result, else null. Later alternatives and untaken results are not evaluated, and an error in what is evaluated is an error of the CASE.",
  OPERANDS, "every number of alternatives, every operand value", "The test has one literal CASE of each form.",
  "eval.go", [("alternatives loop", "eval.go (caseClause).Evaluate")], note="Every obligation of the evaluator is discharged for any number of alternatives and all operand values.")

p("C15", "Evaluating an expression again gives what evaluating it the first time would",
  "A parsed expression may be evaluated any number of times with different parameters and variables, and each evaluation gives the result a freshly parsed copy would give: remembering constant results is never observable. A result is remembered only if every operand is constant, and handing out a remembered list or map never lets a later evaluation change it.",
  "histories,inputs", "every expression, every sequence of evaluations in different contexts",
  "Every test parses its expression anew and evaluates it once.",
  "arithmeticeval.go literal.go eval.go", [("memoised constants", "constValue fields: arithmeticeval.go, literal.go; functionInvocation args in eval.go")],
  state=[("constValue", "the remembered result of a constant expression", "arithmeticeval.go, literal.go")],
  note="The memo invariant (a remembered value equals the value in every context) is proved for the multiplicative, additive, power and unary evaluators, and constness of results for all of them.")

p("C16", "Escaped strings, labels and property keys read back as themselves",
  "For every string s, the escaped form of s as a string literal parses and evaluates to s, and the escaped form of s as a label or property key (backticks doubled) names exactly s; escape sequences in string literals denote the characters they stand for. Labels, types and property keys keep the letters and case they were written with, even when they spell a reserved word.",
  "inputs", "every string", "Round trip over all strings, including quotes, backslashes, backticks and reserved words; tests use plain words.",
  "literal.go ast.go", [("escaping", "literal.go EscapeStringLiteral, EscapeLabelLiteral, EscapePropertyKeyLiteral"), ("reading", "literal.go unescapeStringLiteral; ast.go oC_SymbolicName, oC_SchemaName")],
  note="Escaping and unescaping are discharged character by character against recursive definitions for every string, and the translation of names, labels, keys and string literals for every parse tree; that the two definitions are inverse, and that the lexer cuts the text at the quotes, is covered by replay (bounded).")

p("C17", "Every expression is evaluated with the grammar's operators, precedence and order",
  "The text of an expression evaluates to the value of its parse tree: OR binds weaker than XOR, AND, NOT, comparison, + and -, * / and %, ^, and unary signs in this order, binary operators of one level group from the left, parentheses override, and each written operator symbol is the operator applied. No operand is dropped, duplicated or reordered. A text with a character that belongs to no symbol of the language is refused, not evaluated without it.",
  "programs,inputs", "every expression over the literals and operators", "The tests evaluate a dozen expressions; misplaced operators show only for operand values that distinguish them.",
  "ast.go lang.go", [("translation of parse trees", "ast.go oC_OrExpression … oC_Atom"), ("parsing", "lang.go Parse")],
  note="The translation of every level of the expression grammar is discharged for all parse trees (operands and operators in order, none dropped); the parse tree itself is built by generated ANTLR code, which is covered by replay of generated expressions only (bounded). Unary signs are discharged up to three nestings.")

p("C18", "A function call passes its arguments in order and checks their number",
  "f(a1, …, an) evaluates a1 … an in order in the current context and applies the function registered under that (case-sensitive, dotted) name to exactly these values; the first failing argument is the error of the call. A call with fewer or more arguments than the function takes is refused, as is an unknown function.",
  "inputs,programs", "every function, every argument list", "Arity boundaries are not tested for any function.",
  "eval.go functions.go ctx.go", [("invocation", "eval.go (*functionInvocation).Evaluate")], note="Every obligation of the call and of the function lookup is discharged for any number of arguments, including the remembered constant arguments.")

p("C19", "Literals denote their values",
  "Integer literals (decimal, hexadecimal, octal), floating point, string, boolean, null, list and map literals evaluate to the value they denote, a list to its elements in order and a map to exactly its keys with their values; property access on a node or edge gives the property's value or null, on null gives null, and on anything else fails.",
  "inputs,programs", "every literal", "A few literals are tested; nested and mixed constant ones are not.",
  "literal.go ast.go eval.go", [("literals", "literal.go"), ("number syntax", "ast.go oC_IntegerLiteral, oC_DoubleLiteral")], note="Every obligation of the literal evaluators, of property access and of the conversion of native values is discharged; so is the translation of the number, boolean, string, list and map syntax, over strconv.")

p("C20", "SET changes exactly the properties and labels it names, on every row",
  "After SET, on every row each assigned node property, map or label set holds the assigned value (null removes the property, = replaces all properties, += adds to them, labels are added), and nothing else in the graph has changed. Assignments take effect in the order written and each row's expressions are evaluated with that row's variables. Whatever cannot be assigned to (a non-node, a computed value) is refused with an error.",
  "inputs,programs,histories", "every graph, every result set, every list of assignments", "The tests set one property on one node.",
  "update.go value.go", [("assignment", "update.go (*set).Update, (*setItem).update"), ("property setter", "eval.go propertyExpression")], note="Every obligation of the SET clause (order of rows and assignments, scope, errors) and of one assignment (the whole property map and label set of every node) is discharged for all graphs, over assumed contracts of the lpg node accessors; the setter closure that property access hands out is covered by the replay harness only (bounded).")

p("C21", "REMOVE removes exactly the properties and labels it names",
  "After REMOVE, on every row the named properties and labels are gone from the named nodes and everything else in the graph is unchanged; removing what is not there, or from null, changes nothing. Each row's items are handled in the order written with that row's variables, and removing from what is not a node is refused with an error.",
  "inputs,programs", "every graph and result set", "One property and one label are tested.",
  "update.go", [("removal", "update.go (remove).Update")], note="Every obligation of the REMOVE clause is discharged for all rows, items and graphs, over assumed contracts of the lpg node accessors; the setter closure that property access hands out is covered by the replay harness only (bounded).")

p("C22", "DELETE removes exactly the named elements, once, or nothing",
  "DELETE removes each node, and each edge of each path, that an expression gives for some row, exactly once however often it occurs, DETACH DELETE also removes a node's other edges, and no other element is touched; deleting null does nothing. Without DETACH, if a named node has an edge that is not deleted too, the query fails; whenever DELETE fails the graph is unchanged.",
  "inputs,programs,fault_sequences", "every graph, every result set", "One node is deleted in the tests; duplicates and failures half way are not.",
  "update.go", [("deletion", "update.go (deleteClause).Update")], note="Every obligation of (deleteClause).Update is discharged for every list of rows and expressions: which nodes and edges are removed, how often, the refusal of attached nodes, errors, and that a failure removes nothing. That it is not refused without a reason is checked by generated queries (bounded); lpg's removal itself is assumed to do what its models say.")

p("C23", "CREATE adds exactly the pattern, once per row",
  "For each row CREATE adds the nodes and edges of its patterns that are not bound already, with exactly the labels, type, direction and property values written, evaluated with that row's variables; bound variables are reused, new ones are bound to what was created, and existing elements are unchanged.",
  "inputs,programs", "every pattern, graph and result set", "The tests create two or three nodes on an empty graph.",
  "update.go patterneval.go", [("creation", "update.go (create).Update, (PatternPart).Create, (nodePattern).Create, (relationshipPattern).Create")], note="Every obligation of the CREATE clause (order of rows and patterns, scope, variables that pass into the rows, errors) and of the creation of one node, edge, path and pattern (labels, type, direction, properties, reuse of bound variables, new variables) is discharged; lpg itself is assumed to do what its models say, and generated queries exercise it.")

p("C24", "MERGE creates its pattern exactly when nothing matches",
  "MERGE leaves the graph unchanged and binds every match when its pattern matches, and otherwise creates the pattern once; ON CREATE actions run exactly when it created, ON MATCH actions exactly when it matched, for every row. Merging the same pattern again creates nothing.",
  "inputs,programs,histories", "every pattern and graph", "Idempotence over all graphs and patterns cannot be sampled.",
  "update.go", [("merge", "update.go (merge).doMerge, processActions, Update, TopLevelUpdate")], note="Every obligation of merging for one row (create exactly when nothing is found, the variables of what was created), of the actions, and of the clause over all rows (order, scope of each row, every row and column of the result) is discharged; the search for the pattern is lpg, and its translation is C25's; generated queries compare the whole with a model of the graph (bounded).")

p("C25", "MATCH returns the assignments that satisfy its pattern and WHERE only",
  "Every row of a MATCH binds the pattern's variables to elements with the labels, types, direction, hop counts and property values written, and satisfies WHERE (null counts as not satisfied); every such assignment is returned once. Variables bound by earlier clauses keep their element. A pattern expression (ParsePatternExpr, FindRelative) reaches exactly the nodes that the matches of the pattern from this node bind to target.",
  "inputs,programs", "every graph and pattern of the supported forms", "The tests match two patterns on one graph.",
  "patterneval.go eval.go", [("pattern translation", "patterneval.go (PatternPart).getPattern, nodePattern, relationshipPattern"), ("row filter", "patterneval.go (Match).GetResults")], note="Every obligation of the translation of a pattern (labels, types, direction, hop counts, property values, symbols of bound and unbound variables, order of the items) and of binding the matches is discharged; the graph search itself is lpg (assumed, and exercised by generated queries), and the recursion over the parts with the WHERE filter is covered by generated queries only (bounded).")

p("C26", "The cartesian product pairs every row with every row",
  "Combining result sets visits each combination of one row from each exactly once, with the columns of all of them and the rows of the first set varying fastest, keeps those the filter accepts, and terminates for every number and size of result sets. An empty result set makes the product empty, or, in the keep-all mode, contributes nothing.",
  "inputs", "every list of result sets, every filter", "One two-by-two product is tested; zero rows and three sets are the cases with termination conditions.",
  "resultset.go", [("odometer", "resultset.go CartesianProduct, (ResultSet).CartesianProduct")], claimed=False, na="The product advances a mixed-radix counter held in a mutable slice inside a loop that has no counter of its own, and hands freshly built maps to a function value. The contracts of this engine can neither name the contents of a map passed to a function value nor express the position the digits of the counter stand for (a non-linear sum over the sizes of all sets), so no contract within reach decides order and exactly-once; generated probes compare the product with nested loops whenever the harness runs, which is not proof and not claimed.")

p("C27", "Rows flow between clauses unchanged",
  "Each reading clause extends every row of the clauses before it, and each updating clause sees the rows of the clauses before it; adding to a result set keeps the rows already there and puts the new ones behind them in their order.",
  "inputs,programs,histories", "every sequence of clauses and rows", "Multi-clause queries with several rows are untested.",
  "eval.go resultset.go", [("clause loop", "eval.go (singlePartQuery).Evaluate"), ("append", "resultset.go (*ResultSet).Append")], note="Every obligation of appending and adding to a result set, of the rows of the CREATE and MERGE clauses, of the clause loop of a single query (reading clauses joined row by row in order, then updating clauses, then RETURN) and of the translation of the clauses from the parse tree is discharged. That a row a reading clause adds keeps the values of the row it extends is covered by generated queries only (bounded).")

p("C28", "Every text is parsed or refused with an error",
  "For every input text, parsing returns either a query or an error and never panics, and texts that are not Cypher are refused.",
  "inputs", "every text", "All texts.", "lang.go", [("parser", "lang.go Parse, GetParser; parser/ generated by ANTLR")],
  claimed=False, na="The deciding code is the ANTLR runtime interpreting a serialised automaton (tables in generated code and reflection-heavy runtime outside /repo); no contract on functions of /repo can express which texts that automaton accepts, and the deductive verifier cannot reach it.")

p("C29", "A parsed query may be evaluated by several goroutines",
  "Concurrent evaluations of one parsed query with separate contexts give the results they would give alone.",
  "schedules", "every interleaving", "No test is concurrent.", "arithmeticeval.go literal.go eval.go", [("memoised constants are written without synchronisation", "constValue fields")],
  claimed=False, na="The repository makes no concurrency claim and its evaluators write memo fields without synchronisation (a data race by design); the verifier is sequential, so it cannot decide this, and the property does not hold in the Go memory model.")

p("C30", "Pattern search is complete",
  "The graph pattern search finds every occurrence of a pattern in a graph.",
  "inputs", "every graph", "All graphs.", "patterneval.go", [("search", "github.com/cloudprivacylabs/lpg/v2 Pattern.Run")],
  claimed=False, na="The search is implemented in the dependency lpg, not in /repo; its contract is assumed here (C25 covers what this repository does with it).")
