#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
S="symbolic/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

ALLX=[S+f for f in ["constant.go","variable.go","monomial.go","polynomial.go","constant_vector.go","variable_vector.go","monomial_vector.go","polynomial_vector.go","constant_matrix.go","variable_matrix.go","monomial_matrix.go","polynomial_matrix.go"]]
TYPES="constants, variables, monomials and polynomials, alone or in vectors and matrices, and the gonum vectors, gonum matrices, ints and floats accepted in their place"

p("C01","Addition is exact polynomial addition for every kind of operand",
 "For any two expressions (or an expression and a plain Go or gonum number, vector or matrix) whose sum is defined and supported, the result of adding them has the right dimensions and every entry equals the sum of the corresponding entries as polynomials, with a scalar (or a one-entry expression) spread over every entry of the other operand. Addition therefore commutes, associates and has zero as identity, whatever concrete kinds the operands have and however their terms or variable orders are written. An addition that is accepted never drops, duplicates or merges terms that are not like terms.",
 ["inputs"],"all pairs of operands drawn from "+TYPES+", in every supported shape combination",
 "Each test adds one or two fixed expressions and usually asserts on the number of monomials or on one coefficient; the operand-type x operand-type x shape matrix has hundreds of cells and each one quantifies over all coefficient and exponent patterns.",
 ALLX+[S+"matrix_expression.go",S+"vector_expression.go"],
 [("Plus implementations and their type switches","symbolic/*.go: func (…) Plus"),("shared addition templates","symbolic/vector_expression.go, symbolic/matrix_expression.go"),("like-term recognition","symbolic/monomial.go: MatchesFormOf; symbolic/polynomial.go: MonomialIndex")],
 observe=["Expression.Plus"])
p("C02","Subtraction is exact polynomial subtraction and inverts addition",
 "For any two operands whose difference is defined and supported, subtracting gives, entry by entry, exactly the polynomial difference of the operands; subtracting an expression from itself gives zero and adding back what was subtracted gives the original. This holds both for the method on expressions and for the package-level subtraction helper, for every operand kind and for the scalar-spreading cases.",
 ["inputs"],"all pairs of operands drawn from "+TYPES,
 "Tests check a handful of pairs by coefficient; sign errors or operand swaps in one type-switch arm need the particular type pair, and cancellation errors need matching terms.",
 ALLX+[S+"expression.go"],
 [("Minus implementations, mostly negate-and-add","symbolic/*.go: func (…) Minus; symbolic/expression.go: Minus")],observe=["Expression.Minus","symbolic.Minus"])
p("C03","Multiplication is exact polynomial and matrix multiplication",
 "For any two operands whose product is defined and supported, the result has the dimensions of the product and its entries are exactly the polynomials given by scalar scaling, the inner product of a row with a column, or the matrix product, as the operand dimensions dictate. Consequently multiplication distributes over addition, scalar products commute, products associate where defined, and one and the identity matrix are neutral.",
 ["inputs"],"all pairs of operands drawn from "+TYPES+", over scalar-scalar, scalar-vector, scalar-matrix, row-column, matrix-vector and matrix-matrix shapes",
 "Tests multiply fixed small operands, mostly asserting on types or term counts; index mix-ups, lost cross terms and wrong exponent merging depend on the particular shapes, shared variables and coefficient patterns.",
 ALLX+[S+"matrix_expression.go",S+"vector_expression.go"],
 [("Multiply implementations","symbolic/*.go: func (…) Multiply"),("shared product templates","symbolic/matrix_expression.go: MatrixMultiplyTemplate; symbolic/vector_expression.go: VectorMultiplyTemplate"),("exponent merging","symbolic/monomial.go: Multiply")],observe=["Expression.Multiply"])
p("C04","Powers equal repeated multiplication",
 "Raising a scalar expression or a square matrix to a non-negative integer power that is supported gives exactly the product of that many copies of it, with the zeroth power being one or the identity. Powers therefore satisfy the exponent addition and multiplication laws.",
 ["inputs"],"all scalar expressions and square matrices of every kind, exponents 0..6 (monomials and variables up to 40)",
 "Tests raise a few fixed expressions to one fixed exponent each; off-by-one exponent handling and loss of cross terms depend on the exponent and on the number of terms.",
 ALLX+[S+"matrix_expression.go",S+"scalar_expression.go",S+"vector_expression.go"],
 [("power templates","symbolic/scalar_expression.go: ScalarPowerTemplate; symbolic/matrix_expression.go: MatrixPowerTemplate; symbolic/vector_expression.go: VectorPowerTemplate"),("closed-form powers","symbolic/monomial.go: Power; symbolic/variable.go: Power; symbolic/constant.go: Power")],observe=["Expression.Power"])
p("C05","Differentiation is the exact partial derivative",
 "Differentiating any expression with respect to any variable gives, entry by entry, exactly the formal partial derivative of the polynomial it denotes, with the same dimensions as the expression (and zero when the variable does not occur). Hence differentiation is linear, obeys the product rule and mixed partial derivatives commute.",
 ["inputs"],"all expressions of every kind and shape, all variables occurring or not occurring in them, repeated differentiation up to exhaustion of the degree",
 "Tests differentiate a few fixed monomials and polynomials; errors show only at particular exponents, variable positions, repeated terms or after differentiating more than once.",
 ALLX,[("DerivativeWrt implementations","symbolic/*.go: func (…) DerivativeWrt")],observe=["Expression.DerivativeWrt"])
p("C06","Substituting one variable is exact polynomial composition",
 "Replacing a variable by any scalar expression gives, entry by entry, exactly the polynomial composition: every occurrence, at every exponent and in every term and entry, is replaced, nothing else changes, and the replacement may itself mention the replaced variable. Substituting a variable for itself, or a variable that does not occur, leaves the value unchanged, and evaluating after substitution agrees with substituting the evaluated replacement.",
 ["inputs"],"all expressions of every kind and shape, any variable, any scalar replacement (constant, variable, monomial, polynomial)",
 "Tests substitute into a handful of fixed expressions; skipping a term, mishandling an exponent above one, or a replacement sharing variables with the rest of the expression needs particular inputs.",
 ALLX+[S+"vector_expression.go",S+"matrix_expression.go"],
 [("Substitute implementations","symbolic/*.go: func (…) Substitute"),("shared substitution templates","symbolic/vector_expression.go: VectorSubstituteTemplate; symbolic/matrix_expression.go: MatrixSubstituteTemplate")],observe=["Expression.Substitute"])
p("C07","Substituting a map of variables is simultaneous and deterministic",
 "Substituting according to a map from variables to scalar expressions replaces all of the mapped variables simultaneously: replacements are never themselves substituted into, so swaps and cycles work, and the result is exactly the polynomial composition. The result is the same on every run regardless of map iteration order, is the same for an entry alone or inside a vector or matrix, and agrees with single-variable substitution when the map has one entry; a variable is recognised even after the caller gave it another name, type or bounds.",
 ["inputs","histories"],"all expressions of every kind and shape, all maps of up to 4 variables including swaps, cycles, overlapping replacements and variables that do not occur",
 "Tests use maps whose replacements are constants or do not overlap with the mapped variables, and one execution samples one map iteration order.",
 ALLX,[("SubstituteAccordingTo implementations","symbolic/*.go: func (…) SubstituteAccordingTo"),("map validation","symbolic/utils.go: CheckSubstitutionMap")],observe=["Expression.SubstituteAccordingTo"])
p("C08","Simplification preserves value and reaches a canonical minimal form",
 "Simplifying any expression, or concretizing a collection of scalar expressions, denotes exactly the same polynomials with the same dimensions, however unsimplified the input is (duplicate terms, permuted variable orders, zero coefficients, terms that cancel). After simplification no two terms have the same variables and exponents, no term of a multi-term sum is zero, and simplifying again changes nothing. Expressions denoting the same polynomial simplify to forms with the same terms.",
 ["inputs"],"all scalar, vector and matrix expressions, including raw polynomials with arbitrary duplicate, permuted, cancelling and zero terms",
 "Tests simplify a few hand-written polynomials; merging must be right for every pair of terms, in every order, with any number of duplicates.",
 [S+"polynomial.go",S+"monomial.go",S+"polynomial_vector.go",S+"polynomial_matrix.go",S+"expression.go",S+"vector_expression.go",S+"matrix_expression.go",S+"scalar_expression.go"],
 [("like-term merging and zero removal","symbolic/polynomial.go: Simplify"),("choice of the most concrete representation","symbolic/expression.go: ConcretizeExpression; AsSimplifiedExpression implementations")],
 observe=["Expression.AsSimplifiedExpression","Polynomial.Simplify","ConcretizeExpression"])
p("C09","Operations never change their operands or earlier results",
 "Expressions behave as immutable values: no operation on an expression or constraint (arithmetic, comparison, differentiation, substitution, simplification, printing, inspection, conversion, indexing, rewriting), whether it succeeds or is rejected, changes the value of any operand, of any slice, map or gonum object passed in, or of any result obtained earlier. This holds over arbitrary histories of operations in which results are reused as operands and in which operands share underlying storage. A copy documented as a copy can be modified without affecting the original and vice versa. What the caller does later to gonum objects, operand slices, lists of variables or identifiers and substitution maps that went into or came out of a call changes no other value and no later answer.",
 ["inputs","histories"],"all sequences of operations over a pool of expressions, constraints, gonum objects, maps and slices, with results fed back in and with storage shared between operands",
 "A test that looks at an operand after the call does so for one operation on one value; aliasing shows only when a specific type pair shares a backing array with spare capacity or when results are reused later.",
 ALLX+[S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"vector_expression.go",S+"matrix_expression.go",S+"utils.go"],
 [("defensive copies before writes","symbolic/monomial.go: Copy; symbolic/polynomial.go: Copy; symbolic/variable_vector.go: Copy"),("append/assign discipline in every operation","symbolic/*.go")],
 state=[("term storage","exponent, factor and monomial slices held by value types","symbolic/monomial.go: Monomial; symbolic/polynomial.go: Polynomial")])
p("C10","Indexing, transposing and stacking move entries exactly",
 "Reading an entry returns exactly the scalar stored at that row and column, transposition moves entry (i,j) to (j,i) and is an involution, and horizontal and vertical stacking place every block's entries in order with the combined dimensions. Assembling scalars into a vector or matrix keeps every entry at its position, and listing the entries of a vector returns them in order. None of these changes any entry's value.",
 ["inputs"],"all expressions of every kind and shape, all blocks with conforming dimensions (1..4 blocks, mixed kinds, scalars and 1xn/nx1 shapes included)",
 "Tests stack or transpose one or two fixed shapes; row/column swaps are invisible on square or single-kind inputs and offsets depend on the number and sizes of blocks.",
 ALLX+[S+"expression.go",S+"vector_expression.go",S+"matrix_expression.go"],
 [("At/AtVec/Transpose","symbolic/*.go"),("stacking","symbolic/expression.go: HStack, VStack"),("assembly","symbolic/vector_expression.go: ConcretizeVectorExpression; symbolic/matrix_expression.go: ConcretizeMatrixExpression")],
 observe=["Expression.At","AtVec","Transpose","HStack","VStack","ConcretizeExpression","ToScalarExpressions"])
p("C11","Variables, degree and linear/quadratic classification are exact",
 "For a simplified expression of any kind the reported variables are exactly the variables occurring in it, each listed once, and the reported number of variables and identifier list agree with that. The reported degree is exactly the largest total degree over its terms and entries, and an expression is reported linear (quadratic) exactly when that degree is at most one (two). An expression is reported constant exactly when no variable occurs in any of its entries (a vector or matrix is never reported constant when one entry varies). For unsimplified expressions no occurring variable is missed and the degree is never below the true one.",
 ["inputs"],"all expressions of every kind and shape, simplified or raw",
 "Tests list variables of fixed expressions; duplicates and omissions depend on which variables are shared between which terms and entries.",
 ALLX+[S+"expression.go",S+"variable.go"],
 [("Variables/Degree implementations","symbolic/*.go"),("de-duplication","symbolic/variable.go: UniqueVars"),("classification","symbolic/expression.go: IsLinear, IsQuadratic")],
 observe=["Variables","NumVariables","VariableIDs","Degree","IsLinear","IsQuadratic","IsConstant","IsConstantVector"])
p("C12","Constant parts and linear coefficients are extracted exactly",
 "The constant part of an expression equals the value of each entry when all variables are zero, and the linear coefficients with respect to a list of variables equal, entry by entry and in the order of that list, the coefficient of the degree-one term of each variable. For an affine expression, the constant plus the coefficients applied to its variables reconstructs the expression exactly; without an explicit list the expression's own variables are used in the order it reports them.",
 ["inputs"],"all scalar, vector and matrix expressions offering these operations, all duplicate-free variable lists (permuted, with absent variables, subsets)",
 "Tests use two or three variables in creation order; coefficient placement errors show only under permuted lists, absent variables or particular entry kinds.",
 ALLX+[S+"polynomial_like_vector.go"],
 [("Constant and LinearCoeff implementations","symbolic/*.go"),("shared vector computation","symbolic/polynomial_like_vector.go: PolynomialLikeVector_SharedLinearCoeffCalc")],
 observe=["Constant","LinearCoeff"])
p("C13","Constraints record exactly the comparison that was written",
 "Comparing two expressions produces a constraint whose left side, right side and direction are exactly those written, with the operands' values unchanged and a scalar operand compared against every entry of the other side. The (i,j)-th element of a vector or matrix constraint is the scalar constraint between the corresponding entries with the same direction. Flattening any list of constraints yields exactly one scalar constraint for every entry of every constraint, in order, with nothing lost, duplicated or altered.",
 ["inputs"],"all supported operand pairs and the three directions; lists of 0..6 scalar, vector and matrix constraints of all shapes",
 "Tests compile one fixed list and compare a few types; a swapped side, a lost entry or a changed direction in one operand-type arm is invisible to them.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"constraint.go",S+"constr_sense.go"]+ALLX,
 [("Comparison/LessEq/GreaterEq/Eq implementations","symbolic/*.go"),("entry constraints","symbolic/vector_constraint.go: AtVec; symbolic/matrix_constraint.go: At"),("flattening","symbolic/constraint.go: CompileConstraintsIntoScalarConstraints")],
 observe=["LessEq","GreaterEq","Eq","Comparison","AtVec","At","CompileConstraintsIntoScalarConstraints"])
p("C14","Rewriting a constraint preserves exactly the points that satisfy it",
 "Simplifying a constraint, or scaling a scalar constraint by any non-zero number, yields a constraint satisfied by exactly the same points; scaling by a negative number reverses the direction of an inequality. Substituting into a constraint, one variable or simultaneously through a map, yields a constraint that a point satisfies exactly when the point with the replacements evaluated satisfies the original. The variables, linearity and dimensions a constraint reports are those of its two sides.",
 ["inputs"],"all scalar, vector and matrix constraints over all operand kinds and directions, all non-zero scale factors, all substitutions",
 "Tests simplify and scale a few fixed constraints and assert on the form; dropping a term or a direction flip only changes satisfaction for particular sides and points.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"constraint.go"],
 [("rewriting","Simplify, AsSimplifiedConstraint, ScaleBy, Substitute, SubstituteAccordingTo in symbolic/*_constraint.go")],
 observe=["Simplify","AsSimplifiedConstraint","ScaleBy","Substitute","SubstituteAccordingTo","Variables","IsLinear","Dims"])
p("C15","Linear matrix representations describe the same half-spaces and hyperplanes",
 "For every linear inequality constraint, scalar or vector and in either direction, the returned coefficients A and offset b satisfy: a point satisfies the constraint exactly when A times the point is at most b, row by row. For every linear equality constraint the returned C and d satisfy the same with equality. Coefficients follow the order of the variable list that was passed, or of the constraint's own variables when none is passed.",
 ["inputs"],"all linear scalar and vector constraints over every operand kind on each side, all directions, all variable lists covering (and possibly permuting or extending) the constraint's variables",
 "Tests convert a few fixed constraints; sign errors depend on the direction, on which side holds the variables, and on constants being present on both sides.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"polynomial_like_vector.go"],
 [("representations","symbolic/scalar_constraint.go and symbolic/vector_constraint.go: LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation")],
 observe=["LinearInequalityConstraintRepresentation","LinearEqualityConstraintRepresentation"])
p("C16","Constraint implication and nonnegativity recognition are sound",
 "If one constraint is reported to imply another, every point satisfying the first satisfies the second; an unconditional implication is never claimed when a counterexample exists. For two linear constraints (inequalities or equalities) on the same single variable the answer is exact whichever way the constraints are written (either side, any non-zero coefficient, constants anywhere). A vector or matrix constraint is reported to imply a single-variable linear constraint whenever one of its entries does. A constraint is reported to be a nonnegativity constraint exactly when it says that some single variable is at least zero.",
 ["inputs"],"all pairs of scalar, vector and matrix constraints, with emphasis on single-variable linear pairs with equal or adjacent bounds, all directions, coefficient signs and side placements",
 "Tests cover a table of hand-picked pairs with constants on the right; unsoundness appears for constants on the left, negative coefficients, several variables or nonlinear sides.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],
 [("implication test","ImpliesThisIsAlsoSatisfied in symbolic/*_constraint.go"),("nonnegativity test","symbolic/scalar_constraint.go: IsNonnegativityConstraint")],
 observe=["ImpliesThisIsAlsoSatisfied","IsNonnegativityConstraint"])
p("C17","Variables created or tracked in an environment are always distinguishable",
 "Over any history of creating scalar, vector, matrix, continuous and binary variables and of registering existing variables, every newly created variable has an identifier different from all variables its environment already tracks, and is tracked exactly once from then on. Created variables are well-formed, belong to the environment they were created in, have the bounds and kind that were asked for, and creation in one environment never affects another. Registering an already known variable changes nothing and says so. The list of tracked variables an environment hands out belongs to the caller: changing or extending it changes no environment, and later creations do not change it.",
 ["histories"],"all interleavings of creation calls (all constructors, sizes 0..4) and registration calls over several environments, including the default one",
 "Tests create variables in one or two environments in a fixed order; identifier collisions need a history mixing registration of foreign variables with creation.",
 [S+"basic_environment.go",S+"environment.go",S+"variable.go",S+"variable_vector.go",S+"variable_matrix.go"],
 [("identifier assignment","symbolic/variable.go: NewVariable, NewContinuousVariable, NewBinaryVariable"),("registration","symbolic/basic_environment.go: TrackVariable")],
 state=[("tracked variables","the list an environment keeps of its variables","symbolic/basic_environment.go: BasicEnvironment.Variables")],
 observe=["NewVariable…","TrackVariable","AllTrackedVariables"])
p("C18","Ill-formed requests are rejected, never answered with a wrong value",
 "An operation whose operands do not conform (mismatched dimensions in sums, differences, products, comparisons or stacking, a non-square power), a malformed operand anywhere in a call, an out-of-range index, a negative exponent, an unknown comparison direction, a non-scalar substitution value or an unsupported operand type is always rejected by a panic or a returned error, for every kind of operand. The rejection of a dimension mismatch identifies the offending dimensions. Well-formedness checks accept every well-formed expression and constraint and reject every malformed one.",
 ["inputs"],"all operations x operand kinds x non-conforming shapes, malformed monomials, polynomials, variables, vectors, matrices and constraints, out-of-range indices on each side, negative exponents",
 "Tests try one mismatch per method; a missing validation in one type-switch arm silently returns a wrong-shaped result for that operand pair only.",
 ALLX+["smErrors/matrix_dimension.go",S+"utils.go",S+"constr_sense.go",S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],
 [("operand validation at the head of each operation","symbolic/*.go"),("dimension checks","smErrors: CheckDimensionsIn*, CheckIndexOn*"),("well-formedness","Check methods")],
 observe=["panics and returned errors"])
p("C19","Printed expressions read back as the same polynomials",
 "The string form of any well-formed expression, read with the usual rules (coefficients, named variables, exponents, sums, and bracketed vectors and matrices), denotes the same polynomial in every entry as the expression itself, up to the printed precision. A printed constraint contains both sides in that form around the symbol of its direction. Printing is deterministic.",
 ["inputs"],"all expressions of every kind and shape with distinct variable names, all scalar constraints",
 "Tests look for substrings in the output of fixed expressions; a lost sign, coefficient, exponent or entry in one formatting branch is not visible to them.",
 ALLX+[S+"constr_sense.go",S+"scalar_constraint.go"],
 [("String implementations","symbolic/*.go")],observe=["String"])
p("C20","Conversions between representations preserve value and shape",
 "Converting between representations (numbers, slices, gonum vectors and matrices, constant, variable, monomial and polynomial forms, and the classification interfaces) preserves every entry and the dimensions, in both directions where an inverse exists. The predicates that say whether a value is an expression of some class agree with the corresponding conversions, which succeed exactly when the predicate holds. Using a gonum object or plain number as operand gives the same result as using the converted expression, and the same value held in a richer representation behaves identically in arithmetic, substitution and differentiation.",
 ["inputs"],"all values convertible between the representations (including gonum views with strides, pointers and non-pointers), all pairs of equivalent representations under the shared operations",
 "Tests convert one fixed value per function; strided or transposed gonum data and the cross-representation agreement are not sampled.",
 ALLX+["get/KMatrix/from.go","get/KVector/from.go",S+"polynomial_like.go",S+"polynomial_like_scalar.go",S+"polynomial_like_vector.go",S+"polynomial_like_matrix.go",S+"scalar_expression.go",S+"vector_expression.go",S+"matrix_expression.go",S+"expression.go"],
 [("conversion functions","To*, From, DenseToKMatrix, VecDenseToKVector, ToDense, ToVecDense"),("classification","Is*/To* pairs")],
 observe=["To*","Is*","getKMatrix.From","getKVector.From"])
p("C21","Long chains of operations stay exact and well-formed",
 "Starting from any well-formed expressions, any chain of supported operations in which each result is the operand of the next yields at every step a well-formed expression that denotes exactly what the same chain of operations on mathematical polynomials and matrices denotes. No supported step is refused or crashes because of how its operand was produced, and algebraically equal chains (expanding, reordering, regrouping) give equal results.",
 ["histories","inputs"],"all chains of up to 12 operations (sum, difference, product, power, derivative, substitution, transpose, stacking, indexing, simplification) over expressions of every kind and shape",
 "Tests apply one or two operations to freshly built values; the representations that only arise as results (collapsed, partially simplified, mixed-kind) are barely exercised as operands.",
 ALLX+[S+"expression.go",S+"vector_expression.go",S+"matrix_expression.go"],
 [("closure of the expression types under the operations","symbolic/*.go")],observe=["all Expression methods"])
p("C22","Search and set helpers over variables and identifiers are exact",
 "Searching a slice for a value returns a position at which it occurs, or the documented not-found answer exactly when it is absent; searching a slice of another element type answers not-found with an error. De-duplicating a list of identifiers or variables, and forming the union of variable lists, returns exactly the distinct elements, each once, in order of first occurrence. Searches that look up a variable's, a constant's or a monomial's term in a polynomial return the matching term exactly when one exists, and predicates on a monomial (constant, zero, a bare variable, of degree one in a variable, of the same form as another) answer true exactly when its coefficient and exponents say so, whatever the order of its factors.",
 ["inputs"],"all slices of identifiers, strings, ints and variables with arbitrary duplicates, any number of lists in a union, all polynomials",
 "Tests use a few fixed slices; boundary positions, repeated elements and many lists are not sampled.",
 [S+"utils.go",S+"variable.go",S+"polynomial.go"],
 [("search","symbolic/utils.go: FindInSlice"),("de-duplication","symbolic/utils.go: Unique; symbolic/variable.go: UniqueVars, UnionOfVariables"),("term lookup","symbolic/polynomial.go: ConstantMonomialIndex, VariableMonomialIndex, MonomialIndex")],
 observe=["FindInSlice","Unique","UniqueVars","UnionOfVariables","VariablesInThisConstraint","…MonomialIndex"])

p("C23","Values can be used from several goroutines at once",
 "Since operations do not change their operands, expressions, constraints, variable lists and substitution maps that several goroutines share may be used by all of them at once, in any interleaving: every operation (arithmetic, comparison, calculus, substitution, simplification, inspection, conversion, stacking, constraint rewriting) gives each goroutine the result it gives when called alone, without data races between the calls and without hidden shared state being corrupted. (Creating variables changes an environment and is not included.)",
 ["inputs","schedules"],"all pools of values with shared storage, all sets of operations on them, all interleavings of two to four goroutines",
 "No test starts a goroutine; a package-level cache, scratch buffer or lazily filled field passes every sequential test and fails only under particular interleavings.",
 ALLX+[S+"expression.go",S+"utils.go",S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],
 [("operations work on copies and keep no package-level state","symbolic/*.go: all value-receiver methods; Monomial.Copy, Polynomial.Copy"),("the only package-level variable","symbolic/basic_environment.go: DefaultEnvironment")],
 observe=["every exported method of Expression and Constraint"])
p("C24","Results depend only on the operands, not on what ran before",
 "Every operation is a function of its operands: calling it again on the same values, on equal values built afresh, in another order relative to other calls, after any amount of other work, or in a process that has done nothing else gives the same kind of result with the same content, the same order of terms and variables and the same printed text, and accepts or rejects alike. Neither map iteration order, nor storage, nor earlier calls on similar values show in any answer; when the caller assigns new entries to its own values in place, or asks about part of them, the answers are those for the values as they are now.",
 ["inputs","histories"],"all pools of values with shared storage, all sequences of operations on them and on nearly equal values before them",
 "Each test calls an operation once, early in a process, on values of its own; a result that depends on iteration order or on a remembered earlier answer agrees with the test most or all of the time.",
 ALLX+[S+"expression.go",S+"utils.go",S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],
 [("operations keep no package-level state","symbolic/*.go: all value-receiver methods"),("maps are looked up, not iterated, when results are assembled","symbolic/*.go: SubstituteAccordingTo; symbolic/utils.go: CheckSubstitutionMap")],
 observe=["every exported method of Expression and Constraint"])

p("C25","Errors of rejected requests describe the request that was made",
 "When a request is rejected with one of the library's typed errors, that error describes the request: a dimension error names the operation (and for comparisons the direction) and carries both operands' dimensions in their order, and for stacking two given blocks that do not fit; an index error carries the requested row and column (or position) and the indexed expression; a negative-exponent error carries the exponent; an unsupported-input error names the receiver's type and operation and carries the operand; a representation error names the representation, blames a side that really is nonlinear, or asks for the constraint form that is really missing; a coefficient error carries the expression asked; a ragged-matrix error gives the first row that differs, its length and the expected length; an emptiness error carries the empty value's type. The printed text shows the same data. Mismatched operands of sums, differences, products, comparisons, vector constraints and stacks, negative powers of square expressions, and missing representations always get their typed error. The exported dimension and index checks answer nil exactly when the operands or the index fit, and otherwise such an error.",
 ["inputs"],"all rejected requests over operations x operand kinds x shapes x indices x exponents x unsupported types x constraint forms x row lengths",
 "Tests compare the error of one or two rejected calls per method, mostly of one kind; an error that swaps its operands, names another kind's method or reports the wrong row goes unnoticed for every other kind.",
 ALLX+["smErrors/matrix_dimension_error.go","smErrors/out_of_bounds_error.go","smErrors/unsupported_input.go","smErrors/negative_exponent.go","smErrors/matrix_column_mismatch.go","smErrors/linear_expression_required.go",S+"scalar_constraint.go",S+"vector_constraint.go",S+"expression.go"],
 [("typed errors","smErrors/*.go"),("construction of the errors at each rejection","symbolic/*.go: smErrors.UnsupportedInputError, smErrors.MatrixDimensionError and the others")],
 observe=["panic values","returned errors"])

p("C26","The exported building blocks compute what they are documented to compute",
 "The functions a kind of expression is built from - MatrixPlusTemplate, MatrixMultiplyTemplate, MatrixPowerTemplate, MatrixSubstituteTemplate and ...AccordingToTemplate, VectorPlusTemplate, VectorMultiplyTemplate, VectorPowerTemplate, VectorSubstituteTemplate and ...AccordingToTemplate, ScalarPowerTemplate, PolynomialLikeVector_SharedLinearCoeffCalc - are exported; called directly they return the entrywise sum, the (matrix or scaling) product, the repeated product, the simultaneous substitution and the matrix of linear coefficients of their operands, refuse operands that do not fit and negative powers, and the matrix sum, product and substitution do so for any object that implements MatrixExpression, including types the caller wrote.",
 ["inputs"],"all operands of every built-in kind, caller-written matrix types, shapes, replacements, exponents and variable lists",
 "The methods of most kinds take their own path and reach the templates for a few operand pairs only; tests call the templates with one or two fixed operands and no foreign type.",
 [S+"matrix_expression.go",S+"vector_expression.go",S+"scalar_expression.go",S+"polynomial_like_vector.go"],
 [("templates","symbolic/matrix_expression.go: MatrixPlusTemplate, MatrixMultiplyTemplate, MatrixPowerTemplate, MatrixSubstituteTemplate; symbolic/vector_expression.go: Vector...Template; symbolic/scalar_expression.go: ScalarPowerTemplate"),("shared coefficients","symbolic/polynomial_like_vector.go: PolynomialLikeVector_SharedLinearCoeffCalc")],
 observe=["results of direct calls"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
