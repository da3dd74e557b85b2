From 39492f3906258c32a733acabbf90cf7c79dc1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/43] fix: compare the exponent of the matching variable when
 matching monomial forms

x^2 y and y^2 x were merged as like terms, x y^2 and y^2 x were not.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From 88d84420d1a296252a975be371c17fce59ed0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 02/43] fix: do not modify the receiver in
 Monomial.DerivativeWrt

The exponent slice of the operand was shared with the result and decremented.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From 02d43b81aa32c6ba6f6f99f81fd62292f4f359ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 03/43] fix: do not append to the receiver's factor slice in
 Monomial.Multiply

append could overwrite elements beyond the slice in the caller's array.
---
 symbolic/monomial.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..744f94e 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,8 +198,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
-		variables = UniqueVars(variables)
+		variables := UnionOfVariables(m.VariableFactors, right.VariableFactors)
 
 		multiDegree := make([]int, len(variables))
 
-- 
2.43.0


From 494eda24de6099884a216227a466456278ede152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 04/43] fix: differentiate polynomial vectors and matrices with
 constant derivatives

An entry whose derivative is a constant crashed on a type assertion, and
PolynomialVector.DerivativeWrt overwrote the entries of its receiver.
---
 symbolic/polynomial_matrix.go | 10 +++++++++-
 symbolic/polynomial_vector.go | 23 ++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..e918b17 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -436,7 +436,15 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			// The derivative of an entry may be a constant
+			switch dEntry := polynomial.DerivativeWrt(vIn).(type) {
+			case K:
+				dpmRow = append(dpmRow, dEntry.ToPolynomial())
+			case Polynomial:
+				dpmRow = append(dpmRow, dEntry)
+			default:
+				panic(fmt.Errorf("Unexpected type in PolynomialMatrix.DerivativeWrt: %T", dEntry))
+			}
 		}
 		dpm = append(dpm, dpmRow)
 	}
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..94fd763 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,12 +381,29 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
+	derivative := make(PolynomialVector, len(pv))
 	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+		// The derivative of an entry may be a constant
+		switch dEntry := polynomial.DerivativeWrt(vIn).(type) {
+		case K:
+			derivative[ii] = dEntry.ToPolynomial()
+		case Polynomial:
+			derivative[ii] = dEntry
+		default:
+			panic(fmt.Errorf("Unexpected type in PolynomialVector.DerivativeWrt: %T", dEntry))
+		}
 	}
 
 	return derivative
-- 
2.43.0


From 7588af329ddd9fe65acf804d2c0ff877e8e0e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 05/43] fix: let sums and products of variable matrices with
 constants simplify entrywise

VariableMatrix.Plus(KMatrix) and VariableMatrix.Multiply(K) asserted the type
of each entry and crashed when an entry simplified (adding or multiplying by
zero, multiplying by one).
---
 symbolic/variable_matrix.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..9ead6d4 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,16 +138,9 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
-		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
-		for ii, vmRow := range vm {
-			var pmRow []Polynomial
-			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
-			}
-			pmOut = append(pmOut, pmRow)
-		}
-		return pmOut
+		// Note: An entry of the sum may simplify (e.g., when adding zero),
+		// so the type of the result is determined by the template.
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
@@ -242,16 +235,17 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use K case
 		out = vm.Multiply(K(right))
 	case K:
-		// Create a new matrix of polynomials.
-		var mmOut MonomialMatrix
+		// Create a new matrix of products.
+		// Note: A product may simplify (e.g., when multiplying by zero or one).
+		var product [][]ScalarExpression
 		for _, vmRow := range vm {
-			var mmRow []Monomial
+			var productRow []ScalarExpression
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				productRow = append(productRow, v.Multiply(right).(ScalarExpression))
 			}
-			mmOut = append(mmOut, mmRow)
+			product = append(product, productRow)
 		}
-		out = mmOut
+		out = ConcretizeMatrixExpression(product)
 	case KVector:
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
-- 
2.43.0


From ce1869eaed8b034d2f2ef35128f2688913b2903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/43] fix: spread a vector of length 1 over the other vector
 in sums

VectorPlusTemplate dropped all but the first entry when the left vector had
length 1, and indexed out of range when the right one had.
---
 symbolic/vector_expression.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..ed67dd4 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -399,9 +399,25 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
-		for ii, se := range veAsSlice {
-			rightII := rightExpr.AtVec(ii)
-			sum = append(sum, se.Plus(rightII).(ScalarExpression))
+		// A vector of length 1 is added to every element of the other vector
+		switch {
+		case rightExpr.Len() == ve.Len():
+			for ii, se := range veAsSlice {
+				rightII := rightExpr.AtVec(ii)
+				sum = append(sum, se.Plus(rightII).(ScalarExpression))
+			}
+		case rightExpr.Len() == 1:
+			return VectorPlusTemplate(ve, rightExpr.AtVec(0))
+		case ve.Len() == 1:
+			return VectorPlusTemplate(rightExpr, ve.AtVec(0))
+		default:
+			panic(
+				smErrors.VectorDimensionError{
+					Operation: "Plus",
+					Arg1:      ve,
+					Arg2:      rightExpr,
+				},
+			)
 		}
 	default:
 		panic(
-- 
2.43.0


From 550a2b450ea55f0eb68533adc7480004379c2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 07/43] fix: keep the simplified entries of monomial matrix
 sums

Polynomial.Simplify returns the simplified polynomial; MonomialMatrix.Plus
discarded it.
---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..df22e7f 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -127,7 +127,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -141,7 +141,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -156,7 +156,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -173,7 +173,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -188,7 +188,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0


From 356c1d08d447fc2f403f04af716d1637d200fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/43] fix: add 1x1 matrices to every element in monomial and
 polynomial matrix sums

The operands are accepted as conforming, but the sum indexed out of range or
kept only one entry.
---
 symbolic/monomial_matrix.go   |  8 ++++++++
 symbolic/polynomial_matrix.go | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index df22e7f..314fb11 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -179,6 +179,14 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		}
 		return sum
 	case PolynomialMatrix:
+		// A 1x1 matrix is added to every element of the other matrix
+		if smErrors.IsScalarExpression(right) && !smErrors.IsScalarExpression(mm) {
+			return mm.Plus(right[0][0])
+		}
+		if smErrors.IsScalarExpression(mm) && !smErrors.IsScalarExpression(right) {
+			return right.Plus(mm[0][0])
+		}
+
 		// Create containers
 		var sum PolynomialMatrix
 
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index e918b17..c69113a 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -147,6 +147,14 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(sum)
 	case KMatrix:
+		// A 1x1 matrix is added to every element of the other matrix
+		if smErrors.IsScalarExpression(right) && !smErrors.IsScalarExpression(pm) {
+			return pm.Plus(right[0][0])
+		}
+		if smErrors.IsScalarExpression(pm) && !smErrors.IsScalarExpression(right) {
+			return pm[0][0].Plus(right)
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
@@ -160,6 +168,14 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		out = ConcretizeExpression(sum)
 
 	case PolynomialMatrix:
+		// A 1x1 matrix is added to every element of the other matrix
+		if smErrors.IsScalarExpression(right) && !smErrors.IsScalarExpression(pm) {
+			return pm.Plus(right[0][0])
+		}
+		if smErrors.IsScalarExpression(pm) && !smErrors.IsScalarExpression(right) {
+			return right.Plus(pm[0][0])
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
-- 
2.43.0


From 272dcd53aac3d539b362351b195b35f1cf05c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 09/43] fix: treat monomials whose exponents are all zero as
 constants

IsConstant, Constant and DerivativeWrt looked only at the number of variable
factors, so the value of e.g. 7*x^0 was lost in sums, constants and
simplification and its derivative had a negative exponent.
---
 symbolic/monomial.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 744f94e..8f9c7e9 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -317,7 +317,7 @@ func (m Monomial) Comparison(rhsIn interface{}, sense ConstrSense) Constraint {
 // Constant Returns the constant component in the scalar monomial.
 // This should be zero unless there are no variables present. Then it will be the coefficient.
 func (m Monomial) Constant() float64 {
-	if len(m.VariableFactors) == 0 {
+	if m.IsConstant() {
 		return m.Coefficient
 	} else {
 		return 0
@@ -374,7 +374,13 @@ func (m Monomial) IsConstant() bool {
 	}
 
 	// Algorithm
-	return len(m.VariableFactors) == 0
+	// A variable raised to the power of zero does not make the monomial vary.
+	for _, exponent := range m.Exponents {
+		if exponent != 0 {
+			return false
+		}
+	}
+	return true
 }
 
 // IsZero Returns true if the monomial defines the constant zero.
@@ -494,7 +500,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 
 	// Algorithm
 	foundIndex, _ := FindInSlice(vIn, m.VariableFactors)
-	if foundIndex == -1 {
+	if foundIndex == -1 || m.Exponents[foundIndex] == 0 {
 		// If vIn is not in the monomial, then the derivative is zero
 		return K(0.0)
 	} else {
-- 
2.43.0


From 082f27386753e20056be772e36aa13e938d577b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 10/43] fix: read the linear coefficients of a monomial for any
 list of variables

Monomial.LinearCoeff crashed when its variable was not in the list or when it
was a constant, and missed all but one occurrence.
---
 symbolic/monomial.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 8f9c7e9..73efe72 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -354,11 +354,10 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	linearCoeffs := ZerosVector(len(wrtVars))
 
 	// Iterate through each variable
-	if IsLinear(m) {
-		// If the monomial is linear,
-		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+	for ii, v := range wrtVars {
+		if m.IsDegreeOneContainingVariable(v) {
+			linearCoeffs.SetVec(ii, m.Coefficient)
+		}
 	}
 
 	// Return
-- 
2.43.0


From 9ed4b1edfd8642b9732e727f0d50a81ea30f3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 11/43] fix: make Polynomial.Copy the documented deep copy

The monomials of the copy shared their exponent and factor slices with the
original.
---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..8cc25c6 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From 99c5e1946aabdd24cfce7aba1b5ae789ab75f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 12/43] fix: count every like term in Polynomial.Constant and
 Polynomial.LinearCoeff

Only the first constant (linear) term of an unsimplified polynomial was read.
---
 symbolic/polynomial.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 8cc25c6..43daf75 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,12 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// Note: An unsimplified polynomial may contain several constant terms.
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		constant += monomial.Constant()
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -653,10 +653,12 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Add up every term of the polynomial that contains just this variable
+		// Note: An unsimplified polynomial may contain several of them.
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeffOut.SetVec(ii, coeffOut.AtVec(ii)+monomial.Coefficient)
+			}
 		}
 	}
 
-- 
2.43.0


From 27e29e44157448e3b9285c0b0778a5079464982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:28 +0000
Subject: [PATCH 13/43] fix: add operands of any kind once their dimensions
 conform

Which sums were supported depended on the concrete kind of the operands, so
e.g. the difference of two polynomial matrices was refused whenever the
negated operand simplified to a monomial matrix.
---
 symbolic/constant_matrix.go   |  8 ++++++-
 symbolic/constant_vector.go   |  6 ++++++
 symbolic/expression.go        | 39 +++++++++++++++++++++++++++++++++++
 symbolic/monomial.go          |  6 ++++++
 symbolic/monomial_matrix.go   |  5 +++++
 symbolic/monomial_vector.go   |  6 ++++++
 symbolic/polynomial.go        |  6 ++++++
 symbolic/polynomial_matrix.go |  6 ++++++
 symbolic/polynomial_vector.go |  6 ++++++
 symbolic/variable.go          |  6 ++++++
 symbolic/variable_matrix.go   |  8 ++++++-
 symbolic/variable_vector.go   |  6 ++++++
 symbolic/vector_expression.go |  2 ++
 13 files changed, 108 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..57a9a26 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -121,8 +121,14 @@ func (km KMatrix) Plus(e interface{}) Expression {
 		out = km.Plus(*right) // Reuse mat.Dense case
 
 	case MatrixExpression:
-		out = MatrixPlusTemplate(km, right)
+		out = plusTemplate(km, right)
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			out = plusTemplate(km, rightAsE)
+			break
+		}
 		// If we reach this point, the input is not recognized
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..4a05675 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -127,6 +127,12 @@ func (kv KVector) Plus(rightIn interface{}) Expression {
 		out = kv.Plus(VecDenseToKVector(right)) // Convert to KVector
 
 	default:
+		if IsExpression(rightIn) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(rightIn)
+			out = plusTemplate(kv, rightAsE)
+			break
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "KVector.Plus",
diff --git a/symbolic/expression.go b/symbolic/expression.go
index 247fe9d..5d0e15e 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -122,6 +122,45 @@ func Minus(left, right Expression) Expression {
 	)
 }
 
+// plusTemplate adds two expressions entry by entry.
+// An expression with just one entry is added to every entry of the other one.
+func plusTemplate(left, right Expression) Expression {
+	// Input Processing
+	err := smErrors.CheckDimensionsInAddition(left, right)
+	if err != nil {
+		panic(err)
+	}
+
+	// Algorithm
+	dims := left.Dims()
+	if smErrors.IsScalarExpression(left) {
+		dims = right.Dims()
+	}
+
+	var sum [][]ScalarExpression
+	for ii := 0; ii < dims[0]; ii++ {
+		var sumRow []ScalarExpression
+		for jj := 0; jj < dims[1]; jj++ {
+			sumRow = append(
+				sumRow,
+				entryOrScalar(left, ii, jj).Plus(entryOrScalar(right, ii, jj)).(ScalarExpression),
+			)
+		}
+		sum = append(sum, sumRow)
+	}
+
+	return ConcretizeExpression(sum)
+}
+
+// entryOrScalar returns the (ii,jj)-th entry of the expression, or its only entry
+// if it has just one.
+func entryOrScalar(e Expression, ii, jj int) ScalarExpression {
+	if smErrors.IsScalarExpression(e) {
+		return e.At(0, 0)
+	}
+	return e.At(ii, jj)
+}
+
 // IsLinear Determines whether an input object is a
 // valid linear expression.
 // In math, this means that the polynomial like expression
diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 73efe72..44dfe61 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -106,6 +106,12 @@ func (m Monomial) Plus(e interface{}) Expression {
 	case Polynomial:
 		out = right.Plus(m.Copy())
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			out = plusTemplate(m, rightAsE)
+			break
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "Monomial.Plus",
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 314fb11..7081990 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -204,6 +204,11 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		return sum
 
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			return plusTemplate(mm, rightAsE)
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "MonomialVector.Plus",
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..cb3a943 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -127,6 +127,12 @@ func (mv MonomialVector) Plus(term1 interface{}) Expression {
 	case Expression:
 		out = VectorPlusTemplate(mv, right)
 	default:
+		if IsExpression(term1) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(term1)
+			out = plusTemplate(mv, rightAsE)
+			break
+		}
 		// If the right hand side is an unsupported type, then panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 43daf75..b679603 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -175,6 +175,12 @@ func (p Polynomial) Plus(e interface{}) Expression {
 			out = ConcretizeExpression(polMatOut)
 		}
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			out = plusTemplate(p, rightAsE)
+			break
+		}
 		// Unrecognized response is a panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index c69113a..39a0a1e 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -189,6 +189,12 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 
 		out = ConcretizeExpression(sum)
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			out = plusTemplate(pm, rightAsE)
+			break
+		}
 		// If the right hand side is not supported, then panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 94fd763..e28c07d 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -152,6 +152,12 @@ func (pv PolynomialVector) Plus(e interface{}) Expression {
 	case Expression:
 		out = VectorPlusTemplate(pv, right)
 	default:
+		if IsExpression(e) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(e)
+			out = plusTemplate(pv, rightAsE)
+			break
+		}
 		// Default response is a panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..9a8c065 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -119,6 +119,12 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		ve, _ := ToVectorExpression(rightIn)
 		out = ve.Plus(v)
 	default:
+		if IsExpression(rightIn) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(rightIn)
+			out = plusTemplate(v, rightAsE)
+			break
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "Variable.Plus",
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 9ead6d4..1ec2366 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -140,7 +140,13 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 	case KMatrix:
 		// Note: An entry of the sum may simplify (e.g., when adding zero),
 		// so the type of the result is determined by the template.
-		return MatrixPlusTemplate(vm, right)
+		return plusTemplate(vm, right)
+	}
+
+	if IsExpression(e) {
+		// Any other expression is added entry by entry
+		rightAsE, _ := ToExpression(e)
+		return plusTemplate(vm, rightAsE)
 	}
 
 	// panic if the type is not recognized
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..22b3bc9 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -123,6 +123,12 @@ func (vv VariableVector) Plus(rightIn interface{}) Expression {
 		// Use KVector's method
 		out = vv.Plus(VecDenseToKVector(right))
 	default:
+		if IsExpression(rightIn) {
+			// Any other expression is added entry by entry
+			rightAsE, _ := ToExpression(rightIn)
+			out = plusTemplate(vv, rightAsE)
+			break
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "VariableVector.Plus",
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index ed67dd4..c72ad5f 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -419,6 +419,8 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 				},
 			)
 		}
+	case MatrixExpression:
+		return plusTemplate(ve, rightExpr)
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
-- 
2.43.0


From 4c85b0db286ab379eb0888e2ef410859a0100156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 14/43] fix: multiply operands of any kind once their
 dimensions conform

Which products were supported depended on the concrete kind of the operands,
and so on whether the result of an earlier operation happened to simplify.
---
 symbolic/constant.go          |  6 +++++
 symbolic/constant_matrix.go   |  6 +++++
 symbolic/constant_vector.go   |  6 +++++
 symbolic/expression.go        | 42 +++++++++++++++++++++++++++++++++++
 symbolic/monomial.go          |  6 +++++
 symbolic/monomial_matrix.go   |  6 +++++
 symbolic/monomial_vector.go   |  6 +++++
 symbolic/polynomial.go        |  6 +++++
 symbolic/polynomial_matrix.go |  6 +++++
 symbolic/polynomial_vector.go |  6 +++++
 symbolic/variable.go          |  6 +++++
 symbolic/variable_matrix.go   |  6 +++++
 symbolic/variable_vector.go   |  6 +++++
 symbolic/vector_expression.go |  2 ++
 14 files changed, 116 insertions(+)

diff --git a/symbolic/constant.go b/symbolic/constant.go
index 149b2e0..90fc8df 100644
--- a/symbolic/constant.go
+++ b/symbolic/constant.go
@@ -277,6 +277,12 @@ func (c K) Multiply(term1 interface{}) Expression {
 		return right.Multiply(c)
 	}
 
+	if IsExpression(term1) {
+		// The product with any other expression
+		rightAsE, _ := ToExpression(term1)
+		return multiplyTemplate(c, rightAsE)
+	}
+
 	// Unrecornized response is a panic
 	panic(
 		smErrors.UnsupportedInputError{
diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 57a9a26..dfe8160 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -307,6 +307,12 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 	case MatrixExpression:
 		out = MatrixMultiplyTemplate(km, right)
 	default:
+		if IsExpression(e) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(e)
+			out = multiplyTemplate(km, rightAsE)
+			break
+		}
 		// If we reach this point, the input is not recognized
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 4a05675..901b991 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -357,6 +357,12 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		out = kv.Multiply(right[0])
 
 	default:
+		if IsExpression(rightIn) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(rightIn)
+			out = multiplyTemplate(kv, rightAsE)
+			break
+		}
 		// Panic if the input type is not recognized
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/expression.go b/symbolic/expression.go
index 5d0e15e..7939bf0 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -152,6 +152,48 @@ func plusTemplate(left, right Expression) Expression {
 	return ConcretizeExpression(sum)
 }
 
+// multiplyTemplate multiplies two expressions.
+// An expression with just one entry scales every entry of the other one;
+// otherwise, this is the matrix product.
+func multiplyTemplate(left, right Expression) Expression {
+	// Input Processing
+	err := smErrors.CheckDimensionsInMultiplication(left, right)
+	if err != nil {
+		panic(err)
+	}
+
+	// Algorithm
+	leftDims, rightDims := left.Dims(), right.Dims()
+	scaling := leftDims[1] != rightDims[0]
+	dims := []int{leftDims[0], rightDims[1]}
+	switch {
+	case scaling && smErrors.IsScalarExpression(left):
+		dims = rightDims
+	case scaling:
+		dims = leftDims
+	}
+
+	var product [][]ScalarExpression
+	for ii := 0; ii < dims[0]; ii++ {
+		var productRow []ScalarExpression
+		for jj := 0; jj < dims[1]; jj++ {
+			var element Expression
+			if scaling {
+				element = entryOrScalar(left, ii, jj).Multiply(entryOrScalar(right, ii, jj))
+			} else {
+				element = K(0.0)
+				for kk := 0; kk < leftDims[1]; kk++ {
+					element = element.Plus(left.At(ii, kk).Multiply(right.At(kk, jj)))
+				}
+			}
+			productRow = append(productRow, element.AsSimplifiedExpression().(ScalarExpression))
+		}
+		product = append(product, productRow)
+	}
+
+	return ConcretizeExpression(product)
+}
+
 // entryOrScalar returns the (ii,jj)-th entry of the expression, or its only entry
 // if it has just one.
 func entryOrScalar(e Expression, ii, jj int) ScalarExpression {
diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 44dfe61..b549dd9 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -234,6 +234,12 @@ func (m Monomial) Multiply(e interface{}) Expression {
 		return right.Multiply(m) // Commutative
 	}
 
+	if IsExpression(e) {
+		// The product with any other expression
+		rightAsE, _ := ToExpression(e)
+		return multiplyTemplate(m, rightAsE)
+	}
+
 	// Unrecornized response is a panic
 	panic(
 		fmt.Errorf("Unexpected type of right in the Multiply() method: %T (%v)", e, e),
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 7081990..e793641 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -333,6 +333,12 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		return MatrixMultiplyTemplate(mm, right)
 	}
 
+	if IsExpression(e) {
+		// The product with any other expression
+		rightAsE, _ := ToExpression(e)
+		return multiplyTemplate(mm, rightAsE)
+	}
+
 	// Unrecognized response is a panic
 	panic(
 		smErrors.UnsupportedInputError{
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index cb3a943..3a7b12c 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -222,6 +222,12 @@ func (mv MonomialVector) Multiply(term1 interface{}) Expression {
 	case Expression:
 		out = VectorMultiplyTemplate(mv, right)
 	default:
+		if IsExpression(term1) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(term1)
+			out = multiplyTemplate(mv, rightAsE)
+			break
+		}
 		// Unrecognized response is a panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index b679603..db7a90f 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -370,6 +370,12 @@ func (p Polynomial) Multiply(e interface{}) Expression {
 		me, _ := ToMatrixExpression(right)
 		out = me.Multiply(p) // Reuse scalar case
 	default:
+		if IsExpression(e) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(e)
+			out = multiplyTemplate(p, rightAsE)
+			break
+		}
 		// Unrecognized response is a panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 39a0a1e..29482fb 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -321,6 +321,12 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 	case MatrixExpression:
 		return MatrixMultiplyTemplate(pm, right)
 	default:
+		if IsExpression(e) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(e)
+			out = multiplyTemplate(pm, rightAsE)
+			break
+		}
 		// If the right hand side is not supported, then panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index e28c07d..e9aa9c9 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -257,6 +257,12 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		out = pv.Multiply(right[0])
 
 	default:
+		if IsExpression(rightIn) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(rightIn)
+			out = multiplyTemplate(pv, rightAsE)
+			break
+		}
 		panic(
 			smErrors.UnsupportedInputError{
 				FunctionName: "PolynomialVector.Multiply",
diff --git a/symbolic/variable.go b/symbolic/variable.go
index 9a8c065..4e6e7e5 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -342,6 +342,12 @@ func (v Variable) Multiply(rightIn interface{}) Expression {
 	case VectorExpression:
 		out = VectorMultiplyTemplate(right, v)
 	default:
+		if IsExpression(rightIn) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(rightIn)
+			out = multiplyTemplate(v, rightAsE)
+			break
+		}
 		// Unrecornized response is a panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 1ec2366..0bfbee4 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -297,6 +297,12 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 	case MatrixExpression:
 		out = MatrixMultiplyTemplate(vm, right)
 	default:
+		if IsExpression(e) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(e)
+			out = multiplyTemplate(vm, rightAsE)
+			break
+		}
 		// panic if the type is not recognized
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 22b3bc9..25c36e9 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -214,6 +214,12 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 		rightAsVE, _ := ToVectorExpression(right)
 		out = vv.Multiply(rightAsVE.AtVec(0))
 	default:
+		if IsExpression(rightIn) {
+			// The product with any other expression
+			rightAsE, _ := ToExpression(rightIn)
+			out = multiplyTemplate(vv, rightAsE)
+			break
+		}
 		// Otherwise, panic
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index c72ad5f..0ffe592 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -373,6 +373,8 @@ func VectorMultiplyTemplate(ve VectorExpression, right Expression) Expression {
 		for _, se := range veAsSlice {
 			prod = append(prod, se.Multiply(right).(ScalarExpression))
 		}
+	case VectorExpression, MatrixExpression:
+		return multiplyTemplate(ve, right)
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
-- 
2.43.0


From 453070802849f5aed3b6b4f74ba715838a578d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 15/43] fix: scale by a 1x1 vector or matrix in vector and
 matrix products

Products in which one operand has a single entry are accepted as conforming,
but several arms used only the first entry of the other operand or indexed
out of range.
---
 symbolic/constant_matrix.go   |  5 +++++
 symbolic/constant_vector.go   | 10 ++++++++++
 symbolic/monomial_matrix.go   |  4 ++++
 symbolic/polynomial_matrix.go |  5 +++++
 symbolic/polynomial_vector.go |  5 +++++
 symbolic/variable_matrix.go   | 11 +++++++++++
 symbolic/variable_vector.go   |  5 +++++
 7 files changed, 45 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index dfe8160..66455ce 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -257,6 +257,11 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 		}
 
 	case VariableVector:
+		if km.Dims()[1] != right.Len() {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(km, right)
+			break
+		}
 		// Choose the correct output type based on the size of km
 		nR := km.Dims()[0]
 		if nR == 1 {
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 901b991..2f4b6a4 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -347,11 +347,21 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		out = kv.Multiply(VecDenseToKVector(right))
 
 	case KVector:
+		if right.Len() != 1 {
+			// Then, kv is the operand with just one element.
+			out = multiplyTemplate(kv, right)
+			break
+		}
 		// If the input is a KVector and the dimensions match
 		// then right is a (1x1) vector and can use the scalar method.
 		out = kv.Multiply(right[0])
 
 	case VariableVector:
+		if right.Len() != 1 {
+			// Then, kv is the operand with just one element.
+			out = multiplyTemplate(kv, right)
+			break
+		}
 		// If the input is a KVector and the dimensions match
 		// then right is a (1x1) vector and can use the scalar method.
 		out = kv.Multiply(right[0])
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index e793641..e8a3ef6 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -294,6 +294,10 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		}
 		return product
 	case VariableVector:
+		if mm.Dims()[1] != right.Len() {
+			// Then, one of the operands has just one element.
+			return multiplyTemplate(mm, right)
+		}
 		if nRows == 1 {
 			// Output will be a scalar expression
 			var product Expression = K(0.0)
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 29482fb..717a0ce 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -295,6 +295,11 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Identify output dimensions
 		nResultRows := pm.Dims()[0]
+		if pm.Dims()[1] != right.Len() {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(pm, right)
+			break
+		}
 
 		// Create product based on the number of Resulting rows
 		if nResultRows == 1 {
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index e9aa9c9..2e289b5 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -252,6 +252,11 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case PolynomialVector:
+		if right.Len() != 1 {
+			// Then, pv is the operand with just one element.
+			out = multiplyTemplate(pv, right)
+			break
+		}
 		// This should only be true if the polynomial vector is actually a polynomial.
 		// Convert it to a polynomial and do the multiplication as if it was with just the scalar.
 		out = pv.Multiply(right[0])
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 0bfbee4..e3a6d13 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -256,6 +256,12 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
 
+		if vmCols != right.Len() {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(vm, right)
+			break
+		}
+
 		// Compute product based on each element
 		var product []ScalarExpression
 		for ii := 0; ii < vmRows; ii++ {
@@ -276,6 +282,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Output will be another vector
 		nVMCols := vm.Dims()[1]
+		if nVMCols != right.Len() {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(vm, right)
+			break
+		}
 		var result Expression = K(0.0)
 		for ii := 0; ii < nVMCols; ii++ {
 			// Create a new vector from the ii-th column of the matrix
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 25c36e9..6deae7a 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -210,6 +210,11 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 	case ScalarExpression:
 		out = VectorMultiplyTemplate(vv, right)
 	case VectorExpression:
+		if right.Len() != 1 {
+			// Then, vv is the operand with just one element.
+			out = multiplyTemplate(vv, right)
+			break
+		}
 		// Vector of polynomials must be (1x1)
 		rightAsVE, _ := ToVectorExpression(right)
 		out = vv.Multiply(rightAsVE.AtVec(0))
-- 
2.43.0


From ad45a4c4bb400d90732393ac6687a29c45dd5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:13 +0000
Subject: [PATCH 16/43] fix: let row sums simplify in the product of a monomial
 matrix and a variable vector

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index e8a3ef6..3ac5141 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -315,7 +315,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From 85fe909df8402ce8271d1b607aa06ba58da7bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 17/43] fix: subtract matrices from constant vectors like from
 every other vector

---
 symbolic/constant_vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 2f4b6a4..2e92163 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -189,6 +189,12 @@ func (kv KVector) Minus(e interface{}) Expression {
 		)
 	}
 
+	if IsExpression(e) {
+		// Any other expression
+		rightAsE, _ := ToExpression(e)
+		return Minus(kv, rightAsE)
+	}
+
 	// Default response is a panic
 	panic(
 		smErrors.UnsupportedInputError{
-- 
2.43.0


From 178519dbb6279fdd12c79fa5749afddd25ad2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 18/43] fix: substitute the variables of a map simultaneously
 in vectors and matrices

The replacements were substituted one after the other in map order, so that
swaps came out wrong and results differed from run to run and from those of
the entries alone.
---
 symbolic/matrix_expression.go | 16 ++++++++++++++++
 symbolic/monomial_matrix.go   |  7 +------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go |  8 +-------
 symbolic/polynomial_vector.go |  8 +-------
 symbolic/variable_matrix.go   |  8 +-------
 symbolic/variable_vector.go   |  9 +--------
 symbolic/vector_expression.go | 13 +++++++++++++
 8 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..646f867 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -300,6 +300,22 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 	return ConcretizeMatrixExpression(out)
 }
 
+// MatrixSubstituteAccordingToTemplate Defines the template for substituting several variables
+// in a matrix. All variables are replaced simultaneously (i.e., the replacements are never
+// substituted into).
+func MatrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			newElt := me.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, newElt.(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+	return ConcretizeMatrixExpression(out)
+}
+
 // ConcretizeMatrixExpression Converts the input expression to a valid type that implements "MatrixExpression".
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 3ac5141..12fce3f 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -606,12 +606,7 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	return MatrixSubstituteAccordingToTemplate(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 3a7b12c..9f8cd9a 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -523,13 +523,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Algorithm
+	return VectorSubstituteAccordingToTemplate(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 717a0ce..ad0505f 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -630,13 +630,7 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return MatrixSubstituteAccordingToTemplate(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 2e289b5..9355f83 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -535,13 +535,7 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	return VectorSubstituteAccordingToTemplate(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index e3a6d13..d2ba9f4 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -599,13 +599,7 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return MatrixSubstituteAccordingToTemplate(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 6deae7a..54a61ec 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -493,14 +493,7 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	return VectorSubstituteAccordingToTemplate(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 0ffe592..bfa9d63 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -327,6 +327,19 @@ func VectorSubstituteTemplate(ve VectorExpression, vIn Variable, se ScalarExpres
 	return ConcretizeVectorExpression(result)
 }
 
+// VectorSubstituteAccordingToTemplate Defines the template for substituting several variables
+// in a vector. All variables are replaced simultaneously (i.e., the replacements are never
+// substituted into).
+func VectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		postSub := ve.AtVec(ii).SubstituteAccordingTo(subMap)
+		result = append(result, postSub.(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
+
 // VectorPowerTemplate Defines the template for the vector power operation.
 func VectorPowerTemplate(base VectorExpression, exponent int) Expression {
 	// Setup
-- 
2.43.0


From bec2f2babf32ced9f65d682680c0ccaac7490f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 19/43] fix: raise 1x1 matrices to a power

The product of 1x1 matrices is returned as a scalar, on which the template's
type assertion crashed.
---
 symbolic/matrix_expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 646f867..5ee428a 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,12 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// The product of 1x1 matrices is a scalar
+	if smErrors.IsScalarExpression(me) {
+		power := me.At(0, 0).Power(exponent).(ScalarExpression)
+		return ConcretizeMatrixExpression([][]ScalarExpression{{power}})
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From a8ef2514896c00328e4250696e453d50aabdb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 20/43] fix: ignore factors raised to the power of zero when
 comparing monomial forms

x^0 y and y were not recognised as like terms, so sums and simplified
polynomials kept both, and the linear coefficient of x^0 y was lost.
---
 symbolic/monomial.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index b549dd9..f794bcc 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -427,6 +427,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 	}
 
 	// Algorithm
+	m = m.withoutZeroExponents()
 	containsOnlyOneFactor := len(m.VariableFactors) == 1
 	firstFactorMatchesV := m.VariableFactors[0].ID == v.ID
 	firstFactorHasDegreeOne := m.Exponents[0] == 1
@@ -455,6 +456,19 @@ func (m Monomial) IsVariable(v Variable) bool {
 	return m.IsDegreeOneContainingVariable(v) && (m.Coefficient == 1.0)
 }
 
+// withoutZeroExponents Returns the same monomial without the factors that are raised
+// to the power of zero.
+func (m Monomial) withoutZeroExponents() Monomial {
+	out := Monomial{Coefficient: m.Coefficient}
+	for ii, v := range m.VariableFactors {
+		if m.Exponents[ii] != 0 {
+			out.VariableFactors = append(out.VariableFactors, v)
+			out.Exponents = append(out.Exponents, m.Exponents[ii])
+		}
+	}
+	return out
+}
+
 // MatchesFormOf Returns true if the monomial matches the form of the input monomial.
 // (in other words if the input monomial has the same variables and degrees as the input monomial.)
 func (m Monomial) MatchesFormOf(mIn Monomial) bool {
@@ -470,6 +484,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	}
 
 	// Algorithm
+	m, mIn = m.withoutZeroExponents(), mIn.withoutZeroExponents()
 	if len(m.VariableFactors) != len(mIn.VariableFactors) {
 		return false
 	}
-- 
2.43.0


From 7029d94d5e725b9e75ead33c7ad6fe40bb625736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 21/43] fix: do not convert multiples of a variable to that
 variable

Monomial.ToVariable turned 2 x into x instead of panicking as documented.
---
 symbolic/monomial.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index f794bcc..c398717 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -601,13 +601,14 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
-		return m.VariableFactors[0]
-	} else {
-		panic(
-			fmt.Errorf("Can not convert monomial to variable. The monomial is not a variable."),
-		)
+	for _, v := range m.VariableFactors {
+		if m.IsVariable(v) {
+			return v
+		}
 	}
+	panic(
+		fmt.Errorf("Can not convert monomial to variable. The monomial is not a variable."),
+	)
 }
 
 // String Returns a string representation of the monomial.
-- 
2.43.0


From da18ec6ef4f3800b1e99b0c167affa122d9467bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:06 +0000
Subject: [PATCH 22/43] fix: decide implications and nonnegativity for any way
 of writing a scalar constraint

AsSimplifiedConstraint moves the constants of the left hand side to the right
as documented, and bounds are only compared for constraints that are linear in
the shared variable.
---
 symbolic/scalar_constraint.go | 77 +++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..d77957c 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -243,7 +243,27 @@ func (sc ScalarConstraint) String() string {
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (sc ScalarConstraint) AsSimplifiedConstraint() Constraint {
-	return sc.Simplify()
+	return sc.asSimplifiedScalarConstraint()
+}
+
+// asSimplifiedScalarConstraint moves all variables of the constraint to its left hand side
+// and all constants, including those of the left hand side, to its right hand side.
+func (sc ScalarConstraint) asSimplifiedScalarConstraint() ScalarConstraint {
+	// Move the variables to the left hand side
+	simplified := sc.Simplify()
+	simplified.LeftHandSide = simplified.LeftHandSide.AsSimplifiedExpression().(ScalarExpression)
+
+	// Move the constant that remains on the left hand side
+	leftConstant := simplified.LeftHandSide.Constant()
+	if leftConstant == 0 {
+		return simplified
+	}
+
+	return ScalarConstraint{
+		LeftHandSide:  simplified.LeftHandSide.Minus(leftConstant).(ScalarExpression),
+		RightHandSide: K(simplified.RightHandSide.Constant() - leftConstant),
+		Sense:         simplified.Sense,
+	}
 }
 
 // Variables returns all variables appearing in the scalar constraint.
@@ -299,11 +319,11 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	}
 
 	// Simplify both constraints
-	sc = sc.Simplify()
+	sc = sc.asSimplifiedScalarConstraint()
 
 	switch otherC := other.(type) {
 	case ScalarConstraint:
-		otherC = otherC.Simplify()
+		otherC = otherC.asSimplifiedScalarConstraint()
 
 		// Naive implication check:
 		// 1. Both constraints contain only 1 variable AND it is the same variable. Then, simply check the bounds.
@@ -311,17 +331,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
 
 		if containsOneVar && scAndOtherShareSameVar {
-			// Get the coefficient of the single variable
-			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
-			scCoeff := scCoeffVector.AtVec(0)
-			otherCCoeffVector := otherC.LeftHandSide.LinearCoeff(otherC.Variables())
-			otherCCoeff := otherCCoeffVector.AtVec(0)
+			// The check below only applies to bounds on the variable
+			if !sc.boundsSingleVariable() || !otherC.boundsSingleVariable() {
+				return false
+			}
 
-			// Scale both constraints
+			// Solve both constraints for the variable
 			// Note: If the coefficient is negative, then the sense of the constraint will be flipped.
-			// This is handled in the ScaleBy method.
-			sc = sc.ScaleBy(1.0 / scCoeff).(ScalarConstraint)
-			otherC = otherC.ScaleBy(1.0 / otherCCoeff).(ScalarConstraint)
+			sc = sc.solvedForVariable(sc.Variables()[0])
+			otherC = otherC.solvedForVariable(otherC.Variables()[0])
 
 			// The implication holds if all of the following are true:
 			// 1. The sense of sc and otherC are either the same (or one is equality)
@@ -392,6 +410,41 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	return false
 }
 
+// boundsSingleVariable returns true if the (simplified) constraint has the form a * x (sense) b where
+// a is a nonzero number, x a variable and b a number.
+func (sc ScalarConstraint) boundsSingleVariable() bool {
+	vars := sc.Variables()
+	if len(vars) != 1 || !sc.IsLinear() {
+		return false
+	}
+
+	coeff := sc.LeftHandSide.LinearCoeff(vars)
+	return coeff.AtVec(0) != 0
+}
+
+// solvedForVariable writes the (simplified) constraint a * x (sense) b as x (sense) b / a.
+// The sense is flipped, if a is negative.
+func (sc ScalarConstraint) solvedForVariable(x Variable) ScalarConstraint {
+	coeffVector := sc.LeftHandSide.LinearCoeff([]Variable{x})
+	coeff := coeffVector.AtVec(0)
+
+	newSense := sc.Sense
+	if coeff < 0 {
+		switch sc.Sense {
+		case SenseLessThanEqual:
+			newSense = SenseGreaterThanEqual
+		case SenseGreaterThanEqual:
+			newSense = SenseLessThanEqual
+		}
+	}
+
+	return ScalarConstraint{
+		LeftHandSide:  x,
+		RightHandSide: K(sc.RightHandSide.Constant() / coeff),
+		Sense:         newSense,
+	}
+}
+
 // IsNonnegativityConstraint Checks to see if the constraint is of the form:
 // - x >= 0, or
 // - 0 <= x
-- 
2.43.0


From e4a59fca1266803e05c4b60a434f91a501389838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 23/43] fix: simplify vector and matrix constraints entry by
 entry

The differences of the sides were asserted to be vectors or matrices, which
panicked for constraints with a single entry (or a single column) and for a
side of length 1 that is compared with every element of the other side.
---
 symbolic/matrix_constraint.go | 27 ++++++-----
 symbolic/vector_constraint.go | 89 +++++++++++++++--------------------
 2 files changed, 54 insertions(+), 62 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..e911b40 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -157,21 +157,24 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
-	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
-	)
-
-	// Create Right Hand Side of only constants
-	var newRHS Expression = DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
-		mc.LeftHandSide.Constant(),
-	)
+	// Simplify the constraint for each element
+	dims := mc.Dims()
+	var newLHS, newRHS [][]ScalarExpression
+	for ii := 0; ii < dims[0]; ii++ {
+		var lhsRow, rhsRow []ScalarExpression
+		for jj := 0; jj < dims[1]; jj++ {
+			simplifiedIIJJ := mc.At(ii, jj).asSimplifiedScalarConstraint()
+			lhsRow = append(lhsRow, simplifiedIIJJ.LeftHandSide)
+			rhsRow = append(rhsRow, simplifiedIIJJ.RightHandSide)
+		}
+		newLHS = append(newLHS, lhsRow)
+		newRHS = append(newRHS, rhsRow)
+	}
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  ConcretizeMatrixExpression(newLHS),
+		RightHandSide: ConcretizeMatrixExpression(newRHS),
 		Sense:         mc.Sense,
 	}
 }
diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..fa1edc1 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -22,8 +22,9 @@ func (vc VectorConstraint) Dims() []int {
 		panic(err)
 	}
 
-	// Dimensions of right and left should be the same.
-	return vc.LeftHandSide.Dims()
+	// Dimensions of right and left should be the same,
+	// unless one of them has length 1 and is compared with every element of the other.
+	return []int{vc.Len(), 1}
 
 }
 
@@ -42,8 +43,15 @@ func (vc VectorConstraint) AtVec(i int) ScalarConstraint {
 	}
 
 	// Algorithm
-	lhsAtI := vc.LeftHandSide.AtVec(i)
-	rhsAtI := vc.RightHandSide.AtVec(i)
+	lhsIndex, rhsIndex := i, i
+	if vc.LeftHandSide.Len() == 1 {
+		lhsIndex = 0
+	}
+	if vc.RightHandSide.Len() == 1 {
+		rhsIndex = 0
+	}
+	lhsAtI := vc.LeftHandSide.AtVec(lhsIndex)
+	rhsAtI := vc.RightHandSide.AtVec(rhsIndex)
 
 	return ScalarConstraint{lhsAtI, rhsAtI, vc.Sense}
 }
@@ -137,28 +145,11 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		)
 	}
 
-	// Create A
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
-
-	A = newLHS.LinearCoeff(wrt...)
+	// Create A and b
+	A, b = vc.linearCoeffAndConstant(wrt...)
 
 	if vc.Sense == SenseGreaterThanEqual {
 		A.Scale(-1, &A)
-	}
-
-	// Create b
-	N := vc.Left().(VectorExpression).Len()
-	var newRHS *mat.VecDense = mat.NewVecDense(N, make([]float64, N))
-	rightConst := vc.Right().(VectorExpression).Constant()
-	leftConst := vc.Left().(VectorExpression).Constant()
-
-	newRHS.SubVec(&rightConst, &leftConst)
-	b = *newRHS
-
-	if vc.Sense == SenseGreaterThanEqual {
 		b.ScaleVec(-1, &b)
 	}
 
@@ -202,26 +193,23 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 		)
 	}
 
-	// Create C
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
-
-	C = newLHS.LinearCoeff(wrt...)
-
-	// Create d
-	N := vc.Left().(VectorExpression).Len()
-	var newRHS *mat.VecDense = mat.NewVecDense(N, make([]float64, N))
-	rightConst := vc.Right().(VectorExpression).Constant()
-	leftConst := vc.Left().(VectorExpression).Constant()
-	newRHS.SubVec(&rightConst, &leftConst)
-	d = *newRHS
+	// Create C and d
+	C, d = vc.linearCoeffAndConstant(wrt...)
 
 	// Return the tuple
 	return C, d
 }
 
+// linearCoeffAndConstant writes the (linear) constraint as M * x (sense) n and returns M and n.
+func (vc VectorConstraint) linearCoeffAndConstant(wrt ...[]Variable) (M mat.Dense, n mat.VecDense) {
+	simplified := vc.AsSimplifiedConstraint()
+
+	M = simplified.Left().(PolynomialLikeVector).LinearCoeff(wrt...)
+	n = simplified.Right().(VectorExpression).Constant()
+
+	return M, n
+}
+
 // Substitute Substitutes the variable vIn with the scalar expression seIn in the vector constraint.
 func (vc VectorConstraint) Substitute(vIn Variable, seIn ScalarExpression) Constraint {
 	// Check that the constraint is well formed.
@@ -263,6 +251,10 @@ func (vc VectorConstraint) Len() int {
 	}
 
 	// Return the length of the vector constraint.
+	// (a side of length 1 is compared with every element of the other side)
+	if vc.LeftHandSide.Len() == 1 {
+		return vc.RightHandSide.Len()
+	}
 	return vc.LeftHandSide.Len()
 }
 
@@ -274,21 +266,18 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 		panic(err)
 	}
 
-	// Create Left Hand side of all of the expressions
-	var newLHS Expression = vc.LeftHandSide.Minus(vc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		vc.RightHandSide.Minus(vc.RightHandSide.Constant()),
-	)
-
-	// Create Right Hand Side of only constants
-	var newRHS Expression = VecDenseToKVector(vc.RightHandSide.Constant()).Minus(
-		vc.LeftHandSide.Constant(),
-	)
+	// Simplify the constraint for each element
+	var newLHS, newRHS []ScalarExpression
+	for ii := 0; ii < vc.Len(); ii++ {
+		simplifiedII := vc.AtVec(ii).asSimplifiedScalarConstraint()
+		newLHS = append(newLHS, simplifiedII.LeftHandSide)
+		newRHS = append(newRHS, simplifiedII.RightHandSide)
+	}
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  ConcretizeVectorExpression(newLHS),
+		RightHandSide: ConcretizeVectorExpression(newRHS),
 		Sense:         vc.Sense,
 	}
 }
-- 
2.43.0


From 7e282b467314458bfc402eebe74b29c16250b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:13 +0000
Subject: [PATCH 24/43] fix: order linear constraint representations like the
 variables of the constraint

VariablesInThisConstraint returned the variables in random order, so that the
columns returned without an explicit list of variables could not be matched.
---
 symbolic/constraint.go        | 23 +++--------------------
 symbolic/scalar_constraint.go |  6 ++++++
 symbolic/vector_constraint.go |  3 +++
 3 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..1141aba 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -53,32 +53,15 @@ func IsConstraint(c interface{}) bool {
 
 // VariablesInThisConstraint returns a slice of all the variables in the constraint.
 func VariablesInThisConstraint(c Constraint) []Variable {
-	// Setup
-	varsMap := make(map[Variable]bool)
-
 	// Input check
 	err := c.Check()
 	if err != nil {
 		panic(err)
 	}
 
-	// Get variables from the left hand side
-	for _, v := range c.Left().Variables() {
-		varsMap[v] = true
-	}
-
-	// Get variables from the right hand side
-	for _, v := range c.Right().Variables() {
-		varsMap[v] = true
-	}
-
-	// Convert the map to a slice
-	vars := make([]Variable, 0, len(varsMap))
-	for v := range varsMap {
-		vars = append(vars, v)
-	}
-
-	return vars
+	// Collect the variables of the left hand side followed by the variables that
+	// only appear in the right hand side.
+	return UnionOfVariables(c.Left().Variables(), c.Right().Variables())
 }
 
 // CompileConstraintsIntoScalarConstraints This method analyzes all constraints in an OptimizationProblem and converts them all
diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index d77957c..0a374cd 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -116,6 +116,9 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
 
+	if len(wrt) == 0 {
+		wrt = append(wrt, sc.Variables())
+	}
 	A = newLHS.LinearCoeff(wrt...)
 
 	if sc.Sense == SenseGreaterThanEqual {
@@ -173,6 +176,9 @@ func (sc ScalarConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
+	if len(wrt) == 0 {
+		wrt = append(wrt, sc.Variables())
+	}
 	C = newLHS.LinearCoeff(wrt...)
 
 	// Create d
diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index fa1edc1..6a981c2 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -204,6 +204,9 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 func (vc VectorConstraint) linearCoeffAndConstant(wrt ...[]Variable) (M mat.Dense, n mat.VecDense) {
 	simplified := vc.AsSimplifiedConstraint()
 
+	if len(wrt) == 0 {
+		wrt = append(wrt, vc.Variables())
+	}
 	M = simplified.Left().(PolynomialLikeVector).LinearCoeff(wrt...)
 	n = simplified.Right().(VectorExpression).Constant()
 
-- 
2.43.0


From f53a9f97122b0c30b4c8b6f9690932642d289816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 25/43] fix: reject equality constraints in the scalar linear
 inequality representation like in the vector one

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 0a374cd..d6592c9 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From 57fc3c79ca9cf37d56e350d6ccd05296d4bc6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:46 +0000
Subject: [PATCH 26/43] fix: compare vectors and matrices of any kind once
 their dimensions conform

---
 symbolic/monomial_vector.go   | 10 ++++++++++
 symbolic/polynomial_matrix.go |  7 +++++++
 symbolic/variable_matrix.go   |  2 ++
 symbolic/variable_vector.go   |  8 ++++++++
 4 files changed, 27 insertions(+)

diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 9f8cd9a..1245c8e 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -314,6 +314,10 @@ func (mv MonomialVector) Comparison(rightIn interface{}, sense ConstrSense) Cons
 			RightHandSide: VecDenseToKVector(tempVD),
 			Sense:         sense,
 		}
+	case mat.VecDense:
+		return mv.Comparison(VecDenseToKVector(rhs), sense)
+	case *mat.VecDense:
+		return mv.Comparison(VecDenseToKVector(*rhs), sense)
 	case KVector:
 		return VectorConstraint{
 			LeftHandSide:  mv,
@@ -332,6 +336,12 @@ func (mv MonomialVector) Comparison(rightIn interface{}, sense ConstrSense) Cons
 			RightHandSide: rhs,
 			Sense:         sense,
 		}
+	case PolynomialVector:
+		return VectorConstraint{
+			LeftHandSide:  mv,
+			RightHandSide: rhs,
+			Sense:         sense,
+		}
 	}
 
 	panic(
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index ad0505f..e276260 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -419,6 +419,13 @@ func (pm PolynomialMatrix) Comparison(e interface{}, sense ConstrSense) Constrai
 			RightHandSide: right,
 			Sense:         sense,
 		}
+	case VariableMatrix, MonomialMatrix, PolynomialMatrix:
+		rightAsME, _ := ToMatrixExpression(right)
+		return MatrixConstraint{
+			LeftHandSide:  pm,
+			RightHandSide: rightAsME,
+			Sense:         sense,
+		}
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index d2ba9f4..8c0d675 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -388,6 +388,8 @@ func (vm VariableMatrix) Comparison(rightIn interface{}, sense ConstrSense) Cons
 		KAsDense.Scale(float64(right), &onesMat)
 
 		return vm.Comparison(KAsDense, sense)
+	case *mat.Dense:
+		return vm.Comparison(DenseToKMatrix(*right), sense)
 	case mat.Dense:
 		// Use the KMatrix case
 		return vm.Comparison(DenseToKMatrix(right), sense)
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 54a61ec..2703c75 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -284,6 +284,14 @@ func (vv VariableVector) Comparison(rightIn interface{}, sense ConstrSense) Cons
 
 	// Algorithm
 	switch rhsConverted := rightIn.(type) {
+	case float64:
+		return vv.Comparison(K(rhsConverted), sense)
+	case K:
+		// Compare every element with the constant
+		tempVD := OnesVector(vv.Len())
+		tempVD.ScaleVec(float64(rhsConverted), &tempVD)
+
+		return vv.Comparison(VecDenseToKVector(tempVD), sense)
 	case *mat.VecDense:
 		rhsAsKVector := VecDenseToKVector(*rhsConverted)
 		return vv.Comparison(rhsAsKVector, sense)
-- 
2.43.0


From 4ea17900b55b48e265a0e80c3d7260c82db76ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:26 +0000
Subject: [PATCH 27/43] fix: give new variables an ID that no tracked variable
 uses

The ID was the number of tracked variables, which may belong to a variable that
was registered with TrackVariable.
---
 symbolic/variable.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 4e6e7e5..78779fe 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -386,6 +386,30 @@ func (v Variable) Transpose() Expression {
 	return v
 }
 
+// nextVariableID returns an ID that is not used by any of the variables tracked by the environment.
+// Usually, this is the number of tracked variables, but that ID may already belong to a variable
+// that was not created in this environment.
+func nextVariableID(env Environment) uint64 {
+	tracked := env.AllTrackedVariables()
+
+	idIsUsed := func(id uint64) bool {
+		for _, v := range tracked {
+			if v.ID == id {
+				return true
+			}
+		}
+		return false
+	}
+
+	// Search for the next free ID
+	nextID := uint64(len(tracked))
+	for idIsUsed(nextID) {
+		nextID++
+	}
+
+	return nextID
+}
+
 // NewVariable creates a new continuous variable in the given environment
 // (or the default environment if none is provided).
 func NewVariable(envs ...Environment) Variable {
@@ -404,11 +428,11 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
@@ -435,11 +459,11 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-- 
2.43.0


From ee4245d6f32463f693a622570bfbd137e49fe058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 28/43] fix: report empty constant matrices and rows of
 different lengths in KMatrix.Check

---
 symbolic/constant_matrix.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 66455ce..6e421af 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -11,9 +11,26 @@ import (
 type KMatrix [][]K
 
 // Check Checks to make sure that the constant is initialized properly.
-// ConstantMatrix objects are always initialized properly, so this should always return
-// no error.
+// A constant matrix must contain at least one row, and all of its rows must have the same length.
 func (km KMatrix) Check() error {
+	// Check that the matrix has at least one row
+	if len(km) == 0 {
+		return smErrors.EmptyMatrixError{Expression: km}
+	}
+
+	// Check that the number of columns is the same in each row
+	numColumns := len(km[0])
+	for ii, row := range km {
+		if len(row) != numColumns {
+			return smErrors.MatrixColumnMismatchError{
+				ExpectedNColumns: numColumns,
+				ActualNColumns:   len(row),
+				Row:              ii,
+			}
+		}
+	}
+
+	// All checks passed
 	return nil
 }
 
-- 
2.43.0


From f62e6d2d40d715c20f2cb3b069b64420dd9a9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:42 +0000
Subject: [PATCH 29/43] fix: reject malformed substitutions into constants like
 into every other expression

---
 symbolic/constant.go        | 17 +++++++++++++++++
 symbolic/constant_matrix.go | 17 +++++++++++++++++
 symbolic/constant_vector.go | 17 +++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/symbolic/constant.go b/symbolic/constant.go
index 90fc8df..4dbe575 100644
--- a/symbolic/constant.go
+++ b/symbolic/constant.go
@@ -335,11 +335,28 @@ func (c K) String() string {
 
 // Substitute Substitutes the variable vIn with the expression eIn.
 func (c K) Substitute(vIn Variable, eIn ScalarExpression) Expression {
+	// Input Processing
+	err := vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = eIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return c
 }
 
 // SubstituteAccordingTo Substitutes the variables in the map with the corresponding expressions.
 func (c K) SubstituteAccordingTo(subMap map[Variable]Expression) Expression {
+	// Check that the substitution map is valid
+	err := CheckSubstitutionMap(subMap)
+	if err != nil {
+		panic(err)
+	}
+
 	return c
 }
 
diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 6e421af..2d7dffc 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -603,12 +603,29 @@ func (km KMatrix) Degree() int {
 
 // Substitute Substitutes all occurrences of variable vIn with the expression eIn. Because a constant matrix contains no variables, this function always returns the original matrix.
 func (km KMatrix) Substitute(vIn Variable, eIn ScalarExpression) Expression {
+	// Input Processing
+	err := vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = eIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return km
 }
 
 // SubstituteAccordingTo Substitutes all occurrences of the variables in the map with the corresponding expressions.
 // Similar to the above, there are no variables in a constant matrix and so this will always return the constant matrix.
 func (km KMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) Expression {
+	// Check that the substitution map is valid
+	err := CheckSubstitutionMap(subMap)
+	if err != nil {
+		panic(err)
+	}
+
 	return km
 }
 
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 2e92163..e9ca071 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -517,12 +517,29 @@ func (kv KVector) Degree() int {
 // Substitute Substitutes all occurrences of variable vIn with the expression eIn.
 // Because a KVector contains no variables, this will always return a copy of the original vector.
 func (kv KVector) Substitute(vIn Variable, eIn ScalarExpression) Expression {
+	// Input Processing
+	err := vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = eIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return kv
 }
 
 // SubstituteAccordingTo Substitutes all occurrences of the variables in the map with the corresponding expressions.
 // As mentioned above, the constant vector contains no variables, so this substitution should always return the original constant vector.
 func (kv KVector) SubstituteAccordingTo(subMap map[Variable]Expression) Expression {
+	// Check that the substitution map is valid
+	err := CheckSubstitutionMap(subMap)
+	if err != nil {
+		panic(err)
+	}
+
 	return kv
 }
 
-- 
2.43.0


From 47c9e242c6f32e53227acd139892db85803fd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 30/43] fix: reject malformed variables in sums and derivatives
 of every kind

---
 symbolic/constant.go        |  6 ++++++
 symbolic/constant_matrix.go | 11 +++++++++++
 symbolic/constant_vector.go |  6 ++++++
 symbolic/monomial_vector.go |  5 +++++
 symbolic/variable.go        |  8 ++++++++
 symbolic/variable_matrix.go |  5 +++++
 6 files changed, 41 insertions(+)

diff --git a/symbolic/constant.go b/symbolic/constant.go
index 4dbe575..9791e7e 100644
--- a/symbolic/constant.go
+++ b/symbolic/constant.go
@@ -320,6 +320,12 @@ func (c K) ToPolynomial() Polynomial {
 
 // DerivativeWrt Computes the derivative of a constant, which should be 0 for any constant.
 func (c K) DerivativeWrt(vIn Variable) Expression {
+	// Input Processing
+	err := vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return Zero
 }
 
diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 2d7dffc..5b222d9 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -508,6 +508,17 @@ func Identity(dim int) mat.Dense {
 // DerivativeWrt Computes the derivative of the constant matrix with respect to the variable
 // v. For a constant matrix, this should create a matrix of all zeros (ZerosMatrix).
 func (km KMatrix) DerivativeWrt(vIn Variable) Expression {
+	// Input Processing
+	err := km.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return DenseToKMatrix(ZerosMatrix(km.Dims()[0], km.Dims()[1]))
 }
 
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index e9ca071..25eaa32 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -442,6 +442,12 @@ func ZerosVector(lengthIn int) mat.VecDense {
 // DerivativeWrt Computes the derivative of the symbolic expression with respect to the
 // variable vIn which should be a vector of all zeros.
 func (kv KVector) DerivativeWrt(vIn Variable) Expression {
+	// Input Processing
+	err := vIn.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	return VecDenseToKVector(ZerosVector(kv.Len()))
 }
 
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 1245c8e..e992689 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -361,6 +361,11 @@ func (mv MonomialVector) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	var ev []Expression
 	var monomialPresent bool = false
diff --git a/symbolic/variable.go b/symbolic/variable.go
index 78779fe..b0bd273 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 8c0d675..1c1c7ed 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -438,6 +438,11 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	kmOut := DenseToKMatrix(
 		ZerosMatrix(vm.Dims()[0], vm.Dims()[1]),
-- 
2.43.0


From dc287c12853beda16c4a11c388a8c3f37f96e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:01 +0000
Subject: [PATCH 31/43] fix: reject substitutions in malformed constant
 matrices

---
 symbolic/constant_matrix.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 5b222d9..0345ade 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -615,7 +615,12 @@ func (km KMatrix) Degree() int {
 // Substitute Substitutes all occurrences of variable vIn with the expression eIn. Because a constant matrix contains no variables, this function always returns the original matrix.
 func (km KMatrix) Substitute(vIn Variable, eIn ScalarExpression) Expression {
 	// Input Processing
-	err := vIn.Check()
+	err := km.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
 	if err != nil {
 		panic(err)
 	}
@@ -631,8 +636,14 @@ func (km KMatrix) Substitute(vIn Variable, eIn ScalarExpression) Expression {
 // SubstituteAccordingTo Substitutes all occurrences of the variables in the map with the corresponding expressions.
 // Similar to the above, there are no variables in a constant matrix and so this will always return the constant matrix.
 func (km KMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) Expression {
+	// Check that the matrix is well formed
+	err := km.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Check that the substitution map is valid
-	err := CheckSubstitutionMap(subMap)
+	err = CheckSubstitutionMap(subMap)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 01378e8ab7fbb4cef7f2646e4d2dbb187233cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:06 +0000
Subject: [PATCH 32/43] fix: reject malformed scalar constraints in
 simplification like vector and matrix constraints

---
 symbolic/scalar_constraint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index d6592c9..5699c9c 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -264,6 +264,12 @@ func (sc ScalarConstraint) AsSimplifiedConstraint() Constraint {
 // asSimplifiedScalarConstraint moves all variables of the constraint to its left hand side
 // and all constants, including those of the left hand side, to its right hand side.
 func (sc ScalarConstraint) asSimplifiedScalarConstraint() ScalarConstraint {
+	// Input Processing
+	err := sc.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Move the variables to the left hand side
 	simplified := sc.Simplify()
 	simplified.LeftHandSide = simplified.LeftHandSide.AsSimplifiedExpression().(ScalarExpression)
-- 
2.43.0


From 13f4f0f5ca907c1c87b83f320603f5af9975f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 33/43] fix: reject empty rows and surplus variable lists like
 in every other kind

---
 symbolic/constant.go          |  9 ++++++++-
 symbolic/matrix_expression.go | 11 ++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant.go b/symbolic/constant.go
index 9791e7e..6180001 100644
--- a/symbolic/constant.go
+++ b/symbolic/constant.go
@@ -46,9 +46,16 @@ func (c K) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 
 	// Input Processing
 	var wrtVars []Variable = []Variable{}
-	if len(wrt) > 0 {
+	switch len(wrt) {
+	case 0:
+		// There are no variables in a constant
+	case 1:
 		// If the user provided a slice of variables, use that instead
 		wrtVars = wrt[0]
+	default:
+		panic(
+			fmt.Errorf("Too many inputs provided to K.LinearCoeff() method."),
+		)
 	}
 
 	if len(wrtVars) == 0 {
diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 5ee428a..a3e8d18 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -334,8 +334,17 @@ func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 		)
 	}
 
-	// - Check the number of columns in each row is the same
+	// - Check that the rows of the input slice are not empty
 	numCols := len(sliceIn[0])
+	if numCols == 0 {
+		panic(
+			fmt.Errorf(
+				"the rows of the input slice are empty, which is not recognized as a MatrixExpression.",
+			),
+		)
+	}
+
+	// - Check the number of columns in each row is the same
 	for ii, row := range sliceIn {
 		if len(row) != numCols {
 			panic(
-- 
2.43.0


From 17ee1f4820e1bd09f9b2a4c235e79bc110731cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 34/43] fix: open the rows of printed constant matrices with
 one bracket

---
 symbolic/constant_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 0345ade..b0b146b 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -540,7 +540,7 @@ func (km KMatrix) String() string {
 		// Add "]," and newline if not last row
 		out += "]"
 		if ii != nR-1 {
-			out += ",\n ["
+			out += ",\n "
 		} else {
 			out += "]\n"
 		}
-- 
2.43.0


From 3973b2d79eec829295d01352ab18ad3c7bc44080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 35/43] fix: scale by a 1x1 matrix in every product of matrices

---
 symbolic/constant_matrix.go   | 12 +++++++++++-
 symbolic/matrix_expression.go |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index b0b146b..31d9409 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -258,6 +258,11 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 		out = ConcretizeExpression(product)
 
 	case *mat.VecDense:
+		if km.Dims()[1] != right.Len() {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(km, VecDenseToKVector(*right))
+			break
+		}
 		// Use gonum's built-in multiplication function
 		var product mat.VecDense
 		kmAsDense := km.ToDense()
@@ -302,7 +307,12 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 	case *mat.Dense:
 		// Check output dimensions
 		nOutputR := km.Dims()[0]
-		_, nOutputCols := right.Dims()
+		nRightRows, nOutputCols := right.Dims()
+		if km.Dims()[1] != nRightRows {
+			// Then, one of the operands has just one element.
+			out = multiplyTemplate(km, DenseToKMatrix(*right))
+			break
+		}
 
 		kmAsDense := km.ToDense()
 		var prod mat.Dense
diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index a3e8d18..9d913a2 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -194,6 +194,11 @@ func MatrixMultiplyTemplate(left MatrixExpression, right MatrixExpression) Expre
 	rightDims := right.Dims()
 
 	if leftDims[1] != rightDims[0] {
+		if smErrors.IsScalarExpression(left) || smErrors.IsScalarExpression(right) {
+			// One of the operands has just one element.
+			return multiplyTemplate(left, right)
+		}
+
 		panic(
 			smErrors.MatrixDimensionError{
 				Arg1:      left,
-- 
2.43.0


From b54b08daa4c97b8671c434306c5b6b1b37a2257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 36/43] fix: compare constant matrices with numbers like with
 constants

---
 symbolic/constant_matrix.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 31d9409..6fc3016 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -428,6 +428,8 @@ func (km KMatrix) Comparison(rightIn interface{}, sense ConstrSense) Constraint
 
 	// Algorithm
 	switch right := rightIn.(type) {
+	case float64:
+		return km.Comparison(K(right), sense) // Call the K case
 	case K:
 		// Create a matrix of all elements with value right
 		ones := OnesMatrix(km.Dims()[0], km.Dims()[1])
-- 
2.43.0


From 46204b623317234f2381af9eb048e934bb3a84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 37/43] fix: MonomialMatrix operations name MonomialMatrix when
 they refuse an operand

The errors for unsupported operands of Plus, Minus, Multiply and Comparison said
that MonomialVector had received the operand.
---
 symbolic/monomial_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 12fce3f..2a7d099 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -211,7 +211,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		}
 		panic(
 			smErrors.UnsupportedInputError{
-				FunctionName: "MonomialVector.Plus",
+				FunctionName: "MonomialMatrix.Plus",
 				Input:        right,
 			},
 		)
@@ -245,7 +245,7 @@ func (mm MonomialMatrix) Minus(e interface{}) Expression {
 	// If we've gotten this far, the input is not recognized
 	panic(
 		smErrors.UnsupportedInputError{
-			FunctionName: "MonomialVector.Minus",
+			FunctionName: "MonomialMatrix.Minus",
 			Input:        e,
 		},
 	)
@@ -346,7 +346,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 	// Unrecognized response is a panic
 	panic(
 		smErrors.UnsupportedInputError{
-			FunctionName: "MonomialVector.Multiply",
+			FunctionName: "MonomialMatrix.Multiply",
 			Input:        e,
 		},
 	)
@@ -445,7 +445,7 @@ func (mm MonomialMatrix) Comparison(rightIn interface{}, sense ConstrSense) Cons
 
 	panic(
 		smErrors.UnsupportedInputError{
-			FunctionName: "MonomialVector.Comparison (" + sense.String() + ")",
+			FunctionName: "MonomialMatrix.Comparison (" + sense.String() + ")",
 			Input:        rightIn,
 		},
 	)
-- 
2.43.0


From aefd7a8dde89e6740bba42dc5c27861a7917b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:18 +0000
Subject: [PATCH 38/43] fix: report vector dimensions only of operands that
 have a vector length

---
 smErrors/matrix_dimension_error.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smErrors/matrix_dimension_error.go b/smErrors/matrix_dimension_error.go
index 024a874..489cf4e 100644
--- a/smErrors/matrix_dimension_error.go
+++ b/smErrors/matrix_dimension_error.go
@@ -205,12 +205,14 @@ func CheckDimensionsInComparison(arg1, arg2 MatrixLike, comparisonType string) e
 	if !dimsAreMatched {
 		// Return a specific type of error based on if this was a vector comparison
 		// or a matrix comparison
-		bothAreVectors := (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1)
+		arg1AsVector, arg1IsVector := arg1.(VectorLike)
+		arg2AsVector, arg2IsVector := arg2.(VectorLike)
+		bothAreVectors := arg1IsVector && arg2IsVector && (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1)
 		if bothAreVectors {
 			return VectorDimensionError{
 				Operation: fmt.Sprintf("Comparison (%v)", string(comparisonType)),
-				Arg1:      arg1.(VectorLike),
-				Arg2:      arg2.(VectorLike),
+				Arg1:      arg1AsVector,
+				Arg2:      arg2AsVector,
 			}
 		} else {
 			return MatrixDimensionError{
-- 
2.43.0


From 23c0b03a403693d39a66ceeb3cc37bfdc42b8fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:17 +0000
Subject: [PATCH 39/43] fix: drop factors raised to the power of zero when
 simplifying

---
 symbolic/monomial.go   | 2 ++
 symbolic/polynomial.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index c398717..524bc71 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -769,6 +769,8 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 	if m.IsConstant() {
 		return K(m.Coefficient)
 	}
+	// - Factors that are raised to the power of zero do not matter
+	m = m.withoutZeroExponents()
 	// - If the monomial's coefficient is zero, return zero
 	if m.Coefficient == 0.0 {
 		return K(0.0)
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index db7a90f..6dec00e 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -516,7 +516,8 @@ func (p Polynomial) Simplify() Polynomial {
 				continue
 			}
 			// Otherwise, add the monomial to the slice of non-constant monomials
-			nonConstantMonomials = append(nonConstantMonomials, monomial)
+			// (without the factors that are raised to the power of zero)
+			nonConstantMonomials = append(nonConstantMonomials, monomial.withoutZeroExponents())
 		}
 	}
 	// If the constant monomial is not zero and there are no other monomials,
-- 
2.43.0


From 00d9c31ddeb02a38b9ff049dee3be9caa9b76d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:07 +0000
Subject: [PATCH 40/43] fix: return a list of its own from Monomial.Variables

---
 symbolic/monomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 524bc71..24c078e 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -40,7 +40,9 @@ func (m Monomial) Check() error {
 // Variables returns the unique variables in the monomial.
 // TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	variables := make([]Variable, len(m.VariableFactors))
+	copy(variables, m.VariableFactors)
+	return variables
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
-- 
2.43.0


From 9aaa38646df1a18d3a72f7164f6cd329bd254feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 41/43] fix: return a list of its own from
 BasicEnvironment.AllTrackedVariables

---
 symbolic/basic_environment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic/basic_environment.go b/symbolic/basic_environment.go
index f89a416..a06e771 100644
--- a/symbolic/basic_environment.go
+++ b/symbolic/basic_environment.go
@@ -29,8 +29,9 @@ func (be *BasicEnvironment) TrackVariable(v Variable) bool {
 }
 
 // AllTrackedVariables returns a slice of all variables tracked by the environment.
+// The slice belongs to the caller: changing it does not change the environment.
 func (be *BasicEnvironment) AllTrackedVariables() []Variable {
-	return be.Variables
+	return append([]Variable{}, be.Variables...)
 }
 
 // MakeBasicEnvironment creates a new BasicEnvironment with the given name.
-- 
2.43.0


From 95b187cea6672ec1135bf2e5cd758a408fcc2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:15 +0000
Subject: [PATCH 42/43] fix: report an error for a search of an identifier in a
 slice of another type

---
 symbolic/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symbolic/utils.go b/symbolic/utils.go
index 0285edd..c34d237 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -57,7 +57,14 @@ func FindInSlice(xIn interface{}, sliceIn interface{}) (int, error) {
 		return xLocationInSliceIn, nil
 
 	case uint64:
-		slice := sliceIn.([]uint64)
+		slice, ok := sliceIn.([]uint64)
+		if !ok {
+			return -1, fmt.Errorf(
+				"the input slice is of type %T, but the element we're searching for is of type %T",
+				sliceIn,
+				x,
+			)
+		}
 
 		// Perform Search
 		xLocationInSliceIn := -1
-- 
2.43.0


From fdfd818b46ac1ed09bd3230b295cc4901a689b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:07 +0000
Subject: [PATCH 43/43] fix: substitute a variable by map even if its name or
 bounds changed

---
 symbolic/utils.go    | 19 +++++++++++++++++++
 symbolic/variable.go | 12 ++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/symbolic/utils.go b/symbolic/utils.go
index c34d237..2b89723 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -156,7 +156,16 @@ func CheckDimensionsInComparison(left, right Expression, senseIn ConstrSense) er
 // 2. Valid expressions as values
 // 3. The values should also be scalar expressions
 func CheckSubstitutionMap(subMap map[Variable]Expression) error {
+	// Constants
+	type identity struct {
+		ID          uint64
+		Environment Environment
+	}
+
+	// Setup
 	var err error
+	seen := make(map[identity]bool, len(subMap))
+
 	// Check each key, value pair in the map
 	for tempVar, tempExpr := range subMap {
 		// Verify that the key is a valid variable
@@ -169,6 +178,16 @@ func CheckSubstitutionMap(subMap map[Variable]Expression) error {
 			)
 		}
 
+		// Verify that no other key is the same variable (with e.g. another name)
+		tempIdentity := identity{tempVar.ID, tempVar.Environment}
+		if seen[tempIdentity] {
+			return fmt.Errorf(
+				"the substitution map contains several values for the variable %v",
+				tempVar,
+			)
+		}
+		seen[tempIdentity] = true
+
 		// Verify that the value is a valid expression
 		err = tempExpr.Check()
 		if err != nil {
diff --git a/symbolic/variable.go b/symbolic/variable.go
index b0bd273..de8d98d 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -582,9 +582,17 @@ func (v Variable) SubstituteAccordingTo(subMap map[Variable]Expression) Expressi
 	// Algorithm
 	if e, ok := subMap[v]; ok {
 		return e
-	} else {
-		return v
 	}
+
+	// The key may have received another name, type or other bounds than v.
+	// Note: As in Substitute(), it is the same variable if the ID and the environment match.
+	for key, e := range subMap {
+		if key.ID == v.ID && key.Environment == v.Environment {
+			return e
+		}
+	}
+
+	return v
 }
 
 // Power Computes the power of the variable.
-- 
2.43.0

