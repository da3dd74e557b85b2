package main

// C08 simplification, C10 structure, C11 variables/degree, C12 constants and coefficients.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// ---------------------------------------------------------------- canonical form

// scalarEntries lists the concrete scalars stored in a value.
func scalarEntries(x interface{}) []interface{} {
	var o []interface{}
	switch e := x.(type) {
	case sym.KVector:
		for _, v := range e {
			o = append(o, v)
		}
	case sym.VariableVector:
		for _, v := range e {
			o = append(o, v)
		}
	case sym.MonomialVector:
		for _, v := range e {
			o = append(o, v)
		}
	case sym.PolynomialVector:
		for _, v := range e {
			o = append(o, v)
		}
	case sym.KMatrix:
		for _, r := range e {
			for _, v := range r {
				o = append(o, v)
			}
		}
	case sym.VariableMatrix:
		for _, r := range e {
			for _, v := range r {
				o = append(o, v)
			}
		}
	case sym.MonomialMatrix:
		for _, r := range e {
			for _, v := range r {
				o = append(o, v)
			}
		}
	case sym.PolynomialMatrix:
		for _, r := range e {
			for _, v := range r {
				o = append(o, v)
			}
		}
	default:
		o = append(o, x)
	}
	return o
}

// termList is the list of (form, coefficient) a stored scalar consists of.
func termList(x interface{}) (keys []string, coefs []float64) {
	switch e := x.(type) {
	case sym.K:
		return []string{""}, []float64{float64(e)}
	case sym.Variable:
		return []string{keyOf([]pair{{e.ID, 1}})}, []float64{1}
	case sym.Monomial:
		return []string{monKey(e)}, []float64{e.Coefficient}
	case sym.Polynomial:
		for _, m := range e.Monomials {
			keys = append(keys, monKey(m))
			coefs = append(coefs, m.Coefficient)
		}
		return
	}
	return nil, nil
}

// notCanonical explains why a simplified value is not in canonical form ("" if it is).
func notCanonical(x interface{}) string {
	for i, s := range scalarEntries(x) {
		ks, cs := termList(s)
		seen := map[string]bool{}
		for j, k := range ks {
			if seen[k] {
				return fmt.Sprintf("entry %d (%s) has two terms of the same form", i, show(s))
			}
			seen[k] = true
			if len(ks) > 1 && cs[j] == 0 {
				return fmt.Sprintf("entry %d (%s) has a zero term", i, show(s))
			}
		}
		for _, m := range monomialsOf(s) {
			for _, q := range m.Exponents {
				if q == 0 {
					return fmt.Sprintf("entry %d (%s) has a factor raised to the power of zero", i, show(s))
				}
			}
		}
	}
	return ""
}

// termSets renders the non-zero terms of every entry, independent of order and kind.
func termSets(x interface{}) string {
	var o []string
	for _, s := range scalarEntries(x) {
		ks, cs := termList(s)
		var ts []string
		for j := range ks {
			if cs[j] != 0 {
				ts = append(ts, fmt.Sprintf("%v*%s", cs[j], ks[j]))
			}
		}
		sort.Strings(ts)
		o = append(o, strings.Join(ts, "+"))
	}
	return strings.Join(o, " | ")
}

// rawness counts the entries whose stored form is not already canonical.
func rawness(x interface{}) int {
	n := 0
	for _, s := range scalarEntries(x) {
		if notCanonical(s) != "" {
			n++
		} else if m, ok := s.(sym.Monomial); ok && (m.Coefficient == 0 || len(m.VariableFactors) == 0) {
			n++
		} else if p, ok := s.(sym.Polynomial); ok && len(p.Monomials) == 1 {
			n++
		}
	}
	return n
}

// rawExpr draws an expression in which unsimplified polynomials are frequent.
func (ce *CE) rawExpr() sym.Expression {
	t := ce.t
	k := []Kind{kP, kPV, kPM, kM, kMV, kMM, kK, kV, kKV, kVV, kKM, kVM}[t.W(8, 6, 6, 3, 3, 3, 1, 1, 1, 1, 1, 1)]
	return ce.exprOfKind(k)
}

// represent writes a polynomial in another way: terms reordered and split, factors
// permuted, zero terms added.
func (ce *CE) represent(p sym.Polynomial) sym.Polynomial {
	t := ce.t
	var ms []sym.Monomial
	for _, m := range p.Monomials {
		if m.Coefficient == math.Trunc(m.Coefficient) && math.Abs(m.Coefficient) < 1e6 && t.P(1, 3) {
			a := float64(t.Range(0, 8) - 4)
			x, y := ce.permuteMonomial(m), ce.permuteMonomial(m)
			x.Coefficient, y.Coefficient = a, m.Coefficient-a
			ms = append(ms, x, y)
		} else {
			ms = append(ms, ce.permuteMonomial(m))
		}
	}
	if t.P(1, 3) {
		z := ce.monomial(false)
		z.Coefficient = 0
		ms = append(ms, z)
	}
	if t.P(1, 3) {
		z := ce.monomial(false)
		z.Coefficient = float64(t.Range(1, 5))
		y := ce.permuteMonomial(z)
		y.Coefficient = -z.Coefficient
		ms = append(ms, z, y)
	}
	q := make([]sym.Monomial, len(ms))
	for i, j := range t.Perm(len(ms)) {
		q[i] = ms[j]
	}
	return sym.Polynomial{Monomials: q}
}

func checkSimplified(t *T, what string, x, got interface{}, want Mat) {
	cmpResult(t, what, got, want, func() string { return "simplifying " + show(x) })
	if why := notCanonical(got); why != "" {
		t.Fail(what+":canonical", "simplifying %s gives %s, which is not in canonical form: %s", show(x), show(got), why)
	}
}

func runSimplify(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	x := ce.rawExpr()
	mx := mustDenote(x)
	t.Logf("%s", show(x))
	t.Label("kind %s", kindOf(x))
	if rawness(x) > 0 && len(mx.vars()) > 0 {
		t.NonTrivial()
		t.Label("needs simplification")
	}
	got, ok := checkUn(t, "AsSimplifiedExpression", x, func() interface{} { return x.AsSimplifiedExpression() }, mx, func() string { return "simplifying " + show(x) })
	if !ok {
		return
	}
	checkSimplified(t, "AsSimplifiedExpression", x, got, mx)
	again := got.(sym.Expression)
	if c := t.Try(func() { again = again.AsSimplifiedExpression() }); c != nil {
		t.Fail("AsSimplifiedExpression:again", "simplifying the simplified %s: %v", show(got), c)
	}
	if termSets(again) != termSets(got) {
		t.Fail("AsSimplifiedExpression:idempotent", "simplifying again changes %s to %s", show(got), show(again))
	}
	// the kind-specific methods
	var alt interface{}
	switch e := x.(type) {
	case sym.Polynomial:
		if c := t.Try(func() { alt = e.Simplify() }); c != nil {
			t.Fail("Simplify:panic", "Simplify of %s: %v", show(x), c)
		}
	case sym.PolynomialVector:
		if c := t.Try(func() { alt = e.Simplify() }); c != nil {
			t.Fail("Simplify:panic", "Simplify of %s: %v", show(x), c)
		}
	case sym.PolynomialMatrix:
		if c := t.Try(func() { alt = e.Simplify() }); c != nil {
			t.Fail("Simplify:panic", "Simplify of %s: %v", show(x), c)
		}
	}
	if alt != nil {
		t.Label("Simplify")
		checkSimplified(t, "Simplify", x, alt, mx)
	}
}

func runConfluence(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	ce.intish = true // so that splitting and merging terms is exact
	p := ce.polynomial()
	q := ce.represent(p)
	mx := mustDenote(p)
	t.Logf("%s and %s", show(p), show(q))
	if rawness(q) > 0 && mx.e[0].nterms() >= 2 {
		t.NonTrivial()
	}
	var a, b sym.Expression
	if c := t.Try(func() { a = p.AsSimplifiedExpression(); b = q.AsSimplifiedExpression() }); c != nil {
		t.Fail("confluence:panic", "simplifying %s or %s: %v", show(p), show(q), c)
	}
	checkSimplified(t, "AsSimplifiedExpression", p, a, mx)
	checkSimplified(t, "AsSimplifiedExpression", q, b, mx)
	if termSets(a) != termSets(b) {
		t.Fail("confluence", "%s and %s denote the same polynomial but simplify to %s and %s", show(p), show(q), show(a), show(b))
	}
	// sums written in different orders
	if s, ok := try2(t, func() sym.Expression { return p.Plus(q) }); ok {
		if r, ok := try2(t, func() sym.Expression { return q.Plus(p).AsSimplifiedExpression() }); ok {
			var s2 sym.Expression
			if c := t.Try(func() { s2 = s.AsSimplifiedExpression() }); c != nil {
				t.Fail("confluence:panic", "simplifying %s: %v", show(s), c)
			}
			checkSimplified(t, "AsSimplifiedExpression", s, s2, pAddMat(mx, mx))
			if termSets(s2) != termSets(r) {
				t.Fail("confluence", "p+q and q+p simplify to %s and %s", show(s2), show(r))
			}
		}
	}
}

func pAddMat(a, b Mat) Mat { return mAdd(a, b) }

func scalarSlice(ce *CE, n int) ([]sym.ScalarExpression, string) {
	t := ce.t
	o := make([]sym.ScalarExpression, n)
	one := t.W(1, 1, 1, 1, 6) // often mixed kinds, sometimes all of one kind
	var s []string
	for i := range o {
		if one < 4 {
			o[i] = ce.value(Kind(one), 1, 1).(sym.ScalarExpression)
		} else {
			o[i] = ce.scalar()
		}
		s = append(s, show(o[i]))
	}
	return o, strings.Join(s, "; ")
}

func modelOf(rows [][]sym.ScalarExpression) Mat {
	m := newMat(len(rows), len(rows[0]))
	for i := range rows {
		for j := range rows[i] {
			m.e[i*m.c+j] = mustDenote(rows[i][j]).e[0]
		}
	}
	return m
}

// runConcretize assembles scalars with the three constructors. The C08 part is that
// the polynomials are unchanged, the C10 part that positions are.
func runConcretize(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	var x interface{}
	var want Mat
	var got interface{}
	var call func()
	what := ""
	kinds := map[Kind]bool{}
	switch t.W(2, 3, 3, 3, 3) {
	case 0:
		s := ce.scalar()
		x, want = s, mustDenote(s)
		what = "ConcretizeExpression scalar"
		kinds[kindOf(s)] = true
		call = func() { got = sym.ConcretizeExpression(s) }
		t.Logf("%s %s", what, show(s))
	case 1, 2:
		s, d := scalarSlice(ce, ce.dim(1, 5))
		x, want = s, mT(modelOf([][]sym.ScalarExpression{s}))
		for _, e := range s {
			kinds[kindOf(e)] = true
		}
		if t.Bool() {
			what = "ConcretizeVectorExpression"
			call = func() { got = sym.ConcretizeVectorExpression(s) }
		} else {
			what = "ConcretizeExpression slice"
			call = func() { got = sym.ConcretizeExpression(s) }
		}
		t.Logf("%s [%s]", what, d)
	default:
		r, c := ce.dim(1, 4), ce.dim(1, 4)
		rows := make([][]sym.ScalarExpression, r)
		flat, d := scalarSlice(ce, r*c)
		for i := range rows {
			rows[i] = flat[i*c : (i+1)*c]
		}
		for _, e := range flat {
			kinds[kindOf(e)] = true
		}
		x, want = rows, modelOf(rows)
		if t.Bool() {
			what = "ConcretizeMatrixExpression"
			call = func() { got = sym.ConcretizeMatrixExpression(rows) }
		} else {
			what = "ConcretizeExpression rows"
			call = func() { got = sym.ConcretizeExpression(rows) }
		}
		t.Logf("%s %dx%d [%s]", what, r, c, d)
	}
	_ = x
	t.Label(what)
	t.Label("kinds %d", len(kinds))
	if want.r*want.c > 1 && len(kinds) > 1 && len(want.vars()) > 0 {
		t.NonTrivial()
	}
	if c := t.Try(call); c != nil {
		t.Fail(what+":panic", "%s fails: %v", what, c)
	}
	cmpResult(t, what, got, want, func() string { return what })
}

// ---------------------------------------------------------------- C10

func hasShape(x sym.Expression, f func() []int) []int { return f() }

func runEntries(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	x := ce.expr()
	mx := mustDenote(x)
	t.Logf("%s", show(x))
	t.Label("kind %s", kindOf(x))
	if mx.r*mx.c > 1 {
		t.NonTrivial()
	}
	var dims []int
	if c := t.Try(func() { dims = x.Dims() }); c != nil || len(dims) != 2 || dims[0] != mx.r || dims[1] != mx.c {
		t.Fail("Dims", "Dims of %s is %v (%v), expected %dx%d", show(x), dims, c, mx.r, mx.c)
	}
	readAll := func(what string, e sym.Expression, m Mat) {
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				var s sym.Expression
				if c := t.Try(func() { s = e.At(i, j) }); c != nil {
					t.Fail(what+":panic", "At(%d,%d) of %s: %v", i, j, show(e), c)
				}
				cmpResult(t, what, s, scalarMat(m.at(i, j)), func() string { return fmt.Sprintf("At(%d,%d) of %s", i, j, show(e)) })
			}
		}
	}
	readAll("At", x, mx)
	if ve, ok := x.(sym.VectorExpression); ok {
		n := -1
		var es []sym.ScalarExpression
		if c := t.Try(func() { n = ve.Len(); es = ve.ToScalarExpressions() }); c != nil {
			t.Fail("ToScalarExpressions:panic", "listing the entries of %s: %v", show(x), c)
		}
		if n != mx.r {
			t.Fail("Len", "Len of %s is %d", show(x), n)
		}
		if l, ok := x.(interface{ Length() int }); ok {
			if l.Length() != mx.r {
				t.Fail("Length", "Length of %s is %d", show(x), l.Length())
			}
		}
		if len(es) != mx.r {
			t.Fail("ToScalarExpressions", "ToScalarExpressions of %s lists %d entries", show(x), len(es))
		}
		for i := range es {
			cmpResult(t, "ToScalarExpressions", es[i], scalarMat(mx.at(i, 0)), func() string { return fmt.Sprintf("entry %d listed for %s", i, show(x)) })
			var s sym.Expression
			if c := t.Try(func() { s = ve.AtVec(i) }); c != nil {
				t.Fail("AtVec:panic", "AtVec(%d) of %s: %v", i, show(x), c)
			}
			cmpResult(t, "AtVec", s, scalarMat(mx.at(i, 0)), func() string { return fmt.Sprintf("AtVec(%d) of %s", i, show(x)) })
		}
	}
	// transposition
	var tr, back sym.Expression
	if c := t.Try(func() { tr = x.Transpose() }); c != nil {
		t.Fail("Transpose:panic", "transposing %s: %v", show(x), c)
	}
	mt := mT(mx)
	cmpResult(t, "Transpose", tr, mt, func() string { return "transposing " + show(x) })
	readAll("At:transposed", tr, mt)
	if c := t.Try(func() { back = tr.Transpose() }); c != nil {
		t.Fail("Transpose:panic", "transposing %s: %v", show(tr), c)
	}
	cmpResult(t, "Transpose:twice", back, mx, func() string { return "transposing twice " + show(x) })
}

// blockWith draws a block with a fixed number of rows (or columns).
func blockWith(ce *CE, n int, rows bool) sym.Expression {
	t := ce.t
	m := t.W(4, 3, 2) + 1
	r, c := n, m
	if !rows {
		r, c = m, n
	}
	if r == 1 && c == 1 && t.P(2, 3) {
		return ce.scalar()
	}
	if c == 1 && t.P(2, 3) {
		return ce.withShape(r, 1, 1)
	}
	return ce.withShape(r, c, 2)
}

func runStack(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	horizontal := t.Bool()
	n := t.W(4, 5, 3) + 1
	k := t.W(2, 5, 4, 2) + 1
	var es []sym.Expression
	var ms []Mat
	kinds := map[Kind]bool{}
	name := "VStack"
	if horizontal {
		name = "HStack"
	}
	for i := 0; i < k; i++ {
		e := blockWith(ce, n, horizontal)
		es = append(es, e)
		ms = append(ms, mustDenote(e))
		kinds[kindOf(e)] = true
	}
	want := stackModel(ms, horizontal)
	t.Logf("%s of %s", name, showList(es))
	t.Label("%s %d blocks", name, k)
	if k >= 2 && len(want.vars()) > 0 {
		t.NonTrivial()
	}
	var got sym.Expression
	if c := t.Try(func() {
		if horizontal {
			got = sym.HStack(es...)
		} else {
			got = sym.VStack(es...)
		}
	}); c != nil {
		t.Fail(name+":panic", "%s of %s: %v", name, showList(es), c)
	}
	cmpResult(t, name, got, want, func() string { return name + " of " + showList(es) })
	// (stack of transposes) transposed
	var tr []sym.Expression
	if c := t.Try(func() {
		for _, e := range es {
			tr = append(tr, e.Transpose())
		}
		if horizontal {
			got = sym.VStack(tr...)
		} else {
			got = sym.HStack(tr...)
		}
		got = got.Transpose()
	}); c != nil {
		t.Fail(name+":panic", "stacking the transposes of %s: %v", showList(es), c)
	}
	cmpResult(t, name+":transposed", got, want, func() string { return "the transposed stack of the transposes of " + showList(es) })
}

func stackModel(ms []Mat, horizontal bool) Mat {
	if !horizontal {
		var tr []Mat
		for _, m := range ms {
			tr = append(tr, mT(m))
		}
		return mT(stackModel(tr, true))
	}
	c := 0
	for _, m := range ms {
		c += m.c
	}
	o := newMat(ms[0].r, c)
	off := 0
	for _, m := range ms {
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				o.e[i*c+off+j] = m.at(i, j)
			}
		}
		off += m.c
	}
	return o
}

func showList(es []sym.Expression) string {
	var s []string
	for _, e := range es {
		s = append(s, show(e))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// ---------------------------------------------------------------- C11

func polyLike(x interface{}) (sym.PolynomialLike, bool) {
	p, ok := x.(sym.PolynomialLike)
	return p, ok
}

// occurs is the set of variables that appear in the stored form at all.
func mentioned(x interface{}) map[uint64]bool {
	o := map[uint64]bool{}
	for _, s := range scalarEntries(x) {
		switch e := s.(type) {
		case sym.Variable:
			o[e.ID] = true
		case sym.Monomial:
			for _, v := range e.VariableFactors {
				o[v.ID] = true
			}
		case sym.Polynomial:
			for _, m := range e.Monomials {
				for _, v := range m.VariableFactors {
					o[v.ID] = true
				}
			}
		}
	}
	return o
}

func checkVarsDegree(t *T, x sym.Expression, exact bool) {
	mx := mustDenote(x)
	true1 := mx.vars()
	var vs []sym.Variable
	var ids []uint64
	n := -1
	if c := t.Try(func() { vs = x.Variables(); ids = sym.VariableIDs(x); n = sym.NumVariables(x) }); c != nil {
		t.Fail("Variables:panic", "variables of %s: %v", show(x), c)
	}
	seen := map[uint64]bool{}
	ment := mentioned(x)
	for _, v := range vs {
		if seen[v.ID] {
			t.Fail("Variables:twice", "Variables of %s lists v%d twice", show(x), v.ID)
		}
		seen[v.ID] = true
		if exact && !true1[v.ID] {
			t.Fail("Variables:extra", "Variables of %s lists v%d, which does not occur", show(x), v.ID)
		}
		if !ment[v.ID] {
			t.Fail("Variables:extra", "Variables of %s lists v%d, which it does not mention", show(x), v.ID)
		}
	}
	for id := range true1 {
		if !seen[id] {
			t.Fail("Variables:missing", "Variables of %s misses v%d", show(x), id)
		}
	}
	if n != len(vs) {
		t.Fail("NumVariables", "NumVariables of %s is %d, Variables lists %d", show(x), n, len(vs))
	}
	a := make([]string, 0)
	b := make([]string, 0)
	for _, v := range vs {
		a = append(a, fmt.Sprint(v.ID))
	}
	for _, id := range ids {
		b = append(b, fmt.Sprint(id))
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, ",") != strings.Join(b, ",") {
		t.Fail("VariableIDs", "VariableIDs of %s is %v, Variables lists %v", show(x), b, a)
	}
	var lin, quad bool
	deg := -1
	d := mx.degree()
	pl, isPL := polyLike(x)
	if !isPL {
		t.Fail("PolynomialLike", "%s offers no degree", show(x))
	}
	if c := t.Try(func() { deg = pl.Degree(); lin = sym.IsLinear(x); quad = sym.IsQuadratic(x) }); c != nil {
		t.Fail("Degree:panic", "degree of %s: %v", show(x), c)
	}
	if deg < d || (exact && deg != d) {
		t.Fail("Degree", "Degree of %s is %d, its true degree is %d", show(x), deg, d)
	}
	if exact && (lin != (d <= 1) || quad != (d <= 2)) {
		t.Fail("IsLinear", "IsLinear/IsQuadratic of %s are %v/%v, its degree is %d", show(x), lin, quad, d)
	}
	if !exact && (lin && d > 1 || quad && d > 2) {
		t.Fail("IsLinear", "IsLinear/IsQuadratic of %s are %v/%v, its degree is %d", show(x), lin, quad, d)
	}
	t.Label("degree %d", min(d, 6))
	// does it vary at all?
	var isC bool
	asked := true
	if c := t.Try(func() {
		switch y := x.(type) {
		case interface{ IsConstant() bool }:
			isC = y.IsConstant()
		case interface{ IsConstantVector() bool }:
			isC = y.IsConstantVector()
		default:
			asked = false
		}
	}); c != nil {
		t.Fail("IsConstant:panic", "IsConstant of %s: %v", show(x), c)
	}
	if asked {
		t.Label("asked whether constant")
		if isC && len(true1) > 0 || (exact || len(vs) == 0) && isC != (len(true1) == 0) {
			t.Fail("IsConstant", "%s is reported constant: %v; it contains %d variables", show(x), isC, len(true1))
		}
	}
	t.evals++
}

func runVarsDegree(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	var x sym.Expression
	if t.P(1, 3) {
		x = affineOrQuadratic(ce)
	} else {
		x = ce.expr()
	}
	t.Label("kind %s", kindOf(x))
	if len(mustDenote(x).vars()) >= 2 {
		t.NonTrivial()
	}
	t.Logf("%s", show(x))
	checkVarsDegree(t, x, false)
	var s sym.Expression
	if c := t.Try(func() { s = x.AsSimplifiedExpression() }); c != nil {
		t.Fail("simplify:panic", "simplifying %s: %v", show(x), c)
	}
	if _, err := denote(s); err != nil {
		t.Fail("simplify:malformed", "simplifying %s: %v", show(x), err)
	}
	t.Label("simplified")
	checkVarsDegree(t, s, !tinyTerms(s))
}

// tinyTerms is true when the model itself treats some stored non-zero coefficient as a rounding residue.
func tinyTerms(x interface{}) bool {
	for _, s := range scalarEntries(x) {
		_, cs := termList(s)
		for _, c := range cs {
			if c == 0 && len(cs) > 1 {
				return true
			}
		}
	}
	return false
}

func monomialsOf(s interface{}) []sym.Monomial {
	switch e := s.(type) {
	case sym.Monomial:
		return []sym.Monomial{e}
	case sym.Polynomial:
		return e.Monomials
	}
	return nil
}

// lowDegree draws expressions whose degree is 0, 1 or 2, near the classification borders.
func affineOrQuadratic(ce *CE) sym.Expression {
	t := ce.t
	me := ce.maxExp
	quad := t.Bool()
	mono := func() sym.Monomial {
		if !quad || t.Bool() {
			return ce.affineMonomial()
		}
		if t.Bool() {
			vs := ce.varSubset(2)
			ex := make([]int, len(vs))
			for i := range ex {
				ex[i] = 1
			}
			return ce.monomialWith(ce.coef(ce.raw), vs, ex)
		}
		return ce.monomialWith(ce.coef(ce.raw), ce.varSubset(1), []int{2})
	}
	poly := func() sym.Polynomial {
		p := ce.affinePolynomial()
		if quad {
			p.Monomials = append(append([]sym.Monomial{}, p.Monomials...), mono())
		}
		return p
	}
	ce.maxExp = me
	r, c := ce.dim(1, 3), ce.dim(1, 3)
	switch t.N(6) {
	case 0:
		return mono()
	case 1:
		return poly()
	case 2:
		o := make(sym.MonomialVector, r)
		for i := range o {
			o[i] = mono()
		}
		return o
	case 3:
		o := make(sym.PolynomialVector, r)
		for i := range o {
			o[i] = poly()
		}
		return o
	case 4:
		o := make(sym.MonomialMatrix, r)
		for i := range o {
			for j := 0; j < c; j++ {
				o[i] = append(o[i], mono())
			}
		}
		return o
	}
	o := make(sym.PolynomialMatrix, r)
	for i := range o {
		for j := 0; j < c; j++ {
			o[i] = append(o[i], poly())
		}
	}
	return o
}

// ---------------------------------------------------------------- C12

// constantOf calls Constant whatever its result type is.
func constantOf(t *T, x interface{}) (Mat, *caught, bool) {
	var out interface{}
	var c *caught
	switch e := x.(type) {
	case interface{ Constant() float64 }:
		c = t.Try(func() { out = e.Constant() })
	case interface {
		Constant() matVecDense
	}:
		c = t.Try(func() { out = e.Constant() })
	case interface {
		Constant() matDense
	}:
		c = t.Try(func() { out = e.Constant() })
	default:
		return Mat{}, nil, false
	}
	if c != nil {
		return Mat{}, c, true
	}
	m, err := denote(out)
	if err != nil {
		t.Fail("Constant:malformed", "Constant of %s: %v", show(x), err)
	}
	return m, nil, true
}

// linearCoeffOf calls LinearCoeff; the result is rows x len(wrt).
func linearCoeffOf(t *T, x interface{}, wrt ...[]sym.Variable) (Mat, *caught, bool) {
	var m Mat
	var c *caught
	switch e := x.(type) {
	case interface {
		LinearCoeff(wrt ...[]sym.Variable) matVecDense
	}:
		c = t.Try(func() {
			v := e.LinearCoeff(wrt...)
			m = newMat(1, v.Len())
			for i := 0; i < v.Len(); i++ {
				m.e[i] = pConst(v.AtVec(i))
			}
		})
	case interface {
		LinearCoeff(wrt ...[]sym.Variable) matDense
	}:
		c = t.Try(func() {
			v := e.LinearCoeff(wrt...)
			r, k := v.Dims()
			m = newMat(r, k)
			for i := 0; i < r; i++ {
				for j := 0; j < k; j++ {
					m.e[i*k+j] = pConst(v.At(i, j))
				}
			}
		})
	default:
		return Mat{}, nil, false
	}
	return m, c, true
}

func runCoefficients(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	var x sym.Expression
	if t.P(1, 2) {
		x = affineOrQuadratic(ce)
	} else {
		x = ce.expr()
	}
	mx := mustDenote(x)
	t.Logf("%s", show(x))
	t.Label("kind %s", kindOf(x))
	if len(mx.vars()) >= 2 {
		t.NonTrivial()
	}
	// the constant part
	want := mMap(mx, func(p Poly) Poly {
		c, mass := p.constant()
		q := Poly{}
		q.add(nil, c, mass)
		return q
	})
	got, c, ok := constantOf(t, x)
	if ok {
		key := unaryKey("Constant", x, mx)
		noteSupport(key, c)
		if c != nil && supported(key) {
			t.Fail("Constant:refused", "Constant of %s: %v", show(x), c)
		}
		if c == nil {
			if d := mDiffers(got, want); d != "" {
				t.Fail("Constant:value", "Constant of %s is %s: %s", show(x), got, d)
			}
		}
	}
	// linear coefficients, explicit list
	wantCoef := func(vs []sym.Variable) Mat {
		m := newMat(mx.r*mx.c, len(vs))
		for i := 0; i < mx.r*mx.c; i++ {
			for j, v := range vs {
				cc, mass := mx.e[i].linear(v.ID)
				q := Poly{}
				q.add(nil, cc, mass)
				m.e[i*m.c+j] = q
			}
		}
		return m
	}
	vs := ce.varSubset(t.Range(1, len(ce.vars)))
	if t.P(1, 3) {
		at := t.N(len(vs) + 1)
		vs = append(vs[:at:at], append([]sym.Variable{ce.absentVar()}, vs[at:]...)...)
	}
	var names []string
	for _, v := range vs {
		names = append(names, fmt.Sprintf("v%d", v.ID))
	}
	t.Logf("list %s", strings.Join(names, ","))
	lc, c, ok := linearCoeffOf(t, x, vs)
	if !ok {
		t.Label("offers no LinearCoeff")
		return
	}
	key := unaryKey("LinearCoeff", x, mx)
	noteSupport(key, c)
	if c != nil {
		if supported(key) {
			t.Fail("LinearCoeff:refused", "LinearCoeff(%s) of %s: %v", strings.Join(names, ","), show(x), c)
		}
		return
	}
	if d := mDiffers(lc, wantCoef(vs)); d != "" {
		t.Fail("LinearCoeff:value", "LinearCoeff(%s) of %s is %s: %s", strings.Join(names, ","), show(x), lc, d)
	}
	// without a list: the variables reported, in that order
	var own []sym.Variable
	if c := t.Try(func() { own = x.Variables() }); c != nil {
		return
	}
	if len(own) == 0 {
		// documented: rejected with an error about empty coefficients
		_, c, _ := linearCoeffOf(t, x)
		if c != nil && c.runtime {
			t.Fail("LinearCoeff:default", "LinearCoeff() of the constant %s crashes: %v", show(x), c)
		}
		t.Label("no variables")
		return
	}
	lo, c, _ := linearCoeffOf(t, x)
	key = unaryKey("LinearCoeff()", x, mx)
	noteSupport(key, c)
	if c != nil {
		if supported(key) {
			t.Fail("LinearCoeff:refused", "LinearCoeff() of %s: %v", show(x), c)
		}
		return
	}
	if d := mDiffers(lo, wantCoef(own)); d != "" {
		t.Fail("LinearCoeff:default", "LinearCoeff() of %s (variables in reported order) is %s: %s", show(x), lo, d)
	}
	// affine reconstruction
	if mx.degree() <= 1 && mx.c == 1 && got.e != nil {
		t.Label("affine")
		rec := newMat(mx.r, 1)
		for i := 0; i < mx.r; i++ {
			p := got.e[i]
			for j, v := range own {
				p = pAdd(p, pScale(pVar(v.ID), evalConst(lo.at(i, j))))
			}
			rec.e[i] = p
		}
		if d := mDiffers(rec, mx); d != "" {
			t.Fail("LinearCoeff:reconstruct", "constant plus coefficients of %s gives %s: %s", show(x), rec, d)
		}
	}
}

func evalConst(p Poly) float64 { c, _ := p.constant(); return c }

func init() {
	assume := []string{
		"variables with distinct identifiers; no variable listed twice inside one monomial; exponents non-negative; coefficients finite",
		"coefficients compared with relative tolerance 1e-11 of the accumulated absolute mass of the exact computation",
	}
	register(&Property{ID: "C08", Rule: "a case is an expression in raw (unsimplified) form, or scalars to assemble; non-trivial when some entry is not yet in simplest form and a variable occurs (concretize: several entries of several kinds; confluence: at least two terms survive)", Assume: assume, Families: []Family{
		{Name: "simplify", Quick: 120000, Thorough: 3000000, Rule: "value preserved, canonical, idempotent; Simplify methods agree", Run: runSimplify},
		{Name: "confluence", Quick: 60000, Thorough: 1500000, Rule: "two ways of writing one polynomial simplify to the same terms", Run: runConfluence},
		{Name: "concretize", Quick: 60000, Thorough: 1500000, Rule: "assembled entries denote the scalars they were made from", Run: runConcretize},
	}})
	register(&Property{ID: "C10", Rule: "a case is an expression, a list of blocks or scalars; non-trivial when it has more than one entry (stack: at least two blocks and a variable)", Assume: assume, Families: []Family{
		{Name: "entries", Quick: 80000, Thorough: 2000000, Rule: "At/AtVec/ToScalarExpressions/Len/Dims/Transpose against the stored entries", Run: runEntries},
		{Name: "stack", Quick: 60000, Thorough: 1500000, Rule: "HStack/VStack against the model, and through transposes", Run: runStack},
		{Name: "assemble", Quick: 60000, Thorough: 1500000, Rule: "Concretize* keep every entry at its position", Run: runConcretize},
	}})
	register(&Property{ID: "C11", Rule: "a case is an expression, raw and then simplified; non-trivial when at least two variables occur", Assume: assume, Families: []Family{
		{Name: "variables", Quick: 120000, Thorough: 3000000, Rule: "Variables, NumVariables, VariableIDs, Degree, IsLinear, IsQuadratic", Run: runVarsDegree},
	}})
	register(&Property{ID: "C12", Rule: "a case is an expression and a duplicate-free list of variables; non-trivial when at least two variables occur", Assume: assume, Families: []Family{
		{Name: "coefficients", Quick: 150000, Thorough: 3000000, Rule: "Constant and LinearCoeff against the model; affine reconstruction", Run: runCoefficients},
	}})
}
