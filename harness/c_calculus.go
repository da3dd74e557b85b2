package main

// C04 powers, C05 differentiation, C06/C07 substitution.

import (
	"fmt"
	"sort"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

func unaryKey(op string, x interface{}, m Mat) string {
	k := kindOf(x)
	return fmt.Sprintf("%s %s%s", op, k, shapeSuffix(k, m))
}

// checkUn compares one operation with the model; refused combinations are only
// tolerated when the support table does not list them.
func checkUn(t *T, op string, x interface{}, call func() interface{}, want Mat, desc func() string) (interface{}, bool) {
	key := unaryKey(op, x, mustDenote(x))
	var got interface{}
	c := t.Try(func() { got = call() })
	noteSupport(key, c)
	if c != nil {
		if supported(key) {
			t.Fail(op+":refused:"+key, "%s is refused: %v (the library supports this)", desc(), c)
		}
		t.Label("refused")
		return nil, false
	}
	cmpResult(t, op, got, want, desc)
	return got, true
}

func describe(s string) func() string { return func() string { return s } }

// ---------------------------------------------------------------- powers

// capPower lowers an exponent until the unmerged terms of the power stay below a budget.
func capPower(m Mat, n, budget int) int {
	terms := 1
	for _, p := range m.e {
		terms = max(terms, len(p))
	}
	if m.r > 1 {
		terms *= m.r
	}
	cost, k := 1, 0
	for k < n && cost*terms <= budget {
		cost *= terms
		k++
	}
	if terms == 1 {
		return n
	}
	return k
}

func powBase(ce *CE) (sym.Expression, int) {
	t := ce.t
	switch t.W(6, 2, 4, 2, 2) {
	case 4: // matrices whose powers stay short
		return shortMatrix(ce)
	case 3: // a single term, or two, to a high power
		e := t.Range(5, 24)
		if t.P(1, 4) {
			e = t.Range(20, 70)
		} else if t.P(1, 12) {
			e = []int{100, 127, 128, 129, 200, 255, 256, 257}[t.N(8)]
		}
		ce.maxExp = 2
		if t.P(1, 3) {
			ce.intish = true
			p := ce.polynomial()
			if len(p.Monomials) > 2 {
				p.Monomials = p.Monomials[:2]
			}
			return p, min(e, 13)
		}
		c := []float64{1, -1, 2, -2, 0.5, 3, -1.5, 1.1}[t.N(8)]
		if t.P(1, 4) {
			return ce.anyVar(), e
		}
		if t.P(1, 6) {
			return sym.K([]float64{0, 1, -1, 2, -2, 0.5, -1.5, 1.1}[t.N(8)]), e
		}
		m := ce.freshMonomial(false)
		m.Coefficient = c
		return m, e
	case 0:
		ce.small = t.P(2, 3)
		x := ce.scalar()
		n := t.W(2, 3, 4, 4, 3, 1, 1)
		if mustDenote(x).totalTerms() > 4 && n > 4 {
			n = 4
		}
		if n > 2 {
			n = max(2, capPower(mustDenote(x), n, 1500))
		}
		return x, n
	case 1:
		ce.small = true
		x, n := ce.withShape(1, 1, 1), t.Range(0, 4)
		if n > 2 {
			n = max(2, capPower(mustDenote(x), n, 1500))
		}
		return x, n
	}
	ce.small = true
	n := t.Range(1, 3)
	e := t.W(2, 3, 4, 2)
	k := ce.withShape(n, n, 2)
	if kindOf(k) == kPM && n == 3 && e > 2 {
		e = 2
	}
	return k, max(capPower(mustDenote(k), e, 600), min(e, 2))
}

// shortMatrix draws a square matrix of which powers have few terms per entry:
// constants, or at most one non-zero term in every row.
func shortMatrix(ce *CE) (sym.Expression, int) {
	t := ce.t
	n := t.Range(1, 5)
	e := t.Range(2, 12)
	if t.P(1, 3) {
		e = t.Range(10, 33)
	}
	num := func() float64 { return []float64{0, 0, 1, 1, -1, 2, 0.5, -0.5, 3}[t.N(9)] }
	if t.Bool() {
		rows := make([][]float64, n)
		for i := range rows {
			rows[i] = make([]float64, n)
			for j := range rows[i] {
				rows[i][j] = num()
			}
		}
		d := mat.NewDense(n, n, nil)
		for i := range rows {
			d.SetRow(i, rows[i])
		}
		return sym.DenseToKMatrix(*d), min(e, 14)
	}
	var mm sym.MonomialMatrix
	var pm sym.PolynomialMatrix
	kind := t.N(2)
	ce.maxExp = 2
	for i := 0; i < n; i++ {
		var row []sym.Monomial
		var prow []sym.Polynomial
		at := t.N(n)
		for j := 0; j < n; j++ {
			m := sym.Monomial{}
			if j == at && !t.P(1, 12) {
				m = ce.freshMonomial(false)
				m.Coefficient = []float64{1, 1, -1, 2, 0.5}[t.N(5)]
			}
			row = append(row, m)
			prow = append(prow, m.ToPolynomial())
		}
		mm, pm = append(mm, row), append(pm, prow)
	}
	if kind == 0 {
		return mm, min(e, 16)
	}
	return pm, min(e, 12)
}

func runPower(t *T) {
	ce := newCE(t)
	ce.alias = true
	x, n := powBase(ce)
	mx := mustDenote(x)
	t.Logf("%s ^ %d", show(x), n)
	t.Label("exponent %d", n)
	t.Label("base %s", kindOf(x))
	if n >= 2 && len(mx.vars()) > 0 {
		t.NonTrivial()
	}
	checkUn(t, "Power", x, func() interface{} { return x.Power(n) }, mPow(mx, n), func() string { return fmt.Sprintf("%s ^ %d", show(x), n) })
}

func runPowerLaws(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	x, _ := powBase(ce)
	a, b := t.Range(0, 3), t.Range(0, 2)
	mx := mustDenote(x)
	most := max(capPower(mx, 6, 300), 2)
	for a*b > most || a+b > most {
		if b > 1 || a <= 1 {
			b--
		} else {
			a--
		}
	}
	t.Logf("x=%s a=%d b=%d", show(x), a, b)
	if a+b >= 2 && len(mx.vars()) > 0 {
		t.NonTrivial()
	}
	want := mPow(mx, a+b)
	// repeated multiplication
	var prod sym.Expression = x
	if c := t.Try(func() {
		for i := 1; i < a+b; i++ {
			prod = prod.Multiply(x)
		}
	}); c == nil && a+b >= 1 {
		t.Label("repeated product")
		cmpResult(t, "Power:repeated", prod, want, describe("x*x*..."))
	}
	if pa, ok := try2(t, func() sym.Expression { return x.Power(a) }); ok {
		if pb, ok := try2(t, func() sym.Expression { return x.Power(b) }); ok {
			if p, ok := try2(t, func() sym.Expression { return pa.Multiply(pb) }); ok {
				t.Label("x^a*x^b")
				cmpResult(t, "Power:sum", p, want, describe("x^a * x^b"))
			}
		}
		if p, ok := try2(t, func() sym.Expression { return pa.Power(b) }); ok {
			t.Label("(x^a)^b")
			cmpResult(t, "Power:product", p, mPow(mx, a*b), describe("(x^a)^b"))
		}
	}
}

// ---------------------------------------------------------------- derivatives

func (ce *CE) diffVar() sym.Variable {
	if ce.t.P(1, 8) {
		return ce.absentVar()
	}
	return ce.anyVar()
}

func runDerivative(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	x := ce.expr()
	v := ce.diffVar()
	mx := mustDenote(x)
	t.Logf("d/dv%d %s", v.ID, show(x))
	t.Label("kind %s", kindOf(x))
	want := mMap(mx, func(p Poly) Poly { return pDiff(p, v.ID) })
	if !want.isZero() {
		t.NonTrivial()
	}
	got, ok := checkUn(t, "DerivativeWrt", x, func() interface{} { return x.DerivativeWrt(v) }, want, func() string { return fmt.Sprintf("d/dv%d of %s", v.ID, show(x)) })
	if !ok {
		return
	}
	// a second derivative: mixed partials commute
	u := ce.diffVar()
	e := got.(sym.Expression)
	w2 := mMap(want, func(p Poly) Poly { return pDiff(p, u.ID) })
	if d, ok := checkUn(t, "DerivativeWrt:second", e, func() interface{} { return e.DerivativeWrt(u) }, w2, func() string { return fmt.Sprintf("d/dv%d of %s", u.ID, show(e)) }); ok {
		if f, ok := try2(t, func() sym.Expression { return x.DerivativeWrt(u) }); ok {
			if g, ok := try2(t, func() sym.Expression { return f.DerivativeWrt(v) }); ok {
				t.Label("mixed partials")
				sameAs(t, "DerivativeWrt:mixed", d, g, w2)
			}
		}
	}
}

func runDerivativeLaws(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	lvl := t.N(3)
	r, c := 1, 1
	if lvl == 1 {
		r = t.Range(1, 3)
	} else if lvl == 2 {
		r, c = t.Range(1, 2), t.Range(1, 2)
	}
	x, y := ce.withShape(r, c, lvl), ce.withShape(r, c, lvl)
	s := ce.scalar()
	v := ce.anyVar()
	t.Logf("x=%s y=%s s=%s v=v%d", show(x), show(y), show(s), v.ID)
	mx, my, ms := mustDenote(x), mustDenote(y), mustDenote(s)
	d := func(m Mat) Mat { return mMap(m, func(p Poly) Poly { return pDiff(p, v.ID) }) }
	if !d(mx).isZero() && !d(ms).isZero() {
		t.NonTrivial()
	}
	if sum, ok := try2(t, func() sym.Expression { return x.Plus(y) }); ok {
		if ds, ok := try2(t, func() sym.Expression { return sum.DerivativeWrt(v) }); ok {
			t.Label("sum rule")
			cmpResult(t, "DerivativeWrt:sum", ds, d(mAdd(mx, my)), describe("d(x+y)"))
		}
	}
	// d(x s) = dx s + x ds
	if p, ok := try2(t, func() sym.Expression { return x.Multiply(s) }); ok {
		if dp, ok := try2(t, func() sym.Expression { return p.DerivativeWrt(v) }); ok {
			t.Label("product rule, left side")
			w := d(mMul(mx, ms))
			cmpResult(t, "DerivativeWrt:product", dp, w, describe("d(x*s)"))
			if q, ok := try2(t, func() sym.Expression {
				return x.DerivativeWrt(v).Multiply(s).Plus(x.Multiply(s.DerivativeWrt(v)))
			}); ok {
				t.Label("product rule, right side")
				cmpResult(t, "DerivativeWrt:product2", q, w, describe("dx*s + x*ds"))
			}
		}
	}
}

// ---------------------------------------------------------------- substitution

func runSubstitute(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = t.P(2, 3)
	ce.maxExp = 3
	x := ce.expr()
	v := ce.diffVar()
	ce.small = true
	var s sym.ScalarExpression
	switch t.W(12, 2, 4, 1) {
	case 3:
		s = sym.K([]float64{0, 1, -1}[t.N(3)])
	case 0:
		s = ce.scalar()
	case 1:
		s = v
	case 2: // rename, often to a variable that occurs as well
		s = ce.anyVar()
	}
	mx, ms := mustDenote(x), mustDenote(s)
	// bound the work
	if storedDegree(x) > 4 && storedTerms(s) > 2 || storedDegree(x)*storedDegree(s) > 150 || substTooLarge(x, storedTerms(s)) || leavesRange(x, s) {
		t.Discard("too large")
	}
	t.Logf("%s [v%d := %s]", show(x), v.ID, show(s))
	t.Label("kind %s", kindOf(x))
	t.Label("replacement %s", kindOf(s))
	occurs := mx.vars()[v.ID]
	if occurs && kindOf(x) != kV {
		t.NonTrivial()
	}
	if occurs && ms.vars()[v.ID] {
		t.Label("replacement mentions the variable")
	}
	want := mMap(mx, func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: ms.e[0]}) })
	got, ok := checkUn(t, "Substitute", x, func() interface{} { return x.Substitute(v, s) }, want, func() string { return fmt.Sprintf("%s [v%d := %s]", show(x), v.ID, show(s)) })
	if !ok {
		return
	}
	// a one-entry map does the same
	if g, ok := try2(t, func() sym.Expression {
		return x.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: s})
	}); ok {
		t.Label("one-entry map")
		cmpResult(t, "Substitute:map1", g, want, func() string { return fmt.Sprintf("map substitution %s [v%d := %s]", show(x), v.ID, show(s)) })
	}
	// evaluation afterwards: substitute numbers for all variables one by one
	pt := ce.point()
	e := got.(sym.Expression)
	if leavesRange(e, sym.K(10)) {
		return // the numbers leave the range of float64
	}
	vs := append([]sym.Variable{}, ce.vars...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	vs = append(vs, ce.absentVar())
	if c := t.Try(func() {
		for _, u := range vs {
			e = e.Substitute(u, sym.K(pt[u.ID]))
		}
	}); c == nil {
		t.Label("evaluated")
		sv, smass := ms.e[0].eval(pt)
		at := map[uint64]float64{}
		for k, q := range pt {
			at[k] = q
		}
		at[v.ID] = sv
		_ = smass
		wantV := mMap(want, func(p Poly) Poly {
			val, mass := p.eval(pt)
			q := Poly{}
			q.add(nil, val, mass)
			return q
		})
		cmpResult(t, "Substitute:evaluate", e, wantV, func() string { return fmt.Sprintf("evaluating %s at %v", show(got), pt) })
	}
}

// substMap draws a substitution; keys are distinct variables.
func substMap(ce *CE, x Mat) (map[sym.Variable]sym.Expression, map[uint64]Poly, string) {
	t := ce.t
	m := map[sym.Variable]sym.Expression{}
	mm := map[uint64]Poly{}
	desc := ""
	add := func(v sym.Variable, s sym.ScalarExpression) {
		m[v] = s
		mm[v.ID] = mustDenote(s).e[0]
		desc += fmt.Sprintf("v%d := %s; ", v.ID, show(s))
	}
	n := t.Range(0, len(ce.vars))
	keys := ce.varSubset(n)
	switch t.W(3, 5) {
	case 0: // cycle
		for i, v := range keys {
			add(v, keys[(i+1)%len(keys)])
		}
		if n >= 2 {
			t.Label("cycle")
		}
	case 1:
		for _, v := range keys {
			add(v, ce.scalar())
		}
	}
	if t.P(1, 6) {
		add(ce.absentVar(), ce.scalar())
	}
	return m, mm, desc
}

func runSubstituteMap(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	ce.maxExp = 2
	x := ce.expr()
	mx := mustDenote(x)
	m, mm, desc := substMap(ce, mx)
	big := 1
	for _, p := range mm {
		if len(p) > big {
			big = len(p)
		}
	}
	if big > 2 && storedDegree(x) > 4 || mapTooLarge(x, m) {
		t.Discard("too large")
	}
	t.Logf("%s [%s]", show(x), desc)
	t.Label("kind %s", kindOf(x))
	t.Label("map size %d", len(m))
	interact := 0
	vars := mx.vars()
	for v := range vars {
		if _, ok := mm[v]; ok {
			interact++
		}
	}
	chained := false
	for k, p := range mm {
		_ = k
		for v := range p.vars() {
			if _, ok := mm[v]; ok {
				chained = true
			}
		}
	}
	if interact >= 2 && chained {
		t.NonTrivial()
	}
	want := mMap(mx, func(p Poly) Poly { return pSubst(p, mm) })
	n := len(m)
	rounds := 2
	if n >= 2 {
		rounds = 5 // map iteration order varies from call to call
	}
	for i := 0; i < rounds; i++ {
		got, ok := checkUn(t, "SubstituteAccordingTo", x, func() interface{} { return x.SubstituteAccordingTo(m) }, want, func() string { return fmt.Sprintf("%s [%s]", show(x), desc) })
		if !ok {
			return
		}
		if i == 0 {
			// the entries alone give the entries of the result
			for r := 0; r < mx.r; r++ {
				for c := 0; c < mx.c; c++ {
					var ent sym.Expression
					if cc := t.Try(func() { ent = x.At(r, c).SubstituteAccordingTo(m) }); cc == nil {
						g := mustDenoteResult(t, "SubstituteAccordingTo:entry", got)
						if g.r == mx.r && g.c == mx.c {
							cmpResult(t, "SubstituteAccordingTo:entry", ent, scalarMat(want.at(r, c)), func() string { return fmt.Sprintf("entry (%d,%d) of %s [%s]", r, c, show(x), desc) })
						}
					}
				}
			}
		}
	}
}

func mustDenoteResult(t *T, what string, x interface{}) Mat {
	m, err := denote(x)
	if err != nil {
		t.Fail(what+":malformed", "malformed result %s: %v", show(x), err)
	}
	return m
}

func init() {
	assume := []string{
		"variables with distinct identifiers; no variable listed twice inside one monomial; exponents non-negative; coefficients finite",
		"coefficients compared with relative tolerance 1e-11 of the accumulated absolute mass of the exact computation",
	}
	register(&Property{ID: "C04", Rule: "a case is a base (scalar, one-entry vector or square matrix) and exponents; non-trivial when the base mentions a variable and the total exponent is at least two", Assume: assume, Families: []Family{
		{Name: "power", Quick: 40000, Thorough: 1000000, Rule: "one power against repeated model products", Run: runPower},
		{Name: "laws", Quick: 15000, Thorough: 400000, Rule: "x^a*x^b, (x^a)^b and x*x*... against the model", Run: runPowerLaws},
	}})
	register(&Property{ID: "C05", Rule: "a case is an expression and one or two variables; non-trivial when the (first) derivative is not identically zero (laws: both factors depend on the variable)", Assume: assume, Families: []Family{
		{Name: "derivative", Quick: 60000, Thorough: 1500000, Rule: "first and second partial derivative against the model, mixed partials commute", Run: runDerivative},
		{Name: "laws", Quick: 25000, Thorough: 600000, Rule: "sum and product rule", Run: runDerivativeLaws},
	}})
	register(&Property{ID: "C06", Rule: "a case is an expression, a variable and a replacement; non-trivial when the variable occurs in an expression that is not just that variable", Assume: assume, Families: []Family{
		{Name: "substitute", Quick: 200000, Thorough: 1200000, Rule: "one substitution against model composition; one-entry map; evaluation afterwards", Run: runSubstitute},
	}})
	register(&Property{ID: "C07", Rule: "a case is an expression and a map of replacements; non-trivial when at least two mapped variables occur in the expression and some replacement mentions a mapped variable", Assume: assume, Families: []Family{
		{Name: "map", Quick: 40000, Thorough: 1000000, Rule: "up to five calls of the map substitution against simultaneous model composition; entries alone", Run: runSubstituteMap},
	}})
}
