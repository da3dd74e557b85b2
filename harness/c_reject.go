package main

// C18: ill-formed requests are rejected.

import (
	"fmt"
	"math"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// mustReject fails when the call answered. err may be set by calls that report errors.
func mustReject(t *T, key string, f func() (interface{}, error), desc func() string) *caught {
	var got interface{}
	var err error
	c := t.Try(func() { got, err = f() })
	if c == nil && err == nil {
		t.Fail("accepted:"+key, "%s is answered with %s instead of being rejected", desc(), safeShow(got))
	}
	if c == nil {
		return &caught{val: err, msg: err.Error(), where: "returned error"}
	}
	return c
}

func safeShow(x interface{}) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("a %T", x)
		}
	}()
	return show(x)
}

func ok1(e interface{}) (interface{}, error) { return e, nil }

// ---------------------------------------------------------------- dimensions

func namesDims(msg string, a, b [2]int) bool {
	return strings.Contains(msg, fmt.Sprintf("(%d,%d)", a[0], a[1])) && strings.Contains(msg, fmt.Sprintf("(%d,%d)", b[0], b[1])) ||
		strings.Contains(msg, fmt.Sprintf("%d", a[0])) && strings.Contains(msg, fmt.Sprintf("%d", b[0])) && (a[1] == b[1] || a[1] != b[1] && strings.Contains(msg, fmt.Sprintf("%d", a[1])) && strings.Contains(msg, fmt.Sprintf("%d", b[1])))
}

func dimsOf(m Mat) [2]int { return [2]int{m.r, m.c} }

func runBadDims(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	draw := func(expr bool) (interface{}, Mat) {
		n := int(numKinds)
		if expr {
			n = 12
		}
		k := Kind(t.N(n))
		for k.level() == 0 {
			k = Kind(t.N(n))
		}
		r, c := ce.shapeFor(k)
		x := ce.value(k, r, c)
		return x, mustDenote(x)
	}
	op := []string{"Plus", "Minus", "MinusHelper", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison", "HStack", "VStack", "Power", "VectorConstraint", "MatrixConstraint"}[t.N(13)]
	l0, a := draw(true)
	l := l0.(sym.Expression)
	r, b := draw(op == "MinusHelper" || op == "HStack" || op == "VStack" || op == "VectorConstraint" || op == "MatrixConstraint")
	if t.Bool() {
		// make near misses likely: same number of rows or columns
		for i := 0; i < 3; i++ {
			if a.r == b.r || a.c == b.c || a.c == b.r {
				break
			}
			r, b = draw(op == "MinusHelper" || op == "HStack" || op == "VStack" || op == "VectorConstraint" || op == "MatrixConstraint")
		}
	}
	bad := false
	switch op {
	case "Plus", "Minus", "MinusHelper", "LessEq", "GreaterEq", "Eq", "Comparison":
		bad = !addDefined(a, b)
	case "Multiply":
		bad = !mulDefined(a, b)
	case "HStack":
		bad = a.r != b.r
	case "VStack":
		bad = a.c != b.c
	case "Power":
		bad = a.r != a.c
	case "VectorConstraint":
		_, okl := l.(sym.VectorExpression)
		_, okr := r.(sym.VectorExpression)
		bad = okl && okr && !addDefined(a, b)
	case "MatrixConstraint":
		_, okl := l.(sym.MatrixExpression)
		_, okr := r.(sym.MatrixExpression)
		bad = okl && okr && !addDefined(a, b)
	}
	if !bad {
		t.Discard("conforms")
	}
	t.NonTrivial()
	t.Label("%s", op)
	t.Label("left %s", kindOf(l))
	t.Label("right %s", kindOf(r))
	t.Logf("%s: %s | %s", op, show(l), show(r))
	sense := senses[t.N(3)]
	n := t.N(4)
	f := func() (interface{}, error) {
		switch op {
		case "Plus":
			return ok1(l.Plus(r))
		case "Minus":
			return ok1(l.Minus(r))
		case "MinusHelper":
			return ok1(sym.Minus(l, r.(sym.Expression)))
		case "Multiply":
			return ok1(l.Multiply(r))
		case "LessEq":
			return ok1(l.LessEq(r))
		case "GreaterEq":
			return ok1(l.GreaterEq(r))
		case "Eq":
			return ok1(l.Eq(r))
		case "Comparison":
			return ok1(l.Comparison(r, sense))
		case "HStack":
			return ok1(sym.HStack(l, r.(sym.Expression)))
		case "VStack":
			return ok1(sym.VStack(l, r.(sym.Expression)))
		case "Power":
			return ok1(l.Power(n))
		case "VectorConstraint":
			k := sym.VectorConstraint{LeftHandSide: l.(sym.VectorExpression), RightHandSide: r.(sym.VectorExpression), Sense: sense}
			return onConstraint(t, ce, k, n)
		case "MatrixConstraint":
			k := sym.MatrixConstraint{LeftHandSide: l.(sym.MatrixExpression), RightHandSide: r.(sym.MatrixExpression), Sense: sense}
			return onConstraint(t, ce, k, n)
		}
		panic("harness: op")
	}
	c := mustReject(t, op+" dimensions", f, func() string {
		return fmt.Sprintf("%s of %s (%dx%d) and %s (%dx%d)", op, show(l), a.r, a.c, show(r), b.r, b.c)
	})
	if op == "Power" {
		return
	}
	msg := c.msg
	if op == "MatrixConstraint" {
		// its message gives the two row counts or the two column counts, whichever differ
		if a.r != b.r && strings.Contains(msg, fmt.Sprint(a.r)) && strings.Contains(msg, fmt.Sprint(b.r)) ||
			a.c != b.c && strings.Contains(msg, fmt.Sprint(a.c)) && strings.Contains(msg, fmt.Sprint(b.c)) {
			return
		}
	}
	if !namesDims(msg, dimsOf(a), dimsOf(b)) && !namesDims(msg, dimsOf(b), dimsOf(a)) {
		// an operand kind that is refused whatever its dimensions need not name them
		if strings.Contains(msg, "unsupported") || strings.Contains(msg, "not supported") {
			t.Label("refused kind")
			return
		}
		t.Fail("unnamed:"+op+" dimensions", "%s of %s (%dx%d) and %s (%dx%d) is rejected without naming the dimensions: %v", op, show(l), a.r, a.c, show(r), b.r, b.c, c)
	}
}

// runBadStack stacks two to five blocks of which exactly one does not fit.
func runBadStack(t *T) {
	ce := newCE(t)
	ce.small = true
	h := t.Bool()
	n := t.Range(2, 5)
	wrong := t.N(n)
	common, other := t.Range(1, 4), 0
	for other = t.Range(1, 5); other == common; other = common%5 + 1 {
	}
	var blocks []sym.Expression
	var dims [][2]int
	var text []string
	for i := 0; i < n; i++ {
		fit := common
		if i == wrong {
			fit = other
		}
		free := t.W(3, 2, 1) + 1
		r, c := fit, free
		if !h {
			r, c = free, fit
		}
		lvl := 2
		switch {
		case r == 1 && c == 1:
			lvl = t.N(3)
		case c == 1:
			lvl = t.Range(1, 2)
		}
		b := ce.withShape(r, c, lvl)
		blocks = append(blocks, b)
		dims = append(dims, [2]int{r, c})
		text = append(text, fmt.Sprintf("%s (%dx%d)", show(b), r, c))
	}
	name, f := "VStack", func() (interface{}, error) { return ok1(sym.VStack(blocks...)) }
	if h {
		name, f = "HStack", func() (interface{}, error) { return ok1(sym.HStack(blocks...)) }
	}
	t.Logf("%s of %s", name, strings.Join(text, " | "))
	t.Label("%s of %d", name, n)
	t.Label("misfit at %d", wrong)
	if n > 2 {
		t.NonTrivial()
	}
	c := mustReject(t, name+" blocks", f, func() string { return name + " of " + strings.Join(text, " | ") })
	for _, d := range dims {
		if d == dims[wrong] {
			continue
		}
		if namesDims(c.msg, d, dims[wrong]) || namesDims(c.msg, dims[wrong], d) {
			return
		}
	}
	if !strings.Contains(c.msg, fmt.Sprint(other)) {
		t.Fail("unnamed:"+name+" blocks", "%s of %s is rejected without naming the dimensions: %v", name, strings.Join(text, " | "), c)
	}
}

// onConstraint runs one operation of an ill-formed constraint.
func onConstraint(t *T, ce *CE, k sym.Constraint, which int) (interface{}, error) {
	v := ce.vars[0]
	ops := []func() (interface{}, error){
		func() (interface{}, error) { return nil, k.Check() },
		func() (interface{}, error) { return ok1(k.AsSimplifiedConstraint()) },
		func() (interface{}, error) { return ok1(k.Substitute(v, sym.K(2))) },
		func() (interface{}, error) {
			return ok1(sym.CompileConstraintsIntoScalarConstraints([]sym.Constraint{k}))
		},
		func() (interface{}, error) {
			return ok1(k.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: sym.K(2)}))
		},
		func() (interface{}, error) { return ok1(sym.VariablesInThisConstraint(k)) },
		func() (interface{}, error) {
			return ok1(k.ImpliesThisIsAlsoSatisfied(sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: sym.SenseLessThanEqual}))
		},
	}
	return ops[which%len(ops)]()
}

// ---------------------------------------------------------------- malformed operands

func (ce *CE) badVariable() sym.Variable {
	v := ce.anyVar()
	v.Lower, v.Upper = 3, []float64{3, 2, -7}[ce.t.N(3)]
	return v
}

func (ce *CE) badMonomial() sym.Monomial {
	m := ce.monomial(true)
	switch ce.t.N(2) {
	case 0:
		return sym.Monomial{Coefficient: m.Coefficient, VariableFactors: append(append([]sym.Variable{}, m.VariableFactors...), ce.absentVar()), Exponents: m.Exponents}
	}
	return sym.Monomial{Coefficient: m.Coefficient, VariableFactors: m.VariableFactors, Exponents: append(append([]int{}, m.Exponents...), 1)}
}

func (ce *CE) badPolynomial() sym.Polynomial {
	if ce.t.P(1, 3) {
		return sym.Polynomial{}
	}
	p := ce.polynomial()
	ms := append([]sym.Monomial{}, p.Monomials...)
	at := ce.t.N(len(ms) + 1)
	ms = append(ms[:at:at], append([]sym.Monomial{ce.badMonomial()}, ms[at:]...)...)
	return sym.Polynomial{Monomials: ms}
}

// badShape draws the shape of an ill-formed expression: mostly small, now and then
// large enough for the misfit to be far from the first entries.
func (ce *CE) badShape(k Kind) (int, int) {
	r, c := ce.shapeFor(k)
	if k.level() > 0 && ce.t.P(1, 8) {
		r = ce.t.Range(1, 12)
		if k.level() == 2 {
			c = ce.t.Range(1, 9)
		}
	}
	return r, c
}

// malformed draws an ill-formed expression of kind k; the string says in what way.
func (ce *CE) malformed(k Kind, r, c int) (sym.Expression, string) {
	t := ce.t
	i := t.N(r)
	j := t.N(c)
	switch k {
	case kV:
		return ce.badVariable(), "bounds"
	case kM:
		return ce.badMonomial(), "exponent count"
	case kP:
		p := ce.badPolynomial()
		if len(p.Monomials) == 0 {
			return p, "empty"
		}
		return p, "term"
	case kVV:
		x := ce.value(k, r, c).(sym.VariableVector)
		x[i] = ce.badVariable()
		return x, "entry"
	case kMV:
		if t.P(1, 4) {
			return sym.MonomialVector{}, "empty"
		}
		x := ce.value(k, r, c).(sym.MonomialVector)
		x[i] = ce.badMonomial()
		return x, "entry"
	case kPV:
		if t.P(1, 4) {
			return sym.PolynomialVector{}, "empty"
		}
		x := ce.value(k, r, c).(sym.PolynomialVector)
		x[i] = ce.badPolynomial()
		return x, "entry"
	}
	// matrices
	way := t.N(4)
	if k == kKM && way > 1 {
		way = 1
	}
	if way == 1 && r == 1 {
		r = 2
	}
	x := ce.value(k, r, c).(sym.Expression)
	last := r - 1
	switch way {
	case 0: // no rows
		switch k {
		case kKM:
			return sym.KMatrix{}, "empty"
		case kVM:
			return sym.VariableMatrix{}, "empty"
		case kMM:
			return sym.MonomialMatrix{}, "empty"
		}
		return sym.PolynomialMatrix{}, "empty"
	case 1: // rows of different lengths (first row short, last row short, or last row long)
		row := []int{0, last, last}[t.N(3)]
		longer := t.Bool()
		switch m := x.(type) {
		case sym.KMatrix:
			if longer {
				m[row] = append(m[row], 5)
			} else {
				m[row] = m[row][:c-1]
			}
		case sym.VariableMatrix:
			if longer {
				m[row] = append(m[row], ce.anyVar())
			} else {
				m[row] = m[row][:c-1]
			}
		case sym.MonomialMatrix:
			if longer {
				m[row] = append(m[row], ce.monomial(true))
			} else {
				m[row] = m[row][:c-1]
			}
		case sym.PolynomialMatrix:
			if longer {
				m[row] = append(m[row], ce.polynomial())
			} else {
				m[row] = m[row][:c-1]
			}
		}
		return x, "ragged"
	}
	switch m := x.(type) {
	case sym.VariableMatrix:
		m[i][j] = ce.badVariable()
	case sym.MonomialMatrix:
		m[i][j] = ce.badMonomial()
	case sym.PolynomialMatrix:
		m[i][j] = ce.badPolynomial()
	}
	return x, "entry"
}

var badKinds = []Kind{kV, kM, kP, kVV, kMV, kPV, kKM, kVM, kMM, kPM}

func runMalformed(t *T) {
	ce := newCE(t)
	ce.small = true
	k := badKinds[t.N(len(badKinds))]
	r, c := ce.badShape(k)
	x, why := ce.malformed(k, r, c)
	if k == kKM || k == kVM || k == kMM || k == kPM {
		// a ragged draw may have grown a row
		r = max(r, 1)
	}
	t.NonTrivial()
	t.Label("%s %s", k, why)
	// Check itself
	var err error
	if cc := t.Try(func() { err = x.Check() }); cc != nil {
		t.Fail("Check:panic:"+k.String(), "Check of a malformed %s (%s): %v", k, why, cc)
	}
	if err == nil {
		t.Fail(fmt.Sprintf("Check:accepts:%s %s", k, why), "Check accepts the malformed %s %s", k, safeShow(x))
	}
	// a well-formed partner of fitting shape
	var o sym.Expression
	lvl := k.level()
	if t.P(1, 2) {
		o = ce.scalar()
	} else {
		o = ce.withShape(r, c, lvl)
	}
	v := ce.anyVar()
	sense := senses[t.N(3)]
	se, isSE := x.(sym.ScalarExpression)
	bv, isV := x.(sym.Variable)
	rep := ce.scalar()
	deep := ce.expr()
	type op struct {
		name string
		f    func() (interface{}, error)
	}
	ops := []op{
		{"receiver Plus", func() (interface{}, error) { return ok1(x.Plus(o)) }},
		{"receiver Plus float64", func() (interface{}, error) { return ok1(x.Plus(1.5)) }},
		{"receiver Minus", func() (interface{}, error) { return ok1(x.Minus(o)) }},
		{"receiver Multiply", func() (interface{}, error) { return ok1(x.Multiply(ce.scalar())) }},
		{"receiver Multiply float64", func() (interface{}, error) { return ok1(x.Multiply(2.0)) }},
		{"receiver Comparison", func() (interface{}, error) { return ok1(x.Comparison(o, sense)) }},
		{"receiver LessEq", func() (interface{}, error) { return ok1(x.LessEq(o)) }},
		{"receiver GreaterEq", func() (interface{}, error) { return ok1(x.GreaterEq(o)) }},
		{"receiver Eq", func() (interface{}, error) { return ok1(x.Eq(o)) }},
		{"receiver Power", func() (interface{}, error) { return ok1(x.Power(t.N(3))) }},
		{"receiver DerivativeWrt", func() (interface{}, error) { return ok1(x.DerivativeWrt(v)) }},
		{"receiver Substitute", func() (interface{}, error) { return ok1(x.Substitute(v, rep)) }},
		{"receiver SubstituteAccordingTo", func() (interface{}, error) {
			return ok1(x.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: rep}))
		}},
		{"argument Plus", func() (interface{}, error) { return ok1(o.Plus(x)) }},
		{"argument Minus", func() (interface{}, error) { return ok1(o.Minus(x)) }},
		{"argument MinusHelper", func() (interface{}, error) { return ok1(sym.Minus(o, x)) }},
		{"left MinusHelper", func() (interface{}, error) { return ok1(sym.Minus(x, o)) }},
		{"argument Multiply", func() (interface{}, error) { return ok1(ce.scalar().Multiply(x)) }},
		{"argument Comparison", func() (interface{}, error) { return ok1(o.Comparison(x, sense)) }},
		{"argument LessEq", func() (interface{}, error) { return ok1(o.LessEq(x)) }},
	}
	if isSE {
		ops = append(ops,
			op{"replacement", func() (interface{}, error) { return ok1(deep.Substitute(v, se)) }},
			op{"map value", func() (interface{}, error) {
				return ok1(deep.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: x}))
			}},
			op{"constraint replacement", func() (interface{}, error) {
				return ok1(sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: sense}.Substitute(v, se))
			}},
		)
	} else {
		ops = append(ops, op{"map value", func() (interface{}, error) {
			return ok1(deep.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: x}))
		}})
	}
	if isV {
		ops = append(ops,
			op{"variable of Substitute", func() (interface{}, error) { return ok1(deep.Substitute(bv, rep)) }},
			op{"variable of DerivativeWrt", func() (interface{}, error) { return ok1(deep.DerivativeWrt(bv)) }},
			op{"map key", func() (interface{}, error) {
				return ok1(deep.SubstituteAccordingTo(map[sym.Variable]sym.Expression{bv: rep}))
			}},
		)
	}
	// constraints with a malformed side
	var kc sym.Constraint
	var kerr *caught
	other := ce.withShape(r, c, lvl)
	left := t.Bool()
	kerr = t.Try(func() {
		if left {
			kc = constraintOf(x, other, sense)
		} else {
			kc = constraintOf(other, x, sense)
		}
	})
	if kerr == nil {
		for i, name := range []string{"Check", "AsSimplifiedConstraint", "Substitute", "Compile", "SubstituteAccordingTo", "Variables", "Implies"} {
			i, name := i, name
			if _, scalar := kc.(sym.ScalarConstraint); scalar && name == "Compile" {
				continue // a scalar constraint is passed through
			}
			ops = append(ops, op{"constraint " + name, func() (interface{}, error) { return onConstraint(t, ce, kc, i) }})
		}
	}
	q := ops[t.N(len(ops))]
	t.Logf("%s with malformed %s %s", q.name, k, safeShow(x))
	t.Label("%s", q.name)
	mustReject(t, fmt.Sprintf("%s %s %s", q.name, k, why), q.f, func() string {
		return fmt.Sprintf("%s with the malformed %s %s (partner %s, deep %s)", q.name, k, safeShow(x), show(o), show(deep))
	})
}

// ---------------------------------------------------------------- indices, powers, senses, substitutions, types

type someStruct struct{ A int }

// queries are the read-only questions that can be put to an expression of any kind.
func queries(ce *CE, x sym.Expression, v sym.Variable) []struct {
	name string
	f    func() (interface{}, error)
} {
	type q = struct {
		name string
		f    func() (interface{}, error)
	}
	out := []q{
		{"Variables", func() (interface{}, error) { return ok1(x.Variables()) }},
		{"Dims", func() (interface{}, error) { return ok1(x.Dims()) }},
		{"At", func() (interface{}, error) { return ok1(x.At(0, 0)) }},
		{"Transpose", func() (interface{}, error) { return ok1(x.Transpose()) }},
		{"AsSimplifiedExpression", func() (interface{}, error) { return ok1(x.AsSimplifiedExpression()) }},
		{"IsLinear", func() (interface{}, error) { return ok1(sym.IsLinear(x)) }},
		{"IsQuadratic", func() (interface{}, error) { return ok1(sym.IsQuadratic(x)) }},
		{"NumVariables", func() (interface{}, error) { return ok1(sym.NumVariables(x)) }},
		{"VariableIDs", func() (interface{}, error) { return ok1(sym.VariableIDs(x)) }},
	}
	if y, ok := x.(interface{ Degree() int }); ok {
		out = append(out, q{"Degree", func() (interface{}, error) { return ok1(y.Degree()) }})
	}
	if y, ok := x.(interface{ IsConstant() bool }); ok {
		out = append(out, q{"IsConstant", func() (interface{}, error) { return ok1(y.IsConstant()) }})
	}
	if y, ok := x.(interface{ IsZero() bool }); ok {
		out = append(out, q{"IsZero", func() (interface{}, error) { return ok1(y.IsZero()) }})
	}
	if y, ok := x.(sym.ScalarExpression); ok {
		out = append(out, q{"Constant", func() (interface{}, error) { return ok1(y.Constant()) }},
			q{"LinearCoeff", func() (interface{}, error) { return ok1(y.LinearCoeff([]sym.Variable{v})) }})
	}
	if y, ok := x.(sym.VectorExpression); ok {
		out = append(out, q{"Constant", func() (interface{}, error) { return ok1(y.Constant()) }},
			q{"LinearCoeff", func() (interface{}, error) { return ok1(y.LinearCoeff([]sym.Variable{v})) }},
			q{"AtVec", func() (interface{}, error) { return ok1(y.AtVec(0)) }},
			q{"Len", func() (interface{}, error) { return ok1(y.Len()) }})
	}
	if y, ok := x.(interface{ Constant() sym.KMatrix }); ok {
		out = append(out, q{"Constant", func() (interface{}, error) { return ok1(y.Constant()) }})
	}
	switch y := x.(type) {
	case sym.Variable:
		out = append(out, q{"ToMonomial", func() (interface{}, error) { return ok1(y.ToMonomial()) }},
			q{"ToPolynomial", func() (interface{}, error) { return ok1(y.ToPolynomial()) }})
	case sym.Monomial:
		out = append(out, q{"ToPolynomial", func() (interface{}, error) { return ok1(y.ToPolynomial()) }},
			q{"ToVariable", func() (interface{}, error) { return ok1(y.ToVariable()) }},
			q{"IsVariable", func() (interface{}, error) { return ok1(y.IsVariable(v)) }},
			q{"MatchesFormOf", func() (interface{}, error) { return ok1(y.MatchesFormOf(ce.monomial(true))) }},
			q{"MatchesFormOf argument", func() (interface{}, error) { return ok1(ce.monomial(true).MatchesFormOf(y)) }},
			q{"MonomialIndex argument", func() (interface{}, error) { return ok1(ce.polynomial().MonomialIndex(y)) }})
	case sym.Polynomial:
		out = append(out, q{"Simplify", func() (interface{}, error) { return ok1(y.Simplify()) }},
			q{"ConstantMonomialIndex", func() (interface{}, error) { return ok1(y.ConstantMonomialIndex()) }},
			q{"VariableMonomialIndex", func() (interface{}, error) { return ok1(y.VariableMonomialIndex(v)) }},
			q{"MonomialIndex", func() (interface{}, error) { return ok1(y.MonomialIndex(ce.monomial(true))) }})
	case sym.VariableVector:
		out = append(out, q{"ToMonomialVector", func() (interface{}, error) { return ok1(y.ToMonomialVector()) }},
			q{"ToPolynomialVector", func() (interface{}, error) { return ok1(y.ToPolynomialVector()) }})
	case sym.MonomialVector:
		out = append(out, q{"ToPolynomialVector", func() (interface{}, error) { return ok1(y.ToPolynomialVector()) }})
	case sym.PolynomialVector:
		out = append(out, q{"Simplify", func() (interface{}, error) { return ok1(y.Simplify()) }})
	case sym.VariableMatrix:
		out = append(out, q{"ToMonomialMatrix", func() (interface{}, error) { return ok1(y.ToMonomialMatrix()) }},
			q{"ToPolynomialMatrix", func() (interface{}, error) { return ok1(y.ToPolynomialMatrix()) }})
	case sym.PolynomialMatrix:
		out = append(out, q{"Simplify", func() (interface{}, error) { return ok1(y.Simplify()) }})
	case sym.KMatrix:
		out = append(out, q{"ToDense", func() (interface{}, error) { return ok1(y.ToDense()) }})
	}
	return out
}

// unvalidated lists the questions the library answers without looking at whether the
// expression is well-formed; these answers are not judged.
var unvalidated = map[string]bool{
	"AsSimplifiedExpression KM": true, "AsSimplifiedExpression V": true, "AsSimplifiedExpression VM": true,
	"AsSimplifiedExpression VV": true, "AtVec VV": true, "Constant V": true, "Constant VV": true,
	"Degree KM": true, "Degree V": true, "Degree VM": true, "Degree VV": true, "Dims M": true,
	"Dims MV": true, "Dims P": true, "Dims V": true, "Dims VV": true, "IsLinear KM": true, "IsLinear V": true,
	"IsLinear VM": true, "IsLinear VV": true, "IsQuadratic KM": true, "IsQuadratic V": true, "IsQuadratic VM": true,
	"IsQuadratic VV": true, "Len MV": true, "Len VV": true, "NumVariables KM": true, "NumVariables M": true,
	"NumVariables P": true, "NumVariables PV": true, "NumVariables V": true, "NumVariables VV": true,
	"ToMonomial V": true, "ToPolynomial M": true, "ToPolynomial V": true, "Transpose V": true,
	"VariableIDs KM": true, "VariableIDs M": true, "VariableIDs P": true, "VariableIDs PV": true,
	"VariableIDs V": true, "VariableIDs VV": true, "Variables KM": true, "Variables M": true, "Variables P": true,
	"Variables PV": true, "Variables V": true, "Variables VV": true,
}

// constraintQueries are the questions put to a constraint.
func constraintQueries(ce *CE, k sym.Constraint, v sym.Variable) []struct {
	name string
	f    func() (interface{}, error)
} {
	type q = struct {
		name string
		f    func() (interface{}, error)
	}
	ok := sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: sym.SenseLessThanEqual}
	out := []q{
		{"Implies argument", func() (interface{}, error) { return ok1(ok.ImpliesThisIsAlsoSatisfied(k)) }},
		{"Implies itself", func() (interface{}, error) { return ok1(k.ImpliesThisIsAlsoSatisfied(k)) }},
	}
	switch y := k.(type) {
	case sym.ScalarConstraint:
		out = append(out, q{"ScaleBy", func() (interface{}, error) { return ok1(y.ScaleBy(2)) }},
			q{"String", func() (interface{}, error) { return ok1(y.String()) }},
			q{"IsNonnegativityConstraint", func() (interface{}, error) { return ok1(y.IsNonnegativityConstraint()) }},
			q{"Inequality representation", func() (interface{}, error) {
				_, b := y.LinearInequalityConstraintRepresentation([]sym.Variable{v})
				return ok1(b)
			}},
			q{"Equality representation", func() (interface{}, error) {
				_, b := y.LinearEqualityConstraintRepresentation([]sym.Variable{v})
				return ok1(b)
			}})
	case sym.VectorConstraint:
		out = append(out, q{"Dims", func() (interface{}, error) { return ok1(y.Dims()) }},
			q{"Len", func() (interface{}, error) { return ok1(y.Len()) }},
			q{"AtVec", func() (interface{}, error) { return ok1(y.AtVec(0)) }},
			q{"Inequality representation", func() (interface{}, error) {
				_, b := y.LinearInequalityConstraintRepresentation([]sym.Variable{v})
				return ok1(b.Len())
			}},
			q{"Equality representation", func() (interface{}, error) {
				_, b := y.LinearEqualityConstraintRepresentation([]sym.Variable{v})
				return ok1(b.Len())
			}})
	case sym.MatrixConstraint:
		out = append(out, q{"Dims", func() (interface{}, error) { return ok1(y.Dims()) }},
			q{"At", func() (interface{}, error) { return ok1(y.At(0, 0)) }})
	}
	return out
}

func runMalformedConstraintQuery(t *T) {
	ce := newCE(t)
	ce.small = true
	k := badKinds[t.N(len(badKinds))]
	r, c := ce.badShape(k)
	x, why := ce.malformed(k, r, c)
	other := ce.withShape(r, c, k.level())
	if t.P(1, 3) {
		other = ce.affineValue(r, c, k.level())
	}
	sense := senses[t.N(3)]
	left := t.Bool()
	var kc sym.Constraint
	if e := t.Try(func() {
		if left {
			kc = constraintOf(x, other, sense)
		} else {
			kc = constraintOf(other, x, sense)
		}
	}); e != nil {
		t.Discard("no such constraint")
	}
	t.NonTrivial()
	qs := constraintQueries(ce, kc, ce.anyVar())
	q := qs[t.N(len(qs))]
	side := map[bool]string{true: "left", false: "right"}[left]
	t.Label("%s", q.name)
	t.Logf("%s of a constraint with the malformed %s side %s %s", q.name, side, k, safeShow(x))
	mustReject(t, fmt.Sprintf("constraint query %T %s", kc, q.name), q.f, func() string {
		return fmt.Sprintf("%s of the constraint with the malformed (%s) %s side %s", q.name, why, side, safeShow(kc))
	})
}

func runMalformedQuery(t *T) {
	if t.P(1, 3) {
		runMalformedConstraintQuery(t)
		return
	}
	ce := newCE(t)
	ce.small = true
	k := badKinds[t.N(len(badKinds))]
	r, c := ce.badShape(k)
	x, why := ce.malformed(k, r, c)
	t.NonTrivial()
	qs := queries(ce, x, ce.anyVar())
	q := qs[t.N(len(qs))]
	if unvalidated[fmt.Sprintf("%s %s", q.name, k)] {
		t.Discard("not validated")
	}
	key := fmt.Sprintf("query %s %s %s", q.name, k, why)
	t.Label("%s of %s", q.name, k)
	t.Logf("%s of the malformed %s %s", q.name, k, safeShow(x))
	mustReject(t, key, q.f, func() string { return fmt.Sprintf("%s of the malformed %s %s", q.name, k, safeShow(x)) })
}

func (ce *CE) unsupported() (interface{}, string) {
	v := ce.anyVar()
	xs := []interface{}{"x", nil, true, someStruct{1}, []string{"a"}, complex(1, 2), map[string]int{}, []interface{}{1.0}, func() {}, ce, sym.SenseEqual,
		sym.ScalarConstraint{LeftHandSide: v, RightHandSide: sym.K(1), Sense: sym.SenseEqual}, []sym.Variable{v}, [][]string{{"a"}}, struct{}{}, error(nil), fmt.Errorf("boom")}
	x := xs[ce.t.N(len(xs))]
	return x, fmt.Sprintf("%T", x)
}

func runBadRequest(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	x := ce.expr()
	k := kindOf(x)
	m := mustDenote(x)
	t.NonTrivial()
	t.Label("%s", k)
	sense := senses[t.N(3)]
	switch t.W(4, 3, 2, 3, 3, 3, 3) {
	case 0: // index
		i, j := t.N(m.r), t.N(m.c)
		bad := []int{-1, 0, 1, 7, math.MinInt}
		off := bad[t.N(5)]
		hitRow := t.Bool()
		fix := func(n int) int {
			switch off {
			case 0:
				return n
			case 1:
				return n + 1
			case 7:
				return n + 7
			}
			return off
		}
		if hitRow {
			i = fix(m.r)
		} else {
			j = fix(m.c)
		}
		t.Label("index")
		t.Logf("At(%d,%d) of %s", i, j, show(x))
		mustReject(t, "At "+k.String(), func() (interface{}, error) { return ok1(x.At(i, j)) }, func() string {
			return fmt.Sprintf("At(%d,%d) of the %dx%d %s", i, j, m.r, m.c, show(x))
		})
		ii := fix(m.r)
		if y, ok := x.(sym.VectorExpression); ok {
			mustReject(t, "AtVec "+k.String(), func() (interface{}, error) { return ok1(y.AtVec(ii)) }, func() string {
				return fmt.Sprintf("AtVec(%d) of %s", ii, show(x))
			})
			z := sym.VectorConstraint{LeftHandSide: y, RightHandSide: ce.withShape(m.r, 1, 1).(sym.VectorExpression), Sense: sense}
			mustReject(t, "VectorConstraint.AtVec", func() (interface{}, error) { return ok1(z.AtVec(ii)) }, func() string {
				return fmt.Sprintf("AtVec(%d) of %s", ii, show(z))
			})
		}
		if y, ok := x.(sym.MatrixExpression); ok {
			z := sym.MatrixConstraint{LeftHandSide: y, RightHandSide: ce.withShape(m.r, m.c, 2).(sym.MatrixExpression), Sense: sense}
			mustReject(t, "MatrixConstraint.At", func() (interface{}, error) { return ok1(z.At(i, j)) }, func() string {
				return fmt.Sprintf("At(%d,%d) of %s", i, j, show(z))
			})
		}
	case 1: // negative exponent, non-square base
		n := -1 - t.N(4)
		if m.r != m.c && t.Bool() {
			n = t.N(4)
		}
		t.Label("power")
		t.Logf("Power(%d) of %s", n, show(x))
		mustReject(t, fmt.Sprintf("Power %s", k), func() (interface{}, error) { return ok1(x.Power(n)) }, func() string {
			return fmt.Sprintf("Power(%d) of %s", n, show(x))
		})
	case 2: // unknown direction
		s := sym.ConstrSense([]byte{0, 1, 'x', '!', 255, ';', '?'}[t.N(7)])
		if s.Check() == nil {
			t.Fail("Sense:Check", "Check accepts the direction %d", byte(s))
		}
		o := ce.withShape(m.r, m.c, k.level())
		c := constraintOf(x, o, s)
		which := t.N(7)
		if _, ok := c.(sym.ScalarConstraint); ok && which == 3 {
			which = 0
		}
		t.Label("direction")
		if t.Bool() {
			// the constraint that writing the comparison gives, if it is not refused at once
			t.Logf("compares %s and %s", show(x), show(o))
			var w sym.Constraint
			if r := t.Try(func() { w = x.Comparison(o, s) }); r != nil || w == nil {
				return
			}
			if w.ConstrSense().Check() == nil {
				t.Fail("direction Comparison", "comparing %s and %s in the direction %d gives %s", show(x), show(o), byte(s), show(w))
			}
			c = w
			if _, ok := c.(sym.ScalarConstraint); ok && which == 3 {
				which = 0
			}
		}
		t.Logf("operation %d of %s", which, show(c))
		mustReject(t, fmt.Sprintf("direction %T %d", c, which), func() (interface{}, error) { return onConstraint(t, ce, c, which) }, func() string {
			return fmt.Sprintf("operation %d of %s", which, show(c))
		})
	case 3: // substitution of something that is not a scalar
		kk := kKV + Kind(t.N(8))
		r, c := ce.shapeFor(kk)
		if r*c == 1 {
			r = 2
		}
		val := ce.value(kk, r, c).(sym.Expression)
		mp := map[sym.Variable]sym.Expression{ce.anyVar(): val}
		if t.Bool() {
			putKey(mp, ce.anyVar(), val)
		}
		t.Label("substitution")
		t.Logf("%s with %s", show(x), show(val))
		mustReject(t, "substitution value "+k.String(), func() (interface{}, error) { return ok1(x.SubstituteAccordingTo(mp)) }, func() string {
			return fmt.Sprintf("substituting %s for a variable in %s", show(val), show(x))
		})
		// two values for one variable
		v1 := ce.anyVar()
		v2 := v1
		if t.Bool() {
			v2.Name += "*"
		} else {
			v2.Upper += 1 + math.Abs(v2.Upper)
		}
		two := map[sym.Variable]sym.Expression{v1: sym.K(1), v2: sym.K(2)}
		mustReject(t, "substitution of two values "+k.String(), func() (interface{}, error) { return ok1(x.SubstituteAccordingTo(two)) }, func() string {
			return fmt.Sprintf("substituting two values for %s in %s", show(v1), show(x))
		})
		mustReject(t, "CheckSubstitutionMap of two values", func() (interface{}, error) { return 0, sym.CheckSubstitutionMap(two) }, func() string {
			return fmt.Sprintf("CheckSubstitutionMap with two values for %s", show(v1))
		})
		cst := constraintOf(x, ce.withShape(m.r, m.c, k.level()), sense)
		mustReject(t, fmt.Sprintf("substitution value %T", cst), func() (interface{}, error) { return ok1(cst.SubstituteAccordingTo(mp)) }, func() string {
			return fmt.Sprintf("substituting %s for a variable in %s", show(val), show(cst))
		})
	case 4: // unsupported operand types
		u, un := ce.unsupported()
		t.Label("operand type")
		t.Logf("%s with %s", show(x), un)
		type op struct {
			name string
			f    func() (interface{}, error)
		}
		ops := []op{
			{"Plus", func() (interface{}, error) { return ok1(x.Plus(u)) }},
			{"Minus", func() (interface{}, error) { return ok1(x.Minus(u)) }},
			{"Multiply", func() (interface{}, error) { return ok1(x.Multiply(u)) }},
			{"Comparison", func() (interface{}, error) { return ok1(x.Comparison(u, sense)) }},
			{"LessEq", func() (interface{}, error) { return ok1(x.LessEq(u)) }},
			{"GreaterEq", func() (interface{}, error) { return ok1(x.GreaterEq(u)) }},
			{"Eq", func() (interface{}, error) { return ok1(x.Eq(u)) }},
			{"ToExpression", func() (interface{}, error) { return sym.ToExpression(u) }},
			{"ToScalarExpression", func() (interface{}, error) { return sym.ToScalarExpression(u) }},
			{"ToVectorExpression", func() (interface{}, error) { return sym.ToVectorExpression(u) }},
			{"ToMatrixExpression", func() (interface{}, error) { return sym.ToMatrixExpression(u) }},
			{"ToPolynomialLike", func() (interface{}, error) { return sym.ToPolynomialLike(u) }},
			{"ToPolynomialLikeScalar", func() (interface{}, error) { return sym.ToPolynomialLikeScalar(u) }},
			{"ToPolynomialLikeVector", func() (interface{}, error) { return sym.ToPolynomialLikeVector(u) }},
			{"ToPolynomialLikeMatrix", func() (interface{}, error) { return sym.ToPolynomialLikeMatrix(u) }},
			{"ConcretizeExpression", func() (interface{}, error) { return ok1(sym.ConcretizeExpression(u)) }},
			{"getKVector.From", func() (interface{}, error) { return ok1(getKVector.From(u)) }},
			{"getKMatrix.From", func() (interface{}, error) { return ok1(getKMatrix.From(u)) }},
			{"FindInSlice", func() (interface{}, error) { return sym.FindInSlice(u, []int{1}) }},
		}
		q := ops[t.N(len(ops))]
		if un == "string" && q.name == "FindInSlice" {
			q = ops[0]
		}
		mustReject(t, fmt.Sprintf("%s of %s with %s", q.name, k, un), q.f, func() string {
			return fmt.Sprintf("%s of %s with a %s", q.name, show(x), un)
		})
	case 5: // representations of constraints that have none
		o := ce.withShape(m.r, m.c, k.level())
		c := constraintOf(x, o, sense)
		lin := max(storedDegree(c.Left()), storedDegree(c.Right())) <= 1
		trueLin := max(m.degree(), mustDenote(o).degree()) <= 1
		eq := t.Bool()
		if lin && (eq == (sense == sym.SenseEqual)) || lin != trueLin {
			t.Discard("has a representation")
		}
		w := [][]sym.Variable{ce.vars}
		t.Label("representation")
		t.Logf("representation (equality %v) of %s", eq, show(c))
		f := func() (interface{}, error) {
			switch y := c.(type) {
			case sym.ScalarConstraint:
				if eq {
					a, b := y.LinearEqualityConstraintRepresentation(w...)
					return fmt.Sprint(a.RawVector().Data, b), nil
				}
				a, b := y.LinearInequalityConstraintRepresentation(w...)
				return fmt.Sprint(a.RawVector().Data, b), nil
			case sym.VectorConstraint:
				if eq {
					a, b := y.LinearEqualityConstraintRepresentation(w...)
					return fmt.Sprint(a.RawMatrix().Data, b.RawVector().Data), nil
				}
				a, b := y.LinearInequalityConstraintRepresentation(w...)
				return fmt.Sprint(a.RawMatrix().Data, b.RawVector().Data), nil
			}
			return nil, fmt.Errorf("none")
		}
		mustReject(t, fmt.Sprintf("representation %T eq=%v", c, eq), f, func() string {
			return fmt.Sprintf("representation (equality %v) of %s", eq, show(c))
		})
	case 6: // nothing to work on
		type op struct {
			name string
			f    func() (interface{}, error)
		}
		many := [][]sym.Variable{ce.vars, ce.vars}
		ops := []op{
			{"HStack()", func() (interface{}, error) { return ok1(sym.HStack()) }},
			{"VStack()", func() (interface{}, error) { return ok1(sym.VStack()) }},
			{"ConcretizeVectorExpression(empty)", func() (interface{}, error) { return ok1(sym.ConcretizeVectorExpression(nil)) }},
			{"ConcretizeMatrixExpression(empty)", func() (interface{}, error) { return ok1(sym.ConcretizeMatrixExpression(nil)) }},
			{"ConcretizeExpression(empty)", func() (interface{}, error) { return ok1(sym.ConcretizeExpression([]sym.ScalarExpression{})) }},
			{"ConcretizeExpression(empty rows)", func() (interface{}, error) { return ok1(sym.ConcretizeExpression([][]sym.ScalarExpression{{}})) }},
			{"ConcretizeMatrixExpression(ragged)", func() (interface{}, error) {
				return ok1(sym.ConcretizeMatrixExpression([][]sym.ScalarExpression{{ce.scalar(), ce.scalar()}, {ce.scalar()}}))
			}},
			{"ConcretizeMatrixExpression(ragged longer)", func() (interface{}, error) {
				return ok1(sym.ConcretizeMatrixExpression([][]sym.ScalarExpression{{ce.scalar()}, {ce.scalar(), ce.scalar()}}))
			}},
			{"getKMatrix.From(ragged)", func() (interface{}, error) { return ok1(getKMatrix.From([][]float64{{1, 2}, {3}})) }},
			{"getKMatrix.From(ragged longer)", func() (interface{}, error) { return ok1(getKMatrix.From([][]float64{{1}, {2, 3}})) }},
			{"getKMatrix.From(empty)", func() (interface{}, error) { return ok1(getKMatrix.From([][]float64{})) }},
			{"FindInSlice uint64", func() (interface{}, error) { return sym.FindInSlice(uint64(1), []int{1}) }},
			{"FindInSlice int", func() (interface{}, error) { return sym.FindInSlice(1, []uint64{1}) }},
			{"FindInSlice string", func() (interface{}, error) { return sym.FindInSlice("1", []uint64{1}) }},
			{"FindInSlice Variable", func() (interface{}, error) { return sym.FindInSlice(ce.anyVar(), []uint64{1}) }},
			{"FindInSlice float64", func() (interface{}, error) { return sym.FindInSlice(1.5, []float64{1.5}) }},
			{"LinearCoeff with two lists", func() (interface{}, error) {
				switch y := x.(type) {
				case interface {
					LinearCoeff(...[]sym.Variable) mat.VecDense
				}:
					a := y.LinearCoeff(many...)
					return a.RawVector().Data, nil
				case interface {
					LinearCoeff(...[]sym.Variable) mat.Dense
				}:
					a := y.LinearCoeff(many...)
					return a.RawMatrix().Data, nil
				}
				return nil, fmt.Errorf("none")
			}},
			{"LinearCoeff with an empty list", func() (interface{}, error) {
				switch y := x.(type) {
				case interface {
					LinearCoeff(...[]sym.Variable) mat.VecDense
				}:
					a := y.LinearCoeff([]sym.Variable{})
					return a.RawVector().Data, nil
				case interface {
					LinearCoeff(...[]sym.Variable) mat.Dense
				}:
					a := y.LinearCoeff([]sym.Variable{})
					return a.RawMatrix().Data, nil
				}
				return nil, fmt.Errorf("none")
			}},
			{"ToVariable", func() (interface{}, error) {
				switch y := x.(type) {
				case sym.Monomial:
					if len(mustDenote(y).vars()) == 1 && mustDenote(y).degree() == 1 {
						return nil, fmt.Errorf("fits")
					}
					return ok1(y.ToVariable())
				}
				return nil, fmt.Errorf("none")
			}},
		}
		q := ops[t.N(len(ops))]
		t.Label("%s", q.name)
		t.Logf("%s on %s", q.name, show(x))
		mustReject(t, q.name, q.f, func() string { return q.name + " on " + show(x) })
	}
}

// ---------------------------------------------------------------- Check accepts what is well-formed

func runCheckAccepts(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.zeroEx = t.P(1, 6)
	x := ce.expr()
	t.Logf("%s", show(x))
	k := kindOf(x)
	t.Label("%s", k)
	if mustDenote(x).totalTerms() >= 2 {
		t.NonTrivial()
	}
	var err error
	if c := t.Try(func() { err = x.Check() }); c != nil {
		t.Fail("Check:panic", "Check of the well-formed %s: %v", show(x), c)
	}
	if err != nil {
		t.Fail("Check:rejects:"+k.String(), "Check rejects the well-formed %s: %v", show(x), err)
	}
	m := mustDenote(x)
	c := constraintOf(x, ce.withShape(m.r, m.c, k.level()), senses[t.N(3)])
	if cc := t.Try(func() { err = c.Check() }); cc != nil {
		t.Fail("Check:panic", "Check of the well-formed %s: %v", show(c), cc)
	}
	if err != nil {
		t.Fail(fmt.Sprintf("Check:rejects:%T", c), "Check rejects the well-formed %s: %v", show(c), err)
	}
	v := ce.anyVar()
	mp := map[sym.Variable]sym.Expression{v: ce.scalar()}
	putKey(mp, ce.anyVar(), ce.scalar())
	if cc := t.Try(func() { err = sym.CheckSubstitutionMap(mp) }); cc != nil || err != nil {
		t.Fail("CheckSubstitutionMap", "CheckSubstitutionMap of scalars: %v %v", cc, err)
	}
	for _, s := range senses {
		if s.Check() != nil {
			t.Fail("Sense:Check", "Check rejects the direction %s", senseName(s))
		}
	}
}

func init() {
	register(&Property{ID: "C18",
		Rule: "a case is one ill-formed request (non-conforming pair, malformed operand in one position of one operation, bad index, exponent, direction, substitution, operand type, missing input) or one well-formed value given to its check; every ill-formed request is non-trivial (stacks: from three blocks on), a well-formed value is when it has at least two terms",
		Assume: []string{
			"rejection is a panic or a returned error, whatever its text; for dimension mismatches in sums, differences, products, comparisons, stacking and constraints the text must name both dimensions (unless the operand kind is refused altogether)",
			"malformed means what the library documents: a monomial whose exponent count differs from its variable count, a polynomial or vector without terms or entries, a matrix without rows or with rows of different lengths, a variable whose lower bound is not below its upper bound, or a container of such entries; empty constant and variable vectors are not judged",
		},
		Families: []Family{
			{Name: "dimensions", Quick: 150000, Thorough: 3000000, Rule: "non-conforming operands are rejected and the dimensions named", Run: runBadDims},
			{Name: "stack", Quick: 40000, Thorough: 600000, Rule: "stacking two to five blocks of which one does not fit (non-trivial from three blocks on)", Run: runBadStack},
			{Name: "malformed", Quick: 150000, Thorough: 3000000, Rule: "a malformed operand in any position of any operation", Run: runMalformed},
			{Name: "queries", Quick: 60000, Thorough: 600000, Rule: "a read-only question put to a malformed expression", Run: runMalformedQuery},
			{Name: "requests", Quick: 150000, Thorough: 3000000, Rule: "indices, exponents, directions, substitutions, types, representations, empty input", Run: runBadRequest},
			{Name: "accepts", Quick: 50000, Thorough: 600000, Rule: "checks accept well-formed values", Run: runCheckAccepts},
		}})
}
