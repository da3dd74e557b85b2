package main

// C25: the errors of rejected requests describe the request.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// rejection performs a call that C18 says is rejected; its error, nil when the rejection
// carries none (or when the call is answered, which is C18's business).
func rejection(t *T, f func() (interface{}, error)) error {
	var err error
	c := t.Try(func() { _, err = f() })
	switch {
	case c == nil && err == nil:
		t.Discard("answered")
	case c != nil:
		e, ok := c.val.(error)
		if !ok {
			t.Discard("rejected without an error value")
		}
		return e
	}
	return err
}

func dims2(x interface{ Dims() []int }) (out string) {
	defer func() {
		if recover() != nil {
			out = "none"
		}
	}()
	return fmt.Sprint(x.Dims())
}

// orderedDims finds the dimensions of both operands in the text, in order.
func orderedDims(msg string, a, b [2]int) bool {
	one := func(d [2]int) string { return fmt.Sprintf("(%d,%d)", d[0], d[1]) }
	in := func(x, y string) bool {
		i := strings.Index(msg, x)
		return i >= 0 && strings.Contains(msg[i+len(x):], y)
	}
	return in(one(a), one(b)) || a[1] == 1 && b[1] == 1 && in(fmt.Sprint(a[0]), fmt.Sprint(b[0]))
}

func opNamed(got string, want ...string) bool {
	for _, w := range want {
		if strings.Contains(got, w) {
			return true
		}
	}
	return false
}

func runDiagDims(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	draw := func(expr bool) (interface{}, Mat) {
		n := int(numKinds)
		if expr {
			n = 12
		}
		k := Kind(t.N(n))
		for k.level() == 0 {
			k = Kind(t.N(n))
		}
		r, c := ce.shapeFor(k)
		x := ce.value(k, r, c)
		return x, mustDenote(x)
	}
	sense := senses[t.N(3)]
	op := []string{"Plus", "Minus", "MinusHelper", "Multiply", "LessEq", "GreaterEq", "Eq", "Comparison", "HStack", "VStack", "VectorConstraint"}[t.N(11)]
	needE := op == "MinusHelper" || op == "HStack" || op == "VStack" || op == "VectorConstraint"
	l0, a := draw(true)
	l := l0.(sym.Expression)
	r, b := draw(needE)
	for i := 0; i < 3 && t.Bool() && a.r != b.r && a.c != b.c && a.c != b.r; i++ {
		r, b = draw(needE)
	}
	bad, names := false, []string{op}
	var f func() (interface{}, error)
	switch op {
	case "Plus":
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.Plus(r)) }
	case "Minus":
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.Minus(r)) }
	case "MinusHelper":
		names = []string{"Plus", "Minus"}
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(sym.Minus(l, r.(sym.Expression))) }
	case "Multiply":
		bad, f = !mulDefined(a, b), func() (interface{}, error) { return ok1(l.Multiply(r)) }
	case "LessEq":
		sense = sym.SenseLessThanEqual
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.LessEq(r)) }
	case "GreaterEq":
		sense = sym.SenseGreaterThanEqual
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.GreaterEq(r)) }
	case "Eq":
		sense = sym.SenseEqual
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.Eq(r)) }
	case "Comparison":
		bad, f = !addDefined(a, b), func() (interface{}, error) { return ok1(l.Comparison(r, sense)) }
	case "HStack":
		bad, f = a.r != b.r, func() (interface{}, error) { return ok1(sym.HStack(l, r.(sym.Expression))) }
	case "VStack":
		bad, f = a.c != b.c, func() (interface{}, error) { return ok1(sym.VStack(l, r.(sym.Expression))) }
	case "VectorConstraint":
		x, okl := l.(sym.VectorExpression)
		y, okr := r.(sym.VectorExpression)
		if !okl || !okr {
			t.Discard("not vectors")
		}
		bad, f = !addDefined(a, b), func() (interface{}, error) {
			return nil, sym.VectorConstraint{LeftHandSide: x, RightHandSide: y, Sense: sense}.Check()
		}
	}
	switch op {
	case "LessEq", "GreaterEq", "Eq", "Comparison", "VectorConstraint":
		names = []string{"Comparison"}
	}
	if !bad {
		t.Discard("conforms")
	}
	t.NonTrivial()
	t.Label("%s", op)
	t.Label("%s with %s", kindOf(l), kindOf(r))
	t.Logf("%s: %s (%dx%d) | %s (%dx%d)", op, show(l), a.r, a.c, show(r), b.r, b.c)
	err := rejection(t, f)
	what := fmt.Sprintf("%s of %s (%dx%d) and %s (%dx%d)", op, show(l), a.r, a.c, show(r), b.r, b.c)
	var unsup smErrors.UnsupportedInputError
	var md smErrors.MatrixDimensionError
	var vd smErrors.VectorDimensionError
	operation, gotA, gotB := "", "", ""
	switch {
	case errors.As(err, &md):
		operation, gotA, gotB = md.Operation, dims2(md.Arg1), dims2(md.Arg2)
	case errors.As(err, &vd):
		operation, gotA, gotB = vd.Operation, fmt.Sprint([]int{vd.Arg1.Len(), 1}), fmt.Sprint([]int{vd.Arg2.Len(), 1})
	case errors.As(err, &unsup):
		t.Discard("operand kind refused altogether")
	default:
		t.Fail("dimensions:error", "%s is rejected with a %T (%v) instead of a dimension error", what, err, err)
	}
	if wantA, wantB := fmt.Sprint([]int{a.r, a.c}), fmt.Sprint([]int{b.r, b.c}); gotA != wantA || gotB != wantB {
		t.Fail("dimensions:operands "+op, "%s is rejected with an error about operands of dimensions %s and %s", what, gotA, gotB)
	}
	if !opNamed(operation, names...) {
		t.Fail("dimensions:operation "+op, "%s is rejected with an error about the operation %q", what, operation)
	}
	if names[0] == "Comparison" && strings.ContainsAny(operation, "<>=") && !strings.Contains(operation, "("+sense.String()+")") {
		t.Fail("dimensions:direction "+op, "%s (direction %s) is rejected with an error about %q", what, senseName(sense), operation)
	}
	if !orderedDims(err.Error(), [2]int{a.r, a.c}, [2]int{b.r, b.c}) || !strings.Contains(err.Error(), operation) {
		t.Fail("dimensions:text "+op, "%s is rejected with the text %q", what, err)
	}
}

// runDiagStack looks at which of several blocks the error points to.
func runDiagStack(t *T) {
	ce := newCE(t)
	ce.small = true
	h := t.Bool()
	n := t.Range(2, 6)
	sizes := t.Range(2, 3)
	var blocks []sym.Expression
	var dims []string
	bad := false
	for i := 0; i < n; i++ {
		fit := t.Range(1, sizes)
		r, c := fit, t.Range(1, 3)
		if !h {
			r, c = c, fit
		}
		lvl := 2
		if c == 1 {
			lvl = t.Range(1, 2)
		}
		blocks = append(blocks, ce.withShape(r, c, lvl))
		dims = append(dims, fmt.Sprint([]int{r, c}))
		if i > 0 && fit != blocks[0].Dims()[map[bool]int{true: 0, false: 1}[h]] {
			bad = true
		}
	}
	if !bad {
		t.Discard("conforms")
	}
	name, f := "VStack", func() (interface{}, error) { return ok1(sym.VStack(blocks...)) }
	if h {
		name, f = "HStack", func() (interface{}, error) { return ok1(sym.HStack(blocks...)) }
	}
	t.Label("%s of %d", name, n)
	t.NonTrivial()
	t.Logf("%s of blocks %s", name, strings.Join(dims, " "))
	err := rejection(t, f)
	var md smErrors.MatrixDimensionError
	if !errors.As(err, &md) {
		t.Fail("stack:error", "%s of blocks %s is rejected with a %T (%v)", name, strings.Join(dims, " "), err, err)
	}
	// two of the blocks, in their order, that do not fit
	a, b := dims2(md.Arg1), dims2(md.Arg2)
	found := false
	for i := range dims {
		for j := i + 1; j < len(dims); j++ {
			if dims[i] == a && dims[j] == b {
				found = true
			}
		}
	}
	x, y := md.Arg1.Dims(), md.Arg2.Dims()
	if h && x[0] == y[0] || !h && x[1] == y[1] || !found {
		t.Fail("stack:blocks "+name, "%s of blocks %s is rejected with an error about blocks %s and %s", name, strings.Join(dims, " "), a, b)
	}
	if !strings.Contains(md.Operation, name) {
		t.Fail("stack:operation "+name, "%s of blocks %s is rejected with an error about %q", name, strings.Join(dims, " "), md.Operation)
	}
}

func runDiagRequest(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	x := ce.expr()
	k := kindOf(x)
	m := mustDenote(x)
	t.NonTrivial()
	same := func(e interface{}) bool {
		return reflect.TypeOf(e) == reflect.TypeOf(x) && fingerprint(e, false) == fingerprint(x, false)
	}
	sense := senses[t.N(3)]
	switch t.W(4, 3, 6, 4, 2, 4) {
	case 0: // index
		i, j := t.Range(0, m.r+1)-1, t.Range(0, m.c+1)-1
		if t.P(1, 4) {
			i = []int{-5, m.r + 7, 1 << 40}[t.N(3)]
		}
		if i >= 0 && i < m.r && j >= 0 && j < m.c {
			j = m.c
		}
		t.Label("At %s", k)
		what := fmt.Sprintf("At(%d,%d) of the %dx%d %s", i, j, m.r, m.c, show(x))
		t.Logf("%s", what)
		var mi smErrors.InvalidMatrixIndexError
		var vi smErrors.InvalidVectorIndexError
		err := rejection(t, func() (interface{}, error) { return ok1(x.At(i, j)) })
		switch {
		case errors.As(err, &mi):
			if mi.RowIndex != i || mi.ColIndex != j || !same(mi.Expression) {
				t.Fail("index:data "+k.String(), "%s is rejected with an error about (%d,%d) of %s", what, mi.RowIndex, mi.ColIndex, safeShow(mi.Expression))
			}
			if !strings.Contains(err.Error(), fmt.Sprintf("(%d, %d)", i, j)) {
				t.Fail("index:text "+k.String(), "%s is rejected with the text %q", what, err)
			}
		case errors.As(err, &vi):
			if vi.Index != i || !same(vi.Expression) {
				t.Fail("index:data "+k.String(), "%s is rejected with an error about %d of %s", what, vi.Index, safeShow(vi.Expression))
			}
		default:
			t.Label("other error")
		}
		if y, ok := x.(sym.VectorExpression); ok && (i < 0 || i >= m.r) {
			err := rejection(t, func() (interface{}, error) { return ok1(y.AtVec(i)) })
			vi = smErrors.InvalidVectorIndexError{}
			mi = smErrors.InvalidMatrixIndexError{}
			if errors.As(err, &vi) && (vi.Index != i || !same(vi.Expression)) {
				t.Fail("index:data AtVec "+k.String(), "AtVec(%d) of %s is rejected with an error about %d of %s", i, show(x), vi.Index, safeShow(vi.Expression))
			}
			if errors.As(err, &vi) && !strings.Contains(err.Error(), fmt.Sprintf("index %d ", i)) {
				t.Fail("index:text AtVec "+k.String(), "AtVec(%d) of %s is rejected with the text %q", i, show(x), err)
			}
			if errors.As(err, &mi) && (mi.RowIndex != i || mi.ColIndex != 0) {
				t.Fail("index:data AtVec "+k.String(), "AtVec(%d) of %s is rejected with an error about (%d,%d)", i, show(x), mi.RowIndex, mi.ColIndex)
			}
		}
	case 1: // negative exponent
		if m.r != m.c {
			t.Discard("not square")
		}
		n := -1 - t.N(40)
		t.Label("Power %s", k)
		what := fmt.Sprintf("Power(%d) of %s", n, show(x))
		t.Logf("%s", what)
		err := rejection(t, func() (interface{}, error) { return ok1(x.Power(n)) })
		var ne smErrors.NegativeExponentError
		if !errors.As(err, &ne) {
			t.Fail("exponent:error "+k.String(), "%s is rejected with a %T (%v)", what, err, err)
		}
		if ne.Exponent != n || !strings.Contains(err.Error(), fmt.Sprintf("(%d)", n)) {
			t.Fail("exponent:data "+k.String(), "%s is rejected with %q about the exponent %d", what, err, ne.Exponent)
		}
	case 2: // operand types
		u, un := ce.unsupported()
		type op struct {
			name string
			want []string
			typ  bool // the error names the receiver's type, too
			f    func() (interface{}, error)
		}
		cmp := []string{"Comparison"}
		ops := []op{
			{"Plus", nil, true, func() (interface{}, error) { return ok1(x.Plus(u)) }},
			{"Minus", nil, true, func() (interface{}, error) { return ok1(x.Minus(u)) }},
			{"Multiply", nil, true, func() (interface{}, error) { return ok1(x.Multiply(u)) }},
			{"Comparison", cmp, true, func() (interface{}, error) { return ok1(x.Comparison(u, sense)) }},
			{"LessEq", append(cmp, "LessEq"), true, func() (interface{}, error) { return ok1(x.LessEq(u)) }},
			{"GreaterEq", append(cmp, "GreaterEq"), true, func() (interface{}, error) { return ok1(x.GreaterEq(u)) }},
			{"Eq", append(cmp, "Eq"), true, func() (interface{}, error) { return ok1(x.Eq(u)) }},
			{"ToExpression", nil, false, func() (interface{}, error) { return sym.ToExpression(u) }},
			{"ToPolynomialLike", nil, false, func() (interface{}, error) { return sym.ToPolynomialLike(u) }},
			{"ConcretizeExpression", nil, false, func() (interface{}, error) { return ok1(sym.ConcretizeExpression(u)) }},
			{"getKVector.From", []string{"KVector.From"}, false, func() (interface{}, error) { return ok1(getKVector.From(u)) }},
			{"getKMatrix.From", []string{"KMatrix.From"}, false, func() (interface{}, error) { return ok1(getKMatrix.From(u)) }},
		}
		q := ops[t.W(4, 4, 4, 3, 2, 2, 2, 1, 1, 1, 1, 1)]
		if q.want == nil {
			q.want = []string{q.name}
		}
		t.Label("%s of %s", q.name, k)
		t.Label("operand %s", un)
		what := fmt.Sprintf("%s of %s with a %s", q.name, show(x), un)
		t.Logf("%s", what)
		err := rejection(t, q.f)
		var ue smErrors.UnsupportedInputError
		if !errors.As(err, &ue) {
			t.Label("other error: %s of %s", q.name, k)
			return
		}
		if !opNamed(ue.FunctionName, q.want...) || q.typ && !strings.HasPrefix(strings.TrimPrefix(ue.FunctionName, "symbolic."), reflect.TypeOf(x).Name()+".") {
			t.Fail("unsupported:function "+q.name+" "+k.String(), "%s is rejected with an error about %q", what, ue.FunctionName)
		}
		if reflect.TypeOf(ue.Input) != reflect.TypeOf(u) {
			t.Fail("unsupported:input "+q.name+" "+k.String(), "%s is rejected with an error about a %T", what, ue.Input)
		}
		if !strings.Contains(err.Error(), ue.FunctionName) || !strings.Contains(err.Error(), fmt.Sprintf("%T", u)) {
			t.Fail("unsupported:text "+q.name+" "+k.String(), "%s is rejected with the text %q", what, err)
		}
	case 3: // representations
		o := ce.withShape(m.r, m.c, k.level())
		c := constraintOf(x, o, sense)
		linL, linR := storedDegree(c.Left()) <= 1, storedDegree(c.Right()) <= 1
		trueLin := max(m.degree(), mustDenote(o).degree()) <= 1
		eq := t.Bool()
		if linL && linR && (eq == (sense == sym.SenseEqual)) || (linL && linR) != trueLin {
			t.Discard("has a representation")
		}
		name := "LinearInequalityConstraintRepresentation"
		if eq {
			name = "LinearEqualityConstraintRepresentation"
		}
		what := fmt.Sprintf("%s of %s", name, show(c))
		t.Label("representation")
		t.Logf("%s", what)
		w := [][]sym.Variable{ce.vars}
		err := rejection(t, func() (interface{}, error) {
			switch y := c.(type) {
			case sym.ScalarConstraint:
				if eq {
					a, _ := y.LinearEqualityConstraintRepresentation(w...)
					return a, nil
				}
				a, _ := y.LinearInequalityConstraintRepresentation(w...)
				return a, nil
			case sym.VectorConstraint:
				if eq {
					a, _ := y.LinearEqualityConstraintRepresentation(w...)
					return a, nil
				}
				a, _ := y.LinearInequalityConstraintRepresentation(w...)
				return a, nil
			}
			t.Discard("matrix constraint")
			return nil, nil
		})
		var le smErrors.LinearExpressionRequiredError
		var ie smErrors.InequalityConstraintRequiredError
		var ee smErrors.EqualityConstraintRequiredError
		operation := ""
		switch {
		case errors.As(err, &le):
			operation = le.Operation
			if linL && linR {
				t.Fail("representation:reason", "%s is rejected because it is not linear (%v)", what, err)
			}
			isL := fingerprint(le.Expression, false) == fingerprint(c.Left(), false) && reflect.TypeOf(le.Expression) == reflect.TypeOf(c.Left())
			isR := fingerprint(le.Expression, false) == fingerprint(c.Right(), false) && reflect.TypeOf(le.Expression) == reflect.TypeOf(c.Right())
			if !(isL && !linL) && !(isR && !linR) {
				t.Fail("representation:side", "%s is rejected because of %s, which is not its nonlinear side", what, safeShow(le.Expression))
			}
		case errors.As(err, &ie):
			operation = ie.Operation
			if eq || sense != sym.SenseEqual {
				t.Fail("representation:reason", "%s is rejected because an inequality is required", what)
			}
		case errors.As(err, &ee):
			operation = ee.Operation
			if !eq || sense == sym.SenseEqual {
				t.Fail("representation:reason", "%s is rejected because an equality is required", what)
			}
		default:
			t.Fail("representation:error", "%s is rejected with a %T (%v)", what, err, err)
		}
		if operation != name || !strings.Contains(err.Error(), name) {
			t.Fail("representation:operation", "%s is rejected with an error about %q: %q", what, operation, err)
		}
	case 4: // coefficients without variables
		t.Label("LinearCoeff %s", k)
		t.Logf("LinearCoeff([]) of %s", show(x))
		err := rejection(t, func() (interface{}, error) {
			switch y := x.(type) {
			case interface {
				LinearCoeff(...[]sym.Variable) mat.VecDense
			}:
				return y.LinearCoeff([]sym.Variable{}), nil
			case interface {
				LinearCoeff(...[]sym.Variable) mat.Dense
			}:
				return y.LinearCoeff([]sym.Variable{}), nil
			}
			t.Discard("no coefficients")
			return nil, nil
		})
		var ee smErrors.EmptyLinearCoeffsError
		var ce smErrors.CanNotGetLinearCoeffOfConstantError
		if errors.As(err, &ee) && !same(ee.Expression) || errors.As(err, &ce) && !same(ce.Expression) {
			t.Fail("coefficients:expression "+k.String(), "LinearCoeff([]) of %s is rejected with an error about another expression: %v", show(x), err)
		}
		if !strings.Contains(err.Error(), fmt.Sprintf("%T", x)) && (errors.As(err, &ee) || errors.As(err, &ce)) {
			t.Fail("coefficients:text "+k.String(), "LinearCoeff([]) of %s is rejected with the text %q", show(x), err)
		}
	case 5: // rows of different lengths, no entries
		rows := t.Range(0, 5)
		want := t.Range(1, 3)
		var lens []int
		first := -1
		for i := 0; i < rows; i++ {
			n := want
			if i > 0 && t.P(1, 3) {
				n = t.Range(0, 4)
			}
			if n != want && first < 0 {
				first = i
			}
			lens = append(lens, n)
		}
		if rows > 0 && first < 0 {
			t.Discard("rectangular")
		}
		km, vm, mm, pm := sym.KMatrix{}, sym.VariableMatrix{}, sym.MonomialMatrix{}, sym.PolynomialMatrix{}
		fl := [][]float64{}
		for _, n := range lens {
			var a []sym.K
			var b []sym.Variable
			var c []sym.Monomial
			var d []sym.Polynomial
			var f []float64
			for j := 0; j < n; j++ {
				a, b, c, d, f = append(a, sym.K(j)), append(b, ce.anyVar()), append(c, ce.monomial(true)), append(d, ce.polynomial()), append(f, float64(j))
			}
			km, vm, mm, pm, fl = append(km, a), append(vm, b), append(mm, c), append(pm, d), append(fl, f)
		}
		cands := []struct {
			name string
			v    interface{}
			f    func() (interface{}, error)
		}{
			{"KMatrix.Check", km, func() (interface{}, error) { return nil, km.Check() }},
			{"VariableMatrix.Check", vm, func() (interface{}, error) { return nil, vm.Check() }},
			{"MonomialMatrix.Check", mm, func() (interface{}, error) { return nil, mm.Check() }},
			{"PolynomialMatrix.Check", pm, func() (interface{}, error) { return nil, pm.Check() }},
			{"getKMatrix.From", nil, func() (interface{}, error) { return ok1(getKMatrix.From(fl)) }},
			{"MonomialVector.Check", sym.MonomialVector{}, func() (interface{}, error) { return nil, sym.MonomialVector{}.Check() }},
		}
		q := cands[t.N(len(cands))]
		if q.name == "MonomialVector.Check" && rows > 0 || q.name == "getKMatrix.From" && rows == 0 {
			q = cands[0]
		}
		t.Label("%s", q.name)
		what := fmt.Sprintf("%s with rows of lengths %v", q.name, lens)
		t.Logf("%s", what)
		err := rejection(t, q.f)
		var mc smErrors.MatrixColumnMismatchError
		var em smErrors.EmptyMatrixError
		var ev smErrors.EmptyVectorError
		typ := ""
		switch {
		case errors.As(err, &mc):
			if rows == 0 || mc.Row != first || mc.ExpectedNColumns != want || mc.ActualNColumns != lens[first] {
				t.Fail("columns:data "+q.name, "%s is rejected with %q", what, err)
			}
			if !strings.Contains(err.Error(), fmt.Sprintf("expected %d columns, received %d in row %d", want, lens[first], first)) {
				t.Fail("columns:text "+q.name, "%s is rejected with %q", what, err)
			}
		case errors.As(err, &em):
			typ = fmt.Sprintf("%T", em.Expression)
		case errors.As(err, &ev):
			typ = fmt.Sprintf("%T", ev.Expression)
		default:
			t.Fail("columns:error "+q.name, "%s is rejected with a %T (%v)", what, err, err)
		}
		if typ != "" && (rows > 0 || typ != fmt.Sprintf("%T", q.v) || !strings.Contains(err.Error(), typ)) {
			t.Fail("columns:empty "+q.name, "%s is rejected with %q about a %s", what, err, typ)
		}
	}
}

// runDiagChecks calls the exported dimension and index checks themselves.
func runDiagChecks(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	l, r := ce.expr(), ce.expr()
	for i := 0; i < 3 && t.Bool() && fmt.Sprint(l.Dims()) != fmt.Sprint(r.Dims()); i++ {
		r = ce.expr()
	}
	a, b := mustDenote(l), mustDenote(r)
	sense := senses[t.N(3)]
	names := []string{"addition", "subtraction", "multiplication", "hstack", "vstack", "comparison", "own comparison", "index", "position", "is scalar"}
	op := names[t.N(len(names))]
	t.Logf("check of %s: %s (%dx%d) | %s (%dx%d)", op, show(l), a.r, a.c, show(r), b.r, b.c)
	t.Label("%s", op)
	fits, open := addDefined(a, b), false
	word := ""
	var got error
	blocks := []smErrors.MatrixLike{l, r}
	bdims := [][2]int{{a.r, a.c}, {b.r, b.c}}
	var c *caught
	switch op {
	case "addition":
		word = "Plus"
		c = t.Try(func() { got = smErrors.CheckDimensionsInAddition(l, r) })
	case "subtraction":
		word = "Minus"
		c = t.Try(func() { got = smErrors.CheckDimensionsInSubtraction(l, r) })
	case "multiplication":
		word, fits = "Multiply", mulDefined(a, b)
		c = t.Try(func() { got = smErrors.CheckDimensionsInMultiplication(l, r) })
	case "hstack", "vstack":
		word = "VStack"
		dim := func(d [2]int) int { return d[1] }
		if op == "hstack" {
			word, dim = "HStack", func(d [2]int) int { return d[0] }
		}
		for t.Bool() && len(blocks) < 5 {
			e := ce.expr()
			m := mustDenote(e)
			at := t.N(len(blocks) + 1)
			blocks = append(blocks[:at], append([]smErrors.MatrixLike{e}, blocks[at:]...)...)
			bdims = append(bdims[:at], append([][2]int{{m.r, m.c}}, bdims[at:]...)...)
			t.Logf("another block %s at %d", show(e), at)
		}
		fits = true
		for _, d := range bdims {
			fits = fits && dim(d) == dim(bdims[0])
		}
		c = t.Try(func() {
			if op == "hstack" {
				got = smErrors.CheckDimensionsInHStack(blocks...)
			} else {
				got = smErrors.CheckDimensionsInVStack(blocks...)
			}
		})
	case "comparison":
		word = sense.String()
		c = t.Try(func() { got = smErrors.CheckDimensionsInComparison(l, r, sense.String()) })
	case "own comparison":
		word = sense.String()
		open = fits && (a.r != b.r || a.c != b.c) // a 1x1 matrix may be refused
		c = t.Try(func() { got = sym.CheckDimensionsInComparison(l, r, sense) })
	case "index", "position":
		i, j := t.Range(-2, a.r+1), t.Range(-2, a.c+1)
		fits = i >= 0 && i < a.r
		if op == "index" {
			fits = fits && j >= 0 && j < a.c
			c = t.Try(func() { got = smErrors.CheckIndexOnMatrix(i, j, l) })
		} else {
			c = t.Try(func() { got = smErrors.CheckIndexOnVector(i, l) })
		}
		t.Logf("index %d %d", i, j)
		if c == nil && got != nil && !fits {
			var im smErrors.InvalidMatrixIndexError
			var iv smErrors.InvalidVectorIndexError
			ok := op == "index" && errors.As(got, &im) && im.RowIndex == i && im.ColIndex == j && reflect.DeepEqual(im.Expression, l) ||
				op == "position" && errors.As(got, &iv) && iv.Index == i && reflect.DeepEqual(iv.Expression, l)
			if !ok {
				t.Fail("checks:index", "the check of index %d %d of %s fails with %T %v", i, j, show(l), got, got)
			}
		}
	case "is scalar":
		ans := false
		c = t.Try(func() { ans = smErrors.IsScalarExpression(l) })
		fits = ans == (a.r == 1 && a.c == 1)
		if c == nil && !fits {
			t.Fail("checks:scalar", "IsScalarExpression of %s (%dx%d) is %v", show(l), a.r, a.c, ans)
		}
	}
	if c != nil {
		t.Fail("checks:panic "+op, "the check of %s on %s (%dx%d) and %s (%dx%d) panics: %v", op, show(l), a.r, a.c, show(r), b.r, b.c, c)
	}
	if open {
		t.Discard("either answer")
	}
	if (got == nil) != fits {
		t.Fail("checks:answer "+op, "the check of %s on %s (%dx%d) and %s (%dx%d) answers %v", op, show(l), a.r, a.c, show(r), b.r, b.c, got)
	}
	if fits {
		t.Label("fits")
		return
	}
	t.NonTrivial()
	if word == "" {
		return
	}
	var md smErrors.MatrixDimensionError
	var vd smErrors.VectorDimensionError
	operation, gotA, gotB := "", "", ""
	switch {
	case errors.As(got, &md):
		operation, gotA, gotB = md.Operation, dims2(md.Arg1), dims2(md.Arg2)
	case errors.As(got, &vd):
		operation, gotA, gotB = vd.Operation, fmt.Sprint([]int{vd.Arg1.Len(), 1}), fmt.Sprint([]int{vd.Arg2.Len(), 1})
	default:
		t.Fail("checks:error "+op, "the check of %s answers with a %T", op, got)
	}
	pair := false
	for i := range bdims {
		for j := i + 1; j < len(bdims); j++ {
			d, e := bdims[i], bdims[j]
			unfit := len(bdims) == 2 || op == "hstack" && d[0] != e[0] || op == "vstack" && d[1] != e[1]
			pair = pair || unfit && gotA == fmt.Sprint(d[:]) && gotB == fmt.Sprint(e[:])
		}
	}
	if !pair || !strings.Contains(operation, word) || !strings.Contains(got.Error(), operation) {
		t.Fail("checks:content "+op, "the check of %s on operands of dimensions %v answers %q (operation %q, dimensions %s and %s)", op, bdims, got, operation, gotA, gotB)
	}
}

func init() {
	register(&Property{ID: "C25",
		Rule: "a case is one request that is rejected; every one that is rejected with an error of package smErrors is non-trivial",
		Assume: []string{
			"whether a request is rejected at all is C18's business: a request that is answered is not judged here",
			"where the library reports no error of package smErrors today (indices of some container kinds, non-square powers, some conversions), only the errors it does report are judged",
		},
		Families: []Family{
			{Name: "dimensions", Quick: 120000, Thorough: 2500000, Rule: "the dimension error names the operation, its direction, and both operands in order", Run: runDiagDims},
			{Name: "stack", Quick: 40000, Thorough: 600000, Rule: "the dimension error names two blocks, in order, that do not fit", Run: runDiagStack},
			{Name: "checks", Quick: 80000, Thorough: 1500000, Rule: "the operands or the index do not fit", Run: runDiagChecks},
			{Name: "requests", Quick: 160000, Thorough: 3000000, Rule: "index, exponent, operand type, constraint form, coefficient and shape errors describe the request", Run: runDiagRequest},
		}})
}
