package main

// C26: the exported building blocks compute what the operations built on them compute.

import (
	"strings"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// foreignMatrix is a matrix expression that is not one of the library's own types.
type foreignMatrix struct{ sym.MatrixExpression }

// plainMatrix draws a matrix expression (column vectors are none) of the given shape.
func (ce *CE) plainMatrix(r, c int) sym.MatrixExpression {
	k := []Kind{kKM, kVM, kMM, kPM}[ce.t.N(4)]
	return ce.value(k, r, c).(sym.MatrixExpression)
}

func (ce *CE) plainVector(n int) sym.VectorExpression {
	k := []Kind{kKV, kVV, kMV, kPV}[ce.t.N(4)]
	return ce.value(k, n, 1).(sym.VectorExpression)
}

// disguise sometimes hides a matrix behind a type of the caller's.
func disguise(t *T, m sym.MatrixExpression, foreign bool) sym.MatrixExpression {
	if foreign && t.Bool() {
		t.Label("caller's own type")
		t.NonTrivial()
		return foreignMatrix{m}
	}
	return m
}

func runTemplates(foreign bool) func(*T) {
	return func(t *T) {
		desc := func() string { return strings.Join(t.log, "; ") }
		ce := newCE(t)
		ce.small = true
		ce.alias = true
		ce.maxExp = 3
		ce.zeroEx = ce.zeroEx || t.P(1, 3)
		n := 9
		if foreign {
			n = 3
		}
		var want Mat
		var what string
		var f func() interface{}
		reject := false
		dim := func() int { return t.W(6, 6, 6, 6, 1, 1) + 1 }
		switch t.N(n) {
		case 0:
			what = "MatrixPlusTemplate"
			r, c := dim(), dim()
			a := ce.plainMatrix(r, c)
			if t.P(1, 5) {
				r, c = dim(), dim()
			}
			b := ce.plainMatrix(r, c)
			ma, mb := mustDenote(a), mustDenote(b)
			t.Logf("%s(%s, %s)", what, show(a), show(b))
			reject = ma.r != mb.r || ma.c != mb.c
			if !reject {
				want = mAdd(ma, mb)
			}
			x, y := disguise(t, a, foreign), disguise(t, b, foreign)
			f = func() interface{} { return sym.MatrixPlusTemplate(x, y) }
		case 1:
			what = "MatrixMultiplyTemplate"
			r, k, c := dim(), t.Range(1, 3), dim()
			a := ce.plainMatrix(r, k)
			if t.P(1, 5) {
				k = t.Range(1, 3)
			}
			b := ce.plainMatrix(k, c)
			ma, mb := mustDenote(a), mustDenote(b)
			t.Logf("%s(%s, %s)", what, show(a), show(b))
			reject = !mulDefined(ma, mb)
			if !reject {
				want = mMul(ma, mb)
			}
			x, y := disguise(t, a, foreign), disguise(t, b, foreign)
			f = func() interface{} { return sym.MatrixMultiplyTemplate(x, y) }
		case 2:
			what = "MatrixSubstituteTemplate"
			a := ce.plainMatrix(dim(), dim())
			v, s := ce.anyVar(), ce.scalar()
			ma, ms := mustDenote(a), mustDenote(s)
			if storedDegree(a) > 4 && storedTerms(s) > 2 || storedDegree(a)*storedDegree(s) > 150 || substTooLarge(a, storedTerms(s)) || leavesRange(a, s) {
				t.Discard("too large")
			}
			t.Logf("%s(%s, v%d := %s)", what, show(a), v.ID, show(s))
			want = mMap(ma, func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: ms.e[0]}) })
			x := disguise(t, a, foreign)
			f = func() interface{} { return sym.MatrixSubstituteTemplate(x, v, s) }
		case 3:
			vec := t.Bool()
			what = "MatrixSubstituteAccordingToTemplate"
			var x sym.Expression
			if vec {
				what = "VectorSubstituteAccordingToTemplate"
				x = ce.plainVector(dim())
			} else {
				x = ce.plainMatrix(dim(), dim())
			}
			mx := mustDenote(x)
			m, mm, desc := substMap(ce, mx)
			for _, p := range mm {
				if len(p) > 2 && mx.degree() > 4 || mapTooLarge(x, m) {
					t.Discard("too large")
				}
			}
			t.Logf("%s(%s, %s)", what, show(x), desc)
			want = mMap(mx, func(p Poly) Poly { return pSubst(p, mm) })
			f = func() interface{} {
				if vec {
					return sym.VectorSubstituteAccordingToTemplate(x.(sym.VectorExpression), m)
				}
				return sym.MatrixSubstituteAccordingToTemplate(x.(sym.MatrixExpression), m)
			}
		case 4:
			what = "VectorSubstituteTemplate"
			x := ce.plainVector(dim())
			v, s := ce.anyVar(), ce.scalar()
			mx, ms := mustDenote(x), mustDenote(s)
			if storedDegree(x) > 4 && storedTerms(s) > 2 || storedDegree(x)*storedDegree(s) > 150 || substTooLarge(x, storedTerms(s)) || leavesRange(x, s) {
				t.Discard("too large")
			}
			t.Logf("%s(%s, v%d := %s)", what, show(x), v.ID, show(s))
			want = mMap(mx, func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: ms.e[0]}) })
			f = func() interface{} { return sym.VectorSubstituteTemplate(x, v, s) }
		case 5, 6:
			plus := t.Bool()
			what = "VectorMultiplyTemplate"
			if plus {
				what = "VectorPlusTemplate"
			}
			x := ce.plainVector(dim())
			var y sym.Expression
			switch t.N(4) {
			case 0:
				y = ce.scalar()
			case 1:
				y = ce.plainVector(x.Len())
			case 2:
				y = ce.plainMatrix(1, dim())
			case 3:
				y = ce.expr()
			}
			mx, my := mustDenote(x), mustDenote(y)
			t.Logf("%s(%s, %s)", what, show(x), show(y))
			t.Label("%s with %s", what, kindOf(y))
			if plus {
				reject = !addDefined(mx, my)
			} else {
				reject = !mulDefined(mx, my)
			}
			if !reject && plus {
				want = mAdd(mx, my)
			} else if !reject {
				want = mMul(mx, my)
			}
			f = func() interface{} {
				if plus {
					return sym.VectorPlusTemplate(x, y)
				}
				return sym.VectorMultiplyTemplate(x, y)
			}
		default:
			n := t.Range(-1, 4)
			var x sym.Expression
			switch t.N(3) {
			case 0:
				what = "ScalarPowerTemplate"
				x = ce.scalar()
				f = func() interface{} { return sym.ScalarPowerTemplate(x.(sym.ScalarExpression), n) }
			case 1:
				what = "VectorPowerTemplate"
				x = ce.plainVector(t.Range(1, 2))
				f = func() interface{} { return sym.VectorPowerTemplate(x.(sym.VectorExpression), n) }
			case 2:
				what = "MatrixPowerTemplate"
				r := t.Range(1, 3)
				c := r
				if t.P(1, 6) {
					c = t.Range(1, 3)
				}
				x = ce.plainMatrix(r, c)
				f = func() interface{} { return sym.MatrixPowerTemplate(x.(sym.MatrixExpression), n) }
			}
			mx := mustDenote(x)
			if mx.totalTerms() > 8 {
				n = min(n, 2)
			}
			t.Logf("%s(%s, %d)", what, show(x), n)
			reject = n < 0 || mx.r != mx.c
			if !reject {
				want = mPow(mx, n)
			}
		}
		t.Label("%s", what)
		var got interface{}
		c := t.Try(func() { got = f() })
		if reject {
			t.Label("rejected")
			if c == nil {
				t.Fail("template:accepted "+what, "%s is answered with %s although the operands do not fit", desc(), show(got))
			}
			return
		}
		t.NonTrivial()
		if c != nil {
			t.Fail("template:panic "+what, "%s: %v", desc(), c)
		}
		g, ok := got.(sym.Expression)
		if !ok {
			t.Fail("template:result "+what, "%s gives a %T", desc(), got)
		}
		cmpResult(t, "template "+what, g, want, desc)
	}
}

// runSharedCoeff compares the shared coefficient computation with the model, entry by entry.
func runSharedCoeff(t *T) {
	desc := func() string { return strings.Join(t.log, "; ") }
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	k := []Kind{kVV, kMV, kPV}[t.N(3)]
	x := ce.value(k, t.Range(1, 5), 1).(sym.PolynomialLikeVector)
	mx := mustDenote(x)
	if mx.degree() > 1 && !t.P(1, 3) {
		t.Discard("not affine")
	}
	var wrt []sym.Variable
	if t.Bool() {
		for _, i := range t.Perm(len(ce.vars))[:t.Range(1, len(ce.vars))] {
			wrt = append(wrt, ce.vars[i])
		}
		if t.P(1, 3) {
			wrt = append(wrt, ce.absentVar())
		}
	}
	t.Logf("shared linear coefficients of %s with respect to %d variables", show(x), len(wrt))
	t.Label("kind %s", k)
	vs := wrt
	var rows, cols int
	at := func(i, j int) float64 { return 0 }
	c := t.Try(func() {
		if wrt == nil {
			vs = x.Variables()
			l := sym.PolynomialLikeVector_SharedLinearCoeffCalc(x)
			rows, cols = l.Dims()
			at = l.At
		} else {
			l := sym.PolynomialLikeVector_SharedLinearCoeffCalc(x, wrt)
			rows, cols = l.Dims()
			at = l.At
		}
	})
	if c != nil {
		if len(vs) == 0 {
			var e smErrors.CanNotGetLinearCoeffOfConstantError
			if _, ok := c.val.(smErrors.CanNotGetLinearCoeffOfConstantError); !ok {
				t.Fail("shared:error", "coefficients of a constant are refused with %v instead of a %T", c, e)
			}
			t.Label("constant refused")
			return
		}
		t.Fail("shared:panic", "%s: %v", desc(), c)
	}
	if rows != mx.r || cols != len(vs) {
		t.Fail("shared:shape", "%s gives a %dx%d matrix", desc(), rows, cols)
	}
	t.NonTrivial()
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			w, mass := mx.at(i, 0).linear(vs[j].ID)
			if !nearly(at(i, j), w, mass) {
				t.Fail("shared:value", "%s: entry (%d,%d) is %v instead of %v", desc(), i, j, at(i, j), w)
			}
		}
	}
}

func init() {
	register(&Property{ID: "C26",
		Rule: "a case is one direct call of an exported building block, non-trivial by the rule of its family",
		Assume: []string{
			"MatrixPlusTemplate, MatrixMultiplyTemplate and MatrixSubstituteTemplate accept any object implementing MatrixExpression (their documentation); the others are called with the library's own types",
		},
		Families: []Family{
			{Name: "templates", Quick: 200000, Thorough: 1500000, Rule: "an operand pair, power or substitution the building block is defined for", Run: runTemplates(false)},
			{Name: "foreign", Quick: 30000, Thorough: 600000, Rule: "a matrix operand of a type the caller wrote", Run: runTemplates(true)},
			{Name: "shared", Quick: 20000, Thorough: 400000, Rule: "at least one variable asked for", Run: runSharedCoeff},
		}})
}
