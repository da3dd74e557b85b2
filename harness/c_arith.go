package main

// C01 addition, C02 subtraction, C03 multiplication (and the shared operator driver).

import (
	"fmt"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

type binOp struct {
	name    string
	call    func(l sym.Expression, r interface{}) sym.Expression
	model   func(a, b Mat) Mat
	defined func(a, b Mat) bool
}

var opPlus = binOp{"Plus", func(l sym.Expression, r interface{}) sym.Expression { return l.Plus(r) }, mAdd, addDefined}
var opMinus = binOp{"Minus", func(l sym.Expression, r interface{}) sym.Expression { return l.Minus(r) }, mSub, addDefined}
var opMinusHelper = binOp{"MinusHelper", func(l sym.Expression, r interface{}) sym.Expression { return sym.Minus(l, r.(sym.Expression)) }, mSub, addDefined}
var opMul = binOp{"Multiply", func(l sym.Expression, r interface{}) sym.Expression { return l.Multiply(r) }, mMul, mulDefined}

// comboKey names an operand combination in the support table.
func comboKey(op string, l, r interface{}, a, b Mat) string {
	lk, rk := kindOf(l), kindOf(r)
	return fmt.Sprintf("%s %s%s %s%s", op, lk, shapeSuffix(lk, a), rk, shapeSuffix(rk, b))
}

func shapeSuffix(k Kind, m Mat) string {
	s := shapeClass(k, m.r, m.c)
	if s == "s" {
		return ""
	}
	return ":" + s
}

// conformingPair draws a left expression and a right operand conforming for op.
func conformingPair(ce *CE, op string) (sym.Expression, interface{}) {
	t := ce.t
	lk := ce.exprKind()
	rk := Kind(t.N(int(numKinds)))
	lr, lc := ce.shapeFor(lk)
	rr, rc := ce.shapeFor(rk)
	switch op {
	case "Plus", "Minus", "MinusHelper", "Comparison":
		switch {
		case lk.level() == 0 || rk.level() == 0:
		case t.P(1, 7):
			// a one-entry vector or matrix against the other operand
			if t.Bool() {
				lr, lc = 1, 1
			} else {
				rr, rc = 1, 1
			}
		case lk.level() == rk.level():
			rr, rc = lr, lc
		default: // vector with matrix: n x 1
			if lk.level() == 1 {
				lr, lc = rr, 1
				rc = 1
			} else {
				rr, rc = lr, 1
				lc = 1
			}
		}
	case "Multiply":
		switch {
		case lk.level() == 0 || rk.level() == 0:
		case t.P(1, 7):
			if t.Bool() {
				lr, lc = 1, 1
			} else {
				rr, rc = 1, 1
			}
		case rk.level() == 1 && lk.level() == 1:
			if t.Bool() {
				lr, lc = 1, 1 // 1-vector times vector
			} else {
				rr, rc = 1, 1 // vector times 1-vector
			}
		case lk.level() == 1: // column vector times matrix: matrix has one row
			rr = 1
		case rk.level() == 1:
			rr = lc
		default:
			rr = lc
		}
	}
	l := ce.value(lk, lr, lc).(sym.Expression)
	if t.P(1, 12) && (lk.level() == 0 || lr == rr && lc == rc) {
		// the right operand is almost the left one
		if op != "Multiply" || lr*lc == 1 || lk.level() == 2 && lc == lr {
			return l, ce.near(l)
		}
	}
	r := ce.value(rk, rr, rc)
	return l, r
}

// applyOp runs op on a conforming pair and compares with the model. It reports the
// support status to note (nil in checks).
func checkBin(t *T, op binOp, l sym.Expression, r interface{}) (sym.Expression, Mat, bool) {
	a, b := mustDenote(l), mustDenote(r)
	if !op.defined(a, b) {
		panic("harness: pair does not conform for " + op.name + ": " + show(l) + " | " + show(r))
	}
	key := comboKey(op.name, l, r, a, b)
	want := op.model(a, b)
	var got sym.Expression
	c := t.Try(func() { got = op.call(l, r) })
	noteSupport(key, c)
	if c != nil {
		if supported(key) {
			t.Fail(op.name+":refused:"+key, "%s of %s and %s is refused: %v (the library supports this combination)", op.name, show(l), show(r), c)
		}
		t.Label("refused")
		return nil, want, false
	}
	cmpResult(t, op.name, got, want, func() string { return fmt.Sprintf("%s  .%s  %s", show(l), op.name, show(r)) })
	return got, want, true
}

// cmpResult fails unless got denotes want.
func cmpResult(t *T, what string, got interface{}, want Mat, desc func() string) {
	g, err := denote(got)
	if err != nil {
		t.Fail(what+":malformed", "%s gives a malformed result: %v\nresult: %s", desc(), err, show(got))
	}
	if d := mDiffers(g, want); d != "" {
		t.Fail(what+":value", "%s is wrong: %s\nresult:   %s\nexpected: %s", desc(), d, show(got), want)
	}
	// the dimensions the result reports about itself
	if e, ok := got.(sym.Expression); ok {
		var dims []int
		if c := t.Try(func() { dims = e.Dims() }); c != nil {
			t.Fail(what+":dims", "%s: Dims of the result %s panics: %v", desc(), show(got), c)
		}
		if len(dims) != 2 || dims[0] != want.r || dims[1] != want.c {
			t.Fail(what+":dims", "%s: the result %s reports dimensions %v, expected [%d %d]", desc(), show(got), dims, want.r, want.c)
		}
	}
}

func classifyPair(t *T, l, r interface{}, a, b Mat) {
	lk, rk := kindOf(l), kindOf(r)
	lv := []string{"scalar", "vector", "matrix"}
	t.Label("shape %s-%s", lv[lk.level()], lv[rk.level()])
	t.Label("left %s", lk)
	t.Label("right %s", rk)
	if a.totalTerms()+b.totalTerms() >= 3 {
		t.Label("several terms")
	}
}

func runBin(op binOp) func(t *T) {
	return func(t *T) {
		ce := newCE(t)
		ce.tall = true
		ce.alias = true
		ce.zeroEx = t.P(1, 12)
		l, r := conformingPair(ce, op.name)
		if op.name == "MinusHelper" {
			if !sym.IsExpression(r) {
				t.Discard("not an expression")
			}
			e, err := sym.ToExpression(r)
			if err != nil {
				t.Discard("not an expression")
			}
			r = e
		}
		a, b := mustDenote(l), mustDenote(r)
		if op.name == "Multiply" && storedTerms(l)*storedTerms(r) > 500 {
			t.Discard("too large")
		}
		t.Logf("%s %s %s", show(l), op.name, show(r))
		classifyPair(t, l, r, a, b)
		if !a.isZero() && !b.isZero() && len(a.vars())+len(b.vars()) > 0 {
			t.NonTrivial()
		}
		checkBin(t, op, l, r)
	}
}

// law checks an algebraic identity between two ways of computing the same thing.
func try2(t *T, f func() sym.Expression) (e sym.Expression, ok bool) {
	c := t.Try(func() { e = f() })
	return e, c == nil && e != nil
}

func runAddLaws(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	// three operands of one shape
	lvl := t.N(3)
	r, c := 1, 1
	if lvl == 1 {
		r = ce.dim(1, 3)
	} else if lvl == 2 {
		r, c = ce.dim(1, 3), ce.dim(1, 3)
	}
	x, y, z := ce.withShape(r, c, lvl), ce.withShape(r, c, lvl), ce.withShape(r, c, lvl)
	t.Logf("x=%s y=%s z=%s", show(x), show(y), show(z))
	mx, my, mz := mustDenote(x), mustDenote(y), mustDenote(z)
	if !mx.isZero() && !my.isZero() {
		t.NonTrivial()
	}
	if xy, ok := try2(t, func() sym.Expression { return x.Plus(y) }); ok {
		if yx, ok := try2(t, func() sym.Expression { return y.Plus(x) }); ok {
			t.Label("commutativity")
			sameAs(t, "Plus:commute", xy, yx, mAdd(mx, my))
		}
		if l, ok := try2(t, func() sym.Expression { return xy.Plus(z) }); ok {
			cmpResult(t, "Plus:chain", l, mAdd(mAdd(mx, my), mz), func() string { return "(x+y)+z" })
			if yz, ok := try2(t, func() sym.Expression { return y.Plus(z) }); ok {
				if r, ok := try2(t, func() sym.Expression { return x.Plus(yz) }); ok {
					t.Label("associativity")
					cmpResult(t, "Plus:chain", r, mAdd(mx, mAdd(my, mz)), func() string { return "x+(y+z)" })
				}
			}
		}
	}
	if xz, ok := try2(t, func() sym.Expression { return x.Plus(0.0) }); ok {
		t.Label("identity")
		cmpResult(t, "Plus:zero", xz, mx, func() string { return "x+0" })
	}
}

func runSubLaws(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	l, r := conformingPair(ce, "Minus")
	a, b := mustDenote(l), mustDenote(r)
	t.Logf("x=%s y=%s", show(l), show(r))
	if !a.isZero() && !b.isZero() {
		t.NonTrivial()
	}
	desc := func(s string) func() string { return func() string { return s } }
	want := mSub(a, b)
	if d, ok := try2(t, func() sym.Expression { return l.Minus(r) }); ok {
		if back, ok := try2(t, func() sym.Expression { return d.Plus(r) }); ok {
			t.Label("add back")
			cmpResult(t, "Minus:addback", back, mAdd(want, b), desc("(x-y)+y"))
		}
		if y, isE := r.(sym.Expression); isE {
			if e, ok := try2(t, func() sym.Expression { return y.Minus(l) }); ok {
				if z, ok := try2(t, func() sym.Expression { return d.Plus(e) }); ok {
					t.Label("antisymmetry")
					cmpResult(t, "Minus:anti", z, mAdd(want, mSub(b, a)), desc("(x-y)+(y-x)"))
				}
			}
		}
	}
	if z, ok := try2(t, func() sym.Expression { return l.Minus(l) }); ok {
		t.Label("self")
		cmpResult(t, "Minus:self", z, mSub(a, a), desc("x-x"))
	}
	if z, ok := try2(t, func() sym.Expression { return l.Minus(0.0) }); ok {
		t.Label("zero")
		cmpResult(t, "Minus:zero", z, a, desc("x-0"))
	}
}

func runMulLaws(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	lvl := t.N(3)
	n := func() int { return ce.dim(1, 3) }
	var x, y, z, w sym.Expression
	switch lvl {
	case 0:
		x, y, z, w = ce.scalar(), ce.scalar(), ce.scalar(), ce.scalar()
	case 1: // scalar times vectors
		k := n()
		x, y, z, w = ce.scalar(), ce.scalar(), ce.withShape(k, 1, 1), ce.withShape(k, 1, 1)
	case 2:
		a, b, c, d := n(), n(), n(), n()
		x, y, z, w = ce.withShape(a, b, 2), ce.withShape(b, c, 2), ce.withShape(c, d, 2), ce.withShape(c, d, 2)
	}
	t.Logf("x=%s y=%s z=%s w=%s", show(x), show(y), show(z), show(w))
	mx, my, mz, mw := mustDenote(x), mustDenote(y), mustDenote(z), mustDenote(w)
	if !mx.isZero() && !my.isZero() && !mz.isZero() {
		t.NonTrivial()
	}
	if storedTerms(x)*storedTerms(y)*storedTerms(z) > 3000 {
		t.Discard("too large")
	}
	desc := func(s string) func() string { return func() string { return s } }
	want := mMul(mMul(mx, my), mz)
	if xy, ok := try2(t, func() sym.Expression { return x.Multiply(y) }); ok {
		if p, ok := try2(t, func() sym.Expression { return xy.Multiply(z) }); ok {
			t.Label("left grouping")
			cmpResult(t, "Multiply:assoc-left", p, want, desc("(x*y)*z"))
		}
		if lvl < 2 {
			if yx, ok := try2(t, func() sym.Expression { return y.Multiply(x) }); ok {
				t.Label("commutativity")
				sameAs(t, "Multiply:commute", xy, yx, mMul(mx, my))
			}
		}
	}
	if yz, ok := try2(t, func() sym.Expression { return y.Multiply(z) }); ok {
		if p, ok := try2(t, func() sym.Expression { return x.Multiply(yz) }); ok {
			t.Label("right grouping")
			cmpResult(t, "Multiply:assoc-right", p, want, desc("x*(y*z)"))
		}
		if yw, ok := try2(t, func() sym.Expression { return y.Multiply(w) }); ok {
			wantD := mAdd(mMul(my, mz), mMul(my, mw))
			if s, ok := try2(t, func() sym.Expression { return yz.Plus(yw) }); ok {
				t.Label("sum of products")
				cmpResult(t, "Multiply:distrib", s, wantD, desc("y*z+y*w"))
			}
			if s, ok := try2(t, func() sym.Expression { return z.Plus(w) }); ok {
				if p, ok := try2(t, func() sym.Expression { return y.Multiply(s) }); ok {
					t.Label("product of sum")
					cmpResult(t, "Multiply:distrib", p, wantD, desc("y*(z+w)"))
				}
			}
		}
	}
	if o, ok := try2(t, func() sym.Expression { return x.Multiply(sym.K(1)) }); ok {
		t.Label("one")
		cmpResult(t, "Multiply:one", o, mx, desc("x*1"))
	}
	if lvl == 2 {
		id := sym.DenseToKMatrix(sym.Identity(mx.c))
		if o, ok := try2(t, func() sym.Expression { return x.Multiply(id) }); ok {
			t.Label("identity")
			cmpResult(t, "Multiply:identity", o, mx, desc("x*I"))
		}
		id = sym.DenseToKMatrix(sym.Identity(mx.r))
		if o, ok := try2(t, func() sym.Expression { return id.Multiply(x) }); ok {
			t.Label("identity")
			cmpResult(t, "Multiply:identity", o, mx, desc("I*x"))
		}
	}
}

// sameAs fails unless two results both denote want, whose accumulated mass is the tolerance.
func sameAs(t *T, key string, a, b interface{}, want Mat) {
	for _, x := range []interface{}{a, b} {
		m, err := denote(x)
		if err != nil {
			t.Fail(key+":malformed", "malformed result %s: %v", show(x), err)
		}
		if d := mDiffers(m, want); d != "" {
			t.Fail(key, "%s\nfirst:    %s\nsecond:   %s\nexpected: %s", d, show(a), show(b), want)
		}
	}
}

// same fails unless two results denote the same value (up to rounding).
func same(t *T, key string, a, b interface{}) {
	ma, err := denote(a)
	if err != nil {
		t.Fail(key+":malformed", "malformed result %s: %v", show(a), err)
	}
	mb, err := denote(b)
	if err != nil {
		t.Fail(key+":malformed", "malformed result %s: %v", show(b), err)
	}
	// tolerance relative to the largest coefficient involved
	if d := mDiffers(ma, withMass(mb, ma)); d != "" {
		t.Fail(key, "%s\nfirst:  %s\nsecond: %s", d, show(a), show(b))
	}
}

// withMass widens the tolerance of b to the largest coefficient in a or b per entry.
func withMass(b, a Mat) Mat {
	o := newMat(b.r, b.c)
	for i := range b.e {
		mx := 0.0
		for _, t := range b.e[i] {
			if t.mass > mx {
				mx = t.mass
			}
		}
		if len(a.e) == len(b.e) {
			for _, t := range a.e[i] {
				if t.mass > mx {
					mx = t.mass
				}
			}
		}
		for _, t := range b.e[i] {
			o.e[i].add(t.ex, t.c, mx)
		}
		if len(a.e) == len(b.e) {
			for _, t := range a.e[i] {
				o.e[i].add(t.ex, 0, mx)
			}
		}
	}
	return o
}

func init() {
	assume := []string{
		"variables with distinct identifiers; no variable listed twice inside one monomial; exponents non-negative; coefficients finite",
		"coefficients compared with relative tolerance 1e-11 of the accumulated absolute mass of the exact computation",
	}
	register(&Property{
		ID:     "C01",
		Rule:   "a case is a pair (or triple) of operands of randomly drawn kinds, conforming shapes and terms; non-trivial when neither operand is identically zero and at least one mentions a variable",
		Assume: assume,
		Families: []Family{
			{Name: "pairs", Quick: 60000, Thorough: 1500000, Rule: "one addition against the model", Run: runBin(opPlus)},
			{Name: "laws", Quick: 15000, Thorough: 400000, Rule: "commutativity, associativity, identity", Run: runAddLaws},
		},
	})
	register(&Property{
		ID:     "C02",
		Rule:   "a case is a pair of operands of randomly drawn kinds, conforming shapes and terms; non-trivial when neither operand is identically zero (pairs: and at least one mentions a variable)",
		Assume: assume,
		Families: []Family{
			{Name: "pairs", Quick: 60000, Thorough: 1500000, Rule: "one subtraction (method) against the model", Run: runBin(opMinus)},
			{Name: "helper", Quick: 30000, Thorough: 800000, Rule: "one subtraction (package-level helper) against the model", Run: runBin(opMinusHelper)},
			{Name: "laws", Quick: 20000, Thorough: 500000, Rule: "x-x, (x-y)+y, (x-y)+(y-x), x-0", Run: runSubLaws},
		},
	})
	register(&Property{
		ID:     "C03",
		Rule:   "a case is a pair (or four) of operands of randomly drawn kinds, conforming shapes and terms; non-trivial when no operand is identically zero (pairs: and at least one mentions a variable)",
		Assume: assume,
		Families: []Family{
			{Name: "pairs", Quick: 60000, Thorough: 1500000, Rule: "one product against the model", Run: runBin(opMul)},
			{Name: "laws", Quick: 20000, Thorough: 500000, Rule: "associativity, distributivity, commutativity of scalars, one and identity", Run: runMulLaws},
		},
	})
}
