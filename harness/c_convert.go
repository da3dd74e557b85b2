package main

// C20: conversions between representations.

import (
	"fmt"
	"math"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

type conversion struct {
	name string
	to   Kind // -1: a slice of scalar expressions
	f    func() interface{}
}

// conversionsOf lists every conversion the library offers for x.
func conversionsOf(x interface{}) []conversion {
	var out []conversion
	add := func(name string, to Kind, f func() interface{}) { out = append(out, conversion{name, to, f}) }
	if y, ok := x.(interface{ ToMonomial() sym.Monomial }); ok {
		add("ToMonomial", kM, func() interface{} { return y.ToMonomial() })
	}
	if y, ok := x.(interface{ ToPolynomial() sym.Polynomial }); ok {
		add("ToPolynomial", kP, func() interface{} { return y.ToPolynomial() })
	}
	if y, ok := x.(interface{ ToMonomialVector() sym.MonomialVector }); ok {
		add("ToMonomialVector", kMV, func() interface{} { return y.ToMonomialVector() })
	}
	if y, ok := x.(interface {
		ToPolynomialVector() sym.PolynomialVector
	}); ok {
		add("ToPolynomialVector", kPV, func() interface{} { return y.ToPolynomialVector() })
	}
	if y, ok := x.(interface{ ToMonomialMatrix() sym.MonomialMatrix }); ok {
		add("ToMonomialMatrix", kMM, func() interface{} { return y.ToMonomialMatrix() })
	}
	if y, ok := x.(interface {
		ToPolynomialMatrix() sym.PolynomialMatrix
	}); ok {
		add("ToPolynomialMatrix", kPM, func() interface{} { return y.ToPolynomialMatrix() })
	}
	if y, ok := x.(interface{ ToVecDense() mat.VecDense }); ok {
		add("ToVecDense", kVec, func() interface{} { return y.ToVecDense() })
	}
	if y, ok := x.(interface{ ToDense() mat.Dense }); ok {
		add("ToDense", kDense, func() interface{} { return y.ToDense() })
	}
	if y, ok := x.(interface {
		ToScalarExpressions() []sym.ScalarExpression
	}); ok {
		add("ToScalarExpressions", -1, func() interface{} { return y.ToScalarExpressions() })
	}
	switch y := x.(type) {
	case sym.Monomial:
		add("Copy", kM, func() interface{} { return y.Copy() })
	case sym.Polynomial:
		add("Copy", kP, func() interface{} { return y.Copy() })
	case sym.VariableVector:
		add("Copy", kVV, func() interface{} { return y.Copy() })
	case mat.VecDense:
		add("VecDenseToKVector", kKV, func() interface{} { return sym.VecDenseToKVector(y) })
	case *mat.VecDense:
		add("VecDenseToKVector", kKV, func() interface{} { return sym.VecDenseToKVector(*y) })
	case mat.Dense:
		add("DenseToKMatrix", kKM, func() interface{} { return sym.DenseToKMatrix(y) })
	case *mat.Dense:
		add("DenseToKMatrix", kKM, func() interface{} { return sym.DenseToKMatrix(*y) })
	}
	switch x.(type) {
	case sym.KVector, mat.VecDense, *mat.VecDense:
		add("getKVector.From", kKV, func() interface{} { return getKVector.From(x) })
	case sym.KMatrix, mat.Dense, *mat.Dense:
		add("getKMatrix.From", kKM, func() interface{} { return getKMatrix.From(x) })
	}
	return out
}

// exactly fails unless two representations hold the same numbers bit for bit in every term.
func exactly(a, b Mat) string {
	if a.r != b.r || a.c != b.c {
		return fmt.Sprintf("%dx%d entries instead of %dx%d", a.r, a.c, b.r, b.c)
	}
	for i := range a.e {
		p, q := a.e[i], b.e[i]
		for k := range p {
			if _, ok := q[k]; !ok && p[k].c != 0 {
				return fmt.Sprintf("entry %d: surplus term %s", i, exString(p[k].ex))
			}
		}
		for k := range q {
			u, ok := p[k]
			if !ok && q[k].c == 0 {
				continue
			}
			if !ok {
				return fmt.Sprintf("entry %d: missing term %s", i, exString(q[k].ex))
			}
			if u.c != q[k].c && !(math.IsNaN(u.c) && math.IsNaN(q[k].c)) {
				return fmt.Sprintf("entry %d: coefficient %v instead of %v", i, u.c, q[k].c)
			}
		}
	}
	return ""
}

func (ce *CE) number() float64 {
	t := ce.t
	if t.P(1, 4) {
		return []float64{0, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-300, 0.1 + 0.2, math.Pi, -1e17 - 1}[t.N(8)]
	}
	return ce.coef(true)
}

func runConversions(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 10)
	k := Kind(t.N(int(numKinds)))
	r, c := ce.shapeFor(k)
	x := ce.value(k, r, c)
	if kk := k; kk == kKV || kk == kKM || kk == kK { // extreme numbers too
		switch y := x.(type) {
		case sym.K:
			x = sym.K(ce.number())
		case sym.KVector:
			for i := range y {
				y[i] = sym.K(ce.number())
			}
		case sym.KMatrix:
			for i := range y {
				for j := range y[i] {
					y[i][j] = sym.K(ce.number())
				}
			}
		}
	}
	m := mustDenote(x)
	t.Logf("%s", show(x))
	cs := conversionsOf(x)
	if len(cs) == 0 {
		t.Discard("offers no conversion")
	}
	if m.r*m.c >= 2 || m.totalTerms() >= 2 {
		t.NonTrivial()
	}
	for _, cv := range cs {
		t.Label("%s.%s", k, cv.name)
		var got interface{}
		if cc := t.Try(func() { got = cv.f() }); cc != nil {
			t.Fail(cv.name+":panic:"+k.String(), "%s of %s: %v", cv.name, show(x), cc)
		}
		if cv.to < 0 {
			es := got.([]sym.ScalarExpression)
			if len(es) != m.r {
				t.Fail(cv.name+":length", "%s of %s has %d elements", cv.name, show(x), len(es))
			}
			for i, e := range es {
				g, err := denote(e)
				if err != nil {
					t.Fail(cv.name+":malformed", "%s of %s, element %d: %v", cv.name, show(x), i, err)
				}
				if d := exactly(g, scalarMat(m.e[i])); d != "" {
					t.Fail(cv.name+":value:"+k.String(), "%s of %s, element %d is %s: %s", cv.name, show(x), i, show(e), d)
				}
			}
			continue
		}
		if kindOf(got) != cv.to {
			t.Fail(cv.name+":kind", "%s of %s is a %T", cv.name, show(x), got)
		}
		g, err := denote(got)
		if err != nil {
			t.Fail(cv.name+":malformed", "%s of %s is %s: %v", cv.name, show(x), show(got), err)
		}
		if d := exactly(g, m); d != "" {
			t.Fail(cv.name+":value:"+k.String(), "%s of %s is %s: %s", cv.name, show(x), show(got), d)
		}
		if e, ok := got.(sym.Expression); ok {
			var err error
			if cc := t.Try(func() { err = e.Check() }); cc != nil || err != nil {
				t.Fail(cv.name+":Check", "Check of %s of %s: %v %v", cv.name, show(x), cc, err)
			}
			if d := e.Dims(); len(d) != 2 || d[0] != m.r || d[1] != m.c {
				t.Fail(cv.name+":dims", "%s of %s reports dimensions %v", cv.name, show(x), d)
			}
		}
		// and back
		var back interface{}
		cc := t.Try(func() {
			switch y := got.(type) {
			case mat.VecDense:
				back = sym.VecDenseToKVector(y)
			case mat.Dense:
				back = sym.DenseToKMatrix(y)
			case sym.KVector:
				back = y.ToVecDense()
			case sym.KMatrix:
				back = y.ToDense()
			case sym.Monomial:
				if v, ok := x.(sym.Variable); ok {
					w := y.ToVariable()
					if w != v {
						t.Fail("ToVariable:altered", "%+v through ToMonomial and ToVariable is %+v", v, w)
					}
					back = w
				}
			}
		})
		if cc != nil {
			t.Fail(cv.name+":back:panic", "converting %s back: %v", show(got), cc)
		}
		if back != nil {
			b, err := denote(back)
			if err != nil {
				t.Fail(cv.name+":back", "%s back from %s: %v", show(x), show(got), err)
			}
			if d := exactly(b, m); d != "" {
				t.Fail(cv.name+":back", "%s there and back is %s: %s", show(x), show(back), d)
			}
		}
	}
}

// runPlainData converts Go slices, and the constant constructors.
func runPlainData(t *T) {
	ce := newCE(t)
	ce.wild = true
	r, c := ce.dim(1, 5), ce.dim(1, 4)
	if r*c >= 2 {
		t.NonTrivial()
	}
	want := newMat(r, c)
	var got interface{}
	var what string
	var in string
	run := func(f func() interface{}) {
		if cc := t.Try(func() { got = f() }); cc != nil {
			t.Fail(what+":panic", "%s of %s: %v", what, in, cc)
		}
	}
	switch t.N(7) {
	case 0:
		s := make([]float64, r, r+t.N(3))
		want = newMat(r, 1)
		for i := range s {
			s[i] = ce.number()
			want.e[i] = pConst(s[i])
		}
		what, in = "getKVector.From([]float64)", fmt.Sprint(s)
		run(func() interface{} { return getKVector.From(s) })
	case 1:
		s := make([]int, r)
		want = newMat(r, 1)
		for i := range s {
			s[i] = t.N(40) - 20
			if t.P(1, 6) {
				s[i] = []int{1 << 40, -(1 << 50), 1 << 52}[t.N(3)]
			}
			want.e[i] = pConst(float64(s[i]))
		}
		what, in = "getKVector.From([]int)", fmt.Sprint(s)
		run(func() interface{} { return getKVector.From(s) })
	case 2:
		s := make([][]float64, r)
		for i := range s {
			s[i] = make([]float64, c)
			for j := range s[i] {
				s[i][j] = ce.number()
				want.e[i*c+j] = pConst(s[i][j])
			}
		}
		what, in = "getKMatrix.From([][]float64)", fmt.Sprint(s)
		run(func() interface{} { return getKMatrix.From(s) })
	case 3:
		want = newMat(r, 1)
		one := t.Bool()
		for i := range want.e {
			want.e[i] = pConst(0)
			if one {
				want.e[i] = pConst(1)
			}
		}
		what, in = "OnesVector/ZerosVector", fmt.Sprint(one, r)
		run(func() interface{} {
			if one {
				return sym.OnesVector(r)
			}
			return sym.ZerosVector(r)
		})
	case 4:
		one := t.Bool()
		for i := range want.e {
			want.e[i] = pConst(0)
			if one {
				want.e[i] = pConst(1)
			}
		}
		what, in = "OnesMatrix/ZerosMatrix", fmt.Sprint(one, r, c)
		run(func() interface{} {
			if one {
				return sym.OnesMatrix(r, c)
			}
			return sym.ZerosMatrix(r, c)
		})
	case 5:
		want = newMat(r, r)
		for i := range want.e {
			want.e[i] = pConst(0)
			if i/r == i%r {
				want.e[i] = pConst(1)
			}
		}
		what, in = "Identity", fmt.Sprint(r)
		run(func() interface{} { return sym.Identity(r) })
	case 6: // a transposed view copied by gonum, and a row view
		d := ce.dense(r, c)
		var td mat.Dense
		td.CloneFrom(d.T())
		want = newMat(c, r)
		for i := 0; i < c; i++ {
			for j := 0; j < r; j++ {
				want.e[i*r+j] = pConst(d.At(j, i))
			}
		}
		what, in = "DenseToKMatrix of a transpose", show(d)
		run(func() interface{} { return sym.DenseToKMatrix(td) })
	}
	t.Logf("%s of %s", what, in)
	t.Label("%s", what)
	g, err := denote(got)
	if err != nil {
		t.Fail(what+":malformed", "%s of %s: %v", what, in, err)
	}
	if d := exactly(g, want); d != "" {
		t.Fail(what+":value", "%s of %s is %s: %s", what, in, show(got), d)
	}
}

// runClasses compares the predicates with the conversions.
func runClasses(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.small = true
	var x interface{}
	level := -1
	name := ""
	if t.P(1, 6) {
		x, name = ce.unsupported()
	} else {
		k := Kind(t.N(int(numKinds)))
		r, c := ce.shapeFor(k)
		x = ce.value(k, r, c)
		name = k.String()
		level = k.level()
		if k == kInt {
			level = -1 // plain integers are operands, not expressions
		}
		t.NonTrivial()
	}
	t.Logf("%s %s", name, safeShow(x))
	t.Label("%s", name)
	type class struct {
		name string
		is   bool
		to   func() (interface{}, error)
		lvl  int // level the class requires, -1: any
		poly bool
	}
	var cs []class
	if c := t.Try(func() {
		cs = []class{
			{"Expression", sym.IsExpression(x), func() (interface{}, error) { return wrap(sym.ToExpression(x)) }, -1, false},
			{"ScalarExpression", sym.IsScalarExpression(x), func() (interface{}, error) { return wrap(sym.ToScalarExpression(x)) }, 0, false},
			{"VectorExpression", sym.IsVectorExpression(x), func() (interface{}, error) { return wrap(sym.ToVectorExpression(x)) }, 1, false},
			{"MatrixExpression", sym.IsMatrixExpression(x), func() (interface{}, error) { return wrap(sym.ToMatrixExpression(x)) }, 2, false},
			{"PolynomialLike", sym.IsPolynomialLike(x), func() (interface{}, error) { return wrap(sym.ToPolynomialLike(x)) }, -1, true},
			{"PolynomialLikeScalar", sym.IsPolynomialLikeScalar(x), func() (interface{}, error) { return wrap(sym.ToPolynomialLikeScalar(x)) }, 0, true},
			{"PolynomialLikeVector", sym.IsPolynomialLikeVector(x), func() (interface{}, error) { return wrap(sym.ToPolynomialLikeVector(x)) }, 1, true},
			{"PolynomialLikeMatrix", sym.IsPolynomialLikeMatrix(x), func() (interface{}, error) { return wrap(sym.ToPolynomialLikeMatrix(x)) }, 2, true},
		}
	}); c != nil {
		t.Fail("Is:panic", "the predicates of a %s: %v", name, c)
	}
	for _, q := range cs {
		var got interface{}
		var err error
		c := t.Try(func() { got, err = q.to() })
		done := c == nil && err == nil
		if done != q.is {
			t.Fail("Is:disagrees:"+q.name+" "+name, "Is%s of a %s (%s) is %v, but To%s: %v %v", q.name, name, safeShow(x), q.is, q.name, c, err)
		}
		belongs := level >= 0 && (q.lvl < 0 || q.lvl == level)
		if q.is && !belongs {
			t.Fail("Is:class:"+q.name+" "+name, "a %s is classified as %s", name, q.name)
		}
		// every expression type, and every gonum object or number in the basic classes, belongs
		k := kindOf(x)
		if !q.is && belongs && (k.isExpr() || !q.poly) {
			t.Fail("Is:class:"+q.name+" "+name, "a %s is not classified as %s", name, q.name)
		}
		if done {
			t.Label("%s is %s", name, q.name)
			g, err := denote(got)
			if err != nil {
				t.Fail("To:malformed:"+q.name, "To%s of %s: %v", q.name, show(x), err)
			}
			if d := exactly(g, mustDenote(x)); d != "" {
				t.Fail("To:value:"+q.name+" "+name, "To%s of %s is %s: %s", q.name, show(x), show(got), d)
			}
			if k.isExpr() && kindOf(got) != k {
				t.Fail("To:kind:"+q.name+" "+name, "To%s of %s is a %T", q.name, show(x), got)
			}
		}
	}
	if me, ok := x.(sym.MatrixExpression); ok && kindOf(x).level() == 2 {
		m := mustDenote(x)
		if sq := sym.IsSquare(me); sq != (m.r == m.c) {
			t.Fail("IsSquare", "IsSquare of the %dx%d %s is %v", m.r, m.c, show(x), sq)
		}
	}
	_, sc := x.(sym.ScalarConstraint)
	if is := sym.IsConstraint(x); is != sc {
		t.Fail("IsConstraint", "IsConstraint of a %s is %v", name, is)
	}
	if e, ok := x.(sym.Expression); ok && level >= 0 {
		k := constraintOf(e, ce.withShape(mustDenote(x).r, mustDenote(x).c, level), senses[t.N(3)])
		if !sym.IsConstraint(k) {
			t.Fail("IsConstraint", "IsConstraint of a %T is false", k)
		}
	}
}

func wrap[E any](e E, err error) (interface{}, error) { return e, err }

// answer of one operation, for comparing two representations of the same operand.
type answer struct {
	c   *caught
	got interface{}
}

func answerOf(t *T, f func() interface{}) answer {
	var o answer
	o.c = t.Try(func() { o.got = f() })
	return o
}

// agree fails unless two outcomes are the same: both refused, or both the same value.
func agree(t *T, key string, a, b answer, desc func() string) bool {
	if (a.c == nil) != (b.c == nil) {
		t.Fail(key+":refused", "%s\nfirst:  %s\nsecond: %s", desc(), a, b)
	}
	if a.c != nil {
		t.Label("both refused")
		return false
	}
	ka, oka := a.got.(sym.Constraint)
	kb, okb := b.got.(sym.Constraint)
	if oka != okb {
		t.Fail(key, "%s\nfirst:  %s\nsecond: %s", desc(), a, b)
	}
	if oka {
		if ka.ConstrSense() != kb.ConstrSense() {
			t.Fail(key+":direction", "%s\nfirst:  %s\nsecond: %s", desc(), a, b)
		}
		same(t, key+":left", ka.Left(), kb.Left())
		same(t, key+":right", ka.Right(), kb.Right())
		return true
	}
	ma, err := denote(a.got)
	if err != nil {
		t.Fail(key+":malformed", "%s\nfirst:  %s (%v)", desc(), a, err)
	}
	mb, err := denote(b.got)
	if err != nil {
		t.Fail(key+":malformed", "%s\nsecond: %s (%v)", desc(), b, err)
	}
	if d := mDiffers(ma, withMass(mb, ma)); d != "" {
		t.Fail(key, "%s: %s\nfirst:  %s\nsecond: %s", desc(), d, a, b)
	}
	return true
}

func (o answer) String() string {
	if o.c != nil {
		return "refused: " + o.c.msg
	}
	return safeShow(o.got)
}

// runOperands compares a gonum object or a number as operand with the converted expression.
func runOperands(t *T) {
	ce := newCE(t)
	ce.dyadic = true // so that the two computations agree exactly
	ce.alias = true
	ce.small = t.Bool()
	ops := []string{"Plus", "Minus", "Multiply", "Comparison", "LessEq", "GreaterEq", "Eq"}
	op := ops[t.N(len(ops))]
	cf := op
	if op != "Plus" && op != "Minus" && op != "Multiply" {
		cf = "Comparison"
	}
	var l sym.Expression
	var g interface{}
	for try := 0; ; try++ {
		l, g = conformingPair(ce, cf)
		if k := kindOf(g); !k.isExpr() && k != kInt {
			break
		}
		if try == 12 {
			t.Discard("no plain operand drawn")
		}
	}
	var conv sym.Expression
	if c := t.Try(func() {
		switch y := g.(type) {
		case float64:
			conv = sym.K(y)
		case mat.VecDense:
			conv = sym.VecDenseToKVector(y)
		case *mat.VecDense:
			conv = sym.VecDenseToKVector(*y)
		case mat.Dense:
			conv = sym.DenseToKMatrix(y)
		case *mat.Dense:
			conv = sym.DenseToKMatrix(*y)
		}
	}); c != nil {
		t.Fail("convert:panic", "converting %s: %v", show(g), c)
	}
	sense := senses[t.N(3)]
	t.Logf("%s %s %s", show(l), op, show(g))
	t.Label("%s %s %s", kindOf(l), op, kindOf(g))
	if mustDenote(l).totalTerms() >= 2 {
		t.NonTrivial()
	}
	call := func(r interface{}) func() interface{} {
		return func() interface{} {
			switch op {
			case "Plus":
				return l.Plus(r)
			case "Minus":
				return l.Minus(r)
			case "Multiply":
				return l.Multiply(r)
			case "Comparison":
				return l.Comparison(r, sense)
			case "LessEq":
				return l.LessEq(r)
			case "GreaterEq":
				return l.GreaterEq(r)
			}
			return l.Eq(r)
		}
	}
	a, b := answerOf(t, call(g)), answerOf(t, call(conv))
	if agree(t, fmt.Sprintf("operand:%s:%s:%s", kindOf(l), op, kindOf(g)), a, b, func() string {
		return fmt.Sprintf("%s of %s with %s differs from %s with its conversion", op, show(l), show(g), op)
	}) {
		t.Label("answered")
	}
}

// richer lists the representations of x as richer kinds, x first.
func richer(ce *CE, x sym.Expression) []sym.Expression {
	out := []sym.Expression{x}
	switch y := x.(type) {
	case sym.K:
		out = append(out, y.ToMonomial(), y.ToPolynomial(), sym.Monomial{Coefficient: float64(y), VariableFactors: []sym.Variable{}, Exponents: []int{}})
	case sym.Variable:
		out = append(out, y.ToMonomial(), y.ToPolynomial())
	case sym.Monomial:
		out = append(out, y.ToPolynomial())
	case sym.KVector:
		out = append(out, y.ToMonomialVector(), y.ToPolynomialVector())
	case sym.VariableVector:
		out = append(out, y.ToMonomialVector(), y.ToPolynomialVector())
	case sym.MonomialVector:
		out = append(out, y.ToPolynomialVector())
	case sym.KMatrix:
		out = append(out, y.ToMonomialMatrix(), y.ToPolynomialMatrix())
	case sym.VariableMatrix:
		out = append(out, y.ToMonomialMatrix(), y.ToPolynomialMatrix())
	case sym.MonomialMatrix:
		p := make(sym.PolynomialMatrix, len(y))
		for i := range y {
			for _, m := range y[i] {
				p[i] = append(p[i], m.ToPolynomial())
			}
		}
		out = append(out, p)
	}
	return out
}

func runRicher(t *T) {
	ce := newCE(t)
	ce.dyadic = true // so that the two computations agree exactly
	ce.alias = true
	ce.small = true
	ops := []string{"Plus", "Minus", "Multiply", "right Plus", "right Minus", "right Multiply", "DerivativeWrt", "Substitute", "SubstituteAccordingTo", "Power", "Transpose", "AsSimplifiedExpression", "replacement", "HStack", "VStack"}
	op := ops[t.N(len(ops))]
	var x, o sym.Expression
	switch op {
	case "Plus", "Minus", "Multiply", "right Plus", "right Minus", "right Multiply":
		cf := op
		right := false
		if len(op) > 6 && op[:6] == "right " {
			cf, right = op[6:], true
		}
		for try := 0; ; try++ {
			l, r := conformingPair(ce, cf)
			re, ok := r.(sym.Expression)
			if ok && kindOf(r).isExpr() {
				x, o = l, re
				if right {
					x, o = re, l
				}
				break
			}
			if try == 12 {
				t.Discard("no pair drawn")
			}
		}
	default:
		k := Kind(t.N(12))
		if op == "replacement" {
			k = Kind(t.N(3))
		}
		r, c := ce.shapeFor(k)
		x = ce.value(k, r, c).(sym.Expression)
		o = ce.expr()
		if op == "HStack" || op == "VStack" {
			o = blockWith(ce, map[bool]int{true: mustDenote(x).r, false: mustDenote(x).c}[op == "HStack"], op == "HStack")
		}
	}
	rs := richer(ce, x)
	if len(rs) < 2 {
		t.Discard("no richer kind")
	}
	y := rs[1+t.N(len(rs)-1)]
	v := ce.diffVar()
	rep := ce.scalar().(sym.ScalarExpression)
	mp := ce.substMapFor(t)
	n := t.N(3)
	first := t.Bool()
	t.Logf("%s: %s as %s, with %s", op, show(x), kindOf(y), show(o))
	t.Label("%s %s as %s", op, kindOf(x), kindOf(y))
	if mustDenote(x).totalTerms() >= 2 || !mustDenote(o).isZero() && len(mustDenote(x).vars()) > 0 {
		t.NonTrivial()
	}
	call := func(x sym.Expression) func() interface{} {
		return func() interface{} {
			switch op {
			case "Plus":
				return x.Plus(o)
			case "Minus":
				return x.Minus(o)
			case "Multiply":
				return x.Multiply(o)
			case "right Plus":
				return o.Plus(x)
			case "right Minus":
				return o.Minus(x)
			case "right Multiply":
				return o.Multiply(x)
			case "DerivativeWrt":
				return x.DerivativeWrt(v)
			case "Substitute":
				return x.Substitute(v, rep)
			case "SubstituteAccordingTo":
				return x.SubstituteAccordingTo(mp)
			case "Power":
				return x.Power(n)
			case "Transpose":
				return x.Transpose()
			case "AsSimplifiedExpression":
				return x.AsSimplifiedExpression()
			case "replacement":
				return o.Substitute(v, x.(sym.ScalarExpression))
			case "HStack":
				if first {
					return sym.HStack(x, o)
				}
				return sym.HStack(o, x)
			}
			if first {
				return sym.VStack(x, o)
			}
			return sym.VStack(o, x)
		}
	}
	a, b := answerOf(t, call(x)), answerOf(t, call(y))
	if agree(t, fmt.Sprintf("richer:%s:%s as %s", op, kindOf(x), kindOf(y)), a, b, func() string {
		return fmt.Sprintf("%s with %s (other operand %s, v%d, %s, exponent %d) depends on whether it is held as %s or %s", op, show(x), show(o), v.ID, show(rep), n, kindOf(x), kindOf(y))
	}) {
		t.Label("answered")
	}
}

func (ce *CE) substMapFor(t *T) map[sym.Variable]sym.Expression {
	mp := map[sym.Variable]sym.Expression{}
	for i := t.Range(1, 2); i > 0; i-- {
		putKey(mp, ce.anyVar(), ce.scalar())
	}
	return mp
}

func init() {
	register(&Property{ID: "C20",
		Rule: "a case is one value with all its conversions, one value with all predicates, one operation with a plain operand and with its conversion, or one operation with a value and with the same value in a richer kind; non-trivial when several entries or terms are involved",
		Assume: []string{
			"operations are compared by meaning and by whether they answer at all; a plain int is an operand, not an expression",
			"a class need not admit gonum objects or numbers in the PolynomialLike family, but its predicate and its conversion must agree on them",
		},
		Families: []Family{
			{Name: "conversions", Quick: 80000, Thorough: 1500000, Rule: "every conversion of a value keeps every number exactly, there and back", Run: runConversions},
			{Name: "plain", Quick: 40000, Thorough: 600000, Rule: "slices, constant constructors, transposed data", Run: runPlainData},
			{Name: "assembled", Quick: 40000, Thorough: 600000, Rule: "scalars assembled into a vector or matrix keep every number, entry by entry", Run: runConcretize},
			{Name: "classes", Quick: 60000, Thorough: 1000000, Rule: "predicates agree with conversions", Run: runClasses},
			{Name: "operands", Quick: 80000, Thorough: 1500000, Rule: "gonum objects and numbers act like their conversions", Run: runOperands},
			{Name: "richer", Quick: 120000, Thorough: 2500000, Rule: "the same value in a richer kind behaves the same", Run: runRicher},
		}})
}
