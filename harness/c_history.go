package main

// C09: histories of operations never change operands or earlier results.

import (
	"fmt"
	"sort"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// ---------------------------------------------------------------- fingerprints

type fpw struct {
	b   strings.Builder
	cap bool // include the spare capacity of slices
}

func (w *fpw) f(s string, a ...interface{}) { fmt.Fprintf(&w.b, s, a...) }

func (w *fpw) variable(v sym.Variable) {
	w.f("V%d,%v,%v,%v,%s;", v.ID, v.Lower, v.Upper, v.Type, v.Name)
}

func (w *fpw) vars(vs []sym.Variable) {
	w.f("[%d:", len(vs))
	if w.cap {
		vs = vs[:cap(vs)]
	}
	for _, v := range vs {
		w.variable(v)
	}
	w.f("]")
}

func (w *fpw) monomial(m sym.Monomial) {
	w.f("M%v", m.Coefficient)
	w.vars(m.VariableFactors)
	w.f("e%d:", len(m.Exponents))
	ex := m.Exponents
	if w.cap {
		ex = ex[:cap(ex)]
	}
	for _, e := range ex {
		w.f("%d,", e)
	}
}

func (w *fpw) monomials(ms []sym.Monomial) {
	w.f("<%d:", len(ms))
	if w.cap {
		ms = ms[:cap(ms)]
	}
	for _, m := range ms {
		w.monomial(m)
	}
	w.f(">")
}

func (w *fpw) polynomials(ps []sym.Polynomial) {
	w.f("{%d:", len(ps))
	if w.cap {
		ps = ps[:cap(ps)]
	}
	for _, p := range ps {
		w.monomials(p.Monomials)
	}
	w.f("}")
}

func (w *fpw) ks(ks []sym.K) {
	w.f("k%d:", len(ks))
	if w.cap {
		ks = ks[:cap(ks)]
	}
	for _, k := range ks {
		w.f("%v,", float64(k))
	}
}

func (w *fpw) val(x interface{}) {
	switch e := x.(type) {
	case nil:
		w.f("nil")
	case sym.K:
		w.f("K%v", float64(e))
	case sym.Variable:
		w.variable(e)
	case sym.Monomial:
		w.monomial(e)
	case sym.Polynomial:
		w.monomials(e.Monomials)
	case sym.KVector:
		w.ks(e)
	case sym.VariableVector:
		w.vars(e)
	case sym.MonomialVector:
		w.monomials(e)
	case sym.PolynomialVector:
		w.polynomials(e)
	case sym.KMatrix:
		for _, r := range e {
			w.ks(r)
		}
	case sym.VariableMatrix:
		for _, r := range e {
			w.vars(r)
		}
	case sym.MonomialMatrix:
		for _, r := range e {
			w.monomials(r)
		}
	case sym.PolynomialMatrix:
		for _, r := range e {
			w.polynomials(r)
		}
	case mat.VecDense:
		r := e.RawVector()
		w.f("vec%d/%d%v", r.N, r.Inc, r.Data)
	case *mat.VecDense:
		r := e.RawVector()
		w.f("vec%d/%d%v", r.N, r.Inc, r.Data)
	case mat.Dense:
		r := e.RawMatrix()
		w.f("den%d/%d/%d%v", r.Rows, r.Cols, r.Stride, r.Data)
	case *mat.Dense:
		r := e.RawMatrix()
		w.f("den%d/%d/%d%v", r.Rows, r.Cols, r.Stride, r.Data)
	case sym.ScalarConstraint:
		w.f("SC%c(", e.Sense)
		w.val(e.LeftHandSide)
		w.f("|")
		w.val(e.RightHandSide)
		w.f(")")
	case sym.VectorConstraint:
		w.f("VC%c(", e.Sense)
		w.val(e.LeftHandSide)
		w.f("|")
		w.val(e.RightHandSide)
		w.f(")")
	case sym.MatrixConstraint:
		w.f("MC%c(", e.Sense)
		w.val(e.LeftHandSide)
		w.f("|")
		w.val(e.RightHandSide)
		w.f(")")
	case []sym.Variable:
		w.vars(e)
	case []uint64:
		w.f("u%v", e)
	case []sym.ScalarExpression:
		w.f("S%d(", len(e))
		for _, s := range e {
			w.val(s)
			w.f("|")
		}
		w.f(")")
	case [][]sym.ScalarExpression:
		w.f("R%d(", len(e))
		for _, s := range e {
			w.val(s)
		}
		w.f(")")
	case []sym.Expression:
		w.f("E%d(", len(e))
		for _, s := range e {
			w.val(s)
			w.f("|")
		}
		w.f(")")
	case []sym.Constraint:
		w.f("C%d(", len(e))
		for _, s := range e {
			w.val(s)
			w.f("|")
		}
		w.f(")")
	case []sym.ScalarConstraint:
		w.f("CS%d(", len(e))
		for _, s := range e {
			w.val(s)
			w.f("|")
		}
		w.f(")")
	case map[sym.Variable]sym.Expression:
		var ks []sym.Variable
		for k := range e {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
		w.f("map%d(", len(e))
		for _, k := range ks {
			w.variable(k)
			w.val(e[k])
			w.f("|")
		}
		w.f(")")
	default:
		w.f("%T:%v", x, x)
	}
}

func fingerprint(x interface{}, caps bool) string {
	w := fpw{cap: caps}
	w.val(x)
	return w.b.String()
}

// ---------------------------------------------------------------- the pool

type live struct {
	id    int
	v     interface{}
	input bool
	fp    string
}

type pool struct {
	t    *T
	ce   *CE
	live []*live
	next int
	n    int // common size
}

func (p *pool) add(v interface{}, input bool) *live {
	p.next++
	l := &live{id: p.next, v: v, input: input, fp: fingerprint(v, input)}
	p.live = append(p.live, l)
	if len(p.live) > 26 {
		// forget a random result (never the newest)
		i := p.t.N(len(p.live) - 1)
		p.live = append(p.live[:i], p.live[i+1:]...)
	}
	return l
}

func (p *pool) pick(ok func(v interface{}) bool) *live {
	var c []*live
	for _, l := range p.live {
		if ok(l.v) {
			c = append(c, l)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[p.t.N(len(c))]
}

func isE(v interface{}) bool { _, ok := v.(sym.Expression); return ok }
func isSE(v interface{}) bool {
	_, ok := v.(sym.ScalarExpression)
	return ok
}
func isC(v interface{}) bool { _, ok := v.(sym.Constraint); return ok }
func isOperand(v interface{}) bool {
	return isE(v) || kindOf(v) >= 0
}
func isVars(v interface{}) bool { _, ok := v.([]sym.Variable); return ok }
func isMap(v interface{}) bool {
	_, ok := v.(map[sym.Variable]sym.Expression)
	return ok
}

func termsOf(v interface{}) int {
	m, err := denote(v)
	if err != nil {
		return 0
	}
	return m.totalTerms()
}

// newPool seeds the pool with values that share storage.
func newPool(t *T) *pool {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	p := &pool{t: t, ce: ce, n: t.Range(1, 3)}
	if t.P(1, 15) { // larger values now and then
		p.n = t.Range(3, 6)
		ce.big = []int{bigVars, bigTerms, bigWidth}[t.N(3)]
		ce.small = ce.big == bigWidth
	}
	n := p.n
	// variable storage shared by vectors, matrices, lists and monomials
	vs := make([]sym.Variable, 0, n*n+3)
	for i := 0; i < n*n+3; i++ {
		vs = append(vs, ce.anyVar())
	}
	p.add(sym.VariableVector(vs[:n]), true)
	if n > 3 {
		p.add([]sym.Variable(vs), true)
	}
	if t.Bool() {
		vm := make(sym.VariableMatrix, n)
		for i := range vm {
			vm[i] = vs[i*n : (i+1)*n]
		}
		p.add(vm, true)
	}
	if t.Bool() {
		p.add(sym.Monomial{Coefficient: ce.coef(false), VariableFactors: ce.vars[:1], Exponents: []int{2, 1, 3}[:1]}, true)
	}
	p.add([]sym.Variable(ce.vars), true)
	// monomials shared between a polynomial and vectors
	ms := make([]sym.Monomial, 0, n*n+4)
	for i := 0; i < n*n+4; i++ {
		ms = append(ms, ce.monomial(true))
	}
	k := t.Range(1, 3)
	p.add(sym.Polynomial{Monomials: ms[:k]}, true)
	if t.Bool() {
		p.add(sym.MonomialVector(ms[:n]), true)
	}
	if t.Bool() {
		p.add(sym.PolynomialVector(func() []sym.Polynomial {
			o := make([]sym.Polynomial, n)
			for i := range o {
				o[i] = sym.Polynomial{Monomials: ms[i : i+2 : i+2+t.N(2)]}
			}
			return o
		}()), true)
	}
	if t.Bool() {
		mm := make(sym.MonomialMatrix, n)
		for i := range mm {
			mm[i] = ms[i*n : (i+1)*n]
		}
		p.add(mm, true)
	}
	// further values of all kinds
	for i := t.Range(2, 5); i > 0; i-- {
		kd := Kind(t.N(int(numKinds)))
		r, c := 1, 1
		switch kd.level() {
		case 1:
			r = n
		case 2:
			r, c = n, n
		}
		if kd.level() > 0 && t.P(1, 6) {
			r, c = ce.shapeFor(kd)
		}
		p.add(ce.value(kd, r, c), true)
	}
	if t.P(1, 3) {
		p.add(map[sym.Variable]sym.Expression{ce.anyVar(): ce.value(Kind(t.N(4)), 1, 1).(sym.Expression)}, true)
	}
	// constraints whose sides are values of the pool
	if t.Bool() {
		for i := t.Range(1, 3); i > 0; i-- {
			if l, r := p.constraintSides(); l != nil {
				p.add(constraintOf(l, r, senses[t.N(3)]), true)
			}
		}
	}
	return p
}

// constraintSides picks two live expressions of one level and shape.
func (p *pool) constraintSides() (sym.Expression, sym.Expression) {
	a := p.pick(isE)
	if a == nil {
		return nil, nil
	}
	level := func(v interface{}) int {
		switch v.(type) {
		case sym.ScalarExpression:
			return 0
		case sym.VectorExpression:
			return 1
		}
		return 2
	}
	ma := mustDenote(a.v)
	b := p.pick(func(v interface{}) bool {
		if !isE(v) || level(v) != level(a.v) {
			return false
		}
		m, err := denote(v)
		return err == nil && m.r == ma.r && m.c == ma.c
	})
	return a.v.(sym.Expression), b.v.(sym.Expression)
}

type histOp struct {
	name string
	args []*live
	call func() []interface{}
}

// obs is what a query answered: compared, but never an operand.
type obs string

func one1(v interface{}) []interface{} { return []interface{}{v} }

// step draws one operation on live values.
func (p *pool) step() *histOp {
	t := p.t
	e := p.pick(isE)
	if e == nil {
		return nil
	}
	x := e.v.(sym.Expression)
	sense := []sym.ConstrSense{sym.SenseLessThanEqual, sym.SenseGreaterThanEqual, sym.SenseEqual}[t.N(3)]
	v := p.ce.anyVar()
	op := t.W(8, 8, 8, 3, 6, 6, 4, 3, 3, 3, 4, 3, 4, 3, 3, 3, 12, 3, 3, 3, 4, 3, 2)
	switch op {
	case 0, 1, 2: // arithmetic
		o := p.pick(isOperand)
		switch op {
		case 0:
			return &histOp{"Plus", []*live{e, o}, func() []interface{} { return one1(x.Plus(o.v)) }}
		case 1:
			if y, ok := o.v.(sym.Expression); ok && t.P(1, 3) {
				return &histOp{"MinusHelper", []*live{e, o}, func() []interface{} { return one1(sym.Minus(x, y)) }}
			}
			return &histOp{"Minus", []*live{e, o}, func() []interface{} { return one1(x.Minus(o.v)) }}
		}
		if termsOf(e.v)*max(1, termsOf(o.v)) > 400 {
			return nil
		}
		return &histOp{"Multiply", []*live{e, o}, func() []interface{} { return one1(x.Multiply(o.v)) }}
	case 3:
		n := t.N(4) - 1
		if termsOf(e.v) > 12 {
			n = min(n, 1)
		}
		return &histOp{fmt.Sprintf("Power(%d)", n), []*live{e}, func() []interface{} { return one1(x.Power(n)) }}
	case 4:
		return &histOp{"DerivativeWrt", []*live{e}, func() []interface{} { return one1(x.DerivativeWrt(v)) }}
	case 5:
		s := p.pick(isSE)
		if s == nil || termsOf(e.v) > 20 || termsOf(s.v) > 3 || degreeOf(e.v) > 4 || substTooLarge(e.v, storedTerms(s.v)) {
			return nil
		}
		return &histOp{"Substitute", []*live{e, s}, func() []interface{} { return one1(x.Substitute(v, s.v.(sym.ScalarExpression))) }}
	case 6:
		m := p.pick(isMap)
		if m == nil || t.P(1, 4) {
			mp := map[sym.Variable]sym.Expression{}
			for i := t.Range(1, 2); i > 0; i-- {
				s := p.pick(isSE)
				if s != nil && termsOf(s.v) <= 3 {
					putKey(mp, p.ce.anyVar(), s.v.(sym.Expression))
				}
			}
			m = p.add(mp, true)
		}
		if termsOf(e.v) > 20 || degreeOf(e.v) > 3 {
			return nil
		}
		mm := m.v.(map[sym.Variable]sym.Expression)
		if mapTooLarge(e.v, mm) {
			return nil
		}
		return &histOp{"SubstituteAccordingTo", []*live{e, m}, func() []interface{} { return one1(x.SubstituteAccordingTo(mm)) }}
	case 7:
		return &histOp{"AsSimplifiedExpression", []*live{e}, func() []interface{} { return one1(x.AsSimplifiedExpression()) }}
	case 8:
		return &histOp{"Transpose", []*live{e}, func() []interface{} { return one1(x.Transpose()) }}
	case 9:
		i, j := t.N(p.n+1), t.N(p.n+1)
		return &histOp{fmt.Sprintf("At(%d,%d)", i, j), []*live{e}, func() []interface{} { return one1(x.At(i, j)) }}
	case 10: // comparison
		o := p.pick(isOperand)
		return &histOp{"Comparison", []*live{e, o}, func() []interface{} {
			switch t := sense; t {
			case sym.SenseLessThanEqual:
				return one1(x.LessEq(o.v))
			case sym.SenseGreaterThanEqual:
				return one1(x.GreaterEq(o.v))
			}
			return one1(x.Eq(o.v))
		}}
	case 11: // stacking
		k := t.Range(1, 3)
		es := []sym.Expression{x}
		as := []*live{e}
		for i := 1; i < k; i++ {
			o := p.pick(isE)
			as = append(as, o)
			es = append(es, o.v.(sym.Expression))
		}
		if t.Bool() {
			return &histOp{"HStack", as, func() []interface{} { return one1(sym.HStack(es...)) }}
		}
		return &histOp{"VStack", as, func() []interface{} { return one1(sym.VStack(es...)) }}
	case 12: // inspection
		which := t.N(7)
		wl := p.pick(isVars)
		return &histOp{fmt.Sprintf("inspect%d", which), []*live{e}, func() []interface{} {
			switch which {
			case 0:
				return []interface{}{obs(x.String()), obs(fmt.Sprint(x.Check() == nil)), obs(fmt.Sprint(x.Dims()))}
			case 1:
				return one1(x.Variables())
			case 2:
				return []interface{}{obs(fmt.Sprint(sym.NumVariables(x))), sym.VariableIDs(x)}
			case 3:
				return one1(obs(fmt.Sprint(sym.IsLinear(x), sym.IsQuadratic(x))))
			case 4:
				switch y := x.(type) {
				case interface{ Constant() float64 }:
					return one1(obs(fmt.Sprint(y.Constant())))
				case interface{ Constant() mat.VecDense }:
					return one1(y.Constant())
				case interface{ Constant() mat.Dense }:
					return one1(y.Constant())
				}
			case 5, 6:
				var w [][]sym.Variable
				if which == 5 && wl != nil {
					w = append(w, wl.v.([]sym.Variable))
				}
				switch y := x.(type) {
				case interface {
					LinearCoeff(...[]sym.Variable) mat.VecDense
				}:
					return one1(y.LinearCoeff(w...))
				case interface {
					LinearCoeff(...[]sym.Variable) mat.Dense
				}:
					return one1(y.LinearCoeff(w...))
				}
			}
			return nil
		}}
	case 13: // conversions and kind-specific methods
		return &histOp{"convert " + kindOf(e.v).String(), []*live{e}, func() []interface{} { return convertAll(e.v) }}
	case 14: // gonum conversions
		g := p.pick(func(v interface{}) bool { return kindOf(v) >= kVec })
		if g == nil {
			return nil
		}
		return &histOp{"convert gonum", []*live{g}, func() []interface{} {
			switch y := g.v.(type) {
			case mat.VecDense:
				return []interface{}{sym.VecDenseToKVector(y), getKVector.From(y)}
			case *mat.VecDense:
				return []interface{}{sym.VecDenseToKVector(*y), getKVector.From(*y)}
			case mat.Dense:
				return []interface{}{sym.DenseToKMatrix(y), getKMatrix.From(y)}
			case *mat.Dense:
				return []interface{}{sym.DenseToKMatrix(*y), getKMatrix.From(*y)}
			}
			return nil
		}}
	case 22: // filled vectors and matrices
		r, c := t.Range(1, p.n+1), t.Range(1, p.n+1)
		switch t.N(5) {
		case 0:
			return &histOp{fmt.Sprintf("Identity(%d)", r), nil, func() []interface{} { return one1(sym.Identity(r)) }}
		case 1:
			return &histOp{fmt.Sprintf("ZerosMatrix(%d,%d)", r, c), nil, func() []interface{} { return one1(sym.ZerosMatrix(r, c)) }}
		case 2:
			return &histOp{fmt.Sprintf("OnesMatrix(%d,%d)", r, c), nil, func() []interface{} { return one1(sym.OnesMatrix(r, c)) }}
		case 3:
			return &histOp{fmt.Sprintf("ZerosVector(%d)", r), nil, func() []interface{} { return one1(sym.ZerosVector(r)) }}
		}
		return &histOp{fmt.Sprintf("OnesVector(%d)", r), nil, func() []interface{} { return one1(sym.OnesVector(r)) }}
	case 15: // assembling
		s, _ := scalarSlice(p.ce, t.Range(1, 3))
		if o := p.pick(isSE); o != nil {
			s[0] = o.v.(sym.ScalarExpression)
		}
		l := p.add(s, true)
		if t.Bool() {
			rows := [][]sym.ScalarExpression{s, s}
			return &histOp{"ConcretizeExpression rows", []*live{l}, func() []interface{} { return one1(sym.ConcretizeExpression(rows)) }}
		}
		return &histOp{"ConcretizeExpression", []*live{l}, func() []interface{} { return one1(sym.ConcretizeExpression(s)) }}
	case 16: // constraints
		c := p.pick(isC)
		if c == nil {
			return nil
		}
		return p.constraintStep(c)
	case 17: // lists
		a, b := p.pick(isVars), p.pick(isVars)
		if a == nil {
			return nil
		}
		va, vb := a.v.([]sym.Variable), b.v.([]sym.Variable)
		switch t.N(4) {
		case 0:
			return &histOp{"UniqueVars", []*live{a}, func() []interface{} { return one1(sym.UniqueVars(va)) }}
		case 1:
			return &histOp{"UnionOfVariables", []*live{a, b}, func() []interface{} { return one1(sym.UnionOfVariables(va, vb)) }}
		case 2:
			return &histOp{"FindInSlice", []*live{a}, func() []interface{} {
				i, err := sym.FindInSlice(v, va)
				return one1(obs(fmt.Sprint(i, err == nil)))
			}}
		}
		u := p.pick(func(x interface{}) bool { _, ok := x.([]uint64); return ok })
		if u == nil {
			return nil
		}
		return &histOp{"Unique", []*live{u}, func() []interface{} { return one1(sym.Unique(u.v.([]uint64))) }}
	case 18: // term lookup
		o := p.pick(func(x interface{}) bool { _, ok := x.(sym.Polynomial); return ok })
		m := p.pick(func(x interface{}) bool { _, ok := x.(sym.Monomial); return ok })
		if o == nil {
			return nil
		}
		q := o.v.(sym.Polynomial)
		return &histOp{"term lookup", []*live{o}, func() []interface{} {
			o := []interface{}{q.ConstantMonomialIndex(), q.VariableMonomialIndex(v), q.IsConstant()}
			if m != nil {
				mo := m.v.(sym.Monomial)
				o = append(o, q.MonomialIndex(mo), mo.IsConstant(), mo.IsVariable(v), mo.IsZero(), mo.IsDegreeOneContainingVariable(v))
				for _, k := range q.Monomials {
					o = append(o, mo.MatchesFormOf(k))
				}
			}
			return one1(obs(fmt.Sprint(o...)))
		}}
	case 19: // compile a list of constraints
		k := t.Range(1, 3)
		var cs []sym.Constraint
		for i := 0; i < k; i++ {
			if c := p.pick(isC); c != nil {
				cs = append(cs, c.v.(sym.Constraint))
			}
		}
		if len(cs) == 0 {
			return nil
		}
		l := p.add(cs, true)
		return &histOp{"CompileConstraintsIntoScalarConstraints", []*live{l}, func() []interface{} {
			return one1(sym.CompileConstraintsIntoScalarConstraints(cs))
		}}
	case 20: // vector/matrix constraint implication, simplification as a list
		a, b := p.pick(isC), p.pick(isC)
		if a == nil {
			return nil
		}
		return &histOp{"ImpliesThisIsAlsoSatisfied", []*live{a, b}, func() []interface{} {
			return one1(obs(fmt.Sprint(a.v.(sym.Constraint).ImpliesThisIsAlsoSatisfied(b.v.(sym.Constraint)))))
		}}
	}
	// direct templates and helpers
	s := p.pick(isSE)
	return &histOp{"template", []*live{e, s}, func() []interface{} {
		var o []interface{}
		switch y := x.(type) {
		case sym.VectorExpression:
			o = append(o, y.AtVec(0), y.ToScalarExpressions())
			if s != nil {
				o = append(o, sym.VectorPlusTemplate(y, s.v.(sym.Expression)), sym.VectorMultiplyTemplate(y, s.v.(sym.Expression)))
			}
		case sym.MatrixExpression:
			if s != nil && degreeOf(x) < 4 {
				o = append(o, sym.MatrixSubstituteTemplate(y, v, s.v.(sym.ScalarExpression)))
			}
			o = append(o, sym.MatrixPlusTemplate(y, y))
		case sym.ScalarExpression:
			o = append(o, sym.ScalarPowerTemplate(y, 1))
		}
		return o
	}}
}

func degreeOf(v interface{}) int {
	m, err := denote(v)
	if err != nil {
		return 0
	}
	return m.degree()
}

// convertAll calls every conversion a value offers.
func convertAll(x interface{}) []interface{} {
	var o []interface{}
	add := func(v interface{}) { o = append(o, v) }
	if y, ok := x.(interface{ ToMonomial() sym.Monomial }); ok {
		add(y.ToMonomial())
	}
	if y, ok := x.(interface{ ToPolynomial() sym.Polynomial }); ok {
		add(y.ToPolynomial())
	}
	if y, ok := x.(interface {
		ToMonomialVector() sym.MonomialVector
	}); ok {
		add(y.ToMonomialVector())
	}
	if y, ok := x.(interface {
		ToPolynomialVector() sym.PolynomialVector
	}); ok {
		add(y.ToPolynomialVector())
	}
	if y, ok := x.(interface {
		ToMonomialMatrix() sym.MonomialMatrix
	}); ok {
		add(y.ToMonomialMatrix())
	}
	if y, ok := x.(interface {
		ToPolynomialMatrix() sym.PolynomialMatrix
	}); ok {
		add(y.ToPolynomialMatrix())
	}
	if y, ok := x.(interface{ ToVecDense() mat.VecDense }); ok {
		add(y.ToVecDense())
	}
	if y, ok := x.(interface{ ToDense() mat.Dense }); ok {
		add(y.ToDense())
	}
	if y, ok := x.(interface{ Copy() sym.Monomial }); ok {
		add(y.Copy())
	}
	if y, ok := x.(interface{ Copy() sym.Polynomial }); ok {
		add(y.Copy())
	}
	if y, ok := x.(interface{ Copy() sym.VariableVector }); ok {
		add(y.Copy())
	}
	if y, ok := x.(sym.Polynomial); ok {
		add(y.Simplify())
	}
	if y, ok := x.(sym.PolynomialVector); ok {
		add(y.Simplify())
	}
	if y, ok := x.(sym.PolynomialMatrix); ok {
		add(y.Simplify())
	}
	if e, err := sym.ToExpression(x); err == nil {
		add(e)
	}
	if sym.IsPolynomialLike(x) {
		if e, err := sym.ToPolynomialLike(x); err == nil {
			add(e)
		}
	}
	return o
}

func (p *pool) constraintStep(c *live) *histOp {
	t := p.t
	k := c.v.(sym.Constraint)
	v := p.ce.anyVar()
	wl := p.pick(isVars)
	var w [][]sym.Variable
	if wl != nil && t.Bool() {
		w = append(w, wl.v.([]sym.Variable))
	}
	size := termsOf(k.Left()) + termsOf(k.Right())
	switch t.N(9) {
	case 0:
		return &histOp{"AsSimplifiedConstraint", []*live{c}, func() []interface{} { return one1(k.AsSimplifiedConstraint()) }}
	case 1:
		s := p.pick(isSE)
		if s == nil || size > 25 || termsOf(s.v) > 3 || degreeOf(k.Left()) > 3 || degreeOf(k.Right()) > 3 {
			return nil
		}
		return &histOp{"constraint Substitute", []*live{c, s}, func() []interface{} { return one1(k.Substitute(v, s.v.(sym.ScalarExpression))) }}
	case 2:
		m := p.pick(isMap)
		if m == nil || size > 25 || degreeOf(k.Left()) > 3 || degreeOf(k.Right()) > 3 {
			return nil
		}
		return &histOp{"constraint SubstituteAccordingTo", []*live{c, m}, func() []interface{} {
			return one1(k.SubstituteAccordingTo(m.v.(map[sym.Variable]sym.Expression)))
		}}
	case 3:
		return &histOp{"constraint inspect", []*live{c}, func() []interface{} {
			return []interface{}{k.Left(), k.Right(), k.Variables(), sym.VariablesInThisConstraint(k), obs(fmt.Sprint(k.Check() == nil, k.IsLinear()))}
		}}
	case 4:
		f := []float64{2, -1, -3, 0.5}[t.N(4)]
		return &histOp{"ScaleBy", []*live{c}, func() []interface{} {
			if sc, ok := k.(sym.ScalarConstraint); ok {
				return []interface{}{sc.ScaleBy(f), sc.Simplify()}
			}
			return nil
		}}
	case 5:
		return &histOp{"linear representation", []*live{c}, func() []interface{} {
			switch sc := k.(type) {
			case sym.ScalarConstraint:
				if sc.Sense == sym.SenseEqual {
					a, b := sc.LinearEqualityConstraintRepresentation(w...)
					return []interface{}{a, obs(fmt.Sprint(b))}
				}
				a, b := sc.LinearInequalityConstraintRepresentation(w...)
				return []interface{}{a, obs(fmt.Sprint(b))}
			case sym.VectorConstraint:
				if sc.Sense == sym.SenseEqual {
					a, b := sc.LinearEqualityConstraintRepresentation(w...)
					return []interface{}{a, b}
				}
				a, b := sc.LinearInequalityConstraintRepresentation(w...)
				return []interface{}{a, b}
			}
			return nil
		}}
	case 6:
		return &histOp{"constraint entries", []*live{c}, func() []interface{} {
			switch sc := k.(type) {
			case sym.ScalarConstraint:
				return one1(obs(fmt.Sprint(sc.IsNonnegativityConstraint(), sc.String())))
			case sym.VectorConstraint:
				return []interface{}{obs(fmt.Sprint(sc.Len())), sc.AtVec(0)}
			case sym.MatrixConstraint:
				return one1(sc.At(0, 0))
			}
			return nil
		}}
	case 7:
		o := p.pick(isC)
		return &histOp{"ImpliesThisIsAlsoSatisfied", []*live{c, o}, func() []interface{} {
			return one1(obs(fmt.Sprint(k.ImpliesThisIsAlsoSatisfied(o.v.(sym.Constraint)))))
		}}
	}
	return &histOp{"constraint dims", []*live{c}, func() []interface{} {
		o := []interface{}{obs(fmt.Sprint(k.ConstrSense()))}
		switch sc := k.(type) {
		case sym.VectorConstraint:
			o = append(o, obs(fmt.Sprint(sc.Dims())))
		case sym.MatrixConstraint:
			o = append(o, obs(fmt.Sprint(sc.Dims())))
		}
		return o
	}}
}

// runHistory performs a history; after every step all live values must be as before.
func runHistory(t *T) {
	p := newPool(t)
	for _, l := range p.live {
		t.Logf("x%d = %s", l.id, showLive(l.v))
	}
	steps := t.Range(3, 14)
	reused, ok := 0, 0
	for s := 0; s < steps; s++ {
		op := p.step()
		if op == nil {
			continue
		}
		before := len(p.live)
		_ = before
		var res []interface{}
		c := t.Try(func() { res = op.call() })
		var an []string
		for _, a := range op.args {
			if a != nil {
				an = append(an, fmt.Sprintf("x%d", a.id))
				if !a.input {
					reused++
				}
			}
		}
		for _, l := range p.live {
			if now := fingerprint(l.v, l.input); now != l.fp {
				t.Logf("%s(%s)", op.name, strings.Join(an, ", "))
				t.Fail("mutated:"+opName(op.name), "%s(%s) changed x%d to %s\nbefore: %s\nafter:  %s", op.name, strings.Join(an, ", "), l.id, showLive(l.v), trunc(l.fp, 1500), trunc(now, 1500))
			}
		}
		if c != nil {
			t.Logf("%s(%s) rejected", op.name, strings.Join(an, ", "))
			t.Label("rejected")
			t.Label("rejected " + opName(op.name))
			continue
		}
		ok++
		t.Label(opName(op.name))
		var rn []string
		for _, r := range res {
			if _, ok := r.(obs); ok || r == nil {
				continue
			}
			if isE(r) && termsOf(r) > 60 {
				continue
			}
			l := p.add(r, false)
			rn = append(rn, fmt.Sprintf("x%d", l.id))
		}
		t.Logf("%s = %s(%s)", strings.Join(rn, ","), op.name, strings.Join(an, ", "))
	}
	if ok >= 3 && reused >= 1 {
		t.NonTrivial()
	}
}

func opName(s string) string {
	if i := strings.IndexByte(s, '('); i > 0 {
		return s[:i]
	}
	return s
}

func showLive(v interface{}) string {
	if isE(v) || isC(v) || kindOf(v) >= 0 {
		return show(v)
	}
	return trunc(fingerprint(v, false), 400)
}

// runCopy modifies a copy (or the original) and looks at the other.
func runCopy(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	var orig, cp interface{}
	polynomial := false
	switch t.N(4) {
	case 3:
		// documented as a copy as well
		m := ce.monomial(true)
		orig = m
		polynomial = true
		if c := t.Try(func() { cp = m.ToPolynomial() }); c != nil {
			t.Fail("ToPolynomial:panic", "ToPolynomial of %s: %v", show(m), c)
		}
	case 0:
		m := ce.monomial(true)
		orig = m
		if c := t.Try(func() { cp = m.Copy() }); c != nil {
			t.Fail("Copy:panic", "Copy of %s: %v", show(m), c)
		}
	case 1:
		m := ce.polynomial()
		orig = m
		if c := t.Try(func() { cp = m.Copy() }); c != nil {
			t.Fail("Copy:panic", "Copy of %s: %v", show(m), c)
		}
	case 2:
		m := ce.value(kVV, t.Range(1, 4), 1).(sym.VariableVector)
		orig = m
		if c := t.Try(func() { cp = m.Copy() }); c != nil {
			t.Fail("Copy:panic", "Copy of %s: %v", show(m), c)
		}
	}
	t.Logf("%s", show(orig))
	if len(mentioned(orig)) > 0 {
		t.NonTrivial()
	}
	if !polynomial && fingerprint(orig, false) != fingerprint(cp, false) {
		t.Fail("Copy:value", "Copy of %s is %s", show(orig), show(cp))
	}
	a, b := orig, cp
	if t.Bool() {
		a, b = b, a
		t.Label("modify the original")
	} else {
		t.Label("modify the copy")
	}
	fp := fingerprint(a, true)
	scribble(b, ce.absentVar())
	if fingerprint(a, true) != fp {
		t.Fail("Copy:shared", "modifying one of %s and its copy changes the other to %s", show(b), show(a))
	}
	t.Label("%s", kindOf(orig))
}

// scribble overwrites everything reachable from a value.
func scribble(x interface{}, v sym.Variable) {
	mono := func(m sym.Monomial) {
		for i := range m.VariableFactors[:cap(m.VariableFactors)] {
			m.VariableFactors[:cap(m.VariableFactors)][i] = v
		}
		for i := range m.Exponents[:cap(m.Exponents)] {
			m.Exponents[:cap(m.Exponents)][i] = 99
		}
	}
	switch e := x.(type) {
	case sym.Monomial:
		mono(e)
	case sym.Polynomial:
		ms := e.Monomials[:cap(e.Monomials)]
		for i := range ms {
			mono(ms[i])
			ms[i].Coefficient = -4242
			ms[i] = sym.Monomial{Coefficient: 4242}
		}
	case sym.VariableVector:
		for i := range e[:cap(e)] {
			e[:cap(e)][i] = v
		}
	}
}

func init() {
	register(&Property{ID: "C09",
		Rule:   "a case is a history of 3..14 operations over a pool of expressions, constraints, gonum objects, lists and maps whose slices share storage and have spare capacity; after every step every live value is compared with its deep snapshot; non-trivial when at least three operations succeed and some result is used again (copy: a variable occurs)",
		Assume: []string{"snapshots cover every exported field of every live value; for the initial values also the spare capacity of their slices (another slice of the caller may be looking at it)"},
		Families: []Family{
			{Name: "history", Quick: 40000, Thorough: 900000, Rule: "operation histories with deep snapshots", Run: runHistory},
			{Name: "copy", Quick: 40000, Thorough: 500000, Rule: "copies are independent", Run: runCopy},
			{Name: "ownership", Quick: 20000, Thorough: 600000, Rule: "gonum objects, slices of operands and maps that went in or came out are overwritten; nothing else changes, now or in later calls", Run: runOwnership},
		}})
}
