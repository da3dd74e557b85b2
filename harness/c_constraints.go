package main

// C13 construction and flattening, C14 rewriting, C15 linear representations, C16 implication.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

var senses = []sym.ConstrSense{sym.SenseLessThanEqual, sym.SenseGreaterThanEqual, sym.SenseEqual}

func senseName(s sym.ConstrSense) string {
	switch s {
	case sym.SenseLessThanEqual:
		return "<="
	case sym.SenseGreaterThanEqual:
		return ">="
	case sym.SenseEqual:
		return "=="
	}
	return fmt.Sprintf("sense(%d)", byte(s))
}

// cModel is the meaning of a constraint: entrywise left sense right.
type cModel struct {
	l, r  Mat // spread to the same shape
	sense sym.ConstrSense
}

func newCModel(l, r Mat, s sym.ConstrSense) cModel {
	a := l.spread(r.r, r.c)
	b := r.spread(l.r, l.c)
	return cModel{a, b, s}
}

// diff is left - right oriented so that the constraint reads diff <= 0 (or == 0).
func (c cModel) diff() Mat {
	d := mSub(c.l, c.r)
	if c.sense == sym.SenseGreaterThanEqual {
		d = mMap(d, func(p Poly) Poly { return pScale(p, -1) })
	}
	return d
}

func (c cModel) entry(i, j int) cModel {
	return cModel{scalarMat(c.l.at(i, j)), scalarMat(c.r.at(i, j)), c.sense}
}

func (c cModel) String() string { return fmt.Sprintf("%s %s %s", c.l, senseName(c.sense), c.r) }

// readConstraint gives the meaning of a library constraint.
func readConstraint(c sym.Constraint) (cModel, error) {
	var l, r interface{}
	var s sym.ConstrSense
	switch k := c.(type) {
	case sym.ScalarConstraint:
		l, r, s = k.LeftHandSide, k.RightHandSide, k.Sense
	case sym.VectorConstraint:
		l, r, s = k.LeftHandSide, k.RightHandSide, k.Sense
	case sym.MatrixConstraint:
		l, r, s = k.LeftHandSide, k.RightHandSide, k.Sense
	default:
		return cModel{}, fmt.Errorf("unknown constraint type %T", c)
	}
	ml, err := denote(l)
	if err != nil {
		return cModel{}, fmt.Errorf("left side: %w", err)
	}
	mr, err := denote(r)
	if err != nil {
		return cModel{}, fmt.Errorf("right side: %w", err)
	}
	if !addDefined(ml, mr) {
		return cModel{}, fmt.Errorf("sides have dimensions %dx%d and %dx%d", ml.r, ml.c, mr.r, mr.c)
	}
	return newCModel(ml, mr, s), nil
}

// posMultiple: is g == k*w for some k > 0 (k != 0 for equalities)?
func posMultiple(g, w Poly, equality bool) bool {
	if pDiffers(g, w) == "" {
		return true
	}
	if w.isZero() || g.isZero() {
		return false
	}
	best, bk := 0.0, ""
	for _, k := range w.keys() {
		if nz(w[k]) && math.Abs(w[k].c) > best {
			best, bk = math.Abs(w[k].c), k
		}
	}
	f := g[bk].c / w[bk].c
	if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 || (f < 0 && !equality) {
		return false
	}
	return pDiffers(g, pScale(w, f)) == ""
}

// sameRequirement compares the meanings of two constraints; "" when equivalent.
func sameRequirement(got, want cModel) string {
	ge, we := got.sense == sym.SenseEqual, want.sense == sym.SenseEqual
	g, w := got.diff(), want.diff()
	if g.r != w.r || g.c != w.c {
		return fmt.Sprintf("dimensions are %dx%d, expected %dx%d", g.r, g.c, w.r, w.c)
	}
	if ge != we {
		return fmt.Sprintf("direction is %s, expected %s", senseName(got.sense), senseName(want.sense))
	}
	for i := range g.e {
		if !posMultiple(g.e[i], w.e[i], ge) {
			// differing only in rounding of large intermediate values is fine
			if pDiffers(g.e[i], withMass(scalarMat(w.e[i]), scalarMat(g.e[i])).e[0]) == "" {
				continue
			}
			return fmt.Sprintf("entry %d requires %s %s 0, expected %s %s 0", i, g.e[i], relOf(ge), w.e[i], relOf(we))
		}
	}
	return ""
}

func relOf(eq bool) string {
	if eq {
		return "=="
	}
	return "<="
}

// ---------------------------------------------------------------- generation

// constraintOf builds a constraint as a struct from conforming sides.
func constraintOf(l, r sym.Expression, s sym.ConstrSense) sym.Constraint {
	switch a := l.(type) {
	case sym.ScalarExpression:
		return sym.ScalarConstraint{LeftHandSide: a, RightHandSide: r.(sym.ScalarExpression), Sense: s}
	case sym.VectorExpression:
		return sym.VectorConstraint{LeftHandSide: a, RightHandSide: r.(sym.VectorExpression), Sense: s}
	case sym.MatrixExpression:
		return sym.MatrixConstraint{LeftHandSide: a, RightHandSide: r.(sym.MatrixExpression), Sense: s}
	}
	panic("harness: constraintOf")
}

// sameShapePair draws two expressions of one level and shape.
func sameShapePair(ce *CE, draw func(r, c, lvl int) sym.Expression) (sym.Expression, sym.Expression) {
	t := ce.t
	lvl := t.W(4, 3, 3)
	r, c := 1, 1
	if lvl == 1 {
		r = t.W(2, 5, 3) + 1
	} else if lvl == 2 {
		r, c = t.W(2, 4, 2)+1, t.W(2, 4, 2)+1
	}
	if t.P(1, 14) { // larger
		if lvl == 1 {
			r = t.Range(4, 9)
		} else if lvl == 2 {
			r, c = t.Range(1, 6), t.Range(1, 6)
		}
	}
	return draw(r, c, lvl), draw(r, c, lvl)
}

// affineValue draws an expression whose stored terms have degree at most one.
func (ce *CE) affineValue(r, c, lvl int) sym.Expression {
	t := ce.t
	k := t.N(4)
	if k == 0 || k == 1 { // constants, variables
		return ce.value(Kind(4*lvl+k), r, c).(sym.Expression)
	}
	switch lvl {
	case 0:
		if k == 2 {
			return ce.affineMonomial()
		}
		return ce.affinePolynomial()
	case 1:
		if k == 2 {
			o := make(sym.MonomialVector, r)
			for i := range o {
				o[i] = ce.affineMonomial()
			}
			return o
		}
		o := make(sym.PolynomialVector, r)
		for i := range o {
			o[i] = ce.affinePolynomial()
		}
		return o
	}
	if k == 2 {
		o := make(sym.MonomialMatrix, r)
		for i := range o {
			for j := 0; j < c; j++ {
				o[i] = append(o[i], ce.affineMonomial())
			}
		}
		return o
	}
	o := make(sym.PolynomialMatrix, r)
	for i := range o {
		for j := 0; j < c; j++ {
			o[i] = append(o[i], ce.affinePolynomial())
		}
	}
	return o
}

// anyConstraint draws a constraint, through a struct or through the comparison methods.
func anyConstraint(ce *CE, draw func(r, c, lvl int) sym.Expression) sym.Constraint {
	t := ce.t
	l, r := sameShapePair(ce, draw)
	return constraintOf(l, r, senses[t.N(3)])
}

func conKey(op string, l, r interface{}) string {
	return comboKey(op, l, r, mustDenote(l), mustDenote(r))
}

// ---------------------------------------------------------------- C13

func compare(l sym.Expression, r interface{}, s sym.ConstrSense, method int) sym.Constraint {
	if method == 1 {
		switch e := l.(type) {
		case sym.ScalarExpression:
			return e.Comparison(r, s)
		case sym.VectorExpression:
			return e.Comparison(r, s)
		case sym.MatrixExpression:
			return e.Comparison(r, s)
		}
	}
	switch s {
	case sym.SenseLessThanEqual:
		return l.LessEq(r)
	case sym.SenseGreaterThanEqual:
		return l.GreaterEq(r)
	}
	return l.Eq(r)
}

// sameSide: a recorded side must be the operand or its spread over the other side.
func sameSide(got interface{}, want Mat, other Mat) string {
	g, err := denote(got)
	if err != nil {
		return err.Error()
	}
	if g.r != want.r || g.c != want.c {
		return mDiffers(g, want.spread(other.r, other.c))
	}
	return mDiffers(g, want)
}

// conDims and conAt call the entry access of whatever constraint type it is.
func conEntries(t *T, c sym.Constraint, m cModel, what string) {
	check := func(sc sym.Constraint, i, j int) {
		k, ok := sc.(sym.ScalarConstraint)
		if !ok {
			t.Fail(what+":entry", "entry (%d,%d) of %s is a %T", i, j, show(c), sc)
		}
		if k.Sense != m.sense {
			t.Fail(what+":entry-sense", "entry (%d,%d) of %s has direction %s", i, j, show(c), senseName(k.Sense))
		}
		cmpResult(t, what+":entry-left", k.LeftHandSide, scalarMat(m.l.at(i, j)), func() string { return fmt.Sprintf("left side of entry (%d,%d) of %s", i, j, show(c)) })
		cmpResult(t, what+":entry-right", k.RightHandSide, scalarMat(m.r.at(i, j)), func() string { return fmt.Sprintf("right side of entry (%d,%d) of %s", i, j, show(c)) })
	}
	switch k := c.(type) {
	case sym.ScalarConstraint:
		if !m.l.isScalar() {
			t.Fail(what+":lost", "%s stands for %d constraints but is one scalar constraint", show(c), len(m.l.e))
		}
		check(k, 0, 0)
	case sym.VectorConstraint:
		var dims []int
		n := -1
		if cc := t.Try(func() { dims = k.Dims(); n = k.Len() }); cc != nil {
			t.Fail(what+":dims", "dimensions of %s: %v", show(c), cc)
		}
		if m.l.c != 1 || n != m.l.r || len(dims) != 2 || dims[0] != m.l.r || dims[1] != 1 {
			t.Fail(what+":dims", "%s reports dimensions %v and length %d, it stands for %dx%d constraints", show(c), dims, n, m.l.r, m.l.c)
		}
		for i := 0; i < m.l.r; i++ {
			var sc sym.ScalarConstraint
			if cc := t.Try(func() { sc = k.AtVec(i) }); cc != nil {
				t.Fail(what+":entry", "AtVec(%d) of %s: %v", i, show(c), cc)
			}
			check(sc, i, 0)
		}
	case sym.MatrixConstraint:
		var dims []int
		if cc := t.Try(func() { dims = k.Dims() }); cc != nil {
			t.Fail(what+":dims", "dimensions of %s: %v", show(c), cc)
		}
		if len(dims) != 2 || dims[0] != m.l.r || dims[1] != m.l.c {
			t.Fail(what+":dims", "%s reports dimensions %v, it stands for %dx%d constraints", show(c), dims, m.l.r, m.l.c)
		}
		for i := 0; i < m.l.r; i++ {
			for j := 0; j < m.l.c; j++ {
				var sc sym.ScalarConstraint
				if cc := t.Try(func() { sc = k.At(i, j) }); cc != nil {
					t.Fail(what+":entry", "At(%d,%d) of %s: %v", i, j, show(c), cc)
				}
				check(sc, i, j)
			}
		}
	default:
		t.Fail(what+":type", "unexpected constraint %T", c)
	}
}

func runComparison(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 12)
	l, r := conformingPair(ce, "Comparison")
	s := senses[t.N(3)]
	method := t.N(2)
	a, b := mustDenote(l), mustDenote(r)
	t.Logf("%s %s %s (method %d)", show(l), senseName(s), show(r), method)
	classifyPair(t, l, r, a, b)
	t.Label("direction %s", senseName(s))
	if !a.isZero() && len(a.vars())+len(b.vars()) > 0 {
		t.NonTrivial()
	}
	key := comboKey("Comparison", l, r, a, b)
	var c sym.Constraint
	cc := t.Try(func() { c = compare(l, r, s, method) })
	noteSupport(key, cc)
	if cc != nil {
		if supported(key) {
			t.Fail("Comparison:refused:"+key, "%s %s %s is refused: %v (the library supports this combination)", show(l), senseName(s), show(r), cc)
		}
		t.Label("refused")
		return
	}
	if c == nil {
		t.Fail("Comparison:nil", "%s %s %s gives no constraint", show(l), senseName(s), show(r))
	}
	var le, re sym.Expression
	var cs sym.ConstrSense
	if cc := t.Try(func() { le, re, cs = c.Left(), c.Right(), c.ConstrSense() }); cc != nil {
		t.Fail("Comparison:access", "reading the sides of %s: %v", show(c), cc)
	}
	if cs != s {
		t.Fail("Comparison:sense", "%s %s %s records direction %s", show(l), senseName(s), show(r), senseName(cs))
	}
	if d := sameSide(le, a, b); d != "" {
		t.Fail("Comparison:left", "%s %s %s records left side %s: %s", show(l), senseName(s), show(r), show(le), d)
	}
	if d := sameSide(re, b, a); d != "" {
		t.Fail("Comparison:right", "%s %s %s records right side %s: %s", show(l), senseName(s), show(r), show(re), d)
	}
	if err := c.Check(); err != nil {
		t.Fail("Comparison:check", "%s %s %s records an ill-formed constraint: %v", show(l), senseName(s), show(r), err)
	}
	conEntries(t, c, newCModel(a, b, s), "Comparison")
	var flat []sym.ScalarConstraint
	if cc := t.Try(func() { flat = sym.CompileConstraintsIntoScalarConstraints([]sym.Constraint{c}) }); cc != nil {
		t.Fail("Compile:panic", "flattening %s: %v", show(c), cc)
	}
	checkFlat(t, flat, []cModel{newCModel(a, b, s)}, "flattening "+show(c))
}

func checkFlat(t *T, flat []sym.ScalarConstraint, want []cModel, what string) {
	var exp []cModel
	for _, m := range want {
		for i := 0; i < m.l.r; i++ {
			for j := 0; j < m.l.c; j++ {
				exp = append(exp, m.entry(i, j))
			}
		}
	}
	if len(flat) != len(exp) {
		t.Fail("Compile:count", "%s yields %d scalar constraints, expected %d", what, len(flat), len(exp))
	}
	for i := range flat {
		g, err := readConstraint(flat[i])
		if err != nil {
			t.Fail("Compile:malformed", "%s: constraint %d is malformed: %v", what, i, err)
		}
		if g.sense != exp[i].sense {
			t.Fail("Compile:sense", "%s: constraint %d has direction %s, expected %s", what, i, senseName(g.sense), senseName(exp[i].sense))
		}
		if d := mDiffers(g.l, exp[i].l); d != "" {
			t.Fail("Compile:left", "%s: left side of constraint %d (%s): %s", what, i, show(flat[i]), d)
		}
		if d := mDiffers(g.r, exp[i].r); d != "" {
			t.Fail("Compile:right", "%s: right side of constraint %d (%s): %s", what, i, show(flat[i]), d)
		}
	}
}

func runFlatten(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	ce.small = true
	n := t.N(7)
	var cs []sym.Constraint
	var want []cModel
	total := 0
	for i := 0; i < n; i++ {
		var c sym.Constraint
		if t.Bool() {
			c = anyConstraint(ce, ce.withShape)
		} else {
			l, r := conformingPair(ce, "Comparison")
			s := senses[t.N(3)]
			if cc := t.Try(func() { c = compare(l, r, s, 0) }); cc != nil || c == nil {
				continue
			}
		}
		m, err := readConstraint(c)
		if err != nil {
			t.Fail("Compile:input", "comparison gives a malformed constraint %s: %v", show(c), err)
		}
		t.Logf("%s", show(c))
		cs = append(cs, c)
		want = append(want, m)
		total += len(m.l.e)
	}
	t.Label("%d constraints", len(cs))
	if len(cs) >= 2 && total > len(cs) {
		t.NonTrivial()
	}
	var flat []sym.ScalarConstraint
	if cc := t.Try(func() { flat = sym.CompileConstraintsIntoScalarConstraints(cs) }); cc != nil {
		t.Fail("Compile:panic", "flattening: %v", cc)
	}
	checkFlat(t, flat, want, "flattening the list")
	for _, c := range cs {
		if !sym.IsConstraint(c) {
			t.Fail("IsConstraint", "IsConstraint(%s) is false", show(c))
		}
	}
}

// ---------------------------------------------------------------- C14

func checkRewritten(t *T, what string, got sym.Constraint, want cModel, desc func() string) {
	if got == nil {
		t.Fail(what+":nil", "%s gives nothing", desc())
	}
	g, err := readConstraint(got)
	if err != nil {
		t.Fail(what+":malformed", "%s gives the malformed constraint %s: %v", desc(), show(got), err)
	}
	if d := sameRequirement(g, want); d != "" {
		t.Fail(what+":meaning", "%s gives %s: %s", desc(), show(got), d)
	}
}

func runRewrite(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.small = true
	draw := ce.withShape
	if t.P(1, 3) {
		draw = ce.affineValue
	}
	c := anyConstraint(ce, draw)
	m, err := readConstraint(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	t.Logf("%s", show(c))
	t.Label("%T", c)
	ct := strings.TrimPrefix(fmt.Sprintf("%T", c), "symbolic.")
	if len(m.diff().vars()) > 0 && !m.l.isZero() && !m.r.isZero() {
		t.NonTrivial()
	}
	// reported facts
	var vs []sym.Variable
	lin := false
	if cc := t.Try(func() { vs = c.Variables(); lin = c.IsLinear() }); cc != nil {
		t.Fail("constraint:inspect", "variables or linearity of %s: %v", show(c), cc)
	}
	seen := map[uint64]bool{}
	mentL, mentR := mentioned(c.Left()), mentioned(c.Right())
	for _, v := range vs {
		if seen[v.ID] {
			t.Fail("constraint:variables", "Variables of %s lists v%d twice", show(c), v.ID)
		}
		seen[v.ID] = true
		if !mentL[v.ID] && !mentR[v.ID] {
			t.Fail("constraint:variables", "Variables of %s lists v%d", show(c), v.ID)
		}
	}
	for _, side := range []Mat{m.l, m.r} {
		for v := range side.vars() {
			if !seen[v] {
				t.Fail("constraint:variables", "Variables of %s misses v%d", show(c), v)
			}
		}
	}
	stored := max(storedDegree(c.Left()), storedDegree(c.Right()))
	trueDeg := max(m.l.degree(), m.r.degree())
	if lin && trueDeg > 1 || !lin && stored <= 1 {
		t.Fail("constraint:linear", "IsLinear of %s is %v", show(c), lin)
	}
	conEntries(t, c, m, "constraint")

	// simplification
	key := conKey("AsSimplifiedConstraint", c.Left(), c.Right())
	var s sym.Constraint
	cc := t.Try(func() { s = c.AsSimplifiedConstraint() })
	noteSupport(key, cc)
	if cc != nil {
		if supported(key) {
			t.Fail("AsSimplifiedConstraint:refused", "AsSimplifiedConstraint of %s: %v", show(c), cc)
		}
	} else {
		checkRewritten(t, "AsSimplifiedConstraint", s, m, func() string { return "simplifying " + show(c) })
		t.Label("simplified " + ct)
	}
	if sc, ok := c.(sym.ScalarConstraint); ok {
		var q sym.ScalarConstraint
		if cc := t.Try(func() { q = sc.Simplify() }); cc != nil {
			t.Fail("Simplify:refused", "Simplify of %s: %v", show(c), cc)
		}
		checkRewritten(t, "Simplify", q, m, func() string { return "Simplify of " + show(c) })
		// scaling
		f := []float64{2, -1, -2, 0.5, -0.25, 3, -7, 1e-3, -100, 1, -1e-12, 1e-17, -3e-26, 1e15, -4e21, -0x1p-80, 0x1p90}[t.N(17)]
		var g sym.Constraint
		if cc := t.Try(func() { g = sc.ScaleBy(f) }); cc != nil {
			t.Fail("ScaleBy:refused", "ScaleBy(%v) of %s: %v", f, show(c), cc)
		}
		times := func(p Poly) Poly { return pScale(p, f) }
		mf := newCModel(mMap(m.l, times), mMap(m.r, times), m.sense)
		if f < 0 && m.sense != sym.SenseEqual {
			mf.sense = sym.SenseLessThanEqual
			if m.sense == sym.SenseLessThanEqual {
				mf.sense = sym.SenseGreaterThanEqual
			}
		}
		checkRewritten(t, "ScaleBy", g, mf, func() string { return fmt.Sprintf("ScaleBy(%v) of %s", f, show(c)) })
		// the direction is reversed exactly for negative factors
		if t.P(1, 3) {
			// factors at the ends of the range, for the direction only
			h := []float64{-5e-324, 5e-324, -1e-310, -1e-200, -1e300, 1e300, -1e-45}[t.N(7)]
			if cc := t.Try(func() { g = sc.ScaleBy(h) }); cc != nil {
				t.Fail("ScaleBy:refused", "ScaleBy(%v) of %s: %v", h, show(c), cc)
			}
			f = h
		}
		gs := g.ConstrSense()
		wantS := sc.Sense
		if f < 0 && sc.Sense == sym.SenseLessThanEqual {
			wantS = sym.SenseGreaterThanEqual
		} else if f < 0 && sc.Sense == sym.SenseGreaterThanEqual {
			wantS = sym.SenseLessThanEqual
		}
		if gs != wantS {
			t.Fail("ScaleBy:sense", "ScaleBy(%v) of %s has direction %s", f, show(c), senseName(gs))
		}
		t.Label("scaled")
	}
	// substitution
	v := ce.diffVar()
	var rep sym.ScalarExpression = ce.scalar()
	if m.l.degree() > 4 || m.r.degree() > 4 {
		rep = ce.value(Kind(t.N(2)), 1, 1).(sym.ScalarExpression)
	}
	ms := mustDenote(rep)
	sub := func(mm map[uint64]Poly) cModel {
		f := func(p Poly) Poly { return pSubst(p, mm) }
		return cModel{mMap(m.l, f), mMap(m.r, f), m.sense}
	}
	for _, side := range []sym.Expression{c.Left(), c.Right()} {
		if substTooLarge(side, storedTerms(rep)) || leavesRange(side, rep) {
			return
		}
	}
	t.Logf("substitute v%d := %s", v.ID, show(rep))
	key = conKey("constraint Substitute", c.Left(), c.Right())
	var g sym.Constraint
	cc = t.Try(func() { g = c.Substitute(v, rep) })
	noteSupport(key, cc)
	if cc != nil && supported(key) {
		t.Fail("Substitute:refused", "%s [v%d := %s]: %v", show(c), v.ID, show(rep), cc)
	}
	if cc == nil {
		checkRewritten(t, "constraint Substitute", g, sub(map[uint64]Poly{v.ID: ms.e[0]}), func() string { return fmt.Sprintf("%s [v%d := %s]", show(c), v.ID, show(rep)) })
		t.Label("substituted " + ct)
	}
	// map
	mp, mm, desc := substMap(ce, m.l)
	big := mapTooLarge(c.Left(), mp) || mapTooLarge(c.Right(), mp)
	if big {
		return
	}
	for _, p := range mm {
		big = big || len(p) > 2
	}
	if big && (m.l.degree() > 3 || m.r.degree() > 3) {
		return
	}
	t.Logf("substitute %s", desc)
	key = conKey("constraint SubstituteAccordingTo", c.Left(), c.Right())
	cc = t.Try(func() { g = c.SubstituteAccordingTo(mp) })
	noteSupport(key, cc)
	if cc != nil && supported(key) {
		t.Fail("SubstituteAccordingTo:refused", "%s [%s]: %v", show(c), desc, cc)
	}
	if cc == nil {
		checkRewritten(t, "constraint SubstituteAccordingTo", g, sub(mm), func() string { return fmt.Sprintf("%s [%s]", show(c), desc) })
		t.Label("map substituted " + ct)
	}
}

// substTooLarge: would replacing variables of x by expressions of that many stored terms
// give thousands of terms?
func substTooLarge(x interface{}, terms int) bool {
	if terms <= 1 {
		return false
	}
	n := max(1, storedTerms(x))
	for d := storedDegree(x); d > 0; d-- {
		if n *= terms; n > 3000 {
			return true
		}
	}
	return false
}

// leavesRange: could replacing variables of x by the given expressions give numbers that
// float64 cannot hold (and so sums that are not numbers)?
func leavesRange(x interface{}, by ...interface{}) bool {
	size := func(y interface{}) float64 {
		most := 0.0
		for _, s := range scalarEntries(y) {
			if k, ok := s.(sym.K); ok {
				most = math.Max(most, math.Log10(math.Abs(float64(k))+1e-300))
			}
			for _, m := range monomialsOf(s) {
				most = math.Max(most, math.Log10(math.Abs(m.Coefficient)+1e-300))
			}
		}
		return most
	}
	most := 0.0
	for _, y := range by {
		most = math.Max(most, size(y))
	}
	return size(x)+most*float64(storedDegree(x)) > 250
}

// mapTooLarge asks both for a map of substitutions.
func mapTooLarge(x interface{}, m map[sym.Variable]sym.Expression) bool {
	most := 1
	var values []interface{}
	for _, y := range m {
		most = max(most, storedTerms(y))
		values = append(values, y)
	}
	return substTooLarge(x, most) || leavesRange(x, values...)
}

// storedTerms counts the stored terms, cancelling or not.
func storedTerms(x interface{}) int {
	n := 0
	for _, s := range scalarEntries(x) {
		n += max(1, len(monomialsOf(s)))
	}
	return n
}

// storedDegree is the largest total degree over all stored terms, cancelling or not.
func storedDegree(x interface{}) int {
	d := 0
	for _, s := range scalarEntries(x) {
		if _, ok := s.(sym.Variable); ok && d < 1 {
			d = 1
		}
		for _, m := range monomialsOf(s) {
			n := 0
			for _, e := range m.Exponents {
				n += e
			}
			if n > d {
				d = n
			}
		}
	}
	return d
}

// ---------------------------------------------------------------- C15

// wrtList draws a list covering the variables of the constraint.
func wrtList(ce *CE, used map[uint64]bool) []sym.Variable {
	t := ce.t
	var o []sym.Variable
	for _, i := range t.Perm(len(ce.vars)) {
		v := ce.vars[i]
		if used[v.ID] || t.P(1, 3) {
			o = append(o, v)
		}
	}
	if len(o) == 0 {
		o = append(o, ce.vars[0])
	}
	if t.P(1, 4) {
		at := t.N(len(o) + 1)
		o = append(o[:at:at], append([]sym.Variable{ce.absentVar()}, o[at:]...)...)
	}
	return o
}

func names(vs []sym.Variable) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprintf("v%d", v.ID))
	}
	return strings.Join(s, ",")
}

// rowPoly is the polynomial a.x - b.
func rowPoly(a func(j int) float64, b float64, vs []sym.Variable) Poly {
	p := Poly{}
	p.add(nil, -b, math.Abs(b))
	for j, v := range vs {
		p.add([]pair{{v.ID, 1}}, a(j), math.Abs(a(j)))
	}
	return p
}

func runLinearRep(t *T) {
	ce := newCE(t)
	ce.alias = true
	lvl := t.N(2)
	r := 1
	if lvl == 1 {
		r = t.W(2, 5, 3) + 1
		if t.P(1, 10) {
			r = t.Range(4, 9)
		}
	}
	l, rr := ce.affineValue(r, 1, lvl), ce.affineValue(r, 1, lvl)
	s := senses[t.N(3)]
	c := constraintOf(l, rr, s)
	m, err := readConstraint(c)
	if err != nil {
		panic(err)
	}
	t.Logf("%s", show(c))
	used := map[uint64]bool{}
	for v := range mentioned(l) {
		used[v] = true
	}
	for v := range mentioned(rr) {
		used[v] = true
	}
	explicit := t.P(3, 4)
	var vs []sym.Variable
	var wrt [][]sym.Variable
	if explicit {
		vs = wrtList(ce, used)
		wrt = append(wrt, vs)
		t.Logf("list %s", names(vs))
	} else {
		t.Label("no list")
		if cc := t.Try(func() { vs = c.Variables() }); cc != nil {
			t.Fail("Variables", "Variables of %s: %v", show(c), cc)
		}
		if len(vs) == 0 {
			t.Discard("no variables")
		}
	}
	d := m.diff()
	if len(d.vars()) >= 1 && len(used) >= 2 {
		t.NonTrivial()
	}
	t.Label("%T %s", c, senseName(s))
	var A mat.Dense
	var b []float64
	method := "LinearInequalityConstraintRepresentation"
	if s == sym.SenseEqual {
		method = "LinearEqualityConstraintRepresentation"
	}
	call := func() {
		switch k := c.(type) {
		case sym.ScalarConstraint:
			var a mat.VecDense
			var b0 float64
			if s == sym.SenseEqual {
				a, b0 = k.LinearEqualityConstraintRepresentation(wrt...)
			} else {
				a, b0 = k.LinearInequalityConstraintRepresentation(wrt...)
			}
			A = *mat.NewDense(1, a.Len(), nil)
			for j := 0; j < a.Len(); j++ {
				A.Set(0, j, a.AtVec(j))
			}
			b = []float64{b0}
		case sym.VectorConstraint:
			var bv mat.VecDense
			if s == sym.SenseEqual {
				A, bv = k.LinearEqualityConstraintRepresentation(wrt...)
			} else {
				A, bv = k.LinearInequalityConstraintRepresentation(wrt...)
			}
			for i := 0; i < bv.Len(); i++ {
				b = append(b, bv.AtVec(i))
			}
		}
	}
	key := conKey(method, l, rr)
	if !explicit {
		key += " default"
	}
	cc := t.Try(call)
	noteSupport(key, cc)
	if cc != nil {
		if supported(key) {
			t.Fail(method+":refused", "%s of %s: %v", method, show(c), cc)
		}
		t.Label("refused")
		return
	}
	nr, nc := A.Dims()
	if nr != r || nc != len(vs) || len(b) != r {
		t.Fail(method+":dims", "%s(%s) of %s: coefficients are %dx%d and offsets %d, expected %dx%d and %d", method, names(vs), show(c), nr, nc, len(b), r, len(vs), r)
	}
	for i := 0; i < r; i++ {
		g := rowPoly(func(j int) float64 { return A.At(i, j) }, b[i], vs)
		w := d.at(i, 0)
		if !posMultiple(g, w, s == sym.SenseEqual) && pDiffers(g, withMass(scalarMat(w), scalarMat(g)).e[0]) != "" {
			t.Fail(method+":row", "%s(%s) of %s: row %d says %s %s 0, expected %s %s 0", method, names(vs), show(c), i, g, relOf(s == sym.SenseEqual), w, relOf(s == sym.SenseEqual))
		}
	}
}

// ---------------------------------------------------------------- C16

// singleVar draws a scalar constraint a*x+b (sense) c*x+d, written in many ways.
func singleVar(ce *CE, v sym.Variable, kmax int) sym.ScalarConstraint {
	t := ce.t
	num := func() float64 { return float64(t.Range(0, 2*kmax) - kmax) }
	nzn := func() float64 {
		x := num()
		for x == 0 {
			x = float64(t.Range(1, kmax))
		}
		return x
	}
	side := func(a, b float64) sym.ScalarExpression {
		mon := sym.Monomial{Coefficient: a, VariableFactors: []sym.Variable{v}, Exponents: []int{1}}
		con := sym.Monomial{Coefficient: b}
		switch {
		case a == 0:
			switch t.N(3) {
			case 0:
				return sym.K(b)
			case 1:
				return con
			}
			return sym.Polynomial{Monomials: []sym.Monomial{con}}
		case a == 1 && b == 0 && t.P(2, 3):
			return v
		case b == 0 && t.P(2, 3):
			return mon
		}
		ms := []sym.Monomial{mon, con}
		if t.Bool() {
			ms = []sym.Monomial{con, mon}
		}
		if t.P(1, 4) { // split the term in two
			ms[0], ms = halve(ms[0]), append(ms, halve(ms[0]))
		}
		return sym.Polynomial{Monomials: ms}
	}
	a, b, c, d := nzn(), 0.0, 0.0, num()
	switch t.W(5, 3, 2, 2) {
	case 0: // a x <= d
	case 1: // a x + b <= d
		b = num()
	case 2: // d <= a x + b
		a, b, c, d = 0, num(), nzn(), num()
	case 3: // both sides
		b = num()
		c = num()
	}
	return sym.ScalarConstraint{LeftHandSide: side(a, b), RightHandSide: side(c, d), Sense: senses[t.W(4, 4, 2)]}
}

func halve(m sym.Monomial) sym.Monomial {
	m.Coefficient /= 2
	return m
}

// rats reads a polynomial in one variable of degree at most one as exact rationals.
func ratsOf(p Poly, v uint64) (a, b *big.Rat) {
	a, b = new(big.Rat), new(big.Rat)
	x, _ := p.linear(v)
	y, _ := p.constant()
	a.SetFloat64(x)
	b.SetFloat64(y)
	return
}

// interval of a single-variable linear constraint: x <= bound, x >= bound or x == bound.
func intervalOf(m cModel, v uint64) (bound *big.Rat, kind string, ok bool) {
	d := m.diff().e[0]
	if d.degree() > 1 {
		return nil, "", false
	}
	for u := range d.vars() {
		if u != v {
			return nil, "", false
		}
	}
	a, b := ratsOf(d, v)
	if a.Sign() == 0 {
		return nil, "", false
	}
	bound = new(big.Rat).Quo(new(big.Rat).Neg(b), a)
	switch {
	case m.sense == sym.SenseEqual:
		kind = "=="
	case a.Sign() > 0:
		kind = "<="
	default:
		kind = ">="
	}
	return bound, kind, true
}

func runImplies1(t *T) {
	ce := newCE(t)
	v := ce.anyVar()
	kmax := []int{2, 4, 10, 60}[t.N(4)]
	a, b := singleVar(ce, v, kmax), singleVar(ce, v, kmax)
	if t.P(1, 3) {
		// the same bound written with other numbers
		b = a
		f := float64(t.Range(1, 60))
		if t.Bool() {
			f = -f
		}
		b = scaleModelConstraint(a, f)
		if t.P(1, 3) {
			b.Sense = senses[t.N(3)]
		}
		if t.Bool() {
			a, b = b, a
		}
	}
	if t.P(1, 5) {
		// almost the same bound: every number involved stays exact
		d := 1 / float64(int64(1)<<uint(t.Range(1, 30)))
		if t.Bool() {
			d = -d
		}
		if t.P(3, 4) {
			s := b.Sense
			b = a
			if t.P(1, 4) {
				b.Sense = s
			}
		}
		b = nudged(b, d)
		if t.Bool() {
			a, b = b, a
		}
		t.Label("nudged")
	}
	t.Logf("%s => %s", show(a), show(b))
	ma, _ := readConstraint(a)
	mb, _ := readConstraint(b)
	ba, ka, oka := intervalOf(ma, v.ID)
	bb, kb, okb := intervalOf(mb, v.ID)
	var got bool
	if cc := t.Try(func() { got = a.ImpliesThisIsAlsoSatisfied(b) }); cc != nil {
		t.Fail("Implies:panic", "%s => %s: %v", show(a), show(b), cc)
	}
	if !oka || !okb {
		if got {
			soundness(t, a, b, ma, mb, ce)
		}
		t.Label("degenerate")
		return
	}
	t.NonTrivial()
	t.Label("%s => %s", ka, kb)
	cmp := ba.Cmp(bb)
	want := false
	switch {
	case ka == "<=" && kb == "<=":
		want = cmp <= 0
	case ka == ">=" && kb == ">=":
		want = cmp >= 0
	case ka == "==" && kb == "<=":
		want = cmp <= 0
	case ka == "==" && kb == ">=":
		want = cmp >= 0
	case ka == "==" && kb == "==":
		want = cmp == 0
	}
	t.Label("bounds %d", cmp)
	if cmp != 0 {
		// closer than rounding: not decided here
		x, _ := ba.Float64()
		y, _ := bb.Float64()
		if math.Abs(x-y) <= 1e-12*(math.Abs(x)+math.Abs(y)) {
			t.Discard("bounds closer than rounding")
		}
	}
	if got && !want {
		t.Fail("Implies:unsound", "%s (%s %s) is reported to imply %s (%s %s)", show(a), ka, ba.RatString(), show(b), kb, bb.RatString())
	}
	if !got && want {
		t.Fail("Implies:incomplete", "%s (%s %s) is not reported to imply %s (%s %s)", show(a), ka, ba.RatString(), show(b), kb, bb.RatString())
	}
}

// nudged adds d to the right hand side.
func nudged(a sym.ScalarConstraint, d float64) sym.ScalarConstraint {
	switch e := a.RightHandSide.(type) {
	case sym.K:
		a.RightHandSide = e + sym.K(d)
	default:
		p := sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: d}}}
		switch e := e.(type) {
		case sym.Variable:
			p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: 1, VariableFactors: []sym.Variable{e}, Exponents: []int{1}})
		case sym.Monomial:
			p.Monomials = append(p.Monomials, e)
		case sym.Polynomial:
			p.Monomials = append(append([]sym.Monomial{}, e.Monomials...), p.Monomials...)
		}
		a.RightHandSide = p
	}
	return a
}

// scaleModelConstraint writes the same requirement multiplied by f.
func scaleModelConstraint(a sym.ScalarConstraint, f float64) sym.ScalarConstraint {
	sc := func(x sym.ScalarExpression) sym.ScalarExpression {
		ks, cs := termList(x)
		p := sym.Polynomial{}
		for i := range ks {
			var m sym.Monomial
			switch e := interface{}(x).(type) {
			case sym.K:
				m = sym.Monomial{Coefficient: cs[i] * f}
			case sym.Variable:
				m = sym.Monomial{Coefficient: f, VariableFactors: []sym.Variable{e}, Exponents: []int{1}}
			case sym.Monomial:
				m = sym.Monomial{Coefficient: cs[i] * f, VariableFactors: e.VariableFactors, Exponents: e.Exponents}
			case sym.Polynomial:
				m = sym.Monomial{Coefficient: cs[i] * f, VariableFactors: e.Monomials[i].VariableFactors, Exponents: e.Monomials[i].Exponents}
			}
			p.Monomials = append(p.Monomials, m)
		}
		if len(p.Monomials) == 1 {
			if len(p.Monomials[0].VariableFactors) == 0 {
				return sym.K(p.Monomials[0].Coefficient)
			}
			return p.Monomials[0]
		}
		return p
	}
	s := a.Sense
	if f < 0 {
		switch s {
		case sym.SenseLessThanEqual:
			s = sym.SenseGreaterThanEqual
		case sym.SenseGreaterThanEqual:
			s = sym.SenseLessThanEqual
		}
	}
	return sym.ScalarConstraint{LeftHandSide: sc(a.LeftHandSide), RightHandSide: sc(a.RightHandSide), Sense: s}
}

// soundness looks for a point that satisfies a but not b; a reported implication
// with such a point is a violation.
func soundness(t *T, a, b sym.Constraint, ma, mb cModel, ce *CE) {
	da, db := ma.diff(), mb.diff()
	ea, eb := ma.sense == sym.SenseEqual, mb.sense == sym.SenseEqual
	var ids []uint64
	all := da.vars()
	for v := range db.vars() {
		all[v] = true
	}
	for v := range all {
		ids = append(ids, v)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	sat := func(d Mat, eq bool, at map[uint64]float64, margin float64) (bool, bool) { // satisfied clearly, violated clearly
		ok, bad := true, false
		for _, p := range d.e {
			v, mass := p.eval(at)
			tol := 1e-9 * (mass + 1)
			if eq {
				if v != 0 {
					ok = false
				}
				if math.Abs(v) > 1e-6*(mass+1) {
					bad = true
				}
			} else {
				if v > 0 {
					ok = false
				}
				if v > tol {
					bad = true
				}
			}
		}
		return ok, bad
	}
	vals := []float64{0, 1, -1, 0.5, -0.5, 2, -2, 3, -4, 10, -10, 100, -100, 1e4, -1e4, 0.25, 7, -9}
	try := func(at map[uint64]float64) {
		ok, _ := sat(da, ea, at, 0)
		_, bad := sat(db, eb, at, 0)
		if ok && bad {
			t.Fail("Implies:unsound", "%s is reported to imply %s, but the point %v satisfies the first and not the second", show(a), show(b), at)
		}
	}
	// a fixed pseudo-random walk over the values (a pure function of the case)
	r := rng{hashStr(show(a), show(b))}
	for k := 0; k < 400; k++ {
		at := map[uint64]float64{}
		for _, v := range ids {
			at[v] = vals[r.next()%uint64(len(vals))]
		}
		// sometimes move one variable onto a boundary of a
		if len(ids) > 0 && k%2 == 1 {
			v := ids[r.next()%uint64(len(ids))]
			p := da.e[r.next()%uint64(len(da.e))]
			at[v] = 0
			c0, _ := p.eval(at)
			at[v] = 1
			c1, _ := p.eval(at)
			if s := c1 - c0; s != 0 {
				at[v] = -c0 / s
				if k%4 == 3 {
					at[v] = math.Floor(at[v]) - float64(r.next()%2)
				}
			}
		}
		try(at)
	}
}

// runImpliesEntry: a vector or matrix constraint implies what one of its entries implies.
func runImpliesEntry(t *T) {
	ce := newCE(t)
	r, c := t.Range(2, 5), 1
	lvl := 1
	if t.P(2, 5) {
		lvl, r, c = 2, t.Range(1, 4), t.Range(1, 4)
		if r*c == 1 {
			c = 2
		}
	}
	v := ce.anyVar()
	s := senses[t.N(3)]
	var es []sym.ScalarConstraint
	ls, rs := make([][]sym.ScalarExpression, r), make([][]sym.ScalarExpression, r)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			w := v
			if t.P(1, 3) {
				w = ce.anyVar()
			}
			k := singleVar(ce, w, 6)
			k.Sense = s
			es = append(es, k)
			ls[i], rs[i] = append(ls[i], k.LeftHandSide), append(rs[i], k.RightHandSide)
		}
	}
	var a sym.Constraint
	if lvl == 1 {
		flat := func(m [][]sym.ScalarExpression) (o []sym.ScalarExpression) {
			for _, row := range m {
				o = append(o, row[0])
			}
			return o
		}
		a = sym.VectorConstraint{LeftHandSide: sym.ConcretizeVectorExpression(flat(ls)), RightHandSide: sym.ConcretizeVectorExpression(flat(rs)), Sense: s}
	} else {
		a = sym.MatrixConstraint{LeftHandSide: sym.ConcretizeMatrixExpression(ls), RightHandSide: sym.ConcretizeMatrixExpression(rs), Sense: s}
	}
	b := singleVar(ce, v, 6)
	if t.P(1, 3) {
		b = es[t.N(len(es))]
		if t.Bool() {
			b = scaleModelConstraint(b, []float64{2, -1, -3, 4}[t.N(4)])
		}
	}
	t.Logf("%s => %s", show(a), show(b))
	mb, _ := readConstraint(b)
	bu := v
	for _, w := range b.Variables() {
		bu = w
	}
	bb, kb, okb := intervalOf(mb, bu.ID)
	if !okb {
		t.Discard("degenerate")
	}
	at := -1
	for i, e := range es {
		me, _ := readConstraint(e)
		be, ke, oke := intervalOf(me, bu.ID)
		if !oke {
			continue
		}
		cmp := be.Cmp(bb)
		switch {
		case kb == "<=" && ke != ">=" && cmp <= 0, kb == ">=" && ke != "<=" && cmp >= 0, kb == "==" && ke == "==" && cmp == 0:
			at = i
		}
	}
	var got bool
	if cc := t.Try(func() { got = a.ImpliesThisIsAlsoSatisfied(b) }); cc != nil {
		t.Fail("Implies:entry:panic", "%s => %s: %v", show(a), show(b), cc)
	}
	t.NonTrivial()
	t.Label("%T implied %v", a, at >= 0)
	if at >= 0 && !got {
		t.Fail("Implies:entry", "%s is not reported to imply %s, although its entry %d (%s) does", show(a), show(b), at, show(es[at]))
	}
	if got && at < 0 {
		ma, err := readConstraint(a)
		if err == nil {
			soundness(t, a, b, ma, mb, ce)
		}
	}
}

func runImplies2(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.intish = true
	draw := ce.withShape
	v := ce.anyVar()
	one := func() sym.Constraint {
		switch t.W(3, 3, 3) {
		case 0:
			return singleVar(ce, v, 5)
		case 1:
			return anyConstraint(ce, ce.affineValue)
		}
		return anyConstraint(ce, draw)
	}
	a, b := one(), one()
	if t.P(1, 8) {
		b = a
	} else if t.P(1, 4) {
		// almost the same constraint, or the same one between other kinds of value
		if t.P(1, 3) {
			ks := Kind(t.N(4))
			lvl := t.N(3)
			r, c := 1, 1
			if lvl > 0 {
				r = ce.dim(1, 3)
			}
			if lvl > 1 {
				c = ce.dim(1, 3)
			}
			a = constraintOf(ce.value(Kind(4*lvl)+ks, r, c).(sym.Expression), ce.value(Kind(4*lvl), r, c).(sym.Expression), senses[t.N(3)])
		}
		l, r, s := a.Left(), a.Right(), a.ConstrSense()
		for k := t.W(6, 3, 1); k >= 0; k-- {
			if t.Bool() {
				l = ce.near(l)
			} else {
				r = ce.near(r)
			}
		}
		if t.P(1, 4) {
			s = senses[t.N(3)]
		}
		b = constraintOf(l, r, s)
		t.Label("almost the same")
	}
	if t.P(1, 4) {
		// an entry of a vector or matrix constraint on the single variable
		n := ce.dim(1, 3)
		var ls, rs []sym.ScalarExpression
		s := senses[t.N(3)]
		for i := 0; i < n; i++ {
			k := singleVar(ce, v, 4)
			ls, rs = append(ls, k.LeftHandSide), append(rs, k.RightHandSide)
		}
		a = constraintOf(sym.ConcretizeVectorExpression(ls).(sym.Expression), sym.ConcretizeVectorExpression(rs).(sym.Expression), s)
		b = singleVar(ce, v, 4)
	}
	t.Logf("%s => %s", show(a), show(b))
	ma, err := readConstraint(a)
	if err != nil {
		panic(err)
	}
	mb, err := readConstraint(b)
	if err != nil {
		panic(err)
	}
	t.Label("%T => %T", a, b)
	if len(ma.diff().vars()) > 0 && len(mb.diff().vars()) > 0 {
		t.NonTrivial()
	}
	var got bool
	cc := t.Try(func() { got = a.ImpliesThisIsAlsoSatisfied(b) })
	if cc != nil {
		key := fmt.Sprintf("Implies %T %T", a, b)
		noteSupport(key, cc)
		if supported(key) || cc.runtime {
			t.Fail("Implies:panic", "%s => %s: %v", show(a), show(b), cc)
		}
		t.Label("refused")
		return
	}
	noteSupport(fmt.Sprintf("Implies %T %T", a, b), nil)
	if got {
		t.Label("implied")
		soundness(t, a, b, ma, mb, ce)
	}
}

func runNonneg(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.intish = true
	var c sym.ScalarConstraint
	switch t.W(6, 3, 2) {
	case 0: // close to x >= 0
		v := ce.anyVar()
		c = singleVar(ce, v, 2)
		if t.Bool() { // cancel the constant
			m, _ := readConstraint(c)
			d := mSub(m.l, m.r).e[0]
			k, _ := d.constant()
			p := ce.asPolynomial(c.RightHandSide)
			p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: k})
			c.RightHandSide = p
		}
	case 1:
		c = constraintOf(ce.affineValue(1, 1, 0), ce.affineValue(1, 1, 0), senses[t.N(3)]).(sym.ScalarConstraint)
	case 2:
		c = constraintOf(ce.scalar(), ce.scalar(), senses[t.N(3)]).(sym.ScalarConstraint)
	}
	if t.P(1, 5) {
		d := math.Ldexp(1, -t.Range(1, 40))
		if t.Bool() {
			d = -d
		}
		c = nudged(c, d)
		t.Label("nudged")
	}
	t.Logf("%s", show(c))
	m, err := readConstraint(c)
	if err != nil {
		panic(err)
	}
	d := m.diff().e[0] // d <= 0
	vs := d.vars()
	var got bool
	if cc := t.Try(func() { got = c.IsNonnegativityConstraint() }); cc != nil {
		t.Fail("IsNonnegativityConstraint:panic", "%s: %v", show(c), cc)
	}
	if d.degree() <= 1 {
		t.NonTrivial()
		want := false
		if len(vs) == 1 && c.Sense != sym.SenseEqual {
			for v := range vs {
				a, _ := d.linear(v)
				b := d[""]
				want = a < 0 && b.c == 0 // every number is a short binary fraction
			}
		}
		t.Label("nonnegativity %v", want)
		if got != want {
			t.Fail("IsNonnegativityConstraint", "IsNonnegativityConstraint of %s (that is, %s %s 0) is %v", show(c), d, relOf(c.Sense == sym.SenseEqual), got)
		}
		return
	}
	t.Label("nonlinear")
	if got {
		// must say exactly x >= 0 for its only variable
		if len(vs) != 1 || c.Sense == sym.SenseEqual {
			t.Fail("IsNonnegativityConstraint", "IsNonnegativityConstraint of %s is true", show(c))
		}
		for v := range vs {
			for _, x := range []float64{-100, -3, -1, -0.5, -0.01, 0.01, 0.5, 1, 3, 100} {
				val, mass := d.eval(map[uint64]float64{v: x})
				if math.Abs(val) > 1e-9*mass && (val <= 0) != (x >= 0) {
					t.Fail("IsNonnegativityConstraint", "IsNonnegativityConstraint of %s is true, but at %v it says %v", show(c), x, val <= 0)
				}
			}
		}
	}
}

// asPolynomial copies a scalar into a polynomial (harness-made).
func (ce *CE) asPolynomial(x interface{}) sym.Polynomial {
	switch e := x.(type) {
	case sym.K:
		return sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: float64(e)}}}
	case sym.Variable:
		return sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: 1, VariableFactors: []sym.Variable{e}, Exponents: []int{1}}}}
	case sym.Monomial:
		return sym.Polynomial{Monomials: []sym.Monomial{e}}
	case sym.Polynomial:
		return sym.Polynomial{Monomials: append([]sym.Monomial{}, e.Monomials...)}
	}
	panic("harness: asPolynomial")
}

func init() {
	assume := []string{
		"variables with distinct identifiers; no variable listed twice inside one monomial; exponents non-negative; coefficients finite",
		"coefficients compared with relative tolerance 1e-11 of the accumulated absolute mass of the exact computation",
	}
	register(&Property{ID: "C13", Rule: "a case is one comparison (operand pair, direction, method) or a list of up to six constraints; non-trivial when a variable occurs and the left operand is not zero (flatten: at least two constraints, one of them with several entries)", Assume: assume, Families: []Family{
		{Name: "comparison", Quick: 100000, Thorough: 2000000, Rule: "sides, direction, entries, dimensions and flattening of one comparison", Run: runComparison},
		{Name: "flatten", Quick: 50000, Thorough: 1000000, Rule: "flattening lists of constraints", Run: runFlatten},
	}})
	register(&Property{ID: "C14", Rule: "a case is a constraint with a scale factor, a substitution and a substitution map; non-trivial when both sides are non-zero and the difference mentions a variable", Assume: append([]string{"two requirements are the same when their left-minus-right polynomials agree entry by entry up to a positive factor (non-zero for equalities)"}, assume...), Families: []Family{
		{Name: "rewrite", Quick: 60000, Thorough: 1200000, Rule: "simplify, scale, substitute, map-substitute; reported variables, linearity, dimensions", Run: runRewrite},
	}})
	register(&Property{ID: "C15", Rule: "a case is an affine scalar or vector constraint and a covering list of variables (or none); non-trivial when a variable remains in left minus right and at least two occur", Assume: append([]string{"the stored terms of both sides have degree at most one (the library decides linearity on stored terms)"}, assume...), Families: []Family{
		{Name: "representation", Quick: 150000, Thorough: 3000000, Rule: "rows against the model's left minus right, up to a positive factor", Run: runLinearRep},
	}})
	register(&Property{ID: "C16", Rule: "a case is a pair of constraints (or one constraint, for nonnegativity); non-trivial when both are genuine single-variable linear constraints (general: both mention variables; nonneg: the constraint is affine)", Assume: append([]string{"bounds that differ by less than rounding (relative 1e-12) are not decided", "unsoundness for general pairs is searched for at about 400 points per reported implication"}, assume...), Families: []Family{
		{Name: "single", Quick: 120000, Thorough: 2500000, Rule: "single-variable linear pairs, exact rational decision", Run: runImplies1},
		{Name: "general", Quick: 60000, Thorough: 1200000, Rule: "arbitrary pairs, counterexample search", Run: runImplies2},
		{Name: "entries", Quick: 50000, Thorough: 1000000, Rule: "a vector or matrix constraint implies what one of its entries implies", Run: runImpliesEntry},
		{Name: "nonneg", Quick: 80000, Thorough: 1500000, Rule: "nonnegativity recognition, exact for affine constraints", Run: runNonneg},
	}})
}
