package main

// C21: long chains of operations against a reference computation.

import (
	"fmt"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// link is a value of a chain together with what it must denote.
type link struct {
	e sym.Expression
	m Mat
}

type chain struct {
	t     *T
	ce    *CE
	links []link
	used  int // steps that took an earlier result
}

func (c *chain) name(i int) string { return fmt.Sprintf("e%d", i) }

func (c *chain) fresh(e sym.Expression) int {
	c.links = append(c.links, link{e, mustDenote(e)})
	c.t.Logf("e%d := %s", len(c.links)-1, show(e))
	return len(c.links) - 1
}

// partner draws an operand index whose model satisfies ok; fresh ones are made by mk.
func (c *chain) partner(ok func(m Mat) bool, mk func() sym.Expression) int {
	if c.t.Bool() {
		start := c.t.N(len(c.links))
		for k := range c.links {
			i := (start + k) % len(c.links)
			if ok(c.links[i].m) {
				c.used++
				return i
			}
		}
	}
	return c.fresh(mk())
}

func (m Mat) heavy() bool { return m.totalTerms() > 90 || m.degree() > 14 || m.mass() > 1e14 }

func (m Mat) mass() float64 {
	x := 0.0
	for _, p := range m.e {
		for _, t := range p {
			if t.mass > x {
				x = t.mass
			}
		}
	}
	return x
}

// push checks a result and makes it the end of the chain.
func (c *chain) push(op, what string, got interface{}, want Mat) {
	t := c.t
	cmpResult(t, "chain:"+op, got, want, func() string { return what + "\nin the chain\n  " + strings.Join(t.log, "\n  ") })
	e, ok := got.(sym.Expression)
	if !ok {
		t.Fail("chain:"+op+":kind", "%s gives a %T, which is not an expression", what, got)
	}
	var err error
	if cc := t.Try(func() { err = e.Check() }); cc != nil || err != nil {
		t.Fail("chain:"+op+":Check", "%s gives %s, which Check rejects: %v %v\nin the chain\n  %s", what, show(got), cc, err, strings.Join(t.log, "\n  "))
	}
	c.links = append(c.links, link{e, want})
	t.Logf("e%d := %s = %s", len(c.links)-1, what, show(got))
}

// step performs one operation on link i; false when it was refused or skipped.
func (c *chain) step(i int) bool {
	t, ce := c.t, c.ce
	a := c.links[i]
	bin := func(op binOp, j int, swap bool) bool {
		x, y := a, c.links[j]
		ni, nj := c.name(i), c.name(j)
		if swap {
			x, y = y, x
			ni, nj = nj, ni
		}
		if !op.defined(x.m, y.m) {
			return false
		}
		if op.name == "Multiply" && x.m.totalTerms()*y.m.totalTerms() > 500 {
			return false
		}
		want := op.model(x.m, y.m)
		if want.heavy() {
			return false
		}
		key := comboKey(op.name, x.e, y.e, mustDenote(x.e), mustDenote(y.e))
		var got sym.Expression
		if cc := t.Try(func() { got = op.call(x.e, y.e) }); cc != nil {
			if supported(key) {
				t.Fail("chain:"+op.name+":refused", "%s.%s(%s) with %s and %s is refused: %v\nin the chain\n  %s", ni, op.name, nj, show(x.e), show(y.e), cc, strings.Join(t.log, "\n  "))
			}
			t.Label("refused %s", op.name)
			return false
		}
		t.Label("%s", op.name)
		c.push(op.name, fmt.Sprintf("%s.%s(%s)", ni, op.name, nj), got, want)
		return true
	}
	un := func(op, arg string, f func() interface{}, want Mat) bool {
		if want.heavy() {
			return false
		}
		what := fmt.Sprintf("%s.%s(%s)", c.name(i), op, arg)
		var got interface{}
		if cc := t.Try(func() { got = f() }); cc != nil {
			if supported(unaryKey(op, a.e, mustDenote(a.e))) || op == "Transpose" || op == "AsSimplifiedExpression" || op == "At" {
				t.Fail("chain:"+op+":refused", "%s with %s is refused: %v\nin the chain\n  %s", what, show(a.e), cc, strings.Join(t.log, "\n  "))
			}
			t.Label("refused %s", op)
			return false
		}
		t.Label("%s", op)
		c.push(op, what, got, want)
		return true
	}
	m := a.m
	level := kindOf(a.e).level()
	switch t.W(5, 4, 6, 3, 3, 3, 2, 3, 3, 2, 3) {
	case 0, 1:
		op := opPlus
		if t.P(2, 5) {
			op = opMinus
			if t.P(1, 3) {
				op = opMinusHelper
			}
		}
		j := c.partner(func(o Mat) bool { return addDefined(m, o) }, func() sym.Expression {
			if m.isScalar() {
				return ce.expr()
			}
			if t.P(1, 3) {
				return ce.scalar()
			}
			return ce.withShape(m.r, m.c, level)
		})
		return bin(op, j, t.Bool())
	case 2:
		swap := t.Bool()
		j := c.partner(func(o Mat) bool {
			if swap {
				return mulDefined(o, m)
			}
			return mulDefined(m, o)
		}, func() sym.Expression {
			if t.P(1, 3) {
				return ce.scalar()
			}
			if m.isScalar() {
				return ce.expr()
			}
			r, k := m.c, t.Range(1, 3)
			if swap {
				r, k = t.Range(1, 3), m.r
			}
			if k == 1 && t.Bool() {
				return ce.withShape(r, 1, 1)
			}
			return ce.withShape(r, k, 2)
		})
		return bin(opMul, j, swap)
	case 3:
		if m.r != m.c {
			return false
		}
		n := t.N(4)
		n = capPower(m, n, 200)
		return un("Power", fmt.Sprint(n), func() interface{} { return a.e.Power(n) }, mPow(m, n))
	case 4:
		v := ce.diffVar()
		return un("DerivativeWrt", fmt.Sprintf("v%d", v.ID), func() interface{} { return a.e.DerivativeWrt(v) },
			mMap(m, func(p Poly) Poly { return pDiff(p, v.ID) }))
	case 5, 6:
		v, w := ce.anyVar(), ce.anyVar()
		pick := func() link {
			j := c.partner(func(o Mat) bool { return false }, func() sym.Expression { return ce.scalar() })
			if t.P(1, 3) {
				for k := range c.links {
					if kindOf(c.links[k].e).level() == 0 && c.links[k].m.totalTerms() <= 3 && t.Bool() {
						j = k
						c.used++
					}
				}
			}
			return c.links[j]
		}
		s := pick()
		se := s.e.(sym.ScalarExpression)
		if m.degree() > 4 && s.m.totalTerms() > 1 || m.totalTerms() > 30 && s.m.totalTerms() > 2 || s.m.degree()*m.degree() > 14 {
			return false
		}
		if t.Bool() {
			return un("Substitute", fmt.Sprintf("v%d, %s", v.ID, show(s.e)), func() interface{} { return a.e.Substitute(v, se) },
				mMap(m, func(p Poly) Poly { return pSubst(p, map[uint64]Poly{v.ID: s.m.e[0]}) }))
		}
		mp := map[sym.Variable]sym.Expression{v: s.e}
		mm := map[uint64]Poly{v.ID: s.m.e[0]}
		if w.ID != v.ID {
			mp[w], mm[w.ID] = sym.Expression(v), pVar(v.ID) // exchange of roles
		}
		return un("SubstituteAccordingTo", fmt.Sprintf("v%d -> %s, v%d -> v%d", v.ID, show(s.e), w.ID, v.ID), func() interface{} { return a.e.SubstituteAccordingTo(mp) },
			mMap(m, func(p Poly) Poly { return pSubst(p, mm) }))
	case 7:
		return un("Transpose", "", func() interface{} { return a.e.Transpose() }, mT(m))
	case 8:
		horizontal := t.Bool()
		n := m.c
		if horizontal {
			n = m.r
		}
		if m.r*m.c > 8 {
			return false
		}
		var js []int
		for k := t.Range(1, 2); k > 0; k-- {
			js = append(js, c.partner(func(o Mat) bool {
				return (horizontal && o.r == n || !horizontal && o.c == n) && o.r*o.c <= 6
			}, func() sym.Expression { return blockWith(ce, n, horizontal) }))
		}
		at := t.N(len(js) + 1)
		js = append(js[:at:at], append([]int{i}, js[at:]...)...)
		var es []sym.Expression
		var ms []Mat
		var ns []string
		for _, j := range js {
			es, ms, ns = append(es, c.links[j].e), append(ms, c.links[j].m), append(ns, c.name(j))
		}
		want := stackModel(ms, horizontal)
		if want.heavy() {
			return false
		}
		op, f := "VStack", sym.VStack
		if horizontal {
			op, f = "HStack", sym.HStack
		}
		what := fmt.Sprintf("%s(%s)", op, strings.Join(ns, ", "))
		var got interface{}
		if cc := t.Try(func() { got = f(es...) }); cc != nil {
			t.Fail("chain:"+op+":refused", "%s of %s is refused: %v\nin the chain\n  %s", what, showList(es), cc, strings.Join(t.log, "\n  "))
		}
		t.Label("%s", op)
		c.push(op, what, got, want)
		return true
	case 9:
		r, k := t.N(m.r), t.N(m.c)
		return un("At", fmt.Sprintf("%d, %d", r, k), func() interface{} { return a.e.At(r, k) }, scalarMat(m.at(r, k)))
	}
	return un("AsSimplifiedExpression", "", func() interface{} { return a.e.AsSimplifiedExpression() }, m)
}

func runChain(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	ce.maxExp = 2
	ce.intish = t.P(3, 4)
	ce.zeroEx = t.P(1, 12)
	c := &chain{t: t, ce: ce}
	c.fresh(ce.expr())
	n := t.Range(3, 12)
	done := 0
	for try := 0; done < n && try < 3*n; try++ {
		i := len(c.links) - 1
		if t.P(1, 4) {
			i = t.N(len(c.links))
		}
		if c.step(i) {
			done++
		}
	}
	last := c.links[len(c.links)-1]
	if done >= 3 && len(last.m.vars()) > 0 {
		t.NonTrivial()
	}
	t.Label("steps %d", done)
	if c.used > 0 {
		t.Label("earlier results combined")
	}
	// the end of the chain in lowest terms
	var s sym.Expression
	if cc := t.Try(func() { s = last.e.AsSimplifiedExpression() }); cc != nil {
		t.Fail("chain:simplify:panic", "simplifying %s: %v\nin the chain\n  %s", show(last.e), cc, strings.Join(t.log, "\n  "))
	}
	cmpResult(t, "chain:simplify", s, last.m, func() string { return "simplifying the end of the chain\n  " + strings.Join(t.log, "\n  ") })
	if d := notCanonical(s); d != "" && !tinyTerms(s) {
		t.Fail("chain:simplify:canonical", "%s simplifies to %s: %s", show(last.e), show(s), d)
	}
}

// runRegroup computes the same quantity along two routes.
func runRegroup(t *T) {
	ce := newCE(t)
	ce.small = true
	ce.alias = true
	ce.intish = t.P(3, 4)
	ce.maxExp = 2
	level := t.N(3)
	r, c := 1, 1
	if level > 0 {
		r = t.Range(1, 3)
	}
	if level > 1 {
		c = t.Range(1, 3)
	}
	n := t.Range(3, 5)
	es := make([]sym.Expression, n)
	total := 0
	for i := range es {
		if t.P(1, 5) {
			es[i] = ce.scalar()
		} else {
			es[i] = ce.withShape(r, c, level)
		}
		total += mustDenote(es[i]).totalTerms()
	}
	t.Logf("%s", showList(es))
	sum := func(es []sym.Expression) sym.Expression {
		s := es[0]
		for _, e := range es[1:] {
			s = s.Plus(e)
		}
		return s
	}
	var tree func(es []sym.Expression) sym.Expression
	tree = func(es []sym.Expression) sym.Expression {
		if len(es) == 1 {
			return es[0]
		}
		k := 1 + t.N(len(es)-1)
		return tree(es[:k]).Plus(tree(es[k:]))
	}
	p := t.Perm(n)
	sh := make([]sym.Expression, n)
	for i, j := range p {
		sh[i] = es[j]
	}
	k := sym.Expression(sym.K(ce.coef(true)))
	f, g := ce.scalar(), ce.scalar()
	v := ce.diffVar()
	which := t.N(6)
	name := []string{"sum reordered and regrouped", "scaled sum", "factored product", "derivative of a sum", "transpose of a sum", "square of a binomial"}[which]
	t.Label("%s at level %d", name, level)
	vars := 0
	for _, e := range es {
		vars += len(mustDenote(e).vars())
	}
	if vars >= 2 {
		t.NonTrivial()
	}
	var a, b sym.Expression
	ca := t.Try(func() {
		switch which {
		case 0:
			a, b = sum(es), tree(sh)
		case 1:
			a = sum(es).Multiply(k)
			var parts []sym.Expression
			for _, e := range sh {
				parts = append(parts, e.Multiply(k))
			}
			b = tree(parts)
		case 2:
			a = sum(es).Multiply(f.Plus(g))
			var parts []sym.Expression
			for _, e := range sh {
				parts = append(parts, e.Multiply(f), g.Multiply(e))
			}
			b = tree(parts)
		case 3:
			a = sum(es).DerivativeWrt(v)
			var parts []sym.Expression
			for _, e := range sh {
				parts = append(parts, e.DerivativeWrt(v))
			}
			b = tree(parts)
		case 4:
			a = sum(es).Transpose()
			var parts []sym.Expression
			for _, e := range sh {
				parts = append(parts, e.Transpose())
			}
			b = tree(parts)
		case 5:
			a = f.Plus(g).Power(2)
			b = f.Power(2).Plus(f.Multiply(g).Multiply(2.0)).Plus(g.Power(2))
		}
	})
	if ca != nil {
		// combinations the library does not offer
		t.Label("refused: %s", name)
		if ca.runtime {
			t.Fail("regroup:crash", "%s of %s crashes: %v", name, showList(es), ca)
		}
		return
	}
	t.Label("compared")
	var ms []Mat
	for _, e := range es {
		ms = append(ms, mustDenote(e))
	}
	msum := func(f func(Mat) Mat) Mat {
		o := f(ms[0])
		for _, m := range ms[1:] {
			o = mAdd(o, f(m))
		}
		return o
	}
	mf, mg := mustDenote(f), mustDenote(g)
	var want Mat
	switch which {
	case 0:
		want = msum(func(m Mat) Mat { return m })
	case 1:
		want = msum(func(m Mat) Mat { return mMul(m, mustDenote(k)) })
	case 2:
		want = msum(func(m Mat) Mat { return mAdd(mMul(m, mf), mMul(mg, m)) })
	case 3:
		want = msum(func(m Mat) Mat { return mMap(m, func(p Poly) Poly { return pDiff(p, v.ID) }) })
	case 4:
		want = msum(mT)
	case 5:
		want = mPow(mAdd(mf, mg), 2)
	}
	sameAs(t, "regroup:"+name, a, b, want)
	var sa, sb sym.Expression
	if c := t.Try(func() { sa, sb = a.AsSimplifiedExpression(), b.AsSimplifiedExpression() }); c != nil {
		t.Fail("regroup:simplify", "simplifying %s or %s: %v", show(a), show(b), c)
	}
	sameAs(t, "regroup:simplified:"+name, sa, sb, want)
	if ce.intish && !tinyTerms(sa) && !tinyTerms(sb) {
		if x, y := termSets(sa), termSets(sb); x != y {
			t.Fail("regroup:terms:"+name, "%s of %s along two routes simplifies to different terms\nfirst:  %s\nsecond: %s", name, showList(es), show(sa), show(sb))
		}
	}
}

// runAccumulate builds a long sum step by step.
func runAccumulate(t *T) {
	ce := newCE(t)
	ce.alias = true
	ce.intish = t.P(3, 4)
	ce.maxExp = 3
	for len(ce.vars) < 4 {
		ce.vars = append(ce.vars, sym.Variable{ID: uint64(5000 + len(ce.vars)), Lower: -1, Upper: 1, Name: fmt.Sprintf("acc%d", len(ce.vars)), Environment: ce.env})
	}
	ce.big, ce.also = 0, 0
	n := t.Range(10, 50)
	most := t.Range(20, 110)
	var sum sym.Expression = sym.K(ce.coef(true))
	if t.Bool() {
		sum = ce.polynomial()
	}
	m := mustDenote(sum)
	steps := 0
	for i := 0; i < n; i++ {
		if m.totalTerms() > most {
			break
		}
		var e sym.Expression
		switch t.N(4) {
		case 0:
			e = ce.scalar()
		case 1:
			e = ce.monomial(true)
		default:
			if t.P(1, 2) {
				ce.big = bigTerms
			}
			e = ce.polynomial()
			ce.big = 0
		}
		me := mustDenote(e)
		var next sym.Expression
		var want Mat
		what := ""
		c := t.Try(func() {
			switch t.W(6, 3, 3, 1, 1) {
			case 0:
				what = "Plus"
				next, want = sum.Plus(e), mAdd(m, me)
			case 1:
				what = "Plus to it"
				next, want = e.Plus(sum), mAdd(me, m)
			case 2:
				what = "Minus"
				next, want = sum.Minus(e), mSub(m, me)
			case 3:
				what = "Minus from it"
				next, want = e.Minus(sum), mSub(me, m)
			case 4:
				what = "Multiply"
				f := []float64{-1, 2, 0.5, 1}[t.N(4)]
				next, want = sum.Multiply(f), mMul(m, mustDenote(sym.K(f)))
			}
		})
		if c != nil {
			t.Fail("accumulate:panic", "step %d, %s of %s: %v", i, what, show(e), c)
		}
		t.Logf("%s %s", what, show(e))
		cmpResult(t, "accumulate:"+what, next, want, func() string { return fmt.Sprintf("step %d: %s with %s of %s", i, show(sum), what, show(e)) })
		sum, m = next, want
		steps++
	}
	t.Label("about %d terms", m.totalTerms()/20*20)
	if steps >= 8 && m.totalTerms() >= 10 {
		t.NonTrivial()
	}
	var s sym.Expression
	if c := t.Try(func() { s = sum.AsSimplifiedExpression() }); c != nil {
		t.Fail("accumulate:simplify:panic", "simplifying %s: %v", show(sum), c)
	}
	cmpResult(t, "accumulate:simplify", s, m, func() string { return "simplifying " + show(sum) })
	if d := notCanonical(s); d != "" && !tinyTerms(s) {
		t.Fail("accumulate:canonical", "%s simplifies to %s: %s", show(sum), show(s), d)
	}
}

func init() {
	register(&Property{ID: "C21",
		Rule: "a case is a chain of 3..12 operations in which results feed later steps, or a sum built up in 10..50 steps, or one quantity computed along two routes; non-trivial when at least three steps were carried out and the end mentions a variable (sums: eight steps and ten terms; two routes: two variable occurrences)",
		Assume: []string{
			"results are bounded to 90 terms, degree 14 and coefficients of magnitude 1e14; steps beyond are skipped",
			"coefficients agree up to rounding relative to the magnitudes that were added up",
		},
		Families: []Family{
			{Name: "chain", Quick: 30000, Thorough: 700000, Rule: "every step against the reference computation, well-formed, in lowest terms at the end", Run: runChain},
			{Name: "accumulate", Quick: 1500, Thorough: 80000, Rule: "long sums, every step against the reference computation", Run: runAccumulate},
			{Name: "regroup", Quick: 40000, Thorough: 800000, Rule: "algebraically equal routes agree", Run: runRegroup},
		}})
}
