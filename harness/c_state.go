package main

// C23: results do not depend on what else runs at the same time.
// C24: results do not depend on what ran before.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// opsCase is a pool of values with shared storage and operations on them. It is a pure
// function of the choices it is drawn from.
type opsCase struct {
	p   *pool
	ops []*histOp
}

// buildOps draws a pool, performs up to three operations whose results join the pool, and
// draws further operations that are not performed yet.
func buildOps(t *T) *opsCase {
	p := newPool(t)
	for s := t.N(4); s > 0; s-- {
		op := p.step()
		if op == nil {
			continue
		}
		var res []interface{}
		t.Try(func() { res = op.call() })
		for _, r := range res {
			if _, ok := r.(obs); ok || r == nil || (isE(r) && termsOf(r) > 30) {
				continue
			}
			p.add(r, false)
		}
	}
	c := &opsCase{p: p}
	for s := t.Range(3, 8); s > 0; s-- {
		if op := p.step(); op != nil {
			c.ops = append(c.ops, op)
		}
	}
	return c
}

// rebuild draws the case again from the same choices, with fresh storage.
func rebuild(choices []uint64) (c *opsCase, why string) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(discard); ok {
				c, why = nil, d.why
				return
			}
			panic(r)
		}
	}()
	return buildOps(replayCase(choices)), ""
}

// perform executes one operation and renders everything it returned.
func perform(op *histOp) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "rejected"
		}
	}()
	return renderResults(op.call())
}

func renderResults(res []interface{}) string {
	var b strings.Builder
	for _, r := range res {
		fmt.Fprintf(&b, "%T %s\n", r, fingerprint(r, false))
	}
	return b.String()
}

func (op *histOp) describe() string {
	var an []string
	for _, a := range op.args {
		if a != nil {
			an = append(an, fmt.Sprintf("x%d", a.id))
		}
	}
	return fmt.Sprintf("%s(%s)", op.name, strings.Join(an, ", "))
}

func (c *opsCase) log(t *T) {
	used := map[int]bool{}
	for _, op := range c.ops {
		for _, a := range op.args {
			if a != nil && !used[a.id] {
				used[a.id] = true
				t.Logf("x%d = %s", a.id, showLive(a.v))
			}
		}
		t.Logf("%s", op.describe())
	}
}

// ---------------------------------------------------------------- C23

func runConcurrent(t *T) {
	c := buildOps(t)
	choices := append([]uint64(nil), t.rec...)
	c.log(t)
	if len(c.ops) == 0 {
		t.Discard("no operation")
	}
	workers := t.Range(2, 4)
	before := raceReports()
	outs := make([][]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			o := make([]string, len(c.ops))
			<-start
			for k := range c.ops {
				i := (k + g) % len(c.ops)
				if g%2 == 1 {
					i = (len(c.ops) - k + g) % len(c.ops)
				}
				o[i] = perform(c.ops[i])
			}
			outs[g] = o
		}(g)
	}
	close(start)
	wg.Wait()
	t.evals += workers * len(c.ops)
	if n := raceReports() - before; n > 0 {
		t.Fail("race", "%d data race(s) between operations on shared values:\n%s", n, raceText())
	}
	// the same calls one after the other, on values of their own
	d, why := rebuild(choices)
	if d == nil || len(d.ops) != len(c.ops) {
		t.Discard("not rebuilt " + why)
	}
	accepted, multi := 0, 0
	for i, op := range d.ops {
		want := perform(op)
		if want != "rejected" {
			accepted++
			if strings.ContainsAny(want, "MV") {
				multi++
			}
		}
		t.Label(opName(op.name))
		for g := range outs {
			if outs[g][i] != want {
				t.Fail("result:"+opName(op.name), "%s gives in one of %d concurrent goroutines\n%s\nand called alone\n%s", op.describe(), workers, trunc(outs[g][i], 1500), trunc(want, 1500))
			}
		}
	}
	for _, l := range c.p.live {
		if now := fingerprint(l.v, l.input); now != l.fp {
			t.Fail("mutated", "concurrent operations changed x%d\nbefore: %s\nafter:  %s", l.id, trunc(l.fp, 1500), trunc(now, 1500))
		}
	}
	if accepted >= 2 && multi >= 1 {
		t.NonTrivial()
	}
	t.Label("%d goroutines", workers)
}

// ---------------------------------------------------------------- C24

func compareOuts(t *T, key string, ops []*histOp, got, want []string, what string) {
	for i := range want {
		if got[i] != want[i] {
			t.Fail(key+":"+opName(ops[i].name), "%s gives\n%s\n%s it gives\n%s", ops[i].describe(), trunc(want[i], 1500), what, trunc(got[i], 1500))
		}
	}
}

func performAll(ops []*histOp, order []int) []string {
	o := make([]string, len(ops))
	for k := range ops {
		i := k
		if order != nil {
			i = order[k]
		}
		o[i] = perform(ops[i])
	}
	return o
}

// neighbour changes a few choices: a case that is nearly the same.
func neighbour(t *T, choices []uint64) []uint64 {
	c := append([]uint64(nil), choices...)
	for k := t.Range(1, 4); k > 0 && len(c) > 0; k-- {
		i := t.N(len(c))
		switch t.N(3) {
		case 0:
			c[i]++
		case 1:
			c[i] /= 2
		case 2:
			c[i] = uint64(t.N(97))
		}
	}
	return c
}

func runRepeat(t *T) {
	c := buildOps(t)
	choices := append([]uint64(nil), t.rec...)
	c.log(t)
	if len(c.ops) == 0 {
		t.Discard("no operation")
	}
	want := performAll(c.ops, nil)
	for i := range want {
		if want[i] != "rejected" {
			t.Label(opName(c.ops[i].name))
			t.NonTrivial()
		}
	}
	t.evals += 4 * len(c.ops)
	for k := t.Range(1, 3); k > 0; k-- {
		compareOuts(t, "again", c.ops, performAll(c.ops, nil), want, "and called again on the same values")
	}
	// other calls in between, on nearly the same values
	near := neighbour(t, choices)
	perm := t.Perm(len(c.ops))
	if n, _ := rebuild(near); n != nil {
		performAll(n.ops, nil)
		t.Label("neighbour")
	}
	d, why := rebuild(choices)
	if d == nil || len(d.ops) != len(c.ops) {
		t.Discard("not rebuilt " + why)
	}
	compareOuts(t, "order", d.ops, performAll(d.ops, perm), want, "and on equal values built afresh, after other calls and in another order,")
}

// solo computes one case in a process that has done nothing else (-mode solo).
func solo() {
	var in struct {
		Choices []uint64
		Reverse bool
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		die("%v", err)
	}
	var outs []string
	if c, _ := rebuild(in.Choices); c != nil {
		var order []int
		for i := range c.ops {
			if in.Reverse {
				i = len(c.ops) - 1 - i
			}
			order = append(order, i)
		}
		outs = performAll(c.ops, order)
	}
	json.NewEncoder(os.Stdout).Encode(outs)
}

func runFresh(t *T) {
	c := buildOps(t)
	choices := append([]uint64(nil), t.rec...)
	if len(c.ops) == 0 {
		t.Discard("no operation")
	}
	performAll(c.ops, nil)
	near := neighbour(t, choices)
	n, _ := rebuild(near)
	if n == nil || len(n.ops) == 0 {
		t.Discard("no neighbour")
	}
	n.log(t)
	here := performAll(n.ops, nil)
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	in, _ := json.Marshal(map[string]interface{}{"Choices": near, "Reverse": t.Bool()})
	cmd := exec.Command(self, "-mode", "solo")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	cmd.Stdin = bytes.NewReader(in)
	var buf, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &eb
	if err := cmd.Run(); err != nil {
		io.Copy(os.Stderr, &eb)
		die("solo process: %v", err)
	}
	var alone []string
	if err := json.Unmarshal(buf.Bytes(), &alone); err != nil || len(alone) != len(here) {
		die("solo process answered %q: %v", trunc(buf.String(), 200), err)
	}
	for i := range here {
		if here[i] != "rejected" {
			t.NonTrivial()
			t.Label(opName(n.ops[i].name))
		}
	}
	compareOuts(t, "history", n.ops, here, alone, "in a process of its own; in this process, after other calls,")
}

// ---------------------------------------------------------------- C09: what belongs to the caller

// overwrite fills a gonum object, a slice of operands or a map with other content; false
// when the value is something else.
func overwrite(x interface{}) bool {
	vec := func(v *mat.VecDense) {
		for i := 0; i < v.Len(); i++ {
			v.SetVec(i, 4242+float64(i))
		}
	}
	dense := func(m *mat.Dense) {
		r, c := m.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.Set(i, j, 4242+float64(10*i+j))
			}
		}
	}
	other := sym.K(4242)
	switch e := x.(type) {
	case mat.VecDense:
		vec(&e)
	case *mat.VecDense:
		vec(e)
	case mat.Dense:
		dense(&e)
	case *mat.Dense:
		dense(e)
	case []sym.ScalarExpression:
		for i := range e[:cap(e)] {
			e[:cap(e)][i] = other
		}
	case []sym.Constraint:
		for i := range e[:cap(e)] {
			e[:cap(e)][i] = sym.ScalarConstraint{LeftHandSide: other, RightHandSide: other, Sense: sym.SenseEqual}
		}
	case []sym.Variable:
		for i := range e[:cap(e)] {
			e[:cap(e)][i] = sym.Variable{ID: 4242, Lower: -1, Upper: 1, Name: "overwritten"}
		}
	case []uint64:
		for i := range e[:cap(e)] {
			e[:cap(e)][i] = 4242
		}
	case map[sym.Variable]sym.Expression:
		for k := range e {
			delete(e, k)
		}
	default:
		return false
	}
	return true
}

// amend changes parts of the values of a pool in place, the same ones for equal pools:
// the caller may assign to the entries of its own vectors and polynomials.
func amend(p *pool, seed int) (changed int) {
	state := uint64(seed)*2862933555777941757 + 3037000493
	next := func(n int) int {
		state = state*6364136223846793005 + 1442695040888963407
		return int(state>>33) % n
	}
	coef := func(c *float64) {
		*c = []float64{3, -2, 0, 1, 0.5, -*c, *c + 1}[next(7)]
		changed++
	}
	mono := func(m *sym.Monomial) {
		if k := next(3); k > 0 && len(m.Exponents) > 0 && len(m.Exponents) == len(m.VariableFactors) {
			i := next(len(m.Exponents))
			if k == 1 {
				m.Exponents[i] = next(3)
			} else {
				m.VariableFactors[i] = p.ce.absentVar()
			}
			changed++
			return
		}
		coef(&m.Coefficient)
	}
	poly := func(x *sym.Polynomial) {
		if len(x.Monomials) > 0 {
			mono(&x.Monomials[next(len(x.Monomials))])
		}
	}
	for _, l := range p.live {
		if next(3) == 0 {
			continue
		}
		switch e := l.v.(type) {
		case sym.Monomial:
			mono(&e) // exponents and variables; the coefficient is a copy
		case sym.Polynomial:
			poly(&e)
		case sym.KVector:
			if len(e) > 0 {
				e[next(len(e))] = sym.K(next(9) - 4)
				changed++
			}
		case sym.VariableVector:
			if len(e) > 0 {
				e[next(len(e))] = p.ce.vars[next(len(p.ce.vars))]
				changed++
			}
		case sym.MonomialVector:
			if len(e) > 0 {
				mono(&e[next(len(e))])
			}
		case sym.PolynomialVector:
			if len(e) > 0 {
				poly(&e[next(len(e))])
			}
		case sym.KMatrix:
			if len(e) > 0 && len(e[0]) > 0 {
				e[next(len(e))][next(len(e[0]))] = sym.K(next(9) - 4)
				changed++
			}
		case sym.VariableMatrix:
			if len(e) > 0 && len(e[0]) > 0 {
				e[next(len(e))][next(len(e[0]))] = p.ce.vars[next(len(p.ce.vars))]
				changed++
			}
		case sym.MonomialMatrix:
			if len(e) > 0 && len(e[0]) > 0 {
				mono(&e[next(len(e))][next(len(e[0]))])
			}
		case sym.PolynomialMatrix:
			if len(e) > 0 && len(e[0]) > 0 {
				poly(&e[next(len(e))][next(len(e[0]))])
			}
		case *mat.VecDense:
			if e.Len() > 0 {
				e.SetVec(next(e.Len()), float64(next(9)-4))
				changed++
			}
		case *mat.Dense:
			if r, c := e.Dims(); r*c > 0 {
				e.Set(next(r), next(c), float64(next(9)-4))
				changed++
			}
		}
	}
	return changed
}

// runAmend performs operations, changes the values in place and performs the operations
// again: the answers are those for values that were never used before the change.
func runAmend(t *T) {
	c := buildOps(t)
	choices := append([]uint64(nil), t.rec...)
	c.log(t)
	seed := t.N(1 << 20)
	if len(c.ops) == 0 {
		t.Discard("no operation")
	}
	performAll(c.ops, nil)
	n := amend(c.p, seed)
	t.Label("%d changes", min(n, 4))
	if n > 0 {
		t.NonTrivial()
	}
	t.evals += 3 * len(c.ops)
	got := performAll(c.ops, nil)
	d, why := rebuild(choices)
	if d == nil || len(d.ops) != len(c.ops) || len(d.p.live) != len(c.p.live) {
		t.Discard("not rebuilt " + why)
	}
	amend(d.p, seed)
	compareOuts(t, "amended", c.ops, got, performAll(d.ops, nil), "and called again after the caller changed the values in place (expected: the answer for values not used before the change)")
}

func cloneMono(m sym.Monomial) sym.Monomial {
	return sym.Monomial{Coefficient: m.Coefficient, VariableFactors: append([]sym.Variable(nil), m.VariableFactors...), Exponents: append([]int(nil), m.Exponents...)}
}

func clonePoly(x sym.Polynomial) (o sym.Polynomial) {
	for _, m := range x.Monomials {
		o.Monomials = append(o.Monomials, cloneMono(m))
	}
	return o
}

// cloneExpr copies an expression into storage of its own, without the library.
func cloneExpr(x sym.Expression) sym.Expression {
	switch e := x.(type) {
	case sym.Monomial:
		return cloneMono(e)
	case sym.Polynomial:
		return clonePoly(e)
	case sym.KVector:
		return append(sym.KVector(nil), e...)
	case sym.VariableVector:
		return append(sym.VariableVector(nil), e...)
	case sym.MonomialVector:
		var o sym.MonomialVector
		for _, m := range e {
			o = append(o, cloneMono(m))
		}
		return o
	case sym.PolynomialVector:
		var o sym.PolynomialVector
		for _, m := range e {
			o = append(o, clonePoly(m))
		}
		return o
	case sym.KMatrix:
		var o sym.KMatrix
		for _, r := range e {
			o = append(o, append([]sym.K(nil), r...))
		}
		return o
	case sym.VariableMatrix:
		var o sym.VariableMatrix
		for _, r := range e {
			o = append(o, append([]sym.Variable(nil), r...))
		}
		return o
	case sym.MonomialMatrix:
		var o sym.MonomialMatrix
		for _, r := range e {
			var row []sym.Monomial
			for _, m := range r {
				row = append(row, cloneMono(m))
			}
			o = append(o, row)
		}
		return o
	case sym.PolynomialMatrix:
		var o sym.PolynomialMatrix
		for _, r := range e {
			var row []sym.Polynomial
			for _, m := range r {
				row = append(row, clonePoly(m))
			}
			o = append(o, row)
		}
		return o
	}
	return x
}

type reply struct{ name, out string }

// askAll asks one expression everything.
func askAll(t *T, ce *CE, x, partner sym.Expression, v sym.Variable, rep sym.ScalarExpression, i, j int) (o []reply) {
	ask := func(name string, f func() interface{}) {
		a := reply{name: name, out: "rejected"}
		if c := t.Try(func() {
			r := f()
			if s, ok := r.(string); ok {
				a.out = s
			} else {
				a.out = fingerprint(r, false)
			}
		}); c != nil {
			a.out = "rejected"
		}
		o = append(o, a)
	}
	ask("Check", func() interface{} { return fmt.Sprint(x.Check()) })
	ask("Variables", func() interface{} { return x.Variables() })
	ask("Dims", func() interface{} { return fmt.Sprint(x.Dims()) })
	ask("String", func() interface{} { return x.String() })
	if y, ok := x.(interface{ Degree() int }); ok {
		ask("Degree", func() interface{} { return fmt.Sprint(y.Degree()) })
	}
	if y, ok := x.(interface{ IsConstant() bool }); ok {
		ask("IsConstant", func() interface{} { return fmt.Sprint(y.IsConstant()) })
	}
	switch y := x.(type) {
	case interface{ Constant() float64 }:
		ask("Constant", func() interface{} { return fmt.Sprint(y.Constant()) })
	case interface{ Constant() mat.VecDense }:
		ask("Constant", func() interface{} { c := y.Constant(); return fmt.Sprint(c.RawVector().Data) })
	case interface{ Constant() mat.Dense }:
		ask("Constant", func() interface{} { c := y.Constant(); return fmt.Sprint(c.RawMatrix().Data) })
	}
	switch y := x.(type) {
	case interface {
		LinearCoeff(...[]sym.Variable) mat.VecDense
	}:
		ask("LinearCoeff", func() interface{} { c := y.LinearCoeff(ce.vars); return fmt.Sprint(c.RawVector().Data) })
	case interface {
		LinearCoeff(...[]sym.Variable) mat.Dense
	}:
		ask("LinearCoeff", func() interface{} { c := y.LinearCoeff(ce.vars); return fmt.Sprint(c.RawMatrix().Data) })
	}
	ask("IsLinear", func() interface{} { return fmt.Sprint(sym.IsLinear(x.(sym.PolynomialLike))) })
	ask("IsQuadratic", func() interface{} { return fmt.Sprint(sym.IsQuadratic(x.(sym.PolynomialLike))) })
	ask("AsSimplifiedExpression", func() interface{} { return x.AsSimplifiedExpression() })
	if mustDenote(cloneExpr(x)).totalTerms() > 60 {
		return o
	}
	ask("DerivativeWrt", func() interface{} { return x.DerivativeWrt(v) })
	ask("Transpose", func() interface{} { return x.Transpose() })
	ask("At", func() interface{} { return x.At(i, j) })
	ask("Plus", func() interface{} { return x.Plus(partner) })
	ask("Minus", func() interface{} { return partner.Minus(x) })
	ask("Multiply", func() interface{} { return x.Multiply(2.0) })
	ask("Multiply variable", func() interface{} { return x.Multiply(v) })
	ask("Substitute", func() interface{} { return x.Substitute(v, rep) })
	ask("SubstituteAccordingTo", func() interface{} {
		return x.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: rep})
	})
	ask("LessEq", func() interface{} { return x.LessEq(partner) })
	ask("constraint", func() interface{} { return x.Eq(partner).AsSimplifiedConstraint() })
	if p, ok := x.(sym.Polynomial); ok {
		ask("ConstantMonomialIndex", func() interface{} { return fmt.Sprint(p.ConstantMonomialIndex()) })
		ask("VariableMonomialIndex", func() interface{} { return fmt.Sprint(p.VariableMonomialIndex(v)) })
		ask("Copy", func() interface{} { return p.Copy() })
	}
	return o
}

// runAsked asks one expression everything, changes it in place, and asks again: the
// answers are those of an equal expression that was never asked before. Part of an
// expression (its first terms or entries) answers for itself, too.
func runAsked(t *T) {
	ce := newCE(t)
	ce.alias = true
	if t.P(1, 6) {
		ce.big = []int{bigTerms, bigTerms, bigWidth, bigShape}[t.N(4)]
	}
	x := ce.expr()
	m := mustDenote(x)
	if m.totalTerms() > 120 || m.degree() > 60 {
		t.Discard("too large")
	}
	partner := ce.withShape(m.r, m.c, kindOf(x).level())
	v := ce.anyVar()
	rep := []sym.ScalarExpression{sym.K(2), sym.K(0), sym.K(-1), ce.anyVar()}[t.N(4)]
	i, j := t.N(m.r), t.N(m.c)
	seed := t.N(1 << 20)
	t.Logf("%s with %s, v%d", show(x), show(partner), v.ID)
	t.Label("kind %s", kindOf(x))
	askAll(t, ce, x, partner, v, rep, i, j)
	var y sym.Expression
	how := "changed in place"
	switch t.N(3) {
	case 0, 1:
		p := &pool{t: t, ce: ce, live: []*live{{v: x}, {v: x}, {v: x}}}
		if amend(p, seed) == 0 {
			t.Discard("nothing to change")
		}
		y = x
	case 2:
		how = "cut short"
		y = firstPart(x, 1+t.N(8))
		if y == nil {
			t.Discard("nothing to cut")
		}
		if kindOf(x).level() > 0 {
			r := y.Dims()[0]
			partner = ce.withShape(r, m.c, kindOf(x).level())
			i = t.N(r)
		}
	}
	t.Label("%s", how)
	t.NonTrivial()
	t.Logf("%s: %s", how, safeShow(y))
	z := cloneExpr(y)
	got := askAll(t, ce, y, partner, v, rep, i, j)
	want := askAll(t, ce, z, partner, v, rep, i, j)
	for k := range want {
		if got[k].out != want[k].out {
			t.Fail("asked:"+want[k].name, "%s of %s, asked before the expression was %s, gives\n%s\na copy of it gives\n%s", want[k].name, safeShow(y), how, trunc(got[k].out, 1500), trunc(want[k].out, 1500))
		}
	}
}

// firstPart is an expression of the first terms, entries or rows, in the same storage.
func firstPart(x sym.Expression, drop int) sym.Expression {
	cut := func(n int) int { return n - 1 - drop%max(n-1, 1) }
	switch e := x.(type) {
	case sym.Polynomial:
		if n := len(e.Monomials); n > 1 {
			return sym.Polynomial{Monomials: e.Monomials[:max(cut(n), 1)]}
		}
	case sym.KVector:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.VariableVector:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.MonomialVector:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.PolynomialVector:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.KMatrix:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.VariableMatrix:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.MonomialMatrix:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	case sym.PolynomialMatrix:
		if n := len(e); n > 1 {
			return e[:max(cut(n), 1)]
		}
	}
	return nil
}

// runOwnership performs operations and then overwrites, one after the other, the gonum
// objects, operand slices and maps that went in or came out.
func runOwnership(t *T) {
	c := buildOps(t)
	choices := append([]uint64(nil), t.rec...)
	c.log(t)
	type thing struct {
		what string
		v    interface{}
		fp   string
	}
	var all []*thing
	want := make([]string, len(c.ops))
	for i, op := range c.ops {
		var res []interface{}
		if cc := t.Try(func() { res = op.call() }); cc != nil {
			want[i] = "rejected"
			continue
		}
		want[i] = renderResults(res)
		for _, r := range res {
			if _, ok := r.(obs); !ok && r != nil {
				all = append(all, &thing{"the result of " + op.describe(), r, fingerprint(r, false)})
			}
		}
	}
	for _, l := range c.p.live {
		all = append(all, &thing{fmt.Sprintf("x%d", l.id), l.v, fingerprint(l.v, false)})
	}
	n := 0
	for _, o := range all {
		if isVars(o.v) && strings.HasPrefix(o.what, "x") {
			continue // shares its storage with other operands on purpose
		}
		if !overwrite(o.v) {
			continue
		}
		n++
		t.Label("overwrites %T", o.v)
		o.fp = fingerprint(o.v, false)
		for _, x := range all {
			if now := fingerprint(x.v, false); now != x.fp {
				t.Fail("ownership", "overwriting %s (a %T) changes %s\nbefore: %s\nafter:  %s", o.what, o.v, x.what, trunc(x.fp, 1500), trunc(now, 1500))
			}
		}
	}
	if n > 0 {
		t.NonTrivial()
	}
	d, why := rebuild(choices)
	if d == nil || len(d.ops) != len(c.ops) {
		t.Discard("not rebuilt " + why)
	}
	compareOuts(t, "ownership", d.ops, performAll(d.ops, nil), want, "and on equal values built afresh, after the caller overwrote earlier results,")
}

func init() {
	register(&Property{ID: "C23",
		Rule: "a case is a pool of values that share storage and 3..8 operations on them, all performed by 2 to 4 goroutines at once in different orders; the race detector watches, every result is compared with the same call made alone on values built afresh, every operand with its snapshot; non-trivial when at least two operations are accepted and one returns something with variables",
		Assume: []string{
			"creating variables (which changes an environment) is not among the concurrent operations",
			"the schedules are those the Go scheduler happens to produce; the race detector reports conflicting accesses that no synchronisation orders, whether or not they collide in time",
		},
		Families: []Family{
			{Name: "concurrent", Quick: 4000, Thorough: 120000, Rule: "race detector and comparison with the sequential results", Run: runConcurrent},
		}})
	register(&Property{ID: "C24",
		Rule: "a case is a pool of values and 3..8 operations on them; each is performed again, in another order on equal values built afresh after calls on nearly equal values (repeat), and in a process that has made no other call (fresh); kind, content, order and text of every result must be the same; non-trivial when some operation is accepted",
		Families: []Family{
			{Name: "repeat", Quick: 20000, Thorough: 600000, Rule: "repeated, reordered, interleaved with other calls", Run: runRepeat},
			{Name: "amended", Quick: 15000, Thorough: 400000, Rule: "again after the caller changed the values in place", Run: runAmend},
			{Name: "asked", Quick: 20000, Thorough: 500000, Rule: "one expression asked everything before and after a change in place or a cut", Run: runAsked},
			{Name: "fresh", Quick: 2000, Thorough: 60000, Rule: "against a process of its own", Run: runFresh},
		}})
}
