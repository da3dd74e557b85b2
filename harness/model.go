package main

// Reference model: a matrix of polynomials with real coefficients, kept as maps
// from canonical exponent vectors to coefficients. Independent of the library:
// it only reads the library's exported data fields (denote) and never calls its
// algorithms.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

type pair struct {
	v uint64
	e int
}

type term struct {
	c    float64
	mass float64 // sum of absolute contributions, for tolerances
	ex   []pair  // sorted by variable, no zero exponents
}

// Poly maps canonical keys to terms. Terms that cancel stay with c == 0 and mass > 0.
type Poly map[string]term

func keyOf(ex []pair) string {
	var b strings.Builder
	for _, p := range ex {
		fmt.Fprintf(&b, "%d^%d,", p.v, p.e)
	}
	return b.String()
}

func canon(ex []pair) []pair {
	m := map[uint64]int{}
	for _, p := range ex {
		m[p.v] += p.e
	}
	out := make([]pair, 0, len(m))
	for v, e := range m {
		if e != 0 {
			out = append(out, pair{v, e})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].v < out[j].v })
	return out
}

func (p Poly) add(ex []pair, c, mass float64) {
	k := keyOf(ex)
	t := p[k]
	t.c += c
	t.mass += mass
	t.ex = ex
	p[k] = t
}

func pConst(c float64) Poly {
	p := Poly{}
	p.add(nil, c, math.Abs(c))
	return p
}

func pVar(v uint64) Poly {
	p := Poly{}
	p.add([]pair{{v, 1}}, 1, 1)
	return p
}

func pAdd(a, b Poly) Poly {
	o := Poly{}
	for _, t := range a {
		o.add(t.ex, t.c, t.mass)
	}
	for _, t := range b {
		o.add(t.ex, t.c, t.mass)
	}
	return o
}

func pScale(a Poly, s float64) Poly {
	o := Poly{}
	for _, t := range a {
		o.add(t.ex, t.c*s, t.mass*math.Abs(s))
	}
	return o
}

func pSub(a, b Poly) Poly { return pAdd(a, pScale(b, -1)) }

func mergeEx(a, b []pair) []pair {
	out := make([]pair, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].v < b[j].v:
			out = append(out, a[i])
			i++
		case a[i].v > b[j].v:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, pair{a[i].v, e})
			}
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

// pMul iterates in sorted key order so that rounding is deterministic.
func pMul(a, b Poly) Poly {
	o := Poly{}
	ka, kb := a.keys(), b.keys()
	for _, x := range ka {
		ta := a[x]
		for _, y := range kb {
			tb := b[y]
			o.add(mergeEx(ta.ex, tb.ex), ta.c*tb.c, ta.mass*tb.mass)
		}
	}
	return o
}

func (p Poly) keys() []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func pPow(a Poly, n int) Poly {
	o := pConst(1)
	for i := 0; i < n; i++ {
		o = pMul(o, a)
	}
	return o
}

func pDiff(a Poly, v uint64) Poly {
	o := Poly{}
	for _, k := range a.keys() {
		t := a[k]
		for i, p := range t.ex {
			if p.v == v {
				ex := append([]pair(nil), t.ex...)
				ex[i].e--
				o.add(canon(ex), t.c*float64(p.e), t.mass*math.Abs(float64(p.e)))
			}
		}
	}
	return o
}

// pSubst substitutes all variables of the map simultaneously.
func pSubst(a Poly, m map[uint64]Poly) Poly {
	o := Poly{}
	for _, k := range a.keys() {
		t := a[k]
		acc := Poly{}
		acc.add(nil, t.c, t.mass)
		for _, p := range t.ex {
			if r, ok := m[p.v]; ok {
				acc = pMul(acc, pPow(r, p.e))
			} else {
				q := Poly{}
				q.add([]pair{p}, 1, 1)
				acc = pMul(acc, q)
			}
		}
		o = pAdd(o, acc)
	}
	return o
}

func (p Poly) eval(at map[uint64]float64) (val, mass float64) {
	for _, k := range p.keys() {
		t := p[k]
		v, m := t.c, t.mass
		for _, q := range t.ex {
			x := math.Pow(at[q.v], float64(q.e))
			v *= x
			m *= math.Abs(x)
		}
		val += v
		mass += m
	}
	return
}

func (p Poly) constant() (float64, float64) {
	t := p[""]
	return t.c, t.mass
}

// linear is the coefficient (and mass) of the degree-one term of v.
func (p Poly) linear(v uint64) (float64, float64) {
	t := p[keyOf([]pair{{v, 1}})]
	return t.c, t.mass
}

const relTol = 1e-11

func nz(t term) bool { return math.Abs(t.c) > relTol*t.mass }

// degree of the polynomial ignoring terms that vanish
func (p Poly) degree() int {
	d := 0
	for _, t := range p {
		if !nz(t) {
			continue
		}
		s := 0
		for _, q := range t.ex {
			s += q.e
		}
		if s > d {
			d = s
		}
	}
	return d
}

func (p Poly) vars() map[uint64]bool {
	m := map[uint64]bool{}
	for _, t := range p {
		if nz(t) {
			for _, q := range t.ex {
				m[q.v] = true
			}
		}
	}
	return m
}

func (p Poly) isZero() bool {
	for _, t := range p {
		if nz(t) {
			return false
		}
	}
	return true
}

func (p Poly) nterms() int {
	n := 0
	for _, t := range p {
		if nz(t) {
			n++
		}
	}
	return n
}

func nearly(got, want, mass float64) bool {
	if got == want {
		return true
	}
	if !(mass < 1e290) {
		return true // at the edge of what a float64 holds nothing is judged
	}
	if math.IsNaN(got) || math.IsNaN(want) || math.IsInf(got, 0) || math.IsInf(want, 0) {
		return false
	}
	return math.Abs(got-want) <= relTol*mass+1e-290
}

// pDiffers compares got with want; the tolerance comes from want's mass.
func pDiffers(got, want Poly) string {
	ks := map[string]bool{}
	for k := range got {
		ks[k] = true
	}
	for k := range want {
		ks[k] = true
	}
	var kk []string
	for k := range ks {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		g, w := got[k], want[k]
		if !nearly(g.c, w.c, w.mass) {
			ex := w.ex
			if ex == nil {
				ex = g.ex
			}
			return fmt.Sprintf("coefficient of %s is %v, expected %v", exString(ex), g.c, w.c)
		}
	}
	return ""
}

func exString(ex []pair) string {
	if len(ex) == 0 {
		return "1"
	}
	var s []string
	for _, p := range ex {
		if p.e == 1 {
			s = append(s, fmt.Sprintf("v%d", p.v))
		} else {
			s = append(s, fmt.Sprintf("v%d^%d", p.v, p.e))
		}
	}
	return strings.Join(s, "*")
}

func (p Poly) String() string {
	var s []string
	for _, k := range p.keys() {
		t := p[k]
		if t.c == 0 {
			continue
		}
		if k == "" {
			s = append(s, fmt.Sprintf("%v", t.c))
		} else {
			s = append(s, fmt.Sprintf("%v*%s", t.c, exString(t.ex)))
		}
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

// ---------------------------------------------------------------- matrices

type Mat struct {
	r, c int
	e    []Poly
}

func newMat(r, c int) Mat {
	m := Mat{r, c, make([]Poly, r*c)}
	for i := range m.e {
		m.e[i] = Poly{}
	}
	return m
}

func (m Mat) at(i, j int) Poly { return m.e[i*m.c+j] }

func scalarMat(p Poly) Mat { return Mat{1, 1, []Poly{p}} }

func (m Mat) isScalar() bool { return m.r == 1 && m.c == 1 }

func (m Mat) String() string {
	if m.isScalar() {
		return m.e[0].String()
	}
	var rows []string
	for i := 0; i < m.r; i++ {
		var es []string
		for j := 0; j < m.c; j++ {
			es = append(es, m.at(i, j).String())
		}
		rows = append(rows, "["+strings.Join(es, ", ")+"]")
	}
	return fmt.Sprintf("%dx%d{%s}", m.r, m.c, strings.Join(rows, " "))
}

// spread expands a scalar to r x c.
func (m Mat) spread(r, c int) Mat {
	if m.isScalar() && !(r == 1 && c == 1) {
		o := newMat(r, c)
		for i := range o.e {
			o.e[i] = m.e[0]
		}
		return o
	}
	return m
}

func addDefined(a, b Mat) bool {
	return a.isScalar() || b.isScalar() || (a.r == b.r && a.c == b.c)
}

func mBin(a, b Mat, f func(x, y Poly) Poly) Mat {
	a = a.spread(b.r, b.c)
	b = b.spread(a.r, a.c)
	o := newMat(a.r, a.c)
	for i := range o.e {
		o.e[i] = f(a.e[i], b.e[i])
	}
	return o
}

func mAdd(a, b Mat) Mat { return mBin(a, b, pAdd) }
func mSub(a, b Mat) Mat { return mBin(a, b, pSub) }

func mulDefined(a, b Mat) bool { return a.isScalar() || b.isScalar() || a.c == b.r }

func mMul(a, b Mat) Mat {
	if a.c == b.r {
		o := newMat(a.r, b.c)
		for i := 0; i < a.r; i++ {
			for j := 0; j < b.c; j++ {
				acc := Poly{}
				for k := 0; k < a.c; k++ {
					acc = pAdd(acc, pMul(a.at(i, k), b.at(k, j)))
				}
				o.e[i*o.c+j] = acc
			}
		}
		return o
	}
	return mBin(a, b, pMul) // one of them is scalar
}

func mEye(n int) Mat {
	o := newMat(n, n)
	for i := 0; i < n; i++ {
		o.e[i*n+i] = pConst(1)
	}
	return o
}

func mPow(a Mat, n int) Mat {
	o := mEye(a.r)
	for i := 0; i < n; i++ {
		o = mMul(o, a)
	}
	return o
}

func mT(a Mat) Mat {
	o := newMat(a.c, a.r)
	for i := 0; i < a.r; i++ {
		for j := 0; j < a.c; j++ {
			o.e[j*o.c+i] = a.at(i, j)
		}
	}
	return o
}

func mMap(a Mat, f func(Poly) Poly) Mat {
	o := newMat(a.r, a.c)
	for i := range a.e {
		o.e[i] = f(a.e[i])
	}
	return o
}

func mDiffers(got, want Mat) string {
	if got.r != want.r || got.c != want.c {
		return fmt.Sprintf("dimensions are %dx%d, expected %dx%d", got.r, got.c, want.r, want.c)
	}
	for i := 0; i < got.r; i++ {
		for j := 0; j < got.c; j++ {
			if d := pDiffers(got.at(i, j), want.at(i, j)); d != "" {
				return fmt.Sprintf("entry (%d,%d): %s", i, j, d)
			}
		}
	}
	return ""
}

func (m Mat) degree() int {
	d := 0
	for _, p := range m.e {
		if x := p.degree(); x > d {
			d = x
		}
	}
	return d
}

func (m Mat) vars() map[uint64]bool {
	o := map[uint64]bool{}
	for _, p := range m.e {
		for v := range p.vars() {
			o[v] = true
		}
	}
	return o
}

func (m Mat) totalTerms() int {
	n := 0
	for _, p := range m.e {
		n += len(p)
	}
	return n
}

func (m Mat) isZero() bool {
	for _, p := range m.e {
		if !p.isZero() {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- denotation

func denoteMonomial(m sym.Monomial) (Poly, error) {
	if len(m.Exponents) != len(m.VariableFactors) {
		return nil, fmt.Errorf("malformed monomial: %d exponents, %d variables", len(m.Exponents), len(m.VariableFactors))
	}
	var ex []pair
	for i, v := range m.VariableFactors {
		if m.Exponents[i] < 0 && m.Coefficient != 0 {
			return nil, fmt.Errorf("malformed monomial: negative exponent %d of %s", m.Exponents[i], v.Name)
		}
		ex = append(ex, pair{v.ID, m.Exponents[i]})
	}
	p := Poly{}
	if m.Coefficient == 0 {
		return p, nil
	}
	p.add(canon(ex), m.Coefficient, math.Abs(m.Coefficient))
	return p, nil
}

func denotePolynomial(q sym.Polynomial) (Poly, error) {
	if len(q.Monomials) == 0 {
		return nil, fmt.Errorf("malformed polynomial: no monomials")
	}
	p := Poly{}
	for _, m := range q.Monomials {
		x, err := denoteMonomial(m)
		if err != nil {
			return nil, err
		}
		for _, t := range x {
			p.add(t.ex, t.c, t.mass)
		}
	}
	return p, nil
}

func matOf(r, c int, at func(i, j int) (Poly, error)) (Mat, error) {
	if r == 0 || c == 0 {
		return Mat{}, fmt.Errorf("empty matrix %dx%d", r, c)
	}
	o := newMat(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			p, err := at(i, j)
			if err != nil {
				return Mat{}, fmt.Errorf("entry (%d,%d): %w", i, j, err)
			}
			o.e[i*c+j] = p
		}
	}
	return o, nil
}

func rectCols(n int, rowLen func(i int) int) (int, error) {
	if n == 0 {
		return 0, fmt.Errorf("empty matrix")
	}
	c := rowLen(0)
	for i := 1; i < n; i++ {
		if rowLen(i) != c {
			return 0, fmt.Errorf("ragged matrix: row %d has %d entries, row 0 has %d", i, rowLen(i), c)
		}
	}
	return c, nil
}

// denote reads the polynomial matrix that a value stands for.
func denote(x interface{}) (Mat, error) {
	sc := func(p Poly, err error) (Mat, error) {
		if err != nil {
			return Mat{}, err
		}
		return scalarMat(p), nil
	}
	switch e := x.(type) {
	case nil:
		return Mat{}, fmt.Errorf("nil expression")
	case float64:
		return scalarMat(pConst(e)), nil
	case int:
		return scalarMat(pConst(float64(e))), nil
	case sym.K:
		return scalarMat(pConst(float64(e))), nil
	case sym.Variable:
		return scalarMat(pVar(e.ID)), nil
	case sym.Monomial:
		return sc(denoteMonomial(e))
	case sym.Polynomial:
		return sc(denotePolynomial(e))
	case sym.KVector:
		return matOf(len(e), 1, func(i, j int) (Poly, error) { return pConst(float64(e[i])), nil })
	case sym.VariableVector:
		return matOf(len(e), 1, func(i, j int) (Poly, error) { return pVar(e[i].ID), nil })
	case sym.MonomialVector:
		return matOf(len(e), 1, func(i, j int) (Poly, error) { return denoteMonomial(e[i]) })
	case sym.PolynomialVector:
		return matOf(len(e), 1, func(i, j int) (Poly, error) { return denotePolynomial(e[i]) })
	case sym.KMatrix:
		c, err := rectCols(len(e), func(i int) int { return len(e[i]) })
		if err != nil {
			return Mat{}, err
		}
		return matOf(len(e), c, func(i, j int) (Poly, error) { return pConst(float64(e[i][j])), nil })
	case sym.VariableMatrix:
		c, err := rectCols(len(e), func(i int) int { return len(e[i]) })
		if err != nil {
			return Mat{}, err
		}
		return matOf(len(e), c, func(i, j int) (Poly, error) { return pVar(e[i][j].ID), nil })
	case sym.MonomialMatrix:
		c, err := rectCols(len(e), func(i int) int { return len(e[i]) })
		if err != nil {
			return Mat{}, err
		}
		return matOf(len(e), c, func(i, j int) (Poly, error) { return denoteMonomial(e[i][j]) })
	case sym.PolynomialMatrix:
		c, err := rectCols(len(e), func(i int) int { return len(e[i]) })
		if err != nil {
			return Mat{}, err
		}
		return matOf(len(e), c, func(i, j int) (Poly, error) { return denotePolynomial(e[i][j]) })
	case mat.VecDense:
		return matOf(e.Len(), 1, func(i, j int) (Poly, error) { return pConst(e.AtVec(i)), nil })
	case *mat.VecDense:
		return matOf(e.Len(), 1, func(i, j int) (Poly, error) { return pConst(e.AtVec(i)), nil })
	case mat.Dense:
		r, c := e.Dims()
		return matOf(r, c, func(i, j int) (Poly, error) { return pConst(e.At(i, j)), nil })
	case *mat.Dense:
		r, c := e.Dims()
		return matOf(r, c, func(i, j int) (Poly, error) { return pConst(e.At(i, j)), nil })
	}
	return Mat{}, fmt.Errorf("unknown expression type %T", x)
}

func mustDenote(x interface{}) Mat {
	m, err := denote(x)
	if err != nil {
		panic(fmt.Sprintf("harness: generated a malformed value: %v (%s)", err, show(x)))
	}
	return m
}

// ---------------------------------------------------------------- rendering

func showMonomial(m sym.Monomial) string {
	var s []string
	s = append(s, fmt.Sprintf("%v", m.Coefficient))
	for i := range m.VariableFactors {
		e := "?"
		if i < len(m.Exponents) {
			e = fmt.Sprint(m.Exponents[i])
		}
		s = append(s, fmt.Sprintf("v%d^%s", m.VariableFactors[i].ID, e))
	}
	if len(m.Exponents) > len(m.VariableFactors) {
		s = append(s, fmt.Sprintf("(extra exponents %v)", m.Exponents[len(m.VariableFactors):]))
	}
	return strings.Join(s, "*")
}

func showPolynomial(p sym.Polynomial) string {
	var s []string
	for _, m := range p.Monomials {
		s = append(s, showMonomial(m))
	}
	return "(" + strings.Join(s, " + ") + ")"
}

// show renders a value without calling library methods.
func show(x interface{}) string {
	list := func(n int, f func(i int) string) string {
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, f(i))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	switch e := x.(type) {
	case nil:
		return "nil"
	case sym.K:
		return fmt.Sprintf("K %v", float64(e))
	case sym.Variable:
		return fmt.Sprintf("Var v%d", e.ID)
	case sym.Monomial:
		return "Mon " + showMonomial(e)
	case sym.Polynomial:
		return "Pol " + showPolynomial(e)
	case sym.KVector:
		return "KVec " + list(len(e), func(i int) string { return fmt.Sprint(float64(e[i])) })
	case sym.VariableVector:
		return "VarVec " + list(len(e), func(i int) string { return fmt.Sprintf("v%d", e[i].ID) })
	case sym.MonomialVector:
		return "MonVec " + list(len(e), func(i int) string { return showMonomial(e[i]) })
	case sym.PolynomialVector:
		return "PolVec " + list(len(e), func(i int) string { return showPolynomial(e[i]) })
	case sym.KMatrix:
		return "KMat " + list(len(e), func(i int) string {
			return list(len(e[i]), func(j int) string { return fmt.Sprint(float64(e[i][j])) })
		})
	case sym.VariableMatrix:
		return "VarMat " + list(len(e), func(i int) string {
			return list(len(e[i]), func(j int) string { return fmt.Sprintf("v%d", e[i][j].ID) })
		})
	case sym.MonomialMatrix:
		return "MonMat " + list(len(e), func(i int) string {
			return list(len(e[i]), func(j int) string { return showMonomial(e[i][j]) })
		})
	case sym.PolynomialMatrix:
		return "PolMat " + list(len(e), func(i int) string {
			return list(len(e[i]), func(j int) string { return showPolynomial(e[i][j]) })
		})
	case mat.VecDense, *mat.VecDense, mat.Dense, *mat.Dense:
		m, err := denote(x)
		if err != nil {
			return fmt.Sprintf("%T(%v)", x, err)
		}
		return fmt.Sprintf("%T %s", x, m)
	case sym.ScalarConstraint:
		return fmt.Sprintf("Constr{%s  %c  %s}", show(e.LeftHandSide), e.Sense, show(e.RightHandSide))
	case sym.VectorConstraint:
		return fmt.Sprintf("VecConstr{%s  %c  %s}", show(e.LeftHandSide), e.Sense, show(e.RightHandSide))
	case sym.MatrixConstraint:
		return fmt.Sprintf("MatConstr{%s  %c  %s}", show(e.LeftHandSide), e.Sense, show(e.RightHandSide))
	}
	return fmt.Sprintf("%T(%v)", x, x)
}
