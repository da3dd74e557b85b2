package main

// Generators of well-formed expressions of every kind and shape.

import (
	"fmt"
	"math"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// CE is the environment of one case.
type CE struct {
	t       *T
	env     *sym.BasicEnvironment
	env2    *sym.BasicEnvironment
	vars    []sym.Variable // all distinct identifiers
	retouch bool           // occurrences of a variable differ in name, bounds or type
	raw     bool           // polynomials may be unsimplified (duplicates, permuted, zero terms)
	zeroEx  bool           // monomials may carry zero exponents
	alias   bool           // slices may share storage and have spare capacity
	odd     bool           // names hold operators, spaces and verbs
	wild    bool           // nothing is multiplied: coefficients of any magnitude
	small   bool           // keep sizes small (results feed into expensive operations)
	intish  bool           // only small integer coefficients
	dyadic  bool           // only short binary fractions: sums and products of a few are exact
	pool    []sym.Variable // backing store for aliased variable slices
	epool   []int
	kpool   []sym.K
	mpool   []sym.Monomial
	maxExp  int
	tall    bool           // no operation of the case expands powers: exponents may be huge
	digits  bool           // identifiers and exponents made of few digits
	big     int            // one dimension in which this case is larger than usual
	also    int            // now and then a second one
	seen    []sym.Monomial // monomials drawn so far; later ones may share their variables
}

// Dimensions in which a case can be larger than usual.
const (
	bigNone = iota
	bigVars
	bigWidth
	bigShape
	bigTerms
	bigExp
)

// is tells whether the case is larger than usual in the dimension b.
func (ce *CE) is(b int) bool { return ce.big == b || ce.also == b }

// dim draws a dimension of a shape.
func (ce *CE) dim(lo, hi int) int {
	if !ce.small && ce.t.P(1, 25) {
		return hi + ce.t.Range(1, 2)
	}
	if ce.is(bigShape) && !ce.small && ce.t.P(1, 2) {
		return hi + ce.t.Range(1, 5)
	}
	return ce.t.Range(lo, hi)
}

func newCE(t *T) *CE {
	e := sym.MakeBasicEnvironment("case")
	e2 := sym.MakeBasicEnvironment("other")
	ce := &CE{t: t, env: &e, env2: &e2, raw: true, maxExp: 4}
	ce.big = t.W(36, 1, 1, 1, 1, 1)
	if ce.big != bigNone && t.P(1, 3) {
		ce.also = t.Range(bigVars, bigExp)
		if ce.is(bigTerms) && (ce.is(bigShape) || ce.is(bigWidth)) {
			ce.also = bigNone // sums, let alone products, of such terms take seconds
		}
	}
	n := t.Range(1, 5)
	if ce.is(bigVars) || ce.is(bigWidth) {
		n = t.Range(6, 12)
		if ce.is(bigVars) && t.P(1, 3) {
			n = t.Range(13, 40)
		}
	}
	style := t.W(12, 4, 4, 2, 2, 2, 1)
	ce.digits = style == 6
	var few []int
	if ce.digits {
		few = t.Perm(len(fewDigits))
		n = min(max(n, 3), len(fewDigits))
	}
	for i := 0; i < n; i++ {
		var v sym.Variable
		switch style {
		case 0: // created through the API
			if t.P(1, 6) {
				v = sym.NewBinaryVariable(ce.env)
			} else {
				v = sym.NewContinuousVariable(ce.env)
			}
		case 1: // hand-made, sparse identifiers, own names
			v = sym.Variable{ID: uint64(7 + 13*i), Lower: -10, Upper: 10 + float64(i), Type: sym.Continuous, Name: ownName(i), Environment: ce.env}
		case 2: // decreasing identifiers, bounded and integer variables, no environment
			v = sym.Variable{ID: uint64(100 - i), Lower: 0, Upper: 1e100, Type: sym.Integer, Name: fmt.Sprintf("n_%d", 100-i)}
		case 3: // huge identifiers
			v = sym.Variable{ID: math.MaxUint64 - uint64(i)*(1<<40), Lower: -1, Upper: 1, Type: sym.Binary, Name: fmt.Sprintf("h_%d", i), Environment: ce.env2}
		case 4: // identifiers that agree in their low 32 (or 16, or 8) bits
			v = sym.Variable{ID: 3 + uint64(i)<<[]uint{1, 32, 16, 8, 40}[i%5], Lower: -5, Upper: 5, Type: sym.Continuous, Name: fmt.Sprintf("l_%d", i), Environment: ce.env}
		case 5: // neighbouring identifiers that no float64 tells apart
			v = sym.Variable{ID: 1<<53 + uint64(i), Lower: -5, Upper: 5, Type: sym.Continuous, Name: fmt.Sprintf("f_%d", i), Environment: ce.env}
		case 6: // identifiers (and exponents, see exponent) made of few digits
			id := fewDigits[few[i]]
			v = sym.Variable{ID: id, Lower: -5, Upper: 5, Type: sym.Continuous, Name: fmt.Sprintf("x_%d", id), Environment: ce.env}
		}
		ce.vars = append(ce.vars, v)
	}
	ce.zeroEx = t.P(1, 14)
	ce.retouch = t.P(1, 12)
	switch t.W(24, 2, 2, 3, 2) {
	case 3: // two variables that look alike
		for i := 1; i < n; i++ {
			if j := t.N(i); t.Bool() {
				ce.vars[i].Name, ce.vars[i].Lower, ce.vars[i].Upper, ce.vars[i].Type = ce.vars[j].Name, ce.vars[j].Lower, ce.vars[j].Upper, ce.vars[j].Type
			}
		}
	case 4: // names are free text
		ce.odd = true
		for i := range ce.vars {
			ce.vars[i].Name = fmt.Sprintf(oddNames[t.N(len(oddNames))], i)
		}
	case 1: // a name is a label, it does not identify a variable
		for i := range ce.vars {
			ce.vars[i].Name = "same"
		}
	case 2:
		for i := range ce.vars {
			ce.vars[i].Name = ""
		}
	}
	if style == 2 || style == 1 {
		// the order in which variables are handed out need not follow identifiers
		p := t.Perm(n)
		vs := make([]sym.Variable, n)
		for i := range p {
			vs[i] = ce.vars[p[i]]
		}
		ce.vars = vs
	}
	return ce
}

var oddNames = []string{"x%%d%d", "%%!s(%d)", "a b%d", "x^%d", "\\n%d", "größe%d", "%%", "x_%d + 1", "-y%d", "K%d", "1e%d", "[%d]", "%d%%v"}

var fewDigits = []uint64{1, 11, 2, 12, 21, 0, 111, 112, 121, 211, 22, 10, 101}

func ownName(i int) string {
	names := []string{"alpha", "y", "zz", "Q", "w_a", "b", "B", "k_1", "k_10", "alpha2", "o", "om"}
	if i < len(names) {
		return names[i]
	}
	return fmt.Sprintf("%s_%c", names[i%len(names)], 'a'+rune(i/len(names)))
}

func (ce *CE) anyVar() sym.Variable { return ce.touch(ce.vars[ce.t.N(len(ce.vars))]) }

// putKey maps v to e, unless the map has a value for that variable already.
func putKey(m map[sym.Variable]sym.Expression, v sym.Variable, e sym.Expression) {
	for k := range m {
		if k.ID == v.ID {
			return
		}
	}
	m[v] = e
}

// touch gives v as the caller may hold it after giving it another name, other bounds or
// another type (when the case does that at all): it is still the same variable.
func (ce *CE) touch(v sym.Variable) sym.Variable {
	if !ce.retouch || ce.t.Bool() {
		return v
	}
	switch ce.t.N(4) {
	case 0:
		v.Name = "renamed"
	case 1:
		v.Name += "'"
	case 2:
		v.Lower = v.Lower/2 + v.Upper/2
	case 3:
		v.Type = sym.Integer
	}
	return v
}

// absentVar is a variable that no generated expression mentions.
func (ce *CE) absentVar() sym.Variable {
	return sym.Variable{ID: 5_000_000, Lower: -1, Upper: 1, Type: sym.Continuous, Name: "absent", Environment: ce.env}
}

// coef draws a coefficient; zero allowed only if asked.
func (ce *CE) coef(zero bool) float64 {
	t := ce.t
	for {
		var c float64
		switch t.W(12, 6, 12, 6, 6, 4, 2, 3, 1) {
		case 0:
			c = 1
		case 1:
			c = -1
		case 2:
			c = float64(t.Range(2, 9))
		case 3:
			c = -float64(t.Range(2, 9))
		case 4:
			if zero {
				return 0
			}
			c = 2
		case 5:
			c = []float64{0.5, -0.25, 1.5, 0.1, -0.3, 9.81, 1.0 / 3}[t.N(7)]
		case 6:
			c = []float64{1e6, -1e6, 1e-4, 123456.789, -1e8, 1e-7, 1e10, -3e-9}[t.N(8)]
		case 7: // all significant digits in use
			e := t.Range(-56, -48)
			if ce.wild && t.P(1, 3) { // whole numbers beyond 2^53, or any magnitude
				if e = t.Range(-4, 20); t.Bool() {
					e = t.Range(-400, 400)
				}
			}
			c = math.Ldexp(float64(1<<52|t.N(1<<26)<<26|t.N(1<<26)), e)
			if t.P(1, 3) {
				c = -c
			}
		case 8: // tiny and huge
			if ce.wild && t.Bool() {
				c = []float64{3e-200, -5e-170, 1e-308, 1.5e160, -7e200, 4e-320, 5e-324, math.MaxFloat64 / 64}[t.N(8)]
				break
			}
			c = []float64{1e-13, -4e-16, 2.5e-11, 1e14, -3e12, 7e-20}[t.N(6)]
		}
		if ce.dyadic {
			c = math.Max(-2048, math.Min(2048, math.Round(c*64)/64))
			if c == 0 {
				c = 0.015625
			}
		}
		if ce.intish && c != math.Trunc(c) {
			c = 3
		}
		if ce.intish && math.Abs(c) > 1000 {
			c = -2
		}
		return c
	}
}

// varSubset draws k distinct variables in arbitrary order.
func (ce *CE) varSubset(k int) []sym.Variable {
	p := ce.t.Perm(len(ce.vars))
	out := make([]sym.Variable, 0, k)
	for i := 0; i < k && i < len(p); i++ {
		out = append(out, ce.touch(ce.vars[p[i]]))
	}
	return out
}

func (ce *CE) monomialWith(c float64, vs []sym.Variable, ex []int) sym.Monomial {
	m := sym.Monomial{Coefficient: c}
	if len(vs) == 0 && ce.t.P(1, 2) {
		return m // nil slices
	}
	if ce.alias && ce.t.P(1, 2) {
		// carve the slices out of larger shared arrays, leaving spare capacity
		start := len(ce.pool)
		_ = start
		bv := make([]sym.Variable, len(vs), len(vs)+3)
		copy(bv, vs)
		be := make([]int, len(ex), len(ex)+3)
		copy(be, ex)
		// sentinels beyond the length
		fv := bv[:cap(bv)]
		for i := len(vs); i < len(fv); i++ {
			fv[i] = ce.vars[i%len(ce.vars)]
		}
		fe := be[:cap(be)]
		for i := len(ex); i < len(fe); i++ {
			fe[i] = 7 + i
		}
		m.VariableFactors, m.Exponents = bv, be
		return m
	}
	m.VariableFactors = append([]sym.Variable{}, vs...)
	m.Exponents = append([]int{}, ex...)
	return m
}

func (ce *CE) exponent() int {
	t := ce.t
	if ce.tall && ce.digits && t.Bool() {
		return []int{1, 11, 2, 12, 21, 111}[t.N(6)]
	}
	if ce.tall && ce.is(bigExp) && t.P(1, 4) {
		return []int{255, 256, 257, 127, 128, 65537, 300, 1<<24 + 1, 1<<31 + 1, 1<<32 + 1}[t.N(10)]
	}
	if ce.is(bigExp) && !ce.small && t.P(1, 4) {
		return t.Range(5, 40)
	}
	switch t.W(12, 5, 2, 1) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return min(3, ce.maxExp)
	}
	if ce.small {
		return 2
	}
	return t.Range(1, ce.maxExp+1)
}

func (ce *CE) monomial(zero bool) sym.Monomial {
	m := ce.freshMonomial(zero)
	if len(m.VariableFactors) > 0 && len(ce.seen) < 12 {
		ce.seen = append(ce.seen, m)
	}
	return m
}

func (ce *CE) freshMonomial(zero bool) sym.Monomial {
	t := ce.t
	c := ce.coef(zero)
	if len(ce.seen) > 0 && t.P(1, 3) {
		// the variables of an earlier monomial in another order: often a like term,
		// sometimes with exponents shuffled or with one of them changed
		b := ce.seen[t.N(len(ce.seen))]
		p := t.Perm(len(b.VariableFactors))
		vs := make([]sym.Variable, len(p))
		ex := make([]int, len(p))
		for i, j := range p {
			vs[i], ex[i] = b.VariableFactors[j], b.Exponents[j]
		}
		switch k := len(ex); {
		case k > 0 && t.P(1, 3):
			ex[t.N(k)] = ce.exponent()
		case k > 1 && t.P(1, 3):
			// the same degree, spread differently over the same variables
			i := t.N(k)
			j := (i + 1 + t.N(k-1)) % k
			if t.Bool() {
				ex[i], ex[j] = ex[j], ex[i]
			} else if ex[i] > 1 {
				ex[i]--
				ex[j]++
			}
		}
		return ce.monomialWith(c, vs, ex)
	}
	maxv := 3
	if ce.small && !t.P(1, 5) {
		maxv = 2
	}
	k := t.W(2, 5, 4, 3)
	if ce.is(bigWidth) && t.P(1, 2) {
		maxv, k = 8, t.Range(3, 8)
	}
	if k > maxv {
		k = maxv
	}
	vs := ce.varSubset(k)
	ex := make([]int, len(vs))
	for i := range ex {
		ex[i] = ce.exponent()
		if ce.zeroEx && t.P(1, 6) {
			ex[i] = 0
		}
	}
	return ce.monomialWith(c, vs, ex)
}

// permuteMonomial writes the same monomial with its variables in another order.
func (ce *CE) permuteMonomial(m sym.Monomial) sym.Monomial {
	p := ce.t.Perm(len(m.VariableFactors))
	vs := make([]sym.Variable, len(p))
	ex := make([]int, len(p))
	for i, j := range p {
		vs[i], ex[i] = m.VariableFactors[j], m.Exponents[j]
	}
	return ce.monomialWith(m.Coefficient, vs, ex)
}

// twin is an earlier term with one variable exchanged for another, with luck one of the same name.
func (ce *CE) twin(ms []sym.Monomial) (m sym.Monomial, ok bool) {
	t := ce.t
	if len(ms) == 0 || len(ce.vars) < 2 || !t.P(1, 8) {
		return m, false
	}
	b := ms[t.N(len(ms))]
	if len(b.VariableFactors) == 0 {
		return m, false
	}
	at := t.N(len(b.VariableFactors))
	var alike, others []sym.Variable
	for _, v := range ce.vars {
		used := false
		for _, w := range b.VariableFactors {
			used = used || w.ID == v.ID
		}
		if used {
			continue
		}
		others = append(others, v)
		if v.Name == b.VariableFactors[at].Name {
			alike = append(alike, v)
		}
	}
	if len(alike) > 0 {
		others = alike
	}
	if len(others) == 0 {
		return m, false
	}
	vs := append([]sym.Variable{}, b.VariableFactors...)
	vs[at] = others[t.N(len(others))]
	c := b.Coefficient
	switch t.N(3) {
	case 0:
		c = -c
	case 1:
		c = ce.coef(false)
	}
	return ce.monomialWith(c, vs, b.Exponents), true
}

func monKey(m sym.Monomial) string {
	var ex []pair
	for i, v := range m.VariableFactors {
		ex = append(ex, pair{v.ID, m.Exponents[i]})
	}
	return keyOf(canon(ex))
}

func (ce *CE) polynomial() sym.Polynomial {
	t := ce.t
	n := t.W(2, 5, 5, 3, 2) + 1
	if ce.small && n > 3 {
		n = 3
	}
	if ce.is(bigTerms) && t.P(1, 2) {
		n = t.Range(6, 14)
		if t.P(1, 6) {
			n = t.Range(15, 40)
		}
		if ce.small {
			n = t.Range(4, 6)
		}
	}
	raw := ce.raw && t.P(2, 5)
	var ms []sym.Monomial
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var m sym.Monomial
		if raw && len(ms) > 0 && t.P(1, 3) {
			// a like term of an earlier one: permuted, possibly cancelling
			m = ce.permuteMonomial(ms[t.N(len(ms))])
			switch t.N(3) {
			case 0:
				m.Coefficient = -m.Coefficient
			case 1:
				m.Coefficient = ce.coef(true)
			}
		} else if len(ms) > 0 && t.P(1, 6) && len(ms[len(ms)-1].VariableFactors) >= 2 {
			// same variables, exponents rotated: not a like term unless equal
			b := ms[len(ms)-1]
			k := len(b.Exponents)
			ex := make([]int, k)
			for q := range ex {
				ex[q] = b.Exponents[(q+1)%k]
			}
			m = ce.monomialWith(ce.coef(false), b.VariableFactors, ex)
		} else if b, ok := ce.twin(ms); ok {
			m = b
		} else {
			m = ce.monomial(raw)
			if len(ms) > 0 && t.P(1, 8) {
				// the coefficient of another term, or its opposite
				m.Coefficient = ms[t.N(len(ms))].Coefficient
				if t.Bool() {
					m.Coefficient = -m.Coefficient
				}
			}
		}
		if !raw {
			k := monKey(m)
			if seen[k] || m.Coefficient == 0 {
				continue
			}
			seen[k] = true
		}
		ms = append(ms, m)
	}
	if len(ms) == 0 {
		ms = append(ms, sym.Monomial{Coefficient: ce.coef(false)})
	}
	if ce.alias && t.P(1, 3) {
		b := make([]sym.Monomial, len(ms), len(ms)+2)
		copy(b, ms)
		f := b[:cap(b)]
		for i := len(ms); i < len(f); i++ {
			f[i] = sym.Monomial{Coefficient: 77}
		}
		ms = b
	}
	return sym.Polynomial{Monomials: ms}
}

// affine draws a polynomial of degree at most one (possibly unsimplified).
func (ce *CE) affinePolynomial() sym.Polynomial {
	t := ce.t
	n := t.Range(1, 4)
	var ms []sym.Monomial
	for i := 0; i < n; i++ {
		ms = append(ms, ce.affineMonomial())
	}
	if !ce.raw || t.P(1, 2) {
		seen := map[string]bool{}
		var o []sym.Monomial
		for _, m := range ms {
			if k := monKey(m); !seen[k] && m.Coefficient != 0 {
				seen[k] = true
				o = append(o, m)
			}
		}
		if len(o) == 0 {
			o = ms[:1]
		}
		ms = o
	}
	return sym.Polynomial{Monomials: ms}
}

func (ce *CE) affineMonomial() sym.Monomial {
	c := ce.coef(ce.raw)
	if ce.t.P(1, 4) {
		return ce.monomialWith(c, nil, nil)
	}
	return ce.monomialWith(c, []sym.Variable{ce.anyVar()}, []int{1})
}

// ---------------------------------------------------------------- kinds

type Kind int

const (
	kK Kind = iota
	kV
	kM
	kP
	kKV
	kVV
	kMV
	kPV
	kKM
	kVM
	kMM
	kPM
	kF64
	kInt
	kVec
	kVecP
	kDense
	kDenseP
	numKinds
)

var kindName = []string{"K", "V", "M", "P", "KV", "VV", "MV", "PV", "KM", "VM", "MM", "PM", "f64", "int", "VecDense", "*VecDense", "Dense", "*Dense"}

func (k Kind) String() string { return kindName[k] }

// level: 0 scalar, 1 vector, 2 matrix
func (k Kind) level() int {
	switch k {
	case kK, kV, kM, kP, kF64, kInt:
		return 0
	case kKV, kVV, kMV, kPV, kVec, kVecP:
		return 1
	}
	return 2
}

func (k Kind) isExpr() bool { return k <= kPM }

func kindOf(x interface{}) Kind {
	switch x.(type) {
	case sym.K:
		return kK
	case sym.Variable:
		return kV
	case sym.Monomial:
		return kM
	case sym.Polynomial:
		return kP
	case sym.KVector:
		return kKV
	case sym.VariableVector:
		return kVV
	case sym.MonomialVector:
		return kMV
	case sym.PolynomialVector:
		return kPV
	case sym.KMatrix:
		return kKM
	case sym.VariableMatrix:
		return kVM
	case sym.MonomialMatrix:
		return kMM
	case sym.PolynomialMatrix:
		return kPM
	case float64:
		return kF64
	case int:
		return kInt
	case mat.VecDense:
		return kVec
	case *mat.VecDense:
		return kVecP
	case mat.Dense:
		return kDense
	case *mat.Dense:
		return kDenseP
	}
	return -1
}

// shapeClass of a value of kind k with r x c entries.
func shapeClass(k Kind, r, c int) string {
	switch k.level() {
	case 0:
		return "s"
	case 1:
		if r == 1 {
			return "1"
		}
		return "n"
	}
	d := func(n int) string {
		if n == 1 {
			return "1"
		}
		return "n"
	}
	return d(r) + d(c)
}

// gonum values: sometimes views with a stride larger than the width.
func (ce *CE) vecDense(n int) *mat.VecDense {
	if ce.t.P(1, 4) {
		big := mat.NewDense(n, 3, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < 3; j++ {
				big.Set(i, j, 50+float64(10*i+j))
			}
		}
		for i := 0; i < n; i++ {
			big.Set(i, 1, ce.coef(true))
		}
		return big.ColView(1).(*mat.VecDense)
	}
	v := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		v.SetVec(i, ce.coef(true))
	}
	return v
}

func (ce *CE) dense(r, c int) *mat.Dense {
	if ce.t.P(1, 4) {
		big := mat.NewDense(r+2, c+2, nil)
		for i := 0; i < r+2; i++ {
			for j := 0; j < c+2; j++ {
				big.Set(i, j, 70+float64(10*i+j))
			}
		}
		v := big.Slice(1, 1+r, 1, 1+c).(*mat.Dense)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				v.Set(i, j, ce.coef(true))
			}
		}
		return v
	}
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, ce.coef(true))
		}
	}
	return d
}

// value draws a value of kind k with the given shape (must fit the kind); now and then
// its entries follow a pattern.
func (ce *CE) value(k Kind, r, c int) interface{} {
	x := ce.plainValue(k, r, c)
	if k.level() > 0 && r*c > 1 && ce.t.P(1, 12) {
		ce.pattern(x)
	}
	return x
}

// pattern rewrites the entries of a vector or matrix: constants become all zero, all one,
// the identity or a unit; in any container all entries, or the first two, become equal.
func (ce *CE) pattern(x interface{}) {
	t := ce.t
	p := t.N(7)
	num := func(old float64, first float64, i, j int) float64 {
		switch p {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			if i == j {
				return 1
			}
			return 0
		case 3:
			if i == 0 && j == 0 {
				return first
			}
			return 0
		case 4:
			if i == j {
				return old
			}
			return 0
		}
		return first
	}
	switch e := x.(type) {
	case sym.KVector:
		f := e[0]
		for i := range e {
			e[i] = sym.K(num(float64(e[i]), float64(f), i, 0))
		}
	case sym.KMatrix:
		f := e[0][0]
		for i := range e {
			for j := range e[i] {
				e[i][j] = sym.K(num(float64(e[i][j]), float64(f), i, j))
			}
		}
	case *mat.VecDense:
		f := e.AtVec(0)
		for i := 0; i < e.Len(); i++ {
			e.SetVec(i, num(e.AtVec(i), f, i, 0))
		}
	case *mat.Dense:
		f := e.At(0, 0)
		r, c := e.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				e.Set(i, j, num(e.At(i, j), f, i, j))
			}
		}
	case mat.VecDense:
		ce.pattern(&e)
	case mat.Dense:
		ce.pattern(&e)
	case sym.VariableVector:
		for i := range e {
			if p < 4 || i == 1 {
				e[i] = e[0]
			}
		}
	case sym.MonomialVector:
		for i := range e {
			if p < 4 || i == 1 {
				e[i] = e[0]
			}
		}
	case sym.PolynomialVector:
		for i := range e {
			if p < 4 || i == 1 {
				e[i] = e[0]
			}
		}
	case sym.VariableMatrix:
		for i := range e {
			for j := range e[i] {
				if p < 3 || (p < 5 && i == 1) {
					e[i][j] = e[0][j]
				} else if i > j && j < len(e) && i < len(e[j]) {
					e[i][j] = e[j][i]
				}
			}
		}
	case sym.MonomialMatrix:
		for i := range e {
			for j := range e[i] {
				if p < 3 || (p < 5 && i == 1) {
					e[i][j] = e[0][j]
				} else if i > j && j < len(e) && i < len(e[j]) {
					e[i][j] = e[j][i]
				}
			}
		}
	case sym.PolynomialMatrix:
		for i := range e {
			for j := range e[i] {
				if p < 3 || (p < 5 && i == 1) {
					e[i][j] = e[0][j]
				} else if i > j && j < len(e) && i < len(e[j]) {
					e[i][j] = e[j][i]
				}
			}
		}
	}
}

func (ce *CE) plainValue(k Kind, r, c int) interface{} {
	t := ce.t
	switch k {
	case kK:
		return sym.K(ce.coef(true))
	case kF64:
		return ce.coef(true)
	case kInt:
		return t.Range(0, 12) - 5
	case kV:
		return ce.anyVar()
	case kM:
		return ce.monomial(true)
	case kP:
		return ce.polynomial()
	case kKV:
		o := make(sym.KVector, r, r+ce.spare())
		for i := range o {
			o[i] = sym.K(ce.coef(true))
		}
		return o
	case kVV:
		o := make(sym.VariableVector, r, r+ce.spare())
		for i := range o {
			o[i] = ce.anyVar()
		}
		for i := r; i < cap(o); i++ {
			o[:cap(o)][i] = ce.vars[0]
		}
		return o
	case kMV:
		o := make(sym.MonomialVector, r, r+ce.spare())
		for i := range o {
			o[i] = ce.monomial(true)
		}
		return o
	case kPV:
		o := make(sym.PolynomialVector, r, r+ce.spare())
		for i := range o {
			o[i] = ce.polynomial()
		}
		return o
	case kKM:
		o := make(sym.KMatrix, r)
		for i := range o {
			o[i] = make([]sym.K, c, c+ce.spare())
			for j := range o[i] {
				o[i][j] = sym.K(ce.coef(true))
			}
		}
		return o
	case kVM:
		o := make(sym.VariableMatrix, r)
		for i := range o {
			o[i] = make([]sym.Variable, c, c+ce.spare())
			for j := range o[i] {
				o[i][j] = ce.anyVar()
			}
		}
		return o
	case kMM:
		o := make(sym.MonomialMatrix, r)
		for i := range o {
			o[i] = make([]sym.Monomial, c, c+ce.spare())
			for j := range o[i] {
				o[i][j] = ce.monomial(true)
			}
		}
		return o
	case kPM:
		o := make(sym.PolynomialMatrix, r)
		for i := range o {
			o[i] = make([]sym.Polynomial, c, c+ce.spare())
			for j := range o[i] {
				o[i][j] = ce.polynomial()
			}
		}
		return o
	case kVec:
		return *ce.vecDense(r)
	case kVecP:
		return ce.vecDense(r)
	case kDense:
		return *ce.dense(r, c)
	case kDenseP:
		return ce.dense(r, c)
	}
	panic("harness: kind")
}

func (ce *CE) spare() int {
	if ce.alias && ce.t.P(1, 2) {
		return 2
	}
	return 0
}

// shapeFor draws a shape for a kind.
func (ce *CE) shapeFor(k Kind) (int, int) {
	t := ce.t
	switch k.level() {
	case 0:
		return 1, 1
	case 1:
		if ce.is(bigShape) && t.P(1, 2) {
			if t.P(1, 6) {
				return t.Range(17, 40), 1
			}
			return t.Range(5, 16), 1
		}
		return t.W(24, 60, 36, 12, 3, 2, 1) + 1, 1
	}
	if ce.is(bigShape) && !ce.small && t.P(1, 2) {
		if t.P(1, 6) {
			return t.Range(1, 14), t.Range(1, 14)
		}
		return t.Range(1, 8), t.Range(1, 8)
	}
	dim := func() int { return t.W(36, 60, 24, 2, 1) + 1 }
	if ce.small {
		dim = func() int { return t.W(3, 5, 2) + 1 }
	}
	return dim(), dim()
}

// exprKind draws one of the twelve expression kinds.
func (ce *CE) exprKind() Kind { return Kind(ce.t.N(12)) }

// expr draws an expression of any kind and shape.
func (ce *CE) expr() sym.Expression {
	k := ce.exprKind()
	r, c := ce.shapeFor(k)
	return ce.value(k, r, c).(sym.Expression)
}

func (ce *CE) exprOfKind(k Kind) sym.Expression {
	r, c := ce.shapeFor(k)
	return ce.value(k, r, c).(sym.Expression)
}

// scalar draws a scalar expression.
func (ce *CE) scalar() sym.ScalarExpression {
	return ce.value(Kind(ce.t.N(4)), 1, 1).(sym.ScalarExpression)
}

// withShape draws an expression with exactly the given shape.
func (ce *CE) withShape(r, c int, level int) sym.Expression {
	switch level {
	case 0:
		return ce.scalar()
	case 1:
		return ce.value(kKV+Kind(ce.t.N(4)), r, c).(sym.Expression)
	}
	return ce.value(kKM+Kind(ce.t.N(4)), r, c).(sym.Expression)
}

// point draws a rational point for evaluation.
func (ce *CE) point() map[uint64]float64 {
	m := map[uint64]float64{}
	for _, v := range ce.vars {
		m[v.ID] = []float64{0, 1, -1, 2, -2, 3, 0.5, -0.5, 5, -3}[ce.t.N(10)]
	}
	m[ce.absentVar().ID] = 3
	return m
}

// wellFormed is the harness's own well-formedness predicate for results.
func wellFormed(x interface{}) string {
	if _, err := denote(x); err != nil {
		return err.Error()
	}
	return ""
}

// near copies a scalar, vector or matrix and changes one thing in the copy: an exponent,
// a unit moved from one exponent to another, a variable, a coefficient, the order of the
// terms, an entry. Most questions asked of the two have different answers.
func (ce *CE) near(x sym.Expression) sym.Expression {
	t := ce.t
	mono := func(m sym.Monomial) sym.Monomial {
		vs := append([]sym.Variable{}, m.VariableFactors...)
		ex := append([]int{}, m.Exponents...)
		c := m.Coefficient
		k := len(ex)
		switch w := t.N(5); {
		case k > 0 && w == 0:
			// another variable of the same or another name
			v := ce.vars[t.N(len(ce.vars))]
			if _, used := find(vs, v.ID); !used {
				vs[t.N(k)] = v
			}
		case k > 0 && w == 1:
			ex[t.N(k)] += 1
		case k > 1 && w == 2:
			i := t.N(k)
			j := (i + 1 + t.N(k-1)) % k
			ex[i], ex[j] = ex[j], ex[i]
		case k > 1 && w == 3:
			i := t.N(k)
			j := (i + 1 + t.N(k-1)) % k
			if ex[i] > 1 {
				ex[i]--
				ex[j]++
			}
		default:
			switch t.N(3) {
			case 0:
				c = -c
			case 1:
				c = ce.coef(true)
			default:
				c *= 2
			}
		}
		return ce.monomialWith(c, vs, ex)
	}
	poly := func(p sym.Polynomial) sym.Polynomial {
		ms := append([]sym.Monomial{}, p.Monomials...)
		i := t.N(len(ms))
		switch w := t.N(6); {
		case w == 0 && len(ms) > 1:
			j := t.N(len(ms))
			ms[i], ms[j] = ms[j], ms[i]
		case w == 1 && len(ms) > 1:
			j := t.N(len(ms))
			ms[i].Coefficient, ms[j].Coefficient = ms[j].Coefficient, ms[i].Coefficient
		case w == 2 && len(ms) > 1:
			ms = append(ms[:i:i], ms[i+1:]...)
		default:
			ms[i] = mono(ms[i])
		}
		if !ce.raw {
			// keep to simplified values
			seen := map[string]bool{}
			for _, m := range ms {
				k := monKey(m)
				if seen[k] || m.Coefficient == 0 {
					return p
				}
				seen[k] = true
			}
		}
		return sym.Polynomial{Monomials: ms}
	}
	switch e := x.(type) {
	case sym.K:
		return -e
	case sym.Variable:
		return ce.anyVar()
	case sym.Monomial:
		return mono(e)
	case sym.Polynomial:
		return poly(e)
	case sym.KVector:
		o := append(sym.KVector{}, e...)
		o[t.N(len(o))] = sym.K(ce.coef(true))
		return o
	case sym.VariableVector:
		o := append(sym.VariableVector{}, e...)
		o[t.N(len(o))] = ce.anyVar()
		return o
	case sym.MonomialVector:
		o := append(sym.MonomialVector{}, e...)
		i := t.N(len(o))
		o[i] = mono(o[i])
		return o
	case sym.PolynomialVector:
		o := append(sym.PolynomialVector{}, e...)
		i := t.N(len(o))
		o[i] = poly(o[i])
		return o
	case sym.KMatrix:
		o := nearRows(e)
		o[t.N(len(o))][t.N(len(o[0]))] = sym.K(ce.coef(true))
		return sym.KMatrix(o)
	case sym.VariableMatrix:
		o := nearRows(e)
		o[t.N(len(o))][t.N(len(o[0]))] = ce.anyVar()
		return sym.VariableMatrix(o)
	case sym.MonomialMatrix:
		o := nearRows(e)
		i, j := t.N(len(o)), t.N(len(o[0]))
		o[i][j] = mono(o[i][j])
		return sym.MonomialMatrix(o)
	case sym.PolynomialMatrix:
		o := nearRows(e)
		i, j := t.N(len(o)), t.N(len(o[0]))
		o[i][j] = poly(o[i][j])
		return sym.PolynomialMatrix(o)
	}
	return x
}

func nearRows[E any](rows [][]E) [][]E {
	var o [][]E
	for _, r := range rows {
		o = append(o, append([]E{}, r...))
	}
	return o
}
