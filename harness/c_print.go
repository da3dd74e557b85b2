package main

// C19: printed expressions read back as the same polynomials.
//
// The reader below knows the usual notation (numbers, names, exponents, sums,
// brackets) and a table of variable names; it shares no code with the library.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

type reader struct {
	s     string
	i     int
	names []string // longest first
	ids   map[string]uint64
}

func newReader(s string, vars []sym.Variable) *reader {
	r := &reader{s: s, ids: map[string]uint64{}}
	for _, v := range vars {
		r.names = append(r.names, v.Name)
		r.ids[v.Name] = v.ID
	}
	sort.Slice(r.names, func(a, b int) bool { return len(r.names[a]) > len(r.names[b]) })
	return r
}

type unreadable string

func (r *reader) fail(f string, a ...interface{}) {
	panic(unreadable(fmt.Sprintf(f, a...) + fmt.Sprintf(" at %q", r.s[min(r.i, len(r.s)):])))
}

func (r *reader) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\n' || r.s[r.i] == '\t') {
		r.i++
	}
}

func (r *reader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *reader) digits() int {
	n := 0
	for r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '9' {
		r.i++
		n++
	}
	return n
}

func (r *reader) number() float64 {
	start := r.i
	r.digits()
	if r.peek() == '.' {
		r.i++
		r.digits()
	}
	if c := r.peek(); c == 'e' || c == 'E' {
		save := r.i
		r.i++
		if c := r.peek(); c == '+' || c == '-' {
			r.i++
		}
		if r.digits() == 0 {
			r.i = save
		}
	}
	f, err := strconv.ParseFloat(r.s[start:r.i], 64)
	if err != nil {
		r.i = start
		r.fail("bad number")
	}
	return f
}

func (r *reader) variable() (uint64, bool) {
	for _, n := range r.names {
		if strings.HasPrefix(r.s[r.i:], n) {
			r.i += len(n)
			return r.ids[n], true
		}
	}
	return 0, false
}

// term reads one product; sign is applied by the caller.
func (r *reader) term() Poly {
	c, n := 1.0, 0
	var ex []pair
	for {
		save := r.i
		r.space()
		if r.peek() == '*' && n > 0 {
			r.i++
			r.space()
		}
		if b := r.peek(); b >= '0' && b <= '9' || b == '.' {
			c *= r.number()
			n++
			continue
		}
		id, ok := r.variable()
		if !ok {
			r.i = save
			break
		}
		e := 1
		if r.peek() == '^' {
			r.i++
			start := r.i
			if r.digits() == 0 {
				r.fail("exponent expected")
			}
			e, _ = strconv.Atoi(r.s[start:r.i])
		}
		ex = append(ex, pair{id, e})
		n++
	}
	if n == 0 {
		r.fail("term expected")
	}
	p := Poly{}
	p.add(canon(ex), c, 0)
	return p
}

func (r *reader) poly() Poly {
	sum := Poly{}
	for first := true; ; first = false {
		r.space()
		sign, signs := 1.0, 0
		for r.peek() == '+' || r.peek() == '-' {
			if r.peek() == '-' {
				sign = -sign
			}
			r.i++
			signs++
			r.space()
		}
		if !first && signs == 0 {
			return sum
		}
		sum = pAdd(sum, pScale(r.term(), sign))
		r.space()
		if c := r.peek(); c != '+' && c != '-' {
			return sum
		}
	}
}

func (r *reader) expect(b byte) {
	r.space()
	if r.peek() != b {
		r.fail("%q expected", string(b))
	}
	r.i++
}

func (r *reader) row() []Poly {
	r.expect('[')
	var out []Poly
	for {
		out = append(out, r.poly())
		r.space()
		if r.peek() == ',' {
			r.i++
			continue
		}
		r.expect(']')
		return out
	}
}

// label skips a leading "Name =" in front of a bracket.
func (r *reader) label() {
	k := strings.IndexByte(r.s, '[')
	if k < 0 {
		r.fail("bracket expected")
	}
	l := strings.TrimSpace(r.s[:k])
	if l != "" && !strings.HasSuffix(l, "=") {
		r.fail("unexpected label")
	}
	r.i = k
}

func (r *reader) end() {
	r.space()
	if r.i != len(r.s) {
		r.fail("unexpected text")
	}
}

// readBack reads the printed form of an expression of the given level.
func readBack(s string, vars []sym.Variable, level int) (m Mat, err error) {
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unreadable)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("%s", string(u))
		}
	}()
	r := newReader(s, vars)
	switch level {
	case 0:
		p := r.poly()
		r.end()
		return scalarMat(p), nil
	case 1:
		r.label()
		row := r.row()
		r.end()
		return Mat{len(row), 1, row}, nil
	}
	r.label()
	r.expect('[')
	for {
		row := r.row()
		if m.r > 0 && len(row) != m.c {
			return m, fmt.Errorf("rows of different lengths")
		}
		m.r, m.c = m.r+1, len(row)
		m.e = append(m.e, row...)
		// separators between (and after) rows
		seps := 0
		for r.space(); r.peek() == ','; r.space() {
			r.i++
			seps++
		}
		if r.peek() == ']' {
			r.i++
			r.end()
			return m, nil
		}
		if seps == 0 {
			r.fail("separator expected")
		}
	}
}

// rename gives the variables of the case other printable, distinct names.
func (ce *CE) rename() {
	ce.retouch = false // one name per variable
	t := ce.t
	sets := [][]string{
		{"x_1", "x_11", "x_2", "x_21", "x_112"},
		{"velocity", "v", "ve", "vel", "u"},
		{"α", "β", "γ_1", "δ", "ε"},
		{"x'", "x''", "e", "E1", "e5"},
		{"a", "ab", "abc", "b_0", "c"},
		{"x%d", "p%", "%%q", "%v", "u%s"},
	}
	set := sets[t.N(len(sets))]
	seen := map[string]bool{"": true}
	distinct := true
	for _, v := range ce.vars {
		distinct = distinct && !seen[v.Name]
		seen[v.Name] = true
	}
	if t.Bool() && distinct && !ce.odd {
		return
	}
	for i := range ce.vars {
		if i < len(set) {
			ce.vars[i].Name = set[i]
		} else {
			ce.vars[i].Name = fmt.Sprintf("w%d_", i)
		}
	}
}

// unambiguous reports whether juxtaposed names can be read in one way only.
func unambiguous(vars []sym.Variable) bool {
	for i, v := range vars {
		for j, w := range vars {
			if i != j && strings.HasPrefix(w.Name, v.Name) {
				// v could be followed by another name that continues w
				rest := w.Name[len(v.Name):]
				for _, u := range vars {
					if strings.HasPrefix(rest, u.Name) || strings.HasPrefix(u.Name, rest) {
						return false
					}
				}
			}
		}
		_ = utf8.RuneCountInString(v.Name)
	}
	return true
}

// printDiffers compares what was read with what was printed. Decimal notation can
// give a float64 exactly, so only the rounding of adding up like terms is allowed.
func printDiffers(got, want Mat) string {
	if d := mDiffers(got, want); d != "" {
		return d
	}
	for i := range want.e {
		for k, w := range want.e[i] {
			if g := got.e[i][k]; math.Abs(g.c-w.c) > 8e-16*w.mass {
				return fmt.Sprintf("coefficient of %s is %v, expected %v: digits are lost", exString(w.ex), g.c, w.c)
			}
		}
	}
	return ""
}

func stringOf(t *T, what string, x fmt.Stringer, desc func() string) string {
	var s, again, viaFmt string
	if c := t.Try(func() { s = x.String(); again = x.String(); viaFmt = fmt.Sprintf("%v", x) }); c != nil {
		t.Fail("String:panic:"+what, "String of %s: %v", desc(), c)
	}
	if s != again || s != viaFmt {
		t.Fail("String:deterministic:"+what, "String of %s gives %q, then %q, and %q through fmt", desc(), s, again, viaFmt)
	}
	return s
}

func runPrint(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.rename()
	if !unambiguous(ce.vars) {
		t.Discard("names that run into each other")
	}
	ce.alias = true
	ce.zeroEx = t.P(1, 10)
	x := ce.expr()
	k := kindOf(x)
	m := mustDenote(x)
	t.Logf("%s", show(x))
	t.Label("kind %s", k)
	if m.totalTerms() >= 2 {
		t.NonTrivial()
	}
	s := stringOf(t, k.String(), x.(fmt.Stringer), func() string { return show(x) })
	got, err := readBack(s, ce.vars, k.level())
	if err != nil {
		t.Fail("String:unreadable:"+k.String(), "%s prints as %q, which cannot be read: %v", show(x), s, err)
	}
	if d := printDiffers(got, m); d != "" {
		t.Fail("String:value:"+k.String(), "%s prints as %q, which reads as %v: %s", show(x), s, got, d)
	}
}

func runPrintConstraint(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.rename()
	if !unambiguous(ce.vars) {
		t.Discard("names that run into each other")
	}
	l, r := ce.scalar(), ce.scalar()
	sense := senses[t.N(3)]
	k := sym.ScalarConstraint{LeftHandSide: l.(sym.ScalarExpression), RightHandSide: r.(sym.ScalarExpression), Sense: sense}
	ml, mr := mustDenote(l), mustDenote(r)
	t.Logf("%s", show(k))
	t.Label("%s %s %s", kindOf(l), senseName(sense), kindOf(r))
	if ml.totalTerms()+mr.totalTerms() >= 3 {
		t.NonTrivial()
	}
	s := stringOf(t, "constraint", k, func() string { return show(k) })
	sep := map[sym.ConstrSense]string{sym.SenseLessThanEqual: "<=", sym.SenseGreaterThanEqual: ">=", sym.SenseEqual: "="}[sense]
	if sense.String() != sep {
		t.Fail("Sense:String", "the direction %q prints as %q", sep, sense.String())
	}
	at := strings.IndexAny(s, "<>=")
	end := at
	for end >= 0 && end < len(s) && strings.IndexByte("<>=", s[end]) >= 0 {
		end++
	}
	if at < 0 || strings.IndexAny(s[end:], "<>=") >= 0 {
		t.Fail("String:constraint:direction", "%s prints as %q, without one direction symbol", show(k), s)
	}
	if op := s[at:end]; op != sep && !(sep == "=" && op == "==") {
		t.Fail("String:constraint:direction", "%s prints as %q", show(k), s)
	}
	for i, part := range []string{s[:at], s[end:]} {
		want := []Mat{ml, mr}[i]
		got, err := readBack(part, ce.vars, 0)
		if err != nil {
			t.Fail("String:constraint:unreadable", "%s prints as %q, where %q cannot be read: %v", show(k), s, part, err)
		}
		if d := printDiffers(got, want); d != "" {
			t.Fail("String:constraint:value", "%s prints as %q, where %q reads as %v: %s", show(k), s, part, got, d)
		}
	}
}

func init() {
	register(&Property{ID: "C19",
		Rule: "a case is one printed expression or scalar constraint; non-trivial when it has at least two terms (constraints: three) in total",
		Assume: []string{
			"variable names in a case are distinct, start with a letter, and cannot be confused when written side by side",
			"labels in front of a bracket (Name =), spaces, line breaks and surplus commas between rows are layout, not content",
		},
		Families: []Family{
			{Name: "expression", Quick: 120000, Thorough: 3000000, Rule: "print, read with an independent reader, compare entry by entry", Run: runPrint},
			{Name: "constraint", Quick: 60000, Thorough: 1000000, Rule: "print a scalar constraint, read both sides and the direction", Run: runPrintConstraint},
		}})
}
