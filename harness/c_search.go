package main

// C22: search and set helpers.

import (
	"fmt"
	"sort"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func runFind(t *T) {
	n := t.W(1, 2, 3, 4, 4, 3, 3, 2, 1)
	if t.P(1, 20) {
		n = t.Range(9, 80)
	}
	alphabet := t.Range(1, 6) // of the few values below
	draw := func() int { return t.N(alphabet) }
	hit := func() bool { return n > 0 && t.P(3, 4) }
	at := 0
	if n > 0 {
		at = t.N(n)
	}
	kind := t.N(5)
	var x, xs interface{}
	present := map[int]bool{}
	switch kind {
	case 0:
		words := []string{"", "a", "ab", "A", "a ", "x_1"}
		s := make([]string, n, n+t.N(3))
		for i := range s {
			s[i] = words[draw()]
		}
		for i := n; i < cap(s); i++ {
			s[:cap(s)][i] = "a"
		}
		v := words[t.N(6)]
		if hit() {
			v = s[at]
		}
		for i := range s {
			present[i] = s[i] == v
		}
		x, xs = v, s
	case 4: // in ascending order
		s, is := make([]uint64, n), make([]int, n)
		for i := range s {
			s[i] = uint64(t.Range(0, 4)) << uint(t.Range(0, 61))
			is[i] = t.Range(0, 300) - 150
		}
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		sort.Ints(is)
		k := t.Range(0, max(n-1, 0))
		if t.Bool() {
			v := uint64(t.Range(0, 40))
			if n > 0 && t.P(5, 6) {
				v = s[k]
			}
			for i := range s {
				present[i] = s[i] == v
			}
			x, xs = v, s
		} else {
			v := t.Range(0, 300) - 150
			if n > 0 && t.P(5, 6) {
				v = is[k]
			}
			for i := range is {
				present[i] = is[i] == v
			}
			x, xs = v, is
		}
	case 1:
		nums := []int{0, 1, -1, 5, -7, 1 << 40}
		s := make([]int, n)
		for i := range s {
			s[i] = nums[draw()]
		}
		v := nums[t.N(6)]
		if hit() {
			v = s[at]
		}
		for i := range s {
			present[i] = s[i] == v
		}
		x, xs = v, s
	case 2:
		nums := []uint64{0, 1, 2, 1 << 63, 1<<64 - 1, 1 << 32}
		s := make([]uint64, n)
		for i := range s {
			s[i] = nums[draw()]
		}
		v := nums[t.N(6)]
		if hit() {
			v = s[at]
		}
		for i := range s {
			present[i] = s[i] == v
		}
		x, xs = v, s
	case 3:
		ce := newCE(t)
		s := make([]sym.Variable, n)
		for i := range s {
			s[i] = ce.anyVar()
		}
		v := ce.anyVar()
		if hit() {
			v = s[at]
		} else if t.Bool() {
			v = ce.absentVar()
		}
		for i := range s {
			present[i] = s[i].ID == v.ID
		}
		x, xs = v, s
	}
	cnt := 0
	for i := range present {
		if present[i] {
			cnt++
		}
	}
	t.Logf("find %s among %s", plain(x), plain(xs))
	t.Label("%T, %d matches of %d", x, min(cnt, 2), min(n, 3))
	if n >= 2 && cnt >= 1 && cnt < n {
		t.NonTrivial()
	}
	var i int
	var err error
	if c := t.Try(func() { i, err = sym.FindInSlice(x, xs) }); c != nil || err != nil {
		t.Fail("FindInSlice:panic", "searching %s among %s: %v %v", plain(x), plain(xs), c, err)
	}
	if cnt == 0 && i != -1 || cnt > 0 && (i < 0 || i >= n || !present[i]) {
		t.Fail(fmt.Sprintf("FindInSlice:%T", x), "searching %s among %s answers %d", plain(x), plain(xs), i)
	}
}

// plain renders slices of variables by identifier.
func plain(x interface{}) string {
	switch y := x.(type) {
	case sym.Variable:
		return fmt.Sprintf("v%d", y.ID)
	case []sym.Variable:
		return fmt.Sprint(idsOf(y))
	}
	return fmt.Sprintf("%#v", x)
}

func idsOf(vs []sym.Variable) []uint64 {
	out := []uint64{}
	for _, v := range vs {
		out = append(out, v.ID)
	}
	return out
}

// distinct keeps the first occurrence of everything.
func distinct(ids []uint64) []uint64 {
	out := []uint64{}
	for i, a := range ids {
		fresh := true
		for _, b := range ids[:i] {
			if a == b {
				fresh = false
			}
		}
		if fresh {
			out = append(out, a)
		}
	}
	return out
}

func sameIDs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runSets(t *T) {
	ce := newCE(t)
	lists := make([][]sym.Variable, t.W(1, 4, 4, 3, 2, 1))
	var all []uint64
	for i := range lists {
		n := t.W(1, 2, 3, 3, 2, 1, 1)
		if ce.is(bigVars) || t.P(1, 25) {
			n = t.Range(7, 70)
		}
		lists[i] = make([]sym.Variable, 0, n+t.N(4))
		for j := 0; j < n; j++ {
			lists[i] = append(lists[i], ce.anyVar())
		}
		all = append(all, idsOf(lists[i])...)
	}
	want := distinct(all)
	if len(lists) > 0 && t.Bool() { // identifiers with boundary values
		for i := range all {
			all[i] = all[i]*0x9e3779b97f4a7c15 + 1
		}
		all = append(all, all...)
		all = append(all, 0, 1<<64-1, 0)
	}
	t.Logf("lists %v, identifiers %v", func() []string {
		var o []string
		for _, l := range lists {
			o = append(o, plain(l))
		}
		return o
	}(), all)
	t.Label("%d lists, %d distinct", min(len(lists), 3), min(len(want), 5))
	if len(all) > len(want) && len(want) >= 2 {
		t.NonTrivial()
	}
	before := append([]uint64{}, all...)
	var u []uint64
	if c := t.Try(func() { u = sym.Unique(all) }); c != nil {
		t.Fail("Unique:panic", "Unique(%v): %v", all, c)
	}
	if !sameIDs(u, distinct(before)) {
		t.Fail("Unique", "Unique(%v) is %v", before, u)
	}
	var un []sym.Variable
	if c := t.Try(func() { un = sym.UnionOfVariables(lists...) }); c != nil {
		t.Fail("UnionOfVariables:panic", "UnionOfVariables: %v", c)
	}
	if !sameIDs(idsOf(un), want) {
		t.Fail("UnionOfVariables", "UnionOfVariables of the lists above is %v, want %v", idsOf(un), want)
	}
	for _, l := range lists {
		var d []sym.Variable
		if c := t.Try(func() { d = sym.UniqueVars(l) }); c != nil {
			t.Fail("UniqueVars:panic", "UniqueVars(%v): %v", plain(l), c)
		}
		if !sameIDs(idsOf(d), distinct(idsOf(l))) {
			t.Fail("UniqueVars", "UniqueVars(%v) is %v", plain(l), idsOf(d))
		}
		for i, v := range d { // whole variables, not just their identifiers
			w, ok := find(l, v.ID)
			if !ok || w != v {
				t.Fail("UniqueVars:altered", "UniqueVars(%v) alters entry %d: %+v", plain(l), i, v)
			}
		}
	}
	for _, v := range un {
		// the first occurrence, as it stands there
		for i := 0; i < len(lists); i++ {
			w, ok := find(lists[i], v.ID)
			if !ok {
				continue
			}
			i = len(lists)
			if w != v {
				t.Fail("UnionOfVariables:altered", "UnionOfVariables alters v%d: %+v", v.ID, v)
			}
		}
	}
}

func find(l []sym.Variable, id uint64) (sym.Variable, bool) {
	for _, w := range l {
		if w.ID == id {
			return w, true
		}
	}
	return sym.Variable{}, false
}

func runTermLookup(t *T) {
	ce := newCE(t)
	ce.wild = true
	ce.tall = true
	ce.alias = true
	ce.zeroEx = t.P(1, 10)
	p := ce.polynomial()
	v := ce.diffVar()
	var m sym.Monomial
	switch t.W(4, 2, 2, 2) {
	case 0:
		m = ce.permuteMonomial(p.Monomials[t.N(len(p.Monomials))])
		m.Coefficient = ce.coef(true)
	case 1:
		m = ce.monomial(true)
	case 2: // same variables, one exponent changed
		m = ce.permuteMonomial(p.Monomials[t.N(len(p.Monomials))])
		if len(m.Exponents) > 0 {
			m.Exponents = append([]int{}, m.Exponents...)
			m.Exponents[t.N(len(m.Exponents))]++
		}
	case 3: // one variable fewer or more
		m = ce.permuteMonomial(p.Monomials[t.N(len(p.Monomials))])
		if k := len(m.Exponents); k > 0 && t.Bool() {
			m = sym.Monomial{Coefficient: m.Coefficient, VariableFactors: m.VariableFactors[:k-1], Exponents: m.Exponents[:k-1]}
		} else {
			w := ce.absentVar()
			m = sym.Monomial{Coefficient: m.Coefficient, VariableFactors: append(append([]sym.Variable{}, m.VariableFactors...), w), Exponents: append(append([]int{}, m.Exponents...), 1)}
		}
	}
	t.Logf("%s: v%d, %s", show(p), v.ID, show(m))
	if len(p.Monomials) >= 2 {
		t.NonTrivial()
	}
	// the exponents of a term, zero ones left out
	form := func(m sym.Monomial) string { return monKey(m) }
	varForm := keyOf(canon([]pair{{v.ID, 1}}))
	judge := func(name string, i int, match func(q sym.Monomial) bool, what string) {
		any := false
		for _, q := range p.Monomials {
			any = any || match(q)
		}
		t.Label("%s %v", name, any)
		if !any && i != -1 || any && (i < 0 || i >= len(p.Monomials) || !match(p.Monomials[i])) {
			t.Fail(name, "%s of %s in %s is %d", name, what, show(p), i)
		}
	}
	var ci, vi, mi int
	if c := t.Try(func() { ci = p.ConstantMonomialIndex(); vi = p.VariableMonomialIndex(v); mi = p.MonomialIndex(m) }); c != nil {
		t.Fail("lookup:panic", "looking up terms of %s: %v", show(p), c)
	}
	judge("ConstantMonomialIndex", ci, func(q sym.Monomial) bool { return form(q) == keyOf(nil) }, "a constant")
	judge("VariableMonomialIndex", vi, func(q sym.Monomial) bool { return form(q) == varForm }, fmt.Sprintf("v%d", v.ID))
	judge("MonomialIndex", mi, func(q sym.Monomial) bool { return form(q) == form(m) }, show(m))
	// the predicates these searches are made of
	for _, q := range append([]sym.Monomial{m}, p.Monomials...) {
		var c1, z1, d1, v1, f1 bool
		if c := t.Try(func() {
			c1, z1, d1, v1 = q.IsConstant(), q.IsZero(), q.IsDegreeOneContainingVariable(v), q.IsVariable(v)
			f1 = q.MatchesFormOf(m)
		}); c != nil {
			t.Fail("predicate:panic", "predicates of %s: %v", show(q), c)
		}
		if c1 != (form(q) == keyOf(nil)) && !(q.Coefficient == 0) {
			t.Fail("IsConstant", "IsConstant of %s is %v", show(q), c1)
		}
		if z1 != (q.Coefficient == 0) {
			t.Fail("IsZero", "IsZero of %s is %v", show(q), z1)
		}
		if d1 != (form(q) == varForm) {
			t.Fail("IsDegreeOneContainingVariable", "IsDegreeOneContainingVariable(v%d) of %s is %v", v.ID, show(q), d1)
		}
		if v1 != (form(q) == varForm && q.Coefficient == 1) {
			t.Fail("IsVariable", "IsVariable(v%d) of %s is %v", v.ID, show(q), v1)
		}
		if f1 != (form(q) == form(m)) {
			t.Fail("MatchesFormOf", "%s matches the form of %s: %v", show(q), show(m), f1)
		}
	}
}

func runConstraintVariables(t *T) {
	ce := newCE(t)
	ce.tall = true
	ce.alias = true
	x := ce.expr()
	m := mustDenote(x)
	y := ce.withShape(m.r, m.c, kindOf(x).level())
	k := constraintOf(x, y, senses[t.N(3)])
	t.Logf("%s", show(k))
	t.Label("%T", k)
	want := distinct(append(idsOf(x.Variables()), idsOf(y.Variables())...))
	if len(want) >= 2 {
		t.NonTrivial()
	}
	var got []sym.Variable
	if c := t.Try(func() { got = sym.VariablesInThisConstraint(k) }); c != nil {
		t.Fail("VariablesInThisConstraint:panic", "VariablesInThisConstraint(%s): %v", show(k), c)
	}
	set := map[uint64]bool{}
	for _, v := range got {
		if set[v.ID] {
			t.Fail("VariablesInThisConstraint:twice", "VariablesInThisConstraint(%s) lists v%d twice", show(k), v.ID)
		}
		set[v.ID] = true
	}
	ok := len(set) == len(want)
	for _, id := range want {
		ok = ok && set[id]
	}
	if !ok {
		t.Fail("VariablesInThisConstraint", "VariablesInThisConstraint(%s) is %v, its sides report %v", show(k), idsOf(got), want)
	}
}

// A search in a slice of another element type finds nothing and says so.
func runFindMismatch(t *T) {
	ce := newCE(t)
	needles := []interface{}{"s", t.N(9), uint64(t.N(9)), ce.anyVar(), 1.5, int64(2), nil, true}
	slices := []interface{}{[]string{"s"}, []int{t.N(9)}, []uint64{uint64(t.N(9))}, []sym.Variable{ce.anyVar()}, []float64{1.5}, []int64{2}, nil, "s", 3, []interface{}{"s"}, []string(nil), []uint64{}, map[string]int{"s": 1}, [1]int{1}}
	i, j := t.N(len(needles)), t.N(len(slices))
	if i < 4 && (i == j || i == 0 && j == 10 || i == 2 && j == 11) {
		t.Discard("a search that can succeed")
	}
	x, xs := needles[i], slices[j]
	if i < 4 {
		t.NonTrivial()
	}
	t.Label("%T in %T", x, xs)
	t.Logf("find a %T in a %T", x, xs)
	var at int
	var err error
	if c := t.Try(func() { at, err = sym.FindInSlice(x, xs) }); c != nil {
		t.Fail(fmt.Sprintf("FindInSlice:panic:%T", x), "searching a %T in a %T panics instead of returning an error: %v", x, xs, c)
	}
	if err == nil || at != -1 {
		t.Fail(fmt.Sprintf("FindInSlice:mismatch:%T", x), "searching a %T in a %T answers %d, %v", x, xs, at, err)
	}
}

func init() {
	register(&Property{ID: "C22",
		Rule:   "a case is one search, one family of lists, one polynomial with terms to look up, or one constraint; non-trivial when the slice has at least two elements and both matching and other ones, when something occurs twice next to something else, when the polynomial has two terms, when two variables are involved",
		Assume: []string{"variables are the same when their identifiers are; a search may return any position at which the value occurs"},
		Families: []Family{
			{Name: "find", Quick: 100000, Thorough: 2000000, Rule: "FindInSlice over strings, ints, identifiers and variables", Run: runFind},
			{Name: "long", Quick: 3000, Thorough: 40000, Rule: "a list of 20 to 500 identifiers and variables in some arrangement, with repetitions", Run: runLong},
			{Name: "mismatch", Quick: 20000, Thorough: 200000, Rule: "searching in a slice of another element type returns -1 and an error", Run: runFindMismatch},
			{Name: "sets", Quick: 80000, Thorough: 1500000, Rule: "Unique, UniqueVars and UnionOfVariables keep first occurrences", Run: runSets},
			{Name: "terms", Quick: 80000, Thorough: 1500000, Rule: "term lookup in polynomials and the predicates behind it", Run: runTermLookup},
			{Name: "constraint", Quick: 40000, Thorough: 600000, Rule: "the variables of a constraint are the union of those of its sides", Run: runConstraintVariables},
		}})
}

// runLong searches, de-duplicates and unites long lists whose identifiers come in every
// arrangement: ascending, descending, shuffled, far apart, equal in their low bits.
func runLong(t *T) {
	ce := newCE(t)
	n := t.Range(20, 150)
	if t.P(1, 4) {
		n = t.Range(150, 500)
	}
	ids := make([]uint64, n)
	base := uint64(t.Range(0, 3))
	if t.P(1, 4) {
		base = 1<<64 - 1 - uint64(t.Range(0, 600))
	}
	step := uint64(1) << uint(t.W(6, 2, 1, 1, 1, 1, 1, 1, 1)*8%63)
	for i := range ids {
		ids[i] = base + uint64(i)*step
	}
	switch t.N(4) {
	case 0:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
		t.Label("descending")
	case 1:
		p := t.Perm(n)
		q := make([]uint64, n)
		for i := range p {
			q[i] = ids[p[i]]
		}
		ids = q
		t.Label("shuffled")
	case 2:
		k := t.N(n)
		ids = append(append([]uint64{}, ids[k:]...), ids[:k]...)
		t.Label("rotated")
	default:
		t.Label("ascending")
	}
	for k := t.W(3, 2, 2, 2, 1, 1); k > 0; k-- { // repetitions, near and far
		i := t.N(n)
		for j := t.W(1, 3, 2, 1); j > 0; j-- {
			ids[t.N(n)] = ids[i]
		}
	}
	proto := ce.anyVar()
	vs := make([]sym.Variable, n)
	ordinal := map[uint64]int{}
	names := t.N(3)
	for i := range vs {
		if _, ok := ordinal[ids[i]]; !ok {
			ordinal[ids[i]] = len(ordinal)
		}
		v := proto
		v.ID = ids[i]
		switch names {
		case 0:
			v.Name = ownName(ordinal[ids[i]])
		case 1:
			v.Name = fmt.Sprintf("x_%d", v.ID)
		}
		vs[i] = v
	}
	want := distinct(ids)
	t.Logf("identifiers %v", ids)
	if len(want) < n {
		t.NonTrivial()
	}
	check := func(what string, got []uint64) {
		if !sameIDs(got, want) {
			t.Fail(what+":long", "%s of %v is %v", what, ids, got)
		}
	}
	before := append([]uint64{}, ids...)
	var u []uint64
	var d, un []sym.Variable
	cuts := []int{t.N(n + 1), t.N(n + 1)}
	sort.Ints(cuts)
	if c := t.Try(func() {
		u = sym.Unique(ids)
		d = sym.UniqueVars(vs)
		un = sym.UnionOfVariables(vs[:cuts[0]:cuts[0]], vs[cuts[0]:cuts[1]:cuts[1]], vs[cuts[1]:])
	}); c != nil {
		t.Fail("long:panic", "Unique, UniqueVars or UnionOfVariables of %v: %v", ids, c)
	}
	if !sameIDs(before, ids) || !sameIDs(before, idsOf(vs)) {
		t.Fail("long:changed", "the list %v was changed to %v", before, ids)
	}
	check("Unique", u)
	check("UniqueVars", idsOf(d))
	check("UnionOfVariables", idsOf(un))
	for k := 0; k < 12; k++ {
		id := ids[t.N(n)]
		v := proto
		if t.P(1, 3) {
			id += uint64(t.Range(0, 4)) - 2
		} else if t.P(1, 8) {
			id = id ^ 1<<uint(t.Range(0, 63))
		}
		v.ID = id
		if o, ok := ordinal[id]; ok && names == 0 {
			v.Name = ownName(o)
		} else if names == 1 {
			v.Name = fmt.Sprintf("x_%d", id)
		}
		_, there := ordinal[id]
		for _, what := range []string{"identifier", "variable"} {
			var x, list interface{} = id, ids
			if what == "variable" {
				x, list = v, vs
			}
			var i int
			var err error
			if c := t.Try(func() { i, err = sym.FindInSlice(x, list) }); c != nil || err != nil {
				t.Fail("FindInSlice:long", "searching %s %d among %v: %v %v", what, id, ids, c, err)
			}
			if !there && i != -1 || there && (i < 0 || i >= n || ids[i] != id) {
				t.Fail("FindInSlice:long", "searching %s %d among %v answers %d", what, id, ids, i)
			}
		}
	}
}
