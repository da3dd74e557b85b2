package main

// C17: variables created or tracked in environments.

import (
	"fmt"
	"math"
	"sync"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// scrambledEnv is a user-written environment that reports its variables newest first.
type scrambledEnv struct{ vs []sym.Variable }

func (e *scrambledEnv) GetName() string { return "scrambled" }
func (e *scrambledEnv) TrackVariable(v sym.Variable) bool {
	for _, u := range e.vs {
		if u.ID == v.ID {
			return false
		}
	}
	e.vs = append([]sym.Variable{v}, e.vs...)
	return true
}
func (e *scrambledEnv) AllTrackedVariables() []sym.Variable {
	return append([]sym.Variable{}, e.vs...)
}

type envModel struct {
	name    string
	env     sym.Environment
	ids     map[uint64]string // id -> fingerprint of the tracked variable
	created map[string]bool   // names handed out here
	order   []uint64
	ordered bool
	isDef   bool
	basic   bool           // the library's own environment
	held    []sym.Variable // a list of variables the caller got earlier and extended
	want    []string
}

var defaultEnvLock sync.Mutex

func varPrint(v sym.Variable) string {
	return fmt.Sprintf("%d %v %v %v %q", v.ID, v.Lower, v.Upper, v.Type, v.Name)
}

// foreignName is the name of a variable the environment did not create: anything,
// including a name the library itself would give to another variable.
func foreignName(t *T, prefix string, id uint64) string {
	switch t.W(6, 3, 1) {
	case 1:
		return fmt.Sprintf("x_%d", t.N(14))
	case 2:
		return []string{"", "x", "own"}[t.N(3)]
	}
	return fmt.Sprintf("%s%d", prefix, id)
}

func runEnvironment(t *T) {
	var envs []*envModel
	n := t.Range(1, 3)
	useDefault := t.P(1, 4)
	if useDefault {
		// the default environment is shared by the process: this case owns it
		defaultEnvLock.Lock()
		saved := sym.DefaultEnvironment
		sym.DefaultEnvironment = sym.MakeBasicEnvironment("DefaultEnvironment")
		defer func() { sym.DefaultEnvironment = saved; defaultEnvLock.Unlock() }()
		envs = append(envs, &envModel{name: "default", env: &sym.DefaultEnvironment, ordered: true, isDef: true})
	}
	for i := 0; i < n; i++ {
		switch t.W(5, 2, 2) {
		case 0:
			// environments of one program may well share a name
			name := []string{fmt.Sprintf("env%d", i), "env", "DefaultEnvironment", ""}[t.W(3, 2, 1, 1)]
			e := sym.MakeBasicEnvironment(name)
			if e.GetName() != name {
				t.Fail("GetName", "MakeBasicEnvironment(%q) is called %q", name, e.GetName())
			}
			envs = append(envs, &envModel{name: name, env: &e, ordered: true})
		case 1: // set up by hand with existing variables
			e := &sym.BasicEnvironment{}
			for k := t.N(4); k > 0; k-- {
				id := uint64(t.N(8))
				dup := false
				for _, v := range e.Variables {
					dup = dup || v.ID == id
				}
				if !dup {
					e.Variables = append(e.Variables, sym.Variable{ID: id, Lower: 0, Upper: 4, Name: foreignName(t, "pre", id)})
				}
			}
			envs = append(envs, &envModel{name: fmt.Sprintf("preset%d", i), env: e, ordered: true})
		case 2:
			envs = append(envs, &envModel{name: fmt.Sprintf("custom%d", i), env: &scrambledEnv{}})
		}
	}
	for _, m := range envs {
		m.ids = map[uint64]string{}
		m.created = map[string]bool{}
		if _, custom := m.env.(*scrambledEnv); !custom {
			m.basic = true
		}
		for _, v := range m.env.AllTrackedVariables() {
			m.ids[v.ID] = varPrint(v)
			m.order = append(m.order, v.ID)
		}
	}
	var known []sym.Variable // every variable seen so far
	verify := func(what string) {
		for _, m := range envs {
			for i, v := range m.held {
				if varPrint(v) != m.want[i] {
					t.Fail("tracked:held", "after %s, entry %d of a list of variables that %s returned earlier changed from (%s) to (%s)", what, i, m.name, m.want[i], varPrint(v))
				}
			}
			vs := m.env.AllTrackedVariables()
			if len(vs) != len(m.ids) {
				t.Fail("tracked:count", "after %s, %s tracks %d variables, expected %d", what, m.name, len(vs), len(m.ids))
			}
			seen := map[uint64]bool{}
			for i, v := range vs {
				if seen[v.ID] {
					t.Fail("tracked:twice", "after %s, %s tracks v%d twice", what, m.name, v.ID)
				}
				seen[v.ID] = true
				if m.ids[v.ID] != varPrint(v) {
					t.Fail("tracked:changed", "after %s, %s tracks v%d as (%s), expected (%s)", what, m.name, v.ID, varPrint(v), m.ids[v.ID])
				}
				if m.ordered && m.order[i] != v.ID {
					t.Fail("tracked:order", "after %s, variable %d of %s is v%d, expected v%d", what, i, m.name, v.ID, m.order[i])
				}
			}
		}
	}
	// accept a variable that was created in m
	accept := func(m *envModel, v sym.Variable, what string, lo, hi float64, ty sym.VarType) {
		if _, dup := m.ids[v.ID]; dup {
			t.Fail("create:duplicate", "%s in %s gives v%d, which %s already tracks", what, m.name, v.ID, m.name)
		}
		if v.Name == "" || m.created[v.Name] {
			t.Fail("create:name", "%s in %s gives the name %q, which is not new there", what, m.name, v.Name)
		}
		if v.Lower != lo || v.Upper != hi || v.Type != ty {
			t.Fail("create:kind", "%s gives bounds [%v,%v] and type %v, expected [%v,%v] and %v", what, v.Lower, v.Upper, v.Type, lo, hi, ty)
		}
		if v.Environment != m.env {
			t.Fail("create:environment", "%s in %s gives a variable that belongs to %v", what, m.name, v.Environment)
		}
		if err := v.Check(); err != nil {
			t.Fail("create:check", "%s gives an ill-formed variable: %v", what, err)
		}
		m.ids[v.ID] = varPrint(v)
		m.order = append(m.order, v.ID)
		m.created[v.Name] = true
		known = append(known, v)
	}
	inf := sym.Infinity
	if float64(inf) < 1e30 {
		t.Fail("create:range", "the unbounded range of a new variable ends at %v", float64(inf))
	}
	steps := t.Range(2, 14)
	creations, trackings := 0, 0
	for s := 0; s < steps; s++ {
		m := envs[t.N(len(envs))]
		args := []sym.Environment{m.env}
		if m.isDef && t.P(3, 4) {
			args = nil
		}
		op := t.W(4, 3, 3, 3, 2, 5, 2, 2)
		what := ""
		var c *caught
		switch op {
		case 0, 1, 2:
			var v sym.Variable
			lo, hi, ty := -float64(inf), float64(inf), sym.Continuous
			switch op {
			case 0:
				what = "NewVariable"
				c = t.Try(func() { v = sym.NewVariable(args...) })
			case 1:
				what = "NewContinuousVariable"
				c = t.Try(func() { v = sym.NewContinuousVariable(args...) })
			case 2:
				what = "NewBinaryVariable"
				lo, hi, ty = 0, 1, sym.Binary
				c = t.Try(func() { v = sym.NewBinaryVariable(args...) })
			}
			t.Logf("%s in %s", what, m.name)
			if c == nil {
				accept(m, v, what, lo, hi, ty)
			}
			creations++
		case 3:
			k := t.Range(1, 4)
			if t.P(1, 20) {
				k = t.Range(9, 24)
			}
			if t.P(1, 400) {
				k = t.Range(60, 300)
			}
			what = fmt.Sprintf("NewVariableVector(%d)", k)
			t.Logf("%s in %s", what, m.name)
			var vv sym.VariableVector
			c = t.Try(func() { vv = sym.NewVariableVector(k, args...) })
			if c == nil {
				if len(vv) != k {
					t.Fail("create:length", "%s has length %d", what, len(vv))
				}
				for _, v := range vv {
					accept(m, v, what, -float64(inf), float64(inf), sym.Continuous)
				}
			}
			creations += k
		case 4:
			r, cc := t.Range(1, 3), t.Range(1, 3)
			var vm sym.VariableMatrix
			if t.Bool() {
				what = fmt.Sprintf("NewVariableMatrix(%d,%d)", r, cc)
				c = t.Try(func() { vm = sym.NewVariableMatrix(r, cc, args...) })
			} else {
				what = fmt.Sprintf("NewVariableMatrixClassic(%d,%d)", r, cc)
				c = t.Try(func() { vm = sym.NewVariableMatrixClassic(r, cc, args...) })
			}
			t.Logf("%s in %s", what, m.name)
			if c == nil {
				if len(vm) != r {
					t.Fail("create:length", "%s has %d rows", what, len(vm))
				}
				for _, row := range vm {
					if len(row) != cc {
						t.Fail("create:length", "%s has a row of %d", what, len(row))
					}
					for _, v := range row {
						accept(m, v, what, -float64(inf), float64(inf), sym.Continuous)
					}
				}
			}
			creations += r * cc
		case 5:
			var v sym.Variable
			if len(known) > 0 && t.Bool() {
				v = known[t.N(len(known))]
			} else {
				id := uint64(t.N(12))
				if t.P(1, 8) {
					id = math.MaxUint64 - uint64(t.N(2))
				}
				v = sym.Variable{ID: id, Lower: -1, Upper: 5, Type: sym.Integer, Name: foreignName(t, "own", id)}
				known = append(known, v)
			}
			what = fmt.Sprintf("TrackVariable(v%d)", v.ID)
			t.Logf("%s in %s", what, m.name)
			_, dup := m.ids[v.ID]
			var added bool
			c = t.Try(func() { added = m.env.TrackVariable(v) })
			if c == nil {
				if added == dup {
					t.Fail("TrackVariable:answer", "%s in %s returns %v, already tracked: %v", what, m.name, added, dup)
				}
				if !dup {
					m.ids[v.ID] = varPrint(v)
					m.order = append(m.order, v.ID)
					// a foreign name is not one that the environment handed out
				}
			}
			trackings++
		case 7: // the list of tracked variables is the caller's
			if !m.basic {
				continue
			}
			what = "AllTrackedVariables"
			t.Logf("%s of %s, the list extended and changed", what, m.name)
			vs := m.env.AllTrackedVariables()
			vs = append(vs, sym.Variable{ID: 1<<40 + uint64(s), Name: "mine"})
			if t.Bool() && len(vs) > 1 {
				i := t.N(len(vs))
				vs[i] = sym.Variable{ID: 1<<41 + uint64(s), Name: "mine too"}
			}
			m.held, m.want = vs, nil
			for _, v := range vs {
				m.want = append(m.want, varPrint(v))
			}
		case 6: // computing with variables creates none
			if len(known) == 0 {
				continue
			}
			a, b := known[t.N(len(known))], known[t.N(len(known))]
			what = "arithmetic"
			t.Try(func() {
				e := a.Plus(b).Multiply(a).Plus(2.0)
				_ = e.Substitute(b, sym.K(1))
				_ = e.DerivativeWrt(a)
				_ = e.LessEq(b)
				_ = e.String()
				_ = e.Variables()
			})
		}
		if c != nil {
			t.Fail("create:panic", "%s in %s: %v", what, m.name, c)
		}
		verify(what)
	}
	if creations >= 2 && (trackings > 0 || len(envs) > 1) {
		t.NonTrivial()
	}
	t.Label("%d environments", len(envs))
	if useDefault {
		t.Label("default environment")
	}
}

func init() {
	register(&Property{ID: "C17",
		Rule: "a case is a history of 2..14 creations and registrations over one to four environments (fresh, preset by hand, user-written, the default one); non-trivial when at least two variables are created and a variable is registered or a second environment exists",
		Assume: []string{
			"the environments a history starts from track no identifier twice",
			"environments are used by one goroutine at a time (the default environment is replaced for the duration of a case)",
			"identifiers are distinguishable within one environment; two environments may hand out the same identifier",
		},
		Families: []Family{
			{Name: "histories", Quick: 100000, Thorough: 3000000, Rule: "model of every environment compared after every step", Run: runEnvironment},
		}})
}
