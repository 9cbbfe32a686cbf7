package main

import (
	"fmt"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C08", run: c08, traces: validated,
		bounds: "all combinator trees of depth 1 (arity <= 3) and depth 2 (arity <= 2 over all depth-1 trees; thorough: arity 3 over representatives of every truth table) over 5 leaves that realise all 8 verdict patterns, depth 3 over representatives of every truth table and shape, every path of 10 combinator steps to depth 4 (6), negation and single-child chains to depth 64, combinators of 0..60 children with every position of one odd child and every pair; each as built and with Reduce applied at every node; combinators with numbers of children at and around powers of two and round numbers up to 4097"})
}

// reduced builds the tree applying Reduce wherever there is one.
func reduced(s *Spec, r jsval.RefResolver) jsval.Constraint {
	switch s.Kind {
	case "any":
		c := jsval.Any()
		for _, k := range s.Kids {
			c.Add(reduced(k, r))
		}
		return c.Reduce()
	case "all":
		c := jsval.All()
		for _, k := range s.Kids {
			c.Add(reduced(k, r))
		}
		return c.Reduce()
	case "oneof":
		c := jsval.OneOf()
		for _, k := range s.Kids {
			c.Add(reduced(k, r))
		}
		return c.Reduce()
	case "not":
		return jsval.Not(reduced(s.Kids[0], r))
	}
	return s.Build(r)
}

func (x *X) combo(s *Spec, vals []J, bits []uint16) {
	x.Case(func() string { return s.String() }, func() {
		x.Traces++
		c := s.Build(nil)
		r := reduced(s, nil)
		what := func() string { return s.String() }
		for _, v := range vals {
			want := s.Eval(nil, v)
			x.States++
			x.expect(c, v, want, what)
			x.expect(r, v, want, func() string { return "reduced " + s.String() })
		}
	})
}

func c08(x *X) {
	c08defaults(x)
	vals := []J{}
	for i := 0; i < 8; i++ {
		vals = append(vals, float64(i))
	}
	leaf := func(b int) *Spec {
		s := enum()
		for i := 0; i < 8; i++ {
			if i>>b&1 != 0 {
				s.Enum = append(s.Enum, float64(i))
			}
		}
		return s
	}
	// leaves of other kinds with the same verdicts
	high := numMin(4)
	leaves := []*Spec{leaf(0), leaf(1), high, sEmpty, sNull}
	combs := func(kids []*Spec) []*Spec { return []*Spec{any_(kids...), all(kids...), oneof(kids...)} }
	var l1 []*Spec
	l1 = append(l1, combs(nil)...)
	for _, a := range leaves {
		l1 = append(l1, not(a))
		l1 = append(l1, combs([]*Spec{a})...)
		for _, b := range leaves {
			l1 = append(l1, combs([]*Spec{a, b})...)
			for _, c := range leaves {
				l1 = append(l1, combs([]*Spec{a, b, c})...)
			}
		}
	}
	for _, s := range l1 {
		x.combo(s, append(vals, "s", nil, L{}, M{}), nil)
	}
	pool := append(append([]*Spec{}, leaves...), l1...)
	for _, a := range pool {
		x.combo(not(a), vals, nil)
		for _, s := range combs([]*Spec{a}) {
			x.combo(s, vals, nil)
		}
		for _, b := range pool {
			for _, s := range combs([]*Spec{a, b}) {
				x.combo(s, vals, nil)
			}
		}
	}
	// representatives: one per (truth table, kind at the top)
	table := func(s *Spec) string {
		t := s.Kind + ":"
		for _, v := range vals {
			if s.Eval(nil, v) {
				t += "1"
			} else {
				t += "0"
			}
		}
		return t
	}
	reps := func(pool []*Spec, max int) []*Spec {
		seen := map[string]bool{}
		var out []*Spec
		for _, s := range pool {
			if t := table(s); !seen[t] && len(out) < max {
				seen[t] = true
				out = append(out, s)
			}
		}
		return out
	}
	rep1 := reps(pool, 1000)
	var l2 []*Spec
	for _, a := range rep1 {
		l2 = append(l2, not(a))
		for _, b := range rep1 {
			l2 = append(l2, combs([]*Spec{a, b})...)
			if x.thorough {
				for _, c := range rep1 {
					for _, s := range combs([]*Spec{a, b, c}) {
						x.combo(s, vals, nil)
					}
				}
			}
		}
	}
	x.big(4097, "combinator")
	max := 120
	if x.thorough {
		max = 400
	}
	rep2 := reps(l2, max)
	for _, a := range rep2 {
		x.combo(not(a), vals, nil)
		for _, b := range rep2 {
			for _, s := range combs([]*Spec{a, b}) {
				x.combo(s, vals, nil)
			}
		}
	}
	pd := 4
	if x.thorough {
		pd = 6
	}
	x.combinatorPaths(vals, leaf(1), pd)
	// wide
	T, F := sEmpty, not(sEmpty)
	for n := 0; n <= 60; n++ {
		x.Case(func() string { return fmt.Sprintf("combinators with %d children", n) }, func() {
			try := func(pick func(i int) bool) {
				kids := make([]*Spec, n)
				for i := range kids {
					kids[i] = F
					if pick(i) {
						kids[i] = T
					}
				}
				for _, s := range combs(kids) {
					x.States++
					x.Traces++
					want := s.Eval(nil, 1.0)
					x.expect(s.Build(nil), 1.0, want, func() string { return s.String() })
					x.expect(not(s).Build(nil), 1.0, !want, func() string { return not(s).String() })
					x.expect(reduced(s, nil), 1.0, want, func() string { return "reduced " + s.String() })
				}
			}
			try(func(i int) bool { return true })
			try(func(i int) bool { return false })
			for p := 0; p < n; p++ {
				try(func(i int) bool { return i == p })
				try(func(i int) bool { return i != p })
				for q := 0; q < p; q++ {
					try(func(i int) bool { return i == p || i == q })
				}
			}
		})
	}
	// deep
	for d := 1; d <= 64; d++ {
		for f := 0; f < 4; f++ {
			s := leaf(0)
			for i := 0; i < d; i++ {
				switch (f + i*(f&1)) % 4 {
				case 0:
					s = not(s)
				case 1:
					s = any_(F, s)
				case 2:
					s = all(s, T)
				case 3:
					s = oneof(s)
				}
			}
			x.combo(s, vals, nil)
		}
	}
	// children of every kind, and combinators below objects and arrays
	kinds := []*Spec{sStr, strMin(2), sNum, intMin(2), sBool, sNull, sEmpty, arr(sNum), obj(Prop{"a", sNum}), enum("a", 1.0), enum(M{"a": 1.0})}
	kv := []J{nil, true, 1.0, 2.0, 1.5, "a", "ab", L{}, L{1.0}, L{"a"}, M{}, M{"a": 1.0}, M{"a": "x"}, M{"b": 1.0}}
	for _, a := range kinds {
		x.grid(not(a), nil, kv)
		for _, b := range kinds {
			for _, s := range combs([]*Spec{a, b}) {
				x.combo(s, kv, nil)
				x.grid(not(s), nil, kv)
				var wrapped []J
				for _, v := range kv {
					wrapped = append(wrapped, M{"a": v}, L{v}, L{v, 1.0}, L{"a", v})
				}
				x.grid(obj(Prop{"a", s}), nil, wrapped)
				x.grid(arr(s), nil, wrapped)
				x.grid(arr(not(s)), nil, wrapped)
			}
			for _, c := range kinds {
				for _, s := range combs([]*Spec{a, b, c}) {
					x.combo(s, kv, nil)
				}
			}
		}
	}
	// what Reduce returns
	for _, a := range kinds {
		x.Case(func() string { return "Reduce of single " + a.String() }, func() {
			for _, s := range combs([]*Spec{a}) {
				x.gridBody(s, nil, kv, reduced(s, nil).(validator))
			}
		})
	}
}

// c08defaults: children that store defaults. Alternatives are independent of
// each other as long as none of the children before stored anything; where
// one did, the library lets the next one see it (a known finding).
func c08defaults(x *X) {
	open := &Spec{Kind: "object", AddProps: sEmpty}
	fills := open.with(func(s *Spec) { s.Props = []Prop{{"a", dnum(1.0)}} })
	fails := fills.with(func(s *Spec) { s.Required = []string{"z"} })
	none := open.with(func(s *Spec) { s.MaxProps = ip(0) })
	needs := open.with(func(s *Spec) { s.Required = []string{"a"} })
	two := open.with(func(s *Spec) { s.MinProps = ip(1) })
	kids := []*Spec{none, needs, two, fails, sStr}
	vals := []J{M{}, M{"a": 1.0}, M{"z": 1.0}, M{"b": 1.0}, M{"a": 1.0, "z": 1.0}, nil, "s"}
	run := func(s *Spec) {
		x.Case(func() string { return "children with defaults: " + s.String() }, func() {
			x.Traces++
			for _, v := range vals {
				x.States++
				x.expect(s.Build(nil), cpJ(v), s.Eval(nil, v), func() string { return s.String() })
				x.expect(reduced(s, nil), cpJ(v), s.Eval(nil, v), func() string { return "reduced " + s.String() })
			}
		})
	}
	// the filling child last, or before children that do not look
	for _, a := range kids {
		if a == fails {
			continue
		}
		for _, b := range kids {
			if b == fails {
				continue
			}
			for _, f := range []*Spec{fills, fails} {
				run(any_(a, b, f))
				run(all(a, b, f))
				run(oneof(a, b, f))
				run(all(a, not(f)))
				run(any_(a, all(b, f)))
			}
			run(any_(fills, a, b))
		}
	}
	run(all(fills, sEmpty, open))
	run(oneof(fills, sStr, sNull))
	// failing children leave nothing behind at their own level
	bad := []*Spec{open.with(func(s *Spec) { s.Props = []Prop{{"a", dnum(1.0)}, {"b", sStr}} }), open.with(func(s *Spec) { s.Props = []Prop{{"a", dnum(1.0)}}; s.Pats = []Prop{{"b", sStr}} }), {Kind: "object", Props: []Prop{{"a", dnum(1.0)}}, AddProps: sStr}, open.with(func(s *Spec) { s.Props = []Prop{{"a", dnum(1.0)}}; s.PropDeps = []Dep{{"b", []string{"q"}}} }), open.with(func(s *Spec) { s.Props = []Prop{{"a", dnum(1.0)}}; s.SchemaDeps = []Prop{{"b", none}} })}
	one := open.with(func(s *Spec) { s.MaxProps = ip(1) })
	for _, f := range bad {
		for _, k := range []*Spec{one, not(needs), needs} {
			for _, s := range []*Spec{any_(f, k), oneof(f, k), all(not(f), k), oneof(f, not(f), k)} {
				x.Case(func() string { return "failing child with defaults: " + s.String() }, func() {
					x.Traces++
					x.States++
					v := M{"b": 1.0}
					x.expect(s.Build(nil), cpJ(v), s.Eval(nil, v), func() string { return s.String() })
				})
			}
		}
	}
	for _, s := range []*Spec{oneof(fills, none), all(fills, none), all(fills, needs)} {
		x.Case(func() string { return "defaults seen by a sibling: " + s.String() + " on {}" }, func() {
			x.Traces++
			x.States++
			x.expect(s.Build(nil), M{}, s.Eval(nil, M{}), func() string { return s.String() })
		})
	}
}
