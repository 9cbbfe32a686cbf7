package main

import "fmt"

func init() {
	register(&check{id: "C07", run: c07, traces: validated,
		bounds: "all 13500 combinations of declared, pattern, required and additional properties, count limits, property and schema dependencies x all 128 maps over four names; all 512 property-dependency graphs over 3 names x all 27 ways of declaring the names (declared, matched by a pattern, additional) x all presence/null patterns; all schema dependencies (5 schemas per name) x 27 declarations x all maps; property and schema dependencies mixed; dependency lists, triggers and chains of every size up to 30; each under two map iteration orders; 30 quadruples of easily confused property names (empty, case variants, spaces, prefixes, pointers, keywords, control characters) x 648 object configurations x 33 maps; dependency lists, triggers and chains at and around powers of two and round numbers up to 1025; defaults below dependency schemas; the combinations of object keywords with defaulted declarations; every constraint configured in both orders of the calls",
		notes:  []string{"a property with both a non-empty property dependency and a schema dependency is judged by the former only, as the library does"}})
}

func declare(names []string, how int, c *Spec, s *Spec) {
	for _, n := range names {
		switch how % 3 {
		case 0:
			s.Props = append(s.Props, Prop{n, c})
		case 1:
			s.Pats = append(s.Pats, Prop{"^" + n + "$", c})
		case 2:
			s.AddProps = c
		}
		how /= 3
	}
}

func presence(names []string, vals []J) []J {
	out := []J{}
	var rec func(i int, m M)
	rec = func(i int, m M) {
		if i == len(names) {
			c := M{}
			for k, v := range m {
				c[k] = v
			}
			out = append(out, c)
			return
		}
		rec(i+1, m)
		for _, v := range vals {
			m[names[i]] = v
			rec(i+1, m)
			delete(m, names[i])
		}
	}
	rec(0, M{})
	return out
}

func c07(x *X) {
	names := []string{"a", "b", "c"}
	maps := presence(names, []J{1.0, nil})
	maps2 := presence(names, []J{1.0, "s"})
	sub := func(mask int) []string {
		var l []string
		for i, n := range names {
			if mask>>i&1 != 0 {
				l = append(l, n)
			}
		}
		return l
	}
	x.features()
	x.defaultedFeatures()
	x.oddlyNamed()
	x.big(1025, "dependency")
	c09below(x)
	for g := 0; g < 512; g++ {
		for how := 0; how < 27; how++ {
			s := &Spec{Kind: "object"}
			declare(names, how, sEmpty, s)
			for i, n := range names {
				if d := sub(g >> (3 * i) & 7); len(d) > 0 {
					s.PropDeps = append(s.PropDeps, Dep{n, d})
				}
			}
			x.grid(s, nil, maps)
		}
	}
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	schemas := []*Spec{nil,
		open(func(s *Spec) { s.Required = []string{"b"} }),
		open(func(s *Spec) { s.MinProps = ip(2) }),
		open(func(s *Spec) { s.Props = []Prop{{"a", sNum}, {"c", sStr}} }),
		not(open(func(s *Spec) { s.Required = []string{"c"} })),
	}
	for g := 0; g < 125; g++ {
		for how := 0; how < 27; how++ {
			s := &Spec{Kind: "object"}
			declare(names, how, sEmpty, s)
			d := g
			for _, n := range names {
				if c := schemas[d%5]; c != nil {
					s.SchemaDeps = append(s.SchemaDeps, Prop{n, c})
				}
				d /= 5
			}
			x.grid(s, nil, maps2)
		}
	}
	// schemas of every kind; failing property values; both kinds of dependency
	kinds := []*Spec{sEmpty, sNull, sStr, obj(), obj(Prop{"a", sNum}), open(func(s *Spec) { s.Pats = []Prop{{"^b", sStr}} }), all(schemas[1], schemas[2]), any_(schemas[1], schemas[4]), oneof(schemas[1], schemas[2]), ref("r"), &Spec{Kind: "object", AddProps: sNum}, enum(M{"a": 1.0, "b": "s"}),
		open(func(s *Spec) { s.PropDeps = []Dep{{"b", []string{"c"}}} }), open(func(s *Spec) { s.SchemaDeps = []Prop{{"b", schemas[3]}} })}
	env := Env{"r": schemas[2]}
	for _, kd := range kinds {
		for how := 0; how < 27; how++ {
			for pd := 0; pd < 8; pd++ {
				for _, val := range []*Spec{sEmpty, sNum} {
					s := &Spec{Kind: "object", SchemaDeps: []Prop{{"a", kd}}}
					declare(names, how, val, s)
					if pd&1 != 0 {
						s.PropDeps = append(s.PropDeps, Dep{"b", []string{"c"}})
					}
					if pd&2 != 0 {
						s.PropDeps = append(s.PropDeps, Dep{"a", []string{"b"}})
					}
					if pd&4 != 0 {
						s.PropDeps = append(s.PropDeps, Dep{"c", nil}, Dep{"a", nil})
						s.SchemaDeps = append(s.SchemaDeps, Prop{"c", schemas[1]})
					}
					x.grid(s, env, maps2)
				}
			}
		}
	}
	// long dependency lists, one missing anywhere; lists given in pieces
	for n := 1; n <= 30; n++ {
		var to []string
		full := M{"t": 1.0}
		for i := 0; i < n; i++ {
			to = append(to, nm(i))
			full[nm(i)] = 1.0
		}
		vals := []J{full, M{"t": 1.0}, M{}, M{nm(0): 1.0}}
		for i := 0; i < n; i++ {
			m := M{}
			for k, v := range full {
				if k != nm(i) {
					m[k] = v
				}
			}
			o := M{}
			for k, v := range m {
				if k != "t" {
					o[k] = v
				}
			}
			vals = append(vals, m, o)
		}
		for form := 0; form < 4; form++ {
			s := &Spec{Kind: "object", AddProps: sEmpty}
			switch form {
			case 0:
				s.PropDeps = []Dep{{"t", to}}
			case 1:
				for _, d := range to {
					s.PropDeps = append(s.PropDeps, Dep{"t", []string{d}})
				}
				s.Props = []Prop{{"t", sEmpty}}
			case 2: // a chain
				prev := "t"
				for _, d := range to {
					s.PropDeps = append(s.PropDeps, Dep{prev, []string{d}})
					prev = d
				}
			case 3: // many triggers, of schemas
				for _, d := range to {
					s.SchemaDeps = append(s.SchemaDeps, Prop{d, open(func(s *Spec) { s.Required = []string{"t"} })})
					s.Props = append(s.Props, Prop{d, sNum})
				}
			}
			x.Case(func() string { return fmt.Sprintf("%d dependencies, form %d", n, form) }, func() { x.gridBody(s, nil, vals, s.Validator(nil)) })
		}
	}
	// unusual names
	for _, n := range []string{"", "%s", "é", "a.b", "\"", repeat("x", 200)} {
		for _, m := range []string{"", "%d", "日", "b c"} {
			s := &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{n, []string{m}}}, SchemaDeps: []Prop{{m, open(func(s *Spec) { s.MaxProps = ip(2) })}}}
			if n == m {
				continue
			}
			x.grid(s, nil, presence([]string{n, m, "z"}, []J{1.0}))
		}
	}
	// dependencies in nested objects and through map kinds
	inner := &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"b"}}}}
	var vals []J
	for _, m := range maps {
		vals = append(vals, M{"a": m}, M{"k": m, "a": 1.0}, L{m, M{}}, m)
	}
	for _, s := range []*Spec{arr(inner), obj(Prop{"a", inner}, Prop{"k", sEmpty}), {Kind: "object", AddProps: inner}, any_(inner, arr(inner)), not(inner)} {
		x.grid(s, nil, vals)
	}
	var kv []J
	for _, mm := range presence(names, []J{1.0}) {
		m := mm.(M)
		f, ks := map[string]float64{}, map[keyString]interface{}{}
		for k, v := range m {
			f[k], ks[keyString(k)] = v.(float64), v
		}
		kv = append(kv, f, ks, &m, &f)
	}
	x.grid(inner, nil, kv)
	x.grid(inner.with(func(s *Spec) { s.SchemaDeps = []Prop{{"c", schemas[1]}} }), nil, kv)
}
