package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C13", run: c13, traces: "every order and history is executed on the real library; each verdict is compared with the order- and history-free model, and the input, the behaviour of the validator and its generated code are compared before and after",
		bounds: "every sequence of map iteration orders that the runtime can produce inside one validation (complete for maps of up to 8 entries, up to 3000 (quick) or 60000 sequences per case, counted) for a grid of object constraints with overlapping patterns, requirements, additional properties, dependencies, defaults and nesting x maps and structs; all validation histories up to length 3 over 12 values on pairs of validators that share references and struct types; 400 repetitions of each verdict; 49 constraints x 99 Go values of many types in four orders and while the values change; 92 shapes of struct, each as a type never met before, through every sequence of 2 (quick) or 3 of its values; 2100 struct types in turn, 12000 validations; maps, slices and structs changed in place between validations: every sequence of 3 of 12 states; documents that differ in one of 80 places, in turn; every value once and another 300 times (66000 for some) for 18 constraints; alternatives that fail before the next one is tried: 9 objects with defaults x 8 constraints x 6 combinations x 27 maps under all map orders; unsorted lists and nested values given to enumerations of 1..72 members and to arrays and objects of as many others, compared afterwards; strings of up to 260 bytes that differ in one place, one after the other",
		notes:  []string{"larger maps are explored in 12 orders each"}})
}

func c13(x *X) {
	x.untouched()
	x.nearStrings()
	limit := 100000
	if x.thorough {
		limit = 2000000
	}
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	specs := []*Spec{
		{Kind: "object", Pats: []Prop{{"^a", sNum}, {"b$", sStr}}},
		{Kind: "object", Pats: []Prop{{"^a", sNum}, {"b$", sStr}}, AddProps: sNum},
		{Kind: "object", Pats: []Prop{{"a", not(sNull)}, {"b", not(sStr)}, {"^ab", sNum}}, AddProps: sEmpty},
		{Kind: "object", Props: []Prop{{"a", sNum}, {"b", sStr}}, Pats: []Prop{{"^a", sStr}}, AddProps: sNum},
		{Kind: "object", Props: []Prop{{"a", sNum}, {"b", sStr}, {"c", sEmpty}}, Required: []string{"a", "c"}},
		{Kind: "object", Props: []Prop{{"a", sNum}}, Required: []string{"b", "c"}, AddProps: sEmpty},
		{Kind: "object", Props: []Prop{{"a", dnum(1.0)}, {"b", dstr("d")}}, AddProps: sEmpty},
		{Kind: "object", Props: []Prop{{"a", dnum(1.0)}, {"b", dstr("d")}}, AddProps: sEmpty, Required: []string{"c"}},
		{Kind: "object", Props: []Prop{{"a", sEmpty}}, AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"b"}}, {"b", []string{"ab", "c"}}}},
		{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"c", []string{"a"}}}, SchemaDeps: []Prop{{"a", open(func(s *Spec) { s.Required = []string{"b"} })}, {"b", open(func(s *Spec) { s.MaxProps = ip(3) })}}},
		{Kind: "object", Props: []Prop{{"a", sEmpty}, {"b", sEmpty}}, Pats: []Prop{{"^ab$", sNum}}, AddProps: sStr, PropDeps: []Dep{{"ab", []string{"a"}}, {"c", []string{"b"}}}},
		{Kind: "object", AddProps: sNum, MinProps: ip(2), MaxProps: ip(3)},
		{Kind: "object", Pats: []Prop{{"a", sNum}, {"^.b?$", sNum}, {"c", sNum}}},
		any_(&Spec{Kind: "object", AddProps: sNum}, &Spec{Kind: "object", AddProps: sStr}),
		not(&Spec{Kind: "object", Pats: []Prop{{"^a", sNum}, {"b$", sStr}}}),
		oneof(&Spec{Kind: "object", Pats: []Prop{{"a", sNum}}, AddProps: sEmpty}, &Spec{Kind: "object", Pats: []Prop{{"b", sNum}}, AddProps: sEmpty}),
	}
	x.alternatives(limit)
	maps := smallMaps()
	for _, s := range specs {
		for g := 0; g < 16; g++ {
			x.Case(func() string { return fmt.Sprintf("all orders of %s, maps %d of 16", s, g) }, func() {
				for i := g; i < len(maps); i += 16 {
					x.orders(s, nil, maps[i], limit)
				}
			})
		}
	}
	// structs, nesting, lists of objects, references
	type st struct {
		A jsval.MaybeInt `json:"a"`
		B string         `json:"b"`
		C jsval.MaybeString
		D []interface{} `json:"d"`
	}
	env := Env{"r": specs[0], "s": sStr}
	vals := []J{st{}, st{A: mInt(1), B: "x"}, st{C: mString("x")}, st{A: mInt(1), C: mString("q"), D: L{1.0}}, L{M{"a": 1.0, "b": "s"}, M{"ab": 1.0}}, L{M{"ab": "s", "b": 1.0, "c": nil}}, M{"a": M{"a": 1.0, "ab": "s"}, "b": M{"b": "s"}}, M{"a": M{"b": 1.0, "cb": 1.0}, "b": "s", "c": L{M{"ab": 1.0}}}}
	deep := []*Spec{arr(specs[0]), arr(ref("r")), {Kind: "object", AddProps: ref("r")}, {Kind: "object", Props: []Prop{{"a", ref("r")}, {"b", any_(ref("s"), ref("r"))}}, AddProps: arr(ref("r"))},
		{Kind: "object", Props: []Prop{{"a", sInt}, {"b", strMin(1)}}, Pats: []Prop{{"^[A-Z]", sStr}}, AddProps: arr(nil)}, {Kind: "object", Pats: []Prop{{"", any_(sInt, sStr, arr(nil))}, {"^d", not(arr(sNum))}}}, {Kind: "object", AddProps: sEmpty, Required: []string{"a", "C"}}, {Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"C"}}}}, {Kind: "array", Unique: true}}
	for _, s := range deep {
		for _, v := range vals {
			x.Case(func() string { return fmt.Sprintf("all orders of %s on %s", s, show(v)) }, func() { x.orders(s, env, v, limit) })
		}
	}
	// larger maps, in several orders
	for n := 5; n <= 40; n += 5 {
		x.Case(func() string { return fmt.Sprintf("maps of %d properties in 12 orders", n) }, func() {
			good := M{}
			s := &Spec{Kind: "object", Pats: []Prop{{"^p", sNum}, {"[02468]$", not(enum(-1.0))}}}
			t := &Spec{Kind: "object"}
			for i := 0; i < n; i++ {
				good[nm(i)] = float64(i)
				t.Props = append(t.Props, Prop{nm(i), sNum})
				t.Required = append(t.Required, nm(i))
			}
			vs := []J{good}
			for i := 0; i < n; i++ {
				b := cpJ(good).(M)
				b[nm(i)] = "bad"
				c := cpJ(good).(M)
				c[nm(i)] = -1.0
				d := cpJ(good).(M)
				delete(d, nm(i))
				d["q"] = 1.0
				vs = append(vs, b, c, d)
			}
			for _, sp := range []*Spec{s, t, {Kind: "object", AddProps: sNum}, t.with(func(t *Spec) { t.AddProps = sNum; t.Required = nil })} {
				c := sp.Validator(nil)
				x.Traces++
				for _, v := range vs {
					want := sp.Eval(nil, v)
					x.States++
					for o := 0; o < 12; o++ {
						setOrder(o)
						x.expect(c, v, want, func() string { return fmt.Sprintf("%d properties", n) })
					}
				}
			}
		})
	}
	fills := &Spec{Kind: "object", Props: []Prop{{"a", dnum(1.0)}}, AddProps: sEmpty}
	none := &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(0)}
	two := &Spec{Kind: "object", Pats: []Prop{{"^k", fills}, {"k$", none}}}
	x.Case(func() string { return "defaults seen by a sibling: " + two.String() + " on {\"k\": {}}" }, func() {
		x.orders(two, nil, M{"k": M{}}, limit)
	})
	x.verdictMatrix()
	c13histories(x)
	c13pure(x)
}

// orders validates one value under every map iteration order.
func (x *X) orders(s *Spec, env Env, v J, limit int) {
	want := s.Eval(env, v)
	x.States++
	model := cpJ(v)
	if want {
		s.fill(env, model)
	}
	x.Traces++
	snap := fmt.Sprintf("%#v", v)
	n, complete := allOrders(limit, func(int) {
		var c *jsval.JSVal
		var in J
		hold(func() { c = s.Validator(env); in = cpJ(v) })
		err := c.Validate(in)
		hold(func() {
			x.Transitions++
			if (err == nil) != want {
				Failf("%s on %s: error %v, expected accept=%v, map order choices %v", s, show(v), err, want, verifState.Choice[:verifState.N])
			}
			if want && !reflect.DeepEqual(in, model) {
				Failf("%s on %s: content afterwards is %s, map order choices %v", s, show(v), show(in), verifState.Choice[:verifState.N])
			}
			if _, ok := v.(M); !ok && fmt.Sprintf("%#v", in) != snap {
				Failf("%s changed %s", s, snap)
			}
		})
	})
	if x.Tick(); !complete {
		x.Capped = true
		x.count("orders_capped", 1)
	}
	x.count("orders", int64(n))
}

func c13histories(x *X) {
	type T struct {
		A jsval.MaybeInt `json:"a"`
		B string         `json:"b"`
	}
	type U struct {
		A float64 `json:"b"`
		B string  `json:"a"`
	}
	vals := []func() J{
		func() J { return nil }, func() J { return "s" }, func() J { return 1.5 }, func() J { return L{1.0, 1.0} }, func() J { return L{"s"} }, func() J { return M{} },
		func() J { return M{"a": 1.0} }, func() J { return M{"a": 1.0, "b": "x"} }, func() J { return T{} }, func() J { return T{A: mInt(3)} }, func() J { return U{} }, func() J { return M{"a": M{"a": nil}} },
	}
	env := Env{"r": any_(sStr, obj(Prop{"a", ref("n")}, Prop{"b", sStr})), "n": sInt}
	specs := []*Spec{ref("r"), obj(Prop{"a", any_(sNum, ref("r"))}, Prop{"b", sStr}), {Kind: "array", Unique: true}, not(ref("r")), oneof(ref("r"), obj(Prop{"a", sEmpty})), {Kind: "object", AddProps: sEmpty, Required: []string{"a"}}, {Kind: "object", Pats: []Prop{{"^a", sInt}}, AddProps: sEmpty, MinProps: ip(1)}, strRx("^s"), sNum.with(func(s *Spec) { s.Min, s.ExMin = fp(1), true }), enum("s", L{"s"}, M{"a": 1.0}), {Kind: "object", Props: []Prop{{"b", dstr("d")}}, AddProps: sEmpty}}
	eval := func(s *Spec, v J) bool {
		// a defaulted property that cannot be stored in an unaddressable
		// struct: both struct types have the field b
		return s.Eval(env, v)
	}
	for i, s := range specs {
		for j, t := range specs {
			x.Case(func() string { return fmt.Sprintf("histories on %s and %s (%d,%d)", s, t, i, j) }, func() {
				shared := jsval.New()
				for _, n := range []string{"n", "r"} {
					shared.SetReference(n, env[n].Build(shared))
				}
				var seq []int
				var rec func(depth int)
				// one pair of validators lives through all histories, so
				// histories are concatenated as well
				c1 := jsval.New().SetConstraintMap(shared.ConstraintMap).SetRoot(s.Build(shared))
				c2 := jsval.New().SetConstraintMap(shared.ConstraintMap).SetRoot(t.Build(shared))
				n := len(vals)
				rec = func(depth int) {
					if depth == 0 {
						x.States++
						x.Traces++
						for _, k := range seq {
							c, sp := c1, s
							if k >= n {
								c, sp = c2, t
							}
							v := vals[k%n]()
							w := eval(sp, vals[k%n]())
							x.expect(c, v, w, func() string { return fmt.Sprintf("%s after history %v", sp, seq) })
						}
						return
					}
					for k := 0; k < 2*n; k++ {
						if depth == 1 && k%3 != (seq[0]+len(seq))%3 && !x.thorough {
							continue
						}
						seq = append(seq, k)
						rec(depth - 1)
						seq = seq[:len(seq)-1]
					}
				}
				rec(3)
			})
		}
	}
	x.manyTypes()
	x.structHistories()
	x.inPlace()
	x.nearValues()
	x.longRuns()
	for i, s := range specs {
		x.Case(func() string { return fmt.Sprintf("repetitions on %s (%d)", s, i) }, func() {
			c := s.Validator(env)
			for k := range vals {
				x.Traces++
				for r := 0; r < 400; r++ {
					x.States++
					x.expect(c, vals[k](), eval(s, vals[k]()), func() string { return fmt.Sprintf("%s, repetition %d", s, r) })
				}
			}
			for r := 0; r < 12000; r++ {
				k := r % len(vals)
				x.expect(c, vals[k](), eval(s, vals[k]()), func() string { return fmt.Sprintf("%s, round %d", s, r) })
			}
		})
	}
}

func genCode(vs ...*jsval.JSVal) (string, error) {
	var b bytes.Buffer
	err := jsval.NewGenerator().Process(&b, vs...)
	return b.String(), err
}

func c13pure(x *X) {
	env := Env{"r": obj(Prop{"a", sNum})}
	specs := []*Spec{sStr, strRx("a"), sNum, sInt, sBool, sNull, sEmpty, enum(1.0, "a", L{1.0}), enum(true, 1.0, "a", M{"a": 1.0}), arr(sNum), {Kind: "array", Unique: true}, {Kind: "array", HasPos: true, Pos: []*Spec{sNum}, SetAddI: true, AddItems: sStr}, obj(Prop{"a", sNum}), {Kind: "object", Required: []string{"a", "b"}, AddProps: sEmpty}, {Kind: "object", Pats: []Prop{{"^a", sNum}, {"b", sStr}}, AddProps: sEmpty}, {Kind: "object", AddProps: sNum, PropDeps: []Dep{{"a", []string{"b", "c"}}}}, {Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"c", "b"}}, {"b", []string{"a"}}}}, {Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", obj(Prop{"a", sNum})}}}, any_(sStr, arr(sNum)), any_(sStr, sNum, arr(sStr), obj(Prop{"a", sNum}), sEmpty), all(obj(Prop{"a", sEmpty}), not(sNull)), oneof(sStr, sNum), oneof(sNum, sStr, arr(nil)), ref("r"),
		{Kind: "string", HasEnum: true, Enum: []J{"c", "a", "b"}, MinLen: ip(1), MaxLen: ip(4), Format: "ipv4"}, {Kind: "number", HasEnum: true, Enum: []J{3.0, 1.0, 2.0}, Min: fp(1), Max: fp(9), ExMin: true}, {Kind: "integer", HasEnum: true, Enum: []J{3.0, 1.0}, Mult: fp(1)}, {Kind: "boolean", HasEnum: true, Enum: []J{false, true}},
		{Kind: "object", Props: []Prop{{"a", any_(sStr, sNum)}, {"b", ref("r")}}, AddProps: any_(sStr, arr(sNum))}, {Kind: "array", HasPos: true, Pos: []*Spec{any_(sStr, sNum), oneof(sNum, sStr)}, SetAddI: true, AddItems: ref("r")}, not(any_(sStr, sNum)), not(all(sStr, strMin(2)))}
	vals := []func() J{}
	for _, v := range []J{nil, "a", "b", 1.0, 2.0, true, L{}, L{3.0, 1.0, 2.0}, L{"b", "a"}, L{M{"b": 1.0}, M{"a": 2.0}}, M{}, M{"a": 1.0}, M{"a": 1.0, "b": 2.0, "c": 3.0}, M{"a": 1.0, "b": "x", "c": L{2.0, 1.0}}, M{"b": M{"b": 1.0, "a": L{}}}} {
		vals = append(vals, func() J { return cpJ(v) })
	}
	vals = append(vals, func() J { return []string{"c", "a", "b"} }, func() J { return map[string]string{"a": "x", "b": "y"} }, func() J { return map[string]float64{"a": 1} }, func() J { return plainStruct{"x", 1} }, func() J { return &plainStruct{"x", 1} })
	fp := func(v *jsval.JSVal) string {
		v.SetName("V")
		code, err := genCode(v)
		if err != nil {
			Failf("cannot generate code: %v", err)
		}
		if o, ok := v.Root().(*jsval.ObjectConstraint); ok {
			for _, n := range []string{"a", "b", "c"} {
				code += fmt.Sprintf("%s: required %v, dependencies %q, schema dependency %v\n", n, o.IsPropRequired(n), o.GetPropDependencies(n), o.GetSchemaDependency(n) != nil)
			}
		}
		return code + fmt.Sprintf("%s, %d references, default %v %v", v.Name, v.Len(), v.Root().HasDefault(), v.Root().DefaultValue())
	}
	snapshot := func(v J) string { return fmt.Sprintf("%#v", deref(v)) }
	for _, s := range specs {
		x.Case(func() string { return "purity of " + s.String() }, func() {
			x.Traces++
			long := s.Validator(env)
			before := fp(long)
			for i := range vals {
				for order := 0; order < 2; order++ {
					// a fresh validator after a single validation, and after
					// two
					c := s.Validator(env)
					fp(c)
					setOrder(order)
					v := vals[i]()
					sv := snapshot(v)
					x.States++
					x.Transitions++
					c.Validate(v)
					setOrder(0)
					if got := snapshot(v); got != sv {
						Failf("%s changed its input: %s to %s", s, sv, got)
					}
					if after := fp(c); after != before {
						Failf("validating %s changed the validator %s:\n%s\nto\n%s", sv, s, before, after)
					}
				}
				for j := range vals {
					x.States++
					v, w := vals[i](), vals[j]()
					sv, sw := snapshot(v), snapshot(w)
					c := s.Validator(env)
					for _, d := range []*jsval.JSVal{long, c} {
						d.Validate(v)
						d.Validate(w)
						x.Transitions += 2
						if snapshot(v) != sv || snapshot(w) != sw {
							Failf("%s changed its input: %s to %s or %s to %s", s, sv, snapshot(v), sw, snapshot(w))
						}
					}
					if after := fp(c); after != before {
						Failf("validating %s and %s changed the validator %s:\n%s\nto\n%s", sv, sw, s, before, after)
					}
				}
			}
			if after := fp(long); before != after {
				Failf("validation changed the validator %s:\n%s\nto\n%s", s, before, after)
			}
		})
	}
}
