package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C26", run: c26, traces: "every sequence of calls is executed on real constraints; the returned constraint, the verdicts over the value alphabet and the getters are compared with the configuration model at the end, and in a second run after every call",
		bounds: "all sequences of up to 3 (quick) or 4 (thorough) calls, 4 or 5 of a reduced alphabet, 5 for kinds with at most 8 calls, for the 12 configurable kinds, over 6-30 calls each; all sequences of 3 calls spread over two constraints of a kind; every call twice with every call between; up to 60 repetitions; names of 1..300 characters; constraints standing alone or already placed in validators, objects, arrays, combinators and references; 12-40 values each; slices lent by the caller and changed afterwards; settings taken back (no pattern, no format, divisor 0, no items); placed before any of up to three calls, in 16 places; limits taken back with negative numbers, the empty property name",
		notes:  []string{"additional items are always configured where positional ones are; configuring a second schema dependency for the same property, the same pattern object twice, nil constraints (but for those that allow nothing more and for items) and changing a slice after passing it are outside the property"}})
}

// cop is one configuration call.
type cop struct {
	name  string
	real  func(c jsval.Constraint) jsval.Constraint
	model func(s *Spec)
	few   bool // part of the reduced alphabet
}

// limit: a negative limit is none
func limit(n int) *int {
	if n < 0 {
		return nil
	}
	return ip(n)
}

type ckind struct {
	name string
	mk   func() jsval.Constraint
	zero Spec
	ops  []cop
	vals []J
}

func rep(ps []Prop, name string, s *Spec) []Prop {
	out := append([]Prop{}, ps...)
	for i := range out {
		if out[i].Name == name {
			out[i].S = s
			return out
		}
	}
	return append(out, Prop{name, s})
}

func configKinds() []ckind {
	type C = jsval.Constraint
	var ks []ckind
	js1 := func(ts ...string) []J {
		var l []J
		for _, t := range ts {
			l = append(l, js(t))
		}
		return l
	}
	// strings
	str := func(n string, f func(*jsval.StringConstraint) C, m func(*Spec), few bool) cop {
		return cop{n, func(c C) C { return f(c.(*jsval.StringConstraint)) }, m, few}
	}
	var so []cop
	for _, n := range []int{0, 1, 3, -1} {
		so = append(so, str(fmt.Sprintf("MinLength(%d)", n), func(c *jsval.StringConstraint) C { return c.MinLength(n) }, func(s *Spec) { s.MinLen = limit(n) }, n > 0))
	}
	for _, n := range []int{0, 2, 4, -1} {
		so = append(so, str(fmt.Sprintf("MaxLength(%d)", n), func(c *jsval.StringConstraint) C { return c.MaxLength(n) }, func(s *Spec) { s.MaxLen = limit(n) }, n > 0))
	}
	for _, p := range []string{"^a", "b$", "c"} {
		so = append(so, str(fmt.Sprintf("RegexpString(%q)", p), func(c *jsval.StringConstraint) C { return c.RegexpString(p) }, func(s *Spec) { s.Rx, s.HasRx = p, true }, p != "c"))
		so = append(so, str(fmt.Sprintf("Regexp(%q)", p), func(c *jsval.StringConstraint) C { return c.Regexp(regexp.MustCompile(p)) }, func(s *Spec) { s.Rx, s.HasRx = p, true }, false))
	}
	so = append(so, str("Regexp(nil)", func(c *jsval.StringConstraint) C { return c.Regexp(nil) }, func(s *Spec) { s.Rx, s.HasRx = "", false }, false))
	for _, f := range []string{"email", "ipv4", "whatever", ""} {
		so = append(so, str(fmt.Sprintf("Format(%q)", f), func(c *jsval.StringConstraint) C { return c.Format(f) }, func(s *Spec) { s.Format = f }, f != "ipv4"))
	}
	for _, e := range [][]J{{"a", "ab"}, {"b"}, {"aaa@bb", "abc"}, {}} {
		so = append(so, str(fmt.Sprintf("Enum(%v)", e), func(c *jsval.StringConstraint) C { return c.Enum(e...) }, func(s *Spec) { s.Enum, s.HasEnum = e, true }, len(e) == 1 || len(e) > 0 && e[0] == "a"))
	}
	for _, d := range []string{"a", ""} {
		so = append(so, str(fmt.Sprintf("Default(%q)", d), func(c *jsval.StringConstraint) C { return c.Default(d) }, func(s *Spec) { s.Default, s.HasDefault = d, true }, d == "a"))
	}
	ks = append(ks, ckind{"String", func() C { return jsval.String() }, Spec{Kind: "string"}, so, []J{nil, 1.0, "", "a", "b", "c", "ab", "bb", "abc", "acb", "aab", "abcd", "bcda", "abcdb", "a@b", "aaa@bb", "1.2.3.4", "äb", true}})
	// numbers
	nvals := []J{nil, "1", true, -1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 7.0, 1, 2, 3, uint8(4), int64(-1)}
	type num interface{ C }
	var no, io []cop
	both := func(n string, f func(*jsval.NumberConstraint) C, g func(*jsval.IntegerConstraint) C, m func(*Spec), few bool) {
		no = append(no, cop{n, func(c C) C { return f(c.(*jsval.NumberConstraint)) }, m, few})
		io = append(io, cop{n, func(c C) C { return g(c.(*jsval.IntegerConstraint)) }, m, few})
	}
	for _, v := range []float64{0, 1, 2} {
		both(fmt.Sprintf("Minimum(%v)", v), func(c *jsval.NumberConstraint) C { return c.Minimum(v) }, func(c *jsval.IntegerConstraint) C { return c.Minimum(v) }, func(s *Spec) { s.Min = fp(v) }, v > 0)
	}
	for _, v := range []float64{0, 2, 4} {
		both(fmt.Sprintf("Maximum(%v)", v), func(c *jsval.NumberConstraint) C { return c.Maximum(v) }, func(c *jsval.IntegerConstraint) C { return c.Maximum(v) }, func(s *Spec) { s.Max = fp(v) }, v > 0)
	}
	for _, v := range []float64{1, 2, 0.5, 0} {
		both(fmt.Sprintf("MultipleOf(%v)", v), func(c *jsval.NumberConstraint) C { return c.MultipleOf(v) }, func(c *jsval.IntegerConstraint) C { return c.MultipleOf(v) }, func(s *Spec) { s.Mult = fp(v) }, v == 2 || v == 0.5)
	}
	for _, b := range []bool{true, false} {
		both(fmt.Sprintf("ExclusiveMinimum(%v)", b), func(c *jsval.NumberConstraint) C { return c.ExclusiveMinimum(b) }, func(c *jsval.IntegerConstraint) C { return c.ExclusiveMinimum(b) }, func(s *Spec) { s.ExMin = b }, true)
		both(fmt.Sprintf("ExclusiveMaximum(%v)", b), func(c *jsval.NumberConstraint) C { return c.ExclusiveMaximum(b) }, func(c *jsval.IntegerConstraint) C { return c.ExclusiveMaximum(b) }, func(s *Spec) { s.ExMax = b }, b)
	}
	for _, e := range [][]J{{1.0, 2.0}, {3.0}, {0.0, 1.5, 6.0}, {}} {
		both(fmt.Sprintf("Enum(%v)", e), func(c *jsval.NumberConstraint) C { return c.Enum(e...) }, func(c *jsval.IntegerConstraint) C { return c.Enum(e...) }, func(s *Spec) { s.Enum, s.HasEnum = e, true }, len(e) == 1 || len(e) == 2)
	}
	for _, d := range []float64{1, 0} {
		both(fmt.Sprintf("Default(%v)", d), func(c *jsval.NumberConstraint) C { return c.Default(d) }, func(c *jsval.IntegerConstraint) C { return c.Default(d) }, func(s *Spec) { s.Default, s.HasDefault = d, true }, false)
	}
	ks = append(ks, ckind{"Number", func() C { return jsval.Number() }, Spec{Kind: "number"}, no, nvals})
	ks = append(ks, ckind{"Integer", func() C { return jsval.Integer() }, Spec{Kind: "integer"}, io, nvals})
	// booleans
	var bo []cop
	for _, e := range [][]J{{true}, {false}, {true, false}, {"x"}, {}} {
		bo = append(bo, cop{fmt.Sprintf("Enum(%v)", e), func(c C) C { return c.(*jsval.BooleanConstraint).Enum(e...) }, func(s *Spec) { s.Enum, s.HasEnum = e, true }, true})
	}
	for _, d := range []bool{true, false} {
		bo = append(bo, cop{fmt.Sprintf("Default(%v)", d), func(c C) C { return c.(*jsval.BooleanConstraint).Default(d) }, func(s *Spec) { s.Default, s.HasDefault = d, true }, true})
	}
	ks = append(ks, ckind{"Boolean", func() C { return jsval.Boolean() }, Spec{Kind: "boolean"}, bo, []J{nil, true, false, "x", 1.0, "true"}})
	// enumerations
	var eo []cop
	for _, e := range [][]J{{"a"}, {"a", "b"}, {1.0, nil}, {true}, js1(`{"a":1}`, `[1]`), {"c", "d", "e"}, {}} {
		eo = append(eo, cop{fmt.Sprintf("Enum(%v)", e), func(c C) C { return c.(*jsval.EnumConstraint).Enum(e...) }, func(s *Spec) { s.Enum, s.HasEnum = e, true }, true})
	}
	ks = append(ks, ckind{"Enum", func() C { return jsval.Enum("z", "a") }, Spec{Kind: "enum", Enum: []J{"z", "a"}, HasEnum: true}, eo, append(js1(`{"a":1}`, `[1]`, `{}`, `[]`), nil, true, false, 1.0, 0.0, "a", "b", "c", "d", "e", "z", "")})
	// arrays
	var ao []cop
	ar := func(n string, f func(*jsval.ArrayConstraint) C, m func(*Spec), few bool) {
		ao = append(ao, cop{n, func(c C) C { return f(c.(*jsval.ArrayConstraint)) }, m, few})
	}
	for i, s := range []*Spec{sStr, numMin(2)} {
		ar("Items("+s.String()+")", func(c *jsval.ArrayConstraint) C { return c.Items(s.Build(nil)) }, func(m *Spec) { m.Items = s }, i == 0)
	}
	ar("Items(EmptyConstraint)", func(c *jsval.ArrayConstraint) C { return c.Items(jsval.EmptyConstraint) }, func(m *Spec) { m.Items = sEmpty }, true)
	ar("PositionalItems(nil)", func(c *jsval.ArrayConstraint) C { return c.PositionalItems(nil) }, func(m *Spec) { m.Pos, m.HasPos = nil, false }, false)
	ar("Items(nil)", func(c *jsval.ArrayConstraint) C { return c.Items(nil) }, func(m *Spec) { m.Items = nil }, false)
	for i, l := range [][]*Spec{{sStr}, {sNum, sStr}, {sEmpty, sNum, sBool}} {
		ar(fmt.Sprintf("PositionalItems(%v)", l), func(c *jsval.ArrayConstraint) C {
			var r []jsval.Constraint
			for _, s := range l {
				r = append(r, s.Build(nil))
			}
			return c.PositionalItems(r)
		}, func(m *Spec) { m.Pos, m.HasPos = l, true }, i < 2)
	}
	for _, s := range []*Spec{nil, sEmpty, sNum} {
		ar(fmt.Sprintf("AdditionalItems(%v)", s), func(c *jsval.ArrayConstraint) C {
			if s == nil {
				return c.AdditionalItems(nil)
			}
			return c.AdditionalItems(s.Build(nil))
		}, func(m *Spec) { m.AddItems, m.SetAddI = s, true }, true)
	}
	for _, n := range []int{0, 1, 2, -1} {
		ar(fmt.Sprintf("MinItems(%d)", n), func(c *jsval.ArrayConstraint) C { return c.MinItems(n) }, func(m *Spec) { m.MinItems = limit(n) }, n > 0)
		ar(fmt.Sprintf("MaxItems(%d)", n+n/2), func(c *jsval.ArrayConstraint) C { return c.MaxItems(n + n/2) }, func(m *Spec) { m.MaxItems = limit(n + n/2) }, n > 0)
	}
	for _, b := range []bool{true, false} {
		ar(fmt.Sprintf("UniqueItems(%v)", b), func(c *jsval.ArrayConstraint) C { return c.UniqueItems(b) }, func(m *Spec) { m.Unique = b }, true)
	}
	ks = append(ks, ckind{"Array", func() C { return jsval.Array().AdditionalItems(jsval.EmptyConstraint) }, Spec{Kind: "array", AddItems: sEmpty, SetAddI: true}, ao,
		js1(`null`, `{}`, `"a"`, `[]`, `[1]`, `[2]`, `["s"]`, `[true]`, `[1,1]`, `[2,3]`, `["s","s"]`, `["s","t"]`, `[1,"s"]`, `["s",1]`, `["s",3,true]`, `[1,"s",2]`, `[1,"s","t"]`, `[1,2,3]`, `[2,3,4]`, `["a","b","c"]`, `["a","b","a"]`, `[2,3,4,5]`, `["s",1,true,1]`, `[1,"s",2,3]`)})
	// objects
	var oo []cop
	ob := func(n string, f func(*jsval.ObjectConstraint) C, m func(*Spec), few bool) {
		oo = append(oo, cop{n, func(c C) C { return f(c.(*jsval.ObjectConstraint)) }, m, few})
	}
	for _, p := range []Prop{{"a", sStr}, {"a", sNum}, {"b", sNum}, {"c", sEmpty}, {"a", sEmpty}, {"", sNum}, {"a", dstr("d")}, {"b", dnum(2.0)}} {
		ob(fmt.Sprintf("AddProp(%s, %v)", p.Name, p.S), func(c *jsval.ObjectConstraint) C { return c.AddProp(p.Name, p.S.Build(nil)) }, func(m *Spec) { m.Props = rep(m.Props, p.Name, p.S) }, p.Name == "b" || p.Name == "a" && p.S != sEmpty)
	}
	for _, r := range [][]string{{"a"}, {"b"}, {"a", "c"}, {}, {""}} {
		ob(fmt.Sprintf("Required(%v)", r), func(c *jsval.ObjectConstraint) C { return c.Required(r...) }, func(m *Spec) { m.Required = append(append([]string{}, m.Required...), r...) }, len(r) == 1 && r[0] != "")
	}
	for _, n := range []int{0, 1, 2, -1} {
		ob(fmt.Sprintf("MinProperties(%d)", n), func(c *jsval.ObjectConstraint) C { return c.MinProperties(n) }, func(m *Spec) { m.MinProps = limit(n) }, n == 2)
		ob(fmt.Sprintf("MaxProperties(%d)", n), func(c *jsval.ObjectConstraint) C { return c.MaxProperties(n) }, func(m *Spec) { m.MaxProps = limit(n) }, n == 1)
	}
	for _, s := range []*Spec{nil, sEmpty, sNum, sStr} {
		ob(fmt.Sprintf("AdditionalProperties(%v)", s), func(c *jsval.ObjectConstraint) C {
			if s == nil {
				return c.AdditionalProperties(nil)
			}
			return c.AdditionalProperties(s.Build(nil))
		}, func(m *Spec) { m.AddProps = s }, s != sStr)
	}
	for _, p := range []Prop{{"^a", sNum}, {"^a", sStr}, {"[ab]", numMin(2)}, {"d", sStr}} {
		ob(fmt.Sprintf("PatternPropertiesString(%s, %v)", p.Name, p.S), func(c *jsval.ObjectConstraint) C { return c.PatternPropertiesString(p.Name, p.S.Build(nil)) }, func(m *Spec) { m.Pats = append(append([]Prop{}, m.Pats...), p) }, p.Name != "d")
	}
	ob("PatternProperties(c, boolean)", func(c *jsval.ObjectConstraint) C {
		return c.PatternProperties(regexp.MustCompile("c"), jsval.Boolean())
	}, func(m *Spec) { m.Pats = append(append([]Prop{}, m.Pats...), Prop{"c", sBool}) }, false)
	for _, d := range []Dep{{"a", []string{"b"}}, {"a", []string{"c"}}, {"b", []string{"a", "c"}}, {"b", nil}, {"", []string{"a"}}, {"a", []string{""}}} {
		ob(fmt.Sprintf("PropDependency(%s, %v)", d.From, d.To), func(c *jsval.ObjectConstraint) C { return c.PropDependency(d.From, d.To...) }, func(m *Spec) { m.PropDeps = append(append([]Dep{}, m.PropDeps...), d) }, d.From == "a" && d.To[0] != "")
	}
	for _, p := range []Prop{{"c", (&Spec{Kind: "object", AddProps: sEmpty, Required: []string{"a"}})}, {"d", (&Spec{Kind: "object", AddProps: sNum})}} {
		ob(fmt.Sprintf("SchemaDependency(%s, %v)", p.Name, p.S), func(c *jsval.ObjectConstraint) C { return c.SchemaDependency(p.Name, p.S.Build(nil)) }, func(m *Spec) { m.SchemaDeps = rep(m.SchemaDeps, p.Name, p.S) }, p.Name == "c")
	}
	ks = append(ks, ckind{"Object", func() C { return jsval.Object() }, Spec{Kind: "object"}, oo,
		js1(`null`, `[]`, `"a"`, `{}`, `{"a":1}`, `{"a":2}`, `{"a":"s"}`, `{"b":1}`, `{"b":3}`, `{"c":true}`, `{"c":1}`, `{"d":"s"}`, `{"d":1}`, `{"a":1,"b":2}`, `{"a":"s","b":2}`, `{"a":2,"b":"s"}`, `{"a":1,"c":true}`, `{"a":1,"c":1}`, `{"b":2,"c":true}`, `{"a":1,"b":2,"c":true}`, `{"a":2,"b":2,"c":1,"d":"s"}`, `{"a":1,"b":2,"c":3,"d":4}`, `{"ab":1}`, `{"ab":2}`, `{"x":1}`, `{"x":"s"}`, `{"a":2,"x":1}`, `{"":1}`, `{"":"s"}`, `{"":1,"a":2}`)})
	// combinators
	kids := []*Spec{sStr, numMin(2), sNum, any_(sBool, sNull), not(sNum), strMin(2)}
	for _, cb := range []struct {
		name, kind string
		mk         func() C
		add        func(c, d C) C
	}{
		{"Any", "any", func() C { return jsval.Any() }, func(c, d C) C { return c.(*jsval.AnyConstraint).Add(d) }},
		{"All", "all", func() C { return jsval.All() }, func(c, d C) C { return c.(*jsval.AllConstraint).Add(d) }},
		{"OneOf", "oneof", func() C { return jsval.OneOf() }, func(c, d C) C { return c.(*jsval.OneOfConstraint).Add(d) }},
	} {
		var ops []cop
		for _, s := range kids {
			ops = append(ops, cop{"Add(" + s.String() + ")", func(c C) C { return cb.add(c, s.Build(nil)) }, func(m *Spec) { m.Kids = append(append([]*Spec{}, m.Kids...), s) }, true})
		}
		for _, s := range []*Spec{sNum, sEmpty} { // the very same constraint, again and again
			c1 := s.Build(nil)
			ops = append(ops, cop{"Add(the same " + s.String() + ")", func(c C) C { return cb.add(c, c1) }, func(m *Spec) { m.Kids = append(append([]*Spec{}, m.Kids...), s) }, true})
		}
		ks = append(ks, ckind{cb.name, cb.mk, Spec{Kind: cb.kind}, ops, []J{nil, true, 1.0, 2.0, 3, "", "a", "ab", js(`[]`), js(`{}`)}})
	}
	return ks
}

type configured struct {
	c jsval.Constraint
	s *Spec
}

func (x *X) configDefaults(c jsval.Constraint, s *Spec, how func() string) {
	if c.HasDefault() != s.HasDefault {
		Failf("%s: HasDefault() is %v", how(), c.HasDefault())
	}
	if s.HasDefault && !reflect.DeepEqual(c.DefaultValue(), s.Default) {
		Failf("%s: DefaultValue() is %v instead of %v", how(), c.DefaultValue(), s.Default)
	}
	switch t := c.(type) {
	case *jsval.ObjectConstraint:
		for _, n := range []string{"a", "b", "c", "d", ""} {
			want := false
			for _, r := range s.Required {
				want = want || r == n
			}
			if t.IsPropRequired(n) != want {
				Failf("%s: IsPropRequired(%s) is %v", how(), n, !want)
			}
			w := map[string]bool{}
			for _, d := range s.PropDeps {
				if d.From == n {
					for _, to := range d.To {
						w[to] = true
					}
				}
			}
			g := map[string]bool{}
			for _, to := range t.GetPropDependencies(n) {
				g[to] = true
			}
			if !reflect.DeepEqual(w, g) {
				Failf("%s: GetPropDependencies(%s) is %v", how(), n, t.GetPropDependencies(n))
			}
			there := false
			for _, d := range s.SchemaDeps {
				there = there || d.Name == n
			}
			if (t.GetSchemaDependency(n) != nil) != there {
				Failf("%s: GetSchemaDependency(%s) is %v", how(), n, t.GetSchemaDependency(n))
			}
		}
	case interface {
		Constraints() []jsval.Constraint
		Reduce() jsval.Constraint
	}:
		if len(t.Constraints()) != len(s.Kids) {
			Failf("%s: %d children instead of %d", how(), len(t.Constraints()), len(s.Kids))
		}
		r := t.Reduce()
		if len(s.Kids) == 1 && r != t.Constraints()[0] || len(s.Kids) != 1 && r != c {
			Failf("%s: Reduce() of %d children gives %T", how(), len(s.Kids), r)
		}
	}
}

func evalEmptyCombo(s *Spec) bool { // an empty any/oneOf: unspecified
	return (s.Kind == "any" || s.Kind == "oneof") && len(s.Kids) == 0
}

func (x *X) configVerdicts(v validator, s *Spec, vals []J, how func() string) {
	if evalEmptyCombo(s) {
		for _, d := range vals {
			v.Validate(cpAny(d))
		}
		return
	}
	for _, p := range s.Props {
		if p.S.HasDefault {
			for _, d := range vals {
				x.fillOne(s, nil, v, cpAny(d), how)
			}
			return
		}
	}
	for _, d := range vals {
		x.States++
		x.expect(v, cpAny(d), s.Eval(nil, d), how)
	}
}

func cpAny(d J) J {
	switch d.(type) {
	case M, L:
		return cpJ(d)
	}
	return d
}

func (k *ckind) reduced() []cop {
	var l []cop
	for _, o := range k.ops {
		if o.few {
			l = append(l, o)
		}
	}
	return l
}

// configSeq executes one sequence of calls on one constraint: once with the
// verdicts at the end, once with verdicts after every call.
func (x *X) configSeq(k *ckind, seq []cop) {
	how := func() string {
		n := k.name + "()"
		for _, o := range seq {
			n += "." + o.name
		}
		return n
	}
	x.Traces++
	c := k.mk()
	s := k.zero
	for _, o := range seq {
		x.Transitions++
		if r := o.real(c); !sameConstraint(r, c) {
			Failf("%s: %s does not return the constraint it was made on", how(), o.name)
		}
		o.model(&s)
	}
	x.configVerdicts(c, &s, k.vals, how)
	x.configDefaults(c, &s, how)
	// the other way: chained, with validations in between
	c = k.mk()
	t := k.zero
	cur := c
	for _, o := range seq {
		for _, d := range k.vals {
			cur.Validate(cpAny(d))
		}
		cur = o.real(cur)
		o.model(&t)
	}
	x.configVerdicts(c, &t, k.vals, func() string { return how() + " with validations in between" })
}

func sameConstraint(a, b jsval.Constraint) bool {
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	return ra.Type() == rb.Type() && ra.Kind() == reflect.Ptr && ra.Pointer() == rb.Pointer()
}

func c26(x *X) {
	ks := configKinds()
	for i := range ks {
		k := &ks[i]
		for _, a := range k.ops {
			x.Case(func() string { return k.name + "()." + a.name + "..." }, func() {
				x.configSeq(k, []cop{a})
				for _, b := range k.ops {
					x.configSeq(k, []cop{a, b})
					for _, c := range k.ops {
						x.configSeq(k, []cop{a, b, c})
						if x.thorough || len(k.ops) <= 8 {
							for _, d := range k.ops {
								x.configSeq(k, []cop{a, b, c, d})
								if len(k.ops) <= 8 {
									for _, e := range k.ops {
										x.configSeq(k, []cop{a, b, c, d, e})
									}
								}
							}
						}
					}
				}
			})
		}
		few := k.reduced()
		if len(few) != len(k.ops) {
			for _, a := range few {
				x.Case(func() string { return k.name + "()." + a.name + "... (reduced alphabet)" }, func() {
					for _, b := range few {
						for _, c := range few {
							for _, d := range few {
								x.configSeq(k, []cop{a, b, c, d})
								for _, e := range few {
									if x.thorough {
										x.configSeq(k, []cop{a, b, c, d, e})
									}
								}
							}
						}
					}
				})
			}
		}
		// two constraints of the kind
		for _, a := range few {
			x.Case(func() string { return "two of " + k.name + ", starting with " + a.name }, func() {
				for _, b := range few {
					for _, c := range few {
						for w := 0; w < 8; w++ {
							x.Traces++
							two := [2]configured{{k.mk(), new(Spec)}, {k.mk(), new(Spec)}}
							for j := range two {
								*two[j].s = k.zero
							}
							for j, o := range []cop{a, b, c} {
								t := two[w>>j&1]
								o.real(t.c)
								o.model(t.s)
								x.Transitions++
							}
							for j := range two {
								x.configVerdicts(two[j].c, two[j].s, k.vals, func() string {
									return fmt.Sprintf("number %d of two of %s after %s, %s, %s on number %d, %d, %d", j, k.name, a.name, b.name, c.name, w&1, w>>1&1, w>>2&1)
								})
							}
						}
					}
				}
			})
		}
		// many calls
		x.Case(func() string { return k.name + ": many calls" }, func() {
			for n := 5; n <= 60; n += 5 {
				for step := 1; step <= 7; step++ {
					var seq []cop
					for j := 0; j < n; j++ {
						seq = append(seq, k.ops[j*step%len(k.ops)])
					}
					x.configSeq(k, seq)
				}
				for _, o := range k.ops {
					var seq []cop
					for j := 0; j < n; j++ {
						seq = append(seq, o)
					}
					x.configSeq(k, seq)
				}
			}
		})
		// placed somewhere before it is configured
		for _, place := range places26 {
			x.Case(func() string { return k.name + " configured after it was placed in " + place.name }, func() {
				placed := func(at int, seq ...cop) {
					c := k.mk()
					s := k.zero
					var v validator
					var wrap func(J) J
					x.Traces++
					for i, o := range seq {
						if i == at {
							v, wrap = place.put(c)
						}
						o.real(c)
						o.model(&s)
						x.Transitions++
						if evalEmptyCombo(&s) || v == nil {
							continue
						}
						for _, d := range k.vals {
							x.States++
							x.expect(v, wrap(cpAny(d)), s.Eval(nil, d), func() string {
								return fmt.Sprintf("%s placed in %s before call %d of %s", k.name, place.name, at+1, seqNames(seq))
							})
						}
					}
				}
				for _, a := range k.ops {
					for _, b := range k.ops {
						placed(0, a, b)
						placed(1, a, b)
					}
				}
				for _, a := range few {
					for _, b := range few {
						for _, c := range few {
							placed(2, a, b, c)
							placed(1, a, b, c)
						}
					}
				}
			})
		}
	}
	c26objects(x)
	c26refs(x)
	c26jsval(x)
	x.lentSlices()
}

func seqNames(seq []cop) string {
	t := ""
	for _, o := range seq {
		t += " " + o.name
	}
	return t[1:]
}

var places26 = []struct {
	name string
	put  func(c jsval.Constraint) (validator, func(J) J)
}{
	{"a validator", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.New().SetRoot(c), func(d J) J { return d }
	}},
	{"an object", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Object().AddProp("p", c), func(d J) J { return M{"p": d} }
	}},
	{"additional properties", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Object().AdditionalProperties(c), func(d J) J { return M{"p": d} }
	}},
	{"a pattern", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Object().PatternPropertiesString("p", c), func(d J) J { return M{"p": d} }
	}},
	{"an array", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Array().Items(c), func(d J) J { return L{d} }
	}},
	{"a position", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Array().PositionalItems([]jsval.Constraint{jsval.EmptyConstraint, c}), func(d J) J { return L{1.0, d} }
	}},
	{"additional items", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Array().PositionalItems([]jsval.Constraint{jsval.EmptyConstraint}).AdditionalItems(c), func(d J) J { return L{1.0, d} }
	}},
	{"a dependency", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Object().AdditionalProperties(jsval.EmptyConstraint).SchemaDependency("q", jsval.Object().AddProp("p", c).AdditionalProperties(jsval.EmptyConstraint)), func(d J) J { return M{"p": d, "q": 1.0} }
	}},
	{"the second of any of", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Any().Add(jsval.Not(jsval.EmptyConstraint)).Add(c), func(d J) J { return d }
	}},
	{"all of in all of", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.All().Add(jsval.All().Add(c)), func(d J) J { return d }
	}},
	{"one of, reduced", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.OneOf().Add(c).Reduce(), func(d J) J { return d }
	}},
	{"all of", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.All().Add(c).Add(jsval.EmptyConstraint), func(d J) J { return d }
	}},
	{"any of", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Any().Add(c), func(d J) J { return d }
	}},
	{"one of", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.OneOf().Add(jsval.Not(jsval.EmptyConstraint)).Add(c), func(d J) J { return d }
	}},
	{"not not", func(c jsval.Constraint) (validator, func(J) J) {
		return jsval.Not(jsval.Not(c)), func(d J) J { return d }
	}},
	{"a reference", func(c jsval.Constraint) (validator, func(J) J) {
		v := jsval.New()
		v.SetReference("#/x", c)
		return v.SetRoot(jsval.Reference(v).RefersTo("#/x")), func(d J) J { return d }
	}},
}

// c26objects: many declarations of one sort on one object.
func c26objects(x *X) {
	for n := 1; n <= 40; n++ {
		x.Case(func() string { return fmt.Sprintf("%d declarations of every sort", n) }, func() {
			for rev := 0; rev < 2; rev++ {
				for redo := 0; redo < 3; redo++ {
					o := jsval.Object()
					s := &Spec{Kind: "object"}
					kinds := []*Spec{sStr, sNum, sBool}
					at := func(i int) int {
						if rev == 1 {
							return n - 1 - i
						}
						return i
					}
					for j := 0; j < n; j++ {
						i := at(j)
						switch i % 4 {
						case 0:
							o.AddProp(nm(i), sNull.Build(nil)) // replaced below
							o.AddProp(nm(i), kinds[i%3].Build(nil))
							s.Props = rep(s.Props, nm(i), kinds[i%3])
						case 1:
							o.PatternPropertiesString("^"+nm(i)+"$", kinds[i%3].Build(nil))
							s.Pats = append(s.Pats, Prop{"^" + nm(i) + "$", kinds[i%3]})
						case 2:
							o.AddProp(nm(i), jsval.EmptyConstraint)
							s.Props = rep(s.Props, nm(i), sEmpty)
							o.PropDependency(nm(i), nm(i-2))
							s.PropDeps = append(s.PropDeps, Dep{nm(i), []string{nm(i - 2)}})
							o.PropDependency(nm(i), nm(i-1))
							s.PropDeps = append(s.PropDeps, Dep{nm(i), []string{nm(i - 1)}})
						case 3:
							o.AddProp(nm(i), jsval.EmptyConstraint)
							s.Props = rep(s.Props, nm(i), sEmpty)
							if redo > 0 {
								o.Required(nm(i))
								s.Required = append(s.Required, nm(i))
							}
						}
						if redo == 2 {
							o.MinProperties(i / 4)
							s.MinProps = ip(i / 4)
						}
						o.Validate(M{nm(i): "s"})
					}
					good := M{}
					vals := map[*Spec]J{sStr: "s", sNum: 1.5, sBool: true}
					for i := 0; i < n; i++ {
						good[nm(i)] = vals[kinds[i%3]]
					}
					ds := []J{M{}, good}
					for i := 0; i < n; i++ {
						less := cpJ(good).(M)
						delete(less, nm(i))
						wrong := cpJ(good).(M)
						wrong[nm(i)] = nil
						ds = append(ds, less, wrong, M{nm(i): good[nm(i)]})
					}
					x.Traces++
					for _, d := range ds {
						x.States++
						x.expect(o, cpJ(d), s.Eval(nil, d), func() string { return s.String() })
					}
				}
			}
		})
	}
}

// c26refs: where a reference points is the last setting.
func c26refs(x *X) {
	names := []string{"#/s", "#/n", "#/b", "#/none"}
	specs := map[string]*Spec{"#/s": sStr, "#/n": sNum, "#/b": sBool.with(func(s *Spec) { s.Default, s.HasDefault = true, true })}
	x.Case(func() string { return "references pointed elsewhere" }, func() {
		sequences(len(names)+1, 5, func(seq []int) {
			v := jsval.New()
			for n, s := range specs {
				v.SetReference(n, s.Build(v))
			}
			r := jsval.Reference(v)
			v.SetRoot(r)
			cur := ""
			x.Traces++
			how := func() string { return fmt.Sprintf("references set in the order %v (4 is a validation)", seq) }
			judge := func() {
				if cur == "" {
					return
				}
				s := specs[cur]
				for _, d := range []J{"s", 1.0, true, nil} {
					x.States++
					x.expect(v, d, s != nil && s.Eval(nil, d), how)
				}
				if want := s != nil && s.HasDefault; r.HasDefault() != want {
					Failf("%s: HasDefault() is %v", how(), !want)
				}
			}
			for _, i := range seq {
				x.Transitions++
				if i == len(names) {
					judge()
					continue
				}
				if r.RefersTo(names[i]) != r {
					Failf("%s: RefersTo returns another constraint", how())
				}
				cur = names[i]
			}
			judge()
		})
	})
}

// sequences calls f with every sequence over 0..n-1 of length 1 to depth.
func sequences(n, depth int, f func([]int)) {
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 {
			f(seq)
		}
		if len(seq) == depth {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)
}

// c26jsval: the last root and the last name count; the name appears in
// messages and does not matter otherwise.
func c26jsval(x *X) {
	x.longNames()
	roots := []*Spec{sStr, sNum, obj(Prop{"a", sNum})}
	type op struct {
		name string
		f    func(v *jsval.JSVal, root, nam *string) *jsval.JSVal
	}
	var ops []op
	byName := map[string]*Spec{}
	for _, s := range roots {
		byName[s.String()] = s
		ops = append(ops, op{"SetRoot(" + s.String() + ")", func(v *jsval.JSVal, root, _ *string) *jsval.JSVal {
			*root = s.String()
			return v.SetRoot(s.Build(v))
		}})
	}
	for _, n := range []string{"First", "second", ""} {
		ops = append(ops, op{"SetName(" + n + ")", func(v *jsval.JSVal, _, nam *string) *jsval.JSVal {
			*nam = n
			return v.SetName(n)
		}})
	}
	ops = append(ops, op{"SetConstraintMap", func(v *jsval.JSVal, _, _ *string) *jsval.JSVal {
		return v.SetConstraintMap(&jsval.ConstraintMap{})
	}})
	x.Case(func() string { return "validators named and rooted several times" }, func() {
		sequences(len(ops), 5, func(seq []int) {
			v := jsval.New()
			root, name := "", ""
			var calls []string
			x.Traces++
			for _, i := range seq {
				x.Transitions++
				calls = append(calls, ops[i].name)
				if ops[i].f(v, &root, &name) != v {
					Failf("%v: the last call returns another validator", calls)
				}
				if root != "" {
					v.Validate("s")
				}
			}
			if v.Name != name {
				Failf("%v: the name is %q", calls, v.Name)
			}
			if root == "" {
				return
			}
			if v.Root() == nil {
				Failf("%v: no root", calls)
			}
			for _, d := range []J{"s", 1.0, M{"a": 1.0}, M{"a": "s"}, nil} {
				want := byName[root].Eval(nil, d)
				x.States++
				x.expect(v, cpAny(d), want, func() string { return fmt.Sprint(calls) })
				if err := v.Validate(cpAny(d)); err != nil && name != "" && !strings.Contains(err.Error(), name) {
					Failf("%v: the message %q does not have the name", calls, err)
				}
			}
		})
	})
	// lists of validators sort by name
	x.Case(func() string { return "lists of validators" }, func() {
		sequences(4, 6, func(seq []int) {
			var l jsval.JSValSlice
			for _, i := range seq {
				l = append(l, jsval.New().SetName(string(rune('a'+i))))
			}
			sort.Sort(l)
			x.Traces++
			x.States++
			for i := 1; i < len(l); i++ {
				if l[i-1].Name > l[i].Name {
					Failf("names %v sort to %q before %q", seq, l[i-1].Name, l[i].Name)
				}
			}
		})
	})
}
