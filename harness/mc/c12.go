package main

import (
	"errors"
	"fmt"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C12", run: c12, traces: "every operation sequence is executed on real constraint maps and reference constraints; lookups, lengths, verdicts and defaults are compared with the model after every step",
		bounds: "all sequences of 5 (quick) or 6 of 21 operations (register one of 9 constraints or references under 3 names; validate, ask for the default of, or look up through long-lived and fresh references) on 3 kinds of maps; chains of up to 60 references; up to 70 names; unusual names; recursive and mutually recursive constraints against all trees to depth 4 and lists to length 120 with a bad node anywhere; chains of up to 2049 references and up to 1025 names; references whose names are spelled like one another (escapes, anchors, slashes); all sequences of 5 (quick) or 6 of 18 operations that exchange and share constraint maps between two validators; recursive constraints over values up to 4097 (quick) or 20001 (thorough) levels deep",
		notes:  []string{"reference cycles that consume no input are outside the property"}})
}

type c12op struct {
	kind byte // 's'et, 'v'alidate, 'h'asDefault, 'd'efault, 'f'resh
	name int
	def  int
}

// c12obj is a constraint object of the model.
type c12obj struct {
	spec   *Spec
	target *c12obj // of a reference that has been resolved
}

// end resolves a chain of references and returns what it ends in.
func (m *c12obj) end(env map[string]*c12obj) *Spec {
	for m.spec.Kind == "ref" {
		if m.target == nil {
			m.target = env[m.spec.Ref]
		}
		if m = m.target; m == nil {
			return nil
		}
	}
	return m.spec
}

func c12(x *X) {
	names := []string{"a", "b", "c"}
	ndef := dnum(1.5)
	defs := [][]*Spec{{sStr, ndef, ref("b"), ref("c")}, {sStr, ndef, ref("c")}, {sStr, ndef}}
	var ops []c12op
	for n := range names {
		for d := range defs[n] {
			ops = append(ops, c12op{'s', n, d})
		}
		for _, k := range "vhdf" {
			ops = append(ops, c12op{byte(k), n, 0})
		}
	}
	depth := 5
	if x.thorough {
		depth = 6
	}
	vals := []J{"s", 1.5, nil}
	run := func(seq []int, kind int) {
		x.States++
		x.Traces++
		var reg interface {
			jsval.RefResolver
			SetReference(string, jsval.Constraint)
			Len() int
		}
		switch kind {
		case 0:
			reg = &jsval.ConstraintMap{}
		case 1:
			reg = jsval.New()
		case 2:
			reg = jsval.New().SetConstraintMap(&jsval.ConstraintMap{})
		}
		long := make([]*jsval.ReferenceConstraint, 3)
		for i, n := range names {
			long[i] = jsval.Reference(reg).RefersTo(n)
		}
		// the model: a reference answers by what was registered under its
		// name when it was first asked with success, from then on
		env := map[string]*c12obj{}
		real := map[string]jsval.Constraint{}
		mlong := make([]*c12obj, 3)
		for i, n := range names {
			mlong[i] = &c12obj{spec: ref(n)}
		}
		hist := func(upto int) string {
			s := ""
			for _, i := range seq[:upto+1] {
				o := ops[i]
				switch o.kind {
				case 's':
					s += fmt.Sprintf(" SetReference(%s, %s)", names[o.name], defs[o.name][o.def])
				default:
					s += fmt.Sprintf(" %c(%s)", o.kind, names[o.name])
				}
			}
			return s
		}
		for step, i := range seq {
			o := ops[i]
			n := names[o.name]
			x.Transitions++
			switch o.kind {
			case 's':
				s := defs[o.name][o.def]
				env[n] = &c12obj{spec: s}
				real[n] = s.Build(reg)
				reg.SetReference(n, real[n])
			default:
				c, m := jsval.Constraint(long[o.name]), mlong[o.name]
				if o.kind == 'f' {
					c, m = jsval.Reference(reg).RefersTo(n), &c12obj{spec: ref(n)}
				}
				t := m.end(env) // nil: leads nowhere
				switch o.kind {
				case 'v', 'f':
					for _, v := range vals {
						err := c.Validate(v)
						x.Transitions++
						if want := t != nil && t.Eval(nil, v); (err == nil) != want {
							Failf("%s: validating %s: %v, expected accept=%v", hist(step), show(v), err, want)
						}
					}
				}
				if o.kind == 'h' || o.kind == 'f' {
					if got := c.HasDefault(); got != (t != nil && t.HasDefault) {
						Failf("%s: HasDefault is %v", hist(step), got)
					}
				}
				if o.kind == 'd' || o.kind == 'f' {
					var d J
					if t != nil && t.HasDefault {
						d = t.Default
					}
					if got := c.DefaultValue(); !jsonEqual(got, d) {
						Failf("%s: DefaultValue is %v, expected %v", hist(step), got, d)
					}
				}
			}
			if got := reg.Len(); got != len(env) {
				Failf("%s: Len is %d, expected %d", hist(step), got, len(env))
			}
			for _, m := range names {
				c, err := reg.GetReference(m)
				if _, ok := env[m]; ok {
					if err != nil || c != real[m] {
						Failf("%s: GetReference(%s) is %v, %v", hist(step), m, c, err)
					}
				} else if err == nil {
					Failf("%s: GetReference(%s) reports no error", hist(step), m)
				}
			}
		}
	}
	for kind := 0; kind < 3; kind++ {
		for a := range ops {
			for b := range ops {
				x.Case(func() string {
					return fmt.Sprintf("reference histories starting with operations %d %d, map kind %d", a, b, kind)
				}, func() {
					var rec func(seq []int)
					rec = func(seq []int) {
						if len(seq) == depth {
							run(seq, kind)
							return
						}
						for i := range ops {
							rec(append(seq[:len(seq):len(seq)], i))
						}
					}
					rec([]int{a, b})
				})
			}
		}
	}
	c12chains(x)
	c12recursive(x)
	c12resolver(x)
	c12maps(x)
	x.deepRecursion()
}

func c12chains(x *X) {
	for _, n := range upTo(60, 2049) {
		for end := 0; end < 3; end++ {
			for late := 0; late < 2; late++ {
				x.Case(func() string { return fmt.Sprintf("chain of %d references (end %d, late %d)", n, end, late) }, func() {
					v := jsval.New()
					target := []*Spec{sStr, dnum(2.5), nil}[end]
					v.SetRoot(jsval.Reference(v).RefersTo("r0"))
					for i := 0; i < n-1; i++ {
						v.SetReference(fmt.Sprint("r", i), jsval.Reference(v).RefersTo(fmt.Sprint("r", i+1)))
					}
					last := fmt.Sprint("r", n-1)
					x.States++
					x.Traces++
					check := func(t *Spec) {
						for _, val := range []J{"s", 1.5, nil} {
							x.expect(v, val, t != nil && t.Eval(nil, val), func() string { return "the chain" })
						}
						wd := t != nil && t.HasDefault
						if v.Root().HasDefault() != wd {
							Failf("HasDefault is %v", !wd)
						}
						if wd && v.Root().DefaultValue() != t.Default {
							Failf("DefaultValue is %v", v.Root().DefaultValue())
						}
						if !wd && v.Root().DefaultValue() != nil {
							Failf("DefaultValue is %v", v.Root().DefaultValue())
						}
					}
					if late == 1 {
						check(nil)
					}
					if target != nil {
						v.SetReference(last, target.Build(v))
					}
					check(target)
					check(target)
				})
			}
		}
	}
	// many names
	for _, n := range upTo(70, 1025) {
		x.Case(func() string { return fmt.Sprintf("%d names", n) }, func() {
			v := jsval.New()
			for i := 0; i < n; i++ {
				v.SetReference(fmt.Sprintf("#/definitions/d%d", i), jsval.Enum(fmt.Sprint(i)))
			}
			x.States++
			x.Traces++
			if v.Len() != n {
				Failf("Len is %d", v.Len())
			}
			for i := 0; i < n; i++ {
				r := jsval.Reference(v).RefersTo(fmt.Sprintf("#/definitions/d%d", i))
				for j := 0; j < n; j++ {
					if n > 70 && j != i && j > 2 && j < n-2 && j != i/10 && j != i-1 && j != i+1 {
						continue
					}
					x.expect(r, fmt.Sprint(j), i == j, func() string { return fmt.Sprintf("reference %d of %d", i, n) })
				}
			}
			if jsval.Reference(v).RefersTo(fmt.Sprintf("#/definitions/d%d", n)).Validate("0") == nil {
				Failf("an unknown name validates")
			}
		})
	}
	odd := []string{"", "#", "#/", "/", "a", "A", " a", "#/definitions/a", "#/definitions/a/", "http://x/y#z", "é", "%s", "a\x00b", "a\"b", repeat("n", 500), repeat("n", 499) + "m", "#/definitions/%61", "#/definitions/A", "#definitions/a", "##/definitions/a", "#/definitions//a", "#/definitions/a#", "#/definitions/a?", "#/definitions/./a", "#/definitions/b/../a", "/definitions/a", "definitions/a", "#/definitions/a~0b", "#/definitions/a~1b", "#/definitions/a~b", "#/definitions/a/b", "#/definitions/a%2Fb", "#/definitions/a%20b", "#/definitions/a b", "#/definitions/a+b", "e\u0301", "%C3%A9", "%c3%a9", "http://x/y", "http://X/y#z", "http://x:80/y#z", "a\x00", "a\n", "\xff", "\xfe"}
	for _, a := range odd {
		for _, b := range odd {
			if a == b {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("names %q and %q", trim(a, 20), trim(b, 20)) }, func() {
				v := jsval.New()
				x.States++
				x.Traces++
				v.SetReference(a, jsval.String())
				ra, rb := jsval.Reference(v).RefersTo(a), jsval.Reference(v).RefersTo(b)
				x.expect(ra, "s", true, func() string { return a })
				x.expect(ra, 1.5, false, func() string { return a })
				x.expect(rb, "s", false, func() string { return b })
				x.expect(rb, 1.5, false, func() string { return b })
				v.SetReference(b, jsval.Number())
				x.expect(ra, "s", true, func() string { return a })
				x.expect(rb, 1.5, true, func() string { return b })
				x.expect(rb, "s", false, func() string { return b })
				if v.Len() != 2 {
					Failf("Len %d", v.Len())
				}
			})
		}
	}
}

func trees(depth int) []J {
	if depth == 0 {
		return []J{1.0, "bad", M{}}
	}
	sub := trees(depth - 1)
	var out []J
	out = append(out, sub...)
	for _, a := range sub {
		out = append(out, M{"l": a})
	}
	if depth <= 2 {
		for _, a := range sub {
			for _, b := range sub {
				out = append(out, M{"l": a, "r": b}, M{"kids": L{a, b}})
			}
		}
	} else {
		for i, a := range sub {
			b := sub[(i*7+3)%len(sub)]
			out = append(out, M{"l": a, "r": b}, M{"kids": L{a, b, a}})
		}
	}
	return out
}

func c12recursive(x *X) {
	node := &Spec{Kind: "object", Props: []Prop{{"l", ref("t")}, {"r", ref("t")}, {"kids", arr(ref("t"))}}}
	env := Env{"t": any_(sNum, node)}
	vals := trees(4)
	n := 8
	for p := 0; p < n; p++ {
		x.Case(func() string { return fmt.Sprintf("recursive trees, part %d", p) }, func() {
			var vs []J
			for i := p; i < len(vals); i += n {
				vs = append(vs, vals[i])
			}
			x.gridBody(ref("t"), env, vs, ref("t").Validator(env))
		})
	}
	// mutual recursion: even and odd lists
	env2 := Env{"even": any_(sNull, &Spec{Kind: "object", Props: []Prop{{"next", ref("odd")}}, Required: []string{"next"}}), "odd": &Spec{Kind: "object", Props: []Prop{{"next", ref("even")}}, Required: []string{"next"}}}
	env3 := Env{"list": &Spec{Kind: "object", Props: []Prop{{"v", sNum}, {"next", ref("list")}}}, "tail": ref("list")}
	for n := 0; n <= 120; n++ {
		x.Case(func() string { return fmt.Sprintf("lists of length %d", n) }, func() {
			var l J
			for i := 0; i < n; i++ {
				l = M{"next": l}
			}
			x.gridBody(ref("even"), env2, []J{l, M{"next": l}}, ref("even").Validator(env2))
			x.gridBody(ref("odd"), env2, []J{l, M{"next": l}}, ref("odd").Validator(env2))
			var vs []J
			for bad := -1; bad <= n; bad++ {
				m := M{}
				for i := 0; i < n; i++ {
					m = M{"next": m, "v": 1.0}
					if i == bad {
						m["v"] = "bad"
					}
				}
				vs = append(vs, m)
			}
			x.gridBody(ref("tail"), env3, vs, ref("tail").Validator(env3))
		})
	}
	// references in every position
	env4 := Env{"s": strMin(2), "n": dnum(1.0), "o": obj(Prop{"a", ref("s")})}
	s, nn, o := ref("s"), ref("n"), ref("o")
	vs := []J{nil, "a", "ab", 1.0, L{}, L{"ab"}, L{"a"}, L{1.0, "ab"}, L{"ab", 1.0}, M{}, M{"a": "ab"}, M{"a": "a"}, M{"b": 1.0}, M{"a": M{"a": "ab"}}, M{"a": M{"a": "a"}}, M{"a": "ab", "b": "ab"}, L{M{"a": "ab"}}, L{M{"a": 1.0}}}
	for _, sp := range []*Spec{arr(s), arr(o), {Kind: "array", HasPos: true, Pos: []*Spec{s, nn}, SetAddI: true, AddItems: o}, {Kind: "object", AddProps: s}, {Kind: "object", AddProps: o}, {Kind: "object", Pats: []Prop{{"^a", s}, {"b", nn}}}, obj(Prop{"a", o}), any_(s, nn), all(s, s), oneof(s, nn, o), not(s), not(o), {Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", o}}}} {
		x.Case(func() string { return "references below " + sp.String() }, func() {
			var cp []J
			for _, v := range vs {
				cp = append(cp, cpJ(v))
			}
			x.gridBody(sp, env4, cp, sp.Validator(env4))
		})
	}
}

type flakyResolver struct {
	fail int
	c    jsval.Constraint
	got  []string
}

func (f *flakyResolver) GetReference(n string) (jsval.Constraint, error) {
	f.got = append(f.got, n)
	if f.fail > 0 {
		f.fail--
		return nil, errors.New("not yet")
	}
	return f.c, nil
}

// a resolver that fails a while
func c12resolver(x *X) {
	for fail := 0; fail <= 5; fail++ {
		for kind := 0; kind < 27; kind++ {
			x.Case(func() string { return fmt.Sprintf("resolver failing %d times, calls %d", fail, kind) }, func() {
				f := &flakyResolver{fail: fail, c: jsval.String().Default("d")}
				r := jsval.Reference(f).RefersTo("name")
				k := kind
				x.Traces++
				for i := 0; i < 8; i++ {
					x.States++
					x.Transitions++
					failing := f.fail > 0
					switch k % 3 {
					case 0:
						if e1 := r.Validate("s"); (e1 == nil) == failing {
							Failf("call %d: %v", i, e1)
						}
					case 1:
						if r.HasDefault() == failing {
							Failf("call %d: HasDefault %v", i, !failing)
						}
					case 2:
						if (r.DefaultValue() == nil) != failing {
							Failf("call %d: DefaultValue", i)
						}
					}
					if i < 3 {
						k /= 3
					}
				}
				for _, n := range f.got {
					if n != "name" {
						Failf("asked for %q", n)
					}
				}
			})
		}
	}
}
