package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/lestrrat-go/jsval"
)

// store keeps its properties by itself: its verdicts and the defaults it is
// given are those of the map it holds.
type store struct {
	Ignored string `json:"a"`
	m       M
	full    string // the property that cannot be stored
}

func (s store) GetPropNames() ([]string, error) {
	l := make([]string, 0, len(s.m))
	for k := range s.m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l, nil
}

func (s store) GetPropValue(n string) (interface{}, error) {
	v, ok := s.m[n]
	if !ok && n == "a" { // not the field
		return nil, nil
	}
	if !ok {
		return nil, errors.New("no " + n)
	}
	return v, nil
}

func (s store) SetPropValue(n string, v interface{}) error {
	if n == s.full || s.m == nil {
		return errors.New("no room for " + n)
	}
	s.m[n] = v
	return nil
}

// types that have a method of that name for another purpose
type (
	otherSet0 struct {
		A jsval.MaybeString `json:"a"`
		B jsval.MaybeFloat  `json:"b"`
		C jsval.MaybeBool   `json:"c"`
	}
	otherSet1 otherSet0
	otherSet2 otherSet0
	otherSet3 otherSet0
)

func (otherSet0) SetPropValue()                             {}
func (otherSet1) SetPropValue(string, string) error         { return errors.New("not meant") }
func (otherSet2) SetPropValue(string, interface{})          {}
func (otherSet3) SetPropValue(string, ...interface{}) error { return errors.New("not meant") }

func c09stores(x *X) {
	dflts := []J{"d", 1.5, 7, true, nil, L{1.0}, M{"k": "v"}, int8(3), uint64(1) << 63, ""}
	names := []string{"a", "b", "c"}
	mk := func(mask int) M {
		m := M{}
		for i, n := range names {
			if mask>>i&1 == 1 {
				m[n] = "own"
			}
		}
		return m
	}
	for dm := 0; dm < 8; dm++ { // which names have a default
		for di, d := range dflts {
			for req := 0; req < 4; req++ {
				s := &Spec{Kind: "object", AddProps: sEmpty}
				for i, n := range names {
					c := sStr
					if dm>>i&1 == 1 {
						c = sStr.with(func(s *Spec) { s.HasDefault, s.Default = true, d })
					}
					s.Props = append(s.Props, Prop{n, c})
				}
				if req > 0 {
					s.Required = []string{names[req-1]}
				}
				x.Case(func() string { return fmt.Sprintf("a struct that stores its own properties: %s, default %d", s, di) }, func() {
					x.Traces++
					c := s.Validator(nil)
					for mask := 0; mask < 8; mask++ {
						for full := 0; full < 4; full++ {
							for how := 0; how < 3; how++ {
								x.States++
								before := mk(mask)
								want := s.Eval(nil, before)
								st := store{m: mk(mask)}
								if full > 0 {
									st.full = names[full-1]
									if want && dm>>(full-1)&1 == 1 && mask>>(full-1)&1 == 0 {
										want = false
									}
								}
								p := &st
								var v J = st
								switch how {
								case 1:
									v = p
								case 2:
									v = &p
								}
								x.expect(c, v, want, func() string { return s.String() })
								for k, w := range before {
									if st.m[k] != w {
										Failf("%s changed %s from %v to %v", s, k, w, st.m[k])
									}
								}
								if !want {
									continue
								}
								model := mk(mask)
								s.fill(nil, model)
								if !reflect.DeepEqual(st.m, model) {
									Failf("%s on a struct that holds %s: it holds %#v afterwards, expected %#v", s, show(before), st.m, model)
								}
								if st.Ignored != "" {
									Failf("%s wrote to a field", s)
								}
							}
						}
					}
				})
			}
		}
	}
	s := &Spec{Kind: "object", AddProps: sEmpty, Props: []Prop{{"a", dstr("x")}, {"b", dnum(2.5)}, {"c", dbool(true)}}}
	x.Case(func() string { return "methods named SetPropValue with another purpose" }, func() {
		c := s.Validator(nil)
		x.Traces++
		for mask := 0; mask < 8; mask++ {
			base := otherSet0{}
			if mask&1 == 1 {
				base.A.Set("own")
			}
			if mask&2 == 2 {
				base.B.Set(1.0)
			}
			if mask&4 == 4 {
				base.C.Set(false)
			}
			o1, o2, o3 := otherSet1(base), otherSet2(base), otherSet3(base)
			for _, p := range []J{&base, &o1, &o2, &o3} {
				x.structFill(s, c, p, mask)
			}
		}
	})
}

// spareCapacity: what lies behind the end of a slice is none of its elements.
func (x *X) spareCapacity() {
	alpha := []J{1.0, "s", nil}
	var specs []*Spec
	for _, u := range []bool{false, true} {
		for _, it := range []*Spec{nil, sStr, sNum} {
			for _, mm := range [][2]*int{{nil, nil}, {ip(1), ip(1)}, {ip(2), nil}, {nil, ip(2)}, {ip(0), ip(0)}} {
				specs = append(specs, &Spec{Kind: "array", Unique: u, Items: it, MinItems: mm[0], MaxItems: mm[1]})
				if it == nil {
					specs = append(specs, &Spec{Kind: "array", Unique: u, MinItems: mm[0], MaxItems: mm[1], HasPos: true, Pos: []*Spec{sEmpty, sStr}, SetAddI: true}, &Spec{Kind: "array", Unique: u, MinItems: mm[0], MaxItems: mm[1], HasPos: true, Pos: []*Spec{sEmpty}, SetAddI: true, AddItems: sStr})
				}
			}
		}
	}
	for _, s := range specs {
		x.Case(func() string { return "spare capacity: " + s.String() }, func() {
			c := s.Validator(nil)
			x.Traces++
			each := func(seq []int) {
				n := len(seq)
				for _, spare := range []int{0, 1, 2, 3, 5, 9, 40} {
					for _, rest := range alpha {
						l := make(L, n+spare)
						strs := make([]string, n+spare)
						for i := range l {
							l[i] = rest
							if i < n {
								l[i] = alpha[seq[i]]
								strs[i] = fmt.Sprint(seq[i])
							}
						}
						x.States++
						what := func() string { return fmt.Sprintf("%s, %d elements to spare", s, spare) }
						x.expect(c, l[:n], s.Eval(nil, append(L{}, l[:n]...)), what)
						x.expect(c, strs[:n], s.Eval(nil, append([]string{}, strs[:n]...)), what)
						// from the middle of a longer one
						if spare > 1 {
							m := append(L{rest}, l...)
							x.expect(c, m[1:n+1], s.Eval(nil, append(L{}, l[:n]...)), what)
						}
					}
				}
			}
			each(nil)
			sequences(len(alpha), 3, each)
		})
	}
}

// inPlace: the same map, slice or struct is changed and validated again.
func (x *X) inPlace() {
	type T struct {
		A jsval.MaybeString `json:"a"`
		B jsval.MaybeFloat  `json:"b"`
		C interface{}       `json:"c"`
	}
	env := Env{"r": strMin(1)}
	specs := []*Spec{
		{Kind: "object", Pats: []Prop{{"^a", sEmpty}, {"c", sEmpty}}}, {Kind: "object", Pats: []Prop{{"^a", sStr}}, AddProps: sNum}, obj(Prop{"a", sStr}, Prop{"c", sEmpty}), {Kind: "object", AddProps: sStr}, {Kind: "object", AddProps: sEmpty, Required: []string{"a"}}, {Kind: "object", AddProps: sEmpty, MinProps: ip(2)}, {Kind: "object", AddProps: sEmpty, MaxProps: ip(1)},
		{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{"a", []string{"b"}}}}, {Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", obj(Prop{"a", sStr}, Prop{"c", sEmpty})}}}, {Kind: "object", Props: []Prop{{"a", ref("r")}}, AddProps: ref("r")}, any_(obj(Prop{"a", sStr}), obj(Prop{"b", sNum})), oneof(obj(Prop{"a", sStr}, Prop{"c", sEmpty}), &Spec{Kind: "object", AddProps: sNum}), not(obj(Prop{"a", sEmpty})), enum(M{"a": "s"}, M{"b": 1.0}, M{}), {Kind: "object", AddProps: any_(sNum, obj(Prop{"a", sStr}))},
	}
	states := []M{{}, {"a": "s"}, {"a": 1.0}, {"b": "s"}, {"b": 1.0}, {"a": "s", "b": 1.0}, {"a": 1.0, "b": "s"}, {"c": nil}, {"a": "s", "c": nil}, {"b": M{"a": "s"}}, {"b": M{"a": 1.0}}, {"b": M{"b": "s"}}}
	for _, s := range specs {
		x.Case(func() string { return "maps changed in place: " + s.String() }, func() {
			c := s.Validator(env)
			m, inner := M{}, M{}
			var k map[keyString]interface{} = map[keyString]interface{}{}
			t := &T{}
			x.Traces++
			sequences(len(states), 3, func(seq []int) {
				for _, i := range seq {
					x.States++
					st := states[i]
					clear(m)
					clear(k)
					*t = T{}
					plain := true
					for n, v := range st {
						if in, ok := v.(M); ok { // one inner map for all
							clear(inner)
							for a, b := range in {
								inner[a] = b
							}
							v = inner
							plain = false
						}
						m[n], k[keyString(n)] = v, v
						switch w := v.(type) {
						case string:
							plain = plain && n == "a" && t.A.Set(w) == nil
						case float64:
							plain = plain && n == "b" && t.B.Set(w) == nil
						}
					}
					what := func() string { return fmt.Sprintf("%s, states %v of the same map", s, seq) }
					want := s.Eval(env, cpJ(st))
					x.expect(c, m, want, what)
					if s.Kind != "enum" {
						x.expect(c, &m, want, what)
					}
					if s.Kind == "object" {
						x.expect(c, k, want, what)
					}
					if plain && s.Kind != "enum" {
						p, _ := properties(*t)
						x.expect(c, t, s.Eval(env, p), what)
					}
				}
			})
		})
	}
	lspecs := []*Spec{{Kind: "array", Unique: true}, arr(sStr), {Kind: "array", MinItems: ip(2)}, {Kind: "array", MaxItems: ip(1)}, {Kind: "array", HasPos: true, Pos: []*Spec{sStr}, SetAddI: true, AddItems: sNum}, {Kind: "array", Unique: true, Items: any_(sStr, sNum)}, arr(ref("r")), enum(L{"s"}, L{1.0, "s"}), not(arr(sStr)), {Kind: "array", Unique: true, Items: arr(sEmpty)}}
	lstates := []L{{}, {"s"}, {1.0}, {"s", "s"}, {"s", 1.0}, {1.0, "s"}, {"s", "t"}, {1.0, 1.0}, {"s", 1.0, "s"}, {"s", 1.0, 2.0}, {L{1.0}, L{2.0}}, {L{1.0}, L{1.0}}}
	for _, s := range lspecs {
		x.Case(func() string { return "slices changed in place: " + s.String() }, func() {
			c := s.Validator(env)
			buf, i1, i2 := make(L, 3), make(L, 1), make(L, 1)
			x.Traces++
			sequences(len(lstates), 3, func(seq []int) {
				for _, i := range seq {
					x.States++
					st := lstates[i]
					for j, v := range st {
						if in, ok := v.(L); ok {
							dst := i1
							if j > 0 {
								dst = i2
							}
							copy(dst, in)
							v = dst
						}
						buf[j] = v
					}
					l := buf[:len(st)]
					x.expect(c, l, s.Eval(env, cpJ(st)), func() string { return fmt.Sprintf("%s, states %v of the same slice", s, seq) })
				}
			})
		})
	}
}

// lentSlices: lists handed to configuration calls remain those of the caller.
func (x *X) lentSlices() {
	names := []string{"b", "c", "d"}
	mask := func(m int) M {
		v := M{"a": 1.0}
		for i, n := range names {
			if m>>i&1 == 1 {
				v[n] = 1.0
			}
		}
		return v
	}
	for n := 0; n <= 2; n++ {
		for spare := 0; spare <= 3; spare++ {
			x.Case(func() string { return fmt.Sprintf("a list of %d names, room for %d more, given twice", n, spare) }, func() {
				for req := 0; req < 2; req++ {
					for changed := 0; changed < 3; changed++ {
						for _, more := range [][2][]string{{{"c"}, {"d"}}, {{"c", "d"}, {"b"}}, {nil, {"d"}}, {{"d"}, nil}, {nil, nil}} {
							x.Traces++
							l := make([]string, n, n+spare)
							copy(l, names)
							keep := append([]string{}, l...)
							call := func(o *jsval.ObjectConstraint, l []string) {
								if req == 1 {
									o.Required(l...)
								} else {
									o.PropDependency("a", l...)
								}
							}
							var two [2]*jsval.ObjectConstraint
							for i := range two {
								two[i] = jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
								call(two[i], l)
							}
							for i := range two {
								if more[i] != nil {
									call(two[i], more[i])
								}
							}
							if !reflect.DeepEqual(append([]string{}, l...), keep) {
								Failf("the list given was changed from %q to %q", keep, l)
							}
							switch changed {
							case 1:
								for i := range l {
									l[i] = "zz"
								}
							case 2:
								_ = append(l, "zz", "yy")
							}
							for i, o := range two {
								need := append(append([]string{}, keep...), more[i]...)
								for m := 0; m < 8; m++ {
									v := mask(m)
									want := true
									for _, q := range need {
										want = want && has(v, q)
									}
									x.States++
									x.expect(o, v, want, func() string {
										return fmt.Sprintf("object %d of two given %q, then %q (variant %d, %d)", i, keep, more[i], req, changed)
									})
								}
							}
						}
					}
				}
			})
		}
	}
}

// smallFloats are float32 values that need up to nine digits.
func smallFloats() []float32 {
	out := []float32{0, 1, 0.1, 0.3, 1.0 / 3, 16777215, 16777216, 8388607.5, 123456.79, 1e10, 3.4028235e38, 1e-45, 1.1754944e-38, 2.5, 1e-7, 9.8765434, 99999.99, 1048575.94}
	for _, f := range out[1:] {
		out = append(out, -f)
	}
	return out
}

func smallFloatSpecs() []*Spec {
	var out []*Spec
	for _, f := range smallFloats() {
		out = append(out, enum(f), enum(L{f}, M{"a": f}), obj(Prop{"a", dnum(f)}))
	}
	return out
}

func smallFloatDocs(s *Spec) []J {
	var out []J
	if s.Kind == "object" {
		return []J{M{}, M{"a": 1.0}, nil}
	}
	for _, f := range smallFloats() {
		out = append(out, f, L{f}, M{"a": f}, float64(f))
	}
	return out
}

// c18names: validators named like the variables of generated code.
func c18names(x *X) {
	names := []string{"", "V0", "V1", "V2", "M", "R0", "R1", "V0_", "M_", "A"}
	var sets [][]string
	for _, a := range names {
		sets = append(sets, []string{a})
		for _, b := range names {
			sets = append(sets, []string{a, b})
			for _, c := range names {
				sets = append(sets, []string{a, b, c})
			}
		}
	}
	for _, set := range sets {
		x.Case(func() string { return fmt.Sprintf("validators named %q", set) }, func() {
			for refs := 0; refs < 3; refs++ {
				x.Traces++
				env := Env{}
				for r := 0; r < refs; r++ {
					env[fmt.Sprint("r", r)] = enum(fmt.Sprint("r", r))
				}
				var vs []*jsval.JSVal
				dup := false
				for i, n := range set {
					s := enum(float64(i))
					if refs > 0 {
						s = any_(enum(float64(i)), ref("r0"))
					}
					v := s.Validator(env)
					if n != "" {
						v.SetName(n)
					}
					for _, m := range set[:i] {
						dup = dup || n != "" && n == m
					}
					vs = append(vs, v)
				}
				code, err := genCode(vs...)
				if dup {
					if err == nil {
						if _, ok, err := runCode(code); ok && err == nil {
							Failf("validators named %q: code was generated for two of the same name", set)
						}
						Failf("validators named %q: generation succeeded, but the code does not compile\n%s", set, trim(code, 1000))
					}
					continue
				}
				if err != nil {
					Failf("validators named %q: generation refused: %s", set, safeError(err))
				}
				gen, ok, err := runCode(code)
				if !ok {
					x.count("sets the evaluator left to the compiler", 1)
					x.Capped = true
					continue
				}
				if err != nil {
					Failf("validators named %q: %v\n%s", set, err, trim(code, 2000))
				}
				if len(gen) != len(set) {
					Failf("validators named %q: the code defines %d validators\n%s", set, len(gen), trim(code, 2000))
				}
				for i, n := range set {
					found := false
					for m, g := range gen {
						if n != "" && m != n {
							continue
						}
						good := g.Name == m
						for k := range set {
							x.States++
							x.Transitions++
							good = good && (g.Validate(float64(k)) == nil) == (k == i)
						}
						good = good && (g.Validate("r0") == nil) == (refs > 0) && g.Validate("r1") != nil
						found = found || good
					}
					if !found {
						Failf("validators named %q: the code defines nothing equivalent to number %d\n%s", set, i, trim(code, 2000))
					}
				}
			}
		})
	}
}
