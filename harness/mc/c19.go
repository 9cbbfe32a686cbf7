package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C19", run: c19, traces: "every generation is executed on the real generator, the bytes delivered are compared with those of the first generation",
		bounds: "every sequence of map iteration orders inside one generation (complete up to 40000 per set in the quick tier, 500000 in the thorough one) for 40 sets of validators, and for 30 quadruples of easily confused names in 8 roles, with many references, properties, patterns, requirements, dependencies and enumerations of objects; the constraints of C18, rebuilt and under other orders; a writer that fails, falls short or misreports at every byte of the output; unbuildable sets: foreign constraints in 16 positions, defaults of the wrong type, conflicting references; schemas that differ in one place, in turn with one generator; named validators in all orders of up to 5 and 3 n orders of up to 50; values of 7 unprintable types in 8 keywords x 12 places"})
}

type foreign struct{}

func (foreign) Validate(interface{}) error { return nil }
func (foreign) HasDefault() bool           { return false }
func (foreign) DefaultValue() interface{}  { return nil }

// faulty accepts quota bytes; then it does what mode says.
type faulty struct {
	quota int
	mode  int
	got   strings.Builder
	bad   bool // it has reported or shown a failure
	calls int
}

var errDisk = errors.New("disk full")

func (f *faulty) Write(p []byte) (int, error) {
	f.calls++
	if f.quota >= len(p) && f.quota >= 0 {
		f.got.Write(p)
		f.quota -= len(p)
		return len(p), nil
	}
	n := f.quota
	f.got.Write(p[:n])
	f.quota = 0
	f.bad = true
	switch f.mode {
	case 0:
		return n, errDisk
	case 1: // short write
		return n, nil
	case 2: // claims to have written all
		return len(p), errDisk
	case 3: // recovers afterwards
		f.quota = 1 << 30
		return n, errDisk
	}
	f.quota = 1 << 30
	return n, nil
}

func detSets() []struct {
	what string
	make func() []*jsval.JSVal
} {
	type set = struct {
		what string
		make func() []*jsval.JSVal
	}
	var out []set
	add := func(what string, f func() []*jsval.JSVal) { out = append(out, set{what, f}) }
	single := func(s *Spec, env Env) {
		add(s.String(), func() []*jsval.JSVal { return []*jsval.JSVal{s.Validator(env)} })
	}
	single(&Spec{Kind: "object", Props: []Prop{{"a", sNum}, {"b", sStr}, {"c", sNull}, {"d", sBool}}}, nil)
	single(&Spec{Kind: "object", Pats: []Prop{{"a", sNum}, {"b", sStr}, {"c", sNull}}}, nil)
	single(&Spec{Kind: "object", Pats: []Prop{{"a", sNum}, {"a", sStr}, {"a", sNull}, {"b", sBool}}}, nil)
	single(&Spec{Kind: "object", Required: []string{"z", "y", "x", "w"}, AddProps: sEmpty}, nil)
	single(&Spec{Kind: "object", PropDeps: []Dep{{"a", []string{"c", "b"}}, {"b", []string{"a"}}, {"c", []string{"z", "y"}}}}, nil)
	single(&Spec{Kind: "object", SchemaDeps: []Prop{{"a", sNum}, {"b", sStr}, {"c", sNull}}}, nil)
	single(&Spec{Kind: "object", Props: []Prop{{"a", dnum(1.0)}, {"b", dstr("x")}}, Required: []string{"a", "b"}, Pats: []Prop{{"x", sNum}, {"y", sStr}}, PropDeps: []Dep{{"a", []string{"b"}}, {"b", []string{"a"}}}}, nil)
	single(enum(M{"a": 1.0, "b": 2.0, "c": 3.0}, M{"x": M{"p": 1.0, "q": 2.0}, "y": L{M{"r": 1.0, "s": 2.0}}}), nil)
	single(&Spec{Kind: "number", HasEnum: true, Enum: []J{3.0, 1.0, 2.0}}, nil)
	env4 := Env{"d": sNum, "c": sStr, "b": arr(ref("d")), "a": obj(Prop{"x", ref("b")}, Prop{"y", ref("c")})}
	single(ref("a"), env4)
	single(any_(ref("d"), ref("c"), ref("b")), env4)
	single(sNull, env4)
	// the root is registered under several names
	for n := 2; n <= 4; n++ {
		add(fmt.Sprintf("a root registered under %d names", n), func() []*jsval.JSVal {
			v := jsval.New()
			c := jsval.String().MinLength(1)
			for i := 0; i < n; i++ {
				v.SetReference(fmt.Sprintf("n%d", (i*3)%4), c)
			}
			v.SetRoot(c)
			return []*jsval.JSVal{v}
		})
	}
	// several validators
	add("validators sharing references", func() []*jsval.JSVal {
		a, b := ref("a").Validator(env4), ref("b").Validator(env4)
		return []*jsval.JSVal{b, a}
	})
	add("validators with references of their own", func() []*jsval.JSVal {
		return []*jsval.JSVal{ref("p").Validator(Env{"p": sNum, "q": sStr}), ref("x").Validator(Env{"x": ref("y"), "y": sNull}), ref("q").Validator(Env{"q": sStr})}
	})
	add("named validators", func() []*jsval.JSVal {
		return []*jsval.JSVal{ref("p").Validator(Env{"p": sNum, "q": sStr}).SetName("Z"), sNum.Validator(nil).SetName("A"), obj(Prop{"a", sNum}, Prop{"b", sStr}).Validator(nil).SetName("K")}
	})
	add("some named validators", func() []*jsval.JSVal {
		return []*jsval.JSVal{ref("p").Validator(Env{"p": sNum, "q": sStr}), sNum.Validator(nil).SetName("A"), obj(Prop{"a", sNum}, Prop{"b", sStr}).Validator(nil), sNull.Validator(nil).SetName("W")}
	})
	for i, txt := range richSchemas() {
		if i < 15 {
			add("schema "+txt, func() []*jsval.JSVal {
				v, err := buildSchema(jo(txt), jo(txt))
				if err != nil {
					Failf("%s not built: %v", txt, err)
				}
				return []*jsval.JSVal{v}
			})
		}
	}
	return out
}

func c19(x *X) {
	x.unprintable()
	x.anyOrder()
	limit := 40000
	if x.thorough {
		limit = 500000
	}
	for _, set := range detSets() {
		x.Case(func() string { return "all map orders while generating " + set.what }, func() {
			x.allCodes(limit, set.make)
		})
	}
	c19named(x, limit)
	c19broad(x)
	c19faults(x)
	c19refused(x)
	c19large(x)
	x.near(true)
}

// c19named: names that are easily confused, in all map orders.
func c19named(x *X, limit int) {
	for _, n := range oddNames() {
		q := regexp.QuoteMeta
		specs := []*Spec{
			{Kind: "object", Props: []Prop{{n[0], sNum}, {n[1], sStr}, {n[2], sNull}, {n[3], sBool}}},
			{Kind: "object", Pats: []Prop{{q(n[0]), sNum}, {q(n[1]), sStr}, {q(n[2]), sNull}, {q(n[3]), sBool}}},
			{Kind: "object", Required: n[:], AddProps: sEmpty},
			{Kind: "object", PropDeps: []Dep{{n[0], []string{n[1]}}, {n[1], []string{n[2], n[0]}}, {n[2], []string{n[3]}}, {n[3], []string{n[1], n[0], n[2]}}}},
			{Kind: "object", SchemaDeps: []Prop{{n[0], sNum}, {n[1], sStr}, {n[2], sNull}, {n[3], sBool}}},
			enum(M{n[0]: 1.0, n[1]: 2.0, n[2]: 3.0, n[3]: M{n[1]: 1.0, n[0]: 2.0}}),
		}
		for _, s := range specs {
			x.Case(func() string { return "all map orders while generating " + s.String() }, func() {
				x.allCodes(limit, func() []*jsval.JSVal { return []*jsval.JSVal{s.Validator(nil)} })
			})
		}
		x.Case(func() string {
			return fmt.Sprintf("all map orders while generating references and validators named %q", n)
		}, func() {
			env := Env{n[0]: sNum, n[1]: sStr, n[2]: sNull, n[3]: ref(n[0])}
			x.allCodes(limit, func() []*jsval.JSVal {
				return []*jsval.JSVal{any_(ref(n[0]), ref(n[1]), ref(n[2]), ref(n[3])).Validator(env)}
			})
			x.allCodes(limit, func() []*jsval.JSVal {
				return []*jsval.JSVal{ref(n[1]).Validator(Env{n[1]: sNum}), ref(n[0]).Validator(Env{n[0]: sStr}), ref(n[2]).Validator(Env{n[2]: sNull, n[3]: sBool})}
			})
		})
	}
	for _, n := range [][]string{{"a", "A", "b", "B"}, {"V", "v", "V1", "V01"}, {"V10", "V9", "V2", "V1"}, {"Aa", "aA", "AA", "aa"}, {"É", "é", "E", "e"}} {
		x.Case(func() string { return fmt.Sprintf("all map orders while generating validators named %q", n) }, func() {
			x.allCodes(limit, func() []*jsval.JSVal {
				var vs []*jsval.JSVal
				for i, name := range n {
					vs = append(vs, []*Spec{sNum, sStr, sNull, sBool}[i].Validator(Env{"r" + name: arr(sStr)}).SetName(name))
				}
				return vs
			})
		})
	}
}

// allCodes: the code is the same in all map orders, and when the validators
// are made again.
func (x *X) allCodes(limit int, mk func() []*jsval.JSVal) {
	first := ""
	var kept []*jsval.JSVal
	kept = mk()
	n, complete := allOrders(limit, func(n int) {
		x.Tick()
		vs := kept
		hold(func() {
			if n%2 == 1 {
				vs = mk()
			}
		})
		code, err := genCode(vs...)
		hold(func() {
			x.Transitions++
			if err != nil {
				Failf("refused: %s", safeError(err))
			}
			if n == 0 {
				first = code
				x.States++
			} else if code != first {
				Failf("generation %d (map orders differ) gives\n%s\ninstead of\n%s", n, trim(code, 2000), trim(first, 2000))
			}
		})
	})
	x.Traces += int64(n)
	x.count("order sequences", int64(n))
	if !complete {
		x.count("sets explored up to the limit", 1)
		x.Capped = true
	}
}

// c19broad: everything the library can express is generated, and alike when
// it is rebuilt, under other orders, and by a generator with a history.
func c19broad(x *X) {
	g := jsval.NewGenerator()
	lists := [][]*Spec{genStrings(), genNumbers(), genTrees(), genArrays(), genObjects()}
	for li, l := range lists {
		for i := 0; i < len(l); i += 40 {
			part := l[i:min(i+40, len(l))]
			x.Case(func() string { return fmt.Sprintf("list %d from %d on, such as %s", li, i, part[0]) }, func() {
				var all []string
				for o := 0; o < 3; o++ {
					setOrder(o)
					var vs []*jsval.JSVal
					for k, s := range part {
						v := s.Validator(genEnv)
						vs = append(vs, v)
						w := s.Validator(genEnv)
						if k%2 == 0 {
							w = v
						}
						var b strings.Builder
						err := g.Process(&b, w)
						x.States++
						x.Transitions++
						x.Traces++
						if err != nil {
							Failf("%s: refused: %s", s, safeError(err))
						}
						if o == 0 {
							all = append(all, b.String())
						} else if all[k] != b.String() {
							Failf("%s: generation %d gives\n%s\ninstead of\n%s", s, o, trim(b.String(), 2000), trim(all[k], 2000))
						}
					}
					code, err := genCode(vs...)
					x.Transitions++
					if err != nil {
						Failf("set with %s: refused: %s", part[0], safeError(err))
					}
					if o == 0 {
						all = append(all, code)
					} else if all[len(part)] != code {
						Failf("set with %s: generation %d differs", part[0], o)
					}
				}
				all = nil
			})
		}
	}
}

func c19faults(x *X) {
	for _, set := range detSets() {
		x.Case(func() string { return "writer faults while generating " + set.what }, func() {
			code, err := genCode(set.make()...)
			if err != nil {
				Failf("refused: %s", safeError(err))
			}
			vs := set.make()
			for mode := 0; mode < 5; mode++ {
				for q := 0; q <= len(code)+1; q++ {
					f := &faulty{quota: q, mode: mode}
					err := jsval.NewGenerator().Process(f, vs...)
					x.States++
					x.Transitions++
					x.Traces++
					got := f.got.String()
					switch {
					case err == nil && got != code:
						Failf("success reported although the writer (fault %d after %d bytes) received %d of %d bytes", mode, q, len(got), len(code))
					case err != nil && !f.bad:
						Failf("error %s although the writer took everything", safeError(err))
					case err == nil && f.bad && mode != 1 && mode != 4:
						Failf("success reported although the writer reported an error after %d bytes (fault %d)", q, mode)
					case err != nil && !strings.HasPrefix(code, got) && mode < 3:
						Failf("the writer received something else than the code")
					}
				}
			}
			// and afterwards all is well
			again, err := genCode(vs...)
			if err != nil || again != code {
				Failf("after the faults: %v, %d bytes instead of %d", err, len(again), len(code))
			}
		})
	}
}

// c19refused: when generation fails, there is an error and nothing else.
func c19refused(x *X) {
	fail := func(what string, vs func() []*jsval.JSVal) {
		x.Case(func() string { return "refused: " + what }, func() {
			for o := 0; o < 6; o++ {
				setOrder(o)
				f := &faulty{quota: 1 << 30}
				err := jsval.NewGenerator().Process(f, vs()...)
				x.Traces++
				x.States++
				x.Transitions++
				if err == nil {
					Failf("no error, but the code\n%s", trim(f.got.String(), 1500))
				}
				msg(err)
				if f.got.Len() > 0 {
					Failf("the error %s, and %d bytes of code", safeError(err), f.got.Len())
				}
			}
		})
	}
	var fc jsval.Constraint = foreign{}
	root := func(c jsval.Constraint) func() []*jsval.JSVal {
		return func() []*jsval.JSVal { return []*jsval.JSVal{jsval.New().SetRoot(c)} }
	}
	fail("a foreign root", root(fc))
	fail("a foreign item", root(jsval.Array().Items(fc)))
	fail("a foreign positional item", root(jsval.Array().PositionalItems([]jsval.Constraint{jsval.String(), fc})))
	fail("a foreign additional item", root(jsval.Array().AdditionalItems(fc)))
	fail("a foreign property", root(jsval.Object().AddProp("a", fc)))
	fail("a foreign pattern property", root(jsval.Object().PatternPropertiesString("a", fc)))
	fail("a foreign additional property", root(jsval.Object().AdditionalProperties(fc)))
	fail("a foreign dependency", root(jsval.Object().SchemaDependency("a", fc)))
	fail("a foreign alternative", root(jsval.Any().Add(jsval.String()).Add(fc)))
	fail("a foreign conjunct", root(jsval.All().Add(fc).Add(jsval.String())))
	fail("a foreign choice", root(jsval.OneOf().Add(fc).Add(jsval.String())))
	fail("a foreign negation", root(jsval.Not(fc)))
	fail("deep foreign", root(jsval.Not(jsval.Array().Items(jsval.Object().AddProp("x", jsval.Any().Add(jsval.String()).Add(jsval.All().Add(jsval.Not(fc)).Add(jsval.String())))))))
	fail("a foreign reference", func() []*jsval.JSVal {
		v := jsval.New()
		v.SetReference("x", fc)
		v.SetReference("a", jsval.String())
		return []*jsval.JSVal{v.SetRoot(jsval.String())}
	})
	fail("a foreign last validator", func() []*jsval.JSVal {
		return []*jsval.JSVal{jsval.New().SetRoot(jsval.String()), jsval.New().SetRoot(fc)}
	})
	fail("a foreign first validator", func() []*jsval.JSVal {
		return []*jsval.JSVal{jsval.New().SetRoot(fc), jsval.New().SetRoot(jsval.String())}
	})
	for _, d := range []J{foreign{}, make(chan int), struct{ A int }{1}, &struct{}{}, func() {}} {
		fail(fmt.Sprintf("the enumeration value %T", d), root(jsval.Enum(1.0, d)))
		fail(fmt.Sprintf("the string enumeration value %T", d), root(jsval.String().Enum("x", d)))
		fail(fmt.Sprintf("the number enumeration value %T", d), root(jsval.Number().Enum(1.0, d)))
		fail(fmt.Sprintf("the nested enumeration value %T", d), root(jsval.Enum(L{1.0, M{"a": d}})))
	}
	// conflicting references
	pool := []*Spec{sNum, sStr, sNull, numMin(1), numMin(1.5), obj(Prop{"a", sNum}), obj(Prop{"a", sStr}), arr(sNum), ref("s"), not(sNum)}
	for i, a := range pool {
		for j, b := range pool {
			if i == j {
				continue
			}
			mk := func() []*jsval.JSVal {
				return []*jsval.JSVal{ref("r").Validator(Env{"r": a, "s": sBool}), ref("r").Validator(Env{"r": b, "s": sBool}), sNum.Validator(Env{"q": sNum})}
			}
			fail(fmt.Sprintf("conflict between %s and %s", a, b), mk)
			fail(fmt.Sprintf("conflict between %s and %s, later", a, b), func() []*jsval.JSVal {
				vs := mk()
				return []*jsval.JSVal{vs[2], vs[0], ref("r").Validator(Env{"r": a, "s": sBool}), vs[1]}
			})
		}
	}
}

func c19large(x *X) {
	for n := 5; n <= 60; n += 5 {
		x.Case(func() string { return fmt.Sprintf("generation of %d of everything, in 12 orders", n) }, func() {
			mk := func() []*jsval.JSVal {
				env := Env{}
				o := &Spec{Kind: "object"}
				big := M{}
				for i := 0; i < n; i++ {
					env[nm((i*7)%61)] = enum(float64(i))
					o.Props = append(o.Props, Prop{nm((i * 11) % 61), ref(nm((i * 7) % 61))})
					o.Pats = append(o.Pats, Prop{"^" + nm((i*13)%61), ref(nm((i * 7) % 61))})
					o.Required = append(o.Required, nm((i*17)%61))
					o.PropDeps = append(o.PropDeps, Dep{nm((i * 19) % 61), []string{nm(i)}})
					o.SchemaDeps = append(o.SchemaDeps, Prop{nm((i * 23) % 61), sNum})
					big[nm(i)] = float64(i)
				}
				vs := []*jsval.JSVal{o.Validator(env), enum(big).Validator(nil)}
				for i := 0; i < n; i++ {
					vs = append(vs, enum(float64(i)).Validator(Env{fmt.Sprintf("own%d", (i*7)%61): sNum, "shared": sStr}))
				}
				return vs
			}
			first := ""
			kept := mk()
			for o := 0; o < 12; o++ {
				setOrder(o)
				vs := kept
				if o%2 == 1 {
					vs = mk()
				}
				code, err := genCode(vs...)
				x.Traces++
				x.States++
				x.Transitions++
				if err != nil {
					Failf("refused: %s", safeError(err))
				}
				if first == "" {
					first = code
				}
				if code != first {
					Failf("order %d gives other code", o)
				}
			}
		})
	}
}
