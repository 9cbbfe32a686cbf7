package main

import (
	"fmt"
	"reflect"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C20", race: true, run: c20, traces: "every schedule is executed on the real code under a cooperative scheduler, with the race detector watching; every verdict and every document afterwards is compared with the model and with the same call made alone",
		bounds: "validators of every kind (lazily resolved and recursive references, objects with all keywords, arrays, combinators, formats, enumerations, defaults, structs met for the first time, shared constraint maps) times all pairs of documents with 2 goroutines (every schedule with at most 2 preemptions in the quick tier, 3 in the thorough one; every schedule at all for the smallest) and triples with 3 goroutines (1 and 2 preemptions); scheduling points are all lock, once, map, pool and atomic operations of the code under test; in addition large documents with 1 preemption; documents with several failures",
		notes:  []string{"between scheduling points plain memory accesses are judged by the race detector's happens-before relation, not by enumeration", "goroutines validate different documents, as the property says"}})
}

// a scenario: validators and the documents to be validated.
type scen struct {
	name string
	make func() []*jsval.JSVal // thread i uses validator i modulo their number
	spec []*Spec               // their models
	env  Env
	docs []func(t reflect.Type) J
	typ  func(n int) reflect.Type // a struct type nobody has seen, or nil
	big  bool
	tiny bool
}

func plainDocs(ds ...J) []func(reflect.Type) J {
	var out []func(reflect.Type) J
	for _, d := range ds {
		d := d
		out = append(out, func(reflect.Type) J { return cpJ(d) })
	}
	return out
}

type embeddedT struct {
	E string            `json:"e"`
	N jsval.MaybeString `json:"en"`
}

var typeCount int

func freshType(n int) reflect.Type {
	tag := func(s string) reflect.StructTag { return reflect.StructTag(fmt.Sprintf(`json:"%s" v:"%d"`, s, n)) }
	return reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: tag("a")},
		{Name: "B", Type: reflect.TypeOf(0.5), Tag: tag("b,omitempty")},
		{Name: "M", Type: reflect.TypeOf(jsval.MaybeInt{}), Tag: tag("m")},
		{Name: "S", Type: reflect.TypeOf(jsval.MaybeString{}), Tag: tag("s")},
		{Name: "EmbeddedT", Type: reflect.TypeOf(EmbeddedT{}), Anonymous: true},
		{Name: "Hidden", Type: reflect.TypeOf(0), Tag: tag("-")},
	})
}

type EmbeddedT embeddedT

func structDocs() []func(reflect.Type) J {
	mk := func(ptr bool, a string, m int64, s string) func(reflect.Type) J {
		return func(t reflect.Type) J {
			v := reflect.New(t)
			v.Elem().FieldByName("A").SetString(a)
			if m >= 0 {
				v.Elem().FieldByName("M").Set(reflect.ValueOf(mInt(m)))
			}
			if s != "" {
				v.Elem().FieldByName("S").Set(reflect.ValueOf(mString(s)))
			}
			if ptr {
				return v.Interface()
			}
			return v.Elem().Interface()
		}
	}
	return []func(reflect.Type) J{mk(true, "x", 1, "y"), mk(true, "x", -1, ""), mk(false, "x", 3, "z"), mk(true, "", 5, "q")}
}

func one(name string, s *Spec, env Env, docs ...J) scen {
	return scen{name: name, make: func() []*jsval.JSVal { return []*jsval.JSVal{s.Validator(env)} }, spec: []*Spec{s}, env: env, docs: plainDocs(docs...)}
}

func tiny(s scen) scen { s.tiny = true; return s }
func bigS(s scen) scen { s.big = true; return s }

func c20scens() []scen {
	full := &Spec{Kind: "object",
		Props:      []Prop{{"a", sStr.with(func(s *Spec) { s.MinLen = ip(1); s.Rx, s.HasRx = "^x", true })}, {"d", dnum(1.5)}},
		Pats:       []Prop{{"^p", sNum}, {"q$", not(sNull)}},
		Required:   []string{"a", "r"},
		AddProps:   sStr,
		MinProps:   ip(1),
		MaxProps:   ip(5),
		PropDeps:   []Dep{{"a", []string{"r"}}, {"p1", []string{"q"}}},
		SchemaDeps: []Prop{{"r", &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(4)}}},
	}
	formats := obj(Prop{"t", &Spec{Kind: "string", Format: "date-time"}}, Prop{"e", &Spec{Kind: "string", Format: "email"}}, Prop{"h", &Spec{Kind: "string", Format: "hostname"}}, Prop{"4", &Spec{Kind: "string", Format: "ipv4"}}, Prop{"6", &Spec{Kind: "string", Format: "ipv6"}}, Prop{"u", &Spec{Kind: "string", Format: "uri"}})
	var long, longBad L
	wide, wideBad := M{}, M{}
	wideSpec := &Spec{Kind: "object"}
	var manyEnum []J
	for i := 0; i < 130; i++ {
		long = append(long, float64(i))
		longBad = append(longBad, float64(i%120))
		wide[fmt.Sprintf("k%03d", i)] = float64(i)
		wideBad[fmt.Sprintf("k%03d", i)] = float64(i)
		manyEnum = append(manyEnum, float64(i), fmt.Sprint("v", i))
	}
	wideBad["k064"] = "s"
	for i := 0; i < 20; i++ {
		wideSpec.Props = append(wideSpec.Props, Prop{fmt.Sprintf("w%02d", i), dnum(float64(i))})
	}
	structSpec := &Spec{Kind: "object", Props: []Prop{{"a", sStr.with(func(s *Spec) { s.MinLen = ip(1) })}, {"m", dint(7)}, {"s", dstr("dflt")}, {"e", sStr}}, AddProps: sEmpty}
	structReq := &Spec{Kind: "object", Props: []Prop{{"m", intMax(4)}}, Required: []string{"m"}, Pats: []Prop{{"^[sab]$", any_(sStr, sNum)}}, AddProps: sStr, MinProps: ip(3)}
	out := []scen{
		tiny(one("reference", ref("a"), Env{"a": sNum}, 1.5, "s")),
		tiny(one("chain of references", ref("a"), Env{"a": ref("b"), "b": ref("c"), "c": strMin(2)}, "ab", "a", 1.5)),
		tiny(one("unknown reference", any_(ref("nowhere"), sStr), nil, "s", 1.5)),
		one("two references", arr(any_(ref("a"), ref("b"))), Env{"a": sNum, "b": ref("a"), "c": sStr}, L{1.5}, L{1.5, "s"}, L{}, "s"),
		one("recursive list", ref("#"), Env{"#": any_(sNull, obj(Prop{"next", ref("#")}))}, nil, M{"next": nil}, M{"next": M{"next": nil}}, M{"next": 1.0}),
		one("recursive tree", ref("t"), Env{"t": arr(ref("t"))}, L{}, L{L{}, L{}}, L{1.0}, L{L{L{1.0}}}),
		one("object with every keyword", full, nil, M{"a": "x", "r": "s"}, M{"a": "x", "r": "s", "d": 2.0, "p1": 1.0, "q": 1.0}, M{"a": "x", "r": "s", "p1": 1.0}, M{"a": "y", "r": "s"}, M{"a": "x"}, M{"a": "x", "r": "s", "zz": 1.0}, 1.5),
		one("defaults through references", obj(Prop{"a", ref("d")}, Prop{"b", ref("e")}), Env{"d": dstr("dd"), "e": ref("d")}, M{}, M{"a": "x"}, M{"b": 1.0}),
		one("nested objects with defaults", obj(Prop{"o", obj(Prop{"x", dnum(1.0)}, Prop{"y", dbool(true)})}, Prop{"l", arr(obj(Prop{"z", dstr("q")}))}), nil, M{"o": M{}}, M{"l": L{M{}, M{"z": "r"}}}, M{"o": M{"y": 1.0}}, M{}),
		one("arrays", &Spec{Kind: "array", HasPos: true, Pos: []*Spec{sNum, strRx("^a+$")}, SetAddI: true, AddItems: any_(sNull, ref("r")), MinItems: ip(1), MaxItems: ip(4), Unique: true}, Env{"r": sBool}, L{1.0, "a", nil}, L{1.0, "b"}, L{1.0, "aa", true, true}, L{1.0, "a", true, nil}, L{}),
		one("combinators", all(oneof(sStr, numMin(2), intMin(1)), not(enum(3.0, "no")), any_(ref("s"), ref("n"))), Env{"s": sStr, "n": sNum}, "yes", "no", 3.0, 4.0, 2.5, nil),
		one("formats", formats, nil, M{"t": "2001-02-03T04:05:06Z", "e": "a@b.c"}, M{"h": "a.b.c", "4": "1.2.3.4"}, M{"6": "::1", "u": "http://x/"}, M{"t": "x"}, M{"h": "-"}, M{"4": "1.2.3"}, M{"6": ":::"}, M{"e": "@"}),
		one("numbers", arr(any_(&Spec{Kind: "integer", Min: fp(1), ExMin: true, Max: fp(9), Mult: fp(2)}, &Spec{Kind: "number", Min: fp(0.25), Max: fp(0.75), ExMax: true, Enum: []J{0.25, 0.5, 0.75}, HasEnum: true})), nil, L{2.0, 4.0}, L{1.0}, L{0.5, 8.0}, L{0.75}),
		one("strings", arr(&Spec{Kind: "string", MinLen: ip(1), MaxLen: ip(3), Rx: "^[a-c]*$", HasRx: true, Enum: []J{"a", "ab", "abc"}, HasEnum: true}), nil, L{"a", "ab"}, L{"abcd"}, L{"d"}, L{"c"}),
		one("enumeration", enum(1.0, "s", nil, L{1.0}, M{"a": nil}), nil, 1.0, L{1.0}, M{"a": nil}, M{"a": 1.0}, "t"),
		one("arrays with several bad elements", arr(sStr), nil, L{1.0, 2.0, 3.0}, L{"a", 1.0, 2.0}, L{"a", "b", "c", "d"}, L{1.0, "a", 2.0}),
		one("objects with several bad properties", &Spec{Kind: "object", Props: []Prop{{"a", sStr}, {"b", sStr}}, Pats: []Prop{{"^p", sStr}, {"q", sStr}}, AddProps: sStr, Required: []string{"a", "b"}, PropDeps: []Dep{{"a", []string{"x", "y"}}, {"b", []string{"z"}}}}, nil, M{"a": 1.0, "b": 2.0, "pq": 3.0, "k": 4.0, "l": 5.0}, M{"a": "s", "b": "s", "x": "s", "y": "s", "z": "s", "pq": "s"}, M{"k": 1.0}, M{"pq": 1.0, "qp": 2.0, "a": "s", "b": "s"}),
		one("combinations with several failures", all(any_(sStr, sBool, strMin(9)), any_(sStr, sBool), oneof(sStr, strMin(0), sBool), not(any_(sStr, sBool))), nil, 1.0, "s", true, nil),
		{name: "struct met for the first time", make: func() []*jsval.JSVal { return []*jsval.JSVal{structSpec.Validator(nil)} }, spec: []*Spec{structSpec}, docs: structDocs(), typ: freshType},
		{name: "struct, other keywords", make: func() []*jsval.JSVal { return []*jsval.JSVal{structReq.Validator(nil)} }, spec: []*Spec{structReq}, docs: structDocs(), typ: freshType},
		{name: "two validators, one new struct type", make: func() []*jsval.JSVal {
			return []*jsval.JSVal{structSpec.Validator(nil), structReq.Validator(nil)}
		}, spec: []*Spec{structSpec, structReq}, docs: structDocs(), typ: freshType},
		{name: "two validators, one constraint map", env: Env{"a": obj(Prop{"x", dnum(1.0)}, Prop{"n", ref("a")}), "b": ref("a")}, make: func() []*jsval.JSVal {
			env := Env{"a": obj(Prop{"x", dnum(1.0)}, Prop{"n", ref("a")}), "b": ref("a")}
			v := ref("b").Validator(env)
			w := jsval.New().SetConstraintMap(v.ConstraintMap).SetName("W")
			w.SetRoot(any_(ref("b"), ref("a")).Build(w))
			return []*jsval.JSVal{v, w}
		}, spec: []*Spec{ref("b"), ref("b")}, docs: plainDocs(M{}, M{"n": M{"n": M{}}}, M{"n": 1.0}, M{"x": "s"})},
		{name: "one constraint in many places", env: Env{"r": sNum}, make: func() []*jsval.JSVal {
			v := jsval.New()
			v.SetReference("r", jsval.Number())
			r := jsval.Reference(v).RefersTo("r")
			o := jsval.Object().AddProp("a", r).AddProp("d", jsval.String().Default("x"))
			v.SetRoot(jsval.Any().Add(jsval.Array().Items(o)).Add(o).Add(r))
			w := jsval.New().SetRoot(jsval.All().Add(o))
			return []*jsval.JSVal{v, w}
		}, spec: []*Spec{any_(arr(obj(Prop{"a", ref("r")}, Prop{"d", dstr("x")})), obj(Prop{"a", ref("r")}, Prop{"d", dstr("x")}), ref("r")), obj(Prop{"a", ref("r")}, Prop{"d", dstr("x")})}, docs: plainDocs(M{"a": 1.0}, M{"a": "s"}, M{}, M{"d": 1.0}, 1.0)},
	}
	return append(out, bigS(one("long arrays", &Spec{Kind: "array", Items: any_(sNum, ref("r")), Unique: true}, Env{"r": sStr}, long, longBad)),
		bigS(one("wide objects", &Spec{Kind: "object", Props: append([]Prop{{"k001", ref("r")}}, wideSpec.Props...), Pats: []Prop{{"^k0", sNum}}, AddProps: sNum}, Env{"r": sNum}, wide, wideBad)),
		bigS(one("large enumeration", arr(enum(manyEnum...)), nil, append(append(L{}, long...), "v7"), append(append(L{}, long...), "w"))))
}

type outcome struct {
	ok   bool
	err  string
	doc  J
	msg  bool
	done bool
}

func snapshot(v J) J {
	rv := reflect.ValueOf(v)
	for rv.IsValid() && rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.IsValid() && rv.Kind() == reflect.Struct {
		return structProps(rv)
	}
	return v
}

// c20run explores one scenario: thread i validates the documents ds[i].
func (x *X) c20run(s *scen, ds [][]int, bound, limit int) {
	// what each goroutine gets alone is found out only after the first
	// concurrent execution, which is to be the first use there is
	var alone [][]outcome
	solo := func() {
		alone = make([][]outcome, len(ds))
		for i, l := range ds {
			vs := s.make()
			var t reflect.Type
			if s.typ != nil {
				typeCount++
				t = s.typ(typeCount)
			}
			for _, d := range l {
				doc := s.docs[d](t)
				want := s.spec[i%len(s.spec)].Eval(s.env, doc)
				err := vs[i%len(vs)].Validate(doc)
				if (err == nil) != want {
					Failf("alone, %s gives %v", show(s.docs[d](t)), verdict(err))
				}
				alone[i] = append(alone[i], outcome{ok: want, doc: snapshot(doc)})
			}
		}
	}
	x.explore(bound, limit, func() ([]func(), func(func() string)) {
		vs := s.make()
		var t reflect.Type
		if s.typ != nil {
			typeCount++
			t = s.typ(typeCount)
		}
		got := make([][]outcome, len(ds))
		var bodies []func()
		for i, l := range ds {
			docs := make([]J, len(l))
			for k, d := range l {
				docs[k] = s.docs[d](t)
			}
			res := make([]outcome, len(l))
			got[i] = res
			v := vs[i%len(vs)]
			bodies = append(bodies, func() {
				for k, doc := range docs {
					err := v.Validate(doc)
					res[k] = outcome{ok: err == nil, doc: doc, done: true}
					if err != nil {
						res[k].err = err.Error()
					}
				}
			})
		}
		return bodies, func(sched func() string) {
			if alone == nil {
				solo()
			}
			for i, l := range ds {
				for k, d := range l {
					g, a := got[i][k], alone[i][k]
					if !g.done || g.ok != a.ok {
						Failf("%s of goroutine %d, %s, is accepted=%v, alone it is %v (%s)", ordinal(k), i, show(s.docs[d](t)), g.ok, a.ok, sched())
					}
					if !g.ok && g.err == "" {
						Failf("empty error message (%s)", sched())
					}
					if g.ok && !reflect.DeepEqual(snapshot(g.doc), a.doc) {
						Failf("%s of goroutine %d, %s, is %s afterwards, alone it is %s (%s)", ordinal(k), i, show(s.docs[d](t)), show(snapshot(g.doc)), show(a.doc), sched())
					}
				}
			}
		}
	})
}

func ordinal(k int) string { return fmt.Sprintf("document %d", k) }

func c20(x *X) {
	ss := c20scens()
	limit := 20000
	b2, b3 := 2, 1
	if x.thorough {
		limit = 60000
		b2, b3 = 3, 2
	}
	for si := range ss {
		s := &ss[si]
		n := len(s.docs)
		run := func(ds [][]int, bound int) {
			x.Case(func() string {
				return fmt.Sprintf("%s: %s: documents %v", s.name, trim(s.spec[0].String(), 800), ds)
			}, func() {
				for o := 0; o < 2; o++ {
					setOrder(o)
					x.c20run(s, ds, bound, limit)
				}
			})
		}
		if s.big {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					b := 1
					if !x.thorough {
						b = 0
					}
					run([][]int{{i}, {j}}, b)
				}
			}
			run([][]int{{0}, {1}, {0}, {1}}, 0)
			continue
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if s.tiny {
					run([][]int{{i}, {j}}, -1)
				} else {
					run([][]int{{i}, {j}}, b2)
				}
				run([][]int{{i, j}, {(i + 1) % n, i}}, 1)
				for l := 0; l < n; l++ {
					if !x.thorough && (i+j+l)%2 == 1 {
						continue
					}
					run([][]int{{i}, {j}, {l}}, b3)
				}
			}
		}
		run([][]int{{0}, {1 % n}, {2 % n}, {3 % n}}, 0)
		run([][]int{{0}, {0}, {1 % n}, {1 % n}, {0}, {2 % n}, {0}, {3 % n}}, 0)
	}
}
