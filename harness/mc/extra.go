package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// arrange lists n members ascending, descending, from the outside in, and
// rotated.
func arrange(n int, how int) []int {
	out := make([]int, n)
	for i := range out {
		switch how {
		case 0:
			out[i] = i
		case 1:
			out[i] = n - 1 - i
		case 2:
			out[i] = i / 2
			if i%2 == 1 {
				out[i] = n - 1 - i/2
			}
		default:
			out[i] = (i + n/2) % n
		}
	}
	return out
}

// longEnums: enumerations of every size up to 80 in four arrangements.
func (x *X) longEnums(kind string) {
	for n := 1; n <= 80; n++ {
		for how := 0; how < 4; how++ {
			for form := 0; form < 4; form++ {
				member := func(i int) J {
					switch form {
					case 0:
						return float64(2 * i)
					case 1:
						return fmt.Sprintf("m%03d", 2*i)
					case 2:
						return L{float64(2 * i), "x"}
					}
					return M{"k": float64(2 * i)}
				}
				switch kind {
				case "string":
					if form != 1 {
						continue
					}
				case "number", "integer":
					if form != 0 {
						continue
					}
				}
				s := &Spec{Kind: kind, HasEnum: true}
				for _, i := range arrange(n, how) {
					s.Enum = append(s.Enum, member(i))
				}
				x.Case(func() string { return fmt.Sprintf("%s with %d members, arrangement %d, form %d", kind, n, how, form) }, func() {
					var vs []J
					for i := -1; i <= n; i++ {
						vs = append(vs, member(i), nil)
						switch v := member(i).(type) {
						case float64:
							vs = append(vs, v+1, v+0.5, fmt.Sprint(v))
						case string:
							vs = append(vs, v+"x", v[:3], strings.ToUpper(v), fmt.Sprintf("m%03d", 2*i+1))
						case L:
							vs = append(vs, L{v[0]}, L{v[0], "y"}, L{2*float64(i) + 1, "x"})
						case M:
							vs = append(vs, M{"k": 2*float64(i) + 1}, M{"k": fmt.Sprint(2 * i)}, M{"l": v["k"]})
						}
					}
					x.gridBody(s, nil, vs, s.Validator(nil))
				})
			}
		}
	}
}

// enumLookalikes: every pair of values that a careless comparison confuses,
// bare and below lists and maps.
func (x *X) enumLookalikes() {
	la := lookalikes()
	wraps := []func(J) J{
		func(v J) J { return v },
		func(v J) J { return L{v} },
		func(v J) J { return M{"a": v} },
		func(v J) J { return L{"x", v, 1.0} },
		func(v J) J { return M{"a": 1.0, "b": v} },
		func(v J) J { return M{"a": L{v, M{"z": v}}} },
		func(v J) J { return L{M{"a": v}, L{}} },
		func(v J) J { return M{"": M{"": v}, "1": nil} },
	}
	for _, m := range la {
		x.Case(func() string { return "enumeration of what looks like " + show(m) }, func() {
			for wi, w := range wraps {
				var vs []J
				for _, v := range la {
					vs = append(vs, w(v), wraps[(wi+1)%len(wraps)](v))
				}
				for _, s := range []*Spec{enum(w(m)), enum("other", w(m)), enum(w(m), M{"other": 1.0})} {
					x.gridBody(s, nil, vs, s.Validator(nil))
				}
			}
		})
	}
}

// longElements: uniqueness and equality of long strings, lists and maps that
// differ at one position only.
func (x *X) longElements(each func(a, b J)) {
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096, 5000} {
		x.Case(func() string { return fmt.Sprintf("elements of length %d that differ in one place", n) }, func() {
			step := 1
			if n > 300 {
				step = n/128 + 1
			}
			base := repeat("a", n)
			each(base, base)
			each(base, base+"a")
			each(base, "a"+base)
			for p := 0; p < n; p++ {
				if p%step != 0 && p < n-3 {
					continue
				}
				each(base, base[:p]+"b"+base[p+1:])
			}
			if n > 600 {
				return
			}
			l := make(L, n)
			m := M{}
			for i := range l {
				l[i] = float64(i)
				m[nm(i)] = float64(i)
			}
			each(l, cpJ(l))
			each(m, cpJ(m))
			each(l, append(cpJ(l).(L), 1.0))
			for p := 0; p < n; p += step {
				c := cpJ(l).(L)
				c[p] = fmt.Sprint(p)
				each(l, c)
				d := cpJ(m).(M)
				d[nm(p)] = -1.0
				each(m, d)
				if p > 64 {
					p += 7
				}
			}
		})
	}
}

func (x *X) longUnique() {
	s := &Spec{Kind: "array", Unique: true}
	c := s.Validator(nil)
	t := s.with(func(s *Spec) { s.Items = sEmpty })
	d := t.Validator(nil)
	x.longElements(func(a, b J) {
		x.Traces++
		for _, v := range []J{L{a, b}, L{1.0, b, a}, L{L{a}, L{b}}, L{M{"k": a}, M{"k": b}}} {
			w := s.Eval(nil, v)
			x.States++
			x.expect(c, v, w, func() string { return s.String() })
			x.expect(d, v, w, func() string { return t.String() })
		}
		if sa, ok := a.(string); ok {
			sb := b.(string)
			x.expect(c, []string{sa, "x", sb}, sa != sb, func() string { return s.String() })
		}
	})
}

func (x *X) longMembers() {
	x.longElements(func(a, b J) {
		x.Traces++
		for _, s := range []*Spec{enum(a), enum(1.0, L{a}, a), enum(M{"k": a})} {
			c := s.Validator(nil)
			for _, v := range []J{b, a, L{b}, M{"k": b}} {
				x.States++
				x.expect(c, v, s.Eval(nil, v), func() string { return s.String() })
			}
		}
	})
}

// combinatorPaths: every path of combinators to a depth.
func (x *X) combinatorPaths(vals []J, leaf *Spec, depth int) {
	T, F := sEmpty, not(sEmpty)
	steps := []func(*Spec) *Spec{
		func(s *Spec) *Spec { return not(s) },
		func(s *Spec) *Spec { return any_(s) },
		func(s *Spec) *Spec { return all(s) },
		func(s *Spec) *Spec { return oneof(s) },
		func(s *Spec) *Spec { return any_(F, s) },
		func(s *Spec) *Spec { return all(T, s) },
		func(s *Spec) *Spec { return oneof(F, s) },
		func(s *Spec) *Spec { return oneof(s, T) },
		func(s *Spec) *Spec { return all(s, leafOdd) },
		func(s *Spec) *Spec { return any_(s, leafOdd) },
	}
	var rec func(s *Spec, d int)
	rec = func(s *Spec, d int) {
		x.combo(s, vals, nil)
		if d == 0 {
			return
		}
		for _, st := range steps {
			rec(st(s), d-1)
		}
	}
	rec(leaf, depth)
}

var leafOdd = enum(1.0, 3.0, 5.0, 7.0)

// embeddingChains: a property at every depth of embedding, by value, by
// pointer and alternating.
func (x *X) embeddingChains() {
	for n := 1; n <= 16; n++ {
		for how := 0; how < 3; how++ {
			x.Case(func() string { return fmt.Sprintf("embedding %d deep (%d)", n, how) }, func() {
				str := reflect.TypeOf("")
				t := reflect.StructOf([]reflect.StructField{{Name: "P0", Type: str, Tag: `json:"p0"`}, {Name: "M0", Type: reflect.TypeOf(jsval.MaybeInt{}), Tag: `json:"m0"`}})
				types := []reflect.Type{t}
				for i := 1; i <= n; i++ {
					e := t
					if how == 1 || how == 2 && i%2 == 0 {
						e = reflect.PtrTo(t)
					}
					t = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("E", i), Type: e, Anonymous: true}, {Name: fmt.Sprint("P", i), Type: str, Tag: reflect.StructTag(fmt.Sprintf(`json:"p%d"`, i))}})
					types = append(types, t)
				}
				// values: all set, the pointers below level l nil
				make_ := func(cut int, fill string) J {
					v := reflect.New(t).Elem()
					cur := v
					for i := n; i >= 0; i-- {
						if i == 0 {
							cur.Field(0).SetString(fill)
							if fill != "" {
								cur.Field(1).Set(reflect.ValueOf(mInt(5)))
							}
							break
						}
						cur.Field(1).SetString(fill)
						e := cur.Field(0)
						if e.Kind() == reflect.Ptr {
							if i <= cut {
								break
							}
							e.Set(reflect.New(e.Type().Elem()))
							e = e.Elem()
						}
						cur = e
					}
					return v.Interface()
				}
				vals := []J{make_(0, ""), make_(0, "s")}
				if how > 0 {
					for c := 1; c <= n; c++ {
						vals = append(vals, make_(c, "s"))
					}
				}
				open := &Spec{Kind: "object", AddProps: sEmpty}
				var specs []*Spec
				every := &Spec{Kind: "object"}
				for i := 0; i <= n; i++ {
					p := fmt.Sprint("p", i)
					every.Props = append(every.Props, Prop{p, sStr})
					specs = append(specs, open.with(func(s *Spec) { s.Required = []string{p} }), open.with(func(s *Spec) { s.Props = []Prop{{p, strMin(1)}} }), open.with(func(s *Spec) { s.Pats = []Prop{{p + "$", sNum}} }), open.with(func(s *Spec) { s.MinProps = ip(i + 1) }), open.with(func(s *Spec) { s.PropDeps = []Dep{{fmt.Sprint("p", n), []string{p}}} }))
				}
				every.Props = append(every.Props, Prop{"m0", sInt})
				specs = append(specs, every, open.with(func(s *Spec) { s.Required = []string{"m0"} }), open.with(func(s *Spec) { s.Props = []Prop{{"m0", sInt.with(func(s *Spec) { s.Max = fp(4) })}} }))
				x.structCheck(specs, vals)
			})
		}
	}
}

// verdictMatrix: constraints against Go values of many types, in three
// orders, with long-lived and with fresh validators.
func (x *X) verdictMatrix() {
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	specs := []*Spec{sEmpty, sNull, sStr, strMin(2), strMax(1), strRx("^s"), sNum, numMin(2), sInt, intMax(1), sBool, enum("s"), enum("s", 1.0, L{}, M{}), not(sStr), not(sNum), not(sNull), arr(sStr), arr(sNum), arr(sInt), {Kind: "array", Unique: true}, {Kind: "array", MinItems: ip(2)}, {Kind: "array", MaxItems: ip(2)}, arr(obj(Prop{"a", sEmpty})),
		obj(), open(func(s *Spec) {}), {Kind: "object", AddProps: sStr}, {Kind: "object", AddProps: sNum}, {Kind: "object", AddProps: strMin(2)}, {Kind: "object", AddProps: sInt},
		obj(Prop{"a", sStr}), obj(Prop{"a", sNum}), obj(Prop{"a", sStr}, Prop{"b", sStr}, Prop{"c", sStr}), open(func(s *Spec) { s.Required = []string{"a"} }), open(func(s *Spec) { s.Required = []string{"d"} }), open(func(s *Spec) { s.MinProps = ip(2) }), open(func(s *Spec) { s.MaxProps = ip(2) }), open(func(s *Spec) { s.MaxProps = ip(0) }), open(func(s *Spec) { s.MinProps = ip(4) }), open(func(s *Spec) { s.Pats = []Prop{{"^[ab]", strMin(2)}} }), open(func(s *Spec) { s.Pats = []Prop{{"c$", sNum}} }), open(func(s *Spec) { s.PropDeps = []Dep{{"a", []string{"d"}}} }), open(func(s *Spec) { s.SchemaDeps = []Prop{{"a", open(func(s *Spec) { s.Required = []string{"e"} })}} }),
		any_(sStr, arr(sStr)), any_(obj(Prop{"a", sStr}), arr(sNum)), all(open(func(s *Spec) { s.MinProps = ip(1) }), open(func(s *Spec) { s.MaxProps = ip(3) })), oneof(open(func(s *Spec) { s.Required = []string{"a"} }), open(func(s *Spec) { s.Required = []string{"b"} })), not(open(func(s *Spec) { s.Required = []string{"c"} })), ref("r"), arr(ref("r"))}
	env := Env{"r": obj(Prop{"a", sStr}, Prop{"b", sEmpty})}
	type namedMap map[string]string
	type namedMapN map[string]float64
	type T1 struct {
		A string `json:"a"`
	}
	type T2 struct {
		A string `json:"a"`
		B string `json:"b"`
		C string `json:"c"`
	}
	type T3 struct {
		A float64        `json:"a"`
		D jsval.MaybeInt `json:"d"`
	}
	vals := []J{nil, true, "", "s", "st", "tt", 0.0, 1.0, 1.5, 3.0, 1, int64(3), uint8(2), namedString("s"), namedString("st"), namedInt(1), namedFloat(1.5), L{}, L{"s"}, L{"s", "s"}, L{1.0, 2.0}, L{1.0, 1.0, 1.0}, []string{}, []string{"s"}, []string{"s", "t", "s"}, []float64{1, 2}, []float64{1, 2, 2}, []int{1}, []interface{}{nil}, []M{{"a": "s"}}, []M{{"a": "s"}, {"c": 1.0}}, []map[string]string{{"a": "x"}}}
	for n := 0; n <= 6; n++ {
		ss, fs, is, mm := map[string]string{}, map[string]float64{}, map[string]int{}, M{}
		s2, nmap, nn := map[string]string{}, namedMap{}, namedMapN{}
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			ss[k], fs[k], is[k], mm[k], s2[k], nmap[k], nn[k] = "s", 1, 1, "s", "st", "s", 1
		}
		vals = append(vals, ss, fs, is, mm, s2, nmap, nn)
		if n > 0 {
			mx := cpJ(mm).(M)
			mx["a"] = 1.0
			vals = append(vals, mx)
		}
	}
	vals = append(vals, T1{}, T1{"s"}, T1{"st"}, T2{}, T2{"s", "s", "s"}, T2{"st", "st", "st"}, T3{}, T3{1, mInt(1)}, T3{3, jsval.MaybeInt{}}, &T1{"s"}, &T2{"s", "st", "s"})
	var objs []J
	for _, v := range vals {
		switch reflect.Indirect(reflect.ValueOf(v)).Kind() {
		case reflect.Map, reflect.Struct:
			objs = append(objs, v)
		}
	}
	want := func(s *Spec, v J) bool { return s.Eval(env, v) }
	x.Case(func() string { return "verdict matrix" }, func() {
		x.Traces += 4
		long := make([]validator, len(specs))
		for i, s := range specs {
			long[i] = s.Validator(env)
		}
		try := func(i int, v J, how string) {
			x.States++
			x.expect(long[i], v, want(specs[i], v), func() string { return specs[i].String() + ", " + how })
			x.expect(specs[i].Validator(env), v, want(specs[i], v), func() string { return specs[i].String() + ", fresh, " + how })
		}
		for i := range specs {
			for _, v := range vals {
				try(i, v, "constraint by constraint")
			}
		}
		for _, v := range vals {
			for i := range specs {
				try(i, v, "value by value")
			}
		}
		for j := len(vals) - 1; j >= 0; j-- {
			for i := len(specs) - 1; i >= 0; i-- {
				try(i, vals[j], "backwards")
			}
		}
		for i := len(specs) - 1; i >= 0; i-- {
			for j := range vals {
				try(i, vals[(j*7)%len(vals)], "mixed")
			}
		}
		// a value that changes between two validations is a new value
		for i := range specs {
			m := M{}
			s := map[string]string{}
			l := make(L, 2)
			for _, k := range []string{"a", "b", "c", "d"} {
				m[k], s[k] = "s", "s"
				l[0], l[1] = k, "a"
				try(i, m, "growing")
				try(i, s, "growing")
				try(i, l, "changing")
			}
			for _, k := range []string{"a", "c", "b", "d"} {
				m[k], s[k] = 1.0, "st"
				try(i, m, "changing")
				try(i, s, "changing")
				delete(m, k)
				delete(s, k)
				try(i, m, "shrinking")
				try(i, s, "shrinking")
			}
		}
	})
}

// prefixRefs: two references to pointers into one another, in every order.
func (x *X) prefixRefs() {
	base := []J{nil, true, 0.0, 1.0, 5.0, "a", "abc", js(`[]`), js(`[1]`), js(`["s"]`), js(`[5,"s"]`), js(`[[1]]`), js(`{}`), js(`{"a":1}`), js(`{"a":"s"}`), js(`{"b":[1]}`), js(`{"items":1}`)}
	defs := `{
		"l":{"type":"array","items":{"type":"number"}},
		"p":{"type":"array","items":[{"type":"number"},{"type":"string"}]},
		"o":{"type":"object","properties":{"a":{"type":"number"},"items":{"type":"string"}},"additionalProperties":{"type":"array"}},
		"any":{"anyOf":[{"type":"string","minLength":2},{"type":"object","required":["b"]}]},
		"not":{"not":{"type":"number"}},
		"deep":{"type":"array","items":{"type":"array","items":{"type":"string"}}},
		"pat":{"type":"object","patternProperties":{"b":{"type":"array","items":{"minimum":3}}}},
		"definitions":{"definitions":{"definitions":{"type":"null"}},"type":"boolean"},
		"l2":{"$ref":"#/definitions/l"},
		"items":{"type":"boolean"}}`
	refs := []string{"#/definitions/l", "#/definitions/l/items", "#/definitions/p", "#/definitions/p/items/0", "#/definitions/p/items/1", "#/definitions/o", "#/definitions/o/properties/a", "#/definitions/o/properties/items", "#/definitions/o/additionalProperties", "#/definitions/any", "#/definitions/any/anyOf/0", "#/definitions/any/anyOf/1", "#/definitions/not", "#/definitions/not/not", "#/definitions/deep", "#/definitions/deep/items", "#/definitions/deep/items/items", "#/definitions/pat", "#/definitions/pat/patternProperties/b", "#/definitions/pat/patternProperties/b/items", "#/definitions/definitions", "#/definitions/definitions/definitions/definitions", "#/definitions/l2", "#/definitions/items", "#"}
	forms := []func(a, b M) M{
		func(a, b M) M {
			return M{"type": L{"object", "number", "string", "null", "array"}, "properties": M{"r": a, "s": b}}
		},
		func(a, b M) M {
			return M{"type": L{"array", "number", "string"}, "items": L{a, b}}
		},
		func(a, b M) M {
			return M{"type": "object", "properties": M{"q": M{"type": "object", "properties": M{"r": a}}}, "additionalProperties": b}
		},
	}
	for _, ra := range refs {
		x.Case(func() string { return "references to " + ra + " and another" }, func() {
			for _, rb := range refs {
				for fi, f := range forms {
					raw := f(M{"$ref": ra}, M{"$ref": rb})
					raw["definitions"] = js(defs)
					raw = js(text(raw)).(M)
					var ds []J
					for i, d := range base {
						e := base[(i*5+3)%len(base)]
						switch fi {
						case 0:
							ds = append(ds, M{"r": d}, M{"s": d}, M{"r": d, "s": e}, d)
						case 1:
							ds = append(ds, L{d}, L{1.0, d}, L{d, e}, L{L{d}, e})
						case 2:
							ds = append(ds, M{"q": M{"r": d}}, M{"s": d}, M{"s": d, "q": M{"r": e}})
						}
					}
					for o := 0; o < 2; o++ {
						setOrder(o)
						x.schemaBody(raw, cpJ(raw), ds, func() string { return "schema " + text(raw) })
					}
				}
			}
			setOrder(0)
		})
	}
}

// annotate every object that is a schema by position.
func annotate(raw M, extra M) M {
	var schema func(m M) M
	list := func(l L) L {
		out := L{}
		for _, e := range l {
			if m, ok := e.(M); ok {
				out = append(out, schema(m))
			} else {
				out = append(out, e)
			}
		}
		return out
	}
	schema = func(m M) M {
		out := M{}
		for k, e := range m {
			switch k {
			case "properties", "patternProperties", "definitions", "dependencies":
				o := M{}
				if em, ok := e.(M); ok {
					for n, s := range em {
						if sm, ok := s.(M); ok {
							o[n] = schema(sm)
						} else {
							o[n] = s
						}
					}
				}
				out[k] = o
			case "items", "additionalItems", "additionalProperties", "not", "anyOf", "allOf", "oneOf":
				switch s := e.(type) {
				case M:
					out[k] = schema(s)
				case L:
					out[k] = list(s)
				default:
					out[k] = e
				}
			default:
				out[k] = e
			}
		}
		for k, e := range extra {
			if _, ok := out[k]; !ok {
				out[k] = cpJ(e)
			}
		}
		return out
	}
	return schema(raw)
}

// annotatedContexts: builds leave schema and context with all their
// annotations as they were, and annotations do not matter.
func (x *X) annotatedContexts() {
	extras := []M{
		{"title": "A title"}, {"description": "What it is"}, {"title": "t", "description": "d", "x-unknown": M{"a": L{1.0, M{"b": nil}}}},
		{"default": nil}, {"$schema": "http://json-schema.org/draft-04/schema#"}, {"extension": L{"a"}, "comment": "c", "$comment": "c", "examples": L{1.0}, "media": M{"type": "x"}, "links": L{M{"rel": "self", "href": "/x"}}, "readOnly": true, "pathStart": "/"},
	}
	ds := docs()
	for _, txt := range richSchemas() {
		for ei, e := range extras {
			x.Case(func() string { return fmt.Sprintf("%s with annotations %s", txt, text(e)) }, func() {
				raw := annotate(jo(txt), e)
				if ei == 3 {
					// a null default says nothing; drop it from the schema
					raw = annotate(jo(txt), M{"title": ""})
				}
				full := text(raw)
				s, env, _ := modelSchema(jo(txt), nil)
				for o := 0; o < 3; o++ {
					setOrder(o)
					ctx := js(full)
					sc := readSchema(js(full).(M))
					before := dumpSchema(sc)
					b := builder.New()
					for n := 0; n < 2; n++ {
						x.Transitions++
						x.Traces++
						v, err := b.BuildWithCtx(sc, ctx)
						if err != nil {
							Failf("not built: %s", safeError(err))
						}
						setOrder(0)
						x.verdicts(v, s, env, ds, func() string { return full })
						setOrder(o)
						if !reflect.DeepEqual(ctx, js(full)) {
							Failf("the context was modified: %s to %s", full, text(ctx))
						}
						if after := dumpSchema(sc); after != before {
							Failf("the schema was modified:\n before %s\n after  %s", trim(before, 1500), trim(after, 1500))
						}
					}
				}
				setOrder(0)
			})
		}
	}
}

// longNames: the name is in the message, whatever its length.
func (x *X) longNames() {
	x.Case(func() string { return "names of every length" }, func() {
		var names []string
		for n := 1; n <= 300; n++ {
			names = append(names, repeat("n", n-1)+"E", repeat("日", n))
		}
		names = append(names, repeat("x", 5000)+"E", "a b", "%s", "100%d", "%!", "a\nb", "\"q\"", "'", "\\", "{}", "é", "validator: ", " lead", "trail ", "\t")
		for _, name := range names {
			for order := 0; order < 2; order++ {
				v := jsval.New()
				if order == 0 {
					v.SetName(name).SetRoot(jsval.String())
				} else {
					v.SetRoot(jsval.String()).SetName(name)
				}
				x.Traces++
				x.States++
				x.Transitions += 2
				if v.Name != name {
					Failf("SetName(%q) sets %q", name, v.Name)
				}
				err := v.Validate(1.0)
				if err == nil {
					Failf("validator named %q accepts 1 as a string", name)
				}
				if !strings.Contains(err.Error(), name) {
					Failf("the message %q does not have the name %q", err, name)
				}
				if err := v.Validate("s"); err != nil {
					Failf("validator named %q rejects: %v", name, err)
				}
			}
		}
	})
}
