package main

import (
	"fmt"
	"reflect"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

func init() {
	register(&check{id: "C17", run: c17, traces: "every build is executed on the real builder; the verdicts of every validator obtained are compared with the model of the schema text, and schema and context with fresh copies",
		bounds: "every sequence of map iteration orders inside one build (complete up to 20000 per schema in the quick tier, 300000 in the thorough one) for 60 schemas with several references, properties, patterns, dependencies and cycles; every history of up to 3 (4) builds over 9 schemas (good and unbuildable ones, sharing text or schema objects) on one builder; every schema with up to 2 of 48 keyword settings built three times; 31 schemas, each turned into each other one between two builds, as an object and as a context, in 3 ways; annotations and unknown keys at every level of the 60 schemas; 60 kinds of dead, malformed or cyclic reference in each of 14 positions, and 40 unbuildable reference targets; up to 300 (quick) or 1000 definitions in chains, rings, trees and fans; schemas nested 400 deep; list indices in every spelling; lists (required, enum, types, items, dependencies) in every order and with repetitions; all sequences of 3 of 15 pairs of schema and context with one builder; schemas that differ in one place, in turn; four unknown types in each of 15 places in each of 15 places",
		notes:  []string{"schemas that jsschema itself refuses to read are outside the property; reference cycles that consume no input are built, not validated"}})
}

// verdicts must be those of the model.
func (x *X) verdicts(v *jsval.JSVal, s *Spec, env Env, ds []J, how func() string) {
	for _, d := range ds {
		x.States++
		want := s.Eval(env, d)
		x.expect(v, d, want, how)
	}
}

func richSchemas() []string {
	var out []string
	out = append(out,
		`{"type":"object","properties":{"a":{"type":"number"},"b":{"type":"string"},"c":{}},"required":["a"]}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"},"b":{"$ref":"#/definitions/y"},"c":{"$ref":"#"}},"definitions":{"x":{"type":"number"},"y":{"type":"string"}}}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"},"b":{"$ref":"#/definitions/y"}},"definitions":{"x":{"anyOf":[{"$ref":"#/definitions/y"},{"type":"number"}]},"y":{"type":"string"}}}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"},"b":{"$ref":"#/definitions/y"}},"definitions":{"x":{"$ref":"#/definitions/y"},"y":{"type":["string","number"],"enum":[1,"s"]}}}`,
		`{"type":"object","patternProperties":{"^a":{"type":"number"},"b$":{"$ref":"#/definitions/y"}},"additionalProperties":{"$ref":"#/definitions/x"},"definitions":{"x":{"type":"string"},"y":{"type":["number","string"]}}}`,
		`{"type":"object","dependencies":{"a":["b"],"b":{"required":["c"]},"ab":["a"]},"properties":{"a":{"type":"number"}}}`,
		`{"type":"object","dependencies":{"a":{"$ref":"#/definitions/x"},"b":{"$ref":"#/definitions/y"}},"definitions":{"x":{"type":"object","required":["c"]},"y":{"type":"object","maxProperties":2}}}`,
		`{"type":["object","array","number"],"properties":{"a":{"$ref":"#/definitions/p"}},"items":{"$ref":"#/definitions/q"},"definitions":{"p":{"type":["object","number"],"properties":{"a":{"$ref":"#/definitions/q"}}},"q":{"type":["array","string","number"],"items":{"$ref":"#/definitions/p"}}}}`,
		`{"anyOf":[{"$ref":"#/definitions/x"},{"$ref":"#/definitions/y"},{"$ref":"#/definitions/z"}],"definitions":{"x":{"minimum":2},"y":{"minLength":2},"z":{"required":["a"]}}}`,
		`{"oneOf":[{"$ref":"#/definitions/x"},{"$ref":"#/definitions/y"}],"not":{"$ref":"#/definitions/z"},"definitions":{"x":{"minimum":2},"y":{"maximum":4},"z":{"enum":[2]}}}`,
		`{"type":["string","null","array","number","object"],"minLength":2,"minimum":1,"minItems":1,"minProperties":1}`,
		`{"type":["integer","boolean","number"],"enum":[1,true,2.5],"maximum":2}`,
		`{"items":[{"$ref":"#/definitions/x"},{"$ref":"#/definitions/y"}],"additionalItems":{"$ref":"#/definitions/z"},"definitions":{"x":{"type":"string"},"y":{"type":"number"},"z":{"type":"boolean"}}}`,
		`{"type":"object","properties":{"a":{"type":"object","properties":{"a":{"type":"number"},"b":{"type":"string"}}},"b":{"type":"object","properties":{"a":{"type":"string"}},"patternProperties":{"^b":{"type":"null"}}}}}`,
		`{"enum":[1,"a",null,[1],{"a":1,"b":"s"}],"type":["number","object","null"]}`,
	)
	// the same reference from several places
	for _, p := range positions() {
		m := p.put(M{"$ref": "#/definitions/x"})
		out = append(out, text(M{"definitions": M{"x": M{"type": "object", "properties": M{"a": M{"type": "number"}, "b": M{"$ref": "#/definitions/y"}}}, "y": M{"type": "string"}}, "allOf": L{m, M{"not": M{"$ref": "#/definitions/y"}}}}))
		out = append(out, text(M{"definitions": M{"x": M{"type": L{"number", "string"}}}, "anyOf": L{m, M{"type": "object", "properties": M{"a": M{"$ref": "#/definitions/x"}, "c": M{"$ref": "#/definitions/x"}}, "required": L{"a"}}}}))
	}
	return out
}

func c17(x *X) {
	x.badTypes()
	ds := docs()
	limit := 20000
	if x.thorough {
		limit = 300000
	}
	for _, txt := range richSchemas() {
		for _, withCtx := range []bool{true, false} {
			if !withCtx && contains(txt, `"#/`) {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("all map orders while building %s (context %v)", txt, withCtx) }, func() {
				raw := jo(txt)
				s, env, _ := modelSchema(raw, nil)
				want := make([]bool, len(ds))
				for i, d := range ds {
					want[i] = s.Eval(env, d)
					x.States++
				}
				n, complete := allOrders(limit, func(n int) {
					x.Tick()
					var sc *schema.Schema
					var ctx J
					hold(func() { sc = readSchema(raw); ctx = js(txt) })
					if !withCtx {
						ctx = nil
					}
					v, err := builder.New().BuildWithCtx(sc, ctx)
					hold(func() {
						x.Transitions++
						if err != nil {
							Failf("not built: %s", safeError(err))
						}
						for i, d := range ds {
							if (i+n)%3 == 0 || n < 50 {
								x.expect(v, d, want[i], func() string { return txt })
							}
						}
						if !reflect.DeepEqual(ctx, js(txt)) && withCtx {
							Failf("the context was modified: %s", text(ctx))
						}
						x.sameSchema(sc, raw)
					})
				})
				x.Traces += int64(n)
				x.count("order sequences", int64(n))
				if !complete {
					x.count("schemas explored up to the limit", 1)
				}
			})
		}
	}
	x.annotatedContexts()
	c17histories(x)
	c15manyRefs(x)
	c17rebuild(x)
	c17changed(x)
	c17bad(x)
	c17lists(x)
	c17contexts(x)
	x.near(false)
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// sameSchema: the schema object still is what its text says.
func (x *X) sameSchema(sc *schema.Schema, raw M) {
	if a, b := dumpSchema(sc), dumpSchema(readSchema(raw)); a != b {
		Failf("the schema was modified:\n before %s\n after  %s", trim(b, 1500), trim(a, 1500))
	}
}

// dumpSchema prints everything reachable from a schema, without addresses.
func dumpSchema(v J) string {
	var b []byte
	seen := map[uintptr]bool{}
	var rec func(rv reflect.Value)
	rec = func(rv reflect.Value) {
		switch rv.Kind() {
		case reflect.Invalid:
			b = append(b, "nil"...)
		case reflect.Ptr:
			if rv.IsNil() {
				b = append(b, "nil"...)
				return
			}
			if rv.Type().String() == "*regexp.Regexp" {
				if rv.CanInterface() {
					b = append(b, fmt.Sprintf("/%v/", rv.Interface())...)
				}
				return
			}
			if seen[rv.Pointer()] {
				b = append(b, "seen"...)
				return
			}
			seen[rv.Pointer()] = true
			b = append(b, '&')
			rec(rv.Elem())
			delete(seen, rv.Pointer())
		case reflect.Interface:
			rec(rv.Elem())
		case reflect.Struct:
			b = append(b, rv.Type().Name()+"{"...)
			for i := 0; i < rv.NumField(); i++ {
				f := rv.Type().Field(i)
				if f.PkgPath != "" {
					continue
				}
				if rv.Field(i).IsZero() {
					continue
				}
				b = append(b, f.Name+":"...)
				rec(rv.Field(i))
				b = append(b, ' ')
			}
			b = append(b, '}')
		case reflect.Slice:
			b = append(b, '[')
			for i := 0; i < rv.Len(); i++ {
				rec(rv.Index(i))
				b = append(b, ' ')
			}
			b = append(b, ']')
		case reflect.Map:
			ks := map[string]reflect.Value{}
			var names []string
			for _, k := range rv.MapKeys() {
				n := fmt.Sprint(k.Interface())
				ks[n] = rv.MapIndex(k)
				names = append(names, n)
			}
			sortStrings(names)
			b = append(b, '{')
			for _, n := range names {
				b = append(b, n+"="...)
				rec(ks[n])
				b = append(b, ' ')
			}
			b = append(b, '}')
		default:
			b = append(b, fmt.Sprintf("%#v", rv.Interface())...)
		}
	}
	rec(reflect.ValueOf(v))
	return string(b)
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// c17histories: sequences of builds on one builder.
func c17histories(x *X) {
	texts := []string{
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"number"}}}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"string"}}}`,
		`{"type":["object","number"],"properties":{"a":{"$ref":"#"}}}`,
		`{"type":["array","string"],"items":{"$ref":"#"}}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/missing"}},"definitions":{"x":{"type":"number"}}}`,
		`{"type":"object","properties":{"a":{"$ref":"#/definitions/x"},"b":{"$ref":"#/definitions/z"}},"definitions":{"x":{"type":"boolean"},"z":3}}`,
		`{"minLength":2,"minimum":1}`,
		`{"enum":["a",1,null]}`,
		`{"type":"object","patternProperties":{"^a":{"$ref":"#/definitions/x"}},"additionalProperties":false,"definitions":{"x":{"enum":[1,"s"]}}}`,
	}
	n := 3
	if x.thorough {
		n = 4
	}
	ds := docs()
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) > 0 {
			h := append([]int(nil), h...)
			x.Case(func() string { return fmt.Sprintf("builds of the schemas %v in turn with one builder", h) }, func() {
				b := builder.New()
				// "definitions" with something that is no schema can only be in the context
				var scs [9]*schema.Schema
				var ctxs [9]J
				var vs []*jsval.JSVal
				var which []int
				for step, i := range h {
					raw := jo(texts[i])
					if scs[i] == nil {
						r := cpJ(raw).(M)
						delete(r, "definitions")
						scs[i], ctxs[i] = readSchema(r), js(texts[i])
					}
					setOrder(step)
					v, err := b.BuildWithCtx(scs[i], ctxs[i])
					x.Transitions++
					_, _, bad := modelSchema(raw, raw)
					if (err != nil) != (bad != "") {
						Failf("build %d of %s: error %v, dead reference %q", step, texts[i], err, bad)
					}
					if err != nil {
						if v != nil {
							Failf("build %d of %s: both a validator and the error %s", step, texts[i], err)
						}
						continue
					}
					vs, which = append(vs, v), append(which, i)
				}
				x.Traces++
				for k := len(vs) - 1; k >= 0; k-- {
					raw := jo(texts[which[k]])
					s, env, _ := modelSchema(raw, raw)
					x.verdicts(vs[k], s, env, ds, func() string { return fmt.Sprintf("validator %d, of %s", k, texts[which[k]]) })
				}
				for i, sc := range scs {
					if sc == nil {
						continue
					}
					r := jo(texts[i])
					delete(r, "definitions")
					x.sameSchema(sc, r)
					if !reflect.DeepEqual(ctxs[i], js(texts[i])) {
						Failf("the context %s was modified", texts[i])
					}
				}
			})
		}
		if len(h) == n {
			return
		}
		for i := range texts {
			rec(append(h, i))
		}
	}
	rec(nil)
}

// c17rebuild: many schemas, built again from the same object.
func c17rebuild(x *X) {
	ds := docs()
	var raws []M
	for k := 0; k <= 2; k++ {
		for _, t := range []J{nil, "object", L{"string", "number", "array"}} {
			combos(kwAll(), k, func(c []kw) { raws = append(raws, schemaOf(t, c...)) })
		}
	}
	for _, e := range kwValues() {
		raws = append(raws, schemaOf(nil, e), schemaOf(L{"null", "object", "array", "string", "integer"}, e))
	}
	shared := builder.New()
	for i := 0; i < len(raws); i += 32 {
		part := raws[i:min(i+32, len(raws))]
		x.Case(func() string { return "repeated builds of schemas such as " + text(part[0]) }, func() {
			for _, raw := range part {
				s, env, _ := modelSchema(raw, nil)
				sc := readSchema(raw)
				ctx := js(text(raw))
				var vs []*jsval.JSVal
				for k := 0; k < 3; k++ {
					setOrder(k)
					b := shared
					if k == 1 {
						b = builder.New()
					}
					var v *jsval.JSVal
					var err error
					if k < 2 {
						v, err = b.Build(sc)
					} else {
						v, err = b.BuildWithCtx(sc, ctx)
					}
					x.Transitions++
					if err != nil {
						Failf("%s: build %d: %s", text(raw), k, safeError(err))
					}
					vs = append(vs, v)
				}
				x.Traces++
				for k := range vs {
					x.verdicts(vs[2-k], s, env, ds[k%2:], func() string { return fmt.Sprintf("build %d of %s", 2-k, text(raw)) })
				}
				x.sameSchema(sc, raw)
				if !reflect.DeepEqual(ctx, js(text(raw))) {
					Failf("the context %s was modified", text(raw))
				}
			}
		})
	}
}

// c17changed: the schema object, or the context, becomes another one between
// two builds.
func c17changed(x *X) {
	ds := docs()
	texts := []string{`{}`, `{"minLength":2}`, `{"minimum":1}`, `{"minimum":1.5}`, `{"multipleOf":2}`, `{"minItems":1}`, `{"minProperties":1}`, `{"enum":["a",1]}`, `{"enum":[1.5]}`, `{"type":"string"}`, `{"type":["number","null"]}`, `{"type":"integer","maximum":3}`,
		`{"properties":{"a":{"minLength":2}}}`, `{"properties":{"a":{"minimum":2},"b":{"type":"string"}},"required":["b"]}`, `{"items":{"minimum":1}}`, `{"items":[{"type":"string"}],"additionalItems":false}`, `{"patternProperties":{"^a":{"type":"string"}},"additionalProperties":false}`,
		`{"patternProperties":{"^a":{"type":"number"}}}`, `{"anyOf":[{"minLength":2},{"minimum":2}]}`, `{"allOf":[{"minItems":1}]}`, `{"oneOf":[{"type":"string"},{"minLength":1}]}`, `{"not":{"minLength":1}}`, `{"not":{"type":"number"},"type":["string","number","array"]}`,
		`{"dependencies":{"a":["b"]}}`, `{"dependencies":{"a":{"required":["c"]}}}`, `{"pattern":"^a","format":"ipv4"}`, `{"pattern":"b$"}`, `{"properties":{"a":{"type":"number","default":1}}}`, `{"properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"minLength":2}}}`, `{"properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"number"}}}`, `{"items":{"$ref":"#"},"maxItems":1}`}
	for i := range texts {
		x.Case(func() string { return "schema objects and contexts that first are " + texts[i] }, func() {
			for j := range texts {
				for how := 0; how < 3; how++ {
					a, b := jo(texts[i]), jo(texts[j])
					sc := readSchema(a)
					ctx := js(texts[i]).(M)
					bl := builder.New()
					build := func(raw M, what string) {
						v, err := bl.BuildWithCtx(sc, ctx)
						x.Transitions++
						x.Traces++
						if err != nil {
							Failf("%s: %s", what, safeError(err))
						}
						s, env, _ := modelSchema(raw, raw)
						x.verdicts(v, s, env, ds, func() string { return what })
					}
					build(a, texts[i])
					// a becomes b
					if how == 1 {
						bl = builder.New()
					}
					if how == 2 {
						sc = readSchema(b)
					} else {
						*sc = *readSchema(b)
					}
					clear(ctx)
					for k, v := range b {
						ctx[k] = v
					}
					build(b, fmt.Sprintf("%s, which has been %s (way %d)", texts[j], texts[i], how))
					x.sameSchema(sc, b)
				}
			}
		})
	}
}

func c17bad(x *X) {
	pos := append(positions(), position{"root", func(s M) M { return s }, nil})
	ctxText := `{"misc":{"str":"x","num":1,"nil":null,"yes":true,"list":[{"type":"number"}]},"definitions":{"n":{"type":"number"},"empty":{},"self":{"$ref":"#/definitions/self"},"p":{"$ref":"#/definitions/q"},"q":{"$ref":"#/definitions/p"}},"type":"object"}`
	// references: dead ("-"), leading to a schema ("+"), or cyclic ("?")
	refs := map[string]string{
		"#/definitions/n": "+", "#": "+", "#/definitions/empty": "+", "#/misc/list/0": "+",
		"#/definitions/x": "-", "#/misc/str": "-", "#/misc/num": "-", "#/misc/nil": "-", "#/misc/yes": "-", "#/misc/list": "-", "#/misc/list/1": "-", "#/misc/list/x": "-", "#/misc/list/00": "-", "#/misc/list/+0": "-", "#/misc/list/-0": "-", "#/misc/list/0x0": "-", "#/misc/list/": "-", "#/misc/list/0.0": "-", "#/misc/list/0 ": "-", "#/misc/list/%30": "+", "#/misc/list/18446744073709551616": "-", "#/misc/list/4294967296": "-", "#/misc/list/-": "-", "#/misc/list/-1": "-", "#/nope": "-", "#/definitions/n/type": "-", "#/definitions/n/type/x": "-", "#/misc/str/0": "-", "#/definitions/N": "-", "#/definitions/n/": "-", "#/definitions/n/x": "-", "#/misc/nil/x": "-", "#/type": "-", "#/misc/list/99999999999999999999": "-",
		"#/definitions/self": "-", "#/definitions/p": "-", "#/misc/list/0/type/0": "-", "#/": "-", "#foo": "-", "##": "-", "#/definitions/%6e": "+", "#/definitions/a~": "-", "#/definitions/~2": "-", " ": "-", "#/definitions//n": "-", "definitions/n": "-", "/definitions/n": "-", "nosuchfile.json": "-", "nosuchfile.json#/x": "-", "file:///nonexistent/x.json#": "-", "urn:x:y": "-", ":": "-", "%zz": "-", "#%zz": "-", "?": "-", "\\u0000": "?", "#/definitions": "?",
	}
	var names []string
	for n := range refs {
		names = append(names, n)
	}
	sortStrings(names)
	for _, p := range pos {
		for _, name := range names {
			kind := refs[name]
			x.Case(func() string { return fmt.Sprintf("the reference %q in %s", name, p.name) }, func() {
				raw := p.put(M{"$ref": name})
				x.Traces++
				for o := 0; o < 3; o++ {
					for _, withCtx := range []bool{true, false} {
						setOrder(o)
						sc := readSchema(raw)
						ctx := js(ctxText)
						c := ctx
						if !withCtx {
							if name == "#" && p.name == "root" {
								continue
							}
							c = nil
						}
						v, err := builder.New().BuildWithCtx(sc, c)
						x.Transitions++
						x.States++
						if (v == nil) == (err == nil) {
							Failf("neither or both of a validator and an error (%v)", err)
						}
						if err != nil {
							msg(err)
						}
						switch {
						case withCtx && kind == "-" && err == nil:
							Failf("built although the reference is dead (context %s)", ctxText)
						case withCtx && kind == "+" && err != nil:
							Failf("not built: %s", safeError(err))
						case !withCtx && kind == "-" && err == nil && name != "#/type":
							Failf("built although the schema has nothing there")
						}
						x.sameSchema(sc, raw)
						if !reflect.DeepEqual(ctx, js(ctxText)) {
							Failf("the context was modified")
						}
						if err == nil && withCtx && kind == "+" && !(name == "#" && p.name == "root") {
							s, env, _ := modelSchema(raw, js(ctxText))
							x.verdicts(v, s, env, docs(), func() string { return text(raw) })
						}
					}
				}
			})
		}
	}
	// references to themselves and into lists, with the schema being its own
	// context, and without any context
	for _, t := range []string{
		`-{"$ref":"#"}`, `-{"$ref":"#","definitions":{"a":{}}}`, `-{"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#"}}}`,
		`-{"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/a"}}}`,
		`-{"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/b"},"b":{"$ref":"#/definitions/c"},"c":{"$ref":"#/definitions/a"}}}`,
		`-{"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/b"},"b":{"$ref":"#/definitions/b"}}}`,
		`-{"properties":{"a":{"$ref":"#/properties/a"}}}`, `-{"properties":{"a":{"$ref":"#/properties/b"},"b":{"$ref":"#/properties/a"}}}`,
		`-{"items":{"$ref":"#/items"}}`, `-{"items":[{"$ref":"#/items/0"}]}`, `-{"allOf":[{"$ref":"#/allOf/1"},{"$ref":"#/allOf/0"}]}`,
		`-{"not":{"$ref":"#/not"}}`, `-{"additionalProperties":{"$ref":"#/additionalProperties"},"type":"object"}`,
		`-{"properties":{"a":{"$ref":"#/required/0"}},"required":["a"]}`, `-{"properties":{"a":{"$ref":"#/type/0"}},"type":["object"]}`, `-{"properties":{"a":{"$ref":"#/enum/0"}},"type":"object","enum":["a"]}`, `-{"properties":{"a":{"$ref":"#/required"}},"required":["a"]}`,
		`-{"properties":{"a":{"$ref":"#/allOf/1"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf/x"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf/-1"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf/00"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf/+0"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf/-0"}},"allOf":[{"type":"object"}]}`, `-{"properties":{"a":{"$ref":"#/allOf"}},"allOf":[{"type":"object"}]}`,
		`-{"properties":{"a":{"$ref":"#/minimum"}},"minimum":1}`, `-{"properties":{"a":{"$ref":"#/pattern"}},"pattern":"a"}`, `-{"properties":{"a":{"$ref":"#/patternProperties/x"}},"patternProperties":{"a":{}}}`,
		`-{"properties":{"a":{"$ref":"#/definitions/a~1"}},"definitions":{"a":{}}}`,
		`+{"properties":{"a":{"$ref":"#/allOf/0"}},"allOf":[{"type":"object"}]}`, `+{"properties":{"a":{"$ref":"#/anyOf/1"}},"anyOf":[{"type":"object"},{"type":"number"}]}`, `+{"properties":{"a":{"$ref":"#/oneOf/0"}},"oneOf":[{"type":"object"}]}`,
		`+{"properties":{"a":{"$ref":"#/definitions/b"}},"definitions":{"b":{"type":"number"}}}`, `+{"properties":{"a":{"$ref":"#/properties/b"},"b":{"type":"number"}}}`, `+{"properties":{"a":{"$ref":"#/not"}},"not":{"type":"number"}}`,
		`+{"properties":{"a":{"$ref":"#/definitions/b~1c~0d"}},"definitions":{"b/c~d":{"type":"number"}}}`, `+{"$ref":"#/definitions/b","definitions":{"b":{"type":"number"}}}`, `+{"$ref":"#/definitions/b","definitions":{"b":{"$ref":"#/definitions/c"},"c":{"type":["object","number"],"properties":{"a":{"$ref":"#"}}}}}`,
		`+{"properties":{"a":{"$ref":"#"}},"type":["object","number"]}`,
	} {
		x.Case(func() string { return "the schema " + t[1:] + " with and without context" }, func() {
			raw := jo(t[1:])
			for o := 0; o < 3; o++ {
				for _, withCtx := range []bool{true, false} {
					setOrder(o)
					sc := readSchema(raw)
					var ctx interface{}
					if withCtx {
						ctx = cpJ(raw)
					}
					x.Traces++
					x.Transitions++
					x.States++
					v, err := builder.New().BuildWithCtx(sc, ctx)
					if (v == nil) == (err == nil) {
						Failf("neither or both of a validator and an error (%v)", err)
					}
					if err != nil {
						msg(err)
					}
					if t[0] == '-' && err == nil {
						Failf("built (context %v) although a reference is dead", withCtx)
					}
					if t[0] == '+' && err != nil {
						Failf("not built (context %v): %s", withCtx, safeError(err))
					}
					x.sameSchema(sc, raw)
					if err == nil {
						s, env, _ := modelSchema(raw, raw)
						x.verdicts(v, s, env, docs(), func() string { return text(raw) })
					}
				}
			}
		})
	}
	// targets that are objects but not readable schemas
	for _, t := range []string{`{"type":"nope"}`, `{"type":3}`, `{"type":["string","nope"]}`, `{"pattern":"("}`, `{"pattern":3}`, `{"patternProperties":{"(":{}}}`, `{"patternProperties":3}`, `{"properties":3}`, `{"properties":{"a":3}}`, `{"items":3}`, `{"items":[3]}`, `{"required":3}`, `{"required":[3]}`, `{"enum":3}`, `{"allOf":3}`, `{"anyOf":[3]}`, `{"oneOf":"x"}`, `{"not":3}`, `{"dependencies":3}`, `{"dependencies":{"a":3}}`, `{"dependencies":{"a":[3]}}`, `{"dependencies":{"a":{"type":"nope"}}}`, `{"additionalProperties":3}`, `{"additionalItems":3}`, `{"minimum":"x"}`, `{"uniqueItems":3}`, `{"exclusiveMinimum":3}`, `{"multipleOf":"x"}`, `{"properties":{"a":{"type":"nope"}}}`, `{"minProperties":"x"}`, `{"format":3}`, `{"$ref":3}`, `{"items":{"$ref":"#/gone"}}`, `{"not":{"$ref":"#/gone"}}`, `{"properties":{"a":{"$ref":"#/definitions/t/type"}}}`, `{"definitions":{"a":3}}`, `{"title":3}`, `{"id":3}`} {
		x.Case(func() string { return "a reference to " + t }, func() {
			for _, p := range pos {
				for o := 0; o < 3; o++ {
					setOrder(o)
					raw := p.put(M{"$ref": "#/definitions/t"})
					ctx := M{"definitions": M{"t": js(t), "u": M{"type": "number"}}}
					x.Traces++
					x.States++
					x.Transitions++
					v, err := builder.New().BuildWithCtx(readSchema(raw), ctx)
					if err == nil || v != nil {
						Failf("%s in %s: no error", t, text(raw))
					}
					msg(err)
				}
			}
		})
	}
	x.Case(func() string { return "no schema" }, func() {
		x.Transitions += 2
		if v, err := builder.New().Build(nil); v != nil || err == nil {
			Failf("Build(nil): %v, %v", v, err)
		}
		if v, err := builder.New().BuildWithCtx(nil, M{}); v != nil || err == nil {
			Failf("BuildWithCtx(nil): %v, %v", v, err)
		}
	})
	// other kinds of context
	for i, ctx := range []J{1.0, "x", true, L{}, L{M{"type": "number"}}, M{}, map[string]string{"a": "b"}, struct{ A int }{1}, &struct{ A *int }{}, (*int)(nil), func() {}, (*schema.Schema)(nil), M(nil)} {
		for _, r := range []string{"#", "#/definitions/n", "#/a", "#/0", "#/A"} {
			x.Case(func() string { return fmt.Sprintf("context %d (%T) and reference %s", i, ctx, r) }, func() {
				x.Transitions++
				x.Traces++
				sc := readSchema(M{"type": "object", "properties": M{"a": M{"$ref": r}}})
				v, err := builder.New().BuildWithCtx(sc, ctx)
				if (v == nil) == (err == nil) {
					Failf("neither or both of a validator and an error (%v)", err)
				}
			})
		}
	}
}
