package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C15", run: c15, traces: "every schema is written as JSON text, read, built by the real builder and the validator executed on every document; the model takes its meaning from the JSON text alone",
		bounds: "13 type statements x every combination of up to 2 of 48 keyword settings (up to 3 within the keywords of the type and the type-independent ones; 4 in the thorough tier) x 75 documents, under two map orders; 150 further keyword values; every nesting of 13 sub-schema positions to depth 2 (3) x 14 leaf schemas x wrapped documents; references from and to every position, all pairs of 25 pointers into one another, chains, recursion, sub-schemas with a context document; the constraints of C18 written as schemas (products of all keywords of each type, all lists of names and children up to length 3, 13500 combinations of object keywords, trees); sizes up to 40; defaults of scalar properties; 30 quadruples of easily confused property names (empty, case variants, spaces, prefixes, pointers, keywords, control characters) x 648 object configurations x 33 maps (every fifth in quick); all strings of up to 2 of 20 awkward characters in patterns, names, enumerations and formats; up to 300 (quick) or 1000 definitions in chains, rings, trees and fans; schemas nested 400 deep; limits and divisors of 63 magnitudes up to 1.7e308, alone and in pairs; sizes of 64, 129, 300 and 1001; limits of up to 2 to the 53rd; 78 property names that mean something elsewhere x 65 schemas x 20 documents; references to the whole schema and to a definition in 14 places beside 14 other keywords in 3 schemas x 32 documents; definitions of 35 keywords, alone and in pairs, with definitions of their own, as what is referred to from 5 places",
		notes:  []string{"empty item lists, reference cycles that consume no input, references outside the document, and integers beyond 2^53 are outside the property"}})
	register(&check{id: "C16", run: c16, traces: "every schema is written as JSON text, read, built by the real builder and the validator executed on every document; the model takes its meaning from the JSON text alone",
		bounds: "every combination of up to 3 of 48 keyword settings (4 within one family in the thorough tier) without type x 75 documents, under two map orders; 150 further single keyword values; nesting in 13 positions; enumerations over all sets of up to 3 of 9 members; limits and divisors of 63 magnitudes up to 1.7e308, alone and in pairs; enumerations of up to 101 members with one of another type at every place; enumerations of every pair of 22 numbers of all magnitudes, and with values of other types",
		notes:  []string{"empty item lists and number enumerations given as Go integers are outside the property"}})
}

func typeChoices() []J {
	return []J{"string", "number", "integer", "boolean", "null", "array", "object", L{"string"}, L{"string", "null"}, L{"number", "object"}, L{"array", "boolean", "integer"}, L{"integer", "number"}, L{"null", "string", "boolean", "number", "array", "object"}}
}

// combos calls f with every combination of n settings of different keywords.
func combos(ks []kw, n int, f func([]kw)) {
	var rec func(i int, cur []kw)
	rec = func(i int, cur []kw) {
		if len(cur) == n {
			f(append([]kw(nil), cur...))
			return
		}
		for j := i; j < len(ks); j++ {
			dup := false
			for _, c := range cur {
				if c.k == ks[j].k {
					dup = true
				}
			}
			if !dup {
				rec(j+1, append(cur, ks[j]))
			}
		}
	}
	rec(0, nil)
}

func join(l ...[]kw) []kw {
	var out []kw
	for _, e := range l {
		out = append(out, e...)
	}
	return out
}

func family(t J) []kw {
	switch t {
	case "string":
		return join(kwString, kwAny)
	case "number", "integer":
		return join(kwNumber, kwAny)
	case "array":
		return join(kwArray, kwAny)
	case "object":
		return join(kwObject, kwAny)
	}
	return kwAny
}

func kwAll() []kw { return join(kwString, kwNumber, kwArray, kwObject, kwAny) }

func (x *X) schemaGroup(desc string, raws []M, docs []J) {
	// many small schemas make one case
	for i := 0; i < len(raws); i += 32 {
		part := raws[i:min(i+32, len(raws))]
		x.Case(func() string { return fmt.Sprintf("%s: schemas such as %s", desc, text(part[0])) }, func() {
			for _, raw := range part {
				x.schemaBody(raw, nil, docs, func() string { return "schema " + text(raw) })
			}
			setOrder(1)
			for _, raw := range part {
				x.schemaBody(raw, raw, docs, func() string { return "schema (as its own context) " + text(raw) })
			}
		})
	}
}

func c15(x *X) {
	x.keywordProps()
	x.selfReferences()
	x.definedAnything()
	x.extremeSchemas([]J{"number", "integer", L{"string", "number"}})
	ds := docs()
	for _, t := range typeChoices() {
		n := 3
		if x.thorough {
			n = 4
		}
		for k := 0; k <= 2; k++ {
			var raws []M
			combos(kwAll(), k, func(c []kw) { raws = append(raws, schemaOf(t, c...)) })
			x.schemaGroup(fmt.Sprintf("type %v with %d keywords", t, k), raws, ds)
		}
		for k := 3; k <= n; k++ {
			var raws []M
			combos(family(t), k, func(c []kw) { raws = append(raws, schemaOf(t, c...)) })
			x.schemaGroup(fmt.Sprintf("type %v with %d keywords of its own", t, k), raws, ds)
		}
	}
	if x.thorough {
		for _, t := range []J{"string", "integer", "array", "object", L{"number", "object"}} {
			var raws []M
			combos(kwAll(), 3, func(c []kw) { raws = append(raws, schemaOf(t, c...)) })
			x.schemaGroup(fmt.Sprintf("type %v with 3 keywords", t), raws, ds)
		}
	}
	for _, t := range append(typeChoices(), J(nil)) {
		if t == nil {
			continue
		}
		var raws []M
		for _, e := range kwValues() {
			raws = append(raws, schemaOf(t, e))
		}
		x.schemaGroup(fmt.Sprintf("type %v with one of many keyword values", t), raws, append(docs(), moreDocs()...))
	}
	var feats []*Spec
	objectFeatures(nil, true, func(s *Spec) { feats = append(feats, s) })
	fdocs := presence([]string{"a", "b", "c"}, []J{1.0, "s"})
	x.schemaMany("object features", feats, func(*Spec) []J { return fdocs })
	x.schemaMany("lists", genLists(), listDocs)
	own := func(s *Spec) []J { return dedupe(derive(s, genEnv, 0)) }
	x.schemaMany("strings", genStrings(), own)
	x.schemaMany("numbers", genNumbers(), own)
	x.schemaMany("arrays", genArrays(), own)
	x.schemaMany("objects", genObjects(), own)
	x.schemaMany("trees", genTrees(), own)
	bigs, bdocs := bigMany([]int{64, 129, 300, 1001})
	x.schemaMany("many parts", bigs, func(s *Spec) []J { return bdocs[s] })
	x.schemaMany("limits of any size", hugeFew(false), hugeDocs)
	x.schemaMany("awkward strings", awkward(2), awkwardDocs)
	oddFeatures(nil, func(n [4]string, specs []*Spec, docs []J) {
		var part []*Spec
		for i, s := range specs {
			if i%5 == 0 || x.thorough {
				part = append(part, s)
			}
		}
		x.schemaMany(fmt.Sprintf("properties named %q", n), part, func(*Spec) []J { return docs })
	})
	c15nest(x, false)
	c15refs(x)
	c15manyRefs(x)
	c15sizes(x, true)
	c15defaults(x)
}

// kwValues: single keywords with many values.
func kwValues() []kw {
	var out []kw
	add := func(k string, vs ...string) {
		for _, v := range vs {
			out = append(out, kw{k, js(v)})
		}
	}
	add("minLength", `0`, `1`, `3`, `4`, `5`, `100`)
	add("maxLength", `0`, `1`, `2`, `4`, `5`, `100`)
	add("pattern", `""`, `"^$"`, `"a$"`, `"^[a-c]+$"`, `"(b|1)"`, `"\\d"`, `"^\\p{L}*$"`, `"%"`, `"ab|cd"`)
	add("format", `"date-time"`, `"email"`, `"hostname"`, `"ipv4"`, `"ipv6"`, `"uri"`, `"regex"`, `""`)
	add("minimum", `0`, `-1`, `2`, `2.5`, `-0.5`, `1000000000`, `0.25`)
	add("maximum", `0`, `-1`, `2`, `1.5`, `-0.5`, `1000000000`, `0.25`)
	add("multipleOf", `1`, `1.5`, `3`, `0.25`, `1000000000`, `0.1`)
	add("items", `{}`, `{"type":"string"}`, `{"minimum":2}`, `{"enum":[1,"s"]}`, `[{}]`, `[{"type":"number"}]`, `[{"type":"string"},{},{"type":"boolean"}]`, `{"items":{"type":"number"}}`, `{"type":"object","required":["a"]}`)
	add("minItems", `0`, `1`, `3`, `4`)
	add("maxItems", `0`, `1`, `3`, `4`)
	add("properties", `{}`, `{"a":{}}`, `{"a":{"type":"null"}}`, `{"a":{"minimum":2},"x":{"required":["b"]}}`, `{"ab":{"type":"string"},"ac":{"type":"string"},"cb":{"type":"string"}}`, `{"":{"type":"null"}}`)
	add("patternProperties", `{}`, `{"":{"type":"number"}}`, `{"^.$":{"type":"string"}}`, `{"a":{"type":"number"},"b":{"type":"number"},"c":{"type":"number"}}`, `{"^[xyz]$":{"type":"string"},"^[abc]+$":{"type":"number"}}`)
	add("additionalProperties", `{}`, `{"type":"number"}`, `{"not":{"type":"null"}}`, `{"type":"object","additionalProperties":{"type":"number"}}`)
	add("required", `["ab"]`, `["a","b","c"]`, `["a","a"]`, `["zz"]`, `[""]`)
	add("minProperties", `0`, `1`, `3`, `4`, `5`)
	add("maxProperties", `0`, `1`, `3`, `4`)
	add("dependencies", `{}`, `{"a":["a"]}`, `{"a":["zz"]}`, `{"c":["a","b"]}`, `{"x":["y"],"y":["z"],"z":["x"]}`, `{"a":{"not":{"required":["b"]}}}`, `{"c":{"properties":{"c":{"type":"string"}}},"a":{"properties":{"a":{"type":"number"}}}}`, `{"ab":{"type":"null"}}`, `{"ab":{},"b":["c"]}`)
	for _, e := range []string{`null`, `true`, `false`, `0`, `1.5`, `""`, `"a"`, `[]`, `[1]`, `{}`, `{"a":1}`} {
		add("enum", `[`+e+`]`, `["abc",`+e+`]`, `[`+e+`,2]`)
	}
	add("allOf", `[{}]`, `[{"type":"number"}]`, `[{"minimum":1},{"maximum":2},{"multipleOf":0.5}]`, `[{"enum":[1,2,"a"]},{"enum":["a",2]}]`, `[{"allOf":[{"required":["a"]},{"required":["b"]}]}]`)
	add("anyOf", `[{}]`, `[{"type":"number"},{}]`, `[{"minimum":3},{"maximum":1}]`, `[{"enum":[1]},{"enum":["a"]}]`, `[{"anyOf":[{"required":["a"]},{"required":["b"]}]}]`, `[{"not":{}}]`)
	add("oneOf", `[{}]`, `[{},{}]`, `[{"type":"number"},{}]`, `[{"minimum":1},{"maximum":2}]`, `[{"required":["a"]},{"required":["b"]},{"required":["c"]}]`, `[{"oneOf":[{"minLength":2},{"maxLength":3}]},{"type":"array"}]`)
	add("not", `{}`, `{"not":{}}`, `{"type":"string"}`, `{"required":["a"]}`, `{"minimum":2}`, `{"not":{"not":{"type":"array"}}}`, `{"allOf":[{"type":"number"},{"minimum":2}]}`)
	add("definitions", `{"x":{"type":"null"}}`)
	add("description", `"d"`)
	add("id", `"http://example.com/x"`)
	add("$schema", `"http://json-schema.org/draft-04/schema#"`)
	add("x-unknown", `{"type":"null"}`)
	return out
}

func moreDocs() []J {
	var out []J
	for _, s := range []string{`"a@b.c"`, `"::1"`, `"http://x/"`, `"%zz"`, `"a b"`, `"abcde"`, `{"":null}`, `{"":1}`, `{"x":"s","y":"s"}`, `{"x":{"b":1}}`, `{"x":{"a":"s"}}`, `[[1,"a"]]`, `[[1]]`, `["s",2,true]`, `[1,1.5,2]`, `[{"a":1}]`, `[{"b":1}]`, `{"a":1,"b":"s","c":"s","d":1,"e":2}`} {
		out = append(out, js(s))
	}
	return out
}

// position of a sub-schema: how to place it, and how documents get there.
type position struct {
	name string
	put  func(s M) M
	wrap func(d J) []J
}

func positions() []position {
	same := func(d J) []J { return []J{d} }
	asA := func(d J) []J { return []J{M{"a": d}, M{"a": d, "b": "s"}, M{"b": d}} }
	in := func(d J) []J { return []J{L{d}, L{"s", d}, L{d, d}, L{d, "s", d}} }
	return []position{
		{"properties", func(s M) M { return M{"type": "object", "properties": M{"a": s, "b": M{}}} }, asA},
		{"patternProperties", func(s M) M { return M{"type": "object", "patternProperties": M{"^a": s}} }, asA},
		{"additionalProperties", func(s M) M {
			return M{"type": "object", "properties": M{"b": M{}}, "additionalProperties": s}
		}, asA},
		{"items", func(s M) M { return M{"type": "array", "items": s} }, in},
		{"positional", func(s M) M { return M{"type": "array", "items": L{M{}, s}, "additionalItems": false} }, in},
		{"additionalItems", func(s M) M { return M{"type": "array", "items": L{M{}}, "additionalItems": s} }, in},
		{"dependencies", func(s M) M { return M{"type": "object", "dependencies": M{"a": s}} }, func(d J) []J {
			if m, ok := d.(M); ok {
				c := cpJ(m).(M)
				c["a"] = 1.0
				return []J{d, c}
			}
			return []J{d, M{"a": d}}
		}},
		{"allOf", func(s M) M { return M{"allOf": L{M{}, s}} }, same},
		{"anyOf", func(s M) M { return M{"anyOf": L{M{"enum": L{"zz"}}, s}} }, same},
		{"oneOf", func(s M) M { return M{"oneOf": L{s, M{"enum": L{"zz", 1.0}}}} }, same},
		{"not", func(s M) M { return M{"not": s} }, same},
		{"not and anyOf", func(s M) M { return M{"anyOf": L{s, M{"type": "null"}}, "not": M{"enum": L{2.0}}} }, same},
		{"typed not", func(s M) M { return M{"type": L{"object", "array", "string", "number"}, "not": s} }, same},
	}
}

func leaves(untyped bool) []M {
	l := []string{`{"type":"string","minLength":2}`, `{"type":"number","minimum":1}`, `{"type":"integer"}`, `{"type":"null"}`, `{"type":"boolean","enum":[true]}`, `{"type":"array","minItems":1,"uniqueItems":true}`, `{"type":"object","required":["a"],"maxProperties":1}`, `{"type":["string","null"]}`, `{}`, `{"not":{}}`, `{"type":"string","enum":["abc"],"maxLength":3}`, `{"type":"number","multipleOf":2,"maximum":2,"exclusiveMaximum":true}`, `{"type":"array","items":[{"type":"number"}],"additionalItems":false}`, `{"type":"object","properties":{"a":{"type":"number"}},"additionalProperties":false}`}
	if untyped {
		l = []string{`{"minLength":2}`, `{"minimum":1}`, `{"minimum":1.5}`, `{"enum":[null,"a"]}`, `{"enum":[true]}`, `{"uniqueItems":true}`, `{"required":["a"]}`, `{"items":{"type":"number"}}`, `{"additionalProperties":false}`, `{"additionalItems":false}`, `{"pattern":"b","maximum":2}`, `{"multipleOf":0.5,"maxProperties":1}`, `{"format":"ipv4"}`, `{"dependencies":{"a":["b"]}}`}
	}
	var out []M
	for _, s := range l {
		out = append(out, jo(s))
	}
	return out
}

func c15nest(x *X, untyped bool) {
	base := []J{nil, true, 0.0, 1.0, 1.5, 2.0, "a", "ab", "abc", "abcd", "1.2.3.4", js(`[]`), js(`[1]`), js(`[1,1]`), js(`["s"]`), js(`{}`), js(`{"a":1}`), js(`{"a":"s"}`), js(`{"a":1,"b":2}`), js(`{"b":1}`)}
	depth := 2
	if x.thorough {
		depth = 3
	}
	var chains [][]position
	var rec func(c []position)
	rec = func(c []position) {
		if len(c) > 0 {
			chains = append(chains, append([]position(nil), c...))
		}
		if len(c) == depth {
			return
		}
		for _, p := range positions() {
			rec(append(c, p))
		}
	}
	rec(nil)
	for _, ch := range chains {
		names := make([]string, len(ch))
		for i, p := range ch {
			names[i] = p.name
		}
		x.Case(func() string { return "schemas below " + strings.Join(names, " / ") }, func() {
			ds := base
			for i := len(ch) - 1; i >= 0; i-- {
				var n []J
				for _, d := range ds {
					n = append(n, ch[i].wrap(d)...)
				}
				if len(ch)-i == 1 {
					n = append(n, base...)
				} else {
					n = append(n, base[:8]...)
				}
				ds = n
			}
			for li, leaf := range leaves(untyped) {
				raw := leaf
				for i := len(ch) - 1; i >= 0; i-- {
					raw = ch[i].put(raw)
				}
				setOrder(li % 2)
				x.schemaBody(raw, nil, ds, func() string { return "schema " + text(raw) })
			}
		})
	}
}

func c15refs(x *X) {
	x.prefixRefs()
	ds := append(docs(), moreDocs()...)
	// a reference in every position to every leaf, by several routes
	type route struct {
		name string
		make func(leaf M, put func(M) M) M
	}
	routes := []route{
		{"definition", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/definitions/x"})).(M)
			r["definitions"] = M{"x": leaf}
			return r
		}},
		{"chain", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/definitions/x"})).(M)
			r["definitions"] = M{"x": M{"$ref": "#/definitions/y"}, "y": M{"$ref": "#/definitions/z"}, "z": leaf}
			return r
		}},
		{"outside definitions", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/else/where/0"})).(M)
			r["else"] = M{"where": L{leaf, M{"type": "null"}}}
			return r
		}},
		{"odd names", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/definitions/a b.c-ü"})).(M)
			r["definitions"] = M{"a b.c-ü": leaf, "a": M{"type": "null"}}
			return r
		}},
		{"names to be escaped", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/definitions/a~1b~01c%20%25d"})).(M)
			r["definitions"] = M{"a/b~1c %d": leaf, "a": M{"b~1c %d": M{"type": "null"}, "b": M{"type": "null"}}, "a~1b~01c%20%25d": M{"type": "null"}, "a~1b~01c %d": M{"type": "null"}, "a/b/c %d": M{"type": "null"}}
			return r
		}},
		{"a list deep in a schema", func(leaf M, put func(M) M) M {
			r := cpJ(put(M{"$ref": "#/definitions/x/allOf/1/items/0"})).(M)
			r["definitions"] = M{"x": M{"allOf": L{M{"type": "null"}, M{"items": L{leaf, M{"type": "null"}}}}}}
			return r
		}},
		{"two references", func(leaf M, put func(M) M) M {
			return M{"definitions": M{"x": leaf, "y": put(M{"$ref": "#/definitions/x"})}, "anyOf": L{M{"$ref": "#/definitions/y"}, M{"$ref": "#/definitions/x"}}}
		}},
		{"beside other keywords", func(leaf M, put func(M) M) M {
			return M{"definitions": M{"x": leaf}, "allOf": L{put(M{"$ref": "#/definitions/x", "type": "null", "not": M{}})}}
		}},
	}
	base := []J{nil, true, 0.0, 1.0, 1.5, 2.0, "a", "ab", "abc", js(`[]`), js(`[1]`), js(`[1,1]`), js(`["s"]`), js(`{}`), js(`{"a":1}`), js(`{"a":"s"}`), js(`{"a":1,"b":2}`), js(`{"b":1}`)}
	pos := append(positions(), position{"root", func(s M) M { return s }, func(d J) []J { return []J{d} }})
	for _, p := range pos {
		for _, r := range routes {
			x.Case(func() string { return "references in " + p.name + " by " + r.name }, func() {
				var wd []J
				for _, d := range base {
					wd = append(wd, p.wrap(d)...)
				}
				wd = append(wd, base...)
				for _, leaf := range leaves(false) {
					raw := r.make(leaf, p.put)
					for o := 0; o < 3; o++ {
						setOrder(o)
						x.schemaBody(raw, cpJ(raw), wd, func() string { return "schema " + text(raw) + " in its own context" })
					}
				}
			})
		}
	}
	// the sub-schema is part of a document
	for _, sub := range []string{"#/definitions/x", "#/properties/a", "#/definitions/list"} {
		for _, to := range []string{"#", "#/definitions/y", "#/definitions/list", "#/properties/a", "#/definitions/x"} {
			x.Case(func() string { return "sub-schema " + sub + " with references to " + to }, func() {
				doc := jo(`{"type":["object","number","array"],"properties":{"a":{"type":["string","object"]},"b":{}},"required":["a"],"definitions":{"y":{"type":"number"},"x":{"type":"object"},"list":{"type":"array"}}}`)
				set := func(m M) {
					m["properties"] = M{"r": M{"$ref": to}}
					m["items"] = M{"$ref": to}
				}
				t, _ := pointer(doc, sub)
				set(t.(M))
				var wd []J
				for _, d := range base {
					wd = append(wd, d, M{"r": d}, M{"a": "s", "r": d}, L{d}, M{"r": M{"a": "x", "r": d}}, M{"r": L{d}}, L{M{"r": d, "a": "x"}}, L{L{d}}, M{"a": M{"r": d}}, M{"r": M{"a": M{"r": d}}})
				}
				for o := 0; o < 3; o++ {
					setOrder(o)
					x.schemaBody(t.(M), doc, wd, func() string { return "schema " + text(t) + " in the context " + text(doc) })
				}
			})
		}
	}
	// recursion
	for _, s := range []string{
		`{"type":["object","null"],"properties":{"a":{"$ref":"#"},"b":{"type":"number"}},"additionalProperties":false}`,
		`{"type":["array","number"],"items":{"$ref":"#"}}`,
		`{"type":"array","items":[{"$ref":"#"},{"type":"number"}],"additionalItems":{"$ref":"#"}}`,
		`{"type":"object","additionalProperties":{"anyOf":[{"type":"number"},{"$ref":"#"}]}}`,
		`{"type":"object","patternProperties":{"^a":{"$ref":"#"}},"required":["b"]}`,
		`{"type":["object","string"],"definitions":{"p":{"type":"object","properties":{"a":{"$ref":"#/definitions/q"}}},"q":{"type":["array","null"],"items":{"$ref":"#/definitions/p"}}},"properties":{"a":{"$ref":"#/definitions/p"},"b":{"$ref":"#/definitions/q"},"c":{"$ref":"#"}}}`,
		`{"type":["object","number"],"properties":{"a":{"not":{"$ref":"#"}}}}`,
		`{"type":["object","number"],"properties":{"a":{"oneOf":[{"$ref":"#"},{"type":"object"}]}}}`,
		`{"type":"object","dependencies":{"a":{"properties":{"a":{"$ref":"#"}}}},"maxProperties":2}`,
		`{"type":["object","number","array"],"properties":{"a":{"$ref":"#/properties/b"},"b":{"type":"array","items":{"$ref":"#/properties/a"}}}}`,
		`{"allOf":[{"$ref":"#/definitions/n"},{"type":"object"}],"definitions":{"n":{"type":"object","properties":{"next":{"$ref":"#/definitions/n"},"a":{"type":"number"}},"additionalProperties":false}}}`,
	} {
		x.Case(func() string { return "recursive schema " + s }, func() {
			raw := jo(s)
			var wd []J
			wd = append(wd, ds...)
			level := []J{nil, 1.0, "s", js(`{}`), js(`[]`)}
			for d := 0; d < 3; d++ {
				var next []J
				for i, e := range level {
					next = append(next, M{"a": e}, M{"b": e}, L{e}, M{"a": e, "b": 1.0}, M{"next": e, "a": 1.0})
					if d < 2 {
						next = append(next, M{"c": e}, M{"ab": e, "b": 2.0}, L{e, 1.0}, L{e, 1.0, level[(i+3)%len(level)]}, M{"a": e, "b": level[(i+1)%len(level)], "c": 1.0})
					}
				}
				wd = append(wd, next...)
				level = next
			}
			var deep J = nil
			for i := 0; i < 100; i++ {
				deep = M{"a": deep, "b": 1.0}
			}
			wd = append(wd, deep)
			for o := 0; o < 3; o++ {
				setOrder(o)
				x.schemaBody(raw, raw, wd, func() string { return "schema " + s })
				if !strings.Contains(s, "#/") {
					x.schemaBody(raw, nil, wd, func() string { return "schema (no context) " + s })
				}
			}
		})
	}
	// long chains, and many references
	for n := 1; n <= 40; n++ {
		x.Case(func() string { return fmt.Sprintf("chains of %d references and %d references side by side", n, n) }, func() {
			defs := M{}
			props := M{}
			for i := 0; i < n; i++ {
				defs[nm(i)] = M{"$ref": "#/definitions/" + nm(i+1)}
				if n%3 == 2 {
					defs[nm(i)] = M{"allOf": L{defs[nm(i)]}}
				}
				props[nm(i)] = M{"$ref": "#/definitions/" + nm(i)}
			}
			defs[nm(n)] = M{"type": "number"}
			raw := M{"definitions": defs, "$ref": "#/definitions/p00"}
			x.schemaBody(raw, raw, ds, func() string { return text(raw) })
			raw = M{"definitions": defs, "type": "object", "properties": props, "additionalProperties": false}
			wd := append([]J{}, ds...)
			for i := 0; i <= n; i++ {
				wd = append(wd, M{nm(i): 1.0}, M{nm(i): "s"}, M{nm(0): 1.0, nm(i): nil})
			}
			setOrder(n)
			x.schemaBody(raw, raw, wd, func() string { return text(raw) })
			// different meanings
			for i := 0; i < n; i++ {
				defs[nm(i)] = M{"enum": L{float64(i)}}
				defs["d"+nm(i)] = M{"type": "array", "items": M{"$ref": "#/definitions/" + nm(n-1-i)}}
				props["q"+nm(i)] = M{"$ref": "#/definitions/d" + nm(i)}
			}
			wd = nil
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					wd = append(wd, M{nm(i): float64(j)}, M{"q" + nm(i): L{float64(j)}})
				}
			}
			x.schemaBody(raw, raw, wd, func() string { return text(raw) })
		})
	}
}

func c15sizes(x *X, typed bool) {
	t := func(m M, typ string) M {
		if typed {
			m["type"] = typ
		}
		return m
	}
	for n := 1; n <= 40; n++ {
		x.Case(func() string { return fmt.Sprintf("schemas with %d parts", n) }, func() {
			props, req, enumv, pats, deps := M{}, L{}, L{}, M{}, M{}
			pos, allof, anyof, oneof := L{}, L{}, L{}, L{}
			full := M{}
			for i := 0; i < n; i++ {
				props[nm(i)] = M{"enum": L{float64(i)}}
				pats["^"+nm(i)] = M{"enum": L{float64(i)}}
				req = append(req, nm(i))
				enumv = append(enumv, float64(i), "s"+nm(i))
				deps[nm(i)] = L{nm((i + 1) % n)}
				if i%2 == 1 {
					deps[nm(i)] = M{"type": "object", "required": L{nm((i + 1) % n)}}
				}
				pos = append(pos, M{"enum": L{float64(i)}})
				allof = append(allof, M{"not": M{"enum": L{float64(i)}}})
				anyof = append(anyof, M{"enum": L{float64(i)}})
				oneof = append(oneof, M{"type": "number", "minimum": float64(i)})
				full[nm(i)] = float64(i)
			}
			objs := []J{full, M{}}
			arrs := []J{L{}}
			nums := []J{-1.0, "s", nil, 1e6, "s" + nm(n)}
			list := L{}
			for i := 0; i <= n; i++ {
				w := cpJ(full).(M)
				w[nm(i)] = -1.0
				d := cpJ(full).(M)
				delete(d, nm(i))
				o := cpJ(full).(M)
				delete(o, nm(i))
				o["other"] = 1.0
				objs = append(objs, w, d, o, M{nm(i): float64(i)})
				nums = append(nums, float64(i), float64(i)+0.5, "s"+nm(i))
				list = append(append(L{}, list...), float64(i))
				arrs = append(arrs, list)
				for _, k := range []int{0, i / 2, i} {
					w := append(L{}, list...)
					w[k] = -1.0
					arrs = append(arrs, w)
				}
			}
			check := func(raw M, ds []J) {
				setOrder(n % 3)
				x.schemaBody(raw, nil, ds, func() string { return "schema " + text(raw) })
				setOrder(0)
			}
			check(t(M{"properties": props, "additionalProperties": false}, "object"), objs)
			check(t(M{"properties": props}, "object"), objs)
			check(t(M{"patternProperties": pats, "additionalProperties": M{"type": "string"}}, "object"), objs)
			check(t(M{"required": req}, "object"), objs)
			check(t(M{"required": req, "properties": props, "minProperties": float64(n), "maxProperties": float64(n)}, "object"), objs)
			check(t(M{"minProperties": float64(n)}, "object"), objs)
			check(t(M{"maxProperties": float64(n)}, "object"), objs)
			check(t(M{"dependencies": deps}, "object"), objs)
			check(t(M{"items": pos, "additionalItems": false}, "array"), arrs)
			check(t(M{"items": pos, "additionalItems": M{"type": "string"}}, "array"), arrs)
			check(t(M{"items": pos}, "array"), arrs)
			check(t(M{"minItems": float64(n), "maxItems": float64(n + 1), "uniqueItems": true}, "array"), arrs)
			check(M{"enum": enumv}, nums)
			check(t(M{"enum": enumv}, "number"), nums)
			check(t(M{"enum": enumv}, "string"), nums)
			check(t(M{"allOf": allof}, "number"), nums)
			check(t(M{"anyOf": anyof}, "number"), nums)
			check(t(M{"oneOf": oneof}, "number"), nums)
			check(t(M{"allOf": allof, "anyOf": anyof, "oneOf": oneof, "not": M{"enum": L{float64(n / 2)}}}, "number"), nums)
			check(t(M{"minLength": float64(n), "maxLength": float64(n + 1)}, "string"), []J{repeat("x", n-1), repeat("x", n), repeat("ä", n), repeat("x", n+1), repeat("ä", n+1), repeat("x", n+2)})
			// depth
			a, o, b := J(M{"type": "number"}), J(M{"type": "number"}), J(M{"type": "number"})
			var d1, d2 J = 1.0, 1.0
			var e1, e2 J = "s", "s"
			for i := 0; i < n; i++ {
				a = t(M{"items": a}, "array")
				o = t(M{"properties": M{"a": o}, "required": L{"a"}}, "object")
				b = M{"not": M{"anyOf": L{M{"type": "null"}, b}}}
				d1, d2 = L{d1}, M{"a": d2}
				e1, e2 = L{e1}, M{"a": e2}
			}
			check(a.(M), []J{d1, e1, d2, e2, 1.0})
			check(o.(M), []J{d1, e1, d2, e2, 1.0, M{}})
			check(b.(M), []J{1.0, nil, "s"})
		})
	}
}

// c15defaults: defaults of scalar property schemas are carried over.
func c15defaults(x *X) {
	decls := []string{`{"type":"string","default":"d"}`, `{"type":"string","default":""}`, `{"type":"string"}`, `{"type":"number","default":1.5}`, `{"type":"number","default":0}`, `{"type":"integer","default":3}`, `{"type":"boolean","default":true}`, `{"type":"boolean","default":false}`, `{"$ref":"#/definitions/d"}`, `{"type":"string","default":"abc","enum":["abc","d"],"minLength":1}`, `{"type":"number","default":2,"minimum":1,"maximum":3,"multipleOf":1}`}
	rest := []string{}
	for typ, ds := range map[string][]string{"integer": {`0`, `-1`, `1`, `1e3`, `9007199254740991`, `-9007199254740991`, `4294967296`, `1.0`}, "number": {`-0.1`, `1e-7`, `1e21`, `0.30000000000000004`, `1`, `16777217`, `-0`, `5e-324`, `1.7976931348623157e308`}, "string": {`" "`, `"0"`, `"null"`, `"\u0000"`, `"%s"`, `"<&>"`, `"\u2028"`, `"日本"`, `"a\nb"`, `"#/definitions/d"`}} {
		for _, d := range ds {
			rest = append(rest, fmt.Sprintf(`{"type":%q,"default":%s}`, typ, d))
		}
	}
	sort.Strings(rest)
	x.Case(func() string { return "defaults of every shape" }, func() {
		for _, d := range rest {
			for k, raw := range []M{
				{"type": "object", "properties": M{"a": js(d)}},
				{"type": "object", "properties": M{"a": M{"$ref": "#/definitions/d"}}, "definitions": M{"d": js(d)}},
				{"type": "object", "properties": M{"o": M{"type": "object", "properties": M{"a": js(d)}}}},
				{"properties": M{"a": js(d), "b": js(d)}, "required": L{"b"}},
			} {
				s, env, _ := modelSchema(raw, raw)
				v, err := buildSchema(raw, raw)
				if err != nil {
					Failf("%s not built: %s", text(raw), err)
				}
				x.Traces++
				for _, in := range []J{M{}, M{"a": "s"}, M{"a": 2.0}, M{"o": M{}}, M{"o": M{"a": 1.0}}, M{"o": M{"b": "s"}}, M{"b": "s"}, M{"b": 3.0}, M{"c": nil}} {
					x.fillOne(s, env, v, in, func() string { return fmt.Sprintf("schema %s (form %d)", text(raw), k) })
				}
			}
		}
	})
	objs := []string{`{}`, `{"a":"d"}`, `{"a":1}`, `{"a":true}`, `{"b":"abc"}`, `{"b":2}`, `{"a":"q","b":"abc"}`, `{"c":1}`, `{"a":null}`, `{"a":2,"b":2,"c":null}`, `{"a":false,"b":false}`}
	for _, da := range decls {
		for _, db := range decls {
			x.Case(func() string { return "defaults " + da + " and " + db }, func() {
				for _, req := range []J{nil, L{"a"}, L{"b"}, L{"a", "b"}} {
					raw := M{"type": "object", "properties": M{"a": js(da), "b": js(db)}, "definitions": M{"d": js(`{"type":"number","default":7}`)}}
					if req != nil {
						raw["required"] = req
					}
					deep := M{"type": "object", "properties": M{"o": M{"$ref": "#/definitions/o"}, "l": M{"type": "array", "items": M{"$ref": "#/definitions/o"}}}, "definitions": M{"o": raw, "d": js(`{"type":"number","default":7}`)}}
					for k, r := range []M{raw, deep} {
						s, env, _ := modelSchema(r, r)
						for o := 0; o < 2; o++ {
							setOrder(o)
							v, err := buildSchema(r, r)
							if err != nil {
								Failf("%s not built: %s", text(r), err)
							}
							x.Traces++
							for _, d := range objs {
								in := js(d)
								if k == 1 {
									in = M{"o": js(d), "l": L{js(d), js(`{}`)}}
								}
								x.fillOne(s, env, v, in, func() string { return "schema " + text(r) })
							}
						}
					}
				}
			})
		}
	}
}

// fillOne validates a private copy and compares verdict and content.
func (x *X) fillOne(s *Spec, env Env, v validator, in J, how func() string) {
	want := s.Eval(env, in)
	model := cpJ(in)
	if want {
		s.fill(env, model)
	}
	got := cpJ(in)
	x.States++
	x.expect(v, got, want, how)
	if want && !jsonEqual(norm(model), norm(got)) {
		Failf("%s on %s: afterwards the document should be %s but is %s", how(), show(in), show(model), show(got))
	}
	if !want && !subset(in, got) {
		Failf("%s on %s: the rejected document was changed to %s", how(), show(in), show(got))
	}
}

// norm makes numbers float64.
func norm(v J) J {
	switch x := v.(type) {
	case L:
		c := make(L, len(x))
		for i, e := range x {
			c[i] = norm(e)
		}
		return c
	case M:
		c := M{}
		for k, e := range x {
			c[k] = norm(e)
		}
		return c
	}
	if f, _, ok := asNumber(v); ok {
		return f
	}
	return v
}

func c16(x *X) {
	x.guessedNumbers()
	ds := docs()
	for k := 0; k <= 3; k++ {
		var raws []M
		combos(kwAll(), k, func(c []kw) { raws = append(raws, schemaOf(nil, c...)) })
		x.schemaGroup(fmt.Sprintf("no type, %d keywords", k), raws, ds)
	}
	if x.thorough {
		for _, t := range []J{"string", "number", "array", "object"} {
			var raws []M
			combos(family(t), 4, func(c []kw) { raws = append(raws, schemaOf(nil, c...)) })
			x.schemaGroup(fmt.Sprintf("no type, 4 keywords of %v", t), raws, ds)
		}
	}
	vals := kwValues()
	var raws []M
	for i, e := range vals {
		raws = append(raws, schemaOf(nil, e))
		for j := 0; j < i; j++ {
			if vals[j].k != e.k {
				raws = append(raws, schemaOf(nil, e, vals[j]))
			}
		}
	}
	x.schemaGroup("no type, pairs of many keyword values", raws, append(docs(), moreDocs()...))
	x.extremeSchemas(nil)
	// enumerations
	mem := []J{nil, true, 1.0, 2.5, "a", "", L{}, L{1.0}, M{}, M{"a": 1.0}}
	raws = nil
	for i := range mem {
		for j := range mem {
			for l := range mem {
				raws = append(raws, M{"enum": L{mem[i], mem[j], mem[l]}})
			}
		}
	}
	x.schemaGroup("enumerations", raws, docs())
	c16long(x)
	c15nest(x, true)
	c15sizes(x, false)
}

// extremes are numbers of every magnitude, integral and not.
func extremes() []float64 {
	var out []float64
	for _, f := range []float64{0, 1, 2, 3, 255, 256, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 53, 1<<53 - 1, 1 << 62, 1 << 63, 1 << 64, 1e15, 1e18, 1e19, 1e20, 1e21, 1e22, 1e100, 1e300, 1.7e308, 0.5, 1.5, 2147483647.5, 4503599627370495.5, 1e15 + 0.5, 0.1, 1e-9, 1e-300, 5e-324} {
		out = append(out, f)
		if f != 0 {
			out = append(out, -f)
		}
	}
	return out
}

// extremeSchemas: limits and divisors of every magnitude, alone and in pairs.
func (x *X) extremeSchemas(types []J) {
	var raws []M
	nums := extremes()
	for _, k := range []string{"minimum", "maximum", "multipleOf"} {
		for _, a := range nums {
			if k == "multipleOf" && a <= 0 {
				continue
			}
			raws = append(raws, M{k: a}, M{k: a, "minLength": 2.0})
			if k != "multipleOf" {
				raws = append(raws, M{k: a, "exclusiveM" + k[1:]: true})
			}
			for _, l := range []string{"minimum", "maximum", "multipleOf"} {
				if l == k {
					continue
				}
				for _, b := range nums {
					if l == "multipleOf" && b <= 0 {
						continue
					}
					raws = append(raws, M{k: a, l: b})
				}
			}
		}
	}
	for _, t := range types {
		for _, r := range raws {
			r["type"] = t
		}
		x.schemaGroup(fmt.Sprintf("numeric keywords of every magnitude, type %v", t), raws, []J{0.0, 1.0, -1.0, 2.0, 1.5, -1.5, 0.5, 1e-9, 1e6, -1e6, 123456.5, 9007199254740991.0, -9007199254740991.0, "s", "ss", nil, true, L{}, M{}})
	}
	if types == nil {
		x.schemaGroup("numeric keywords of every magnitude", raws, []J{0.0, 1.0, -1.0, 2.0, 1.5, -1.5, 0.5, 1e-9, 1e6, -1e6, 123456.5, 9007199254740991.0, -9007199254740991.0, "s", "ss", nil, true, L{}, M{}})
	}
}

var _ = jsval.New
