package main

import (
	"fmt"
	"os"

	"verif.local/genmeta"
)

func init() {
	register(&check{id: "C25", run: c25, traces: "the real generator commands are run under every rotation of their maps' iteration orders and their outputs compared; the harness is then compiled with the regenerated Maybe types in place of the shipped ones and with the regenerated meta-schema validator, and every operation sequence and every document is executed on these",
		bounds: "all operation sequences of C11 (up to length 4 in the quick, 5 in the thorough tier) on the 6 regenerated types; 8 map orders per generator run, over missing, shorter, longer and empty files; candidate schemas: every keyword times 60 values alone, in pairs (all pairs of keywords over 6 values each) and at 14 nested positions, 35 schemas with every value replaced, and the schemas of C15 and C17; the schema generator command on 260 schemas of every sort, good, bad and of up to 4000 parts",
		notes:  []string{"the generators' behaviour when their output cannot be written is outside the property"}})
}

func c25(x *X) {
	if genmeta.Meta == nil {
		fmt.Fprintln(os.Stderr, "the meta-schema validator has not been generated")
		os.Exit(3)
	}
	c11(x)
	c25gentest(x)
	b, err := os.ReadFile("/repo/schema.json")
	must(err)
	raw := jo(string(b))
	s, env, bad := modelSchema(raw, raw)
	if bad != "" {
		must(fmt.Errorf("the meta-schema cannot be read: %s", bad))
	}
	group := func(name string, ds []J) {
		for i := 0; i < len(ds); i += 200 {
			part := ds[i:min(i+200, len(ds))]
			x.Case(func() string { return name + " such as " + trim(text(part[0]), 300) }, func() {
				for o := 0; o < 2; o++ {
					setOrder(o)
					x.Traces++
					x.Transitions += int64(len(part))
					x.verdicts(genmeta.Meta, s, env, part, func() string { return "the regenerated meta-schema validator" })
				}
			})
		}
	}
	var values []J
	for _, t := range []string{`null`, `true`, `false`, `0`, `1`, `-1`, `1.5`, `-0.5`, `0.5`, `7`, `1e9`, `""`, `"a"`, `"string"`, `"object"`, `"any"`, `"String"`, `"http://x/y"`, `"%zz"`, `"("`, `"^a"`, `[]`, `[1]`, `["a"]`, `["a","b"]`, `["a","a"]`, `["a",1]`, `["string"]`, `["string","null"]`, `["string","string"]`, `["string","any"]`, `["array","boolean","integer","null","number","object","string"]`, `[{}]`, `[{},{}]`, `[{"type":"string"}]`, `[{"type":"x"}]`, `[{},3]`, `[null]`, `[[]]`, `[1,2,1]`, `{}`, `{"a":1}`, `{"a":{}}`, `{"a":{"type":"string"}}`, `{"a":{"type":"x"}}`, `{"a":["b"]}`, `{"a":[]}`, `{"a":["b","b"]}`, `{"a":{},"b":3}`, `{"type":"string"}`, `{"type":"x"}`, `{"type":["string","string"]}`, `{"minimum":"x"}`, `{"minLength":-1}`, `{"properties":{"a":{"minLength":-1}}}`, `{"not":{"not":{"type":3}}}`, `{"$ref":"#"}`, `{"$ref":3}`, `{"x":3}`, `{"required":[]}`} {
		values = append(values, js(t))
	}
	keys := []string{"id", "$schema", "title", "description", "default", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "additionalItems", "items", "maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties", "required", "additionalProperties", "definitions", "properties", "patternProperties", "dependencies", "enum", "type", "allOf", "anyOf", "oneOf", "not", "$ref", "format", "x", ""}
	group("values", values)
	var ds []J
	for _, k := range keys {
		for _, v := range values {
			ds = append(ds, M{k: v}, M{k: v, "maximum": 1.0, "minimum": 0.5}, M{k: v, "type": "object", "properties": M{"a": M{}}, "required": L{"a"}})
		}
	}
	group("one keyword", ds)
	ds = nil
	few := []J{js(`1`), js(`"string"`), js(`true`), js(`["a"]`), js(`{"a":{}}`), js(`[{}]`)}
	for i, k := range keys {
		for _, l := range keys[i+1:] {
			for _, v := range few {
				for _, w := range few {
					ds = append(ds, M{k: v, l: w})
				}
			}
		}
	}
	group("two keywords", ds)
	ds = nil
	nest := []func(J) J{
		func(d J) J { return M{"not": d} }, func(d J) J { return M{"allOf": L{d}} }, func(d J) J { return M{"allOf": L{M{}, d}} }, func(d J) J { return M{"anyOf": L{d, M{}}} }, func(d J) J { return M{"oneOf": L{d}} },
		func(d J) J { return M{"items": d} }, func(d J) J { return M{"items": L{d, M{}}} }, func(d J) J { return M{"additionalItems": d} }, func(d J) J { return M{"properties": M{"a": d}} }, func(d J) J { return M{"patternProperties": M{"a": d, "b": M{}}} },
		func(d J) J { return M{"additionalProperties": d} }, func(d J) J { return M{"definitions": M{"a": d}} }, func(d J) J { return M{"dependencies": M{"a": d}} }, func(d J) J { return M{"dependencies": M{"a": L{"b"}, "b": d}} },
	}
	for _, n := range nest {
		for _, k := range keys {
			for i, v := range values {
				if i%2 == 0 || x.thorough {
					ds = append(ds, n(M{k: v}))
				}
			}
		}
		for _, m := range nest {
			for _, v := range values {
				ds = append(ds, n(m(v)))
				for _, o := range nest {
					if x.thorough {
						ds = append(ds, n(m(o(v))), n(m(o(M{"type": v}))))
					}
				}
			}
		}
	}
	group("nested", ds)
	ds = nil
	for _, t := range richSchemas() {
		d := js(t)
		ds = append(ds, d)
		for _, v := range append(few, nil, -1.0, L{}, M{}) {
			replaced(d, v, func(r J) { ds = append(ds, cpJ(r)) })
		}
	}
	for _, t := range append(typeChoices(), nil) {
		for _, k := range kwValues() {
			ds = append(ds, schemaOf(t, k))
		}
		combos(kwAll(), 2, func(c []kw) { ds = append(ds, schemaOf(t, c...)) })
	}
	group("schemas", ds)
}

// replaced calls f with d in which one part is replaced by v, for every part.
func replaced(d, v J, f func(J)) {
	f(v)
	switch t := d.(type) {
	case M:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			replaced(t[k], v, func(r J) {
				n := M{}
				for a, b := range t {
					n[a] = b
				}
				n[k] = r
				f(n)
			})
		}
	case L:
		for i := range t {
			replaced(t[i], v, func(r J) {
				n := append(L{}, t...)
				n[i] = r
				f(n)
			})
		}
	}
}
