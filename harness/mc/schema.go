package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// js parses JSON text.
func js(s string) J {
	var v J
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic("js: " + s + ": " + err.Error())
	}
	return v
}

func jo(s string) M { return js(s).(M) }

func text(v J) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSpace(b.String())
}

// schemaModel gives the meaning of a schema, from its JSON text alone.
type schemaModel struct {
	doc J
	env Env
	bad string // a reference that does not lead to a schema
}

func modelSchema(raw M, doc J) (*Spec, Env, string) {
	m := &schemaModel{doc: doc, env: Env{}}
	if m.doc == nil {
		m.doc = raw
	}
	s := m.of(raw)
	return s, m.env, m.bad
}

// pointer resolves a JSON pointer in fragment form.
func pointer(doc J, ref string) (J, bool) {
	if !strings.HasPrefix(ref, "#") {
		return nil, false
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil, false
	}
	if p == "" {
		return doc, true
	}
	if p[0] != '/' {
		return nil, false
	}
	cur := doc
	for _, t := range strings.Split(p[1:], "/") {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
		switch x := cur.(type) {
		case M:
			e, ok := x[t]
			if !ok {
				return nil, false
			}
			cur = e
		case L:
			i, err := strconv.Atoi(t)
			if err != nil || t != strconv.Itoa(i) || i < 0 || i >= len(x) {
				return nil, false
			}
			cur = x[i]
		default:
			return nil, false
		}
	}
	return cur, true
}

func (m *schemaModel) ref(name string) *Spec {
	if _, ok := m.env[name]; !ok {
		m.env[name] = sEmpty // for recursion
		t, ok := pointer(m.doc, name)
		// references straight to references must end
		seen := map[string]bool{name: true}
		for cur := t; ; {
			r, isref := cur.(M)
			next, isstr := r["$ref"].(string)
			if !isref || !isstr || next == "" {
				break
			}
			if seen[next] {
				m.bad = name
				return ref(name)
			}
			seen[next] = true
			var there bool
			if cur, there = pointer(m.doc, next); !there {
				break
			}
		}
		raw, ok2 := t.(M)
		if !ok || !ok2 {
			m.bad = name
			return ref(name)
		}
		m.env[name] = m.of(raw)
	}
	return ref(name)
}

func jint(raw M, k string) *int {
	if f, ok := raw[k].(float64); ok {
		return ip(int(f))
	}
	return nil
}

func jnum(raw M, k string) *float64 {
	if f, ok := raw[k].(float64); ok {
		return fp(f)
	}
	return nil
}

func keys(v J) []string {
	m, _ := v.(M)
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func jstrs(v J) []string {
	switch x := v.(type) {
	case string:
		return []string{x}
	case L:
		var out []string
		for _, e := range x {
			out = append(out, e.(string))
		}
		return out
	}
	return nil
}

func (m *schemaModel) list(v J) []*Spec {
	var out []*Spec
	for _, e := range v.(L) {
		out = append(out, m.of(e.(M)))
	}
	return out
}

func (m *schemaModel) of(raw M) *Spec {
	if r, ok := raw["$ref"].(string); ok {
		return m.ref(r)
	}
	var parts []*Spec
	if v, ok := raw["not"]; ok {
		parts = append(parts, not(m.of(v.(M))))
	}
	if v, ok := raw["allOf"]; ok {
		parts = append(parts, all(m.list(v)...))
	}
	if v, ok := raw["anyOf"]; ok {
		parts = append(parts, any_(m.list(v)...))
	}
	if v, ok := raw["oneOf"]; ok {
		parts = append(parts, oneof(m.list(v)...))
	}
	enumv, hasEnum := raw["enum"].(L)
	types := jstrs(raw["type"])
	if len(types) == 0 {
		types = implied(raw)
	}
	if len(types) == 0 {
		if hasEnum {
			parts = append(parts, enum(enumv...))
		}
	} else {
		var alts []*Spec
		seen := map[string]bool{}
		for _, t := range types {
			if !seen[t] {
				seen[t] = true
				alts = append(alts, m.typed(raw, t))
			}
		}
		if len(alts) == 1 {
			parts = append(parts, alts[0])
		} else {
			parts = append(parts, any_(alts...))
		}
	}
	switch len(parts) {
	case 0:
		return sEmpty
	case 1:
		return parts[0]
	}
	return all(parts...)
}

func (m *schemaModel) typed(raw M, t string) *Spec {
	enumv, hasEnum := raw["enum"].(L)
	s := &Spec{Kind: t}
	if d, ok := raw["default"]; ok && d != nil {
		switch t {
		case "string", "number", "integer", "boolean":
			s.HasDefault, s.Default = true, d
		}
	}
	switch t {
	case "string", "number", "integer", "boolean":
		s.HasEnum, s.Enum = hasEnum, enumv
	}
	switch t {
	case "null":
	case "boolean":
	case "string":
		s.MinLen, s.MaxLen = jint(raw, "minLength"), jint(raw, "maxLength")
		s.Rx, s.HasRx = raw["pattern"].(string)
		s.Format, _ = raw["format"].(string)
	case "number", "integer":
		s.Min, s.Max, s.Mult = jnum(raw, "minimum"), jnum(raw, "maximum"), jnum(raw, "multipleOf")
		s.ExMin, _ = raw["exclusiveMinimum"].(bool)
		s.ExMax, _ = raw["exclusiveMaximum"].(bool)
	case "array":
		s.MinItems, s.MaxItems = jint(raw, "minItems"), jint(raw, "maxItems")
		s.Unique, _ = raw["uniqueItems"].(bool)
		switch it := raw["items"].(type) {
		case M:
			s.Items = m.of(it)
		case L:
			s.HasPos, s.Pos = true, m.list(it)
			s.SetAddI = true
			switch ai := raw["additionalItems"].(type) {
			case M:
				s.AddItems = m.of(ai)
			case bool:
				if ai {
					s.AddItems = sEmpty
				}
			default:
				s.AddItems = sEmpty
			}
		}
	case "object":
		s.MinProps, s.MaxProps = jint(raw, "minProperties"), jint(raw, "maxProperties")
		s.Required = jstrs(raw["required"])
		for _, k := range keys(raw["properties"]) {
			s.Props = append(s.Props, Prop{k, m.of(raw["properties"].(M)[k].(M))})
		}
		for _, k := range keys(raw["patternProperties"]) {
			s.Pats = append(s.Pats, Prop{k, m.of(raw["patternProperties"].(M)[k].(M))})
		}
		switch ap := raw["additionalProperties"].(type) {
		case M:
			s.AddProps = m.of(ap)
		case bool:
			if ap {
				s.AddProps = sEmpty
			}
		default:
			s.AddProps = sEmpty
		}
		for _, k := range keys(raw["dependencies"]) {
			switch d := raw["dependencies"].(M)[k].(type) {
			case M:
				s.SchemaDeps = append(s.SchemaDeps, Prop{k, m.of(d)})
			default:
				s.PropDeps = append(s.PropDeps, Dep{k, jstrs(d)})
			}
		}
	default:
		panic("model: type " + t)
	}
	if hasEnum && (t == "array" || t == "object" || t == "null") {
		return all(enum(enumv...), s)
	}
	return s
}

// implied: the types that the keywords of a schema without type belong to.
func implied(raw M) []string {
	has := func(ks ...string) bool {
		for _, k := range ks {
			if _, ok := raw[k]; ok {
				return true
			}
		}
		return false
	}
	nonempty := func(k string) bool {
		switch x := raw[k].(type) {
		case M:
			return len(x) > 0
		case L:
			return len(x) > 0
		case string:
			return true
		}
		return false
	}
	restricts := func(k string) bool {
		v, ok := raw[k]
		return ok && v != true
	}
	kinds := map[string]bool{}
	if l, ok := raw["enum"].(L); ok {
		for _, e := range l {
			switch e.(type) {
			case nil:
				kinds["null"] = true
			case bool:
				kinds["boolean"] = true
			case string:
				kinds["string"] = true
			case float64:
				kinds["number"] = true
			case L:
				kinds["array"] = true
			case M:
				kinds["object"] = true
			}
		}
	}
	var out []string
	if nonempty("properties") || nonempty("patternProperties") || nonempty("required") || nonempty("dependencies") || restricts("additionalProperties") || has("minProperties", "maxProperties") || kinds["object"] {
		out = append(out, "object")
	}
	if has("items", "minItems", "maxItems", "uniqueItems") || restricts("additionalItems") || kinds["array"] {
		out = append(out, "array")
	}
	f, _ := raw["format"].(string)
	switch f {
	case "date-time", "email", "hostname", "ipv4", "ipv6", "uri":
		kinds["string"] = true
	}
	if has("minLength", "maxLength", "pattern") || kinds["string"] {
		out = append(out, "string")
	}
	num := ""
	for _, k := range []string{"multipleOf", "minimum", "maximum"} {
		if n := jnum(raw, k); n != nil {
			num = "number"
			if *n == math.Trunc(*n) {
				num = "integer"
			}
			break
		}
	}
	if num == "" && (has("exclusiveMinimum", "exclusiveMaximum") || kinds["number"]) {
		num = "number"
	}
	if num != "" {
		out = append(out, num)
	}
	if kinds["boolean"] {
		out = append(out, "boolean")
	}
	if kinds["null"] {
		out = append(out, "null")
	}
	return out
}

func readSchema(raw M) *schema.Schema {
	s, err := schema.Read(strings.NewReader(text(raw)))
	if err != nil {
		panic("the schema cannot be read: " + text(raw) + ": " + err.Error())
	}
	return s
}

// buildSchema goes the way a user goes: text, schema, validator.
func buildSchema(raw M, ctx J) (*jsval.JSVal, error) {
	if ctx == nil {
		return builder.New().Build(readSchema(raw))
	}
	return builder.New().BuildWithCtx(readSchema(raw), ctx)
}

// schemaCase: one schema against documents; ctx nil: Build.
func (x *X) schemaBody(raw M, ctx J, docs []J, how func() string) {
	s, env, bad := modelSchema(raw, ctx)
	var v *jsval.JSVal
	var err error
	v, err = buildSchema(raw, ctx)
	x.Transitions++
	if bad != "" {
		if err == nil {
			Failf("%s: built although the reference %q does not lead to a schema", how(), bad)
		}
		return
	}
	if err != nil {
		Failf("%s: not built: %s", how(), safeError(err))
	}
	x.Traces++
	for _, d := range docs {
		x.States++
		want := s.Eval(env, d)
		in := d
		x.expect(v, in, want, how)
	}
}

// orderly does the same for a second map order.
func (x *X) schemaCase(raw M, ctx J, docs []J) {
	x.Case(func() string { return "schema " + text(raw) }, func() {
		how := func() string { return "schema " + text(raw) }
		x.schemaBody(raw, ctx, docs, how)
		setOrder(1)
		x.schemaBody(raw, ctx, docs, how)
		setOrder(0)
	})
}

// kw is a keyword with a value.
type kw struct {
	k string
	v J
}

func kws(s ...string) []kw {
	var out []kw
	for _, e := range s {
		k, v, _ := strings.Cut(e, ":")
		out = append(out, kw{k, js(v)})
	}
	return out
}

func schemaOf(types J, ks ...kw) M {
	m := M{}
	if types != nil {
		m["type"] = types
	}
	for _, e := range ks {
		m[e.k] = e.v
	}
	return m
}

var kwString = kws(`minLength:2`, `maxLength:3`, `pattern:"^a"`, `format:"ipv4"`, `format:"date-time"`, `format:"whatever"`)
var kwNumber = kws(`minimum:1`, `minimum:1.5`, `exclusiveMinimum:true`, `exclusiveMinimum:false`, `maximum:4`, `maximum:2.5`, `exclusiveMaximum:true`, `multipleOf:2`, `multipleOf:0.5`)
var kwArray = kws(`items:{"type":"number"}`, `items:[{"type":"string"},{"type":"number"}]`, `additionalItems:false`, `additionalItems:true`, `additionalItems:{"type":"boolean"}`, `minItems:2`, `maxItems:2`, `uniqueItems:true`, `uniqueItems:false`)
var kwObject = kws(`properties:{"a":{"type":"number"},"b":{"type":"string"}}`, `properties:{"ab":{}}`, `patternProperties:{"^a":{"type":"number"},"b$":{"type":["number","string"]}}`, `additionalProperties:false`, `additionalProperties:true`, `additionalProperties:{"type":"string"}`, `required:["a"]`, `required:["b","c"]`, `minProperties:2`, `maxProperties:2`, `dependencies:{"a":["b","c"],"ab":["a"]}`, `dependencies:{"b":{"maxProperties":2},"c":{"type":"object","required":["a"]}}`)
var kwAny = kws(`enum:[1,"a",null,true,[1],{"a":1},"abcd"]`, `enum:["abc","abcd",2,2.5]`, `enum:[false,{"a":1,"b":"s"}]`, `allOf:[{"type":["number","string"]},{"not":{"enum":[2,"abc"]}}]`, `allOf:[{"minLength":1},{"maxLength":3}]`, `anyOf:[{"type":"string"},{"minimum":2},{"required":["a"]}]`, `anyOf:[{"type":"array"}]`, `oneOf:[{"type":"number"},{"type":"integer"},{"maxLength":3},{"maxProperties":2}]`, `not:{"type":["null","boolean"]}`, `not:{"enum":["abc",1.5,[],{"a":1}]}`, `default:"abc"`, `title:"t"`)

// docs is a set of documents on both sides of all of the above.
func docs() []J {
	out := []J{nil, true, false,
		0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 4.5, -1.0, 1e9, 0.25,
		"", "a", "b", "ab", "abc", "abcd", "bcd", "1.2.3.4", "2016-01-02T03:04:05Z", "äöü", "aäöü", "1"}
	for _, s := range []string{`[]`, `[1]`, `["s"]`, `[1,1]`, `[1,2]`, `["s",1]`, `["s",1,true]`, `["s",1,"x"]`, `[1,2,3]`, `[1,2,1]`, `["s","s"]`, `[null]`, `[[1],[1]]`, `["s",1,true,false]`, `["s",1,true,true]`, `[1,"1"]`, `[true,1]`, `[{"a":1},{"a":1}]`, `[[],{}]`,
		`{}`, `{"a":1}`, `{"a":"s"}`, `{"a":null}`, `{"b":"s"}`, `{"b":1}`, `{"c":"s"}`, `{"c":1}`, `{"a":1,"b":"s"}`, `{"a":1,"c":"s"}`, `{"b":"s","c":"s"}`, `{"b":"s","c":1}`, `{"a":1,"b":"s","c":"s"}`, `{"a":1,"b":"s","c":1}`, `{"a":1,"b":1,"c":"s"}`, `{"ab":1}`, `{"ab":"s"}`, `{"ab":null}`, `{"a":1,"ab":1}`, `{"a":1,"b":"s","c":"s","ab":1}`, `{"a":1,"b":"s","c":"s","ab":"s"}`, `{"a":"1","b":"s","c":"s","ab":2}`, `{"ac":1}`, `{"ac":"s"}`, `{"cb":1}`, `{"cb":"s"}`, `{"cb":true}`, `{"x":{"a":1}}`, `{"x":"s","y":"s","z":"s"}`} {
		out = append(out, js(s))
	}
	return out
}

var _ = fmt.Sprint
