package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

// everyRune: each code point is one character, wherever it stands.
func (x *X) everyRune() {
	type lim struct {
		s    *Spec
		c    validator
		what string
	}
	var ls []lim
	for n := 0; n <= 4; n++ {
		for _, s := range []*Spec{strMin(n), strMax(n), {Kind: "string", MinLen: ip(n), MaxLen: ip(n)}, {Kind: "string", HasRx: true, Rx: fmt.Sprintf("(?s)^.{%d}$", n)}} {
			if x.thorough || n > 0 && n < 4 && (s.HasRx || s.MinLen != nil && s.MaxLen != nil) {
				ls = append(ls, lim{s, s.Validator(nil), s.String()})
			}
		}
	}
	const step = 0x2200
	for from := rune(0); from <= utf8.MaxRune; from += step {
		x.Case(func() string { return fmt.Sprintf("the characters from %U", from) }, func() {
			for r := from; r < from+step && r <= utf8.MaxRune; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				x.count("characters", 1)
				t := string(r)
				strs := []string{t, "a" + t, t + "a", t + t, "a" + t + "é", t + "\u0301"}
				if !x.thorough {
					strs = strs[:4]
				}
				for _, str := range strs {
					for _, l := range ls {
						n := utf8.RuneCountInString(str)
						ok := (l.s.MinLen == nil || n >= *l.s.MinLen) && (l.s.MaxLen == nil || n <= *l.s.MaxLen)
						if l.s.HasRx {
							ok = l.s.Rx == fmt.Sprintf("(?s)^.{%d}$", n)
						}
						x.States++
						x.expect(l.c, str, ok, func() string { return l.what })
					}
				}
				e := jsval.String().Enum(t, "a"+t)
				for _, str := range []string{t, "a" + t, t + "a", "a", ""} {
					x.expect(e, str, str == t || str == "a"+t, func() string { return fmt.Sprintf("String().Enum(%q, %q)", t, "a"+t) })
				}
			}
		})
	}
}

// keywordNames are names that mean something elsewhere.
var keywordNames = []string{"$ref", "$schema", "id", "$id", "type", "properties", "patternProperties", "additionalProperties", "required", "items", "additionalItems", "definitions", "default", "enum", "format", "pattern", "not", "allOf", "anyOf", "oneOf", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "dependencies", "title", "description", "links", "media", "readOnly", "__proto__", "constructor", "toString", "Name", "json", "V", "M", "R0", "init", "_", "-", "#", "*", ".", "..", "a.b", "a/b", "~0", "~1", "%25", "", " ", "0", "-1", "null", "true", "nil", "object", "string", "\u00e9", "\u65e5", "\x00", "\n", "\t", "\ufeff", "\u2028", "\"", "\\", "`", "'", "A", "a"}

// keywordProps: properties whose names mean something elsewhere are
// properties like any other.
func (x *X) keywordProps() {
	for _, n := range keywordNames {
		str, num := M{"type": "string"}, M{"type": "number"}
		var raws []M
		for _, ap := range []J{nil, false, num} {
			for _, t := range []J{"object", nil} {
				base := func(m M) {
					if t != nil {
						m["type"] = t
					}
					if ap != nil {
						m["additionalProperties"] = ap
					}
					raws = append(raws, m)
				}
				base(M{"properties": M{n: str}})
				base(M{"properties": M{n: str, "zz": num}})
				base(M{"properties": M{n: str, "zz": num, "yy": M{}}})
				base(M{"properties": M{n: M{"type": "object", "properties": M{n: str}}}})
				base(M{"required": L{n}})
				base(M{"required": L{n, "zz"}, "properties": M{"zz": num}})
				base(M{"dependencies": M{n: L{"zz"}}})
				base(M{"dependencies": M{"zz": L{n}}})
				base(M{"dependencies": M{n: M{"required": L{"zz"}}}})
				base(M{"properties": M{n: M{"type": "string", "minLength": 1.0}}, "patternProperties": M{"": num}})
			}
		}
		raws = append(raws, M{"definitions": M{n: str}, "type": "string"}, M{"enum": L{M{n: 1.0}, n}}, M{"anyOf": L{M{"properties": M{n: str}, "required": L{n}}, num}}, M{"not": M{"required": L{n}}}, M{"items": M{"properties": M{n: str}}})
		ds := []J{M{}, M{n: "s"}, M{n: 1.0}, M{n: ""}, M{n: nil}, M{"zz": 1.0}, M{"zz": "s"}, M{n: "s", "zz": 1.0}, M{n: 1.0, "zz": 1.0}, M{n: "s", "zz": "s"}, M{n: "s", "yy": 1.0, "zz": 1.0}, M{n: M{n: "s"}}, M{n: M{n: 1.0}}, M{n: M{"zz": 1.0}}, L{M{n: 1.0}}, L{M{n: "s"}}, n, "s", 1.0, nil}
		x.schemaGroup(fmt.Sprintf("properties named %q", n), raws, ds)
	}
}

// selfReferences: a reference to the whole schema or to a definition, at
// every place, beside other keywords.
func (x *X) selfReferences() {
	var raws []M
	for _, to := range []string{"#", "#/definitions/d"} {
		r := M{"$ref": to}
		places := []func(m M){
			func(m M) { m["not"] = r },
			func(m M) { m["not"] = M{"not": r} },
			func(m M) { m["allOf"] = L{r} },
			func(m M) { m["allOf"] = L{r, M{"type": L{"string", "array", "object"}}} },
			func(m M) { m["anyOf"] = L{M{"type": "string"}, r} },
			func(m M) { m["oneOf"] = L{M{"type": "string"}, r} },
			func(m M) { m["oneOf"] = L{r, r} },
			func(m M) { m["items"] = r },
			func(m M) { m["items"] = L{r} },
			func(m M) { m["items"] = L{M{}}; m["additionalItems"] = r },
			func(m M) { m["properties"] = M{"a": r} },
			func(m M) { m["patternProperties"] = M{"^a": r} },
			func(m M) { m["additionalProperties"] = r },
			func(m M) { m["dependencies"] = M{"a": r} },
		}
		sides := []func(m M){
			func(m M) {},
			func(m M) { m["type"] = "array" },
			func(m M) { m["type"] = "object" },
			func(m M) { m["type"] = "string" },
			func(m M) { m["type"] = L{"string", "array"} },
			func(m M) { m["type"] = L{"object", "null"} },
			func(m M) { m["type"] = "string"; m["minLength"] = 1.0 },
			func(m M) { m["type"] = "array"; m["minItems"] = 1.0 },
			func(m M) { m["minItems"] = 1.0 },
			func(m M) { m["required"] = L{"a"} },
			func(m M) { m["enum"] = L{"s", L{}, M{}, L{L{}}} },
			func(m M) { m["type"] = L{"string", "array"}; m["enum"] = L{"s", L{}, L{L{}}} },
			func(m M) { m["not"] = M{"type": "string"} },
			func(m M) { m["description"] = "described" },
		}
		for _, p := range places {
			for _, s := range sides {
				inner := M{}
				s(inner)
				p(inner)
				for _, outer := range []M{
					{"type": "array", "items": inner},
					{"type": "object", "additionalProperties": inner},
					{"type": L{"array", "string"}, "items": L{inner}, "additionalItems": false},
				} {
					m := cpJ(outer).(M)
					m["definitions"] = M{"d": M{"type": "array", "maxItems": 1.0}}
					raws = append(raws, m)
				}
			}
		}
	}
	ds := []J{nil, "s", "", 1.0, true, L{}, M{}, L{nil}, L{"s"}, L{""}, L{1.0}, L{L{}}, L{M{}}, L{L{"s"}}, L{L{L{}}}, L{L{L{}, "s"}}, L{L{1.0, 2.0}}, L{M{"a": "s"}}, L{M{"a": L{}}}, L{M{"a": M{}}}, L{L{"s", L{}}}, M{"k": "s"}, M{"k": L{}}, M{"k": M{}}, M{"k": M{"a": "s"}}, M{"k": M{"a": M{}}}, M{"k": M{"a": L{}}}, M{"k": L{L{}}}, M{"k": nil}, M{"a": 1.0}, L{L{nil}}, L{M{"a": L{L{}}}}}
	x.schemaGroup("references beside other keywords", raws, ds)
}

// guessedNumbers: enumerations of numbers of every magnitude, in any order.
func (x *X) guessedNumbers() {
	nums := []J{0.0, 1.0, -1.0, 0.5, -0.5, 1e-300, 1e15, 1e15 + 0.5, 4503599627370497.5, 9007199254740992.0, 9007199254740994.0, -9007199254740994.0, 1e19, 1e21, 1e300, -1e300, 1.7976931348623157e308, 255.0, 256.5, 2147483648.0, 4294967296.0, 9223372036854775808.0}
	others := []J{"s", true, nil, L{}, M{}, L{1.0}, M{"a": 0.5}}
	var raws []M
	for _, a := range nums {
		raws = append(raws, M{"enum": L{a}})
		for _, b := range nums {
			if a != b {
				raws = append(raws, M{"enum": L{a, b}})
			}
		}
		for _, o := range others {
			raws = append(raws, M{"enum": L{a, o}}, M{"enum": L{o, a}}, M{"enum": L{o, a, 0.25}}, M{"enum": L{a, o, 0.25}})
		}
		for _, k := range []string{"minimum", "maximum"} {
			raws = append(raws, M{"enum": L{a, 0.25}, k: 0.0}, M{"enum": L{0.25, a}, k: 0.5}, M{"enum": L{a, 0.25}, k: a})
		}
	}
	x.schemaGroup("enumerations of numbers of every magnitude", raws, append(append([]J{0.25, 0.75, 2.0, 1e299}, nums...), others...))
}

// untouched: validation leaves what it is given as it is, whatever the
// number of enumerated values, elements or properties.
func (x *X) untouched() {
	lists := []J{L{"b", "a"}, L{"b", "a", "c", "a"}, L{3.0, 1.0, 2.0}, L{true, nil, "x", 1.0}, L{L{"b", "a"}, L{2.0, 1.0}}, L{M{"b": L{2.0, 1.0}, "a": 1.0}}, M{"b": L{"z", "y"}, "a": M{"l": L{3.0, 2.0}}}, L{" b ", "A", "a"}, L{0.1, 1e300, -0.5}}
	for n := 0; n <= 70; n++ {
		x.Case(func() string { return fmt.Sprintf("the value given is left alone, among %d others", n) }, func() {
			var fill []J
			for i := 0; i < n; i++ {
				fill = append(fill, fmt.Sprint("m", i))
			}
			for _, v := range lists {
				specs := []*Spec{
					enum(append(append([]J{}, fill...), v)...),
					enum(append([]J{v}, fill...)...),
					enum(append(append([]J{}, fill...), v, v)...),
					{Kind: "array", Unique: true},
					{Kind: "array", Unique: true, Items: not(enum(fill...))},
					{Kind: "object", AddProps: enum(append(append([]J{}, fill...), L{"z", "y"}, M{"l": L{3.0, 2.0}})...)},
				}
				big := append(append(L{}, fill...), v)
				wide := M{"v": v}
				for i, f := range fill {
					wide[fmt.Sprint("k", n-i)] = f
				}
				for _, s := range specs {
					c := s.Validator(nil)
					x.Traces++
					for _, val := range []J{v, big, wide, L{v, v}} {
						in := cpJ(val)
						want := s.Eval(nil, val)
						for k := 0; k < 3; k++ {
							x.States++
							x.expect(c, in, want, func() string { return s.String() })
							if !reflect.DeepEqual(in, cpJ(val)) {
								Failf("%s turns %s into %s", trim(s.String(), 300), trim(show(val), 300), trim(show(in), 300))
							}
						}
					}
				}
			}
		})
	}
}

// ownAndFields has fields of the names for which it gives other values.
type ownAndFields struct {
	A interface{} `json:"a"`
	B interface{} `json:"b"`
	o M
}

func (o ownAndFields) GetPropNames() ([]string, error) {
	l := []string{}
	for _, n := range []string{"a", "b", "c"} {
		if _, ok := o.o[n]; ok {
			l = append(l, n)
		}
	}
	return l, nil
}
func (o ownAndFields) GetPropValue(n string) (interface{}, error) {
	v, ok := o.o[n]
	if !ok {
		return nil, fmt.Errorf("no %s", n)
	}
	return v, nil
}

// ownValues: a struct that supplies its own values is judged by those and
// not by fields of the same names.
func (x *X) ownValues() {
	vals := []J{nil, "", "s", 0.0, 1.0, false, true, L{}, M{}, L(nil), M(nil)}
	specs := []*Spec{sNull, sStr, sNum, sBool, arr(nil), {Kind: "object"}, sEmpty, not(sNull), not(sStr), strMin(1), any_(sNull, sNum)}
	for _, fa := range []J{nil, "s", 1.0, false, L{}} {
		for _, va := range vals {
			x.Case(func() string { return fmt.Sprintf("a struct with the field %v that says it is %v", show(fa), show(va)) }, func() {
				for _, vb := range append([]J{absent{}}, vals...) {
					o := M{"a": va, "c": va}
					if _, no := vb.(absent); !no {
						o["b"] = vb
					}
					v := ownAndFields{fa, fa, o}
					for _, s := range specs {
						for _, sp := range []*Spec{
							{Kind: "object", Pats: []Prop{{"", s}}},
							{Kind: "object", AddProps: s},
							{Kind: "object", AddProps: s, MaxProps: ip(2)},
							{Kind: "object", AddProps: s, Required: []string{"b"}},
							{Kind: "object", AddProps: s, PropDeps: []Dep{{"a", []string{"b"}}}},
							{Kind: "object", Pats: []Prop{{"a", s}, {"b", sEmpty}}, AddProps: sEmpty},
						} {
							c := sp.Validator(nil)
							x.Traces++
							x.States++
							want := sp.Eval(nil, o)
							x.expect(c, v, want, func() string { return sp.String() + " on a struct that says it is " + show(o) })
							x.expect(c, &v, want, func() string { return sp.String() + " on a pointer to a struct that says it is " + show(o) })
						}
					}
				}
			})
		}
	}
}

type absent struct{}

// refSets: validators with up to three registered constraints and roots
// that are, refer to, or have nothing to do with them.
func (x *X) refSets() {
	names := []string{"#", "", "#/definitions/a", "#/", "a", "V", "M", "R0", "*"}
	bodies := []*Spec{sStr, sNum, numMin(2), arr(nil)}
	x.Case(func() string { return "registered constraints and roots" }, func() {
		for i := range names {
			for k := 1; k <= 3; k++ {
				env := Env{}
				for j := 0; j < k; j++ {
					env[names[(i+j)%len(names)]] = bodies[(i+j)%len(bodies)]
				}
				roots := []*Spec{sBool, sEmpty, sNull, strMin(3), any_(sBool, sNull), arr(sBool)}
				for j := 0; j < k; j++ {
					n := names[(i+j)%len(names)]
					roots = append(roots, ref(n), env[n], any_(ref(n), sBool), arr(ref(n)), not(ref(n)), &Spec{Kind: "object", AddProps: ref(n)})
				}
				for _, s := range roots {
					x.genCheck(makeSet("a validator with registered constraints", []*Spec{s}, env, true))
					x.genCheck(makeSet("a validator with registered constraints", []*Spec{s}, env, false))
				}
			}
		}
	})
	// the root is the very constraint that is registered
	x.Case(func() string { return "roots that are registered themselves" }, func() {
		for _, n := range names {
			for _, s := range bodies {
				for _, other := range []*Spec{nil, sBool} {
					v := jsval.New().SetName("Foo")
					c := s.Build(v)
					v.SetReference(n, c)
					v.SetRoot(c)
					if other != nil {
						v.SetReference("other", other.Build(v))
					}
					code, err := genCode(v)
					if err != nil {
						Failf("%s registered as %q and set as the root: %v", s, n, err)
					}
					vs, ok, err := runCode(code)
					if !ok || err != nil || vs["Foo"] == nil {
						Failf("%s registered as %q and set as the root: %v, %v\n%s", s, n, ok, err, code)
					}
					x.Traces++
					for _, d := range []J{nil, "s", 1.0, 3.0, true, L{}, M{}} {
						x.States++
						x.expect(vs["Foo"], d, s.Eval(nil, d), func() string { return fmt.Sprintf("%s registered as %q and set as the root", s, n) })
					}
				}
			}
		}
	})
}

// anyOrder: named validators give the same code in whatever order they are
// passed.
func (x *X) anyOrder() {
	mk := func(name string, i int) *jsval.JSVal {
		v := jsval.New().SetName(name)
		switch i % 3 {
		case 0:
			v.SetRoot(jsval.String().MinLength(i))
		case 1:
			v.SetReference("#/shared", jsval.Boolean())
			v.SetRoot(jsval.Reference(v).RefersTo("#/shared"))
		default:
			v.SetReference(fmt.Sprint("#/", i), jsval.Number().Minimum(float64(i)))
			v.SetRoot(jsval.Array().Items(jsval.Reference(v).RefersTo(fmt.Sprint("#/", i))))
		}
		return v
	}
	run := func(names []string, perm []int, want *string) {
		var l []*jsval.JSVal
		for _, p := range perm {
			l = append(l, mk(names[p], p))
		}
		code, err := genCode(l...)
		if err != nil {
			Failf("validators %v: %v", names, err)
		}
		x.Traces++
		x.States++
		if *want == "" {
			*want = code
		} else if *want != code {
			var order []string
			for _, p := range perm {
				order = append(order, names[p])
			}
			Failf("validators in the order %v give other code than in the order %v", order, names)
		}
	}
	for _, fam := range [][]string{{"A", "B", "C", "D", "E"}, {"Va", "Vb", "Vab", "VA", "V"}, {"V1", "V10", "V2", "V02", "V9"}, {"Foo", "foo", "FOO", "Foo_", "Foo0"}, {"É", "E", "é", "日", "Z"}} {
		x.Case(func() string { return fmt.Sprintf("all orders of %v", fam) }, func() {
			for n := 2; n <= 5; n++ {
				want := ""
				permsN(n, func(p []int) { run(fam, p, &want) })
			}
		})
	}
	for _, n := range []int{6, 11, 12, 13, 14, 20, 33, 50} {
		x.Case(func() string { return fmt.Sprintf("%d validators in many orders", n) }, func() {
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, fmt.Sprintf("%s%02d", strings.Repeat("V", 1+i%2), i))
			}
			want := ""
			id := make([]int, n)
			for i := range id {
				id[i] = i
			}
			run(names, id, &want)
			for r := 1; r < n; r++ { // rotations, reversed rotations and exchanges
				rot, rev, sw := make([]int, n), make([]int, n), append([]int{}, id...)
				for i := range id {
					rot[i], rev[n-1-i] = (i+r)%n, (i+r)%n
				}
				sw[0], sw[r] = sw[r], sw[0]
				run(names, rot, &want)
				run(names, rev, &want)
				run(names, sw, &want)
			}
		})
	}
}

func permsN(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// badTypes: a schema object with a type that is none of JSON's cannot be
// built, wherever it stands.
func (x *X) badTypes() {
	type S = schema.Schema
	obj := func() *S { s := schema.New(); s.Type = schema.PrimitiveTypes{schema.ObjectType}; return s }
	array := func() *S { s := schema.New(); s.Type = schema.PrimitiveTypes{schema.ArrayType}; return s }
	str := func() *S { s := schema.New(); s.Type = schema.PrimitiveTypes{schema.StringType}; return s }
	places := []struct {
		name string
		in   func(b *S) *S
	}{
		{"itself", func(b *S) *S { return b }},
		{"not", func(b *S) *S { s := schema.New(); s.Not = b; return s }},
		{"not beside a type", func(b *S) *S { s := str(); s.Not = b; return s }},
		{"allOf", func(b *S) *S { s := schema.New(); s.AllOf = schema.SchemaList{str(), b}; return s }},
		{"anyOf", func(b *S) *S { s := schema.New(); s.AnyOf = schema.SchemaList{str(), b}; return s }},
		{"oneOf", func(b *S) *S { s := str(); s.OneOf = schema.SchemaList{b, str()}; return s }},
		{"items", func(b *S) *S { s := array(); s.Items = &schema.ItemSpec{Schemas: schema.SchemaList{b}}; return s }},
		{"the first of two items", func(b *S) *S {
			s := array()
			s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{b, str()}}
			return s
		}},
		{"the last of two items", func(b *S) *S {
			s := array()
			s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{str(), b}}
			return s
		}},
		{"additionalItems", func(b *S) *S {
			s := array()
			s.Items = &schema.ItemSpec{TupleMode: true, Schemas: schema.SchemaList{str()}}
			s.AdditionalItems = &schema.AdditionalItems{Schema: b}
			return s
		}},
		{"properties", func(b *S) *S { s := obj(); s.Properties = map[string]*S{"a": str(), "b": b, "c": str()}; return s }},
		{"patternProperties", func(b *S) *S {
			s := obj()
			s.PatternProperties = map[*regexp.Regexp]*S{regexp.MustCompile("a"): b, regexp.MustCompile("b"): str()}
			return s
		}},
		{"additionalProperties", func(b *S) *S {
			s := obj()
			s.AdditionalProperties = &schema.AdditionalProperties{Schema: b}
			return s
		}},
		{"dependencies", func(b *S) *S {
			s := obj()
			s.Dependencies.Schemas = map[string]*S{"a": b, "b": obj()}
			return s
		}},
		{"a definition that is referred to", func(b *S) *S {
			r := schema.New()
			r.Reference = "#/definitions/d"
			s := obj()
			s.Properties = map[string]*S{"a": str(), "r": r}
			s.Definitions = map[string]*S{"d": b}
			return s
		}},
	}
	bads := []schema.PrimitiveTypes{{schema.PrimitiveType(42)}, {schema.UnspecifiedType}, {schema.StringType, schema.PrimitiveType(42)}, {schema.PrimitiveType(-1), schema.ObjectType, schema.ArrayType}}
	for _, outer := range places {
		for _, inner := range places {
			if inner.name == places[len(places)-1].name && outer.name != "itself" {
				continue // references are looked up in the whole schema
			}
			x.Case(func() string { return fmt.Sprintf("an unknown type in %s, in %s", inner.name, outer.name) }, func() {
				for _, t := range bads {
					for o := 0; o < 4; o++ {
						setOrder(o)
						b := schema.New()
						b.Type = t
						s := outer.in(inner.in(b))
						x.Traces++
						x.States++
						v, err := builder.New().Build(s)
						if err == nil {
							Failf("building succeeds though a type is %v", t)
						}
						if v != nil || err.Error() == "" {
							Failf("a validator besides the error %q", err)
						}
					}
					b := str()
					if _, err := builder.New().Build(outer.in(inner.in(b))); err != nil {
						Failf("with a known type, building fails: %v", err)
					}
				}
			})
		}
	}
}

// unprintable: values that no Go expression stands for are reported,
// wherever they are.
func (x *X) unprintable() {
	type C = jsval.Constraint
	places := []struct {
		name string
		in   func(c C) C
	}{
		{"the root", func(c C) C { return c }},
		{"items", func(c C) C { return jsval.Array().Items(c) }},
		{"a positional item", func(c C) C { return jsval.Array().PositionalItems([]C{jsval.String(), c, jsval.Number()}) }},
		{"additional items", func(c C) C { return jsval.Array().PositionalItems([]C{jsval.String()}).AdditionalItems(c) }},
		{"a property", func(c C) C {
			return jsval.Object().AddProp("a", jsval.String()).AddProp("b", c).AddProp("c", jsval.String())
		}},
		{"a pattern", func(c C) C {
			return jsval.Object().PatternPropertiesString("a", c).PatternPropertiesString("b", jsval.String())
		}},
		{"additional properties", func(c C) C { return jsval.Object().AdditionalProperties(c) }},
		{"a dependency", func(c C) C { return jsval.Object().SchemaDependency("a", c).SchemaDependency("b", jsval.Object()) }},
		{"any", func(c C) C { return jsval.Any().Add(jsval.String()).Add(c) }},
		{"all", func(c C) C { return jsval.All().Add(c).Add(jsval.String()) }},
		{"one of", func(c C) C { return jsval.OneOf().Add(c).Add(jsval.String()) }},
		{"not", func(c C) C { return jsval.Not(c) }},
	}
	for _, bad := range []J{make(chan int), struct{ A int }{1}, &struct{}{}, namedString("x"), complex(1, 2), map[int]int{1: 1}, [2]int{1, 2}} {
		lists := [][]J{{bad}, {nil, bad}, {bad, nil}, {nil, bad, nil}, {L{bad}}, {M{"k": bad}}, {L{1.0, M{"k": L{bad}}}, nil}}
		leaves := []struct {
			name string
			mk   func(l []J) C
		}{
			{"Enum", func(l []J) C { return jsval.Enum(l...) }},
			{"String().Enum", func(l []J) C { return jsval.String().Enum(l...) }},
			{"Number().Enum", func(l []J) C { return jsval.Number().Enum(l...) }},
			{"Integer().Enum", func(l []J) C { return jsval.Integer().Enum(l...) }},
			{"Boolean().Enum", func(l []J) C { return jsval.Boolean().Enum(l...) }},
			{"String().Default", func(l []J) C { return jsval.String().Default(l[0]) }},
			{"Number().Default", func(l []J) C { return jsval.Number().Default(l[len(l)-1]) }},
			{"Integer().Default", func(l []J) C { return jsval.Integer().Default(l[0]) }},
		}
		for _, lf := range leaves {
			x.Case(func() string { return fmt.Sprintf("%T given to %s", bad, lf.name) }, func() {
				for i, l := range lists {
					if strings.HasSuffix(lf.name, "Default") && i > 0 {
						break
					}
					for _, p := range places {
						for o := 0; o < 4; o++ {
							setOrder(o)
							v := jsval.New()
							c := p.in(lf.mk(l))
							if o%2 == 0 {
								v.SetRoot(c)
							} else {
								v.SetReference("r", c)
								v.SetRoot(jsval.Reference(v).RefersTo("r"))
							}
							f := &faulty{quota: 1 << 30}
							err := jsval.NewGenerator().Process(f, jsval.New().SetName("A").SetRoot(jsval.String()), v, jsval.New().SetName("Z").SetRoot(jsval.String()))
							x.Traces++
							x.States++
							if err == nil {
								Failf("in %s, with %s: no error, but the code\n%s", p.name, show(l), trim(f.got.String(), 1500))
							}
							msg(err)
							if f.got.Len() > 0 {
								Failf("in %s: the error %s, and %d bytes of code", p.name, safeError(err), f.got.Len())
							}
						}
					}
				}
			})
		}
	}
}
