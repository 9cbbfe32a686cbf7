package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/lestrrat-go/jsval"
)

// oddNames are quadruples of property names that are easily confused with
// each other or with something else.
func oddNames() [][4]string {
	long := repeat("long", 75)
	return [][4]string{
		{"", "a", "b", "c"}, {"a", "", "b", " "}, {"b", "a", "", "x"},
		{"a", "A", "b", "B"}, {"É", "é", "E", "e"}, {"ſ", "s", "S", "k"}, {"K", "k", "\u212a", "x"},
		{" ", "  ", "\t", "a "}, {"a", " a", "a ", "a\x00"}, {"\x00", "\x00\x00", "", "\n"},
		{"a", "aa", "aaa", "ab"}, {"aaa", "aa", "a", ""}, {"a.b", "a", "b", "a.b.c"}, {"a/b", "a~1b", "a~0b", "a"}, {"0", "00", "1", "-1"},
		{"$ref", "type", "id", "properties"}, {"required", "default", "enum", "$schema"}, {"é", "e\u0301", "e", "\u0301"},
		{long, long + "x", long[1:], "l"}, {"%s", "%d", "%!s(MISSING)", "%%"}, {"a\"b", "a'b", "a`b", "a\\b"}, {"\n", "\r\n", "\r", "\\n"},
		{"-", "_", "-,", ","}, {"日本", "日", "本", "日本語"}, {"\u2028", "\u2029", "\ufeff", "\ufffd"}, {"null", "true", "false", "nil"},
		{"__proto__", "constructor", "length", "toString"}, {"a[0]", "a", "[0]", "0"}, {"*", "?", ".", "^a"}, {"𝒳", "𝒴", "\U0010ffff", "X"},
	}
}

// oddFeatures: object features under every quadruple of odd names. The
// property constraints may be given.
func oddFeatures(props [][4]*Spec, each func(names [4]string, specs []*Spec, docs []J)) {
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	if props == nil {
		props = [][4]*Spec{{}, {sNum}, {sEmpty, sStr}, {nil, not(sNull), sNum}}
	}
	type mm struct{ min, max *int }
	for _, n := range oddNames() {
		var specs []*Spec
		q := regexp.QuoteMeta
		for _, pr := range props {
			var ps []Prop
			for i, c := range pr {
				if c != nil {
					ps = append(ps, Prop{n[i], c})
				}
			}
			for _, pt := range [][]Prop{nil, {{"^" + q(n[0]) + "$", sEmpty}}, {{"^(" + q(n[1]) + "|" + q(n[2]) + ")$", not(sStr)}}} {
				for _, rq := range [][]string{nil, {n[0]}, {n[1], n[2]}} {
					for _, ad := range []*Spec{nil, sNum, sEmpty} {
						for _, l := range []mm{{nil, nil}, {ip(2), ip(2)}} {
							for _, pd := range [][]Dep{nil, {{n[0], []string{n[1]}}}, {{n[1], []string{n[0], n[2]}}, {n[2], []string{n[3]}}}} {
								for _, sd := range [][]Prop{nil, {{n[0], open(func(s *Spec) { s.Required = []string{n[2]} })}, {n[1], open(func(s *Spec) { s.Props = []Prop{{n[0], sNum}} })}}} {
									specs = append(specs, &Spec{Kind: "object", Props: ps, Pats: pt, Required: rq, AddProps: ad, MinProps: l.min, MaxProps: l.max, PropDeps: pd, SchemaDeps: sd})
								}
							}
						}
					}
				}
			}
		}
		docs := presence(n[:3], []J{1.0, "s"})
		docs = append(docs, M{n[3]: 1.0}, M{n[3]: "s"}, M{n[0]: 1.0, n[3]: 1.0}, M{n[1]: nil, n[3]: "s", n[2]: 1.0}, M{n[0]: "s", n[1]: "s", n[2]: "s", n[3]: "s"}, M{n[0]: nil})
		each(n, specs, docs)
	}
}

// oddlyNamed checks all these.
func (x *X) oddlyNamed() {
	oddFeatures(nil, func(n [4]string, specs []*Spec, docs []J) {
		for i := 0; i < len(specs); i += 36 {
			x.Case(func() string { return fmt.Sprintf("properties named %q, such as %s", n, specs[i]) }, func() {
				for _, s := range specs[i:min(i+36, len(specs))] {
					x.gridBody(s, nil, docs, s.Validator(nil))
				}
			})
		}
	})
}

// twinPatterns are expressions that resemble each other.
func twinPatterns() [][]string {
	return [][]string{
		{`\d`, `\D`}, {`\s`, `\S`}, {`\w`, `\W`}, {`\b`, `\B`}, {`^a`, `^A`}, {`a`, `(?i)a`, `(?i)A`}, {`a.b`, `a\.b`}, {`(?s)a.b`, `(?s)A.B`}, {`a.b`, `(?s)a.b`, `(?m)a.b`},
		{`^a$`, `^a`, `a$`, `a`}, {`^a$`, `(?m)^a$`, `\Aa\z`}, {`a b`, `a  b`, `ab`}, {` a`, `a `, `a`}, {`a|b`, `b|a`, `a`, `b`}, {`^(a|b)$`, `^a|b$`}, {`[a-z]`, `[A-Z]`, `[^a-z]`}, {`a*`, `a+`, `a?`, `a{2}`}, {``, `^$`, `.`}, {`[ab]`, `[a]b`}, {`é`, "e\u0301", `e`}, {`\x41`, `\x61`}, {`\pL`, `\PL`}, {`\Qa.b\E`, `a.b`}, {`a//b`, `a/b`, `/a/b/`},
		{`^` + repeat("a", 70) + `$`, `^` + repeat("a", 71) + `$`, `^` + repeat("a", 69) + `b$`}, {repeat("b", 40) + `x`, repeat("b", 40) + `X`, `x` + repeat("b", 40)}, {"a\nb", "a\rb", "a b", `a\nb`},
	}
}

func twinStrings() []J {
	out := toJ(stringsOver([]string{"a", "A", "b", ".", " ", "1"}, 3))
	return append(out, toJ([]string{"é", "e\u0301", "a\nb", "A\nB", "a\rb", "a  b", "x\na\ny", "_", "\t", "a/b", "a//b", "/a/b/", repeat("a", 69), repeat("a", 70), repeat("a", 71), repeat("a", 69) + "b", repeat("b", 40) + "x", repeat("b", 40) + "X", "x" + repeat("b", 40), "1.1", "-", "日"})...)
}

// twins: constraints with patterns that resemble each other live side by
// side, made in every order.
func (x *X) twins(strs bool) {
	var all []string
	vals := twinStrings()
	if !strs {
		for i, v := range vals {
			vals[i] = M{v.(string): 1.0}
		}
		vals = append(vals, M{"a": 1.0, "A": 1.0}, M{"a": 1.0, "b": "s"}, M{})
	}
	mk := func(p string) *Spec {
		if strs {
			return strRx(p)
		}
		return &Spec{Kind: "object", Pats: []Prop{{p, sNum}}}
	}
	group := func(ps []string) {
		x.Case(func() string { return fmt.Sprintf("patterns %q side by side", ps) }, func() {
			var vs []*jsval.JSVal
			var specs []*Spec
			for _, p := range ps {
				s := mk(p)
				specs = append(specs, s)
				vs = append(vs, s.Validator(nil))
			}
			for round := 0; round < 2; round++ {
				for i := range vs {
					x.gridBody(specs[i], nil, vals, vs[i])
				}
			}
			// all in one constraint
			for _, s := range []*Spec{all_(specs), any_(specs...), oneof(specs...)} {
				x.gridBody(s, nil, vals, s.Validator(nil))
			}
			if !strs {
				s := &Spec{Kind: "object"}
				for i, p := range ps {
					s.Pats = append(s.Pats, Prop{p, []*Spec{sNum, sStr, sEmpty}[i%3]})
				}
				x.gridBody(s, nil, vals, s.Validator(nil))
			}
		})
	}
	for _, ps := range twinPatterns() {
		all = append(all, ps...)
		perms(ps, group)
	}
	group(all)
	for i := range all[:len(all)/2] {
		all[i], all[len(all)-1-i] = all[len(all)-1-i], all[i]
	}
	group(all)
}

func all_(s []*Spec) *Spec { return all(s...) }

// perms calls f with every permutation of a short list.
func perms(l []string, f func([]string)) {
	if len(l) == 0 {
		f(nil)
		return
	}
	for i := range l {
		rest := append(append([]string{}, l[:i]...), l[i+1:]...)
		perms(rest, func(r []string) { f(append([]string{l[i]}, r...)) })
	}
}

// pieces are strings put together from what has a meaning to some notation.
func pieces(n int) []string {
	return stringsOver([]string{"a", "\\", "`", "\"", "'", "\r", "\n", "\t", "\x00", "%", "é", "\ufffd", "\u2028", "$", "/", "{", "}", "*", "\x7f", "\U0001f600"}, n)
}

// awkward constraints carry such strings in every place.
func awkward(n int) []*Spec {
	var out []*Spec
	for _, p := range pieces(n) {
		q := regexp.QuoteMeta(p)
		out = append(out,
			strRx(q), strRx(`\d*`+q), strRx("^"+q+`\n?$`), &Spec{Kind: "object", Pats: []Prop{{`^\w?` + q, sNum}}},
			dstrObj(p), enum(p), &Spec{Kind: "string", HasEnum: true, Enum: []J{p, `\d` + p}}, &Spec{Kind: "string", Format: "x" + p},
			obj(Prop{p, sNum}), &Spec{Kind: "object", AddProps: sEmpty, Required: []string{p}}, &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{p, []string{"x" + p}}}},
			enum(M{p: p}, L{p + "`"}),
		)
	}
	return out
}

func dstrObj(d string) *Spec { return obj(Prop{"a", dstr(d)}) }

// awkwardDocs are what such a constraint tells apart.
func awkwardDocs(s *Spec) []J {
	var strs []string
	add := func(p string) {
		strs = append(strs, p, p+"x", "x"+p, strings.ReplaceAll(p, "\r", ""), strings.ReplaceAll(p, "\\", "\\\\"), strings.ToUpper(p), "1"+p, p+"\n")
	}
	for _, e := range s.Enum {
		if p, ok := e.(string); ok {
			add(p)
		}
	}
	if s.HasRx {
		add(unquoteMeta(s.Rx))
	}
	for _, p := range s.Required {
		add(p)
	}
	for _, p := range append(append([]Prop{}, s.Props...), s.Pats...) {
		add(unquoteMeta(p.Name))
	}
	for _, d := range s.PropDeps {
		add(d.From)
	}
	var out []J
	for _, t := range strs {
		out = append(out, t, M{t: 1.0}, M{t: t}, M{t: 1.0, "x" + t: 1.0}, L{t})
	}
	return append(out, M{}, "")
}

func unquoteMeta(p string) string {
	for _, k := range []string{`\d*`, `\w?`, `\n?$`, "^"} {
		p = strings.Replace(p, k, "", 1)
	}
	var b []byte
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' && i+1 < len(p) {
			i++
		}
		b = append(b, p[i])
	}
	return string(b)
}

// sweepNumbers are numbers of every shape.
func sweepNumbers() []float64 {
	out := []float64{0, math.Copysign(0, -1), 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1.1, 1.5, 2.5, 99.99, 123456.789, 16777217, 16777216.5, 1e-5, 1e-9, 1e-300, 5e-324, 1e15 + 0.5, 1e16, 1e17, 1e18, 1e20, 1e21, 1e22, 3.4028234663852886e38, 3.5e38, 1e100, math.MaxFloat64, math.Pi, math.MaxFloat32, math.SmallestNonzeroFloat32, 4294967295, 4294967296, 2147483647, 2147483648, 65535, 65536, 32768, 127, 128, 255, 256}
	for e := uint(1); e < 63; e++ {
		out = append(out, float64(int64(1)<<e))
		if e < 53 {
			out = append(out, float64(int64(1)<<e)+1, float64(int64(1)<<e)-1, float64(int64(1)<<e)-0.5)
		}
	}
	for _, f := range out[:len(out):len(out)] {
		out = append(out, -f)
	}
	return out
}

// c09numbers: what arrives is exactly the default, whatever takes it.
func c09numbers(x *X) {
	type fields struct {
		F jsval.MaybeFloat  `json:"f"`
		P *jsval.MaybeFloat `json:"p"`
	}
	type ints struct {
		I jsval.MaybeInt  `json:"i"`
		J *jsval.MaybeInt `json:"j"`
	}
	type uints struct {
		U jsval.MaybeUint  `json:"u"`
		V *jsval.MaybeUint `json:"v"`
	}
	x.Case(func() string { return "numeric defaults of every shape" }, func() {
		for _, f := range sweepNumbers() {
			defaults := []J{f}
			if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				defaults = append(defaults, int64(f), int(f))
				if math.Abs(f) < 1<<31 {
					defaults = append(defaults, int32(f))
				}
				if math.Abs(f) < 128 {
					defaults = append(defaults, int8(f), int16(f))
				}
				if f > 0 {
					defaults = append(defaults, uint64(f), uint(f))
				}
				if f > 0 && f < 256 {
					defaults = append(defaults, uint8(f), uint16(f), uint32(f))
				}
			}
			if math.Abs(f) <= math.MaxFloat32 && float64(float32(f)) == f {
				defaults = append(defaults, float32(f))
			}
			for _, d := range defaults {
				for _, mk := range []func(J) *Spec{dnum, dint} {
					o := func(names ...string) *jsval.JSVal {
						s := &Spec{Kind: "object", AddProps: sEmpty}
						for _, n := range names {
							s.Props = append(s.Props, Prop{n, mk(d)})
						}
						return s.Validator(nil)
					}
					how := func(t string) string { return fmt.Sprintf("default %T(%v) for %s", d, d, t) }
					x.Traces += 5
					x.States += 5
					m := M{}
					x.expect(o("a"), m, true, func() string { return how("a map") })
					if !reflect.DeepEqual(m, M{"a": d}) || math.Signbit(f) != math.Signbit(reflect.ValueOf(m["a"]).Convert(reflect.TypeOf(f)).Float()) && f != 0 {
						Failf("%s: the map afterwards is %#v", how("a map"), m)
					}
					if _, ok := d.(float64); ok {
						fm := map[string]float64{}
						x.expect(o("a"), fm, true, func() string { return how("a map of numbers") })
						if len(fm) != 1 || fm["a"] != f {
							Failf("%s: the map afterwards is %#v", how("a map of numbers"), fm)
						}
					}
					t := &fields{}
					x.expect(o("f", "p"), t, true, func() string { return how("MaybeFloat") })
					if !t.F.Valid() || t.F.Float != f || t.P == nil || !t.P.Valid() || t.P.Float != f {
						Failf("%s: the struct afterwards is %#v, %#v", how("MaybeFloat"), t, t.P)
					}
					whole := f == math.Trunc(f)
					i := &ints{}
					fits := whole && math.Abs(f) < 1<<63
					x.expect(o("i", "j"), i, fits, func() string { return how("MaybeInt") })
					if fits && (!i.I.Valid() || i.I.Int != int64(f) || i.J == nil || !i.J.Valid() || i.J.Int != int64(f)) {
						Failf("%s: the struct afterwards is %#v, %#v", how("MaybeInt"), i, i.J)
					}
					u := &uints{}
					fits = whole && f >= 0 && f < 1<<63
					x.expect(o("u", "v"), u, fits, func() string { return how("MaybeUint") })
					if fits && (!u.U.Valid() || u.U.Uint != uint64(f) || u.V == nil || !u.V.Valid() || u.V.Uint != uint64(f)) {
						Failf("%s: the struct afterwards is %#v, %#v", how("MaybeUint"), u, u.V)
					}
				}
			}
		}
	})
	type strs struct {
		S jsval.MaybeString  `json:"s"`
		P *jsval.MaybeString `json:"p"`
	}
	type bools struct {
		B jsval.MaybeBool  `json:"b"`
		P *jsval.MaybeBool `json:"p"`
	}
	x.Case(func() string { return "string and boolean defaults" }, func() {
		l := append(pieces(2), "0", "1", "true", "null", repeat("x", 5000), " ", "nil")
		for _, d := range l {
			s := &Spec{Kind: "object", Props: []Prop{{"s", dstr(d)}, {"p", dstr(d)}}, AddProps: sEmpty}
			v := s.Validator(nil)
			m, ms, t := M{}, map[string]string{"x": "y"}, &strs{}
			x.Traces += 3
			x.States += 3
			x.expect(v, m, true, s.String)
			x.expect(v, ms, true, s.String)
			x.expect(v, t, true, s.String)
			if !reflect.DeepEqual(m, M{"s": d, "p": d}) || !reflect.DeepEqual(ms, map[string]string{"x": "y", "s": d, "p": d}) || t.S != (jsval.MaybeString{ValidFlag: true, String: d}) || t.P == nil || *t.P != t.S {
				Failf("%s: afterwards %#v, %#v, %#v", s, m, ms, t)
			}
		}
		for _, d := range []bool{true, false} {
			s := &Spec{Kind: "object", Props: []Prop{{"b", dbool(d)}, {"p", dbool(d)}}, AddProps: sEmpty}
			m, t := M{}, &bools{}
			x.expect(s.Validator(nil), m, true, s.String)
			x.expect(s.Validator(nil), t, true, s.String)
			if !reflect.DeepEqual(m, M{"b": d, "p": d}) || t.B != (jsval.MaybeBool{ValidFlag: true, Bool: d}) || t.P == nil || *t.P != t.B {
				Failf("%s: afterwards %#v, %#v", s, m, t)
			}
		}
	})
}

// c15manyRefs: definitions in any number, referred to from all sides.
func c15manyRefs(x *X) {
	for _, n := range []int{1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000} {
		if n > 300 && !x.thorough {
			continue
		}
		x.Case(func() string { return fmt.Sprintf("%d definitions", n) }, func() {
			r := func(i int) M { return M{"$ref": fmt.Sprintf("#/definitions/d%d", i)} }
			chain, wide, ring, tree := M{}, M{}, M{}, M{}
			props, pats, full := M{}, M{}, M{}
			pos, list, anyof := L{}, L{}, L{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("d%d", i)
				chain[k] = r(i + 1)
				wide[k] = M{"enum": L{float64(i)}}
				ring[k] = M{"type": "object", "properties": M{"next": r((i + 1) % n), "v": M{"enum": L{float64(i)}}}, "additionalProperties": false}
				tree[k] = M{"type": "array", "items": M{"anyOf": L{r(2*i + 1), r(2*i + 2), M{"enum": L{float64(i)}}}}}
				props[k] = r(i)
				pats["^"+k+"$"] = r(i)
				pos = append(pos, r(i))
				anyof = append(anyof, r(i))
				full[k] = float64(i)
				list = append(list, float64(i))
			}
			chain[fmt.Sprintf("d%d", n)] = M{"type": "number", "minimum": 5.0}
			for i := n; i <= 2*n+2; i++ {
				tree[fmt.Sprintf("d%d", i)] = M{"enum": L{float64(i)}}
			}
			check := func(raw M, ds []J) {
				setOrder(n % 3)
				x.schemaBody(raw, raw, ds, func() string { return "schema " + text(raw) })
				setOrder(0)
			}
			objs := []J{full, M{}}
			lists := []J{list, L{}}
			nums := []J{"s", -1.0, float64(n), 0.5}
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1, n} {
				if i < 0 {
					continue
				}
				w := cpJ(full).(M)
				w[fmt.Sprintf("d%d", i)] = -1.0
				objs = append(objs, w, M{fmt.Sprintf("d%d", i): float64(i)}, M{fmt.Sprintf("d%d", i): float64(i + 1)})
				l := append(cpJ(list).(L), 1.0)
				l[i] = -2.0
				lists = append(lists, l[:n], l)
				nums = append(nums, float64(i))
			}
			ringDoc := func(depth, bad int) J {
				var d J = M{}
				for i := depth; i >= 0; i-- {
					v := float64(i % n)
					if i == bad {
						v = -1
					}
					d = M{"next": d, "v": v}
				}
				return d
			}
			deep := n
			if deep > 60 {
				deep = 60
			}
			check(M{"$ref": "#/definitions/d0", "definitions": chain}, []J{5.0, 4.0, "s", nil})
			check(M{"type": "object", "properties": M{"a": r(0), "b": r(n / 2), "c": r(n)}, "definitions": chain}, []J{M{"a": 5.0}, M{"a": 4.0}, M{"b": 5.0}, M{"b": "s"}, M{"c": 4.0}})
			check(M{"type": "object", "properties": props, "additionalProperties": false, "definitions": wide}, objs)
			check(M{"type": "object", "patternProperties": pats, "additionalProperties": false, "definitions": wide}, objs)
			check(M{"type": "array", "items": pos, "additionalItems": false, "definitions": wide}, lists)
			check(M{"anyOf": anyof, "definitions": wide}, nums)
			check(M{"type": "number", "oneOf": anyof, "definitions": wide}, nums)
			check(M{"$ref": "#/definitions/d0", "definitions": ring}, []J{ringDoc(deep, -1), ringDoc(deep, deep), ringDoc(deep, 0), ringDoc(deep+1, deep), 1.0})
			check(M{"$ref": "#/definitions/d0", "definitions": tree}, []J{L{0.0}, L{1.0}, L{L{1.0}}, L{L{1.0, L{3.0}}, L{2.0, L{5.0, L{11.0}}}}, L{L{L{L{L{0.0}}}}}, L{L{L{L{L{15.0}}}}}})
		})
	}
	// schemas in schemas
	for _, n := range []int{1, 10, 50, 64, 100, 128, 200, 256, 400} {
		x.Case(func() string { return fmt.Sprintf("schemas nested %d deep", n) }, func() {
			forms := []func(M) M{
				func(m M) M { return M{"not": m} },
				func(m M) M { return M{"allOf": L{m}} },
				func(m M) M { return M{"anyOf": L{M{"type": "null"}, m}} },
				func(m M) M { return M{"type": "array", "items": m} },
				func(m M) M { return M{"type": "object", "properties": M{"a": m}} },
				func(m M) M { return M{"type": "object", "additionalProperties": m} },
				func(m M) M { return M{"type": "array", "items": L{m}, "additionalItems": false} },
				func(m M) M { return M{"type": "object", "patternProperties": M{"^a$": m}} },
			}
			for k, f := range forms {
				raw := M{"type": "number"}
				good, bad := J(1.0), J("s")
				for i := 0; i < n; i++ {
					raw = f(raw)
					switch k {
					case 3, 6:
						good, bad = L{good}, L{bad}
					case 4, 5, 7:
						good, bad = M{"a": good}, M{"a": bad}
					}
				}
				x.schemaBody(raw, nil, []J{good, bad, nil, M{"a": 1.0}, L{1.0}}, func() string { return fmt.Sprintf("form %d nested %d deep", k, n) })
			}
		})
	}
}
