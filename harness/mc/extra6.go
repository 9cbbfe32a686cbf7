package main

import (
	"fmt"
	"math"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/server"
)

// limits that no document reaches
var hugeLimits = []int{0, 1, 2, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 40, 1 << 53, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64}

// hugeSpecs puts such limits everywhere.
func hugeSpecs(limits []int, each func(s *Spec, vals []J)) {
	strs := []J{"", "a", "ab", "abc", "日本", 1.0, nil}
	ls := []J{L{}, L{1.0}, L{1.0, 2.0}, L{1.0, 1.0}, L{1.0, 2.0, 3.0}, L{1.0, 2.0, 1.0}, []int{1, 2}, []int{2, 2}, L{"a", "a"}, "s", nil}
	ms := []J{M{}, M{"a": 1.0}, M{"a": 1.0, "b": 2.0}, M{"a": 1.0, "b": 2.0, "c": nil}, map[string]int{"x": 1}, plainStruct{A: "s"}, "s", nil}
	n := len(limits)
	for i := -1; i < n; i++ {
		for j := -1; j < n; j++ {
			var lo, hi *int
			if i >= 0 {
				lo = ip(limits[i])
			}
			if j >= 0 {
				hi = ip(limits[j])
			}
			each(&Spec{Kind: "string", MinLen: lo, MaxLen: hi}, strs)
			each(&Spec{Kind: "object", AddProps: sEmpty, MinProps: lo, MaxProps: hi}, ms)
			each(&Spec{Kind: "object", AddProps: sNum, MinProps: lo, MaxProps: hi, Props: []Prop{{"a", sNum}}, Required: []string{"a"}}, ms)
			for _, u := range []bool{false, true} {
				each(&Spec{Kind: "array", MinItems: lo, MaxItems: hi, Unique: u}, ls)
				each(&Spec{Kind: "array", MinItems: lo, MaxItems: hi, Unique: u, Items: sNum}, ls)
				each(&Spec{Kind: "array", MinItems: lo, MaxItems: hi, Unique: u, HasPos: true, Pos: []*Spec{sNum}, SetAddI: true, AddItems: sNum}, ls)
				each(&Spec{Kind: "array", MinItems: lo, MaxItems: hi, Unique: u, HasPos: true, Pos: []*Spec{sNum, sNum}, SetAddI: true}, ls)
			}
		}
	}
}

func (x *X) hugeVerdicts(kinds ...string) {
	hugeSpecs(hugeLimits, func(s *Spec, vals []J) {
		for _, k := range kinds {
			if k == s.Kind {
				x.grid(s, nil, vals)
			}
		}
	})
}

// c14limits: limits of any size and sign do no harm.
func c14limits(x *X) {
	hugeSpecs(append([]int{math.MinInt64, math.MinInt64 + 1, -1 << 40, math.MinInt32, -2, -1}, hugeLimits...), func(s *Spec, vals []J) {
		x.Case(func() string { return s.String() }, func() {
			c := s.Validator(nil)
			x.Traces++
			for _, v := range vals {
				x.States++
				x.Transitions++
				msg(c.Validate(v))
			}
		})
	})
	fs := []float64{0, math.Copysign(0, -1), math.SmallestNonzeroFloat64, 1e-300, 0.1, 1, -1, math.MaxInt64, math.MinInt64, math.MaxUint64, 1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	vals := []J{0.0, 1.0, -1.5, 1e300, -1e300, 5e-324, math.MaxFloat64, math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int8(-128), float32(0.1), math.NaN(), math.Inf(1), "s", nil}
	for _, a := range fs {
		x.Case(func() string { return fmt.Sprintf("numeric limits with %g", a) }, func() {
			for _, b := range fs {
				for m := 0; m < 12; m++ {
					s := &Spec{Kind: []string{"number", "integer"}[m&1], Min: fp(a), Max: fp(b), ExMin: m&2 != 0, ExMax: m&2 != 0}
					if m >= 4 {
						s.Max, s.Mult = nil, fp(b)
					}
					if m >= 8 {
						s.Min, s.HasEnum, s.Enum = nil, true, []J{a, b}
					}
					c := s.Validator(nil)
					x.Traces++
					for _, v := range vals {
						x.States++
						x.Transitions++
						msg(c.Validate(v))
					}
				}
			}
		})
	}
}

// tagNames: JSON names of every shape that encoding/json takes.
func tagNames(thorough bool) []string {
	alpha := []string{"a", "é", "日", "𝒳", " ", "-", ".", "/", "$", "ſ", "A"}
	n := 2
	if thorough {
		n = 3
	}
	return append(stringsOver(alpha, n), "abc", "éé日", "a é", "日本語", " a ", "  ", "a_b", "_", "omitempty", "string", "@type", "$ref", "{a}", "[0]", "a:b", "a;b", "<a>", "a|b", "~", "100%", "%d", "a=b", "a&b", "a?", "a!", "a*", "(a)", "a+b", "^a", strings.Repeat("é", 40), strings.Repeat("n", 300), "ï»¿", "İ", "K", "ǅ", "ß")
}

func c10tags(x *X) {
	opts := []string{"", ",", ",omitempty", ",omitempty,string", ", omitempty", ",omitempty ", ",,", ",é"}
	if !x.thorough {
		opts = opts[:5]
	}
	quote := func(s string) string { return strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) }
	for _, name := range tagNames(x.thorough) {
		x.Case(func() string { return fmt.Sprintf("the tag name %q", name) }, func() {
			x.count("tag names", 1)
			names := []string{"z"}
			for _, t := range []string{name, strings.TrimSpace(name), strings.ToLower(name), "Field"} {
				if t != "" && !contains("\x00"+strings.Join(names, "\x00")+"\x00", "\x00"+t+"\x00") {
					names = append(names, t)
				}
			}
			var specs []*Spec
			for _, s := range structSpecs(names) {
				if len(s.Pats) == 0 {
					specs = append(specs, s)
				}
			}
			for _, o := range opts {
				for form := 0; form < 4; form++ {
					tag := fmt.Sprintf([]string{`json:"%s"`, `xml:"q,attr" json:"%s"`, `json:"%s" yaml:"r"`, `validate:"json:x" json:"%s" bson:",inline"`}[form], quote(name+o))
					t := reflect.StructOf([]reflect.StructField{
						{Name: "Field", Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)},
						{Name: "Z", Type: reflect.TypeOf(jsval.MaybeInt{}), Tag: `json:"z"`}})
					var vals []J
					for m := 0; m < 2; m++ {
						v := reflect.New(t).Elem()
						if m == 1 {
							v.Field(0).SetString("s")
							v.Field(1).Set(reflect.ValueOf(mInt(1)))
						}
						vals = append(vals, v.Interface())
					}
					if form > 0 && o != opts[0] {
						x.structCheck(specs[:1:1], vals)
						x.structCheck(specs[len(specs)-2:], vals)
						continue
					}
					x.structCheck(specs, vals)
				}
			}
		})
	}
}

// c12maps: the map of a validator is exchanged and shared.
func c12maps(x *X) {
	names := []string{"a", "b"}
	specs := []*Spec{sStr, dnum(1.5), ref("b")}
	type op struct {
		kind byte // 'm'ap exchanged, 's'et, 'v'alidate long-lived, 'f'resh, 'l'ook up
		who  int  // 0 the validator, 1 and 2 the maps, 3 the other validator
		n, d int
	}
	var ops []op
	for m := 0; m < 3; m++ {
		ops = append(ops, op{'m', 0, m, 0})
	}
	ops = append(ops, op{'m', 3, 1, 0}, op{'m', 3, 2, 0})
	for who := 0; who < 4; who++ {
		ops = append(ops, op{'s', who, 0, who % 2}, op{'v', who, 0, 0})
	}
	ops = append(ops, op{'s', 0, 1, 1}, op{'s', 1, 1, 0}, op{'s', 2, 0, 2}, op{'s', 0, 0, 2}, op{'v', 0, 1, 0})
	depth := 4
	if x.thorough {
		depth = 5
	}
	vals := []J{"s", 1.5, nil}
	type mmap map[string]*c12obj
	run := func(seq []int) {
		x.States++
		x.Traces++
		v, w := jsval.New(), jsval.New()
		maps := []*jsval.ConstraintMap{v.ConstraintMap, {}, {}, w.ConstraintMap}
		model := []mmap{{}, {}, {}, {}}
		real := []map[string]jsval.Constraint{{}, {}, {}, {}}
		cur := [4]int{0, 1, 2, 3} // the map behind each party
		type reg interface {
			jsval.RefResolver
			SetReference(string, jsval.Constraint)
			Len() int
		}
		party := []reg{v, maps[1], maps[2], w}
		var long [4][2]*jsval.ReferenceConstraint
		var mlong [4][2]*c12obj
		for i, p := range party {
			for j, n := range names {
				long[i][j], mlong[i][j] = jsval.Reference(p).RefersTo(n), &c12obj{spec: ref(n)}
			}
		}
		// a registered reference asks the party it was made with
		owner := map[*c12obj]int{}
		var end func(m *c12obj, who int) *Spec
		end = func(m *c12obj, who int) *Spec {
			if m.spec.Kind != "ref" {
				return m.spec
			}
			if m.target == nil {
				m.target = model[cur[who]][m.spec.Ref]
			}
			if m.target == nil {
				return nil
			}
			return end(m.target, owner[m.target])
		}
		v.SetRoot(long[0][0])
		hist := func(step int) string {
			s := ""
			for _, i := range seq[:step+1] {
				o := ops[i]
				p := []string{"v", "cm1", "cm2", "w"}
				switch o.kind {
				case 'm':
					s += fmt.Sprintf(" %s.SetConstraintMap(%s)", p[o.who], []string{"v's first", "cm1", "cm2"}[o.n])
				case 's':
					s += fmt.Sprintf(" %s.SetReference(%s, %s)", p[o.who], names[o.n], specs[o.d])
				case 'v':
					s += fmt.Sprintf(" ask(%s, %s)", p[o.who], names[o.n])
				}
			}
			return s
		}
		for step, i := range seq {
			o := ops[i]
			x.Transitions++
			switch o.kind {
			case 'm':
				cur[o.who] = o.n
				party[o.who].(*jsval.JSVal).SetConstraintMap(maps[o.n])
			case 's':
				s := specs[o.d]
				m := &c12obj{spec: s}
				owner[m] = o.who
				c := s.Build(party[o.who])
				model[cur[o.who]][names[o.n]], real[cur[o.who]][names[o.n]] = m, c
				party[o.who].SetReference(names[o.n], c)
			case 'v':
				for fresh := 0; fresh < 2; fresh++ {
					c, m := long[o.who][o.n], mlong[o.who][o.n]
					if fresh == 1 {
						c, m = jsval.Reference(party[o.who]).RefersTo(names[o.n]), &c12obj{spec: ref(names[o.n])}
					}
					t := end(m, o.who)
					for _, val := range vals {
						var a validator = c
						if fresh == 0 && o.who == 0 && o.n == 0 {
							a = v
						}
						x.expect(a, val, t != nil && t.Eval(nil, val), func() string { return hist(step) })
					}
					if d := t != nil && t.HasDefault; c.HasDefault() != d {
						Failf("%s: HasDefault is %v", hist(step), !d)
					}
				}
			}
			for i, p := range party {
				if p.Len() != len(model[cur[i]]) {
					Failf("%s: party %d knows %d names instead of %d", hist(step), i, p.Len(), len(model[cur[i]]))
				}
				for _, n := range names {
					c, err := p.GetReference(n)
					want := real[cur[i]][n]
					if (err == nil) != (want != nil) || c != want {
						Failf("%s: party %d: GetReference(%s) is %v, %v", hist(step), i, n, c, err)
					}
				}
			}
		}
	}
	for a := range ops {
		for b := range ops {
			x.Case(func() string { return fmt.Sprintf("exchanged constraint maps, operations %d %d first", a, b) }, func() {
				var rec func(seq []int)
				rec = func(seq []int) {
					if len(seq) == depth+1 {
						run(seq)
						return
					}
					for i := range ops {
						rec(append(seq[:len(seq):len(seq)], i))
					}
				}
				rec([]int{a, b})
			})
		}
	}
}

// c17lists: lists in every order, with repetitions, stay what they are.
func c17lists(x *X) {
	ds := docs()
	var orders [][]string
	for _, l := range [][]string{{"a"}, {"b", "a"}, {"c", "a", "b"}, {"b", "c", "a"}, {"a", "c", "b"}, {"c", "b", "a"}, {"b", "b"}, {"b", "a", "b"}, {"zz", "a"}, {"B", "a", "b", "A"}, {"日", "a", ""}} {
		orders = append(orders, l)
	}
	txt := func(l []string) L {
		var out L
		for _, s := range l {
			out = append(out, s)
		}
		return out
	}
	for _, l := range orders {
		for how := 0; how < 9; how++ {
			x.Case(func() string { return fmt.Sprintf("the list %q in position %d of a schema", l, how) }, func() {
				var raw M
				switch how {
				case 0:
					raw = M{"type": "object", "required": txt(l)}
				case 1:
					raw = M{"type": "object", "properties": M{"a": M{}, "b": M{"type": "number"}}, "required": txt(l)}
				case 2:
					raw = M{"required": txt(l), "properties": M{"c": M{"required": txt(l)}}}
				case 3:
					raw = M{"type": "object", "dependencies": M{"a": txt(l), "c": txt(l)}}
				case 4:
					raw = M{"enum": txt(l)}
				case 5:
					raw = M{"type": "string", "enum": append(txt(l), 1.0, nil)}
				case 6:
					var ts, ks L
					for i := range l {
						ts = append(ts, []string{"string", "object", "array", "null", "integer"}[(i*2)%5])
						ks = append(ks, M{"enum": L{l[i]}})
					}
					raw = M{"type": ts, "anyOf": ks, "oneOf": ks}
				case 7:
					var ks L
					for i := range l {
						ks = append(ks, M{"type": []string{"string", "number", "null"}[i%3]})
					}
					raw = M{"type": "array", "items": ks, "additionalItems": false}
				case 8:
					raw = M{"definitions": M{"x": M{"type": "object", "required": txt(l)}}, "allOf": L{M{"$ref": "#/definitions/x"}, M{"required": txt(l)}}, "not": M{"type": "object", "properties": M{"a": M{"enum": txt(l)}}, "required": txt(l)}}
				}
				raw = jo(text(raw))
				s, env, _ := modelSchema(raw, raw)
				sc := readSchema(raw)
				ctx := js(text(raw))
				b := builder.New()
				for k := 0; k < 3; k++ {
					setOrder(k)
					v, err := b.BuildWithCtx(sc, ctx)
					x.Transitions++
					x.Traces++
					if err != nil {
						Failf("%s: %s", text(raw), safeError(err))
					}
					x.verdicts(v, s, env, ds, func() string { return fmt.Sprintf("build %d of %s", k, text(raw)) })
					x.sameSchema(sc, raw)
					if !reflect.DeepEqual(ctx, js(text(raw))) {
						Failf("the context was modified: %s", text(ctx))
					}
				}
			})
		}
	}
}

// c17contexts: one builder, every sequence of schemas and contexts.
func c17contexts(x *X) {
	schemas := []string{`{"$ref":"#/definitions/x"}`, `{"properties":{"a":{"$ref":"#/definitions/x"}}}`, `{"items":{"$ref":"#/definitions/y"}}`}
	ctxs := []string{
		`{"definitions":{"x":{"type":"string"},"y":{"type":"number"}}}`,
		`{"definitions":{"x":{"type":"number"},"y":{"type":"string"}}}`,
		`{"definitions":{"x":{"$ref":"#/definitions/y"},"y":{"minimum":1,"type":"integer"}}}`,
		`{"definitions":{"x":{"type":"object"}}}`,
		``, // none
	}
	ds := docs()
	type pair struct{ s, c int }
	var pairs []pair
	for s := range schemas {
		for c := range ctxs {
			pairs = append(pairs, pair{s, c})
		}
	}
	for _, p := range pairs {
		for _, q := range pairs {
			x.Case(func() string { return fmt.Sprintf("one builder, schema and context %v, then %v, then each", p, q) }, func() {
				for _, r := range pairs {
					for same := 0; same < 2; same++ { // the contexts are fresh, or the same document filled anew
						if same == 1 && (p.c == 4 || q.c == 4 || r.c == 4) {
							continue
						}
						b := builder.New()
						var scs [3]*schema.Schema
						for i, t := range schemas {
							scs[i] = readSchema(jo(t))
						}
						shared := M{}
						x.Traces++
						for step, z := range []pair{p, q, r} {
							var ctx J
							var doc M
							if z.c < 4 {
								doc = jo(ctxs[z.c])
								ctx = jo(ctxs[z.c])
								if same == 1 {
									clear(shared)
									for k, v := range ctx.(M) {
										shared[k] = v
									}
									ctx = shared
								}
							}
							v, err := b.BuildWithCtx(scs[z.s], ctx)
							x.States++
							x.Transitions++
							if doc == nil {
								doc = jo(schemas[z.s])
							}
							s, env, bad := modelSchema(jo(schemas[z.s]), doc)
							if (err != nil) != (bad != "") {
								Failf("build %d of %v %v %v: error %v, dead reference %q", step, p, q, r, err, bad)
							}
							if err == nil {
								x.verdicts(v, s, env, ds, func() string {
									return fmt.Sprintf("build %d of (schema, context) %v %v %v, way %d", step, p, q, r, same)
								})
							}
						}
					}
				}
			})
		}
	}
}

// variants: a schema text, and the same text with a single digit or letter of
// a value changed, for every such place.
func variants() (string, []string) {
	m := M{}
	for i := 0; i < 12; i++ {
		m[nm(i)] = M{"type": "string", "minLength": float64(2 + i%3), "maxLength": float64(5 + i%3)}
	}
	doc := M{"type": "object", "properties": m, "definitions": M{"x": M{"enum": L{"aa", "bb", 3.0}}}, "required": L{"p01", "p05"}, "patternProperties": M{"^q": M{"$ref": "#/definitions/x"}}, "maxProperties": 9.0}
	base := text(doc)
	var out []string
	for i := 0; i < len(base); i++ {
		c := base[i]
		if c >= '1' && c <= '8' && !(i > 0 && base[i-1] == '"') {
			out = append(out, base[:i]+string(c+1)+base[i+1:])
		}
		if c == 'a' || c == 'b' {
			if v := base[:i] + "z" + base[i+1:]; strings.Contains(base[max(0, i-2):min(len(base), i+3)], `"a`) || strings.Contains(base[max(0, i-2):min(len(base), i+3)], `b"`) {
				out = append(out, v)
			}
		}
	}
	sort.Strings(out)
	return base, out
}

// c23headers: what else a request brings along does not matter.
func c23headers(x *X) {
	body := `{"type": "string", "minLength": 3}`
	bodies := []string{body, `{"type":"object","properties":{"a=b&c":{"enum":["%41+%zz;"]}}}`, `{`, ``, `a=b`, `{"type":"string"}&x=1`}
	cts := []string{"", "application/json", "application/json; charset=utf-8", "application/json; charset=iso-8859-1", "text/plain", "text/plain; charset=UTF-8", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "multipart/form-data; boundary=x", "multipart/form-data", "application/octet-stream", "application/schema+json", "*/*", "nonsense", ";", "text/html", "text/xml"}
	others := []map[string]string{nil, {"Accept": "application/json"}, {"Accept": "text/html"}, {"Accept": "*/*;q=0"}, {"Accept-Encoding": "gzip, deflate"}, {"Content-Encoding": "identity"}, {"X-Requested-With": "XMLHttpRequest", "Origin": "http://x", "Referer": "http://x/"}, {"Expect": "100-continue"}, {"If-None-Match": "*"}, {"If-Modified-Since": "Mon, 02 Jan 2040 15:04:05 GMT"}, {"Range": "bytes=0-1"}, {"X-HTTP-Method-Override": "GET"}, {"Content-Length": "3"}, {"Cookie": "a=b"}, {"Connection": "Upgrade", "Upgrade": "websocket"}, {"Transfer-Encoding": "chunked"}, {"User-Agent": "x", "Authorization": "Basic eDp5"}}
	paths := []string{"/generate.json", "/generate.json?a=b&c=%41", "/generate.json?schema={}", "/generate.json?callback=f", "/", "/nothing"}
	for _, ct := range cts {
		x.Case(func() string { return fmt.Sprintf("requests with the content type %q", ct) }, func() {
			s := server.New()
			for _, o := range others {
				for _, p := range paths {
					for _, m := range []string{"POST", "PUT", "GET"} {
						for _, b := range bodies {
							r := breq{m, p, b, 0}
							req := r.http()
							if ct != "" {
								req.Header.Set("Content-Type", ct)
							}
							for k, v := range o {
								req.Header.Set(k, v)
							}
							rec := httptest.NewRecorder()
							s.ServeHTTP(rec, req)
							x.Traces++
							x.judge(r, rec.Code, rec.Header(), rec.Body.String(), func() string {
								return fmt.Sprintf("%s with the content type %q and %q", r, ct, o)
							})
						}
					}
				}
			}
		})
	}
	// one server and schemas that differ in a single place
	base, vs := variants()
	for how := 0; how < 3; how++ {
		x.Case(func() string { return fmt.Sprintf("schemas that differ in one place, order %d", how) }, func() {
			x.count("near-identical schemas", int64(len(vs)))
			s := server.New()
			x.Traces++
			ask := func(b string) {
				x.ask(s, breq{"POST", "/generate.json", b, 0}, func() string { return "posting " + b })
			}
			for i, v := range vs {
				switch how {
				case 0:
					ask(base)
					ask(v)
				case 1:
					ask(v)
				case 2:
					ask(vs[len(vs)-1-i])
					ask(v)
					ask(base)
				}
			}
		})
	}
}

// near: near-identical schemas with one builder and one generator.
func (x *X) near(gen bool) {
	base, vs := variants()
	ds := []J{}
	full := M{}
	for i := 0; i < 8; i++ {
		full[nm(i)] = "abcd"
	}
	full["q"] = "aa"
	ds = append(ds, full, M{}, M{"p01": "abc", "p05": "abcde"}, M{"p01": "abcdef", "p05": "abcdefg"}, M{"p01": "abc", "p05": "abcde", "q": "bb"}, M{"p01": "abc", "p05": "abcde", "q": 3.0}, M{"p01": "abc", "p05": "abcde", "q": 4.0}, M{"p01": "abc", "p05": "abcde", "q": "za"})
	for i := 0; i < 12; i++ {
		for n := 1; n < 10; n++ {
			ds = append(ds, M{"p01": "abcd", "p05": "abcde", nm(i): strings.Repeat("x", n)})
		}
	}
	x.Case(func() string { return "schemas that differ in one place, one builder" }, func() {
		b := builder.New()
		g := jsval.NewGenerator()
		for i, v := range vs {
			for _, t := range []string{base, v} {
				raw := jo(t)
				val, err := b.BuildWithCtx(readSchema(raw), raw)
				x.Transitions++
				x.Traces++
				if err != nil {
					Failf("%s: %s", t, safeError(err))
				}
				if gen {
					var got, want strings.Builder
					if err := g.Process(&got, val); err != nil {
						Failf("%s: %s", t, safeError(err))
					}
					must(jsval.NewGenerator().Process(&want, val))
					x.States++
					if got.String() != want.String() {
						Failf("%s (variant %d): a used generator writes\n%s\ninstead of\n%s", t, i, trim(got.String(), 1500), trim(want.String(), 1500))
					}
					continue
				}
				s, env, _ := modelSchema(raw, raw)
				x.verdicts(val, s, env, ds, func() string { return "build of " + t })
			}
		}
	})
}

// nearValues: one validator, a large document, and the same with a single
// place changed.
func (x *X) nearValues() {
	mk := func() (M, []func(M, J)) {
		m := M{}
		var places []func(M, J)
		for i := 0; i < 10; i++ {
			n := nm(i)
			l := L{}
			for j := 0; j < 6; j++ {
				l = append(l, float64(j))
				j := j
				places = append(places, func(m M, v J) { m[n].(M)["l"].(L)[j] = v })
			}
			m[n] = M{"l": l, "s": "abc", "t": M{"u": "v"}}
			places = append(places, func(m M, v J) { m[n].(M)["s"] = v }, func(m M, v J) { m[n].(M)["t"].(M)["u"] = v })
		}
		return m, places
	}
	s := &Spec{Kind: "object", AddProps: obj(Prop{"l", &Spec{Kind: "array", Items: sNum, Unique: true}}, Prop{"s", enum("abc", "abd")}, Prop{"t", &Spec{Kind: "object", AddProps: strMax(1)}})}
	_, places := mk()
	for _, bad := range []J{"zz", nil, 7.0, 3.0, "v", "abc", L{}, M{}} {
		x.Case(func() string { return fmt.Sprintf("documents that differ in one place, with %s there", show(bad)) }, func() {
			c := s.Validator(nil)
			x.Traces++
			good, _ := mk()
			for _, p := range places {
				x.States++
				doc, _ := mk()
				x.expect(c, good, true, s.String)
				p(doc, bad)
				x.expect(c, doc, s.Eval(nil, doc), s.String)
				// the same document, repaired and broken in place
				p(good, bad)
				x.expect(c, good, s.Eval(nil, doc), s.String)
				good, _ = mk()
			}
		})
	}
}

// defaultedFeatures: the object features once more, with declarations that
// have defaults. Every validation gets a copy, as defaults are stored.
func (x *X) defaultedFeatures() {
	env := Env{"rr": ref("r"), "r": dstr("q")}
	maps := presence([]string{"a", "b", "c"}, []J{1.0, "s", nil})
	objectFeatures([][]Prop{{{"a", dstr("d")}}, {{"a", dnum(0.0)}, {"b", dstr("")}}, {{"c", dint(1.0)}, {"b", ref("rr")}, {"a", sEmpty}}, {{"a", dnum(1.0)}, {"b", dnum(1.0)}, {"c", dnum(1.0)}}}, true, func(s *Spec) {
		x.Case(func() string { return s.String() + " with defaults" }, func() {
			c := s.Validator(env)
			x.Traces++
			for o := 0; o < 2; o++ {
				setOrder(o)
				for _, m := range maps {
					x.States++
					x.expect(c, cpJ(m), s.Eval(env, m), s.String)
				}
			}
			setOrder(0)
		})
	})
}

// hugeFew: some of these, for generated code and for schemas (whose numbers
// are exact up to 2 to the 53rd).
func hugeFew(all bool) []*Spec {
	l := []int{0, 2, math.MaxInt32, math.MaxUint32 + 1, 1 << 53}
	if all {
		l = append(l, math.MaxInt64-1, math.MaxInt64)
	}
	var out []*Spec
	hugeSpecs(l, func(s *Spec, vals []J) { out = append(out, s) })
	return out
}

func hugeDocs(s *Spec) []J {
	switch s.Kind {
	case "string":
		return []J{"", "a", "ab", "abc", 1.0}
	case "array":
		return []J{L{}, L{1.0}, L{1.0, 2.0}, L{1.0, 1.0}, L{1.0, 2.0, 3.0}, "s"}
	}
	return []J{M{}, M{"a": 1.0}, M{"a": 1.0, "b": 2.0}, M{"a": 1.0, "b": 2.0, "c": 3.0}, "s"}
}
