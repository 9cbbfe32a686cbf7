package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C18", run: c18, traces: "the code emitted for every set of validators is evaluated against the real package (by an evaluator for its Go subset with Go's typing rules, and, for a cross-section of all sets and whenever the evaluator does not know a construct, by compiling and running it) and every verdict and every document afterwards is compared with the original validator's",
		bounds: "about 45000 (quick) constraints: products of all keywords of every kind with awkward numbers and strings, all combinator trees of depth 2 over 7 leaves, objects and arrays, references, the 13500 combinations of object keywords, all lists of names and children up to length 3 and sizes up to 20, plus the schemas with up to 2 keywords of C15; singly, in pairs and in sets of up to 40; on documents derived from the constants of each constraint; numeric and other defaults of every encoding going to struct fields of every Maybe type; 1200 of them compiled; all strings of up to 2 (quick) or 3 of 20 awkward characters in patterns, names, enumerations, defaults and formats; 30 quadruples of easily confused property names (empty, case variants, spaces, prefixes, pointers, keywords, control characters) x 648 object configurations x 33 maps (every fifth in quick); sizes of 64, 129 and 300; float32 numbers; limits of up to 2 to the 63rd; sets of validators with all pairs of names like those in generated code; about 900 constraints with nothing to check in some of their places; up to three constraints registered under 9 special names x roots that are, refer to or do not use them; up to 4 validators that share their roots or registered constraints, in every arrangement; enumerations of nil and empty lists and maps",
		notes:  []string{"validators with custom field naming functions, NaN and infinities, and named types in enumerations are outside the property"}})
}

// ------------------------------------------------------------- documents

// derive collects documents on both sides of everything the constraint says.
func derive(s *Spec, env Env, depth int) []J {
	if s == nil {
		return []J{1.0, "s"}
	}
	out := []J{nil, true, 1.0, "s"}
	if depth > 3 {
		return out
	}
	out = append(out, s.Enum...)
	if s.HasDefault {
		out = append(out, s.Default)
	}
	kid := func(c *Spec) []J {
		d := derive(c, env, depth+1)
		if len(d) > 12 && depth > 0 {
			d = d[:12]
		}
		return d
	}
	switch s.Kind {
	case "string":
		out = append(out, "", "a", "ab", "abc", "abcd", "a%d\"\\`x", "1.2.3.4", "b%", "a\n", "ä", "ääää", "\x00", "x\"y")
	case "number", "integer":
		fs := []float64{0, 1, 2, 0.5, 1.5, -1, 3, 1e6}
		for _, p := range []*float64{s.Min, s.Max, s.Mult} {
			if p != nil {
				f := *p
				fs = append(fs, f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), f+1, f-1, 2*f, 3*f, math.Floor(f), math.Ceil(f))
			}
		}
		for _, f := range fs {
			out = append(out, f)
			if f == math.Trunc(f) && math.Abs(f) < 1<<52 {
				out = append(out, int(f))
			}
		}
	case "array":
		out = append(out, L{}, L{1.0}, L{1.0, 1.0}, L{1.0, "s"}, L{"s", 1.0, nil}, L{1.0, 2.0, 3.0}, L{1.0, "a", nil, true})
		for _, d := range kid(s.Items) {
			out = append(out, L{d}, L{1.0, d})
		}
		for i, c := range s.Pos {
			for _, d := range kid(c) {
				l := make(L, i+1)
				for j := range l {
					l[j] = "s"
				}
				l[i] = d
				out = append(out, l, append(append(L{}, l...), d))
			}
		}
		if s.AddItems != nil {
			for _, d := range kid(s.AddItems) {
				l := make(L, len(s.Pos)+1)
				for j := range l {
					l[j] = "s"
				}
				l[len(s.Pos)] = d
				out = append(out, l)
			}
		}
		for _, p := range []*int{s.MinItems, s.MaxItems} {
			if p != nil && *p < 10000 {
				for n := *p - 1; n <= *p+1; n++ {
					l := L{}
					for i := 0; i < n; i++ {
						l = append(l, float64(i))
					}
					out = append(out, l)
				}
			}
		}
	case "object":
		names := append([]string{"a", "b", "zz"}, s.Required...)
		full := M{}
		for _, p := range s.Props {
			names = append(names, p.Name)
		}
		for _, d := range s.PropDeps {
			names = append(names, d.From)
			names = append(names, d.To...)
		}
		for _, d := range s.SchemaDeps {
			names = append(names, d.Name)
		}
		seen := map[string]bool{}
		var uniq []string
		for _, n := range names {
			if !seen[n] {
				seen[n] = true
				uniq = append(uniq, n)
			}
		}
		out = append(out, M{})
		for _, n := range uniq {
			full[n] = 1.0
			out = append(out, M{n: 1.0}, M{n: "s"}, M{n: nil}, cpJ(full))
		}
		for _, n := range uniq {
			m := cpJ(full).(M)
			delete(m, n)
			out = append(out, m)
		}
		for _, p := range s.Props {
			for _, d := range kid(p.S) {
				m := cpJ(full).(M)
				m[p.Name] = cpJ(d)
				out = append(out, M{p.Name: cpJ(d)}, m)
			}
		}
		for _, p := range append(append([]Prop{}, s.Pats...), Prop{"", s.AddProps}) {
			for _, n := range []string{"ab", "pa", "b1", "q%", "aa"} {
				for _, d := range kid(p.S) {
					out = append(out, M{n: cpJ(d)})
				}
			}
		}
		for _, d := range s.SchemaDeps {
			for _, e := range kid(d.S) {
				if m, ok := e.(M); ok {
					c := cpJ(m).(M)
					c[d.Name] = 1.0
					out = append(out, c)
				}
			}
		}
	case "any", "all", "oneof", "not":
		for _, c := range s.Kids {
			out = append(out, kid(c)...)
		}
	case "ref":
		if t, ok := env[s.Ref]; ok {
			out = append(out, derive(t, env, depth+1)...)
		}
	}
	return out
}

// dedupe by text.
func dedupe(ds []J) []J {
	seen := map[string]bool{}
	var out []J
	for _, d := range ds {
		k := fmt.Sprintf("%#v", d)
		if !seen[k] {
			seen[k] = true
			out = append(out, d)
		}
	}
	return out
}

// ------------------------------------------------------------- constraints

var oddStrings = []string{"", "a", "a b", "%", "%d%s%!", `"`, `\`, "`", "\n", "\t\r", "\x00", "ä", "日本", "\u2028", "\ufeff", "*/", "//", "${x}", "\\n", "'", "\x7f", "\xff", "a\",\nb", ".", ".\n", "x.\n", ",\n)", "😀"}

func genStrings() []*Spec {
	var out []*Spec
	for _, mi := range []*int{nil, ip(0), ip(1), ip(2)} {
		for _, ma := range []*int{nil, ip(0), ip(3)} {
			for _, r := range []string{"-", "", "^a", "%d\\\\|`|\"", `^[a-z]{2,}\.?$`} {
				for _, f := range []string{"", "ipv4", "x\"y", "date-time"} {
					for _, e := range [][]J{nil, {}, {"a"}, {"ab", "b%", "1.2.3.4"}} {
						for _, d := range []J{nil, "", "a\n\"%`\\"} {
							s := &Spec{Kind: "string", MinLen: mi, MaxLen: ma, Format: f}
							if r != "-" {
								s.Rx, s.HasRx = r, true
							}
							if e != nil {
								s.Enum, s.HasEnum = e, true
							}
							if d != nil {
								s.Default, s.HasDefault = d, true
							}
							out = append(out, s)
						}
					}
				}
			}
		}
	}
	for _, o := range oddStrings {
		out = append(out, &Spec{Kind: "string", Enum: []J{o, "x" + o}, HasEnum: true}, dstr(o), enum(o), enum(L{o}, M{o: o}), &Spec{Kind: "string", Format: o + "q"}, obj(Prop{o, dstr(o)}), &Spec{Kind: "object", Required: []string{o}, AddProps: sEmpty}, &Spec{Kind: "object", AddProps: sEmpty, PropDeps: []Dep{{o, []string{"q" + o}}}}, &Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{o, sNull}}})
		if !strings.ContainsAny(o, "\xff*$\\()") {
			out = append(out, strRx(o), &Spec{Kind: "object", Pats: []Prop{{o, sNum}, {"q", sStr}}})
		}
	}
	return out
}

var oddNumbers = []float64{0, 1, -1, 0.1, -0.1, 1.0 / 3, 2.5, 1e6, 1e-6, 1e-7, 123456.789012, 1.0000001, 1e15, 1<<53 - 1, 1 << 52, 1e21, 1e100, 5e-324, math.MaxFloat64, 0.000001234567, 4503599627370495.5, 100000000000000000000}

func genNumbers() []*Spec {
	var out []*Spec
	ptr := []*float64{nil, fp(0), fp(1.5), fp(-2), fp(0.1)}
	for _, kind := range []string{"number", "integer"} {
		for _, mi := range ptr {
			for _, ma := range ptr {
				for ex := 0; ex < 4; ex++ {
					for _, mu := range []*float64{nil, fp(0), fp(2), fp(0.25)} {
						for _, e := range [][]J{nil, {}, {1.0, -2.0, 0.1}} {
							for _, d := range []J{nil, 0.0, 3, 2.0} {
								s := &Spec{Kind: kind, Min: mi, Max: ma, ExMin: ex&1 != 0, ExMax: ex&2 != 0, Mult: mu}
								if e != nil {
									s.Enum, s.HasEnum = e, true
								}
								if d != nil {
									s.Default, s.HasDefault = d, true
								}
								out = append(out, s)
							}
						}
					}
				}
			}
		}
		for _, f := range oddNumbers {
			out = append(out, &Spec{Kind: kind, Min: fp(f)}, &Spec{Kind: kind, Max: fp(f)}, &Spec{Kind: kind, Min: fp(f), ExMin: true}, &Spec{Kind: kind, Max: fp(-f), ExMax: true}, &Spec{Kind: kind, Mult: fp(f)}, &Spec{Kind: kind, Enum: []J{f, -f}, HasEnum: true}, enum(f, L{f}), obj(Prop{"a", &Spec{Kind: kind, HasDefault: true, Default: f}}))
		}
	}
	for _, d := range []J{int8(3), int16(-3), int32(4), int64(1 << 40), uint(7), uint8(200), uint16(9), uint32(9), uint64(1 << 40), float32(1.5), 5, -5} {
		out = append(out, obj(Prop{"a", &Spec{Kind: "integer", HasDefault: true, Default: d}}), obj(Prop{"a", &Spec{Kind: "number", HasDefault: true, Default: d}}), enum(d), enum(L{d}))
	}
	for _, e := range [][]J{nil, {}, {true}, {false}, {true, false}} {
		for _, d := range []J{nil, true, false} {
			s := &Spec{Kind: "boolean"}
			if e != nil {
				s.Enum, s.HasEnum = e, true
			}
			if d != nil {
				s.Default, s.HasDefault = d, true
			}
			out = append(out, s, obj(Prop{"a", s}))
		}
	}
	return out
}

func genLeaves() []*Spec {
	return []*Spec{sEmpty, sNull, sStr.with(func(s *Spec) { s.MinLen = ip(2) }), dnum(1.5), dint(2), sBool, enum(1.0, "s", nil, L{1.0}, M{"a": nil})}
}

func genTrees() []*Spec {
	l := genLeaves()
	var out []*Spec
	out = append(out, l...)
	var level []*Spec
	combine := func(pool []*Spec) []*Spec {
		var r []*Spec
		for _, kind := range []string{"any", "all", "oneof"} {
			r = append(r, &Spec{Kind: kind})
			for i, a := range pool {
				r = append(r, &Spec{Kind: kind, Kids: []*Spec{a}})
				for _, b := range pool[i:] {
					r = append(r, &Spec{Kind: kind, Kids: []*Spec{a, b}}, &Spec{Kind: kind, Kids: []*Spec{b, a, b}})
				}
			}
		}
		for _, a := range pool {
			r = append(r, not(a), arr(a), obj(Prop{"a", a}), &Spec{Kind: "object", AddProps: a})
		}
		return r
	}
	level = combine(l)
	out = append(out, level...)
	for i, a := range level {
		b := level[(i*7+3)%len(level)]
		out = append(out, not(a), arr(a), obj(Prop{"a", a}, Prop{"b", b}), &Spec{Kind: "any", Kids: []*Spec{a, b}}, &Spec{Kind: "all", Kids: []*Spec{a, b}}, &Spec{Kind: "oneof", Kids: []*Spec{b, a}}, &Spec{Kind: "any", Kids: []*Spec{a}}, &Spec{Kind: "all", Kids: []*Spec{a}}, &Spec{Kind: "oneof", Kids: []*Spec{a}},
			&Spec{Kind: "array", HasPos: true, Pos: []*Spec{a, b}, SetAddI: true}, &Spec{Kind: "object", Pats: []Prop{{"^a", a}, {"b$", b}}, AddProps: b}, &Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", a}}})
	}
	return out
}

func genArrays() []*Spec {
	var out []*Spec
	for _, it := range []*Spec{nil, sNum, dstr("x"), ref("r")} {
		for _, pos := range [][]*Spec{nil, {sStr}, {sStr, sNum, sNull}, {ref("r"), arr(sNum)}} {
			for ai := 0; ai < 4; ai++ {
				for _, mi := range []*int{nil, ip(0), ip(2)} {
					for _, ma := range []*int{nil, ip(0), ip(3)} {
						for _, u := range []bool{false, true} {
							s := &Spec{Kind: "array", Items: it, Pos: pos, HasPos: pos != nil, MinItems: mi, MaxItems: ma, Unique: u}
							switch ai {
							case 1:
								s.SetAddI = true
							case 2:
								s.SetAddI, s.AddItems = true, sEmpty
							case 3:
								s.SetAddI, s.AddItems = true, sBool
							}
							out = append(out, s)
						}
					}
				}
			}
		}
	}
	return out
}

func genObjects() []*Spec {
	var out []*Spec
	for _, ps := range [][]Prop{nil, {{"a", dnum(1.0)}}, {{"a", sNum}, {"b", dstr("d")}, {"c", dint(3)}}, {{"a", ref("r")}, {"b", ref("d")}}} {
		for _, pt := range [][]Prop{nil, {{"^a", sNum}}, {{"^a", sNum}, {"b$", sStr}}, {{"a", sNum}, {"a", not(sNull)}}} {
			for _, rq := range [][]string{nil, {"a"}, {"b", "zz"}} {
				for _, ad := range []*Spec{nil, sEmpty, sNum, ref("r")} {
					for _, mm := range [][2]*int{{nil, nil}, {ip(0), ip(0)}, {ip(1), nil}, {nil, ip(2)}, {ip(2), ip(3)}} {
						for _, dp := range []int{0, 1, 2, 3, 4} {
							s := &Spec{Kind: "object", Props: ps, Pats: pt, Required: rq, AddProps: ad, MinProps: mm[0], MaxProps: mm[1]}
							switch dp {
							case 1:
								s.PropDeps = []Dep{{"a", []string{"b", "zz"}}}
							case 2:
								s.SchemaDeps = []Prop{{"a", obj(Prop{"a", sEmpty}, Prop{"b", sEmpty})}, {"b", &Spec{Kind: "object", AddProps: sEmpty, Required: []string{"a"}}}}
							case 3:
								s.PropDeps = []Dep{{"a", []string{"b"}}, {"b", []string{"a", "c"}}}
								s.SchemaDeps = []Prop{{"c", ref("r")}, {"a", sNull}}
							case 4:
								s.PropDeps = []Dep{{"a", nil}}
								s.SchemaDeps = []Prop{{"zz", &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(1)}}}
							}
							out = append(out, s)
						}
					}
				}
			}
		}
	}
	return out
}

// genLists: lists of every length and order, with repetitions.
func genLists() []*Spec {
	var out []*Spec
	open := func(f func(*Spec)) { out = append(out, (&Spec{Kind: "object", AddProps: sEmpty}).with(f)) }
	var names [][]string
	var rec func(l []string)
	rec = func(l []string) {
		names = append(names, append([]string{}, l...))
		if len(l) < 3 {
			for _, n := range []string{"a", "b", "c"} {
				rec(append(l, n))
			}
		}
	}
	rec(nil)
	for _, l := range names {
		open(func(s *Spec) { s.PropDeps = []Dep{{"a", l}} })
		open(func(s *Spec) { s.PropDeps = []Dep{{"a", l}, {"b", []string{"c"}}} })
		open(func(s *Spec) { s.PropDeps = []Dep{{"c", l}, {"a", []string{"b"}}, {"c", []string{"a"}}} })
		open(func(s *Spec) {
			s.PropDeps = []Dep{{"b", l}}
			s.SchemaDeps = []Prop{{"c", &Spec{Kind: "object", AddProps: sEmpty, Required: l}}}
		})
		open(func(s *Spec) { s.Required = l })
		open(func(s *Spec) { s.Required = l; s.Props = []Prop{{"a", sNum}, {"b", dstr("d")}} })
		for _, m := range names {
			if len(l) == 2 && len(m) == 2 {
				open(func(s *Spec) { s.PropDeps = []Dep{{"a", l}, {"b", m}} })
				open(func(s *Spec) { s.PropDeps = []Dep{{"a", l}}; s.Required = m })
			}
		}
		kinds := map[string]*Spec{"a": sNum, "b": sStr, "c": sNull}
		var kids, low []*Spec
		for i, n := range l {
			kids = append(kids, kinds[n])
			low = append(low, kinds[n].with(func(s *Spec) {
				if n != "c" {
					s.HasEnum, s.Enum = true, []J{[]J{1.0, "s"}[int(n[0]-'a')], float64(i), "x"}
				}
			}))
		}
		if len(l) > 0 {
			out = append(out, any_(kids...), all(kids...), oneof(kids...), not(any_(kids...)), &Spec{Kind: "array", HasPos: true, Pos: kids, SetAddI: true}, &Spec{Kind: "array", HasPos: true, Pos: low, SetAddI: true, AddItems: kids[0]})
			var e []J
			for _, n := range l {
				e = append(e, map[string]J{"a": 1.0, "b": "s", "c": nil}[n])
			}
			out = append(out, enum(e...), enum(L(e)), enum(M{"a": L(e)}), enum(M{"a": e[0], "b": e[len(e)-1]}))
		}
	}
	for n := 0; n <= 20; n++ {
		var ps, pats, sd []Prop
		var pd []Dep
		var rq []string
		var kids []*Spec
		var en []J
		for i := 0; i < n; i++ {
			ps = append(ps, Prop{nm(i), enum(float64(i), "s")})
			pats = append(pats, Prop{nm(i) + "$", numMin(float64(i))})
			sd = append(sd, Prop{nm(i), &Spec{Kind: "object", AddProps: sEmpty, Required: []string{nm((i + 1) % n)}}})
			pd = append(pd, Dep{nm(i), []string{nm((i + 3) % n), nm((i + 1) % n)}})
			rq = append(rq, nm(i))
			kids = append(kids, enum(float64(i)))
			en = append(en, float64(i))
		}
		out = append(out, &Spec{Kind: "object", Props: ps}, &Spec{Kind: "object", Pats: pats}, &Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: sd}, &Spec{Kind: "object", AddProps: sEmpty, PropDeps: pd}, &Spec{Kind: "object", AddProps: sEmpty, Required: rq}, &Spec{Kind: "object", Props: ps, Pats: pats, Required: rq[:n/2], PropDeps: pd[:n/3]},
			any_(kids...), all(any_(kids...), not(oneof(kids...))), oneof(kids...), &Spec{Kind: "array", HasPos: n > 0, Pos: kids, SetAddI: true, AddItems: sStr}, numMin(1).with(func(s *Spec) { s.HasEnum, s.Enum = true, en }), enum(append([]J{"s"}, en...)...))
	}
	return out
}

// listDocs for them.
func listDocs(s *Spec) []J {
	out := presence([]string{"a", "b", "c"}, []J{1.0, "s"})
	if s.Kind != "object" {
		out = nil
		for _, l := range lists([]J{1.0, "s", nil}, 3) {
			out = append(out, l)
		}
		for i := -1; i <= 21; i++ {
			out = append(out, float64(i))
		}
		out = append(out, M{"a": L{1.0}}, M{"a": L{"s", nil}}, M{"a": 1.0, "b": "s"}, M{"a": "s", "b": "s"})
	}
	for n := 1; n <= 21; n++ {
		full := M{}
		var l L
		for i := 0; i < n; i++ {
			full[nm(i)] = float64(i)
			l = append(l, float64(i))
		}
		out = append(out, full, l, append(append(L{}, l...), "s"))
		for i := 0; i < n; i++ {
			if i < 3 || i > n-3 {
				m := cpJ(full).(M)
				delete(m, nm(i))
				b := cpJ(full).(M)
				b[nm(i)] = -1.0
				out = append(out, m, b, M{nm(i): float64(i)})
			}
		}
	}
	return out
}

var genEnv = Env{
	"r":                         &Spec{Kind: "object", Props: []Prop{{"a", sNum}, {"n", ref("r")}}, AddProps: sStr},
	"d":                         sStr.with(func(s *Spec) { s.HasDefault, s.Default = true, "dd" }),
	"#":                         any_(sNull, arr(ref("#"))),
	"#/definitions/a%2Fb \"q\"": ref("d"),
}

// ------------------------------------------------------------- checking

type genSet struct {
	what  string
	specs []*Spec
	vs    []*jsval.JSVal
	docs  [][]J
}

func makeSet(what string, specs []*Spec, env Env, named bool) *genSet {
	g := &genSet{what: what, specs: specs}
	for i, s := range specs {
		v := s.Validator(env)
		if named {
			v.SetName(fmt.Sprintf("Val%c%d", 'A'+rune((i*7)%26), i))
		}
		g.vs = append(g.vs, v)
		g.docs = append(g.docs, dedupe(derive(s, env, 0)))
	}
	return g
}

func (g *genSet) String() string {
	if len(g.specs) == 1 {
		return g.what + ": " + g.specs[0].String()
	}
	if len(g.specs) == 0 {
		return g.what
	}
	return fmt.Sprintf("%s: %d validators, the first %s", g.what, len(g.vs), g.specs[0])
}

// same compares two validators on a private copy of a document each.
func (x *X) same(orig, gen validator, d J, how func() string) {
	a, b := cpJ(d), cpJ(d)
	x.States++
	x.Transitions += 2
	ea, eb := orig.Validate(a), gen.Validate(b)
	if ea == nil {
		x.acc++
	} else {
		x.rej++
	}
	if (ea == nil) != (eb == nil) {
		Failf("%s on %s: the original says %v, the generated one %v", how(), show(d), verdict(ea), verdict(eb))
	}
	if ea == nil && !jsonEqual(norm(a), norm(b)) {
		Failf("%s on %s: afterwards the document is %s with the original and %s with the generated validator", how(), show(d), show(a), show(b))
	}
}

func verdict(err error) string {
	if err == nil {
		return "yes"
	}
	return "no (" + safeError(err) + ")"
}

// genCheck: generate, evaluate, compare. It reports whether the code could
// be evaluated.
func (x *X) genCheck(g *genSet) bool {
	code, err := genCode(g.vs...)
	x.Traces++
	if err != nil {
		Failf("%s: generation refused: %s", g, safeError(err))
	}
	vs, ok, err := runCode(code)
	if !ok {
		x.count("sets the evaluator left to the compiler", 1)
		x.Capped = true
		return false
	}
	if err != nil {
		Failf("%s: %v\n%s", g, err, trim(code, 2000))
	}
	if len(vs) != len(g.vs) {
		Failf("%s: the code defines %d validators\n%s", g, len(vs), trim(code, 2000))
	}
	for i, v := range g.vs {
		n := vs[g.name(i)]
		if n == nil || n.Name != g.name(i) {
			Failf("%s: the code does not define a validator named %s", g, g.name(i))
		}
		for _, d := range g.docs[i] {
			x.same(v, n, d, func() string { return fmt.Sprintf("%s (%s)", g.name(i), g.describe(i)) })
		}
	}
	return true
}

// name under which validator i is defined: its own, or one by its position.
func (g *genSet) name(i int) string {
	if n := g.vs[i].Name; n != "" {
		return n
	}
	return fmt.Sprintf("V%d", i)
}

func (g *genSet) describe(i int) string {
	if i < len(g.specs) {
		return g.specs[i].String()
	}
	return g.what
}

func c18(x *X) {
	x.refSets()
	x.sharedParts()
	x.nilMembers()
	x.genMany("nothing to check", genPositions(), positionDocs)
	lists := []struct {
		name string
		s    []*Spec
	}{{"strings", genStrings()}, {"numbers", genNumbers()}, {"trees", genTrees()}, {"arrays", genArrays()}, {"objects", genObjects()}}
	for _, l := range lists {
		for i := 0; i < len(l.s); i += 40 {
			part := l.s[i:min(i+40, len(l.s))]
			x.Case(func() string {
				return fmt.Sprintf("%s %d to %d, such as %s", l.name, i, i+len(part)-1, part[0])
			}, func() {
				named := (i/40)%2 == 0
				x.genCheck(makeSet(l.name, part, genEnv, named))
				setOrder(1)
				for _, s := range part {
					x.genCheck(makeSet("alone", []*Spec{s}, genEnv, false))
				}
			})
		}
	}
	x.genMany("lists", genLists(), listDocs)
	x.genMany("limits of any size", hugeFew(true), hugeDocs)
	x.genMany("single precision", smallFloatSpecs(), smallFloatDocs)
	var feats []*Spec
	objectFeatures(nil, true, func(s *Spec) { feats = append(feats, s) })
	fdocs := presence([]string{"a", "b", "c"}, []J{1.0, "s"})
	x.genMany("object features", feats, func(*Spec) []J { return fdocs })
	n := 2
	if x.thorough {
		n = 3
	}
	awk := awkward(n)
	bigs, bdocs := bigMany([]int{64, 129, 300})
	for i, s := range bigs {
		x.Case(func() string { return fmt.Sprintf("many parts, %d: %.300s", i, s) }, func() {
			x.genCheck(&genSet{what: fmt.Sprintf("many parts, %d", i), vs: []*jsval.JSVal{s.Validator(nil)}, docs: [][]J{bdocs[s]}})
		})
	}
	x.genMany("awkward strings", awk, awkwardDocs)
	oddFeatures(nil, func(n [4]string, specs []*Spec, docs []J) {
		var part []*Spec
		for i, s := range specs {
			if i%5 == 0 || x.thorough {
				part = append(part, s)
			}
		}
		x.genMany(fmt.Sprintf("properties named %q", n), part, func(*Spec) []J { return docs })
	})
	c18structs(x)
	c18names(x)
	c18refs(x)
	c18sets(x)
	c18schemas(x)
	c18compile(x, lists[0].s, lists[1].s, lists[2].s, lists[3].s, lists[4].s, genLists(), feats, awk, smallFloatSpecs())
}

func (x *X) genMany(what string, l []*Spec, docs func(*Spec) []J) {
	for i := 0; i < len(l); i += 40 {
		part := l[i:min(i+40, len(l))]
		x.Case(func() string { return fmt.Sprintf("%s %d, such as %s", what, i, part[0]) }, func() {
			g := makeSet(what, part, genEnv, i%80 == 0)
			for k, s := range part {
				g.docs[k] = append(docs(s), g.docs[k]...)
			}
			x.genCheck(g)
		})
	}
}

// c18structs: defaults that go to fields of structs.
func c18structs(x *X) {
	var specs []*Spec
	for _, d := range []J{0.0, 1.0, -1.0, 7.0, 1.5, 1e15, float64(1 << 53), 5, 0, -5, int8(3), int64(1) << 40, uint(7), uint64(1) << 40, uint64(1) << 63, float32(1.5), float32(2)} {
		specs = append(specs, dint(d), dnum(d))
	}
	specs = append(specs, dstr(""), dstr("d"), dstr("2001-02-03T04:05:06Z"), dbool(true), dbool(false), ref("d"))
	kinds := []J{jsval.MaybeInt{}, jsval.MaybeUint{}, jsval.MaybeFloat{}, jsval.MaybeString{}, jsval.MaybeBool{}, jsval.MaybeTime{}}
	var types []reflect.Type
	for _, k := range kinds {
		for _, t := range []reflect.Type{reflect.TypeOf(k), reflect.PtrTo(reflect.TypeOf(k))} {
			types = append(types, reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `json:"a"`}, {Name: "B", Type: reflect.TypeOf(""), Tag: `json:"b"`}}))
		}
	}
	for _, p := range specs {
		s := obj(Prop{"a", p}, Prop{"b", sStr})
		x.Case(func() string { return "defaults of struct fields, " + s.String() }, func() {
			g := makeSet("struct fields", []*Spec{s}, genEnv, false)
			code, err := genCode(g.vs...)
			if err != nil {
				Failf("%s: generation refused: %s", g, safeError(err))
			}
			vs, ok, err := runCode(code)
			if !ok {
				x.count("sets the evaluator left to the compiler", 1)
				x.Capped = true
				return
			}
			if err != nil {
				Failf("%s: %v\n%s", g, err, trim(code, 2000))
			}
			x.Traces++
			for _, t := range types {
				a, b := reflect.New(t), reflect.New(t)
				x.States++
				x.Transitions += 2
				ea, eb := g.vs[0].Validate(a.Interface()), vs[g.name(0)].Validate(b.Interface())
				if (ea == nil) != (eb == nil) {
					Failf("%s on %s: the original says %v, the generated one %v", s, t, verdict(ea), verdict(eb))
				}
				pa, _ := properties(a.Elem().Interface())
				pb, _ := properties(b.Elem().Interface())
				if ea == nil && (len(pa) != len(pb) || !sameProp(pa["a"], pb["a"])) {
					Failf("%s on %s: afterwards it has %v with the original and %v with the generated validator", s, t, pa, pb)
				}
			}
		})
	}
}

// c18refs: reference graphs, roots that are references, aliases, shared maps.
func c18refs(x *X) {
	targets := []*Spec{sNum, dstr("d"), obj(Prop{"a", ref("a")}, Prop{"b", ref("b")}), arr(ref("b")), any_(sNull, obj(Prop{"x", ref("a")})), ref("b"), not(sStr), enum(1.0)}
	roots := []*Spec{ref("a"), ref("b"), sNum, obj(Prop{"a", ref("a")}, Prop{"b", ref("b")}, Prop{"c", ref("c")}), arr(ref("a")), all(ref("a"), ref("b")), not(ref("a")), oneof(ref("a"), ref("b")), {Kind: "object", Pats: []Prop{{"^a", ref("a")}}, AddProps: ref("b")}, ref("missing"), obj(Prop{"a", ref("missing")})}
	docsR := []J{nil, 1.0, "s", M{}, M{"a": 1.0}, M{"a": "s"}, M{"b": 1.0}, M{"b": L{1.0}}, M{"a": M{"b": 1.0}}, M{"a": nil, "b": nil}, L{}, L{1.0}, L{"s"}, L{M{"a": 1.0}}, L{L{1.0}}, M{"x": M{"x": nil}}, M{"x": 1.0}, M{"a": M{"x": nil}, "b": M{"x": nil}}, M{"c": 1.0}, M{"ab": 1.0}, M{"ab": "s", "q": 1.0}}
	for _, ta := range targets {
		for _, tb := range targets {
			if tb.Kind == "ref" {
				continue // would be a cycle without input
			}
			x.Case(func() string { return fmt.Sprintf("references a = %s, b = %s", ta, tb) }, func() {
				env := Env{"a": ta, "b": tb}
				for k, r := range roots {
					for o := 0; o < 2; o++ {
						setOrder(o)
						g := makeSet("references", []*Spec{r}, env, k%2 == 0)
						g.docs[0] = docsR
						x.genCheck(g)
						// the root is the very constraint that is registered
						v := jsval.New()
						ca, cb := ta.Build(v), tb.Build(v)
						v.SetReference("a", ca)
						v.SetReference("b", cb)
						v.SetReference("0alias", ca)
						v.SetRoot(ca)
						w := jsval.New().SetConstraintMap(v.ConstraintMap)
						w.SetRoot(r.Build(w))
						x.genCheck(&genSet{what: fmt.Sprintf("shared map: %s and %s", ta, r), vs: []*jsval.JSVal{v, w}, docs: [][]J{docsR, docsR}})
					}
				}
				// all roots in one set, sharing the references
				g := makeSet("shared references", roots[:9], env, true)
				for q := range g.docs {
					g.docs[q] = docsR
				}
				x.genCheck(g)
			})
		}
	}
	// disjoint references of several validators
	for n := 1; n <= 40; n++ {
		x.Case(func() string { return fmt.Sprintf("%d validators with references of their own", n) }, func() {
			var vs []*jsval.JSVal
			var ds [][]J
			for i := 0; i < n; i++ {
				env := Env{fmt.Sprintf("r%d", i): enum(float64(i)), fmt.Sprintf("q%d", (i*7)%n): ref(fmt.Sprintf("r%d", i)), "common": sStr}
				s := obj(Prop{"a", ref(fmt.Sprintf("r%d", i))}, Prop{"b", ref(fmt.Sprintf("q%d", (i*7)%n))}, Prop{"c", ref("common")})
				if (i*7)%n != i && n%7 == 0 {
					s.Props = s.Props[:1]
					env = Env{fmt.Sprintf("r%d", i): enum(float64(i))}
				}
				v := s.Validator(env)
				if n%2 == 0 {
					v.SetName(fmt.Sprintf("X%d", n-i))
				}
				vs = append(vs, v)
				var d []J
				for k := 0; k <= n; k++ {
					d = append(d, M{"a": float64(k)}, M{"b": float64(k)})
				}
				ds = append(ds, append(d, M{"c": "s"}, M{"c": 1.0}))
			}
			x.genCheck(&genSet{what: fmt.Sprintf("%d validators with their own references", n), vs: vs, docs: ds})
		})
	}
}

// c18sets: pairs and growing sets; depth and width.
func c18sets(x *X) {
	pool := append(genLeaves(), ref("r"), ref("d"), arr(sNum), obj(Prop{"a", dnum(1.0)}), not(sNull), any_(sStr, sNum), all(), any_(), oneof(), strRx("^a"), enum())
	for _, a := range pool {
		x.Case(func() string { return "pairs with " + a.String() }, func() {
			for _, b := range pool {
				for o := 0; o < 2; o++ {
					setOrder(o)
					x.genCheck(makeSet("pair", []*Spec{a, b}, genEnv, false))
					x.genCheck(makeSet("pair without references", []*Spec{a, b}, nil, true))
				}
			}
		})
	}
	// histories: every sequence of up to 3 generations of subsets, in any
	// order, of the same three validators
	var subsets [][]int
	for i := 0; i < 3; i++ {
		subsets = append(subsets, []int{i})
		for j := 0; j < 3; j++ {
			if j != i {
				subsets = append(subsets, []int{i, j}, []int{i, j, 3 - i - j})
			}
		}
	}
	specs := []*Spec{sNum, obj(Prop{"a", ref("r")}), dstr("x")}
	for hist := 0; hist < len(subsets)*len(subsets); hist++ {
		x.Case(func() string {
			return fmt.Sprintf("generations of %v", []int{hist / len(subsets), hist % len(subsets)})
		}, func() {
			for third := -1; third < len(subsets); third++ {
				full := makeSet("one of three", specs, genEnv, false)
				for _, k := range []int{hist / len(subsets), hist % len(subsets), third} {
					if k < 0 {
						continue
					}
					g := &genSet{what: fmt.Sprintf("generation of %v after others", subsets[k])}
					for _, m := range subsets[k] {
						g.specs, g.vs, g.docs = append(g.specs, specs[m]), append(g.vs, full.vs[m]), append(g.docs, full.docs[m])
					}
					x.genCheck(g)
				}
			}
		})
	}
	for n := 1; n <= 40; n++ {
		x.Case(func() string { return fmt.Sprintf("constraints with %d parts", n) }, func() {
			o := &Spec{Kind: "object"}
			p := &Spec{Kind: "object", AddProps: sEmpty}
			a := &Spec{Kind: "array", HasPos: true, SetAddI: true}
			e := enum()
			sa, so, sl := any_(), oneof(), all()
			deep, deepo := sNum, sNum
			pat := &Spec{Kind: "object"}
			for i := 0; i < n; i++ {
				o.Props = append(o.Props, Prop{nm((i * 7) % 41), dnum(float64(i))})
				p.Required = append(p.Required, nm((i*7)%41))
				p.PropDeps = append(p.PropDeps, Dep{nm((i * 3) % 41), []string{nm((i * 3) % 41), nm(i)}})
				p.SchemaDeps = append(p.SchemaDeps, Prop{nm(i + 50), &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(i + n)}})
				a.Pos = append(a.Pos, enum(float64(i)))
				e.Enum = append(e.Enum, float64(n-i), nm(i))
				sa.Kids = append(sa.Kids, enum(float64(i)))
				so.Kids = append(so.Kids, intMin(float64(i)))
				sl.Kids = append(sl.Kids, not(enum(float64(i))))
				deep = arr(deep)
				deepo = obj(Prop{"a", deepo})
				pat.Pats = append(pat.Pats, Prop{"^" + nm((i*7)%41), enum(float64(i))})
			}
			var d1, d2 J = 1.0, 1.0
			var e1, e2 J = "s", "s"
			for i := 0; i < n; i++ {
				d1, d2, e1, e2 = L{d1}, M{"a": d2}, L{e1}, M{"a": e2}
			}
			g := makeSet("parts", []*Spec{o, p, a, e, sa, so, sl, deep, deepo, pat}, nil, true)
			all := M{}
			list := L{}
			for i := 0; i <= n; i++ {
				for q := range g.docs {
					g.docs[q] = append(g.docs[q], float64(i), M{nm((i * 7) % 41): float64(i)}, M{nm((i * 7) % 41): 0.5}, cpJ(all), append(L{}, list...))
				}
				all[nm((i*7)%41)] = float64(i)
				list = append(list, float64(i))
			}
			for q := range g.docs {
				g.docs[q] = append(g.docs[q], d1, d2, e1, e2)
			}
			x.genCheck(g)
		})
	}
}

func c18schemas(x *X) {
	var raws []M
	for _, t := range append(typeChoices(), nil) {
		for k := 0; k <= 2; k++ {
			if k == 2 && !x.thorough && t != nil && t != "object" && t != "array" {
				continue
			}
			combos(kwAll(), k, func(c []kw) { raws = append(raws, schemaOf(t, c...)) })
		}
	}
	for _, e := range kwValues() {
		raws = append(raws, schemaOf(nil, e), schemaOf("object", e))
	}
	ds := docs()
	for i := 0; i < len(raws); i += 40 {
		part := raws[i:min(i+40, len(raws))]
		x.Case(func() string { return "schemas such as " + text(part[0]) }, func() {
			g := &genSet{what: "schemas such as " + text(part[0])}
			for _, raw := range part {
				v, err := buildSchema(raw, nil)
				if err != nil {
					Failf("%s not built: %v", text(raw), err)
				}
				g.vs = append(g.vs, v)
				g.docs = append(g.docs, ds)
			}
			g.strict(x, part)
		})
	}
	for _, txt := range richSchemas() {
		x.Case(func() string { return "schema " + txt }, func() {
			v, err := buildSchema(jo(txt), jo(txt))
			if err != nil {
				Failf("%s not built: %v", txt, err)
			}
			x.genCheck(&genSet{what: "schema " + txt, vs: []*jsval.JSVal{v}, docs: [][]J{ds}})
		})
	}
}

// strict leaves out schemas whose default is not of their type: those may be
// refused.
func (g *genSet) strict(x *X, part []M) {
	h := &genSet{what: g.what}
	for i, raw := range part {
		if _, ok := raw["default"]; ok {
			if _, err := genCode(g.vs[i]); err != nil {
				continue
			}
		}
		h.vs, h.docs = append(h.vs, g.vs[i]), append(h.docs, g.docs[i])
	}
	x.genCheck(h)
}

// ------------------------------------------------------------- compiling

// c18compile: a cross-section of everything above, through the compiler.
func c18compile(x *X, lists ...[]*Spec) {
	batches := 8
	per := 150
	if x.thorough {
		batches, per = 24, 300
	}
	for b := 0; b < batches; b++ {
		x.Case(func() string { return fmt.Sprintf("compiled batch %d of %d", b, batches) }, func() {
			var sets []*genSet
			total := 0
			for _, l := range lists {
				total += len(l)
			}
			var part []*Spec
			step := total / (batches * per)
			n := 0
			for _, l := range lists {
				for _, s := range l {
					if n%step == 0 && (n/step)%batches == b {
						part = append(part, s)
					}
					n++
				}
			}
			for i := 0; i < len(part); {
				k := 60
				if i < 12 {
					k = 1 + i%3 // some small sets
				}
				j := min(i+k, len(part))
				sets = append(sets, makeSet("compiled", part[i:j], genEnv, i%2 == 0))
				i = j
			}
			for i, txt := range richSchemas() {
				if i%batches == b {
					v, err := buildSchema(jo(txt), jo(txt))
					if err != nil {
						Failf("%s not built: %v", txt, err)
					}
					sets = append(sets, &genSet{what: "schema " + txt, vs: []*jsval.JSVal{v}, docs: [][]J{docs()}})
				}
			}
			if b == 0 {
				sets = append(sets, &genSet{what: "no validators"})
				sets = append(sets, makeSet("odd strings", genStrings()[len(genStrings())-200:], nil, true))
			}
			x.compileSets(sets)
		})
	}
}

// compileSets builds one program from all sets and compares what it prints.
func (x *X) compileSets(sets []*genSet) {
	dir := filepath.Join(x.scratch, "prog")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	src := os.Getenv("MC_SRC")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		must(err)
		must(os.WriteFile(filepath.Join(dir, f), b, 0644))
	}
	for _, p := range []string{"vsync", "vatomic"} {
		must(exec.Command("cp", "-r", filepath.Join(src, p), dir).Run())
	}
	var imports, table bytes.Buffer
	type job struct {
		Set  int
		Name string
		Docs []tagged
	}
	var jobs []job
	for i, g := range sets {
		code, err := genCode(g.vs...)
		if err != nil {
			Failf("%s: generation refused: %s", g, safeError(err))
		}
		pkg := filepath.Join(dir, fmt.Sprintf("g%d", i))
		must(os.MkdirAll(pkg, 0755))
		body := fmt.Sprintf("package g%d\n\nimport \"github.com/lestrrat-go/jsval\"\n\nvar _ = jsval.New\n\n%s\n\nfunc All() map[string]*jsval.JSVal { return map[string]*jsval.JSVal{", i, code)
		for k := range g.vs {
			body += fmt.Sprintf("%q: %s, ", g.name(k), g.name(k))
		}
		must(os.WriteFile(filepath.Join(pkg, "g.go"), []byte(body+"} }\n"), 0644))
		fmt.Fprintf(&imports, "import \"verif.local/g%d\"\n", i)
		fmt.Fprintf(&table, "g%d.All(), ", i)
		for k := range g.vs {
			j := job{Set: i, Name: g.name(k)}
			for _, d := range g.docs[k] {
				if t, ok := tag(d, true); ok {
					j.Docs = append(j.Docs, t)
				}
			}
			jobs = append(jobs, j)
		}
	}
	b, err := json.Marshal(jobs)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "jobs.json"), b, 0644))
	must(os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"github.com/lestrrat-go/jsval\"\n)\n\n"+imports.String()+"\nvar sets = []map[string]*jsval.JSVal{"+table.String()+"}\n"+compiledMain), 0644))
	cmd := exec.Command("go", "build", "-overlay", os.Getenv("MC_OVERLAY"), "-ldflags=-checklinkname=0", "-o", "prog", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GODEBUG=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if strings.Contains(string(out), "g.go:") {
			Failf("the generated code does not compile:\n%s", trim(string(out), 3000))
		}
		fmt.Fprintln(os.Stderr, string(out))
		must(fmt.Errorf("building the program: %v", err))
	}
	run := exec.Command("./prog", "jobs.json")
	run.Dir = dir
	run.Env = append(os.Environ(), "GODEBUG=")
	out, err = run.CombinedOutput()
	if err != nil {
		Failf("the compiled code fails: %v\n%s", err, trim(string(out), 3000))
	}
	var res [][]result18
	must(json.Unmarshal(out, &res))
	n := 0
	for _, g := range sets {
		x.Traces++
		for k, v := range g.vs {
			r := res[n]
			n++
			if r == nil {
				Failf("%s: the compiled code does not define %s, or under another name", g, g.name(k))
			}
			i := 0
			for _, d := range g.docs[k] {
				if _, ok := tag(d, true); !ok {
					continue
				}
				a := cpJ(d)
				e := v.Validate(a)
				x.States++
				x.Transitions += 2
				if (e == nil) != r[i].OK {
					Failf("%s, %s on %s: the original says %s, the compiled code %v", g, g.describe(k), show(d), verdict(e), r[i].OK)
				}
				if t, ok := tag(a, false); ok && e == nil && text(norm(untag(t))) != text(norm(untag(r[i].Doc))) {
					Failf("%s, %s on %s: afterwards the document is %s with the original and %s with the compiled code", g, g.describe(k), show(d), show(a), text(r[i].Doc))
				}
				i++
			}
		}
	}
	x.count("validators compiled", int64(n))
}

// tagged carries a Go value through JSON: ints keep being ints.
type tagged struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"`
	F float64  `json:"f,omitempty"`
	L []tagged `json:"l,omitempty"`
	N []string `json:"n,omitempty"`
}

type result18 struct {
	OK  bool
	Doc tagged
}

func tag(v J, strict bool) (tagged, bool) {
	switch t := v.(type) {
	case nil:
		return tagged{K: "nil"}, true
	case bool:
		return tagged{K: fmt.Sprint(t)}, true
	case string:
		return tagged{K: "s", S: fmt.Sprintf("%q", t)}, true
	case float64:
		return tagged{K: "f", F: t}, !math.IsInf(t, 0) && !(t == 0 && math.Signbit(t))
	case int:
		return tagged{K: "i", F: float64(t)}, true
	case L:
		r := tagged{K: "l"}
		for _, e := range t {
			q, ok := tag(e, strict)
			if !ok {
				return r, false
			}
			r.L = append(r.L, q)
		}
		return r, true
	case M:
		r := tagged{K: "m"}
		for k := range t {
			r.N = append(r.N, k)
		}
		sort.Strings(r.N)
		for i, k := range r.N {
			q, ok := tag(t[k], strict)
			if !ok {
				return r, false
			}
			r.L = append(r.L, q)
			r.N[i] = fmt.Sprintf("%q", k)
		}
		return r, true
	}
	if f, _, ok := asNumber(v); ok && !strict {
		return tagged{K: "f", F: f}, true
	}
	return tagged{}, false
}

func untag(t tagged) J {
	switch t.K {
	case "true", "false":
		return t.K == "true"
	case "s":
		return t.S
	case "f", "i":
		return t.F
	case "l":
		l := L{}
		for _, e := range t.L {
			l = append(l, untag(e))
		}
		return l
	case "m":
		m := M{}
		for i, k := range t.N {
			m[k] = untag(t.L[i])
		}
		return m
	}
	return nil
}

const compiledMain = `
type tagged struct {
	K string
	S string
	F float64
	L []tagged
	N []string
}

func unq(s string) string {
	var r string
	if _, err := fmt.Sscanf(s, "%q", &r); err != nil {
		panic(err)
	}
	return r
}

func untag(t tagged) interface{} {
	switch t.K {
	case "true", "false":
		return t.K == "true"
	case "s":
		return unq(t.S)
	case "f":
		return t.F
	case "i":
		return int(t.F)
	case "l":
		l := []interface{}{}
		for _, e := range t.L {
			l = append(l, untag(e))
		}
		return l
	case "m":
		m := map[string]interface{}{}
		for i, k := range t.N {
			m[unq(k)] = untag(t.L[i])
		}
		return m
	}
	return nil
}

func tag(v interface{}) tagged {
	switch t := v.(type) {
	case nil:
		return tagged{K: "nil"}
	case bool:
		return tagged{K: fmt.Sprint(t)}
	case string:
		return tagged{K: "s", S: fmt.Sprintf("%q", t)}
	case float64:
		return tagged{K: "f", F: t}
	case []interface{}:
		r := tagged{K: "l"}
		for _, e := range t {
			r.L = append(r.L, tag(e))
		}
		return r
	case map[string]interface{}:
		r := tagged{K: "m"}
		for k, e := range t {
			r.N = append(r.N, fmt.Sprintf("%q", k))
			r.L = append(r.L, tag(e))
		}
		return r
	}
	var f float64
	fmt.Sscan(fmt.Sprint(v), &f)
	return tagged{K: "f", F: f}
}

type result struct {
	OK  bool
	Doc tagged
}

func main() {
	var jobs []struct {
		Set  int
		Name string
		Docs []tagged
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	out := make([][]result, len(jobs))
	for i, j := range jobs {
		v := sets[j.Set][j.Name]
		if v == nil || v.Name != j.Name {
			continue
		}
		out[i] = []result{}
		for _, d := range j.Docs {
			doc := untag(d)
			ok := v.Validate(doc) == nil
			out[i] = append(out[i], result{ok, tag(doc)})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
`
