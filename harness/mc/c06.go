package main

import (
	"fmt"
)

func init() {
	register(&check{id: "C06", run: c06, traces: validated,
		bounds: "all 13500 combinations of declared, pattern, required and additional properties, count limits, property and schema dependencies x all 128 maps over four names; full product of 5 declarations x 5 pattern sets x 7 required sets x 4 additional-property constraints x 5 minimum x 4 maximum counts, each against all 256 maps over the names {a,b,ab,c} and the values {absent, number, string, null}, under two map iteration orders; declarations, patterns, requirements, extra properties and count limits at every size up to 40; unusual names and map kinds; nesting to depth 64; 30 quadruples of easily confused property names (empty, case variants, spaces, prefixes, pointers, keywords, control characters) x 648 object configurations x 33 maps; 27 families of look-alike patterns in every order of construction, side by side and combined; numbers of declarations, patterns, requirements and properties at and around powers of two and round numbers up to 1025; limits on properties of up to 2 to the 63rd; the combinations of object keywords with defaulted declarations; values of 50 types with methods; every constraint configured in both orders of the calls; 7 quadruples of names that are not valid UTF-8",
		notes:  []string{"maps whose keys are not strings are outside the property when they are empty"}})
}

func smallMaps() []J {
	names := []string{"a", "b", "ab", "c"}
	var out []J
	var rec func(i int, m M)
	rec = func(i int, m M) {
		if i == len(names) {
			c := M{}
			for k, v := range m {
				c[k] = v
			}
			out = append(out, c)
			return
		}
		rec(i+1, m)
		for _, v := range []J{1.0, "s", nil} {
			m[names[i]] = v
			rec(i+1, m)
			delete(m, names[i])
		}
	}
	rec(0, M{})
	return out
}

type namedMap map[string]interface{}
type keyString string

func c06(x *X) {
	x.controlNames()
	x.methods(obj(), &Spec{Kind: "object", AddProps: sEmpty}, &Spec{Kind: "object", AddProps: sStr}, &Spec{Kind: "object", AddProps: sEmpty, Required: []string{"a"}}, &Spec{Kind: "object", AddProps: sEmpty, MinProps: ip(1), MaxProps: ip(1)}, &Spec{Kind: "object", Props: []Prop{{"a", arr(sStr)}}, AddProps: sEmpty})
	maps := smallMaps()
	props := [][]Prop{nil, {{"a", sNum}}, {{"a", sNum}, {"b", sStr}}, {{"a", not(sNull)}, {"ab", sNull}}, {{"c", sEmpty}, {"b", not(sStr)}, {"a", sEmpty}}}
	pats := [][]Prop{nil, {{"^a", sNum}}, {{"^a", not(sNull)}, {"b$", not(sNum)}}, {{"", not(sNull)}}, {{"^c$", sStr}, {"b", sEmpty}, {"^b", sNum}}}
	reqs := [][]string{nil, {"a"}, {"b"}, {"c"}, {"a", "b"}, {"a", "ab", "c"}, {"zzz"}}
	adds := []*Spec{nil, sEmpty, sNum, not(sNull)}
	mins := []*int{nil, ip(0), ip(1), ip(2), ip(4)}
	maxs := []*int{nil, ip(0), ip(2), ip(3)}
	other := append(notObjects(), plainStruct{})
	for _, p := range props {
		for _, pt := range pats {
			for _, rq := range reqs {
				for _, ad := range adds {
					for _, mi := range mins {
						for _, ma := range maxs {
							s := &Spec{Kind: "object", Props: p, Pats: pt, Required: rq, AddProps: ad, MinProps: mi, MaxProps: ma}
							x.Case(func() string { return s.String() }, func() {
								c := s.Validator(nil)
								x.gridBody(s, nil, maps, c)
								for _, v := range other[:len(other)-1] {
									x.expect(c, v, false, func() string { return s.String() })
								}
							})
						}
					}
				}
			}
		}
	}
	x.features()
	x.defaultedFeatures()
	x.hugeVerdicts("object")
	x.oddlyNamed()
	x.brokenlyNamed()
	x.twins(false)
	x.big(1025, "object")
	c06scale(x)
	c06kinds(x)
	c06nested(x)
}

func nm(i int) string { return fmt.Sprintf("p%02d", i) }

func c06scale(x *X) {
	max := 40
	for n := 0; n <= max; n++ {
		full := M{}
		for i := 0; i < n; i++ {
			full[nm(i)] = float64(i)
		}
		cp := func() M {
			m := M{}
			for k, v := range full {
				m[k] = v
			}
			return m
		}
		var vals []J
		vals = append(vals, cp())
		for i := 0; i < n; i++ {
			m := cp()
			delete(m, nm(i))
			b := cp()
			b[nm(i)] = "bad"
			z := cp()
			z[nm(i)] = nil
			vals = append(vals, m, b, z)
		}
		e := cp()
		e["q"] = 1.0
		e2 := cp()
		e2["q"] = "bad"
		e3 := cp()
		e3["q1"], e3["q2"], e3["r"] = 1.0, 1.0, "bad"
		vals = append(vals, e, e2, e3, M{}, M{nm(n - 1): 1.0}, M{"q": 1.0})
		var ps []Prop
		var req []string
		var pats []Prop
		for i := 0; i < n; i++ {
			ps = append(ps, Prop{nm(i), sNum})
			req = append(req, nm(i))
			pats = append(pats, Prop{"^" + nm(i) + "$", sNum})
		}
		over := []Prop{}
		for i := 0; i < n; i++ { // all match everything; only one objects to each value
			over = append(over, Prop{"^p", not(enum(float64(i + 1)))})
		}
		specs := []*Spec{
			{Kind: "object", Props: ps},
			{Kind: "object", Props: ps, AddProps: sNum},
			{Kind: "object", Props: ps, Required: req, AddProps: sEmpty},
			{Kind: "object", Required: req, AddProps: sNum},
			{Kind: "object", AddProps: sNum},
			{Kind: "object", Pats: pats},
			{Kind: "object", Pats: pats, AddProps: sNum, Required: req},
			{Kind: "object", Pats: []Prop{{"^p", sNum}}, AddProps: sStr},
			{Kind: "object", Props: ps[:n/2], Pats: pats[n/2:], Required: req, AddProps: sStr},
			{Kind: "object", Props: ps, Pats: []Prop{{"^p", sStr}, {"^q", sNum}}},
			{Kind: "object", AddProps: sEmpty, MinProps: ip(n)},
			{Kind: "object", AddProps: sEmpty, MaxProps: ip(n)},
			{Kind: "object", Props: ps, AddProps: sEmpty, MinProps: ip(n), MaxProps: ip(n)},
		}
		if n <= 20 {
			specs = append(specs, &Spec{Kind: "object", Pats: over, AddProps: sEmpty})
		}
		for _, s := range specs {
			x.grid(s, nil, vals)
		}
	}
}

func c06kinds(x *X) {
	names := []string{"", "a", "A", " ", "a.b", "a/b", "%s", "%d%%", "$ref", "é", "日本", "\x00", "\n", "a\"b", "type", repeat("long", 60)}
	for _, n := range names {
		for _, m := range names {
			s := &Spec{Kind: "object", Props: []Prop{{n, sNum}}, Required: []string{n}, AddProps: sStr}
			t := &Spec{Kind: "object", Props: []Prop{{n, sNum}}, Required: []string{m}}
			vals := []J{M{}, M{n: 1.0}, M{n: "s"}, M{m: 1.0}, M{m: "s"}, M{n: 1.0, m: "s"}, M{m: "s", n: 1.0, "zz": "s"}, M{n: nil}}
			x.Case(func() string { return s.String() + " / " + t.String() }, func() {
				x.gridBody(s, nil, vals, s.Validator(nil))
				x.gridBody(t, nil, vals, t.Validator(nil))
			})
		}
	}
	m := M{"a": 1.0}
	pm := &m
	var im J = m
	var ipm J = pm
	nmp := namedMap{"a": 1.0, "b": "s"}
	vals := []J{M{}, m, pm, &pm, &im, &ipm, nmp, &nmp, map[string]float64{"a": 1}, map[string]string{"a": "s"}, map[string]string{}, map[string]int{"b": 1}, map[keyString]interface{}{"a": 1.0}, map[keyString]interface{}{"a": "s", "c": nil}, map[keyString]float64{"b": 2},
		map[string][]string{"a": {"s"}}, map[string]M{"a": {}}, map[string]*float64{"a": nil}, map[string]bool{"a": true, "b": false}, nilMap, map[string]int(nil)}
	for _, p := range [][]Prop{nil, {{"a", sNum}}, {{"b", sStr}}, {{"a", sEmpty}, {"c", sNull}}} {
		for _, rq := range [][]string{nil, {"a"}, {"b"}} {
			for _, ad := range []*Spec{nil, sEmpty, sStr, sNum} {
				for _, mi := range []*int{nil, ip(1), ip(2)} {
					for _, ma := range []*int{nil, ip(0), ip(1)} {
						x.grid(&Spec{Kind: "object", Props: p, Required: rq, AddProps: ad, MinProps: mi, MaxProps: ma}, nil, vals)
						if p == nil && ad != nil {
							x.grid(&Spec{Kind: "object", Pats: []Prop{{"^[ab]$", ad}}, Required: rq, MinProps: mi, MaxProps: ma}, nil, vals)
						}
					}
				}
			}
		}
	}
}

func c06nested(x *X) {
	leafVals := []J{1.0, "s", nil, M{}, M{"a": 1.0}, M{"a": "s"}, M{"b": 1.0}, M{"a": 1.0, "b": 1.0}, L{M{"a": 1.0}}, L{M{"a": "s"}}, L{1.0}}
	var vals []J
	for _, a := range leafVals {
		vals = append(vals, M{"a": a}, M{"b": a}, M{"a": M{"a": a}}, M{"a": L{M{"a": a}}}, a)
		for _, b := range leafVals {
			vals = append(vals, M{"a": a, "b": b})
		}
	}
	inner := []*Spec{obj(Prop{"a", sNum}), {Kind: "object", Required: []string{"a"}, AddProps: sEmpty}, {Kind: "object", Pats: []Prop{{"a", sNum}}}, {Kind: "object", AddProps: sNum, MinProps: ip(1)}, arr(obj(Prop{"a", sNum})), not(obj(Prop{"a", sNum})), any_(sNum, obj(Prop{"a", sNum}))}
	for _, i := range inner {
		for _, j := range inner {
			for _, s := range []*Spec{
				{Kind: "object", Props: []Prop{{"a", i}, {"b", j}}},
				{Kind: "object", Props: []Prop{{"a", i}}, AddProps: j, Required: []string{"a"}},
				{Kind: "object", Pats: []Prop{{"a", i}}, AddProps: j},
				{Kind: "object", Pats: []Prop{{"a", i}, {"[ab]", j}}},
			} {
				x.grid(s, nil, vals)
			}
		}
	}
	for d := 1; d <= 64; d++ {
		for kind := 0; kind < 4; kind++ {
			s := sNum
			var good, bad, miss J = 1.0, "s", nil
			for i := 0; i < d; i++ {
				switch kind {
				case 0:
					s = obj(Prop{"a", s}).with(func(s *Spec) { s.Required = []string{"a"} })
				case 1:
					s = &Spec{Kind: "object", AddProps: s}
				case 2:
					s = &Spec{Kind: "object", Pats: []Prop{{"^a$", s}}}
				case 3:
					s = arr(obj(Prop{"a", s}))
				}
				good, bad, miss = M{"a": good}, M{"a": bad}, M{"a": miss}
				if kind == 3 {
					good, bad, miss = L{good}, L{M{}, bad}, L{miss, miss}
				}
			}
			x.Case(func() string { return fmt.Sprintf("objects nested %d deep, form %d", d, kind) }, func() {
				x.gridBody(s, nil, []J{good, bad, miss, M{"a": good}, M{}}, s.Validator(nil))
			})
		}
	}
}
