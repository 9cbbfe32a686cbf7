package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/lestrrat-go/jsval"
)

// formatNames: names that resemble the known formats but are not restrict
// nothing.
func (x *X) formatNames() {
	known := []string{"date-time", "datetime", "email", "hostname", "ipv4", "ipv6", "uri"}
	isKnown := map[string]bool{}
	for _, n := range known {
		isKnown[n] = true
	}
	var names []string
	add := func(n string) {
		if !isKnown[n] {
			isKnown[n] = true
			names = append(names, n)
		}
	}
	for _, n := range known {
		add(strings.ToUpper(n))
		add(strings.Title(n))
		for i := range n {
			add(n[:i])
			add(n[i+1:])
			add(n[:i] + n[i+1:])
			add(n[:i] + strings.ToUpper(n[i:i+1]) + n[i+1:])
			add(n[:i] + "-" + n[i:])
			add(n[:i] + "_" + n[i:])
		}
		for _, p := range []string{" ", "-", "x-", "\x00", "idn-", "i", "\t", "/", "#"} {
			add(p + n)
			add(n + p)
		}
		for _, m := range known {
			add(n + m)
			add(n + "," + m)
			add(n + " " + m)
			add(n + "|" + m)
		}
	}
	for _, n := range []string{"date", "time", "ip", "ip-address", "host-name", "url", "uri-reference", "iri", "uuid", "regex", "json-pointer", "color", "phone", "utc-millisec", "ipv5", "ipv", "mail", "e-mail", "dateTime", "IPv4", "IPv6", "none", "any", "*", "string"} {
		add(n)
	}
	vals := []J{"", "a", "foo bar", "1", "::1", "1.2.3.4", "a@b", "example.com", "http://x/", "%zz", "2006-01-02T15:04:05Z", "-", "\xff", "é"}
	for i := 0; i < len(names); i += 16 {
		part := names[i:min(i+16, len(names))]
		x.Case(func() string { return fmt.Sprintf("unknown formats such as %q", part[0]) }, func() {
			x.count("unknown formats", int64(len(part)))
			for _, n := range part {
				for _, s := range []*Spec{sStr.with(func(s *Spec) { s.Format = n }), strMin(2).with(func(s *Spec) { s.Format = n })} {
					x.gridBody(s, nil, vals, s.Validator(nil))
				}
			}
		})
	}
}

// hugeNumbers: floating point numbers beyond 2^53 as limits, enumerated
// values and values, each with its neighbours.
func (x *X) hugeNumbers() {
	var lims []float64
	for e := 53; e < 1024; e++ {
		if e < 130 || e%16 == 0 || e > 1020 || x.thorough {
			lims = append(lims, math.Ldexp(1, e))
		}
	}
	for e := 16; e <= 308; e++ {
		if e < 40 || e%10 == 0 || e > 305 || x.thorough {
			lims = append(lims, math.Pow10(e), 1.5*math.Pow10(e))
		}
	}
	lims = append(lims, math.MaxFloat64, math.MaxFloat32, float64(math.MaxInt64), float64(math.MaxUint64), 1<<53+2)
	for _, f := range lims {
		if math.IsInf(f, 0) {
			continue
		}
		x.Case(func() string { return fmt.Sprintf("numbers around %v", f) }, func() {
			x.count("numbers beyond 2^53", 1)
			for _, sign := range []float64{1, -1} {
				lim := f * sign
				up, down := math.Nextafter(lim, math.MaxFloat64), math.Nextafter(lim, -math.MaxFloat64)
				if math.IsInf(up, 0) {
					up = lim
				}
				vs := []J{lim, up, down, -lim, 0.0, 1.0, lim / 2, 3, uint8(3), math.MaxFloat64, -math.MaxFloat64, &lim, namedFloat(lim), namedFloat(down), "s", nil}
				if f32 := float32(lim); !math.IsInf(float64(f32), 0) {
					vs = append(vs, f32)
				}
				for _, kind := range []string{"number", "integer"} {
					for m := 0; m < 7; m++ {
						s := k(kind)
						switch m {
						case 0:
							s.Min = fp(lim)
						case 1:
							s.Max = fp(lim)
						case 2:
							s.Min, s.ExMin = fp(lim), true
						case 3:
							s.Max, s.ExMax = fp(lim), true
						case 4:
							s.HasEnum, s.Enum = true, []J{lim}
						case 5:
							s.Min, s.Max = fp(down), fp(up)
						case 6:
							s.Mult = fp(f)
						}
						x.gridBody(s, nil, vs, s.Validator(nil))
					}
				}
			}
		})
	}
}

// manyElements: arrays of very many different elements, which are unique
// until one of them is repeated.
func (x *X) manyElements() {
	n := 250000
	if x.thorough {
		n = 1000000
	}
	kinds := []struct {
		name string
		at   func(i int) J
	}{
		{"strings", func(i int) J { return fmt.Sprint(i*i, "-", i) }},
		{"numbers", func(i int) J { return float64(i)*1.00000011 + 0.5 }},
		{"integers", func(i int) J { return i }},
		{"lists", func(i int) J { return L{float64(i % 1000), fmt.Sprint(i / 1000)} }},
		{"mixed", func(i int) J {
			switch i % 3 {
			case 0:
				return float64(i)
			case 1:
				return fmt.Sprint(i)
			}
			return M{"a": float64(i)}
		}},
	}
	for _, k := range kinds {
		x.Case(func() string { return fmt.Sprintf("%d different %s", n, k.name) }, func() {
			x.count("elements", int64(n))
			l := make(L, n)
			for i := range l {
				l[i] = k.at(i)
			}
			c := jsval.Array().UniqueItems(true)
			x.Traces++
			x.expect(c, l, true, func() string { return fmt.Sprintf("unique items, %d different %s", n, k.name) })
			for _, r := range [][2]int{{0, n - 1}, {n / 2, n - 1}, {n - 2, n - 1}, {1, n / 3}} {
				keep := l[r[1]]
				l[r[1]] = k.at(r[0])
				x.States++
				if c.Validate(l) == nil {
					Failf("unique items: element %d of %d %s equals element %d", r[1], n, k.name, r[0])
				}
				l[r[1]] = keep
			}
			x.expect(jsval.Array().UniqueItems(true).MaxItems(n), l, true, func() string { return "and maxItems" })
			x.expect(jsval.Array().UniqueItems(true).MaxItems(n-1), l, false, func() string { return "and a smaller maxItems" })
		})
	}
}

// alternatives: objects with defaults of which one fails and the next one is
// tried, under every map order. What failed must not show in the next one.
func (x *X) alternatives(limit int) {
	e := sEmpty
	firsts := []*Spec{
		obj(Prop{"a", dstr("x")}, Prop{"b", sStr}),
		obj(Prop{"a", dstr("x")}, Prop{"b", sNum}, Prop{"c", dnum(1.0)}),
		{Kind: "object", Props: []Prop{{"a", dstr("x")}, {"c", dnum(2.0)}}, Pats: []Prop{{"^b", sStr}}},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}}, AddProps: sStr},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}}, AddProps: e, PropDeps: []Dep{{"b", []string{"c"}}}},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}, {"b", e}}, AddProps: e, Required: []string{"c"}},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}, {"b", e}, {"c", e}}, Required: []string{"c"}},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}, {"b", e}}, AddProps: e, SchemaDeps: []Prop{{"b", &Spec{Kind: "object", AddProps: e, Required: []string{"c"}}}}},
		{Kind: "object", Props: []Prop{{"a", dstr("x")}, {"b", e}}, AddProps: e, MaxProps: ip(0)},
	}
	seconds := []*Spec{
		{Kind: "object", AddProps: e, MaxProps: ip(1)},
		{Kind: "object", AddProps: e, MinProps: ip(2)},
		{Kind: "object", AddProps: e, Required: []string{"a"}},
		{Kind: "object", AddProps: sNum},
		{Kind: "object", Props: []Prop{{"b", e}, {"c", e}}},
		{Kind: "object", AddProps: e, PropDeps: []Dep{{"a", []string{"b", "c"}}}},
		{Kind: "object", Props: []Prop{{"a", sNum}}, AddProps: e},
		not(&Spec{Kind: "object", Props: []Prop{{"a", sStr}}, AddProps: e, Required: []string{"a"}}),
	}
	maps := presence([]string{"a", "b", "c"}, []J{1.0, "s"})
	for i, f := range firsts {
		for j, s := range seconds {
			x.Case(func() string { return fmt.Sprintf("%s, then %s (%d, %d)", f, s, i, j) }, func() {
				x.count("alternatives", 1)
				for _, m := range maps {
					if f.Eval(nil, m) {
						continue // it may store its defaults
					}
					want := s.Eval(nil, m)
					for w, c := range []*Spec{any_(f, s), oneof(f, s), all(not(f), s), any_(f, f, s), not(any_(f, s)), oneof(f, not(s))} {
						want := want
						if w >= 4 {
							want = !want
						}
						x.Traces++
						x.States++
						n, complete := allOrders(limit, func(int) {
							var v *jsval.JSVal
							var in M
							hold(func() { v = c.Validator(nil); in = cpJ(m).(M) })
							err := v.Validate(in)
							hold(func() {
								x.Transitions++
								if (err == nil) != want {
									Failf("%s on %s: error %v, expected accept=%v, map order choices %v", c, show(m), err, want, verifState.Choice[:verifState.N])
								}
								if !reflect.DeepEqual(in, m) {
									Failf("%s on %s: content afterwards is %s, map order choices %v", c, show(m), show(in), verifState.Choice[:verifState.N])
								}
							})
						})
						if !complete {
							x.Capped = true
						}
						x.count("orders", int64(n))
					}
				}
			})
		}
	}
}

// c16long: enumerations of many members of one type, and one of another type
// at every place.
func c16long(x *X) {
	kinds := []func(i int) J{
		func(i int) J { return fmt.Sprint("s", i) }, func(i int) J { return float64(i) + 10 }, func(i int) J { return float64(i) + 0.5 }, func(i int) J { return L{float64(i)} }, func(i int) J { return M{"n": float64(i)} },
	}
	odd := []J{nil, true, 1.0, 2.5, "a", L{}, M{}}
	ds := []J{nil, true, false, 1.0, 2.5, "a", L{}, M{}, "s0", "s1", 10.0, 11.0, 0.5, 1.5, L{0.0}, L{1.0}, M{"n": 0.0}, M{"n": 1.0}, L{true}, "", 3.0}
	sizes := []int{2, 3, 5, 9, 17, 33, 65, 101}
	var raws []M
	for _, k := range kinds {
		for _, n := range sizes {
			for p := 0; p < n; p++ {
				if n > 20 && p > 1 && p%8 > 1 && p < n-1 {
					continue
				}
				for _, o := range odd {
					l := make(L, n)
					for i := range l {
						l[i] = k(i)
					}
					l[p] = o
					raws = append(raws, M{"enum": l})
				}
			}
		}
	}
	x.schemaGroup("one odd member", raws, ds)
}

// genPositions: lists of positions with nothing to check in some of them,
// and every kind of child in every place for which nothing to check is a
// choice of its own.
func genPositions() []*Spec {
	var out []*Spec
	choice := []*Spec{sEmpty, sStr, ref("r"), not(sEmpty), all(), all(sEmpty), any_(sEmpty)}
	for _, a := range append([]*Spec{nil}, choice...) {
		add := func(pos ...*Spec) {
			out = append(out, &Spec{Kind: "array", HasPos: true, Pos: pos, SetAddI: true, AddItems: a})
		}
		for _, p := range choice {
			add(p)
			for _, q := range choice {
				add(p, q)
				if a == nil || a == sEmpty {
					for _, r := range choice {
						add(p, q, r)
					}
				}
			}
		}
		add(sEmpty, sEmpty, sEmpty, sEmpty)
		add(sStr, sEmpty, sStr, sEmpty)
	}
	for _, a := range choice {
		out = append(out, arr(a), obj(Prop{"a", a}), &Spec{Kind: "object", AddProps: a}, &Spec{Kind: "object", Pats: []Prop{{"^a", a}}}, &Spec{Kind: "object", Pats: []Prop{{"^a", a}}, AddProps: sStr},
			&Spec{Kind: "object", AddProps: sEmpty, SchemaDeps: []Prop{{"a", a}}}, &Spec{Kind: "object", Props: []Prop{{"a", a}}, AddProps: sNum, Required: []string{"a"}})
		for _, b := range choice {
			out = append(out, any_(a, b), oneof(a, b), all(a, b), not(any_(a, b)), oneof(a, b, a))
		}
	}
	return out
}

func positionDocs(*Spec) []J {
	ds := []J{nil, 1.0, "s", M{}, M{"a": "s"}, M{"a": 1.0}, M{"b": "s"}, M{"a": nil, "b": 1.0}, M{"a": "s", "b": "s"}}
	for _, l := range lists([]J{"s", 1.0}, 4) {
		ds = append(ds, l)
	}
	return append(ds, L{"s", "s", "s", "s", "s"}, L{1.0, nil, M{}, "s", 2.0})
}
