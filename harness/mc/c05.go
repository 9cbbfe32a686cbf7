package main

import (
	"fmt"
)

func init() {
	register(&check{id: "C05", run: c05, traces: validated,
		bounds: "full product of item, positional (0-3), additional (unset, nil, empty, typed), min/max items and uniqueness x all lists up to length 4 (quick) or 5 over 4 elements, typed slices and non-slices; uniqueness of every pair over an alphabet of lookalike values in lists of length 2-4, and over 69 confusable strings and numbers, bare and in 5 wrappings; elements of up to 5000 characters or 513 entries that differ in one place; lengths 0..140 with the bad element, a duplicate pair or a limit at every position; lengths at and around powers of two and round numbers up to 100001; slices and arrays with spare capacity beyond their length, whose hidden elements must not count; limits on items of up to 2 to the 63rd; values of 50 types with methods; 250000 (thorough: 1000000) different elements of five sorts, with and without one repeated; every constraint configured in both orders of the calls",
		notes:  []string{"an empty positional list (draft 4 forbids it) and cyclic values are outside the property"}})
}

func c05(x *X) {
	x.manyElements()
	x.methods(k("array"), arr(sStr), arr(sInt), &Spec{Kind: "array", MinItems: ip(1), MaxItems: ip(1)}, &Spec{Kind: "array", Unique: true}, &Spec{Kind: "array", HasPos: true, Pos: []*Spec{sStr}, SetAddI: true})
	n := 4
	if x.thorough {
		n = 5
	}
	var vals []J
	for _, l := range lists([]J{1.0, "s", nil, L{}}, n) {
		vals = append(vals, l)
	}
	vals = append(vals, []string{}, []string{"s"}, []string{"a", "b"}, []string{"a", "a"}, []float64{1, 2}, []float64{1, 1}, []int{1, 2, 3}, []interface{}{1}, []M{{}, {}}, []M{{"a": 1.0}, {"a": 2.0}}, [][]string{{"a"}, {"a"}}, [][]string{{"a"}, {"b"}}, []bool{true, false}, []byte("ab"), nilSlice, []string(nil))
	vals = append(vals, notSlices()...)
	items := []*Spec{nil, sStr, sNum, sEmpty, not(sNull)}
	poss := [][]*Spec{nil, {sNum}, {sEmpty, sStr}, {sNum, not(sNum), sEmpty}, {sStr, sStr, sStr}}
	type add struct {
		set bool
		s   *Spec
	}
	adds := []add{{false, nil}, {true, nil}, {true, sEmpty}, {true, sNum}, {true, sStr}}
	mins := []*int{nil, ip(0), ip(1), ip(2), ip(3)}
	maxs := []*int{nil, ip(0), ip(1), ip(3), ip(4)}
	for _, it := range items {
		for _, p := range poss {
			for _, a := range adds {
				for _, mi := range mins {
					for _, ma := range maxs {
						for _, u := range []bool{false, true} {
							s := &Spec{Kind: "array", Items: it, Pos: p, HasPos: p != nil, SetAddI: a.set, AddItems: a.s, MinItems: mi, MaxItems: ma, Unique: u}
							if p != nil && !a.set {
								// the constructor's additional-items default is in dispute with its documentation
								continue
							}
							x.grid(s, nil, vals)
						}
					}
				}
			}
		}
	}
	c05unique(x)
	x.confused(true)
	x.bothZeros()
	x.spareCapacity()
	x.hugeVerdicts("array")
	x.longUnique()
	c05long(x)
	x.big(100001, "array")
	c05nested(x)
}

// lookalikes collide under careless notions of equality.
func lookalikes() []J {
	return []J{nil, true, false, 0.0, 1.0, 2.0, 10.0, 1.5, 1e21, 123456789.0, 123456790.0, 0.1, 0.30000000000000004, 0.3, "", " ", "a", "A", "b", "1", "0", "true", "false", "nil", "<nil>", "null", "é", "e\u0301", "1.5", "a b", "a,b", "\"a\"", "[]", "[a b]", "[1]", "{}", "map[]", "map[a:1]", "%!s(float64=1)",
		L{}, L{nil}, L{1.0}, L{"1"}, L{"a"}, L{"a", "b"}, L{"b", "a"}, L{"a b"}, L{"a", L{"b"}}, L{L{"a"}, "b"}, L{L{"a", "b"}}, L{L{}}, L{0.0}, L{false}, L{""}, L{M{}},
		M{}, M{"a": nil}, M{"a": 1.0}, M{"a": "1"}, M{"a": 2.0}, M{"b": 1.0}, M{"a": 1.0, "b": 2.0}, M{"a": 2.0, "b": 1.0}, M{"a": "1 b:2"}, M{"a": L{}}, M{"a": M{}}, M{"": ""}, M{"a": M{"b": 1.0}}, M{"a": M{"b": 2.0}}, M{"a": L{1.0, 2.0}}, M{"a": L{1.0, 3.0}}}
}

func c05unique(x *X) {
	la := lookalikes()
	s := &Spec{Kind: "array", Unique: true}
	st := s.with(func(s *Spec) { s.Items = sEmpty })
	sp := s.with(func(s *Spec) { s.HasPos, s.Pos, s.SetAddI, s.AddItems = true, []*Spec{sEmpty}, true, sEmpty })
	for i := range la {
		var vals []J
		for j := range la {
			vals = append(vals, L{la[i], la[j]}, L{la[i], "x", la[j]}, L{"x", 77.0, la[i], la[j]}, L{la[i], 77.0, M{"z": 1.0}, la[j]})
		}
		for _, c := range []*Spec{s, st, sp} {
			x.Case(func() string { return c.String() + " pairs with " + show(la[i]) }, func() { x.gridBody(c, nil, vals, c.Validator(nil)) })
		}
	}
}

func c05long(x *X) {
	lens := []int{}
	for l := 0; l <= 140; l++ {
		if l > 40 && l%8 > 1 && l%8 < 7 && !x.thorough {
			continue
		}
		lens = append(lens, l)
	}
	for _, l := range lens {
		base := make(L, l)
		for i := range base {
			base[i] = float64(i)
		}
		mod := func(f func(c L)) L { c := append(L{}, base...); f(c); return c }
		bads := []J{base}
		dups := []J{base}
		for i := 0; i < l; i++ {
			bads = append(bads, mod(func(c L) { c[i] = "bad" }))
			step := 1
			if l > 40 && !x.thorough {
				step = 5
			}
			for j := 0; j < i; j += step {
				dups = append(dups, mod(func(c L) { c[i] = c[j] }))
			}
			if i > 0 {
				dups = append(dups, mod(func(c L) { c[i] = c[i-1] }), mod(func(c L) { c[i] = c[0] }))
			}
		}
		un := &Spec{Kind: "array", Unique: true}
		x.Case(func() string { return fmt.Sprintf("items number, length %d", l) }, func() {
			s := arr(sNum)
			x.gridBody(s, nil, bads, s.Validator(nil))
			s = arr(sNum).with(func(s *Spec) { s.Unique = true })
			x.gridBody(s, nil, bads, s.Validator(nil))
		})
		x.Case(func() string { return fmt.Sprintf("unique, length %d", l) }, func() {
			x.gridBody(un, nil, dups, un.Validator(nil))
		})
		// limits
		for d := -1; d <= 1; d++ {
			if l+d < 0 {
				continue
			}
			s1 := &Spec{Kind: "array", MinItems: ip(l + d)}
			s2 := &Spec{Kind: "array", MaxItems: ip(l + d)}
			s3 := &Spec{Kind: "array", MinItems: ip(l + d), MaxItems: ip(l + d), Items: sNum, Unique: true}
			var vs []J
			for e := -2; e <= 2; e++ {
				if l+e >= 0 {
					v := make(L, l+e)
					for i := range v {
						v[i] = float64(i)
					}
					vs = append(vs, v)
				}
			}
			for _, n := range []int{0, 1, 5, 9, 33, 65, 129, 200} {
				vs = append(vs, make([]int, n), make(L, n))
			}
			for _, s := range []*Spec{s1, s2, s3} {
				x.grid(s, nil, vs)
			}
		}
		// positional lists of every length, arrays around it
		if l >= 1 && l <= 40 {
			pos := make([]*Spec, l)
			for i := range pos {
				pos[i] = enum(float64(i))
			}
			var vs []J
			for al := 0; al <= l+12; al++ {
				v := make(L, al)
				for i := range v {
					v[i] = float64(i)
					if i >= l {
						v[i] = "more"
					}
				}
				vs = append(vs, v)
				for i := 0; i < al; i++ {
					c := append(L{}, v...)
					if i < l {
						c[i] = float64(i + 1)
					} else {
						c[i] = 5.0
					}
					vs = append(vs, c)
				}
			}
			for _, a := range []*Spec{nil, sEmpty, sStr, sNum} {
				x.grid(&Spec{Kind: "array", HasPos: true, Pos: pos, SetAddI: true, AddItems: a}, nil, vs)
			}
		}
	}
}

func c05nested(x *X) {
	var in []J
	for _, l := range lists([]J{1.0, "s"}, 2) {
		in = append(in, l)
	}
	in = append(in, "s", 1.0, nil)
	var vals []J
	for _, l := range lists(in, 2) {
		vals = append(vals, l)
	}
	for _, inner := range []*Spec{arr(sNum), {Kind: "array", HasPos: true, Pos: []*Spec{sNum}, SetAddI: true}, {Kind: "array", Unique: true}, {Kind: "array", MinItems: ip(1), MaxItems: ip(1)}, any_(sStr, arr(sStr)), not(arr(nil))} {
		for _, u := range []bool{false, true} {
			x.grid(arr(inner).with(func(s *Spec) { s.Unique = u }), nil, vals)
			x.grid(&Spec{Kind: "array", Unique: u, HasPos: true, Pos: []*Spec{inner}, SetAddI: true, AddItems: inner}, nil, vals)
			x.grid(&Spec{Kind: "array", Unique: u, HasPos: true, Pos: []*Spec{sEmpty, inner}, SetAddI: true}, nil, vals)
		}
	}
	// deep nesting: arrays in arrays, the innermost element good or bad
	for d := 1; d <= 64; d++ {
		s := sNum
		var good, bad J = 1.0, "s"
		for i := 0; i < d; i++ {
			s = arr(s)
			good, bad = L{good}, L{bad}
		}
		x.Case(func() string { return fmt.Sprintf("arrays nested %d deep", d) }, func() {
			x.gridBody(s, nil, []J{good, bad, L{good}, good.(L)[0]}, s.Validator(nil))
		})
	}
}
