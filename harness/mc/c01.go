package main

import (
	"encoding/json"
)

const validated = "each (constraint, value) pair of the model is executed on the real library through its public API and the verdicts are compared"

func init() {
	register(&check{id: "C01", run: c01, traces: validated,
		bounds: "full product of minLength, maxLength, pattern and enum domains x all strings up to length 3 (quick) or 4 over a 6-symbol alphabet with multi-byte and invalid characters x named types, pointers and non-strings; every length limit 0..300 x lengths around it in 1-4 byte characters; enumerations of 1..80 members in 4 arrangements x every member and its neighbours; 27 families of look-alike patterns in every order of construction, side by side and combined; lengths and enumerations at and around powers of two and round numbers up to 100001 and 4097; 37 patterns about beginnings, ends, lines and white space x all strings up to length 3 (quick) or 4 over letters, line ends, white space, control, multi-byte and invalid characters; values of 50 types with methods; length limits of up to 2 to the 63rd; every Unicode code point, alone and beside a letter, against length limits, patterns and an enumeration"})
}

func c01(x *X) {
	x.longEnums("string")
	x.twins(true)
	x.big(100001, "string")
	x.controlPatterns()
	x.everyRune()
	x.methods(sStr, strMin(3), strMax(2), strRx("^a"), &Spec{Kind: "string", Enum: []J{"ab", "1"}, HasEnum: true}, &Spec{Kind: "string", Format: "ipv4"})
	x.hugeVerdicts("string")
	n := 3
	if x.thorough {
		n = 4
	}
	strs := stringsOver([]string{"a", "b", "é", "日", "😀", "\xff"}, n)
	vals := toJ(strs)
	for _, s := range []string{"", "a", "ab", "日本", "bbb", "abab"} {
		vals = append(vals, namedString(s), sp(s), json.Number(s))
		ns := namedString(s)
		vals = append(vals, &ns)
	}
	// enumerations up to long lists
	long := []J{}
	for i := 0; i < 40; i++ {
		long = append(long, repeat("b", i+1))
	}
	vals = append(vals, repeat("b", 39), repeat("b", 40), repeat("b", 41))
	vals = append(vals, notStrings()...)
	lens := []*int{nil, ip(0), ip(1), ip(2), ip(3), ip(4)}
	rxs := []string{"-", "", "^a", "b$", "^[ab]*$", "é", "^.{2}$", "^(a|日)+$", "(?i)^A"}
	enums := [][]J{nil, {}, {"a"}, {"ab", "a", "日本"}, {"", "b"}, {1, true, "b"}, long}
	for _, mi := range lens {
		for _, ma := range lens {
			for _, r := range rxs {
				for _, e := range enums {
					s := &Spec{Kind: "string", MinLen: mi, MaxLen: ma, HasRx: r != "-", Rx: r, HasEnum: e != nil, Enum: e}
					if r == "-" {
						s.Rx = ""
					}
					x.grid(s, nil, vals)
				}
			}
		}
	}
	// every limit up to 300, with strings of every kind of character around it
	for lim := 0; lim <= 300; lim++ {
		for side := 0; side < 3; side++ {
			var s *Spec
			switch side {
			case 0:
				s = strMin(lim)
			case 1:
				s = strMax(lim)
			case 2:
				s = strMin(lim).with(func(s *Spec) { s.MaxLen = ip(lim + 1) })
			}
			var vs []J
			for _, d := range []int{-2, -1, 0, 1, 2, 3, 17} {
				l := lim + d
				if l < 0 {
					continue
				}
				for _, ch := range []string{"a", "é", "日", "😀", "\xff", "e\u0301"} {
					vs = append(vs, repeat(ch, l))
				}
				vs = append(vs, repeat("a日", l/2)+repeat("x", l%2), repeat("é", l/3)+repeat("y", l-l/3))
			}
			for _, l := range []int{0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300} {
				vs = append(vs, repeat("é", l), repeat("z", l))
			}
			x.grid(s, nil, vs)
		}
	}
	// patterns on long and multi-line strings
	for _, p := range []string{"^a+$", "b", "^.*c$", "\\d{3}", "^[^b]*$", "(?s)^a.b$", "(?m)^x$"} {
		var vs []J
		for l := 0; l < 140; l++ {
			vs = append(vs, repeat("a", l), repeat("a", l)+"b", "b"+repeat("a", l), repeat("a", l)+"c", repeat("a", l)+"123", "x\n"+repeat("y", l), repeat("a", l)+"\nb", repeat("a", l/2)+"b"+repeat("a", l-l/2))
		}
		vs = append(vs, "x", "y\nx\nz", "a\nb", "ab")
		x.grid(strRx(p), nil, vs)
		x.grid(strRx(p).with(func(s *Spec) { s.MinLen, s.MaxLen = ip(1), ip(64) }), nil, vs)
	}
}
