package main

func init() {
	register(&check{id: "C03", run: c03, traces: validated,
		bounds: "full product of minimum, maximum, exclusivity, multipleOf and enum domains, numbers and integers, in both chaining orders of the integer calls x a grid of numbers in every Go numeric kind and behind pointers; limits at +-2^k(+-1), k<=53; enumerations of 1..80 members in 4 arrangements; enumerations at and around powers of two and round numbers up to 4097; 30 limits and enumerated numbers and 150 multiples of 15 divisors x their neighbours and what is off by 27 powers of ten, absolutely and relatively; values of 50 types with methods; floating-point limits, divisors and enumerated numbers of 140 magnitudes from 2^53 to the largest, each with its neighbours",
		notes:  []string{"values of integer kinds of magnitudes beyond 2^53, NaN and infinities are outside the property"}})
}

func numVals(thorough bool) []J {
	var vals []J
	for i := -24; i <= 24; i++ {
		vals = append(vals, float64(i)/2)
	}
	for _, f := range []float64{0.1, 0.2, 0.3, 0.30000000000000004, 0.25, 2.5, -0.1, 1e-9, 1e10, 99, 100, 101, 99.5, 1e15, 1e15 + 1, 33, 64, 1 << 40} {
		vals = append(vals, f)
	}
	for _, i := range []int{-128, -100, -11, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 99, 100, 101, 127} {
		f := float64(i)
		f32 := float32(i)
		n := i
		i64 := int64(i)
		i8 := int8(i)
		vals = append(vals, i, int8(i), int16(i), int32(i), int64(i), f32, &f, &f32, &n, &i64, &i8, namedInt(i), namedFloat(f))
		if i >= 0 {
			u8 := uint8(i)
			u := uint(i)
			vals = append(vals, u, u8, uint16(i), uint32(i), uint64(i), uintptr(i), &u, &u8)
		}
	}
	vals = append(vals, float32(1.5), float32(0.1), float32(-2.5), namedFloat(0.5))
	return append(vals, notNumbers()...)
}

func c03(x *X) {
	x.longEnums("number")
	x.longEnums("integer")
	x.big(4097, "number")
	x.closeNumbers()
	x.hugeNumbers()
	x.methods(sNum, sInt, numMin(2), intMin(2), intMax(2), sNum.with(func(s *Spec) { s.Mult = fp(1.5) }), sInt.with(func(s *Spec) { s.Mult = fp(2) }), sInt.with(func(s *Spec) { s.Enum, s.HasEnum = []J{3.0}, true }))
	vals := numVals(x.thorough)
	lims := []*float64{nil, fp(-2.5), fp(-1), fp(0), fp(1), fp(3), fp(100)}
	if x.thorough {
		lims = append(lims, fp(0.5), fp(-100), fp(1e15), fp(2), fp(0.1))
	}
	mults := []*float64{nil, fp(0), fp(1), fp(2), fp(3), fp(0.5), fp(0.1), fp(-2)}
	enums := [][]J{nil, {}, {1.0}, {2.5, 4.0, -1.0, 0.1}, {"1", true, 3.0}}
	for _, kind := range []string{"number", "integer"} {
		for _, mi := range lims {
			for _, ma := range lims {
				for ex := 0; ex < 4; ex++ {
					for _, mu := range mults {
						for _, e := range enums {
							s := &Spec{Kind: kind, Min: mi, Max: ma, ExMin: ex&1 != 0, ExMax: ex&2 != 0, Mult: mu, HasEnum: e != nil, Enum: e}
							x.grid(s, nil, vals)
						}
					}
				}
			}
		}
	}
	// limits of every magnitude and sign
	for _, kind := range []string{"number", "integer"} {
		for e := 0; e <= 53; e++ {
			for _, sign := range []float64{1, -1} {
				for d := -1.0; d <= 1; d++ {
					lim := sign * (float64(uint64(1)<<e) + d)
					if e == 53 && d > 0 {
						continue
					}
					var vs []J
					for _, dd := range []float64{-2, -1, -0.5, 0, 0.5, 1, 2} {
						v := lim + dd
						if v > 1<<53 || v < -(1<<53) {
							continue
						}
						vs = append(vs, v, -v)
						if v == float64(int64(v)) {
							vs = append(vs, int64(v), int(v), -int64(v))
							if v >= 0 {
								vs = append(vs, uint64(v), uint(v))
							}
							if v >= -1<<31 && v < 1<<31 {
								vs = append(vs, int32(v))
							}
						}
					}
					for m := 0; m < 5; m++ {
						s := k(kind)
						switch m {
						case 0:
							s.Min = fp(lim)
						case 1:
							s.Max = fp(lim)
						case 2:
							s.Min, s.ExMin = fp(lim), true
						case 3:
							s.Max, s.ExMax = fp(lim), true
						case 4:
							s.HasEnum, s.Enum = true, []J{lim}
						}
						x.grid(s, nil, vs)
					}
				}
			}
		}
		// multiples of everything small
		for m := 1; m <= 130; m++ {
			for _, scale := range []float64{1, 0.5, 0.125, 0.01} {
				mu := float64(m) * scale
				var vs []J
				for q := -70; q <= 70; q++ {
					vs = append(vs, float64(q)*mu, float64(q), float64(q)*mu+0.5, q)
				}
				x.grid(k(kind).with(func(s *Spec) { s.Mult = fp(mu) }), nil, vs)
			}
		}
		// long enumerations
		for n := 1; n <= 40; n++ {
			var e []J
			for i := 0; i < n; i++ {
				e = append(e, float64(i*3))
			}
			var vs []J
			for i := -1; i <= 3*n; i++ {
				vs = append(vs, float64(i), i, uint8(i))
			}
			x.grid(k(kind).with(func(s *Spec) { s.HasEnum, s.Enum = true, e }), nil, vs)
		}
	}
}
