package main

// objectFeatures: every combination of one choice per object keyword, so that
// no keyword's treatment can depend unnoticed on another one being there.
func objectFeatures(props [][]Prop, schemadeps bool, each func(*Spec)) {
	open := func(f func(*Spec)) *Spec { return (&Spec{Kind: "object", AddProps: sEmpty}).with(f) }
	if props == nil {
		props = [][]Prop{nil, {{"a", sEmpty}}, {{"a", sNum}, {"b", sStr}}, {{"b", sEmpty}, {"c", sEmpty}, {"a", not(sNull)}}}
	}
	pats := [][]Prop{nil, {{"^a", sEmpty}}, {{"^[bc]", not(sStr)}}}
	reqs := [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"c"}}
	adds := []*Spec{nil, sEmpty, sNum}
	type mm struct{ min, max *int }
	lims := []mm{{nil, nil}, {ip(1), nil}, {nil, ip(1)}, {ip(2), ip(2)}, {nil, ip(3)}}
	pdeps := [][]Dep{nil, {{"a", []string{"b"}}}, {{"a", []string{"b", "c"}}}, {{"b", []string{"a"}}, {"c", []string{"a"}}}, {{"a", nil}, {"b", []string{"b", "c", "c"}}}}
	sdeps := [][]Prop{nil, {{"b", open(func(s *Spec) { s.Required = []string{"c"} })}}, {{"c", open(func(s *Spec) { s.MaxProps = ip(2) })}, {"a", open(func(s *Spec) { s.Props = []Prop{{"a", sNum}} })}}}
	if !schemadeps {
		sdeps = sdeps[:1]
	}
	for _, p := range props {
		for _, pt := range pats {
			for _, rq := range reqs {
				for _, ad := range adds {
					for _, l := range lims {
						for _, pd := range pdeps {
							for _, sd := range sdeps {
								each(&Spec{Kind: "object", Props: p, Pats: pt, Required: rq, AddProps: ad, MinProps: l.min, MaxProps: l.max, PropDeps: pd, SchemaDeps: sd})
							}
						}
					}
				}
			}
		}
	}
}

// features checks them all.
func (x *X) features() {
	maps := presence([]string{"a", "b", "c"}, []J{1.0, "s", nil})
	for _, m := range maps[:len(maps):len(maps)] {
		c := cpJ(m).(M)
		c["d"] = 1.0
		maps = append(maps, c)
	}
	objectFeatures(nil, true, func(s *Spec) { x.grid(s, nil, maps) })
}
