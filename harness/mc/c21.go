package main

import (
	"fmt"
	"regexp"
	"sort"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register(&check{id: "C21", race: true, run: c21, traces: "every schedule is executed on the real code under a cooperative scheduler, with the race detector watching; every answer is compared with what the model says for some set and order of the overlapping calls that agrees with real time, and the final state is probed with every document and lookup",
		bounds: "an object constraint with a constraint map, 17 configuration calls (references, properties, patterns, requirements, both dependencies; distinct, conflicting and accumulating ones), 8 lookups and 9 validations: 2 goroutines with two configuration calls against every single call, with all pairs of a configuration call and a lookup or validation against each other, 3 goroutines with one call each; after each of 6 configurations of 3-18 calls made before, all pairs of a configuration call and any call; every schedule with at most 2 preemptions (quick) or 3 (thorough) at all lock, once, map, pool and atomic operations; up to 6 goroutines registering at once with 1 preemption; lists of up to 10 that several goroutines lend to the same or to other calls",
		notes:  []string{"a validation in which one constraint object is consulted several times may see a configuration call in part; such validators are not in the scenarios", "re-registering a name that a reference has already resolved is outside the property"}})
}

// state of the model
type c21state struct {
	o    *Spec
	env  Env
	ids  map[string]int // reference name -> op that registered it
	deps map[string]int // schema dependency -> op
}

func (s *c21state) clone() *c21state {
	n := &c21state{o: s.o.with(func(*Spec) {}), env: Env{}, ids: map[string]int{}, deps: map[string]int{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.ids {
		n.ids[k] = v
	}
	for k, v := range s.deps {
		n.deps[k] = v
	}
	n.o.Props = append([]Prop(nil), s.o.Props...)
	n.o.Pats = append([]Prop(nil), s.o.Pats...)
	n.o.Required = append([]string(nil), s.o.Required...)
	n.o.PropDeps = append([]Dep(nil), s.o.PropDeps...)
	n.o.SchemaDeps = append([]Prop(nil), s.o.SchemaDeps...)
	return n
}

type c21op struct {
	name  string
	write func(s *c21state, id int)               // nil for those that only look
	spec  *Spec                                   // constraint it registers
	real  func(w *c21world, c jsval.Constraint) J // its answer
	model func(s *c21state) J                     // the answer in a state
	early bool                                    // occurs only before the overlapping calls
}

type c21world struct {
	v *jsval.JSVal
	o *jsval.ObjectConstraint
	// constraints registered, by op
	made map[int]jsval.Constraint
}

type answer struct {
	ok  bool
	doc string
}

// ref21 is the answer to looking up: which op registered it.
type ref21 struct{ c jsval.Constraint }

func c21ops() []c21op {
	var ops []c21op
	mut := func(name string, spec *Spec, m func(s *c21state, id int), r func(w *c21world, c jsval.Constraint)) {
		ops = append(ops, c21op{name: name, spec: spec, write: m, real: func(w *c21world, c jsval.Constraint) J { r(w, c); return nil }})
	}
	reg := func(n string, spec *Spec) {
		mut(fmt.Sprintf("SetReference(%q, %s)", n, spec), spec, func(s *c21state, id int) { s.env[n] = spec; s.ids[n] = id }, func(w *c21world, c jsval.Constraint) { w.v.SetReference(n, c) })
	}
	reg("x", sStr)
	reg("x", ref("y"))
	reg("y", sNum)
	reg("u", sNum)
	reg("u", sStr)
	prop := func(n string, spec *Spec) {
		mut(fmt.Sprintf("AddProp(%q, %s)", n, spec), spec, func(s *c21state, id int) {
			for i := range s.o.Props {
				if s.o.Props[i].Name == n {
					s.o.Props[i].S = spec
					return
				}
			}
			s.o.Props = append(s.o.Props, Prop{n, spec})
		}, func(w *c21world, c jsval.Constraint) { w.o.AddProp(n, c) })
	}
	prop("a", sNum)
	prop("a", sStr)
	prop("b", dstr("dd"))
	prop("p", any_(sNum, sStr))
	pat := func(p string, spec *Spec) {
		re := regexp.MustCompile(p)
		mut(fmt.Sprintf("PatternProperties(%q, %s)", p, spec), spec, func(s *c21state, id int) { s.o.Pats = append(s.o.Pats, Prop{p, spec}) }, func(w *c21world, c jsval.Constraint) { w.o.PatternProperties(re, c) })
	}
	pat("^p", sNum)
	pat("[pq]$", sStr)
	req := func(n ...string) {
		mut(fmt.Sprintf("Required(%q)", n), nil, func(s *c21state, id int) { s.o.Required = append(s.o.Required, n...) }, func(w *c21world, c jsval.Constraint) { w.o.Required(n...) })
	}
	req("a")
	req("z", "b")
	dep := func(from string, to ...string) {
		mut(fmt.Sprintf("PropDependency(%q, %q)", from, to), nil, func(s *c21state, id int) { s.o.PropDeps = append(s.o.PropDeps, Dep{from, to}) }, func(w *c21world, c jsval.Constraint) { w.o.PropDependency(from, to...) })
	}
	dep("a", "z")
	dep("a", "w")
	dep("z", "a")
	sdep := func(from string, spec *Spec) {
		mut(fmt.Sprintf("SchemaDependency(%q, %s)", from, spec), spec, func(s *c21state, id int) {
			s.o.SchemaDeps = append(s.o.SchemaDeps, Prop{from, spec})
			s.deps[from] = id
		}, func(w *c21world, c jsval.Constraint) { w.o.SchemaDependency(from, c) })
	}
	sdep("a", &Spec{Kind: "object", AddProps: sEmpty, Required: []string{"w"}})

	look := func(name string, r func(w *c21world) J, m func(s *c21state) J) {
		ops = append(ops, c21op{name: name, real: func(w *c21world, _ jsval.Constraint) J { return r(w) }, model: m})
	}
	look("Len()", func(w *c21world) J { return w.v.Len() }, func(s *c21state) J { return len(s.env) })
	for _, n := range []string{"x", "y", "u"} {
		n := n
		look(fmt.Sprintf("GetReference(%q)", n), func(w *c21world) J {
			c, err := w.v.GetReference(n)
			if err != nil {
				return -1
			}
			return ref21{c}
		}, func(s *c21state) J {
			if id, ok := s.ids[n]; ok {
				return id
			}
			return -1
		})
	}
	look(`IsPropRequired("a")`, func(w *c21world) J { return w.o.IsPropRequired("a") }, func(s *c21state) J { return hasName(s.o.Required, "a") })
	look(`IsPropRequired("b")`, func(w *c21world) J { return w.o.IsPropRequired("b") }, func(s *c21state) J { return hasName(s.o.Required, "b") })
	look(`GetPropDependencies("a")`, func(w *c21world) J {
		return nameSet(w.o.GetPropDependencies("a"))
	}, func(s *c21state) J {
		var l []string
		for _, d := range s.o.PropDeps {
			if d.From == "a" {
				l = append(l, d.To...)
			}
		}
		return nameSet(l)
	})
	look(`GetSchemaDependency("a")`, func(w *c21world) J {
		c := w.o.GetSchemaDependency("a")
		if c == nil {
			return -1
		}
		return ref21{c}
	}, func(s *c21state) J {
		if id, ok := s.deps["a"]; ok {
			return id
		}
		return -1
	})
	for _, d := range []J{M{}, M{"a": 1.0}, M{"a": "s"}, M{"a": 1.0, "z": 1.0, "w": 1.0}, M{"p": 1.0}, M{"p": "s"}, M{"r": "s"}, M{"r": 1.0}, M{"a": 1.0, "z": 1.0}} {
		d := d
		look("Validate("+show(d)+")", func(w *c21world) J {
			doc := cpJ(d)
			err := w.v.Validate(doc)
			if err != nil {
				return answer{}
			}
			return answer{true, show(doc)}
		}, func(s *c21state) J {
			if !s.o.Eval(s.env, d) {
				return answer{}
			}
			doc := cpJ(d)
			s.o.fill(s.env, doc)
			return answer{true, show(doc)}
		})
	}
	n := len(ops)
	dep("a", "v")
	dep("a", "t", "k", "m", "c", "b")
	dep("w", "a", "z")
	req("r", "q", "c")
	prop("d", sNum)
	prop("e", sNull)
	pat("q", sEmpty)
	pat("^x", sNum)
	reg("v", sBool)
	reg("w", ref("y"))
	sdep("q", &Spec{Kind: "object", AddProps: sEmpty, MaxProps: ip(5)})
	for i := n; i < len(ops); i++ {
		ops[i].early = true
	}
	return ops
}

// c21before lists what has been configured before the overlapping calls.
func c21before(ops []c21op) [][]int {
	find := func(names ...string) []int {
		var l []int
		for _, n := range names {
			found := false
			for i, o := range ops {
				if o.name == n {
					l, found = append(l, i), true
				}
			}
			if !found {
				panic(n)
			}
		}
		return l
	}
	deps := find(`PropDependency("a", ["z"])`, `PropDependency("a", ["w"])`, `PropDependency("a", ["v"])`)
	rest := find(`SetReference("y", Number())`, `SetReference("u", Number())`, `SetReference("v", Boolean())`, `SetReference("w", Reference("y"))`, `AddProp("d", Number())`, `AddProp("e", NullConstraint)`, `AddProp("p", Any().Add(Number()).Add(String()))`, `PatternProperties("q", EmptyConstraint)`, `PatternProperties("^x", Number())`, `PatternProperties("^p", Number())`, `Required(["a"])`, `Required(["z" "b"])`, `PropDependency("z", ["a"])`)
	long := find(`PropDependency("a", ["t" "k" "m" "c" "b"])`, `PropDependency("a", ["z"])`, `PropDependency("w", ["a" "z"])`, `Required(["r" "q" "c"])`)
	sd := find(`SchemaDependency("a", Object().Required(["w"]).AdditionalProperties(EmptyConstraint))`, `SchemaDependency("q", Object().AdditionalProperties(EmptyConstraint).MaxProperties(5))`)
	return [][]int{deps, append(append([]int{}, deps...), long...), long, rest, append(append(append([]int{}, rest...), deps...), sd...), append(append([]int{}, sd...), rest[4:7]...)}
}

var c21base = &Spec{Kind: "object", AddProps: sEmpty, Props: []Prop{{"r", ref("x")}}}

func c21worldNew() *c21world {
	v := jsval.New()
	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).AddProp("r", jsval.Reference(v).RefersTo("x"))
	v.SetRoot(o)
	return &c21world{v: v, o: o, made: map[int]jsval.Constraint{}}
}

type event struct {
	op         int
	start, end int
	got        J
}

// c21memo: the model's answers to everything after a sequence of calls.
var c21memo = map[string][]J{}

func c21answers(ops []c21op, seq []byte) []J {
	if r, ok := c21memo[string(seq)]; ok {
		return r
	}
	s := &c21state{o: c21base.with(func(*Spec) {}), env: Env{}, ids: map[string]int{}, deps: map[string]int{}}
	s = s.clone()
	for _, id := range seq {
		ops[id].write(s, int(id))
	}
	r := make([]J, len(ops))
	for i, op := range ops {
		if op.model != nil {
			r[i] = op.model(s)
		}
	}
	c21memo[string(seq)] = r
	return r
}

// c21states enumerates what an observer in [start, end] may see: all
// writers that ended before, none that started after, any of the others, in
// any order that agrees with real time; visit gets the answers to all calls.
func c21states(ops []c21op, evs []event, start, end int, visit func(answers []J) bool) bool {
	var must, may []int
	for i, e := range evs {
		if ops[e.op].write == nil {
			continue
		}
		switch {
		case e.end < start:
			must = append(must, i)
		case e.start > end:
		default:
			may = append(may, i)
		}
	}
	var seq []byte
	var rec func(left []int) bool
	rec = func(left []int) bool {
		if len(left) == 0 {
			return visit(c21answers(ops, seq))
		}
		for k, i := range left {
			first := true
			for _, j := range left {
				if j != i && evs[j].end < evs[i].start {
					first = false
				}
			}
			if !first {
				continue
			}
			seq = append(seq, byte(evs[i].op))
			rest := append(append(make([]int, 0, len(left)), left[:k]...), left[k+1:]...)
			if rec(rest) {
				return true
			}
			seq = seq[:len(seq)-1]
		}
		return false
	}
	for sub := 0; sub < 1<<len(may); sub++ {
		set := append([]int(nil), must...)
		for k, i := range may {
			if sub>>k&1 == 1 {
				set = append(set, i)
			}
		}
		seq = seq[:0]
		if rec(set) {
			return true
		}
	}
	return false
}

func (w *c21world) resolve(j J) J {
	if r, ok := j.(ref21); ok {
		for id, c := range w.made {
			if c == r.c {
				return id
			}
		}
		return -2
	}
	return j
}

// c21run explores threads that each make the listed calls.
func (x *X) c21run(ops []c21op, before []int, threads [][]int, bound, limit int) {
	x.explore(bound, limit, func() ([]func(), func(func() string)) {
		w := c21worldNew()
		evs := make([][]event, len(threads))
		var first []event
		for _, id := range before {
			var c jsval.Constraint
			if s := ops[id].spec; s != nil {
				c = s.Build(w.v)
				w.made[id] = c
			}
			s := tick()
			ops[id].real(w, c)
			first = append(first, event{id, s, tick(), nil})
		}
		var bodies []func()
		for i, l := range threads {
			es := make([]event, len(l))
			evs[i] = es
			cs := make([]jsval.Constraint, len(l))
			for k, id := range l {
				if s := ops[id].spec; s != nil {
					if w.made[id] == nil {
						w.made[id] = s.Build(w.v)
					}
					cs[k] = w.made[id]
				}
			}
			l := l
			bodies = append(bodies, func() {
				for k, id := range l {
					s := tick()
					got := ops[id].real(w, cs[k])
					es[k] = event{id, s, tick(), got}
				}
			})
		}
		return bodies, func(sched func() string) {
			all := append([]event{}, first...)
			for _, es := range evs {
				all = append(all, es...)
			}
			for _, e := range all {
				if ops[e.op].write != nil {
					continue
				}
				got := w.resolve(e.got)
				var options []J
				if !c21states(ops, all, e.start, e.end, func(a []J) bool {
					m := a[e.op]
					options = append(options, m)
					return m == got
				}) {
					Failf("%s answers %v, possible are %v (%s)", ops[e.op].name, got, options, sched())
				}
			}
			// the final state
			var finals []J
			var names []string
			for _, op := range ops {
				if op.write == nil {
					finals = append(finals, w.resolve(op.real(w, nil)))
					names = append(names, op.name)
				}
			}
			diff := ""
			now := tick()
			if !c21states(ops, all, now, now, func(a []J) bool {
				k := 0
				for i, op := range ops {
					if op.write == nil {
						if m := a[i]; m != finals[k] {
							diff = fmt.Sprintf("%s answers %v instead of %v", names[k], finals[k], m)
							return false
						}
						k++
					}
				}
				return true
			}) {
				Failf("after all calls %s (%s)", diff, sched())
			}
		}
	})
}

// c21bad: calls that may not occur in one scenario.
func c21bad(threads [][]int) bool {
	n0, n1 := 0, 0
	for _, l := range threads {
		for _, o := range l {
			if o == 0 {
				n0++
			}
			if o == 1 {
				n1++
			}
		}
	}
	return n0 > 0 && n1 > 0
}

func c21(x *X) {
	ops := c21ops()
	var writers, readers []int
	n := 0
	for i, o := range ops {
		if o.early {
			continue
		}
		n++
		if o.write != nil {
			writers = append(writers, i)
		} else {
			readers = append(readers, i)
		}
	}
	limit, bound := 3000, 2
	if x.thorough {
		limit, bound = 30000, 3
	}
	// many short scenarios make one case
	var batch [][][]int
	add := func(flush bool, threads ...[]int) {
		if !flush {
			if c21bad(threads) {
				return
			}
			batch = append(batch, threads)
			if len(batch) < 40 {
				return
			}
		}
		b := batch
		batch = nil
		if len(b) == 0 {
			return
		}
		x.Case(func() string { return "scenarios such as " + c21show(ops, b[0]) }, func() {
			for _, t := range b {
				protectWith(func() { x.c21run(ops, nil, t, bound, limit) }, func() string { return c21show(ops, t) })
			}
		})
	}
	for _, a := range writers {
		for _, b := range writers {
			for c := range ops[:n] {
				add(false, []int{a, b}, []int{c})
			}
		}
	}
	for _, a := range writers {
		for _, b := range writers {
			if b < a {
				continue
			}
			for _, c := range readers {
				for _, d := range readers {
					if !x.thorough && (c+d+a+b)%4 != 0 {
						continue
					}
					add(false, []int{a, c}, []int{b, d})
				}
			}
		}
	}
	for a := range ops[:n] {
		for b := a; b < n; b++ {
			for c := b; c < n; c++ {
				if ops[a].write == nil { // nothing changes
					continue
				}
				if !x.thorough && (a+b+c)%2 != 0 {
					continue
				}
				add(false, []int{a}, []int{b}, []int{c})
			}
		}
	}
	if x.thorough {
		for _, a := range writers {
			for _, b := range writers {
				for _, c := range writers {
					for d := range ops[:n] {
						if c < a {
							continue
						}
						add(false, []int{a, b}, []int{c, d})
					}
				}
			}
		}
	}
	add(true)
	// on top of what has been configured before
	for bi, before := range c21before(ops) {
		var l [][][]int
		for _, a := range writers {
			for b := range ops[:n] {
				if ops[b].write != nil && b < a {
					continue
				}
				l = append(l, [][]int{{a}, {b}})
				if ops[b].write == nil && (x.thorough || bi == 0 || (a+b+bi)%4 == 0) {
					l = append(l, [][]int{{a, writers[(a+b)%len(writers)]}, {b, b}})
				}
			}
		}
		for len(l) > 0 {
			part := l[:min(40, len(l))]
			l = l[len(part):]
			x.Case(func() string {
				return fmt.Sprintf("after %s: scenarios such as %s", c21show(ops, [][]int{before}), c21show(ops, part[0]))
			}, func() {
				for _, t := range part {
					if c21bad(t) {
						continue
					}
					protectWith(func() { x.c21run(ops, before, t, bound, limit) }, func() string { return c21show(ops, t) })
				}
			})
		}
	}
	// many goroutines
	for n := 4; n <= 6; n++ {
		for off := range writers {
			var t [][]int
			for i := 0; i < n; i++ {
				t = append(t, []int{writers[(off+i*5)%len(writers)], readers[(off*3+i)%len(readers)]})
			}
			if c21bad(t) {
				continue
			}
			x.Case(func() string { return "scenario " + c21show(ops, t) }, func() { x.c21run(ops, nil, t, 0, limit) })
		}
	}
	x.lent()
	// many registrations
	for n := 2; n <= 4; n++ {
		for _, each := range []int{1, 3, 40} {
			x.Case(func() string { return fmt.Sprintf("%d goroutines registering %d names each", n, each) }, func() {
				b := 2
				if each > 3 || n > 3 {
					b = 1
				}
				x.explore(b, limit, func() ([]func(), func(func() string)) {
					w := c21worldNew()
					var bodies []func()
					for t := 0; t < n; t++ {
						t := t
						bodies = append(bodies, func() {
							for i := 0; i < each; i++ {
								nm := fmt.Sprintf("n%d.%d", t, i)
								w.v.SetReference(nm, jsval.String())
								w.o.AddProp(nm, jsval.Number()).PropDependency("r", nm).PatternPropertiesString("^"+nm+"$", jsval.String()).Required(nm).SchemaDependency(nm, jsval.EmptyConstraint)
							}
						})
					}
					return bodies, func(sched func() string) {
						if w.v.Len() != n*each {
							Failf("%d names registered instead of %d (%s)", w.v.Len(), n*each, sched())
						}
						l := w.o.GetPropDependencies("r")
						if len(l) != n*each {
							Failf("%d dependencies instead of %d (%s)", len(l), n*each, sched())
						}
						doc := M{}
						for t := 0; t < n; t++ {
							for i := 0; i < each; i++ {
								nm := fmt.Sprintf("n%d.%d", t, i)
								if _, err := w.v.GetReference(nm); err != nil {
									Failf("%s not registered (%s)", nm, sched())
								}
								if w.o.GetSchemaDependency(nm) == nil || !w.o.IsPropRequired(nm) {
									Failf("dependency or requirement %s lost (%s)", nm, sched())
								}
								doc[nm] = 1.0
							}
						}
						if err := w.v.Validate(doc); err != nil {
							Failf("afterwards: %v (%s)", err, sched())
						}
						nm := fmt.Sprintf("n%d.%d", n-1, each-1)
						doc[nm] = "s"
						if err := w.v.Validate(doc); err == nil {
							Failf("property %s lost (%s)", nm, sched())
						}
					}
				})
			})
		}
	}
}

// protectWith adds the scenario to a failure's message.
func protectWith(f func(), what func() string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(failure); ok {
				panic(failure{what() + ": " + e.msg})
			}
			panic(r)
		}
	}()
	f()
}

func c21show(ops []c21op, t [][]int) string {
	s := ""
	for i, l := range t {
		if i > 0 {
			s += " || "
		}
		for k, o := range l {
			if k > 0 {
				s += "; "
			}
			s += ops[o].name
		}
	}
	return s
}

func hasName(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// nameSet: the names without repetition.
func nameSet(l []string) string {
	var u []string
	for _, s := range l {
		if !hasName(u, s) {
			u = append(u, s)
		}
	}
	sort.Strings(u)
	return fmt.Sprint(u)
}
