package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/server"
)

func init() {
	register(&check{id: "C22", race: true, run: c22, traces: "every schedule is executed on the real builder, generator and server under a cooperative scheduler, with the race detector watching; every result is compared with that of the same call made alone",
		bounds: "about 90 jobs (builds of 40 schemas, good and bad, from one shared schema, context and builder; generations of 30 sets of named and unnamed validators with one shared generator and validator set; 16 requests to one server; validations with the same validators): all pairs, the pairs of a job with itself doubled, and triples and larger groups of selected jobs; generating, validating and looking up with the same validators for 60 sets with, without and with unresolvable references; every schedule with at most 2 preemptions (quick) or 3 (thorough) at all lock, once, map, pool and atomic operations of the code under test",
		notes:  []string{"packages outside the repository are watched by the race detector, but their own locks are no scheduling points"}})
}

// c22world is what the goroutines of one execution share.
type c22world struct {
	b       *builder.Builder
	g       *jsval.Generator
	srv     *server.Server
	schemas map[string]*schema.Schema
	ctxs    map[string]J
	sets    map[int][]*jsval.JSVal
}

type c22job struct {
	name string
	prep func(w *c22world)
	run  func(w *c22world) J
	// result turns what run returned into something comparable
	result func(j J) string
}

type breq struct {
	method, path, body string
	fail               int // the body breaks after this many bytes; 0: it does not
}

func (r breq) String() string {
	s := fmt.Sprintf("%s %s %q", r.method, r.path, trim(r.body, 300))
	if r.fail > 0 {
		s += fmt.Sprintf(" (breaking after %d bytes)", r.fail)
	}
	return s
}

type breaking struct {
	r    io.Reader
	left int
}

func (b *breaking) Read(p []byte) (int, error) {
	if b.left <= 0 {
		return 0, errors.New("connection reset")
	}
	if len(p) > b.left {
		p = p[:b.left]
	}
	n, err := b.r.Read(p)
	b.left -= n
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func (r breq) http() *http.Request {
	var body io.Reader = strings.NewReader(r.body)
	if r.fail > 0 {
		body = &breaking{body, r.fail}
	}
	return httptest.NewRequest(r.method, r.path, body)
}

func requests22() []breq {
	out := []breq{{"GET", "/", "", 0}, {"GET", "/nothing", "", 0}, {"POST", "/generate.json", "", 0}, {"POST", "/generate.json", "{", 0}, {"POST", "/generate.json", `{"type": "string", "minLength": 3}`, 0}, {"POST", "/generate.json", `{"$ref": "#/definitions/x"}`, 0}, {"POST", "/generate.json", `{"type": "string"}`, 5}, {"GET", "/index.html", "", 0}}
	for i, s := range richSchemas() {
		if i%5 == 0 {
			out = append(out, breq{"POST", "/generate.json", s, 0})
		}
	}
	return out
}

func c22jobs() []c22job {
	var jobs []c22job
	txts := append(richSchemas(), `{"type": "string"}`, `{}`, `{"$ref": "#/definitions/no"}`, `{"properties": {"a": {"$ref": "#/definitions/no"}}}`, `{"type": "object", "properties": {"a": {"default": "x", "type": "string"}}}`)
	ds := docs()
	for i, txt := range txts {
		i, txt := i, txt
		jobs = append(jobs, c22job{name: "build " + txt, prep: func(w *c22world) {
			if w.schemas[txt] == nil {
				w.schemas[txt] = readSchema(jo(txt))
				w.ctxs[txt] = jo(txt)
			}
		}, run: func(w *c22world) J {
			v, err := w.b.BuildWithCtx(w.schemas[txt], w.ctxs[txt])
			if err != nil {
				return err
			}
			return v
		}, result: func(j J) string {
			v, ok := j.(*jsval.JSVal)
			if !ok {
				return "refused"
			}
			s := "built "
			for k, d := range ds {
				if (k+i)%3 != 0 {
					continue
				}
				if v.Validate(cpJ(d)) == nil {
					s += "1"
				} else {
					s += "0"
				}
			}
			return s
		}})
	}
	for i, set := range detSets() {
		if i >= 16 && i%3 != 0 {
			continue
		}
		i, set := i, set
		prep := func(w *c22world) {
			if w.sets[i] == nil {
				w.sets[i] = set.make()
			}
		}
		jobs = append(jobs, c22job{name: "generate " + set.what, prep: prep, run: func(w *c22world) J {
			var b strings.Builder
			if err := w.g.Process(&b, w.sets[i]...); err != nil {
				return "refused"
			}
			return b.String()
		}, result: func(j J) string { return j.(string) }})
		if i%4 == 0 {
			jobs = append(jobs, c22job{name: "validate with " + set.what, prep: prep, run: func(w *c22world) J {
				s := ""
				for _, v := range w.sets[i] {
					for _, d := range []J{1.0, "s", M{"a": 1.0}, M{}} {
						if v.Validate(cpJ(d)) == nil {
							s += "1"
						} else {
							s += "0"
						}
					}
				}
				return s
			}, result: func(j J) string { return j.(string) }})
		}
	}
	for _, r := range requests22() {
		r := r
		jobs = append(jobs, c22job{name: "request " + r.String(), prep: func(w *c22world) {}, run: func(w *c22world) J {
			rec := httptest.NewRecorder()
			w.srv.ServeHTTP(rec, r.http())
			return rec
		}, result: func(j J) string { return respString(j.(*httptest.ResponseRecorder)) }})
	}
	return jobs
}

func respString(r *httptest.ResponseRecorder) string {
	return fmt.Sprintf("%d %q %s", r.Code, r.Header(), r.Body.String())
}

func newWorld22() *c22world {
	return &c22world{b: builder.New(), g: jsval.NewGenerator(), srv: server.New(), schemas: map[string]*schema.Schema{}, ctxs: map[string]J{}, sets: map[int][]*jsval.JSVal{}}
}

var alone22 = map[string]string{}

func (x *X) c22run(threads [][]*c22job, bound, limit int) {
	x.explore(bound, limit, func() ([]func(), func(func() string)) {
		w := newWorld22()
		var bodies []func()
		res := make([][]J, len(threads))
		for i, l := range threads {
			for _, j := range l {
				j.prep(w)
			}
			r := make([]J, len(l))
			res[i] = r
			l := l
			bodies = append(bodies, func() {
				for k, j := range l {
					r[k] = j.run(w)
				}
			})
		}
		return bodies, func(sched func() string) {
			for i, l := range threads {
				for k, j := range l {
					want, ok := alone22[j.name]
					if !ok {
						w := newWorld22()
						j.prep(w)
						want = j.result(j.run(w))
						alone22[j.name] = want
					}
					if got := j.result(res[i][k]); got != want {
						Failf("%s gives\n%s\nalone it gives\n%s\n(%s)", j.name, trim(got, 1500), trim(want, 1500), sched())
					}
				}
			}
		}
	})
}

func c22(x *X) {
	jobs := c22jobs()
	limit, bound := 1000, 2
	if x.thorough {
		limit, bound = 6000, 3
	}
	show := func(t [][]*c22job) func() string {
		return func() string {
			s := ""
			for i, l := range t {
				if i > 0 {
					s += " || "
				}
				for k, j := range l {
					if k > 0 {
						s += "; "
					}
					s += trim(j.name, 300)
				}
			}
			return s
		}
	}
	run := func(bound int, t ...[]*c22job) {
		x.Case(show(t), func() {
			for o := 0; o < 2; o++ {
				setOrder(o)
				x.c22run(t, bound, limit)
			}
		})
	}
	for a := range jobs {
		run(bound, []*c22job{&jobs[a]}, []*c22job{&jobs[a]})
		run(0, []*c22job{&jobs[a]}, []*c22job{&jobs[a]}, []*c22job{&jobs[a]}, []*c22job{&jobs[a]})
		run(1, []*c22job{&jobs[a], &jobs[a]}, []*c22job{&jobs[a], &jobs[a]})
	}
	for a := range jobs {
		for b := range jobs[:a] {
			if !x.thorough && (a+b)%3 != 0 {
				continue
			}
			bd := bound
			if !x.thorough {
				bd = 1
			}
			run(bd, []*c22job{&jobs[a]}, []*c22job{&jobs[b]})
		}
	}
	c22uses(run)
	for a := range jobs {
		b, c := &jobs[(a*7+3)%len(jobs)], &jobs[(a*11+5)%len(jobs)]
		run(1, []*c22job{&jobs[a]}, []*c22job{b}, []*c22job{c})
		run(0, []*c22job{&jobs[a], b}, []*c22job{b, c}, []*c22job{c, &jobs[a]}, []*c22job{c})
	}
}

// c22uses: code is generated from validators that others use, in every way
// that does not configure them.
func c22uses(run func(bound int, t ...[]*c22job)) {
	type set = struct {
		what string
		make func() []*jsval.JSVal
	}
	var sets []set
	for _, s := range detSets() {
		sets = append(sets, s)
	}
	env := Env{"a": sNum, "r": any_(sStr, ref("a"))}
	for _, s := range []*Spec{ref("no"), arr(ref("no")), any_(sStr, ref("no")), obj(Prop{"a", ref("no")}), not(ref("no")), {Kind: "object", AddProps: ref("no"), Pats: []Prop{{"^b", ref("no")}}}, sStr, dnum(1.0), sInt, sBool, sNull, sEmpty, enum(1.0, "s"), strRx("^s"), {Kind: "string", HasEnum: true, Enum: []J{"s", "t"}}, arr(sNum), {Kind: "array", Unique: true, HasPos: true, Pos: []*Spec{sNum}, SetAddI: true}, all(sStr, not(sNum)), oneof(sStr, sNum)} {
		sets = append(sets, set{"without references " + s.String(), func() []*jsval.JSVal { return []*jsval.JSVal{s.Validator(nil)} }})
		sets = append(sets, set{"with references " + s.String(), func() []*jsval.JSVal { return []*jsval.JSVal{s.Validator(env), ref("r").Validator(env)} }})
	}
	sets = append(sets, set{"with one shared map", func() []*jsval.JSVal {
		cm := &jsval.ConstraintMap{}
		cm.SetReference("a", jsval.Number())
		a := jsval.New().SetConstraintMap(cm)
		b := jsval.New().SetConstraintMap(cm).SetName("B")
		c := jsval.New()
		c.SetRoot(jsval.Reference(cm).RefersTo("b"))
		return []*jsval.JSVal{a.SetRoot(jsval.Reference(cm).RefersTo("a")), b.SetRoot(jsval.Array().Items(jsval.Reference(b).RefersTo("a"))), c}
	}}, set{"with one shared empty map", func() []*jsval.JSVal {
		cm := &jsval.ConstraintMap{}
		a := jsval.New().SetConstraintMap(cm)
		b := jsval.New().SetConstraintMap(cm).SetName("B")
		return []*jsval.JSVal{a.SetRoot(jsval.Reference(cm).RefersTo("a")), b.SetRoot(jsval.Not(jsval.Reference(b).RefersTo("a")))}
	}})
	text := func(j J) string { return j.(string) }
	for i, s := range sets {
		i := -1 - i
		prep := func(w *c22world) {
			if w.sets[i] == nil {
				w.sets[i] = s.make()
			}
		}
		gen := &c22job{name: "use: generate " + s.what, prep: prep, run: func(w *c22world) J {
			var b strings.Builder
			if err := w.g.Process(&b, w.sets[i]...); err != nil {
				return "refused"
			}
			return b.String()
		}, result: text}
		val := &c22job{name: "use: validate with " + s.what, prep: prep, run: func(w *c22world) J {
			r := ""
			for _, v := range w.sets[i] {
				for _, d := range []J{1.0, "s", L{1.0}, M{"a": 1.0}} {
					if v.Validate(cpJ(d)) == nil {
						r += "1"
					} else {
						r += "0"
					}
				}
			}
			return r
		}, result: text}
		ask := &c22job{name: "use: ask " + s.what, prep: prep, run: func(w *c22world) J {
			r := ""
			for _, v := range w.sets[i] {
				_, e1 := v.GetReference("a")
				_, e2 := v.GetReference("no")
				r += fmt.Sprint(v.Name, v.Len(), e1 == nil, e2 == nil, v.Root().HasDefault(), v.Root().DefaultValue(), ";")
			}
			return r
		}, result: text}
		run(2, []*c22job{gen}, []*c22job{val})
		run(2, []*c22job{gen}, []*c22job{ask})
		run(1, []*c22job{val}, []*c22job{ask})
		run(1, []*c22job{gen, ask}, []*c22job{val, gen})
		run(1, []*c22job{gen}, []*c22job{val}, []*c22job{ask})
	}
}
