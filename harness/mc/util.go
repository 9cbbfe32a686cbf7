package main

import (
	"github.com/lestrrat-go/jsval"
)

type validator interface{ Validate(interface{}) error }

func (x *X) expect(c validator, v J, want bool, what func() string) {
	err := c.Validate(v)
	x.Transitions++
	if want {
		x.acc++
	} else {
		x.rej++
	}
	if (err == nil) == want {
		return
	}
	msg := "accepted"
	if err != nil {
		msg = "rejected: " + safeError(err)
	}
	Failf("%s on %s: expected accept=%v, implementation %s (map order %d)", what(), show(v), want, msg, verifState.Const)
}

func safeError(err error) (s string) {
	defer func() {
		if recover() != nil {
			s = "(error whose message panics)"
		}
	}()
	return trim(err.Error(), 300)
}

// grid checks one constraint against a list of values: a trace that goes
// through the values forth and, under another map iteration order, back, on
// one validator.
func (x *X) grid(s *Spec, env Env, vals []J) {
	x.Case(func() string { return s.String() }, func() {
		x.gridBody(s, env, vals, s.Validator(env))
		c := s.Backwards(env)
		x.Traces++
		for _, v := range vals {
			x.expect(c, v, s.Eval(env, v), func() string { return s.String() + " (configured in the opposite order)" })
		}
	})
}

func (x *X) gridBody(s *Spec, env Env, vals []J, c validator) {
	x.Traces++
	want := make([]bool, len(vals))
	what := func() string { return s.String() }
	for i, v := range vals {
		want[i] = s.Eval(env, v)
		x.States++
		x.expect(c, v, want[i], what)
	}
	setOrder(1)
	for i := len(vals) - 1; i >= 0; i-- {
		x.expect(c, vals[i], want[i], what)
	}
	setOrder(0)
}

var _ = jsval.New
