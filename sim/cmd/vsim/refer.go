package main

import (
	"time"

	"verif/sim/plan"
)

// refer answers reference queries during exploration from one long-lived
// process; a violation is only reported if fresh processes (v.ref) agree.
type refer struct {
	v   *vsim
	s   *session
	own map[string]plan.Outcome
}

func (v *vsim) refer(life int) *refer {
	return &refer{v: v, s: v.session(Boot{}, life), own: map[string]plan.Outcome{}}
}

func (r *refer) close() { r.s.close() }

func (r *refer) get(op plan.Op, spec plan.ParserSpec, clock time.Time, local string) (plan.Outcome, error) {
	key := refKey(op, spec, clock, local)
	if o, ok := r.v.getRef(key); ok {
		return o, nil
	}
	if o, ok := r.own[key]; ok {
		return o, nil
	}
	res, err := r.v.soloIn(r.s, op, spec, clock, local)
	if err != nil {
		return plan.Outcome{}, err
	}
	if len(r.own) > 200000 {
		clear(r.own)
	}
	r.own[key] = res
	return res, nil
}

// soloIn executes one operation alone in a session.
func (v *vsim) soloIn(s *session, op plan.Op, spec plan.ParserSpec, clock time.Time, local string) (plan.Outcome, error) {
	res, x, err := s.execRaw(solo(op, spec, clock, local))
	if err != nil {
		return plan.Outcome{}, err
	}
	v.st.refRuns.Add(1)
	if x != nil {
		return plan.Outcome{S: "crash|" + x.Msg}, nil
	}
	return outcomeOf(res, 0, 0), nil
}
