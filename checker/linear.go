package main

import (
	"go/types"
	"regexp/syntax"
	"strings"
)

// A small complete procedure for conjunctions of linear inequalities (elimination of variables), used where a bound
// follows from several facts together.

// ineq is sum(cf*atom) + c <= 0.
type ineq struct {
	cf map[*Term]int64
	c  int64
}

func leqZero(t *Term) ineq {
	at, cf, c := linear(t)
	q := ineq{cf: map[*Term]int64{}, c: c}
	for i, a := range at {
		q.cf[a] += cf[i]
		if q.cf[a] == 0 {
			delete(q.cf, a)
		}
	}
	return q
}

func (q ineq) tighten() ineq {
	var g int64
	for _, k := range q.cf {
		if k < 0 {
			k = -k
		}
		for g, k = k, g; k != 0; {
			g, k = k, g%k
		}
	}
	if g > 1 {
		r := ineq{cf: map[*Term]int64{}}
		for a, k := range q.cf {
			r.cf[a] = k / g
		}
		// c/g rounded up
		r.c = q.c / g
		if q.c > 0 && q.c%g != 0 {
			r.c++
		}
		return r
	}
	return q
}

// contradiction: the inequalities have no solution in the integers (as far as elimination shows).
func contradiction(qs []ineq) bool {
	for round := 0; round < 30; round++ {
		uses := map[*Term][2]int{}
		for _, q := range qs {
			if len(q.cf) == 0 && q.c > 0 {
				return true
			}
			for a, k := range q.cf {
				u := uses[a]
				if k > 0 {
					u[0]++
				} else {
					u[1]++
				}
				uses[a] = u
			}
		}
		var pick *Term
		best := 1 << 30
		for a, u := range uses {
			n := u[0] * u[1]
			if n < best || n == best && a.id < pick.id {
				pick, best = a, n
			}
		}
		if pick == nil || best > 600 {
			return false
		}
		var out, pos, neg []ineq
		for _, q := range qs {
			switch k := q.cf[pick]; {
			case k > 0:
				pos = append(pos, q)
			case k < 0:
				neg = append(neg, q)
			default:
				out = append(out, q)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.cf[pick], -n.cf[pick]
				r := ineq{cf: map[*Term]int64{}, c: p.c*kn + n.c*kp}
				for a, k := range p.cf {
					r.cf[a] += k * kn
				}
				for a, k := range n.cf {
					r.cf[a] += k * kp
				}
				for a, k := range r.cf {
					if k == 0 {
						delete(r.cf, a)
					}
				}
				out = append(out, r.tighten())
			}
		}
		if len(out) > 800 {
			return false
		}
		qs = out
	}
	return false
}

// provesLe: t <= 0 follows from the facts of the state, the given further inequalities (each <= 0) and what holds of
// the lengths and widths among the terms.
func provesLe(e *Engine, st *State, t *Term, more []*Term) bool {
	if n, ok := t.isInt(); ok {
		return n <= 0
	}
	if st.Is(Le0(t)) {
		return true
	}
	var all []*Term
	for l, r := range st.facts.ints {
		if r.hi < inf {
			all = append(all, AddN(l, -r.hi))
		}
		if r.lo > -inf {
			all = append(all, AddN(Add(Int(0), l, -1), r.lo))
		}
	}
	for a, v := range st.facts.b {
		if a.op == OCall && a.s == "strings.HasPrefix" && v && len(a.args) == 2 {
			all = append(all, Add(strlen(a.args[1]), strlen(a.args[0]), -1))
		}
	}
	for a, v := range st.facts.eqc {
		if v.op == OConst {
			if n, ok := v.isInt(); ok {
				all = append(all, AddN(a, -n), AddN(Add(Int(0), a, -1), n))
			}
		}
	}
	all = append(all, more...)
	goal := Add(Int(1), t, -1) // t >= 1
	goal = expandLens(e, st, goal)
	for i := range all {
		all[i] = expandLens(e, st, all[i])
	}
	seen := map[*Term]bool{}
	var axioms func(x *Term)
	axioms = func(x *Term) {
		at, _, _ := linear(x)
		for _, a := range at {
			if seen[a] {
				continue
			}
			seen[a] = true
			if natural(a) {
				all = append(all, Add(Int(0), a, -1))
			}
			for _, x := range widths(a) {
				x = expandLens(e, st, x)
				all = append(all, x)
				axioms(x)
			}
			if a.op == OLen {
				if n := groups(a.args[0]); n > 0 {
					all = append(all, AddN(a, -n), AddN(Add(Int(0), a, -1), n))
				}
			}
		}
	}
	axioms(goal)
	for _, x := range append([]*Term(nil), all...) {
		axioms(x)
	}
	// only what is connected to the goal matters
	qs := []ineq{leqZero(goal)}
	rel := map[*Term]bool{}
	for a := range qs[0].cf {
		rel[a] = true
	}
	used := make([]bool, len(all))
	for ch, n := true, 0; ch && n < 6; n++ {
		ch = false
		for i, x := range all {
			if used[i] {
				continue
			}
			q := leqZero(x)
			hit := false
			for a := range q.cf {
				hit = hit || rel[a]
			}
			if !hit || len(qs) > 120 {
				continue
			}
			used[i], ch = true, true
			qs = append(qs, q.tighten())
			for a := range q.cf {
				rel[a] = true
			}
		}
	}
	return contradiction(qs)
}

func strlen(s *Term) *Term {
	if x, ok := s.isStr(); ok {
		return Int(int64(len(x)))
	}
	if s.op == OCall && s.s == "substr" {
		return Add(s.args[2], s.args[1], -1)
	}
	if s.op == OConcat {
		n := Int(0)
		for _, a := range s.args {
			n = Add(n, strlen(a), 1)
		}
		return n
	}
	return Call("strlen", s)
}

// expandLens writes lengths of parts as differences of positions.
func expandLens(e *Engine, st *State, t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.op == OCall && x.s == "strlen" && len(x.args) == 1 {
			if n := strlen(x.args[0]); n != x {
				return expandLens(e, st, n)
			}
			return x
		}
		if x.op == OLen || x.op == OCall {
			return x
		}
		return nil
	})
}

// widths: what holds of the width of a decoded character (each <= 0).
func widths(a *Term) []*Term {
	if a.op == OExt && a.n == 1 && len(a.args) == 1 && a.args[0].op == OCall && strings.HasPrefix(a.args[0].s, "utf8.Decode") && strings.HasSuffix(a.args[0].s, "RuneInString") {
		s := a.args[0].args[0]
		return []*Term{Add(Int(0), a, -1), AddN(a, -4), Add(a, strlen(s), -1)}
	}
	if a.op == OCall && len(a.args) == 2 && (strings.HasPrefix(a.s, "strings.Index") || strings.HasPrefix(a.s, "strings.LastIndex")) {
		n := strlen(a.args[0])
		out := []*Term{AddN(Add(Int(0), a, -1), -1)}
		switch a.s {
		case "strings.Index", "strings.LastIndex":
			// nothing is found, or the whole of what is searched (the first fits in any case)
			if x, ok := a.args[1].isStr(); ok && x != "" {
				out = append(out, AddN(Add(a, n, -1), 1))
			} else {
				out = append(out, Add(a, n, -1))
			}
		default:
			out = append(out, AddN(Add(a, n, -1), 1))
		}
		return out
	}
	return nil
}

// groups: the number of entries of a match of a constant expression.
func groups(l *Term) int64 {
	var re *Term
	switch {
	case l.op == OCall && strings.HasSuffix(l.s, ".SubexpNames"):
		re = l.args[0]
	case l.op == OLD && l.args[0].op == OEA && l.args[0].args[0].op == OCall && strings.Contains(l.args[0].args[0].s, "Regexp).FindAll") && strings.HasSuffix(l.args[0].args[0].s, "Submatch"):
		re = l.args[0].args[0].args[0]
	}
	if re == nil || re.op != OCall || re.s != "regexp.MustCompile" {
		return 0
	}
	p, ok := re.args[0].isStr()
	if !ok {
		return 0
	}
	x, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return 0
	}
	return int64(x.MaxCap()) + 1
}

var _ = types.Typ
