package main

import "sort"

const inf = int64(1) << 60

type rng struct {
	lo, hi int64
	ne     []int64
}

// Facts are the branch outcomes known on a path.
type Facts struct {
	ints map[*Term]rng   // integer atoms (linear forms without constant)
	b    map[*Term]bool  // other atoms
	eqc  map[*Term]*Term // term -> constant it is known to equal
}

func newFacts() *Facts {
	return &Facts{map[*Term]rng{}, map[*Term]bool{}, map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.ints {
		v.ne = append([]int64(nil), v.ne...)
		g.ints[k] = v
	}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	return g
}

func natural(t *Term) bool {
	switch t.op {
	case OLen, OIter, OItAll:
		return true
	case OBin:
		if _, ok := divOf(t); ok {
			return natural(t.args[0])
		}
		return t.s == "%2"
	case OCall:
		return t.s == "cap" || t.s == "strlen"
	}
	return false
}

func (f *Facts) lenNil(t *Term) bool {
	if t.op != OLen {
		return false
	}
	x := t.args[0]
	if c, ok := f.eqc[x]; ok && c.isNil() {
		return true
	}
	return false
}

// bounds of a linear form (without using relational facts except its own).
func (f *Facts) bounds(l *Term) (int64, int64) {
	lo, hi := -inf, inf
	at, cf, c := linear(l)
	if len(at) == 0 {
		return c, c
	}
	own := func(t *Term) (int64, int64) {
		a, b := -inf, inf
		if natural(t) {
			a = 0
			if t.op == OBin && t.s == "%2" {
				b = 1
			}
		}
		if f.lenNil(t) {
			return 0, 0
		}
		if r, ok := f.ints[t]; ok {
			if r.lo > a {
				a = r.lo
			}
			if r.hi < b {
				b = r.hi
			}
			for ch := true; ch; {
				ch = false
				for _, n := range r.ne {
					if n == a {
						a++
						ch = true
					}
					if n == b {
						b--
						ch = true
					}
				}
			}
		}
		return a, b
	}
	if l.op == OAff {
		base := mkAffFrom(at, cf)
		a, b := int64(-inf), int64(inf)
		if base.op == OAff {
			if cf[0] < 0 {
				m := map[*Term]int64{}
				for i := range at {
					m[at[i]] = -cf[i]
				}
				x, y := own(mkAff(m, 0))
				if y < inf {
					a = -y
				}
				if x > -inf {
					b = -x
				}
			} else {
				a, b = own(base)
			}
		}
		var slo, shi int64
		okl, okh := true, true
		for i, x := range at {
			xl, xh := own(x)
			if cf[i] < 0 {
				xl, xh = xh, xl
			}
			if xl <= -inf || xl >= inf {
				okl = false
			} else {
				slo += xl * cf[i]
			}
			if xh <= -inf || xh >= inf {
				okh = false
			} else {
				shi += xh * cf[i]
			}
		}
		if okl && slo > a {
			a = slo
		}
		if okh && shi < b {
			b = shi
		}
		lo, hi = a, b
		if lo > -inf {
			lo += c
		}
		if hi < inf {
			hi += c
		}
		return lo, hi
	}
	return own(l)
}

func mkAffFrom(at []*Term, cf []int64) *Term {
	m := map[*Term]int64{}
	for i, a := range at {
		m[a] += cf[i]
	}
	return mkAff(m, 0)
}

// divOf: t is x / k for a constant k > 1.
func divOf(t *Term) (int64, bool) {
	if t.op != OBin || t.s != "/" || len(t.args) != 2 {
		return 0, false
	}
	k, ok := t.args[1].isInt()
	return k, ok && k > 1
}

// quotients relates the quotients among the atoms of t to their dividends.
func (f *Facts) quotients(t *Term) map[*Term]rng {
	m := map[*Term]rng{}
	add := func(q *Term) {
		if k, ok := divOf(q); ok && natural(q.args[0]) {
			// 0 <= x - k*q <= k-1
			d := Add(q.args[0], q, -k)
			if d.op == OAff {
				m[d] = rng{lo: 0, hi: k - 1}
			}
		}
	}
	at, _, _ := linear(t)
	for _, a := range at {
		add(a)
	}
	for l := range f.ints {
		as, _, _ := linear(l)
		for _, a := range as {
			add(a)
		}
	}
	return m
}

// upper bound of t using one additional relational fact (two when a quotient is involved).
func (f *Facts) upper(t *Term) int64 {
	hi := f.upper1(t, f.ints)
	qs := f.quotients(t)
	if len(qs) == 0 {
		return hi
	}
	if h := f.upper1(t, qs); h < hi {
		hi = h
	}
	n0, _, _ := linear(t)
	for l, r := range qs {
		if l.op != OAff {
			continue
		}
		a, cf, _ := linear(l)
		for i := range a {
			for j := range n0 {
				_, c0, _ := linear(t)
				if a[i] != n0[j] || c0[j]%cf[i] != 0 {
					continue
				}
				// t = k*l + rest
				k := c0[j] / cf[i]
				rest := Add(t, l, -k)
				lh := r.hi * k
				if k < 0 {
					lh = r.lo * k
				}
				// the rest may be a multiple of a fact
				ra, rc, rk := linear(rest)
				g := int64(0)
				for _, c := range rc {
					g = gcd(g, abs(c))
				}
				if len(ra) == 0 {
					g = 1
				}
				m := map[*Term]int64{}
				for x := range ra {
					m[ra[x]] = rc[x] / g
				}
				small := mkAff(m, 0)
				if h := f.upper1(small, f.ints); h < inf {
					if v := h*g + rk + lh; v < hi {
						hi = v
					}
				}
			}
		}
	}
	return hi
}

func (f *Facts) upper1(t *Term, facts map[*Term]rng) int64 {
	_, hi := f.bounds(t)
	for l, r := range facts {
		if l.op != OAff {
			continue
		}
		// t = k*l + rest
		for _, k := range []int64{1, -1} {
			rest := Add(t, l, -k)
			if a1, _, _ := linear(rest); len(a1) > func() int { a, _, _ := linear(t); return len(a) }() {
				continue
			}
			_, rh := f.bounds(rest)
			if rh >= inf {
				continue
			}
			var lh int64
			if k == 1 {
				if r.hi >= inf {
					continue
				}
				lh = r.hi
			} else {
				if r.lo <= -inf {
					continue
				}
				lh = -r.lo
			}
			if lh+rh < hi {
				hi = lh + rh
			}
		}
	}
	return hi
}

type tri int8

const (
	U tri = iota
	Y
	N
)

func tb(b bool) tri {
	if b {
		return Y
	}
	return N
}

// Truth evaluates a boolean term under the facts.
func (f *Facts) Truth(t *Term) tri {
	if b, ok := t.isBool(); ok {
		return tb(b)
	}
	switch t.op {
	case ONot:
		switch f.Truth(t.args[0]) {
		case Y:
			return N
		case N:
			return Y
		}
		return U
	case OLe:
		_, hi := f.bounds(t.args[0])
		lo, _ := f.bounds(t.args[0])
		if hi <= t.n || f.upper(t.args[0]) <= t.n {
			return Y
		}
		if lo > t.n {
			return N
		}
		// lower bound through relations: -L <= -(n+1)
		m := Add(Int(0), t.args[0], -1)
		if f.upper(m) <= -t.n-1 {
			return N
		}
		return U
	case OEq:
		if t.s == "i" {
			n, _ := t.args[1].isInt()
			lo, hi := f.bounds(t.args[0])
			if u := f.upper(t.args[0]); u < hi {
				hi = u
			}
			if l := -f.upper(Add(Int(0), t.args[0], -1)); l > lo {
				lo = l
			}
			if lo == hi && lo == n {
				return Y
			}
			if n < lo || n > hi {
				return N
			}
			if r, ok := f.ints[t.args[0]]; ok {
				for _, x := range r.ne {
					if x == n {
						return N
					}
				}
			}
			return U
		}
		if b, ok := f.b[t]; ok {
			return tb(b)
		}
		a, c := t.args[0], t.args[1]
		if x, ok := f.eqc[a]; ok {
			a = x
		}
		if x, ok := f.eqc[c]; ok {
			c = x
		}
		if a != t.args[0] || c != t.args[1] {
			e := Eq(a, c)
			if e != t {
				return f.Truth(e)
			}
		}
		for i := 0; i < 2; i++ {
			if x, ok := t.args[i].isStr(); ok && x == "" && !t.args[1-i].isConst() {
				return f.Truth(T.mk(Term{op: OLe, args: []*Term{Call("strlen", t.args[1-i])}, n: 0}))
			}
		}
		// a slice that is not empty is not nil
		if c.isNil() {
			if lo, _ := f.bounds(LenOf(a)); lo > 0 {
				return N
			}
		}
		return U
	}
	if b, ok := f.b[t]; ok {
		return tb(b)
	}
	return U
}

// Assume records that t has the given truth value; it returns false if that contradicts the facts.
func (f *Facts) Assume(t *Term, v bool) bool {
	switch f.Truth(t) {
	case Y:
		return v
	case N:
		return !v
	}
	switch t.op {
	case ONot:
		return f.Assume(t.args[0], !v)
	case OLe:
		r, ok := f.ints[t.args[0]]
		if !ok {
			r = rng{lo: -inf, hi: inf}
		}
		if v {
			if t.n < r.hi {
				r.hi = t.n
			}
		} else if t.n+1 > r.lo {
			r.lo = t.n + 1
		}
		f.ints[t.args[0]] = r
		lo, hi := f.bounds(t.args[0])
		return lo <= hi
	case OEq:
		if t.s == "i" {
			n, _ := t.args[1].isInt()
			r, ok := f.ints[t.args[0]]
			if !ok {
				r = rng{lo: -inf, hi: inf}
			}
			if v {
				r.lo, r.hi = n, n
			} else {
				r.ne = append(append([]int64(nil), r.ne...), n)
				sort.Slice(r.ne, func(i, j int) bool { return r.ne[i] < r.ne[j] })
			}
			f.ints[t.args[0]] = r
			lo, hi := f.bounds(t.args[0])
			return lo <= hi
		}
		f.b[t] = v
		if v {
			a, c := t.args[0], t.args[1]
			if c.isConst() {
				f.eqc[a] = c
			}
		}
		return true
	}
	f.b[t] = v
	return true
}

// project keeps what the facts about loop dependent natural numbers imply for the other terms.
func (f *Facts) project(in func(*Term) bool) {
	add := map[*Term]rng{}
	for l, r := range f.ints {
		if l.op != OAff || !l.hasGen(in) {
			continue
		}
		at, cf, _ := linear(l)
		pos, neg := true, true
		rest := map[*Term]int64{}
		n := 0
		for i, a := range at {
			if !a.hasGen(in) {
				rest[a] += cf[i]
				n++
				continue
			}
			if !natural(a) {
				pos, neg = false, false
			}
			if cf[i] < 0 {
				pos = false
			} else {
				neg = false
			}
		}
		if n == 0 || !pos && !neg {
			continue
		}
		t := mkAff(rest, 0)
		if pos && r.hi < inf { // rest <= hi
			x := rng{lo: -inf, hi: inf}
			if o, ok := add[t]; ok {
				x = o
			}
			if r.hi < x.hi {
				x.hi = r.hi
			}
			add[t] = x
		}
		if neg && r.lo > -inf {
			x := rng{lo: -inf, hi: inf}
			if o, ok := add[t]; ok {
				x = o
			}
			if r.lo > x.lo {
				x.lo = r.lo
			}
			add[t] = x
		}
	}
	f.forget(func(t *Term) bool { return t.hasGen(in) })
	for t, x := range add {
		if x.hi < inf {
			f.Assume(Le0(AddN(t, -x.hi)), true)
		}
		if x.lo > -inf {
			f.Assume(Le0(AddN(Add(Int(0), t, -1), x.lo)), true)
		}
	}
}

// forget drops every fact about a term accepted by the predicate.
func (f *Facts) forget(drop func(*Term) bool) {
	for k := range f.ints {
		if drop(k) {
			delete(f.ints, k)
		}
	}
	for k := range f.b {
		if drop(k) {
			delete(f.b, k)
		}
	}
	for k := range f.eqc {
		if drop(k) {
			delete(f.eqc, k)
		}
	}
}

func (f *Facts) key(b []byte) []byte {
	var ids []int
	m := map[int]*Term{}
	for k := range f.ints {
		ids = append(ids, k.id)
		m[k.id] = k
	}
	sort.Ints(ids)
	for _, i := range ids {
		r := f.ints[m[i]]
		b = num(b, int64(i))
		b = num(b, r.lo)
		b = num(b, r.hi)
		for _, n := range r.ne {
			b = num(b, n)
		}
		b = append(b, ';')
	}
	b = append(b, '|')
	ids = ids[:0]
	for k, v := range f.b {
		x := k.id * 2
		if v {
			x++
		}
		ids = append(ids, x)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b = num(b, int64(i))
	}
	b = append(b, '|')
	return b
}

func num(b []byte, n int64) []byte {
	u := uint64(n)
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	b = append(b, byte(u))
	return append(b, 0xff)
}
