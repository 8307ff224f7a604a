package main

import (
	"math/big"
	"sort"
)

// Entailment between diagrams: the cubes of pc ∧ ¬goal are refuted with
// equality reasoning and linear arithmetic (Fourier–Motzkin elimination).

type lin struct {
	co     map[int]*big.Rat // monomial key -> coefficient
	k      *big.Rat
	strict bool // < 0 instead of <= 0
}

type cubeCtx struct {
	fixed map[int]*Term
	ev    *Ev
	vars  map[string]int
	mono  map[int][]*Term
	ints  map[int]bool
}

func (ev *Ev) feasible(pc *Term) bool {
	if pc == ev.c.True {
		return true
	}
	if r, ok := ev.feasM[pc.id]; ok {
		return r
	}
	r := ev.sat(pc, 48)
	if r && ev.gaveUp {
		if m := ev.must(pc); m != ev.c.True && m != pc && !ev.sat(m, 48) {
			r = false
		}
	}
	ev.feasM[pc.id] = r
	return r
}

// entails: every outcome allowed by pc satisfies goal.
func (ev *Ev) entails(pc, goal *Term) bool {
	c := ev.c
	x := c.And(pc, c.Not(goal))
	if x == c.False {
		return true
	}
	if !ev.sat(x, 600) {
		return true
	}
	// only what holds in every case of pc
	if m := ev.must(pc); m != c.True && m != pc {
		if y := c.And(m, c.Not(goal)); y == c.False || !ev.sat(y, 600) {
			return true
		}
	}
	return !ev.sat(x, 4000)
}

// must is the conjunction of the literals that pc implies.
func (ev *Ev) must(pc *Term) *Term {
	c := ev.c
	if r, ok := ev.mustM[pc.id]; ok {
		return r
	}
	r := c.True
	at := ev.atomsOf(pc)
	if len(at) <= 200 {
		for _, a := range at {
			g := c.atomB(a)
			switch {
			case c.And(pc, c.Not(g)) == c.False:
				r = c.And(r, g)
			case c.And(pc, g) == c.False:
				r = c.And(r, c.Not(g))
			}
		}
	}
	ev.mustM[pc.id] = r
	return r
}

type lit struct {
	a *Term
	v bool
}

// sat reports false only if every cube of t is contradictory.
func (ev *Ev) sat(t *Term, budget int) bool {
	ev.gaveUp = false
	if t == ev.c.False {
		return false
	}
	var cube []lit
	n := 0
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == ev.c.False {
			return false
		}
		if t == ev.c.True {
			n++
			return !ev.refute(cube)
		}
		if n > budget {
			ev.gaveUp = true
			return true
		}
		a := t.args[0]
		cube = append(cube, lit{a, true})
		if rec(t.args[1]) {
			return true
		}
		cube[len(cube)-1].v = false
		if rec(t.args[2]) {
			return true
		}
		cube = cube[:len(cube)-1]
		return false
	}
	return rec(t)
}

// refute: the cube is contradictory.
func (ev *Ev) refute(cube []lit) bool {
	c := ev.c
	// equalities between references: substitute representatives
	rep := map[int]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		for rep[t.id] != nil {
			t = rep[t.id]
		}
		return t
	}
	var neq [][2]*Term
	lits := append([]lit{}, cube...)
	seen := map[int]bool{}
	extra := 0
	var ls []lin
	cc := &cubeCtx{ev: ev, vars: map[string]int{}, mono: map[int][]*Term{}, ints: map[int]bool{}}
	var neqNum []*Term
	val := map[int]bool{}
	for i := 0; i < len(lits); i++ {
		l := lits[i]
		if v, ok := val[l.a.id]; ok {
			if v != l.v {
				return true
			}
			continue
		}
		val[l.a.id] = l.v
		if l.v {
			cc.fix(l.a)
		}
		switch l.a.op {
		case "le0":
			if l.v {
				ls = append(ls, cc.lin(l.a.args[0], false, 1))
			} else {
				ls = append(ls, cc.lin(l.a.args[0], true, -1))
			}
		case "lt0":
			if l.v {
				ls = append(ls, cc.lin(l.a.args[0], true, 1))
			} else {
				ls = append(ls, cc.lin(l.a.args[0], false, -1))
			}
		case "eq0":
			if l.v {
				ls = append(ls, cc.lin(l.a.args[0], false, 1), cc.lin(l.a.args[0], false, -1))
			} else {
				neqNum = append(neqNum, l.a.args[0])
			}
		case "eq":
			a, b := find(l.a.args[0]), find(l.a.args[1])
			if l.v {
				if a == b {
					break
				}
				if distinct(c, a, b) {
					return true
				}
				if a.op == "nil" || a.op == "str" {
					a, b = b, a
				}
				rep[a.id] = b
			} else {
				neq = append(neq, [2]*Term{l.a.args[0], l.a.args[1]})
			}
		case "exists":
			if l.v && extra < 12 {
				extra++
				lam, n := l.a.args[0], l.a.args[1]
				f := c.raw("first", "", true, lam, n)
				ls = append(ls, cc.lin(c.Add(c.Sub(f, n), c.Int(1)), false, 1))
				body := c.Inst(lam, f)
				if ok, more := conj(c, body); ok {
					lits = append(lits, more...)
				} else if body == c.False {
					return true
				}
			}
		}
		for s := range l.a.syms {
			seen[s] = true
		}
	}
	for _, q := range neq {
		if find(q[0]) == find(q[1]) {
			return true
		}
	}
	if ev.cubeFacts != nil {
		for _, f := range ev.cubeFacts(lits) {
			ls = append(ls, cc.lin(f, false, 1)) // f <= 0
		}
	}
	cc.facts(&ls)
	if infeasible(ls, cc) {
		return true
	}
	// disequalities: both strict sides must be impossible
	for i, p := range neqNum {
		if i >= 4 {
			break
		}
		a := append(append([]lin{}, ls...), cc.lin(p, true, 1))
		cc.facts(&a)
		b := append(append([]lin{}, ls...), cc.lin(p, true, -1))
		cc.facts(&b)
		if infeasible(a, cc) && infeasible(b, cc) {
			return true
		}
	}
	return false
}

// fix records the value of a quantity that the literal a pins down.
func (cc *cubeCtx) fix(a *Term) {
	if a.op != "eq0" && a.op != "le0" {
		return
	}
	c := cc.ev.c
	if cc.fixed == nil {
		cc.fixed = map[int]*Term{}
	}
	ms := c.monosOf(a.args[0])
	if a.op == "le0" {
		if len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].c.Sign() > 0 && c.isNonNeg(ms[0].fs[0]) {
			f := ms[0].fs[0]
			cc.fixed[f.id] = c.numRat(new(big.Rat), f.isInt)
		}
		return
	}
	if len(ms) > 3 {
		return
	}
	for _, m := range ms {
		if len(m.fs) != 1 {
			continue
		}
		f := m.fs[0]
		// f = f - p/coef
		v := c.Sub(f, c.Mul(a.args[0], c.numRat(new(big.Rat).Inv(m.c), f.isInt)))
		if old := cc.fixed[f.id]; (old == nil || !old.isConstNum()) && !v.contains(f) {
			cc.fixed[f.id] = v
		}
	}
}

// conj splits a conjunction of literals.
func conj(c *TermCtx, t *Term) (bool, []lit) {
	var out []lit
	for t.op == "ite" {
		switch {
		case t.args[2] == c.False:
			out = append(out, lit{t.args[0], true})
			t = t.args[1]
		case t.args[1] == c.False:
			out = append(out, lit{t.args[0], false})
			t = t.args[2]
		default:
			return len(out) > 0, out
		}
	}
	return t == c.True, out
}

func distinct(c *TermCtx, a, b *Term) bool {
	if a.op == "str" && b.op == "str" {
		return a.aux != b.aux
	}
	if a.op == "nil" {
		return c.isNonNil(b)
	}
	if b.op == "nil" {
		return c.isNonNil(a)
	}
	return false
}

func (cc *cubeCtx) v(fs []*Term) int {
	k := fsKey(fs)
	if i, ok := cc.vars[k]; ok {
		return i
	}
	i := len(cc.vars)
	cc.vars[k] = i
	cc.mono[i] = fs
	isInt := true
	for _, f := range fs {
		if !f.isInt {
			isInt = false
		}
	}
	cc.ints[i] = isInt
	return i
}

// lin: sign*p <= 0 (or < 0).
func (cc *cubeCtx) lin(p *Term, strict bool, sign int64) lin {
	l := lin{co: map[int]*big.Rat{}, k: new(big.Rat), strict: strict}
	s := big.NewRat(sign, 1)
	allInt := true
	for _, m := range cc.ev.c.monosOf(p) {
		if len(m.fs) == 0 {
			l.k = new(big.Rat).Mul(m.c, s)
			continue
		}
		i := cc.v(m.fs)
		if !cc.ints[i] {
			allInt = false
		}
		l.co[i] = new(big.Rat).Mul(m.c, s)
	}
	if strict && allInt {
		ok := l.k.IsInt()
		for _, x := range l.co {
			if !x.IsInt() {
				ok = false
			}
		}
		if ok {
			l.k = new(big.Rat).Add(l.k, big.NewRat(1, 1))
			l.strict = false
		}
	}
	return l
}

// facts adds what is known about the opaque quantities mentioned so far.
func (cc *cubeCtx) facts(ls *[]lin) {
	c := cc.ev.c
	done := map[int]bool{}
	for n := 0; n < 3; n++ {
		var todo []int
		for i := range cc.mono {
			if !done[i] {
				todo = append(todo, i)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Ints(todo)
		for _, i := range todo {
			done[i] = true
			nn := true
			for _, f := range cc.mono[i] {
				if !c.isNonNeg(f) {
					nn = false
				}
			}
			if len(cc.mono[i]) == 2 && cc.mono[i][0] == cc.mono[i][1] {
				nn = true
			}
			if nn {
				*ls = append(*ls, lin{co: map[int]*big.Rat{i: big.NewRat(-1, 1)}, k: new(big.Rat)})
			}
			if len(cc.mono[i]) > 1 {
				for j, f := range cc.mono[i] {
					v := cc.fixed[f.id]
					if v == nil {
						continue
					}
					// a factor with a known value makes the product linear
					rest := v
					for k, g := range cc.mono[i] {
						if k != j {
							rest = c.Mul(rest, g)
						}
					}
					m := c.Mul(f, c.Int(1))
					for k, g := range cc.mono[i] {
						if k != j {
							m = c.Mul(m, g)
						}
					}
					d := c.Sub(m, rest)
					*ls = append(*ls, cc.lin(d, false, 1), cc.lin(d, false, -1))
					break
				}
			}
			if len(cc.mono[i]) == 1 {
				f := cc.mono[i][0]
				if u := c.upper[f.id]; u != nil {
					*ls = append(*ls, cc.lin(c.Sub(f, u), false, 1))
				}
				if u := c.lower[f.id]; u != nil {
					*ls = append(*ls, cc.lin(c.Sub(u, f), false, 1))
				}
				if f.op == "idiv" && f.args[1].isConstNum() && f.args[1].ratVal().Sign() > 0 && c.leavesNonNeg(f.args[0]) {
					// b*q <= a < b*q + b
					a, b := f.args[0], f.args[1]
					*ls = append(*ls, cc.lin(c.Sub(c.Mul(b, f), a), false, 1))
					*ls = append(*ls, cc.lin(c.Add(c.Sub(a, c.Add(c.Mul(b, f), b)), c.Int(1)), false, 1))
					*ls = append(*ls, cc.lin(f, false, -1))
				} else if f.op == "idiv" && c.leavesNonNeg(f.args[0]) && c.leavesNonNeg(f.args[1]) {
					a, b := f.args[0], f.args[1]
					*ls = append(*ls, cc.lin(c.Sub(c.Mul(b, f), a), false, 1))
					*ls = append(*ls, cc.lin(f, false, -1))
				}
				if f.op == "trunc" {
					// for a >= 0: f <= a < f+1
					if c.leavesNonNeg(f.args[0]) {
						*ls = append(*ls, cc.lin(c.Sub(f, f.args[0]), false, 1))
					}
				}
			}
		}
	}
}

// infeasible runs Fourier–Motzkin on ls.
func infeasible(ls []lin, cc *cubeCtx) bool {
	const maxRows = 400
	rows := append([]lin{}, ls...)
	for {
		// constant rows
		var next []lin
		for _, r := range rows {
			if len(r.co) == 0 {
				if r.k.Sign() > 0 || (r.strict && r.k.Sign() == 0) {
					return true
				}
				continue
			}
			next = append(next, r)
		}
		rows = next
		if len(rows) == 0 {
			return false
		}
		// pick the variable with the fewest combinations
		pos, neg := map[int]int{}, map[int]int{}
		for _, r := range rows {
			for v, x := range r.co {
				if x.Sign() > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		best, cost := -1, 0
		var vs []int
		for v := range pos {
			vs = append(vs, v)
		}
		for v := range neg {
			if pos[v] == 0 {
				vs = append(vs, v)
			}
		}
		sort.Ints(vs)
		for _, v := range vs {
			k := pos[v]*neg[v] - pos[v] - neg[v]
			if best < 0 || k < cost {
				best, cost = v, k
			}
		}
		var keep, ps, ns []lin
		for _, r := range rows {
			x := r.co[best]
			switch {
			case x == nil:
				keep = append(keep, r)
			case x.Sign() > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(keep)+len(ps)*len(ns) > maxRows {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a := new(big.Rat).Neg(n.co[best])
				b := p.co[best]
				r := lin{co: map[int]*big.Rat{}, k: new(big.Rat), strict: p.strict || n.strict}
				add := func(l lin, f *big.Rat) {
					for v, x := range l.co {
						y := new(big.Rat).Mul(x, f)
						if z := r.co[v]; z != nil {
							y.Add(y, z)
						}
						r.co[v] = y
					}
					r.k.Add(r.k, new(big.Rat).Mul(l.k, f))
				}
				add(p, a)
				add(n, b)
				for v, x := range r.co {
					if x.Sign() == 0 {
						delete(r.co, v)
					}
				}
				keep = append(keep, r)
			}
		}
		rows = keep
	}
}

// cubes renders the first cases of t that are not refuted (for diagnosis).
func (ev *Ev) cubes(t *Term, max int) string {
	out, n := "", 0
	var cube []lit
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == ev.c.False || n >= max {
			return
		}
		if t == ev.c.True {
			if !ev.refute(cube) {
				n++
				out += "case:\n"
				for _, l := range cube {
					s := "  "
					if !l.v {
						s = "  not "
					}
					out += s + l.a.String() + "\n"
				}
			}
			return
		}
		cube = append(cube, lit{t.args[0], true})
		rec(t.args[1])
		cube[len(cube)-1].v = false
		rec(t.args[2])
		cube = cube[:len(cube)-1]
	}
	rec(t)
	return out
}

// simp is t with every test that pc decides (arithmetically too) resolved.
func (ev *Ev) simp(t, pc *Term) *Term {
	c := ev.c
	t = c.Restrict(t, pc)
	for _, a := range ev.atomsOf(t) {
		g := c.atomB(a)
		switch {
		case !ev.feasible(c.And(pc, g)):
			t = c.Restrict(t, c.Not(g))
		case !ev.feasible(c.And(pc, c.Not(g))):
			t = c.Restrict(t, g)
		}
	}
	return t
}
