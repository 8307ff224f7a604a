package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop summaries. A loop body is evaluated once for a symbolic iteration
// number κ, starting from the closed forms of everything the loop changes;
// the closed forms are found by solving the recurrences that a first pass over
// the body exposes (constant and varying increments, appends, last values and
// latches). What has no closed form becomes an opaque function of κ.

// unknown is one scalar changed by the loop.
type unknown struct {
	name   string
	h      *Term // symbol standing for the value at the start of iteration κ
	ty     types.Type
	v0     *Term
	form   *Term // closed form in κ, nil while unsolved
	kind   string
	step   *Term // kind-specific: increment, appended element, stored value
	gate   *Term
	extra  *Term // what is appended as well in the last iteration
	bad    bool
	next   *Term
	tries  int
	rel    []*unknown // a linear combination of unknowns with a known step
	co     []int64
	lo, hi *Term // proven bounds of an integer
	hav    *Term // the opaque function of κ
}

type loopExit struct {
	edge *edgeState // nil for a return
	ret  *retState
	env  map[ssa.Value]*Term
	tup  map[ssa.Value][]*Term
	st   *State
}

// flat splits a value into scalar leaves.
func (ev *Ev) flat(v *Term, ty types.Type) ([]*Term, []types.Type) {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if ev.opaque(ty) {
			break
		}
		var ts []*Term
		var tys []types.Type
		for i := 0; i < u.NumFields(); i++ {
			f := ev.fixType(ev.c.Field(v, u.Field(i).Name()), u.Field(i).Type())
			a, b := ev.flat(f, u.Field(i).Type())
			ts = append(ts, a...)
			tys = append(tys, b...)
		}
		return ts, tys
	case *types.Array:
		if u.Len() <= 16 {
			var ts []*Term
			var tys []types.Type
			for i := int64(0); i < u.Len(); i++ {
				a, b := ev.flat(ev.c.ArrIndex(v, ev.c.Int(i), ev, u.Elem()), u.Elem())
				ts = append(ts, a...)
				tys = append(tys, b...)
			}
			return ts, tys
		}
	case *types.Tuple:
		panic(tooComplex{"tuple phi"})
	}
	return []*Term{v}, []types.Type{ty}
}

func (ev *Ev) unflat(leaves *[]*Term, ty types.Type) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if ev.opaque(ty) {
			break
		}
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, ev.unflat(leaves, u.Field(i).Type()))
		}
		return ev.mkStruct(ty, names, vals)
	case *types.Array:
		if u.Len() <= 16 {
			var vals []*Term
			for i := int64(0); i < u.Len(); i++ {
				vals = append(vals, ev.unflat(leaves, u.Elem()))
			}
			return ev.mkArray(vals)
		}
	}
	r := (*leaves)[0]
	*leaves = (*leaves)[1:]
	return r
}

func (ev *Ev) havSym(name string, ty types.Type) *Term {
	t := ev.c.intern(&Term{op: "hav", aux: name, isInt: isInteger(ty), args: nil})
	ev.typed(t, ty)
	return t
}

func (ev *Ev) asVal(h *Term, ty types.Type) *Term {
	if isBool(ty) {
		return ev.c.atomB(h)
	}
	return h
}

func usedOutside(fr *Frame, lp *loop) []ssa.Value {
	var out []ssa.Value
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !lp.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].(ssa.Instruction), out[j].(ssa.Instruction)
		return site(a) < site(b)
	})
	return out
}

// loop summarises lp entered through live and returns the edges leaving it.
func (ev *Ev) loop(fr *Frame, lp *loop, lf *loopForest, live []*edgeState) []*edgeState {
	c := ev.c
	entry, phis0 := ev.joinEdges(fr, lp.header, live, false)
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	max := ev.peel
	if n := ev.trips(fr, lp, phis0); n > max {
		max = n
	}
	if max > 0 {
		if out, ok := ev.peeled(fr, lp, lf, entry, phis, phis0, max); ok {
			return out
		}
	}
	where := fr.ctx + "/" + shortFn(fr.fn) + ":L" + strconv.Itoa(lp.header.Index)
	id := where + ev.kappaKey()
	kappa := c.intern(&Term{op: "kappa", aux: "k{" + id + "}", isInt: true})
	used := usedOutside(fr, lp)

	// map iteration
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && lf.inner[b] == lp {
				if ri := fr.ranges[nx.Iter]; ri != nil {
					ri.kappa = kappa
					ri.key = ev.mapKey(ri.st, ri.m, kappa, ri.typ.Key())
				}
			}
		}
	}

	// unknowns: phis first
	phiU := map[*ssa.Phi][]*unknown{}
	var us []*unknown
	for i, ph := range phis {
		vs, tys := ev.flat(phis0[ph], ph.Type())
		for j := range vs {
			n := fmt.Sprintf("%s#p%d.%d", id, i, j)
			u := &unknown{name: n, ty: tys[j], v0: vs[j], h: ev.havSym(n, tys[j])}
			phiU[ph] = append(phiU[ph], u)
			us = append(us, u)
		}
	}
	memU := map[*Term]*unknown{}
	marks := map[string]*loopMark{}
	pinned := map[*Term]bool{}
	pin := func(a *Term) {
		pinned[a] = true
		ev.pins[a]++
		ev.addMemU(memU, &us, id, a, entry)
		sh := ev.shapeOf(a)
		for _, k := range ev.directs[sh.key] {
			if k == a {
				return
			}
		}
		ev.directs[sh.key] = append(ev.directs[sh.key], a)
	}
	defer func() {
		for a := range pinned {
			ev.pins[a]--
		}
	}()
	if cached := ev.loopChg[where]; cached != nil {
		for k := range cached.mem {
			if !k.contains(kappa) {
				ev.addMemU(memU, &us, id, k, entry)
			}
		}
		for k := range cached.pin {
			if !k.contains(kappa) && ev.pins[k] == 0 {
				pin(k)
			}
		}
	} else {
		ev.loopChg[where] = &loopChange{mem: map[*Term]bool{}, pin: map[*Term]bool{}}
	}

	nrets := len(fr.rets)
	outerDefers := len(fr.defers)
	runBody := func() (outs, backs []*edgeState, rets []retState, start *State) {
		start = entry.clone()
		start.pc = c.True
		for k, u := range memU {
			start.mem[k] = u.value(ev)
		}
		for key, log := range start.logs {
			if marks[key] == nil && len(log) > 0 {
				// earlier writes stay apart from those of the loop
				start.logs[key] = append(log[:len(log):len(log)], (&loopMark{kappa: kappa}).entry())
			}
		}
		for key, m := range marks {
			start.logs[key] = append(start.logs[key][:len(start.logs[key]):len(start.logs[key])], m.entry())
		}
		for _, ph := range phis {
			var ls []*Term
			for _, u := range phiU[ph] {
				ls = append(ls, u.value(ev))
			}
			fr.env[ph] = ev.unflat(&ls, ph.Type())
		}
		ev.outer = append(ev.outer, entry.pc)
		ev.kappas = append(ev.kappas[:len(ev.kappas):len(ev.kappas)], kappa)
		outs, backs = ev.region(fr, lp, lf, lp.header, []*edgeState{{to: lp.header, st: start.clone()}})
		ev.outer = ev.outer[:len(ev.outer)-1]
		ev.kappas = ev.kappas[:len(ev.kappas)-1]
		rets = append([]retState{}, fr.rets[nrets:]...)
		fr.rets = fr.rets[:nrets]
		for _, es := range [][]*edgeState{outs, backs} {
			for _, e := range es {
				ev.flushIter(e.st, kappa)
			}
		}
		for _, r := range rets {
			ev.flushIter(r.st, kappa)
		}
		if len(fr.defers) != outerDefers {
			panic(tooComplex{"defer in a loop"})
		}
		return
	}

	var backSt *State
	// fixed: the same in every iteration
	// fixed: one place for the whole loop. Scratch space of the body (an
	// object made for the call, written before it is read) carries nothing
	// from one iteration to the next and needs no such treatment.
	fixed := func(a *Term, m *loopMark) bool {
		if a.contains(kappa) {
			return false
		}
		for _, u := range us {
			if a.contains(u.h) {
				return false
			}
		}
		for x := a; ; x = x.args[0] {
			if x.op != "fld" && x.op != "idx" {
				if x.op == "alloc" {
					return m != nil && m.read
				}
				return x.op == "ini"
			}
		}
	}
	analyse := func(backs []*edgeState, start *State) (changed bool) {
		var live []*edgeState
		for _, b := range backs {
			if b.st.pc != c.False {
				live = append(live, b)
			}
		}
		if len(live) == 0 {
			backSt = nil
			return false
		}
		st, nphi := ev.joinEdges(fr, lp.header, live, false)
		backSt = st
		for _, ph := range phis {
			vs, _ := ev.flat(nphi[ph], ph.Type())
			for j, u := range phiU[ph] {
				u.next = c.Restrict(vs[j], st.pc)
			}
		}
		for k, v := range st.mem {
			v = c.Restrict(v, st.pc)
			if u := memU[k]; u != nil {
				u.next = v
				continue
			}
			old, ok := entry.mem[k]
			if !ok {
				if k.contains(kappa) || k.op == "alloc" && hasArg(k, kappa) || k.op == "havmark" && k.args[0].contains(kappa) {
					continue // object of this iteration only
				}
				old = ev.defKey(entry, k)
			}
			if c.Restrict(old, st.pc) != v {
				u := ev.addMemU(memU, &us, id, k, entry)
				u.next = v
				ev.loopChg[where].mem[k] = true
				changed = true
			}
		}
		for a := range pinned {
			if _, ok := st.mem[a]; !ok {
				memU[a].next = c.Restrict(ev.Load(st, a, ev.keyTyp[a]), st.pc)
			}
		}
		for key, log := range st.logs {
			base := len(start.logs[key])
			var pats []*entry_
			if len(log) > base {
				for _, e := range log[base:] {
					if e.addr != nil && pinned[e.addr] {
						continue
					}
					if e.addr != nil && len(e.bound) == 0 && (e.addr.op == "fld" || e.addr.op == "idx") && fixed(e.addr, marks[key]) {
						pin(e.addr)
						ev.loopChg[where].pin[e.addr] = true
						changed = true
						continue
					}
					pats = append(pats, e)
				}
			} else if len(log) < base {
				// a trailing write was replaced
				panic(tooComplex{"loop rewrites an earlier write in " + where})
			}
			m := marks[key]
			if m == nil {
				if len(pats) == 0 {
					continue
				}
				marks[key] = &loopMark{kappa: kappa, pats: pats, name: id + ":" + key}
				changed = true
				continue
			}
			if !samePats(m.pats, pats) {
				m2 := *m
				m2.pats = pats
				m2.gen++
				marks[key] = &m2
				changed = true
			}
		}
		return
	}

	ev.trial++
	final := false
	for pass := 0; ; pass++ {
		if pass > 24 {
			for _, u := range us {
				if u.form == nil {
					u.bad = true
				}
			}
		}
		if pass > 40 {
			if os.Getenv("GPSA_LOOPS") != "" {
				for key, m := range marks {
					fmt.Fprintln(os.Stderr, "UNSETTLED", where, key, m.gen, len(m.pats))
					if m.gen > 6 {
						for _, e := range m.pats {
							fmt.Fprintf(os.Stderr, "   %v guard %s dom %v := %s\n", e.holes, clip(fmt.Sprint(e.guard), 3000), clip(fmt.Sprint(e.dom), 1500), clip(fmt.Sprint(e.val), 4000))
						}
					}
				}
			}
			ev.trial--
			panic(tooComplex{"loop summary does not settle: " + where})
		}
		_, backs, _, start := runBody()
		changed := analyse(backs, start)
		if backSt == nil {
			// the body never comes back: the header sees the entry values
			for _, u := range us {
				u.form, u.bad, u.rel = u.v0, false, nil
			}
			break
		}
		if !changed && ev.solve(us, kappa, backSt.pc) {
			changed = true
		}
		if !changed {
			if ev.relate && ev.relations(us) {
				continue
			}
			if final {
				break
			}
			for _, u := range us {
				if u.form == nil {
					u.bad = true
					changed = true
				}
			}
			if !changed {
				break
			}
		}
	}
	ev.trial--
	// final pass, hooks on
	outs, backs, rets, start := runBody()
	ev.trial++
	analyse(backs, start)
	ev.trial--

	var exits []*loopExit
	for i := range outs {
		exits = append(exits, &loopExit{edge: outs[i], st: outs[i].st})
	}
	for i := range rets {
		exits = append(exits, &loopExit{ret: &rets[i], st: rets[i].st})
	}

	// when does the loop end?
	E := c.False
	for _, x := range exits {
		E = c.Or(E, x.st.pc)
	}
	var ex, K, N, stay *Term
	if backSt == nil {
		ex, K, N, stay = c.False, c.Int(0), c.Int(0), c.True
	} else {
		ex, K, N, stay = ev.exitIndex(c.Restrict(E, ev.fullPC(entry)), kappa, where)
	}
	if ev.onLoop != nil && ev.trial == 0 {
		ev.loopN = N
		ev.onLoop(fr, lp, backs, outs, kappa)
	}
	if len(exits) == 0 {
		return nil // never leaves
	}
	type guarded struct {
		x   *loopExit
		k   *Term
		g   *Term
		nth int
	}
	var gs []guarded
	for pi, part := range []struct{ cond, k *Term }{{ex, K}, {c.Not(ex), N}} {
		if part.cond == c.False || part.k == nil {
			continue
		}
		sub := ev.exitSub(us, kappa, part.k)
		rest := c.True
		// the conditions of the exits are exclusive and, at the exit iteration,
		// exhaustive
		var cand []guarded
		for _, x := range exits {
			g := x.st.pc
			if pi == 0 {
				g = c.Restrict(g, stay)
			}
			g = c.Subst(g, sub)
			if g == c.False {
				continue
			}
			cand = append(cand, guarded{x: x, k: part.k, g: g})
		}
		for i := range cand {
			g := cand[i].g
			if i == len(cand)-1 {
				g = rest
			} else {
				rest = c.And(rest, c.Not(g))
			}
			cand[i].g = c.And(part.cond, g)
			if cand[i].g != c.False {
				gs = append(gs, cand[i])
			}
		}
	}

	// values used after the loop
	usedVals := map[ssa.Value]*Term{}
	usedTups := map[ssa.Value][]*Term{}
	for _, v := range used {
		if t, ok := fr.tup[v]; ok {
			r := make([]*Term, len(t))
			for i := range t {
				for j := len(gs) - 1; j >= 0; j-- {
					x := c.Subst(t[i], ev.exitSub(us, kappa, gs[j].k))
					if r[i] == nil {
						r[i] = x
					} else {
						r[i] = c.Ite(gs[j].g, x, r[i])
					}
				}
			}
			usedTups[v] = r
			continue
		}
		t, ok := fr.env[v]
		if !ok {
			continue
		}
		var r *Term
		for j := len(gs) - 1; j >= 0; j-- {
			x := c.Subst(t, ev.exitSub(us, kappa, gs[j].k))
			if r == nil {
				r = x
			} else {
				r = c.Ite(gs[j].g, x, r)
			}
		}
		if r != nil {
			usedVals[v] = r
		}
	}
	for v, t := range usedVals {
		fr.env[v] = t
	}
	for v, t := range usedTups {
		fr.tup[v] = t
	}

	var edges []*edgeState
	for _, q := range gs {
		pc := c.And(entry.pc, q.g)
		if pc == c.False || !ev.feasible(pc) {
			continue
		}
		st := ev.exitState(entry, q.x.st, marks, kappa, q.k, ev.exitSub(us, kappa, q.k))
		for a := range pinned {
			if ev.pins[a] == 1 {
				ev.flushKey(st, a)
			}
		}
		st.pc = pc
		if q.x.edge != nil {
			edges = append(edges, &edgeState{from: q.x.edge.from, to: q.x.edge.to, nth: q.x.edge.nth, st: st})
		} else {
			sub := ev.exitSub(us, kappa, q.k)
			vals := make([]*Term, len(q.x.ret.vals))
			for i, v := range q.x.ret.vals {
				vals[i] = c.Subst(v, sub)
			}
			fr.rets = append(fr.rets, retState{st, vals})
		}
	}
	return edges
}

// trips is one more than the number of iterations of a loop that counts between
// two small constants, and 0 for other loops.
func (ev *Ev) trips(fr *Frame, lp *loop, phis0 map[*ssa.Phi]*Term) int {
	b := lp.header
	cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	var num func(v ssa.Value) *big.Rat
	num = func(v ssa.Value) *big.Rat {
		switch v := v.(type) {
		case *ssa.Const:
			if t := ev.val(fr, v); t.isConstNum() {
				return t.ratVal()
			}
			return nil
		case *ssa.Phi:
			if t := phis0[v]; t != nil {
				if t.isConstNum() {
					return t.ratVal()
				}
				return nil
			}
		case *ssa.BinOp:
			if lp.blocks[v.Block()] {
				x, y := num(v.X), num(v.Y)
				if v.Op != token.ADD || x == nil || y == nil {
					return nil
				}
				return new(big.Rat).Add(x, y)
			}
		}
		if t := fr.env[v]; t != nil {
			if in, ok := v.(ssa.Instruction); ok && !lp.blocks[in.Block()] {
				return most(t)
			}
		}
		return nil
	}
	x, y := num(cmp.X), num(cmp.Y)
	if x == nil || y == nil {
		return 0
	}
	d := new(big.Rat).Sub(x, y)
	d.Abs(d)
	if !d.IsInt() || d.Cmp(big.NewRat(8, 1)) > 0 {
		return 0
	}
	return int(d.Num().Int64()) + 2
}

// most is the greatest of the constants that t chooses from.
func most(t *Term) *big.Rat {
	if t.isConstNum() {
		return t.ratVal()
	}
	if t.op != "ite" {
		return nil
	}
	x, y := most(t.args[1]), most(t.args[2])
	if x == nil || y == nil {
		return nil
	}
	if x.Cmp(y) < 0 {
		return y
	}
	return x
}

// peeled evaluates a loop iteration by iteration; it succeeds only if no more
// than max iterations are possible in this state.
func (ev *Ev) peeled(fr *Frame, lp *loop, lf *loopForest, entry *State, phis []*ssa.Phi, phis0 map[*ssa.Phi]*Term, max int) ([]*edgeState, bool) {
	c := ev.c
	nrets := len(fr.rets)
	ndefs := len(fr.defers)
	used := usedOutside(fr, lp)
	oldEnv := map[ssa.Value]*Term{}
	type part struct {
		pc  *Term
		env map[ssa.Value]*Term
		tup map[ssa.Value][]*Term
	}
	var parts []part
	var outs []*edgeState
	st, vals := entry.clone(), phis0
	for i := 0; ; i++ {
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok && lf.inner[b] == lp {
					if ri := fr.ranges[nx.Iter]; ri != nil {
						ri.kappa = c.Int(int64(i))
						ri.key = ev.mapKey(ri.st, ri.m, ri.kappa, ri.typ.Key())
					}
				}
			}
		}
		for _, ph := range phis {
			fr.env[ph] = vals[ph]
		}
		ev.kappas = append(ev.kappas[:len(ev.kappas):len(ev.kappas)], c.Int(int64(i)))
		o, b := ev.region(fr, lp, lf, lp.header, []*edgeState{{to: lp.header, st: st.clone()}})
		ev.kappas = ev.kappas[:len(ev.kappas)-1]
		left := c.False
		for _, x := range o {
			left = c.Or(left, x.st.pc)
		}
		q := part{pc: left, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}}
		for _, v := range used {
			if t, ok := fr.tup[v]; ok {
				q.tup[v] = t
			} else if t, ok := fr.env[v]; ok {
				q.env[v] = t
			}
		}
		if left != c.False {
			parts = append(parts, q)
		}
		outs = append(outs, o...)
		var live []*edgeState
		for _, x := range b {
			if x.st.pc != c.False && ev.feasible(x.st.pc) {
				live = append(live, x)
			}
		}
		if len(live) == 0 {
			break
		}
		if i+1 >= max || len(fr.defers) != ndefs {
			fr.rets = fr.rets[:nrets]
			fr.defers = fr.defers[:ndefs]
			for v, t := range oldEnv {
				fr.env[v] = t
			}
			return nil, false
		}
		st, vals = ev.joinEdges(fr, lp.header, live, false)
	}
	for _, v := range used {
		var r *Term
		var rt []*Term
		for j := len(parts) - 1; j >= 0; j-- {
			if t, ok := parts[j].tup[v]; ok {
				if rt == nil {
					rt = append([]*Term{}, t...)
				} else {
					n := make([]*Term, len(t))
					for k := range t {
						n[k] = c.Ite(parts[j].pc, t[k], rt[k])
					}
					rt = n
				}
			} else if t, ok := parts[j].env[v]; ok {
				if r == nil {
					r = t
				} else {
					r = c.Ite(parts[j].pc, t, r)
				}
			}
		}
		if rt != nil {
			fr.tup[v] = rt
		} else if r != nil {
			fr.env[v] = r
		}
	}
	// several iterations may leave along the same edge
	by := map[[3]int]*edgeState{}
	var res []*edgeState
	for _, x := range outs {
		if x.st.pc == c.False || !ev.feasible(x.st.pc) {
			continue
		}
		k := [3]int{x.from.Index, x.to.Index, x.nth}
		if y := by[k]; y != nil {
			y.st = ev.merge([]*State{y.st, x.st})
			continue
		}
		by[k] = x
		res = append(res, x)
	}
	return res, true
}

func hasArg(k, s *Term) bool {
	for _, a := range k.args {
		if a == s {
			return true
		}
	}
	return false
}

type loopChange struct {
	mem map[*Term]bool
	pin map[*Term]bool
}

func (ev *Ev) addMemU(memU map[*Term]*unknown, us *[]*unknown, id string, k *Term, entry *State) *unknown {
	if u := memU[k]; u != nil {
		return u
	}
	ty := ev.keyTyp[k]
	v0, ok := entry.mem[k]
	if !ok {
		v0 = ev.defKey(entry, k)
	}
	switch k.op {
	case "lockst", "havmark":
		ty = types.Typ[types.String]
	case "events":
		ty = types.Universe.Lookup("any").Type()
	}
	if ty == nil {
		ty = types.Typ[types.UnsafePointer]
	}
	n := id + "#m" + strconv.Itoa(k.id)
	if ev.havKey == nil {
		ev.havKey = map[string]*Term{}
	}
	ev.havKey[n] = k
	u := &unknown{name: n, ty: ty, v0: v0, h: ev.havSym(n, ty)}
	memU[k] = u
	*us = append(*us, u)
	return u
}

func (u *unknown) value(ev *Ev) *Term {
	if u.rel != nil {
		c := ev.c
		k := c.intern(&Term{op: "kappa", aux: u.kappaName(), isInt: true})
		r := c.Mul(u.step, k)
		for i, w := range u.rel {
			r = c.Add(r, c.Mul(c.Int(u.co[i]), w.v0))
			if w != u {
				r = c.Sub(r, c.Mul(c.Int(u.co[i]), w.value(ev)))
			} else if u.co[i] != 1 {
				panic("relation")
			}
		}
		u.form, u.kind = r, "rel"
		return r
	}
	if u.form != nil {
		return u.form
	}
	if u.bad {
		// opaque function of κ
		k := ev.c.intern(&Term{op: "kappa", aux: u.kappaName(), isInt: true})
		args := append(append([]*Term{}, ev.kappas...), k)
		u.hav = ev.rawT("havf", u.name, u.ty, args...)
		u.boundHav(ev, u.hav)
		u.form = ev.c.Ite(ev.c.EqNum(k, ev.c.Int(0)), u.v0, u.hav)
		u.kind = "opaque"
		return u.form
	}
	return ev.asVal(u.h, u.ty)
}

func (u *unknown) kappaName() string {
	return "k{" + u.name[:strings.LastIndex(u.name, "#")] + "}"
}

func (m *loopMark) entry() *entry {
	return &entry{mark: m, guard: nil, val: nil}
}

func samePats(a, b []*entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.mark != nil || y.mark != nil {
			if x.mark == nil || y.mark == nil {
				return false
			}
			continue
		}
		if x.guard != y.guard || x.val != y.val || !sameHoles(x.holes, y.holes) || len(x.bound) != len(y.bound) || x.dom != y.dom {
			return false
		}
	}
	return true
}

// solve looks for closed forms; it reports whether it learned anything.
func (ev *Ev) solve(us []*unknown, kappa *Term, pcBack *Term) bool {
	c := ev.c
	progress := false
	hs := map[int]bool{}
	for _, u := range us {
		if u.form == nil {
			hs[u.h.id] = true
		}
	}
	free := func(t *Term) bool {
		if hs[t.id] {
			return false
		}
		for s := range t.syms {
			if hs[s] {
				return false
			}
		}
		return true
	}
	prev := func(t *Term) *Term {
		return c.Subst(t, map[int]*Term{kappa.id: c.Sub(kappa, c.Int(1))})
	}
	// counters first: everything else is easier to read once they are known
	for _, u := range us {
		if u.form != nil || u.bad || u.next == nil || !isNumeric(u.ty) {
			continue
		}
		if d := c.Sub(u.next, u.h); d.isConstNum() {
			u.form, u.kind, u.step = c.Add(u.v0, c.Mul(d, kappa)), "add", d
			progress = true
		}
	}
	if progress {
		return true
	}
	for again := true; again; {
		again = false
		for _, u := range us {
			if u.form != nil || u.bad || u.next == nil {
				continue
			}
			h := ev.asVal(u.h, u.ty)
			form, kind, step, gate := ev.recur(u, h, kappa, free, pcBack)
			if form == nil {
				continue
			}
			u.form, u.kind, u.step, u.gate = form, kind, step, gate
			delete(hs, u.h.id)
			sub := map[int]*Term{u.h.id: form}
			for _, w := range us {
				if w.next != nil {
					w.next = c.Subst(w.next, sub)
				}
			}
			again, progress = true, true
		}
	}
	if progress {
		return true
	}
	// verify the closed forms against this pass
	for _, u := range us {
		if u.form == nil || u.next == nil || u.kind == "opaque" {
			continue
		}
		ok := false
		switch u.kind {
		case "rel":
			d := c.Int(0)
			for i, w := range u.rel {
				d = c.Add(d, c.Mul(c.Int(u.co[i]), c.Sub(w.next, w.value(ev))))
			}
			ok = c.Restrict(d, pcBack) == u.step
			if !ok {
				u.rel = nil
			}
		case "same":
			ok = c.Restrict(u.form, pcBack) == u.next || u.next == u.form
		case "add":
			d := c.Restrict(c.Sub(u.next, u.form), pcBack)
			ok = d == u.step
		case "append":
			ok = u.next == c.Restrict(u.form1(c, kappa), pcBack) || ev.appendStep(u.next, u.form) == u.step && u.step != nil
		case "tail":
			late := c.And(c.Lt(c.Int(0), kappa), prev(u.gate))
			early := c.And(pcBack, c.Not(late))
			e, g, x := ev.tailStep(c.Restrict(u.next, early), c.Restrict(u.form, early))
			ok = e == u.step && g == u.gate && x == u.extra && !ev.feasible(c.And(pcBack, late))
		case "filter":
			ok = true // checked structurally below
			g, e := ev.filterStep(u.next, u.form)
			ok = g == u.gate && e == u.step && g != nil
		case "last":
			ok = u.next == u.step
		case "latch":
			g, e := ev.latchStep(u.next, u.form)
			ok = g != nil && g == u.gate && e == u.step || c.Restrict(c.Ite(u.gate, u.step, u.form), pcBack) == u.next
		}
		if !ok {
			if debugLoops {
				fmt.Printf("UNVERIFIED %s kind=%s\n  form=%s\n  next=%s\n  step=%v\n  back=%s\n", u.name, u.kind, u.form, u.next, u.step, pcBack)
			}
			u.form, u.kind = nil, ""
			u.tries++
			u.bad = u.tries > 3
			progress = true
		}
	}
	return progress
}

var debugLoops = os.Getenv("GPSA_LOOPS") != ""

// boundHav tells the solver the bounds of an opaque integer.
func (u *unknown) boundHav(ev *Ev, t *Term) {
	if u.lo != nil {
		ev.c.nonNeg[t.id] = true
	}
	if u.hi != nil {
		ev.c.upper[t.id] = u.hi
	}
}

// relations looks for linear relations and bounds among integers without a
// closed form.
func (ev *Ev) relations(us []*unknown) bool {
	c := ev.c
	var open []*unknown
	for _, u := range us {
		if u.form == nil && !u.bad && u.next != nil && isNumeric(u.ty) && isInteger(u.ty) && u.tries == 0 {
			open = append(open, u)
		}
	}
	if len(open) < 2 || len(open) > 8 {
		ev.bounds(open)
		return false
	}
	if os.Getenv("GPSA_REL") != "" {
		for _, u := range open {
			println("REL", u.h.String(), "v0", u.v0.String(), "next", u.next.String())
		}
	}
	step := func(us []*unknown, co []int64) *Term {
		d := c.Int(0)
		for i, u := range us {
			d = c.Add(d, c.Mul(c.Int(co[i]), c.Sub(u.next, u.h)))
		}
		return d
	}
	try := func(us []*unknown, co []int64) bool {
		d := step(us, co)
		if !d.isConstNum() {
			return false
		}
		// eliminate the youngest one
		k := 0
		for i := range us {
			if us[i].h.id > us[k].h.id {
				k = i
			}
		}
		u := us[k]
		u.rel, u.co, u.step = us, append([]int64{}, co...), d
		if co[k] < 0 {
			for i := range u.co {
				u.co[i] = -u.co[i]
			}
			u.step = c.Neg(d)
		}
		u.value(ev)
		return true
	}
	for i, a := range open {
		for _, b := range open[i+1:] {
			for _, s := range []int64{-1, 1} {
				if try([]*unknown{a, b}, []int64{1, s}) {
					return true
				}
			}
		}
	}
	for i, a := range open {
		for j, b := range open[i+1:] {
			for _, d := range open[i+j+2:] {
				for _, s := range [][]int64{{1, 1, 1}, {1, -1, -1}, {1, 1, -1}, {1, -1, 1}} {
					if try([]*unknown{a, b, d}, s) {
						return true
					}
				}
			}
		}
	}
	ev.bounds(open)
	return false
}

// bounds proves simple bounds by induction: 0 <= u, and u <= B for the values
// B that the loop itself compares u with.
func (ev *Ev) bounds(open []*unknown) {
	c := ev.c
	zero := c.Int(0)
	for _, u := range open {
		if u.lo == nil && ev.entails(c.True, c.Le(zero, u.v0)) && ev.entails(c.Le(zero, u.h), c.Le(zero, u.next)) {
			u.lo = zero
		}
		if u.hi != nil {
			continue
		}
		for _, a := range ev.atomsOf(u.next) {
			if a.op != "eq0" && a.op != "le0" {
				continue
			}
			p := a.args[0]
			k := coefOf(p, u.h)
			if k == nil || !k.IsInt() || k.Num().BitLen() != 1 {
				continue
			}
			at := c.Mul(c.Sub(c.Mul(c.numRat(k, true), u.h), p), c.numRat(k, true))
			if at.contains(u.h) {
				continue
			}
			dep := false
			for _, w := range open {
				dep = dep || at.contains(w.h)
			}
			if dep {
				continue
			}
			for _, hi := range []*Term{at, c.Add(at, c.Int(1))} {
				pc := c.Le(u.h, hi)
				if u.lo != nil {
					pc = c.And(pc, c.Le(zero, u.h))
				}
				if ev.entails(c.True, c.Le(u.v0, hi)) && ev.entails(pc, c.Le(u.next, hi)) {
					u.hi = hi
					break
				}
			}
			if u.hi != nil {
				break
			}
		}
	}
}

// exitSub is the substitution that turns values of iteration κ into those of
// iteration k; opaque values are written in terms of the iteration before.
func (ev *Ev) exitSub(us []*unknown, kappa, k *Term) map[int]*Term {
	c := ev.c
	sub := map[int]*Term{kappa.id: k}
	if !ev.relate {
		return sub
	}
	before := map[int]*Term{kappa.id: c.Sub(k, c.Int(1))}
	for _, u := range us {
		if u.hav == nil || u.kind != "opaque" || u.next == nil || !isNumeric(u.ty) {
			continue
		}
		x := c.Subst(u.hav, before)
		u.boundHav(ev, x)
		sub[u.hav.id] = c.Ite(c.EqNum(k, c.Int(0)), u.v0, c.Subst(u.next, before))
	}
	return sub
}

// form1 is the closed form one iteration later.
func (u *unknown) form1(c *TermCtx, kappa *Term) *Term {
	return c.Subst(u.form, map[int]*Term{kappa.id: c.Add(kappa, c.Int(1))})
}

func (ev *Ev) appendStep(next, form *Term) *Term {
	if next.op == "append" && len(next.args) == 2 && next.args[0] == form {
		return next.args[1]
	}
	if next.op == "ite" {
		// both sides append to the same list
		a, b := ev.appendStep(next.args[1], cof(form, next.args[0], true)), ev.appendStep(next.args[2], cof(form, next.args[0], false))
		if a != nil && b != nil {
			return ev.c.Ite(ev.c.atomB(next.args[0]), a, b)
		}
	}
	return nil
}

// filterStep: next = g ? append(form, e) : form.
func (ev *Ev) filterStep(next, form *Term) (*Term, *Term) {
	c := ev.c
	if next == form {
		return c.False, nil
	}
	if next.op == "append" && len(next.args) == 2 && next.args[0] == form {
		return c.True, next.args[1]
	}
	if next.op == "ite" {
		at := next.args[0]
		g1, e1 := ev.filterStep(next.args[1], cof(form, at, true))
		g2, e2 := ev.filterStep(next.args[2], cof(form, at, false))
		if g1 == nil || g2 == nil {
			return nil, nil
		}
		var e *Term
		switch {
		case e1 == nil:
			e = e2
		case e2 == nil:
			e = e1
		default:
			e = c.Ite(c.atomB(at), e1, e2)
		}
		return c.Ite(c.atomB(at), g1, g2), e
	}
	return nil, nil
}

// tailStep: next = g ? append(append(form, e), x) : append(form, e).
func (ev *Ev) tailStep(next, form *Term) (e, g, x *Term) {
	c := ev.c
	if next.op == "append" && len(next.args) == 2 {
		if next.args[0] == form {
			return next.args[1], c.False, nil
		}
	}
	if next.op == "append" && len(next.args) == 3 && next.args[0] == form {
		return next.args[1], c.True, next.args[2]
	}
	if next.op != "ite" {
		return nil, nil, nil
	}
	at := next.args[0]
	e1, g1, x1 := ev.tailStep(next.args[1], cof(form, at, true))
	e2, g2, x2 := ev.tailStep(next.args[2], cof(form, at, false))
	if e1 == nil || e2 == nil {
		return nil, nil, nil
	}
	switch {
	case x1 == nil:
		x = x2
	case x2 == nil:
		x = x1
	default:
		x = c.Ite(c.atomB(at), x1, x2)
	}
	return c.Ite(c.atomB(at), e1, e2), c.Ite(c.atomB(at), g1, g2), x
}

// latchStep: next = g ? v : form.
func (ev *Ev) latchStep(next, form *Term) (*Term, *Term) {
	c := ev.c
	if next == form {
		return c.False, nil
	}
	if next.op != "ite" {
		return c.True, next
	}
	at := next.args[0]
	g1, v1 := ev.latchStep(next.args[1], cof(form, at, true))
	g2, v2 := ev.latchStep(next.args[2], cof(form, at, false))
	var v *Term
	switch {
	case v1 == nil:
		v = v2
	case v2 == nil:
		v = v1
	default:
		v = c.Ite(c.atomB(at), v1, v2)
	}
	return c.Ite(c.atomB(at), g1, g2), v
}

func (ev *Ev) recur(u *unknown, h, kappa *Term, free func(*Term) bool, pcBack *Term) (form *Term, kind string, step, gate *Term) {
	c := ev.c
	next := u.next
	if next == h {
		return u.v0, "same", nil, nil
	}
	prev := func(t *Term) *Term {
		return c.Subst(t, map[int]*Term{kappa.id: c.Sub(kappa, c.Int(1))})
	}
	if isNumeric(u.ty) {
		d := c.Sub(next, h)
		if free(d) {
			if d.isConstNum() {
				return c.Add(u.v0, c.Mul(d, kappa)), "add", d, nil
			}
			return c.Add(u.v0, c.Sum(c.Bind(d, kappa), kappa)), "add", d, nil
		}
	}
	if free(next) {
		if next == u.v0 {
			return u.v0, "last", next, nil
		}
		was := prev(next)
		if c.Subst(was, map[int]*Term{kappa.id: c.Int(0)}) == u.v0 {
			return was, "last", next, nil
		}
		return c.Ite(c.EqNum(kappa, c.Int(0)), u.v0, was), "last", next, nil
	}
	if _, ok := u.ty.Underlying().(*types.Slice); ok {
		if e := ev.appendStep(next, h); e != nil && free(e) {
			return c.AppMap(u.v0, kappa, c.Bind(e, kappa)), "append", e, nil
		}
		if g, e := ev.filterStep(next, h); g != nil && e != nil && free(g) && free(e) {
			return c.AppFilter(u.v0, kappa, c.Bind(g, kappa), c.Bind(e, kappa)), "filter", e, g
		}
		// one more element in the last iteration
		if e, g, x := ev.tailStep(next, h); e != nil && g != c.False && free(e) && free(g) && free(x) {
			late := c.And(c.Lt(c.Int(0), kappa), prev(g))
			if !ev.feasible(c.And(pcBack, late)) {
				list := c.AppMap(u.v0, kappa, c.Bind(e, kappa))
				u.extra = x
				return c.Ite(late, ev.appendVals(list, prev(x)), list), "tail", e, g
			}
		}
	}
	if g, v := ev.latchStep(next, h); g != nil && v != nil && free(g) && free(v) && !v.contains(kappa) {
		ex, _ := c.First(c.Bind(g, kappa), kappa)
		return c.Ite(ex, v, u.v0), "latch", v, g
	}
	return nil, "", nil, nil
}

// exitIndex finds the iteration in which the loop is left: either the first
// one before the bound N in which a condition other than the bound holds
// (ex, K), or N.
func (ev *Ev) exitIndex(E, kappa *Term, where string) (ex, K, N, bound *Term) {
	c := ev.c
	for _, a := range ev.atomsOf(E) {
		n, stay := ev.boundOf(a, kappa)
		if n == nil {
			continue
		}
		b := c.atomB(a)
		if !stay {
			b = c.Not(b)
		}
		// b: the loop may go on; beyond the bound it always ends
		if c.And(E, c.Not(b)) != c.Not(b) {
			continue
		}
		P := c.Restrict(E, b)
		zero := c.Int(0)
		n = c.Ite(c.Lt(n, zero), zero, n)
		ex, K = c.First(c.Bind(P, kappa), n)
		return ex, K, n, b
	}
	if ex, K, N, b, ok := ev.exitSplit(E, kappa, 0); ok {
		return ex, K, N, b
	}
	ex, K = c.First(c.Bind(E, kappa), nil)
	return ex, K, nil, c.True
}

// exitSplit finds the exit index by cases on conditions that do not depend on
// the iteration.
func (ev *Ev) exitSplit(E, kappa *Term, depth int) (ex, K, N, bound *Term, ok bool) {
	c := ev.c
	if E == c.True {
		return c.True, c.Int(0), c.Int(1), c.True, true
	}
	if E == c.False || depth > 12 {
		return nil, nil, nil, nil, false
	}
	var cond *Term
	for _, a := range ev.atomsOf(E) {
		if n, stay := ev.boundOf(a, kappa); n != nil {
			b := c.atomB(a)
			if !stay {
				b = c.Not(b)
			}
			if c.And(E, c.Not(b)) == c.Not(b) {
				ex, K, N, bound = ev.exitIndex(E, kappa, "")
				return ex, K, N, bound, true
			}
			continue
		}
		if cond == nil && !a.contains(kappa) {
			cond = a
		}
	}
	if cond == nil {
		return nil, nil, nil, nil, false
	}
	g := c.atomB(cond)
	e1, k1, n1, b1, ok1 := ev.exitSplit(c.Restrict(E, g), kappa, depth+1)
	if !ok1 {
		return nil, nil, nil, nil, false
	}
	e2, k2, n2, b2, ok2 := ev.exitSplit(c.Restrict(E, c.Not(g)), kappa, depth+1)
	if !ok2 {
		return nil, nil, nil, nil, false
	}
	return c.Ite(g, e1, e2), c.Ite(g, k1, k2), c.Ite(g, n1, n2), c.Ite(g, b1, b2), true
}

// boundOf: atom a says κ < n (stay) or κ >= n (!stay).
func (ev *Ev) boundOf(a, kappa *Term) (*Term, bool) {
	c := ev.c
	if a.op == "eq0" { // κ == n used as an end test with unit steps
		p := a.args[0]
		k := coefOf(p, kappa)
		if k == nil || k.Sign() == 0 {
			return nil, false
		}
		rest := c.Sub(p, c.Mul(c.numRat(k, true), kappa))
		if rest.contains(kappa) {
			return nil, false
		}
		n := c.Mul(rest, c.numRat(new(big.Rat).Neg(new(big.Rat).Inv(k)), true))
		if !c.leavesNonNeg(n) {
			return nil, false
		}
		return nil, false
	}
	if a.op != "le0" && a.op != "lt0" {
		return nil, false
	}
	p := a.args[0]
	k := coefOf(p, kappa)
	if k == nil || k.Sign() == 0 {
		return nil, false
	}
	rest := c.Sub(p, c.Mul(c.numRat(k, true), kappa))
	if rest.contains(kappa) || !k.IsInt() || k.Num().BitLen() > 1 || !rest.isInt {
		return nil, false
	}
	if a.op != "le0" {
		return nil, false
	}
	if k.Sign() > 0 { // κ + rest <= 0  <=>  κ < 1 - rest
		return c.Sub(c.Int(1), rest), true
	}
	// -κ + rest <= 0  <=>  κ >= rest
	return rest, false
}

// coefOf is the coefficient of s in p if p is linear in s, else nil.
func coefOf(p, s *Term) *big.Rat {
	if p == s {
		return big.NewRat(1, 1)
	}
	if p.op != "poly" {
		return nil
	}
	var k *big.Rat
	for _, m := range p.monos {
		for _, f := range m.fs {
			if f == s {
				if len(m.fs) != 1 {
					return nil
				}
				k = m.c
			} else if f.contains(s) {
				return nil
			}
		}
	}
	return k
}

// atomsOf lists the atoms of a diagram in order.
func (ev *Ev) atomsOf(t *Term) []*Term {
	seen := map[int]bool{}
	at := map[int]*Term{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op != "ite" || seen[t.id] {
			return
		}
		seen[t.id] = true
		at[t.args[0].id] = t.args[0]
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(t)
	var out []*Term
	for _, a := range at {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// exitState is the state after leaving the loop in iteration k.
func (ev *Ev) exitState(entry, out *State, marks map[string]*loopMark, kappa, k *Term, sub map[int]*Term) *State {
	c := ev.c
	st := &State{pc: c.True, mem: make(map[*Term]*Term, len(out.mem)), logs: make(map[string][]*entry_, len(out.logs))}
	for key, v := range out.mem {
		st.mem[c.Subst(key, sub)] = c.Subst(v, sub)
		if key.contains(kappa) {
			nk := c.Subst(key, sub)
			if ev.keyTyp[nk] == nil {
				ev.keyTyp[nk] = ev.keyTyp[key]
			}
		}
	}
	for key, log := range out.logs {
		base := entry.logs[key]
		if len(log) == len(base) && (len(log) == 0 || log[len(log)-1] == base[len(base)-1]) {
			st.logs[key] = base
			continue
		}
		var nl []*entry_
		for i, e := range log {
			switch {
			case i < len(base) && e == base[i]:
				nl = append(nl, e)
			case e.mark != nil && e.mark.kappa == kappa:
				if z := k.isConstNum() && k.ratVal().Sign() == 0; !z {
					nl = append(nl, ev.quantify(e.mark.pats, kappa, k)...)
				}
			case e.mark != nil:
				nl = append(nl, e)
			default:
				nl = append(nl, ev.substEntry(e, sub))
			}
		}
		st.logs[key] = nl
	}
	return st
}

type entry_ = entry

func (ev *Ev) substEntry(e *entry, sub map[int]*Term) *entry {
	return e.mapped(func(t *Term) *Term { return ev.c.Subst(t, sub) })
}

func (e *entry) mapped(f func(*Term) *Term) *entry {
	n := *e
	n.holes = make([]*Term, len(e.holes))
	for i, h := range e.holes {
		n.holes[i] = f(h)
	}
	n.guard, n.val = f(e.guard), f(e.val)
	if e.addr != nil {
		n.addr = f(e.addr)
	}
	if e.dom != nil {
		n.dom = f(e.dom)
	}
	return &n
}

// AppFilter is s followed by lam(κ) for every κ<n with gate(κ).
func (c *TermCtx) AppFilter(s, n, gate, lam *Term) *Term {
	if n.isConstNum() && n.ratVal().Sign() == 0 {
		return s
	}
	if s.op == "ite" || n.op == "ite" {
		return c.App("appfilter:"+strconv.Itoa(gate.id)+":"+strconv.Itoa(lam.id), func(x []*Term) *Term { return c.AppFilter(x[0], x[1], gate, lam) }, s, n)
	}
	if gate.op == "lam" && !gate.args[1].contains(gate.args[0]) {
		return c.Ite(gate.args[1], c.AppMap(s, n, lam), s) // one test for all
	}
	return c.raw("appfilter", "", false, s, n, gate, lam)
}

// mapKey is the key visited in iteration k over m.
func (ev *Ev) mapKey(st *State, m, k *Term, ty types.Type) *Term {
	ev.keyTyped(m, ty)
	return ev.c.App("mapkey:"+ty.String()+ev.mapVer(st, m), func(x []*Term) *Term {
		return ev.c.MapKey(x[0], x[1], ev.keysOf(st, x[0]), ty)
	}, m, k)
}

func (ev *Ev) keyTyped(m *Term, ty types.Type) {
	if m.op == "ite" {
		ev.keyTyped(m.args[1], ty)
		ev.keyTyped(m.args[2], ty)
		return
	}
	ev.keyTypes[m.id] = ty
}

func (c *TermCtx) MapKey(m, k, keys *Term, ty types.Type) *Term {
	args := []*Term{m, k}
	if keys != nil {
		args = append(args, keys)
	}
	if k.op == "keyidx" && k.args[0] == m && len(k.args) == len(args) && (keys == nil || k.args[2] == keys) {
		return k.args[1]
	}
	t := c.raw("mapkey", "", ty != nil && isInteger(ty), args...)
	if t.typ == nil {
		t.typ = ty
	}
	return t
}
