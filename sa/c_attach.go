package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C06: membership in the generator and running status.

func init() {
	register("C06", "typestate and value-flow analysis (gated SSA value numbering)", "Attach and Detach are evaluated for an arbitrary generator and device and their effect on list and status compared with the specification, element by element; every other public operation is evaluated and its effect on the status and on the list shown to be none; constructors and decoders return devices that are not running.", checkC06)
}

func checkC06(p *Prog, r *Report) {
	r.Rule("attach", 5, "attaching adds a stopped device once and marks it running; a running one is refused without effect")
	r.Rule("detach", 5, "detaching removes exactly the first device with the identifier, keeps the order of the others and marks it stopped")
	r.Rule("status-stable", 60, "no other operation changes whether a device is running")
	r.Rule("list-stable", 8, "no other operation changes the generator's device list")
	r.Rule("born-stopped", 4, "constructors and decoders return devices that are not running")
	dev := mustType(p, "", "Device")
	gen := mustType(p, "", "Generator")
	status := p.Method(dev, "Status")
	attach, detach := p.Method(gen, "Attach"), p.Method(gen, "Detach")
	id := p.Method(dev, "ID")
	if status == nil || attach == nil || detach == nil || id == nil {
		panic(tooComplex{"Attach, Detach, Status or ID is gone"})
	}
	lf := oneField(gen, "[]*gpsgen.Device")
	lt := types.NewSlice(types.NewPointer(dev))

	r.guard("attach", p.at(attach), func() {
		ev := session(p)
		c := ev.c
		running := ev.pkgConst("", "Running")
		g := ev.ptrSym("g", gen)
		d := ev.ptrSym("d", dev)
		st0 := ev.NewState()
		s0 := ev.observe(status, st0, d)[0]
		l0 := ev.Load(st0, c.Fld(g, lf), lt)
		st, res := ev.invoke(attach, ev.NewState(), g, d)
		run := c.EqNum(s0, running)
		at := p.at(attach)
		failed := c.Not(c.Eq(res[0], c.Nil))
		r.Ob("attach", ev.entails(run, failed) && ev.entails(c.Not(run), c.Not(failed)), at, "attaching fails exactly when the device is already running")
		chg := ev.diffs(st, c.And(st.pc, run))
		r.Ob("attach", len(chg) == 0, at, "a refused attach changes nothing: %s", showChanges(chg))
		ok := c.And(st.pc, c.Not(run))
		s1 := ev.observe(status, st, d)[0]
		r.Ob("attach", ev.eqUnder(ok, s1, running, tInt), at, "an attached device is running")
		l1 := ev.Load(st, c.Fld(g, lf), lt)
		r.Ob("attach", ev.eqUnder(ok, c.Len(l1), c.Add(c.Len(l0), c.Int(1)), tInt), at, "the list grows by one")
		r.Ob("attach", ev.eqUnder(ok, ev.Load(st, c.Idx(l1, c.Len(l0)), lt.Elem()), d, lt.Elem()), at, "the device is added at the end")
		j := ev.bound("j", c.Int(0), c.Len(l0))
		r.Ob("attach", ev.eqUnder(c.And(ok, j.in), ev.Load(st, c.Idx(l1, j.t), lt.Elem()), ev.Load(st0, c.Idx(l0, j.t), lt.Elem()), lt.Elem()), at, "the devices already in the list stay in place")
		sf := oneField(dev, "gpsgen.Status")
		chg = ev.diffs(st, ok)
		for _, ch := range chg {
			r.Ob("attach", ch.addr == c.Fld(d, sf) || ch.addr == c.Fld(g, lf), at, "attaching changes only status and list: %s", ch)
		}
		r.use(ev)
	})
	r.guard("detach", p.at(detach), func() {
		ev := session(p)
		c := ev.c
		running := ev.pkgConst("", "Running")
		at := p.at(detach)
		g := ev.ptrSym("g", gen)
		q := ev.sym("id", tStr)
		st0 := ev.NewState()
		l0 := ev.Load(st0, c.Fld(g, lf), lt)
		n := c.Len(l0)
		st, _ := ev.invoke(detach, ev.NewState(), g, q)
		// the first device with that identifier
		k := c.leaf("kappa", "spec")
		k = c.intern(&Term{op: "kappa", aux: "spec", isInt: true})
		idk := ev.observe(id, st0, ev.Load(st0, c.Idx(l0, k), lt.Elem()))[0]
		ex, first := c.First(c.Bind(c.EqAny(idk, q), k), n)
		ex = c.And(ex, c.Lt(c.Int(0), c.Len(q)))
		l1 := ev.Load(st, c.Fld(g, lf), lt)
		chg := ev.diffs(st, c.And(st.pc, c.Not(ex)))
		r.Ob("detach", len(chg) == 0, at, "detaching an unknown identifier changes nothing: %s", showChanges(chg))
		ok := c.And(st.pc, ex)
		r.Ob("detach", ev.eqUnder(ok, c.Len(l1), c.Sub(n, c.Int(1)), tInt), at, "the list shrinks by one: %s", clip(c.Restrict(c.Len(l1), ok).String(), 200))
		j := ev.bound("j", c.Int(0), c.Sub(n, c.Int(1)))
		e1 := ev.Load(st, c.Idx(l1, j.t), lt.Elem())
		e0 := c.Ite(c.Lt(j.t, first), ev.Load(st0, c.Idx(l0, j.t), lt.Elem()), ev.Load(st0, c.Idx(l0, c.Add(j.t, c.Int(1))), lt.Elem()))
		r.Ob("detach", ev.eqUnder(c.And(ok, j.in), e1, e0, lt.Elem()), at, "the others keep their order: %s", clip(c.Restrict(e1, c.And(ok, j.in)).String(), 300))
		x := ev.Load(st0, c.Idx(l0, first), lt.Elem())
		ev.c.nonNil[x.id] = true
		s1 := ev.observe(status, st, x)[0]
		was := ev.observe(status, st0, x)[0]
		r.Ob("detach", !ev.sat(c.And(c.And(ok, c.EqNum(was, running)), c.EqNum(s1, running)), 400), at, "a detached device is no longer running: %s", clip(s1.String(), 200))
		// no other device's status
		y := ev.ptrSym("other", dev)
		so := ev.Load(st, c.Fld(y, oneField(dev, "gpsgen.Status")), types.Typ[types.Uint8])
		sy := ev.Load(st0, c.Fld(y, oneField(dev, "gpsgen.Status")), types.Typ[types.Uint8])
		r.Ob("detach", ev.eqUnder(c.And(ok, c.Not(c.EqAny(y, x))), so, sy, tInt), at, "no other device changes its status")
		r.use(ev)
	})
	sf := oneField(dev, "gpsgen.Status")
	// every other operation
	sum := map[*ssa.Function]bool{}
	for _, f := range exportedOf(p, "") {
		if recvOf(f) == dev {
			sum[f] = true
		}
	}
	for _, f := range append(exportedOf(p, ""), goEntries(p)...) {
		f := f
		if f == attach || f == detach {
			continue
		}
		own := recvOf(f) == dev
		ig := recvOf(f) == gen || takes(f, gen) && f.Object() == nil
		if own || takes(f, dev) || ig {
			r.guard("status-stable", p.at(f), func() {
				ev := session(p)
				c := ev.c
				running := ev.pkgConst("", "Running")
				if !own {
					ev.onCall = sumCalls(ev, sum)
				}
				args := ev.argSyms(f)
				st, _ := ev.Call(f, args, nil, ev.NewState(), nil, "")
				r.use(ev)
				if st == nil {
					return
				}
				if own {
					s0 := ev.observe(status, ev.NewState(), args[0])[0]
					s1 := ev.observe(status, st, args[0])[0]
					a, b := c.EqNum(s0, running), c.EqNum(s1, running)
					r.Ob("status-stable", ev.eqUnder(st.pc, a, b, tBool), p.at(f), "%s keeps the device running or stopped: %s", shortFn(f), clip(c.Restrict(s1, st.pc).String(), 200))
					return
				}
				bad := ""
				for _, ch := range ev.diffs(st, st.pc) {
					if ch.addr.op == "fld" && ch.addr.aux == sf && isPtrTo(ch.addr.args[0], dev) {
						bad = ch.String()
					}
				}
				r.Ob("status-stable", bad == "", p.at(f), "%s does not change a device's status %s", shortFn(f), bad)
				if ig {
					var chg []change
					for _, ch := range ev.diffs(st, st.pc) {
						if b := baseOf(ch.addr, func(t *Term) bool {
							return t == ev.c.Fld(args[0], lf) || t.op == "ini" && t.args[0] == ev.c.Fld(args[0], lf)
						}); b != nil {
							chg = append(chg, ch)
						}
					}
					r.Ob("list-stable", len(chg) == 0, p.at(f), "%s keeps the device list: %s", shortFn(f), showChanges(chg))
				}
			})
			continue
		}
		res := f.Signature.Results()
		if res.Len() > 0 && isPtrType(res.At(0).Type(), dev) {
			r.guard("born-stopped", p.at(f), func() {
				ev := session(p)
				c := ev.c
				running := ev.pkgConst("", "Running")
				args := ev.argSyms(f)
				st, vals := ev.Call(f, args, nil, ev.NewState(), nil, "")
				r.use(ev)
				if st == nil {
					return
				}
				for _, l := range leafSet(vals[0]) {
					if l == c.Nil {
						continue
					}
					s := ev.Load(st, c.Fld(l, sf), types.Typ[types.Uint8])
					pc := c.And(st.pc, ev.isLeaf(vals[0], l))
					r.Ob("born-stopped", !ev.sat(c.And(pc, c.EqNum(s, running)), 400), p.at(f), "the device %s returns is not running", shortFn(f))
				}
			})
		}
	}
}

// sumCalls replaces calls of fns by unknown results without effects.
func sumCalls(ev *Ev, fns map[*ssa.Function]bool) func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
	return func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
		if ci.Fn == nil || !fns[ci.Fn] {
			return nil, false
		}
		var res []*Term
		for i, t := range resultTypes(ci.Com) {
			res = append(res, ev.fresh(ci.Name+"#"+string(rune('0'+i))+"@"+ev.site(fr, ci.Instr), t))
		}
		return res, true
	}
}
