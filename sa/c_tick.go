package main

import (
	"golang.org/x/tools/go/ssa"
)

// C07: elapsed time. Device.Next is evaluated for an arbitrary device.

func init() {
	register("C07", "value-flow analysis of the tick counter (gated SSA value numbering)", "Device.Next is evaluated for an arbitrary device: when the device is busy the only effect is one atomic increment of the missed-tick counter; otherwise the counter is emptied by one atomic exchange and its previous value plus the argument is the one value that reaches the duration, the reported tick, the battery and the movement; without routes nothing changes.", checkC07)
}

func checkC07(p *Prog, r *Report) {
	r.Rule("miss", 2, "a busy device remembers the tick by one atomic increment and changes nothing else")
	r.Rule("take", 2, "the remembered ticks are read and reset in one atomic step")
	r.Rule("same-interval", 4, "remembered ticks plus the argument is the interval used for duration, tick, battery and movement")
	r.Rule("keep", 1, "an advance that does nothing keeps the remembered ticks and everything else")
	dev := mustType(p, "", "Device")
	next := p.Method(dev, "Next")
	nav := mustType(p, "navigator", "Navigator")
	bat := mustType(p, "types", "Battery")
	if next == nil {
		panic(tooComplex{"no Device.Next"})
	}
	at := p.at(next)
	r.guard("take", at, func() {
		ev := session(p)
		c := ev.c
		args := ev.argSyms(next)
		d, tick := args[0], args[1]
		type at1 struct {
			op    string
			p, pc *Term
			arg   *Term
			where string
		}
		var ats []at1
		ev.onAtomic = func(fr *Frame, st *State, op string, q *Term, in ssa.Instruction) {
			var arg *Term
			if ci, ok := in.(ssa.CallInstruction); ok && len(ci.Common().Args) > 1 {
				arg = ev.val(fr, ci.Common().Args[1])
			}
			ats = append(ats, at1{op, q, ev.fullPC(st), arg, p.where(fr, in.Pos())})
		}
		var plain []string
		var recs []callRec
		bn, nl := p.Method(bat, "Next"), p.Method(nav, "NextLocation")
		var fr0 *Frame
		ev.onCall = func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
			fr0 = fr
			if ci.Fn != nil && (ci.Fn == bn || ci.Fn == nl) && ev.trial == 0 {
				recs = append(recs, callRec{ci.Fn, ci.Args, ev.fullPC(st), p.where(fr, ci.Instr.Pos())})
			}
			return nil, false
		}
		st, vals := ev.Call(next, args, nil, ev.NewState(), nil, "")
		r.use(ev)
		_ = fr0
		// the outcome of the attempt to get the device
		var pcs []*Term
		for _, a := range ats {
			pcs = append(pcs, a.pc)
		}
		try := findFresh(append(pcs, vals...), "try@")
		if try == nil {
			r.Ob("miss", false, at, "Next does not try to take the device lock")
			return
		}
		got := c.atomB(try)
		// busy: exactly one Add of 1 on one counter
		var ctr *Term
		busy := c.Not(got)
		n := 0
		for _, a := range ats {
			if ev.sat(c.And(a.pc, busy), 200) {
				n++
				ctr = a.p
				r.Ob("miss", a.op == "Add" && a.arg == c.Int(1) && ev.entails(busy, a.pc), a.where, "a busy device: atomic %s of %v", a.op, a.arg)
			}
		}
		if n != 1 || ctr == nil {
			r.Ob("miss", false, at, "a busy device performs %d atomic updates, expected one", n)
			return
		}
		if b := baseOf(ctr, func(t *Term) bool { return t == d }); b == nil {
			r.Ob("miss", false, at, "the counter does not belong to the device: %v", ctr)
		}
		chg := ev.diffs(st, c.And(st.pc, busy))
		var other []change
		for _, ch := range chg {
			if ch.addr != ctr {
				other = append(other, ch)
			}
		}
		r.Ob("miss", len(other) == 0, at, "a busy device changes only the counter: %s", showChanges(other))
		cty := ev.keyTyp[ctr]
		old := ev.def(ev.NewState(), ctr, cty)
		r.Ob("miss", ev.eqUnder(busy, ev.Load(st, ctr, cty), c.Add(old, c.Int(1)), cty), at, "missed ticks grow by one")

		// acting: with routes
		num := ev.observe(p.Method(dev, "NumRoutes"), ev.NewState(), d)[0]
		act := c.And(got, c.Lt(c.Int(0), num))
		idle := c.And(got, c.Not(c.Lt(c.Int(0), num)))
		var swaps []at1
		for _, a := range ats {
			if a.p != ctr || !ev.sat(c.And(a.pc, got), 400) {
				continue
			}
			r.Ob("take", a.op == "Swap" && a.arg == c.Int(0), a.where, "while advancing the counter is only exchanged with 0, found atomic %s", a.op)
			swaps = append(swaps, a)
		}
		// exactly one exchange on every acting path
		cover := c.False
		overlap := false
		for _, a := range swaps {
			if ev.sat(c.And(cover, a.pc), 400) {
				overlap = true
			}
			cover = c.Or(cover, a.pc)
		}
		r.Ob("take", ev.entails(act, cover) && !overlap, at, "every advance exchanges the counter exactly once")
		r.Ob("take", len(plain) == 0, at, "the counter is only accessed atomically %v", plain)
		want := c.Add(old, tick)
		pbf := oneField(dev, "*proto.Device")
		state := ev.Load(st, c.Fld(d, pbf), c2ptr(p, "proto", "Device"))
		gt := ev.Load(st, c.Fld(state, "Tick"), tFloat)
		r.Ob("same-interval", ev.eqUnder(act, gt, want, tFloat), at, "reported tick is remembered ticks plus argument, got %s", clip(c.Restrict(gt, act).String(), 300))
		state0 := ev.Load(ev.NewState(), c.Fld(d, pbf), c2ptr(p, "proto", "Device"))
		dur0 := ev.Load(ev.NewState(), c.Fld(state0, "Duration"), tFloat)
		dur := ev.Load(st, c.Fld(state, "Duration"), tFloat)
		moved := c.And(act, vals[0])
		r.Ob("same-interval", ev.eqUnder(moved, dur, c.Add(dur0, want), tFloat), at, "travelled duration grows by the interval, got %s", clip(c.Restrict(dur, moved).String(), 300))
		for _, l := range leafSet(c.Restrict(dur, act)) {
			r.Ob("same-interval", l == c.Int(0) || l == c.Add(dur0, want), at, "travelled duration is the old one plus the interval, or zero after the end: %s", clip(l.String(), 200))
		}
		for _, fn := range []*ssa.Function{bn, nl} {
			if fn == nil {
				r.Ob("same-interval", false, at, "Battery.Next or Navigator.NextLocation is gone")
				continue
			}
			cov := c.False
			for _, rc := range recs {
				if rc.fn != fn || rc.args[0] == nil {
					continue
				}
				r.Ob("same-interval", ev.eqUnder(c.And(rc.pc, act), rc.args[1], want, tFloat), rc.where, "%s gets the interval, got %s", shortFn(fn), clip(rc.args[1].String(), 200))
				if ev.sat(c.And(cov, rc.pc), 400) {
					r.Ob("same-interval", false, rc.where, "%s is applied twice in one advance", shortFn(fn))
				}
				cov = c.Or(cov, rc.pc)
			}
			r.Ob("same-interval", ev.entails(act, cov), at, "every advance applies %s once", shortFn(fn))
		}
		chg = ev.diffs(st, c.And(st.pc, idle))
		r.Ob("keep", len(chg) == 0, at, "an advance without routes changes nothing: %s", showChanges(chg))
	})
	// nobody else touches the counter
	r.guard("take", at, func() {
		cf := counterField(p, next)
		for _, f := range p.Funcs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || !isPtrType(fa.X.Type(), dev) || fieldName(fa) != cf {
						continue
					}
					for _, u := range *fa.Referrers() {
						call, isCall := u.(*ssa.Call)
						okUse := isCall && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Pkg != nil && call.Call.StaticCallee().Pkg.Pkg.Path() == "sync/atomic"
						r.Ob("take", okUse, p.Pos(in.Pos())+" "+shortFn(f), "the missed-tick counter is only used through sync/atomic")
					}
				}
			}
		}
	})
}
