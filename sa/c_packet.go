package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C04: every tick reports every attached device exactly once.

func init() {
	register("C04", "linear-relation analysis over ghost counters (gated SSA value numbering)", "The tick loop and the workers are evaluated for an arbitrary tick, device list, packet size and worker count. Ghost counters follow how many devices were advanced, stored in the packet and handed to workers and how many acknowledgements are outstanding; at every call, store, hand-over and acknowledgement the counters must agree with the receiver, the slot and the slice (linear relations between loop variables are inferred and verified by induction), and at the end of the tick all of them must equal the number of attached devices.", checkC04)
}

func checkC04(p *Prog, r *Report) {
	r.Rule("advance", 2, "the tick advances every attached device once, in order")
	r.Rule("store", 3, "the state of the next device goes into the next free slot of the packet")
	r.Rule("hand-over", 2, "slices handed to the workers are contiguous")
	r.Rule("complete", 4, "at the end of a tick every device was advanced, stored and handed over, and nothing is outstanding")
	r.Rule("acknowledged", 2, "the packet is not refilled or cleared before every slice was acknowledged")
	r.Rule("worker", 2, "a worker acknowledges every slice once, after encoding it")
	gen, dev := mustType(p, "", "Generator"), mustType(p, "", "Device")
	at := p.at(method(p, gen, "Run"))
	next := method(p, dev, "Next")
	r.guard("advance", at, func() {
		pi := newPipe(p, r)
		pi.mode = "open"
		ev, c := pi.ev, pi.ev.c
		ev.relate = true
		c.splitSums = true
		all := []string{"advanced", "stored", "sent", "round", "pending", "owed"}
		pi.zero = all
		pi.run()
		if pi.size == nil {
			panic(tooComplex{"no field holds the size of the packet"})
		}
		list := pi.packet(c.True)
		lf := oneField(gen, "[]*gpsgen.Device")
		lt := types.NewSlice(types.NewPointer(dev))
		get := func(st *State, n string) *Term { return ev.ghostGet(st, n) }
		set := func(st *State, n string, v *Term) { ev.Store(st, ev.ghost(n), v, tInt) }
		device := func(st *State, k *Term) *Term {
			return ev.Load(st, c.Idx(ev.Load(st, c.Fld(pi.g, lf), lt), k), lt.Elem())
		}
		// which channels the workers use
		work, acks := map[*Term]bool{}, map[*Term]bool{}
		var workers, others []spawn
		for _, sp := range pi.spawns {
			got := false
			var sends []*Term
			ev.onChan = func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term) {
				if dir == types.RecvOnly && workFields(ev, fr, in, ch) != nil {
					got = true
					work[ch] = true
				}
				if dir == types.SendOnly {
					sends = append(sends, ch)
				}
			}
			pi.enter(sp, pi.st)
			if got {
				for _, ch := range sends {
					acks[ch] = true
				}
				workers = append(workers, sp)
			} else {
				others = append(others, sp)
			}
		}
		ev.onChan = nil
		r.Ob("worker", len(workers) > 0 && len(acks) == 1 && len(work) == 1, at, "workers receive slices from one channel and acknowledge on another (%d workers, %d, %d)", len(workers), len(work), len(acks))

		// workers
		for _, sp := range workers {
			name := shortFn(sp.fn)
			ev.onChan = func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term) {
				if dir == types.RecvOnly && work[ch] {
					set(st, "owed", c.Ite(cond, c.Add(get(st, "owed"), c.Int(1)), get(st, "owed")))
				}
				if dir == types.SendOnly && acks[ch] {
					set(st, "owed", c.Ite(cond, c.Sub(get(st, "owed"), c.Int(1)), get(st, "owed")))
				}
			}
			ev.onProtoMarshal = func(fr *Frame, st *State, msg, out *Term, in ssa.Instruction) {
				r.Ob("worker", ev.eqUnder(ev.fullPC(st), get(st, "owed"), c.Int(1), tInt), p.where(fr, in.Pos()), "a slice is encoded before it is acknowledged: %s owed", clip(get(st, "owed").String(), 80))
			}
			ev.onLoop = func(fr *Frame, lp *loop, backs, outs []*edgeState, kappa *Term) {
				if len(ev.kappas) != 0 {
					return
				}
				for _, b := range backs {
					if ev.sat(b.st.pc, 400) {
						r.Ob("worker", ev.eqUnder(b.st.pc, get(b.st, "owed"), c.Int(0), tInt), p.at(fr.fn), "%s acknowledges every slice exactly once: %s owed", name, clip(get(b.st, "owed").String(), 80))
					}
				}
			}
			pi.enter(sp, pi.st)
		}
		ev.onProtoMarshal = nil

		// the tick loop
		ticks := 0
		pi.call = func(fr *Frame, st *State, ci *CallInfo) {
			if ci.Go || ci.Fn != next {
				return
			}
			if ev.trial == 0 {
				want := device(st, get(st, "advanced"))
				r.Ob("advance", ev.eqUnder(ev.fullPC(st), ci.Args[0], want, nil), p.where(fr, ci.Instr.Pos()), "the device advanced is the next one of the list: %s", clip(ci.Args[0].String(), 100))
			}
			ev.ghostAdd(st, "advanced", c.Int(1))
		}
		fold := func(st *State, when *Term) {
			set(st, "sent", c.Ite(when, c.Add(get(st, "sent"), get(st, "round")), get(st, "sent")))
			set(st, "round", c.Ite(when, c.Int(0), get(st, "round")))
		}
		ev.onChan = func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term) {
			switch {
			case dir == types.RecvOnly && v != nil && isTimeChan(ev, fr, in, ch):
				if ev.trial == 0 {
					ticks++
				}
				for _, z := range all {
					set(st, z, c.Int(0))
				}
			case dir == types.SendOnly && work[ch]:
				fs := workFields(ev, fr, in, ch)
				from, to := c.Field(v, fs[0]), c.Field(v, fs[1])
				fold(st, c.And(cond, c.EqNum(get(st, "pending"), c.Int(0))))
				if ev.trial == 0 {
					pc := c.And(ev.fullPC(st), cond)
					some := c.And(pc, c.Not(c.EqNum(from, to)))
					r.Ob("hand-over", ev.eqUnder(some, from, get(st, "round"), tInt), p.where(fr, in.Pos()), "the slice from %s to %s starts where the previous one ended: %s", clip(from.String(), 60), clip(to.String(), 60), clip(get(st, "round").String(), 100))
					r.Ob("hand-over", ev.entails(pc, c.Le(from, to)), p.where(fr, in.Pos()), "the slice from %s to %s does not run backwards", clip(from.String(), 60), clip(to.String(), 60))
				}
				set(st, "round", c.Ite(cond, to, get(st, "round")))
				set(st, "pending", c.Ite(cond, c.Add(get(st, "pending"), c.Int(1)), get(st, "pending")))
			case dir == types.RecvOnly && acks[ch]:
				set(st, "pending", c.Ite(cond, c.Sub(get(st, "pending"), c.Int(1)), get(st, "pending")))
			}
		}
		ev.onInstr = func(fr *Frame, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			addr := ev.val(fr, s.Addr)
			inPkt := false
			for _, l := range leafSet(addr) {
				inPkt = inPkt || l.op == "idx" && l.args[0] == list
			}
			if !inPkt {
				return
			}
			slot := c.App("slot", func(x []*Term) *Term {
				if x[0].op == "idx" && x[0].args[0] == list {
					return x[0].args[1]
				}
				return c.Int(-1)
			}, addr)
			v := ev.val(fr, s.Val)
			where := p.where(fr, in.Pos())
			pc := ev.fullPC(st)
			if ev.trial == 0 {
				r.Ob("acknowledged", ev.eqUnder(pc, get(st, "pending"), c.Int(0), tInt), where, "nothing is outstanding when the packet changes: %s", clip(get(st, "pending").String(), 80))
			}
			if v == c.Nil {
				if ev.trial == 0 {
					r.Ob("complete", ev.eqUnder(pc, c.Add(get(st, "sent"), get(st, "round")), get(st, "stored"), tInt), where, "the packet is cleared after everything in it was handed over")
				}
				return
			}
			fold(st, c.True)
			if ev.trial == 0 {
				n := get(st, "stored")
				want := ev.uapp("state", ev.p.Method(dev, "State").Signature.Results().At(0).Type(), device(st, n))
				r.Ob("store", ev.eqUnder(pc, v, want, nil), where, "what goes into the packet is the state of the next device: %s", clip(v.String(), 120))
				r.Ob("store", ev.eqUnder(pc, c.Add(slot, get(st, "sent")), n, tInt), where, "it goes into the next free slot %s, with %s already handed over and %s stored", clip(slot.String(), 80), clip(get(st, "sent").String(), 80), clip(n.String(), 80))
				r.Ob("store", ev.entails(pc, c.And(c.Le(c.Int(0), slot), c.Lt(slot, pi.size))), where, "the slot %s is inside the packet", clip(slot.String(), 80))
			}
			ev.ghostAdd(st, "stored", c.Int(1))
		}
		for _, sp := range others {
			before := ticks
			ev.onLoop = func(fr *Frame, lp *loop, backs, outs []*edgeState, kappa *Term) {
				if len(ev.kappas) != 0 || ticks == before {
					return
				}
				for _, b := range backs {
					pc := b.st.pc
					if !ev.sat(pc, 400) {
						continue
					}
					n := c.Len(ev.Load(b.st, c.Fld(pi.g, lf), lt))
					eq := func(what string, v, w *Term) {
						r.Ob("complete", ev.eqUnder(pc, v, w, tInt), p.at(fr.fn), "at the end of a tick %s is %s, expected %s", what, clip(c.Restrict(v, pc).String(), 300), clip(w.String(), 80))
					}
					eq("the number of devices advanced", get(b.st, "advanced"), n)
					eq("the number of states stored", get(b.st, "stored"), n)
					eq("the number of states handed over", c.Add(get(b.st, "sent"), get(b.st, "round")), n)
					eq("the number of slices outstanding", get(b.st, "pending"), c.Int(0))
				}
			}
			pi.enter(sp, pi.st)
		}
		r.use(ev)
		r.Ob("advance", ticks > 0, at, "a goroutine of the generator waits for the ticker")
	})
}

// chanElems is the element type of the channel ch used by instruction in.
func chanElems(ev *Ev, fr *Frame, in ssa.Instruction, ch *Term) []types.Type {
	var out []types.Type
	add := func(v ssa.Value) {
		if ev.val(fr, v) == ch {
			out = append(out, v.Type().Underlying().(*types.Chan).Elem())
		}
	}
	switch x := in.(type) {
	case *ssa.Select:
		for _, s := range x.States {
			add(s.Chan)
		}
	case *ssa.Send:
		add(x.Chan)
	case *ssa.UnOp:
		add(x.X)
	}
	return out
}

// workFields are the names of the two integer fields of the slices sent over the channel.
func workFields(ev *Ev, fr *Frame, in ssa.Instruction, ch *Term) []string {
	for _, t := range chanElems(ev, fr, in, ch) {
		u, ok := t.Underlying().(*types.Struct)
		if ok && u.NumFields() == 2 && isInteger(u.Field(0).Type()) && isInteger(u.Field(1).Type()) {
			return []string{u.Field(0).Name(), u.Field(1).Name()}
		}
	}
	return nil
}

func isTimeChan(ev *Ev, fr *Frame, in ssa.Instruction, ch *Term) bool {
	for _, t := range chanElems(ev, fr, in, ch) {
		if t.String() == "time.Time" {
			return true
		}
	}
	return false
}
