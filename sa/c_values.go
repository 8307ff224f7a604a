package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// V01: accepted configuration is in range. V02: charge and progress.

func init() {
	register("V01", "interval and ordering analysis (gated SSA value numbering with linear arithmetic)", "Every constructor and setter is evaluated for arbitrary arguments; whenever it succeeds, the values its accessors yield on the constructed object must be entailed to lie in the documented, ordered range, and the amplitude it accepted in 4..512; random durations are entailed to stay in their range for every outcome of the random source.", checkV01)
}

// ghost counters are locations outside the program's memory.
func (ev *Ev) ghost(name string) *Term {
	return ev.c.raw("ghost", name, false)
}

func (ev *Ev) ghostGet(st *State, name string) *Term {
	g := ev.ghost(name)
	return ev.Load(st, g, tInt)
}

func (ev *Ev) ghostAdd(st *State, name string, n *Term) {
	g := ev.ghost(name)
	ev.Store(st, g, ev.c.Add(ev.Load(st, g, tInt), n), tInt)
}

type rng struct {
	name string
	v    *Term
	lo   *Term
	hi   *Term
}

// inRange obliges lo <= v <= hi whenever pc holds.
func inRange(r *Report, ev *Ev, rule, at string, pc *Term, x rng) {
	c := ev.c
	ok := true
	if x.lo != nil {
		ok = ev.entails(pc, c.Le(x.lo, x.v))
	}
	if ok && x.hi != nil {
		ok = ev.entails(pc, c.Le(x.v, x.hi))
	}
	show := func(t *Term) string {
		if t == nil {
			return "-"
		}
		return clip(c.Restrict(t, pc).String(), 80)
	}
	r.Ob(rule, ok, at, "%s is %s, documented range %s..%s", x.name, clip(c.Restrict(x.v, pc).String(), 200), show(x.lo), show(x.hi))
}

func num(ev *Ev, n int64) *Term { return ev.c.Int(n) }

func checkV01(p *Prog, r *Report) {
	r.Rule("speed", 4, "speed satisfies 0 <= min <= max <= 1000")
	r.Rule("battery", 6, "battery satisfies 0 <= min <= max <= 100 with a non-negative charge time")
	r.Rule("offline", 6, "offline duration satisfies 0 <= min <= max <= 3600")
	r.Rule("elevation", 4, "elevation satisfies 0 <= min <= max <= 50000")
	r.Rule("amplitude", 8, "accepted amplitudes lie in 4..512 and determine the number of control points")
	r.Rule("text", 5, "models have 3..64 and names 3..256 bytes")
	r.Rule("generator", 4, "packet size >= 1024, workers >= 1, positive interval")
	r.Rule("random", 3, "random durations stay in their range")
	spd, bat := mustType(p, "types", "Speed"), mustType(p, "types", "Battery")
	sen, rnd := mustType(p, "types", "Sensor"), mustType(p, "types", "Random")
	nav, dev := mustType(p, "navigator", "Navigator"), mustType(p, "", "Device")
	cur := mustType(p, "curve", "Curve")
	obs := func(ev *Ev, st *State, n *types.Named, m string, x *Term) *Term {
		return ev.observe(method(p, n, m), st, x)[0]
	}
	speedOK := func(ev *Ev, st *State, pc, x *Term, at string) {
		lo, hi := obs(ev, st, spd, "Min", x), obs(ev, st, spd, "Max", x)
		inRange(r, ev, "speed", at, pc, rng{"minimum speed", lo, num(ev, 0), hi})
		inRange(r, ev, "speed", at, pc, rng{"maximum speed", hi, lo, num(ev, 1000)})
	}
	batOK := func(ev *Ev, st *State, pc, x *Term, at string) {
		lo, hi := obs(ev, st, bat, "Min", x), obs(ev, st, bat, "Max", x)
		inRange(r, ev, "battery", at, pc, rng{"minimum charge", lo, num(ev, 0), hi})
		inRange(r, ev, "battery", at, pc, rng{"maximum charge", hi, lo, num(ev, 100)})
		inRange(r, ev, "battery", at, pc, rng{"charge time", obs(ev, st, bat, "ChargeTime", x), num(ev, 0), nil})
	}
	rndOK := func(ev *Ev, st *State, pc, x *Term, at string, max *Term) {
		lo, hi := obs(ev, st, rnd, "Min", x), obs(ev, st, rnd, "Max", x)
		inRange(r, ev, "offline", at, pc, rng{"minimum duration", lo, num(ev, 0), hi})
		inRange(r, ev, "offline", at, pc, rng{"maximum duration", hi, lo, max})
	}
	points := func(ev *Ev, st *State, pc, x *Term, n *types.Named, amp *Term, at string) {
		inRange(r, ev, "amplitude", at, pc, rng{"accepted amplitude", amp, num(ev, 4), num(ev, 512)})
		f := oneField(n, "*curve.Curve")
		g := ev.Load(st, ev.c.Fld(x, f), types.NewPointer(cur))
		k := obs(ev, st, cur, "NumControlPoints", ev.c.Restrict(g, pc))
		r.Ob("amplitude", ev.eqUnder(pc, k, amp, tInt), at, "the curve has %s control points for amplitude %s", clip(ev.c.Restrict(k, pc).String(), 100), amp)
	}
	navOK := func(ev *Ev, st *State, pc, x *Term, at string) {
		e := ev.Load(st, ev.c.Fld(x, oneField(nav, "*types.Sensor")), types.NewPointer(sen))
		e = ev.c.Restrict(e, pc)
		g := ev.Load(st, ev.c.Fld(e, oneField(sen, "*curve.Curve")), types.NewPointer(cur))
		k := obs(ev, st, cur, "NumControlPoints", ev.c.Restrict(g, pc))
		inRange(r, ev, "amplitude", at, pc, rng{"accepted elevation amplitude", k, num(ev, 4), num(ev, 512)})
		lo, hi := obs(ev, st, sen, "Min", e), obs(ev, st, sen, "Max", e)
		inRange(r, ev, "elevation", at, pc, rng{"minimum elevation", lo, num(ev, 0), hi})
		inRange(r, ev, "elevation", at, pc, rng{"maximum elevation", hi, lo, num(ev, 50000)})
		o := ev.Load(st, ev.c.Fld(x, oneField(nav, "*types.Random")), types.NewPointer(rnd))
		some := ev.c.And(pc, ev.c.Not(ev.c.Eq(o, ev.c.Nil)))
		rndOK(ev, st, some, ev.c.Restrict(o, some), at, num(ev, 3600))
	}
	// ok evaluates f and hands over the success condition and first result
	ok := func(rule string, f *ssa.Function, body func(ev *Ev, st *State, pc *Term, args, vals []*Term, at string)) {
		at := p.at(f)
		r.guard(rule, at, func() {
			ev := session(p)
			args := ev.argSyms(f)
			st, vals := ev.Call(f, args, nil, ev.NewState(), nil, "")
			r.use(ev)
			pc := st.pc
			if n := len(vals); n > 0 && types.Identical(f.Signature.Results().At(n-1).Type(), tError) {
				pc = ev.c.And(pc, ev.c.Eq(vals[n-1], ev.c.Nil))
			}
			for i := range vals {
				vals[i] = ev.c.Restrict(vals[i], pc)
			}
			body(ev, st, pc, args, vals, at)
		})
	}
	ok("speed", mustFunc(p, "types", "NewSpeed"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		speedOK(ev, st, pc, v[0], at)
		points(ev, st, pc, v[0], spd, a[2], at)
	})
	ok("battery", mustFunc(p, "types", "NewBattery"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) { batOK(ev, st, pc, v[0], at) })
	for _, n := range []string{"NewSensor", "RestoreSensor"} {
		ok("amplitude", mustFunc(p, "types", n), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
			points(ev, st, pc, v[0], sen, a[len(a)-2], at)
		})
	}
	ok("offline", mustFunc(p, "types", "NewRandom"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		rndOK(ev, st, pc, v[0], at, nil)
		// a range that is already proper is kept
		c := ev.c
		good := c.And(c.Le(num(ev, 0), a[0]), c.Lt(a[0], a[1]))
		lo, hi := obs(ev, st, rnd, "Min", v[0]), obs(ev, st, rnd, "Max", v[0])
		r.Ob("random", ev.eqUnder(good, lo, a[0], tInt) && ev.eqUnder(good, hi, a[1], tInt), at, "a proper range is kept")
		d := ev.observe(method(p, rnd, "Value"), st, v[0])[0]
		inRange(r, ev, "random", at, pc, rng{"drawn duration", d, lo, hi})
	})
	ok("random", method(p, rnd, "Value"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		c := ev.c
		st0 := ev.NewState()
		lo, hi := obs(ev, st0, rnd, "Min", a[0]), obs(ev, st0, rnd, "Max", a[0])
		pc = c.And(pc, c.And(c.Le(num(ev, 0), lo), c.Le(lo, hi)))
		inRange(r, ev, "random", at, pc, rng{"drawn duration", v[0], lo, hi})
	})
	ok("text", mustFunc(p, "types", "NewModel"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		s := obs(ev, st, mustType(p, "types", "Model"), "String", v[0])
		inRange(r, ev, "text", at, pc, rng{"length of an accepted model", ev.c.Len(s), num(ev, 3), num(ev, 64)})
	})
	ok("text", method(p, dev, "SetModel"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		s := obs(ev, st, dev, "Model", a[0])
		inRange(r, ev, "text", at, pc, rng{"length of the device model", ev.c.Len(s), num(ev, 3), num(ev, 64)})
		r.Ob("text", ev.eqUnder(pc, s, a[1], tStr), at, "the accepted model is set")
	})
	name := mustType(p, "navigator", "Name")
	ok("text", mustFunc(p, "navigator", "ParseName"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		inRange(r, ev, "text", at, pc, rng{"length of an accepted name", ev.c.Len(obs(ev, st, name, "String", v[0])), num(ev, 3), num(ev, 256)})
	})
	for _, n := range []string{"Route", "Track"} {
		t := mustType(p, "navigator", n)
		ok("text", method(p, t, "ChangeName"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
			s := obs(ev, st, name, "String", obs(ev, st, t, "Name", a[0]))
			inRange(r, ev, "text", at, pc, rng{"length of the accepted name", ev.c.Len(s), num(ev, 3), num(ev, 256)})
			r.Ob("text", ev.eqUnder(pc, s, a[1], tStr), at, "the accepted name is set")
		})
	}
	// navigator with arbitrary options, in either order, with and without skip
	nn := mustFunc(p, "navigator", "New")
	for _, opts := range [][]string{{}, {"WithElevation", "WithOffline"}, {"WithOffline", "SkipOfflineMode", "WithElevation"}} {
		at := p.at(nn)
		r.guard("offline", at, func() {
			ev := session(p)
			st := ev.NewState()
			ot := nn.Signature.Params().At(0).Type().(*types.Slice)
			arr := ev.sym("opts", ot)
			for i, o := range opts {
				f := mustFunc(p, "navigator", o)
				as := ev.argSyms(f)
				s2, v := ev.Call(f, as, nil, st, nil, "")
				st = s2
				ev.Store(st, ev.c.Idx(arr, num(ev, int64(i))), v[0], ot.Elem())
			}
			sl := ev.c.SubSlice(arr, num(ev, 0), num(ev, int64(len(opts))))
			st, vals := ev.Call(nn, []*Term{sl}, nil, st, nil, "")
			r.use(ev)
			pc := ev.c.And(st.pc, ev.c.Eq(vals[1], ev.c.Nil))
			if !ev.sat(pc, 600) {
				r.Ob("offline", false, at, "no configuration is accepted with options %v", opts)
				return
			}
			x := ev.c.Restrict(vals[0], pc)
			navOK(ev, st, pc, x, at)
		})
	}
	ok("speed", mustFunc(p, "", "NewDevice"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		d := v[0]
		part := func(ts string) *Term { return ev.c.Restrict(ev.devPart(st, d, dev, ts), pc) }
		speedOK(ev, st, pc, part("*types.Speed"), at)
		batOK(ev, st, pc, part("*types.Battery"), at)
		navOK(ev, st, pc, part("*navigator.Navigator"), at)
		s := obs(ev, st, dev, "Model", d)
		inRange(r, ev, "text", at, pc, rng{"length of the device model", ev.c.Len(s), num(ev, 3), num(ev, 64)})
	})
	r.Rule("preset", 6, "the ready-made trackers are always created")
	for _, n := range []string{"NewTracker", "NewKidsTracker", "NewAnimalTracker", "NewBicycleTracker", "NewDroneTracker"} {
		ok("preset", mustFunc(p, "", n), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
			r.Ob("preset", ev.entails(pc, ev.c.Not(ev.c.Eq(v[0], ev.c.Nil))), at, "the tracker is %s", clip(v[0].String(), 100))
		})
	}
	ok("preset", mustFunc(p, "", "NewDevice"), func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		none := ev.c.Eq(a[0], ev.c.Nil)
		r.Ob("preset", ev.entails(none, pc) && ev.entails(none, ev.c.Not(ev.c.Eq(v[0], ev.c.Nil))), at, "default options are accepted: %s", clip(ev.c.Not(ev.simp(pc, none)).String(), 600))
	})
	// generator
	gen := mustType(p, "", "Generator")
	ng, run := mustFunc(p, "", "New"), method(p, gen, "Run")
	r.guard("generator", p.at(ng), func() {
		ev := session(p)
		c := ev.c
		args := ev.argSyms(ng)
		ticks := 0
		ev.onExt = func(fr *Frame, st *State, ci *CallInfo) {
			if ci.Name == "time.NewTicker" {
				ticks++
				r.Ob("generator", ev.entails(ev.fullPC(st), c.Lt(num(ev, 0), ci.Args[0])), p.where(fr, ci.Instr.Pos()), "the tick interval is positive: %s", clip(ci.Args[0].String(), 100))
			}
		}
		st, vals := ev.Call(ng, args, nil, ev.NewState(), nil, "")
		r.Ob("generator", ticks > 0, p.at(ng), "the generator has a ticker")
		ev.onExt = nil
		pkt := mustType(p, "proto", "Packet")
		pf := oneField(gen, "*proto.Packet")
		pp := ev.Load(st, c.Fld(vals[0], pf), types.NewPointer(pkt))
		list, _ := ev.ptField(st, pp, pkt, "Devices")
		inRange(r, ev, "generator", p.at(ng), st.pc, rng{"packet size", c.Len(list), num(ev, 1024), nil})
		// goroutines started by Run that receive from the slice channel
		workers := map[*ssa.Function]bool{}
		for _, f := range goEntries(p) {
			if reachesMarshal(p, f) {
				workers[f] = true
			}
		}
		ev.onInstr = func(fr *Frame, st *State, in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				if f := goTarget(g); f != nil && workers[f] {
					ev.ghostAdd(st, "workers", num(ev, 1))
				}
			}
		}
		st, _ = ev.Call(run, []*Term{vals[0]}, nil, st, nil, "")
		r.use(ev)
		n := c.Sub(ev.ghostGet(st, "workers"), ev.ghostGet(ev.NewState(), "workers"))
		inRange(r, ev, "generator", p.at(run), st.pc, rng{"number of workers", n, num(ev, 1), nil})
	})
}

func goTarget(g *ssa.Go) *ssa.Function {
	if f := g.Call.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

// reachesMarshal: the function, or one it calls statically, encodes messages.
func reachesMarshal(p *Prog, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					if mc, ok := in.(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
						return true
					}
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if n := g.Name(); (n == "Marshal" || n == "MarshalAppend") && g.Pkg != nil && g.Pkg.Pkg.Path() == "google.golang.org/protobuf/proto" {
					return true
				}
				if p.inRepo(pkgPathOf(g)) && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(f)
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

func init() {
	register("V02", "interval and zero-guard analysis (gated SSA value numbering with linear arithmetic)", "Battery operations are evaluated for an arbitrary battery in its documented range: the charge is entailed to lie in the range, full at first and after a reset, not to rise on any advance, and low exactly at the minimum; every progress value that reaches a curve from Device.Next is entailed to lie in 0..1; every divisor in a reported number is entailed to be non-zero.", checkV02)
}

func checkV02(p *Prog, r *Report) {
	r.Rule("charge", 6, "the charge lies between minimum and maximum, starts full, never rises on an advance and is full after a reset")
	r.Rule("low", 1, "the battery is low exactly at its minimum")
	r.Rule("progress", 3, "every progress value given to a curve lies in 0..1")
	r.Rule("finite", 20, "no reported number divides by a quantity that can be zero")
	bat, cur := mustType(p, "types", "Battery"), mustType(p, "curve", "Curve")
	dev, pbd := mustType(p, "", "Device"), mustType(p, "proto", "Device")
	val := method(p, bat, "Value")
	at := p.at(val)
	get := func(ev *Ev, st *State, m string, b *Term) *Term { return ev.observe(method(p, bat, m), st, b)[0] }
	// legal: the range V01 establishes
	legal := func(ev *Ev, b *Term) *Term {
		c := ev.c
		st := ev.NewState()
		lo, hi, ct := get(ev, st, "Min", b), get(ev, st, "Max", b), get(ev, st, "ChargeTime", b)
		for _, t := range []*Term{lo, hi, ct} {
			if t.op == "ini" {
				c.nonNeg[t.id] = true
			}
		}
		pc := c.And(c.Le(num(ev, 0), lo), c.And(c.Le(lo, hi), c.And(c.Le(hi, num(ev, 100)), c.Le(num(ev, 0), ct))))
		return pc
	}
	r.guard("charge", at, func() {
		ev := session(p)
		c := ev.c
		b := ev.argSyms(val)[0]
		pre := legal(ev, b)
		open := openDivs(ev, pre)
		st, v := ev.Call(val, []*Term{b}, nil, ev.NewState(), nil, "")
		r.use(ev)
		inRange(r, ev, "charge", at, c.And(pre, st.pc), rng{"charge", v[0], get(ev, st, "Min", b), get(ev, st, "Max", b)})
		noDiv(r, ev, "finite", at, open, "charge", v[0])
		low := ev.observe(method(p, bat, "IsLow"), ev.NewState(), b)[0]
		same := c.EqNum(v[0], get(ev, st, "Min", b))
		r.Ob("low", ev.entails(c.And(pre, low), same) && ev.entails(c.And(pre, same), low), at, "low is %s", clip(low.String(), 200))
	})
	r.guard("charge", at, func() {
		f := mustFunc(p, "types", "NewBattery")
		ev := session(p)
		c := ev.c
		st, v := ev.Call(f, ev.argSyms(f), nil, ev.NewState(), nil, "")
		r.use(ev)
		pc := c.And(st.pc, c.Eq(v[1], c.Nil))
		b := c.Restrict(v[0], pc)
		r.Ob("charge", ev.eqUnder(pc, get(ev, st, "Value", b), get(ev, st, "Max", b), tFloat), p.at(f), "a new battery is full: %s", clip(c.Restrict(get(ev, st, "Value", b), pc).String(), 200))
	})
	for _, op := range []string{"Next", "Reset"} {
		f := method(p, bat, op)
		r.guard("charge", p.at(f), func() {
			ev := session(p)
			c := ev.c
			args := ev.argSyms(f)
			b := args[0]
			pre := legal(ev, b)
			for _, a := range args[1:] {
				c.nonNeg[a.id] = true
			}
			st, _ := ev.Call(f, args, nil, ev.NewState(), nil, "")
			r.use(ev)
			v0, v1 := get(ev, ev.NewState(), "Value", b), get(ev, st, "Value", b)
			for _, m := range []string{"Min", "Max", "ChargeTime"} {
				r.Ob("charge", ev.eqUnder(pre, get(ev, ev.NewState(), m, b), get(ev, st, m, b), tFloat), p.at(f), "%s leaves %s alone", op, m)
			}
			if op == "Next" {
				r.Ob("charge", ev.entails(pre, c.Le(v1, v0)), p.at(f), "charge after an advance is %s, before %s", clip(v1.String(), 150), clip(v0.String(), 150))
			} else {
				r.Ob("charge", ev.eqUnder(pre, v1, get(ev, st, "Max", b), tFloat), p.at(f), "charge after a reset is %s", clip(v1.String(), 150))
			}
		})
	}
	pt := method(p, cur, "Point")
	for _, op := range []string{"Next", "Update", "FromSnapshot"} {
		f := method(p, dev, op)
		r.guard("finite", p.at(f), func() {
			ev := session(p)
			args := ev.argSyms(f)
			if op == "FromSnapshot" {
				args[1] = ev.ptrSym("snap", mustType(p, "proto", "Snapshot"))
			}
			pre := legal(ev, ev.devPart(ev.NewState(), args[0], dev, "*types.Battery"))
			ev.onCall = func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
				if ci.Fn == pt && ev.trial == 0 {
					inRange(r, ev, "progress", p.where(fr, ci.Instr.Pos()), ev.fullPC(st), rng{"progress", ci.Args[1], num(ev, 0), num(ev, 1)})
				}
				return nil, false
			}
			open := openDivs(ev, pre)
			st, _ := ev.Call(f, args, nil, ev.NewState(), nil, "")
			r.use(ev)
			s := ev.devPart(st, args[0], dev, "*proto.Device")
			for _, path := range floatFields(pbd) {
				v, _ := ev.ptField(st, s, pbd, path)
				noDiv(r, ev, "finite", p.at(f), open, op+": "+path, v)
			}
		})
	}
}

// floatFields lists the numeric fields of a message and the messages in it.
func floatFields(n *types.Named) []string {
	var out []string
	for _, f := range exportedFields(n) {
		switch t := f.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsFloat != 0 {
				out = append(out, f.Name())
			}
		case *types.Pointer:
			if m, ok := t.Elem().(*types.Named); ok {
				for _, g := range floatFields(m) {
					out = append(out, f.Name()+"."+g)
				}
			}
		}
	}
	return out
}

// openDivs records the divisors that may be zero at the divisions evaluated
// from now on.
func openDivs(ev *Ev, pre *Term) map[int]string {
	open := map[int]string{}
	ev.onInstr = func(fr *Frame, st *State, in ssa.Instruction) {
		x, ok := in.(*ssa.BinOp)
		if !ok || ev.trial > 0 || x.Op != token.QUO || !isNumeric(x.Type()) || isInteger(x.Type()) {
			return
		}
		d := ev.val(fr, x.Y)
		pc := ev.c.And(ev.fullPC(st), pre)
		ev.leaves(d, pc, func(l, cond *Term) {
			if l.isConstNum() && l.ratVal().Sign() != 0 || open[l.id] != "" {
				return
			}
			if ev.sat(cond, 2000) && !ev.entails(cond, ev.c.Not(ev.c.EqNum(l, ev.c.Int(0)))) {
				open[l.id] = ev.p.where(fr, in.Pos())
			}
		})
	}
	return open
}

// noDiv: v does not depend on a division by a quantity that may be zero.
func noDiv(r *Report, ev *Ev, rule, at string, open map[int]string, what string, v *Term) {
	bad := ""
	for _, d := range divisors(v) {
		if w := open[d.id]; w != "" {
			bad = clip(d.String(), 150) + " at " + w
		}
	}
	r.Ob(rule, bad == "", at, "%s may divide by zero: %s", what, bad)
}

func divisors(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "inv" {
			out = append(out, t.args[0])
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f)
			}
		}
	}
	rec(t)
	return out
}
