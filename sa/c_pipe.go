package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03, C04, C05: the pipeline of the generator.

func init() {
	register("C05", "value-flow and event-order analysis (gated SSA value numbering)", "Every goroutine the generator starts is evaluated for an arbitrary iteration of its loop; each call of a packet callback must happen under the success condition of the encoding whose output it passes, into a buffer created in the same iteration, exactly once per encoded slice; the error callback gets the encoding error exactly when there is one; the message encoded is the received slice of the packet with the current time. PacketFromBytes yields either an error or the decoded packet.", checkC05)
	register("C03", "typestate analysis of channels, wait group and close signal (gated SSA value numbering)", "Run and every goroutine it starts are evaluated with the close signal given at an arbitrary moment: every blocking channel operation must be offered together with the close signal, no unbounded loop may come back once the close signal was seen, every goroutine is registered with the wait group before it starts and signs off exactly once on every way out; Close must trigger exactly the signal the goroutines watch.", checkC03)
}

// spawn is a goroutine started by Run.
type spawn struct {
	fn    *ssa.Function
	args  []*Term
	free  []*Term
	where string
}

// pipe is an evaluation of the generator's pipeline.
type pipe struct {
	p      *Prog
	r      *Report
	ev     *Ev
	gen    *types.Named
	g      *Term
	mode   string // "open": never closed; "closed": already closed; "": any
	spawns []spawn
	call   func(fr *Frame, st *State, ci *CallInfo)
	size   *Term // the field that holds the size of the packet
	known  []string
	zero   []string // ghosts that start at zero
	st     *State   // after Run
}

const doneOf = "(context.Context).Done"

func isDone(t *Term) bool { return t.op == "call" && strings.HasPrefix(t.aux, doneOf) }

func newPipe(p *Prog, r *Report) *pipe {
	pi := &pipe{p: p, r: r, gen: mustType(p, "", "Generator")}
	ev := session(p)
	pi.ev = ev
	c := ev.c
	ev.models[doneOf] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		return []*Term{ev.uapp(doneOf, resultTypes(ci.Com)[0], ci.Callee)}
	}
	ev.models["(context.Context).Err"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		switch pi.mode {
		case "open":
			return []*Term{c.Nil}
		case "closed":
			return []*Term{newErr(ev, fr, st, ci)[0]}
		}
		return []*Term{ev.fresh("ctxerr@"+ev.site(fr, ci.Instr), tError)}
	}
	ev.selIdx = func(fr *Frame, st *State, s *ssa.Select, idx *Term) *Term {
		var alts []int
		if !s.Blocking {
			alts = append(alts, -1)
		}
		for i, x := range s.States {
			d := isDone(ev.val(fr, x.Chan))
			if pi.mode == "open" && d {
				continue
			}
			alts = append(alts, i)
			if pi.mode == "closed" && d && !s.Blocking {
				alts = alts[1:] // not the default
			}
		}
		if len(alts) == 1 {
			return c.Int(int64(alts[0]))
		}
		v := idx
		lo, hi := alts[0], alts[len(alts)-1]
		if len(alts) == 0 {
			st.pc = c.False
			return idx
		}
		ev.c.lower[v.id] = c.Int(int64(lo))
		if lo >= 0 {
			ev.c.nonNeg[v.id] = true
		}
		ev.c.upper[v.id] = c.Int(int64(hi))
		for i := lo; i <= hi; i++ {
			in := false
			for _, a := range alts {
				in = in || a == i
			}
			if !in {
				st.pc = c.And(st.pc, c.Not(c.EqNum(v, c.Int(int64(i)))))
			}
		}
		return v
	}
	return pi
}

// run evaluates Run and collects the goroutines it starts.
func (pi *pipe) run() {
	ev := pi.ev
	run := method(pi.p, pi.gen, "Run")
	pi.g = ev.ptrSym("g", pi.gen)
	dev := mustType(pi.p, "", "Device")
	sum := map[*ssa.Function]bool{}
	for _, f := range exportedOf(pi.p, "") {
		if recvOf(f) == dev {
			sum[f] = true
		}
	}
	other := sumCalls(ev, sum)
	state := method(pi.p, dev, "State")
	ev.onCall = func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
		if pi.call != nil {
			pi.call(fr, st, ci)
		}
		if ci.Fn == state {
			return []*Term{ev.uapp("state", state.Signature.Results().At(0).Type(), ci.Args[0])}, true
		}
		if ci.Go && ev.trial == 0 {
			sp := spawn{args: ci.Args, where: pi.p.where(fr, ci.Instr.Pos())}
			sp.fn = ci.Fn
			if ci.Callee != nil && ci.Callee.op == "clo" {
				if sp.fn == nil {
					sp.fn = fnTerms[ci.Callee.aux]
				}
				sp.free = ci.Callee.args
			}
			if sp.fn == nil {
				panic(tooComplex{"goroutine with an unknown body at " + sp.where})
			}
			pi.spawns = append(pi.spawns, sp)
		}
		return other(fr, st, ci)
	}
	pi.facts()
	st := ev.NewState()
	pi.clear(st)
	pi.st, _ = ev.Call(run, []*Term{pi.g}, nil, st, nil, "")
	if len(pi.spawns) == 0 {
		panic(tooComplex{"Run starts no goroutine"})
	}
}

// facts: what New establishes and nothing changes afterwards.
func (pi *pipe) facts() {
	p := pi.p
	written := map[string]bool{}
	newG := mustFunc(p, "", "New")
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isPtrType(fa.X.Type(), pi.gen) || f == newG || onlyFrom(p, f, newG) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if x, ok := u.(*ssa.UnOp); ok && x.Op == token.MUL {
						continue
					}
					if _, ok := u.(*ssa.DebugRef); ok {
						continue
					}
					written[fieldName(fa)] = true
				}
			}
		}
	}
	e2 := session(p)
	st, vals := e2.Call(newG, e2.argSyms(newG), nil, e2.NewState(), nil, "")
	u := pi.gen.Underlying().(*types.Struct)
	pkt := mustType(p, "proto", "Packet")
	pp := e2.Load(st, e2.c.Fld(vals[0], oneField(pi.gen, "*proto.Packet")), types.NewPointer(pkt))
	list, _ := e2.ptField(st, pp, pkt, "Devices")
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !isInteger(f.Type()) || written[f.Name()] {
			continue
		}
		x := e2.Load(st, e2.c.Fld(vals[0], f.Name()), f.Type())
		ini := pi.ev.Load(pi.ev.NewState(), pi.ev.c.Fld(pi.g, f.Name()), f.Type())
		if e2.nonNegUnder(st.pc, x) {
			pi.ev.c.nonNeg[ini.id] = true
		}
		if e2.entails(st.pc, e2.c.Le(e2.c.Int(1), x)) {
			pi.ev.c.nonNeg[ini.id] = true
			pi.ev.c.lower[ini.id] = pi.ev.c.Int(1)
			lo := int64(1)
			for lo < 1<<16 && e2.entails(st.pc, e2.c.Le(e2.c.Int(2*lo), x)) {
				lo *= 2
			}
			pi.ev.c.lower[ini.id] = pi.ev.c.Int(lo)
			pi.known = append(pi.known, fmt.Sprintf("%s >= %d", f.Name(), lo))
		}
		if e2.eqUnder(st.pc, x, e2.c.Len(list), tInt) {
			pi.size = ini
			pi.known = append(pi.known, f.Name()+" is the size of the packet")
		}
	}
}

// nonNegUnder: the integer x is never negative (quotients of such included).
func (ev *Ev) nonNegUnder(pc, x *Term) bool {
	ok := true
	ev.leaves(x, pc, func(l, in *Term) {
		if l.op == "idiv" {
			ok = ok && ev.nonNegUnder(in, l.args[0]) && ev.nonNegUnder(in, l.args[1])
			return
		}
		ok = ok && ev.entails(in, ev.c.Le(ev.c.Int(0), l))
	})
	return ok
}

func (pi *pipe) clear(st *State) {
	for _, z := range pi.zero {
		pi.ev.Store(st, pi.ev.ghost(z), pi.ev.c.Int(0), tInt)
	}
}

// enter evaluates the body of a goroutine.
func (pi *pipe) enter(sp spawn, st *State) *State {
	s := st.clone()
	s.pc = pi.ev.c.True
	pi.clear(s)
	out, _ := pi.ev.Call(sp.fn, sp.args, sp.free, s, nil, "go")
	return out
}

func checkC05(p *Prog, r *Report) {
	r.Rule("encoded-only", 2, "the packet callback gets the bytes of a successfully encoded packet")
	r.Rule("once", 1, "every encoded slice reaches the packet callback exactly once")
	r.Rule("error", 2, "an encoding error reaches the error callback, and nothing else does")
	r.Rule("message", 3, "the encoded message is the received slice of the packet with the current time")
	r.Rule("fresh-buffer", 1, "the buffer is created for one packet only")
	r.Rule("decode", 3, "decoding yields an error or the decoded packet")
	pkt := mustType(p, "proto", "Packet")
	gen := mustType(p, "", "Generator")
	at := p.at(method(p, gen, "Run"))
	r.guard("encoded-only", at, func() {
		pi := newPipe(p, r)
		pi.mode = "open"
		pi.run()
		ev, c := pi.ev, pi.ev.c
		type enc struct {
			pc, out, err, msg *Term
			devs, ts, buf     *Term
			where             string
			kap               []*Term
		}
		type cb struct {
			pc, callee, arg *Term
			where           string
		}
		type rcv struct {
			pc, v *Term
			where string
		}
		var encs []enc
		var pcbs, ecbs []cb
		var rcvs []rcv
		ev.onProtoMarshal = func(fr *Frame, st *State, msg, out *Term, in ssa.Instruction) {
			e := enc{pc: ev.fullPC(st), out: out, msg: msg, where: p.where(fr, in.Pos()), kap: append([]*Term{}, ev.kappas...)}
			q, et := ptrOf(msg)
			if q == nil || !types.Identical(et, pkt) {
				return
			}
			e.devs, _ = ev.ptField(st, q, pkt, "Devices")
			e.ts, _ = ev.ptField(st, q, pkt, "Timestamp")
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "MarshalAppend" {
				as := ci.Common().Args
				e.buf = ev.val(fr, as[len(as)-2])
			}
			e.err = ev.uapp("protoencerr", tError, msg)
			encs = append(encs, e)
		}
		pi.call = func(fr *Frame, st *State, ci *CallInfo) {
			if ev.trial > 0 || ci.Name != "dynamic" || ci.Callee == nil {
				return
			}
			sig := ci.Com.Signature()
			if sig.Params().Len() != 1 {
				return
			}
			x := cb{pc: ev.fullPC(st), callee: ci.Callee, arg: ci.Args[0], where: p.where(fr, ci.Instr.Pos())}
			switch sig.Params().At(0).Type().String() {
			case "[]byte":
				pcbs = append(pcbs, x)
			case "error":
				ecbs = append(ecbs, x)
			}
		}
		ev.onChan = func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term) {
			if ev.trial > 0 || dir != types.RecvOnly || v == nil || v.op != "struct" || len(v.args) != 2 {
				return
			}
			rcvs = append(rcvs, rcv{c.And(ev.fullPC(st), cond), v, p.where(fr, in.Pos())})
		}
		for _, sp := range pi.spawns {
			pi.enter(sp, pi.st)
		}
		r.use(ev)
		for _, x := range pcbs {
			ok, any := false, ""
			for _, e := range encs {
				if ev.eqUnder(x.pc, x.arg, ev.c.raw("protoenc", "", false, e.msg), nil) && ev.entails(x.pc, c.And(e.pc, c.Eq(e.err, c.Nil))) {
					ok = true
				}
				any = e.where
			}
			r.Ob("encoded-only", ok, x.where, "the packet callback gets %s, which is the output of a successful encoding (%s)", clip(c.Restrict(x.arg, x.pc).String(), 160), any)
			r.Ob("encoded-only", ev.entails(x.pc, c.Not(c.Eq(x.callee, c.Nil))), x.where, "the packet callback is called only if there is one")
		}
		for _, x := range ecbs {
			ok := false
			for _, e := range encs {
				if ev.entails(x.pc, c.And(e.pc, c.Not(c.Eq(e.err, c.Nil)))) && ev.eqUnder(x.pc, x.arg, e.err, nil) {
					ok = true
				}
			}
			r.Ob("error", ok, x.where, "the error callback gets the error of a failed encoding: %s", clip(c.Restrict(x.arg, x.pc).String(), 160))
			r.Ob("error", ev.entails(x.pc, c.Not(c.Eq(x.callee, c.Nil))), x.where, "the error callback is called only if there is one")
		}
		exactly := func(rule string, e enc, cbs []cb, when *Term, what string) {
			cov, over := c.False, false
			var callee *Term
			for _, x := range cbs {
				pc := c.And(x.pc, when)
				if pc == c.False {
					continue
				}
				callee = x.callee
				if ev.sat(c.And(cov, pc), 400) {
					over = true
				}
				cov = c.Or(cov, pc)
			}
			if callee == nil {
				r.Ob(rule, false, e.where, "%s is never called for this encoding", what)
				return
			}
			want := c.And(when, c.Not(c.Eq(callee, c.Nil)))
			r.Ob(rule, ev.entails(want, cov) && !over, e.where, "%s is called exactly once for this encoding (missing %v, repeated %v)", what, !ev.entails(want, cov), over)
		}
		cov := c.False
		over := false
		for _, e := range encs {
			exactly("once", e, pcbs, c.And(e.pc, c.Eq(e.err, c.Nil)), "the packet callback")
			exactly("error", e, ecbs, c.And(e.pc, c.Not(c.Eq(e.err, c.Nil))), "the error callback")
			if ev.sat(c.And(cov, e.pc), 400) {
				over = true
			}
			cov = c.Or(cov, e.pc)
			fresh := e.buf == nil
			if !fresh {
				fresh = true
				for _, l := range leafSet(e.buf) {
					q := rootOf(l)
					mine := l == c.Nil || len(e.kap) > 0 && (q.op == "mkslice" || q.op == "alloc") && q.contains(e.kap[len(e.kap)-1])
					fresh = fresh && mine
				}
			}
			r.Ob("fresh-buffer", fresh, e.where, "the packet is encoded into a buffer of its own: %s", clip(fmt.Sprint(e.buf), 160))
			// the message
			ok := false
			got := clip(c.Restrict(e.devs, e.pc).String(), 200)
			for _, x := range rcvs {
				if !ev.entails(e.pc, x.pc) {
					continue
				}
				want := c.SubSlice(pi.packet(e.pc), x.v.args[0], x.v.args[1])
				if ev.eqUnder(e.pc, e.devs, want, nil) {
					ok = true
				}
			}
			r.Ob("message", ok, e.where, "the encoded devices are the received slice of the packet, got %s", got)
			r.Ob("message", isNow(e.ts), e.where, "the timestamp is the current time in seconds, got %s", clip(e.ts.String(), 120))
		}
		r.Ob("message", len(encs) > 0, at, "a goroutine of the generator encodes packets")
		n := 0
		for _, x := range rcvs {
			if !strings.HasPrefix(x.v.args[0].typString(), "int") {
				continue
			}
			n++
			some := c.And(x.pc, c.Lt(x.v.args[0], x.v.args[1]))
			some = c.And(some, c.Le(c.Int(0), x.v.args[0]))
			r.Ob("message", ev.entails(some, cov) && !over, x.where, "every slice received with devices in it is encoded once (missing %v, repeated %v)", !ev.entails(some, cov), over)
		}
	})
	dec := mustFunc(p, "", "PacketFromBytes")
	r.guard("decode", p.at(dec), func() {
		ev := session(p)
		c := ev.c
		args := ev.argSyms(dec)
		st, vals := ev.Call(dec, args, nil, ev.NewState(), nil, "")
		r.use(ev)
		derr := ev.uapp("protodecerr:"+typeKey(pkt), tError, args[0])
		bad := c.And(st.pc, c.Not(c.Eq(derr, c.Nil)))
		failed := c.Not(c.Eq(vals[1], c.Nil))
		r.Ob("decode", ev.entails(bad, failed), p.at(dec), "bytes that do not decode yield an error")
		r.Ob("decode", ev.eqUnder(c.And(st.pc, failed), vals[0], c.Nil, nil), p.at(dec), "an error comes without a packet")
		good := c.And(st.pc, c.Not(failed))
		r.Ob("decode", ev.entails(c.And(st.pc, c.And(c.Eq(derr, c.Nil), c.Lt(c.Int(0), c.Len(args[0])))), c.Not(failed)), p.at(dec), "bytes that decode are accepted")
		x := c.Restrict(vals[0], good)
		r.Ob("decode", !ev.sat(c.And(good, c.Eq(x, c.Nil)), 200), p.at(dec), "success comes with a packet")
		for _, f := range []string{"Devices", "Timestamp"} {
			got, ty := ev.ptField(st, x, pkt, f)
			r.Ob("decode", ev.eqUnder(good, got, ev.uapp("protodec."+f, ty, args[0]), ty), p.at(dec), "%s is what was encoded: %s", f, clip(got.String(), 100))
		}
	})
}

// packet is the list of devices of the packet being filled.
func (pi *pipe) packet(pc *Term) *Term {
	ev := pi.ev
	pkt := mustType(pi.p, "proto", "Packet")
	pp := ev.Load(pi.st, ev.c.Fld(pi.g, oneField(pi.gen, "*proto.Packet")), types.NewPointer(pkt))
	l, _ := ev.ptField(pi.st, pp, pkt, "Devices")
	return l
}

func isNow(t *Term) bool {
	return t.op == "call" && strings.HasPrefix(t.aux, "(time.Time).Unix#") && len(t.args) == 1 && t.args[0].op == "fresh" && strings.HasPrefix(t.args[0].aux, "time.Now")
}

func (t *Term) typString() string {
	if t.typ == nil {
		return "int"
	}
	return t.typ.String()
}

var _ = token.ARROW

func checkC03(p *Prog, r *Report) {
	r.Rule("watch", 5, "every blocking channel operation of the pipeline also watches the close signal")
	r.Rule("stop", 3, "no unbounded loop comes back once the close signal was seen")
	r.Rule("wait-group", 6, "every goroutine is registered before it starts, signs off once on every way out, and Run waits for all of them")
	r.Rule("signal", 3, "Close triggers the signal the goroutines watch")
	gen := mustType(p, "", "Generator")
	newG, run, cls := mustFunc(p, "", "New"), method(p, gen, "Run"), method(p, gen, "Close")
	// the signal: what Close calls and what New stores beside it
	ctxF := ""
	r.guard("signal", p.at(cls), func() {
		ev := session(p)
		c := ev.c
		st, vals := ev.Call(newG, ev.argSyms(newG), nil, ev.NewState(), nil, "")
		g := vals[0]
		calls := c.False
		n := 0
		at := p.at(cls)
		ev.onCall = func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
			if ev.trial == 0 && ci.Name == "dynamic" && ci.Callee.op == "fresh" && strings.HasPrefix(ci.Callee.aux, "context.With") && strings.Contains(ci.Callee.aux, "#1@") {
				n++
				calls = c.Or(calls, ev.fullPC(st))
				u := gen.Underlying().(*types.Struct)
				want := strings.Replace(ci.Callee.aux, "#1@", "#0@", 1)
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					if f.Type().String() != "context.Context" {
						continue
					}
					x := ev.Load(st, c.Fld(g, f.Name()), f.Type())
					if x.op == "fresh" && x.aux == want {
						ctxF = f.Name()
					}
				}
			}
			return nil, false
		}
		ev.Call(cls, []*Term{g}, nil, st, nil, "")
		r.use(ev)
		r.Ob("signal", n > 0 && ev.entails(st.pc, calls), at, "Close cancels the generator's context on every way through it")
		r.Ob("signal", ctxF != "", at, "the context stored by New belongs to the cancel function that Close calls")
	})
	// nobody replaces it
	r.guard("signal", p.at(newG), func() {
		for _, f := range p.Funcs() {
			if f == newG {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if ok && isPtrType(fa.X.Type(), gen) {
						t := s.Val.Type().String()
						if (t == "context.Context" || t == "context.CancelFunc") && !onlyFrom(p, f, newG) {
							r.Ob("signal", false, p.Pos(in.Pos())+" "+shortFn(f), "the context of a generator is replaced after its construction")
						}
					}
				}
			}
		}
		r.Ob("signal", true, p.at(newG), "the context of a generator is set by its constructor only")
	})
	if ctxF == "" {
		return
	}
	r.guard("watch", p.at(run), func() {
		pi := newPipe(p, r)
		ev, c := pi.ev, pi.ev.c
		mine := func(st *State, ch *Term) bool {
			if !isDone(ch) {
				return false
			}
			return ch.args[0] == ev.Load(ev.NewState(), c.Fld(pi.g, ctxF), ch.args[0].typ)
		}
		inGo := ""
		wgs := map[*Term]bool{}
		var goPC []*Term
		ev.onSelect = func(fr *Frame, st *State, s *ssa.Select) {
			if ev.trial > 0 {
				return
			}
			if s.Blocking {
				ok := false
				for _, x := range s.States {
					ok = ok || x.Dir == types.RecvOnly && mine(st, ev.val(fr, x.Chan))
				}
				r.Ob("watch", ok, p.where(fr, s.Pos()), "a blocking select of %s also waits for the close signal", inGo)
			}
		}
		ev.onChan = func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term) {
			if _, ok := in.(*ssa.Select); !ok {
				if ev.trial == 0 {
					r.Ob("watch", dir == types.RecvOnly && mine(st, ch), p.where(fr, in.Pos()), "an unconditional channel operation of %s waits for the close signal only: %s", inGo, clip(ch.String(), 80))
				}
				return
			}
			if mine(st, ch) {
				// the close signal was seen in this iteration
				g := ev.ghost("seen")
				ev.Store(st, g, c.Ite(cond, c.Int(1), ev.Load(st, g, tInt)), tInt)
			}
			if sel := in.(*ssa.Select); sel.Blocking {
				g := ev.ghost("offered")
				for _, x := range sel.States {
					if mine(st, ev.val(fr, x.Chan)) {
						ev.Store(st, g, c.Int(1), tInt)
					}
				}
			}
		}
		ev.onLoop = func(fr *Frame, lp *loop, backs, outs []*edgeState, kappa *Term) {
			if ev.loopN != nil && !ev.loopN.contains(kappa) {
				return
			}
			at := p.where(fr, lp.header.Instrs[0].Pos())
			if at == "" || strings.HasPrefix(at, "-") {
				at = p.at(fr.fn)
			}
			seen, offered := true, true
			for _, b := range backs {
				if !ev.sat(b.st.pc, 400) {
					continue
				}
				s, o := ev.ghostGet(b.st, "seen"), ev.ghostGet(b.st, "offered")
				seen = seen && ev.entails(b.st.pc, c.EqNum(s, ev.ghostGet(ev.NewState(), "seen")))
				offered = offered && ev.entails(b.st.pc, c.EqNum(o, c.Int(1)))
			}
			if pi.mode == "closed" {
				r.Ob("stop", seen, at, "a loop of %s without a bound does not come back after it has seen the close signal", inGo)
			}
			r.Ob("stop", offered, at, "every iteration of a loop of %s without a bound waits for the close signal", inGo)
		}
		pi.call = func(fr *Frame, st *State, ci *CallInfo) {
			if ci.Go {
				ev.ghostAdd(st, "started", c.Int(1))
				if ev.trial == 0 {
					goPC = append(goPC, st.pc)
					a, s := ev.ghostGet(st, "added"), ev.ghostGet(st, "started")
					r.Ob("wait-group", ev.entails(ev.fullPC(st), c.Le(s, a)), p.where(fr, ci.Instr.Pos()), "a goroutine is registered with the wait group before it starts: %s registered, %s started", clip(a.String(), 80), clip(s.String(), 80))
				}
				return
			}
			switch ci.Name {
			case "(*sync.WaitGroup).Add":
				wgs[ci.Args[0]] = true
				ev.ghostAdd(st, "added", ci.Args[1])
			case "(*sync.WaitGroup).Done":
				wgs[ci.Args[0]] = true
				ev.ghostAdd(st, "done", c.Int(1))
			case "(*sync.WaitGroup).Wait":
				wgs[ci.Args[0]] = true
				ev.ghostAdd(st, "waited", c.Int(1))
				if ev.trial == 0 {
					a, s := ev.ghostGet(st, "added"), ev.ghostGet(st, "started")
					r.Ob("wait-group", ev.eqUnder(ev.fullPC(st), a, s, tInt), p.where(fr, ci.Instr.Pos()), "as many registrations (%s) as goroutines (%s)", clip(a.String(), 80), clip(s.String(), 80))
				}
			case "(*sync.Cond).Wait":
				r.Ob("watch", false, p.where(fr, ci.Instr.Pos()), "waiting on a condition ignores the close signal")
			}
		}
		inGo = "Run"
		pi.zero = []string{"seen", "offered", "started", "added", "done", "waited"}
		pi.run()
		if pi.st != nil {
			r.Ob("wait-group", ev.entails(pi.st.pc, c.Le(c.Int(1), ev.ghostGet(pi.st, "waited"))), p.at(run), "Run waits for its goroutines before it returns")
			r.Ob("wait-group", len(wgs) == 1, p.at(run), "one wait group is used")
		}
		for _, mode := range []string{"", "closed"} {
			pi.mode = mode
			for _, sp := range pi.spawns {
				inGo = shortFn(sp.fn)
				out := pi.enter(sp, pi.st)
				if out == nil {
					r.Ob("stop", false, p.at(sp.fn), "%s never ends", inGo)
					continue
				}
				d := ev.ghostGet(out, "done")
				r.Ob("wait-group", ev.eqUnder(out.pc, d, c.Int(1), tInt), p.at(sp.fn), "%s signs off exactly once on every way out, not %s times", inGo, clip(d.String(), 80))
			}
			r.Ob("wait-group", len(wgs) == 1, p.at(run), "the goroutines sign off at the wait group Run waits for")
		}
		r.use(ev)
	})
}

// onlyFrom: f is called from g only.
func onlyFrom(p *Prog, f, g *ssa.Function) bool {
	n := 0
	for _, h := range p.Funcs() {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == f {
						n++
						if h != g && h.Parent() != g {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0 || f.Parent() == g
}
