package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Navigation: N02 (distances), N03 (moves), N04 (totals and versions),
// N05 (jumps), O01 (offline mode).

func init() {
	register("N03", "value-flow analysis (gated SSA value numbering of operations and observers)", "Every move operation of Navigator and Device is evaluated for an arbitrary position, list of routes and arguments; the condition under which it accepts, the observers after an accepted move, and all memory after a refused one are compared with the required values.", checkN03)
}

func init() {
	register("N02", "value-flow analysis (gated SSA value numbering of operations and observers)", "Navigator.NextLocation is evaluated for an arbitrary position, list of routes, interval and speed; the four travelled distances, the indices and the finish notice after the step are compared, as values, with what the step must do to them in each situation (moving, next segment, next track, next route, end of the last route, offline).", checkN02)
}

// subject is a navigator or device under observation.
type subject struct {
	ev   *Ev
	p    *Prog
	n    *types.Named
	self *Term
}

func (s *subject) o(st *State, name string, args ...*Term) *Term {
	f := method(s.p, s.n, name)
	return s.ev.observe(f, st, append([]*Term{s.self}, args...)...)[0]
}

func (s *subject) of(st *State, n *types.Named, name string, self *Term, args ...*Term) *Term {
	f := method(s.p, n, name)
	return s.ev.observe(f, st, append([]*Term{self}, args...)...)[0]
}

// place is the element at (r, t, i), with the condition that it exists.
type place struct {
	route, track, seg *Term
	ok                *Term
}

func inRangeOf(c *TermCtx, i, n *Term) *Term {
	return c.And(c.Le(c.Int(0), i), c.Lt(i, n))
}

func (s *subject) at(st *State, r, t, i *Term) place {
	c := s.ev.c
	rt, tt := mustType(s.p, "navigator", "Route"), mustType(s.p, "navigator", "Track")
	ok := inRangeOf(c, r, s.o(st, "NumRoutes"))
	R := s.ev.simp(s.o(st, "RouteAt", r), ok)
	ok = c.And(ok, inRangeOf(c, t, s.ev.simp(s.of(st, rt, "NumTracks", R), ok)))
	T := s.ev.simp(s.of(st, rt, "TrackAt", R, t), ok)
	ok = c.And(ok, inRangeOf(c, i, s.ev.simp(s.of(st, tt, "NumSegments", T), ok)))
	S := s.ev.simp(s.of(st, tt, "SegmentAt", T, i), ok)
	return place{R, T, S, ok}
}

func newSubject(p *Prog, rel, name string) *subject {
	return &subject{ev: session(p), p: p, n: mustType(p, rel, name)}
}

// run evaluates operation name on an arbitrary subject.
func (s *subject) run(name string) (f *ssa.Function, args []*Term, st0, st *State, ok *Term) {
	f = method(s.p, s.n, name)
	args = s.ev.argSyms(f)
	s.self = args[0]
	st0 = s.ev.NewState()
	var vals []*Term
	st, vals = s.ev.Call(f, args, nil, s.ev.NewState(), nil, "")
	if len(vals) > 0 {
		ok = vals[0]
	}
	return
}

// same: operation leaves everything as it was, assuming pc.
func (s *subject) same(r *Report, rule, at string, st *State, pc *Term, what string) {
	var chg []change
	for _, ch := range s.ev.diffs(st, pc) {
		if !inputLoc(ch.addr) || s.ev.lazyMap(st, ch) {
			continue
		}
		chg = append(chg, ch)
	}
	r.Ob(rule, len(chg) == 0, at, "%s changes nothing: %s", what, showChanges(chg))
}

var curDist = []string{"CurrentSegmentDistance", "CurrentTrackDistance", "CurrentRouteDistance"}

// accepted: after a move to (r, t, i) from st0 to st under pc.
func (s *subject) accepted(r *Report, at, name string, st0, st *State, pc, ri, ti, si *Term) {
	c := s.ev.c
	dest := s.at(st0, ri, ti, si)
	cmp := func(what string, got, want *Term, ty types.Type) {
		r.Ob("accepted", s.ev.eqUnder(pc, got, want, ty), at, "accepted %s: %s is %s, expected %s", name, what, clip(c.Restrict(got, pc).String(), 160), clip(c.Restrict(want, pc).String(), 160))
	}
	cmp("RouteIndex", s.o(st, "RouteIndex"), ri, tInt)
	cmp("TrackIndex", s.o(st, "TrackIndex"), ti, tInt)
	cmp("SegmentIndex", s.o(st, "SegmentIndex"), si, tInt)
	loc := s.o(st, "Location")
	pa := s.of(st0, mustType(s.p, "navigator", "Segment"), "PointA", dest.seg)
	for _, f := range []string{"Lat", "Lon"} {
		cmp("Location."+f, c.Field(loc, f), c.Field(pa, f), tFloat)
	}
	r.Ob("accepted", s.ev.entails(pc, c.Not(s.o(st, "IsOffline"))), at, "accepted %s: the device is online", name)
	nr := c.Not(c.EqNum(ri, s.o(st0, "RouteIndex")))
	nt := c.Or(nr, c.Not(c.EqNum(ti, s.o(st0, "TrackIndex"))))
	ns := c.Or(nt, c.Not(c.EqNum(si, s.o(st0, "SegmentIndex"))))
	for i, w := range []*Term{ns, nt, nr} {
		r.Ob("zeroed", s.ev.eqUnder(c.And(pc, w), s.o(st, curDist[i]), c.Int(0), tFloat), at, "accepted %s to another element: %s is zero", name, curDist[i])
	}
}

func checkN03(p *Prog, r *Report) {
	r.Rule("accepts", 14, "a move is accepted exactly when its target exists and is not the current element")
	r.Rule("accepted", 60, "after an accepted move the target is current, the position is its starting point and the device is online")
	r.Rule("zeroed", 24, "an accepted move zeroes the travelled distance of every level that changed")
	r.Rule("refused", 14, "a refused move leaves everything unchanged")
	type op struct {
		nav, dev string
	}
	for _, o := range []op{{"MoveToSegment", "MoveToSegment"}, {"MoveToTrack", "MoveToTrack"}, {"MoveToRoute", "MoveToRoute"},
		{"NextRoute", "ToNextRoute"}, {"PrevRoute", "ToPrevRoute"}, {"MoveToRouteByID", "MoveToRouteByID"}, {"MoveToTrackByID", "MoveToTrackByID"}, {"DestinationTo", "DestinationTo"}} {
		for _, onDev := range []bool{false, true} {
			rel, tn, name := "navigator", "Navigator", o.nav
			if onDev {
				rel, tn, name = "", "Device", o.dev
			}
			at := tn + "." + name
			if f := p.Method(mustType(p, rel, tn), name); f != nil {
				at = p.at(f)
			}
			r.guard("accepts", at, func() {
				s := newSubject(p, rel, tn)
				_, args, st0, st, ok := s.run(name)
				defer func() { r.use(s.ev) }()
				ev, c := s.ev, s.ev.c
				if ok == nil {
					r.Ob("accepts", false, at, "%s does not report whether it was accepted", name)
					return
				}
				pc := c.And(st.pc, ok)
				s.same(r, "refused", at, st, c.And(st.pc, c.Not(ok)), "a refused "+name)
				zero := c.Int(0)
				cur := func(ri, ti, si *Term) *Term {
					return c.And(c.EqNum(ri, s.o(st0, "RouteIndex")), c.EqNum(ti, s.o(st0, "TrackIndex")), c.EqNum(si, s.o(st0, "SegmentIndex")))
				}
				var ri, ti, si *Term
				switch o.nav {
				case "MoveToSegment":
					ri, ti, si = args[1], args[2], args[3]
				case "MoveToTrack":
					ri, ti, si = args[1], args[2], zero
				case "MoveToRoute":
					ri, ti, si = args[1], zero, zero
				case "NextRoute":
					ri, ti, si = c.Add(s.o(st0, "RouteIndex"), c.Int(1)), zero, zero
				case "PrevRoute":
					ri, ti, si = c.Sub(s.o(st0, "RouteIndex"), c.Int(1)), zero, zero
				case "DestinationTo":
					r.Ob("accepts", ev.entails(pc, c.Le(c.Int(1), args[1])), at, "a jump of less than one metre is refused")
					return
				}
				if ri != nil {
					want := c.And(s.at(st0, ri, ti, si).ok, c.Not(cur(ri, ti, si)))
					r.Ob("accepts", ev.eqUnder(st.pc, ok, want, tBool), at, "%s accepts when %s, expected when %s", name, clip(c.Restrict(ok, st.pc).String(), 250), clip(want.String(), 250))
					s.accepted(r, at, name, st0, st, pc, ri, ti, si)
					return
				}
				// by identifier
				rt, tt := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track")
				ri, ti, si = s.o(st, "RouteIndex"), s.o(st, "TrackIndex"), s.o(st, "SegmentIndex")
				d := s.at(st0, ri, ti, si)
				r.Ob("accepts", ev.entails(pc, c.And(d.ok, c.Not(cur(ri, ti, si)))), at, "%s accepts only an existing element other than the current one", name)
				x := c.And(pc, d.ok)
				r.Ob("accepted", ev.eqUnder(x, s.of(st0, rt, "ID", c.Restrict(d.route, x)), args[1], tStr), at, "accepted %s: the current route has the requested identifier", name)
				if o.nav == "MoveToTrackByID" {
					r.Ob("accepted", ev.eqUnder(x, s.of(st0, tt, "ID", c.Restrict(d.track, x)), args[2], tStr), at, "accepted %s: the current track has the requested identifier", name)
					r.Ob("accepted", ev.eqUnder(x, si, zero, tInt), at, "accepted %s: the first segment is current", name)
				} else {
					r.Ob("accepted", ev.eqUnder(x, ti, zero, tInt) && ev.eqUnder(x, si, zero, tInt), at, "accepted %s: the first track and segment are current", name)
				}
				s.accepted(r, at, name, st0, st, pc, ri, ti, si)
				// a refused identifier does not exist, or is current, or has nothing to stand on
				s.findable(r, at, name, st0, c.And(st.pc, c.Not(ok)), args, cur)
			})
		}
	}
}

// findable: when a move by identifier is refused under pc, no route (and
// track) at an arbitrary place answers to the identifier, unless an earlier one
// does, it is the current element or it is empty.
func (s *subject) findable(r *Report, at, name string, st0 *State, pc *Term, args []*Term, cur func(a, b, d *Term) *Term) {
	ev, c := s.ev, s.ev.c
	rt, tt := mustType(s.p, "navigator", "Route"), mustType(s.p, "navigator", "Track")
	zero := c.Int(0)
	// the first route answering to the identifier
	nr := s.o(st0, "NumRoutes")
	k := ev.kap("route")
	in := inRangeOf(c, k, nr)
	R := ev.simp(s.o(st0, "RouteAt", k), in)
	has := ev.simp(c.EqAny(s.of(st0, rt, "ID", R), args[1]), in)
	ex, ri := c.First(c.Bind(has, k), nr)
	x := c.And(pc, c.Not(c.Eq(args[1], c.leaf("str", ""))), ex)
	inR := inRangeOf(c, ri, nr)
	ti := zero
	if len(args) > 2 {
		R := ev.simp(s.o(st0, "RouteAt", ri), c.And(ex, inR))
		nt := s.of(st0, rt, "NumTracks", R)
		j := ev.kap("track")
		in := inRangeOf(c, j, nt)
		T := ev.simp(s.of(st0, rt, "TrackAt", R, j), in)
		has := ev.simp(c.EqAny(s.of(st0, tt, "ID", T), args[2]), in)
		var ext *Term
		ext, ti = c.First(c.Bind(has, j), nt)
		x = c.And(x, ext)
	}
	d := s.at(st0, ri, ti, zero)
	r.Ob("accepts", ev.entails(c.And(x, d.ok), cur(ri, ti, zero)), at, "%s refuses an existing identifier only for the current element", name)
}

// kap is an arbitrary index that can be bound.
func (ev *Ev) kap(name string) *Term {
	t := ev.c.intern(&Term{op: "kappa", aux: "q{" + name + "}", isInt: true})
	ev.c.nonNeg[t.id] = true
	return t
}

// runIn evaluates operation name in the situations allowed by cond.
func (s *subject) runIn(name string, cond func(args []*Term, st0 *State) *Term) (args []*Term, st0, st *State, ok *Term) {
	f := method(s.p, s.n, name)
	args = s.ev.argSyms(f)
	s.self = args[0]
	st0 = s.ev.NewState()
	in := s.ev.NewState()
	in.pc = cond(args, st0)
	if !s.ev.sat(in.pc, 2000) {
		panic(tooComplex{"situation does not exist"})
	}
	s.ev.peel = 3
	var vals []*Term
	st, vals = s.ev.Call(f, args, nil, in, nil, "")
	s.ev.peel = 0
	if len(vals) > 0 {
		ok = vals[0]
	}
	return
}

func checkN02(p *Prog, r *Report) {
	r.Rule("moving", 12, "a step that moves adds interval times speed to every travelled distance and stays on its track")
	r.Rule("turning", 24, "a step past the end of the segment, track, route or last route starts the next element with zero distance")
	r.Rule("halting", 9, "a step that does not move adds no distance")
	r.Rule("finish", 4, "the end of the last route is reported as finished once")
	nav := mustType(p, "navigator", "Navigator")
	tt, sg := mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	rt := mustType(p, "navigator", "Route")
	at := p.at(method(p, nav, "NextLocation"))
	names := []string{"CurrentDistance", "CurrentRouteDistance", "CurrentTrackDistance", "CurrentSegmentDistance", "RouteIndex", "TrackIndex", "SegmentIndex"}
	tyOf := func(n string) types.Type {
		if strings.HasSuffix(n, "Index") {
			return tInt
		}
		return tFloat
	}

	// any step
	r.guard("moving", at, func() {
		s := newSubject(p, "navigator", "Navigator")
		_, args, st0, st, ok := s.run("NextLocation")
		defer func() { r.use(s.ev) }()
		ev, c := s.ev, s.ev.c
		delta := c.Mul(args[1], args[2])
		cmp := func(pc *Term, what, n string, want *Term) {
			got := s.o(st, n)
			r.Ob("moving", ev.eqUnder(pc, got, want, tyOf(n)), at, "%s: %s is %s, expected %s", what, n, clip(ev.simp(got, pc).String(), 200), clip(want.String(), 200))
		}
		mv := c.And(st.pc, ok)
		for _, n := range names[:3] {
			cmp(mv, "a step that moves", n, c.Add(s.o(st0, n), delta))
		}
		cmp(mv, "a step that moves", "RouteIndex", s.o(st0, "RouteIndex"))
		cmp(mv, "a step that moves", "TrackIndex", s.o(st0, "TrackIndex"))
		i0, i1 := s.o(st0, "SegmentIndex"), s.o(st, "SegmentIndex")
		stay := c.EqNum(i1, i0)
		cmp(c.And(mv, stay), "a step on the same segment", "CurrentSegmentDistance", c.Add(s.o(st0, "CurrentSegmentDistance"), delta))
		cmp(c.And(mv, c.Not(stay)), "a step onto a later segment", "CurrentSegmentDistance", delta)
		r.Ob("moving", ev.entails(mv, c.Le(i0, i1)), at, "a step never goes back to an earlier segment")
		off := c.And(st.pc, s.o(st0, "IsOffline"))
		still := c.And(st.pc, c.Not(ok))
		for _, n := range names[1:3] {
			x, y := s.o(st, n), s.o(st0, n)
			r.Ob("halting", ev.entails(still, c.Or(c.EqNum(x, y), c.EqNum(x, c.Int(0)))), at, "without movement %s is %s", n, clip(ev.simp(x, still).String(), 200))
		}
		_ = off
	})

	// situations: at an existing, online place
	one := func(c *TermCtx, i, n *Term) *Term { return c.EqNum(c.Add(i, c.Int(1)), n) }
	type here struct {
		delta, csd, sd, sd2                *Term
		valid, over, fits2                 *Term
		lastS, lastT, lastR, linked, zero0 *Term
		idx                                [3]*Term
	}
	look := func(s *subject, args []*Term, st0 *State) here {
		ev, c := s.ev, s.ev.c
		var h here
		h.delta = c.Mul(args[1], args[2])
		ri, ti, si := s.o(st0, "RouteIndex"), s.o(st0, "TrackIndex"), s.o(st0, "SegmentIndex")
		h.idx = [3]*Term{ri, ti, si}
		d := s.at(st0, ri, ti, si)
		nt := ev.simp(s.of(st0, rt, "NumTracks", d.route), d.ok)
		ns := ev.simp(s.of(st0, tt, "NumSegments", d.track), d.ok)
		h.sd = ev.simp(s.of(st0, sg, "Distance", d.seg), d.ok)
		h.csd = s.o(st0, "CurrentSegmentDistance")
		h.over = c.Lt(h.sd, c.Add(h.csd, h.delta))
		// the travelled finish notice of an earlier step has been taken
		h.valid = c.And(d.ok, c.Lt(c.Int(0), h.sd), c.Le(c.Int(0), h.delta), c.Not(s.finished(st0)), c.Not(s.o(st0, "IsOffline")))
		h.lastS, h.lastT, h.lastR = one(c, si, ns), one(c, ti, nt), one(c, ri, s.o(st0, "NumRoutes"))
		n2 := s.at(st0, ri, ti, c.Add(si, c.Int(1)))
		x := c.And(d.ok, n2.ok)
		h.sd2 = ev.simp(s.of(st0, sg, "Distance", n2.seg), x)
		h.fits2 = c.And(n2.ok, c.Lt(c.Int(0), h.sd2), c.Le(h.delta, h.sd2))
		return h
	}
	type sit struct {
		rule, name string
		cond       func(c *TermCtx, h here) *Term
		want       func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term
		moves      int // 1 yes, 0 no, -1 either
		finish     int
	}
	keep := func(v0 func(string) *Term, ns ...string) map[string]*Term {
		m := map[string]*Term{}
		for _, n := range ns {
			m[n] = v0(n)
		}
		return m
	}
	for _, q := range []sit{
		{"moving", "a step that fits on the segment", func(c *TermCtx, h here) *Term { return c.Not(h.over) },
			func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term {
				m := keep(v0, names...)
				for _, n := range names[:4] {
					m[n] = c.Add(m[n], h.delta)
				}
				return m
			}, 1, -1},
		{"turning", "a step onto the next track", func(c *TermCtx, h here) *Term { return c.And(h.over, h.lastS, c.Not(h.lastT)) },
			func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term {
				m := keep(v0, "RouteIndex", "CurrentRouteDistance", "CurrentDistance")
				m["TrackIndex"] = c.Add(v0("TrackIndex"), c.Int(1))
				for _, n := range []string{"SegmentIndex", "CurrentSegmentDistance", "CurrentTrackDistance"} {
					m[n] = c.Int(0)
				}
				return m
			}, 0, 0},
		{"turning", "a step onto the next route", func(c *TermCtx, h here) *Term { return c.And(h.over, h.lastS, h.lastT, c.Not(h.lastR)) },
			func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term {
				m := keep(v0, "CurrentDistance")
				m["RouteIndex"] = c.Add(v0("RouteIndex"), c.Int(1))
				for _, n := range []string{"TrackIndex", "SegmentIndex", "CurrentSegmentDistance", "CurrentTrackDistance", "CurrentRouteDistance"} {
					m[n] = c.Int(0)
				}
				return m
			}, 0, 0},
		{"turning", "a step past the end of the last route", func(c *TermCtx, h here) *Term { return c.And(h.over, h.lastS, h.lastT, h.lastR) },
			func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term {
				m := map[string]*Term{}
				for _, n := range names[1:] {
					m[n] = c.Int(0)
				}
				return m
			}, 0, 1},
		{"turning", "a step onto the next segment", func(c *TermCtx, h here) *Term { return c.And(h.over, c.Not(h.lastS), h.fits2) },
			func(c *TermCtx, h here, v0 func(string) *Term) map[string]*Term {
				m := keep(v0, "RouteIndex", "TrackIndex")
				m["SegmentIndex"] = c.Add(v0("SegmentIndex"), c.Int(1))
				return m
			}, -1, 0},
	} {
		q := q
		r.guard(q.rule, at, func() {
			s := newSubject(p, "navigator", "Navigator")
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			var h here
			args, st0, st, ok := s.runIn("NextLocation", func(args []*Term, st0 *State) *Term {
				h = look(s, args, st0)
				return c.And(h.valid, q.cond(c, h))
			})
			_ = args
			v0 := func(n string) *Term { return s.o(st0, n) }
			for _, n := range names {
				w := q.want(c, h, v0)[n]
				if w == nil {
					continue
				}
				got := s.o(st, n)
				r.Ob(q.rule, ev.eqUnder(st.pc, got, w, tyOf(n)), at, "%s: %s is %s, expected %s", q.name, n, clip(ev.simp(got, st.pc).String(), 200), clip(w.String(), 200))
			}
			switch q.moves {
			case 1:
				r.Ob(q.rule, ev.entails(st.pc, ok), at, "%s moves", q.name)
			case 0:
				r.Ob(q.rule, ev.entails(st.pc, c.Not(ok)), at, "%s is not a movement", q.name)
			}
			switch q.finish {
			case 1:
				r.Ob("finish", ev.entails(st.pc, s.finished(st)), at, "%s is reported as finished", q.name)
				after, _ := ev.invoke(method(p, nav, "IsFinish"), st.clone(), s.self)
				r.Ob("finish", ev.entails(after.pc, c.Not(s.finished(after))), at, "%s is reported once", q.name)
			case 0:
				r.Ob("finish", ev.entails(c.And(st.pc, c.Not(ok)), c.Not(s.finished(st))), at, "%s is not a finish: %s", q.name, clip(ev.simp(s.finished(st), st.pc).String(), 300))
			}
			if q.name == "a step onto the next segment" {
				for _, n := range names[:3] {
					got := s.o(st, n)
					r.Ob(q.rule, ev.eqUnder(st.pc, got, c.Ite(ok, c.Add(v0(n), h.delta), v0(n)), tFloat), at, "%s: %s is %s", q.name, n, clip(ev.simp(got, st.pc).String(), 200))
				}
				got := s.o(st, "CurrentSegmentDistance")
				r.Ob(q.rule, ev.eqUnder(st.pc, got, c.Ite(ok, h.delta, c.Int(0)), tFloat), at, "%s: CurrentSegmentDistance is %s", q.name, clip(ev.simp(got, st.pc).String(), 200))
			}
		})
	}
	// offline
	r.guard("halting", at, func() {
		s := newSubject(p, "navigator", "Navigator")
		ev, c := s.ev, s.ev.c
		defer func() { r.use(s.ev) }()
		_, st0, st, ok := s.runIn("NextLocation", func(args []*Term, st0 *State) *Term {
			return c.Or(c.And(s.o(st0, "IsOffline"), c.Not(s.skips(st0))), c.EqNum(s.o(st0, "NumRoutes"), c.Int(0)))
		})
		r.Ob("halting", ev.entails(st.pc, c.Not(ok)), at, "a step of an offline navigator or one without routes is not a movement")
		for _, n := range names {
			x := s.o(st, n)
			r.Ob("halting", ev.eqUnder(st.pc, x, s.o(st0, n), tyOf(n)), at, "offline or without routes: %s becomes %s", n, clip(ev.simp(x, st.pc).String(), 200))
		}
	})
}

// skips: the navigator is configured to skip offline mode.
func (s *subject) skips(st *State) *Term { return s.snapField(st, "SkipOffline") }

// snapField is a field of the snapshot the subject would give in st.
func (s *subject) snapField(st *State, name string) *Term {
	f := method(s.p, s.n, "Snapshot")
	t := mustType(s.p, "proto", "Snapshot_Navigator")
	path := name
	if s.n.Obj().Name() == "Device" {
		t = mustType(s.p, "proto", "Snapshot")
		path = "Navigator." + name
	}
	var x *Term
	s.ev.quietly(func() {
		st2, v := s.ev.invoke(f, st.clone(), s.self)
		x, _ = s.ev.ptField(st2, v[0], t, path)
	})
	return x
}

func (s *subject) finished(st *State) *Term { return s.o(st, "IsFinish") }

func init() {
	register("O01", "value-flow analysis (gated SSA value numbering of operations and observers)", "Every operation of Navigator and Device is evaluated for an arbitrary state; the offline state, duration and position afterwards are compared with what is required in each situation (offline step, end of a track or route, empty battery, skip mode, reported state).", checkO01)
}

func checkO01(p *Prog, r *Report) {
	r.Rule("waits", 12, "an offline step leaves the position, indices and distances alone and counts one step down")
	r.Rule("draw", 5, "going offline takes a duration from the configured range")
	r.Rule("never", 30, "a subject that skips offline mode is never offline")
	r.Rule("reported", 2, "after an advance the reported offline state and duration are the actual ones")
	nav := mustType(p, "navigator", "Navigator")
	dev := mustType(p, "", "Device")
	names := []string{"CurrentDistance", "CurrentRouteDistance", "CurrentTrackDistance", "CurrentSegmentDistance", "RouteIndex", "TrackIndex", "SegmentIndex"}
	at := p.at(method(p, nav, "NextLocation"))
	inRandom := func(s *subject, st0 *State, x *Term, less int64) *Term {
		c := s.ev.c
		lo, hi := s.snapField(st0, "OfflineMin"), s.snapField(st0, "OfflineMax")
		return c.And(c.Le(c.Sub(lo, c.Int(less)), x), c.Le(x, c.Sub(hi, c.Int(0))))
	}
	ordered := func(s *subject, st0 *State) *Term {
		c := s.ev.c
		lo, hi := s.snapField(st0, "OfflineMin"), s.snapField(st0, "OfflineMax")
		return c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Lt(c.Int(0), hi))
	}
	r.guard("waits", at, func() {
		s := newSubject(p, "navigator", "Navigator")
		ev, c := s.ev, s.ev.c
		defer func() { r.use(s.ev) }()
		_, st0, st, ok := s.runIn("NextLocation", func(args []*Term, st0 *State) *Term {
			return c.And(s.o(st0, "IsOffline"), c.Not(s.skips(st0)), c.Lt(c.Int(0), s.o(st0, "NumRoutes")))
		})
		r.Ob("waits", ev.entails(st.pc, c.Not(ok)), at, "an offline step is not a movement")
		for _, n := range names {
			x := s.o(st, n)
			r.Ob("waits", ev.eqUnder(st.pc, x, s.o(st0, n), nil), at, "an offline step: %s becomes %s", n, clip(ev.simp(x, st.pc).String(), 200))
		}
		for _, f := range []string{"Lat", "Lon"} {
			x, y := c.Field(s.o(st, "Location"), f), c.Field(s.o(st0, "Location"), f)
			r.Ob("waits", ev.eqUnder(st.pc, x, y, tFloat), at, "an offline step: the position's %s becomes %s", f, clip(ev.simp(x, st.pc).String(), 200))
		}
		x := s.o(st, "OfflineDuration")
		r.Ob("waits", ev.eqUnder(st.pc, x, c.Sub(s.o(st0, "OfflineDuration"), c.Int(1)), tInt), at, "an offline step leaves a duration of %s", clip(ev.simp(x, st.pc).String(), 200))
		r.Ob("waits", ev.eqUnder(st.pc, s.o(st, "IsOffline"), c.Lt(c.Int(0), x), tBool), at, "offline exactly while the duration is positive")
	})

	// going offline
	for _, sub := range [][2]string{{"navigator", "Navigator"}, {"", "Device"}} {
		at := p.at(method(p, mustType(p, sub[0], sub[1]), "ToOffline"))
		r.guard("draw", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, st0, st, _ := s.runIn("ToOffline", func(args []*Term, st0 *State) *Term {
				return c.And(c.Not(s.skips(st0)), ordered(s, st0))
			})
			x := s.snapField(st, "OfflineIndex")
			r.Ob("draw", ev.entails(st.pc, inRandom(s, st0, x, 0)), at, "going offline lasts %s", clip(ev.simp(x, st.pc).String(), 200))
		})
	}
	r.guard("draw", at, func() {
		s := newSubject(p, "navigator", "Navigator")
		ev, c := s.ev, s.ev.c
		defer func() { r.use(s.ev) }()
		tt, sg := mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
		_, st0, st, _ := s.runIn("NextLocation", func(args []*Term, st0 *State) *Term {
			ri, ti, si := s.o(st0, "RouteIndex"), s.o(st0, "TrackIndex"), s.o(st0, "SegmentIndex")
			d := s.at(st0, ri, ti, si)
			sd := ev.simp(s.of(st0, sg, "Distance", d.seg), d.ok)
			ns := ev.simp(s.of(st0, tt, "NumSegments", d.track), d.ok)
			over := c.Lt(sd, c.Add(s.o(st0, "CurrentSegmentDistance"), c.Mul(args[1], args[2])))
			return c.And(d.ok, c.Lt(c.Int(0), sd), over, c.EqNum(c.Add(si, c.Int(1)), ns), c.Not(s.o(st0, "IsOffline")), c.Not(s.skips(st0)), ordered(s, st0))
		})
		x := s.o(st, "OfflineDuration")
		r.Ob("draw", ev.entails(st.pc, inRandom(s, st0, x, 0)), at, "after the end of a track the navigator is offline for %s", clip(ev.simp(x, st.pc).String(), 200))
	})
	// a chain of segments that breaks off
	r.guard("draw", at, func() {
		s := newSubject(p, "navigator", "Navigator")
		ev, c := s.ev, s.ev.c
		defer func() { r.use(s.ev) }()
		tt, sg := mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
		segSnap := mustType(p, "proto", "Snapshot_Navigator_Route_Track_Segment")
		_, st0, st, ok := s.runIn("NextLocation", func(args []*Term, st0 *State) *Term {
			ri, ti, si := s.o(st0, "RouteIndex"), s.o(st0, "TrackIndex"), s.o(st0, "SegmentIndex")
			d := s.at(st0, ri, ti, si)
			sd := ev.simp(s.of(st0, sg, "Distance", d.seg), d.ok)
			ns := ev.simp(s.of(st0, tt, "NumSegments", d.track), d.ok)
			over := c.Lt(sd, c.Add(s.o(st0, "CurrentSegmentDistance"), c.Mul(args[1], args[2])))
			var rel *Term
			ev.quietly(func() {
				st2, v := ev.invoke(method(p, sg, "Snapshot"), st0.clone(), ev.simp(d.seg, d.ok))
				rel, _ = ev.ptField(st2, v[0], segSnap, "Rel")
			})
			return c.And(d.ok, c.Lt(c.Int(0), sd), over, c.Lt(c.Add(si, c.Int(1)), ns), c.EqNum(rel, c.Int(-1)), c.Not(s.o(st0, "IsOffline")), c.Not(s.skips(st0)), ordered(s, st0))
		})
		x := s.o(st, "OfflineDuration")
		r.Ob("draw", ev.entails(st.pc, c.And(inRandom(s, st0, x, 0), c.Not(ok))), at, "after the end of a chain of segments the navigator is offline for %s", clip(ev.simp(x, st.pc).String(), 200))
	})

	// Device.Next
	atD := p.at(method(p, dev, "Next"))
	r.guard("reported", atD, func() {
		s := newSubject(p, "", "Device")
		ev, c := s.ev, s.ev.c
		defer func() { r.use(s.ev) }()
		args, st0, st, _ := s.runIn("Next", func(args []*Term, st0 *State) *Term {
			return c.And(c.Lt(c.Int(0), s.o(st0, "NumRoutes")))
		})
		// the lock was free and there is a route: the tick was taken
		bat := mustType(p, "types", "Battery")
		pbd := mustType(p, "proto", "Device")
		dst := ev.devPart(st, args[0], dev, "*proto.Device")
		b0 := ev.devPart(st0, args[0], dev, "*types.Battery")
		tick, _ := ev.ptField(st, dst, pbd, "Tick")
		dst0 := ev.devPart(st0, args[0], dev, "*proto.Device")
		tick0, _ := ev.ptField(st0, dst0, pbd, "Tick")
		_ = tick0
		lock := findFresh([]*Term{st.pc, tick}, "trylock")
		if lock == nil {
			lock = findFresh([]*Term{tick}, "")
		}
		if lock == nil || lock.typ == nil || !isBool(lock.typ) {
			panic(tooComplex{"no lock attempt found"})
		}
		adv := c.And(st.pc, c.atomB(lock), c.Lt(c.Int(0), s.o(st0, "NumRoutes")))
		got, _ := ev.ptField(st, dst, pbd, "IsOffline")
		r.Ob("reported", ev.eqUnder(adv, got, s.o(st, "IsOffline"), tBool), atD, "the reported offline state is %s", clip(ev.simp(got, adv).String(), 200))
		got, _ = ev.ptField(st, dst, pbd, "OfflineDuration")
		r.Ob("reported", ev.eqUnder(adv, got, s.snapField(st, "OfflineIndex"), tInt), atD, "the reported offline duration is %s", clip(ev.simp(got, adv).String(), 200))
		var low *Term
		ev.quietly(func() {
			stB, _ := ev.invoke(method(p, bat, "Next"), st0.clone(), b0, ev.simp(tick, adv))
			low = ev.observe(method(p, bat, "IsLow"), stB, b0)[0]
		})
		x := s.snapField(st, "OfflineIndex")
		pc := c.And(adv, low, c.Not(s.skips(st0)), ordered(s, st0), c.Lt(c.Int(0), s.snapField(st0, "OfflineMin")))
		x = ev.simp(x, pc)
		r.Ob("draw", ev.sat(pc, 4000) && ev.entails(pc, inRandom(s, st0, x, 1)), atD, "after the battery ran empty the device is offline for %s", clip(ev.simp(x, pc).String(), 200))
	})

	// never offline in skip mode
	for _, sub := range [][2]string{{"navigator", "Navigator"}, {"", "Device"}} {
		n := mustType(p, sub[0], sub[1])
		for _, f := range exportedOf(p, sub[0]) {
			if recvOf(f) != n || !modifiers[apiName(f)] {
				continue
			}
			f := f
			r.guard("never", p.at(f), func() {
				s := newSubject(p, sub[0], sub[1])
				ev, c := s.ev, s.ev.c
				defer func() { r.use(s.ev) }()
				_, _, st0, st, _ := s.run(f.Name())
				pc := c.And(st.pc, c.Not(c.And(s.skips(st0), s.o(st0, "IsOffline"))))
				bad := c.And(s.skips(st), s.o(st, "IsOffline"))
				r.Ob("never", ev.entails(pc, c.Not(bad)), p.at(f), "after %s a %s that skips offline mode is offline when %s", f.Name(), sub[1], clip(ev.simp(bad, pc).String(), 300))
			})
		}
	}
}

func init() {
	register("N04", "value-flow analysis (gated SSA value numbering of operations and observers)", "Every operation that changes routes or tracks is evaluated on an arbitrary navigator, device, route or track; afterwards the totals are compared with the sums over the remaining elements (as sums over an arbitrary index), the list with the old list minus or plus the element, the position with the start and the version with the old one; operations that report no change must leave all memory as it was.", checkN04)
}

// addsUp: under pc, got is the sum of the Distance of the n elements given by
// get. The element count and an arbitrary element are compared, in every
// situation that got distinguishes. got may also be the old total plus the
// elements that were appended.
func (s *subject) addsUp(pc, got, n *Term, elem func(k, pc *Term) *Term, got0, n0 *Term, elem0 func(k, pc *Term) *Term) bool {
	ev, c := s.ev, s.ev.c
	ok := true
	got, n = ev.simp(got, pc), ev.simp(n, pc)
	ev.leaves(got, pc, func(l, q *Term) {
		if !ok || !ev.sat(q, 4000) {
			return
		}
		k := ev.kap("element")
		if l.op == "sum" {
			in := c.And(q, inRangeOf(c, k, l.args[1]))
			ok = ev.entails(q, c.Or(c.EqNum(n, l.args[1]), c.And(c.Le(n, c.Int(0)), c.Le(l.args[1], c.Int(0))))) && (!ev.sat(in, 2000) || ev.eqUnder(in, c.Inst(l.args[0], k), elem(k, in), tFloat))
			return
		}
		if l == c.Int(0) && ev.entails(q, c.Le(n, c.Int(0))) {
			return
		}
		// a few elements, one by one
		for cnt := int64(1); cnt <= 3; cnt++ {
			if !ev.entails(q, c.EqNum(n, c.Int(cnt))) {
				continue
			}
			want := c.Int(0)
			for i := int64(0); i < cnt; i++ {
				want = c.Add(want, elem(c.Int(i), q))
			}
			ok = ev.eqUnder(q, l, want, tFloat)
			return
		}
		// a sum over the first elements and the rest one by one
		for _, m := range c.monosOf(l) {
			if len(m.fs) != 1 || m.fs[0].op != "sum" || m.c.Cmp(big.NewRat(1, 1)) != 0 {
				continue
			}
			part := m.fs[0]
			m0 := part.args[1]
			for cnt := int64(0); cnt <= 2; cnt++ {
				if !ev.entails(q, c.EqNum(n, c.Add(m0, c.Int(cnt)))) {
					continue
				}
				want := part
				for i := int64(0); i < cnt; i++ {
					want = c.Add(want, elem(c.Add(m0, c.Int(i)), q))
				}
				in := c.And(q, inRangeOf(c, k, m0))
				ok = ev.eqUnder(q, l, want, tFloat) && (!ev.sat(in, 2000) || ev.eqUnder(in, c.Inst(part.args[0], k), elem(k, in), tFloat))
				return
			}
		}
		if got0 == nil {
			ok = false
			return
		}
		for cnt := int64(0); cnt <= 2; cnt++ {
			if !ev.entails(q, c.EqNum(n, c.Add(n0, c.Int(cnt)))) {
				continue
			}
			want := got0
			for i := int64(0); i < cnt; i++ {
				want = c.Add(want, elem(c.Add(n0, c.Int(i)), q))
			}
			in := c.And(q, inRangeOf(c, k, n0))
			ok = ev.eqUnder(q, l, want, tFloat) && ev.eqUnder(in, elem(k, in), elem0(k, in), tFloat)
			return
		}
		ok = false
	})
	return ok
}

// routesAddUp: under pc the total distance in st is the sum over the routes.
func (s *subject) routesAddUp(pc *Term, st0, st *State) bool {
	rt := mustType(s.p, "navigator", "Route")
	elem := func(st *State) func(k, pc *Term) *Term {
		return func(k, pc *Term) *Term {
			return s.ev.simp(s.of(st, rt, "Distance", s.ev.simp(s.o(st, "RouteAt", k), pc)), pc)
		}
	}
	return s.addsUp(pc, s.o(st, "Distance"), s.o(st, "NumRoutes"), elem(st), s.o(st0, "Distance"), s.o(st0, "NumRoutes"), elem(st0))
}

// tracksAddUp: the same for the tracks of a route.
func (s *subject) tracksAddUp(pc *Term, st0, st *State, route *Term) bool {
	rt, tt := mustType(s.p, "navigator", "Route"), mustType(s.p, "navigator", "Track")
	elem := func(st *State) func(k, pc *Term) *Term {
		return func(k, pc *Term) *Term {
			return s.ev.simp(s.of(st, tt, "Distance", s.ev.simp(s.of(st, rt, "TrackAt", route, k), pc)), pc)
		}
	}
	return s.addsUp(pc, s.of(st, rt, "Distance", route), s.of(st, rt, "NumTracks", route), elem(st), s.of(st0, rt, "Distance", route), s.of(st0, rt, "NumTracks", route), elem(st0))
}

// versionOf is the first component of the version sum.
func (s *subject) versionOf(st *State) *Term {
	name := "Sum"
	if s.n.Obj().Name() == "Device" {
		name = "Version"
	}
	return s.ev.c.ArrIndex(s.o(st, name), s.ev.c.Int(0), s.ev, tInt)
}

func (s *subject) snapVersion(st *State, of *types.Named, snap string, self *Term) *Term {
	var v *Term
	s.ev.quietly(func() {
		st2, x := s.ev.invoke(method(s.p, of, "Snapshot"), st.clone(), self)
		v, _ = s.ev.ptField(st2, x[0], mustType(s.p, "proto", snap), "Version")
	})
	return v
}

var startOf = []string{"CurrentDistance", "CurrentRouteDistance", "CurrentTrackDistance", "CurrentSegmentDistance", "RouteIndex", "TrackIndex", "SegmentIndex"}

// refreshed: after a change of the routes under pc.
func (s *subject) refreshed(r *Report, at, what string, st0, st *State, pc *Term) {
	ev, c := s.ev, s.ev.c
	r.Ob("totals", s.routesAddUp(pc, st0, st), at, "after %s the total distance is %s, which is not the sum over the routes", what, clip(ev.simp(s.o(st, "Distance"), pc).String(), 300))
	for _, n := range startOf {
		x := s.o(st, n)
		r.Ob("start", ev.eqUnder(pc, x, c.Int(0), nil2num(n)), at, "after %s %s is %s", what, n, clip(ev.simp(x, pc).String(), 200))
	}
	v0, v1 := s.versionOf(st0), s.versionOf(st)
	r.Ob("version", ev.entails(pc, c.Lt(v0, v1)), at, "after %s the version grows: %s", what, clip(ev.simp(v1, pc).String(), 200))
}

func nil2num(n string) types.Type {
	if strings.HasSuffix(n, "Index") {
		return tInt
	}
	return tFloat
}

func checkN04(p *Prog, r *Report) {
	r.Rule("totals", 12, "the total distance is the sum over the elements")
	r.Rule("start", 70, "the position is the start, with nothing travelled")
	r.Rule("version", 12, "a change increases the version")
	r.Rule("list", 16, "the list is the old one with exactly the change asked for")
	r.Rule("unchanged", 12, "an operation that changes nothing leaves everything as it was")
	rt, tt := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track")
	for _, sub := range [][2]string{{"navigator", "Navigator"}, {"", "Device"}} {
		n := mustType(p, sub[0], sub[1])
		isDev := sub[1] == "Device"
		pre := func(s *subject) (args []*Term) { return nil }
		_ = pre
		// clearing
		at := p.at(method(p, n, "ResetRoutes"))
		r.guard("totals", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, _, st0, st, ok := s.run("ResetRoutes")
			pc := c.And(st.pc, ok)
			s.refreshed(r, at, "clearing the routes", st0, st, pc)
			r.Ob("list", ev.entails(pc, c.EqNum(s.o(st, "NumRoutes"), c.Int(0))), at, "clearing leaves no routes")
			r.Ob("list", ev.entails(c.And(st.pc, c.Not(ok)), c.EqNum(s.o(st0, "NumRoutes"), c.Int(0))), at, "clearing is refused only without routes")
			s.same(r, "unchanged", at, st, c.And(st.pc, c.Not(ok)), "clearing no routes")
		})
		// resetting the position
		rn := "Reset"
		if isDev {
			rn = "ResetNavigator"
		}
		at = p.at(method(p, n, rn))
		r.guard("totals", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, _, st0, st, _ := s.run(rn)
			r.Ob("totals", s.routesAddUp(st.pc, st0, st), at, "after a reset the total distance is %s, which is not the sum over the routes", clip(s.o(st, "Distance").String(), 200))
			for _, n := range startOf {
				r.Ob("start", ev.eqUnder(st.pc, s.o(st, n), c.Int(0), nil2num(n)), at, "after a reset %s is %s", n, clip(s.o(st, n).String(), 200))
			}
		})
		// removing a route
		at = p.at(method(p, n, "RemoveRoute"))
		r.guard("totals", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, args, st0, st, ok := s.run("RemoveRoute")
			pc := c.And(st.pc, ok)
			s.refreshed(r, at, "removing a route", st0, st, pc)
			s.same(r, "unchanged", at, st, c.And(st.pc, c.Not(ok)), "removing an unknown route")
			n0, n1 := s.o(st0, "NumRoutes"), s.o(st, "NumRoutes")
			k := ev.kap("route")
			in := inRangeOf(c, k, n0)
			has := ev.simp(c.EqAny(s.of(st0, rt, "ID", ev.simp(s.o(st0, "RouteAt", k), in)), args[1]), in)
			ex, ri := c.First(c.Bind(has, k), n0)
			s.removed(r, at, "RemoveRoute", c.And(pc, ex), n0, n1, ri, func(i *Term) (*Term, *Term) { return s.o(st0, "RouteAt", i), s.o(st, "RouteAt", i) })
			r.Ob("list", ev.entails(pc, ex), at, "a removal is reported only for a known identifier")
			fits := c.And(c.Lt(c.Int(0), c.Len(args[1])), c.Le(c.Len(args[1]), c.Int(36)))
			r.Ob("list", ev.entails(c.And(st.pc, ex, fits), ok), at, "a known identifier is removed")
		})
		// removing a track
		at = p.at(method(p, n, "RemoveTrack"))
		r.guard("totals", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, args, st0, st, ok := s.run("RemoveTrack")
			pc := c.And(st.pc, ok)
			s.refreshed(r, at, "removing a track", st0, st, pc)
			s.same(r, "unchanged", at, st, c.And(st.pc, c.Not(ok)), "removing an unknown track")
			n0 := s.o(st0, "NumRoutes")
			k := ev.kap("route")
			in := inRangeOf(c, k, n0)
			has := ev.simp(c.EqAny(s.of(st0, rt, "ID", ev.simp(s.o(st0, "RouteAt", k), in)), args[1]), in)
			ex, ri := c.First(c.Bind(has, k), n0)
			pc = c.And(pc, ex)
			R := ev.simp(s.o(st0, "RouteAt", ri), pc)
			r.Ob("totals", s.tracksAddUp(pc, st0, st, R), at, "after removing a track the route's distance is %s, which is not the sum over its tracks", clip(ev.simp(s.of(st, rt, "Distance", R), pc).String(), 300))
			t0, t1 := s.of(st0, rt, "NumTracks", R), s.of(st, rt, "NumTracks", R)
			j := ev.kap("track")
			inT := c.And(pc, inRangeOf(c, j, t0))
			hasT := ev.simp(c.EqAny(s.of(st0, tt, "ID", ev.simp(s.of(st0, rt, "TrackAt", R, j), inT)), args[2]), inT)
			exT, ti := c.First(c.Bind(hasT, j), t0)
			s.removed(r, at, "RemoveTrack", c.And(pc, exT), t0, t1, ti, func(i *Term) (*Term, *Term) {
				return s.of(st0, rt, "TrackAt", R, i), s.of(st, rt, "TrackAt", R, i)
			})
			r.Ob("list", ev.eqUnder(pc, s.o(st, "NumRoutes"), n0, tInt), at, "removing a track keeps the routes")
		})
		// adding routes
		at = p.at(method(p, n, "AddRoute"))
		for cnt := int64(1); cnt <= 2; cnt++ {
			cnt := cnt
			r.guard("totals", at, func() {
				s := newSubject(p, sub[0], sub[1])
				ev, c := s.ev, s.ev.c
				defer func() { r.use(s.ev) }()
				args, st0, st, err := s.runIn("AddRoute", func(args []*Term, st0 *State) *Term {
					return c.EqNum(c.Len(args[1]), c.Int(cnt))
				})
				n0, n1 := s.o(st0, "NumRoutes"), s.o(st, "NumRoutes")
				r.Ob("list", ev.entails(st.pc, c.Eq(err, c.Nil)), at, "adding routes succeeds")
				pc := c.And(st.pc, c.Not(c.EqNum(n0, n1)))
				s.refreshed(r, at, "adding a route", st0, st, pc)
				nav := mustType(p, "navigator", "Navigator")
				var chg []change
				for _, ch := range ev.diffs(st, c.And(st.pc, c.EqNum(n0, n1))) {
					// the reported state may be refreshed
					if baseOf(ch.addr, func(t *Term) bool { return isPtrTo(t, nav) }) != nil && !ev.lazyMap(st, ch) && baseOf(ch.addr, func(t *Term) bool { return isPtrTo(t, rt) }) == nil {
						chg = append(chg, ch)
					}
				}
				r.Ob("unchanged", len(chg) == 0, at, "adding nil or known routes changes nothing: %s", showChanges(chg))
				i := ev.bound("old place", c.Int(0), n0)
				x := c.And(st.pc, i.in)
				r.Ob("list", ev.eqUnder(x, s.o(st, "RouteAt", i.t), s.o(st0, "RouteAt", i.t), nil), at, "adding keeps the earlier routes: %s", clip(ev.simp(s.o(st, "RouteAt", i.t), x).String(), 200))
				if cnt == 2 {
					a, b := ev.Load(st0, c.Idx(args[1], c.Int(0)), types.NewPointer(rt)), ev.Load(st0, c.Idx(args[1], c.Int(1)), types.NewPointer(rt))
					k := ev.kap("route")
					in := c.And(inRangeOf(c, k, n0), c.Not(c.Eq(b, c.Nil)))
					dup := ev.simp(c.EqAny(s.of(st0, rt, "ID", ev.simp(s.o(st0, "RouteAt", k), in)), s.of(st0, rt, "ID", b)), in)
					ex, _ := c.First(c.Bind(dup, k), n0)
					known := c.Or(c.Eq(b, c.Nil), ex, c.And(c.Not(c.Eq(a, c.Nil)), c.EqAny(s.of(st0, rt, "ID", a), s.of(st0, rt, "ID", b))))
					one := c.Add(n0, c.Int(1))
					r.Ob("list", ev.entails(c.And(st.pc, known), c.Le(n1, one)), at, "a second route that is nil or known is not added: %s routes", clip(ev.simp(n1, c.And(st.pc, known)).String(), 200))
					x := c.And(st.pc, c.Not(known))
					last := ev.simp(s.o(st, "RouteAt", c.Sub(n1, c.Int(1))), x)
					r.Ob("list", ev.entails(x, c.Le(one, n1)) && ev.eqUnder(x, last, b, nil), at, "a second route that is new comes last: %s", clip(last.String(), 200))
				}
				if cnt == 1 {
					a := ev.Load(st0, c.Idx(args[1], c.Int(0)), types.NewPointer(rt))
					k := ev.kap("route")
					in := c.And(inRangeOf(c, k, n0), c.Not(c.Eq(a, c.Nil)))
					dup := ev.simp(c.EqAny(s.of(st0, rt, "ID", ev.simp(s.o(st0, "RouteAt", k), in)), s.of(st0, rt, "ID", a)), in)
					ex, _ := c.First(c.Bind(dup, k), n0)
					fresh := c.And(st.pc, c.Not(c.Eq(a, c.Nil)), c.Not(ex))
					r.Ob("list", ev.eqUnder(fresh, n1, c.Add(n0, c.Int(1)), tInt), at, "a new route is added: %s routes", clip(ev.simp(n1, fresh).String(), 200))
					r.Ob("list", ev.eqUnder(fresh, s.o(st, "RouteAt", n0), a, nil), at, "the new route comes last: %s", clip(ev.simp(s.o(st, "RouteAt", n0), fresh).String(), 200))
					r.Ob("list", ev.eqUnder(c.And(st.pc, c.Or(c.Eq(a, c.Nil), ex)), n1, n0, tInt), at, "nil and known routes are not added")
				}
			})
		}
		r.guard("list", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, _, st, err := s.runIn("AddRoute", func(args []*Term, st0 *State) *Term { return c.EqNum(c.Len(args[1]), c.Int(0)) })
			r.Ob("list", ev.entails(st.pc, c.Not(c.Eq(err, c.Nil))), at, "adding no routes is an error")
			s.same(r, "unchanged", at, st, st.pc, "adding no routes")
		})
		// any number of routes
		r.guard("totals", at, func() {
			s := newSubject(p, sub[0], sub[1])
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, args, st0, st, _ := s.run("AddRoute")
			got := s.o(st, "Distance")
			pc := c.And(st.pc, c.Not(c.EqNum(got, s.o(st0, "Distance"))), c.Lt(c.Int(2), c.Len(args[1])))
			r.Ob("totals", s.routesAddUp(pc, st0, st), at, "after adding routes the total distance is %s, which is not the sum over the routes", clip(ev.simp(got, pc).String(), 250))
		})
	}
	// routes and tracks by themselves
	snapOf := map[string]string{"Route": "Snapshot_Navigator_Route", "Track": "Snapshot_Navigator_Route_Track"}
	for _, q := range []struct {
		n  *types.Named
		op string
	}{{rt, "AddTrack"}, {rt, "RemoveTrack"}, {rt, "ChangeName"}, {rt, "ChangeColor"}, {tt, "ChangeName"}, {tt, "ChangeColor"}} {
		q := q
		at := p.at(method(p, q.n, q.op))
		r.guard("version", at, func() {
			s := &subject{ev: session(p), p: p, n: q.n}
			ev, c := s.ev, s.ev.c
			defer func() { r.use(s.ev) }()
			_, args, st0, st, res := s.run(q.op)
			var pc *Term
			switch {
			case q.op == "AddTrack":
				pc = c.And(st.pc, c.Not(c.Eq(args[1], c.Nil)))
			case res != nil && res.op != "" && q.op == "RemoveTrack":
				pc = c.And(st.pc, res)
			default:
				pc = c.And(st.pc, c.Eq(res, c.Nil))
			}
			s.same(r, "unchanged", at, st, c.And(st.pc, c.Not(pc)), "a refused "+q.op)
			snap := snapOf[q.n.Obj().Name()]
			v0, v1 := s.snapVersion(st0, q.n, snap, s.self), s.snapVersion(st, q.n, snap, s.self)
			r.Ob("version", ev.sat(pc, 2000) && ev.entails(pc, c.Lt(v0, v1)), at, "%s increases the version: %s", q.op, clip(ev.simp(v1, pc).String(), 200))
			if !strings.HasSuffix(q.op, "Track") {
				return
			}
			r.Ob("totals", s.tracksAddUp(pc, st0, st, s.self), at, "after %s the route's distance is %s, which is not the sum over its tracks", q.op, clip(ev.simp(s.o(st, "Distance"), pc).String(), 300))
			n0, n1 := s.o(st0, "NumTracks"), s.o(st, "NumTracks")
			if q.op == "AddTrack" {
				r.Ob("list", ev.eqUnder(pc, n1, c.Add(n0, c.Int(1)), tInt) && ev.eqUnder(pc, s.o(st, "TrackAt", n0), args[1], nil), at, "the new track comes last")
				i := ev.bound("old place", c.Int(0), n0)
				x := c.And(pc, i.in)
				r.Ob("list", ev.eqUnder(x, s.o(st, "TrackAt", i.t), s.o(st0, "TrackAt", i.t), nil), at, "adding keeps the earlier tracks")
				return
			}
			k := ev.kap("track")
			in := inRangeOf(c, k, n0)
			has := ev.simp(c.EqAny(s.of(st0, tt, "ID", ev.simp(s.o(st0, "TrackAt", k), in)), args[1]), in)
			ex, ti := c.First(c.Bind(has, k), n0)
			s.removed(r, at, "RemoveTrack", c.And(pc, ex), n0, n1, ti, func(i *Term) (*Term, *Term) { return s.o(st0, "TrackAt", i), s.o(st, "TrackAt", i) })
			r.Ob("list", ev.entails(pc, ex), at, "a removal is reported only for a known identifier")
		})
	}
}

// removed: the element at place k is gone, all others keep their order.
func (s *subject) removed(r *Report, at, what string, pc, n0, n1, k *Term, get func(i *Term) (before, after *Term)) {
	ev, c := s.ev, s.ev.c
	one := c.Int(1)
	r.Ob("list", ev.eqUnder(pc, n1, c.Sub(n0, one), tInt), at, "%s removes one element: %s left", what, clip(ev.simp(n1, pc).String(), 200))
	i := ev.bound("place", c.Int(0), c.Sub(n0, one))
	x := c.And(pc, i.in, c.Lt(i.t, k))
	b, a := get(i.t)
	r.Ob("list", ev.eqUnder(x, a, b, nil), at, "%s keeps the elements before: %s", what, clip(ev.simp(a, x).String(), 200))
	x = c.And(pc, i.in, c.Le(k, i.t))
	b, _ = get(c.Add(i.t, one))
	r.Ob("list", ev.eqUnder(x, a, b, nil), at, "%s moves up the elements after: %s, expected %s", what, clip(ev.simp(a, x).String(), 200), clip(ev.simp(b, x).String(), 200))
}
