package main

import (
	"slices"

	"golang.org/x/tools/go/ssa"
)

// N05: a jump to a distance lands on the matching place.

func init() {
	register("N05", "value-flow analysis with inductive loop summaries (gated SSA value numbering)", "The jump is evaluated for an arbitrary navigator and distance, its search loops summarised as the first element that satisfies the exit test and prefix sums up to it; the distances, indices and location that the public observers then report are compared as values with what the target distance requires. That prefix sums do not exceed the target is proved by induction over the search loops.", checkN05)
}

func checkN05(p *Prog, r *Report) {
	r.Rule("refused", 4, "a jump to less than a metre is refused, and a refused jump changes nothing")
	r.Rule("served", 4, "a jump of a metre or more is refused only if an element on the way is missing or has no length")
	r.Rule("target", 2, "the travelled distance is the target, at most the total length")
	r.Rule("sums", 6, "the travelled distances are those of the elements passed and the rest on the current segment")
	r.Rule("rest", 4, "the rest lies on the current segment")
	r.Rule("place", 2, "the location is that of the rest on the current segment")
	f := method(p, mustType(p, "navigator", "Navigator"), "DestinationTo")
	at := p.at(f)
	for _, beyond := range []bool{false, true} {
		r.guard("target", at, func() { jumpTo(p, r, f, at, beyond) })
	}
}

func jumpTo(p *Prog, r *Report, f *ssa.Function, at string, beyond bool) {
	s := newSubject(p, "navigator", "Navigator")
	ev, c := s.ev, s.ev.c
	c.splitSums = true
	how := "to a distance within the journey"
	if beyond {
		how = "beyond the end"
	}
	args, st0, st, ok := s.runIn("DestinationTo", func(a []*Term, st0 *State) *Term {
		d := s.o(st0, "Distance")
		if beyond {
			return c.Lt(d, a[1])
		}
		return c.Le(a[1], d)
	})
	target := args[1]
	if beyond {
		target = s.o(st0, "Distance")
	}
	short := c.And(st.pc, c.Lt(target, num(ev, 1)))
	r.Ob("refused", !ev.feasible(c.And(short, ok)), at, "a jump %s of less than a metre is accepted: %s", how, clip(c.Restrict(ok, short).String(), 200))
	ind := &induct{ev: ev}
	no := c.And(st.pc, c.Le(num(ev, 1), target), c.Not(ok))
	no = c.And(no, ind.searches(no))
	no = c.And(no, ind.present(no))
	r.Ob("served", !ev.feasible(no), at, "a jump %s of a metre or more is refused: %s", how, clip(ev.must(no).String(), 300))
	s.same(r, "refused", at, st, c.And(st.pc, c.Not(ok)), "a refused jump "+how)

	acc := c.And(st.pc, ok)
	acc = c.And(acc, ind.searches(acc))
	r.Ob("served", ev.sat(acc, 2000), at, "no jump %s is accepted", how)
	for _, acc := range ind.cases(acc, 4) {
		s.jumped(r, ind, at, how, st, acc, target)
	}
	r.use(ev)
}

// jumped: what the observers report after an accepted jump.
func (s *subject) jumped(r *Report, ind *induct, at, how string, st *State, acc, target *Term) {
	ev, c, p := s.ev, s.ev.c, s.p
	get := func(name string) *Term { return ev.simp(s.o(st, name), acc) }
	ri, ti, si := get("RouteIndex"), get("TrackIndex"), get("SegmentIndex")
	cd, cr, ct, cs := get("CurrentDistance"), get("CurrentRouteDistance"), get("CurrentTrackDistance"), get("CurrentSegmentDistance")
	acc = c.And(acc, ind.searches(c.And(acc, c.Eq(ri, c.Int(0)), c.Eq(ti, c.Int(0)), c.Eq(si, c.Int(0)), c.Le(cd, cs))))
	below := ind.below(acc, cs, cd)
	acc = c.And(acc, below)
	cd, cs = ev.simp(cd, acc), ev.simp(cs, acc)

	// the elements the indices denote
	here := s.at(st, ri, ti, si)
	acc = c.And(acc, here.ok)
	rt, tt, sg := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	list := func(name string, n *Term, elem func(k *Term) *Term) *Term {
		k := ev.kap(name)
		return c.Bind(ev.simp(elem(k), c.And(acc, inRangeOf(c, k, n))), k)
	}
	nr, nt, ns := get("NumRoutes"), ev.simp(s.of(st, rt, "NumTracks", here.route), acc), ev.simp(s.of(st, tt, "NumSegments", here.track), acc)
	routes := list("a route", nr, func(k *Term) *Term { return s.of(st, rt, "Distance", s.o(st, "RouteAt", k)) })
	tracks := list("a track", nt, func(k *Term) *Term {
		return s.of(st, tt, "Distance", s.of(st, rt, "TrackAt", here.route, k))
	})
	segs := list("a segment", ns, func(k *Term) *Term {
		return s.of(st, sg, "Distance", s.of(st, tt, "SegmentAt", here.track, k))
	})
	// totals are sums (N04)
	for _, l := range []struct{ total, lam, n, k *Term }{
		{s.o(st, "Distance"), routes, nr, ri},
		{s.of(st, rt, "Distance", here.route), tracks, nt, ti},
		{s.of(st, tt, "Distance", here.track), segs, ns, si},
	} {
		acc = c.And(acc, c.EqNum(l.total, c.Sum(l.lam, l.n)))
		acc = c.And(acc, c.Or(c.Not(c.EqNum(l.k, c.Sub(l.n, c.Int(1)))), c.EqNum(c.Sum(l.lam, l.n), c.Add(c.Sum(l.lam, l.k), c.Inst(l.lam, l.k)))))
	}
	segDist := s.of(st, sg, "Distance", here.seg)
	acc = c.And(acc, ind.searches(c.And(acc, c.Le(cs, segDist))))

	r.Ob("target", ev.eqUnder(acc, cd, target, tFloat), at, "after a jump %s the travelled distance is %s", how, clip(cd.String(), 300))
	eq := func(what string, got, want *Term) {
		r.Ob("sums", ev.eqUnder(acc, got, want, tFloat), at, "after a jump %s the distance on the %s is %s, not %s", how, what, clip(got.String(), 300), clip(want.String(), 300))
	}
	eq("track", ct, c.Add(cs, c.Sum(segs, si)))
	eq("route", cr, c.Add(ct, c.Sum(tracks, ti)))
	eq("journey", cd, c.Add(cr, c.Sum(routes, ri)))
	r.Ob("rest", ev.entails(acc, c.Le(num(ev, 0), cs)), at, "after a jump %s the distance on the segment may be negative: %s", how, clip(cs.String(), 300))
	r.Ob("rest", ev.entails(acc, c.Le(cs, segDist)), at, "after a jump %s the distance on the segment may exceed its length: %s", how, clip(cs.String(), 300))
	point := method(p, mustType(p, "navigator", "Navigator"), "Location")
	loc := s.o(st, "Location")
	want := s.of(st, sg, "DestinationTo", here.seg, cs)
	r.Ob("place", ev.eqUnder(acc, loc, want, point.Signature.Results().At(0).Type()), at, "after a jump %s the location is %s", how, clip(ev.simp(loc, acc).String(), 300))
}

// induct derives what holds after a search loop.
type induct struct {
	ev *Ev
}

// searches: an index that was found satisfies the test, and one is found if
// the last place would do.
func (d *induct) searches(t *Term) *Term {
	c := d.ev.c
	out := c.True
	walkTerms(t, func(t *Term) {
		if (t.op == "first" || t.op == "exists") && len(t.args) == 2 && len(t.free()) == 0 {
			lam, n := t.args[0], t.args[1]
			some, k := c.First(lam, n)
			last := c.Sub(n, c.Int(1))
			out = c.And(out, c.Or(c.Not(some), c.And(inRangeOf(c, k, n), c.Inst(lam, k))))
			out = c.And(out, c.Or(some, c.Le(n, c.Int(0)), c.Not(c.Inst(lam, last))))
		}
	})
	return out
}

// cases tells searches that find something from those that find nothing.
func (d *induct) cases(pc *Term, depth int) []*Term {
	ev, c := d.ev, d.ev.c
	for _, a := range ev.atomsOf(pc) {
		if g := c.atomB(a); a.op == "exists" && depth > 0 {
			in, not := c.And(pc, g), c.And(pc, c.Not(g))
			switch {
			case in == c.False || not == c.False:
			case !ev.sat(in, 2000):
				return d.cases(not, depth-1)
			case !ev.sat(not, 2000):
				return d.cases(in, depth-1)
			default:
				return append(d.cases(in, depth-1), d.cases(not, depth-1)...)
			}
		}
	}
	return []*Term{pc}
}

// present: no list that t asks about is empty and no length is zero.
func (d *induct) present(t *Term) *Term {
	c := d.ev.c
	out := c.True
	for _, a := range d.ev.atomsOf(t) {
		ms := c.monosOf(atomArg(a))
		if len(ms) == 0 || len(ms[0].fs) != 1 {
			continue
		}
		x := ms[0].fs[0]
		switch {
		case x.op == "len" && len(ms) <= 2:
			out = c.And(out, c.Lt(c.Int(0), x))
		case a.op == "eq0" && x.op == "ini" && !x.isInt && len(ms) == 1:
			out = c.And(out, c.Not(c.EqNum(x, num(d.ev, 0))))
		}
	}
	return out
}

func atomArg(a *Term) *Term {
	if a.op == "eq0" || a.op == "le0" || a.op == "lt0" {
		return a.args[0]
	}
	return a
}

// below: the prefix sums that a search compares with something stay within
// it up to the place that is found.
func (d *induct) below(acc *Term, about ...*Term) *Term {
	ev, c := d.ev, d.ev.c
	var ks []*Term
	for _, t := range append([]*Term{acc}, about...) {
		walkTerms(t, func(t *Term) {
			if t.op == "first" && len(t.args) == 2 && len(t.free()) == 0 && !slices.Contains(ks, t) {
				ks = append(ks, t)
			}
		})
	}
	out := c.True
	known := map[int]bool{}
	for round := 0; round < len(ks)+1; round++ {
		more := false
		for _, k := range ks {
			lam, n := k.args[0], k.args[1]
			bv := lam.args[0]
			some, _ := c.First(lam, n)
			for _, a := range ev.atomsOf(lam.args[1]) {
				for _, sign := range []int64{1, -1} {
					inv := d.candidate(a, bv, sign)
					if inv == nil {
						continue
					}
					at := func(x *Term) *Term { return c.Le(num(ev, 0), c.Subst(inv, map[int]*Term{bv.id: x})) }
					fact := c.And(c.Or(c.Not(some), at(k)), c.Or(some, c.Lt(n, c.Int(0)), at(n)))
					if known[fact.id] || fact == c.True {
						continue
					}
					j := ev.kap("step")
					pc := c.And(acc, out)
					if !ev.entails(pc, at(c.Int(0))) {
						continue
					}
					next := d.next(inv, bv, j)
					if !ev.entails(c.And(pc, inRangeOf(c, j, n), c.Not(c.Inst(lam, j)), at(j)), c.Le(num(ev, 0), next)) {
						continue
					}
					known[fact.id] = true
					out = c.And(out, fact)
					more = true
				}
			}
		}
		if !more {
			break
		}
	}
	return out
}

// candidate is the bound that the comparison a puts on prefix sums: what it
// compares them with minus the sums, without the element at hand.
func (d *induct) candidate(a, bv *Term, sign int64) *Term {
	c := d.ev.c
	if (a.op != "le0" && a.op != "lt0") || !a.contains(bv) || a.args[0].isInt {
		return nil
	}
	out, sums := num(d.ev, 0), false
	for _, m := range c.monosOf(a.args[0]) {
		t := c.fromMonos([]mono{m}, false)
		if t.contains(bv) {
			if len(m.fs) != 1 || m.fs[0].op != "sum" || m.fs[0].args[1] != bv || m.fs[0].args[0].contains(bv) {
				continue
			}
			sums = true
		}
		out = c.Add(out, c.Mul(c.Int(sign), t))
	}
	if !sums {
		return nil
	}
	return out
}

// next is inv for the index after j.
func (d *induct) next(inv, bv, j *Term) *Term {
	c := d.ev.c
	out := c.Subst(inv, map[int]*Term{bv.id: j})
	for _, m := range c.monosOf(inv) {
		if len(m.fs) == 1 && m.fs[0].op == "sum" && m.fs[0].args[1] == bv {
			out = c.Add(out, c.Mul(c.numRat(m.c, false), c.Inst(m.fs[0].args[0], j)))
		}
	}
	return out
}
