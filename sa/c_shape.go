package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// L01: a track's shape is what its points say.

func init() {
	register("L01", "value-flow analysis (gated SSA value numbering of constructors and observers)", "Every constructor of a track from points is evaluated for an arbitrary list of points; number, end points, index, length, bearing and link of an arbitrary segment, the length of the track and its closedness, as the public observers and the snapshot report them, are compared as values with what the points require. Lengths and bearings are compared with the library's own Distance and Bearing of the two end points.", checkL01)
}

func checkL01(p *Prog, r *Report) {
	r.Rule("segments", 4, "one segment per consecutive pair of points, at least two points")
	r.Rule("segment", 12, "segment i joins points i and i+1, with their bearing and distance")
	r.Rule("link", 4, "consecutive segments are linked")
	r.Rule("length", 2, "the length of a track is the sum of its segments")
	r.Rule("closed", 4, "a track is closed exactly when it has at least three points and its first and last point are the same")
	tt, sg, pt := mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment"), mustType(p, "geo", "LatLonPoint")
	dist, bear := mustFunc(p, "geo", "Distance"), mustFunc(p, "geo", "Bearing")
	for _, f := range exportedOf(p, "navigator") {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || res.Len() != 2 || !types.Identical(res.At(0).Type(), types.NewPointer(tt)) {
			continue
		}
		k := -1
		for i, a := range f.Params {
			if s, ok := a.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), pt) {
				k = i
			}
		}
		if k < 0 {
			continue
		}
		at := p.at(f)
		r.guard("segments", at, func() { trackShape(p, r, f, k, at, tt, sg, pt, dist, bear) })
	}
}

func trackShape(p *Prog, r *Report, f *ssa.Function, k int, at string, tt, sg, pt *types.Named, dist, bear *ssa.Function) {
	ev := openSession(p)
	c := ev.c
	args := ev.argSyms(f)
	pts := args[k]
	st0 := ev.NewState()
	pre := st0.clone()
	st, v := ev.Call(f, args, nil, st0, nil, "")
	pc := c.And(st.pc, c.EqAny(v[1], c.Nil))
	n := c.Len(pts)
	point := func(i *Term, fld string) *Term { return ev.Load(pre, c.Fld(c.Idx(pts, i), fld), tFloat) }
	call := func(g *ssa.Function, a ...*Term) *Term {
		var out *Term
		ev.quietly(func() {
			_, vals := ev.Call(g, a, nil, pre.clone(), nil, "?")
			out = vals[0]
		})
		return out
	}
	few := c.And(st.pc, c.Lt(n, num(ev, 2)))
	r.Ob("segments", c.Restrict(c.EqAny(v[1], c.Nil), few) == c.False, at, "fewer than two points are refused: %s", clip(c.Restrict(v[1], few).String(), 200))
	s := &subject{ev, p, tt, v[0]}
	r.Ob("segments", c.Restrict(c.EqAny(v[0], c.Nil), pc) == c.False, at, "an accepted track exists")
	num1 := ev.simp(s.o(st, "NumSegments"), pc)
	r.Ob("segments", ev.eqUnder(pc, num1, c.Sub(n, num(ev, 1)), tInt), at, "n points make %s segments", clip(num1.String(), 200))
	i := ev.sym("i", tInt)
	in := c.And(pc, inRangeOf(c, i, c.Sub(n, num(ev, 1))))
	seg := ev.simp(s.o(st, "SegmentAt", i), in)
	next := c.Add(i, num(ev, 1))
	a, b := []*Term{point(i, "Lat"), point(i, "Lon")}, []*Term{point(next, "Lat"), point(next, "Lon")}
	o := func(name string) *Term { return ev.simp(s.of(st, sg, name, seg), in) }
	same := func(what string, got, want *Term, ty types.Type) {
		r.Ob("segment", ev.eqUnder(in, got, want, ty), at, "%s of segment i is %s, should be %s", what, clip(got.String(), 200), clip(want.String(), 200))
	}
	same("index", o("Index"), i, tInt)
	for j, fld := range []string{"Lat", "Lon"} {
		same("start "+fld, c.Field(o("PointA"), fld), a[j], tFloat)
		same("end "+fld, c.Field(o("PointB"), fld), b[j], tFloat)
	}
	d := call(dist, a[0], a[1], b[0], b[1])
	same("distance", o("Distance"), d, tFloat)
	same("bearing", o("Bearing"), call(bear, a[0], a[1], b[0], b[1]), tFloat)
	rel := ev.snapOf(p, st, sg, seg, "Rel", in)
	lone := c.And(in, c.EqNum(n, num(ev, 2)))
	more := c.And(in, c.Lt(num(ev, 2), n))
	r.Ob("link", ev.eqUnder(more, rel, i, tInt), at, "segment i of several is linked by %s", clip(c.Restrict(rel, more).String(), 200))
	r.Ob("link", ev.eqUnder(lone, rel, num(ev, -1), tInt), at, "a lone segment is linked by %s", clip(c.Restrict(rel, lone).String(), 200))
	total := ev.simp(s.o(st, "Distance"), pc)
	kap := ev.kap("seg")
	kn := c.Add(kap, num(ev, 1))
	want := c.Sum(c.Bind(call(dist, point(kap, "Lat"), point(kap, "Lon"), point(kn, "Lat"), point(kn, "Lon")), kap), c.Sub(n, num(ev, 1)))
	r.Ob("length", ev.eqUnder(pc, total, want, tFloat), at, "the length is %s, should be %s", clip(total.String(), 300), clip(want.String(), 300))
	closed := ev.simp(s.o(st, "IsClosed"), pc)
	last := c.Sub(n, num(ev, 1))
	eq := c.True
	for _, fld := range []string{"Lat", "Lon"} {
		eq = c.And(eq, c.EqAny(point(num(ev, 0), fld), point(last, fld)))
	}
	few, many := c.And(pc, c.Lt(n, num(ev, 3))), c.And(pc, c.Le(num(ev, 3), n))
	r.Ob("closed", ev.eqUnder(few, closed, c.False, tBool), at, "a track of two points is closed: %s", clip(c.Restrict(closed, few).String(), 200))
	r.Ob("closed", ev.eqUnder(many, closed, eq, tBool), at, "a track is closed when %s", clip(c.Restrict(closed, many).String(), 300))
	r.use(ev)
}

// snapOf is a field of the snapshot of x.
func (ev *Ev) snapOf(p *Prog, st *State, n *types.Named, x *Term, field string, pc *Term) *Term {
	f := method(p, n, "Snapshot")
	var out *Term
	ev.quietly(func() {
		s2, vals := ev.Call(f, []*Term{x}, nil, st.clone(), nil, "?")
		m := types.Unalias(types.Unalias(f.Signature.Results().At(0).Type()).(*types.Pointer).Elem()).(*types.Named)
		out, _ = ev.ptField(s2, vals[0], m, field)
	})
	return ev.simp(out, pc)
}
