package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// K01: value curves honour range and mode.

func init() {
	register("K01", "gated SSA value numbering with polynomial normal forms (abstract evaluation of all draws at once)", "Curve creation and reshuffling are evaluated for arbitrary ranges, modes, sizes and draws: every control value is entailed to lie between minimum and maximum, the first or last to be the minimum in start and end mode. For curves of up to 8 control points the weights and the value at every progress are compared, as polynomials, with the Bernstein combination of the control values. Evaluation is shown not to change range, mode or control values, and sensors, speeds and the navigator to create their curve with their own range and mode.", checkK01)
}

// curveView reads a curve through its snapshot.
type curveView struct {
	ev  *Ev
	st  *State
	s   *Term
	pts *Term
}

func viewCurve(p *Prog, ev *Ev, st *State, x *Term) *curveView {
	v := &curveView{ev: ev}
	ev.quietly(func() {
		s2, vals := ev.Call(method(p, mustType(p, "curve", "Curve"), "Snapshot"), []*Term{x}, nil, st.clone(), nil, "?")
		v.st, v.s = s2, vals[0]
		v.pts, _ = ev.ptField(s2, v.s, mustType(p, "proto", "Snapshot_Curve"), "Points")
	})
	return v
}

func (v *curveView) field(p *Prog, name string) *Term {
	t, _ := v.ev.ptField(v.st, v.s, mustType(p, "proto", "Snapshot_Curve"), name)
	return t
}

func (v *curveView) n() *Term { return v.ev.c.Len(v.pts) }

// at is a coordinate such as "Cp.Y" of control point i.
func (v *curveView) at(p *Prog, i *Term, path string) *Term {
	n := mustType(p, "proto", "Snapshot_Curve_ControlPoint")
	pt := v.ev.Load(v.st, v.ev.c.Idx(v.pts, i), types.NewPointer(n))
	t, _ := v.ev.ptField(v.st, pt, n, path)
	return t
}

func checkK01(p *Prog, r *Report) {
	r.Rule("range", 2, "every control value lies between minimum and maximum")
	r.Rule("mode", 4, "start mode starts and end mode ends at the minimum")
	r.Rule("kept", 6, "a curve keeps its range, mode and number of control points")
	r.Rule("weights", 20, "control values carry their binomial weights")
	r.Rule("value", 6, "the value of a curve is the Bernstein combination of its control values")
	r.Rule("pure", 5, "evaluating a curve changes neither range nor mode nor control values")
	r.Rule("ends", 4, "at progress 0 and 1 a curve returns its first and last control value")
	r.Rule("owner", 8, "a sensor, a speed and the navigator create their curve with their own range and mode")
	cur := mustType(p, "curve", "Curve")
	mk, shuf, point := mustFunc(p, "curve", "New"), method(p, cur, "Shuffle"), method(p, cur, "Point")
	pkg := "curve"
	bit := func(ev *Ev, mode *Term, ty types.Type, name string) *Term {
		k := ev.pkgConst(pkg, name)
		return ev.c.Not(ev.c.EqNum(ev.bitAnd(mode, k, ty), num(ev, 0)))
	}
	// coordinates of a curve.Point value
	coord := func(ev *Ev, v *Term, f string) *Term { return ev.c.Field(v, f) }
	// a new curve; n<0 leaves the number of control points open
	create := func(ev *Ev, n int) (*State, *Term, *Term, []*Term) {
		args := ev.argSyms(mk)
		c := ev.c
		if n >= 0 {
			args[2] = num(ev, int64(n))
		}
		st, v := ev.Call(mk, args, nil, ev.NewState(), nil, "")
		pc := c.And(st.pc, c.Le(args[0], args[1]))
		return st, pc, v[0], args
	}
	rules := func(ev *Ev, st *State, pc, x, min, max, mode *Term, ty types.Type, at string) {
		c := ev.c
		v := viewCurve(p, ev, st, x)
		i := ev.sym("i", tInt)
		in := c.And(pc, c.And(c.Le(num(ev, 0), i), c.Lt(i, v.n())))
		y := v.at(p, i, "Vp.Y")
		inRange(r, ev, "range", at, c.And(in, drawn(ev, c.Restrict(y, in), c.Sub(max, min))), rng{"control value", y, min, max})
		some := c.And(pc, c.Lt(num(ev, 0), v.n()))
		first := v.at(p, num(ev, 0), "Vp.Y")
		last := v.at(p, c.Sub(v.n(), num(ev, 1)), "Vp.Y")
		start, end := bit(ev, mode, ty, "ModeMinStart"), bit(ev, mode, ty, "ModeMinEnd")
		r.Ob("mode", ev.eqUnder(c.And(some, start), first, min, tFloat), at, "the first control value in start mode is %s", clip(c.Restrict(first, c.And(some, start)).String(), 200))
		r.Ob("mode", ev.eqUnder(c.And(some, end), last, min, tFloat), at, "the last control value in end mode is %s", clip(c.Restrict(last, c.And(some, end)).String(), 200))
	}
	r.guard("range", p.at(mk), func() {
		ev := session(p)
		st, pc, x, a := create(ev, -1)
		rules(ev, st, pc, x, a[0], a[1], a[3], mk.Params[3].Type(), p.at(mk))
		v := viewCurve(p, ev, st, x)
		for f, w := range map[string]*Term{"Min": a[0], "Max": a[1], "Mode": a[3]} {
			got := v.field(p, f)
			r.Ob("kept", ev.eqUnder(pc, got, w, tFloat), p.at(mk), "%s of a new curve is %s", f, clip(got.String(), 200))
		}
		r.use(ev)
	})
	r.guard("range", p.at(shuf), func() {
		ev := session(p)
		c := ev.c
		x := ev.ptrSym("c", cur)
		st0 := ev.NewState()
		v0 := viewCurve(p, ev, st0, x)
		min, max, mode := v0.field(p, "Min"), v0.field(p, "Max"), v0.field(p, "Mode")
		st, _ := ev.Call(shuf, []*Term{x}, nil, st0, nil, "")
		pc := c.And(st.pc, c.Le(min, max))
		rules(ev, st, pc, x, min, max, mode, tInt, p.at(shuf))
		v := viewCurve(p, ev, st, x)
		for f, w := range map[string]*Term{"Min": min, "Max": max, "Mode": mode} {
			got := v.field(p, f)
			r.Ob("kept", ev.eqUnder(pc, got, w, tFloat), p.at(shuf), "%s of a reshuffled curve is %s", f, clip(got.String(), 200))
		}
		r.Ob("kept", ev.eqUnder(pc, v.n(), v0.n(), tInt), p.at(shuf), "a reshuffled curve has %s control points", clip(v.n().String(), 200))
		r.use(ev)
	})
	// weights and values for small curves
	binom := func(n, k int) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Binomial(int64(n), int64(k))) }
	for _, again := range []bool{false, true} {
		at := p.at(mk)
		if again {
			at = p.at(shuf)
		}
		for _, n := range []int{2, 4, 5, 7} {
			r.guard("weights", at, func() {
				ev := session(p)
				ev.peel = n + 2
				c := ev.c
				st, pc, x, _ := create(ev, n)
				if again {
					st, _ = ev.Call(shuf, []*Term{x}, nil, st, nil, "again")
					pc = c.And(pc, st.pc)
				}
				v := viewCurve(p, ev, st, x)
				r.Ob("kept", ev.eqUnder(pc, v.n(), num(ev, int64(n)), tInt), at, "a curve of %d control points has %s", n, clip(v.n().String(), 100))
				var ys, xs []*Term
				for i := 0; i < n; i++ {
					k := num(ev, int64(i))
					w := c.numRat(binom(n-1, i), false)
					for _, co := range []string{"X", "Y"} {
						vp, cp := v.at(p, k, "Vp."+co), v.at(p, k, "Cp."+co)
						if co == "X" {
							xs = append(xs, vp)
						} else {
							ys = append(ys, vp)
						}
						r.Ob("weights", ev.eqUnder(pc, cp, c.Mul(vp, w), tFloat), at, "control point %d of %d: weighted %s is %s for value %s", i, n, co, clip(c.Restrict(cp, pc).String(), 200), clip(c.Restrict(vp, pc).String(), 100))
					}
				}
				if n > 7 {
					r.use(ev)
					return
				}
				t := ev.sym("t", tFloat)
				_, res := ev.Call(point, []*Term{x, t}, nil, st.clone(), nil, "eval")
				for co, cs := range map[string][]*Term{"X": xs, "Y": ys} {
					want := num(ev, 0)
					for i, cv := range cs {
						b := c.numRat(binom(n-1, i), false)
						for j := 0; j < i; j++ {
							b = c.Mul(b, t)
						}
						for j := i; j < n-1; j++ {
							b = c.Mul(b, c.Sub(num(ev, 1), t))
						}
						want = c.Add(want, c.Mul(b, cv))
					}
					got := coord(ev, res[0], co)
					r.Ob("value", ev.eqUnder(pc, got, want, tFloat), p.at(point), "%s of a curve of %d control points at progress t is %s", co, n, clip(c.Restrict(got, pc).String(), 300))
				}
				r.use(ev)
			})
		}
	}
	// evaluation, for any curve
	at := p.at(point)
	r.guard("pure", at, func() {
		ev := session(p)
		c := ev.c
		x := ev.ptrSym("c", cur)
		st0 := ev.NewState()
		v0 := viewCurve(p, ev, st0, x)
		st, _ := ev.Call(point, []*Term{x, ev.sym("t", tFloat)}, nil, st0.clone(), nil, "")
		v := viewCurve(p, ev, st, x)
		for _, f := range []string{"Min", "Max", "Mode"} {
			r.Ob("pure", ev.eqUnder(st.pc, v.field(p, f), v0.field(p, f), tFloat), at, "%s becomes %s", f, clip(v.field(p, f).String(), 200))
		}
		r.Ob("pure", ev.eqUnder(st.pc, v.n(), v0.n(), tInt), at, "the number of control points becomes %s", clip(v.n().String(), 200))
		i := ev.sym("i", tInt)
		in := c.And(st.pc, c.And(c.Le(num(ev, 0), i), c.Lt(i, v0.n())))
		for _, f := range []string{"Cp.X", "Cp.Y"} {
			r.Ob("pure", ev.eqUnder(in, v.at(p, i, f), v0.at(p, i, f), tFloat), at, "%s of a control point becomes %s", f, clip(v.at(p, i, f).String(), 200))
		}
		r.use(ev)
	})
	for _, t := range []int64{0, 1} {
		r.guard("ends", at, func() {
			ev := session(p)
			c := ev.c
			x := ev.ptrSym("c", cur)
			st0 := ev.NewState()
			v0 := viewCurve(p, ev, st0, x)
			st, res := ev.Call(point, []*Term{x, num(ev, t)}, nil, st0.clone(), nil, "")
			pc := c.And(st.pc, c.Lt(num(ev, 1), v0.n()))
			i := num(ev, 0)
			if t == 1 {
				i = c.Sub(v0.n(), num(ev, 1))
			}
			for _, co := range []string{"X", "Y"} {
				got, want := coord(ev, res[0], co), v0.at(p, i, "Cp."+co)
				r.Ob("ends", ev.eqUnder(pc, got, want, tFloat), at, "%s at progress %d is %s, expected %s", co, t, clip(c.Restrict(got, pc).String(), 300), clip(want.String(), 100))
			}
			r.use(ev)
		})
	}
	// owners
	owner := func(f *ssa.Function, n *types.Named, body func(ev *Ev, pc *Term, a []*Term, v *curveView, at string)) {
		at := p.at(f)
		r.guard("owner", at, func() {
			ev := session(p)
			args := ev.argSyms(f)
			st, vals := ev.Call(f, args, nil, ev.NewState(), nil, "")
			pc := ev.c.And(st.pc, ev.c.Eq(vals[len(vals)-1], ev.c.Nil))
			x := ev.c.Restrict(vals[0], pc)
			g := ev.Load(st, ev.c.Fld(x, oneField(n, "*curve.Curve")), types.NewPointer(cur))
			v := viewCurve(p, ev, st, ev.c.Restrict(g, pc))
			body(ev, pc, args, v, at)
			r.use(ev)
		})
	}
	same := func(ev *Ev, pc *Term, v *curveView, f string, want *Term, at string) {
		got := v.field(p, f)
		r.Ob("owner", ev.eqUnder(pc, got, want, tFloat), at, "%s of the curve is %s, expected %s", f, clip(ev.c.Restrict(got, pc).String(), 200), clip(want.String(), 80))
	}
	sen, spd := mustType(p, "types", "Sensor"), mustType(p, "types", "Speed")
	for _, name := range []string{"NewSensor", "RestoreSensor"} {
		f := mustFunc(p, "types", name)
		k := len(f.Params)
		owner(f, sen, func(ev *Ev, pc *Term, a []*Term, v *curveView, at string) {
			same(ev, pc, v, "Min", a[k-4], at)
			same(ev, pc, v, "Max", a[k-3], at)
			for _, m := range []string{"ModeDefault", "ModeMinStart", "ModeMinEnd"} {
				mode := ev.pkgConst(pkg, m)
				same(ev, ev.c.And(pc, ev.c.EqNum(a[k-1], mode)), v, "Mode", mode, at)
			}
		})
	}
	navElevation(p, r)
	owner(mustFunc(p, "types", "NewSpeed"), spd, func(ev *Ev, pc *Term, a []*Term, v *curveView, at string) {
		pc = ev.c.And(pc, ev.c.Lt(num(ev, 0), a[1]))
		same(ev, pc, v, "Min", a[0], at)
		same(ev, pc, v, "Max", a[1], at)
	})
}

// navElevation: a navigator's elevation sensor is made as its option says.
func navElevation(p *Prog, r *Report) {
	nn, we := mustFunc(p, "navigator", "New"), mustFunc(p, "navigator", "WithElevation")
	nav, sen, cur := mustType(p, "navigator", "Navigator"), mustType(p, "types", "Sensor"), mustType(p, "curve", "Curve")
	at := p.at(nn)
	r.guard("owner", at, func() {
		ev := session(p)
		c := ev.c
		ot := nn.Signature.Params().At(0).Type().(*types.Slice)
		a := ev.argSyms(we)
		st, v := ev.Call(we, a, nil, ev.NewState(), nil, "")
		arr := ev.sym("opts", ot)
		ev.Store(st, c.Idx(arr, num(ev, 0)), v[0], ot.Elem())
		st, vals := ev.Call(nn, []*Term{c.SubSlice(arr, num(ev, 0), num(ev, 1))}, nil, st, nil, "")
		pc := c.And(st.pc, c.Eq(vals[1], c.Nil))
		e := ev.Load(st, c.Fld(c.Restrict(vals[0], pc), oneField(nav, "*types.Sensor")), types.NewPointer(sen))
		e = c.Restrict(e, pc)
		g := ev.Load(st, c.Fld(e, oneField(sen, "*curve.Curve")), types.NewPointer(cur))
		w := viewCurve(p, ev, st, c.Restrict(g, pc))
		max := a[1]
		pos := c.And(pc, c.And(c.Lt(num(ev, 0), a[0]), c.Lt(a[0], max)))
		for f, want := range map[string]*Term{"Min": a[0], "Max": max} {
			got := w.field(p, f)
			r.Ob("owner", ev.eqUnder(pos, got, want, tFloat), at, "%s of the elevation curve is %s", f, clip(c.Restrict(got, pos).String(), 200))
		}
		for _, m := range []string{"ModeDefault", "ModeMinStart", "ModeMinEnd"} {
			mode := ev.pkgConst("curve", m)
			is := c.And(pos, c.EqNum(a[3], mode))
			r.Ob("owner", ev.eqUnder(is, w.field(p, "Mode"), mode, tFloat), at, "the mode of the elevation curve is %s", clip(c.Restrict(w.field(p, "Mode"), is).String(), 200))
		}
		r.use(ev)
	})
}

// drawn: a random draw from [0,1) scaled by a non-negative span lies in the span.
func drawn(ev *Ev, t, span *Term) *Term {
	c := ev.c
	pc := c.True
	eachSub(t, func(u *Term) {
		if u.op == "fresh" && strings.HasPrefix(u.aux, "unit@") {
			x := c.Mul(u, span)
			pc = c.And(pc, c.And(c.Le(num(ev, 0), x), c.Le(x, span)))
		}
	})
	return pc
}

// eachSub visits every subterm once.
func eachSub(t *Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, x := range m.fs {
				rec(x)
			}
		}
	}
	rec(t)
}
