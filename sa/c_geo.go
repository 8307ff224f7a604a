package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M01: geodesic helpers.

func init() {
	register("M01", "value-flow analysis (gated SSA value numbering, polynomial normal forms over the elementary functions) and interval facts at every domain-restricted call", "Every exported function of package geo is evaluated for arbitrary coordinates in their valid ranges and arbitrary distances. Arguments of square roots, inverse sines and cosines and divisors are entailed to lie in their domain without relying on exact arithmetic, results to lie in their documented ranges, and the values are compared, as polynomials over sines, cosines and their inverses with coefficients equal to 9 digits, with the spherical formulas on a sphere of radius 6371 km.", checkM01)
}

// mathFacts bounds the results of elementary functions.
func mathFacts(ev *Ev) {
	old := ev.models
	ev.models = map[string]model{}
	for k, v := range old {
		ev.models[k] = v
	}
	pi := new(big.Rat).SetFloat64(3.141592653589793)
	bound := func(name string, lo, hi *big.Rat) {
		ev.models[name] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			var t *Term
			if m := old[name]; m != nil {
				t = m(ev, fr, st, ci)[0]
			} else {
				t = ev.uapp(name+"#0", tFloat, ci.Args...)
			}
			eachSub(t, func(u *Term) {
				if u.op == "call" && u.aux == name+"#0" {
					ev.c.lower[u.id], ev.c.upper[u.id] = ev.c.numRat(lo, false), ev.c.numRat(hi, false)
				}
			})
			return []*Term{t}
		}
	}
	neg := func(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }
	half := new(big.Rat).Mul(pi, big.NewRat(1, 2))
	bound("math.Atan2", neg(pi), pi)
	bound("math.Atan", neg(half), half)
	bound("math.Asin", neg(half), half)
	bound("math.Acos", new(big.Rat), pi)
	ev.models["math.Mod"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		c := ev.c
		x, y := ci.Args[0], ci.Args[1]
		t := ev.uapp("math.Mod#0", tFloat, x, y)
		if !y.isConstNum() || y.ratVal().Sign() <= 0 {
			return []*Term{t}
		}
		ev.leaves(t, ev.fullPC(st), func(l, pc *Term) {
			if l.op != "call" || l.aux != "math.Mod#0" {
				return
			}
			c.upper[l.id] = y
			if c.lower[l.id] == nil {
				c.lower[l.id] = c.Neg(y)
			}
			if ev.entails(pc, c.Le(num(ev, 0), l.args[0])) {
				c.lower[l.id] = num(ev, 0)
			}
		})
		return []*Term{t}
	}
}

// domains of functions that yield NaN outside of them.
func (ev *Ev) inDomain(pc *Term, name string, args []*Term) bool {
	c := ev.c
	x := args[0]
	le := func(a, b *Term) bool { return ev.entails(pc, c.Le(a, b)) }
	switch name {
	case "math.Asin", "math.Acos", "math.Atanh":
		ok := true
		ev.leaves(x, pc, func(l, cond *Term) {
			lo := num(ev, -1)
			if l.op == "call" && l.aux == "math.Sqrt#0" {
				// a root lies in 0..1 exactly when its argument does
				l, lo = l.args[0], num(ev, 0)
			}
			ok = ok && ev.entails(cond, c.And(c.Le(lo, l), c.Le(l, num(ev, 1))))
		})
		return ok
	case "math.Sqrt", "math.Log", "math.Log2", "math.Log10":
		return le(num(ev, 0), x)
	case "math.Log1p":
		return le(num(ev, -1), x)
	case "math.Acosh":
		return le(num(ev, 1), x)
	case "math.Mod", "math.Remainder":
		return ev.entails(pc, c.Not(c.EqNum(args[1], num(ev, 0))))
	}
	return true
}

// closeTo compares terms up to rounding of numeric coefficients, case by case.
func (ev *Ev) closeTo(pc, a, b *Term) bool {
	ok := true
	ev.leaves(a, pc, func(x, pa *Term) {
		ev.leaves(b, pa, func(y, pb *Term) {
			ok = ok && (pb == ev.c.False || ev.near(pb, x, y) || !ev.sat(pb, 600) || ev.near(pb, ev.settle(pb, x), ev.settle(pb, y)))
		})
	})
	return ok
}

// settle evaluates elementary functions whose argument is -1, 0 or 1 under pc.
func (ev *Ev) settle(pc, t *Term) *Term {
	c := ev.c
	switch {
	case t.op == "call" && len(t.args) > 0:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = ev.settle(pc, a)
			for k := int64(-1); k <= 1; k++ {
				if !args[i].isConstNum() && ev.entails(pc, c.EqNum(args[i], num(ev, k))) {
					args[i] = num(ev, k)
				}
			}
		}
		name := strings.TrimSuffix(t.aux, "#0")
		if m := ev.models[name]; m != nil {
			return m(ev, nil, ev.NewState(), &CallInfo{Name: name, Args: args})[0]
		}
		return ev.uapp(t.aux, tFloat, args...)
	case t.op == "poly":
		r := num(ev, 0)
		for _, m := range t.monos {
			x := c.numRat(m.c, false)
			for _, f := range m.fs {
				x = c.Mul(x, ev.settle(pc, f))
			}
			r = c.Add(r, x)
		}
		return r
	}
	return t
}

func (ev *Ev) near(pc, a, b *Term) bool {
	memo := map[[2]int]bool{}
	tol := big.NewRat(1, 1000000000)
	close := func(x, y *big.Rat) bool {
		if y.Sign() == 0 {
			return x.Sign() == 0
		}
		q := new(big.Rat).Quo(x, y)
		q.Sub(q, big.NewRat(1, 1))
		return q.Abs(q).Cmp(tol) <= 0
	}
	var rec func(a, b *Term) bool
	same := func(x, y mono) bool {
		if len(x.fs) != len(y.fs) || !close(x.c, y.c) {
			return false
		}
		used := make([]bool, len(y.fs))
		for _, f := range x.fs {
			ok := false
			for j, g := range y.fs {
				if !used[j] && rec(f, g) {
					used[j], ok = true, true
					break
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	rec = func(a, b *Term) bool {
		if a == b {
			return true
		}
		key := [2]int{a.id, b.id}
		if v, ok := memo[key]; ok {
			return v
		}
		memo[key] = false
		ok := true
		if a.op == "poly" || b.op == "poly" {
			x, y := ev.c.monosOf(a), ev.c.monosOf(b)
			ok = len(x) == len(y)
			used := make([]bool, len(y))
			for _, m := range x {
				hit := false
				for j, n := range y {
					if !used[j] && same(m, n) {
						used[j], hit = true, true
						break
					}
				}
				ok = ok && hit
			}
			if !ok {
				ok = ev.entails(pc, ev.c.EqNum(a, b))
			}
		} else {
			ok = a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0
			for i := 0; ok && i < len(a.args); i++ {
				ok = rec(a.args[i], b.args[i])
			}
		}
		memo[key] = ok
		return ok
	}
	return rec(a, b)
}

func checkM01(p *Prog, r *Report) {
	r.Rule("domain", 4, "arguments of partial functions lie in their domain, divisors are not zero")
	r.Rule("range", 3, "bearings and destinations lie in their ranges")
	r.Rule("formula", 7, "distances, bearings and destinations follow the spherical formulas")
	r.Rule("box", 5, "boxes and normalised coordinates")
	tol := func(ev *Ev, n int64) *Term {
		return ev.c.numRat(new(big.Rat).Add(big.NewRat(n, 1), big.NewRat(1, 1000000)), false)
	}
	run := func(name string, lims []int64, ck func(ev *Ev, st *State, pc *Term, a, v []*Term, at string)) {
		f := mustFunc(p, "geo", name)
		at := p.at(f)
		r.guard("domain", at, func() {
			ev := openSession(p)
			mathFacts(ev)
			c := ev.c
			args := ev.argSyms(f)
			pc := c.True
			for i, lim := range lims {
				if i < len(args) && lim > 0 {
					pc = c.And(pc, c.And(c.Le(num(ev, -lim), args[i]), c.Le(args[i], num(ev, lim))))
				}
			}
			st := ev.NewState()
			st.pc = pc
			domains(ev, p, r, pc)
			st, v := ev.Call(f, args, nil, st, nil, "")
			ck(ev, st, c.And(st.pc, pc), args, v, at)
			r.use(ev)
		})
	}
	formula := func(ev *Ev, pc *Term, at, what string, got, want *Term) {
		c := ev.c
		g, w := c.Restrict(got, pc), c.Restrict(want, pc)
		r.Ob("formula", ev.closeTo(pc, g, w), at, "%s is %s, should be %s", what, clip(g.String(), 400), clip(w.String(), 400))
	}
	type fn = func(...*Term) *Term
	kit := func(ev *Ev) (sin, cos, rad, deg fn, R *Term, fun func(string, ...*Term) *Term) {
		c := ev.c
		fun = func(n string, a ...*Term) *Term {
			if m := ev.models["math."+n]; m != nil {
				return m(ev, nil, ev.NewState(), &CallInfo{Name: "math." + n, Args: a})[0]
			}
			return ev.uapp("math."+n+"#0", tFloat, a...)
		}
		sin = func(a ...*Term) *Term { return fun("Sin", a...) }
		cos = func(a ...*Term) *Term { return fun("Cos", a...) }
		k := new(big.Rat).SetFloat64(0.017453292519943295)
		rad = func(a ...*Term) *Term { return c.Mul(a[0], c.numRat(k, false)) }
		deg = func(a ...*Term) *Term { return c.Mul(a[0], c.numRat(new(big.Rat).Inv(k), false)) }
		R = num(ev, 6371000)
		return
	}
	hav := func(ev *Ev, a []*Term) *Term {
		c := ev.c
		sin, cos, rad, _, _, _ := kit(ev)
		half := c.numRat(big.NewRat(1, 2), false)
		s1 := sin(c.Mul(half, c.Sub(rad(a[2]), rad(a[0]))))
		s2 := sin(c.Mul(half, c.Sub(rad(a[3]), rad(a[1]))))
		return c.Add(c.Mul(s1, s1), c.Mul(c.Mul(cos(rad(a[0])), cos(rad(a[2]))), c.Mul(s2, s2)))
	}
	fromHav := func(ev *Ev, h *Term) *Term {
		c := ev.c
		_, _, _, _, R, fun := kit(ev)
		clamp := fun("Max", num(ev, 0), fun("Min", h, num(ev, 1)))
		return c.Mul(c.Mul(num(ev, 2), R), fun("Asin", fun("Sqrt", clamp)))
	}
	run("Haversine", []int64{90, 180, 90, 180}, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		formula(ev, pc, at, "the haversine", v[0], hav(ev, a))
	})
	run("Distance", []int64{90, 180, 90, 180}, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		formula(ev, pc, at, "the distance", v[0], fromHav(ev, hav(ev, a)))
	})
	run("DistanceFromHaversine", nil, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		formula(ev, pc, at, "the distance", v[0], fromHav(ev, a[0]))
	})
	run("DistanceToHaversine", nil, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		sin, _, _, _, R, _ := kit(ev)
		s := sin(ev.c.Mul(a[0], ev.c.numRat(big.NewRat(1, 2*6371000), false)))
		_ = R
		formula(ev, pc, at, "the haversine", v[0], ev.c.Mul(s, s))
	})
	run("NormalizeDistance", nil, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		_, _, _, _, R, fun := kit(ev)
		pi := ev.c.numRat(new(big.Rat).SetFloat64(3.141592653589793), false)
		formula(ev, pc, at, "the distance", v[0], fun("Mod", a[0], ev.c.Mul(ev.c.Mul(num(ev, 2), pi), R)))
	})
	run("Bearing", []int64{90, 180, 90, 180}, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		c := ev.c
		sin, cos, rad, deg, _, fun := kit(ev)
		p1, p2, dl := rad(a[0]), rad(a[2]), c.Sub(rad(a[3]), rad(a[1]))
		y := c.Mul(sin(dl), cos(p2))
		x := c.Sub(c.Mul(cos(p1), sin(p2)), c.Mul(c.Mul(sin(p1), cos(p2)), cos(dl)))
		formula(ev, pc, at, "the bearing", v[0], fun("Mod", c.Add(deg(fun("Atan2", y, x)), num(ev, 360)), num(ev, 360)))
		inRange(r, ev, "range", at, pc, rng{"the bearing", v[0], num(ev, 0), num(ev, 360)})
	})
	run("Destination", []int64{90, 180}, func(ev *Ev, st *State, pc *Term, a, v []*Term, at string) {
		c := ev.c
		sin, cos, rad, deg, _, fun := kit(ev)
		d := c.Mul(a[2], c.numRat(big.NewRat(1, 6371000), false))
		th, p1, l1 := rad(a[3]), rad(a[0]), rad(a[1])
		s := c.Add(c.Mul(sin(p1), cos(d)), c.Mul(c.Mul(cos(p1), sin(d)), cos(th)))
		p2 := fun("Asin", fun("Max", num(ev, -1), fun("Min", s, num(ev, 1))))
		l2 := c.Add(l1, fun("Atan2", c.Mul(c.Mul(sin(th), sin(d)), cos(p1)), c.Sub(cos(d), c.Mul(sin(p1), sin(p2)))))
		pi := c.numRat(new(big.Rat).SetFloat64(3.141592653589793), false)
		l2 = c.Sub(fun("Mod", c.Add(l2, c.Mul(num(ev, 3), pi)), c.Mul(num(ev, 2), pi)), pi)
		formula(ev, pc, at, "the latitude", v[0], deg(p2))
		formula(ev, pc, at, "the longitude", v[1], deg(l2))
		inRange(r, ev, "range", at, pc, rng{"the latitude", v[0], c.Neg(tol(ev, 90)), tol(ev, 90)})
		inRange(r, ev, "range", at, pc, rng{"the longitude", v[1], c.Neg(tol(ev, 180)), tol(ev, 180)})
	})
	norm := mustFunc(p, "geo", "NormalizeCoordinates")
	r.guard("box", p.at(norm), func() {
		ev := openSession(p)
		c := ev.c
		a := ev.argSyms(norm)
		st0 := ev.NewState()
		pre := st0.clone()
		st, v := ev.Call(norm, a, nil, st0, nil, "")
		n := c.Len(a[2])
		r.Ob("box", ev.eqUnder(st.pc, c.Len(v[0]), n, tInt), p.at(norm), "n coordinates become %s", clip(c.Len(v[0]).String(), 100))
		i := ev.sym("i", tInt)
		in := c.And(st.pc, inRangeOf(c, i, n))
		for k, fld := range []string{"Lat", "Lon"} {
			got := ev.Load(st, c.Fld(c.Idx(v[0], i), fld), tFloat)
			want := c.Add(ev.Load(pre, c.Idx(c.Idx(a[2], i), num(ev, int64(k))), tFloat), a[k])
			r.Ob("box", ev.eqUnder(in, got, want, tFloat), p.at(norm), "%s of point i is %s", fld, clip(c.Restrict(got, in).String(), 200))
		}
		r.use(ev)
	})
	bb := mustType(p, "geo", "BBox")
	in := method(p, bb, "In")
	r.guard("box", p.at(in), func() {
		ev := openSession(p)
		c := ev.c
		a := ev.argSyms(in)
		st, v := ev.Call(in, a, nil, ev.NewState(), nil, "")
		b, pt := a[0], a[1]
		want := c.True
		for _, k := range []string{"Lon", "Lat"} {
			x := c.Field(pt, k)
			want = c.And(want, c.And(c.Le(c.Field(b, "Min"+k), x), c.Le(x, c.Field(b, "Max"+k))))
		}
		r.Ob("box", ev.eqUnder(st.pc, v[0], want, tBool), p.at(in), "a point is in a box when %s", clip(v[0].String(), 300))
		r.use(ev)
	})
	ce := method(p, bb, "Center")
	r.guard("box", p.at(ce), func() {
		ev := openSession(p)
		c := ev.c
		a := ev.argSyms(ce)
		st, v := ev.Call(ce, a, nil, ev.NewState(), nil, "")
		for _, k := range []string{"Lon", "Lat"} {
			want := c.Mul(c.numRat(big.NewRat(1, 2), false), c.Add(c.Field(a[0], "Min"+k), c.Field(a[0], "Max"+k)))
			r.Ob("box", ev.eqUnder(st.pc, c.Field(v[0], k), want, tFloat), p.at(ce), "%s of the centre is %s", k, clip(c.Field(v[0], k).String(), 200))
		}
		r.use(ev)
	})
}

// domains watches calls of partial functions and divisions.
func domains(ev *Ev, p *Prog, r *Report, pre *Term) {
	seen := map[string]bool{}
	partial := map[string]bool{"math.Asin": true, "math.Acos": true, "math.Atanh": true, "math.Sqrt": true, "math.Log": true, "math.Log2": true, "math.Log10": true, "math.Log1p": true, "math.Acosh": true, "math.Mod": true, "math.Remainder": true}
	ob := func(key string, ok bool, at, f string, a ...any) {
		if k := key + at + fmt.Sprint(ok); !seen[k] {
			seen[k] = true
			r.Ob("domain", ok, at, f, a...)
		}
	}
	for name := range partial {
		name := name
		old := ev.models[name]
		ev.models[name] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			if fr != nil && ev.trial == 0 {
				pc := ev.c.And(ev.fullPC(st), pre)
				ob(name, ev.inDomain(pc, name, ci.Args), p.where(fr, ci.Instr.Pos()), "%s of %s", name, clip(ci.Args[0].String(), 200))
			}
			if old != nil {
				return old(ev, fr, st, ci)
			}
			return []*Term{ev.uapp(name+"#0", types.Typ[types.Float64], ci.Args...)}
		}
	}
	ev.onInstr = func(fr *Frame, st *State, in ssa.Instruction) {
		x, ok := in.(*ssa.BinOp)
		if !ok || ev.trial > 0 || x.Op != token.QUO || !isNumeric(x.Type()) {
			return
		}
		d := ev.val(fr, x.Y)
		if d.isConstNum() && d.ratVal().Sign() != 0 {
			return
		}
		pc := ev.c.And(ev.fullPC(st), pre)
		ob("div", ev.entails(pc, ev.c.Not(ev.c.EqNum(d, num(ev, 0)))), p.where(fr, in.Pos()), "division by %s", clip(d.String(), 200))
	}
}
