package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01: random geography is valid.

func init() {
	register("R01", "constant propagation of the package's tables through its initialiser, and value-flow analysis (gated SSA value numbering) of the generators", "The initialiser of package random is evaluated abstractly, so its tables are known; the country functions are then evaluated for every two-letter code, in upper and lower case, and for codes of other lengths. Every known code must have a name and a well-formed box, agree between the three functions, and every draw for it must be entailed to lie in its box; every other code must be an error. World-wide points, polygons and random routes are evaluated for arbitrary arguments and draws. A separate rule shows that nothing changes the tables afterwards.", checkR01)
}

// initialised is the state after the initialiser of a package.
func initialised(p *Prog, ev *Ev, rel string) *State {
	f := p.Func(rel, "init")
	if f == nil {
		panic(tooComplex{"no initialiser in " + rel})
	}
	st := ev.NewState()
	ev.Store(st, ev.c.leaf("global", f.Pkg.Pkg.Path()+".init$guard"), ev.c.False, tBool)
	st, _ = ev.Call(f, nil, nil, st, nil, "")
	return st
}

func checkR01(p *Prog, r *Report) {
	r.Rule("country", 300, "a country code known to one function is known to all of them, in either case, and has a name")
	r.Rule("box", 100, "a bounding box is well formed")
	r.Rule("point", 200, "a random point of a country lies in its box")
	r.Rule("unknown", 300, "an unknown code is an error")
	r.Rule("constant", 2, "nothing changes the tables of package random after its initialisation")
	r.Rule("world", 2, "a world-wide random point is a valid position")
	r.Rule("polygon", 4, "a random polygon is closed and has the requested number of points")
	r.Rule("route", 6, "a random route has the requested number of tracks and valid names")
	const rel = "random"
	name, box, point := mustFunc(p, rel, "CountryName"), mustFunc(p, rel, "BoundingBox"), mustFunc(p, rel, "LatLonByCountry")
	r.guard("country", p.at(name), func() {
		ev := session(p)
		c := ev.c
		st := initialised(p, ev, rel)
		call := func(f *ssa.Function, code string) (*Term, *Term) {
			var v []*Term
			ev.quietly(func() { _, v = ev.Call(f, []*Term{c.leaf("str", code)}, nil, st.clone(), nil, "?") })
			return v[0], v[1]
		}
		one := func(code string) {
			n, e1 := call(name, code)
			b, e2 := call(box, code)
			q, e3 := call(point, code)
			where := rel + " code " + strconvQuote(code)
			fails := func(e *Term) bool { return c.EqAny(e, c.Nil) == c.False }
			if len(code) != 2 || fails(e1) && fails(e2) && fails(e3) {
				r.Ob("unknown", fails(e1) && fails(e2) && fails(e3), where, "name, box and point of an unknown code report %s, %s, %s", clip(e1.String(), 60), clip(e2.String(), 60), clip(e3.String(), 60))
				return
			}
			r.Ob("country", e1 == c.Nil && e2 == c.Nil && e3 == c.Nil && n.op == "str" && n.aux != "", where, "name %s, errors of name, box and point: %s, %s, %s", clip(n.String(), 60), clip(e1.String(), 60), clip(e2.String(), 60), clip(e3.String(), 60))
			for _, k := range []struct {
				f string
				m int64
			}{{"Lon", 180}, {"Lat", 90}} {
				lo, hi := c.Field(b, "Min"+k.f), c.Field(b, "Max"+k.f)
				r.Ob("box", e2 != c.Nil || ev.entails(c.True, c.And(c.And(c.Le(num(ev, -k.m), lo), c.Le(lo, hi)), c.Le(hi, num(ev, k.m)))), where, "%s from %s to %s", k.f, lo, hi)
				if e3 == c.Nil {
					x := c.Field(q, k.f)
					inRange(r, ev, "point", where, drawn(ev, x, num(ev, 1)), rng{k.f, x, lo, hi})
				}
			}
		}
		for a := 'A'; a <= 'Z'; a++ {
			for b := 'A'; b <= 'Z'; b++ {
				s := string(a) + string(b)
				one(s)
				one(strings.ToLower(s))
			}
		}
		for _, s := range []string{"", "U", "USA", "  ", "12", "U "} {
			one(s)
		}
		r.use(ev)
	})
	r.guard("constant", "random", func() { tablesFixed(p, r, rel) })
	r.guard("world", p.at(mustFunc(p, rel, "LatLon")), func() {
		f := mustFunc(p, rel, "LatLon")
		ev := session(p)
		c := ev.c
		st, v := ev.Call(f, nil, nil, ev.NewState(), nil, "")
		for k, m := range map[string]int64{"Lon": 180, "Lat": 90} {
			x := c.Field(v[0], k)
			inRange(r, ev, "world", p.at(f), c.And(st.pc, drawn(ev, x, num(ev, 1))), rng{k, x, num(ev, -m), num(ev, m)})
		}
		r.use(ev)
	})
	r.guard("polygon", p.at(mustFunc(p, rel, "Polygon")), func() {
		f := mustFunc(p, rel, "Polygon")
		ev := session(p)
		c := ev.c
		args := ev.argSyms(f)
		st, v := ev.Call(f, args, nil, ev.NewState(), nil, "")
		n := c.Len(v[0])
		def := ev.pkgConst(rel, "defaultPoints")
		some := c.And(st.pc, c.Lt(num(ev, 0), args[0]))
		none := c.And(st.pc, c.Le(args[0], num(ev, 0)))
		r.Ob("polygon", ev.eqUnder(some, n, c.Add(args[0], num(ev, 1)), tInt), p.at(f), "a polygon of n>0 points has %s", clip(c.Restrict(n, some).String(), 100))
		r.Ob("polygon", ev.eqUnder(none, n, c.Add(def, num(ev, 1)), tInt), p.at(f), "a polygon without a number of points has %s", clip(c.Restrict(n, none).String(), 100))
		at := types.NewArray(tFloat, 2)
		for _, pc := range []*Term{some, none} {
			first := c.Restrict(ev.Load(st, c.Idx(v[0], num(ev, 0)), at), pc)
			last := c.Restrict(ev.Load(st, c.Restrict(c.Idx(v[0], c.Sub(n, num(ev, 1))), pc), at), pc)
			r.Ob("polygon", ev.eqUnder(pc, first, last, at), p.at(f), "the last point of a polygon is %s, the first %s", clip(last.String(), 200), clip(first.String(), 200))
		}
		r.use(ev)
	})
	r.guard("route", "random routes", func() { randomRoutes(p, r) })
}

func strconvQuote(s string) string { return "\"" + s + "\"" }

// tablesFixed: maps held in package variables are written by the initialiser
// only, and never handed out.
func tablesFixed(p *Prog, r *Report, rel string) {
	var fns []*ssa.Function
	for _, f := range p.Funcs() {
		if f.Pkg == p.pkg(rel) && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		fns = append(fns, f)
	}
	isTable := func(g *ssa.Global) bool {
		if g.Pkg != p.pkg(rel) {
			return false
		}
		_, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		return ok
	}
	seen := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && isTable(g) {
						add(x)
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && isTable(g) {
						_, load := in.(*ssa.UnOp)
						r.Ob("constant", load, p.Pos(in.Pos()), "the table %s is replaced", g.Name())
					}
				}
			}
		}
	}
	var callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], ci)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		for _, in := range *v.Referrers() {
			bad := ""
			switch x := in.(type) {
			case *ssa.MapUpdate:
				bad = "written"
			case *ssa.Phi:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, l := range *a.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok {
							add(u)
						}
					}
				} else {
					bad = "stored elsewhere"
				}
			case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Send:
				bad = "handed out"
			case *ssa.Return:
				if x.Parent().Object() != nil && x.Parent().Object().Exported() {
					bad = "handed out"
				}
				for i, res := range x.Results {
					if res != v {
						continue
					}
					for _, ci := range callers[x.Parent()] {
						cv, ok := ci.(ssa.Value)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							add(cv)
							continue
						}
						for _, e := range *cv.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
								add(ex)
							}
						}
					}
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "delete" || b.Name() == "clear" {
						bad = "written"
					}
				} else if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && g.Pkg != nil && p.inRepo(g.Pkg.Pkg.Path()) {
					for i, a := range x.Common().Args {
						if a == v && i < len(g.Params) {
							add(g.Params[i])
						}
					}
				}
			}
			r.Ob("constant", bad == "", p.Pos(in.Pos()), "a table of package %s is %s", rel, bad)
		}
	}
}

// randomRoutes: the random routes of the root package.
func randomRoutes(p *Prog, r *Report) {
	route := mustType(p, "navigator", "Route")
	rnd := mustFunc(p, "", "RandomRoute")
	for _, f := range exportedOf(p, "") {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || res.Len() != 1 || !types.Identical(res.At(0).Type(), types.NewPointer(route)) || !strings.HasPrefix(f.Name(), "Random") {
			continue
		}
		r.guard("route", p.at(f), func() {
			ev := session(p)
			c := ev.c
			args := ev.argSyms(f)
			st, v := ev.Call(f, args, nil, ev.NewState(), nil, "")
			s := &subject{ev, p, route, v[0]}
			pc := st.pc
			r.Ob("route", c.Restrict(c.EqAny(v[0], c.Nil), pc) == c.False, p.at(f), "returns a route")
			n := s.o(st, "NumTracks")
			if f == rnd {
				k := args[2]
				some, none := c.And(pc, c.Le(num(ev, 0), k)), c.And(pc, c.Lt(k, num(ev, 0)))
				r.Ob("route", ev.eqUnder(some, n, k, tInt), p.at(f), "a route of n tracks has %s", clip(c.Restrict(n, some).String(), 200))
				r.Ob("route", ev.eqUnder(none, n, num(ev, 1), tInt), p.at(f), "a route of an invalid number of tracks has %s", clip(c.Restrict(n, none).String(), 200))
			} else {
				r.Ob("route", ev.entails(pc, c.Lt(num(ev, 0), n)), p.at(f), "a route has %s tracks", clip(n.String(), 200))
			}
			valid := func(what string, pc, name *Term) {
				inRange(r, ev, "route", p.at(f), pc, rng{"length of the name of " + what, c.Len(name), num(ev, 3), num(ev, 256)})
			}
			str := method(p, mustType(p, "navigator", "Name"), "String")
			valid("the route", pc, ev.observe(str, st, s.o(st, "Name"))[0])
			i := ev.sym("i", tInt)
			in := c.And(pc, inRangeOf(c, i, n))
			tr := ev.simp(s.o(st, "TrackAt", i), in)
			r.Ob("route", c.Restrict(c.EqAny(tr, c.Nil), in) == c.False, p.at(f), "track i of a random route exists")
			tt := mustType(p, "navigator", "Track")
			valid("a track", in, ev.simp(ev.observe(str, st, ev.simp(s.of(st, tt, "Name", tr), in))[0], in))
			r.use(ev)
		})
	}
}
