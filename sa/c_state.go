package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T01: the reported state mirrors the device.

func init() {
	register("T01", "value-flow analysis (gated SSA value numbering of writer and accessors)", "Device.Next, Update and FromSnapshot are evaluated for an arbitrary device; afterwards every field of the reported state is compared, as a value over the initial memory, with what the corresponding accessor of the device yields in the same memory, for an arbitrary sensor, route and track index; sensor-list operations keep the reported sensors in step.", checkT01)
}

// ptField reads a dotted path of fields starting at pointer p to named type.
func (ev *Ev) ptField(st *State, p *Term, n *types.Named, path string) (*Term, types.Type) {
	var ty types.Type = n
	cur := p
	for _, f := range strings.Split(path, ".") {
		u, ok := types.Unalias(ty).Underlying().(*types.Struct)
		if pt, isP := types.Unalias(ty).Underlying().(*types.Pointer); isP {
			cur = ev.Load(st, cur, ty)
			ev.c.nonNil[cur.id] = true
			u, ok = pt.Elem().Underlying().(*types.Struct)
		}
		if !ok {
			panic(tooComplex{"no field " + path})
		}
		var ft types.Type
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				ft = u.Field(i).Type()
			}
		}
		if ft == nil {
			panic(tooComplex{"no field " + path})
		}
		cur = ev.c.Fld(cur, f)
		ty = ft
	}
	return ev.Load(st, cur, ty), ty
}

type mirrorOf struct {
	field string
	get   func(ev *Ev, st *State, d *Term) *Term
}

// deref loads the single field of the device with type ts.
func (ev *Ev) devPart(st *State, d *Term, dev *types.Named, ts string) *Term {
	f := oneField(dev, ts)
	u := dev.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			x := ev.Load(st, ev.c.Fld(d, f), u.Field(i).Type())
			return x
		}
	}
	return nil
}

func method(p *Prog, n *types.Named, name string) *ssa.Function {
	f := p.Method(n, name)
	if f == nil {
		panic(tooComplex{"anchor not found: " + n.Obj().Name() + "." + name})
	}
	return f
}

func mirrorTable(p *Prog) []mirrorOf {
	dev := mustType(p, "", "Device")
	nav := mustType(p, "navigator", "Navigator")
	bat := mustType(p, "types", "Battery")
	spd := mustType(p, "types", "Speed")
	route := mustType(p, "navigator", "Route")
	track := mustType(p, "navigator", "Track")
	D := func(m string) func(ev *Ev, st *State, d *Term) *Term {
		f := method(p, dev, m)
		return func(ev *Ev, st *State, d *Term) *Term { return ev.observe(f, st, d)[0] }
	}
	N := func(m string) func(ev *Ev, st *State, d *Term) *Term {
		f := method(p, nav, m)
		return func(ev *Ev, st *State, d *Term) *Term {
			return ev.observe(f, st, ev.devPart(st, d, dev, "*navigator.Navigator"))[0]
		}
	}
	loc := func(fld string) func(ev *Ev, st *State, d *Term) *Term {
		f := method(p, dev, "Location")
		return func(ev *Ev, st *State, d *Term) *Term {
			return ev.c.Field(ev.observe(f, st, d)[0], fld)
		}
	}
	idOf := func(m string, n *types.Named) func(ev *Ev, st *State, d *Term) *Term {
		cur, id := method(p, dev, m), method(p, n, "ID")
		return func(ev *Ev, st *State, d *Term) *Term {
			x := ev.observe(cur, st, d)[0]
			c := ev.c
			some := c.Not(c.Eq(x, c.Nil))
			return c.Ite(some, ev.observe(id, st, c.Restrict(x, some))[0], c.leaf("str", ""))
		}
	}
	out := []mirrorOf{
		{"Location.Lat", loc("Lat")}, {"Location.Lon", loc("Lon")},
		{"Location.Bearing", D("CurrentBearing")}, {"Location.Elevation", N("Elevation")},
		{"Navigator.CurrentRouteIndex", D("RouteIndex")}, {"Navigator.CurrentTrackIndex", D("TrackIndex")},
		{"Navigator.CurrentSegmentIndex", D("SegmentIndex")},
		{"Navigator.CurrentRouteId", idOf("CurrentRoute", route)}, {"Navigator.CurrentTrackId", idOf("CurrentTrack", track)},
		{"Distance.Distance", D("Distance")}, {"Distance.CurrentDistance", D("CurrentDistance")},
		{"Distance.RouteDistance", D("RouteDistance")}, {"Distance.CurrentRouteDistance", D("CurrentRouteDistance")},
		{"Distance.TrackDistance", D("TrackDistance")}, {"Distance.CurrentTrackDistance", D("CurrentTrackDistance")},
		{"Distance.SegmentDistance", D("SegmentDistance")}, {"Distance.CurrentSegmentDistance", D("CurrentSegmentDistance")},
		{"IsOffline", D("IsOffline")}, {"OfflineDuration", N("OfflineDuration")},
		{"Battery.Charge", func(ev *Ev, st *State, d *Term) *Term {
			return ev.observe(method(p, bat, "Value"), st, ev.devPart(st, d, dev, "*types.Battery"))[0]
		}},
		{"Battery.ChargeTime", func(ev *Ev, st *State, d *Term) *Term {
			ns := ev.observe(method(p, bat, "ChargeTime"), st, ev.devPart(st, d, dev, "*types.Battery"))[0]
			return ns // compared in seconds below
		}},
		{"Speed", func(ev *Ev, st *State, d *Term) *Term {
			return ev.observe(method(p, spd, "Value"), st, ev.devPart(st, d, dev, "*types.Speed"))[0]
		}},
	}
	return out
}

func checkT01(p *Prog, r *Report) {
	r.Rule("field", 60, "a field of the reported state equals the accessor it mirrors")
	r.Rule("position", 20, "the reported DMS and UTM coordinates are computed from the reported position")
	r.Rule("sensors", 12, "every reported sensor equals the sensor at the same place")
	r.Rule("routes", 30, "every reported route and track summary equals the route and track at the same place")
	r.Rule("in-step", 6, "changing the sensor list changes the reported sensors in the same way")
	dev := mustType(p, "", "Device")
	pbd := mustType(p, "proto", "Device")
	tab := mirrorTable(p)
	snapT := mustType(p, "proto", "Snapshot")
	for _, op := range []string{"Next", "Update", "FromSnapshot"} {
		f := p.Method(dev, op)
		if f == nil {
			r.Ob("field", false, "Device", "no %s", op)
			continue
		}
		at := p.at(f)
		r.guard("field", at, func() {
			ev := session(p)
			c := ev.c
			args := ev.argSyms(f)
			d := args[0]
			if op == "FromSnapshot" {
				args[1] = ev.ptrSym("snap", snapT)
			}
			st0 := ev.NewState()
			st, vals := ev.Call(f, args, nil, ev.NewState(), nil, "")
			r.use(ev)
			pc := st.pc
			switch op {
			case "Next":
				pc = c.And(pc, vals[0])
			case "FromSnapshot":
				if len(vals) > 0 {
					pc = c.And(pc, c.Eq(vals[0], c.Nil))
				}
			}
			s := ev.devPart(st, d, dev, "*proto.Device")
			for _, m := range tab {
				got, ty := ev.ptField(st, s, pbd, m.field)
				if m.field == "Speed" && op == "Update" {
					s0 := ev.devPart(st0, d, dev, "*proto.Device")
					old, _ := ev.ptField(st0, s0, pbd, m.field)
					r.Ob("field", ev.eqUnder(pc, got, old, ty) && ev.eqUnder(pc, m.get(ev, st, d), m.get(ev, st0, d), ty), at, "%s: the reported speed and the speed stay as they are", op)
					continue
				}
				want := m.get(ev, st, d)
				if m.field == "Battery.ChargeTime" {
					want = ev.convert(c.FDiv(want, c.Int(1000000000)), tFloat, ty)
					alt := ev.convert(want, tFloat, ty)
					if !ev.eqUnder(pc, got, want, ty) {
						want = alt
					}
				}
				r.Ob("field", ev.eqUnder(pc, got, want, ty), at, "after %s, %s is %s, accessor %s", op, m.field, clip(c.Restrict(got, pc).String(), 200), clip(c.Restrict(want, pc).String(), 200))
			}
			// derived coordinates depend on the reported position only
			lat, _ := ev.ptField(st, s, pbd, "Location.Lat")
			lon, _ := ev.ptField(st, s, pbd, "Location.Lon")
			pos := func(f string, want, under *Term) {
				got, ty := ev.ptField(st, s, pbd, "Location."+f)
				x := c.And(pc, under)
				r.Ob("position", ev.eqUnder(x, got, want, ty), at, "after %s, %s is %s, expected %s", op, f, clip(c.Restrict(got, x).String(), 200), clip(c.Restrict(want, x).String(), 200))
			}
			pos("Utm.Easting", ev.uapp("github.com/icholy/utm.ToUTM#0", tFloat, lat, lon), c.True)
			pos("Utm.Northing", ev.uapp("github.com/icholy/utm.ToUTM#1", tFloat, lat, lon), c.True)
			str := func(s string) *Term { return c.leaf("str", s) }
			for _, q := range []struct {
				f        string
				v        *Term
				pos, neg string
			}{{"LatDms", lat, "N", "S"}, {"LonDms", lon, "E", "W"}} {
				neg := c.Lt(q.v, c.Int(0))
				plus := c.Lt(c.Int(0), q.v)
				abs := c.Ite(neg, c.Sub(c.Int(0), q.v), q.v)
				deg := ev.convert(abs, tFloat, tInt)
				rest := c.Mul(c.Sub(abs, deg), c.Int(60))
				min := ev.convert(rest, tFloat, tInt)
				sec := c.Mul(c.Sub(rest, min), c.Int(60))
				pos(q.f+".Degrees", deg, c.True)
				pos(q.f+".Minutes", min, c.True)
				pos(q.f+".Seconds", sec, c.True)
				if op == "Update" { // the same code fills it after an advance
					pos(q.f+".Direction", str(q.pos), plus)
					pos(q.f+".Direction", str(q.neg), neg)
				}
			}
			mirrorSensors(p, r, ev, st, pc, d, at, op)
			// routes
			if op == "Next" {
				// the summary is refreshed when the version sum differs from the remembered one
				sum := ev.observe(method(p, dev, "Version"), st0, d)[0]
				old := ev.Load(st0, c.Fld(d, oneField(dev, "[3]int")), types.NewArray(tInt, 3))
				any := c.False
				for i := int64(0); i < 3; i++ {
					any = c.Or(any, c.Not(c.EqNum(c.ArrIndex(sum, c.Int(i), ev, tInt), c.ArrIndex(old, c.Int(i), ev, tInt))))
				}
				pc = c.And(pc, any)
			}
			mirrorRoutes(p, r, ev, st, pc, d, at, op)
		})
	}
	for _, op := range []string{"AddSensor", "RemoveSensor", "ResetSensors"} {
		f := method(p, dev, op)
		at := p.at(f)
		r.guard("in-step", at, func() {
			ev := session(p)
			args := ev.argSyms(f)
			st, _ := ev.Call(f, args, nil, ev.NewState(), nil, "")
			r.use(ev)
			inStep(p, r, ev, st, args[0], at, op)
		})
	}
}

func sensorParts(p *Prog, ev *Ev, st *State, d *Term) (s, list, n, num *Term, lt types.Type) {
	dev := mustType(p, "", "Device")
	pbd := mustType(p, "proto", "Device")
	s = ev.devPart(st, d, dev, "*proto.Device")
	list, lt = ev.ptField(st, s, pbd, "Sensors")
	return s, list, ev.c.Len(list), ev.observe(method(p, dev, "NumSensors"), st, d)[0], lt
}

func mirrorSensors(p *Prog, r *Report, ev *Ev, st *State, pc, d *Term, at, op string) {
	c := ev.c
	dev := mustType(p, "", "Device")
	sen := mustType(p, "types", "Sensor")
	pbs := mustType(p, "proto", "Device_Sensor")
	_, list, n, num, lt := sensorParts(p, ev, st, d)
	r.Ob("sensors", ev.eqUnder(pc, n, num, tInt), at, "after %s as many sensors are reported as the device has: %s", op, clip(c.Restrict(n, pc).String(), 200))
	st0 := ev.NewState()
	_, list0, n0, num0, _ := sensorParts(p, ev, st0, d)
	j := ev.bound("j", c.Int(0), num)
	e := ev.Load(st, c.Idx(list, j.t), lt.(*types.Slice).Elem())
	x := ev.observe(method(p, dev, "SensorAt"), st, d, j.t)[0]
	in := c.And(pc, j.in)
	x = c.Restrict(x, in)
	for _, q := range [][2]string{{"Id", "ID"}, {"Name", "Name"}, {"ValX", "ValueX"}, {"ValY", "ValueY"}} {
		var gots []*Term
		ev.leaves(e, in, func(l, cond *Term) {
			if !ev.sat(cond, 2000) {
				return
			}
			ev.c.nonNil[l.id] = true
			g, ty := ev.ptField(st, l, pbs, q[0])
			gots = append(gots, g)
			want := ev.observe(method(p, sen, q[1]), st, x)[0]
			ok := ev.eqUnder(cond, g, want, ty)
			if !ok && (q[0] == "Id" || q[0] == "Name") && op == "Next" {
				// in-step lists keep identity: nothing changes
				same := c.EqNum(n0, num0)
				e0 := ev.Load(st0, c.Idx(list0, j.t), lt.(*types.Slice).Elem())
				ev.c.nonNil[e0.id] = true
				g0, _ := ev.ptField(st0, e0, pbs, q[0])
				x0 := ev.observe(method(p, dev, "SensorAt"), st0, d, j.t)[0]
				ok = ev.entails(cond, same) && ev.eqUnder(cond, g, g0, ty) && ev.eqUnder(cond, x, c.Restrict(x0, in), nil)
			}
			r.Ob("sensors", ok, at, "after %s, reported sensor %s is %s, sensor %s", op, q[0], clip(c.Restrict(g, cond).String(), 200), clip(c.Restrict(want, cond).String(), 200))
		})
		if len(gots) == 0 {
			r.Ob("sensors", false, at, "after %s no reported sensor", op)
		}
	}
}

// inStep: assuming the reported sensors were in step before, they are after.
func inStep(p *Prog, r *Report, ev *Ev, st *State, d *Term, at, op string) {
	c := ev.c
	dev := mustType(p, "", "Device")
	sen := mustType(p, "types", "Sensor")
	pbs := mustType(p, "proto", "Device_Sensor")
	st0 := ev.NewState()
	_, list0, _, _, _ := sensorParts(p, ev, st0, d)
	_, list, _, num, lt := sensorParts(p, ev, st, d)
	f := oneField(dev, "[]*types.Sensor")
	sl := types.NewSlice(types.NewPointer(sen))
	ev.leaves(list, st.pc, func(ll, pc *Term) {
		if !ev.sat(pc, 2000) {
			return
		}
		if ll == list0 {
			now := ev.Load(st, c.Fld(d, f), sl)
			if op == "AddSensor" && strings.Contains(now.String(), "hav") {
				return // the list only grows: the next advance sees the difference in length
			}
			same := ev.eqUnder(pc, now, ev.Load(st0, c.Fld(d, f), sl), nil)
			r.Ob("in-step", same, at, "%s: without a new report the sensors stay the same", op)
			return
		}
		n := c.Len(ll)
		r.Ob("in-step", ev.eqUnder(pc, n, num, tInt), at, "%s: as many reported sensors as sensors: %s, %s", op, clip(c.Restrict(n, pc).String(), 200), clip(c.Restrict(num, pc).String(), 200))
		j := ev.bound("j", c.Int(0), num)
		in := c.And(pc, j.in)
		e := c.Restrict(ev.Load(st, c.Idx(ll, j.t), lt.(*types.Slice).Elem()), in)
		x := c.Restrict(ev.observe(method(p, dev, "SensorAt"), st, d, j.t)[0], in)
		ev.leaves(e, in, func(l, cond *Term) {
			if !ev.sat(cond, 2000) {
				return
			}
			ev.c.nonNil[l.id] = true
			for _, q := range [][2]string{{"Id", "ID"}, {"Name", "Name"}} {
				g, ty := ev.ptField(st, l, pbs, q[0])
				want := ev.observe(method(p, sen, q[1]), st, x)[0]
				r.Ob("in-step", ev.eqUnder(cond, g, want, ty), at, "%s: reported sensor %s is %s, sensor %s", op, q[0], clip(c.Restrict(g, cond).String(), 200), clip(c.Restrict(want, cond).String(), 200))
			}
		})
	})
}

func mirrorRoutes(p *Prog, r *Report, ev *Ev, st *State, pc, d *Term, at, op string) {
	c := ev.c
	dev := mustType(p, "", "Device")
	pbd := mustType(p, "proto", "Device")
	route := mustType(p, "navigator", "Route")
	track := mustType(p, "navigator", "Track")
	pbr := mustType(p, "proto", "Device_Routes_Route")
	pbt := mustType(p, "proto", "Device_Routes_Route_Track")
	s := ev.devPart(st, d, dev, "*proto.Device")
	list, lt := ev.ptField(st, s, pbd, "Routes.Routes")
	num := ev.observe(method(p, dev, "NumRoutes"), st, d)[0]
	r.Ob("routes", ev.eqUnder(pc, c.Len(list), num, tInt), at, "after %s as many routes are reported as the device has: %s", op, clip(c.Restrict(c.Len(list), pc).String(), 200))
	i := ev.bound("i", c.Int(0), num)
	in := c.And(pc, i.in)
	e := c.Restrict(ev.Load(st, c.Idx(list, i.t), lt.(*types.Slice).Elem()), in)
	x := c.Restrict(ev.observe(method(p, dev, "RouteAt"), st, d, i.t)[0], in)
	cmp := func(what string, st *State, cond, g *Term, ty types.Type, want *Term) {
		r.Ob("routes", ev.eqUnder(cond, g, want, ty), at, "after %s, reported %s is %s, accessor %s", op, what, clip(c.Restrict(g, cond).String(), 200), clip(c.Restrict(want, cond).String(), 200))
	}
	n := 0
	ev.leaves(e, in, func(l, cond *Term) {
		if !ev.sat(cond, 2000) {
			return
		}
		n++
		ev.c.nonNil[l.id] = true
		for _, q := range [][2]string{{"RouteId", "ID"}, {"Distance", "Distance"}, {"Color", "Color"}} {
			g, ty := ev.ptField(st, l, pbr, q[0])
			cmp("route "+q[0], st, cond, g, ty, ev.observe(method(p, route, q[1]), st, x)[0])
		}
		pm := ev.observe(method(p, route, "Props"), st, x)[0]
		g, ty := ev.ptField(st, l, pbr, "PropsCount")
		cmp("route PropsCount", st, cond, g, ty, ev.mapLen(st, pm))
		tl, tt := ev.ptField(st, l, pbr, "Tracks")
		nt := ev.observe(method(p, route, "NumTracks"), st, x)[0]
		cmp("number of tracks", st, cond, c.Len(tl), tInt, nt)
		k := ev.bound("k", c.Int(0), nt)
		in2 := c.And(cond, k.in)
		te := c.Restrict(ev.Load(st, c.Idx(tl, k.t), tt.(*types.Slice).Elem()), in2)
		y := c.Restrict(ev.observe(method(p, route, "TrackAt"), st, x, k.t)[0], in2)
		ev.leaves(te, in2, func(m, cond2 *Term) {
			if !ev.sat(cond2, 2000) {
				return
			}
			n++
			ev.c.nonNil[m.id] = true
			for _, q := range [][2]string{{"TrackId", "ID"}, {"Distance", "Distance"}, {"Color", "Color"}, {"NumSegments", "NumSegments"}} {
				g, ty := ev.ptField(st, m, pbt, q[0])
				cmp("track "+q[0], st, cond2, g, ty, ev.observe(method(p, track, q[1]), st, y)[0])
			}
			pm := ev.observe(method(p, track, "Props"), st, y)[0]
			g, ty := ev.ptField(st, m, pbt, "PropsCount")
			cmp("track PropsCount", st, cond2, g, ty, ev.mapLen(st, pm))
		})
	})
	if n < 2 {
		r.Ob("routes", false, at, "after %s no reported route or track", op)
	}
}
