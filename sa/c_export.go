package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G01, G02: routes survive export to and import from exchange formats.

func init() {
	register("G02", "value-flow analysis (gated SSA value numbering of the reader composed with the writer)", "The GPX exporter is evaluated for arbitrary routes up to the point where the document is handed to the XML encoder, and the importer on that very document from the point where the XML decoder hands it over. For an arbitrary route, track, point and property key, what is read must be what was written: identifiers, colours, names, points, and properties under the same key as a function of their printed value. Every section of a foreign document must contribute its routes.", checkG02)
	register("G01", "value-flow analysis (gated SSA value numbering of writer and reader against one document model)", "The GeoJSON exporter is evaluated for arbitrary routes up to the point where the document is handed to the JSON encoder, the importer for an arbitrary document of that form from the point where the JSON decoder hands it over. Every feature, property, track description and geometry point written must be the one of its route and track; every part of the routes read must be the one of its feature and description, for an arbitrary route, track, point and property key.", checkG01)
}

// jsonName is the name under which a struct field is encoded.
func jsonName(u *types.Struct, i int) string {
	tag := u.Tag(i)
	_, rest, ok := strings.Cut(tag, `json:"`)
	if !ok {
		return u.Field(i).Name()
	}
	rest, _, _ = strings.Cut(rest, `"`)
	name, _, _ := strings.Cut(rest, ",")
	if name == "" {
		return u.Field(i).Name()
	}
	return name
}

var (
	tAnyMap  = types.NewMap(tStr, types.NewInterfaceType(nil, nil))
	tAnyList = types.NewSlice(types.NewInterfaceType(nil, nil))
	tAny     = types.Type(types.NewInterfaceType(nil, nil))
)

var geoReserved = []string{"routeID", "color", "name", "numTracks", "tracksInfo", "distance", "units"}

// geoDoc answers reads of a decoded document of exported routes.
type geoDoc struct {
	ev      *Ev
	orb     func(name string) types.Type
	several bool

	doc         *Term // the list of features
	featureType types.Type
}

func (d *geoDoc) features(t *Term) bool {
	if t.op == "ini" && t.args[0].op == "fld" && t.args[0].aux == "Features" {
		b := t.args[0].args[0]
		return b.op == "call" && strings.HasPrefix(b.aux, "jsondec:")
	}
	return t.op == "call" && strings.HasPrefix(t.aux, "jsondec:") && strings.HasSuffix(t.aux, ".Features")
}

func (d *geoDoc) feature(t *Term) bool {
	return t.op == "ini" && t.args[0].op == "idx" && d.features(t.args[0].args[0])
}

func (d *geoDoc) props(t *Term) bool {
	return t.op == "ini" && t.args[0].op == "fld" && t.args[0].aux == "Properties" && d.feature(t.args[0].args[0])
}

func (d *geoDoc) text(name string, at ...*Term) *Term { return d.ev.uapp("doc:"+name, tStr, at...) }
func (d *geoDoc) iface(t *Term, ty types.Type) *Term  { return d.ev.mkIface(t, ty) }

func (d *geoDoc) list(name string, n *Term, ty types.Type, at ...*Term) *Term {
	return d.ev.c.raw("mkslice", "", false, n, d.ev.uapp("doc:"+name, ty, at...))
}

func (d *geoDoc) nat(name string, least int64, at ...*Term) *Term {
	t := d.ev.uapp("doc:"+name, tInt, at...)
	d.ev.c.nonNeg[t.id] = true
	return d.ev.c.Add(t, num(d.ev, least))
}

func (d *geoDoc) count(f *Term) *Term {
	if !d.several {
		return num(d.ev, 1)
	}
	return d.nat("more", 1, f)
}

func (d *geoDoc) line(f, j *Term) *Term {
	return d.list("line", d.nat("points", 2, f, j), d.orb("LineString"), f, j)
}

func (d *geoDoc) ring(f, j *Term) *Term {
	return d.list("ring", d.nat("corners", 3, f, j), d.orb("Ring"), f, j)
}

func (d *geoDoc) closed(f, j *Term) *Term { return d.ev.uapp("doc:closed", tBool, f, j) }

func (d *geoDoc) shape(f, j *Term) *Term {
	c := d.ev.c
	poly := d.list("polygon", num(d.ev, 1), d.orb("Polygon"), f, j)
	return c.Ite(c.atomB(d.closed(f, j)), d.iface(poly, d.orb("Polygon")), d.iface(d.line(f, j), d.orb("LineString")))
}

// info is the description of track j of feature f, props its property map.
func (d *geoDoc) info(f, j *Term) *Term {
	t := d.ev.uapp("doc:info", tAnyMap, f, j)
	d.ev.c.nonNil[t.id] = true
	return t
}

func (d *geoDoc) trackProps(f, j *Term) *Term {
	t := d.ev.uapp("doc:trackprops", tAnyMap, f, j)
	d.ev.c.nonNil[t.id] = true
	return t
}

// described: the description of a track without properties may leave them out.
func (d *geoDoc) described(f, j *Term) *Term { return d.ev.uapp("doc:described", tBool, f, j) }

func isDoc(t *Term, name string) bool { return t.op == "call" && t.aux == "doc:"+name }

func (d *geoDoc) has(m, k *Term) *Term {
	if k.op != "str" {
		return nil
	}
	if d.props(m) {
		for _, r := range geoReserved {
			if k.aux == r {
				return d.ev.c.True
			}
		}
	}
	if isDoc(m, "info") {
		switch k.aux {
		case "trackID", "color", "name", "distance", "numSegments":
			return d.ev.c.True
		case "properties":
			return d.ev.c.atomB(d.described(m.args[0], m.args[1]))
		}
		return d.ev.c.False
	}
	return nil
}

func (d *geoDoc) value(p *Term, ty types.Type) *Term {
	switch p.op {
	case "idx":
		b := p.args[0]
		switch {
		case isDoc(b, "infos"):
			return d.iface(d.info(b.args[0], p.args[1]), tAnyMap)
		case isDoc(b, "geometries"):
			return d.shape(b.args[0], p.args[1])
		case isDoc(b, "polygon"):
			return d.ring(b.args[0], b.args[1])
		}
	case "fld":
		f := p.args[0]
		if !d.feature(f) {
			return nil
		}
		switch p.aux {
		case "Type":
			return d.ev.c.leaf("str", "Feature")
		case "Geometry":
			if !d.several {
				return d.shape(f, num(d.ev, 0))
			}
			return d.iface(d.list("geometries", d.count(f), d.orb("Collection"), f), d.orb("Collection"))
		}
	case "mapelem":
		m, k := p.args[0], p.args[1]
		if k.op != "str" {
			return nil
		}
		if isDoc(m, "info") {
			f, j := m.args[0], m.args[1]
			switch k.aux {
			case "trackID", "color", "name":
				return d.iface(d.text("track."+k.aux, f, j), tStr)
			case "distance", "numSegments":
				return d.iface(d.ev.uapp("doc:track."+k.aux, tFloat, f, j), tFloat)
			case "properties":
				return d.iface(d.trackProps(f, j), tAnyMap)
			}
		}
		if d.props(m) {
			f := m.args[0].args[0]
			switch k.aux {
			case "routeID", "color", "name", "units":
				return d.iface(d.text(k.aux, f), tStr)
			case "numTracks", "distance":
				return d.iface(d.ev.uapp("doc:"+k.aux, tFloat, f), tFloat)
			case "tracksInfo":
				return d.iface(d.list("infos", d.count(f), tAnyList, f), tAnyList)
			}
		}
	}
	return nil
}

func checkG01(p *Prog, r *Report) {
	r.Rule("written", 30, "a route is written with its own identifier, colour, name and properties, each of its tracks with its own description and points")
	r.Rule("accepted", 2, "a document of exported routes is never refused")
	r.Rule("read", 30, "a route is read with the identifier, colour, name and properties of its feature, each of its tracks with its own description and points")
	routes := types.NewSlice(types.NewPointer(mustType(p, "navigator", "Route")))
	raw := types.NewSlice(types.Typ[types.Byte])
	for _, f := range exportedOf(p, "geojson") {
		sig := f.Signature
		if sig.Recv() == nil && sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), routes) {
			for _, several := range []bool{false, true} {
				r.guard("written", p.at(f), func() { geoWrite(p, r, f, several) })
			}
		}
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 {
			continue
		}
		if types.Identical(sig.Params().At(0).Type(), raw) && types.Identical(sig.Results().At(0).Type(), routes) {
			for _, several := range []bool{false, true} {
				r.guard("read", p.at(f), func() { geoRead(p, r, f, several) })
			}
		}
	}
}

func geoRead(p *Prog, r *Report, f *ssa.Function, several bool) {
	ev := session(p)
	c := ev.c
	d := &geoDoc{ev: ev, several: several}
	d.orb = func(name string) types.Type { return libType(p, "github.com/paulmach/orb", name) }
	ev.iniVal, ev.iniHas = d.value, d.has
	old := ev.iniHook
	ev.iniHook = func(t, a *Term, ty types.Type) {
		if d.feature(t) {
			d.doc, d.featureType = t.args[0].args[0], ty
		}
		if d.feature(t) || d.props(t) {
			c.nonNil[t.id] = true
		}
		old(t, a, ty)
	}
	args := ev.argSyms(f)
	st0 := ev.NewState()
	pre := st0.clone()
	st, v := ev.Call(f, args, nil, st0, nil, "")
	at := p.at(f)
	ev.assume(st, func(t *Term) *Term { return ev.validNames(p, t) })
	ev.settleLists(st, func(no, _ *Term) *Term { return ev.validNames(p, no) })
	pc := c.And(st.pc, c.EqAny(v[1], c.Nil))
	for _, t := range []*Term{v[1], pc} {
		walkTerms(t, func(x *Term) {
			if x.op == "call" && strings.HasPrefix(x.aux, "jsondecerr:") {
				pc = c.And(pc, c.EqAny(x, c.Nil))
			}
		})
	}
	sane := c.And(st.pc, ev.validNames(p, c.And(st.pc, c.Not(c.EqAny(v[1], c.Nil)))))
	walkTerms(v[1], func(x *Term) {
		if x.op == "call" && strings.HasPrefix(x.aux, "jsondecerr:") {
			sane = c.And(sane, c.EqAny(x, c.Nil))
		}
		if x.op == "call" && strings.HasPrefix(x.aux, "jsondec:") {
			sane = c.And(sane, c.Not(c.EqAny(x, c.Nil)))
		}
	})
	r.Ob("accepted", !ev.feasible(c.And(sane, c.Not(c.EqAny(v[1], c.Nil)))), at, "a document of exported routes is refused: %s", clip(ev.simp(v[1], sane).String(), 300))
	pc = c.And(pc, sane)

	rt, tt, sg := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	fc := d.doc
	if fc == nil {
		r.Ob("read", false, at, "the features of the document are not read")
		return
	}
	n := ev.simp(c.Len(v[0]), pc)
	r.Ob("read", ev.eqUnder(pc, n, c.Len(fc), tInt), at, "%s routes are read from a document of n features", clip(n.String(), 300))
	i := ev.bound("route", num(ev, 0), c.Len(fc))
	in := c.And(pc, i.in)
	feat := ev.Load(pre, c.Idx(fc, i.t), d.featureType)
	s := &subject{ev, p, rt, ev.simp(ev.Load(st, c.Idx(v[0], i.t), types.NewPointer(rt)), in)}
	kind := "one track"
	if several {
		kind = "several tracks"
	}
	same := func(what string, got, want *Term, ty types.Type, pc *Term) {
		pc = c.And(pc, ev.validNames(p, got))
		got = ev.simp(got, pc)
		r.Ob("read", ev.eqUnder(pc, got, want, ty), at, "%s of a route of %s is %s, should be %s", what, kind, clip(got.String(), 300), clip(want.String(), 200))
	}
	same("identifier", s.o(st, "ID"), d.text("routeID", feat), tStr, in)
	same("color", s.o(st, "Color"), d.text("color", feat), tStr, in)
	name := func(n *types.Named, self *Term) *Term {
		return s.of(st, namedOf(method(p, n, "Name").Signature.Results().At(0).Type()), "String", s.of(st, n, "Name", self))
	}
	same("name", name(rt, s.self), d.text("name", feat), tStr, in)
	same("number of tracks", s.o(st, "NumTracks"), d.count(feat), tInt, in)
	key := ev.sym("key", tStr)
	own := c.True
	for _, k := range geoReserved {
		own = c.And(own, c.Not(c.EqAny(key, c.leaf("str", k))))
	}
	in = c.And(in, ev.validNames(p, c.EqAny(d.text("name", feat), d.text("routeID", feat))))
	props := ev.simp(s.o(st, "Props"), in)
	fprops := ev.Load(pre, c.Fld(feat, "Properties"), tAnyMap)
	entry := func(what string, m, want, pc *Term) {
		a, b := ev.Load(st, ev.mapHas(m, key), tBool), ev.Load(pre, ev.mapHas(want, key), tBool)
		same("presence of a property of "+what, a, b, tBool, pc)
		pc = c.And(pc, c.atomB(b))
		same("property of "+what, ev.Load(st, ev.mapElem(m, key), tAny), ev.Load(pre, ev.mapElem(want, key), tAny), tAny, pc)
	}
	entry("the route", props, fprops, c.And(in, own))
	for _, k := range geoReserved {
		got := ev.simp(ev.Load(st, ev.mapHas(props, c.leaf("str", k)), tBool), in)
		r.Ob("read", got == c.False, at, "%s becomes a property of the route: %s", k, clip(got.String(), 200))
	}
	j := ev.bound("track", num(ev, 0), d.count(feat))
	if !several {
		j = boundSym{num(ev, 0), c.True}
	}
	in = c.And(in, j.in)
	track := s.o(st, "TrackAt", j.t)
	in = c.And(in, ev.validNames(p, track))
	track = ev.simp(track, in)
	same("track identifier", s.of(st, tt, "ID", track), d.text("track.trackID", feat, j.t), tStr, in)
	same("track color", s.of(st, tt, "Color", track), d.text("track.color", feat, j.t), tStr, in)
	same("track name", name(tt, track), d.text("track.name", feat, j.t), tStr, in)
	told, tprops := c.atomB(d.described(feat, j.t)), s.of(st, tt, "Props", track)
	for _, there := range []bool{true, false} {
		pc := c.And(in, told)
		if !there {
			pc = c.And(in, c.Not(told))
			same("presence of a property of a track without any", ev.Load(st, ev.mapHas(ev.simp(tprops, pc), key), tBool), c.False, tBool, pc)
			continue
		}
		entry("a track", ev.simp(tprops, pc), d.trackProps(feat, j.t), pc)
	}
	closed := c.atomB(d.closed(feat, j.t))
	for _, of := range []struct {
		pc   *Term
		list *Term
		ty   types.Type
	}{{c.And(in, c.Not(closed)), d.line(feat, j.t), d.orb("LineString")}, {c.And(in, closed), d.ring(feat, j.t), d.orb("Ring")}} {
		pts := c.Sub(c.Len(of.list), num(ev, 1))
		same("number of segments", s.of(st, tt, "NumSegments", track), pts, tInt, of.pc)
		k := ev.bound("point", num(ev, 0), pts)
		pc := c.And(of.pc, k.in)
		pc = c.And(pc, ev.validNames(p, s.of(st, tt, "NumSegments", track)))
		seg := ev.simp(s.of(st, tt, "SegmentAt", track, k.t), pc)
		for o, ends := range []string{"PointA", "PointB"} {
			got := s.of(st, sg, ends, seg)
			for x, fld := range []string{"Lon", "Lat"} {
				want := ev.Load(pre, c.Idx(c.Idx(of.list, c.Add(k.t, num(ev, int64(o)))), num(ev, int64(x))), tFloat)
				same(ends+"."+fld+" of a segment", c.Field(got, fld), want, tFloat, pc)
			}
		}
	}
	r.use(ev)
}

// validNames: names and identifiers in an exported document are ones that the
// library accepts. bad is the situation in question.
func (ev *Ev) validNames(p *Prog, bad *Term) *Term {
	c := ev.c
	return ev.known(bad, func(x *Term) *Term {
		if isDoc(x, "name") || isDoc(x, "track.name") {
			return ev.validName(p, x)
		}
		if isDoc(x, "track.trackID") || isDoc(x, "routeID") {
			return c.Lt(c.Int(0), c.Len(x))
		}
		return c.True
	})
}

func (ev *Ev) validName(p *Prog, x *Term) (out *Term) {
	c := ev.c
	var parse *ssa.Function
	for _, f := range validated(p) {
		if f.Name() == "ParseName" || parse == nil {
			parse = f
		}
	}
	ev.quietly(func() {
		_, v := ev.Call(parse, []*Term{x}, nil, ev.NewState(), nil, "?")
		out = c.Or(c.Le(c.Len(x), c.Int(0)), c.EqAny(v[1], c.Nil))
	})
	return out
}

// known collects the facts about the closed terms in bad. Searches that cannot
// succeed, given the facts, do not.
func (ev *Ev) known(bad *Term, fact func(x *Term) *Term) *Term {
	c := ev.c
	var rule func(t *Term) *Term
	rule = func(t *Term) *Term {
		out := c.True
		walkTerms(t, func(x *Term) {
			if len(x.free()) > 0 {
				return
			}
			out = c.And(out, fact(x))
			if x.op == "exists" && len(x.args) == 2 && x.args[0].op == "lam" {
				g := ev.kap(fmt.Sprintf("g%d", x.id))
				body := c.And(c.And(c.Le(num(ev, 0), g), c.Lt(g, x.args[1])), c.Inst(x.args[0], g))
				if !ev.feasible(c.And(body, rule(body))) {
					out = c.And(out, c.Not(c.atomB(x)))
				}
			}
		})
		return out
	}
	return rule(bad)
}

// assume simplifies the memory of st, given facts about the terms in it.
func (ev *Ev) assume(st *State, known func(t *Term) *Term) {
	c := ev.c
	for key, log := range st.logs {
		nl := make([]*entry, len(log))
		for i, e := range log {
			nl[i] = e
			if e.mark != nil {
				continue
			}
			n := *e
			if f := known(e.guard); f != c.True {
				n.guard = c.Restrict(e.guard, f)
			}
			if e.dom != nil {
				if f := known(e.dom); f != c.True {
					n.dom = c.Restrict(e.dom, f)
				}
			}
			if f := known(e.val); f != c.True {
				n.val = c.Restrict(e.val, f)
			}
			if n.guard == c.False || n.dom == c.False {
				n.guard = c.False
			}
			nl[i] = &n
		}
		st.logs[key] = nl
	}
}

// settleLists replaces lists of the elements that pass a test, where every element
// does.
func (ev *Ev) settleLists(st *State, known func(no, at *Term) *Term, in ...*Term) map[int]*Term {
	c := ev.c
	sub := map[int]*Term{}
	look := func(t *Term) {
		walkTerms(t, func(x *Term) {
			if x.op != "appfilter" || sub[x.id] != nil {
				return
			}
			g := ev.kap(fmt.Sprintf("g%d", x.id))
			gate := c.Inst(x.args[2], g)
			if free := gate.free(); len(free) > 0 {
				return
			}
			in := c.And(c.Le(num(ev, 0), g), c.Lt(g, x.args[1]))
			if no := c.And(in, c.Not(gate)); !ev.feasible(c.And(no, known(no, g))) {
				sub[x.id] = c.AppMap(x.args[0], x.args[1], x.args[3])
			}
		})
	}
	for _, v := range st.mem {
		look(v)
	}
	for _, log := range st.logs {
		for _, e := range log {
			if e.mark == nil {
				look(e.val)
			}
		}
	}
	for _, v := range in {
		look(v)
	}
	if len(sub) == 0 {
		return sub
	}
	for k, v := range st.mem {
		st.mem[k] = c.replace(v, sub, true)
	}
	for key, log := range st.logs {
		nl := make([]*entry, len(log))
		for i, e := range log {
			if nl[i] = e; e.mark == nil {
				nl[i] = e.mapped(func(t *Term) *Term { return c.replace(t, sub, true) })
			}
		}
		st.logs[key] = nl
	}
	return sub
}

func libType(p *Prog, path, name string) types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == path {
			if t := pk.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	panic(tooComplex{"no type " + path + "." + name})
}

// part is the member called name of a value that is to be encoded as a JSON object.
func (ev *Ev) part(st *State, v *Term, ty types.Type, name string, pc *Term) (*Term, types.Type) {
	v, ty = ev.plain(v, ty, pc)
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return ev.part(st, ev.Load(st, v, u.Elem()), u.Elem(), name, pc)
	case *types.Map:
		return ev.plain(ev.Load(st, ev.mapElem(v, ev.c.leaf("str", name)), u.Elem()), u.Elem(), pc)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if jsonName(u, i) == name {
				return ev.plain(ev.c.Field(v, u.Field(i).Name()), u.Field(i).Type(), pc)
			}
		}
	}
	return nil, nil
}

// plain is the value in an interface.
func (ev *Ev) plain(v *Term, ty types.Type, pc *Term) (*Term, types.Type) {
	v = ev.simp(v, pc)
	if _, ok := ty.Underlying().(*types.Interface); ok && v.op == "iface" {
		return v.args[0], ifaceTypes[v.aux]
	}
	return v, ty
}

func geoWrite(p *Prog, r *Report, f *ssa.Function, several bool) {
	ev := session(p)
	c := ev.c
	ft := libType(p, "github.com/paulmach/orb/geojson", "FeatureCollection")
	feature := types.NewPointer(libType(p, "github.com/paulmach/orb/geojson", "Feature"))
	orb := func(name string) types.Type { return libType(p, "github.com/paulmach/orb", name) }
	at := p.at(f)
	var doc *Term
	var st *State
	document := f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(ft))
	if !document {
		if f.Signature.Results().Len() != 2 {
			return
		}
		ev.onCall = func(fr *Frame, s *State, ci *CallInfo) ([]*Term, bool) {
			for k, a := range ci.Args {
				var ty types.Type
				if ci.Fn == nil || ci.Fn.Pkg == nil || p.inRepo(ci.Fn.Pkg.Pkg.Path()) {
					break
				}
				if k < len(ci.Fn.Params) {
					ty = ci.Fn.Params[k].Type()
				}
				if ty == nil {
					continue
				}
				a, ty = ev.plain(a, ty, s.pc)
				if !strings.Contains(ci.Fn.Name(), "Marshal") {
					continue
				}
				if types.Identical(ty, types.NewPointer(ft)) {
					a, ty = ev.Load(s, a, ft), ft
				}
				if types.Identical(ty, ft) {
					doc, st = a, s.clone()
					return []*Term{ev.uapp("geotext", types.NewSlice(types.Typ[types.Byte]), a), ev.uapp("geotexterr", tError, a)}, true
				}
			}
			return nil, false
		}
	}
	args := ev.argSyms(f)
	st0 := ev.NewState()
	pre := st0.clone()
	end, v := ev.Call(f, args, nil, st0, nil, "")
	ev.onCall = nil
	rt, tt, sg := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	n := c.Len(args[0])
	if document {
		doc, st = ev.Load(end, v[0], ft), end
	} else {
		if doc == nil {
			r.Ob("written", false, at, "no document is handed to the encoder")
			return
		}
		pc := c.And(end.pc, c.Lt(num(ev, 0), n))
		want := []*Term{ev.uapp("geotext", types.NewSlice(types.Typ[types.Byte]), doc), ev.uapp("geotexterr", tError, doc)}
		r.Ob("written", ev.eqUnder(pc, v[0], want[0], types.NewSlice(types.Typ[types.Byte])) && ev.eqUnder(pc, v[1], want[1], tError), at, "the result is %s, %s: not the encoded document", clip(v[0].String(), 200), clip(v[1].String(), 200))
	}
	routeAt := func(i *Term) *subject {
		return &subject{ev, p, rt, ev.Load(pre, c.Idx(args[0], i), types.NewPointer(rt))}
	}
	// Every route has tracks.
	some := func(i *Term) *Term { return c.Lt(num(ev, 0), routeAt(i).o(pre, "NumTracks")) }
	settled := ev.settleLists(st, func(_, i *Term) *Term { return some(i) }, doc)
	features := c.replace(c.Field(doc, "Features"), settled, true)
	pc := st.pc
	length := ev.simp(c.Len(features), pc)
	r.Ob("written", ev.eqUnder(c.And(pc, c.Lt(num(ev, 0), n)), length, n, tInt), at, "%s features are written for n routes with tracks", clip(length.String(), 300))
	r.Ob("written", ev.eqUnder(pc, c.Field(doc, "Type"), c.leaf("str", "FeatureCollection"), tStr), at, "the document is no feature collection")
	i := ev.bound("route", num(ev, 0), n)
	tracks := routeAt(i.t).o(pre, "NumTracks")
	pc = c.And(pc, i.in)
	if several {
		pc = c.And(pc, c.Lt(num(ev, 1), tracks))
	} else {
		pc = c.And(pc, c.EqAny(tracks, num(ev, 1)))
	}
	kind := "one track"
	if several {
		kind = "several tracks"
	}
	fe := ev.simp(ev.Load(st, c.Idx(features, i.t), feature), pc)
	same := func(what string, got *Term, gt types.Type, want *Term, ty types.Type, pc *Term) {
		if got == nil {
			r.Ob("written", false, at, "%s of a route with %s is not written", what, kind)
			return
		}
		got, gt = ev.plain(got, gt, pc)
		r.Ob("written", types.Identical(gt.Underlying(), ty.Underlying()) && ev.eqUnder(pc, got, want, ty), at, "%s of a route with %s is %s (%s), should be %s", what, kind, clip(got.String(), 300), gt, clip(want.String(), 200))
	}
	same("feature type", ev.Load(st, c.Fld(fe, "Type"), tStr), tStr, c.leaf("str", "Feature"), tStr, pc)
	s := routeAt(i.t)
	name := func(n *types.Named, self *Term) *Term {
		return s.of(pre, namedOf(method(p, n, "Name").Signature.Results().At(0).Type()), "String", s.of(pre, n, "Name", self))
	}
	props := ev.simp(ev.Load(st, c.Fld(fe, "Properties"), tAnyMap), pc)
	prop := func(name string) (*Term, types.Type) { return ev.part(st, props, tAnyMap, name, pc) }
	id, ty := prop("routeID")
	same("identifier", id, ty, s.o(pre, "ID"), tStr, pc)
	col, ty := prop("color")
	same("color", col, ty, s.o(pre, "Color"), tStr, pc)
	nm, ty := prop("name")
	same("name", nm, ty, name(rt, s.self), tStr, pc)
	for _, k := range geoReserved {
		same("presence of "+k, ev.Load(st, ev.mapHas(props, c.leaf("str", k)), tBool), tBool, c.True, tBool, pc)
	}
	key := ev.sym("key", tStr)
	own := pc
	for _, k := range geoReserved {
		own = c.And(own, c.Not(c.EqAny(key, c.leaf("str", k))))
	}
	entry := func(what string, m, want, pc *Term) {
		a, b := ev.Load(st, ev.mapHas(m, key), tBool), ev.Load(pre, ev.mapHas(want, key), tBool)
		same("presence of a property of "+what, a, tBool, b, tBool, pc)
		pc = c.And(pc, c.atomB(b))
		a, b = ev.Load(st, ev.mapElem(m, key), tAny), ev.Load(pre, ev.mapElem(want, key), tAny)
		r.Ob("written", ev.eqUnder(pc, a, b, tAny), at, "a property of %s is written as %s, should be %s", what, clip(a.String(), 300), clip(b.String(), 200))
	}
	entry("the route", props, ev.simp(s.o(pre, "Props"), pc), own)
	infos, ty := prop("tracksInfo")
	sl, ok := ty, false
	var elem types.Type
	if infos != nil {
		var u *types.Slice
		if u, ok = sl.Underlying().(*types.Slice); ok {
			elem = u.Elem()
		}
	}
	if !ok {
		r.Ob("written", false, at, "tracksInfo is no list")
		return
	}
	same("number of track descriptions", c.Len(infos), tInt, tracks, tInt, pc)
	j := ev.bound("track", num(ev, 0), tracks)
	geo := ev.simp(ev.Load(st, c.Fld(fe, "Geometry"), orb("Geometry")), pc)
	in := c.And(pc, j.in)
	if several {
		list, is := ev.typeAssert(geo, orb("Collection"))
		r.Ob("written", ev.entails(pc, c.atomB(is)), at, "the geometry of a route of several tracks is %s, no collection", clip(geo.String(), 300))
		same("number of geometries", c.Len(list), tInt, tracks, tInt, pc)
		geo = ev.simp(ev.Load(st, c.Idx(list, j.t), orb("Geometry")), in)
	} else {
		j = boundSym{num(ev, 0), c.True}
	}
	info := ev.Load(st, c.Idx(infos, j.t), elem)
	track := ev.simp(s.o(pre, "TrackAt", j.t), in)
	for _, k := range []struct {
		name string
		want *Term
	}{{"trackID", s.of(pre, tt, "ID", track)}, {"color", s.of(pre, tt, "Color", track)}, {"name", name(tt, track)}} {
		got, ty := ev.part(st, info, elem, k.name, in)
		same("track "+k.name, got, ty, k.want, tStr, in)
	}
	tp, ty := ev.part(st, info, elem, "properties", in)
	if tp == nil {
		r.Ob("written", false, at, "the properties of a track are not written")
	} else {
		entry("a track", tp, ev.simp(s.of(pre, tt, "Props", track), in), in)
	}
	line, isLine := ev.typeAssert(geo, orb("LineString"))
	poly, isPoly := ev.typeAssert(geo, orb("Polygon"))
	r.Ob("written", ev.entails(in, c.Or(c.atomB(isLine), c.atomB(isPoly))), at, "the geometry of a track is %s, neither a line nor a polygon", clip(geo.String(), 300))
	segs := s.of(pre, tt, "NumSegments", track)
	for _, of := range []struct {
		pc   *Term
		list *Term
	}{{c.And(in, c.atomB(isLine)), line}, {c.And(in, c.atomB(isPoly)), ev.Load(st, c.Idx(poly, num(ev, 0)), orb("Ring"))}} {
		pc := c.And(of.pc, c.Lt(num(ev, 0), segs))
		if !ev.feasible(pc) {
			continue
		}
		list := ev.simp(of.list, pc)
		same("number of points", c.Len(list), tInt, c.Add(segs, num(ev, 1)), tInt, pc)
		for _, o := range []string{"PointA", "PointB"} {
			k := ev.bound("point", num(ev, 0), segs)
			pc := c.And(pc, k.in)
			pos, of := k.t, k.t
			if o == "PointB" {
				pos, of = segs, c.Sub(segs, num(ev, 1)) // the end of the last segment
			}
			seg := ev.simp(s.of(pre, tt, "SegmentAt", track, of), pc)
			want := s.of(pre, sg, o, seg)
			for x, fld := range []string{"Lon", "Lat"} {
				got := ev.Load(st, c.Idx(c.Idx(list, pos), num(ev, int64(x))), tFloat)
				same(o+"."+fld, got, tFloat, c.Field(want, fld), tFloat, pc)
			}
		}
	}
	r.use(ev)
}

var gpxReserved = []string{"id", "color", "name", "distance", "units", "tracksInfo", "numTracks"}

func checkG02(p *Prog, r *Report) {
	r.Rule("accepted", 1, "a document of exported routes is never refused")
	r.Rule("foreign", 10, "every route, track and list of waypoints of a foreign document becomes a route, in order, with its tracks and points")
	r.Rule("coordinates", 1, "the encoder writes every coordinate as a text that is read as the same number, to ten decimals")
	r.Rule("names", 2, "every attribute written has a name that XML allows")
	r.Rule("written", 2, "every route and track described in the document has members or text, so the XML encoder keeps its description")
	r.Rule("round", 20, "a route is read with its own identifier, colour, name and properties, each of its tracks with its own description and points")
	routes := types.NewSlice(types.NewPointer(mustType(p, "navigator", "Route")))
	raw := types.NewSlice(types.Typ[types.Byte])
	var enc, dec []*ssa.Function
	for _, f := range exportedOf(p, "gpx") {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 {
			continue
		}
		in, out := sig.Params().At(0).Type(), sig.Results().At(0).Type()
		if types.Identical(in, routes) && types.Identical(out, raw) {
			enc = append(enc, f)
		}
		if types.Identical(in, raw) && types.Identical(out, routes) {
			dec = append(dec, f)
		}
	}
	r.guard("coordinates", "gpxgo", func() { gpxNumbers(p, r) })
	for _, d := range dec {
		r.guard("foreign", p.at(d), func() { gpxForeign(p, r, d) })
	}
	for _, e := range enc {
		for _, d := range dec {
			r.guard("round", p.at(e), func() { gpxRound(p, r, e, d) })
		}
	}
}

// gpxNumbers: the encoder's library must not strip zeros and the decimal point
// together, which eats the zeros of a whole number.
func gpxNumbers(p *Prog, r *Report) {
	const lib = "github.com/tkrajina/gpxgo/gpx"
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() != lib {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if b, ok := t.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
				continue
			}
			sel := p.prog.MethodSets.MethodSet(t.Type()).Lookup(pk.Pkg, "MarshalXMLAttr")
			if sel == nil {
				continue
			}
			f := p.prog.MethodValue(sel)
			ok = f != nil && len(f.Blocks) > 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, is := in.(*ssa.Call)
					if !is || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().String(), "strings.Trim") {
						continue
					}
					for _, a := range call.Call.Args[1:] {
						k, is := a.(*ssa.Const)
						if !is || k.Value == nil || k.Value.Kind() != constant.String {
							ok = false
							continue
						}
						cut := constant.StringVal(k.Value)
						if strings.Contains(call.Call.StaticCallee().Name(), "ix") {
							continue
						}
						ok = ok && !(strings.Contains(cut, ".") && strings.ContainsAny(cut, "0123456789"))
					}
				}
			}
			r.Ob("coordinates", ok, "gpxgo "+t.Name(), "whole coordinates that end in zero are written without it: 40 is read as 4, 0 is written as an empty text")
		}
	}
}

// gpxWritten: the XML encoder leaves out nodes with neither members nor text, so
// every node in a list of the document has some.
func gpxWritten(p *Prog, r *Report, ev *Ev, st, pre *State, at string, doc *Term, gt, node types.Type) {
	c := ev.c
	tt := mustType(p, "navigator", "Track")
	memo := map[int]*Term{}
	known := func(bad *Term) *Term {
		return ev.known(bad, func(x *Term) *Term {
			if x.op != "ini" || x.typ == nil || !types.Identical(x.typ, types.NewPointer(tt)) {
				return c.True
			}
			if memo[x.id] == nil {
				memo[x.id] = c.True
				s := &subject{ev, p, tt, x}
				ev.quietly(func() { memo[x.id] = c.Lt(num(ev, 0), c.Len(s.o(pre, "ID"))) })
			}
			return memo[x.id]
		})
	}
	var check func(what string, list, pc *Term, depth int)
	check = func(what string, list, pc *Term, depth int) {
		list = ev.simp(list, pc)
		k := ev.kap("k" + what)
		n, el := c.Len(list), (*Term)(nil)
		in := c.And(pc, c.Le(num(ev, 0), k))
		if list.op == "appfilter" && c.Len(list.args[0]) == num(ev, 0) {
			n = list.args[1]
			in = c.And(in, c.Inst(list.args[2], k))
			el = c.Inst(list.args[3], k)
		} else {
			el = ev.Load(st, c.Idx(list, k), node)
		}
		in = c.And(in, c.Lt(k, n))
		el = ev.simp(el, in)
		nodes, data := c.Field(el, "Nodes"), c.Field(el, "Data")
		bare := c.And(in, c.And(c.Le(c.Len(nodes), num(ev, 0)), c.Le(c.Len(data), num(ev, 0))))
		r.Ob("written", !ev.feasible(c.And(bare, known(bare))), at, "%s may have neither members nor text and is left out by the XML encoder, so the description of another one is read for it: %s", what, clip(el.String(), 300))
		free := false
		walkTerms(c.Field(el, "Attrs"), func(x *Term) {
			if x.op != "struct" || !strings.HasPrefix(x.aux, "xml.Name;") || len(x.args) != 2 {
				return
			}
			free = free || x.args[1].op != "str" && x.args[1].op != "ite"
		})
		r.Ob("names", !free, "attributes of "+what, "a property key need not be an XML name (a key with a blank makes the document unreadable, a prefix is cut off)")
		if depth > 0 {
			check("the node of a track", nodes, in, depth-1)
		}
	}
	all := c.Field(c.Field(ev.Load(st, doc, gt), "Extensions"), "Nodes")
	root := ev.Load(st, c.Idx(all, num(ev, 0)), node)
	check("the node of a route", c.Field(root, "Nodes"), st.pc, 1)
}

func gpxRound(p *Prog, r *Report, enc, dec *ssa.Function) {
	ev := session(p)
	c := ev.c
	const lib = "github.com/tkrajina/gpxgo/gpx"
	gt := libType(p, lib, "GPX")
	node := libType(p, lib, "ExtensionNode")
	ev.inline = func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != lib || f.Signature.Recv() == nil {
			return false
		}
		n := namedOf(f.Signature.Recv().Type())
		return n != nil && types.Identical(n, node) && !strings.Contains(f.Name(), "Tokens")
	}
	var doc *Term
	var st *State
	bytes := types.NewSlice(types.Typ[types.Byte])
	var text *Term
	ev.onCall = func(fr *Frame, s *State, ci *CallInfo) ([]*Term, bool) {
		if ci.Fn == nil || ci.Fn.Pkg == nil || p.inRepo(ci.Fn.Pkg.Pkg.Path()) {
			return nil, false
		}
		sig := ci.Fn.Signature
		if sig.Results().Len() != 2 {
			return nil, false
		}
		for k, a := range ci.Args {
			if k < len(ci.Fn.Params) && types.Identical(ci.Fn.Params[k].Type(), types.NewPointer(gt)) && types.Identical(sig.Results().At(0).Type(), bytes) {
				doc, st = a, s.clone()
				text = ev.uapp("gpxtext", bytes, a)
				return []*Term{text, ev.uapp("gpxtexterr", tError, a)}, true
			}
		}
		if doc != nil && len(ci.Args) == 1 && types.Identical(sig.Results().At(0).Type(), types.NewPointer(gt)) {
			return []*Term{doc, c.Nil}, true
		}
		return nil, false
	}
	args := ev.argSyms(enc)
	st0 := ev.NewState()
	pre := st0.clone()
	end, out := ev.Call(enc, args, nil, st0, nil, "")
	at := p.at(enc)
	if doc == nil {
		r.Ob("round", false, at, "no document is handed to the encoder")
		return
	}
	some := c.And(end.pc, c.Lt(num(ev, 0), c.Len(args[0])))
	r.Ob("round", ev.eqUnder(some, out[0], text, bytes) && ev.eqUnder(some, out[1], ev.uapp("gpxtexterr", tError, doc), tError), at, "the result is %s, %s: not the encoded document", clip(out[0].String(), 200), clip(out[1].String(), 200))
	rt, tt, sg := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	n := c.Len(args[0])
	routeAt := func(i *Term) *subject {
		return &subject{ev, p, rt, ev.Load(pre, c.Idx(args[0], i), types.NewPointer(rt))}
	}
	name := func(st *State, n *types.Named, self *Term) *Term {
		s := &subject{ev, p, n, self}
		return s.of(st, namedOf(method(p, n, "Name").Signature.Results().At(0).Type()), "String", s.o(st, "Name"))
	}
	memo := map[int]*Term{}
	gpxWritten(p, r, ev, st, pre, at, doc, gt, node)
	known := func(bad *Term) *Term {
		return ev.known(bad, func(x *Term) *Term {
			if x.op != "ini" {
				return c.True
			}
			if memo[x.id] != nil {
				return memo[x.id]
			}
			memo[x.id] = c.True
			for _, n := range []*types.Named{rt, tt} {
				if x.typ == nil || !types.Identical(x.typ, types.NewPointer(n)) {
					continue
				}
				s := &subject{ev, p, n, x}
				ev.quietly(func() {
					part := "NumTracks"
					if n == tt {
						part = "NumSegments"
					}
					memo[x.id] = c.And(c.And(c.Lt(num(ev, 0), s.o(pre, part)), c.Lt(num(ev, 0), c.Len(s.o(pre, "ID")))), ev.validName(p, name(pre, n, x)))
				})
			}
			return memo[x.id]
		})
	}
	ev.assume(st, known)
	doc = c.replace(doc, ev.settleLists(st, func(no, _ *Term) *Term { return known(no) }, doc), true)
	st, v := ev.Call(dec, []*Term{text}, nil, st, nil, "")
	pc := c.And(st.pc, c.Lt(num(ev, 0), c.Len(text)))
	pc = c.And(pc, known(v[1]))
	r.Ob("accepted", !ev.feasible(c.And(pc, c.Not(c.EqAny(v[1], c.Nil)))), at, "a document of exported routes is refused: %s", clip(ev.simp(v[1], pc).String(), 300))
	pc = c.And(pc, c.EqAny(v[1], c.Nil))
	ev.assume(st, known)
	settled := ev.settleLists(st, func(no, _ *Term) *Term { return known(no) }, v[0])
	list := ev.simp(c.replace(v[0], settled, true), pc)
	same := func(what string, got, want *Term, ty types.Type, pc *Term) {
		pc = c.And(pc, known(got))
		got = ev.simp(got, pc)
		r.Ob("round", ev.eqUnder(pc, got, want, ty), at, "%s is read as %s, should be %s", what, clip(got.String(), 300), clip(want.String(), 200))
	}
	same("the number of routes", c.Len(list), n, tInt, pc)
	i := ev.bound("route", num(ev, 0), n)
	pc = c.And(pc, i.in)
	a := routeAt(i.t)
	pc = c.And(pc, known(a.self))
	b := &subject{ev, p, rt, ev.simp(ev.Load(st, c.Idx(list, i.t), types.NewPointer(rt)), pc)}
	key := ev.sym("key", tStr)
	reserved := c.False
	for _, k := range gpxReserved {
		reserved = c.Or(reserved, c.EqAny(key, c.leaf("str", k)))
	}
	props := func(what string, got, want, pc *Term) {
		has, had := ev.Load(st, ev.mapHas(got, key), tBool), ev.Load(pre, ev.mapHas(want, key), tBool)
		pc = c.And(pc, c.Or(c.Not(c.atomB(had)), c.Lt(num(ev, 0), ev.mapLen(pre, want))))
		for _, k := range gpxReserved {
			same(k+" as a property of "+what, ev.Load(st, ev.mapHas(got, c.leaf("str", k)), tBool), c.False, tBool, pc)
		}
		pc = c.And(pc, c.Not(reserved))
		same("presence of a property of "+what, has, had, tBool, pc)
		pc = c.And(pc, c.atomB(had))
		text := ev.printed(c.leaf("str", "%v"), ev.simp(ev.Load(pre, ev.mapElem(want, key), tAny), pc))
		val := ev.simp(ev.Load(st, ev.mapElem(got, key), tAny), pc)
		tau := ev.sym("printed value", tStr)
		val = c.replace(val, map[int]*Term{text.id: tau}, true)
		plain := true
		unparsed := pc
		walkTerms(val, func(x *Term) {
			plain = plain && (x == tau || x.op != "sym" && x.op != "ini" && x.op != "alloc" && x.op != "kappa" && x.op != "havf")
			if x.op == "call" && x.typ != nil && types.Identical(x.typ, tError) {
				unparsed = c.And(unparsed, c.Not(c.EqAny(x, c.Nil)))
			}
		})
		r.Ob("round", plain, at, "a property of %s is read as %s, not as the printed value of that property", what, clip(val.String(), 400))
		r.Ob("round", ev.eqUnder(unparsed, val, ev.mkIface(tau, tStr), tAny), at, "a property of %s that is neither a number nor a boolean is read as %s, not as its printed value", what, clip(ev.simp(val, unparsed).String(), 300))
	}
	same("the identifier of a route", b.o(st, "ID"), a.o(pre, "ID"), tStr, pc)
	same("the color of a route", b.o(st, "Color"), a.o(pre, "Color"), tStr, pc)
	same("the name of a route", name(st, rt, b.self), name(pre, rt, a.self), tStr, pc)
	tracks := a.o(pre, "NumTracks")
	same("the number of tracks", b.o(st, "NumTracks"), tracks, tInt, pc)
	props("a route", ev.simp(b.o(st, "Props"), pc), ev.simp(a.o(pre, "Props"), pc), pc)
	j := ev.bound("track", num(ev, 0), tracks)
	pc = c.And(pc, j.in)
	x, y := a.o(pre, "TrackAt", j.t), b.o(st, "TrackAt", j.t)
	pc = c.And(c.And(pc, known(x)), known(y))
	x, y = ev.simp(x, pc), ev.simp(y, pc)
	same("the identifier of a track", b.of(st, tt, "ID", y), a.of(pre, tt, "ID", x), tStr, pc)
	same("the color of a track", b.of(st, tt, "Color", y), a.of(pre, tt, "Color", x), tStr, pc)
	same("the name of a track", name(st, tt, y), name(pre, tt, x), tStr, pc)
	props("a track", ev.simp(b.of(st, tt, "Props", y), pc), ev.simp(a.of(pre, tt, "Props", x), pc), pc)
	segs := a.of(pre, tt, "NumSegments", x)
	same("the number of segments", b.of(st, tt, "NumSegments", y), segs, tInt, pc)
	for _, last := range []bool{false, true} {
		at := ev.bound("segment", num(ev, 0), segs)
		ends := []string{"PointA"}
		if last {
			at = boundSym{c.Sub(segs, num(ev, 1)), c.True}
			ends = []string{"PointA", "PointB"}
		}
		pc := c.And(pc, at.in)
		sx, sy := a.of(pre, tt, "SegmentAt", x, at.t), b.of(st, tt, "SegmentAt", y, at.t)
		pc = c.And(c.And(pc, known(sx)), known(sy))
		sx, sy = ev.simp(sx, pc), ev.simp(sy, pc)
		for _, end := range ends {
			px, py := a.of(pre, sg, end, sx), b.of(st, sg, end, sy)
			for _, f := range []string{"Lon", "Lat"} {
				same(end+"."+f+" of a segment", c.Field(py, f), c.Field(px, f), tFloat, pc)
			}
		}
	}
	r.use(ev)
}

func gpxForeign(p *Prog, r *Report, dec *ssa.Function) {
	ev := session(p)
	c := ev.c
	const lib = "github.com/tkrajina/gpxgo/gpx"
	gt := libType(p, lib, "GPX")
	doc := ev.sym("document", types.NewPointer(gt))
	c.nonNil[doc.id] = true
	parsed := false
	ev.onCall = func(fr *Frame, s *State, ci *CallInfo) ([]*Term, bool) {
		if ci.Fn == nil || ci.Fn.Pkg == nil || p.inRepo(ci.Fn.Pkg.Pkg.Path()) || len(ci.Args) != 1 {
			return nil, false
		}
		if res := ci.Fn.Signature.Results(); res.Len() == 2 && types.Identical(res.At(0).Type(), types.NewPointer(gt)) {
			parsed = true
			return []*Term{doc, c.Nil}, true
		}
		return nil, false
	}
	rt, tt, sg := mustType(p, "navigator", "Route"), mustType(p, "navigator", "Track"), mustType(p, "navigator", "Segment")
	args := ev.argSyms(dec)
	st0 := ev.NewState()
	pre := st0.clone()
	st, v := ev.Call(dec, args, nil, st0, nil, "")
	at := p.at(dec)
	if !parsed {
		r.Ob("foreign", false, at, "no document is parsed")
		return
	}
	doct := func(name string) (*Term, types.Type) {
		u := gt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return ev.Load(pre, c.Fld(doc, name), u.Field(i).Type()), u.Field(i).Type()
			}
		}
		panic(tooComplex{"no field " + name})
	}
	part := func(t *Term, ty types.Type, name string) (*Term, types.Type) {
		u := ty.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return c.Field(t, name), u.Field(i).Type()
			}
		}
		panic(tooComplex{"no field " + name})
	}
	elem := func(list *Term, ty types.Type, i *Term) (*Term, types.Type) {
		e := ty.Underlying().(*types.Slice).Elem()
		return ev.Load(pre, c.Idx(list, i), e), e
	}
	ext, et := doct("Extensions")
	nodes, _ := part(ext, et, "Nodes")
	pc := c.And(c.And(st.pc, c.EqAny(c.Len(nodes), num(ev, 0))), c.And(c.EqAny(v[1], c.Nil), c.Lt(num(ev, 0), c.Len(args[0]))))
	list := ev.simp(v[0], pc)
	rs, rty := doct("Routes")
	ts, tty := doct("Tracks")
	ws, wty := doct("Waypoints")
	nr, nt, nw := c.Len(rs), c.Len(ts), c.Len(ws)
	// every route and track has points for a segment
	gpt := libType(p, lib, "GPXPoint")
	known := func(bad *Term) *Term {
		return ev.known(bad, func(x *Term) *Term {
			if x.op == "len" && x.args[0].typ != nil && types.Identical(x.args[0].typ, types.NewSlice(gpt)) {
				enough := c.Lt(num(ev, 1), x)
				if x.args[0] == ws {
					enough = c.Or(enough, c.EqAny(x, num(ev, 0)))
				}
				return enough
			}
			return c.True
		})
	}
	pc = c.And(pc, known(v[1]))
	r.Ob("foreign", !ev.feasible(c.And(c.And(st.pc, known(v[1])), c.Not(c.EqAny(v[1], c.Nil)), c.And(c.EqAny(c.Len(nodes), num(ev, 0)), c.Lt(num(ev, 0), c.Len(args[0]))))), at, "a document with points for every route and track is refused: %s", clip(ev.simp(v[1], pc).String(), 300))
	list = ev.simp(list, pc)
	same := func(what string, got, want *Term, ty types.Type, pc *Term) {
		pc = c.And(pc, known(got))
		got = ev.simp(got, pc)
		r.Ob("foreign", ev.eqUnder(pc, got, want, ty), at, "%s is %s, should be %s", what, clip(got.String(), 300), clip(want.String(), 200))
	}
	for _, way := range []bool{false, true} {
		in, n := c.And(pc, c.EqAny(nw, num(ev, 0))), c.Add(nr, nt)
		if way {
			in, n = c.And(pc, c.Lt(num(ev, 0), nw)), c.Add(n, num(ev, 1))
		}
		same("the number of routes", c.Len(list), n, tInt, in)
	}
	points := func(what string, at, tracks, k, pts *Term, ty types.Type, pc *Term) {
		b := &subject{ev, p, rt, ev.simp(ev.Load(st, c.Idx(list, at), types.NewPointer(rt)), pc)}
		same("the number of tracks of "+what, b.o(st, "NumTracks"), tracks, tInt, pc)
		pc = c.And(pc, known(b.self))
		track := b.o(st, "TrackAt", k)
		pc = c.And(pc, c.And(known(track), known(c.Len(pts))))
		track = ev.simp(track, pc)
		segs := b.of(st, tt, "NumSegments", track)
		same("the number of segments of "+what, segs, c.Sub(c.Len(pts), num(ev, 1)), tInt, pc)
		for o, end := range []string{"PointA", "PointB"} {
			q := ev.bound("point", num(ev, 0), c.Sub(c.Len(pts), num(ev, 1)))
			pc := c.And(pc, q.in)
			seg := ev.simp(b.of(st, tt, "SegmentAt", track, q.t), pc)
			got := b.of(st, sg, end, seg)
			e, ety := elem(pts, ty, c.Add(q.t, num(ev, int64(o))))
			point, pty := part(e, ety, "Point")
			for _, f := range [][2]string{{"Lon", "Longitude"}, {"Lat", "Latitude"}} {
				want, _ := part(point, pty, f[1])
				same(end+"."+f[0]+" of "+what, c.Field(got, f[0]), want, tFloat, pc)
			}
		}
	}
	i := ev.bound("route", num(ev, 0), nr)
	e, ety := elem(rs, rty, i.t)
	pts, pty := part(e, ety, "Points")
	points("a route", i.t, num(ev, 1), num(ev, 0), pts, pty, c.And(pc, i.in))
	i = ev.bound("track", num(ev, 0), nt)
	e, ety = elem(ts, tty, i.t)
	segs, sty := part(e, ety, "Segments")
	j := ev.bound("part", num(ev, 0), c.Len(segs))
	e, ety = elem(segs, sty, j.t)
	pts, pty = part(e, ety, "Points")
	in := c.And(pc, c.And(i.in, j.in))
	whole := list
	list = c.replace(list, map[int]*Term{nr.id: num(ev, 0)}, true)
	points("a track", i.t, c.Len(segs), j.t, pts, pty, c.And(in, c.EqAny(nr, num(ev, 0))))
	list = whole
	points("a track after routes", c.Add(nr, i.t), c.Len(segs), j.t, pts, pty, c.And(in, c.Lt(num(ev, 0), nr)))
	points("the waypoints", c.Add(nr, nt), num(ev, 1), num(ev, 0), ws, wty, c.And(pc, c.Lt(num(ev, 0), nw)))
	r.use(ev)
}
