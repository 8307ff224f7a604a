package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N06: queries have no effects.

func init() {
	register("N06", "interprocedural effect analysis (gated SSA value numbering)", "Every exported function and method that is not one of the documented modifiers is evaluated on an arbitrary object; the locations reachable from its arguments whose content can differ afterwards must be none (lazily created property maps excepted, as Props observes the same before and after).", checkN06)
}

// modifiers are the exported operations meant to change something.
var modifiers = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`
		Device.SetModel Device.SetUserID Device.SetDescription Device.SetColor Device.AddSensor Device.ResetSensors
		Device.RemoveSensor Device.AddRoute Device.RemoveRoute Device.RemoveTrack Device.Update Device.IsFinish
		Device.ResetRoutes Device.DestinationTo Device.MoveToSegment Device.MoveToTrack Device.MoveToRoute
		Device.MoveToTrackByID Device.MoveToRouteByID Device.ToPrevRoute Device.ToNextRoute Device.ToOffline
		Device.ResetNavigator Device.Next Device.UnmarshalBinary Device.FromSnapshot
		Generator.Attach Generator.Detach Generator.OnError Generator.OnPacket Generator.OnNext Generator.Run Generator.Close
		Navigator.ResetRoutes Navigator.RemoveRoute Navigator.RemoveTrack Navigator.IsFinish Navigator.Update
		Navigator.NextRoute Navigator.PrevRoute Navigator.MoveToRouteByID Navigator.MoveToTrackByID Navigator.MoveToRoute
		Navigator.MoveToTrack Navigator.MoveToSegment Navigator.DestinationTo Navigator.ToOffline Navigator.NextElevation
		Navigator.ShuffleElevation Navigator.NextLocation Navigator.FromSnapshot Navigator.Reset Navigator.AddRoute
		Route.RemoveTrack Route.AddTrack Route.RouteFromSnapshot Route.ChangeColor Route.ChangeName
		Track.ChangeColor Track.ChangeName TrackFromSnapshot
		Curve.FromSnapshot Curve.Shuffle Curve.Point
		Sensor.Next Sensor.Shuffle Sensor.FromSnapshot Sensor.ProtoFromSnapshot Speed.Next Speed.Shuffle Speed.FromSnapshot
		Battery.Next Battery.Reset Battery.FromSnapshot
		Properties.Merge Properties.Set Properties.Remove Properties.Reset
		NewDevice New`) {
		modifiers[s] = true
	}
}

// apiName is the name of an exported function, with its receiver type.
func apiName(f *ssa.Function) string {
	if n := recvOf(f); n != nil {
		return n.Obj().Name() + "." + f.Name()
	}
	return f.Name()
}

var queryPkgs = []string{"", "navigator", "types", "curve", "geo", "geojson", "gpx", "random", "properties"}

func checkN06(p *Prog, r *Report) {
	r.Rule("pure", 100, "the operation changes nothing reachable from its arguments")
	r.Rule("refresh", 1, "encoding a device changes at most its derived reported state")
	dev := mustType(p, "", "Device")
	pbd := mustType(p, "proto", "Device")
	for _, rel := range queryPkgs {
		if p.pkg(rel) == nil {
			continue
		}
		for _, f := range exportedOf(p, rel) {
			f := f
			name := apiName(f)
			if modifiers[name] || !reachesMemory(p, f) {
				continue
			}
			r.guard("pure", p.at(f), func() {
				ev := session(p)
				args := ev.argSyms(f)
				st, _ := ev.Call(f, args, nil, ev.NewState(), nil, "")
				r.use(ev)
				if st == nil {
					return
				}
				var chg []change
				for _, ch := range ev.diffs(st, st.pc) {
					if !inputLoc(ch.addr) || ev.lazyMap(st, ch) {
						continue
					}
					if name == "EncodeTracker" {
						// Update refreshes the reported state
						b := baseOf(ch.addr, func(t *Term) bool { return isPtrTo(t, pbd) })
						ok := b != nil
						if ch.addr.op == "fld" && isPtrTo(ch.addr.args[0], dev) {
							ty := ev.keyTyp[ch.addr]
							ok = ty != nil && (isNumeric(ty) && !isInteger(ty))
							if ty != nil && types.Identical(ty, types.NewPointer(pbd)) {
								ok = false
							}
						}
						if x := baseOf(ch.addr, func(t *Term) bool {
							if t.op != "fld" || !isPtrTo(t.args[0], dev) {
								return false
							}
							fs := fieldsOfType(dev, "[3]int")
							return len(fs) == 1 && t.aux == fs[0]
						}); x != nil {
							ok = true
						}
						r.Ob("refresh", ok, p.at(f), "encoding changes only the reported state: %s", ch)
						continue
					}
					chg = append(chg, ch)
				}
				r.Ob("pure", len(chg) == 0, p.at(f), "%s changes nothing: %s", name, showChanges(chg))
			})
		}
	}
}

// reachesMemory: some parameter is or leads to a library object.
func reachesMemory(p *Prog, f *ssa.Function) bool {
	for _, q := range f.Params {
		t := types.Unalias(q.Type())
		for {
			if n, ok := t.(*types.Named); ok {
				if n.Obj().Pkg() != nil && p.inRepo(n.Obj().Pkg().Path()) {
					if b, ok := n.Underlying().(*types.Basic); ok {
						_ = b
						break
					}
					return true
				}
				t = n.Underlying()
				continue
			}
			if x, ok := t.(*types.Pointer); ok {
				t = types.Unalias(x.Elem())
				continue
			}
			if x, ok := t.(*types.Slice); ok {
				t = types.Unalias(x.Elem())
				continue
			}
			break
		}
	}
	return false
}

// inputLoc: the location belongs to something the operation was given.
func inputLoc(a *Term) bool {
	for a != nil {
		switch a.op {
		case "sym", "global":
			return true
		case "fld", "idx", "mapelem", "maphas", "ini", "sub":
			a = a.args[0]
		default:
			return false
		}
	}
	return false
}

// lazyMap: an absent map replaced by an empty one, which reads the same.
func (ev *Ev) lazyMap(st *State, ch change) bool {
	c := ev.c
	ty := ev.keyTyp[ch.addr]
	for _, l := range leafSet(ch.new) {
		if l == ch.old || l.op == "ini" && l.args[0] == ch.addr {
			continue
		}
		if l.op != "mkmap" {
			return false
		}
		for k := range st.mem {
			if k.op == "mapelem" && k.args[0] == l {
				return false
			}
		}
		for key := range st.logs {
			if ex := ev.shapeEx[key]; ex != nil && ex.op == "mapelem" && rootOf(ex) == l {
				return false
			}
		}
		if ch.old != nil && ty != nil {
			if !ev.entails(c.And(st.pc, ev.isLeaf(ch.new, l)), c.Eq(ch.old, c.Nil)) {
				return false
			}
		}
	}
	return true
}
