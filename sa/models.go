package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"
)

// Models of library functions. Everything else outside the module is an
// uninterpreted pure function of its arguments that may overwrite local
// objects it gets a pointer to.

// impure functions return something new on every call.
func impure(name string) bool {
	for _, p := range []string{"github.com/google/uuid.New", "math/rand", "crypto/rand", "time.Now", "time.Since", "time.NewTicker", "time.After",
		"github.com/lucasb-eyer/go-colorful.Fast", "github.com/lucasb-eyer/go-colorful.Happy", "github.com/valyala/fastrand", "context."} {
		if strings.HasPrefix(strings.TrimLeft(name, "(*"), p) {
			return true
		}
	}
	return false
}

// readOnly library functions do not write through their arguments.
func readOnly(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "math.", "math/rand", "time.", "sync", "github.com/google/uuid", "github.com/lucasb-eyer/go-colorful", "encoding/json.Marshal", "encoding/json.Valid",
		"encoding/xml.Marshal", "bytes.", "context.", "runtime.", "unicode", "google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Size", "google.golang.org/protobuf/proto.Equal", "google.golang.org/protobuf/proto.MarshalOptions", "google.golang.org/protobuf/internal", "reflect.", "github.com/valyala/fastrand", "error", "slices.", "maps."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tFloat = types.Typ[types.Float64]
var tError = types.Universe.Lookup("error").Type()

func one(f func(ev *Ev, a []*Term) *Term) model {
	return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term { return []*Term{f(ev, ci.Args)} }
}

func newErr(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
	return []*Term{ev.c.raw("err", ev.site(fr, ci.Instr), false, ev.kappas...)}
}

func lockOp(op string) model {
	return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		mu := ci.Args[0]
		if ev.onLock != nil && ev.trial == 0 {
			ev.onLock(fr, st, op, mu, ci.Instr.Pos())
		}
		key := ev.c.App("lockst", func(x []*Term) *Term { return ev.c.raw("lockst", "", false, x[0]) }, mu)
		set := func(v string) { ev.Store(st, key, ev.c.leaf("str", v), tStr) }
		switch op {
		case "Lock":
			set("W")
		case "RLock":
			set("R")
		case "Unlock", "RUnlock":
			set("U")
		case "TryLock", "TryRLock":
			ok := ev.fresh("try@"+ev.site(fr, ci.Instr), tBool)
			old := ev.Load(st, key, tStr)
			v := "W"
			if op == "TryRLock" {
				v = "R"
			}
			ev.Store(st, key, ev.c.Ite(ok, ev.c.leaf("str", v), old), tStr)
			return []*Term{ok}
		}
		return nil
	}
}

func (ev *Ev) lockState(st *State, mu *Term) *Term {
	key := ev.c.App("lockst", func(x []*Term) *Term { return ev.c.raw("lockst", "", false, x[0]) }, mu)
	return ev.Load(st, key, tStr)
}

// ptrElem is the element type of a pointer-typed term's static type.
func ptrOf(t *Term) (*Term, types.Type) {
	if t.op == "iface" {
		if ty := ifaceTypes[t.aux]; ty != nil {
			if p, ok := ty.Underlying().(*types.Pointer); ok {
				return t.args[0], p.Elem()
			}
		}
	}
	return nil, nil
}

// exportedFields lists the message fields of a generated struct.
func exportedFields(t types.Type) []*types.Var {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Exported() {
			out = append(out, u.Field(i))
		}
	}
	return out
}

func stdModels() map[string]model {
	m := map[string]model{}
	m["math.Abs"] = one(func(ev *Ev, a []*Term) *Term { return ev.c.Ite(ev.c.Lt(a[0], ev.c.Int(0)), ev.c.Neg(a[0]), a[0]) })
	m["math.Min"] = one(func(ev *Ev, a []*Term) *Term { return ev.c.Ite(ev.c.Le(a[0], a[1]), a[0], a[1]) })
	m["math.Max"] = one(func(ev *Ev, a []*Term) *Term { return ev.c.Ite(ev.c.Le(a[1], a[0]), a[0], a[1]) })
	m["(time.Duration).Seconds"] = one(func(ev *Ev, a []*Term) *Term {
		return ev.c.Mul(a[0], ev.c.numRat(big.NewRat(1, 1000000000), false))
	})
	// odd and even functions in one form each
	for name, odd := range map[string]bool{"math.Sin": true, "math.Tan": true, "math.Atan": true, "math.Asin": true, "math.Sinh": true, "math.Tanh": true, "math.Cos": false, "math.Cosh": false} {
		name, odd := name, odd
		m[name] = one(func(ev *Ev, a []*Term) *Term {
			return ev.c.fold(name+"#0", func(x []*Term) *Term {
				ms := ev.c.monosOf(x[0])
				if len(ms) == 0 {
					if odd {
						return ev.c.Int(0)
					}
					return ev.c.Int(1)
				}
				y, neg := x[0], ms[0].c.Sign() < 0
				if neg {
					y = ev.c.Neg(y)
				}
				var t *Term
				if v, ok := map[string]float64{"math.Asin": math.Pi / 2, "math.Atan": math.Pi / 4}[name]; ok && y.isConstNum() && y.ratVal().Cmp(big.NewRat(1, 1)) == 0 {
					t = ev.c.numRat(new(big.Rat).SetFloat64(v), false)
				} else {
					t = ev.uapp(name+"#0", tFloat, y)
				}
				if neg && odd {
					t = ev.c.Neg(t)
				}
				return t
			}, a[0])
		})
	}
	m["math.Sincos"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		return []*Term{ev.models["math.Sin"](ev, fr, st, ci)[0], ev.models["math.Cos"](ev, fr, st, ci)[0]}
	}
	m["math.Sqrt"] = one(func(ev *Ev, a []*Term) *Term {
		return ev.c.fold("math.Sqrt#0", func(x []*Term) *Term {
			if x[0].isConstNum() {
				n, d := x[0].ratVal().Num(), x[0].ratVal().Denom()
				if n.Sign() >= 0 {
					p, q := new(big.Int).Sqrt(n), new(big.Int).Sqrt(d)
					if new(big.Int).Mul(p, p).Cmp(n) == 0 && new(big.Int).Mul(q, q).Cmp(d) == 0 {
						return ev.c.numRat(new(big.Rat).SetFrac(p, q), false)
					}
				}
			}
			return ev.uapp("math.Sqrt#0", tFloat, x[0])
		}, a[0])
	})
	m["math.Pow"] = one(func(ev *Ev, a []*Term) *Term {
		if k := a[1]; k.isConstNum() && k.ratVal().IsInt() && k.ratVal().Sign() >= 0 && k.ratVal().Cmp(big.NewRat(8, 1)) <= 0 {
			r := ev.c.Int(1)
			for i := k.ratVal().Num().Int64(); i > 0; i-- {
				r = ev.c.Mul(r, a[0])
			}
			return r
		}
		return ev.uapp("math.Pow#0", tFloat, a...)
	})
	m["math.Floor"] = one(func(ev *Ev, a []*Term) *Term {
		return ev.c.App("floor", func(x []*Term) *Term {
			if x[0].isInt {
				return x[0]
			}
			return ev.c.raw("floor", "", true, x[0])
		}, a[0])
	})
	for name, f := range map[string]func(string) string{"ToUpper": strings.ToUpper, "ToLower": strings.ToLower, "TrimSpace": strings.TrimSpace} {
		name := "strings." + name + "#0"
		m[strings.TrimSuffix(name, "#0")] = one(func(ev *Ev, a []*Term) *Term {
			return ev.c.fold(name, func(x []*Term) *Term {
				if x[0].op == "str" {
					return ev.c.leaf("str", f(x[0].aux))
				}
				return ev.uapp(name, tStr, x[0])
			}, a[0])
		})
	}
	m["fmt.Sprintf"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		if vals, ok := ev.varargs(st, ci.Args[1]); ok {
			return []*Term{ev.printed(ci.Args[0], vals...)}
		}
		return []*Term{ev.uapp("fmt.Sprintf", tStr, ci.Args...)}
	}
	m["fmt.Sprint"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		if vals, ok := ev.varargs(st, ci.Args[0]); ok && len(vals) == 1 {
			return []*Term{ev.printed(ev.c.leaf("str", "%v"), vals...)}
		}
		return []*Term{ev.uapp("fmt.Sprint", tStr, ci.Args...)}
	}
	m["fmt.Errorf"] = newErr
	m["errors.New"] = newErr
	for _, mu := range []string{"Mutex", "RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock"} {
			m["(*sync."+mu+")."+op] = lockOp(op)
		}
	}
	for _, op := range []string{"Add", "Done", "Wait"} {
		m["(*sync.WaitGroup)."+op] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term { return nil }
	}
	for _, w := range []string{"Uint32", "Uint64", "Int32", "Int64"} {
		for _, op := range []string{"Add", "Load", "Store", "Swap"} {
			op := op
			f := func(method bool) model {
				return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
					p := ci.Args[0]
					if method {
						p = ev.c.Fld(p, "v")
					}
					ty := types.Typ[types.Uint32]
					old := ev.Load(st, p, ty)
					if ev.onAtomic != nil && ev.trial == 0 {
						ev.onAtomic(fr, st, op, p, ci.Instr)
					}
					switch op {
					case "Add":
						n := ev.c.Add(old, ci.Args[1])
						ev.Store(st, p, n, ty)
						return []*Term{n}
					case "Load":
						return []*Term{old}
					case "Store":
						ev.Store(st, p, ci.Args[1], ty)
						return nil
					}
					ev.Store(st, p, ci.Args[1], ty)
					return []*Term{old}
				}
			}
			m["sync/atomic."+op+w] = f(false)
			m["(*sync/atomic."+w+")."+op] = f(true)
		}
	}
	// text builders: the text so far, as bytes
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		bytesTy := types.NewSlice(types.Typ[types.Byte])
		put := func(add func(ev *Ev, st *State, ci *CallInfo, buf *Term) *Term, res func(ev *Ev, ci *CallInfo) []*Term) model {
			return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
				p := ev.c.Fld(ci.Args[0], "#buf")
				buf := ev.Load(st, p, bytesTy)
				ev.access(fr, st, p, bytesTy, true, ci.Instr.Pos())
				ev.Store(st, p, add(ev, st, ci, buf), bytesTy)
				return res(ev, ci)
			}
		}
		one := func(ev *Ev, ci *CallInfo) []*Term { return []*Term{ev.c.Nil} }
		count := func(ev *Ev, ci *CallInfo) []*Term { return []*Term{ev.c.Len(ci.Args[1]), ev.c.Nil} }
		m[b+"WriteByte"] = put(func(ev *Ev, st *State, ci *CallInfo, buf *Term) *Term {
			return ev.appendVals(buf, ci.Args[1])
		}, one)
		m[b+"WriteString"] = put(func(ev *Ev, st *State, ci *CallInfo, buf *Term) *Term {
			return ev.appendStr(buf, ci.Args[1])
		}, count)
		m[b+"Write"] = put(func(ev *Ev, st *State, ci *CallInfo, buf *Term) *Term {
			return ev.appendTerm(st, buf, ci.Args[1], types.Typ[types.Byte])
		}, count)
		m[b+"Reset"] = put(func(ev *Ev, st *State, ci *CallInfo, buf *Term) *Term { return ev.c.Nil }, func(ev *Ev, ci *CallInfo) []*Term { return nil })
		m[b+"Grow"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			ev.oblig(fr, st, "makelen", ev.c.Le(ev.c.Int(0), ci.Args[1]), ci.Args[1], ci.Instr.Pos())
			return nil
		}
		get := func(f func(ev *Ev, buf *Term) *Term) model {
			return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
				p := ev.c.Fld(ci.Args[0], "#buf")
				ev.access(fr, st, p, bytesTy, false, ci.Instr.Pos())
				return []*Term{f(ev, ev.Load(st, p, bytesTy))}
			}
		}
		m[b+"String"] = get(func(ev *Ev, buf *Term) *Term { return ev.convert(buf, bytesTy, tStr) })
		m[b+"Len"] = get(func(ev *Ev, buf *Term) *Term { return ev.c.Len(buf) })
	}
	m["(*bytes.Buffer).Bytes"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		return []*Term{ev.Load(st, ev.c.Fld(ci.Args[0], "#buf"), types.NewSlice(types.Typ[types.Byte]))}
	}
	m["encoding/json.Marshal"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		x := ci.Args[0]
		b := ev.c.App("jsonenc:"+ev.valVer(st, x), func(a []*Term) *Term { return ev.c.raw("jsonenc", ev.valVer(st, a[0]), false, a[0]) }, x)
		return []*Term{b, ev.uapp("jsonerr", tError, x)}
	}
	m["encoding/json.Unmarshal"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		p, et := ptrOf(ci.Args[1])
		if p == nil {
			ev.havocObj(st, ci.Args[1], ev.site(fr, ci.Instr))
			return []*Term{ev.uapp("jsondecerr", tError, ci.Args[0])}
		}
		v := ev.c.fold("jsondec:"+typeKey(et), func(a []*Term) *Term {
			d := a[0]
			if d.op == "jsonenc" && d.args[0].op == "iface" && types.Identical(ifaceTypes[d.args[0].aux], et) {
				return d.args[0].args[0]
			}
			return ev.uapp("jsondec:"+typeKey(et), et, d)
		}, ci.Args[0])
		err := ev.c.fold("jsondecerr:"+typeKey(et), func(a []*Term) *Term {
			d := a[0]
			if d.op == "jsonenc" && d.args[0].op == "iface" && types.Identical(ifaceTypes[d.args[0].aux], et) {
				return ev.c.Nil
			}
			return ev.uapp("jsondecerr:"+typeKey(et), tError, d)
		}, ci.Args[0])
		ev.access(fr, st, p, et, true, ci.Instr.Pos())
		ev.Store(st, p, v, et)
		return []*Term{err}
	}
	pm := func(arg int, prefix bool) model {
		return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			x := ci.Args[arg]
			b := ev.c.App("protoenc", func(a []*Term) *Term { return ev.c.raw("protoenc", "", false, a[0]) }, x)
			if pre := ci.Args[max(arg-1, 0)]; prefix && pre != ev.c.Nil && ev.c.Len(pre) != ev.c.Int(0) {
				b = ev.appendTerm(st, ci.Args[arg-1], b, types.Typ[types.Byte])
			}
			if ev.onProtoMarshal != nil && ev.trial == 0 {
				ev.onProtoMarshal(fr, st, x, b, ci.Instr)
			}
			return []*Term{b, ev.uapp("protoencerr", tError, x)}
		}
	}
	m["google.golang.org/protobuf/proto.Marshal"] = pm(0, false)
	m["(google.golang.org/protobuf/proto.MarshalOptions).Marshal"] = pm(1, false)
	m["(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend"] = pm(2, true)
	pu := func(d, a int) model {
		return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			data, msg := ci.Args[d], ci.Args[a]
			p, et := ptrOf(msg)
			if p == nil {
				ev.havocObj(st, msg, ev.site(fr, ci.Instr))
				return []*Term{ev.uapp("protodecerr", tError, data)}
			}
			same := func(x *Term) *Term {
				if x.op == "protoenc" {
					if q, qt := ptrOf(x.args[0]); q != nil && types.Identical(qt, et) {
						return q
					}
				}
				return nil
			}
			for _, f := range exportedFields(et) {
				v := ev.c.App("protodec:"+typeKey(et)+"."+f.Name()+":"+ev.kappaKey(), func(x []*Term) *Term {
					if q := same(x[0]); q != nil {
						return ev.Load(st, ev.c.Fld(q, f.Name()), f.Type())
					}
					return ev.uapp("protodec."+f.Name(), f.Type(), x[0])
				}, data)
				ev.Store(st, ev.c.Fld(p, f.Name()), v, f.Type())
			}
			err := ev.c.App("protodecerr:"+typeKey(et), func(x []*Term) *Term {
				if same(x[0]) != nil {
					return ev.c.Nil
				}
				return ev.uapp("protodecerr:"+typeKey(et), tError, x[0])
			}, data)
			return []*Term{err}
		}
	}
	m["google.golang.org/protobuf/proto.Unmarshal"] = pu(0, 1)
	m["(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal"] = pu(1, 2)
	m["google.golang.org/protobuf/proto.Clone"] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		x := ci.Args[0]
		return []*Term{ev.c.App("clone", func(a []*Term) *Term {
			if a[0].op == "iface" {
				return ev.c.raw("iface", a[0].aux, false, ev.c.raw("clone", ev.site(fr, ci.Instr), false, append([]*Term{a[0].args[0]}, ev.kappas...)...))
			}
			return ev.c.raw("clone", ev.site(fr, ci.Instr), false, append([]*Term{a[0]}, ev.kappas...)...)
		}, x)}
	}
	unit := func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
		t := ev.fresh("unit@"+ev.site(fr, ci.Instr), tFloat)
		ev.c.nonNeg[t.id] = true
		ev.c.upper[t.id] = ev.c.Int(1)
		return []*Term{t}
	}
	m["(*math/rand.Rand).Float64"] = unit
	m["math/rand.Float64"] = unit
	below := func(arg int) model {
		return func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
			return []*Term{ev.below(ev.site(fr, ci.Instr), ci.Args[arg])}
		}
	}
	m["runtime.NumCPU"] = one(func(ev *Ev, a []*Term) *Term {
		t := ev.uapp("runtime.NumCPU", tInt)
		ev.c.nonNeg[t.id] = true
		ev.c.lower[t.id] = ev.c.Int(1)
		return t
	})
	m["(*math/rand.Rand).Intn"] = below(1)
	m["(*github.com/valyala/fastrand.RNG).Uint32n"] = below(1)
	m["github.com/valyala/fastrand.Uint32n"] = below(0)
	m["math/rand.Intn"] = below(0)
	return m
}

// valVer distinguishes the contents a map argument had when it was encoded.
func (ev *Ev) valVer(st *State, x *Term) string {
	if x.op == "ite" {
		return ev.valVer(st, x.args[1]) + "|" + ev.valVer(st, x.args[2])
	}
	if x.op == "iface" {
		if t := ifaceTypes[x.aux]; t != nil {
			if _, ok := t.Underlying().(*types.Map); ok {
				return ev.mapVer(st, x.args[0])
			}
		}
	}
	return ""
}

// below is an unknown integer in [0, n), or 0 if n is not positive.
func (ev *Ev) below(site string, n *Term) *Term {
	c := ev.c
	if n.op == "ite" {
		return c.Ite(c.atomB(n.args[0]), ev.below(site+"+", n.args[1]), ev.below(site+"-", n.args[2]))
	}
	t := ev.fresh("below@"+site, tInt)
	c.nonNeg[t.id] = true
	c.upper[t.id] = c.Sub(n, c.Int(1))
	return c.Ite(c.Lt(c.Int(0), n), t, c.Int(0))
}

// varargs are the values of a short argument list.
func (ev *Ev) varargs(st *State, s *Term) ([]*Term, bool) {
	n := ev.c.Len(s)
	if !n.isConstNum() || n.ratVal().Cmp(big.NewRat(8, 1)) > 0 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.ratVal().Num().Int64(); i++ {
		out = append(out, ev.Load(st, ev.c.Idx(s, ev.c.Int(i)), tAny))
	}
	return out, true
}

func (ev *Ev) printed(format *Term, vals ...*Term) *Term {
	return ev.uapp("fmt.Sprintf", tStr, append([]*Term{format}, vals...)...)
}
