package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is the gated value-numbering analysis: a forward dataflow analysis over
// the SSA form whose abstract values are hash-consed terms, merged with gates
// (ite) at joins and closed with recurrence summaries at loops. Callees in the
// analysed module are inlined.
type Ev struct {
	p        *Prog
	c        *TermCtx
	outer    []*Term
	kappas   []*Term
	stack    []*ssa.Function
	shapeM   map[int]*shapeInfo
	shapeTyp map[string]types.Type
	shapeEx  map[string]*Term
	directs  map[string][]*Term
	pins     map[*Term]int // locations kept apart while a loop runs
	gaveUp   bool          // the last sat ran out of budget
	peel     int           // evaluate loops of at most this many iterations step by step
	keyTyp   map[*Term]types.Type
	loops    map[*ssa.Function]*loopForest
	steps    int
	maxSteps int
	trial    int // >0 while a loop body is evaluated only to find its effects

	iniVal   func(p *Term, ty types.Type) *Term // known initial content, or nil
	keyTypes map[int]types.Type
	keySets  map[string]*Term
	iniHas   func(m, k *Term) *Term
	iniHook  func(t, p *Term, ty types.Type)
	inline   func(f *ssa.Function) bool
	partial  []*Term // messages whose parts may be absent
	// hooks (nil allowed)
	onStore        func(fr *Frame, st *State, p, v *Term, ty types.Type)
	havKey         map[string]*Term // memory that a loop changes in unknown ways
	onAccess       func(fr *Frame, st *State, p *Term, ty types.Type, write bool, pos token.Pos)
	onLock         func(fr *Frame, st *State, op string, mu *Term, pos token.Pos)
	onCall         func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool)
	onOblig        func(fr *Frame, st *State, kind string, cond *Term, what *Term, pos token.Pos)
	onExt          func(fr *Frame, st *State, ci *CallInfo)
	onLoop         func(fr *Frame, lp *loop, backs, outs []*edgeState, kappa *Term)
	onSelect       func(fr *Frame, st *State, s *ssa.Select)
	relate         bool  // look for linear relations between loop variables
	loopN          *Term // bound of the loop given to onLoop, nil if there is none
	selIdx         func(fr *Frame, st *State, s *ssa.Select, idx *Term) *Term
	onChan         func(fr *Frame, st *State, in ssa.Instruction, dir types.ChanDir, ch, v, cond *Term)
	onEvery        func(fr *Frame, st *State, in ssa.Instruction)
	onInstr        func(fr *Frame, st *State, in ssa.Instruction)
	onAtomic       func(fr *Frame, st *State, op string, p *Term, in ssa.Instruction)
	onProtoMarshal func(fr *Frame, st *State, msg, out *Term, in ssa.Instruction)
	models         map[string]model
	funcs          map[string]bool // functions evaluated
	ncalls         int
	unmodelled     map[string]int
	loopChg        map[string]*loopChange
	feasM          map[int]bool
	mustM          map[int]*Term
	heldMemo       map[[3]*Term]string
	cubeFacts      func(ls []lit) []*Term // extra facts p<=0 for a cube
}

type CallInfo struct {
	Instr  ssa.Instruction
	Com    *ssa.CallCommon
	Fn     *ssa.Function // static or resolved callee, may be nil
	Name   string
	Callee *Term // dynamic callee value
	Args   []*Term
	Go     bool
}

type model func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term

func NewEv(p *Prog) *Ev {
	ev := &Ev{p: p, c: NewTermCtx(), shapeM: map[int]*shapeInfo{}, shapeTyp: map[string]types.Type{}, shapeEx: map[string]*Term{}, directs: map[string][]*Term{}, pins: map[*Term]int{},
		keyTyp: map[*Term]types.Type{}, loops: map[*ssa.Function]*loopForest{}, maxSteps: 3000000, models: stdModels(), funcs: map[string]bool{}, unmodelled: map[string]int{}, loopChg: map[string]*loopChange{}, feasM: map[int]bool{}, mustM: map[int]*Term{}, heldMemo: map[[3]*Term]string{}, keyTypes: map[int]types.Type{}, keySets: map[string]*Term{}}
	ev.c.hasKey = func(m, k *Term) *Term {
		if m.op == "ite" {
			return nil
		}
		return ev.def(ev.NewState(), ev.c.raw("maphas", "", false, m, k), tBool)
	}
	return ev
}

func (ev *Ev) NewState() *State {
	return &State{pc: ev.c.True, mem: map[*Term]*Term{}, logs: map[string][]*entry{}}
}

type dfr struct {
	guard *Term
	call  *ssa.Defer
	ci    *CallInfo
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	tup    map[ssa.Value][]*Term
	parent *Frame
	ctx    string
	defers []dfr
	rets   []retState
	pos    token.Pos // call site
	nosite map[ssa.Instruction]string
	recov  *Term // value of recover() in a deferred call
	ranges map[ssa.Value]*rangeInfo
}

type rangeInfo struct {
	m     *Term
	kappa *Term
	key   *Term
	typ   *types.Map
	st    *State // when the iteration starts
}

type retState struct {
	st   *State
	vals []*Term
}

type edgeState struct {
	from, to *ssa.BasicBlock
	nth      int // which of the edges from->to
	st       *State
}

func (fr *Frame) trace(p *Prog) string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		s = append(s, shortFn(f.fn))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " > ")
}

// Call evaluates fn from st. A nil state means fn never returns.
func (ev *Ev) Call(fn *ssa.Function, args []*Term, free []*Term, st *State, parent *Frame, ctx string) (*State, []*Term) {
	if len(ev.stack) > 60 {
		panic(tooComplex{"call depth at " + fn.String()})
	}
	for _, f := range ev.stack {
		if f == fn {
			panic(tooComplex{"recursion through " + fn.String()})
		}
	}
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	if fn.Blocks == nil {
		panic(tooComplex{"no body: " + fn.String()})
	}
	ev.funcs[shortFn(fn)] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, parent: parent, ctx: ctx, nosite: map[ssa.Instruction]string{}, ranges: map[ssa.Value]*rangeInfo{}}
	if parent != nil {
		fr.recov = nil
	}
	if len(args) != len(fn.Params) {
		panic(tooComplex{fmt.Sprintf("arity of %s: %d args", fn, len(args))})
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	return ev.run(fr, st)
}

func (ev *Ev) run(fr *Frame, st *State) (*State, []*Term) {
	fn := fr.fn
	lf := ev.forest(fn)
	entry := st.clone()
	outs, _ := ev.region(fr, nil, lf, fn.Blocks[0], []*edgeState{{to: fn.Blocks[0], st: entry}})
	if len(outs) != 0 {
		panic(tooComplex{"edges leaving function"})
	}
	return ev.mergeRets(fr.rets, fn)
}

func (ev *Ev) mergeRets(rets []retState, fn *ssa.Function) (*State, []*Term) {
	var r *State
	var vals []*Term
	for _, rs := range rets {
		if rs.st.pc == ev.c.False {
			continue
		}
		if r == nil {
			r, vals = rs.st, rs.vals
			continue
		}
		g := ev.c.Restrict(r.pc, ev.c.Or(r.pc, rs.st.pc))
		m := ev.merge2(r, rs.st)
		nv := make([]*Term, len(vals))
		for i := range vals {
			nv[i] = ev.c.Ite(g, vals[i], rs.vals[i])
		}
		r, vals = m, nv
	}
	return r, vals
}

// region evaluates the blocks of loop lp (nil: the whole function), starting
// at start with the given incoming edges. It returns the edges leaving the
// region and the back edges to start.
func (ev *Ev) region(fr *Frame, lp *loop, lf *loopForest, start *ssa.BasicBlock, in []*edgeState) (outs, backs []*edgeState) {
	incoming := map[*ssa.BasicBlock][]*edgeState{}
	incoming[start] = in
	inRegion := func(b *ssa.BasicBlock) bool { return lp == nil || lp.blocks[b] }
	for _, b := range lf.rpo {
		if !inRegion(b) {
			continue
		}
		es := incoming[b]
		if len(es) == 0 {
			continue
		}
		var live []*edgeState
		for _, e := range es {
			if e.st != nil && e.st.pc != ev.c.False {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		inner := lf.header[b]
		var edges []*edgeState
		if inner != nil && inner != lp {
			edges = ev.loop(fr, inner, lf, live)
		} else {
			owner := lf.inner[b]
			if owner != lp {
				continue // belongs to a nested loop, handled at its header
			}
			st := ev.enter(fr, b, live, b == start && lp != nil)
			edges = ev.block(fr, b, st)
		}
		for _, e := range edges {
			switch {
			case lp != nil && e.to == start:
				backs = append(backs, e)
			case inRegion(e.to):
				incoming[e.to] = append(incoming[e.to], e)
			default:
				outs = append(outs, e)
			}
		}
	}
	return
}

// enter merges incoming edges and evaluates phis.
func (ev *Ev) enter(fr *Frame, b *ssa.BasicBlock, es []*edgeState, loopHeader bool) *State {
	st, phis := ev.joinEdges(fr, b, es, loopHeader)
	for p, v := range phis {
		fr.env[p] = v
	}
	return st
}

func (ev *Ev) joinEdges(fr *Frame, b *ssa.BasicBlock, es []*edgeState, noPhis bool) (*State, map[*ssa.Phi]*Term) {
	var st *State
	phis := map[*ssa.Phi]*Term{}
	for i, e := range es {
		var g *Term
		if i == 0 {
			st = e.st
			if len(es) > 1 || !noPhis {
				st = e.st.clone()
			}
			g = ev.c.True
		} else {
			g = ev.c.Restrict(st.pc, ev.c.Or(st.pc, e.st.pc))
		}
		if !noPhis && e.from != nil {
			k := predIndex(b, e)
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := ev.val(fr, ph.Edges[k])
				if i == 0 {
					phis[ph] = v
				} else {
					phis[ph] = ev.c.Ite(g, phis[ph], v)
				}
			}
		}
		if i > 0 {
			st = ev.merge2(st, e.st)
		}
	}
	return st, phis
}

func predIndex(b *ssa.BasicBlock, e *edgeState) int {
	n := 0
	for i, p := range b.Preds {
		if p == e.from {
			if n == e.nth {
				return i
			}
			n++
		}
	}
	panic("pred not found")
}

func (ev *Ev) fullPC(st *State) *Term {
	r := st.pc
	for i := len(ev.outer) - 1; i >= 0; i-- {
		r = ev.c.And(r, ev.outer[i])
	}
	return r
}

func site(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func (ev *Ev) site(fr *Frame, in ssa.Instruction) string {
	if s, ok := fr.nosite[in]; ok {
		return s
	}
	s := fr.ctx + "/" + shortFn(fr.fn) + ":" + site(in)
	fr.nosite[in] = s
	return s
}

func (ev *Ev) block(fr *Frame, b *ssa.BasicBlock, st *State) []*edgeState {
	c := ev.c
	for _, in := range b.Instrs {
		ev.steps++
		if ev.steps > ev.maxSteps {
			panic(tooComplex{"step limit"})
		}
		if ev.onInstr != nil {
			ev.onInstr(fr, st, in)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := ev.val(fr, x.Cond)
			cr := c.Restrict(cond, st.pc)
			for _, o := range ev.outer {
				cr = c.Restrict(cr, o)
			}
			tpc, fpc := c.And(st.pc, cr), c.And(st.pc, c.Not(cr))
			var es []*edgeState
			nth := 0
			if b.Succs[0] == b.Succs[1] {
				nth = 1
			}
			if tpc != c.False && ev.feasible(tpc) {
				s := st
				if fpc != c.False {
					s = st.clone()
				}
				s.pc = tpc
				es = append(es, &edgeState{from: b, to: b.Succs[0], st: s})
			}
			if fpc != c.False && ev.feasible(fpc) {
				s := st.clone()
				s.pc = fpc
				es = append(es, &edgeState{from: b, to: b.Succs[1], nth: nth, st: s})
			}
			return es
		case *ssa.Jump:
			return []*edgeState{{from: b, to: b.Succs[0], st: st}}
		case *ssa.Return:
			vals := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				vals[i] = ev.val(fr, r)
			}
			s := st.clone()
			fr.rets = append(fr.rets, retState{s, vals})
			// inside a loop the loop summary rewrites this edge
			return nil
		case *ssa.Panic:
			ev.oblig(fr, st, "panic", c.False, nil, x.Pos())
			return nil
		default:
			if st = ev.instr(fr, in, st); st == nil || st.pc == c.False {
				return nil
			}
		}
	}
	return nil
}

func (ev *Ev) oblig(fr *Frame, st *State, kind string, cond *Term, what *Term, pos token.Pos) {
	if ev.onOblig != nil && ev.trial == 0 && cond != ev.c.True {
		ev.onOblig(fr, st, kind, cond, what, pos)
	} else if ev.onOblig != nil && ev.trial == 0 {
		ev.onOblig(fr, st, kind, cond, what, pos)
	}
}

func (ev *Ev) val(fr *Frame, v ssa.Value) *Term {
	c := ev.c
	switch x := v.(type) {
	case *ssa.Const:
		return ev.constant(x)
	case *ssa.Global:
		t := c.leaf("global", x.Pkg.Pkg.Path()+"."+x.Name())
		return t
	case *ssa.Function:
		fnTerms[x.String()] = x
		return c.leaf("func", x.String())
	case *ssa.Builtin:
		return c.leaf("func", "builtin."+x.Name())
	}
	t, ok := fr.env[v]
	if !ok {
		panic(tooComplex{fmt.Sprintf("undefined value %s in %s", v.Name(), fr.fn)})
	}
	return t
}

var fnTerms = map[string]*ssa.Function{}

func (ev *Ev) constant(x *ssa.Const) *Term {
	c := ev.c
	if x.Value == nil {
		return ev.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return c.True
		}
		return c.False
	case constant.String:
		return c.leaf("str", constant.StringVal(x.Value))
	case constant.Int, constant.Float:
		r := new(big.Rat)
		if _, ok := r.SetString(x.Value.ExactString()); ok {
			return c.numRat(r, isInteger(x.Type()))
		}
		f, _ := constant.Float64Val(x.Value)
		if r.SetFloat64(f) != nil {
			return c.numRat(r, false)
		}
	}
	return ev.rawT("const", x.Value.ExactString(), x.Type())
}

func (ev *Ev) alloc(fr *Frame, in ssa.Instruction) *Term {
	return ev.c.raw("alloc", ev.site(fr, in), false, ev.kappas...)
}

func (ev *Ev) access(fr *Frame, st *State, p *Term, ty types.Type, w bool, pos token.Pos) {
	if ev.onAccess != nil && ev.trial == 0 {
		ev.onAccess(fr, st, p, ty, w, pos)
	}
}

func (ev *Ev) instr(fr *Frame, in ssa.Instruction, st *State) *State {
	c := ev.c
	switch x := in.(type) {
	case *ssa.Alloc:
		a := ev.alloc(fr, x)
		// a fresh object: forget writes of earlier visits (same term)
		fr.env[x] = a
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if len(ev.kappas) == 0 {
			ev.Store(st, a, ev.zero(et), et)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := ev.val(fr, x.X)
			ev.nilcheck(fr, st, p, x.Pos())
			ev.access(fr, st, p, x.Type(), false, x.Pos())
			fr.env[x] = ev.narrow(st, ev.Load(st, p, x.Type()))
		case token.NOT:
			fr.env[x] = c.Not(ev.val(fr, x.X))
		case token.SUB:
			fr.env[x] = c.Neg(ev.val(fr, x.X))
		case token.ARROW:
			var v *Term
			if x.CommaOk {
				et := x.Type().(*types.Tuple).At(0).Type()
				v = ev.fresh("recv:"+ev.site(fr, x), et)
				fr.tup[x] = []*Term{v, ev.fresh("recvok:"+ev.site(fr, x), types.Typ[types.Bool])}
			} else {
				v = ev.fresh("recv:"+ev.site(fr, x), x.Type())
				fr.env[x] = v
			}
			if ev.onChan != nil {
				ev.onChan(fr, st, x, types.RecvOnly, ev.val(fr, x.X), v, c.True)
			}
		default:
			fr.env[x] = ev.uapp("un"+x.Op.String(), x.Type(), ev.val(fr, x.X))
		}
	case *ssa.BinOp:
		fr.env[x] = ev.binop(fr, st, x)
	case *ssa.Store:
		p := ev.val(fr, x.Addr)
		ev.nilcheck(fr, st, p, x.Pos())
		ty := x.Val.Type()
		ev.access(fr, st, p, ty, true, x.Pos())
		if ev.onStore != nil && ev.trial == 0 {
			ev.onStore(fr, st, p, ev.val(fr, x.Val), ty)
		}
		ev.Store(st, p, ev.val(fr, x.Val), ty)
	case *ssa.FieldAddr:
		p := ev.val(fr, x.X)
		ev.nilcheck(fr, st, p, x.Pos())
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fr.env[x] = c.App("fa:"+stt.Field(x.Field).Name(), func(a []*Term) *Term {
			if a[0] == c.Nil {
				return c.Nil
			}
			return c.Fld(a[0], stt.Field(x.Field).Name())
		}, p)
	case *ssa.Field:
		stt := x.X.Type().Underlying().(*types.Struct)
		v := c.Field(ev.val(fr, x.X), stt.Field(x.Field).Name())
		fr.env[x] = ev.fixType(v, x.Type())
	case *ssa.IndexAddr:
		s, i := ev.val(fr, x.X), ev.val(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ev.nilcheck(fr, st, s, x.Pos())
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ev.oblig(fr, st, "index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))), i, x.Pos())
		} else {
			ev.oblig(fr, st, "index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))), i, x.Pos())
		}
		fr.env[x] = c.Idx(s, i)
	case *ssa.Index:
		s, i := ev.val(fr, x.X), ev.val(fr, x.Index)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			ev.oblig(fr, st, "index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), i, x.Pos())
			fr.env[x] = c.ArrIndex(s, i, ev, x.Type())
		} else {
			ev.oblig(fr, st, "index", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))), i, x.Pos())
			fr.env[x] = ev.uapp("strindex", x.Type(), s, i)
		}
	case *ssa.Slice:
		fr.env[x] = ev.slice(fr, st, x)
	case *ssa.MakeSlice:
		n := ev.val(fr, x.Len)
		ev.oblig(fr, st, "makelen", c.And(c.Le(c.Int(0), n), c.Le(n, ev.val(fr, x.Cap))), n, x.Pos())
		a := ev.alloc(fr, x)
		fr.env[x] = c.App("mkslice", func(t []*Term) *Term { return c.raw("mkslice", "", false, t[0], t[1]) }, n, a)
	case *ssa.MakeMap:
		fr.env[x] = c.raw("mkmap", ev.site(fr, x), false, ev.kappas...)
	case *ssa.MakeChan:
		t := c.raw("mkchan", ev.site(fr, x), false, append([]*Term{ev.val(fr, x.Size)}, ev.kappas...)...)
		fr.env[x] = t
	case *ssa.MapUpdate:
		m, k, v := ev.val(fr, x.Map), ev.val(fr, x.Key), ev.val(fr, x.Value)
		ev.oblig(fr, st, "nilmap", c.Not(c.Eq(m, c.Nil)), m, x.Pos())
		mt := x.Map.Type().Underlying().(*types.Map)
		ev.access(fr, st, ev.mapElem(m, k), mt.Elem(), true, x.Pos())
		ev.storeMap(st, m, k, v, mt)
	case *ssa.Lookup:
		m, k := ev.val(fr, x.X), ev.val(fr, x.Index)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			ev.oblig(fr, st, "index", c.And(c.Le(c.Int(0), k), c.Lt(k, c.Len(m))), k, x.Pos())
			fr.env[x] = ev.uapp("strindex", x.Type(), m, k)
			break
		}
		ev.access(fr, st, ev.mapElem(m, k), mt.Elem(), false, x.Pos())
		has, v := ev.lookup(st, m, k, mt)
		if x.CommaOk {
			fr.tup[x] = []*Term{v, has}
		} else {
			fr.env[x] = v
		}
	case *ssa.Range:
		m := ev.val(fr, x.X)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(tooComplex{"range over string in " + fr.fn.String()})
		}
		fr.ranges[x] = &rangeInfo{m: m, typ: mt, st: st.clone()}
		fr.env[x] = c.Nil
	case *ssa.Next:
		ri := fr.ranges[x.Iter]
		if ri == nil || ri.kappa == nil {
			panic(tooComplex{"map iteration outside a loop"})
		}
		from := st
		if ev.onlyVisited(ri, st) {
			from = ri.st
		}
		ok := c.Lt(ri.kappa, ev.mapLen(from, ri.m))
		_, v := ev.lookup(st, ri.m, ri.key, ri.typ)
		fr.tup[x] = []*Term{ok, ri.key, v}
	case *ssa.Extract:
		t, ok := fr.tup[x.Tuple]
		if !ok {
			panic(tooComplex{"tuple " + x.Tuple.String()})
		}
		fr.env[x] = t[x.Index]
	case *ssa.Convert:
		fr.env[x] = ev.convert(ev.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.env[x] = ev.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = ev.val(fr, x.X)
	case *ssa.MultiConvert:
		fr.env[x] = ev.convert(ev.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		fr.env[x] = ev.uapp("slice2arr", x.Type(), ev.val(fr, x.X))
	case *ssa.MakeInterface:
		fr.env[x] = ev.mkIface(ev.val(fr, x.X), x.X.Type())
	case *ssa.TypeAssert:
		v, ok := ev.typeAssert(ev.val(fr, x.X), x.AssertedType)
		if x.CommaOk {
			fr.tup[x] = []*Term{c.Ite(ok, v, ev.zero(x.AssertedType)), ok}
		} else {
			ev.oblig(fr, st, "typeassert", ok, ev.val(fr, x.X), x.Pos())
			fr.env[x] = v
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		fnTerms[fn.String()] = fn
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = ev.val(fr, b)
		}
		fr.env[x] = c.App("clo:"+fn.String(), func(a []*Term) *Term { return c.raw("clo", fn.String(), false, a...) }, args...)
	case *ssa.Call:
		st2, vals := ev.call(fr, x, &x.Call, st)
		if st2 == nil {
			return nil
		}
		st = st2
		if tt, ok := x.Type().(*types.Tuple); ok {
			if tt.Len() > 0 {
				fr.tup[x] = vals
			}
		} else if len(vals) > 0 {
			fr.env[x] = vals[0]
		}
	case *ssa.Defer:
		if ev.forest(fr.fn).inner[x.Block()] != nil {
			panic(tooComplex{"defer in a loop"})
		}
		fr.defers = append(fr.defers, dfr{guard: st.pc, call: x, ci: ev.callInfo(fr, x, &x.Call)})
	case *ssa.RunDefers:
		return ev.runDefers(fr, st)
	case *ssa.Go:
		ci := ev.callInfo(fr, x, &x.Call)
		ci.Go = true
		if ev.onCall != nil {
			ev.onCall(fr, st, ci)
		}
	case *ssa.Send:
		if ev.onChan != nil {
			ev.onChan(fr, st, x, types.SendOnly, ev.val(fr, x.Chan), ev.val(fr, x.X), c.True)
		}
	case *ssa.Select:
		if ev.onSelect != nil {
			ev.onSelect(fr, st, x)
		}
		n := ev.site(fr, x)
		idx := ev.fresh("select:"+n, types.Typ[types.Int])
		if ev.selIdx != nil {
			idx = ev.selIdx(fr, st, x, idx)
		}
		vals := []*Term{idx, ev.fresh("selok:"+n, types.Typ[types.Bool])}
		for i, s := range x.States {
			var v *Term
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				v = ev.fresh("selrecv:"+n+":"+strconv.Itoa(i), et)
				vals = append(vals, v)
			} else {
				v = ev.val(fr, s.Send)
			}
			if ev.onChan != nil {
				ev.onChan(fr, st, x, s.Dir, ev.val(fr, s.Chan), v, c.EqNum(idx, c.Int(int64(i))))
			}
		}
		fr.tup[x] = vals
	default:
		panic(tooComplex{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
	}
	return st
}

// narrow drops the gates that the path conditions already decide.
func (ev *Ev) narrow(st *State, v *Term) *Term {
	if v.op == "struct" || v.op == "array" {
		args := make([]*Term, len(v.args))
		for i, a := range v.args {
			args[i] = ev.narrow(st, a)
		}
		return ev.c.raw(v.op, v.aux, false, args...)
	}
	if v.op != "ite" {
		return v
	}
	v = ev.c.Restrict(v, st.pc)
	for i := len(ev.outer) - 1; i >= 0 && v.op == "ite"; i-- {
		v = ev.c.Restrict(v, ev.outer[i])
	}
	return v
}

func (ev *Ev) fixType(v *Term, ty types.Type) *Term {
	if v.op == "field" {
		if isBool(ty) {
			return ev.c.atomB(v)
		}
		if isInteger(ty) && !v.isInt {
			return ev.rawT("fieldi", v.aux, ty, v.args...)
		}
		return ev.typed(v, ty)
	}
	return v
}

func (ev *Ev) nilcheck(fr *Frame, st *State, p *Term, pos token.Pos) {
	if ev.onOblig == nil || ev.trial > 0 {
		return
	}
	ok := ev.c.Not(ev.c.Eq(p, ev.c.Nil))
	ev.oblig(fr, st, "nil", ok, p, pos)
}

func (ev *Ev) runDefers(fr *Frame, st *State) *State {
	c := ev.c
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		g := c.Restrict(d.guard, ev.fullPC(st))
		run, skip := c.And(st.pc, g), c.And(st.pc, c.Not(g))
		var parts []*State
		if run != c.False {
			s := st.clone()
			s.pc = run
			s2, _ := ev.callCI(fr, d.call, d.ci, s)
			if s2 != nil {
				parts = append(parts, s2)
			}
		}
		if skip != c.False {
			s := st.clone()
			s.pc = skip
			parts = append(parts, s)
		}
		st = ev.merge(parts)
		if st == nil {
			return nil
		}
	}
	return st
}

func (ev *Ev) binop(fr *Frame, st *State, x *ssa.BinOp) *Term {
	c := ev.c
	a, b := ev.val(fr, x.X), ev.val(fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.ADD:
		if isString(t) {
			return ev.strcat(a, b)
		}
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO:
		if isInteger(t) {
			ev.oblig(fr, st, "divzero", c.Not(c.EqNum(b, c.Int(0))), b, x.Pos())
			return c.IDiv(a, b)
		}
		if ev.onOblig != nil {
			ev.oblig(fr, st, "fdiv", c.Not(c.EqNum(b, c.Int(0))), b, x.Pos())
		}
		return c.FDiv(a, b)
	case token.REM:
		ev.oblig(fr, st, "divzero", c.Not(c.EqNum(b, c.Int(0))), b, x.Pos())
		return c.IMod(a, b)
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case isBool(t):
			r = c.Ite(a, b, c.Not(b))
		case isNumeric(t):
			r = c.EqNum(a, b)
		default:
			r = ev.eq(a, b, t)
		}
		if x.Op == token.NEQ {
			return c.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isNumeric(t) {
			return ev.uapp("s"+x.Op.String(), types.Typ[types.Bool], a, b)
		}
		switch x.Op {
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		}
		return c.Le(b, a)
	case token.AND, token.OR, token.XOR:
		if isBool(t) {
			break
		}
		if a.isConstNum() && b.isConstNum() {
			m, n := a.ratVal().Num(), b.ratVal().Num()
			r := new(big.Int)
			switch x.Op {
			case token.AND:
				r.And(m, n)
			case token.OR:
				r.Or(m, n)
			case token.XOR:
				r.Xor(m, n)
			}
			return c.numRat(new(big.Rat).SetInt(r), true)
		}
		return ev.bitop(x.Op, a, b, t)
	}
	return ev.uapp("op"+x.Op.String(), x.Type(), a, b)
}

func (ev *Ev) eq(a, b *Term, t types.Type) *Term {
	c := ev.c
	if u, ok := t.Underlying().(*types.Struct); ok && !ev.opaque(t) {
		r := c.True
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			r = c.And(r, ev.eq(c.Field(a, f.Name()), c.Field(b, f.Name()), f.Type()))
		}
		return r
	}
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() <= 16 {
		r := c.True
		for i := int64(0); i < u.Len(); i++ {
			r = c.And(r, ev.eq(c.ArrIndex(a, c.Int(i), ev, u.Elem()), c.ArrIndex(b, c.Int(i), ev, u.Elem()), u.Elem()))
		}
		return r
	}
	if isNumeric(t) {
		return c.EqNum(a, b)
	}
	if isBool(t) {
		return c.Ite(a, b, c.Not(b))
	}
	return c.Eq(a, b)
}

func (ev *Ev) strcat(a, b *Term) *Term {
	c := ev.c
	return c.App("strcat", func(x []*Term) *Term {
		a, b := x[0], x[1]
		if a.op == "str" && b.op == "str" {
			return c.leaf("str", a.aux+b.aux)
		}
		if a.op == "str" && a.aux == "" {
			return b
		}
		if b.op == "str" && b.aux == "" {
			return a
		}
		return c.raw("strcat", "", false, a, b)
	}, a, b)
}

func (ev *Ev) convert(v *Term, from, to types.Type) *Term {
	c := ev.c
	switch {
	case isNumeric(from) && isNumeric(to):
		if isInteger(to) && !isInteger(from) {
			return c.App("trunc", func(x []*Term) *Term {
				if x[0].isInt {
					return x[0]
				}
				return c.raw("trunc", "", true, x[0])
			}, v)
		}
		return v
	case isString(from) && isString(to):
		return v
	}
	if isString(to) {
		if _, ok := from.Underlying().(*types.Slice); ok {
			return c.App("b2s", func(x []*Term) *Term {
				switch {
				case x[0].op == "s2b":
					return x[0].args[0]
				case x[0].op == "nil":
					return c.leaf("str", "")
				case x[0].op == "appslice" && x[0].args[1].op == "s2b":
					return ev.strcat(ev.convert(x[0].args[0], from, to), x[0].args[1].args[0])
				}
				return c.raw("b2s", "", false, x[0])
			}, v)
		}
	}
	if isString(from) {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return c.App("s2b", func(x []*Term) *Term {
				if x[0].op == "b2s" {
					return x[0].args[0]
				}
				return c.raw("s2b", "", false, x[0])
			}, v)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return ev.uapp("conv:"+to.String(), to, v)
}

func (ev *Ev) slice(fr *Frame, st *State, x *ssa.Slice) *Term {
	c := ev.c
	s := ev.val(fr, x.X)
	lo := c.Int(0)
	if x.Low != nil {
		lo = ev.val(fr, x.Low)
	}
	if isString(x.X.Type()) {
		hi := c.Len(s)
		if x.High != nil {
			hi = ev.val(fr, x.High)
		}
		ev.oblig(fr, st, "slice", c.And(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi)), c.Le(hi, c.Len(s))), hi, x.Pos())
		if lo.isConstNum() && lo.ratVal().Sign() == 0 && hi == c.Len(s) {
			return s
		}
		return ev.uapp("substr", x.Type(), s, lo, hi)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		s = c.App("mkslice", func(t []*Term) *Term { return c.raw("mkslice", "", false, t[0], t[1]) }, c.Int(n), s)
	}
	hi := c.Len(s)
	if x.High != nil {
		hi = ev.val(fr, x.High)
	}
	// The library's own slicing within the capacity of its argument is trusted.
	within := fr.fn.Origin() != nil && fr.fn.Origin().Pkg != nil && fr.fn.Origin().Pkg.Pkg.Path() == "slices" && x.Max == nil
	if (x.Low != nil || x.High != nil) && !within {
		ev.oblig(fr, st, "slice", c.And(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi)), c.Le(hi, c.Len(s))), hi, x.Pos())
	}
	return c.SubSlice(s, lo, hi)
}

func (ev *Ev) mapElem(m, k *Term) *Term {
	return ev.c.App("mapelem", func(x []*Term) *Term { return ev.c.raw("mapelem", "", false, x[0], x[1]) }, m, k)
}
func (ev *Ev) mapHas(m, k *Term) *Term {
	return ev.c.App("maphas", func(x []*Term) *Term { return ev.c.raw("maphas", "", false, x[0], x[1]) }, m, k)
}
func (ev *Ev) mapLen(st *State, m *Term) *Term {
	return ev.c.App("maplen:"+ev.mapVer(st, m), func(x []*Term) *Term {
		if x[0] == ev.c.Nil {
			return ev.c.Int(0)
		}
		v := ev.mapVer(st, x[0])
		if v == "" && x[0].op == "mkmap" {
			return ev.c.Int(0)
		}
		if v == "" {
			return ev.c.raw("maplen", "", true, x[0])
		}
		if l := ev.keysOf(st, x[0]); l != nil {
			return ev.c.raw("maplen", "", true, x[0], l)
		}
		return ev.c.raw("maplen", v, true, x[0])
	}, m)
}

// keysOf is the set of keys of a map that was written to, as a function that
// tells for a key whether it is there; nil if the map is as it was first.
func (ev *Ev) keysOf(st *State, m *Term) *Term {
	v := ev.mapVer(st, m)
	kt := ev.keyTypes[m.id]
	if m.typ != nil {
		if mt, ok := m.typ.Underlying().(*types.Map); ok {
			kt = mt.Key()
		}
	}
	if v == "" || m == ev.c.Nil || m.op == "ite" || kt == nil {
		return nil
	}
	id := strconv.Itoa(m.id) + "|" + strconv.Itoa(st.pc.id) + "|" + v
	if l, ok := ev.keySets[id]; ok {
		return l
	}
	k := ev.c.intern(&Term{op: "kappa", aux: "key{" + kt.String() + "}", isInt: isInteger(kt), typ: kt})
	l := ev.c.Bind(ev.Load(st, ev.mapHas(m, k), tBool), k)
	ev.keySets[id] = l
	return l
}

// onlyVisited: since the iteration over a map began, only entries under the
// key being visited were written or removed.
func (ev *Ev) onlyVisited(ri *rangeInfo, st *State) bool {
	ok := true
	var walk func(m *Term)
	walk = func(m *Term) {
		if m.op == "ite" {
			walk(m.args[1])
			walk(m.args[2])
			return
		}
		if m == ev.c.Nil {
			return
		}
		key := ev.shapeOf(ev.c.raw("maphas", "", false, m, ev.c.Int(0))).key
		log, old := st.logs[key], ri.st.logs[key]
		if len(log) < len(old) {
			ok = false
			return
		}
		visited := func(e *entry) bool {
			h := e.holes[len(e.holes)-1]
			return h == ri.key || h.op == "mapkey" && h.args[0] == m
		}
		for i, e := range log {
			if i < len(old) {
				ok = ok && (e == old[i] || e.mark != nil && old[i].mark != nil)
				continue
			}
			if e.mark == nil {
				ok = ok && visited(e)
				continue
			}
			for _, p := range e.mark.pats {
				ok = ok && visited(p)
			}
		}
	}
	walk(ri.m)
	return ok
}

// mapVer identifies the writes a map may have received.
func (ev *Ev) mapVer(st *State, m *Term) string {
	if m.op == "ite" {
		return ev.mapVer(st, m.args[1]) + "|" + ev.mapVer(st, m.args[2])
	}
	if m == ev.c.Nil {
		return ""
	}
	sh := ev.shapeOf(ev.c.raw("maphas", "", false, m, ev.c.Int(0)))
	v := ""
	for _, e := range st.logs[sh.key] {
		if e.mark != nil {
			v += "m" + e.mark.name + strconv.Itoa(e.mark.kappa.id) + ";"
			continue
		}
		v += ev.name(e) + "," + strconv.Itoa(e.guard.id)
		if e.dom != nil {
			v += "," + strconv.Itoa(e.dom.id)
		}
		v += ";"
	}
	return v
}

func (ev *Ev) storeMap(st *State, m, k, v *Term, mt *types.Map) {
	ev.Store(st, ev.mapElem(m, k), v, mt.Elem())
	ev.Store(st, ev.mapHas(m, k), ev.c.True, types.Typ[types.Bool])
}

func (ev *Ev) lookup(st *State, m, k *Term, mt *types.Map) (*Term, *Term) {
	has := ev.Load(st, ev.mapHas(m, k), types.Typ[types.Bool])
	v := ev.Load(st, ev.mapElem(m, k), mt.Elem())
	return has, ev.c.Ite(has, v, ev.zero(mt.Elem()))
}

func typeKey(t types.Type) string { return types.TypeString(types.Unalias(t), nil) }

func (ev *Ev) mkIface(v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	ifaceTypes[typeKey(t)] = t
	return ev.c.App("iface:"+typeKey(t), func(x []*Term) *Term { return ev.c.raw("iface", typeKey(t), false, x[0]) }, v)
}

var ifaceTypes = map[string]types.Type{}

func (ev *Ev) typeAssert(v *Term, t types.Type) (val, ok *Term) {
	c := ev.c
	if it, isI := t.Underlying().(*types.Interface); isI {
		ok = c.App("ta:"+typeKey(t), func(x []*Term) *Term {
			if x[0] == c.Nil {
				return c.False
			}
			if x[0].op == "iface" {
				if ct := ifaceTypes[x[0].aux]; ct != nil {
					if types.Implements(ct, it) {
						return c.True
					}
					return c.False
				}
			}
			if it.Empty() {
				return c.Not(c.Eq(x[0], c.Nil))
			}
			return ev.rawT("implements", typeKey(t), types.Typ[types.Bool], x[0])
		}, v)
		return v, ok
	}
	ifaceTypes[typeKey(t)] = t
	ok = c.App("is:"+typeKey(t), func(x []*Term) *Term {
		if x[0] == c.Nil {
			return c.False
		}
		if x[0].op == "iface" {
			if x[0].aux == typeKey(t) {
				return c.True
			}
			return c.False
		}
		return ev.rawT("istype", typeKey(t), types.Typ[types.Bool], x[0])
	}, v)
	val = c.App("as:"+typeKey(t), func(x []*Term) *Term {
		if x[0].op == "iface" && x[0].aux == typeKey(t) {
			return x[0].args[0]
		}
		if x[0] == c.Nil || x[0].op == "iface" {
			return ev.zero(t)
		}
		return ev.uapp("as:"+typeKey(t), t, x[0])
	}, v)
	return
}

// ---------- calls

func (ev *Ev) callInfo(fr *Frame, in ssa.Instruction, com *ssa.CallCommon) *CallInfo {
	ci := &CallInfo{Instr: in, Com: com}
	if com.IsInvoke() {
		ci.Callee = ev.val(fr, com.Value)
		ci.Name = "(" + typeKey(com.Value.Type()) + ")." + com.Method.Name()
	} else if f := com.StaticCallee(); f != nil {
		ci.Fn = f
		ci.Name = f.String()
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			ci.Callee = ev.val(fr, mc)
		}
	} else if b, ok := com.Value.(*ssa.Builtin); ok {
		ci.Name = "builtin." + b.Name()
	} else {
		ci.Callee = ev.val(fr, com.Value)
		ci.Name = "dynamic"
	}
	for _, a := range com.Args {
		ci.Args = append(ci.Args, ev.val(fr, a))
	}
	return ci
}

func (ev *Ev) call(fr *Frame, in ssa.Instruction, com *ssa.CallCommon, st *State) (*State, []*Term) {
	return ev.callCI(fr, in, ev.callInfo(fr, in, com), st)
}

func (ev *Ev) callCI(fr *Frame, in ssa.Instruction, ci *CallInfo, st *State) (*State, []*Term) {
	c := ev.c
	ev.ncalls++
	com := ci.Com
	// distribute over gated callees
	if ci.Callee != nil && ci.Callee.op == "ite" {
		a := c.atomB(ci.Callee.args[0])
		var sts []*State
		var res [][]*Term
		for i, g := range []*Term{a, c.Not(a)} {
			pc := c.And(st.pc, g)
			if pc == c.False {
				continue
			}
			s := st.clone()
			s.pc = pc
			n := *ci
			n.Callee = ci.Callee.args[1+i]
			s2, v := ev.callCI(fr, in, &n, s)
			if s2 != nil && s2.pc != c.False {
				sts = append(sts, s2)
				res = append(res, v)
			}
		}
		if len(sts) == 0 {
			return nil, nil
		}
		if len(sts) == 1 {
			return sts[0], res[0]
		}
		g := c.Restrict(sts[0].pc, c.Or(sts[0].pc, sts[1].pc))
		vals := make([]*Term, len(res[0]))
		for i := range vals {
			vals[i] = c.Ite(g, res[0][i], res[1][i])
		}
		return ev.merge2(sts[0], sts[1]), vals
	}
	if com.IsInvoke() {
		if ci.Callee.op == "iface" {
			if t := ifaceTypes[ci.Callee.aux]; t != nil {
				if m := ev.p.prog.LookupMethod(t, com.Method.Pkg(), com.Method.Name()); m != nil {
					n := *ci
					n.Fn = m
					n.Name = m.String()
					n.Args = append([]*Term{ci.Callee.args[0]}, ci.Args...)
					return ev.callFn(fr, in, &n, st, nil)
				}
			}
		}
		ev.oblig(fr, st, "nil", c.Not(c.Eq(ci.Callee, c.Nil)), ci.Callee, in.Pos())
		n := *ci
		n.Args = append([]*Term{ci.Callee}, ci.Args...)
		return ev.external(fr, in, &n, st)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return st, ev.builtin(fr, in, b.Name(), ci, st)
	}
	if ci.Callee != nil {
		switch ci.Callee.op {
		case "clo":
			f := fnTerms[ci.Callee.aux]
			n := *ci
			n.Fn, n.Name = f, f.String()
			return ev.callFn(fr, in, &n, st, ci.Callee.args)
		case "func":
			if f := fnTerms[ci.Callee.aux]; f != nil {
				n := *ci
				n.Fn, n.Name = f, f.String()
				return ev.callFn(fr, in, &n, st, nil)
			}
		}
		if ci.Fn == nil {
			ev.oblig(fr, st, "nil", c.Not(c.Eq(ci.Callee, c.Nil)), ci.Callee, in.Pos())
			return ev.external(fr, in, ci, st)
		}
	}
	return ev.callFn(fr, in, ci, st, nil)
}

// wantInline: module functions with bodies, and synthetic wrappers.
func (ev *Ev) wantInline(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if ev.inline != nil && ev.inline(f) {
		return true
	}
	if o := f.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && searches[o.Name()] {
		return true
	}
	pk := f.Pkg
	if pk == nil {
		if f.Synthetic != "" { // bound methods, wrappers, thunks
			if fo, ok := f.Object().(*types.Func); ok && ev.models[fo.FullName()] != nil {
				return true
			}
			if o := f.Object(); o != nil && o.Pkg() != nil {
				return ev.p.inRepo(o.Pkg().Path())
			}
		}
		return false
	}
	path := pk.Pkg.Path()
	if !ev.p.inRepo(path) {
		return strings.HasPrefix(path, "github.com/paulmach/orb") && plainCode(f)
	}
	if path == ev.p.module+"/proto" {
		// only plain field getters
		return strings.HasPrefix(f.Name(), "Get")
	}
	return true
}

// searches are the functions of package slices that are evaluated like the module's own.
var searches = map[string]bool{
	"Index": true, "IndexFunc": true, "Contains": true, "ContainsFunc": true, "Delete": true, "Clone": true,
	"Clip": true, "Equal": true, "EqualFunc": true,
}

// plainCode: straight-line code that calls nothing.
func plainCode(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
			return false
		}
	}
	return true
}

func (ev *Ev) callFn(fr *Frame, in ssa.Instruction, ci *CallInfo, st *State, free []*Term) (*State, []*Term) {
	if ci.Fn != nil {
		ci.Name = ci.Fn.String()
	}
	if ev.onCall != nil {
		if r, ok := ev.onCall(fr, st, ci); ok {
			return st, r
		}
	}
	if m, ok := ev.models[ci.Name]; ok {
		return st, m(ev, fr, st, ci)
	}
	if ev.wantInline(ci.Fn) {
		return ev.Call(ci.Fn, ci.Args, free, st, fr, ev.site(fr, in))
	}
	return ev.external(fr, in, ci, st)
}

func resultTypes(com *ssa.CallCommon) []types.Type {
	r := com.Signature().Results()
	var out []types.Type
	for i := 0; i < r.Len(); i++ {
		out = append(out, r.At(i).Type())
	}
	return out
}

// external: unknown code. Pure function of its arguments unless it may write
// through pointers it is given to local objects.
func (ev *Ev) external(fr *Frame, in ssa.Instruction, ci *CallInfo, st *State) (*State, []*Term) {
	c := ev.c
	if ev.onCall != nil && (ci.Fn == nil) {
		if r, ok := ev.onCall(fr, st, ci); ok {
			return st, r
		}
	}
	if m, ok := ev.models[ci.Name]; ok {
		return st, m(ev, fr, st, ci)
	}
	if ev.onExt != nil && ev.trial == 0 {
		ev.onExt(fr, st, ci)
	}
	var res []*Term
	dyn := ci.Name == "dynamic"
	if dyn || !readOnly(ci.Name) {
		for _, a := range ci.Args {
			ev.havocObj(st, a, ev.site(fr, in))
		}
	}
	if !dyn {
		ev.unmodelled[ci.Name]++
	}
	var args []*Term
	args = append(args, ci.Args...)
	if dyn {
		args = append([]*Term{ci.Callee}, args...)
	}
	for i, t := range resultTypes(ci.Com) {
		if dyn || impure(ci.Name) {
			r := ev.fresh(ci.Name+"#"+strconv.Itoa(i)+"@"+ev.site(fr, in), t)
			res = append(res, r)
		} else {
			res = append(res, ev.uapp(ci.Name+"#"+strconv.Itoa(i), t, args...))
		}
	}
	_ = c
	return st, res
}

// havocObj forgets the contents of a local object handed to unknown code.
func (ev *Ev) havocObj(st *State, p *Term, by string) {
	if p.op == "ite" {
		for _, l := range leafSet(p) {
			ev.havocObj(st, l, by)
		}
		return
	}
	if p.op == "iface" {
		ev.havocObj(st, p.args[0], by)
		return
	}
	r := rootOf(p)
	if r.op != "alloc" && r.op != "mkmap" {
		return
	}
	k := ev.c.raw("havmark", "", false, r)
	st.mem[k] = ev.c.leaf("str", by+ev.kappaKey())
	for q := range st.mem {
		if q != k && rootOf(q) == r && q.op != "lockst" && q.op != "havmark" {
			delete(st.mem, q)
		}
	}
	sh := ev.shapeOf(r)
	if sh != nil {
		for key := range st.logs {
			if ex := ev.shapeEx[key]; ex != nil && rootOf(ex).op == r.op && rootOf(ex).aux == r.aux {
				delete(st.logs, key)
			}
		}
	}
}

func (ev *Ev) kappaKey() string {
	s := ""
	for _, k := range ev.kappas {
		s += ":" + strconv.Itoa(k.id)
	}
	return s
}

func (ev *Ev) builtin(fr *Frame, in ssa.Instruction, name string, ci *CallInfo, st *State) []*Term {
	c := ev.c
	switch name {
	case "len", "cap":
		if _, ok := ci.Com.Args[0].Type().Underlying().(*types.Map); ok {
			return []*Term{ev.mapLen(st, ci.Args[0])}
		}
		if at, ok := ci.Com.Args[0].Type().Underlying().(*types.Array); ok {
			return []*Term{c.Int(at.Len())}
		}
		if name == "cap" {
			return []*Term{ev.uapp("cap", types.Typ[types.Int], ci.Args[0])}
		}
		return []*Term{c.Len(ci.Args[0])}
	case "append":
		if isString(ci.Com.Args[1].Type()) {
			return []*Term{ev.appendStr(ci.Args[0], ci.Args[1])}
		}
		et := ci.Com.Args[0].Type().Underlying().(*types.Slice).Elem()
		return []*Term{ev.appendTerm(st, ci.Args[0], ci.Args[1], et)}
	case "copy":
		dst, src := ci.Args[0], ci.Args[1]
		if isString(ci.Com.Args[1].Type()) {
			return []*Term{c.Len(src)}
		}
		et := ci.Com.Args[0].Type().Underlying().(*types.Slice).Elem()
		ld, ls := c.Len(dst), c.Len(src)
		n := c.Ite(c.Le(ld, ls), ld, ls)
		b := c.intern(&Term{op: "kappa", aux: "cp:" + ev.site(fr, in), isInt: true})
		v := ev.Load(st, c.Idx(src, b), et)
		ev.access(fr, st, c.Idx(src, b), et, false, in.Pos())
		ev.access(fr, st, c.Idx(dst, b), et, true, in.Pos())
		ev.storeForall(st, c.Idx(dst, b), v, et, b, n)
		return []*Term{n}
	case "delete":
		m, k := ci.Args[0], ci.Args[1]
		mt := ci.Com.Args[0].Type().Underlying().(*types.Map)
		if m != c.Nil {
			ev.access(fr, st, ev.mapElem(m, k), mt.Elem(), true, in.Pos())
			ev.Store(st, ev.mapHas(m, k), c.False, types.Typ[types.Bool])
		}
		return nil
	case "recover":
		if fr.recov != nil {
			return []*Term{fr.recov}
		}
		return []*Term{c.Nil}
	case "min", "max":
		r := ci.Args[0]
		for _, a := range ci.Args[1:] {
			if name == "min" {
				r = c.Ite(c.Le(r, a), r, a)
			} else {
				r = c.Ite(c.Le(a, r), r, a)
			}
		}
		return []*Term{r}
	case "clear":
		sl, ok := ci.Com.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			if ci.Args[0] == c.Nil {
				return nil
			}
			panic(tooComplex{"clear of a map in " + fr.fn.String()})
		}
		b := c.intern(&Term{op: "kappa", aux: "clr:" + ev.site(fr, in), isInt: true})
		ev.access(fr, st, c.Idx(ci.Args[0], b), sl.Elem(), true, in.Pos())
		ev.storeForall(st, c.Idx(ci.Args[0], b), ev.zero(sl.Elem()), sl.Elem(), b, c.Len(ci.Args[0]))
		return nil
	case "close", "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return []*Term{ci.Args[0]}
	}
	panic(tooComplex{"builtin " + name})
}

func (ev *Ev) appendVals(s *Term, vals ...*Term) *Term {
	c := ev.c
	return c.App("append", func(x []*Term) *Term {
		if x[0].op == "append" {
			return c.raw("append", "", false, append(append([]*Term{}, x[0].args...), x[1:]...)...)
		}
		return c.raw("append", "", false, x...)
	}, append([]*Term{s}, vals...)...)
}

// appendStr appends the bytes of a text.
func (ev *Ev) appendStr(s, t *Term) *Term {
	c := ev.c
	b := ev.convert(t, tStr, types.NewSlice(types.Typ[types.Byte]))
	return c.App("appslice", func(x []*Term) *Term { return c.raw("appslice", "", false, x[0], x[1]) }, s, b)
}

func (ev *Ev) appendTerm(st *State, s, t *Term, et types.Type) *Term {
	c := ev.c
	if t.op == "ite" {
		return c.Ite(c.atomB(t.args[0]), ev.appendTerm(st, s, t.args[1], et), ev.appendTerm(st, s, t.args[2], et))
	}
	if t == c.Nil {
		return s
	}
	n := c.Len(t)
	if n.isConstNum() && n.ratVal().Sign() == 0 {
		return s
	}
	if n.isConstNum() && n.ratVal().Num().Int64() <= 8 {
		k := int(n.ratVal().Num().Int64())
		vals := []*Term{}
		for i := 0; i < k; i++ {
			vals = append(vals, ev.Load(st, c.Idx(t, c.Int(int64(i))), et))
		}
		return ev.appendVals(s, vals...)
	}
	return c.App("appslice", func(x []*Term) *Term {
		if x[0] == c.Nil {
			// keeps the elements; identity of the backing array is not modelled
		}
		return c.raw("appslice", "", false, x[0], x[1])
	}, s, t)
}

// storeForall writes v at address p for every value 0<=b<n of b.
func (ev *Ev) storeForall(st *State, p, v *Term, ty types.Type, b, n *Term) {
	tmp := &State{pc: ev.c.True, mem: map[*Term]*Term{}, logs: map[string][]*entry{}}
	ev.Store(tmp, p, v, ty)
	for k, log := range tmp.logs {
		st.logs[k] = append(st.logs[k][:len(st.logs[k]):len(st.logs[k])], ev.quantify(log, b, n)...)
	}
}

// quantify turns the writes of one iteration k into writes for all 0<=k<n.
func (ev *Ev) quantify(log []*entry, k, n *Term) []*entry {
	c := ev.c
	var out []*entry
	for _, e := range log {
		if e.mark != nil {
			continue
		}
		b := c.intern(&Term{op: "bv", aux: "q" + strconv.Itoa(k.id), isInt: k.isInt})
		m := map[int]*Term{k.id: b}
		ne := &entry{guard: c.Subst(e.guard, m), val: c.Subst(e.val, m)}
		uses := e.guard.contains(k) || e.val.contains(k)
		for _, h := range e.holes {
			if h.contains(k) {
				uses = true
			}
			ne.holes = append(ne.holes, c.Subst(h, m))
		}
		_ = uses
		ne.bound = append(append([]*Term{}, e.bound...), b)
		dom := c.And(c.Le(c.Int(0), b), c.Lt(b, n))
		if e.dom != nil {
			dom = c.And(dom, c.Subst(e.dom, m))
		}
		ne.dom = dom
		out = append(out, ne)
	}
	return out
}

// ---------- loop forest

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopForest struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop
	all    []*loop
}

func (ev *Ev) forest(fn *ssa.Function) *loopForest {
	if f, ok := ev.loops[fn]; ok {
		return f
	}
	f := &loopForest{header: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range f.rpo {
		num[b] = i
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					panic(tooComplex{"irreducible control flow in " + fn.String()})
				}
				l := f.header[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.header[s] = l
					f.all = append(f.all, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(f.all, func(i, j int) bool { return len(f.all[i].blocks) < len(f.all[j].blocks) })
	for i, l := range f.all {
		for j := i + 1; j < len(f.all); j++ {
			if f.all[j].blocks[l.header] && f.all[j] != l {
				l.parent = f.all[j]
				break
			}
		}
		for b := range l.blocks {
			if f.inner[b] == nil {
				f.inner[b] = l
			}
		}
	}
	ev.loops[fn] = f
	return f
}

// bitop is a commutative bit operation on opaque numbers.
func (ev *Ev) bitop(op token.Token, a, b *Term, t types.Type) *Term {
	if op == token.AND {
		if a.isConstNum() {
			a, b = b, a
		}
		if n := constInt(b); n != nil && n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0 && !a.isConstNum() {
			// a single bit is set or not
			return ev.c.Ite(ev.c.atomB(ev.c.raw("bitset", n.String(), false, a)), b, ev.c.Int(0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ev.uapp("bit"+op.String(), t, a, b)
}

func (ev *Ev) bitAnd(a, b *Term, t types.Type) *Term { return ev.bitop(token.AND, a, b, t) }

func constInt(t *Term) *big.Int {
	if !t.isConstNum() || !t.ratVal().IsInt() {
		return nil
	}
	return t.ratVal().Num()
}
