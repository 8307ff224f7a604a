package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S04: failures are reported.

func init() {
	register("S04", "path-sensitive error dataflow over the control flow graph (typestate of error values)", "From every call that can fail, in every library function that reports errors and everything it reaches, the failure is followed along all control flow paths: tests of the failed error decide branches, wrapping and assignment carry it along; every path must end in returning a non-nil error (or handing it to a captured variable, field or callback), without using the other results of the failed call and without returning a partial result next to the error.", checkS04)
}

func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), tError) {
		return n - 1
	}
	return -1
}

type errFlow struct {
	p      *Prog
	r      *Report
	params map[string]int // memo of paramFate
	sites  int
	never  map[*ssa.Function]int
	// functions whose false result stands for a failure
	boolFail map[*ssa.Function]bool
	todo     []*ssa.Function
}

const (
	fateNone      = 0
	fateWrapped   = 1 // the result is a non-nil error
	fateDelivered = 2 // the error went somewhere on every path
	fateBusy      = 3
)

// errState is what is known on one path after a failure.
type errState struct {
	bad       map[ssa.Value]bool // non-nil errors; addresses of variables that hold one
	delivered bool
}

func (s *errState) clone() *errState {
	n := &errState{bad: make(map[ssa.Value]bool, len(s.bad)), delivered: s.delivered}
	for k := range s.bad {
		n.bad[k] = true
	}
	return n
}

func (s *errState) key() string {
	var ks []string
	for k := range s.bad {
		ks = append(ks, k.Name())
	}
	sort.Strings(ks)
	return fmt.Sprint(s.delivered, ks)
}

type errProblem struct {
	pos  token.Pos
	what string
}

// follow explores every path from instruction i of block b with the errors of
// s pending. src is the failed call (nil for a parameter).
func (ef *errFlow) follow(f *ssa.Function, b *ssa.BasicBlock, i int, s *errState, src ssa.CallInstruction) []errProblem {
	var probs []errProblem
	seen := map[string]bool{}
	report := func(pos token.Pos, format string, a ...any) {
		probs = append(probs, errProblem{pos, fmt.Sprintf(format, a...)})
	}
	own := map[ssa.Value]bool{} // results of the failed call other than the error
	var ownErr ssa.Value
	if src != nil {
		if v := src.Value(); v != nil {
			if _, ok := v.Type().(*types.Tuple); ok {
				ei := src.Common().Signature().Results().Len() - 1
				for _, u := range *v.Referrers() {
					if e, ok := u.(*ssa.Extract); ok {
						if e.Index == ei {
							ownErr = e
						} else {
							own[e] = true
						}
					}
				}
			} else {
				ownErr = v
			}
		}
	}
	var walk func(b *ssa.BasicBlock, i int, s *errState, from *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock, i int, s *errState, from *ssa.BasicBlock) {
		if i == 0 {
			// phis
			add := map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, pr := range b.Preds {
					if pr == from {
						add[ph] = ef.isBad(s, ph.Edges[k])
					}
				}
			}
			for v, on := range add {
				if on {
					s.bad[v] = true
				} else {
					delete(s.bad, v)
				}
			}
			fk := -1
			if from != nil {
				fk = from.Index
			}
			k := fmt.Sprint(b.Index, "<", fk, " ", s.key())
			if seen[k] {
				return
			}
			seen[k] = true
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			for _, op := range in.Operands(nil) {
				if *op == nil || !own[*op] {
					continue
				}
				switch in.(type) {
				case *ssa.Phi, *ssa.Return, *ssa.DebugRef, *ssa.Store, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.If:
				case *ssa.BinOp:
				default:
					report(in.Pos(), "the result of the failed step is used at %s", ef.p.Pos(in.Pos()))
					return
				}
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Extract:
				if t, ok := x.Tuple.(ssa.CallInstruction); ok && t != src {
					if s.bad[x.Tuple] && x.Index == errResult(t.Common().Signature()) {
						s.bad[x] = true
					}
				}
			case *ssa.MakeInterface:
				if s.bad[x.X] {
					s.bad[x] = true
				}
			case *ssa.ChangeInterface:
				if s.bad[x.X] {
					s.bad[x] = true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if s.bad[x.X] {
						s.bad[x] = true
					} else {
						delete(s.bad, x)
					}
				}
			case *ssa.Store:
				root := x.Addr
				if ef.isBad(s, x.Val) {
					switch root.(type) {
					case *ssa.Alloc:
						s.bad[root] = true
					default:
						s.bad[root] = true
						s.delivered = true
					}
				} else if types.Identical(x.Val.Type(), tError) {
					delete(s.bad, root)
				}
			case *ssa.MapUpdate:
				if ef.isBad(s, x.Value) {
					s.delivered = true
				}
			case *ssa.Send:
				if ef.isBad(s, x.X) {
					s.delivered = true
				}
			case *ssa.Panic:
				return
			case *ssa.Call, *ssa.Defer, *ssa.Go:
				ci := in.(ssa.CallInstruction)
				if ci == src {
					// the call is made again: what it returned before is lost
					delete(s.bad, ownErr)
					if len(s.bad) == 0 && !s.delivered {
						report(ci.Pos(), "the step is repeated although it failed")
						return
					}
				}
				ef.call(s, ci)
			case *ssa.Return:
				ei := errResult(f.Signature)
				if ei < 0 {
					ok := s.delivered
					if n := len(x.Results); n > 0 && !ok && f.Parent() == nil {
						// (value, false) signals the failure to the callers
						if isBool(f.Signature.Results().At(n-1).Type()) && ef.cond(s, x.Results[n-1], 0) == -1 {
							ok = true
							if !ef.boolFail[f] {
								ef.boolFail[f] = true
								ef.todo = append(ef.todo, f)
							}
						}
					}
					if !ok {
						report(x.Pos(), "%s returns without reporting it", shortFn(f))
					}
					return
				}
				res := x.Results[ei]
				if !ef.isBad(s, res) && !ef.nonNil(res) {
					if s.delivered {
						return
					}
					report(x.Pos(), "%s returns at %s without an error", shortFn(f), ef.p.Pos(x.Pos()))
					return
				}
				for k, v := range x.Results {
					if k != ei && !ef.zero(s, v, src) {
						report(x.Pos(), "%s returns a result together with the error at %s", shortFn(f), ef.p.Pos(x.Pos()))
					}
				}
				return
			case *ssa.If:
				switch ef.cond(s, x.Cond, 0) {
				case 1:
					walk(b.Succs[0], 0, s.clone(), b)
				case -1:
					walk(b.Succs[1], 0, s.clone(), b)
				case 2: // a test for one particular error: handled where it applies
					walk(b.Succs[1], 0, s.clone(), b)
				case -2:
					walk(b.Succs[0], 0, s.clone(), b)
				default:
					walk(b.Succs[0], 0, s.clone(), b)
					walk(b.Succs[1], 0, s.clone(), b)
				}
				return
			case *ssa.Jump:
				walk(b.Succs[0], 0, s.clone(), b)
				return
			}
		}
	}
	walk(b, i, s, nil)
	return probs
}

// cond decides a condition on a path with the errors of s: 1 true, -1 false,
// ±2 a test for a particular error, 0 unknown.
func (ef *errFlow) cond(s *errState, v ssa.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	if s.bad[v] && isBool(v.Type()) {
		return -1
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1
			}
			return -1
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -ef.cond(s, x.X, depth+1)
		}
	case *ssa.BinOp:
		a, b := x.X, x.Y
		if isNilConst(a) {
			a, b = b, a
		}
		if isNilConst(b) && ef.isBad(s, a) {
			if x.Op == token.NEQ {
				return 1
			}
			if x.Op == token.EQL {
				return -1
			}
		}
		if ef.isBad(s, a) || ef.isBad(s, b) {
			if x.Op == token.EQL {
				return 2
			}
			if x.Op == token.NEQ {
				return -2
			}
		}
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "errors" && (c.Name() == "Is" || c.Name() == "As") && ef.isBad(s, x.Call.Args[0]) {
			return 2
		}
	}
	return 0
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func (ef *errFlow) isBad(s *errState, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return s.bad[v] || ef.isBad(s, x.X)
	case *ssa.MakeInterface:
		return s.bad[v] || ef.isBad(s, x.X)
	}
	return s.bad[v]
}

// nonNil: v is a non-nil error whatever happened.
func (ef *errFlow) nonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return ef.nonNil(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return ef.errVar(g)
		}
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			return ef.alwaysFails(c)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || !ef.nonNil(e) {
				return false
			}
		}
		return true
	}
	return false
}

// alwaysFails: c returns a non-nil error every time.
func (ef *errFlow) alwaysFails(c *ssa.Function) bool {
	if c.Pkg != nil {
		switch c.Pkg.Pkg.Path() + "." + c.Name() {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	ei := errResult(c.Signature)
	if ei < 0 || c.Blocks == nil || c.Pkg == nil || !ef.p.isLib(c.Pkg.Pkg.Path()) {
		return false
	}
	switch ef.never[c] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	ef.never[c] = 3
	ok := true
	for _, b := range c.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && !ef.nonNil(ret.Results[ei]) {
			ok = false
		}
	}
	ef.never[c] = 2
	if ok {
		ef.never[c] = 1
	}
	return ok
}

// errVar: a package variable that is only set where it is declared.
func (ef *errFlow) errVar(g *ssa.Global) bool {
	if !types.Identical(deref(g.Type()), tError) || g.Pkg == nil {
		return false
	}
	if !ef.p.isLib(g.Pkg.Pkg.Path()) {
		return true // io.EOF and the like
	}
	ini := false
	for _, f := range append(ef.p.Funcs(), g.Pkg.Func("init")) {
		if f == nil || f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					if f.Name() != "init" || !ef.nonNil(st.Val) {
						return false
					}
					ini = true
				}
			}
		}
	}
	return ini
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// zero: v says nothing, or comes from the failed call itself.
func (ef *errFlow) zero(s *errState, v ssa.Value, src ssa.CallInstruction) bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() || x.Value == nil {
			return true
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return !constant.BoolVal(x.Value)
		case constant.String:
			return constant.StringVal(x.Value) == ""
		default:
			return constant.Sign(x.Value) == 0
		}
	case *ssa.Extract:
		return src != nil && x.Tuple == src.Value()
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return false
		}
		// a variable without a value of its own yet
		for _, u := range *a.Referrers() {
			st, ok := u.(*ssa.Store)
			if ok && st.Addr == a && !ef.zero(s, st.Val, src) && st.Block().Dominates(x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !ef.zero(s, e, src) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice, *ssa.Slice:
		return ef.emptySlice(v)
	}
	return false
}

func (ef *errFlow) emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Value != nil && constant.Sign(c.Value) == 0
	case *ssa.Slice:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	}
	return false
}

// call updates s for a call made while errors are pending.
func (ef *errFlow) call(s *errState, ci ssa.CallInstruction) {
	com := ci.Common()
	var bad []int
	for i, a := range com.Args {
		if ef.isBad(s, a) || ef.badVariadic(s, a) {
			bad = append(bad, i)
		}
	}
	callee := com.StaticCallee()
	// a closure may set a variable of this function
	if len(bad) == 0 {
		return
	}
	if com.IsInvoke() {
		if com.Method.Name() != "Error" {
			s.delivered = true
		}
		return
	}
	if callee == nil {
		if _, ok := com.Value.(*ssa.Builtin); ok {
			if v := ci.Value(); v != nil && types.Identical(v.Type(), types.NewSlice(tError)) {
				s.delivered = true // collected
			}
			return
		}
		s.delivered = true // a callback
		return
	}
	v := ci.Value()
	path := ""
	if callee.Pkg != nil {
		path = callee.Pkg.Pkg.Path()
	}
	if path == "fmt" && callee.Name() == "Errorf" || path == "errors" && callee.Name() == "Join" {
		s.bad[v] = true
		return
	}
	if !ef.p.isLib(path) || callee.Blocks == nil {
		return
	}
	for _, i := range bad {
		if i >= len(callee.Params) {
			continue
		}
		switch ef.paramFate(callee, i) {
		case fateWrapped:
			s.bad[v] = true
		case fateDelivered:
			s.delivered = true
		}
	}
}

// badVariadic: a is the slice of variadic arguments holding a failed error.
func (ef *errFlow) badVariadic(s *errState, a ssa.Value) bool {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok && ef.isBad(s, st.Val) {
				return true
			}
		}
	}
	return false
}

// paramFate: what a function does with a non-nil error it is given.
func (ef *errFlow) paramFate(f *ssa.Function, i int) int {
	k := fmt.Sprint(f.String(), "#", i)
	if v, ok := ef.params[k]; ok {
		if v == fateBusy {
			return fateNone
		}
		return v
	}
	ef.params[k] = fateBusy
	s := &errState{bad: map[ssa.Value]bool{f.Params[i]: true}}
	fate := fateNone
	if len(ef.follow(f, f.Blocks[0], 0, s, nil)) == 0 {
		fate = fateDelivered
		if errResult(f.Signature) >= 0 {
			fate = fateWrapped
		}
	}
	ef.params[k] = fate
	return fate
}

// setsError: the error variables of the enclosing function that closure c sets.
func setsError(mc *ssa.MakeClosure) []ssa.Value {
	fn := mc.Fn.(*ssa.Function)
	var out []ssa.Value
	for i, fv := range fn.FreeVars {
		if !types.Identical(deref(fv.Type()), tError) {
			continue
		}
		for _, u := range *fv.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == fv && !isNilConst(st.Val) {
				out = append(out, mc.Bindings[i])
				break
			}
		}
	}
	return out
}

func checkS04(p *Prog, r *Report) {
	r.Rule("reported", 60, "a failed step makes its function report an error")
	r.Rule("made", 30, "an error a function comes up with is what it reports")
	r.Rule("captured", 0, "an error kept in a variable by a callback is looked at afterwards")
	ef := &errFlow{p: p, r: r, params: map[string]int{}, never: map[*ssa.Function]int{}, boolFail: map[*ssa.Function]bool{}}
	// functions that report errors and what they reach
	scope := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if f == nil || scope[f] || f.Pkg == nil || f.Blocks == nil || !p.isLib(f.Pkg.Pkg.Path()) || strings.HasSuffix(p.fset.Position(f.Pos()).Filename, ".pb.go") {
			return
		}
		scope[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
				case ssa.CallInstruction:
					reach(x.Common().StaticCallee())
				case *ssa.MakeClosure:
					reach(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range p.Funcs() {
		if errResult(f.Signature) >= 0 {
			reach(f)
		}
	}
	for _, f := range p.Funcs() {
		if !scope[f] {
			continue
		}
		r.funcs[shortFn(f)] = true
		where := func(in ssa.Instruction) string { return p.Pos(in.Pos()) + " " + shortFn(f) }
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok && ef.nonNil(ld) {
					ef.made(f, b, i, ld, where(in))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				r.calls++
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				com := ci.Common()
				where := where(in)
				if errResult(com.Signature()) >= 0 {
					if callee := com.StaticCallee(); callee != nil && callee.Pkg != nil {
						path := callee.Pkg.Pkg.Path()
						if ef.alwaysFails(callee) {
							ef.made(f, b, i, ci.Value(), where)
							continue
						}
						if path == "fmt" || path == "errors" || ef.cannotFail(callee) || inMemory(callee) {
							continue
						}
						if errResult(f.Signature) < 0 && path == "strconv" {
							continue // probing what a text means
						}
					}
					s := &errState{bad: map[ssa.Value]bool{}}
					var e ssa.Value
					if v := ci.Value(); v != nil {
						if _, ok := v.Type().(*types.Tuple); ok {
							for _, u := range *v.Referrers() {
								if x, ok := u.(*ssa.Extract); ok && x.Index == errResult(com.Signature()) {
									e = x
								}
							}
						} else {
							e = v
						}
					}
					if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
						r.Ob("reported", false, ef.siteName(f, ci, where), "the error of %s in %s is discarded", calleeName(com), shortFn(f))
						continue
					}
					s.bad[e] = true
					probs := ef.follow(f, b, i+1, s, ci)
					if len(probs) == 0 {
						r.Ob("reported", true, where, "a failure of %s is reported", calleeName(com))
					}
					for _, pr := range probs {
						r.Ob("reported", false, ef.siteName(f, ci, where), "when %s fails, %s", calleeName(com), pr.what)
					}
				}
				// closures that keep an error in a variable of f
				for _, a := range append([]ssa.Value{com.Value}, com.Args...) {
					mc, ok := a.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					if _, d := in.(*ssa.Defer); d {
						for _, cell := range setsError(mc) {
							if cell.Parent() == f {
								r.Ob("captured", isResultCell(f, cell), where, "the error a deferred function records in %s is not what it returns", shortFn(f))
							}
						}
						continue
					}
					for _, cell := range setsError(mc) {
						if cell.Parent() != f {
							continue
						}
						s := &errState{bad: map[ssa.Value]bool{cell: true}}
						probs := ef.follow(f, b, i+1, s, nil)
						if len(probs) == 0 {
							r.Ob("captured", true, where, "an error set by the callback is reported")
						}
						for _, pr := range probs {
							r.Ob("captured", false, where, "when the callback records an error, %s", pr.what)
						}
					}
				}
			}
		}
	}
	for len(ef.todo) > 0 {
		g := ef.todo[0]
		ef.todo = ef.todo[1:]
		bi := g.Signature.Results().Len() - 1
		for _, f := range p.Funcs() {
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != g {
						continue
					}
					where := p.Pos(in.Pos()) + " " + shortFn(f)
					var e ssa.Value
					if v := ci.Value(); v != nil {
						e = v
						if _, ok := v.Type().(*types.Tuple); ok {
							e = nil
							for _, u := range *v.Referrers() {
								if x, ok := u.(*ssa.Extract); ok && x.Index == bi {
									e = x
								}
							}
						}
					}
					if e == nil || len(*e.Referrers()) == 0 {
						r.Ob("reported", false, where, "the failure %s signals is ignored in %s", shortFn(g), shortFn(f))
						continue
					}
					probs := ef.follow(f, b, i+1, &errState{bad: map[ssa.Value]bool{e: true}}, ci)
					if len(probs) == 0 {
						r.Ob("reported", true, where, "a failure signalled by %s is reported", shortFn(g))
					}
					for _, pr := range probs {
						r.Ob("reported", false, where, "when %s signals a failure, %s", shortFn(g), pr.what)
					}
				}
			}
		}
	}
}

// isResultCell: cell is the named error result of f.
func isResultCell(f *ssa.Function, cell ssa.Value) bool {
	ei := errResult(f.Signature)
	if ei < 0 {
		return false
	}
	for _, b := range append([]*ssa.BasicBlock{f.Recover}, f.Blocks...) {
		if b == nil {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			ld, ok := ret.Results[ei].(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || ld.X != cell {
				return false
			}
		}
	}
	return true
}

// made: the error e that f itself creates is reported by f. Comparing an error
// with it is no failure.
func (ef *errFlow) made(f *ssa.Function, b *ssa.BasicBlock, i int, e ssa.Value, where string) {
	used := false
	for _, u := range *e.Referrers() {
		switch x := u.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Call:
			c := x.Call.StaticCallee()
			if c == nil || c.Pkg == nil || c.Pkg.Pkg.Path() != "errors" {
				used = true
			}
		default:
			used = true
		}
	}
	if !used {
		_, isCall := e.(*ssa.Call)
		if isCall && len(*e.Referrers()) == 0 {
			ef.r.Ob("made", false, where, "%s makes an error and drops it", shortFn(f))
		}
		return
	}
	s := &errState{bad: map[ssa.Value]bool{e: true}}
	probs := ef.follow(f, b, i+1, s, nil)
	if len(probs) == 0 {
		ef.r.Ob("made", true, where, "the error is reported")
	}
	for _, pr := range probs {
		ef.r.Ob("made", false, where, "%s makes an error but %s", shortFn(f), pr.what)
	}
}

// cannotFail: a library function all of whose returns give a nil error.
func (ef *errFlow) cannotFail(c *ssa.Function) bool {
	ei := errResult(c.Signature)
	if ei < 0 || c.Blocks == nil || !ef.p.isLib(c.Pkg.Pkg.Path()) {
		return false
	}
	for _, b := range c.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && !isNilConst(ret.Results[ei]) {
			return false
		}
	}
	return true
}

// inMemory writers are documented to report no error, ever.
func inMemory(c *ssa.Function) bool {
	if c.Signature.Recv() == nil {
		return false
	}
	switch types.TypeString(c.Signature.Recv().Type(), nil) {
	case "*strings.Builder", "*bytes.Buffer":
		return strings.HasPrefix(c.Name(), "Write") && c.Name() != "WriteTo"
	}
	return false
}

func calleeName(com *ssa.CallCommon) string {
	if f := com.StaticCallee(); f != nil {
		return shortFn(f)
	}
	if com.IsInvoke() {
		return com.Method.FullName()
	}
	return com.Value.Name()
}

// siteName identifies a call whose failure cannot be reported by what fails,
// without the line it is on.
func (ef *errFlow) siteName(in *ssa.Function, ci ssa.CallInstruction, where string) string {
	if errResult(in.Signature) >= 0 {
		return where
	}
	names := map[string]bool{}
	ef.origins(ci.Common(), names, map[*ssa.Function]bool{})
	if len(names) != 1 {
		return where
	}
	for n := range names {
		if n != "" {
			return n + " where no error can be returned"
		}
	}
	return where
}

// origins collects the external calls a call's failure comes from.
func (ef *errFlow) origins(com *ssa.CallCommon, names map[string]bool, seen map[*ssa.Function]bool) {
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil {
		names[""] = true
		return
	}
	if ef.p.isLib(f.Pkg.Pkg.Path()) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && errResult(c.Common().Signature()) >= 0 {
					ef.origins(c.Common(), names, seen)
				}
			}
		}
		return
	}
	if len(com.Args) == 1 {
		if mi, ok := com.Args[0].(*ssa.MakeInterface); ok {
			if m, ok := mi.X.Type().Underlying().(*types.Map); ok {
				names[fmt.Sprintf("%s(%s)", f.String(), m)] = true
				return
			}
		}
	}
	names[""] = true
}
