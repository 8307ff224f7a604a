package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property.
type Report struct {
	id      string
	p       *Prog
	rules   map[string]*ruleStat
	order   []string
	viols   []Viol
	funcs   map[string]bool
	calls   int
	terms   int
	known   []string
	seen    map[string]bool
	samples []string
}

type ruleStat struct {
	Text       string `json:"rule"`
	Instances  int    `json:"instances"`
	Discharged int    `json:"discharged"`
	Floor      int    `json:"expected_at_least"`
}

// Viol is one violated obligation.
type Viol struct {
	Rule, Where, Detail string
}

// Rule declares a rule; fewer than floor instances is itself a violation,
// because a rule that matches nothing would pass vacuously.
func (r *Report) Rule(name string, floor int, text string) {
	if r.rules[name] == nil {
		r.rules[name] = &ruleStat{Text: text, Floor: floor}
		r.order = append(r.order, name)
	}
}

// Ob records one instance of a rule.
func (r *Report) Ob(rule string, ok bool, where, format string, a ...any) bool {
	s := r.rules[rule]
	if s == nil {
		panic("undeclared rule " + rule)
	}
	s.Instances++
	if ok {
		s.Discharged++
		if s.Instances <= 3 {
			r.samples = append(r.samples, rule+": "+where+": "+clip(fmt.Sprintf(format, a...), 240))
		}
		return true
	}
	d := clip(fmt.Sprintf(format, a...), 700)
	k := rule + "|" + where + "|" + d
	if r.seen[k] {
		return false
	}
	r.seen[k] = true
	r.viols = append(r.viols, Viol{rule, where, d})
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

func (r *Report) use(ev *Ev) {
	for f := range ev.funcs {
		r.funcs[f] = true
	}
	r.calls += ev.ncalls
	r.terms += ev.c.n
}

// guard runs f and turns an undecided analysis into a violation of rule.
func (r *Report) guard(rule, where string, f func()) {
	if os.Getenv("GPSA_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintln(os.Stderr, rule, where, time.Since(t0)) }()
	}
	defer func() {
		if e := recover(); e != nil {
			if t, ok := e.(tooComplex); ok {
				if os.Getenv("GPSA_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, where, t.why, string(debug.Stack()))
				}
				r.Ob(rule, false, where, "undecided: %s", t.why)
				return
			}
			if os.Getenv("GPSA_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, where, e, string(debug.Stack()))
			}
			r.Ob(rule, false, where, "undecided: analysis failed: %v", e)
		}
	}()
	f()
}

type checkDef struct {
	id   string
	tech string
	desc string
	run  func(p *Prog, r *Report)
}

var checks []checkDef

func register(id, tech, desc string, f func(p *Prog, r *Report)) {
	checks = append(checks, checkDef{id, tech, desc, f})
}

// spent is set when a check has used up its time or memory: what it has not
// decided by then stays undecided.
var spent atomic.Bool

func watch() {
	limit := timeLimit
	if s, err := time.ParseDuration(os.Getenv("GPSA_LIMIT")); err == nil {
		limit = s
	}
	end := time.Now().Add(limit)
	var m runtime.MemStats
	for ; time.Now().Before(end); time.Sleep(2 * time.Second) {
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > heapLimit {
			break
		}
	}
	spent.Store(true)
}

const (
	timeLimit = 600 * time.Second
	heapLimit = 20 << 30
)

func runCheck(id, repo, verif string) int {
	t0 := time.Now()
	go watch()
	var def *checkDef
	for i := range checks {
		if checks[i].id == id {
			def = &checks[i]
		}
	}
	r := &Report{id: id, rules: map[string]*ruleStat{}, funcs: map[string]bool{}, seen: map[string]bool{}}
	if def == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	var npk, nfn int
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.viols = append(r.viols, Viol{"analysis", "whole program", fmt.Sprintf("undecided: %v", e)})
				if os.Getenv("GPSA_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		p, err := Load(repo)
		if err != nil {
			r.viols = append(r.viols, Viol{"load", repo, err.Error()})
			return
		}
		r.p = p
		npk, nfn = len(p.ssa), len(p.Funcs())
		def.run(p, r)
	}()
	for _, n := range r.order {
		s := r.rules[n]
		if s.Instances < s.Floor {
			r.viols = append(r.viols, Viol{n, "whole program", fmt.Sprintf("the rule applies to %d constructs, expected at least %d: its anchors were not found", s.Instances, s.Floor)})
		}
	}
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].Where < r.viols[j].Where })
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), id)
	nv, printed := 0, map[string]bool{}
	rp := filepath.Join(verif, "evidence", id+".violations.txt")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	var b strings.Builder
	for _, v := range r.viols {
		key := v.Rule + " @ " + v.Where
		if k := known[key]; k != "" {
			if !printed[key] {
				printed[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			continue
		}
		nv++
		fmt.Fprintf(&b, "%s\n  rule: %s\n  %s\n", v.Where, v.Rule, v.Detail)
	}
	obl, dis := 0, 0
	rules := map[string]*ruleStat{}
	for n, s := range r.rules {
		obl += s.Instances
		dis += s.Discharged
		rules[n] = s
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(r.samples) > 40 {
		r.samples = r.samples[:40]
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":         def.desc,
			"obligations":         obl,
			"discharged":          dis,
			"rules":               rules,
			"packages_loaded":     npk,
			"library_functions":   nfn,
			"functions_evaluated": len(fns),
			"function_names":      fns,
			"call_sites_resolved": r.calls,
			"values_numbered":     r.terms,
			"samples":             r.samples,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nv,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", id, obl, dis, len(fns), time.Since(t0).Seconds())
	if nv > 0 {
		os.WriteFile(rp, []byte(b.String()), 0o644)
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(rp)
	return 0
}

var assumptions = []string{
	"values are compared as exact numbers: floating-point rounding, NaN inputs and integer overflow are outside the analysis",
	"two different access paths from distinct inputs do not alias; library functions outside the module are pure in their arguments except for the modelled ones (locks, atomics, channels, protobuf, json, random sources)",
	"protobuf and JSON decoding are inverse to their encoding; protobuf decoding yields no nil elements in repeated message fields",
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<rule @ where> :: <what fails>
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(rest, " :: "); i > 0 {
			out[rest[:i]] = rest[i+4:]
		}
	}
	return out
}

// ---------- sessions

// ptrSym is a named non-nil pointer input to a value of type t.
func (ev *Ev) ptrSym(name string, t types.Type) *Term {
	s := ev.sym(name, types.NewPointer(t))
	ev.c.nonNil[s.id] = true
	return s
}

// argSyms makes one input symbol per parameter.
func (ev *Ev) argSyms(f *ssa.Function) []*Term {
	var as []*Term
	for i, pr := range f.Params {
		t := ev.sym(pr.Name()+"#"+f.Name(), pr.Type())
		if i == 0 && f.Signature.Recv() != nil {
			ev.c.nonNil[t.id] = true
		}
		as = append(as, t)
	}
	return as
}

// invoke evaluates f on a copy of st.
func (ev *Ev) invoke(f *ssa.Function, st *State, args ...*Term) (*State, []*Term) {
	return ev.Call(f, args, nil, st, nil, "@")
}

// observe evaluates a query and discards its effects.
func (ev *Ev) observe(f *ssa.Function, st *State, args ...*Term) (vals []*Term) {
	ev.quietly(func() { _, vals = ev.Call(f, args, nil, st.clone(), nil, "?") })
	return vals
}

// quietly runs do with all observers of the evaluation switched off.
func (ev *Ev) quietly(do func()) {
	oa, ol, oo, oe := ev.onAccess, ev.onLock, ev.onOblig, ev.onExt
	oc, oL, oS, oI, oA, oP := ev.onCall, ev.onLoop, ev.onSelect, ev.onInstr, ev.onAtomic, ev.onProtoMarshal
	ev.onAccess, ev.onLock, ev.onOblig, ev.onExt = nil, nil, nil, nil
	ev.onCall, ev.onLoop, ev.onSelect, ev.onInstr, ev.onAtomic, ev.onProtoMarshal = nil, nil, nil, nil, nil, nil
	oh := ev.onChan
	ev.onChan = nil
	pl := ev.peel
	ev.peel = 0
	defer func() {
		ev.peel = pl
		ev.onChan = oh
		ev.onAccess, ev.onLock, ev.onOblig, ev.onExt = oa, ol, oo, oe
		ev.onCall, ev.onLoop, ev.onSelect, ev.onInstr, ev.onAtomic, ev.onProtoMarshal = oc, oL, oS, oI, oA, oP
	}()
	do()
}

// mustFunc resolves a function or fails the check.
func mustFunc(p *Prog, rel, name string) *ssa.Function {
	f := p.Func(rel, name)
	if f == nil {
		panic(tooComplex{"anchor not found: " + rel + "." + name})
	}
	return f
}

func mustType(p *Prog, rel, name string) *types.Named {
	t := p.Type(rel, name)
	if t == nil {
		panic(tooComplex{"anchor type not found: " + rel + "." + name})
	}
	return t
}

func (p *Prog) at(f *ssa.Function) string { return p.Pos(f.Pos()) + " " + shortFn(f) }

func (p *Prog) where(fr *Frame, pos token.Pos) string {
	return p.Pos(pos) + " " + fr.trace(p)
}

// leafSet lists the distinct leaves of a gated value.
func leafSet(t *Term) []*Term {
	if t.op != "ite" {
		return []*Term{t}
	}
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "ite" {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// isLeaf is the condition under which the gated value t is leaf.
func (ev *Ev) isLeaf(t, leaf *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == leaf {
			return ev.c.True
		}
		if t.op != "ite" {
			return ev.c.False
		}
		if r := memo[t.id]; r != nil {
			return r
		}
		r := ev.c.Ite(ev.c.atomB(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// leaves calls f for every distinct leaf of t with its condition.
func (ev *Ev) leaves(t *Term, pc *Term, f func(leaf, cond *Term)) {
	if t.op != "ite" {
		f(t, pc)
		return
	}
	for _, l := range leafSet(t) {
		if x := ev.c.And(pc, ev.isLeaf(t, l)); x != ev.c.False {
			f(l, x)
		}
	}
}

// baseOf walks an address down to the innermost node satisfying ok.
func baseOf(p *Term, ok func(t *Term) bool) *Term {
	for p != nil {
		if ok(p) {
			return p
		}
		switch p.op {
		case "fld", "idx", "mapelem", "maphas", "ini", "sub", "len", "appslice", "append", "hv", "havf", "lockst":
			if len(p.args) == 0 {
				return nil
			}
			p = p.args[0]
		default:
			return nil
		}
	}
	return nil
}

func isPtrTo(t *Term, n *types.Named) bool {
	if t.typ == nil {
		return false
	}
	pt, ok := types.Unalias(t.typ).(*types.Pointer)
	return ok && types.Identical(pt.Elem(), n)
}

// pathFrom renders the path from base to address p; "" if p is not below it.
func pathFrom(p, base *Term) string {
	if p == base {
		return ""
	}
	switch p.op {
	case "fld":
		return pathFrom(p.args[0], base) + "." + p.aux
	case "idx", "mapelem", "maphas":
		return pathFrom(p.args[0], base) + "[]"
	case "ini", "hv", "havf":
		return pathFrom(p.args[0], base) + "→"
	case "sub", "appslice", "append":
		return pathFrom(p.args[0], base)
	}
	return "?"
}

// lockFields lists the mutex fields of a struct type.
func lockFields(n *types.Named) []string {
	var out []string
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Type().String() {
		case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
			out = append(out, u.Field(i).Name())
		}
	}
	return out
}
