package main

// Path exploration: every branch on a symbolic condition is decided by the
// solver; feasible alternatives are queued as decision prefixes and re-executed.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type decision struct {
	kind byte // 'b' branch, 'c' concretise
	v    uint64
	take bool
}

type item struct {
	dec   []decision
	model Model
}

type symIn struct {
	Name string
	W    uint8
	t    *Term
}

type Violation struct {
	Label   string
	Kind    string // assert, panic, exit, deadlock, hang
	Detail  string
	Model   map[string]uint64
	Dec     []decision
	Inputs  map[string]uint64
	SMT     string
	Harness string
	Sched   bool
}

type Job struct {
	p          *Program
	harness    string
	fn         value
	setup      value
	tier       string
	deadline   time.Time
	maxPaths   int
	maxSteps   int
	allocBound int
	timeoutMS  int
	cross      bool
	verbose    bool
	fixed      Model // concrete re-execution
	fixedDec   []decision

	mu              sync.Mutex
	cond            *sync.Cond
	queue           []item
	busy            int
	stopped         bool
	paths           int
	outcomes        map[string]int
	reasons         map[string]int
	viol            []*Violation
	perLabel        map[string]int
	asserts         map[string]int // assertion checks discharged by the solver
	trivial         map[string]int // assertion instances true after simplification
	covers          map[string]int
	encoded         map[string]int
	traced          map[string]bool
	notes           map[string]bool
	stats           SolverStats
	unknownBranches int
	maxDepth        int
	transitions     int
	okSamples       []map[string]uint64
	okSeen          int
}

const maxSamples = 12

type Worker struct {
	id           int
	p            *Program
	f            *Factory
	s            *Solver
	j            *Job
	globals      []*value
	consts       []value
	undo         []undoRec
	cur          *frame
	trace        map[string]bool
	stopFns      map[string]bool
	encoded      map[string]int
	steps        int
	maxSteps     int
	allocBound   int
	preempt      bool
	preemptLeft  int
	schedExplore bool
	mapOrder     bool
	real         map[string]bool // stubs set aside on this path
	clock        int
	race         *raceState
	onExit       value // what sym.OnExit was given
	digits       bool  // symbolic integers are printed digit by digit

	// path state
	dec          []decision
	prefix       []decision
	pos          int
	model        Model
	known        map[*Term]bool
	inputs       []symIn
	nvar         map[string]int
	allowExit    bool
	allowPanic   bool
	allowBlock   bool
	base         int // undo mark
	ps           *pathState
	initialising bool
	setupErr     error
	cs           map[string]int

	// scheduler
	gs    []*gor
	g     *gor
	fail  any
	ack   chan struct{}
	locks map[*value]*lockState
	sub   *subState
	eqv   map[*Term]uint64
	uniq  map[string][]*value
}

// pathState holds engine-side state that must be fresh on every path.
type pathState struct {
	ext map[string]any
}

func newWorker(id int, p *Program, timeoutMS int) *Worker {
	f := NewFactory()
	w := &Worker{id: id, p: p, f: f, s: NewSolver(f, timeoutMS), encoded: map[string]int{},
		maxSteps: 50_000_000, allocBound: 4096, ack: make(chan struct{})}
	w.resetPath()
	return w
}

func (w *Worker) resetPath() {
	w.dec = nil
	w.prefix = nil
	w.pos = 0
	w.model = Model{}
	w.known = map[*Term]bool{}
	w.eqv = map[*Term]uint64{}
	w.sub = nil
	w.inputs = nil
	w.nvar = map[string]int{}
	w.allowExit, w.allowPanic, w.allowBlock = false, false, false
	w.preempt, w.preemptLeft, w.schedExplore, w.mapOrder, w.clock, w.real = false, 0, false, false, 0, nil
	w.race, w.digits, w.onExit = nil, false, nil
	w.ps = &pathState{ext: map[string]any{}}
	w.cur = nil
	w.steps = 0
	w.fail = nil
	w.g = &gor{id: 0, wake: make(chan bool)}
	w.gs = []*gor{w.g}
	w.locks = map[*value]*lockState{}
}

func (w *Worker) freshName(name string) string {
	n := w.nvar[name]
	w.nvar[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (w *Worker) newVar(name string, wd uint8, lo, hi uint64) *Term {
	if w.initialising {
		w.unsupported("symbolic value during initialisation")
	}
	if w.sub != nil {
		panic(abortMerge{"variable"})
	}
	name = w.freshName(name)
	key := name
	full := lo == 0 && (wd == 0 || hi == mask(wd))
	if !full {
		key = fmt.Sprintf("%s@%d:%d", name, lo, hi)
	}
	t := w.f.Var(key, wd, lo, hi)
	w.inputs = append(w.inputs, symIn{name, wd, t})
	if !full {
		if lo > 0 {
			w.s.Assert(w.f.mkRaw(OUle, w.f.Const(wd, lo), t))
		}
		if hi < mask(wd) {
			w.s.Assert(w.f.mkRaw(OUle, t, w.f.Const(wd, hi)))
		}
	}
	return t
}

// mkRaw builds a node without simplification (range assertions would fold away).
func (f *Factory) mkRaw(op Op, a, b *Term) *Term { return f.node(op, 0, a, b, nil) }

func (w *Worker) learn(lit *Term) {
	if lit.isConst() {
		return
	}
	w.s.Assert(lit)
	w.note(lit)
}

func (w *Worker) note(lit *Term) {
	w.known[lit] = true
	w.known[w.f.BNot(lit)] = false
	if t, v, ok := eqConst(lit); ok {
		w.eqv[t] = v
	}
	if lit.op == OBAnd {
		w.note(lit.a[0])
		w.note(lit.a[1])
	} else if lit.op == OBNot && lit.a[0].op == OBOr {
		w.note(w.f.BNot(lit.a[0].a[0]))
		w.note(w.f.BNot(lit.a[0].a[1]))
	}
}

func (w *Worker) simp(c *Term) *Term {
	if v, ok := w.known[c]; ok {
		return w.f.Bool(v)
	}
	switch c.op {
	case OEq:
		if t, v, ok := eqConst(c); ok {
			if x, ok := w.eqv[t]; ok {
				return w.f.Bool(x == v)
			}
		}
	case OBAnd:
		return w.f.BAnd(w.simp(c.a[0]), w.simp(c.a[1]))
	case OBOr:
		return w.f.BOr(w.simp(c.a[0]), w.simp(c.a[1]))
	case OBNot:
		return w.f.BNot(w.simp(c.a[0]))
	}
	return c
}

func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	c = w.simp(c)
	if c.isConst() {
		return c.val == 1
	}
	if w.sub != nil {
		return w.subBranch(c)
	}
	if w.initialising {
		w.unsupported("branch on symbolic value during initialisation")
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		if d.kind != 'b' {
			panic(stopPath{"engine", "nondeterministic re-execution (branch)" + w.whereStr()})
		}
		w.pos++
		w.dec = append(w.dec, d)
		if d.take {
			w.learn(c)
		} else {
			w.learn(w.f.BNot(c))
		}
		return d.take
	}
	b := w.f.Eval(c, w.model) == 1
	if w.j != nil && w.j.fixed != nil {
		w.pos++
		w.prefix = nil
		w.dec = append(w.dec, decision{'b', 0, b})
		return b
	}
	lit, other := c, w.f.BNot(c)
	if !b {
		lit, other = other, lit
	}
	r, m := w.s.Check(other)
	switch r {
	case Sat:
		w.push(decision{'b', 0, !b}, m)
	case Unknown:
		w.j.mu.Lock()
		w.j.unknownBranches++
		w.j.mu.Unlock()
	}
	w.dec = append(w.dec, decision{'b', 0, b})
	w.prefix = w.dec
	w.pos = len(w.dec)
	if r == Unsat {
		w.note(lit)
	} else {
		w.learn(lit)
	}
	return b
}

func (w *Worker) push(d decision, m Model) {
	nd := make([]decision, len(w.dec)+1)
	copy(nd, w.dec)
	nd[len(w.dec)] = d
	w.j.push(item{nd, m})
}

// concretize fixes t to one of its feasible values, queueing the others.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if w.initialising {
		w.unsupported("symbolic value during initialisation")
	}
	if w.sub != nil {
		panic(abortMerge{"value"})
	}
	if t.w == 0 {
		return b2u(w.branch(t))
	}
	for w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		if d.kind != 'c' {
			panic(stopPath{"engine", "nondeterministic re-execution (value)" + w.whereStr()})
		}
		w.pos++
		w.dec = append(w.dec, d)
		e := w.f.Eq(t, w.f.Const(t.w, d.v))
		if d.take {
			w.learn(e)
			return d.v
		}
		w.learn(w.f.BNot(e))
	}
	v := w.f.Eval(t, w.model)
	e := w.f.Eq(t, w.f.Const(t.w, v))
	if w.j != nil && w.j.fixed != nil {
		return v
	}
	if e.isConst() {
		return v
	}
	if k, ok := w.known[e]; !ok || !k {
		r, m := w.s.Check(w.f.BNot(e))
		switch r {
		case Sat:
			w.push(decision{'c', v, false}, m)
		case Unknown:
			w.j.mu.Lock()
			w.j.unknownBranches++
			w.j.mu.Unlock()
		}
	}
	w.dec = append(w.dec, decision{'c', v, true})
	w.prefix = w.dec
	w.pos = len(w.dec)
	w.learn(e)
	return v
}

// choose introduces a fresh symbolic choice in [0,n).
func (w *Worker) choose(n int, kind string) int {
	if n <= 1 {
		return 0
	}
	t := w.newVar("choice."+kind, 8, 0, uint64(n-1))
	return int(w.concretize(t))
}

func (w *Worker) assume(c *Term) {
	c = w.simp(c)
	if c.isConst() {
		if c.val == 0 {
			panic(stopPath{"assume", ""})
		}
		return
	}
	if w.pos < len(w.prefix) {
		w.learn(c)
		return
	}
	if w.f.Eval(c, w.model) == 1 {
		w.learn(c)
		return
	}
	if w.j.fixed != nil {
		panic(stopPath{"assume", "fixed model violates an assumption"})
	}
	r, m := w.s.Check(c)
	if r != Sat {
		if r == Unknown {
			panic(stopPath{"unknown", "solver gave no answer for an assumption"})
		}
		panic(stopPath{"assume", ""})
	}
	w.setModel(m)
	w.learn(c)
}

func (w *Worker) setModel(m Model) {
	// keep values of variables the solver was not asked about
	nm := Model{}
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	w.model = nm
	w.f.NewEpoch()
}

func (w *Worker) assert(c *Term, label string) {
	j := w.j
	if c.isConst() && c.val == 1 {
		j.mu.Lock()
		j.trivial[label]++
		j.mu.Unlock()
		return
	}
	c = w.simp(c)
	if c.isConst() {
		if c.val == 1 {
			j.mu.Lock()
			j.trivial[label]++
			j.mu.Unlock()
			return
		}
		if w.pos >= len(w.prefix) {
			w.violation("assert", label, "", w.model)
		}
		panic(stopPath{"failed", label})
	}
	if w.pos < len(w.prefix) {
		// this very query was decided when the prefix was first run
		w.learn(c)
		return
	}
	if j.fixed != nil {
		if w.f.Eval(c, w.model) == 0 {
			w.violation("assert", label, "", w.model)
			panic(stopPath{"failed", label})
		}
		return
	}
	neg := w.f.BNot(c)
	r, m := w.s.Check(neg)
	j.mu.Lock()
	j.asserts[label]++
	j.mu.Unlock()
	switch r {
	case Sat:
		saved := w.model
		w.setModel(m)
		w.violation("assert", label, "", w.model)
		w.model = saved
		w.f.NewEpoch()
		if w.f.Eval(c, w.model) != 1 {
			r2, m2 := w.s.Check(c)
			if r2 != Sat {
				panic(stopPath{"failed", label})
			}
			w.setModel(m2)
		}
		w.learn(c)
	case Unsat:
		if j.cross && w.s.Stats.Cross < 40 {
			w.s.Stats.Cross++
			if cr := w.s.CrossCheck(neg, []string{"z3", "-in", "-smt2"}, 20*time.Second); cr == Sat {
				w.s.Stats.CrossDisagree++
				panic(stopPath{"engine", "solvers disagree on " + label})
			} else if cr == Unknown {
				w.s.Stats.Cross--
			}
		}
		w.note(c)
	default:
		j.mu.Lock()
		j.reasons["unknown: assertion "+label]++
		j.outcomes["unknown-assert"]++
		j.mu.Unlock()
		if w.f.Eval(c, w.model) != 1 {
			w.violation("assert", label, "", w.model)
			panic(stopPath{"failed", label})
		}
		w.learn(c)
	}
}

func (w *Worker) violation(kind, label, detail string, m Model) {
	j := w.j
	j.mu.Lock()
	defer j.mu.Unlock()
	key := kind + "|" + label
	j.perLabel[key]++
	if j.perLabel[key] > 4 {
		return
	}
	v := &Violation{Label: label, Kind: kind, Detail: detail, Model: map[string]uint64{}, Inputs: map[string]uint64{}, Harness: j.harness}
	for k, x := range m {
		v.Model[k] = x
	}
	w.f.NewEpoch()
	for _, in := range w.inputs {
		v.Inputs[in.Name] = w.f.Eval(in.t, m)
		v.Model[in.t.name] = v.Inputs[in.Name]
		if strings.HasPrefix(in.Name, "choice.sched") || strings.HasPrefix(in.Name, "choice.preempt") {
			v.Sched = true
		}
	}
	w.f.NewEpoch()
	v.Dec = append([]decision{}, w.dec...)
	if len(w.s.pathPC) < 3000 {
		v.SMT = w.s.Dump(nil)
	}
	j.viol = append(j.viol, v)
}

// ---- queue -------------------------------------------------------------------

func (j *Job) push(it item) {
	j.mu.Lock()
	j.queue = append(j.queue, it)
	j.mu.Unlock()
	j.cond.Signal()
}

func (j *Job) next() (item, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.stopped {
			return item{}, false
		}
		if len(j.queue) > 0 {
			if time.Now().After(j.deadline) || j.paths >= j.maxPaths {
				j.stopped = true
				j.cond.Broadcast()
				return item{}, false
			}
			it := j.queue[len(j.queue)-1]
			j.queue = j.queue[:len(j.queue)-1]
			j.busy++
			j.paths++
			return it, true
		}
		if j.busy == 0 {
			j.stopped = true
			j.cond.Broadcast()
			return item{}, false
		}
		j.cond.Wait()
	}
}

func (j *Job) done() {
	j.mu.Lock()
	j.busy--
	j.mu.Unlock()
	j.cond.Broadcast()
}

func (j *Job) init() {
	j.cond = sync.NewCond(&j.mu)
	j.outcomes = map[string]int{}
	j.reasons = map[string]int{}
	j.perLabel = map[string]int{}
	j.asserts = map[string]int{}
	j.trivial = map[string]int{}
	j.covers = map[string]int{}
	j.encoded = map[string]int{}
	j.traced = map[string]bool{}
	j.notes = map[string]bool{}
}

func (j *Job) run(ws []*Worker) {
	j.init()
	j.queue = append(j.queue, item{nil, Model{}})
	// the deadline also stops workers stuck in one long path
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.j = j
			w.s.timeout = j.timeoutMS
			before := w.s.Stats
			for {
				it, ok := j.next()
				if !ok {
					break
				}
				w.runPath(it)
				j.done()
			}
			j.mu.Lock()
			j.stats.add(w.s.Stats, before)
			for k, v := range w.encoded {
				j.encoded[k] += v
			}
			w.encoded = map[string]int{}
			j.mu.Unlock()
		}(w)
	}
	wg.Wait()
}

func (a *SolverStats) add(b, c SolverStats) {
	a.Queries += b.Queries - c.Queries
	a.Sat += b.Sat - c.Sat
	a.Unsat += b.Unsat - c.Unsat
	a.Unknown += b.Unknown - c.Unknown
	a.Errors += b.Errors - c.Errors
	a.Time += b.Time - c.Time
	a.Cross += b.Cross - c.Cross
	a.CrossDisagree += b.CrossDisagree - c.CrossDisagree
}

func (w *Worker) runPath(it item) {
	w.resetPath()
	w.prefix = it.dec
	w.model = it.model
	if w.j.fixed != nil {
		w.model = w.j.fixed
	}
	w.maxSteps = w.j.maxSteps
	w.allocBound = w.j.allocBound
	w.f.NewEpoch()
	if len(w.f.tab) > 3_000_000 {
		w.resetFactory()
	}
	w.s.BeginPath()
	mark := len(w.undo)
	res := w.runMain()
	w.killOthers()
	w.rollback(mark)
	j := w.j
	kind, why := "ok", ""
	switch r := res.(type) {
	case nil:
	case goPanic:
		kind = "panic"
		msg := w.panicText(r)
		why = msg + r.where
		if w.allowPanic {
			kind = "ok"
		} else {
			w.violation("panic", "panic: "+generalise(msg)+" "+firstRepo(r.where), msg+r.where, w.model)
		}
	case exitPath:
		kind = "exit"
		why = r.msg
		if w.allowExit {
			kind = "ok"
		} else {
			w.violation("exit", "process exit: "+generalise(r.msg), r.msg, w.model)
		}
	case stopPath:
		kind, why = r.kind, r.msg
		if kind == "deadlock" {
			w.violation("deadlock", "deadlock", r.msg, w.model)
		}
		if kind == "hang" {
			w.violation("hang", "no termination within the step bound", r.msg, w.model)
		}
	default:
		kind = "engine"
		why = fmt.Sprint(r)
	}
	var sample map[string]uint64
	if kind == "ok" {
		sample = map[string]uint64{}
		for _, in := range w.inputs {
			sample[in.Name] = w.f.Eval(in.t, w.model)
			if strings.HasPrefix(in.Name, "choice.") {
				sample = nil
				break
			}
		}
	}
	j.mu.Lock()
	j.transitions += len(w.dec) - len(it.dec)
	if sample != nil {
		j.okSeen++
		if len(j.okSamples) < maxSamples {
			j.okSamples = append(j.okSamples, sample)
		} else if h := hash64(uint64(seed())<<32 + uint64(j.okSeen)); h%uint64(j.okSeen) < maxSamples {
			j.okSamples[h%maxSamples] = sample
		}
	}
	j.outcomes[kind]++
	if len(w.dec) > j.maxDepth {
		j.maxDepth = len(w.dec)
	}
	if kind != "ok" && kind != "assume" {
		if len(why) > 300 {
			why = why[:300]
		}
		j.reasons[kind+": "+why]++
	}
	if j.verbose {
		fmt.Fprintf(os.Stderr, "[path] %s %s dec=%d steps=%d\n", kind, why, len(w.dec), w.steps)
	}
	j.mu.Unlock()
}

func generalise(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	r := b.String()
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}

func firstRepo(where string) string {
	for _, p := range strings.Split(where, " < ") {
		if strings.Contains(p, modPath) && !strings.Contains(p, "Verif_") {
			return "in " + strings.ReplaceAll(p, modPath+"/", "")
		}
	}
	return ""
}

func (w *Worker) resetFactory() {
	// constants and globals hold terms of the old factory; only safe because
	// constants are hash-consed by value: rebuild the world instead.
	w.p.rebuildWorker(w)
}

func (w *Worker) runMain() (res any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case goPanic, exitPath, stopPath:
				res = r
			default:
				res = fmt.Sprintf("%v%s\n%s", r, w.whereStr(), debug.Stack())
			}
		}
	}()
	w.call(w.j.fn, nil, 0)
	return nil
}

func (w *Worker) panicText(r goPanic) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	switch v := r.v.v.(type) {
	case Str:
		if v.opaque || v.b != nil {
			return "panic with symbolic text"
		}
		return v.s
	case *Term:
		return fmt.Sprint(v)
	}
	if r.v.t != nil {
		return "panic(" + r.v.t.String() + ")"
	}
	return "panic"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hash64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	return x ^ x>>33
}
