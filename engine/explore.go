package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type AssertStats struct {
	mu         sync.Mutex
	checked    int // assertions evaluated on paths
	trivially  int // folded to true by the encoder's simplifier
	discharged int // unsat by the solver
	unknown    int
	byMsg      map[string]int
}

// PathResult is the outcome of one explored path.
type PathResult struct {
	Kind    string
	Msg     string
	Vals    map[string]uint64
	Obs     []string
	Reached []string
	Fails   []string // assertions that fail on the witness' path (symbolically)
	Steps   int64
}

// Cex is a solver counterexample awaiting replay.
type Cex struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic, deadlock
	Msg     string            `json:"msg"`
	Vals    map[string]uint64 `json:"vals"`
	Detail  string            `json:"detail"`
}

type Explorer struct {
	P        *Prog
	entry    *Fn
	setup    *Fn
	initFn   *Fn
	name     string
	tier     string
	workers  int
	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]uint64
	idle     int
	closed   bool
	idleA    atomic.Int32
	unknowns atomic.Int64
	memHigh  atomic.Bool
	npaths   atomic.Int64
	results  []*PathResult
	cexs     []*Cex
	cexSeen  map[string]int
	poisoned map[string]bool
	asserts  AssertStats
	deadline time.Time
	maxPaths int64
	maxSteps int64

	queries, sat, unsat, unk int
	solverDur                time.Duration
	fns                      map[string]string
	forks                    int
	endKinds                 map[string]int
	endMsgs                  map[string]int
	steps                    int64
	truncated                string
}

func (ex *Explorer) poison(s string) {
	ex.mu.Lock()
	ex.poisoned[s] = true
	ex.mu.Unlock()
}

// offer donates m's oldest pending alternative to an idle worker.
func (ex *Explorer) offer(m *M) {
	if ex.idleA.Load() == 0 || len(m.choices) == 0 {
		return
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for len(ex.queue) < ex.idle && len(m.choices) > 0 {
		ch := m.choices[0]
		m.choices = m.choices[1:]
		pre := append(append([]uint64(nil), m.decs[:ch.dec]...), ch.altDec)
		ex.queue = append(ex.queue, pre)
		ex.cond.Signal()
	}
}

func (ex *Explorer) take() ([]uint64, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.idle++
	ex.idleA.Add(1)
	for {
		if len(ex.queue) > 0 {
			t := ex.queue[0]
			ex.queue = ex.queue[1:]
			ex.idle--
			ex.idleA.Add(-1)
			return t, true
		}
		if ex.idle == ex.workers || ex.closed {
			ex.closed = true
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) run() error {
	ex.cond = sync.NewCond(&ex.mu)
	ex.cexSeen = map[string]int{}
	ex.fns = map[string]string{}
	ex.endKinds = map[string]int{}
	ex.endMsgs = map[string]int{}
	ex.asserts.byMsg = map[string]int{}
	if ex.poisoned == nil {
		ex.poisoned = map[string]bool{}
	}
	ex.queue = [][]uint64{{}}
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(300 * time.Millisecond):
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				ex.memHigh.Store(ms.HeapAlloc > 19<<30)
			}
		}
	}()
	var wg sync.WaitGroup
	errs := make(chan error, ex.workers)
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := ex.worker(); err != nil {
				errs <- err
				ex.mu.Lock()
				ex.closed = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

// boot creates a machine with package state initialised and the harness'
// Setup run.
func (ex *Explorer) boot() (*M, error) {
	m := newM(ex.P)
	m.ex = ex
	var err error
	tmo := 5000
	if ex.tier == "thorough" {
		tmo = 20000
	}
	if m.sol, err = newSolver(m.tt, tmo); err != nil {
		return nil, err
	}
	m.sol.deadline = ex.deadline
	m.inInit = true
	for _, f := range []*Fn{ex.initFn, ex.setup} {
		if f == nil {
			continue
		}
		m.frames = m.frames[:0]
		m.top = 0
		m.push(f, nil, nil, -1, fkInit)
		if e := m.run(); e.kind != "done" {
			m.sol.Close()
			return nil, fmt.Errorf("%s: %s: %s", f.name, e.kind, e.msg)
		}
	}
	m.inInit = false
	m.frames = m.frames[:0]
	m.top = 0
	m.push(ex.entry, nil, nil, -1, fkInit)
	m.pc = 1
	m.root = m.snapshot()
	m.epoch = 1
	return m, nil
}

func (ex *Explorer) worker() error {
	var m *M
	for {
		pre, ok := ex.take()
		if !ok {
			break
		}
		if m == nil {
			t0 := time.Now()
			var err error
			if m, err = ex.boot(); err != nil {
				return err
			}
			if debugStacks {
				fmt.Fprintln(os.Stderr, "# boot", time.Since(t0), m.steps, "steps")
			}
			m.maxSteps = ex.maxSteps
			defer m.sol.Close()
		}
		m.restore(m.root)
		m.sol.Push()
		m.epoch = 1
		m.steps = 0
		m.setModel(Model{})
		m.replay = pre
		m.choices = m.choices[:0]
		m.deadline = ex.deadline
		ex.explore(m)
	}
	if m != nil {
		ex.mu.Lock()
		ex.queries += m.sol.queries
		ex.sat += m.sol.sat
		ex.unsat += m.sol.unsat
		ex.unk += m.sol.unknown
		ex.solverDur += m.sol.dur
		ex.forks += m.forks
		for f := range m.fnSeen {
			ex.fns[f.name] = f.pkg
		}
		ex.mu.Unlock()
	}
	return nil
}

func (ex *Explorer) explore(m *M) {
	for {
		s0 := m.steps
		e := m.run()
		if m.steps-s0 > 0 {
			atomic.AddInt64(&ex.steps, m.steps-s0)
		}
		ex.finish(m, e)
		if time.Now().After(ex.deadline) || ex.npaths.Load() >= ex.maxPaths {
			ex.mu.Lock()
			if len(m.choices) > 0 || len(ex.queue) > 0 {
				ex.truncated = fmt.Sprintf("stopped after %d paths (time or path budget)", ex.npaths.Load())
			}
			ex.queue = nil
			ex.mu.Unlock()
			return
		}
		ex.offer(m)
		if !m.backtrack() {
			return
		}
	}
}

func (m *M) vals() map[string]uint64 {
	out := map[string]uint64{}
	for _, v := range m.misc.vars {
		x, ok := m.model[v]
		if !ok {
			x = v.lo
		}
		out[v.name] = x
	}
	return out
}

func (ex *Explorer) finish(m *M, e endPath) {
	if e.kind == "infeasible" {
		return
	}
	ex.npaths.Add(1)
	pr := &PathResult{Kind: e.kind, Msg: e.msg, Steps: m.steps}
	if m.model == nil {
		if res, md := m.sol.Check(nil, true); res == rSat {
			m.setModel(md)
		}
	}
	if m.model != nil {
		pr.Vals = m.vals()
		for _, o := range m.obs {
			pr.Obs = append(pr.Obs, o.label+"="+m.render(o.v, o.t))
		}
	}
	pr.Reached = m.misc.reached
	if (e.kind == "panic" || e.kind == "deadlock") && m.model != nil {
		ex.addCex(&Cex{Harness: ex.name, Kind: e.kind, Msg: e.kind, Vals: pr.Vals, Detail: e.msg})
	}
	ex.mu.Lock()
	ex.endKinds[e.kind]++
	if e.kind != "done" {
		ex.endMsgs[e.kind+": "+e.msg]++
	}
	ex.results = append(ex.results, pr)
	ex.mu.Unlock()
}

func (ex *Explorer) addCex(c *Cex) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := c.Kind + "|" + c.Msg
	ex.cexSeen[k]++
	if ex.cexSeen[k] > 8 {
		return
	}
	ex.cexs = append(ex.cexs, c)
}

// assertT checks a harness assertion on the current path.
func (m *M) assertT(c *Term, msg string) {
	st := &m.ex.asserts
	if len(m.decs) < len(m.replay) {
		// prefix replay: the donor already checked this
		if !isC(c) {
			m.constrain(c, true)
			m.note(c, true)
		}
		return
	}
	st.mu.Lock()
	st.checked++
	st.byMsg[msg]++
	st.mu.Unlock()
	if isC(c) {
		if c.k == 1 {
			st.mu.Lock()
			st.trivially++
			st.mu.Unlock()
			return
		}
		if m.model == nil {
			m.refreshModel()
		}
		m.ex.addCex(&Cex{Harness: m.ex.name, Kind: "assert", Msg: msg, Vals: m.vals()})
		return
	}
	if v, ok := m.decided[c]; ok && v {
		st.mu.Lock()
		st.trivially++
		st.mu.Unlock()
		return
	}
	res, md := m.sol.Check(m.tt.Not(c), true)
	switch res {
	case rUnsat:
		st.mu.Lock()
		st.discharged++
		st.mu.Unlock()
		m.note(c, true)
		return
	case rUnknown:
		st.mu.Lock()
		st.unknown++
		st.mu.Unlock()
		m.ex.unknowns.Add(1)
		m.constrain(c, true)
		m.note(c, true)
		return
	}
	save := m.model
	m.model = md
	vals := m.vals()
	m.model = save
	m.ex.addCex(&Cex{Harness: m.ex.name, Kind: "assert", Msg: msg, Vals: vals})
	m.constrain(c, true)
	m.note(c, true)
	if m.model == nil {
		m.refreshModel()
	}
}

// render evaluates an observation under the model, like fmt's %v.
func (m *M) render(v V, t *TInfo) string {
	switch t.kind {
	case KString:
		b := strBytes(v)
		bs := make([]byte, len(b))
		for i := range b {
			if x, ok := b[i].r.(*Term); ok {
				bs[i] = byte(m.evalModel(x))
			} else {
				bs[i] = byte(b[i].n)
			}
		}
		return string(bs)
	case KInt:
		n := v.n
		if x, ok := v.r.(*Term); ok {
			n = normN(m.evalModel(x), t.w, t.signed)
		}
		if t.signed {
			return fmt.Sprint(int64(n))
		}
		return fmt.Sprint(n)
	case KBool:
		n := v.n
		if x, ok := v.r.(*Term); ok {
			n = m.evalModel(x)
		}
		return fmt.Sprint(n == 1)
	case KSlice:
		s, _ := v.r.(*Slice)
		out := "["
		if s != nil {
			for i := 0; i < s.len; i++ {
				if i > 0 {
					out += " "
				}
				out += m.render(m.load(V{r: s.o, n: uint64(s.off + i*t.elem.size)}, t.elem), t.elem)
			}
		}
		return out + "]"
	case KIface:
		if i, ok := v.r.(*Iface); ok {
			return m.render(i.v, i.t)
		}
		return "<nil>"
	case KArray:
		out := "["
		for i := 0; i < t.n; i++ {
			if i > 0 {
				out += " "
			}
			out += m.render(aggField(v, i*t.elem.size, t.elem), t.elem)
		}
		return out + "]"
	}
	return "?" + t.String()
}

type sspkg = *ssa.Package

func (P *Prog) lookupFn(pkg *ssa.Package, name string) *Fn {
	f := pkg.Func(name)
	if f == nil {
		return nil
	}
	return P.fn(f)
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func newExplorer(P *Prog, sp *ssa.Package, name, tier string, workers int, d time.Duration, paths int64) *Explorer {
	ex := &Explorer{P: P, name: name, tier: tier, workers: workers, maxPaths: paths, maxSteps: 1e9, deadline: time.Now().Add(d), poisoned: map[string]bool{}}
	ex.entry = P.lookupFn(sp, name)
	if ex.entry == nil {
		return nil
	}
	ex.setup = P.lookupFn(sp, "Setup"+name[1:])
	if ex.setup == nil {
		ex.setup = P.lookupFn(sp, "Setup")
	}
	ex.initFn = P.fn(sp.Func("init"))
	return ex
}
