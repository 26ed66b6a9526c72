package main

import (
	"bytes"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"
)

type nativeFn = func(m *M, a []V) V

var natives = map[string]nativeFn{}

func reg(name string, f nativeFn) { natives[name] = f }
func regs(f nativeFn, names ...string) {
	for _, n := range names {
		natives[n] = f
	}
}

func nop(m *M, a []V) V { return V{} }

func mustStr(v V) string {
	s, ok := strC(v)
	if !ok {
		unsupported("symbolic string in native")
	}
	return s
}

func sliceV(v V) (*Slice, []V) {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil, nil
	}
	return s, s.o.s[s.off : s.off+s.len]
}

// concrete bytes of a []byte
func concBytes(b []V) ([]byte, bool) {
	out := make([]byte, len(b))
	for i := range b {
		if b[i].r != nil {
			return nil, false
		}
		out[i] = byte(b[i].n)
	}
	return out, true
}

func (m *M) mkBytes(b []byte) V {
	o := m.alloc(len(b))
	for i := range b {
		o.s[i].n = uint64(b[i])
	}
	return V{r: &Slice{o, 0, len(b), len(b)}}
}

func (m *M) mkStrSlice(ss []string) V {
	o := m.alloc(len(ss))
	for i, s := range ss {
		o.s[i] = mkStr(s)
	}
	return V{r: &Slice{o, 0, len(ss), len(ss)}}
}

const vrp = modPath + "/zz_verif/vr."

func init() {
	// ---- harness runtime
	reg(vrp+"Uint", func(m *M, a []V) V {
		return m.newVar(mustStr(a[0]), 64, a[1].n, a[2].n)
	})
	reg(vrp+"Int", func(m *M, a []V) V { return m.newVar(mustStr(a[0]), 64, a[1].n, a[2].n) })
	reg(vrp+"Byte", func(m *M, a []V) V { return m.newVar(mustStr(a[0]), 8, a[1].n, a[2].n) })
	reg(vrp+"Bool", func(m *M, a []V) V {
		x := m.pathVar(mustStr(a[0]), 8, 0, 1)
		return V{r: m.tt.Bin(OEq, x, m.tt.Const(1, 8))}
	})
	reg(vrp+"Choice", func(m *M, a []V) V {
		n := a[1].n
		if n <= 1 {
			return V{}
		}
		x := m.pathVar(mustStr(a[0]), 64, 0, n-1)
		return V{n: m.concretize(x)}
	})
	reg(vrp+"Str", func(m *M, a []V) V {
		n := m.conc(a[1], m.P.intT)
		bs := make([]V, n)
		for i := range bs {
			bs[i] = m.newVar(mustStr(a[0])+"."+strconv.Itoa(i), 8, a[2].n, a[3].n)
		}
		return mkSymStr(bs)
	})
	reg(vrp+"Lit", func(m *M, a []V) V {
		t, ok := a[0].r.(*Term)
		if !ok {
			return mkStr(strconv.FormatInt(int64(a[0].n), 10))
		}
		if isC(t) {
			return mkStr(strconv.FormatInt(int64(t.k), 10))
		}
		return mkStr(m.litFor(t))
	})
	reg(vrp+"Assume", func(m *M, a []V) V {
		m.assume(m.asTerm(a[0], boolT))
		return V{}
	})
	reg(vrp+"Assert", func(m *M, a []V) V {
		m.assertT(m.asTerm(a[0], boolT), mustStr(a[1]))
		return V{}
	})
	reg(vrp+"Reach", func(m *M, a []V) V {
		m.misc.reached = append(m.misc.reached[:len(m.misc.reached):len(m.misc.reached)], mustStr(a[0]))
		return V{}
	})
	reg(vrp+"Observe", func(m *M, a []V) V {
		i, _ := a[1].r.(*Iface)
		if i == nil {
			m.obs = append(m.obs, obsEnt{mustStr(a[0]), mkStr("<nil>"), m.P.stringT})
			return V{}
		}
		m.obs = append(m.obs, obsEnt{mustStr(a[0]), i.v, i.t})
		return V{}
	})
	reg(vrp+"Symbolic", func(m *M, a []V) V { return mkBool(true) })
	reg(vrp+"Bound", func(m *M, a []V) V {
		if m.ex.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	reg(vrp+"notePanic", nop)
	reg(vrp+"Contend", func(m *M, a []V) V { m.misc.strict = true; return V{} })
	reg(vrp+"Calm", func(m *M, a []V) V { m.misc.strict = false; return V{} })
	reg(vrp+"Concrete", func(m *M, a []V) V {
		if t, ok := a[0].r.(*Term); ok {
			return V{n: normN(m.concretize(t), 64, true)}
		}
		return a[0]
	})

	// ---- runtime & friends
	regs(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.Errors", "runtime/debug.SetGCPercent",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "os.runtime_beforeExit", "os/signal.init",
		"internal/bytealg.MakeNoZero$", "os.checkPidfdOnce", "os.ignoreSIGSYS", "os.restoreSIGSYS", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"runtime.ReadMemStats")
	reg("runtime.Callers", func(m *M, a []V) V { return V{} })
	reg("runtime.Caller", func(m *M, a []V) V { return mkTuple(V{}, V{}, V{}, V{}) })
	reg("runtime.FuncForPC", nop)
	reg("runtime.NumGoroutine", func(m *M, a []V) V { return mkInt(1) })
	reg("runtime.GOMAXPROCS", func(m *M, a []V) V { return mkInt(1) })
	reg("runtime.NumCPU", func(m *M, a []V) V { return mkInt(1) })
	reg("runtime/debug.ReadBuildInfo", func(m *M, a []V) V { return mkTuple(V{}, V{}) })
	reg("runtime.Stack", func(m *M, a []V) V { return V{} })
	reg("runtime/debug.Stack", func(m *M, a []V) V { return V{} })
	reg("runtime.CallersFrames", func(m *M, a []V) V { return V{r: m.alloc(64)} })
	reg("(*runtime.Frames).Next", func(m *M, a []V) V {
		return mkTuple(m.P.T.Of(m.P.pkgs["runtime"].Type("Frame").Type()).zeroV(), V{})
	})
	reg("internal/godebug.New", func(m *M, a []V) V { return V{r: m.alloc(16)} })
	reg("(*internal/godebug.Setting).Value", func(m *M, a []V) V { return V{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("(*internal/godebug.Setting).Name", func(m *M, a []V) V { return V{} })
	reg("internal/abi.NoEscape", func(m *M, a []V) V { return a[0] })
	reg("internal/abi.FuncPCABI0", func(m *M, a []V) V { return V{n: 1} })
	reg("strings.noescape", func(m *M, a []V) V { return a[0] })
	reg("bytes.noescape", func(m *M, a []V) V { return a[0] })
	reg("internal/bytealg.MakeNoZero", func(m *M, a []V) V {
		n := m.conc(a[0], m.P.intT)
		// capacity rounds up to the size class, as mallocgc does
		c := roundupsize(n, true)
		return V{r: &Slice{m.alloc(c), 0, n, c}}
	})
	reg("os.runtime_args", func(m *M, a []V) V { return m.mkStrSlice([]string{"verif"}) })
	reg("syscall.runtime_envs", func(m *M, a []V) V { return V{} })
	reg("os.Getenv", func(m *M, a []V) V { return V{} })
	reg("os.LookupEnv", func(m *M, a []V) V { return mkTuple(V{}, V{}) })
	reg("os.Environ", func(m *M, a []V) V { return V{} })
	reg("syscall.Getenv", func(m *M, a []V) V { return mkTuple(V{}, V{}) })
	reg("os.NewFile", func(m *M, a []V) V { return V{r: m.alloc(4)} })
	reg("os.Exit", func(m *M, a []V) V { panic(endPath{"exit", "os.Exit"}) })
	reg("syscall.Getpagesize", func(m *M, a []V) V { return mkInt(4096) })
	reg("os.Getwd", func(m *M, a []V) V { return mkTuple(mkStr(repoDir), V{}) })
	reg("os.Getpid", func(m *M, a []V) V { return mkInt(4242) })
	reg("log.Printf", nop)
	reg("log.Println", nop)
	reg("log.Print", nop)

	// time
	reg("time.now", func(m *M, a []V) V { return mkTuple(V{n: 1700000000}, V{n: uint64(m.misc.clock)}, V{n: uint64(m.misc.clock)}) })
	reg("time.runtimeNano", func(m *M, a []V) V { return V{n: uint64(m.misc.clock)} })
	reg("time.Sleep", nop)
	reg("time.runtimeNow", func(m *M, a []V) V { return mkTuple(V{n: 1700000000}, V{}, V{}) })

	// sync
	reg("sync.runtime_Semacquire", func(m *M, a []V) V { panic(endPath{"deadlock", "semacquire"}) })
	lockN := func(exclusive bool) nativeFn {
		return func(m *M, a []V) V { m.lock(a[0], exclusive); return V{} }
	}
	unlockN := func(exclusive bool) nativeFn {
		return func(m *M, a []V) V { m.unlock(a[0], exclusive); return V{} }
	}
	reg("(*sync.Mutex).Lock", lockN(true))
	reg("(*sync.Mutex).Unlock", unlockN(true))
	reg("(*sync.RWMutex).Lock", lockN(true))
	reg("(*sync.RWMutex).Unlock", unlockN(true))
	reg("(*sync.RWMutex).RLock", lockN(false))
	reg("(*sync.RWMutex).RUnlock", unlockN(false))
	reg("(*sync.Mutex).TryLock", func(m *M, a []V) V { return mkBool(m.tryLock(a[0], true)) })
	reg("(*sync.RWMutex).TryLock", func(m *M, a []V) V { return mkBool(m.tryLock(a[0], true)) })
	reg("(*sync.RWMutex).TryRLock", func(m *M, a []V) V { return mkBool(m.tryLock(a[0], false)) })
	reg("(*sync.Pool).Get", func(m *M, a []V) V {
		o := a[0].r.(*Obj)
		t := m.P.T.Of(m.P.pkgs["sync"].Type("Pool").Type())
		nw := o.s[int(a[0].n)+t.offs[len(t.offs)-1]]
		if c, ok := nw.r.(*Closure); ok {
			return V{r: &tailCall{c, nil, nil}}
		}
		return V{}
	})
	reg("(*sync.Pool).Put", nop)

	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ti := map[string]*TInfo{"Int32": {kind: KInt, w: 32, signed: true, size: 1}, "Int64": {kind: KInt, w: 64, signed: true, size: 1},
			"Uint32": {kind: KInt, w: 32, size: 1}, "Uint64": {kind: KInt, w: 64, size: 1}, "Uintptr": {kind: KInt, w: 64, size: 1}, "Pointer": {kind: KUnsafe, size: 1}}[ty]
		ld := func(m *M, a []V) V { return m.load(a[0], ti) }
		st := func(m *M, a []V) V { m.store(a[0], a[1], ti); return V{} }
		sw := func(m *M, a []V) V { o := m.load(a[0], ti); m.store(a[0], a[1], ti); return o }
		cas := func(m *M, a []V) V {
			if m.condV(m.eq(m.load(a[0], ti), a[1], ti)) {
				m.store(a[0], a[2], ti)
				return mkBool(true)
			}
			return V{}
		}
		add := func(m *M, a []V) V {
			x := V{n: normN(m.load(a[0], ti).n+a[1].n, ti.w, ti.signed)}
			m.store(a[0], x, ti)
			return x
		}
		p := "sync/atomic."
		reg(p+"Load"+ty, ld)
		reg(p+"Store"+ty, st)
		reg(p+"Swap"+ty, sw)
		reg(p+"CompareAndSwap"+ty, cas)
		if ty != "Pointer" {
			reg(p+"Add"+ty, add)
		}
	}
	anyT := &TInfo{kind: KIface, size: 1}
	reg("(*sync/atomic.Value).Load", func(m *M, a []V) V { return m.load(a[0], anyT) })
	reg("(*sync/atomic.Value).Store", func(m *M, a []V) V { m.store(a[0], a[1], anyT); return V{} })
	reg("(*sync/atomic.Value).Swap", func(m *M, a []V) V { o := m.load(a[0], anyT); m.store(a[0], a[1], anyT); return o })

	// math
	f1 := func(f func(float64) float64) nativeFn {
		return func(m *M, a []V) V { return mkFloat(f(fl(a[0])), nil) }
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs,
		"Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "Log10": math.Log10, "sqrt": math.Sqrt, "floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc} {
		reg("math."+n, f1(f))
	}
	reg("math.Pow", func(m *M, a []V) V { return mkFloat(math.Pow(fl(a[0]), fl(a[1])), nil) })
	reg("math.Float64bits", func(m *M, a []V) V { return V{n: math.Float64bits(fl(a[0]))} })
	reg("math.Float64frombits", func(m *M, a []V) V { return a[0] })
	reg("math.Float32bits", func(m *M, a []V) V { return V{n: uint64(math.Float32bits(float32(fl(a[0]))))} })
	reg("math.Float32frombits", func(m *M, a []V) V { return mkFloat(float64(math.Float32frombits(uint32(a[0].n))), nil) })
	_ = bits.Len

	// bytealg
	reg("internal/bytealg.IndexByteString", func(m *M, a []V) V { return m.indexByte(a[0], nil, a[1]) })
	reg("internal/bytealg.IndexByte", func(m *M, a []V) V {
		_, b := sliceV(a[0])
		return m.indexByte(V{}, b, a[1])
	})
	reg("internal/bytealg.LastIndexByteString", func(m *M, a []V) V { return m.lastIndexByte(strBytes(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByte", func(m *M, a []V) V { _, b := sliceV(a[0]); return m.lastIndexByte(b, a[1]) })
	reg("internal/bytealg.CountString", func(m *M, a []V) V { return m.countByte(strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(m *M, a []V) V { _, b := sliceV(a[0]); return m.countByte(b, a[1]) })
	reg("internal/bytealg.Equal", func(m *M, a []V) V {
		_, p := sliceV(a[0])
		_, q := sliceV(a[1])
		return m.strEq(bytesToStr(p), bytesToStr(q))
	})
	reg("bytes.Equal", natives["internal/bytealg.Equal"])
	reg("internal/bytealg.Compare", func(m *M, a []V) V {
		_, p := sliceV(a[0])
		_, q := sliceV(a[1])
		return m.strCompare(bytesToStr(p), bytesToStr(q))
	})
	reg("internal/bytealg.CompareString", func(m *M, a []V) V { return m.strCompare(a[0], a[1]) })
	reg("github.com/mailru/easyjson/jlexer.bytesToStr", func(m *M, a []V) V { _, b := sliceV(a[0]); return bytesToStr(b) })
	reg("strings.Compare", func(m *M, a []V) V { return m.strCompare(a[0], a[1]) })
	reg("internal/bytealg.abigen_runtime_cmpstring", nop)
	reg("internal/bytealg.IndexString", func(m *M, a []V) V { return m.indexStr(a[0], a[1]) })
	reg("internal/bytealg.Index", func(m *M, a []V) V {
		_, p := sliceV(a[0])
		_, q := sliceV(a[1])
		return m.indexStr(bytesToStr(p), bytesToStr(q))
	})
	reg("strings.Index", func(m *M, a []V) V { return m.indexStr(a[0], a[1]) })
	reg("internal/stringslite.Index", func(m *M, a []V) V { return m.indexStr(a[0], a[1]) })
	reg("internal/stringslite.Clone", func(m *M, a []V) V { return a[0] })
	reg("strings.Clone", func(m *M, a []V) V { return a[0] })
	reg("strings.IndexByte", func(m *M, a []V) V { return m.indexByte(a[0], nil, a[1]) })
	regc("strings.EqualFold", func(m *M, a []V) (V, bool) {
		x, ok1 := strC(a[0])
		y, ok2 := strC(a[1])
		return mkBool(ok1 && ok2 && strings.EqualFold(x, y)), ok1 && ok2
	})

	// strconv
	reg("strconv.FormatUint", func(m *M, a []V) V { return m.fmtInt(a[0], false, a[1]) })
	reg("strconv.FormatInt", func(m *M, a []V) V { return m.fmtInt(a[0], true, a[1]) })
	reg("strconv.Itoa", func(m *M, a []V) V { return m.fmtInt(a[0], true, V{n: 10}) })
	reg("strconv.AppendInt", func(m *M, a []V) V { return m.append(a[0], m.fmtInt(a[1], true, a[2]), byteTI(m)) })
	reg("strconv.AppendUint", func(m *M, a []V) V { return m.append(a[0], m.fmtInt(a[1], false, a[2]), byteTI(m)) })

	// misc externals
	reg("os.runtime_rand", func(m *M, a []V) V { return V{n: 4} })
	reg("hash/maphash.runtime_rand", func(m *M, a []V) V { return V{n: 4} })
	reg("math/rand.runtime_rand", func(m *M, a []V) V { return V{n: 4} })
	reg("math/rand.Int63", func(m *M, a []V) V { return V{n: 4} })
	reg("math/rand.Int", func(m *M, a []V) V { return V{n: 4} })
	reg("math/rand.Intn", func(m *M, a []V) V { return V{n: 0} })
	reg("math/rand.New", func(m *M, a []V) V { return V{r: m.alloc(8)} })
	reg("math/rand.NewSource", func(m *M, a []V) V { return V{r: &Iface{t: m.P.T.PtrTo(m.P.T.Of(m.P.pkgs["math/rand"].Type("rngSource").Type())), v: V{r: m.alloc(700)}}} })
	reg("(*math/rand.Rand).Int63", func(m *M, a []V) V { return V{n: 4} })
	reg("(*math/rand.Rand).Int", func(m *M, a []V) V { return V{n: 4} })
	reg("(*math/rand.Rand).Intn", func(m *M, a []V) V { return V{} })
	reg("crypto/md5.Sum", func(m *M, a []V) V { unsupported("md5"); return V{} })
	_ = os.Getenv
	_ = bytes.Equal
}

func byteTI(m *M) *TInfo { return m.P.byteT() }

func (P *Prog) byteT() *TInfo {
	return P.T.Of(universeByte)
}

func (m *M) newVar(name string, w uint8, lo, hi uint64) V {
	if lo == hi {
		return V{n: lo}
	}
	return V{r: m.pathVar(name, w, lo, hi)}
}

// pathVar declares a variable on the current path. The same name may have
// different ranges on different paths; those are different solver variables.
func (m *M) pathVar(name string, w uint8, lo, hi uint64) *Term {
	t := m.tt.Var(name, w, lo, hi)
	for _, v := range m.misc.vars {
		if v == t {
			return t
		}
		if v.name == name {
			panic(endPath{"unsupported", "variable " + name + " declared twice with different ranges"})
		}
	}
	n := len(m.misc.vars)
	m.misc.vars = append(m.misc.vars[:n:n], t)
	return t
}

// ---- literals standing for symbolic integers

const litBase = 7770000000000

func (m *M) litFor(t *Term) string {
	for i, x := range m.lits {
		if x == t {
			return strconv.Itoa(litBase + i)
		}
	}
	m.lits = append(m.lits, t)
	return strconv.Itoa(litBase + len(m.lits) - 1)
}

func (m *M) litTerm(n uint64) *Term {
	if n >= litBase && n < litBase+uint64(len(m.lits)) {
		return m.lits[n-litBase]
	}
	return nil
}

// ---- locks

func (m *M) lockSlot(p V) (*Obj, int) {
	o, ok := p.r.(*Obj)
	if !ok {
		m.nilDeref()
	}
	return o, int(p.n)
}

// A mutex/rwmutex is modelled in its first slot: 0 free, ^0 write-held, k readers.
func (m *M) lock(p V, excl bool) {
	o, i := m.lockSlot(p)
	st := int64(o.s[i].n)
	if st == -1 || (excl || m.misc.strict) && st != 0 {
		panic(endPath{"deadlock", "lock acquired while held by the same goroutine @ " + m.where()})
	}
	if excl {
		m.set(o, i, V{n: ^uint64(0)})
	} else {
		m.set(o, i, V{n: uint64(st + 1)})
	}
}

func (m *M) tryLock(p V, excl bool) bool {
	o, i := m.lockSlot(p)
	st := int64(o.s[i].n)
	if st == -1 || (excl && st != 0) {
		return false
	}
	m.lock(p, excl)
	return true
}

func (m *M) unlock(p V, excl bool) {
	o, i := m.lockSlot(p)
	st := int64(o.s[i].n)
	if excl {
		if st != -1 {
			panic(endPath{"panic", "fatal error: unlock of unlocked mutex @ " + m.where()})
		}
		m.set(o, i, V{})
		return
	}
	if st <= 0 {
		panic(endPath{"panic", "fatal error: RUnlock of unlocked RWMutex @ " + m.where()})
	}
	m.set(o, i, V{n: uint64(st - 1)})
}

// ---- strings

func (m *M) indexByte(s V, b []V, c V) V {
	if b == nil {
		if x, ok := strC(s); ok && c.r == nil {
			return mkInt(strings.IndexByte(x, byte(c.n)))
		}
		b = strBytes(s)
	}
	for i := range b {
		if m.condV(m.eq(b[i], c, byteT)) {
			return mkInt(i)
		}
	}
	return mkInt(-1)
}

func (m *M) lastIndexByte(b []V, c V) V {
	for i := len(b) - 1; i >= 0; i-- {
		if m.condV(m.eq(b[i], c, byteT)) {
			return mkInt(i)
		}
	}
	return mkInt(-1)
}

func (m *M) countByte(b []V, c V) V {
	n := 0
	for i := range b {
		if m.condV(m.eq(b[i], c, byteT)) {
			n++
		}
	}
	return mkInt(n)
}

func (m *M) indexStr(s, sub V) V {
	x, ok1 := strC(s)
	y, ok2 := strC(sub)
	if ok1 && ok2 {
		return mkInt(strings.Index(x, y))
	}
	n := strLen(sub)
	for i := 0; i+n <= strLen(s); i++ {
		if m.condV(m.strEq(subStr(s, i, i+n), sub)) {
			return mkInt(i)
		}
	}
	return mkInt(-1)
}

func (m *M) strCompare(a, b V) V {
	x, ok1 := strC(a)
	y, ok2 := strC(b)
	if ok1 && ok2 {
		return mkInt(strings.Compare(x, y))
	}
	if m.condV(m.strEq(a, b)) {
		return V{}
	}
	if m.condV(m.strLess(a, b, false)) {
		return mkInt(-1)
	}
	return mkInt(1)
}

// fmtInt formats an integer, forking on the number of digits.
func (m *M) fmtInt(v V, signed bool, base V) V {
	if v.r == nil {
		if signed {
			return mkStr(strconv.FormatInt(int64(v.n), int(base.n)))
		}
		return mkStr(strconv.FormatUint(v.n, int(base.n)))
	}
	t, ok := v.r.(*Term)
	if !ok {
		unsupported("format of %T", v.r)
	}
	if base.n != 10 {
		return m.fmtInt(V{n: m.concretize(t)}, signed, base)
	}
	neg := false
	if signed && m.branch(m.tt.Bin(OSlt, t, m.tt.Const(0, t.w))) {
		neg = true
		t = m.tt.Un(ONeg, t)
	}
	bs := m.digits(t)
	if neg {
		bs = append([]V{{n: '-'}}, bs...)
	}
	return mkSymStr(bs)
}

// digits gives the decimal digits of unsigned t, forking on their number.
func (m *M) digits(t *Term) []V {
	tt := m.tt
	n := 1
	p := uint64(10)
	for n < 20 {
		if t.hi < p || m.branch(tt.Bin(OUlt, t, tt.Const(p, t.w))) {
			break
		}
		n++
		if p > math.MaxUint64/10 {
			break
		}
		p *= 10
	}
	bs := make([]V, n)
	x := t
	ten := tt.Const(10, t.w)
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if i == 0 {
			d = x
			if x.hi > 9 {
				d = tt.Bin(OURem, x, ten)
			}
		} else {
			d = tt.Bin(OURem, x, ten)
			x = tt.Bin(OUDiv, x, ten)
		}
		bs[i] = m.fromTerm(tt.Bin(OAdd, tt.Resize(d, 8, false), tt.Const('0', 8)), byteT)
	}
	return bs
}


func init() {
	reg("github.com/cockroachdb/apd/v2.makeConstWithPrecision", func(m *M, a []V) V { return V{} })
	regs(func(m *M, a []V) V {
		if a[0].r == nil && a[1].r == nil {
			h, l := bits.Mul64(a[0].n, a[1].n)
			return mkTuple(V{n: h}, V{n: l})
		}
		x, y := m.asTerm(a[0], m.P.uint64T()), m.asTerm(a[1], m.P.uint64T())
		if h, _ := bits.Mul64(x.hi, y.hi); h != 0 {
			unsupported("symbolic Mul64 overflow")
		}
		return mkTuple(V{}, m.fromTerm(m.tt.Bin(OMul, x, y), m.P.uint64T()))
	}, "math/bits.Mul64", "math/bits.Mul")
	sym3 := func(sub bool) func(m *M, a []V) V {
		return func(m *M, a []V) V {
			tt, ut := m.tt, m.P.uint64T()
			x, y, c := m.asTerm(a[0], ut), m.asTerm(a[1], ut), m.asTerm(a[2], ut)
			if sub {
				d := tt.Bin(OSub, tt.Bin(OSub, x, y), c)
				if x.lo >= y.hi+c.hi && y.hi+c.hi >= y.hi {
					return mkTuple(m.fromTerm(d, ut), V{})
				}
				b := tt.Or(tt.Bin(OUlt, x, y), tt.And(tt.Bin(OEq, x, y), tt.Not(tt.Bin(OEq, c, tt.Const(0, 64)))))
				return mkTuple(m.fromTerm(d, ut), m.fromTerm(tt.Ite(b, tt.Const(1, 64), tt.Const(0, 64)), ut))
			}
			s := tt.Bin(OAdd, tt.Bin(OAdd, x, y), c)
			if h := x.hi + y.hi; h >= x.hi && h+c.hi >= h {
				return mkTuple(m.fromTerm(s, ut), V{})
			}
			unsupported("symbolic Add64 overflow")
			return V{}
		}
	}
	bin3 := func(f func(x, y, z uint64) (uint64, uint64), sub bool, names ...string) {
		g := sym3(sub)
		for _, name := range names {
			reg(name, func(m *M, a []V) V {
				if a[0].r != nil || a[1].r != nil || a[2].r != nil {
					return g(m, a)
				}
				h, l := f(a[0].n, a[1].n, a[2].n)
				return mkTuple(V{n: h}, V{n: l})
			})
		}
	}
	bin3(bits.Add64, false, "math/bits.Add64", "math/bits.Add")
	bin3(bits.Sub64, true, "math/bits.Sub64", "math/bits.Sub")
}
