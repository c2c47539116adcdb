package verifharness

// Case runner, verdict recording and watchdog. A property's check is a set of
// case kinds; each case is one execution of the real code, driven by a PRNG
// derived from (seed, property, kind, index) and run in its own synctest bubble
// (virtual time). Monitors report through Case.Violate.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"` // stable identity of what fails
	Detail   string   `json:"detail"`
	Kind     string   `json:"kind"`
	Index    int      `json:"index"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Log      []string `json:"log,omitempty"`
}

type Result struct {
	Property     string           `json:"property"`
	Done         bool             `json:"done"`
	Evaluations  int64            `json:"evaluations"`
	Counts       map[string]int64 `json:"counts"`
	States       []string         `json:"states"` // hashes of distinct non-trivial situations
	Samples      []string         `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
}

type Run struct {
	Prop          string
	Tier          string
	Seed          uint64
	Shard, Shards int
	T             *testing.T
	OnlyKind      string
	OnlyIdx       int

	mu     sync.Mutex
	res    Result
	states map[string]struct{}
	perKey map[string]int
	stop   bool
}

var theRun *Run
var progress atomic.Int64

func newRun(prop string, t *testing.T) *Run {
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Seed: seed, Shards: 1, T: t, OnlyIdx: -1}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &r.Shard, &r.Shards)
	}
	if s := os.Getenv("VERIF_ONLY"); s != "" {
		i := strings.LastIndex(s, ":")
		r.OnlyKind = s[:i]
		r.OnlyIdx, _ = strconv.Atoi(s[i+1:])
	}
	r.res = Result{Property: prop, Counts: map[string]int64{}}
	r.states = map[string]struct{}{}
	r.perKey = map[string]int{}
	theRun = r
	return r
}

func (r *Run) write(done bool) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		b, _ := json.MarshalIndent(r.res, "", " ")
		fmt.Println(string(b))
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.States = r.res.States[:0]
	for s := range r.states {
		r.res.States = append(r.res.States, s)
	}
	sort.Strings(r.res.States)
	b, _ := json.Marshal(r.res)
	os.WriteFile(out, b, 0o644)
}

func (r *Run) journal(kind string, idx int, what string) {
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		b, _ := json.Marshal(map[string]any{"property": r.Prop, "kind": kind, "index": idx, "seed": r.Seed, "tier": r.Tier, "what": what})
		os.WriteFile(j, b, 0o644)
	}
}

func (r *Run) Count(name string, n int64) {
	progress.Add(1)
	r.mu.Lock()
	r.res.Counts[name] += n
	r.mu.Unlock()
}

// Eval counts one evaluated execution (or input); state is the signature of the
// situation it exercised, counted once per distinct value when non-empty.
func (r *Run) Eval(state string) {
	progress.Add(1)
	r.mu.Lock()
	r.res.Evaluations++
	r.mu.Unlock()
	if state != "" {
		r.State(state)
	}
}

func (r *Run) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	k := strconv.FormatUint(h.Sum64(), 36)
	r.mu.Lock()
	r.states[k] = struct{}{}
	r.mu.Unlock()
}

func (r *Run) Sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < 4 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		r.res.Samples = append(r.res.Samples, s)
	}
}

func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.res.Inconclusive = append(r.res.Inconclusive, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *Run) violate(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perKey[v.Key]++
	if r.perKey[v.Key] > 2 || len(r.res.Violations) > 200 {
		return
	}
	if len(v.Detail) > 4000 {
		v.Detail = v.Detail[:4000] + "…"
	}
	r.res.Violations = append(r.res.Violations, v)
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	k := 8
	if r.Prop == "C08" || r.Prop == "C14" { // bounded by time, not by cases
		k = 1
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && k > 1 {
		k = s
	}
	if r.Thorough() {
		return k * thorough
	}
	return k * quick
}

func rngFor(seed uint64, parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}

// Case is one execution.
type Case struct {
	ctxs atomic.Int32 // contexts made
	*Run
	Kind     string
	Idx      int
	R        *rand.Rand
	InBubble bool
	// Leaked is set after the bubble ended with goroutines still blocked.
	mu      sync.Mutex
	log     []string
	nets    []*Net
	closers []func()
	start   time.Time
	bad     bool
}

func (c *Case) Logf(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.log) < 400 {
		c.log = append(c.log, fmt.Sprintf("[%v] ", time.Since(c.start))+fmt.Sprintf(format, a...))
	}
}

func (c *Case) Violate(key, format string, a ...any) {
	progress.Add(1)
	c.mu.Lock()
	c.bad = true
	log := append([]string(nil), c.log...)
	c.mu.Unlock()
	c.Run.violate(Violation{Property: c.Prop, Key: key, Detail: fmt.Sprintf(format, a...), Kind: c.Kind, Index: c.Idx, Seed: c.Seed, Tier: c.Tier, Log: log})
}

func (c *Case) Bad() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.bad }

// NewNet is a simulated port that lives as long as the case.
func (c *Case) NewNet() *Net {
	n := NewNet()
	c.mu.Lock()
	c.nets = append(c.nets, n)
	c.mu.Unlock()
	return n
}

// netIndex numbers the case's networks.
func (c *Case) netIndex(n *Net) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, x := range c.nets {
		if x == n {
			return i
		}
	}
	return -1
}

func (c *Case) Defer(f func()) { c.mu.Lock(); c.closers = append(c.closers, f); c.mu.Unlock() }

// dropDefer forgets the last deferred call.
func (c *Case) dropDefer() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if k := len(c.closers); k > 0 {
		c.closers[k-1] = nil
		c.closers = c.closers[:k-1]
	}
}

func (c *Case) cleanup() {
	c.mu.Lock()
	cl := c.closers
	nets := c.nets
	c.closers, c.nets = nil, nil
	c.mu.Unlock()
	for i := len(cl) - 1; i >= 0; i-- {
		cl[i]()
	}
	for _, n := range nets {
		n.Shutdown()
	}
	if c.InBubble {
		synctest.Wait()
	}
}

func (r *Run) selected(kind string, i int) bool {
	if r.OnlyKind != "" {
		return kind == r.OnlyKind && i == r.OnlyIdx
	}
	return i%r.Shards == r.Shard
}

// Cases runs n virtual-time executions of f.
func (r *Run) Cases(kind string, n int, f func(c *Case)) { r.cases(kind, n, f, true) }

// Plain runs n executions of f without a bubble.
func (r *Run) Plain(kind string, n int, f func(c *Case)) { r.cases(kind, n, f, false) }

func (r *Run) cases(kind string, n int, f func(c *Case), bubble bool) {
	bad := 0
	for i := 0; i < n; i++ {
		if !r.selected(kind, i) || bad >= 6 {
			continue
		}
		c := &Case{Run: r, Kind: kind, Idx: i, R: rngFor(r.Seed, r.Prop, kind, i), InBubble: bubble}
		r.journal(kind, i, "")
		progress.Add(1)
		if bubble {
			c.inBubble(f)
		} else {
			c.start = time.Now()
			f(c)
			c.cleanup()
		}
		if c.Bad() {
			bad++
			r.write(false)
		}
	}
}

func (c *Case) inBubble(f func(c *Case)) {
	finished := false
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			switch {
			case strings.Contains(s, "blocked goroutines remain"):
				// something is still blocked after the case: only the leak monitor decides on that
				c.Count("bubbles_with_leftover_goroutines", 1)
			case strings.Contains(s, "all goroutines in bubble are blocked"):
				c.Inconclusive("%s/%d: the workload itself blocked forever", c.Kind, c.Idx)
				_ = finished
			default:
				panic(p)
			}
		}
	}()
	synctest.Test(c.T, func(t *testing.T) {
		c.start = time.Now()
		defer c.cleanup()
		f(c)
		finished = true
	})
}

// Op is a call made in its own goroutine.
type Op struct {
	done chan struct{}
	At   time.Time
}

func (c *Case) Go(f func()) *Op {
	o := &Op{done: make(chan struct{})}
	go func() {
		defer close(o.done)
		f()
		o.At = time.Now()
	}()
	return o
}

// Within waits at most d (virtual in a bubble) for the call to return.
func (o *Op) Within(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-o.done:
		return true
	case <-t.C:
		select {
		case <-o.done:
			return true
		default:
			return false
		}
	}
}

func (o *Op) Done() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

// allStacks is a dump of every goroutine.
func allStacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

const subject = "github.com/voltbras/go-ocpp"

// owner is the first of the two modules (subject or harness) on the stack.
func owner(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, subject) {
			return "subject"
		}
		if strings.HasPrefix(l, "verifharness.") {
			return "harness"
		}
	}
	return ""
}

// subjectGoroutines are the goroutines with a frame of the code under test.
func subjectGoroutines() []string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "\n"+subject) {
			out = append(out, g)
		}
	}
	return out
}

// bubbleID is the synctest bubble of a goroutine's stack ("" outside).
func bubbleID(g string) string {
	h, _, _ := strings.Cut(g, "\n")
	if i := strings.Index(h, "synctest bubble "); i >= 0 {
		s := h[i+len("synctest bubble "):]
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		return s[:n]
	}
	return ""
}

// subjectHere are the goroutines of the caller's bubble with a frame of the code under test.
func subjectHere() []string {
	buf := make([]byte, 4096)
	me := bubbleID(string(buf[:runtime.Stack(buf, false)]))
	var out []string
	for _, g := range subjectGoroutines() {
		if bubbleID(g) == me {
			out = append(out, g)
		}
	}
	return out
}

// stackSig drops addresses, arguments and line numbers from a goroutine's stack.
func stackSig(g string) string {
	var fs []string
	for _, l := range strings.Split(g, "\n")[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if i := strings.Index(l, " in goroutine"); i > 0 {
			l = l[:i]
		}
		fs = append(fs, l)
	}
	return strings.Join(fs, " < ")
}

// stuckInSubject finds goroutines that are executing or lock-blocked in the
// code under test, i.e. not waiting for the virtual clock, a peer or an event.
func stuckInSubject(dump string) []string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		if strings.Contains(head, "(durable)") || owner(g) != "subject" {
			continue
		}
		// (a wait for a channel is not durable only if the channel is older than
		// the bubble, a global one of the code under test)
		if strings.Contains(head, "[chan ") || strings.Contains(head, "[select,") || strings.Contains(head, "Mutex") || strings.Contains(head, "semacquire") || strings.Contains(head, "running") || strings.Contains(head, "runnable") {
			out = append(out, g)
		}
	}
	return out
}

func stuckID(g string) string {
	if i := strings.Index(g, " ["); i > 0 {
		return g[:i]
	}
	return g
}

// watchdog runs outside every bubble, in real time. No progress for a long time
// means the bubble cannot become idle. If a goroutine sits in the code under
// test, lock-blocked or spinning, across all samples, the code under test is
// deadlocked or livelocked; otherwise the run is inconclusive.
func watchdog(r *Run) {
	limit := 25
	if raceEnabled {
		limit = 60
	}
	last, still := int64(-1), 0
	var seen map[string]int
	for {
		time.Sleep(time.Second)
		now := progress.Load()
		if raceEnabled || os.Getenv("VERIF_REAL") != "" {
			now += simEvents.Load()
		}
		if now != last {
			last, still, seen = now, 0, nil
			continue
		}
		still++
		if still < limit-5 {
			continue
		}
		if seen == nil {
			seen = map[string]int{}
		}
		stuck := stuckInSubject(allStacks())
		for _, g := range stuck {
			seen[stuckID(g)]++
		}
		if still < limit {
			continue
		}
		for _, g := range stuck {
			if seen[stuckID(g)] >= 5 {
				j, _ := os.ReadFile(os.Getenv("VERIF_JOURNAL"))
				var cur struct {
					Kind  string
					Index int
				}
				json.Unmarshal(j, &cur)
				r.violate(Violation{Property: r.Prop, Key: "stuck", Kind: cur.Kind, Index: cur.Index, Seed: r.Seed, Tier: r.Tier,
					Detail: fmt.Sprintf("the code under test is deadlocked on a lock or spinning (no progress for %d s of real time):\n%s", still, g)})
				r.write(true)
				os.Exit(3)
			}
		}
		r.Inconclusive("no progress for %d s; goroutines:\n%s", still, allStacks())
		r.write(true)
		os.Exit(4)
	}
}
