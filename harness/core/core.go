// Package core runs generated-input checks: it drives rapid, counts what was
// generated, keeps the (shrunk) failing case as a replay file and re-executes
// replay files without rapid.
package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Info collects the classification of one case.
type Info struct {
	labels     map[string]bool
	nontrivial bool
	extra      int
}

// Label counts the case under a class.
func (i *Info) Label(format string, a ...any) {
	if i.labels == nil {
		i.labels = map[string]bool{}
	}
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	i.labels[format] = true
}

// LabelIf counts the case under a class when the condition holds.
func (i *Info) LabelIf(c bool, s string) {
	if c {
		i.Label(s)
	}
}

// NonTrivial marks the case as non-trivial.
func (i *Info) NonTrivial(b bool) {
	if b {
		i.nontrivial = true
	}
}

type subStat struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels,omitempty"`
	Samples     []json.RawMessage `json:"samples,omitempty"`
	Exhaustive  bool              `json:"exhaustive,omitempty"`
	hashes      map[uint64]bool
}

// Violation is a confirmed failure of one sub-check.
type Violation struct {
	Sub    string `json:"sub"`
	Replay string `json:"replay"`
	Msg    string `json:"msg"`
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// Runner is the state of one shard of one property.
type Runner struct {
	T        *testing.T
	Prop     string
	Seed     uint64
	Shard    int
	Shards   int
	Thorough bool

	mu     sync.Mutex
	out    string
	subs   map[string]*subStat
	viols  []Violation
	errs   []string
	notes  map[string]int
	replay *replayFile
	cur    *os.File

	curStart time.Time
	curCPU   time.Duration
	curBusy  bool
	curJSON  []byte
	curSub   string
	noWatch  bool
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Start begins a property run.
func Start(t *testing.T, prop string) *Runner {
	r := &Runner{T: t, Prop: prop, Shards: 1, subs: map[string]*subStat{}, notes: map[string]int{}}
	r.Seed = uint64(envInt("VERIF_SEED", 1))
	r.Shard = envInt("VERIF_SHARD", 0)
	r.Shards = envInt("VERIF_SHARDS", 1)
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.out = os.Getenv("VERIF_OUT")
	if r.out == "" {
		r.out, _ = os.MkdirTemp("", "verif-"+prop)
	}
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		r.replay = &replayFile{}
		if err := json.Unmarshal(b, r.replay); err != nil {
			t.Fatal(err)
		}
	}
	os.MkdirAll(r.out, 0o755)
	r.cur, _ = os.Create(filepath.Join(r.out, fmt.Sprintf("cur-%d", r.Shard)))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	go r.watch()
	return r
}

// NoWatch switches the CPU watchdog off (socket checks have their own bounds).
func (r *Runner) NoWatch() { r.noWatch = true }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch reports a case that burns 60 s of CPU time (normal cases take
// micro- to milliseconds) or blocks for 180 s without returning.
func (r *Runner) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		r.mu.Lock()
		if r.curBusy && !r.noWatch {
			cpu := cpuTime() - r.curCPU
			wall := time.Since(r.curStart)
			if (cpu > 60*time.Second && wall > 20*time.Second) || wall > 180*time.Second {
				r.violationLocked(r.curSub, r.curJSON, fmt.Sprintf("the case does not return: %v CPU, %v elapsed", cpu, wall))
				r.flushLocked(false)
				os.Exit(7)
			}
		}
		r.mu.Unlock()
	}
}

func (r *Runner) begin(sub string, js []byte) {
	r.mu.Lock()
	r.curBusy, r.curSub, r.curJSON = true, sub, js
	r.curStart, r.curCPU = time.Now(), cpuTime()
	r.mu.Unlock()
	if r.cur != nil {
		buf := make([]byte, 8, 8+len(sub)+1+len(js))
		buf = append(buf, sub...)
		buf = append(buf, '\n')
		buf = append(buf, js...)
		binary.LittleEndian.PutUint64(buf, uint64(len(buf)-8))
		r.cur.WriteAt(buf, 0)
	}
}

func (r *Runner) end() {
	r.mu.Lock()
	r.curBusy = false
	r.mu.Unlock()
	if r.cur != nil {
		r.cur.WriteAt(make([]byte, 8), 0)
	}
}

func (r *Runner) stat(sub string) *subStat {
	s := r.subs[sub]
	if s == nil {
		s = &subStat{Labels: map[string]int{}, hashes: map[uint64]bool{}}
		r.subs[sub] = s
	}
	return s
}

func (r *Runner) count(sub string, js []byte, info *Info) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.stat(sub)
	s.Evaluations++
	for l := range info.labels {
		s.Labels[l]++
	}
	if info.nontrivial {
		s.NonTrivial++
		h := fnv.New64a()
		h.Write([]byte(sub))
		h.Write(js)
		s.hashes[h.Sum64()] = true
		n := s.NonTrivial
		if len(s.Samples) < 3 && len(js) < 1500 && (n == 1 || n == 10 || n == 100) {
			s.Samples = append(s.Samples, append(json.RawMessage(nil), js...))
		}
	}
}

// Note adds to a free counter shown in the evidence.
func (r *Runner) Note(k string, n int) {
	r.mu.Lock()
	r.notes[k] += n
	r.mu.Unlock()
}

// Error records a failure of the harness itself (no verdict).
func (r *Runner) Error(format string, a ...any) {
	r.mu.Lock()
	r.errs = append(r.errs, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *Runner) violationLocked(sub string, js []byte, msg string) {
	rf := replayFile{Property: r.Prop, Sub: sub, Message: msg, Case: js}
	if !json.Valid(js) {
		rf.Case, _ = json.Marshal(string(js))
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(rf)
	h := fnv.New32a()
	h.Write(js)
	name := fmt.Sprintf("%s-%s-%08x.json", r.Prop, sub, h.Sum32())
	p := filepath.Join(r.out, name)
	os.WriteFile(p, buf.Bytes(), 0o644)
	r.viols = append(r.viols, Violation{Sub: sub, Replay: p, Msg: msg})
	if len(js) > 3000 {
		js = js[:3000]
	}
	fmt.Printf("FAILED %s/%s: %s\n  case: %s\n", r.Prop, sub, msg, js)
}

// Violation records a confirmed violation.
func (r *Runner) Violation(sub string, c any, msg string) {
	js, _ := json.Marshal(c)
	r.mu.Lock()
	r.violationLocked(sub, js, msg)
	r.mu.Unlock()
}

func (r *Runner) flushLocked(complete bool) {
	type outT struct {
		Complete   bool                `json:"complete"`
		Subs       map[string]*subStat `json:"subs"`
		Violations []Violation         `json:"violations"`
		Errors     []string            `json:"errors"`
		Notes      map[string]int      `json:"notes"`
	}
	b, _ := json.Marshal(outT{complete, r.subs, r.viols, r.errs, r.notes})
	var hb []byte
	for _, s := range r.subs {
		for h := range s.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
	}
	os.WriteFile(filepath.Join(r.out, fmt.Sprintf("hash-%d", r.Shard)), hb, 0o644)
	os.WriteFile(filepath.Join(r.out, fmt.Sprintf("shard-%d.json", r.Shard)), b, 0o644)
}

// Finish writes the shard result.
func (r *Runner) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.flushLocked(true)
	if len(r.viols) > 0 {
		r.T.Errorf("%d violations", len(r.viols))
	}
}

// Size is a case count per tier, for the whole run (all shards together).
type Size struct{ Quick, Thorough int }

// Count returns this shard's share.
func (r *Runner) Count(s Size) int {
	n := s.Quick
	if r.Thorough {
		n = s.Thorough
	}
	if f := envInt("VERIF_SCALE", 100); f != 100 {
		n = n * f / 100
	}
	n = (n + r.Shards - 1) / r.Shards
	if n < 1 {
		n = 1
	}
	return n
}

// SubSeed derives the seed of a sub-check in this shard.
func (r *Runner) SubSeed(sub string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s/%s", r.Seed, r.Shard, r.Prop, sub)
	v := h.Sum64() & 0x7fffffffffffffff
	if v == 0 {
		v = 1
	}
	return v
}

func only(sub string) bool {
	o := os.Getenv("VERIF_ONLY")
	return o == "" || strings.HasPrefix(sub, o)
}

// Protect runs f and turns a panic into an error with a short stack.
func Protect(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(error); ok && IsInvalid(e) {
				err = e
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, shortStack())
		}
	}()
	return f()
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/debug/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func runOne[C any](r *Runner, sub string, c C, check func(C, *Info) error) (*Info, []byte, error) {
	js, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case of %s is not serialisable: %v", sub, err))
	}
	info := &Info{}
	r.begin(sub, js)
	err = Protect(func() error { return check(c, info) })
	r.end()
	if IsInvalid(err) {
		r.Error("%s: unusable case: %v", sub, err)
		err = nil
	}
	return info, js, err
}

// doReplay handles replay mode; it returns true when nothing else must run.
func doReplay[C any](r *Runner, sub string, check func(C, *Info) error) bool {
	if r.replay == nil {
		if !only(sub) {
			return true
		}
		for _, raw := range r.regressCases(sub) {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				r.Error("saved case of %s: %v", sub, err)
				continue
			}
			info, js, err := runOne(r, sub, c, check)
			info.Label("saved case")
			if IsSoft(err) {
				info, js, err = runOne(r, sub, c, check)
			}
			r.count(sub, js, info)
			if err != nil {
				r.mu.Lock()
				r.violationLocked(sub, js, err.Error())
				r.mu.Unlock()
				return true
			}
		}
		return false
	}
	if r.replay.Sub != sub {
		return true
	}
	var c C
	if err := json.Unmarshal(r.replay.Case, &c); err != nil {
		r.Error("replay case: %v", err)
		return true
	}
	info, js, err := runOne(r, sub, c, check)
	r.count(sub, js, info)
	if err != nil {
		r.mu.Lock()
		r.violationLocked(sub, js, err.Error())
		r.mu.Unlock()
	}
	return true
}

// Explore generates cases with rapid, checks each and shrinks a failure.
func Explore[C any](r *Runner, sub string, size Size, gen func(*rapid.T) C, check func(C, *Info) error) {
	if doReplay(r, sub, check) {
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(r.Count(size)))
	flag.Set("rapid.seed", strconv.FormatUint(r.SubSeed(sub), 10))
	var lastJS []byte
	var lastErr error
	failed := false
	done := r.T.Run(sub, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := gen(rt)
			info, js, err := runOne(r, sub, c, check)
			if !failed {
				r.count(sub, js, info)
			}
			if err != nil {
				failed = true
				lastJS, lastErr = js, err
				rt.Fatalf("%v", err)
			}
		})
	})
	if lastErr != nil {
		r.mu.Lock()
		r.violationLocked(sub, lastJS, lastErr.Error())
		r.mu.Unlock()
	} else if !done {
		r.Error("%s: generator failed", sub)
	}
}

// Enumerate checks every case of a finite space (split over the shards).
func Enumerate[C any](r *Runner, sub string, each func(yield func(C) bool), check func(C, *Info) error) {
	if doReplay(r, sub, check) {
		return
	}
	i := 0
	each(func(c C) bool {
		i++
		if (i-1)%r.Shards != r.Shard {
			return true
		}
		info, js, err := runOne(r, sub, c, check)
		r.count(sub, js, info)
		if err != nil {
			js, err = shrinkJSON(js, err, check, 10*time.Second)
			r.mu.Lock()
			r.violationLocked(sub, js, err.Error())
			r.mu.Unlock()
			return false
		}
		return true
	})
	r.mu.Lock()
	r.stat(sub).Exhaustive = true
	r.mu.Unlock()
}

// SortedKeys is a helper for stable output.
func SortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// WithTimeout runs f and reports when it does not return (a lock that is
// never released, for example).
func WithTimeout(f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- Protect(f) }()
	t := time.NewTimer(20 * time.Second)
	defer t.Stop()
	select {
	case err := <-ch:
		return err
	case <-t.C:
		return fmt.Errorf("no return after 20 s")
	}
}
