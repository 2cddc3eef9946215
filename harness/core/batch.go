package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// softError is a failure a slow machine could imitate.
type softError struct{ error }

// Soft marks a failure that depends on time: it only counts when the case,
// run alone, fails again.
func Soft(format string, a ...any) error { return softError{fmt.Errorf(format, a...)} }

// IsSoft tells whether the failure needs confirmation.
func IsSoft(err error) bool {
	var s softError
	return errors.As(err, &s)
}

// invalidError is a case the harness itself cannot run (an input outside what
// the check is about); it is neither a pass nor a violation.
type invalidError struct{ error }

// Invalid marks a case that says nothing about the property.
func Invalid(format string, a ...any) error { return invalidError{fmt.Errorf(format, a...)} }

// IsInvalid tells whether the case was unusable.
func IsInvalid(err error) bool {
	var s invalidError
	return errors.As(err, &s)
}

// Batch generates cases, runs them in parallel (each takes real time because
// of sockets and timeouts), repeats soft failures alone and shrinks what
// remains by removing list elements.
func Batch[C any](r *Runner, sub string, size Size, parallel int, gen func(*rapid.T) C, check func(C, *Info) error) {
	if doReplay(r, sub, check) {
		return
	}
	n := r.Count(size)
	g := rapid.Custom(gen)
	seed := int(r.SubSeed(sub) & 0x3fffffff)
	cases := make([]C, n)
	for i := range cases {
		cases[i] = g.Example(seed + i*7919)
	}
	runBatch(r, sub, parallel, cases, check)
}

// BatchList is Batch over a given list of cases (split over the shards).
func BatchList[C any](r *Runner, sub string, parallel int, all []C, check func(C, *Info) error) {
	if doReplay(r, sub, check) {
		return
	}
	var cases []C
	for i := range all {
		if i%r.Shards == r.Shard {
			cases = append(cases, all[i])
		}
	}
	runBatch(r, sub, parallel, cases, check)
}

func runBatch[C any](r *Runner, sub string, parallel int, cases []C, check func(C, *Info) error) {
	type failure struct {
		idx int
		js  []byte
		err error
	}
	var mu sync.Mutex
	var fails []failure
	hardFail := false
	idx := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < parallel; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				mu.Lock()
				stop := hardFail || len(fails) >= 4
				mu.Unlock()
				if stop {
					continue
				}
				js, err := json.Marshal(cases[i])
				if err != nil {
					panic(err)
				}
				info := &Info{}
				flight := filepath.Join(r.out, fmt.Sprintf("flight-%d-%s-%d.json", r.Shard, sub, i))
				fb, _ := json.MarshalIndent(replayFile{r.Prop, sub, "in flight when the process died", js}, "", " ")
				os.WriteFile(flight, fb, 0o644)
				err = Protect(func() error { return check(fresh[C](js), info) })
				os.Remove(flight)
				r.count(sub, js, info)
				if IsInvalid(err) {
					r.Error("%s: unusable case: %v", sub, err)
				} else if err != nil {
					mu.Lock()
					fails = append(fails, failure{i, js, err})
					hardFail = hardFail || !IsSoft(err)
					mu.Unlock()
				}
			}
		}()
	}
	for i := range cases {
		idx <- i
	}
	close(idx)
	wg.Wait()
	if len(fails) == 0 {
		return
	}
	sort.Slice(fails, func(a, b int) bool { return fails[a].idx < fails[b].idx })
	var hard *failure
	for k := range fails {
		if !IsSoft(fails[k].err) {
			hard = &fails[k]
			break
		}
	}
	if hard == nil { // only failures that need confirmation
		end := time.Now().Add(2 * time.Minute)
	confirm:
		for k := range fails {
			bad, first := 0, fails[k].err
			for try := 0; try < 3 && (try > 0 || k == 0 || time.Now().Before(end)); try++ {
				err := Protect(func() error { return check(fresh[C](fails[k].js), &Info{}) })
				if err == nil {
					break
				}
				fails[k].err = err
				bad++
				if !IsSoft(err) || bad == 2 {
					hard = &fails[k]
					break confirm
				}
			}
			if hard == nil {
				r.Note("soft failure not confirmed: "+sub, 1)
				fmt.Printf("not confirmed alone: %s/%s: %v\n", r.Prop, sub, first)
			}
		}
	}
	if hard == nil {
		return
	}
	js, err := shrinkJSON[C](hard.js, hard.err, check, 20*time.Second)
	r.mu.Lock()
	r.violationLocked(sub, js, err.Error())
	r.mu.Unlock()
}

// fresh makes the case from its JSON: a check may change its case.
func fresh[C any](js []byte) (c C) {
	if err := json.Unmarshal(js, &c); err != nil {
		panic(err)
	}
	return c
}

// shrinkJSON removes list elements while the case keeps failing.
func shrinkJSON[C any](js []byte, cerr error, check func(C, *Info) error, budget time.Duration) (json.RawMessage, error) {
	end := time.Now().Add(budget)
	var tree any
	dec := json.NewDecoder(bytes.NewReader(js))
	dec.UseNumber() // as it is
	if dec.Decode(&tree) != nil {
		return js, cerr
	}
	try := func(t any) bool {
		b, _ := json.Marshal(t)
		var n C
		if json.Unmarshal(b, &n) != nil {
			return false
		}
		err := Protect(func() error { return check(n, &Info{}) })
		if err == nil || IsInvalid(err) || (IsSoft(err) && !IsSoft(cerr)) {
			return false
		}
		js, cerr = b, err
		return true
	}
	// lists returns setters for every list in the tree
	type listRef struct {
		get func() []any
		set func([]any)
	}
	var lists []listRef
	var walk func(t any, set func(any))
	walk = func(t any, set func(any)) {
		switch v := t.(type) {
		case []any:
			cur := v
			lists = append(lists, listRef{func() []any { return cur }, func(n []any) { cur = n; set(n) }})
			for i := range v {
				i := i
				walk(v[i], func(n any) { v[i] = n })
			}
		case map[string]any:
			for _, k := range SortedKeys(v) {
				k := k
				walk(v[k], func(n any) { v[k] = n })
			}
		}
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		lists = nil
		walk(tree, func(n any) { tree = n })
	outer:
		for _, l := range lists {
			for size := len(l.get()); size > 0; size /= 2 {
				for at := 0; at+size <= len(l.get()); {
					if time.Now().After(end) {
						break outer
					}
					old := l.get()
					n := append(append([]any{}, old[:at]...), old[at+size:]...)
					l.set(n)
					if try(tree) {
						progress = true
					} else {
						l.set(old)
						at += size
					}
				}
			}
			if progress {
				break // element setters of the old slices are stale now
			}
		}
	}
	return js, cerr
}

// regressCases returns the saved cases of a sub-check.
func (r *Runner) regressCases(sub string) []json.RawMessage {
	dir := os.Getenv("VERIF_REGRESS")
	if dir == "" || r.Shard != 0 {
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, r.Prop+"-*.json"))
	sort.Strings(files)
	var out []json.RawMessage
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var rf replayFile
		if json.Unmarshal(b, &rf) == nil && rf.Sub == sub {
			out = append(out, rf.Case)
		}
	}
	return out
}
