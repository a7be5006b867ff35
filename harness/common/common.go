package PKG

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

type vFailure struct {
	Key     string `json:"key"`
	Input   any    `json:"input"`
	Message string `json:"message"`
}
type vResult struct {
	Evaluations int        `json:"evaluations"`
	Distinct    int        `json:"distinct_nontrivial"`
	Rule        string     `json:"rule"`
	Samples     []any      `json:"samples"`
	Failures    []vFailure `json:"failures"`
}

// vRun collects the cases of one harness run.
type vRun struct {
	t        *testing.T
	res      vResult
	seen     map[uint64]bool
	rng      *rand.Rand
	deadline time.Time
	tier     string
	keys     map[string]int
}

func vNew(t *testing.T, rule string) *vRun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 10
	}
	v := &vRun{t: t, seen: map[uint64]bool{}, rng: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Duration(secs) * time.Second), tier: os.Getenv("VERIF_TIER"), keys: map[string]int{}}
	v.res.Rule = rule
	v.res.Failures = []vFailure{}
	v.res.Samples = []any{}
	t.Cleanup(v.flush)
	return v
}

func (v *vRun) flush() {
	if p := os.Getenv("VERIF_OUT"); p != "" {
		b, err := json.Marshal(v.res)
		if err != nil {
			b, _ = json.Marshal(vResult{Evaluations: v.res.Evaluations, Distinct: v.res.Distinct, Rule: v.res.Rule, Samples: []any{fmt.Sprint(v.res.Samples)}, Failures: []vFailure{{Key: "unencodable", Message: fmt.Sprintf("%q", fmt.Sprint(v.res.Failures))}}})
			if len(v.res.Failures) == 0 {
				b, _ = json.Marshal(vResult{Evaluations: v.res.Evaluations, Distinct: v.res.Distinct, Rule: v.res.Rule, Samples: []any{fmt.Sprintf("%q", fmt.Sprint(v.res.Samples))}, Failures: []vFailure{}})
			}
		}
		_ = os.WriteFile(p, b, 0o644)
	}
	for _, f := range v.res.Failures {
		v.t.Logf("FAIL %s: %v: %s", f.Key, f.Input, f.Message)
	}
	if len(v.res.Failures) > 0 {
		v.t.Fail()
	}
}

// more reports whether another case should be run.
func (v *vRun) more() bool {
	n := 0
	for _, k := range v.keys {
		n += k
	}
	return time.Now().Before(v.deadline) && n < 20
}

// check runs one case; f returns "" or a description of what is wrong, plus a
// finding key. A panic of the code under test is a failure of the case.
func (v *vRun) check(in any, f func() (key, msg string)) {
	v.res.Evaluations++
	s := fmt.Sprintf("%#v", in)
	h := fnv.New64a()
	h.Write([]byte(s))
	if !v.seen[h.Sum64()] {
		v.seen[h.Sum64()] = true
		v.res.Distinct++
	}
	if len(v.res.Samples) < 3 || v.res.Evaluations == 100 {
		v.res.Samples = append(v.res.Samples, s)
	}
	key, msg := func() (key, msg string) {
		defer func() {
			if r := recover(); r != nil {
				key, msg = "panic", fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return f()
	}()
	if msg != "" {
		v.keys[key]++
		if v.keys[key] <= 3 {
			v.res.Failures = append(v.res.Failures, vFailure{Key: key, Input: s, Message: msg})
		}
	}
}
