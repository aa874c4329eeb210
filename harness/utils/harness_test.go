package utils

// Replay of the properties on the real code: the specification functions are evaluated on concrete inputs and compared
// with what the code does. A bounded complement to the proofs, and the source of failing inputs.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"time"
)

type vViolation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

type vReport struct {
	Evaluations int          `json:"evaluations"`
	Distinct    int          `json:"distinct"`
	Rule        string       `json:"rule"`
	Samples     []string     `json:"samples"`
	Violations  []vViolation `json:"violations"`
	Seconds     float64      `json:"seconds"`
}

type vh struct {
	prop     string
	seed     int64
	thorough bool
	rep      vReport
	seen     map[uint64]bool
	cur      *os.File
	started  int64
	curText  atomic.Value
	rnd      *rand.Rand
	deadline time.Time
}

func (h *vh) write() {
	b, _ := json.Marshal(&h.rep)
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0644)
}

// over tells whether the time for this property is used up.
func (h *vh) over() bool {
	return len(h.rep.Violations) >= 5 || time.Now().After(h.deadline)
}

// try evaluates one case; f returns what is wrong, or nothing. Panics and hangs count as wrong.
func (h *vh) try(id, input string, nontrivial bool, f func() string) {
	h.rep.Evaluations++
	hs := fnv.New64a()
	hs.Write([]byte(input))
	if nontrivial && !h.seen[hs.Sum64()] {
		h.seen[hs.Sum64()] = true
		h.rep.Distinct++
		if h.rep.Distinct%997 == 1 && len(h.rep.Samples) < 5 {
			h.rep.Samples = append(h.rep.Samples, input)
		}
	}
	if h.cur != nil {
		b := []byte(input)
		if len(b) > 20000 {
			b = b[:20000]
		}
		h.cur.WriteAt(b, 0)
		h.cur.Truncate(int64(len(b)))
	}
	h.curText.Store([2]string{id, input})
	atomic.StoreInt64(&h.started, time.Now().UnixNano())
	what := func() (w string) {
		defer func() {
			if e := recover(); e != nil {
				w = fmt.Sprintf("panics: %v", e)
			}
		}()
		return f()
	}()
	atomic.StoreInt64(&h.started, 0)
	if what != "" {
		h.fail(id, input, what)
	}
}

func (h *vh) fail(id, input, what string) {
	if len(h.rep.Violations) < 20 {
		h.rep.Violations = append(h.rep.Violations, vViolation{h.prop, id, input, what})
	}
}

func (h *vh) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := atomic.LoadInt64(&h.started)
		if s != 0 && time.Since(time.Unix(0, s)) > 20*time.Second {
			c := h.curText.Load().([2]string)
			rep := vReport{Evaluations: h.rep.Evaluations, Distinct: h.rep.Distinct, Rule: h.rep.Rule, Samples: h.rep.Samples,
				Violations: []vViolation{{h.prop, c[0], c[1], "does not end within 20 seconds"}}}
			b, _ := json.Marshal(&rep)
			os.WriteFile(os.Getenv("VERIF_OUT"), b, 0644)
			os.Exit(3)
		}
	}
}

var vProps = map[string]func(h *vh){}

// vDict holds the numbers and words that occur in the program: inputs made of them get at what depends on a particular one.
var vDict struct {
	Ints  []int
	Words []string
}

// vCount is a number of things: one more, one less or as many as a number in the program, or any small number.
func vCount(r *rand.Rand, max int) int {
	if len(vDict.Ints) > 0 && r.Intn(2) == 0 {
		if n := vDict.Ints[r.Intn(len(vDict.Ints))] + r.Intn(3) - 1; n >= 0 && n <= max {
			return n
		}
	}
	if max > 24 && r.Intn(3) > 0 {
		max = 24
	}
	return r.Intn(max + 1)
}

// vWord is a word of the program that ok accepts, or nothing.
func vWord(r *rand.Rand, ok func(string) bool) string {
	for k := 0; k < 5 && len(vDict.Words) > 0; k++ {
		if w := vDict.Words[r.Intn(len(vDict.Words))]; ok(w) {
			return w
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	f := vProps[prop]
	if f == nil {
		t.Skip("no replay for " + prop)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	h := &vh{prop: prop, seed: int64(seed), thorough: os.Getenv("VERIF_TIER") == "thorough", seen: map[uint64]bool{}}
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		json.Unmarshal(b, &vDict)
	}
	h.rnd = rand.New(rand.NewSource(h.seed))
	h.cur, _ = os.Create(os.Getenv("VERIF_CUR"))
	h.deadline = time.Now().Add(8 * time.Second)
	if h.thorough {
		h.deadline = time.Now().Add(5 * time.Minute)
	}
	go h.watch()
	f(h)
	h.write()
}
