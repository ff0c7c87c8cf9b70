// Package rxx replays behaviours of the Flux, Mono and Flow specifications on
// the real implementations, and records fluxes and monos shared by goroutines.
package rxx

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/rx"
)

type action struct {
	A      string   `json:"a"`
	Via    string   `json:"via"`
	Script []string `json:"script"`
	React  string   `json:"react"`
	How    string   `json:"how"`
	N      int      `json:"n"`
	Which  [][2]int `json:"which"`
}

type step struct {
	A action  `json:"a"`
	O [][]any `json:"o"`
}

type flowStep struct {
	Items int      `json:"items"`
	Fin   string   `json:"fin"`
	G     []string `json:"g"`
}

type scenario struct {
	ID     string     `json:"id"`
	What   string     `json:"what"` // flux, mono, flow, slice, fluxrun, monorun
	Kind   string     `json:"kind"`
	Mode   string     `json:"mode"`
	Map    string     `json:"map"`
	Source string     `json:"source"`
	Left   int        `json:"left"`
	Plan   []string   `json:"plan"`
	Flux   bool       `json:"isflux"`
	FSteps []flowStep `json:"fsteps"`
	Via    string     `json:"via"`
	Steps  []step     `json:"steps"`
	Seed   int64      `json:"seed"`
	Rounds int        `json:"rounds"`
}

// log is what was observed, in order.
type log struct {
	mu sync.Mutex
	e  [][]any
}

func (l *log) add(f ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.e = append(l.e, f)
}

func (l *log) take() [][]any {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := l.e
	l.e = nil
	return e
}

func signal(s rx.SignalType) string {
	switch s {
	case rx.SignalComplete:
		return "complete"
	case rx.SignalCancel:
		return "cancel"
	case rx.SignalError:
		return "error"
	}
	return "?"
}

// amount is demand with the maximum written as in the specification.
func amount(n int) int {
	if n >= math.MaxInt32/2 {
		return n - math.MaxInt32 + 1000
	}
	return n
}

// project splits effects into what the subscriber sees, in order; how
// often the source was cancelled; how much it was asked for (in order if
// demand is passed on at once); and what others see, in any order.
func project(es [][]any, sync bool) map[string][]string {
	p := map[string][]string{}
	sum, asked := 0, false
	for _, e := range es {
		s := fmt.Sprint(e...)
		b, _ := json.Marshal(e)
		s = string(b)
		switch e[0] {
		case "note", "blocked", "got":
			p["others"] = append(p["others"], s)
		case "srccancel":
			p["cancelled"] = append(p["cancelled"], s)
		case "run":
			p["run"] = append(p["run"], s)
		case "srcreq":
			if sync {
				p["asked"] = append(p["asked"], s)
			} else {
				var n float64
				switch v := e[1].(type) {
				case int:
					n = float64(v)
				case float64:
					n = v
				}
				sum += int(n)
				asked = true
			}
		default:
			p["sees"] = append(p["sees"], s)
		}
	}
	if asked && sum != 0 {
		p["asked"] = []string{fmt.Sprint(sum)}
	}
	sort.Strings(p["others"])
	if len(p["others"]) == 0 {
		delete(p, "others")
	}
	return p
}

// machine carries out the actions of a behaviour.
type machine interface {
	do(a action)
	seen() [][]any
}

func replay(s *scenario) (why string) {
	synctest.Test(&testing.T{}, func(*testing.T) {
		var m machine
		switch s.What {
		case "flux", "slice":
			m = newFlux(s)
		case "mono":
			m = newMono(s)
		case "flow":
			m = newFlow(s)
		}
		for n, st := range s.Steps {
			m.do(st.A)
			synctest.Wait()
			got := project(norm(m.seen(), s), wasi && s.What == "flux")
			want := project(norm(st.O, s), wasi && s.What == "flux")
			if !reflect.DeepEqual(got, want) {
				a, _ := json.Marshal(st.A)
				why = fmt.Sprintf("step %d %s: expected %v, observed %v", n, a, want, got)
				return
			}
		}
		if r, ok := m.(interface{ release() }); ok {
			r.release()
		}
	})
	return why
}

// norm drops effects that a variant does not show.
func norm(o [][]any, s *scenario) [][]any {
	r := [][]any{}
	for _, e := range o {
		if e[0] == "run" && s.Source == "processor" {
			continue
		}
		if s.What == "slice" && (e[0] == "srcreq" || e[0] == "srccancel" || e[0] == "run" || e[0] == "onreq") {
			continue // not seen, or asked again by items within items
		}
		r = append(r, e)
	}
	return r
}

var errE = errors.New("e")

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	if err != nil {
		os.Exit(3)
	}
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		_ = enc.Encode(map[string]any{"start": s.ID})
		r := map[string]any{"id": s.ID}
		switch s.What {
		case "fluxrun", "monorun":
			rng := rand.New(rand.NewSource(s.Seed))
			seen := map[string]bool{}
			runs := []*run{}
			for i := 0; i < s.Rounds; i++ {
				x := record(&s, rng)
				b, _ := json.Marshal(x)
				if !seen[string(b)] {
					seen[string(b)] = true
					runs = append(runs, x)
				}
			}
			r["ok"], r["runs"] = true, runs
		default:
			why := replay(&s)
			for i := 1; i < s.Rounds && why == ""; i++ {
				why = replay(&s)
			}
			r["ok"], r["why"] = why == "", why
		}
		_ = enc.Encode(r)
	}
	_ = enc.Encode(map[string]any{"end": true})
}
