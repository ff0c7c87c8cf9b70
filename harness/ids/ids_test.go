// Package ids records runs of the stream id generators.
package ids

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"sync"
	"testing"

	"bufio"

	"github.com/nanobus/iota/go/internal/socket"
)

type scenario struct {
	ID   string `json:"id"`
	Kind string `json:"kind"` // start, way, many, manyway
	Side string `json:"side"`
	Back int    `json:"back"` // how far before a wrap to start
	Lap  int    `json:"lap"`
	K    int    `json:"k"`
	G    int    `json:"g"`
}

func generator(side string) (socket.StreamID, reflect.Value) {
	if side == "client" {
		g := new(socket.ClientStreamIDs)
		return g, reflect.ValueOf(g).Elem()
	}
	g := new(socket.ServerStreamIDs)
	return g, reflect.ValueOf(g).Elem()
}

// seek moves a generator that is a plain counter to just before a wrap.
func seek(v reflect.Value, back, lap int) bool {
	if v.Kind() != reflect.Uint64 {
		return false
	}
	v.SetUint(uint64(lap)<<30 - uint64(back))
	return true
}

type seg struct {
	first, n int
	flag     bool
}

type runs struct{ segs []seg }

func (r *runs) add(id uint32, flag bool) {
	if k := len(r.segs) - 1; k >= 0 {
		l := &r.segs[k]
		if l.flag == flag && int(id) == l.first+2*l.n {
			l.n++
			return
		}
	}
	if len(r.segs) < 8 {
		r.segs = append(r.segs, seg{int(id), 1, flag})
	}
}

func run(s *scenario) any {
	g, v := generator(s.Side)
	if (s.Kind == "way" || s.Kind == "manyway") && !seek(v, s.Back, s.Lap) {
		return nil
	}
	var r runs
	switch s.Kind {
	case "start", "way":
		for i := 0; i < s.K; i++ {
			id, first := g.Next()
			r.add(id, first)
		}
	default:
		per := s.K / s.G
		got := make([][]seg, s.G)
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for p := range got {
			wg.Add(1)
			got[p] = make([]seg, 0, per)
			go func(p int) {
				defer wg.Done()
				<-begin
				for i := 0; i < per; i++ {
					id, first := g.Next()
					got[p] = append(got[p], seg{int(id), 1, first})
				}
			}(p)
		}
		close(begin)
		wg.Wait()
		var all []seg
		for p := range got {
			all = append(all, got[p]...)
		}
		// What comes before the wrap is in the upper half of the ids.
		lap := func(s seg) int {
			if s.first < 1<<30 {
				return 1
			}
			return 0
		}
		sort.SliceStable(all, func(i, j int) bool {
			if a, b := lap(all[i]), lap(all[j]); a != b && s.Kind == "manyway" {
				return a < b
			}
			return all[i].first < all[j].first
		})
		for _, x := range all {
			r.add(uint32(x.first), x.flag)
		}
	}
	out := [][]any{}
	for _, x := range r.segs {
		out = append(out, []any{x.first, x.n, x.flag})
	}
	return out
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	if err != nil {
		os.Exit(3)
	}
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		_ = enc.Encode(map[string]any{"start": s.ID})
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": true, "segs": run(&s)})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
