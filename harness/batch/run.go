// Package batch records runs of frames through the shared buffers.
package batch

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/nanobus/iota/go/internal/verifx/wire"
)

type scenario struct {
	ID      string
	Op      string
	Seed    int64
	Sizes   [][]int // of the data of the frames of each sender
	Close   int     // close after so many frames, -1: never
	Trap    int     // the module crashes after so many frames, -1: never
	Grow    bool    // the memory of the module grows with every batch
	Gate    bool    // the module takes its time
	Replies [][]int // batches of frames that come back, by the size of their data
	Cut     []int   // bytes missing at the end of each
	Room    int     // size of the buffer (guest)
}

type sent struct {
	P    int    `json:"p"`
	Size int    `json:"size"`
	From int64  `json:"from"`
	To   int64  `json:"to"`
	Res  string `json:"res"`

	frame []byte // what should arrive
}

type batch struct {
	Size int   `json:"size"`
	Fs   []int `json:"fs"`
}

type span struct {
	From int64 `json:"from"`
	To   int64 `json:"to"`
}

type back struct {
	Sizes [][]int `json:"sizes"`
	Bytes []int   `json:"bytes"`
	Got   []int   `json:"got"`
}

type record struct {
	Room    int     `json:"room"`
	Sends   []*sent `json:"sends"`
	Batches []batch `json:"batches"`
	Close   span    `json:"close"`
	Trap    int64   `json:"trap"`
	Back    back    `json:"back"`
}

func must(err error) {
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
}

func fill(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*37 + i*11 + i/251)
	}
	return b
}

func files(play func(*scenario) (*record, string)) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	must(err)
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	must(err)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		must(json.Unmarshal(sc.Bytes(), &s))
		_ = enc.Encode(map[string]any{"start": s.ID})
		r, why := play(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "rec": r})
	}
	_ = enc.Encode(map[string]any{"end": true})
}

// sort puts an arrived batch down; find says which frame something is.
func sort(b []byte, find func(wire.Frame, []byte) (int, string)) (batch, string) {
	x := batch{Size: len(b), Fs: []int{}}
	chunks, rest := wire.Split(b)
	if len(rest) > 0 {
		return x, fmt.Sprintf("a batch of %d bytes ends inside a frame", len(b))
	}
	for _, c := range chunks {
		f, ok := wire.Decode(c)
		if !ok {
			return x, fmt.Sprintf("a frame arrived as %.40x", c)
		}
		k, why := find(f, c)
		if why != "" {
			return x, why
		}
		if k > 0 {
			x.Fs = append(x.Fs, k)
		}
	}
	return x, ""
}
