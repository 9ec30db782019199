// driver runs scenarios against the real zinx code and records traces.
//
//	driver <family> <in.json> <out.ndjson>
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"

	"verifharness/lib"
)

type M = lib.M

// Input of a driver process.
type Input struct {
	Cfg  json.RawMessage   `json:"cfg"`
	Scen []json.RawMessage `json:"scen"`
}

var families = map[string]func(in *Input){}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: driver family in out")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var in Input
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	f := families[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown family", os.Args[1])
		os.Exit(2)
	}
	lib.OpenOutput(os.Args[3])
	lib.Quiet()
	if l, err := strconv.Atoi(os.Getenv("VSCHED")); err == nil {
		lib.SetLevel(l)
	}
	f(&in)
	lib.Finish()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func rng(seed int) *rand.Rand { return rand.New(rand.NewSource(int64(seed))) }

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func u32(n uint32) []int {
	return []int{int(n >> 24), int(n >> 16 & 255), int(n >> 8 & 255), int(n & 255)}
}
