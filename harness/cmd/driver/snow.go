package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zutils"

	"verifharness/lib"
)

type snowOp struct {
	Op string `json:"op"`
	W  int64  `json:"w"`
	D  int64  `json:"d"`
	N  int    `json:"n"`
	Th int    `json:"th"`
}

type SnowScen struct {
	Ops  []snowOp `json:"ops"`
	Tick int64    `json:"tick"`
	Seed int      `json:"seed"`
}

func init() { families["snow"] = runSnow }

func id3(x int64) []int { return []int{int(x >> 42), int(x >> 21 & (1<<21 - 1)), int(x & (1<<21 - 1))} }

// runSnow: every reading of the clock advances it by tick nanoseconds; the scenario moves it further, forwards and backwards.
// Without the settable clock (plain build) the real one is used and clock movements are left out.
func runSnow(in *Input) {
	var clk atomic.Int64 // nanoseconds since base
	base := time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC).UnixNano()
	var tick atomic.Int64
	fake := lib.SetClock(func() time.Time { return time.Unix(0, base+clk.Add(tick.Load())) })
	real0 := time.Now()
	// ms is the clock in milliseconds, without advancing it
	ms := func() int {
		if fake {
			return int((base+clk.Load())/1000000 - base/1000000)
		}
		return int(time.Since(real0) / time.Millisecond)
	}
	for k, raw := range in.Scen {
		sc := &SnowScen{}
		must(json.Unmarshal(raw, sc))
		clk.Store(3600 * 1e9)
		tick.Store(sc.Tick)
		t := lib.NewTrace(fmt.Sprintf("snow-%d", k), M{"fake": fake})
		lib.Guard(t, 60*time.Second, "id generation", func() { playSnow(t, sc, fake, &clk, ms) })
		t.Close()
	}
}

func playSnow(t *lib.Trace, sc *SnowScen, fake bool, clk *atomic.Int64, ms func() int) {
	var gens []*zutils.IDWorker
	var nums []int
	used := map[int64]bool{}
	r := rng(sc.Seed)
	peak := 0
	t.Log("clock", "from", ms(), "to", ms())
	for _, o := range sc.Ops {
		switch o.Op {
		case "new":
			if used[o.W] {
				continue
			}
			used[o.W] = true
			g, err := zutils.NewIDWorker(o.W)
			t.Log("new", "g", len(nums)+1, "w", int(o.W), "ok", err == nil)
			nums = append(nums, len(nums)+1)
			if err == nil {
				gens = append(gens, g)
			} else {
				gens = append(gens, nil)
			}
		case "clock":
			if !fake {
				continue
			}
			if m := ms(); m > peak {
				peak = m
			}
			from := ms()
			n := clk.Load() + o.D*1000
			if n < 0 {
				n = 0
			}
			clk.Store(n)
			t.Log("clock", "from", from, "to", ms())
		case "draw":
			var wg sync.WaitGroup
			start := make(chan struct{})
			var mu sync.Mutex // the clock is read and logged in one step
			for th := 1; th <= o.Th; th++ {
				gi := r.Intn(len(gens))
				if gens[gi] == nil {
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for j := 0; j < o.N; j++ {
						mu.Lock()
						t.Log("call", "t", th, "g", gi+1, "c", ms())
						mu.Unlock()
						id, err := gens[gi].NextID()
						if err != nil {
							t.Log("err", "t", th)
						} else {
							t.Log("id", "t", th, "id", id3(id))
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		case "burst":
			gi := r.Intn(len(gens))
			if gens[gi] == nil || ms() < peak+1 {
				continue
			}
			n := o.N
			if sc.Tick > 3000 && n > 400 {
				n = 400
			}
			var runs [][][]int
			var last int64
			c := ms()
			for j := 0; j < n; j++ {
				id, err := gens[gi].NextID()
				if err != nil {
					t.Log("err", "t", 99, "what", err.Error())
					return
				}
				if len(runs) > 0 && id == last+1 {
					runs[len(runs)-1][1] = id3(id)
				} else {
					runs = append(runs, [][]int{id3(id), id3(id)})
				}
				last = id
			}
			t.Log("batch", "g", gi+1, "c", c, "e", ms(), "runs", runs)
		}
	}
}
