package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/ztimer"

	"verifharness/lib"
)

type timerOp struct {
	Op string `json:"op"`
	At int    `json:"at"`
	K  int    `json:"k"`
	D  int    `json:"d"`
}

type TimerScen struct {
	Ops    []timerOp `json:"ops"`
	Manual int       `json:"manual"`
	Off    int       `json:"off"`
}

func init() { families["timer"] = runTimer }

// runTimer plays all scenarios at once, each with its own scheduler, in one bubble of virtual time: hours pass in seconds,
// and code takes no time, so that creation and cancellation happen exactly at the chosen instants.
func runTimer(in *Input) {
	scs := make([]*TimerScen, len(in.Scen))
	for k, raw := range in.Scen {
		scs[k] = &TimerScen{}
		must(json.Unmarshal(raw, scs[k]))
	}
	traces := make([]*lib.Trace, len(scs))
	for k := range scs {
		traces[k] = lib.NewTrace(fmt.Sprintf("timer-%d", k), M{})
	}
	// real time: outside the bubble
	go func() {
		time.Sleep(240 * time.Second)
		lib.Hang(traces[0], "virtual time stands still")
	}()
	testing.Init()
	_ = flag.CommandLine.Parse([]string{"-test.timeout=0"})
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "timer", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			var wg sync.WaitGroup
			for k, sc := range scs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(sc.Off)*time.Millisecond + time.Duration(k)*time.Second)
					playTimer(traces[k], sc)
					traces[k].Close()
				}()
			}
			wg.Wait()
			lib.Finish()
			os.Exit(0) // the schedulers go on for ever
		})
	}}}, nil, nil)
	fmt.Fprintln(os.Stderr, "virtual time run ended unexpectedly")
	os.Exit(3)
}

func playTimer(t *lib.Trace, sc *TimerScen) {
	var s *ztimer.TimerScheduler
	if sc.Manual == 1 {
		s = ztimer.NewTimerScheduler()
		s.Start()
		go func() {
			for df := range s.GetTriggerChan() {
				df.Call()
			}
		}()
	} else {
		s = ztimer.NewAutoExecTimerScheduler()
	}
	start := time.Now()
	var mu sync.Mutex
	ms := func() int { return int(time.Since(start) / time.Millisecond) }
	// the time is read and logged in one step
	log := func(op string, kv ...any) {
		mu.Lock()
		t.Log(op, append(kv, "t", ms())...)
		mu.Unlock()
	}
	ids := map[int]uint32{}
	end := 0
	var wg sync.WaitGroup
	var bursts []func()
	for _, o := range sc.Ops {
		if e := o.At + o.D; e > end && o.Op != "noop" {
			end = e
		}
		if o.At > end {
			end = o.At
		}
		f := func(args ...interface{}) {
			k, _ := args[0].(int)
			if x, ok := args[1].(string); !ok || x != fmt.Sprint("arg", k) || len(args) != 2 {
				k = -1
			}
			log("fire", "k", k)
			if o.Op == "panic" {
				panic("timer function panics")
			}
		}
		df := ztimer.NewDelayFunc(f, []interface{}{o.K, fmt.Sprint("arg", o.K)})
		var bmu sync.Mutex
		var created int
		fired := map[int][]int{}
		if o.Op == "burst" {
			bursts = append(bursts, func() {
				bmu.Lock()
				defer bmu.Unlock()
				ks := []int{}
				again, lo, hi := 0, 1<<30, -1
				for k, ts := range fired {
					ks = append(ks, k)
					again += len(ts) - 1
					for _, x := range ts {
						lo, hi = min(lo, x), max(hi, x)
					}
				}
				sort.Ints(ks)
				runs := [][]int{}
				for _, k := range ks {
					if n := len(runs); n > 0 && runs[n-1][1]+1 == k {
						runs[n-1][1] = k
					} else {
						runs = append(runs, []int{k, k})
					}
				}
				log("burst", "n", o.K, "due", o.At+o.D, "c", created, "runs", runs, "again", again, "lo", lo, "hi", hi)
			})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(o.At)*time.Millisecond - time.Since(start))
			switch o.Op {
			case "after", "at", "panic":
				var id uint32
				var err error
				due := start.Add(time.Duration(o.At+o.D) * time.Millisecond)
				log("set", "k", o.K, "due", o.At+o.D)
				if o.Op == "at" {
					id, err = s.CreateTimerAt(df, due.UnixNano())
				} else {
					id, err = s.CreateTimerAfter(df, time.Duration(o.D)*time.Millisecond)
				}
				mu.Lock()
				ids[o.K] = id
				mu.Unlock()
				log("made", "k", o.K, "ok", err == nil)
			case "run":
				log("set", "k", o.K, "due", o.At+o.D)
				ztimer.NewTimerAfter(df, time.Duration(o.D)*time.Millisecond).Run()
			case "cancel":
				mu.Lock()
				id, ok := ids[o.K]
				mu.Unlock()
				if ok {
					log("cancel", "k", o.K)
					s.CancelTimer(id)
					log("cancelled", "k", o.K)
				}
			case "noop":
				s.CancelTimer(uint32(1000000 + o.D))
				log("noop")
			case "burst":
				bmu.Lock()
				created = o.At
				bmu.Unlock()
				for j := 1; j <= o.K; j++ {
					_, _ = s.CreateTimerAfter(ztimer.NewDelayFunc(func(v ...interface{}) {
						bmu.Lock()
						fired[v[0].(int)] = append(fired[v[0].(int)], ms())
						bmu.Unlock()
					}, []interface{}{j}), time.Duration(o.D)*time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Duration(end+61500)*time.Millisecond - time.Since(start))
	for _, b := range bursts {
		b()
	}
	log("noop")
}
