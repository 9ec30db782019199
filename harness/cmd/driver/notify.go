package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/znotify"

	"verifharness/lib"
)

type notifyStep struct {
	Op   string `json:"op"`
	N    int    `json:"n"`
	C    int    `json:"c"`
	Buff int    `json:"buff"`
	Size int    `json:"size"`
}

type NotifyScen struct {
	Rounds [][]notifyStep `json:"rounds"`
	NI     int            `json:"ni"`
	NC     int            `json:"nc"`
	Seed   int            `json:"seed"`
}

func init() { families["notify"] = func(in *Input) { eachScen(in, playNotify) } }

type notifyCall struct {
	k, seg int
	s      *notifyStep
	r      int
	del    []int
}

const (
	idFlush   = 3000000001
	idGarbled = 3000000000
)

// playNotify runs rounds of concurrent calls on a registry of real connections and records which peer received what.
func playNotify(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &NotifyScen{}
	must(json.Unmarshal(raw, sc))
	t := lib.NewTrace("notify-"+id, M{"ni": sc.NI, "nc": sc.NC, "tr": cfg.Tr, "side": cfg.Side})
	mk.Lock()
	e := newEP(cfg.Side, cfg.Tr, sc.NC, func(h host) {})
	mk.Unlock()
	defer e.close()
	nt := znotify.NewZNotify()
	ids := make([]uint64, sc.NI+1)
	for k := range ids {
		switch (k + sc.Seed) % 6 {
		case 0:
			ids[k] = math.MaxUint64 - uint64(k)
		case 1:
			ids[k] = 1<<63 + uint64(k)
		case 2:
			ids[k] = 1<<32 + uint64(k)
		default:
			ids[k] = uint64(k * (1 + sc.Seed%7))
		}
		if k == 1 {
			ids[k] = 0
		}
	}
	type ev struct {
		call *notifyCall
		ret  bool
	}
	var mu sync.Mutex
	var evs []ev
	calls := map[int]*notifyCall{}
	garbled := ""
	flushed := make([]map[int]bool, sc.NC+1)
	endSeg := make([]int, sc.NC+1) // in which segment the connection ended (0: never)
	seg := 1
	body := func(k, size int) []byte { return append(no(k), lib.Payload(k, size)...) }
	msgID := func(k int) uint32 { return uint32(k*7919) % idGarbled }
	for c := 1; c <= sc.NC; c++ {
		flushed[c] = map[int]bool{}
		go func() {
			for {
				id, b, err := lib.ReadTLV(e.peers[c], 1<<20)
				if err != nil {
					return
				}
				mu.Lock()
				k := 0
				if len(b) >= 4 {
					k = int(binary.BigEndian.Uint32(b))
				}
				if id == idFlush {
					flushed[c][k] = true
				} else if x := calls[k]; x == nil || (x.s.Op != "one" && x.s.Op != "all") || id != msgID(k) || !bytes.Equal(b, body(k, x.s.Size)) {
					garbled = "unknown or changed message"
				} else {
					x.del = append(x.del, c)
				}
				mu.Unlock()
			}
		}()
	}
	nf := 0
	// flush waits until everything sent so far has been received
	flush := func() {
		nf += 2
		for c := 1; c <= sc.NC; c++ {
			if endSeg[c] == 0 {
				must(e.conns[c].SendMsg(idFlush, no(nf)))
				must(e.conns[c].SendBuffMsg(idFlush, no(nf+1)))
			}
		}
		if !lib.Settle(func() bool {
			mu.Lock()
			defer mu.Unlock()
			for c := 1; c <= sc.NC; c++ {
				if endSeg[c] == 0 && !(flushed[c][nf] && flushed[c][nf+1]) {
					return false
				}
			}
			return true
		}) {
			panic("harness: messages sent directly do not arrive")
		}
	}
	do := func(k int, s *notifyStep) {
		x := &notifyCall{k: k, s: s}
		mu.Lock()
		x.seg = seg
		calls[k] = x
		evs = append(evs, ev{x, false})
		mu.Unlock()
		fail := func(err error) int {
			if err != nil {
				return 1
			}
			return 0
		}
		r, n := 0, ids[s.N]
		switch s.Op {
		case "set":
			nt.SetNotifyID(n, e.conns[s.C])
		case "del":
			nt.DelNotifyByID(n)
		case "has":
			if nt.HasIdConn(n) {
				r = 1
			}
		case "get":
			if conn, err := nt.GetNotifyByID(n); err == nil {
				if r = e.of(conn); r == 0 {
					r = -1
				}
			}
		case "num":
			r = nt.ConnNums()
		case "one":
			if s.Buff == 1 {
				r = fail(nt.NotifyBuffToConnByID(n, msgID(k), body(k, s.Size)))
			} else {
				r = fail(nt.NotifyToConnByID(n, msgID(k), body(k, s.Size)))
			}
		case "all":
			if s.Buff == 1 {
				nt.NotifyBuffAll(msgID(k), body(k, s.Size))
			} else {
				nt.NotifyAll(msgID(k), body(k, s.Size))
			}
		}
		mu.Lock()
		x.r = r
		evs = append(evs, ev{x, true})
		mu.Unlock()
	}
	k := 0
	lib.Guard(t, 60*time.Second, "notification", func() {
		for _, rd := range sc.Rounds {
			if rd[0].Op == "end" {
				flush()
				seg++
			}
			if len(rd) == sc.NI && rd[0].Op == "set" {
				for j := range rd {
					k++
					do(k, &rd[j])
				}
				continue
			}
			var wg sync.WaitGroup
			var ready int32
			for j := range rd {
				s := &rd[j]
				k++
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < int32(len(rd)); {
						runtime.Gosched()
					}
					if s.Op != "end" {
						do(k, s)
						return
					}
					mu.Lock()
					was := endSeg[s.C]
					if was == 0 {
						endSeg[s.C] = seg
					}
					mu.Unlock()
					if was != 0 {
						return
					}
					if cfg.Tr == "kcp" {
						lib.MuteKCP(e.conns[s.C])
					}
					if s.Buff == 1 && cfg.Tr != "kcp" {
						e.peers[s.C].Close()
					} else {
						e.conns[s.C].Stop()
					}
				}()
			}
			wg.Wait()
		}
		flush()
	})
	if garbled != "" {
		t.Log("garbled", "what", garbled)
	}
	mu.Lock()
	defer mu.Unlock()
	for _, v := range evs {
		x := v.call
		soft := []int{}
		for c := 1; c <= sc.NC; c++ {
			if endSeg[c] != 0 && endSeg[c] <= x.seg {
				soft = append(soft, c)
			}
		}
		if x.del == nil {
			x.del = []int{}
		}
		switch {
		case !v.ret:
			t.Log("call", "k", x.k, "kind", x.s.Op, "n", x.s.N, "c", x.s.C, "r", x.r, "del", x.del, "soft", soft)
		case x.s.Op == "all" || x.s.Op == "num":
			t.Log("retw", "k", x.k, "kind", x.s.Op, "r", x.r, "del", x.del, "soft", soft)
		default:
			t.Log("ret", "k", x.k)
		}
	}
	t.Close()
}
