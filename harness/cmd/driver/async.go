package main

import (
	"encoding/binary"
	"encoding/json"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/ziface"

	"verifharness/lib"
)

type asyncStep struct {
	Op    string      `json:"op"`
	R     int         `json:"r"`
	V     int         `json:"v"`
	Via   string      `json:"via"`
	C     int         `json:"c"`
	ID    int         `json:"id"`
	O     int         `json:"o"`
	Pause int         `json:"pause"`
	Sub   []asyncStep `json:"sub"`
	Bad   int         `json:"bad"`
}

type AsyncScen struct {
	Rounds [][]asyncStep `json:"rounds"`
	NR     int           `json:"nr"`
	NC     int           `json:"nc"`
}

func init() { families["async"] = func(in *Input) { eachScen(in, playAsync) } }

type asyncRun struct {
	t    *lib.Trace
	mu   sync.Mutex
	sc   *AsyncScen
	res  []*zasync_op.AsyncOpResult
	ops  map[int]bool // operation ended
	fin  []bool
	regd []bool
	done []bool
	msgs int32 // messages and handler steps not yet ended
	work int32 // completions running
	bmu  sync.Mutex
	bst  []*asyncBurst
	off  int
	base int
}

type asyncBurst struct {
	n    int
	got  []int
	left int32
}

func (r *asyncRun) do(s *asyncStep) {
	if s.Pause > 0 {
		time.Sleep(time.Duration(s.Pause) * 300 * time.Microsecond)
	}
	switch s.Op {
	case "set":
		if s.V%7 == 0 {
			r.t.Log("setb", "r", s.R, "v", asyncNil)
			r.res[s.R].SetReturnedObj(nil)
		} else {
			r.t.Log("setb", "r", s.R, "v", s.V)
			r.res[s.R].SetReturnedObj(s.V)
		}
		r.mu.Lock()
		r.fin[s.R] = true
		r.t.Log("sete", "r", s.R)
		r.mu.Unlock()
	case "on":
		f := s.V
		c := r.connOf(s.R)
		r.t.Log("onb", "r", s.R, "f", f)
		r.res[s.R].OnComplete(func() {
			atomic.AddInt32(&r.work, 1)
			r.t.Log("compb", "r", s.R, "f", f, "v", r.seen(s.R), "c", c, "w", lib.GID())
			if s.Bad == 1 || f%5 == 0 {
				time.Sleep(200 * time.Microsecond)
			}
			r.mu.Lock()
			r.done[s.R] = true
			r.t.Log("compe", "c", c)
			r.mu.Unlock()
			atomic.AddInt32(&r.work, -1)
			if f%4 == 0 {
				panic("completion panics")
			}
		})
		r.mu.Lock()
		r.regd[s.R] = true
		r.t.Log("one", "r", s.R)
		r.mu.Unlock()
	case "get":
		r.mu.Lock()
		before := r.fin[s.R]
		r.mu.Unlock()
		v := r.seen(s.R)
		r.t.Log("get", "r", s.R, "v", v, "before", before)
	case "op":
		id := s.ID
		if id == 99 {
			id = math.MinInt64
		} else if id != math.MinInt64 {
			id += r.base * sign(id)
		}
		r.t.Log("sub", "o", s.O, "id", s.ID)
		zasync_op.Process(id, func() {
			r.t.Log("opb", "o", s.O)
			for k := range s.Sub {
				if s.Sub[k].Via == "msg" {
					s.Sub[k].Via = "go"
				}
				r.do(&s.Sub[k])
			}
			if s.Pause > 0 {
				time.Sleep(time.Duration(s.Pause) * 200 * time.Microsecond)
			}
			r.mu.Lock()
			r.ops[s.O] = true
			r.t.Log("ope", "o", s.O)
			r.mu.Unlock()
			if s.Bad == 1 {
				panic("operation panics")
			}
		})
		r.t.Log("subd", "o", s.O)
	case "burst":
		b := &asyncBurst{n: s.V, left: int32(s.V)}
		r.bmu.Lock()
		r.bst = append(r.bst, b)
		r.bmu.Unlock()
		for j := 1; j <= b.n; j++ {
			zasync_op.Process(s.ID+r.base*sign(s.ID), func() {
				b.got = append(b.got, j) // one at a time: same id
				atomic.AddInt32(&b.left, -1)
			})
		}
	}
}

// contain recovers the panics of completions: these belong on a worker, which recovers them, but a trace has to tell where they ran.
func (r *asyncRun) contain() {
	if p := recover(); p != nil && p != "completion panics" {
		panic(p)
	}
}

func sign(x int) int {
	if x < 0 {
		return -1
	}
	return 1
}

const asyncNil = -2 // the value nil

func (r *asyncRun) seen(k int) int {
	if x, ok := r.res[k].GetReturnedObj().(int); ok {
		return x
	}
	return asyncNil
}

func (r *asyncRun) connOf(k int) int {
	if k > r.sc.NR {
		return k - r.sc.NR
	}
	return 1 + k%r.sc.NC
}

var asyncBase int32

func playAsync(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &AsyncScen{}
	must(json.Unmarshal(raw, sc))
	r := &asyncRun{sc: sc, ops: map[int]bool{}}
	n := sc.NR + sc.NC // the last ones are used in the start hooks of the connections
	r.fin, r.regd, r.done = make([]bool, n+1), make([]bool, n+1), make([]bool, n+1)
	// scenarios use different ids
	r.base = int(atomic.AddInt32(&asyncBase, 1)) * (2048*4 + 16) // and mostly new workers
	r.t = lib.NewTrace("async-"+id, M{"nr": n, "nc": sc.NC, "conf": cfg.Conf, "tr": cfg.Tr, "side": cfg.Side})
	var e *ep
	var hmu sync.Mutex
	hsteps := map[uint32]*asyncStep{}
	hn := uint32(0)
	conf := func(h host) {
		nop := func(ziface.IRequest) {}
		h.AddRouter(5, &stageRouter{nop, func(q ziface.IRequest) {
			c := e.of(q.GetConnection())
			n := binary.BigEndian.Uint32(q.GetData())
			hmu.Lock()
			s := hsteps[n]
			hmu.Unlock()
			r.t.Log("msgb", "c", c, "w", lib.GID())
			if s != nil {
				r.do(s)
			}
			r.t.Log("msge", "c", c)
			atomic.AddInt32(&r.msgs, -1)
		}, nop})
	}
	mk.Lock()
	r.res = make([]*zasync_op.AsyncOpResult, n+1)
	e = newEPHook(cfg.Side, cfg.Tr, sc.NC, conf, func(c int, conn ziface.IConnection) {
		defer r.contain()
		k := sc.NR + c
		r.res[k] = zasync_op.NewAsyncOpResult(conn)
		r.do(&asyncStep{Op: "set", R: k, V: 1000 * c})
		r.do(&asyncStep{Op: "on", R: k, V: 1000 * c})
		time.Sleep(time.Millisecond)
	})
	mk.Unlock()
	defer e.close()
	for k := 1; k <= sc.NR; k++ {
		r.res[k] = zasync_op.NewAsyncOpResult(e.conns[r.connOf(k)])
	}
	send := func(c int, s *asyncStep) {
		hmu.Lock()
		hn++
		n := hn
		if s != nil {
			hsteps[n] = s
		}
		hmu.Unlock()
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, n)
		atomic.AddInt32(&r.msgs, 1)
		must(e.peers[c].Write(lib.TLV(5, b)))
	}
	lib.Guard(r.t, 60*time.Second, "asynchronous operations", func() {
		nops := map[int]bool{}
		for _, rd := range sc.Rounds {
			var wg sync.WaitGroup
			var ready, all int32
			for k := range rd {
				if rd[k].Op != "msg" && rd[k].Via != "msg" {
					all++
				}
			}
			for k := range rd {
				s := &rd[k]
				if s.Op == "op" {
					nops[s.O] = true
				}
				if s.Op == "msg" {
					send(s.C, nil)
					continue
				}
				if s.Via == "msg" {
					send(s.C, s)
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer r.contain()
					for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < all; {
						runtime.Gosched()
					}
					r.do(s)
				}()
			}
			wg.Wait()
		}
		lib.Settle(func() bool {
			if atomic.LoadInt32(&r.msgs) != 0 || atomic.LoadInt32(&r.work) != 0 {
				return false
			}
			r.bmu.Lock()
			for _, b := range r.bst {
				if atomic.LoadInt32(&b.left) > 0 {
					r.bmu.Unlock()
					return false
				}
			}
			r.bmu.Unlock()
			r.mu.Lock()
			defer r.mu.Unlock()
			for o := range nops {
				if !r.ops[o] {
					return false
				}
			}
			for k := 1; k <= n; k++ {
				if r.fin[k] && r.regd[k] && !r.done[k] {
					return false
				}
			}
			return true
		})
		time.Sleep(2 * time.Millisecond) // a second completion would come now
		for _, b := range r.bst {
			runs := [][]int{}
			for _, j := range b.got {
				if n := len(runs); n > 0 && runs[n-1][1]+1 == j {
					runs[n-1][1] = j
				} else if len(runs) < 50 {
					runs = append(runs, []int{j, j})
				}
			}
			r.t.Log("burst", "n", b.n, "runs", runs)
		}
		for k := 1; k <= n; k++ {
			r.do(&asyncStep{Op: "get", R: k})
		}
		r.mu.Lock()
		r.t.Log("quiet")
		r.mu.Unlock()
	})
	r.t.Close()
}
