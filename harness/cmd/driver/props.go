package main

import (
	"encoding/binary"
	"encoding/json"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"

	"verifharness/lib"
)

func init() { families["props"] = func(in *Input) { eachScen(in, playProps) } }

// playProps: threads run programs on the properties of connections - in the start hook, in goroutines, in handlers, and while the
// connection ends also in the stop hook and a close callback.
func playProps(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &MapScen{}
	must(json.Unmarshal(raw, sc))
	const nc = 2
	h := &history{}
	uniq := 0
	var umu sync.Mutex
	fresh := func(v int) int {
		umu.Lock()
		defer umu.Unlock()
		uniq++
		return uniq*10 + v
	}
	do := func(c int, conn ziface.IConnection, o mapOp) {
		k := c*100 + o.K
		key := keyName(o.K)
		switch o.Op {
		case "get":
			e := h.call(&hev{atoms: map[int]*atom{k: {kind: "get"}}})
			v, err := conn.GetProperty(key)
			if err == nil {
				x, ok := v.(int)
				if !ok {
					x = -1
				}
				e.atoms[k].r = x
			}
			h.ret(e)
		case "set":
			v := fresh(o.V)
			e := h.call(&hev{atoms: map[int]*atom{k: {kind: "set", a: v}}})
			conn.SetProperty(key, v)
			h.ret(e)
		case "rm":
			e := h.call(&hev{atoms: map[int]*atom{k: {kind: "rm"}}})
			conn.RemoveProperty(key)
			h.ret(e)
		}
	}
	run := func(c int, conn ziface.IConnection, prog []mapOp) {
		for _, o := range prog {
			do(c, conn, o)
		}
	}
	guard := lib.NewTrace("props-"+id+"-run", M{"start": 0})
	var e *ep
	var mu sync.Mutex
	hprog := map[uint32][]mapOp{} // programs run by handlers
	hdone := map[uint32]chan struct{}{}
	hn := uint32(0)
	last := len(sc.Rounds) - 1
	var stops sync.WaitGroup
	conf := func(hh host) {
		nop := func(ziface.IRequest) {}
		hh.AddRouter(5, &stageRouter{nop, func(q ziface.IRequest) {
			n := binary.BigEndian.Uint32(q.GetData())
			mu.Lock()
			p, d := hprog[n], hdone[n]
			mu.Unlock()
			conn := q.GetConnection()
			run(e.of(conn), conn, p)
			close(d)
		}, nop})
		hh.SetOnConnStop(func(conn ziface.IConnection) {
			if c := e.of(conn); c > 0 {
				run(c, conn, sc.Rounds[last][2])
				stops.Done()
			}
		})
	}
	stops.Add(nc)
	mk.Lock()
	e = &ep{}
	x := newEPHook(cfg.Side, cfg.Tr, nc, conf, func(c int, conn ziface.IConnection) {
		run(c, conn, sc.Rounds[0][c-1])
		conn.AddCloseCallback(id, c, func() { run(c, conn, sc.Rounds[last][3]) })
	})
	e.peers, e.conns, e.srv, e.cls, e.lsts = x.peers, x.conns, x.srv, x.cls, x.lsts
	for c := 1; c <= nc; c++ {
		e.m.Store(e.conns[c], c)
	}
	mk.Unlock()
	lib.Guard(guard, 40*time.Second, "property operations", func() {
		for rn, round := range sc.Rounds {
			var wg sync.WaitGroup
			if rn == last {
				// everything ends in the middle of this round
				for c := 1; c <= nc; c++ {
					if (sc.Seed+c)%2 == 0 && cfg.Tr != "kcp" {
						e.peers[c].Close()
					} else {
						go e.conns[c].Stop()
					}
				}
			}
			for tn, prog := range round {
				c := 1 + (tn+rn+sc.Seed)%nc
				if tn%2 == 1 && rn != last {
					mu.Lock()
					hn++
					n, d := hn, make(chan struct{})
					hprog[n], hdone[n] = prog, d
					mu.Unlock()
					must(e.peers[c].Write(lib.TLV(5, no(int(n)))))
					wg.Add(1)
					go func() { <-d; wg.Done() }()
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					run(c, e.conns[c], prog)
				}()
			}
			wg.Wait()
		}
		stops.Wait()
		// close callbacks run before or after the stop hook: give them a moment
		time.Sleep(20 * time.Millisecond)
	})
	var keys []int
	for c := 1; c <= nc; c++ {
		for k := 1; k <= sc.Keys; k++ {
			keys = append(keys, c*100+k)
		}
	}
	h.mu.Lock()
	h2 := &history{ev: append([]*hev{}, h.ev...)}
	h.mu.Unlock()
	h2.perKey("props-"+id, keys)
	guard.Close()
	e.close()
}
