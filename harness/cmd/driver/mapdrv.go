package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/aceld/zinx/zutils"

	"verifharness/lib"
)

type mapOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	K2 int    `json:"k2"`
	V  int    `json:"v"`
	C  int    `json:"c"`
}

type MapScen struct {
	Rounds [][][]mapOp `json:"rounds"`
	Keys   int         `json:"keys"`
	Hash   string      `json:"hash"`
	Seed   int         `json:"seed"`
}

// history records calls on a map; a call's result is filled in when it returns.
type history struct {
	mu  sync.Mutex
	ev  []*hev
	ids int
}

type hev struct {
	ret   bool
	id    int
	atoms map[int]*atom // per key
	whole *atom         // a counting call
	n     int
}

type atom struct {
	kind string
	a, r int
}

func (h *history) call(e *hev) *hev {
	h.mu.Lock()
	h.ids++
	e.id = h.ids
	h.ev = append(h.ev, e)
	h.mu.Unlock()
	return e
}

// ret ends a call; fill sets the results.
func (h *history) ret(e *hev) {
	h.mu.Lock()
	h.ev = append(h.ev, &hev{ret: true, id: e.id, atoms: e.atoms, whole: e.whole})
	h.mu.Unlock()
}

// perKey writes one trace per key.
func (h *history) perKey(id string, keys []int) {
	for _, k := range keys {
		t := lib.NewTrace(fmt.Sprintf("%s-k%d", id, k), M{"start": 0})
		for _, e := range h.ev {
			a := e.atoms[k]
			if a == nil {
				continue
			}
			if e.ret {
				t.Log("ret", "id", e.id)
			} else {
				t.Log("call", "id", e.id, "kind", a.kind, "a", a.a, "r", a.r)
			}
		}
		t.Close()
	}
}

// whole writes one trace for the whole map.
func (h *history) wholeMap(id string, n int) {
	t := lib.NewTrace(id, M{"keys": n})
	for _, e := range h.ev {
		if e.ret {
			t.Log("ret", "id", e.id)
			continue
		}
		if e.whole != nil {
			t.Log("call", "id", e.id, "k", 0, "kind", e.whole.kind, "a", 0, "r", 0, "n", e.n)
		}
		for k, a := range e.atoms {
			t.Log("call", "id", e.id, "k", k, "kind", a.kind, "a", a.a, "r", a.r, "n", -1)
		}
	}
	t.Close()
}

type constHash uint32

func (c constHash) Sum(key string) uint32 {
	if c == 0 {
		return 7
	}
	return uint32(key[len(key)-1])%uint32(c) + 31
}

func init() { families["map"] = runMap }

func runMap(in *Input) {
	var cfg struct {
		Whole int `json:"whole"`
		Par   int `json:"par"`
	}
	must(json.Unmarshal(in.Cfg, &cfg))
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	for k, raw := range in.Scen {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			sc := &MapScen{}
			must(json.Unmarshal(raw, sc))
			playMap(fmt.Sprintf("map-%d", k), sc, cfg.Whole == 1)
		}()
	}
	wg.Wait()
}

func keyName(k int) string { return fmt.Sprintf("key%d", k) }

func playMap(id string, sc *MapScen, whole bool) {
	guard := lib.NewTrace(id+"-run", M{"start": 0})
	var m zutils.ShardLockMaps
	switch sc.Hash {
	case "one":
		m = zutils.NewWithCustomHash(constHash(0))
	case "two":
		m = zutils.NewWithCustomHash(constHash(2))
	default:
		m = zutils.NewShardLockMaps()
	}
	h := &history{}
	keys := []int{}
	names := map[string]int{}
	for k := 1; k <= sc.Keys; k++ {
		keys = append(keys, k)
		names[keyName(k)] = k
	}
	val := func(x any) int {
		switch v := x.(type) {
		case int:
			return v
		case float64:
			return int(v)
		}
		return -1
	}
	uniq := 0
	var umu sync.Mutex
	fresh := func(v int) int { // values are all different, so that a stale one shows
		umu.Lock()
		defer umu.Unlock()
		uniq++
		return uniq*10 + v
	}
	all := func(kind string) map[int]*atom {
		r := map[int]*atom{}
		for _, k := range keys {
			r[k] = &atom{kind: kind}
		}
		return r
	}
	// seen enters what a listing reported
	seen := func(e *hev, key string, v int) {
		k, ok := names[key]
		if !ok {
			guard.Log("stray", "key", key)
			return
		}
		if e.atoms[k].r != 0 {
			v = -2 // reported twice
		}
		e.atoms[k].r = v
	}
	do := func(o mapOp, r *rand.Rand) {
		key := keyName(o.K)
		single := func(kind string, a int) *hev {
			return h.call(&hev{atoms: map[int]*atom{o.K: {kind: kind, a: a}}})
		}
		b := func(x bool) int {
			if x {
				return 1
			}
			return 0
		}
		switch o.Op {
		case "get":
			e := single("get", 0)
			v, ok := m.Get(key)
			if ok {
				e.atoms[o.K].r = val(v)
			}
			h.ret(e)
		case "set":
			v := fresh(o.V)
			e := single("set", v)
			m.Set(key, v)
			h.ret(e)
		case "setnx":
			v := fresh(o.V)
			e := single("setnx", v)
			e.atoms[o.K].r = b(m.SetNX(key, v))
			h.ret(e)
		case "has":
			e := single("has", 0)
			e.atoms[o.K].r = b(m.Has(key))
			h.ret(e)
		case "rm":
			e := single("rm", 0)
			m.Remove(key)
			h.ret(e)
		case "rmcb":
			e := single("rmcb", b(o.C != 0))
			calls := 0
			res := m.RemoveCb(key, func(kk string, v interface{}, ok bool) bool {
				calls++
				if ok {
					e.atoms[o.K].r = val(v)
				}
				if kk != key {
					e.atoms[o.K].r = -3
				}
				if o.C == 2 {
					time.Sleep(50 * time.Microsecond)
				}
				return o.C != 0
			})
			if calls != 1 || res != (o.C != 0) {
				e.atoms[o.K].r = -4
			}
			h.ret(e)
		case "pop":
			e := single("pop", 0)
			v, ok := m.Pop(key)
			if ok {
				e.atoms[o.K].r = val(v)
			}
			h.ret(e)
		case "count":
			e := h.call(&hev{whole: &atom{kind: "count"}})
			e.n = m.Count()
			h.ret(e)
		case "empty":
			e := h.call(&hev{whole: &atom{kind: "empty"}})
			e.n = b(!m.IsEmpty())
			h.ret(e)
		case "items":
			e := h.call(&hev{atoms: all("get")})
			for k, v := range m.Items() {
				seen(e, k, val(v))
			}
			h.ret(e)
		case "keys":
			e := h.call(&hev{atoms: all("list")})
			for _, k := range m.Keys() {
				seen(e, k, 1)
			}
			h.ret(e)
		case "iterbuf":
			e := h.call(&hev{atoms: all("get")})
			for t := range m.IterBuffered() {
				seen(e, t.Key, val(t.Val))
			}
			h.ret(e)
		case "iterset":
			// changing the map while iterating
			e := h.call(&hev{atoms: all("get")})
			for t := range m.IterBuffered() {
				seen(e, t.Key, val(t.Val))
				if k, ok := names[t.Key]; ok {
					v := fresh(o.V)
					x := h.call(&hev{atoms: map[int]*atom{k: {kind: "set", a: v}}})
					m.Set(t.Key, v)
					h.ret(x)
				}
			}
			h.ret(e)
		case "abandon":
			for range m.IterBuffered() {
				break
			}
		case "itercb":
			e := h.call(&hev{atoms: all("get")})
			m.IterCb(func(k string, v interface{}) { seen(e, k, val(v)) })
			h.ret(e)
		case "json":
			e := h.call(&hev{atoms: all("get")})
			bs, err := m.MarshalJSON()
			var x map[string]any
			if err != nil || json.Unmarshal(bs, &x) != nil {
				guard.Log("stray", "what", "bad JSON")
			}
			for k, v := range x {
				seen(e, k, val(v))
			}
			h.ret(e)
		case "unjson", "mset":
			d := map[string]any{}
			e := &hev{atoms: map[int]*atom{}}
			for _, k := range []int{o.K, o.K2} {
				v := fresh(o.V)
				d[keyName(k)] = v
				e.atoms[k] = &atom{kind: "set", a: v}
			}
			h.call(e)
			if o.Op == "mset" {
				m.MSet(d)
			} else {
				bs, _ := json.Marshal(d)
				if m.UnmarshalJSON(bs) != nil {
					guard.Log("stray", "what", "UnmarshalJSON failed")
				}
			}
			h.ret(e)
		case "clear":
			e := h.call(&hev{atoms: all("rm")})
			m.Clear()
			h.ret(e)
		}
	}
	lib.Guard(guard, 30*time.Second, "map operations", func() {
		for rn, round := range sc.Rounds {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for tn, prog := range round {
				r := rng(sc.Seed + rn*100 + tn)
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, o := range prog {
						do(o, r)
					}
				}()
			}
			close(start)
			wg.Wait()
		}
	})
	if whole {
		h.wholeMap(id, sc.Keys)
	} else {
		sort.Ints(keys)
		h.perKey(id, keys)
	}
	guard.Close()
}
