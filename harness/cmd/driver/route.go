package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"

	"verifharness/lib"
)

type RouteCfg struct {
	Tr    string `json:"tr"`
	Side  string `json:"side"`
	Conf  M      `json:"conf"`
	Par   int    `json:"par"`
	NoDec bool   `json:"nodec"`
}

func init() {
	families["route"] = func(in *Input) { eachScen(in, playRoute) }
	families["chain"] = func(in *Input) { eachScen(in, playChain) }
	families["req"] = func(in *Input) { eachScen(in, playReq) }
}

// eachScen runs scenarios, cfg.Par at a time.
func eachScen(in *Input, play func(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex)) {
	var cfg RouteCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(cfg.Conf)
	zconf.GlobalObject.Mode = lib.ModeOf(cfg.Tr)
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	var mk sync.Mutex
	for k, raw := range in.Scen {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			play(fmt.Sprintf("%s-%s-%d", cfg.Tr, cfg.Side, k), &cfg, raw, &mk)
		}()
	}
	wg.Wait()
}

// ordered: messages of a connection are handled in order by one worker.
func (c *RouteCfg) ordered() bool {
	return c.Side != "client" && zconf.GlobalObject.WorkerPoolSize > 0
}

const idSentinel = 777777

// sentinel lets a conn know that everything sent before has been handled (ordered endpoints).
type sentinel struct {
	mu sync.Mutex
	ch map[int]chan struct{}
}

func (s *sentinel) handle(e *ep, q ziface.IRequest) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := e.of(q.GetConnection())
	if ch := s.ch[c]; ch != nil {
		close(ch)
		delete(s.ch, c)
	}
}

func (s *sentinel) wait(e *ep, t *lib.Trace, n int, frame []byte) {
	chs := []chan struct{}{}
	for c := 1; c <= n; c++ {
		ch := make(chan struct{})
		s.mu.Lock()
		s.ch[c] = ch
		s.mu.Unlock()
		chs = append(chs, ch)
		must(e.peers[c].Write(frame))
	}
	for _, ch := range chs {
		select {
		case <-ch:
		case <-time.After(lib.Patience()):
			lib.Failed()
			t.Log("lost", "what", "sentinel not handled")
			return
		}
	}
}

// ------------------------------------------------------------------ C11

type rReg struct {
	K    string `json:"k"`
	G    int    `json:"g"`
	ID   uint32 `json:"id"`
	Hi   uint32 `json:"hi"`
	From int    `json:"from"`
	N    int    `json:"n"`
}

type rMsg struct {
	ID   uint32   `json:"id"`
	Acts []string `json:"acts"`
}

type RouteScen struct {
	Regs []rReg `json:"regs"`
	Msgs []rMsg `json:"msgs"`
	Seed int    `json:"seed"`
}

type rRun struct {
	t     *lib.Trace
	acts  []string
	visit int32
}

func msgNo(q ziface.IRequest) int {
	d := q.GetData()
	if len(d) < 4 {
		return 0
	}
	return int(binary.BigEndian.Uint32(d))
}

func no(m int) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, uint32(m)); return b }

func refused(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

func playRoute(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &RouteScen{}
	must(json.Unmarshal(raw, sc))
	slices := zconf.GlobalObject.RouterSlicesMode
	runs := make([]*rRun, len(sc.Msgs)+1)
	for m := 1; m <= len(sc.Msgs); m++ {
		runs[m] = &rRun{t: lib.NewTrace(fmt.Sprintf("route-%s-m%d", id, m), M{"slices": slices}), acts: sc.Msgs[m-1].Acts}
	}
	all := func(op string, kv ...any) {
		for _, r := range runs[1:] {
			r.t.Log(op, kv...)
		}
	}
	var e *ep
	sen := &sentinel{ch: map[int]chan struct{}{}}
	of := func(q ziface.IRequest) *rRun {
		m := msgNo(q)
		if m < 1 || m > len(sc.Msgs) {
			runs[1].t.Log("stray", "m", m)
			return nil
		}
		e.touch()
		return runs[m]
	}
	handler := func(h int) ziface.RouterHandler {
		return func(q ziface.IRequest) {
			r := of(q)
			if r == nil {
				return
			}
			k := int(atomic.AddInt32(&r.visit, 1)) - 1
			r.t.Log("begin", "m", 1, "h", h)
			if k < len(r.acts) {
				for _, a := range r.acts[k] {
					switch a {
					case 'n':
						r.t.Log("next", "m", 1, "h", h)
						q.RouterSlicesNext()
						r.t.Log("nextret", "m", 1, "h", h)
					case 'a':
						r.t.Log("abort", "m", 1, "h", h)
						q.Abort()
					case 'p':
						r.t.Log("panic", "m", 1, "h", h)
						panic("handler panic")
					}
				}
			}
			r.t.Log("end", "m", 1, "h", h)
		}
	}
	stage := func(h, s int) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			r := of(q)
			if r == nil {
				return
			}
			k := int(atomic.AddInt32(&r.visit, 1)) - 1
			r.t.Log("begin", "m", 1, "h", h, "s", s)
			if k < len(r.acts) {
				for _, a := range r.acts[k] {
					switch a {
					case '0', '1', '2', '3':
						r.t.Log("goto", "m", 1, "s", s, "to", int(a-'0'))
						q.Goto(ziface.HandleStep(a - '0'))
					case 'a':
						r.t.Log("abort", "m", 1, "s", s)
						q.Abort()
					case 'p':
						r.t.Log("panic", "m", 1, "s", s)
						panic("handler panic")
					}
				}
			}
			r.t.Log("end", "m", 1, "h", h, "s", s)
		}
	}
	conf := func(h host) {
		sh := func(q ziface.IRequest) { sen.handle(e, q) }
		if !slices {
			h.AddRouter(idSentinel, &stageRouter{func(ziface.IRequest) {}, sh, func(ziface.IRequest) {}})
			for _, g := range sc.Regs {
				ok := refused(func() { h.AddRouter(g.ID, &stageRouter{stage(g.From, 0), stage(g.From, 1), stage(g.From, 2)}) })
				all("reg", "g", 0, "id", g.ID, "hs", []int{g.From, 1}, "ok", ok)
			}
			return
		}
		s := h.(ziface.IServer)
		s.AddRouterSlices(idSentinel, sh)
		groups := map[int]ziface.IGroupRouterSlices{}
		for _, g := range sc.Regs {
			hs := make([]ziface.RouterHandler, 0, g.N+3)
			for k := 0; k < g.N; k++ {
				hs = append(hs, handler(g.From+k))
			}
			rng := []int{g.From, g.N}
			switch g.K {
			case "use":
				s.Use(hs...)
				all("use", "hs", rng)
			case "group":
				groups[g.G] = s.Group(g.ID, g.Hi, hs...)
				all("group", "g", g.G, "lo", g.ID, "hi", g.Hi, "hs", rng)
			case "guse":
				groups[g.G].Use(hs...)
				all("guse", "g", g.G, "hs", rng)
			case "reg":
				ok := refused(func() { s.AddRouterSlices(g.ID, hs...) })
				all("reg", "g", 0, "id", g.ID, "hs", rng, "ok", ok)
			case "greg":
				ok := refused(func() { groups[g.G].AddHandler(g.ID, hs...) })
				all("reg", "g", g.G, "id", g.ID, "hs", rng, "ok", ok)
			}
			// the caller's slice is the caller's
			for k := range hs {
				hs[k] = func(q ziface.IRequest) {
					if r := of(q); r != nil {
						r.t.Log("stray", "what", "the caller's slice was used")
					}
				}
			}
		}
	}
	nc := 2
	if cfg.Side == "client" {
		nc = 1
	}
	mk.Lock()
	e = newEP(cfg.Side, cfg.Tr, nc, conf)
	mk.Unlock()
	for m, x := range sc.Msgs {
		runs[m+1].t.Log("send", "id", x.ID)
		must(e.peers[1+m%nc].Write(lib.TLV(x.ID, no(m+1))))
	}
	if cfg.ordered() {
		sen.wait(e, runs[1].t, nc, lib.TLV(idSentinel, nil))
	} else {
		e.quiet(250 * time.Millisecond)
	}
	for _, r := range runs[1:] {
		r.t.Log("settle")
		r.t.Close()
	}
	e.close()
}

// ------------------------------------------------------------------ C12

type cMsg struct {
	Acts  []string `json:"acts"`
	C     int      `json:"c"`
	Pause int      `json:"pause"`
}

type ChainScen struct {
	N    int    `json:"n"`
	Msgs []cMsg `json:"msgs"`
	Seed int    `json:"seed"`
}

type cRun struct {
	t       *lib.Trace
	mu      sync.Mutex
	reqs    []any
	acts    []string
	handled int32
	expect  bool
}

// tag names a request object within its message.
func (r *cRun) tag(q any) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, x := range r.reqs {
		if x == q {
			return fmt.Sprintf("q%d", k)
		}
	}
	if len(r.reqs) == 0 {
		r.reqs = append(r.reqs, q)
		return "q0"
	}
	return "q?"
}

func respName(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case string:
		return v
	case zdecoder.TLVDecoder:
		return "dec"
	case ziface.IRequest:
		return "request"
	}
	return fmt.Sprintf("%T", x)
}

// valName names what an interceptor gets back: its own request objects by tag, other values by name.
func (r *cRun) valName(x any) string {
	if q, ok := x.(ziface.IRequest); ok {
		return r.tag(q)
	}
	return respName(x)
}

type logChain struct {
	ziface.IChain
	pass func(r any, resp any)
	back func(v any)
}

func (l logChain) Proceed(q ziface.IcReq) ziface.IcResp {
	var resp any
	if x, ok := q.(ziface.IRequest); ok {
		resp = x.GetResponse()
	}
	l.pass(q, resp)
	v := l.IChain.Proceed(q)
	l.back(v)
	return v
}

func (l logChain) ProceedWithIMessage(m ziface.IMessage, resp ziface.IcReq) ziface.IcResp {
	if m == nil || resp == nil {
		return l.Proceed(l.Request())
	}
	l.pass(l.Request(), resp)
	v := l.IChain.ProceedWithIMessage(m, resp)
	l.back(v)
	return v
}

type fnIcept func(ziface.IChain) ziface.IcResp

func (f fnIcept) Intercept(c ziface.IChain) ziface.IcResp { return f(c) }

type decoder struct {
	fnIcept
	lf *ziface.LengthField
}

func (d decoder) GetLengthField() *ziface.LengthField { return d.lf }

func playChain(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &ChainScen{}
	must(json.Unmarshal(raw, sc))
	if cfg.NoDec && sc.N == 0 {
		return
	}
	from := 0
	if cfg.NoDec {
		from = 1
	}
	runs := make([]*cRun, len(sc.Msgs)+1)
	for m := 1; m <= len(sc.Msgs); m++ {
		runs[m] = &cRun{t: lib.NewTrace(fmt.Sprintf("chain-%s-m%d", id, m), M{"from": from, "n": sc.N}), acts: sc.Msgs[m-1].Acts}
		runs[m].expect = !strings.ContainsAny(strings.Join(runs[m].acts, ""), "sS")
	}
	body := func(q ziface.IRequest, raw bool) []byte {
		d := q.GetMessage().GetData()
		if raw && len(d) >= 8 {
			return d[8:]
		}
		return d
	}
	of := func(b []byte) *cRun {
		if len(b) < 4 {
			return nil
		}
		m := int(binary.BigEndian.Uint32(b))
		if m < 1 || m > len(sc.Msgs) {
			return nil
		}
		return runs[m]
	}
	var e *ep
	sen := &sentinel{ch: map[int]chan struct{}{}}
	conf := func(h host) {
		if cfg.NoDec {
			h.SetDecoder(nil)
		} else {
			dec := zdecoder.NewTLVDecoder()
			h.SetDecoder(decoder{func(ch ziface.IChain) ziface.IcResp {
				q := ch.Request().(ziface.IRequest)
				r := of(body(q, true))
				if r == nil {
					return dec.Intercept(ch)
				}
				r.t.Log("enter", "p", 0, "tag", r.tag(q), "resp", respName(q.GetResponse()))
				v := dec.Intercept(logChain{ch,
					func(x, resp any) { r.t.Log("pass", "p", 0, "tag", r.tag(x), "resp", respName(resp)) },
					func(v any) { r.t.Log("back", "p", 0, "v", r.valName(v)) }})
				r.t.Log("return", "p", 0, "v", r.valName(v))
				return v
			}, dec.GetLengthField()})
		}
		for p := 1; p <= sc.N; p++ {
			p := p
			h.AddInterceptor(fnIcept(func(ch ziface.IChain) ziface.IcResp {
				q := ch.Request().(ziface.IRequest)
				r := of(body(q, false))
				if r == nil {
					return ch.Proceed(q)
				}
				r.t.Log("enter", "p", p, "tag", r.tag(q), "resp", respName(q.GetResponse()))
				act := r.acts[p-1]
				var v any
				switch act {
				case "p", "P":
					r.t.Log("pass", "p", p, "tag", r.tag(q), "resp", respName(q.GetResponse()))
					v = ch.Proceed(q)
				case "r", "R":
					nr := fmt.Sprintf("r%d", p)
					r.t.Log("pass", "p", p, "tag", r.tag(q), "resp", nr)
					if p%2 == 0 {
						v = ch.ProceedWithIMessage(q.GetMessage(), nr)
					} else {
						q.SetResponse(nr)
						v = ch.Proceed(q)
					}
				case "q", "Q":
					old := q.GetMessage()
					nq := znet.NewRequest(q.GetConnection(), zpack.NewMsgPackage(old.GetMsgID(), append([]byte{}, old.GetData()...)))
					nr := fmt.Sprintf("n%d", p)
					nq.SetResponse(nr)
					r.mu.Lock()
					r.reqs = append(r.reqs, nq)
					r.mu.Unlock()
					r.t.Log("pass", "p", p, "tag", r.tag(nq), "resp", nr)
					v = ch.Proceed(nq)
				case "s", "S":
					v = fmt.Sprintf("s%d", p)
					r.t.Log("return", "p", p, "v", v)
					return v
				}
				r.t.Log("back", "p", p, "v", r.valName(v))
				if strings.ToUpper(act) == act {
					v = fmt.Sprintf("o%d", p)
				}
				r.t.Log("return", "p", p, "v", r.valName(v))
				return v
			}))
		}
		hd := func(q ziface.IRequest) {
			e.touch()
			r := of(q.GetData())
			if r == nil {
				return
			}
			r.t.Log("handle", "tag", r.tag(q), "resp", respName(q.GetResponse()))
			atomic.AddInt32(&r.handled, 1)
		}
		sh := func(q ziface.IRequest) { sen.handle(e, q) }
		both := func(q ziface.IRequest) {
			if len(q.GetData()) == 0 || of(q.GetData()) == nil {
				sh(q)
				return
			}
			hd(q)
		}
		if zconf.GlobalObject.RouterSlicesMode {
			s := h.(ziface.IServer)
			s.AddRouterSlices(5, hd)
			s.AddRouterSlices(idSentinel, sh)
			s.AddRouterSlices(0, both)
		} else {
			nop := func(ziface.IRequest) {}
			h.AddRouter(5, &stageRouter{nop, hd, nop})
			h.AddRouter(idSentinel, &stageRouter{nop, sh, nop})
			h.AddRouter(0, &stageRouter{nop, both, nop})
		}
	}
	nc := 3
	mk.Lock()
	e = newEP(cfg.Side, cfg.Tr, nc, conf)
	mk.Unlock()
	for m, x := range sc.Msgs {
		f := lib.TLV(5, no(m+1))
		if cfg.NoDec {
			f = no(m + 1)
		}
		must(e.peers[x.C].Write(f))
		if x.Pause > 0 {
			time.Sleep(time.Millisecond)
		}
	}
	sf := lib.TLV(idSentinel, nil)
	if cfg.NoDec {
		sf = []byte{0}
	}
	sen.wait(e, runs[1].t, nc, sf)
	lib.Settle(func() bool {
		for _, r := range runs[1:] {
			if r.expect && atomic.LoadInt32(&r.handled) == 0 {
				return false
			}
		}
		return true
	})
	if !cfg.ordered() {
		e.quiet(20 * time.Millisecond)
	}
	for _, r := range runs[1:] {
		r.t.Log("settle")
		r.t.Close()
	}
	e.close()
}

// ------------------------------------------------------------------ C13

type qMsg struct {
	C    int      `json:"c"`
	Kind string   `json:"kind"`
	At   int      `json:"at"`
	Resp int      `json:"resp"`
	Sz   int      `json:"sz"`
	Ops  []string `json:"ops"`
	Gap  int      `json:"gap"`
}

type ReqScen struct {
	N    int    `json:"n"`
	Msgs []qMsg `json:"msgs"`
	Seed int    `json:"seed"`
}

type qRun struct {
	t      *lib.Trace
	m      int
	x      *qMsg
	mu     sync.Mutex
	copies []ziface.IRequest
}

var qKeys = []string{"k1", "k2", "k3"}

func playReq(id string, cfg *RouteCfg, raw json.RawMessage, mk *sync.Mutex) {
	sc := &ReqScen{}
	must(json.Unmarshal(raw, sc))
	const cell = 64
	size := func(m int) int {
		if cfg.NoDec {
			return cell
		}
		return 4 + sc.Msgs[m-1].Sz
	}
	// payName says whose payload it is; the number must fit the bytes
	payName := func(b []byte) string {
		if string(b) == "changed" {
			return "changed"
		}
		if len(b) < 4 {
			return fmt.Sprintf("short%d", len(b))
		}
		m := int(binary.BigEndian.Uint32(b))
		if m < 1 || m > len(sc.Msgs) {
			return "alien"
		}
		if cfg.NoDec && len(b) > cell && len(b)%cell == 0 {
			// several messages in one read
			name := "merged"
			for k := 0; k < len(b); k += cell {
				mm := int(binary.BigEndian.Uint32(b[k:]))
				if mm < 1 || mm > len(sc.Msgs) || string(b[k:k+cell]) != string(lib.Payload(mm, cell)) {
					return "damaged"
				}
				name += fmt.Sprintf("-%d", mm)
			}
			return name
		}
		if len(b) != size(m) || string(b) != string(lib.Payload(m, size(m))) {
			return fmt.Sprintf("damaged%d", m)
		}
		return fmt.Sprintf("m%d", m)
	}
	respOf := func(x any) string {
		switch v := x.(type) {
		case nil:
			return "nil"
		case string:
			return v
		case zdecoder.TLVDecoder:
			return "dec-" + payName(v.Value)
		}
		return fmt.Sprintf("%T", x)
	}
	ctxOf := func(q ziface.IRequest) M {
		c := M{}
		for _, k := range qKeys {
			if v, ok := q.Get(k); ok {
				c[k] = fmt.Sprint(v)
			}
		}
		return c
	}
	runs := make([]*qRun, len(sc.Msgs)+1)
	var e *ep
	var copyWG sync.WaitGroup
	var rmu sync.Mutex
	sen := &sentinel{ch: map[int]chan struct{}{}}
	// of finds (or starts) the trace of the message a handler sees
	of := func(q ziface.IRequest, key *int, fresh bool) *qRun {
		m := *key
		if m == 0 {
			d := q.GetData()
			if len(d) < 4 {
				return nil
			}
			m = int(binary.BigEndian.Uint32(d))
			*key = m
		}
		if m < 1 || m > len(sc.Msgs) {
			return nil
		}
		rmu.Lock()
		defer rmu.Unlock()
		if fresh && runs[m] != nil {
			runs[m].t.Log("stray", "what", "the message is handled twice")
		}
		if runs[m] == nil {
			x := &sc.Msgs[m-1]
			c := M{"id": 5, "pay": fmt.Sprintf("m%d", m), "resp": "dec-" + fmt.Sprintf("m%d", m)}
			if cfg.NoDec {
				c["id"], c["resp"] = 0, "nil"
				if c["pay"] = payName(q.GetData()); strings.HasPrefix(c["pay"].(string), "damaged") {
					c["pay"] = "intact"
				}
			}
			if x.Resp == 1 {
				c["resp"] = fmt.Sprintf("r%d", m)
			}
			runs[m] = &qRun{t: lib.NewTrace(fmt.Sprintf("req-%s-m%d", id, m), c), m: m, x: x}
		}
		return runs[m]
	}
	obs := func(r *qRun, q ziface.IRequest) {
		r.t.Log("obs", "conn", e.of(q.GetConnection()) == r.x.C, "id", q.GetMsgID(), "pay", payName(q.GetData()), "resp", respOf(q.GetResponse()), "ctx", ctxOf(q))
	}
	cobs := func(r *qRun, j int, q ziface.IRequest) {
		r.t.Log("cobs", "j", j, "id", q.GetMsgID(), "pay", payName(q.GetData()), "resp", respOf(q.GetResponse()), "ctx", ctxOf(q))
	}
	stage := func(s int) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			e.touch()
			// which message this is follows from what an earlier stage left in the context, or from the payload
			m := 0
			if v, ok := q.Get("own"); ok && s > 1 {
				m = v.(int)
			}
			r := of(q, &m, s == 1)
			if r == nil {
				return
			}
			if s == 1 {
				if v, ok := q.Get("own"); ok {
					r.t.Log("obs", "conn", true, "id", q.GetMsgID(), "pay", fmt.Sprintf("context of %v", v), "resp", "", "ctx", M{})
				}
				q.Set("own", m)
			}
			obs(r, q)
			for _, o := range r.x.Ops[s-1] {
				switch o {
				case '1', '2', '3':
					k := qKeys[o-'1']
					v := fmt.Sprintf("v%d-%d", r.m, s)
					q.Set(k, v)
					r.t.Log("set", "k", k, "v", v)
				case 'r':
					v := fmt.Sprintf("x%d-%d", r.m, s)
					q.SetResponse(v)
					r.t.Log("resp", "v", v)
				case 'i':
					q.GetMessage().SetMsgID(uint32(100 + s))
					r.t.Log("id", "v", 100+s)
				case 'd':
					q.GetMessage().SetData([]byte("changed"))
					r.t.Log("pay", "v", "changed")
				case 'c':
					cp := q.Copy()
					r.t.Log("copy")
					r.mu.Lock()
					r.copies = append(r.copies, cp)
					j := len(r.copies)
					r.mu.Unlock()
					copyWG.Add(1)
					go func() {
						defer copyWG.Done()
						cobs(r, j, cp)
						time.Sleep(time.Duration(1+r.m%3) * time.Millisecond)
						cobs(r, j, cp)
					}()
				case 'x':
					// a copy of a copy, changed
					r.mu.Lock()
					if j := len(r.copies); j > 0 {
						cp := r.copies[j-1].Copy()
						r.copies = append(r.copies, cp)
						r.t.Log("ccopy", "j", j)
						v := fmt.Sprintf("y%d-%d", r.m, s)
						cp.Set("k2", v)
						r.t.Log("cset", "j", j+1, "k", "k2", "v", v)
						cobs(r, j, r.copies[j-1])
						cobs(r, j+1, cp)
					}
					r.mu.Unlock()
				case 'w':
					time.Sleep(time.Millisecond)
				}
			}
			obs(r, q)
			if s == r.x.At {
				switch r.x.Kind {
				case "pan":
					panic("handler panic")
				case "abt":
					q.Abort()
				}
			}
		}
	}
	conf := func(h host) {
		if cfg.NoDec {
			h.SetDecoder(nil)
		}
		h.AddInterceptor(fnIcept(func(ch ziface.IChain) ziface.IcResp {
			q := ch.Request().(ziface.IRequest)
			d := q.GetData()
			if len(d) >= 4 {
				if m := int(binary.BigEndian.Uint32(d)); m >= 1 && m <= len(sc.Msgs) {
					x := &sc.Msgs[m-1]
					if x.Resp == 1 {
						q.SetResponse(fmt.Sprintf("r%d", m))
					}
					if x.Kind == "stp" {
						return nil
					}
				}
			}
			return ch.Proceed(q)
		}))
		sh := func(q ziface.IRequest) { sen.handle(e, q) }
		first := func(q ziface.IRequest) {
			if len(q.GetData()) < 4 {
				sh(q)
				return
			}
			stage(1)(q)
		}
		if zconf.GlobalObject.RouterSlicesMode {
			s := h.(ziface.IServer)
			s.AddRouterSlices(5, stage(1), stage(2), stage(3))
			s.AddRouterSlices(0, first, stage(2), stage(3))
			s.AddRouterSlices(idSentinel, sh)
		} else {
			nop := func(ziface.IRequest) {}
			h.AddRouter(5, &stageRouter{stage(1), stage(2), stage(3)})
			h.AddRouter(0, &stageRouter{first, stage(2), stage(3)})
			h.AddRouter(idSentinel, &stageRouter{nop, sh, nop})
		}
	}
	mk.Lock()
	e = newEP(cfg.Side, cfg.Tr, sc.N, conf)
	mk.Unlock()
	for k, x := range sc.Msgs {
		m := k + 1
		f := lib.Payload(m, size(m))
		if !cfg.NoDec {
			mid := uint32(5)
			if x.Kind == "unk" {
				mid = 6
			}
			f = lib.TLV(mid, f)
		}
		must(e.peers[x.C].Write(f))
		if x.Gap > 0 || cfg.NoDec {
			time.Sleep(time.Duration(300+700*x.Gap) * time.Microsecond)
		}
	}
	if cfg.ordered() && !(cfg.NoDec && cfg.Tr == "tcp") {
		sf := lib.TLV(idSentinel, nil)
		if cfg.NoDec {
			sf = []byte{0}
		}
		var t *lib.Trace
		rmu.Lock()
		for _, r := range runs {
			if r != nil && t == nil {
				t = r.t
			}
		}
		rmu.Unlock()
		if t == nil {
			t = lib.NewTrace("req-"+id+"-s", M{"id": 0, "pay": "", "resp": ""})
			defer t.Close()
		}
		sen.wait(e, t, sc.N, sf)
	} else {
		e.quiet(150 * time.Millisecond)
	}
	copyWG.Wait()
	rmu.Lock()
	for _, r := range runs {
		if r != nil {
			r.t.Close()
		}
	}
	rmu.Unlock()
	e.close()
}
