package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/ztimer"

	"verifharness/lib"
)

type dOp struct {
	Op   string   `json:"op"`
	C    int      `json:"c"`
	Ks   []string `json:"ks"`
	Glue int      `json:"glue"`
	Hook string   `json:"hook"`
	Skip []int    `json:"skip"`
	How  string   `json:"how"`
	Idle int      `json:"idle"`
	What string   `json:"what"`
	Bad  int      `json:"bad"`
}

type DispScen struct {
	N    int   `json:"n"`
	Ops  []dOp `json:"ops"`
	Seed int   `json:"seed"`
}

type DispCfg struct {
	Tr    string `json:"tr"`
	Conf  M      `json:"conf"`
	Par   int    `json:"par"`
	Pool  bool   `json:"pool"`
	Bound bool   `json:"bound"`
	MaxW  int    `json:"maxw"`
	Fixed bool   `json:"fixed"`
	Icept int    `json:"icept"`
}

func init() { families["dispatch"] = runDispatch }

var kindCode = map[string]byte{"ok": 0, "slow": 1, "block": 2, "unk": 3, "panpre": 4, "panh": 5, "panpost": 6, "icp": 7}

const (
	idKnown   = 5
	idUnknown = 99
)

// dConn is what the scenario knows about one of its connections.
type dConn struct {
	r       *dRun
	n       int // number in the trace
	mu      sync.Mutex
	p       lib.Peer
	conn    ziface.IConnection
	kinds   []string
	ended   map[int]bool
	blocks  map[int]chan struct{}
	lastBlk int
	hook    string
	started int32
	stopped int32
	aux     int32 // tasks of this connection still to run
	hp, icp bool
	closing bool

	peerClosed bool
}

type dRun struct {
	t     *lib.Trace
	srv   *lib.Srv
	conns []*dConn
	cfg   *DispCfg
	aux   int32 // tasks still to run
	auxN  int
}

func (c *dConn) isHP() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.hp }

// settled: as Complete in the specification
func (c *dConn) settled() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if atomic.LoadInt32(&c.started) == 0 {
		return false
	}
	stopped := atomic.LoadInt32(&c.stopped) == 1
	if c.hp && stopped {
		return true
	}
	for k, kind := range c.kinds {
		if kind == "icp" && stopped {
			return true
		}
		if kind == "ok" && !c.ended[k+1] {
			return false
		}
	}
	return true
}

func dPayload(k int, kind string) []byte {
	b := make([]byte, 5)
	binary.BigEndian.PutUint32(b, uint32(k))
	b[4] = kindCode[kind]
	return b
}

func dParse(q ziface.IRequest) (k int, kind byte, ok bool) {
	d := q.GetData()
	if len(d) < 5 {
		return 0, 0, false
	}
	return int(binary.BigEndian.Uint32(d)), d[4], true
}

type stageRouter struct{ pre, h, post func(ziface.IRequest) }

func (r *stageRouter) PreHandle(q ziface.IRequest)  { r.pre(q) }
func (r *stageRouter) Handle(q ziface.IRequest)     { r.h(q) }
func (r *stageRouter) PostHandle(q ziface.IRequest) { r.post(q) }

// icpIceptor panics on the messages that ask for it.
type icpIceptor struct{}

func (icpIceptor) Intercept(ch ziface.IChain) ziface.IcResp {
	if q, ok := ch.Request().(ziface.IRequest); ok {
		if _, kind, ok := dParse(q); ok && kind == kindCode["icp"] {
			lib.MuteKCP(q.GetConnection())
			panic("interceptor panic")
		}
	}
	return ch.Proceed(ch.Request())
}

var timers struct {
	once sync.Once
	s    *ztimer.TimerScheduler
}

func runDispatch(in *Input) {
	var cfg DispCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(cfg.Conf)
	zconf.GlobalObject.Mode = lib.ModeOf(cfg.Tr)
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	var mk sync.Mutex
	for k, raw := range in.Scen {
		sc := &DispScen{}
		must(json.Unmarshal(raw, sc))
		wg.Add(1)
		sem <- struct{}{}
		mk.Lock()
		r := newDispatch(fmt.Sprintf("dispatch-%s-%d", cfg.Tr, k), &cfg, sc)
		mk.Unlock()
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.play(sc)
		}()
	}
	wg.Wait()
}

func newDispatch(id string, cfg *DispCfg, sc *DispScen) *dRun {
	r := &dRun{cfg: cfg}
	r.srv = lib.NewSrv()
	maxw := cfg.MaxW
	if cfg.Bound && !cfg.Fixed {
		maxw += sc.N // extra workers of connections that have ended may still be finishing
	}
	r.t = lib.NewTrace(id, M{"n": sc.N, "tr": cfg.Tr, "pool": cfg.Pool, "bound": cfg.Bound, "maxw": maxw, "fixed": cfg.Fixed, "conf": cfg.Conf})
	pp := &lib.Peers{OnGhost: func() { r.t.Log("ghost") }}
	of := func(c ziface.IConnection) *dConn { x, _ := pp.Of(c).(*dConn); return x }
	finish := func(c *dConn, k int) {
		r.t.Log("end", "c", c.n, "k", k, "w", lib.GID())
		c.mu.Lock()
		c.ended[k] = true
		c.mu.Unlock()
	}
	pre := func(q ziface.IRequest) {
		c := of(q.GetConnection())
		k, kind, ok := dParse(q)
		if c == nil || !ok {
			r.t.Log("stray", "id", int(q.GetMsgID()))
			return
		}
		r.t.Log("begin", "c", c.n, "k", k, "w", lib.GID())
		if kind == kindCode["panpre"] {
			finish(c, k)
			panic("handler panic (first stage)")
		}
	}
	h := func(q ziface.IRequest) {
		c := of(q.GetConnection())
		k, kind, ok := dParse(q)
		if c == nil || !ok {
			return
		}
		switch kind {
		case kindCode["slow"]:
			time.Sleep(time.Duration(k%4) * 400 * time.Microsecond)
		case kindCode["block"]:
			c.mu.Lock()
			ch := c.blocks[k]
			c.mu.Unlock()
			select {
			case <-ch:
			case <-time.After(60 * time.Second):
			}
		case kindCode["panh"]:
			finish(c, k)
			panic(fmt.Errorf("handler panic (second stage)"))
		}
	}
	post := func(q ziface.IRequest) {
		c := of(q.GetConnection())
		k, kind, ok := dParse(q)
		if c == nil || !ok {
			return
		}
		finish(c, k)
		if kind == kindCode["panpost"] {
			var p *dConn
			p.n++ // runtime error
		}
	}
	if zconf.GlobalObject.RouterSlicesMode {
		r.srv.S.AddRouterSlices(idKnown, pre, h, post)
	} else {
		r.srv.S.AddRouter(idKnown, &stageRouter{pre, h, post})
	}
	if cfg.Icept == 1 {
		r.srv.S.AddInterceptor(icpIceptor{})
	}
	r.srv.S.SetOnConnStart(func(conn ziface.IConnection) {
		x, _ := pp.Bind(conn).(*dConn)
		if x == nil {
			r.t.Log("stray", "what", "unknown connection")
			return
		}
		x.mu.Lock()
		x.conn = conn
		x.hp = x.hook == "start"
		x.mu.Unlock()
		if x.hook == "start" {
			lib.MuteKCP(conn)
			r.t.Log("hookpanic", "c", x.n)
			atomic.StoreInt32(&x.started, 1)
			panic("start hook panic")
		}
		r.t.Log("start", "c", x.n)
		atomic.StoreInt32(&x.started, 1)
	})
	r.srv.S.SetOnConnStop(func(conn ziface.IConnection) {
		x := of(conn)
		if x == nil {
			r.t.Log("stray", "what", "unknown connection")
			return
		}
		r.t.Log("stop", "c", x.n)
		atomic.StoreInt32(&x.stopped, 1)
		if x.hook == "stop" {
			panic("stop hook panic")
		}
	})
	r.conns = make([]*dConn, sc.N+1)
	for c := 1; c <= sc.N; c++ {
		r.conns[c] = &dConn{r: r, n: c, ended: map[int]bool{}, blocks: map[int]chan struct{}{}}
	}
	for _, o := range sc.Ops {
		if o.Op == "open" {
			r.conns[o.C].hook = o.Hook
		}
	}
	r.srv.Start()
	putOf[r] = pp
	return r
}

var putOf = map[*dRun]*lib.Peers{}

func (r *dRun) dial(c *dConn, pp *lib.Peers) {
	end := time.Now().Add(15 * time.Second)
	for {
		p, err := r.srv.Dial(r.cfg.Tr)
		if err == nil {
			pp.Put(p, c)
			c.p = p
			if r.cfg.Tr == "kcp" {
				// the first bytes make the connection exist for the server: an unroutable message
				c.mu.Lock()
				c.kinds = append(c.kinds, "unk")
				c.mu.Unlock()
				r.t.Log("send", "c", c.n, "kind", "unk")
				_ = p.Write(lib.TLV(idUnknown, dPayload(1, "unk")))
			}
			return
		}
		if time.Now().After(end) {
			r.t.Log("refused", "c", c.n)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// settle waits until the given connections (and all tasks, if all) have nothing left to do.
func (r *dRun) settle(cs []int, all bool) {
	lib.Settle(func() bool {
		for _, c := range cs {
			if !r.conns[c].settled() {
				return false
			}
		}
		return !all || atomic.LoadInt32(&r.aux) == 0
	})
	r.t.Log("settle", "cs", cs, "all", all)
}

// ended waits for the complete end of a connection and records whether it is complete.
func (r *dRun) gone(c *dConn) {
	if c.p == nil || c.conn == nil {
		return
	}
	inReg := func() bool {
		cm := r.srv.S.GetConnMgr()
		x, err := cm.Get(c.conn.GetConnID())
		return err == nil && x == c.conn
	}
	lib.Settle(func() bool { return atomic.LoadInt32(&c.stopped) == 1 && !inReg() })
	closed := true
	if r.cfg.Tr != "kcp" && !c.peerClosed {
		// the peer sees the end of the stream
		c.p.SetReadDeadline(time.Now().Add(lib.Patience()))
		b := make([]byte, 16)
		for {
			_, err := c.p.Read(b)
			if err != nil {
				if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
					closed = false
					lib.Failed()
				}
				break
			}
		}
	}
	r.t.Log("gone", "c", c.n, "reg", inReg(), "tr", closed)
}

func (r *dRun) play(sc *DispScen) {
	pp := putOf[r]
	opened := map[int]bool{}
	list := func(skip []int) []int {
		cs := []int{}
		for c := 1; c <= sc.N; c++ {
			if opened[c] && (skip == nil || skip[c-1] == 0) {
				cs = append(cs, c)
			}
		}
		return cs
	}
	for _, o := range sc.Ops {
		var c *dConn
		if o.C > 0 {
			c = r.conns[o.C]
		}
		switch o.Op {
		case "open":
			r.dial(c, pp)
			if c.p == nil {
				continue
			}
			opened[o.C] = true
		case "send":
			if c.p == nil {
				continue
			}
			var buf []byte
			for _, kind := range o.Ks {
				sk := kind
				id := uint32(idKnown)
				switch kind {
				case "unk":
					id = idUnknown
				case "icp":
					if r.cfg.Icept == 0 {
						kind, sk = "ok", "ok"
					}
				default:
					sk = "ok"
				}
				c.mu.Lock()
				c.kinds = append(c.kinds, sk)
				k := len(c.kinds)
				if kind == "block" {
					c.blocks[k] = make(chan struct{})
					c.lastBlk = k
				}
				if sk == "icp" {
					c.icp = true
				}
				c.mu.Unlock()
				r.t.Log("send", "c", c.n, "kind", sk)
				f := lib.TLV(id, dPayload(k, kind))
				if o.Glue == 1 {
					buf = append(buf, f...)
				} else {
					_ = c.p.Write(f)
				}
			}
			if len(buf) > 0 {
				_ = c.p.Write(buf)
			}
		case "rel":
			c.release()
		case "settle":
			r.settle(list(o.Skip), true)
		case "close":
			if c.p == nil {
				continue
			}
			if o.Idle == 1 {
				r.settle([]int{o.C}, false)
				lib.Settle(func() bool { return atomic.LoadInt32(&c.aux) == 0 })
			}
			c.end(o.How)
		case "task":
			r.task(c, &o)
		}
	}
	for _, c := range r.conns[1:] {
		c.release()
	}
	r.settle(list(nil), true)
	// duplicates would come now
	time.Sleep(10 * time.Millisecond)
	for _, c := range r.conns[1:] {
		if c.p == nil {
			continue
		}
		if atomic.LoadInt32(&c.stopped) == 1 || c.isHP() || c.closing {
			r.gone(c)
		}
	}
	r.t.Log("fin")
	r.t.Close()
	for _, c := range r.conns[1:] {
		if c.p != nil {
			c.p.Close()
		}
	}
	r.srv.S.Stop()
}

func (c *dConn) release() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.lastBlk != 0 {
		close(c.blocks[c.lastBlk])
		c.lastBlk = 0
	}
}

func (c *dConn) end(how string) {
	if atomic.LoadInt32(&c.stopped) == 1 || c.closing || c.isHP() {
		return // already gone (its interceptor or hook panicked)
	}
	c.mu.Lock()
	c.closing = true
	conn := c.conn
	icp := c.icp
	c.mu.Unlock()
	if icp {
		c.mu.Lock()
		c.closing = false
		c.mu.Unlock()
		return // may be ending by itself right now
	}
	c.r.t.Log("closing", "c", c.n)
	switch how {
	case "peer":
		c.peerClosed = true
		c.p.Close()
	case "abort":
		c.peerClosed = true
		c.p.Abort()
	case "kill":
		if conn != nil {
			lib.MuteKCP(conn)
			conn.Stop()
		}
	}
}

// task submits work that may panic to one of the facilities other than message handling.
func (r *dRun) task(c *dConn, o *dOp) {
	c.mu.Lock()
	bad := c.p == nil || c.hp || c.icp || c.hook == "start" || c.closing
	c.mu.Unlock()
	if bad {
		return
	}
	if !lib.WaitFor(10*time.Second, func() bool { return atomic.LoadInt32(&c.started) == 1 }) {
		return
	}
	if !r.cfg.Pool && (o.What == "func" || o.What == "complete") {
		return
	}
	if o.What == "closecb" {
		c.conn.AddCloseCallback(c, "k", func() {
			if o.Bad == 1 {
				panic("close callback panic")
			}
		})
		return
	}
	r.auxN++
	n := r.auxN
	on := 0
	switch o.What {
	case "func", "complete":
		on = c.n
	}
	r.t.Log("submit", "n", n)
	atomic.AddInt32(&r.aux, 1)
	atomic.AddInt32(&c.aux, 1)
	f := func() {
		r.t.Log("ran", "n", n, "c", on, "w", lib.GID())
		atomic.AddInt32(&r.aux, -1)
		atomic.AddInt32(&c.aux, -1)
		if o.Bad == 1 {
			panic(fmt.Sprintf("%s panic", o.What))
		}
	}
	switch o.What {
	case "func":
		c.conn.GetMsgHandler().SendMsgToTaskQueue(znet.NewFuncRequest(c.conn, f))
	case "async":
		zasync_op.Process(n%3, f)
	case "complete":
		ar := zasync_op.NewAsyncOpResult(c.conn)
		zasync_op.Process(7, func() {
			ar.SetReturnedObj(n)
		})
		ar.OnComplete(f)
	case "timer":
		timers.once.Do(func() { timers.s = ztimer.NewAutoExecTimerScheduler() })
		df := ztimer.NewDelayFunc(func(...interface{}) { f() }, nil)
		_, err := timers.s.CreateTimerAfter(df, time.Duration(o.C*10)*time.Millisecond)
		must(err)
	}
}
