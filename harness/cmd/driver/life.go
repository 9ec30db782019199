package main

import (
	"encoding/json"
	"fmt"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"

	"verifharness/lib"
)

type lOp struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	Tr   string `json:"tr"`
	Sh   string `json:"sh"`
	Eh   string `json:"eh"`
	K    int    `json:"k"`
	N    int    `json:"n"`
	What string `json:"what"`
}

type LifeScen struct {
	N    int   `json:"n"`
	Ops  []lOp `json:"ops"`
	Seed int   `json:"seed"`
}

type LifeCfg struct {
	Mode string `json:"mode"` // "", tcp, ws, kcp
	Conf M      `json:"conf"`
	Par  int    `json:"par"`
}

func init() { families["life"] = runLife }

type lConn struct {
	r      *lRun
	n      int
	tr     string
	sh, eh string
	id     uint64
	conn   ziface.IConnection
	p      lib.Peer
	cbMu   sync.Mutex // serializes the calls that add and remove callbacks

	// under r.mu, mirroring the specification's state
	acc, dialed, refused, startb, starte, stopb, stope, gone bool
	may, must, peerClosed                                    bool
	cbs                                                      map[int]bool // registered: sure to run?
	ran                                                      map[int]bool
}

type lRun struct {
	t      *lib.Trace
	srv    *lib.Srv
	mu     sync.Mutex
	cs     []*lConn
	byID   map[uint64]*lConn
	srvSt  string
	max    int
	pp     *lib.Peers
	rel    chan struct{}
	qn     int32
	stalls sync.WaitGroup
}

func (r *lRun) log(f func(), op string, kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if f != nil {
		f()
	}
	r.t.Log(op, kv...)
}

func runLife(in *Input) {
	var cfg LifeCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(cfg.Conf)
	if cfg.Mode == "both" {
		zconf.GlobalObject.Mode = ""
	} else {
		zconf.GlobalObject.Mode = lib.ModeOf(cfg.Mode)
	}
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	for k, raw := range in.Scen {
		sc := &LifeScen{}
		must(json.Unmarshal(raw, sc))
		wg.Add(1)
		sem <- struct{}{}
		r := newLife(fmt.Sprintf("life-%s-%d", cfg.Mode, k), &cfg, sc)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.play(&cfg, sc)
		}()
	}
	wg.Wait()
}

func newLife(id string, cfg *LifeCfg, sc *LifeScen) *lRun {
	r := &lRun{byID: map[uint64]*lConn{}, srvSt: "up", max: zconf.GlobalObject.MaxConn, pp: &lib.Peers{}, rel: make(chan struct{})}
	r.cs = make([]*lConn, sc.N+2)
	trs := make([]string, sc.N+1)
	for c := 1; c <= sc.N+1; c++ {
		r.cs[c] = &lConn{r: r, n: c, cbs: map[int]bool{}, ran: map[int]bool{}, tr: "tcp"}
	}
	for _, o := range sc.Ops {
		if o.Op == "dial" {
			c := r.cs[o.C]
			c.tr, c.sh, c.eh = o.Tr, o.Sh, o.Eh
		}
	}
	for c := 1; c <= sc.N+1; c++ {
		trs[c-1] = r.cs[c].tr
	}
	r.t = lib.NewTrace(id, M{"n": sc.N, "max": r.max, "tr": trs})
	r.srv = lib.NewSrv()
	r.pp.OnGhost = func() { r.t.Log("ghost") }
	of := func(c ziface.IConnection) *lConn { x, _ := r.pp.Of(c).(*lConn); return x }
	r.srv.S.SetOnConnStart(func(conn ziface.IConnection) {
		c, _ := r.pp.Bind(conn).(*lConn)
		if c == nil {
			r.t.Log("stray", "what", "unknown connection started")
			return
		}
		r.log(func() {
			c.startb, c.conn, c.id = true, conn, conn.GetConnID()
			r.byID[c.id] = c
		}, "startb", "c", c.n, "id", int(conn.GetConnID()))
		switch c.sh {
		case "slow":
			time.Sleep(5 * time.Millisecond)
		case "stop":
			r.endreq(c)
			conn.Stop()
		case "cb":
			c.addcb(1000 + c.n)
			c.addcb(2000 + c.n)
		case "cbstop":
			c.addcb(1000 + c.n)
			r.endreq(c)
			conn.Stop()
			c.addcb(2000 + c.n)
		case "send":
			_ = conn.SendMsg(1, []byte("hello"))
		}
		r.log(func() { c.starte = true }, "starte", "c", c.n)
	})
	r.srv.S.SetOnConnStop(func(conn ziface.IConnection) {
		c := of(conn)
		if c == nil {
			r.t.Log("stray", "what", "unknown connection stopped")
			return
		}
		r.log(func() { c.stopb = true }, "stopb", "c", c.n)
		switch c.eh {
		case "slow":
			time.Sleep(5 * time.Millisecond)
		case "stop":
			conn.Stop()
		case "rm":
			c.rmcb(1000 + c.n)
		}
		r.log(func() { c.stope = true }, "stope", "c", c.n)
	})
	h := func(q ziface.IRequest) {
		c := of(q.GetConnection())
		if c == nil {
			r.t.Log("stray", "what", "message of unknown connection")
			return
		}
		r.log(nil, "msg", "c", c.n)
		if len(q.GetData()) == 0 {
			return
		}
		switch q.GetData()[0] {
		case 1: // stopself
			r.endreq(c)
			q.GetConnection().Stop()
		case 2: // block
			select {
			case <-r.rel:
			case <-time.After(90 * time.Second):
			}
		case 3: // flood
			b := make([]byte, 20000)
			for i := 0; i < 30; i++ {
				if q.GetConnection().SendBuffMsg(2, b) != nil {
					break
				}
			}
		}
	}
	r.srv.S.AddRouter(7, &fnRouter{f: h})
	r.srv.Start()
	return r
}

// endreq records that the end of c is being asked for.
func (r *lRun) endreq(c *lConn) {
	r.log(func() {
		c.may, c.must = true, true
		if c.conn != nil {
			lib.MuteKCP(c.conn)
		}
	}, "endreq", "c", c.n)
}

func (c *lConn) mayEnd() bool { return c.may || c.r.srvSt != "up" }

func (c *lConn) addcb(n int) {
	c.cbMu.Lock()
	defer c.cbMu.Unlock()
	r := c.r
	r.log(func() { c.cbs[n] = false }, "addcb", "c", c.n, "n", n)
	c.conn.AddCloseCallback(c, n, func() {
		r.log(func() { c.ran[n] = true }, "cb", "c", c.n, "n", n)
	})
	r.log(func() { c.cbs[n] = !c.mayEnd() }, "addcbe", "c", c.n, "n", n)
}

func (c *lConn) rmcb(n int) {
	c.cbMu.Lock()
	defer c.cbMu.Unlock()
	r := c.r
	r.log(func() { delete(c.cbs, n) }, "rmcb", "c", c.n, "n", n)
	c.conn.RemoveCloseCallback(c, n)
	r.log(nil, "rmcbe", "c", c.n, "n", n)
}

func (r *lRun) inReg(c *lConn) bool {
	x, err := r.srv.S.GetConnMgr().Get(c.id)
	return err == nil && x == c.conn
}

// isQuiet is Quiet in the specification (with r.mu held); gones: the ends must have been recorded as well.
func (r *lRun) isQuiet(gones bool) bool {
	open := 0
	for _, c := range r.cs[1:] {
		if c.startb && !c.stope {
			open++
		}
	}
	for _, c := range r.cs[1:] {
		if !c.dialed || c.refused || c.gone {
			continue
		}
		mustEnd := c.must || (r.srvSt != "up" && c.startb)
		switch {
		case c.startb && !c.starte, c.stopb && !c.stope:
			return false
		case c.startb && mustEnd && !c.stope:
			return false
		case c.stope:
			if gones || r.inReg(c) {
				return false
			}
			for n, sure := range c.cbs {
				if sure && !c.ran[n] {
					return false
				}
			}
		case !c.startb && c.acc && r.srvSt == "up", !c.startb && c.tr != "ws" && r.srvSt == "up" && open < r.max:
			return false
		}
	}
	return true
}

// quiet waits for everything that has to happen, then records it.
func (r *lRun) quiet() {
	for try := 0; ; try++ {
		ok := lib.Settle(func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			return r.isQuiet(false)
		})
		for _, c := range r.cs[1:] {
			r.mu.Lock()
			end := c.stope && !c.gone
			closed := c.peerClosed
			r.mu.Unlock()
			if !end {
				continue
			}
			tr := true
			if c.tr != "kcp" && !closed && c.p != nil {
				c.p.SetReadDeadline(time.Now().Add(lib.Patience()))
				b := make([]byte, 65536)
				for {
					_, err := c.p.Read(b)
					if err != nil {
						if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
							tr = false
							lib.Failed()
						}
						break
					}
				}
			}
			// (its end may have come after the settling above)
			if ok {
				ok = lib.Settle(func() bool {
					r.mu.Lock()
					defer r.mu.Unlock()
					for n, sure := range c.cbs {
						if sure && !c.ran[n] {
							return false
						}
					}
					return !r.inReg(c)
				})
			}
			r.log(func() { c.gone = true }, "gone", "c", c.n, "reg", r.inReg(c), "tr", tr)
		}
		// something new may have begun meanwhile (a message that stops its connection): not quiet yet
		r.mu.Lock()
		if !ok || try > 50 || r.isQuiet(true) {
			r.t.Log("quiet")
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
	}
}

func (r *lRun) query(o *lOp) {
	cm := r.srv.S.GetConnMgr()
	q := int(atomic.AddInt32(&r.qn, 1))
	num := func(id uint64) int {
		r.mu.Lock()
		defer r.mu.Unlock()
		if c := r.byID[id]; c != nil {
			return c.n
		}
		return -1
	}
	list := func(f func(add func(id uint64, conn ziface.IConnection))) {
		r.log(nil, "qb", "q", q)
		var ids []uint64
		bad := false
		f(func(id uint64, conn ziface.IConnection) {
			ids = append(ids, id)
			if conn != nil && conn.GetConnID() != id {
				bad = true
			}
		})
		res := []int{}
		for _, id := range ids {
			// a connection that has not reached its start hook is not known yet
			if n := num(id); n > 0 {
				res = append(res, n)
			}
		}
		if bad {
			res = append(res, 0)
		}
		r.log(nil, "qe", "q", q, "kind", "list", "res", res)
	}
	switch o.What {
	case "len":
		r.log(nil, "qb", "q", q)
		n := cm.Len()
		r.log(nil, "qe", "q", q, "kind", "len", "res", n)
	case "ids":
		list(func(add func(uint64, ziface.IConnection)) {
			for _, id := range cm.GetAllConnID() {
				add(id, nil)
			}
		})
	case "idstrs":
		list(func(add func(uint64, ziface.IConnection)) {
			for _, s := range cm.GetAllConnIdStr() {
				id, _ := strconv.ParseUint(s, 10, 64)
				add(id, nil)
			}
		})
	case "range":
		list(func(add func(uint64, ziface.IConnection)) {
			_ = cm.Range(func(id uint64, c ziface.IConnection, _ interface{}) error { add(id, c); return nil }, nil)
		})
	case "range2":
		list(func(add func(uint64, ziface.IConnection)) {
			_ = cm.Range2(func(s string, c ziface.IConnection, _ interface{}) error {
				id, _ := strconv.ParseUint(s, 10, 64)
				add(id, c)
				return nil
			}, nil)
		})
	case "get", "get2":
		c := r.cs[o.C]
		r.mu.Lock()
		known := c.startb
		r.mu.Unlock()
		if !known {
			return
		}
		r.log(nil, "qb", "q", q)
		var x ziface.IConnection
		var err error
		if o.What == "get" {
			x, err = cm.Get(c.id)
		} else {
			x, err = cm.Get2(strconv.FormatUint(c.id, 10))
		}
		res := 0
		if err == nil {
			res = -1
			if x == c.conn {
				res = c.n
			}
		}
		r.log(nil, "qe", "q", q, "kind", "get", "c", c.n, "res", res)
	}
}

func (r *lRun) do(o *lOp) {
	var c *lConn
	if o.C > 0 {
		c = r.cs[o.C]
	}
	r.mu.Lock()
	usable := c != nil && c.p != nil && !c.refused
	started := usable && c.startb
	dead := c != nil && c.peerClosed
	r.mu.Unlock()
	switch o.Op {
	case "dial":
		r.log(func() { c.dialed = true }, "dial", "c", c.n)
		p, err := r.srv.DialPut(c.tr, func(rem, loc string) { r.pp.PutAddr(rem, loc, c) })
		if err != nil {
			r.log(func() { c.refused = !c.startb }, map[bool]string{true: "fail", false: "refused"}[c.startb], "c", c.n)
			return
		}
		if c.tr == "kcp" {
			_ = p.Write(lib.TLV(99, nil))
		}
		if c.tr == "ws" {
			r.log(func() { c.p, c.acc = p, true }, "dialok", "c", c.n)
		} else {
			r.mu.Lock()
			c.p = p
			r.mu.Unlock()
		}
	case "close", "abort":
		if !usable || dead {
			return
		}
		if c.tr == "kcp" {
			if started {
				r.endreq(c)
				c.conn.Stop()
			}
			return
		}
		r.endreq(c)
		r.mu.Lock()
		c.peerClosed = true
		r.mu.Unlock()
		if o.Op == "close" {
			c.p.Close()
		} else {
			c.p.Abort()
		}
	case "stop":
		if !started {
			return
		}
		r.endreq(c)
		var wg sync.WaitGroup
		for k := 0; k < o.K; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); c.conn.Stop() }()
		}
		wg.Wait()
	case "send":
		if !usable || dead {
			return
		}
		b := map[string]byte{"ok": 0, "stopself": 1, "block": 2, "flood": 3}[o.What]
		w := c.p.Write
		if k, ok := c.p.(interface{ WriteBrief([]byte) error }); ok {
			w = k.WriteBrief
		}
		_ = w(lib.TLV(7, []byte{b}))
	case "stall":
		// senders that will block, because the peer reads nothing (not while the start hook sends: it would block as well)
		r.mu.Lock()
		ready := started && c.starte
		r.mu.Unlock()
		if !ready {
			return
		}
		go func() {
			b := make([]byte, 200000)
			for c.conn.SendMsg(2, b) == nil {
				r.mu.Lock()
				s := c.stope
				r.mu.Unlock()
				if s {
					return
				}
			}
		}()
	case "addcb":
		if started {
			c.addcb(o.N)
		}
	case "rmcb":
		if started {
			c.rmcb(o.N)
		}
	case "query":
		r.query(o)
	case "clear":
		r.log(func() {
			for _, c := range r.cs[1:] {
				if c.dialed {
					c.may = true
					if c.startb && !c.stope {
						c.must = true
						lib.MuteKCP(c.conn)
					}
				}
			}
		}, "clearb")
		r.srv.S.GetConnMgr().ClearConn()
		r.log(func() {
			for _, c := range r.cs[1:] {
				if c.dialed {
					c.may = true
				}
			}
		}, "cleare")
	case "sstop":
		r.log(func() { r.srvSt = "stopping" }, "sstopb")
		r.srv.S.Stop()
		r.log(func() { r.srvSt = "down" }, "sstope")
	}
}

func (r *lRun) play(cfg *LifeCfg, sc *LifeScen) {
	var round []lOp
	flush := func() {
		ops := round
		round = nil
		lib.Guard(r.t, 40*time.Second, "operations do not return", func() {
			var wg sync.WaitGroup
			for k := range ops {
				wg.Add(1)
				go func(o *lOp) { defer wg.Done(); r.do(o) }(&ops[k])
			}
			wg.Wait()
		})
	}
	for _, o := range sc.Ops {
		switch o.Op {
		case "bar":
			flush()
		case "quiet":
			flush()
			r.quiet()
		default:
			round = append(round, o)
		}
	}
	flush()
	r.quiet()
	if r.srvSt == "down" {
		free := lib.Settle(func() bool { return portsFree(cfg.Mode, r.srv) })
		r.log(nil, "port", "free", free)
		// whoever comes now is not served
		tr := map[string]string{"tcp": "tcp", "ws": "ws", "kcp": "kcp", "both": "tcp"}[cfg.Mode]
		c := r.cs[sc.N+1]
		r.log(nil, "dial", "c", c.n)
		if p, err := r.srv.DialPut(tr, func(rem, loc string) { r.pp.PutAddr(rem, loc, c) }); err == nil {
			if tr == "kcp" {
				_ = p.(interface{ WriteBrief([]byte) error }).WriteBrief(lib.TLV(7, nil))
			}
			time.Sleep(20 * time.Millisecond)
			p.Close()
		}
		r.quiet()
	}
	time.Sleep(5 * time.Millisecond)
	r.log(nil, "fin")
	r.t.Close()
	close(r.rel)
	if r.srvSt == "up" {
		r.srv.S.Stop()
	}
	for _, c := range r.cs[1:] {
		if c.p != nil {
			c.p.Close()
		}
	}
}

func portsFree(mode string, s *lib.Srv) bool {
	tcp := func(p int) bool {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			return false
		}
		l.Close()
		return true
	}
	switch mode {
	case "tcp":
		return tcp(s.TCP)
	case "ws":
		return tcp(s.WS)
	case "kcp":
		l, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", s.KCP))
		if err != nil {
			return false
		}
		l.Close()
		return true
	}
	return tcp(s.TCP) && tcp(s.WS)
}
