package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"

	"verifharness/lib"
)

type sMsg struct {
	P  string `json:"p"`
	Sz int    `json:"sz"`
	D  int    `json:"d"`
}

type sOp struct {
	Op    string   `json:"op"`
	Peer  string   `json:"peer"`
	End   string   `json:"end"`
	At    int      `json:"at"`
	Progs [][]sMsg `json:"progs"`
}

type SendScen struct {
	Ops  []sOp `json:"ops"`
	Seed int   `json:"seed"`
}

type SendCfg struct {
	Tr   string `json:"tr"`
	Side string `json:"side"` // "server" or "client"
	Conf M      `json:"conf"`
	Par  int    `json:"par"`
	HB   int    `json:"hb"` // heartbeat interval in ms, 0: none
}

func init() { families["send"] = runSend }

const hbID = 99999

type sRun struct {
	t    *lib.Trace
	cfg  *SendCfg
	conn ziface.IConnection
	p    lib.Peer
	srv  *lib.Srv
	cl   ziface.IClient
	lst  *lib.RawListener

	mu      sync.Mutex
	n       int
	ids     map[uint32]int
	sizes   []int
	state   []string // "run","ok","err"
	got     map[int]bool
	closing bool
	ended   bool
	hooks   int
	eof     bool
	stalled int32 // 0 read, 1 slow, 2 stall
	started chan struct{}
	quit    chan struct{}
}

func (r *sRun) log(f func(), op string, kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if f != nil {
		f()
	}
	r.t.Log(op, kv...)
}

// send makes one call and records it.
func (r *sRun) send(g int, m sMsg) string {
	path := "direct"
	if m.P == "buff" || m.P == "queue" {
		path = "buff"
	}
	r.mu.Lock()
	r.n++
	n := r.n
	id := uint32(n)*2654435761 + 7
	r.ids[id] = n
	r.sizes = append(r.sizes, m.Sz)
	r.state = append(r.state, "run")
	body := lib.Payload(n, m.Sz)
	var frame []byte
	if m.P == "raw" || m.P == "queue" {
		frame = lib.TLV(id, body)
	}
	r.t.Log("call", "n", n, "g", g, "p", path)
	r.mu.Unlock()
	var err error
	switch m.P {
	case "msg":
		err = r.conn.SendMsg(id, body)
	case "buff":
		err = r.conn.SendBuffMsg(id, body)
	case "raw":
		err = r.conn.Send(frame)
	case "queue":
		err = r.conn.SendToQueue(frame)
	}
	res := "ok"
	if err != nil {
		res = "err"
	}
	r.log(func() { r.state[n-1] = res }, "ret", "n", n, "r", res)
	// the payload buffer is the caller's again (a frame handed to SendToQueue is not)
	for k := range body {
		body[k] ^= 0x5a
	}
	if m.P == "raw" {
		for k := range frame {
			frame[k] ^= 0xa5
		}
	}
	return res
}

type gate struct {
	r *sRun
}

// Read lets the scenario decide when and how fast the peer reads.
func (g gate) Read(b []byte) (int, error) {
	for atomic.LoadInt32(&g.r.stalled) == 2 {
		select {
		case <-g.r.quit:
			return 0, io.EOF
		case <-time.After(time.Millisecond):
		}
	}
	if atomic.LoadInt32(&g.r.stalled) == 1 {
		time.Sleep(300 * time.Microsecond)
		if len(b) > 3000 {
			b = b[:3000]
		}
	}
	return g.r.p.Read(b)
}

func (r *sRun) reader() {
	br := bufio.NewReaderSize(gate{r}, 4096)
	defer func() { r.mu.Lock(); r.eof = true; r.mu.Unlock() }()
	for {
		if _, err := br.Peek(1); err != nil {
			return
		}
		id, body, err := lib.ReadTLV(br, 1<<20)
		if err == lib.ErrFrame {
			r.log(nil, "torn", "id", u32(id), "why", "length")
			return
		}
		if err != nil {
			r.log(nil, "cut")
			return
		}
		if id == hbID {
			continue
		}
		r.mu.Lock()
		n, ok := r.ids[id]
		if !ok || len(body) != r.sizes[n-1] || string(body) != string(lib.Payload(n, len(body))) {
			r.t.Log("torn", "id", u32(id), "n", n, "len", len(body))
			r.mu.Unlock()
			return
		}
		r.got[n] = true
		r.t.Log("recv", "n", n)
		r.mu.Unlock()
	}
}

func runSend(in *Input) {
	var cfg SendCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(cfg.Conf)
	zconf.GlobalObject.Mode = lib.ModeOf(cfg.Tr)
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	for k, raw := range in.Scen {
		sc := &SendScen{}
		must(json.Unmarshal(raw, sc))
		wg.Add(1)
		sem <- struct{}{}
		r := newSend(fmt.Sprintf("send-%s-%s-%d", cfg.Tr, cfg.Side, k), &cfg)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.play(sc)
		}()
	}
	wg.Wait()
}

func newSend(id string, cfg *SendCfg) *sRun {
	r := &sRun{cfg: cfg, ids: map[uint32]int{}, got: map[int]bool{}, started: make(chan struct{}), quit: make(chan struct{})}
	r.t = lib.NewTrace(id, M{"tr": cfg.Tr, "side": cfg.Side})
	onStart := func(c ziface.IConnection) {
		r.mu.Lock()
		again := r.conn != nil
		if !again {
			r.conn = c
		}
		r.mu.Unlock()
		if again {
			return // a late packet of a KCP peer makes a new connection
		}
		var raw net.Conn
		if cfg.Tr == "ws" {
			raw = c.GetWsConn().UnderlyingConn()
		} else if cfg.Tr == "tcp" {
			raw = c.GetConnection()
		}
		if t, ok := raw.(*net.TCPConn); ok {
			t.SetWriteBuffer(65536)
		}
		c.AddCloseCallback(r, "end", func() {
			r.log(func() { r.ended = true }, "ended")
		})
		close(r.started)
	}
	onStop := func(c ziface.IConnection) {
		r.mu.Lock()
		if c == r.conn {
			r.hooks++
		}
		r.mu.Unlock()
	}
	var err error
	if cfg.Side == "client" {
		r.lst, err = lib.RawListen(cfg.Tr, 0, nil)
		must(err)
		if cfg.Tr == "ws" {
			u, _ := url.Parse(fmt.Sprintf("ws://127.0.0.1:%d/raw", r.lst.Port))
			r.cl = znet.NewWsClient("127.0.0.1", r.lst.Port, znet.WithUrl(u))
		} else {
			r.cl = znet.NewClient("127.0.0.1", r.lst.Port)
		}
		r.cl.SetOnConnStart(onStart)
		r.cl.SetOnConnStop(onStop)
		if cfg.HB > 0 {
			r.cl.StartHeartBeat(time.Duration(cfg.HB) * time.Millisecond)
		}
		r.cl.Start()
		r.p = r.lst.Accept(20 * time.Second)
		if r.p == nil {
			panic("harness: client does not connect")
		}
	} else {
		r.srv = lib.NewSrv()
		r.srv.S.SetOnConnStart(onStart)
		r.srv.S.SetOnConnStop(onStop)
		if cfg.HB > 0 {
			r.srv.S.StartHeartBeat(time.Duration(cfg.HB) * time.Millisecond)
		}
		r.srv.Start()
		r.p, err = r.srv.Dial(cfg.Tr)
		must(err)
	}
	lib.SetRecvBuf(r.p, 131072)
	if cfg.Tr == "kcp" {
		must(r.p.Write(lib.TLV(1, nil)))
	}
	select {
	case <-r.started:
	case <-time.After(30 * time.Second):
		panic("harness: connection does not start")
	}
	go r.reader()
	return r
}

func (r *sRun) outstanding() (run, undelivered bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, s := range r.state {
		if s == "run" {
			run = true
		}
		if s == "ok" && !r.got[k+1] {
			undelivered = true
		}
	}
	return
}

func (r *sRun) end(how string) {
	r.log(func() { r.closing = true }, "closing")
	switch how {
	case "stop", "sender":
		r.conn.Stop()
	case "stop2":
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); r.conn.Stop() }()
		}
		wg.Wait()
	case "peer":
		r.p.Close()
	case "abort":
		r.p.Abort()
	}
}

func (r *sRun) phase(o *sOp, after bool) {
	end := o.End
	if r.cfg.Tr == "kcp" && (end == "peer" || end == "abort") {
		end = "stop"
	}
	if end == "sender" && o.Peer == "stall" {
		end = "stop" // the sender would block before it stops the connection
	}
	mode := map[string]int32{"read": 0, "slow": 1, "pause": 2, "stall": 2, "": 0}[o.Peer]
	atomic.StoreInt32(&r.stalled, mode)
	var wg sync.WaitGroup
	for g, prog := range o.Progs {
		wg.Add(1)
		go func(g int, prog []sMsg) {
			defer wg.Done()
			for k, m := range prog {
				if m.D > 0 {
					time.Sleep(time.Duration(m.D) * time.Millisecond)
				}
				if end == "sender" && g == 0 && k == len(prog)/2 {
					r.end(end)
				}
				r.send(g+1, m)
			}
			if end == "sender" && g == 0 && len(prog) == 0 {
				r.end(end)
			}
		}(g, prog)
	}
	if o.Peer == "stall" || o.Peer == "pause" {
		// fill the pipe so that senders really block
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 40; k++ {
				sz := 60000
				if r.cfg.Tr == "kcp" {
					sz = 30000
				}
				if r.send(90, sMsg{P: "msg", Sz: sz}) == "err" {
					return
				}
				if o.Peer == "pause" && k > 12 {
					return
				}
			}
		}()
	}
	if o.Peer == "pause" {
		time.Sleep(25 * time.Millisecond)
		atomic.StoreInt32(&r.stalled, 0)
	}
	if end != "" && end != "sender" {
		time.Sleep(time.Duration(o.At) * time.Millisecond)
		r.end(end)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if end != "" {
		// the end takes effect whatever the peer does
		select {
		case <-done:
		case <-time.After(lib.Patience()):
			lib.Hang(r.t, "a send on an ended connection does not return")
		}
		lib.Settle(func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.ended })
		reg := false
		if r.srv != nil {
			reg = !lib.Settle(func() bool { _, err := r.srv.S.GetConnMgr().Get(r.conn.GetConnID()); return err != nil })
		}
		r.mu.Lock()
		hooks := r.hooks
		r.mu.Unlock()
		r.log(nil, "down", "hook", hooks, "reg", reg, "tr", r.transportClosed(end))
		return
	}
	if after {
		select {
		case <-done:
		case <-time.After(lib.Patience()):
			lib.Hang(r.t, "a send on an ended connection does not return")
		}
		return
	}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		lib.Hang(r.t, "a send on an open connection with a reading peer does not return")
	}
	atomic.StoreInt32(&r.stalled, 0)
	lib.Settle(func() bool { a, b := r.outstanding(); return !a && !b })
	r.log(nil, "settle")
}

// transportClosed: the peer (which may have stopped reading) sees the end of the stream.
func (r *sRun) transportClosed(how string) bool {
	if how == "peer" || how == "abort" {
		return true
	}
	if r.cfg.Tr == "kcp" {
		_, err := r.conn.GetConnection().Write([]byte{0})
		return err != nil
	}
	atomic.StoreInt32(&r.stalled, 0)
	return lib.Settle(func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.eof })
}

func (r *sRun) play(sc *SendScen) {
	for k := range sc.Ops {
		o := &sc.Ops[k]
		r.phase(o, o.Op == "after")
	}
	r.log(nil, "fin")
	r.t.Close()
	close(r.quit)
	r.p.Close()
	if r.srv != nil {
		r.srv.S.Stop()
	} else {
		r.cl.Stop()
		r.lst.Close()
	}
}
