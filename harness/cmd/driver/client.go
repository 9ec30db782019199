package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"

	"verifharness/lib"
)

type cliStep struct {
	Op    string `json:"op"`
	Via   string `json:"via"`
	N     int    `json:"n"`
	Pause int    `json:"pause"`
	How   string `json:"how"`
}

type CliScen struct {
	Rounds []struct {
		Steps []cliStep `json:"steps"`
		Quiet int       `json:"quiet"`
	} `json:"rounds"`
}

type CliCfg struct {
	Tr  string `json:"tr"`
	HB  int    `json:"hb"` // heartbeat interval in ms, 0: none
	Par int    `json:"par"`
}

func init() { families["client"] = playClients }

var cliCert tls.Certificate

func playClients(in *Input) {
	var cfg CliCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(M{"HeartbeatMax": 120})
	if cfg.Tr == "tls" {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		must(err)
		cliCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	}
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	for k, raw := range in.Scen {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			playClient(fmt.Sprintf("client-%s-%d", cfg.Tr, k), &cfg, raw)
		}()
	}
	wg.Wait()
}

// gate is the server's side: a listener that may hold back its answer.
type cliGate struct {
	tr   string
	port int
	mu   sync.Mutex
	l    net.Listener
	ref  bool
	resv int // a socket that holds the port, without listening
	hold chan bool // non-nil: new connections wait for what it says
	held []net.Conn
	wsch chan net.Conn
	on   func(p lib.Peer)
	srv  *http.Server
}

type chanListener struct {
	ch   chan net.Conn
	addr net.Addr
	end  chan struct{}
	once sync.Once
}

func (c *chanListener) Accept() (net.Conn, error) {
	select {
	case x := <-c.ch:
		return x, nil
	case <-c.end:
		return nil, net.ErrClosed
	}
}
func (c *chanListener) Close() error   { c.once.Do(func() { close(c.end) }); return nil }
func (c *chanListener) Addr() net.Addr { return c.addr }

const soReusePort = 15

// reserve binds a port without listening on it: connecting to it is refused, and no other process gets it.
func reserve(port int) int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, soReusePort, 1)
	if syscall.Bind(fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}) != nil {
		syscall.Close(fd)
		return -1
	}
	return fd
}

func newCliGate(tr string, on func(p lib.Peer)) *cliGate {
	g := &cliGate{tr: tr, on: on, resv: -1}
	for g.resv < 0 {
		g.port = lib.FreePort()
		g.resv = reserve(g.port)
	}
	if tr == "ws" {
		g.wsch = make(chan net.Conn, 64)
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		g.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			c, err := up.Upgrade(w, q, nil)
			if err == nil {
				on(lib.WSPeer(c))
			}
		})}
		go g.srv.Serve(&chanListener{ch: g.wsch, addr: &net.TCPAddr{}, end: make(chan struct{})})
	}
	g.open()
	return g
}

func (g *cliGate) open() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.ref = false
	if g.l != nil {
		return
	}
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, soReusePort, 1) })
	}}
	l, err := lc.Listen(context.Background(), "tcp", fmt.Sprintf("127.0.0.1:%d", g.port))
	must(err)
	g.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			g.mu.Lock()
			h, ref := g.hold, g.ref
			g.mu.Unlock()
			if ref {
				c.Close()
				continue
			}
			go func() {
				if h != nil && !<-h {
					c.Close()
					return
				}
				switch g.tr {
				case "ws":
					g.wsch <- c
				case "tls":
					t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cliCert}})
					if t.Handshake() != nil {
						t.Close()
						return
					}
					g.on(lib.NetPeer(t))
				default:
					g.on(lib.NetPeer(c))
				}
			}()
		}
	}()
}

func (g *cliGate) shut() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.ref = true
	if g.l != nil {
		g.l.Close()
		g.l = nil
	}
}

func (g *cliGate) holding(on bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if on && g.hold == nil {
		g.hold = make(chan bool)
	}
	if !on {
		g.hold = nil
	}
}

// answer lets the held connections go on, or ends them.
func (g *cliGate) answer(yes bool) {
	g.mu.Lock()
	h := g.hold
	g.hold = nil
	g.mu.Unlock()
	if h == nil {
		return
	}
	if yes {
		go func() {
			for {
				select {
				case h <- true:
				case <-time.After(10 * time.Second):
					return
				}
			}
		}()
	} else {
		close(h)
	}
}

type cliConn struct {
	k             int
	p             lib.Peer
	pmu           sync.Mutex // orders what the peer does
	ended         bool       // by the peer
	up, eof       bool
	aborted       bool
	hb, sb        int
	may           bool
	must          bool // must end
	lossy, strict bool
	sent          int
	got           int
}

type cliRun struct {
	t     *lib.Trace
	cfg   *CliCfg
	g     *cliGate
	cl    ziface.IClient
	mu    sync.Mutex
	port  map[string]*cliConn
	cs    []*cliConn
	mode  string
	pend  int // attempts that must be resolved
	busy  bool
	dead  bool // stray attempts may show up
	cur   *cliConn
	stops int
	calls int
	natt  int
	errs  int
	begun bool
	slow  int
	sil   bool
	hooks map[string][]cliStep
	steps []*cliStep // run by handlers
	mute  atomic.Bool
	last  int64
}

// log must be called with mu held
func (r *cliRun) log(op string, kv ...any) {
	atomic.StoreInt64(&r.last, time.Now().UnixNano())
	r.t.Log(op, kv...)
}

func (r *cliRun) conn(port string, fresh func(c *cliConn) bool) *cliConn {
	c := r.port[port]
	if c == nil || !fresh(c) {
		c = &cliConn{k: len(r.cs) + 1, strict: !r.dead, must: false, may: r.dead, lossy: r.dead}
		r.port[port] = c
		r.cs = append(r.cs, c)
		if r.pend > 0 {
			r.pend--
		}
	}
	return c
}

func (r *cliRun) onPeer(p lib.Peer) {
	r.mu.Lock()
	c := r.conn(lib.PortOf(p.RemoteAddr()), func(c *cliConn) bool { return !c.up })
	c.up, c.p = true, p
	r.log("up", "k", c.k)
	r.mu.Unlock()
	b := make([]byte, 4096)
	for {
		if _, err := p.Read(b); err != nil {
			break
		}
	}
	r.mu.Lock()
	c.eof = true
	r.log("eof", "k", c.k)
	r.mu.Unlock()
	p.Close()
}

func (r *cliRun) take(q string) []cliStep {
	s := r.hooks[q]
	r.hooks[q] = nil
	return s
}

func (r *cliRun) onStart(conn ziface.IConnection) {
	r.mu.Lock()
	c := r.conn(lib.PortOf(conn.LocalAddrString()), func(c *cliConn) bool { return c.hb == 0 })
	c.hb = 1
	if !r.dead && !c.must {
		r.cur = c
	}
	r.log("startb", "k", c.k)
	todo, slow := r.take("start"), r.slow
	r.mu.Unlock()
	for k := range todo {
		r.do(&todo[k])
	}
	time.Sleep(time.Duration(slow) * time.Millisecond)
	r.mu.Lock()
	c.hb = 2
	r.log("starte", "k", c.k)
	r.mu.Unlock()
}

func (r *cliRun) onStop(conn ziface.IConnection) {
	r.mu.Lock()
	c := r.conn(lib.PortOf(conn.LocalAddrString()), func(c *cliConn) bool { return c.sb == 0 })
	c.sb = 1
	if r.cur == c {
		r.busy = false
	}
	r.log("stopb", "k", c.k)
	todo := r.take("end")
	r.mu.Unlock()
	for k := range todo {
		r.do(&todo[k])
	}
	r.mu.Lock()
	c.sb = 2
	r.log("stope", "k", c.k)
	r.mu.Unlock()
}

func (r *cliRun) onMsg(q ziface.IRequest) {
	d := q.GetData()
	if len(d) < 12 {
		r.t.Log("got", "k", 0, "j", 0)
		return
	}
	k, j, n := int(binary.BigEndian.Uint32(d)), int(binary.BigEndian.Uint32(d[4:])), int(binary.BigEndian.Uint32(d[8:]))
	r.mu.Lock()
	if k >= 1 && k <= len(r.cs) {
		r.cs[k-1].got++
	}
	r.log("got", "k", k, "j", j)
	var s *cliStep
	if n > 0 {
		s = r.steps[n-1]
	}
	r.mu.Unlock()
	if s != nil {
		r.do(s)
	}
}

// send sends a message on c (with a step for its handler); false: the peer has ended the connection.
func (r *cliRun) send(c *cliConn, step int) bool {
	c.pmu.Lock()
	defer c.pmu.Unlock()
	r.mu.Lock()
	if c.ended || !c.up {
		r.mu.Unlock()
		return false
	}
	c.sent++
	r.log("send", "k", c.k)
	b := make([]byte, 12)
	binary.BigEndian.PutUint32(b, uint32(c.k))
	binary.BigEndian.PutUint32(b[4:], uint32(c.sent))
	binary.BigEndian.PutUint32(b[8:], uint32(step))
	r.mu.Unlock()
	c.p.Write(lib.TLV(5, b))
	return true
}

func (r *cliRun) alive() *cliConn {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := len(r.cs) - 1; k >= 0; k-- {
		if c := r.cs[k]; c.up && !c.eof && !c.ended && !c.must {
			return c
		}
	}
	return nil
}

func (r *cliRun) do(s *cliStep) {
	if s.Pause > 0 {
		time.Sleep(time.Duration(s.Pause*s.Pause) * 100 * time.Microsecond)
	}
	switch s.Op {
	case "att":
		lib.WaitFor(20*time.Millisecond, func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			return !r.busy && r.mode != "busy"
		})
		r.mu.Lock()
		if r.busy || r.mode == "busy" {
			r.mu.Unlock()
			return
		}
		r.busy = true
		mode := r.mode
		if r.stops > 0 || (r.sil && mode == "ref") {
			r.dead = true
		}
		r.calls++
		r.natt++
		n := r.natt
		if !(r.sil && mode == "ref") {
			r.pend++
		}
		again := r.begun
		r.begun = true
		r.log("att", "n", n, "mode", mode)
		r.mu.Unlock()
		if again && s.N == 0 {
			r.cl.Restart()
		} else {
			r.cl.Start()
		}
		r.mu.Lock()
		r.calls--
		r.log("attd", "n", n)
		r.mu.Unlock()
	case "stop":
		r.mu.Lock()
		if r.pend > 0 || r.calls > 0 {
			r.dead = true
		}
		natt, alone := r.natt, r.calls == 0
		r.pend, r.sil = 0, true
		r.stops++
		for _, c := range r.cs {
			c.must, c.lossy = true, true
			c.strict = c.strict && c.hb > 0
		}
		r.log("stop")
		r.mu.Unlock()
		t0 := time.Now()
		r.cl.Stop()
		ms := int(time.Since(t0) / time.Millisecond)
		r.mu.Lock()
		r.stops--
		if alone && r.natt == natt { // a start under way may outlast it
			r.busy, r.cur = false, nil
		}
		r.log("stopped", "ms", ms)
		r.mu.Unlock()
	case "msg":
		if c := r.alive(); c != nil {
			for n := 0; n < s.N; n++ {
				if !r.send(c, 0) {
					break
				}
			}
		}
	case "pend":
		if c := r.alive(); c != nil {
			c.pmu.Lock()
			how := s.How
			if r.cfg.HB > 0 {
				how = "abort" // data under way from the client makes the end of the connection abrupt
			}
			r.mu.Lock()
			if c.ended {
				r.mu.Unlock()
				c.pmu.Unlock()
				return
			}
			c.ended, c.must = true, true
			c.aborted = how == "abort"
			c.lossy = c.lossy || c.aborted
			r.log("pend", "k", c.k, "how", how)
			r.mu.Unlock()
			if s.How == "abort" {
				c.p.Abort()
			} else {
				c.p.Close()
			}
			c.pmu.Unlock()
		}
	case "slow":
		r.mu.Lock()
		r.slow = s.N
		r.mu.Unlock()
	case "mode":
		if s.How == "mute" {
			r.mute.Store(true)
			return
		}
		r.setMode(s.How, false)
	}
}

func (r *cliRun) setMode(m string, force bool) {
	if m == "hold" && r.cfg.Tr == "tcp" {
		m = "acc"
	}
	r.mu.Lock()
	if r.dead && !force {
		r.mu.Unlock()
		return
	}
	if r.mode == "hold" && m != "hold" {
		// the attempts held are answered
		if m == "acc" {
			r.log("release")
		} else {
			r.log("break")
			if r.sil {
				r.pend = 0
			}
		}
		r.mode = m
		r.mu.Unlock()
		if m == "ref" {
			r.g.shut()
		}
		r.g.answer(m == "acc")
		return
	}
	r.mu.Unlock()
	ok := lib.WaitFor(50*time.Millisecond, func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.pend > 0 || r.mode == "busy" {
			return false
		}
		for _, c := range r.cs {
			if !c.up {
				return false
			}
		}
		if r.mode == m {
			return true
		}
		r.mode = "busy"
		return true
	})
	r.mu.Lock()
	if !ok || r.mode != "busy" {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	switch m {
	case "ref":
		r.g.shut()
	case "acc":
		r.g.holding(false)
		r.g.open()
	case "hold":
		r.g.holding(true)
		r.g.open()
	}
	r.mu.Lock()
	r.mode = m
	r.mu.Unlock()
}

func (r *cliRun) readErrs() {
	for {
		for r.mute.Load() {
			time.Sleep(time.Millisecond)
		}
		err, ok := <-r.cl.GetErrChan()
		if !ok {
			return
		}
		r.mu.Lock()
		if err == nil {
			r.log("nilerror")
		}
		if r.pend > 0 {
			r.pend--
		}
		if !r.dead {
			r.busy = false
		}
		r.errs++
		for _, c := range r.cs {
			if c.aborted && c.hb == 0 {
				// the connection was reset so early that connecting failed
				c.hb, c.sb = 2, 2
				r.errs--
				break
			}
		}
		r.log("err")
		r.mu.Unlock()
	}
}

// settled: everything is as it must be, or - it is not known which of the connections must end - nothing happens any more
func (r *cliRun) settled() bool {
	still := time.Now().UnixNano() - atomic.LoadInt64(&r.last)
	if r.stops > 0 || r.calls > 0 || still < int64(4*time.Millisecond) {
		return false
	}
	good, live, final := r.pend == 0 || r.mode == "hold", 0, true
	for _, c := range r.cs {
		over := c.hb == c.sb && (c.hb == 2 || c.aborted && r.sil && still > int64(time.Second)) && (!c.up || c.eof)
		alive := !c.eof && c.hb == 2 && c.sb == 0
		if alive {
			live++
		}
		final = final && (over || alive)
		if (c.must && !over) || ((alive || !c.lossy) && c.got < c.sent) {
			good = false
		}
	}
	if r.dead {
		return final && (still > int64(1500*time.Millisecond) || still > int64(150*time.Millisecond) && r.natt == len(r.cs)+r.errs)
	}
	good = good && live <= 1 && final
	return good
}

func (r *cliRun) quiet() {
	r.mute.Store(false)
	if c := r.alive(); c != nil {
		r.send(c, 0) // a connection that should be alive is
	}
	ok := lib.Settle(func() bool {
		r.mu.Lock()
		if r.settled() {
			return true
		}
		r.mu.Unlock()
		return false
	})
	if !ok {
		r.mu.Lock()
		fmt.Fprintln(os.Stderr, "slow to settle:", r.t.ID, r.mode, r.pend, r.dead, r.stops, r.calls)
		for _, c := range r.cs {
			fmt.Fprintf(os.Stderr, "  k %d ended %v up %v eof %v hb %d sb %d must %v lossy %v sent %d got %d\n", c.k, c.ended, c.up, c.eof, c.hb, c.sb, c.must, c.lossy, c.sent, c.got)
		}
	}
	r.log("quiet")
	if r.dead && r.mode != "hold" && r.mode != "busy" {
		// every attempt is over, what is left is known again
		r.dead, r.busy, r.cur, r.pend = false, false, nil, 0
		for _, c := range r.cs {
			if !c.eof && c.hb == 2 && c.sb == 0 {
				r.busy, r.cur = true, c
			}
		}
	}
	r.mu.Unlock()
}

func playClient(id string, cfg *CliCfg, raw json.RawMessage) {
	sc := &CliScen{}
	must(json.Unmarshal(raw, sc))
	r := &cliRun{cfg: cfg, port: map[string]*cliConn{}, mode: "acc", hooks: map[string][]cliStep{}}
	r.t = lib.NewTrace(id, M{"tr": cfg.Tr, "hb": cfg.HB})
	r.g = newCliGate(cfg.Tr, r.onPeer)
	switch cfg.Tr {
	case "ws":
		u, _ := url.Parse(fmt.Sprintf("ws://127.0.0.1:%d/x", r.g.port))
		r.cl = znet.NewWsClient("127.0.0.1", r.g.port, znet.WithUrl(u))
	case "tls":
		r.cl = znet.NewTLSClient("127.0.0.1", r.g.port)
	default:
		r.cl = znet.NewClient("127.0.0.1", r.g.port)
	}
	nop := func(ziface.IRequest) {}
	r.cl.AddRouter(5, &stageRouter{nop, r.onMsg, nop})
	r.cl.SetOnConnStart(r.onStart)
	r.cl.SetOnConnStop(r.onStop)
	if cfg.HB > 0 {
		r.cl.StartHeartBeat(time.Duration(cfg.HB) * time.Millisecond)
	}
	go r.readErrs()
	lib.Guard(r.t, 60*time.Second, "client", func() {
		for _, rd := range sc.Rounds {
			var wg sync.WaitGroup
			var ready, all int32
			all = int32(len(rd.Steps))
			for k := range rd.Steps {
				s := &rd.Steps[k]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < all; {
						runtime.Gosched()
					}
					switch s.Via {
					case "msg":
						c := r.alive()
						if c == nil {
							break
						}
						x := *s
						x.Via = "go"
						r.mu.Lock()
						r.steps = append(r.steps, &x)
						n := len(r.steps)
						r.mu.Unlock()
						r.send(c, n)
						return
					case "start", "end":
						x := *s
						x.Via = "go"
						r.mu.Lock()
						r.hooks[s.Via] = append(r.hooks[s.Via], x)
						r.mu.Unlock()
						return
					}
					r.do(s)
				}()
			}
			wg.Wait()
			if rd.Quiet == 1 {
				r.quiet()
			}
		}
		r.quiet()
		r.do(&cliStep{Op: "stop"})
		r.setMode("ref", true)
		r.quiet()
	})
	r.t.Close()
	r.g.shut()
	r.g.answer(false)
	syscall.Close(r.g.resv)
	if r.g.srv != nil {
		r.g.srv.Close()
	}
	for _, c := range r.cs {
		if c.p != nil {
			c.p.Close()
		}
	}
}
