package main

import (
	"fmt"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"

	"verifharness/lib"
)

// host is what a server and a client have in common.
type host interface {
	AddRouter(msgID uint32, router ziface.IRouter)
	AddInterceptor(ziface.IInterceptor)
	SetDecoder(ziface.IDecoder)
	SetOnConnStart(func(ziface.IConnection))
	SetOnConnStop(func(ziface.IConnection))
}

// ep is a zinx endpoint with n connections to raw peers: one server, or one client per connection.
type ep struct {
	srv   *lib.Srv
	cls   []ziface.IClient
	lsts  []*lib.RawListener
	peers []lib.Peer // 1..n
	conns []ziface.IConnection
	m     sync.Map // connection -> number
	last  int64    // time of the last activity, for quiet
}

func newEP(side, tr string, n int, conf func(h host)) *ep { return newEPHook(side, tr, n, conf, nil) }

// onStart runs in the start hook
func newEPHook(side, tr string, n int, conf func(h host), onStart func(c int, conn ziface.IConnection)) *ep {
	e := &ep{peers: make([]lib.Peer, n+1), conns: make([]ziface.IConnection, n+1)}
	var wg sync.WaitGroup
	wg.Add(n)
	if side == "client" {
		for c := 1; c <= n; c++ {
			c := c
			l, err := lib.RawListen(tr, 0, nil)
			must(err)
			var cl ziface.IClient
			if tr == "ws" {
				u, _ := url.Parse(fmt.Sprintf("ws://127.0.0.1:%d/raw", l.Port))
				cl = znet.NewWsClient("127.0.0.1", l.Port, znet.WithUrl(u))
			} else {
				cl = znet.NewClient("127.0.0.1", l.Port)
			}
			cl.SetOnConnStart(func(conn ziface.IConnection) {
				e.conns[c] = conn
				e.m.Store(conn, c)
				if onStart != nil {
					onStart(c, conn)
				}
				wg.Done()
			})
			conf(cl)
			cl.Start()
			if e.peers[c] = l.Accept(20 * time.Second); e.peers[c] == nil {
				panic("harness: client does not connect")
			}
			e.cls = append(e.cls, cl)
			e.lsts = append(e.lsts, l)
		}
	} else {
		e.srv = lib.NewSrv()
		pp := &lib.Peers{}
		e.srv.S.SetOnConnStart(func(conn ziface.IConnection) {
			c, _ := pp.Bind(conn).(int)
			if c == 0 {
				return
			}
			e.conns[c] = conn
			e.m.Store(conn, c)
			if onStart != nil {
				onStart(c, conn)
			}
			wg.Done()
		})
		conf(e.srv.S)
		e.srv.Start()
		for c := 1; c <= n; c++ {
			p, err := e.srv.DialPut(tr, func(rem, loc string) { pp.PutAddr(rem, loc, c) })
			must(err)
			e.peers[c] = p
			if tr == "kcp" {
				must(p.Write(lib.TLV(idNobody, nil)))
			}
		}
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(30 * time.Second):
		panic("harness: connections do not start")
	}
	return e
}

const idNobody = 4000000000

func (e *ep) of(c ziface.IConnection) int {
	if c == nil {
		return 0
	}
	x, ok := e.m.Load(c)
	if !ok {
		return 0
	}
	return x.(int)
}

func (e *ep) touch() { atomic.StoreInt64(&e.last, time.Now().UnixNano()) }

// quiet waits until nothing has happened for d.
func (e *ep) quiet(d time.Duration) {
	e.touch()
	for time.Since(time.Unix(0, atomic.LoadInt64(&e.last))) < d {
		time.Sleep(d / 10)
	}
}

func (e *ep) close() {
	for _, p := range e.peers[1:] {
		p.Close()
	}
	if e.srv != nil {
		e.srv.S.Stop()
	}
	for k := range e.cls {
		e.cls[k].Stop()
		e.lsts[k].Close()
	}
}
