package lib

import (
	"fmt"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
)

// RawListener accepts connections of a zinx client without using zinx.
type RawListener struct {
	Port int
	Path string
	ch   chan Peer
	l    net.Listener
	s    *http.Server
	mu   sync.Mutex
	// OnConn is called for every accepted connection if set (otherwise Accept returns it)
	OnConn func(p Peer)
}

// RawListen listens on the loopback interface for transport tr ("tcp","ws"); port 0 picks one.
func RawListen(tr string, port int, onConn func(p Peer)) (*RawListener, error) {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	r := &RawListener{Port: l.Addr().(*net.TCPAddr).Port, Path: "/raw", ch: make(chan Peer, 256), l: l, OnConn: onConn}
	give := func(p Peer) {
		if r.OnConn != nil {
			r.OnConn(p)
			return
		}
		r.ch <- p
	}
	if tr == "tcp" {
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				give(tcpPeer{c})
			}
		}()
		return r, nil
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	mux := http.NewServeMux()
	mux.HandleFunc("/", func(w http.ResponseWriter, q *http.Request) {
		c, err := up.Upgrade(w, q, nil)
		if err != nil {
			return
		}
		give(&wsPeer{c: c})
	})
	r.s = &http.Server{Handler: mux}
	go r.s.Serve(l)
	return r, nil
}

func (r *RawListener) Accept(d time.Duration) Peer {
	select {
	case p := <-r.ch:
		return p
	case <-time.After(d):
		return nil
	}
}

func (r *RawListener) Close() {
	if r.s != nil {
		r.s.Close()
	}
	r.l.Close()
}

// SetRecvBuf makes the receive buffer of a peer small.
func SetRecvBuf(p Peer, n int) {
	switch x := p.(type) {
	case tcpPeer:
		if t, ok := x.Conn.(*net.TCPConn); ok {
			t.SetReadBuffer(n)
		}
	case *wsPeer:
		if t, ok := x.c.UnderlyingConn().(*net.TCPConn); ok {
			t.SetReadBuffer(n)
		}
	}
}
