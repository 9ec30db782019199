package lib

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

type nolog struct{}

func (nolog) InfoF(string, ...interface{})                    {}
func (nolog) ErrorF(string, ...interface{})                   {}
func (nolog) DebugF(string, ...interface{})                   {}
func (nolog) InfoFX(context.Context, string, ...interface{})  {}
func (nolog) ErrorFX(context.Context, string, ...interface{}) {}
func (nolog) DebugFX(context.Context, string, ...interface{}) {}

// Quiet silences the framework's own logging.
func Quiet() {
	zlog.SetLogger(nolog{})
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
}

// Conf applies overrides (JSON field names of zconf.Config) to the global configuration.
func Conf(over M) {
	zconf.GlobalObject.Host = "127.0.0.1"
	zconf.GlobalObject.Name = "v"
	b, _ := json.Marshal(over)
	if err := json.Unmarshal(b, zconf.GlobalObject); err != nil {
		panic(err)
	}
}

var (
	portMu   sync.Mutex
	claims   = map[int]net.Listener{}
	nextPort = 10000 + os.Getpid()*211%21000
)

// FreePort: below the range from which the system draws the ports of outgoing connections, so that nothing takes it
// between this probe and the server's use of it; each process starts elsewhere.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		p := nextPort
		if nextPort++; nextPort > 31900 {
			nextPort = 10000
		}
		if claims[p] == nil {
			// an abstract socket claims the port for this process
			c, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", p))
			if err != nil {
				continue
			}
			claims[p] = c
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		u.Close()
		return p
	}
}

var wsN int32

// Srv is a real zinx server on the loopback interface.
type Srv struct {
	S            ziface.IServer
	TCP, WS, KCP int
	Path         string
}

// NewSrv creates a server (not started); Mode is taken from the configuration ("tcp","websocket","kcp","" both).
func NewSrv() *Srv {
	s := &Srv{TCP: FreePort(), WS: FreePort(), KCP: FreePort(), Path: fmt.Sprintf("/w%d", atomic.AddInt32(&wsN, 1))}
	g := zconf.GlobalObject
	g.TCPPort, g.WsPort, g.KcpPort, g.WsPath = s.TCP, s.WS, s.KCP, s.Path
	s.S = znet.NewServer()
	return s
}

func (s *Srv) listening() bool {
	mode := zconf.GlobalObject.Mode
	tcp := func(p int) bool {
		// a probe must not create a server connection, so look at the port instead of dialling it
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			return true
		}
		l.Close()
		return false
	}
	udp := func(p int) bool {
		l, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			return true
		}
		l.Close()
		return false
	}
	switch mode {
	case zconf.ServerModeTcp:
		return tcp(s.TCP)
	case zconf.ServerModeWebsocket:
		return tcp(s.WS)
	case zconf.ServerModeKcp:
		return udp(s.KCP)
	}
	return tcp(s.TCP) && tcp(s.WS)
}

// Start starts the server and waits until it listens.
func (s *Srv) Start() {
	s.S.Start()
	// give the listener goroutines a chance before probing (a probe may collide with the bind)
	time.Sleep(30 * time.Millisecond)
	if !WaitFor(10*time.Second, s.listeningProc) {
		fmt.Fprintln(os.Stderr, "harness: server does not listen")
		os.Exit(4)
	}
}

// listeningProc looks the ports up in /proc/net, which cannot disturb the server.
func (s *Srv) listeningProc() bool {
	has := func(file string, port int, st string) bool {
		b, err := os.ReadFile(file)
		if err != nil {
			return false
		}
		return containsPort(string(b), port, st)
	}
	tcp := func(p int) bool {
		return has("/proc/net/tcp", p, "0A") || has("/proc/net/tcp6", p, "0A")
	}
	udp := func(p int) bool { return has("/proc/net/udp", p, "07") || has("/proc/net/udp6", p, "07") }
	switch zconf.GlobalObject.Mode {
	case zconf.ServerModeTcp:
		return tcp(s.TCP)
	case zconf.ServerModeWebsocket:
		return tcp(s.WS)
	case zconf.ServerModeKcp:
		return udp(s.KCP)
	}
	return tcp(s.TCP) && tcp(s.WS)
}

func containsPort(txt string, port int, st string) bool {
	want := fmt.Sprintf(":%04X", port)
	for _, line := range splitLines(txt) {
		f := fields(line)
		if len(f) > 3 && len(f[1]) > 5 && f[1][len(f[1])-5:] == want && f[3] == st {
			return true
		}
	}
	return false
}

func splitLines(s string) []string {
	var out []string
	i := 0
	for j := 0; j <= len(s); j++ {
		if j == len(s) || s[j] == '\n' {
			out = append(out, s[i:j])
			i = j + 1
		}
	}
	return out
}

func fields(s string) []string {
	var out []string
	cur := ""
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += string(s[i])
		}
	}
	return out
}

// Peer is a raw client that does not use zinx.
type Peer interface {
	Write(b []byte) error       // bytes of the stream (for websocket: one binary message)
	Read(b []byte) (int, error) // bytes of the stream
	SetReadDeadline(time.Time) error
	Close() // orderly close as far as the transport has one
	Abort() // abrupt close
	LocalAddr() string
	RemoteAddr() string
}

type tcpPeer struct{ net.Conn }

func (p tcpPeer) Write(b []byte) error { _, err := p.Conn.Write(b); return err }
func (p tcpPeer) Close()               { p.Conn.Close() }
func (p tcpPeer) Abort() {
	if t, ok := p.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	p.Conn.Close()
}
func (p tcpPeer) LocalAddr() string  { return p.Conn.LocalAddr().String() }
func (p tcpPeer) RemoteAddr() string { return p.Conn.RemoteAddr().String() }

// HalfClose closes the sending direction only.
func (p tcpPeer) HalfClose() { p.Conn.(*net.TCPConn).CloseWrite() }

type wsPeer struct {
	c   *websocket.Conn
	buf []byte
	mu  sync.Mutex
}

func (p *wsPeer) Write(b []byte) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.c.WriteMessage(websocket.BinaryMessage, b)
}
func (p *wsPeer) Read(b []byte) (int, error) {
	for len(p.buf) == 0 {
		_, m, err := p.c.ReadMessage()
		if err != nil {
			return 0, err
		}
		p.buf = m
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}
func (p *wsPeer) SetReadDeadline(t time.Time) error { return p.c.SetReadDeadline(t) }
func (p *wsPeer) Close() {
	p.c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
	p.c.Close()
}
func (p *wsPeer) Abort()              { p.c.Close() }
func (p *wsPeer) LocalAddr() string   { return p.c.LocalAddr().String() }
func (p *wsPeer) RemoteAddr() string  { return p.c.RemoteAddr().String() }
func (p *wsPeer) WS() *websocket.Conn { return p.c }

// mutable is a socket that can be made to send nothing any more.
type mutable struct {
	net.PacketConn
	muted int32
}

func (m *mutable) WriteTo(b []byte, a net.Addr) (int, error) {
	if atomic.LoadInt32(&m.muted) == 1 {
		return len(b), nil
	}
	return m.PacketConn.WriteTo(b, a)
}

var kcpSockets sync.Map

// MuteKCP silences the KCP peer of a connection that is about to be ended (KCP has no closing handshake: whatever the peer
// sends afterwards would make the server see one more connection).
func MuteKCP(c ziface.IConnection) {
	if la := c.LocalAddr(); la == nil || la.Network() != "udp" {
		return
	}
	if m, ok := kcpSockets.Load(PortOf(c.RemoteAddrString())); ok {
		atomic.StoreInt32(&m.(*mutable).muted, 1)
	}
}

type kcpPeer struct{ *kcp.UDPSession }

func (p kcpPeer) Write(b []byte) error {
	// nobody tells a KCP peer that the other side has closed: do not wait for ever
	p.UDPSession.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := p.UDPSession.Write(b)
	return err
}
func (p kcpPeer) WriteBrief(b []byte) error {
	p.UDPSession.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
	_, err := p.UDPSession.Write(b)
	return err
}
func (p kcpPeer) Close()             { p.UDPSession.Close() }
func (p kcpPeer) Abort()             { p.UDPSession.Close() }
func (p kcpPeer) LocalAddr() string  { return p.UDPSession.LocalAddr().String() }
func (p kcpPeer) RemoteAddr() string { return p.UDPSession.RemoteAddr().String() }

var ErrRefused = errors.New("refused")

// Dial connects a raw peer over transport tr ("tcp","ws","kcp").  A KCP connection exists for the server only
// once something was written on it.
func (s *Srv) Dial(tr string) (Peer, error) { return s.DialPut(tr, nil) }

// DialPut is Dial; put is called with the address pair (remote, local) as soon as it is known, for websocket before
// the handshake.
func (s *Srv) DialPut(tr string, put func(remote, local string)) (Peer, error) {
	p, err := s.dial(tr, put)
	if err == nil && tr != "ws" && put != nil {
		put(p.RemoteAddr(), p.LocalAddr())
	}
	return p, err
}

func (s *Srv) dial(tr string, put func(remote, local string)) (Peer, error) {
	switch tr {
	case "tcp":
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.TCP), 10*time.Second)
		if err != nil {
			return nil, err
		}
		return tcpPeer{c}, nil
	case "ws":
		u := url.URL{Scheme: "ws", Host: fmt.Sprintf("127.0.0.1:%d", s.WS), Path: s.Path}
		d := websocket.Dialer{HandshakeTimeout: 20 * time.Second}
		if put != nil {
			d.NetDial = func(network, addr string) (net.Conn, error) {
				c, err := net.DialTimeout(network, addr, 10*time.Second)
				if err == nil {
					put(c.RemoteAddr().String(), c.LocalAddr().String())
				}
				return c, err
			}
		}
		c, _, err := d.Dial(u.String(), nil)
		if err != nil {
			if errors.Is(err, websocket.ErrBadHandshake) {
				return nil, ErrRefused
			}
			return nil, err
		}
		return &wsPeer{c: c}, nil
	case "kcp":
		u, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		m := &mutable{PacketConn: u}
		c, err := kcp.NewConn(fmt.Sprintf("127.0.0.1:%d", s.KCP), nil, 0, 0, m)
		if err != nil {
			u.Close()
			return nil, err
		}
		kcpSockets.Store(PortOf(u.LocalAddr().String()), m)
		c.SetStreamMode(true)
		c.SetNoDelay(1, 10, 2, 1)
		c.SetWindowSize(256, 256)
		c.SetACKNoDelay(true)
		return kcpPeer{c}, nil
	}
	panic("transport " + tr)
}

// ModeOf maps the transport to the server mode.
func ModeOf(tr string) string {
	switch tr {
	case "tcp":
		return zconf.ServerModeTcp
	case "ws":
		return zconf.ServerModeWebsocket
	case "kcp":
		return zconf.ServerModeKcp
	}
	return ""
}

// Peers connects the two ends of a connection: the scenario puts what belongs to a peer under the peer's
// address pair, the start hook of the server's connection takes it (once), later callbacks find it by connection.
type Peers struct {
	pend sync.Map
	m    sync.Map
	used sync.Map
	// OnGhost, if set, is told of KCP connections that only exist because packets of a peer whose connection has
	// already ended arrived late (KCP has no closing handshake; any packet creates a session).
	OnGhost func()
}

func PortOf(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

func (p *Peers) Put(peer Peer, x any) {
	p.pend.Store(PortOf(peer.RemoteAddr())+"<"+PortOf(peer.LocalAddr()), x)
}

func (p *Peers) PutAddr(remote, local string, x any) {
	p.pend.Store(PortOf(remote)+"<"+PortOf(local), x)
}

// Bind is for the start hook.
func (p *Peers) Bind(c ziface.IConnection) any {
	key := PortOf(c.LocalAddrString()) + "<" + PortOf(c.RemoteAddrString())
	var x any
	if la := c.LocalAddr(); p.OnGhost != nil && la != nil && la.Network() == "udp" {
		_, pending := p.pend.Load(key)
		if _, used := p.used.Load(key); used && !pending {
			p.OnGhost()
			go c.Stop()
			return nil
		}
		p.used.Store(key, true)
	}
	if WaitFor(10*time.Second, func() bool {
		v, ok := p.pend.LoadAndDelete(key)
		x = v
		return ok
	}) {
		p.m.Store(c, x)
		return x
	}
	return nil
}

func (p *Peers) Of(c ziface.IConnection) any {
	x, _ := p.m.Load(c)
	return x
}

// NetPeer makes a peer of a network connection, WSPeer of a websocket.
func NetPeer(c net.Conn) Peer       { return tcpPeer{c} }
func WSPeer(c *websocket.Conn) Peer { return &wsPeer{c: c} }
