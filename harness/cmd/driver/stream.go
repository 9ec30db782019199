package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"

	"verifharness/lib"
)

func sum(b []byte) int { return int(crc32.ChecksumIEEE(b) >> 1) }

// rawDecoder frames by a custom layout and leaves id and data alone.
type rawDecoder struct{ lf Layout }

func (d *rawDecoder) GetLengthField() *ziface.LengthField { f := d.lf.Field(); return &f }
func (d *rawDecoder) Intercept(c ziface.IChain) ziface.IcResp {
	return c.Proceed(c.Request())
}

type sItem struct {
	K  string `json:"k"`
	N  int    `json:"n"`
	ID []int  `json:"id"`
	S  int    `json:"s"`
}

type StreamScen struct {
	Codec string  `json:"codec"`
	LF    Layout  `json:"lf"`
	Items []sItem `json:"items"`
	Cut   string  `json:"cut"`
	Seed  int     `json:"seed"`
	Step  int     `json:"step"`
}

type StreamCfg struct {
	Tr   string `json:"tr"`
	Conf M      `json:"conf"`
	Par  int    `json:"par"`
}

type fnRouter struct {
	znet.BaseRouter
	f func(ziface.IRequest)
}

func (r *fnRouter) Handle(q ziface.IRequest) { r.f(q) }

func init() { families["stream"] = runStream }

type strConn struct {
	t      *lib.Trace
	n      int32
	closed int32
}

func runStream(in *Input) {
	var cfg StreamCfg
	must(json.Unmarshal(in.Cfg, &cfg))
	lib.Conf(cfg.Conf)
	zconf.GlobalObject.Mode = lib.ModeOf(cfg.Tr)
	srvs := map[string]*lib.Srv{}
	var mu sync.Mutex
	pp := &lib.Peers{}
	get := func(sc *StreamScen) *lib.Srv {
		mu.Lock()
		defer mu.Unlock()
		key := fmt.Sprint(sc.Codec, sc.LF)
		if s := srvs[key]; s != nil {
			return s
		}
		s := lib.NewSrv()
		switch sc.Codec {
		case "tlv":
		case "ltv":
			s.S.SetDecoder(zdecoder.NewLTV_Little_Decoder())
			s.S.SetPacket(zpack.Factory().NewPack(ziface.ZinxDataPackOld))
		case "htlv":
			s.S.SetDecoder(zdecoder.NewHTLVCRCDecoder())
		case "raw":
			s.S.SetDecoder(&rawDecoder{sc.LF})
		}
		codec := sc.Codec
		h := &fnRouter{f: func(q ziface.IRequest) {
			c, _ := pp.Of(q.GetConnection()).(*strConn)
			if c == nil {
				return
			}
			body := q.GetData()
			if codec == "htlv" {
				if r, ok := q.GetResponse().(zdecoder.HtlvCrcDecoder); ok {
					body = r.Body
				} else {
					body = nil
				}
			}
			n := len(body)
			if codec == "tlv" || codec == "ltv" {
				n = int(q.GetMessage().GetDataLen())
			}
			c.t.Log("hand", "id", u32(q.GetMsgID()), "len", n, "sum", sum(body))
			atomic.AddInt32(&c.n, 1)
		}}
		for _, id := range []uint32{0, 1, 7, 255, 128, 256, 65536, 0x01020304, 0xffffffff, 0x80000000} {
			s.S.AddRouter(id, h)
		}
		s.S.SetOnConnStart(func(c ziface.IConnection) { pp.Bind(c) })
		s.S.SetOnConnStop(func(c ziface.IConnection) {
			if x, _ := pp.Of(c).(*strConn); x != nil {
				atomic.StoreInt32(&x.closed, 1)
				x.t.Log("closed")
			}
		})
		s.Start()
		srvs[key] = s
		return s
	}
	sem := make(chan struct{}, cfg.Par)
	var wg sync.WaitGroup
	for k, raw := range in.Scen {
		var sc StreamScen
		must(json.Unmarshal(raw, &sc))
		wg.Add(1)
		sem <- struct{}{}
		srv := get(&sc)
		go func(k int) {
			defer func() { <-sem; wg.Done() }()
			oneStream(fmt.Sprintf("stream-%s-%d", cfg.Tr, k), cfg, &sc, srv, pp)
		}(k)
	}
	wg.Wait()
}

func oneStream(id string, cfg StreamCfg, sc *StreamScen, srv *lib.Srv, pp *lib.Peers) {
	t := lib.NewTrace(id, M{"tr": cfg.Tr, "codec": sc.Codec, "cut": sc.Cut})
	p, err := srv.Dial(cfg.Tr)
	must(err)
	defer p.Close()
	c := &strConn{t: t}
	pp.Put(p, c)
	type fr struct {
		k    string
		id   []int
		body []byte
		b    []byte
	}
	var frames []fr
	var stream []byte
	var bounds []int
	head := 8
	for _, it := range sc.Items {
		f := fr{k: it.K, id: it.ID}
		if sc.Codec == "raw" {
			head = sc.LF.end()
			f.b = sc.LF.Build(Item{it.K, it.N, it.S})
			f.id = []int{0, 0, 0, 0}
			switch it.K {
			case "good":
				if sc.LF.Strip > len(f.b) {
					f.k = "bad"
				} else {
					f.body = f.b[sc.LF.Strip:]
				}
			case "low", "neg":
				f.k = "bad"
			}
		} else {
			f.body = make([]byte, it.N)
			rng(it.S).Read(f.body)
			var b4 [4]byte
			for j := range b4 {
				b4[j] = byte(it.ID[j])
			}
			n := binary.BigEndian.Uint32(b4[:])
			switch sc.Codec {
			case "tlv":
				f.b = lib.TLV(n, f.body)
			case "ltv":
				f.b = lib.LTV(n, f.body)
			case "htlv":
				head = 3
				f.b = lib.HTLV(byte(it.S), byte(n), f.body)
				if it.K == "crc" {
					x := it.S % len(f.b)
					if x == 2 {
						x = len(f.b) - 1
					}
					f.b[x] ^= byte(1 << uint(it.S%8))
				}
			}
		}
		frames = append(frames, f)
		stream = append(stream, f.b...)
		if f.k == "bad" { // the server can tell as soon as the length field is there
			bounds = append(bounds, len(stream)-len(f.b)+sc.LF.end())
		} else {
			bounds = append(bounds, len(stream))
		}
	}
	mode := sc.Cut
	if len(stream) > 20000 && (mode == "one" || mode == "two") {
		mode = "rand"
	}
	chunks := cuts(stream, bounds, mode, sc.Seed, head)
	pos, next, want := 0, 0, 0
	dead := false
	settle := func() {
		lib.Settle(func() bool { return int(atomic.LoadInt32(&c.n)) >= want })
		t.Log("settle")
	}
	for _, ch := range chunks {
		// log the frames this chunk completes before it can be handled
		done := 0
		for next < len(frames) && bounds[next] <= pos+len(ch) {
			f := frames[next]
			t.Log("send", "k", f.k, "id", f.id, "len", len(f.body), "sum", sum(f.body))
			if f.k == "bad" || f.k == "cut" {
				dead = true
			}
			if f.k == "good" && !dead {
				want++
			}
			next++
			done++
		}
		pos += len(ch)
		write := p.Write
		if b, ok := p.(interface{ WriteBrief([]byte) error }); ok && dead {
			write = b.WriteBrief
		}
		if err := write(ch); err != nil {
			break // the server closed the connection (allowed only after an impossible frame: it logs that)
		}
		if sc.Step == 1 && done > 0 {
			settle()
		} else if cfg.Tr == "tcp" && len(chunks) < 300 {
			time.Sleep(time.Duration(rng(pos).Intn(300)) * time.Microsecond)
		}
	}
	settle()
	// duplicates or strays would come now
	time.Sleep(20 * time.Millisecond)
	t.Log("end")
	t.Close()
}
