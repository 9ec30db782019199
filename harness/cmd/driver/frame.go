package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"

	"verifharness/lib"
)

type Layout struct {
	Off   int `json:"off"`
	Len   int `json:"len"`
	Adj   int `json:"adj"`
	Strip int `json:"strip"`
	Max   int `json:"max"`
	Le    int `json:"le"`
}

const noMax = 1 << 30

func (l Layout) Field() ziface.LengthField {
	f := ziface.LengthField{MaxFrameLength: uint64(l.Max), LengthFieldOffset: l.Off, LengthFieldLength: l.Len,
		LengthAdjustment: l.Adj, InitialBytesToStrip: l.Strip, Order: binary.BigEndian}
	if l.Max >= noMax {
		f.MaxFrameLength = 1 << 40
	}
	if l.Le == 1 {
		f.Order = binary.LittleEndian
	}
	return f
}

func (l Layout) end() int { return l.Off + l.Len }

// putLen writes the length field.
func (l Layout) putLen(b []byte, v uint64) {
	for i := 0; i < l.Len; i++ {
		x := byte(v >> (8 * uint(i)))
		if l.Le == 1 {
			b[l.Off+i] = x
		} else {
			b[l.Off+l.Len-1-i] = x
		}
	}
}

type Item struct {
	K string `json:"k"`
	N int    `json:"n"`
	S int    `json:"s"`
}

// Build makes the bytes of one item.
func (l Layout) Build(it Item) []byte {
	total := it.N
	v := uint64(it.N - l.Adj - l.end())
	switch it.K {
	case "low":
		total, v = l.end()+it.S%4, uint64(it.N)
	case "neg":
		total, v = l.end()+it.S%4, uint64(1<<63)+uint64(it.N)
	case "cut":
		total = l.end() + it.S%50
	}
	b := lib.Payload(it.S, total)
	r := rng(it.S)
	r.Read(b)
	l.putLen(b, v)
	return b
}

// cuts splits the stream; bounds are the frame boundaries.
func cuts(stream []byte, bounds []int, mode string, seed, head int) [][]byte {
	var at []int
	n := len(stream)
	r := rng(seed)
	add := func(x int) {
		if x > 0 && x < n {
			at = append(at, x)
		}
	}
	switch mode {
	case "all":
	case "one":
		if n > 600 { // single bytes around the boundaries, larger chunks in between
			for _, b := range bounds {
				for x := b - 3; x <= b+head+3; x++ {
					add(x)
				}
			}
		} else {
			for x := 1; x < n; x++ {
				add(x)
			}
		}
	case "frame":
		for _, b := range bounds {
			add(b)
		}
	case "head":
		for _, b := range bounds {
			add(b + head)
		}
	case "tail1":
		for _, b := range bounds {
			add(b - 1)
		}
	case "two":
		for x := 2; x < n; x += 2 + r.Intn(3)*r.Intn(20) {
			add(x)
		}
	case "big":
		for x := 0; x < n; x += 1024 {
			add(x)
		}
	default:
		k := 1 + r.Intn(6+n/40)
		for j := 0; j < k; j++ {
			add(r.Intn(n + 1))
		}
	}
	seen := map[int]bool{}
	var out [][]byte
	prev := 0
	for x := 0; x <= n; x++ {
		seen[x] = false
	}
	for _, a := range at {
		seen[a] = true
	}
	for x := 1; x < n; x++ {
		if seen[x] {
			out = append(out, stream[prev:x])
			prev = x
		}
	}
	out = append(out, stream[prev:])
	return out
}

type FrameScen struct {
	LF    Layout `json:"lf"`
	Items []Item `json:"items"`
	Cut   string `json:"cut"`
	Seed  int    `json:"seed"`
}

func init() {
	families["frame"] = runFrame
	families["codec"] = runCodec
}

// family "frame": the frame decoder itself, byte by byte.
func runFrame(in *Input) {
	for k, raw := range in.Scen {
		var sc FrameScen
		must(json.Unmarshal(raw, &sc))
		b, _ := json.Marshal(sc.LF)
		var cfg M
		json.Unmarshal(b, &cfg)
		t := lib.NewTrace(fmt.Sprintf("frame-%d", k), cfg)
		var stream []byte
		var bounds []int
		for _, it := range sc.Items {
			stream = append(stream, sc.LF.Build(it)...)
			bounds = append(bounds, len(stream))
		}
		lib.Guard(t, 20*time.Second, "Decode", func() {
			var dec ziface.IFrameDecoder
			if sc.LF.Le == 0 && sc.Seed%3 == 0 && sc.LF.Max < noMax {
				dec = zinterceptor.NewFrameDecoderByParams(uint64(sc.LF.Max), sc.LF.Off, sc.LF.Len, sc.LF.Adj, sc.LF.Strip)
			} else {
				f := sc.LF.Field()
				if sc.LF.Le == 0 && sc.Seed%3 == 1 {
					f.Order = nil // documented default
				}
				dec = zinterceptor.NewFrameDecoder(f)
			}
			// the reader reuses one buffer for all reads: so do we
			shared := make([]byte, len(stream)+1)
			dead := false
			for _, c := range cuts(stream, bounds, sc.Cut, sc.Seed, sc.LF.end()) {
				buf := shared[:len(c)]
				copy(buf, c)
				var got [][]byte
				panicked := 0
				func() {
					defer func() {
						if e := recover(); e != nil {
							panicked = 1
						}
					}()
					got = dec.Decode(buf)
				}()
				o := make([][]int, 0, len(got))
				for i := range buf {
					buf[i] = 0xEE
				}
				for _, g := range got {
					o = append(o, ints(g))
				}
				t.Log("feed", "b", ints(c), "out", o, "panic", panicked)
				if panicked == 1 {
					dead = true
					break
				}
			}
			_ = dead
		})
		t.Close()
	}
}

type CodecScen struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	S    int    `json:"s"`
	ID   []int  `json:"id"`
	Dmg  int    `json:"dmg"`
}

type sink struct{ got ziface.IRequest }

func (s *sink) Intercept(c ziface.IChain) ziface.IcResp {
	s.got, _ = c.Request().(ziface.IRequest)
	return c.Proceed(c.Request())
}

// family "codec": packers and codec interceptors on single frames.
func runCodec(in *Input) {
	zconf.GlobalObject.MaxPacketSize = 4096
	t := lib.NewTrace("codec", M{})
	n := 0
	for _, raw := range in.Scen {
		var sc CodecScen
		must(json.Unmarshal(raw, &sc))
		data := make([]byte, sc.N)
		rng(sc.S).Read(data)
		id := uint32(sc.ID[0])<<24 | uint32(sc.ID[1])<<16 | uint32(sc.ID[2])<<8 | uint32(sc.ID[3])
		var dec ziface.IDecoder
		var frame []byte
		switch sc.Kind {
		case "tlv", "ltv":
			name := ziface.ZinxDataPack
			dec = zdecoder.NewTLVDecoder()
			if sc.Kind == "ltv" {
				name = ziface.ZinxDataPackOld
				dec = zdecoder.NewLTV_Little_Decoder()
			}
			p := zpack.Factory().NewPack(name)
			out, err := p.Pack(zpack.NewMsgPackage(id, data))
			if err != nil {
				t.Log("packerr", "kind", sc.Kind)
				break
			}
			t.Log("pack", "kind", sc.Kind, "id", sc.ID, "d", ints(data), "out", ints(out))
			frame = out
			m, err := p.Unpack(out[:8])
			if err != nil {
				t.Log("unpackerr", "kind", sc.Kind)
			} else {
				t.Log("unpack", "kind", sc.Kind, "id", sc.ID, "d", ints(data), "oid", u32(m.GetMsgID()), "olen", int(m.GetDataLen()), "head", int(p.GetHeadLen()))
			}
		case "htlv":
			dec = zdecoder.NewHTLVCRCDecoder()
			if sc.N > 255 {
				data = data[:255]
			}
			frame = lib.HTLV(byte(sc.ID[2]), byte(sc.ID[3]), data)
			if sc.Dmg > 0 {
				x := sc.Dmg % len(frame)
				if x == 2 {
					x = 0
				}
				frame[x] ^= byte(1 << uint(sc.S%8))
			}
		}
		if frame == nil {
			continue
		}
		req := znet.NewRequest(nil, zpack.NewMessage(uint32(len(frame)), append([]byte{}, frame...)))
		s := &sink{}
		pass := 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					pass = 2
				}
			}()
			zinterceptor.NewChain([]ziface.IInterceptor{dec, s}, 0, req).Proceed(req)
		}()
		if s.got != nil && pass == 0 {
			pass = 1
			var body []byte
			switch r := s.got.GetResponse().(type) {
			case zdecoder.TLVDecoder:
				body = r.Value
			case zdecoder.LTV_Little_Decoder:
				body = r.Value
			case zdecoder.HtlvCrcDecoder:
				body = r.Body
			}
			t.Log("codec", "kind", sc.Kind, "b", ints(frame), "pass", pass, "id", u32(s.got.GetMsgID()), "data", ints(s.got.GetData()), "body", ints(body))
		} else {
			t.Log("codec", "kind", sc.Kind, "b", ints(frame), "pass", pass, "id", []int{}, "data", []int{}, "body", []int{})
		}
		n++
		if n%40 == 0 {
			t.Close()
			t = lib.NewTrace(fmt.Sprintf("codec-%d", n), M{})
		}
	}
	t.Close()
}
