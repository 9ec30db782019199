package lib

import (
	"encoding/binary"
	"io"
)

// TLV is the harness's own encoder of the default wire format (id, length, value; big endian).
func TLV(id uint32, body []byte) []byte {
	b := make([]byte, 8+len(body))
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint32(b[4:], uint32(len(body)))
	copy(b[8:], body)
	return b
}

// LTV is the little-endian length-first format.
func LTV(id uint32, body []byte) []byte {
	b := make([]byte, 8+len(body))
	binary.LittleEndian.PutUint32(b, uint32(len(body)))
	binary.LittleEndian.PutUint32(b[4:], id)
	copy(b[8:], body)
	return b
}

// ReadTLV reads one frame with a limit on the believable length.
func ReadTLV(r io.Reader, max uint32) (id uint32, body []byte, err error) {
	var h [8]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	id = binary.BigEndian.Uint32(h[:])
	n := binary.BigEndian.Uint32(h[4:])
	if n > max {
		return id, nil, ErrFrame
	}
	body = make([]byte, n)
	_, err = io.ReadFull(r, body)
	return
}

type frameErr struct{}

func (frameErr) Error() string { return "impossible frame" }

var ErrFrame = frameErr{}

// CRC16 is CRC-16/MODBUS, low byte first, written independently of the code under test.
func CRC16(b []byte) []byte {
	crc := uint16(0xffff)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xa001
			} else {
				crc >>= 1
			}
		}
	}
	return []byte{byte(crc), byte(crc >> 8)}
}

// HTLV builds a head/function/length/body/CRC frame.
func HTLV(head, fn byte, body []byte) []byte {
	b := append([]byte{head, fn, byte(len(body))}, body...)
	return append(b, CRC16(b)...)
}

// Payload makes n deterministic bytes identifying k.
func Payload(k, n int) []byte {
	b := make([]byte, n)
	x := uint32(k)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	for i := 0; i < 4 && i < n; i++ {
		b[i] = byte(k >> (8 * (3 - i)))
	}
	return b
}
