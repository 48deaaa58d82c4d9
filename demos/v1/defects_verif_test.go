package v1

import (
	"math"
	"testing"
)

func caught(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func TestDefectLockLeak(t *testing.T) {
	for name, f := range map[string]func(b *Buffer){
		"write empty": func(b *Buffer) { b.WriteBytes(0, nil) },
		"grow -1":     func(b *Buffer) { b.Grow(-1) },
		"write max":   func(b *Buffer) { b.WriteBytes(math.MaxInt64, []byte{1}) },
	} {
		b := NewBuffer(make([]byte, 8))
		caught(func() { f(b) })
		if !b.TryLock() {
			t.Errorf("%s: lock leaked", name)
		}
	}
}

func TestDefectZeroLength(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	if r := caught(func() { b.WriteBytes(0, nil) }); r != nil {
		t.Errorf("WriteBytes: %v", r)
	}
	if r := caught(func() { b.WriteComplex(0, []uint32{}, Unsigned32, LittleEndian) }); r != nil {
		t.Errorf("WriteComplex: %v", r)
	}
}

func TestDefectOverflow(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	if r := caught(func() { b.ReadBytes(math.MaxInt64, 1) }); r != BufferOverreadError {
		t.Errorf("ReadBytes: %v", r)
	}
}

// F4: v1 ReadComplex checks n bytes instead of n elements
func TestDefectReadComplexWindow(t *testing.T) {
	b := NewBuffer([]byte{1, 2, 3, 4})
	if r := caught(func() { b.ReadComplex(3, 1, Unsigned16, LittleEndian) }); r != BufferOverreadError {
		t.Errorf("read past the end: %v", r)
	}
	c := NewBuffer([]byte{1, 2, 3, 4, 0xde, 0xad}[:4])
	if r := caught(func() { t.Logf("leaked %x", c.ReadComplex(3, 1, Unsigned16, LittleEndian)) }); r != BufferOverreadError {
		t.Errorf("read past the end into spare storage: %v", r)
	}
	if r := caught(func() { b.ReadComplex(0, 1, 3, LittleEndian) }); r != BufferInvalidIntegerSizeError {
		t.Errorf("bad size: %v", r)
	}
}

func TestDefectReadBitsStale(t *testing.T) {
	var m *MiniBuffer
	NewMiniBuffer(&m, []byte{0xA0})
	out := uint64(7)
	m.ReadBits(&out, 0, 3)
	if out != 5 {
		t.Errorf("ReadBits into a reused destination gave %d, want 5", out)
	}
}

func TestDefectSetBitsPartial(t *testing.T) {
	b := NewBuffer([]byte{0})
	caught(func() { b.SetBits(6, 0xf, 4) })
	if b.Bytes()[0] != 0 {
		t.Errorf("refused SetBits wrote %x", b.Bytes())
	}
}
