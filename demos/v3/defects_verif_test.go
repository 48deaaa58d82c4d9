package v3

import (
	"math"
	"testing"
)

func caught(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// F2: zero-length operations
func TestDefectZeroLength(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	for name, f := range map[string]func(){
		"WriteBytes": func() { b.WriteBytes(0, nil) }, "WriteU32BE": func() { b.WriteU32BE(0, nil) },
		"ReadU32BE": func() { b.ReadU32BE(0, 0) },
		"clear":     func() { NewBuffer().ClearAllBits() }, "set": func() { NewBuffer().SetAllBits() }, "flip": func() { NewBuffer().FlipAllBits() },
		"ReadBits": func() { b.ReadBits(32, 0) },
	} {
		if r := caught(f); r != nil {
			t.Errorf("%s: %v", name, r)
		}
	}
	c := NewBuffer([]byte{0xff})
	c.SetBits(0, 0, 0)
	if c.Bytes()[0] != 0xff {
		t.Errorf("SetBits with n=0 wrote a bit: %x", c.Bytes())
	}
	if v := c.ReadBits(0, 0); v != 0 {
		t.Errorf("ReadBits with n=0 read %d", v)
	}
}

// F3: guard overflow
func TestDefectOverflow(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	for name, f := range map[string]func(){
		"ReadBytes": func() { b.ReadBytes(math.MaxInt64, 1) }, "ReadU64LE": func() { b.ReadU64LE(0, 1<<61) },
	} {
		if r := caught(f); r != BufferOverreadError {
			t.Errorf("%s: %v", name, r)
		}
	}
	if r := caught(func() { b.WriteU16LE(math.MaxInt64, []uint16{1}) }); r != BufferOverwriteError {
		t.Errorf("WriteU16LE: %v", r)
	}
}

// F5: stale destination
func TestDefectReadBitsStale(t *testing.T) {
	var m *MiniBuffer
	NewMiniBuffer(&m, []byte{0xA0})
	out := uint64(7)
	m.ReadBits(&out, 0, 3)
	if out != 5 {
		t.Errorf("ReadBits into a reused destination gave %d, want 5", out)
	}
}

// F7: SetBits partial write
func TestDefectSetBitsPartial(t *testing.T) {
	b := NewBuffer([]byte{0})
	caught(func() { b.SetBits(6, 0xf, 4) })
	if b.Bytes()[0] != 0 {
		t.Errorf("refused SetBits wrote %x", b.Bytes())
	}
}

// F6: Grow exposes stale bytes
func TestDefectGrowStale(t *testing.T) {
	b := NewBuffer([]byte{1, 2, 3, 4})
	b.TruncateRight(2)
	b.Grow(2)
	if x := b.Bytes(); x[2] != 0 || x[3] != 0 {
		t.Errorf("Grow brought truncated bytes back: %v", x)
	}
	var m *MiniBuffer
	NewMiniBuffer(&m, []byte{1, 2, 3, 4})
	m.Reset()
	m.Grow(4)
	var x []byte
	m.Bytes(&x)
	if x[0] != 0 {
		t.Errorf("Grow brought reset bytes back: %v", x)
	}
}
