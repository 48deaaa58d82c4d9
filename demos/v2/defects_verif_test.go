package v2

import (
	"math"
	"runtime"
	"sync"
	"testing"
)

func caught(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// F1: lock leak after a panic
func TestDefectLockLeak(t *testing.T) {
	for name, f := range map[string]func(b *Buffer){
		"write empty": func(b *Buffer) { b.WriteBytes(0, nil) },
		"u16 empty":   func(b *Buffer) { b.WriteU16LE(0, nil) },
		"grow -1":     func(b *Buffer) { b.Grow(-1) },
		"write max":   func(b *Buffer) { b.WriteBytes(math.MaxInt64, []byte{1}) },
	} {
		b := NewBuffer(make([]byte, 8))
		caught(func() { f(b) })
		if !b.TryLock() {
			t.Errorf("%s: lock leaked", name)
		}
	}
}

// F1: Next is not atomic: two goroutines consume the same byte
func TestDefectNextAtomic(t *testing.T) {
	runtime.GOMAXPROCS(8)
	const n = 200000
	b := NewBuffer(make([]byte, n))
	data := b.Bytes()
	for i := range data {
		data[i] = byte(i)
	}
	var wg sync.WaitGroup
	var sum [4][256]int
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < n/4; i++ {
				sum[g][b.ReadByteNext()]++
			}
		}(g)
	}
	wg.Wait()
	var want, got [256]int
	for i := 0; i < n; i++ {
		want[byte(i)]++
	}
	for g := range sum {
		for k, c := range sum[g] {
			got[k] += c
		}
	}
	if want != got {
		t.Errorf("bytes consumed twice or skipped")
	}
}

// F2: zero-length operations
func TestDefectZeroLength(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	for name, f := range map[string]func(){
		"WriteBytes": func() { b.WriteBytes(0, nil) }, "WriteU32BE": func() { b.WriteU32BE(0, nil) },
		"ReadU32BE": func() { b.ReadU32BE(0, 0) },
		"clear":     func() { NewBuffer().ClearAllBits() }, "set": func() { NewBuffer().SetAllBits() }, "flip": func() { NewBuffer().FlipAllBits() },
		"ReadBits": func() { b.ReadBits(32, 0) },
	} {
		if r := caught(f); r != nil {
			t.Errorf("%s: %v", name, r)
		}
	}
	c := NewBuffer([]byte{0xff})
	c.SetBits(0, 0, 0)
	if c.Bytes()[0] != 0xff {
		t.Errorf("SetBits with n=0 wrote a bit: %x", c.Bytes())
	}
	if v := c.ReadBits(0, 0); v != 0 {
		t.Errorf("ReadBits with n=0 read %d", v)
	}
}

// F3: guard overflow
func TestDefectOverflow(t *testing.T) {
	b := NewBuffer(make([]byte, 4))
	for name, f := range map[string]func(){
		"ReadBytes": func() { b.ReadBytes(math.MaxInt64, 1) }, "ReadU64LE": func() { b.ReadU64LE(0, 1<<61) },
	} {
		if r := caught(f); r != BufferOverreadError {
			t.Errorf("%s: %v", name, r)
		}
	}
	if r := caught(func() { b.WriteU16LE(math.MaxInt64, []uint16{1}) }); r != BufferOverwriteError {
		t.Errorf("WriteU16LE: %v", r)
	}
}

// F5: stale destination
func TestDefectReadBitsStale(t *testing.T) {
	var m *MiniBuffer
	NewMiniBuffer(&m, []byte{0xA0})
	out := uint64(7)
	m.ReadBits(&out, 0, 3)
	if out != 5 {
		t.Errorf("ReadBits into a reused destination gave %d, want 5", out)
	}
}

// F7: SetBits partial write
func TestDefectSetBitsPartial(t *testing.T) {
	b := NewBuffer([]byte{0})
	caught(func() { b.SetBits(6, 0xf, 4) })
	if b.Bytes()[0] != 0 {
		t.Errorf("refused SetBits wrote %x", b.Bytes())
	}
}
