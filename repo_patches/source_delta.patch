From cb2762109179c052420a900f571c507c6811884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 01/10] fix: hold the Buffer lock across each whole operation
 (v1, v2)

The mutex was taken inside the low-level helpers and released only on their
success path: every refused access left it locked, sequential (Next)
operations dropped it between the access and the cursor update, and
cursor/capacity changes ran without it. Take it once, with a deferred unlock,
in every exported reading, writing, bit, seeking, aligning and growing
operation; the helpers now expect the caller to hold it.
---
 v1/buffer.go | 139 +++++++++++++++++++----------
 v2/buffer.go | 246 ++++++++++++++++++++++++++++++++-------------------
 2 files changed, 251 insertions(+), 134 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..4584475 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -58,7 +58,7 @@ func NewBuffer(slices ...[]byte) (buf *Buffer) {
 
 }
 
-/* internal use methods */
+/* internal use methods (the caller is expected to hold the lock) */
 
 /* bitfield methods */
 
@@ -77,9 +77,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -111,9 +108,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -155,9 +149,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -165,9 +156,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0
@@ -179,9 +167,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0xFF
@@ -193,9 +178,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = ^b.buf[i]
@@ -207,9 +189,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -251,8 +230,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	i := int64(0)
 	n := int64(len(data))
 
@@ -267,8 +244,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeComplex writes a slice of bytes to the buffer at the specified offset with the specified endianness and integer type
@@ -355,9 +330,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -412,9 +384,6 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -444,12 +413,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -457,9 +422,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -468,9 +430,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -478,9 +437,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -525,6 +481,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -532,6 +491,9 @@ func (b *Buffer) Refresh() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -539,6 +501,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -546,6 +511,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -553,6 +521,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -560,6 +531,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -581,6 +555,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -588,6 +565,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -595,6 +575,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadComplex returns the next n uint8/uint16/uint32/uint64-s from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readComplex(off, n, size, endian)
 
 }
@@ -602,6 +585,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -611,6 +597,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -620,6 +609,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -629,6 +621,9 @@ func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOr
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -636,6 +631,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -643,6 +641,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteComplex writes a uint8/uint16/uint32/uint64 to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(off, data, size, endian)
 
 }
@@ -650,6 +651,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -658,6 +662,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -666,6 +673,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -689,6 +699,9 @@ func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian bin
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -696,6 +709,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -703,6 +719,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -712,6 +731,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -721,6 +743,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -728,6 +753,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -735,6 +763,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -743,6 +774,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -751,6 +785,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -758,6 +795,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -766,6 +806,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -773,6 +816,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -780,6 +826,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..f89bec9 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -55,7 +55,7 @@ func NewBuffer(slices ...[]byte) (buf *Buffer) {
 
 }
 
-/* internal use methods */
+/* internal use methods (the caller is expected to hold the lock) */
 
 /* bitfield methods */
 
@@ -74,9 +74,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -116,9 +113,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -167,9 +161,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -177,9 +168,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -200,9 +188,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -223,9 +208,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -247,9 +229,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -291,8 +270,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -308,8 +285,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
@@ -327,8 +302,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -346,8 +319,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
@@ -365,8 +336,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -384,8 +353,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
@@ -403,8 +370,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -424,8 +389,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
@@ -443,8 +406,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -464,8 +425,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
@@ -483,8 +442,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -508,8 +465,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
@@ -527,8 +482,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -552,8 +505,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // read reads n bytes from the buffer at the specified offset
@@ -571,9 +522,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -595,9 +543,6 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -633,9 +578,6 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -671,9 +613,6 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -711,9 +650,6 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -751,9 +687,6 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -795,8 +728,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
 	i := int64(0)
 	{
 	read_loop:
@@ -824,9 +755,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -856,12 +784,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -869,9 +793,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -880,9 +801,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -890,9 +808,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -900,9 +815,6 @@ func (b *Buffer) alignbyte() {
 // reset resets the buffer
 func (b *Buffer) reset() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = []byte{}
 	b.off = 0x00
 	b.boff = 0x00
@@ -951,6 +863,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -958,6 +873,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.reset()
 
 }
@@ -965,6 +883,9 @@ func (b *Buffer) Reset() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -972,6 +893,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -979,6 +903,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -986,6 +913,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -993,6 +923,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1014,6 +947,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -1021,6 +957,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -1028,6 +967,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16LE(off, n)
 
 }
@@ -1035,6 +977,9 @@ func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 // ReadU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16BE(off, n)
 
 }
@@ -1042,6 +987,9 @@ func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 // ReadU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32LE(off, n)
 
 }
@@ -1049,6 +997,9 @@ func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 // ReadU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32BE(off, n)
 
 }
@@ -1056,6 +1007,9 @@ func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 // ReadU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64LE(off, n)
 
 }
@@ -1063,6 +1017,9 @@ func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 // ReadU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64BE(off, n)
 
 }
@@ -1070,6 +1027,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -1079,6 +1039,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1088,6 +1051,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1097,6 +1063,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1106,6 +1075,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1115,6 +1087,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1124,6 +1099,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1133,6 +1111,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1142,6 +1123,9 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -1149,6 +1133,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -1156,6 +1143,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(off, data)
 
 }
@@ -1163,6 +1153,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 // WriteU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(off, data)
 
 }
@@ -1170,6 +1163,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 // WriteU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(off, data)
 
 }
@@ -1177,6 +1173,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 // WriteU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(off, data)
 
 }
@@ -1184,6 +1183,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 // WriteU64LE writes a slice of uint64s to the buffer at the specfied offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(off, data)
 
 }
@@ -1191,6 +1193,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 // WriteU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(off, data)
 
 }
@@ -1198,6 +1203,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1206,6 +1214,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1214,6 +1225,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1222,6 +1236,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1230,6 +1247,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1238,6 +1258,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1246,6 +1269,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1254,6 +1280,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1262,6 +1291,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -1269,6 +1301,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -1276,6 +1311,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1285,6 +1323,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1294,6 +1335,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -1301,6 +1345,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -1308,6 +1355,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1316,6 +1366,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1324,6 +1377,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -1331,6 +1387,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -1339,6 +1398,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -1346,6 +1408,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -1353,6 +1418,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0


From 020601fa79e5683455903199022b4759959d6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 02/10] fix: make zero-length operations do nothing

The do-while style loops ran their body once before testing the count, so
empty reads and writes, zero-bit operations and whole-buffer operations on an
empty buffer touched (or failed on) one element. Test before entering.
---
 generation/complex.go   |   5 ++
 v1/buffer.go            |   5 ++
 v1/minibuf.go           |   5 ++
 v2/buffer.go            |  90 ++++++++++++++++++++++++++++++
 v2/minibuf.go           |  90 ++++++++++++++++++++++++++++++
 v3/_buffer.go           |  25 +++++++++
 v3/_minibuf.go          |  25 +++++++++
 v3/buffer.generated.go  | 121 ++++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 121 ++++++++++++++++++++++++++++++++++++++++
 9 files changed, 487 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..ce34403 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -215,6 +215,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 						body.Var().Id("u").Id(strings.Join([]string{"uint", arguments[3]}, ""))
 					}
 
+					body.If(jen.Id("i").Op(">=").Id("n")).
+						Block(jen.Return())
+
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("read_loop:")
 
@@ -309,6 +312,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
+					body.If(jen.Id("i").Op(">=").Id("n")).
+						Block(jen.Return())
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
diff --git a/v1/buffer.go b/v1/buffer.go
index 4584475..8de4d26 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -233,6 +233,11 @@ func (b *Buffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..0f1388e 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -188,6 +188,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v2/buffer.go b/v2/buffer.go
index f89bec9..2a6e0cc 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -83,6 +83,11 @@ func (b *Buffer) readbits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.readbit(off+i))
@@ -133,6 +138,11 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -172,6 +182,11 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -192,6 +207,11 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -212,6 +232,11 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -274,6 +299,11 @@ func (b *Buffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -306,6 +336,11 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -340,6 +375,11 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -374,6 +414,11 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -410,6 +455,11 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -446,6 +496,11 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -486,6 +541,11 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -544,6 +604,11 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 	out = make([]uint16, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) |
@@ -579,6 +644,11 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 	out = make([]uint16, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -614,6 +684,11 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 	out = make([]uint32, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) |
@@ -651,6 +726,11 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 	out = make([]uint32, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -688,6 +768,11 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 	out = make([]uint64, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) |
@@ -729,6 +814,11 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 	out = make([]uint64, n)
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) |
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..4f1d45a 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,11 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.readbit(&bout, off+i)
@@ -112,6 +117,11 @@ func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -139,6 +149,11 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -159,6 +174,11 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -179,6 +199,11 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -230,6 +255,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -250,6 +280,11 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -272,6 +307,11 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -294,6 +334,11 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -318,6 +363,11 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -342,6 +392,11 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -370,6 +425,11 @@ func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -402,6 +462,11 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) |
@@ -421,6 +486,11 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -440,6 +510,11 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) |
@@ -461,6 +536,11 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -482,6 +562,11 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) |
@@ -507,6 +592,11 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) |
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..fd76e40 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -104,6 +104,11 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -193,6 +198,11 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -259,6 +269,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +294,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +319,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..882ef68 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,11 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +160,11 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +219,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +244,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +269,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..bec602d 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -104,6 +104,11 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -193,6 +198,11 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -259,6 +269,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +294,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +319,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -409,6 +434,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -440,6 +468,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -471,6 +502,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -504,6 +538,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -537,6 +574,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -574,6 +614,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -611,6 +654,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -642,6 +688,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -673,6 +722,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -706,6 +758,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -739,6 +794,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -776,6 +834,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -813,6 +874,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -846,6 +910,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -879,6 +946,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -916,6 +986,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -1001,6 +1074,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -1033,6 +1109,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -1065,6 +1144,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -1097,6 +1179,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -1129,6 +1214,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -1161,6 +1249,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -1193,6 +1284,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -1225,6 +1319,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -1257,6 +1354,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -1289,6 +1389,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1321,6 +1424,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1353,6 +1459,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1386,6 +1495,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
@@ -1420,6 +1532,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
@@ -1454,6 +1569,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
@@ -1488,6 +1606,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..692bebf 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,11 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +160,11 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if i >= n {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +219,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +244,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +269,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if i >= n {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -325,6 +350,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -350,6 +378,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -375,6 +406,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -402,6 +436,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -429,6 +466,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -460,6 +500,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -491,6 +534,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -516,6 +562,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -541,6 +590,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -568,6 +620,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -595,6 +650,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -626,6 +684,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -657,6 +718,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -684,6 +748,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -711,6 +778,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -742,6 +812,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if i >= n {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -789,6 +862,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -812,6 +888,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -835,6 +914,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -858,6 +940,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -881,6 +966,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -904,6 +992,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -927,6 +1018,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -950,6 +1044,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -973,6 +1070,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -996,6 +1096,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1019,6 +1122,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1042,6 +1148,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1066,6 +1175,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
@@ -1091,6 +1203,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
@@ -1116,6 +1231,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
@@ -1141,6 +1259,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
+	if i >= n {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
-- 
2.43.0


From 5bd02df158cf11fe86b911268418fd07f9bfbcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 03/10] fix: do not let off+count overflow slip past the Buffer
 range checks

With offsets or counts near the int64 limit the end position wrapped around,
so the range check passed and the access failed later with a runtime error
(or an allocation panic) instead of the documented overread/overwrite error.
---
 generation/complex.go  |  7 +++--
 v1/buffer.go           |  4 +--
 v2/buffer.go           | 28 ++++++++---------
 v3/_buffer.go          |  4 +--
 v3/buffer.generated.go | 68 +++++++++++++++++++++---------------------
 5 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index ce34403..047184f 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,12 +187,15 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").
+							Op("||").Parens(jen.Id("off").Op(">=").Lit(0x00).Op("&&").Id("n").Op(">").Id("b").Dot("cap")).
+							Op("||").Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").
+							Op("||").Parens(jen.Id("off").Op("+").Id("int64").
 							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
diff --git a/v1/buffer.go b/v1/buffer.go
index 8de4d26..7829d33 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -218,7 +218,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || (off+int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -323,7 +323,7 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n) > b.cap {
 
 		panic(BufferOverreadError)
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 2a6e0cc..175ed71 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -283,7 +283,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || (off+int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -320,7 +320,7 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -359,7 +359,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -398,7 +398,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -439,7 +439,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -480,7 +480,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -525,7 +525,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -570,7 +570,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -589,7 +589,7 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*2) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -629,7 +629,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*2) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -669,7 +669,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*4) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -711,7 +711,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*4) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -753,7 +753,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*8) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -799,7 +799,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n*8) > b.cap {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index fd76e40..6ac330b 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -380,7 +380,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || (off+int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -458,7 +458,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n) > b.cap {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index bec602d..81b35cf 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -380,7 +380,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || (off+int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
 
@@ -426,7 +426,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -460,7 +460,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -494,7 +494,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -530,7 +530,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -566,7 +566,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -606,7 +606,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -646,7 +646,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -680,7 +680,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || (off+int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -714,7 +714,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -750,7 +750,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -786,7 +786,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -826,7 +826,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -866,7 +866,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -902,7 +902,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || (off+int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -938,7 +938,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -978,7 +978,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || (off+int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -1018,7 +1018,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || (off >= 0x00 && n > b.cap) || (off+n) > b.cap {
 
 		panic(BufferOverreadError)
 
@@ -1066,7 +1066,7 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1101,7 +1101,7 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1136,7 +1136,7 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1171,7 +1171,7 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1206,7 +1206,7 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1241,7 +1241,7 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1276,7 +1276,7 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1311,7 +1311,7 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1346,7 +1346,7 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1381,7 +1381,7 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1416,7 +1416,7 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1451,7 +1451,7 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1486,7 +1486,7 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1523,7 +1523,7 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1560,7 +1560,7 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1597,7 +1597,7 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || (off >= 0 && n > b.cap) || (off+n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
-- 
2.43.0


From abd591608d7376b64099b0412cab60ccecdf6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 04/10] fix: make v1 ReadComplex read count*size bytes

It fetched a window of n bytes for n elements, so every multi-byte read failed
(or ran past the window), and an unsupported size was only refused after the
range checks. Validate the size first and read the whole window.
---
 v1/buffer.go  | 18 +++++++++++++++++-
 v1/minibuf.go | 12 +++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 7829d33..96b338a 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -342,7 +342,23 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	if off > b.cap || (off >= 0x00 && n > b.cap) {
+
+		panic(BufferOverreadError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 0f1388e..c93e8e9 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -285,8 +285,18 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *MiniBuffer) readComplex(out *interface{}, off, n int64, size IntegerSize, endian binary.ByteOrder) {
 
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
 	var data []byte
-	b.read(&data, off, n)
+	b.read(&data, off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From 39b0eb1b019df52885510220b29c730b955d18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 05/10] fix: make MiniBuffer ReadBits independent of the
 destination's old value

The bits were shifted into whatever the destination already held, so a reused
variable returned stale high bits.
---
 v1/minibuf.go           | 1 +
 v2/minibuf.go           | 2 ++
 v3/_minibuf.go          | 2 ++
 v3/minibuf.generated.go | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index c93e8e9..3d0cfd1 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -74,6 +74,7 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 	var bout byte
+	*out = 0
 	for i := int64(0); i < n; i++ {
 
 		b.readbit(&bout, off+i)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 4f1d45a..b86aa78 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,8 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	*out = 0
 	if i >= n {
 
 		return
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 882ef68..934ed96 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,8 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	*out = 0
 	if i >= n {
 
 		return
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 692bebf..4aef5b7 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,8 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	*out = 0
 	if i >= n {
 
 		return
-- 
2.43.0


From 3f49adc070edec32295f3b879eb8c12368127b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 06/10] fix: zero the bytes v3 Grow exposes in place

Growing within the spare capacity re-exposed whatever the storage held before
an earlier truncation or reset instead of appending zero bytes.
---
 v3/_buffer.go           | 5 +++++
 v3/_minibuf.go          | 5 +++++
 v3/buffer.generated.go  | 5 +++++
 v3/minibuf.generated.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 6ac330b..1dd63a3 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -612,6 +612,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < int64(len(b.buf)); i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 934ed96..4b509d0 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -488,6 +488,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < int64(len(b.buf)); i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 81b35cf..b2dfbe0 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1708,6 +1708,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < int64(len(b.buf)); i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 4aef5b7..66bb0e8 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1344,6 +1344,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < int64(len(b.buf)); i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From 76ef47e4a114dac740ad9865ed54b45c83188782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 07/10] fix: check the whole range of SetBits before writing
 any bit

On Buffer a range running past the end was refused only at its first bad bit,
after the bits before it had already been overwritten.
---
 v1/buffer.go           | 18 ++++++++++++++++++
 v2/buffer.go           | 12 ++++++++++++
 v3/_buffer.go          | 12 ++++++++++++
 v3/buffer.generated.go | 12 ++++++++++++
 4 files changed, 54 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 96b338a..da3beaa 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -126,6 +126,24 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0x00 {
+
+		return
+
+	}
+
+	if off > b.bcap || (off >= 0x00 && n > (b.bcap-off)) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
diff --git a/v2/buffer.go b/v2/buffer.go
index 175ed71..876289e 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -142,6 +142,18 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 		return
 
+	}
+
+	if off > b.bcap || (off >= 0x00 && n > (b.bcap-off)) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
 	}
 	{
 	write_loop:
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 1dd63a3..9168ac8 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -202,6 +202,18 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 		return
 
+	}
+
+	if off > b.bcap || (off >= 0x00 && n > (b.bcap-off)) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
 	}
 	{
 	write_loop:
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index b2dfbe0..755d9e3 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -202,6 +202,18 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 		return
 
+	}
+
+	if off > b.bcap || (off >= 0x00 && n > (b.bcap-off)) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
 	}
 	{
 	write_loop:
-- 
2.43.0


From 36cddfc67fbff852e3c05c772011d6d25b13469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 08/10] fix: truncate the generator's output files before
 writing them

Without O_TRUNC a shorter result kept the tail of the previous file.
---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0


From f94501b352a644d23c86a9e5f6bdf0dbf1673460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 09/10] fix: leave out templates that cannot be read completely

---
 generation/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generation/main.go b/generation/main.go
index 429e31a..06f5c77 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -78,13 +78,14 @@ func main() {
 				continue
 			}
 
-			files[fileInfo.Name()], err = ioutil.ReadAll(file)
+			contents, err := ioutil.ReadAll(file)
+			_ = file.Close()
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
 				continue
 			}
 
-			_ = file.Close()
+			files[fileInfo.Name()] = contents
 		}
 	}
 
-- 
2.43.0


From d827ce42452582c9bdbc2dc91738921302d96fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:50 +0000
Subject: [PATCH 10/10] fix: write the bytes as given when they are part of the
 buffer itself (v1, v2)

---
 v1/buffer.go  | 19 +------------------
 v1/minibuf.go | 16 +++-------------
 v2/buffer.go  | 20 +-------------------
 v2/minibuf.go | 17 +++--------------
 4 files changed, 8 insertions(+), 64 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da3beaa..6676a34 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -248,24 +248,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	i := int64(0)
-	n := int64(len(data))
-
-	if i >= n {
-
-		return
-
-	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 3d0cfd1..dd7b97c 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -186,24 +186,14 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	i := int64(0)
-	n := int64(len(data))
-
-	if i >= n {
+	if len(data) == 0 {
 
 		return
 
 	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
 
-		}
-	}
+	_ = b.buf[off+int64(len(data))-1]
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 876289e..50dd613 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -307,25 +307,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	if i >= n {
-
-		return
-
-	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index b86aa78..2c5df1b 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -253,25 +253,14 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	if i >= n {
+	if len(data) == 0 {
 
 		return
 
 	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
 
-		}
-	}
+	_ = b.buf[off+int64(len(data))-1]
+	copy(b.buf[off:], data)
 
 }
 
-- 
2.43.0

