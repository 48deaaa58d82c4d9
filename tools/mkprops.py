#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
V3 = ["v3/buffer.generated.go", "v3/minibuf.generated.go", "v3/_buffer.go", "v3/_minibuf.go"]
V2 = ["v2/buffer.go", "v2/minibuf.go"]
V1 = ["v1/buffer.go", "v1/minibuf.go"]
ALL = V1 + V2 + V3
ST = [
 {"name": "contents", "meaning": "the byte slice a buffer owns", "where": "field buf of Buffer and MiniBuffer in v1, v2, v3"},
 {"name": "byte cursor / bit cursor", "meaning": "where the next sequential byte / bit operation acts", "where": "fields off, boff"},
 {"name": "cached capacities", "meaning": "number of bytes / bits, cached from the slice length", "where": "fields cap, bcap"},
]
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state if state is not None else ST,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

p("C01", "Typed writes store exactly the requested bytes",
  "For every element width, signedness, float kind and byte order the API offers (v1 WriteComplex, v2 and v3 Write<kind><width><order>, with and without Next, on Buffer and MiniBuffer), writing any slice at any in-range offset makes byte j of the i-th written element equal to the corresponding byte of data[i] in the named order: least significant byte first for little-endian, most significant first for big-endian, floats by their exact IEEE-754 bit pattern. Every byte outside the written window keeps its value. Writing an empty slice at an in-range offset succeeds and changes nothing.",
  ["inputs"], "all offsets, slice lengths (0 included), element bit patterns (NaN payloads included), buffer sizes and prior contents; both buffer types; v1, v2, v3",
  "The suite writes one or two hand-picked elements at offset 0 per method; lengths, offsets, and most byte lanes are never varied, and swapped lanes on zero bytes go unseen.",
  ALL, [("per-element byte stores", "write* functions of v1/v2, Write* of v3 generated code"), ("code generator for the stores", "generation/complex.go")], observe=["ByteCapacity/Bytes after a write"])

p("C02", "Typed reads decode exactly the stored bytes",
  "For every width, kind and byte order offered (v1 ReadComplex, v2 and v3 Read<kind><width><order>, with and without Next), a read of n >= 0 elements whose window lies inside the buffer yields exactly n elements, element i being the bytes of its slot decoded in the named order with the exact bit pattern (sign bit and NaN payloads included). Buffer returns freshly allocated elements that never alias its storage (v1 8-bit reads, which are plain byte reads, excepted); MiniBuffer fills the first n elements of the caller's slice and touches nothing beyond them. Reading never changes the buffer's contents.",
  ["inputs"], "all in-range offsets and counts (0 included), buffer contents; MiniBuffer destinations with at least n elements; both buffer types; v1, v2, v3",
  "Tests read one or two elements at offset 0 and compare to a constant; v1's multi-element reads are not exercised at all and no test looks at aliasing.",
  ALL, [("shift/or decode chains", "read* functions of v1/v2, Read* of v3 generated code"), ("code generator for the chains", "generation/complex.go")])

p("C03", "Out-of-range accesses on Buffer are refused with the documented error",
  "On the checked Buffer type of every version, a byte, typed or bit access whose range is not entirely inside the buffer panics and never succeeds: with the overread (reads) or overwrite (writes) error when its start is >= 0 and its end passes the capacity, and with the underread/underwrite error when its start is negative and its end does not pass the capacity; when both apply, either of the two. This holds for every 64-bit offset and count, including those where offset+count*width overflows. A negative count, where a byte or typed read takes one, never succeeds.",
  ["inputs"], "all int64 offsets and counts, all buffer sizes (0 included), all Buffer read/write/bit operations of v1, v2, v3 (multi-bit operations: bit counts 0..64)",
  "Tests try one offset just outside a 4- or 8-byte buffer per method; values near the int64 limits, counts > 1 that straddle the end, and empty buffers are not sampled.",
  [f for f in ALL if "buf" in f and "mini" not in f] + ["v1/errors.go", "v2/errors.go", "v3/errors.go", "generation/complex.go"],
  [("range guards", "head of every Buffer read/write function"), ("generated guards", "generation/complex.go")], observe=["recovered panic value"])

p("C04", "A refused Buffer operation leaves the buffer untouched",
  "Whenever an operation on Buffer panics, whether for a documented error or for any other invalid argument (negative or excessive counts to Grow and the truncations, unsupported integer sizes included), the buffer's contents, capacities, byte cursor and bit cursor are exactly what they were before the call. Sequential (Next) operations do not advance on failure, and multi-element or multi-bit writes (bit counts 0..64) never write a prefix.",
  ["inputs", "fault_sequences"], "every panicking call of every Buffer operation in v1, v2, v3, from every buffer state",
  "Panic tests only look at the recovered value and then end; none inspects the buffer after a failed call.",
  [f for f in ALL if "mini" not in f], [("guards before the first store", "all Buffer mutators"), ("advance after the access", "*Next methods")])

p("C05", "Positional operations never move cursors; Next operations advance exactly",
  "Operations that take an explicit offset leave both cursors unchanged. Each Next operation acts at the current byte (or bit) cursor exactly like its positional counterpart and then advances that cursor by precisely the number of bytes (or bits) it read or wrote, leaving the other cursor alone; a zero-length Next operation advances by zero. Holds for Buffer and MiniBuffer in every version.",
  ["inputs", "histories"], "all cursor positions, in-range counts and lengths; every Next/positional pair of every type and version",
  "Each Next method is tested once, from cursor 0, with one length; the untouched cursor and the positional methods' non-effect are never asserted.",
  ALL, [("seek after access", "*Next methods")])

p("C06", "Reported capacities always match the actual contents",
  "After the constructor and after every operation of the API, whether it returns or (on Buffer) panics, the byte capacity equals the number of bytes in the buffer's slice and the bit capacity is eight times that. Read, write, seek, align and bit operations never change the slice's extent; only the growing, truncating and resetting operations do.",
  ["histories", "inputs"], "every finite sequence of API calls with arbitrary arguments (one-step induction over each operation), both types, v1, v2, v3",
  "Tests check a capacity accessor after a single constructor or Grow; the invariant over sequences mixing truncate, grow, reset is not sampled.",
  ALL, [("cached capacity recomputation", "refresh/Refresh, Grow, Truncate*, Reset, constructors")])

p("C07", "Single-bit operations address bits most-significant first and only that bit",
  "Bit position p means bit 7-(p mod 8), counted from the least significant, of byte p div 8. Reading returns exactly 0 or 1 for that bit; setting, clearing and flipping change that bit to 1, to 0, and to its complement and leave every other bit of the buffer unchanged (v1/v2 SetBit stores the given 0/1 value and refuses any other value with the invalid-bit error). Holds at every in-range position for Buffer and MiniBuffer, positional and Next forms.",
  ["inputs"], "all in-range bit positions, buffer sizes and contents; both types; v1, v2, v3",
  "Tests touch two or three positions of a fixed byte pattern; neighbouring bits and bytes beyond the first are rarely compared.",
  ALL, [("mask and shift expressions", "ReadBit/SetBit/ClearBit/FlipBit and readbit/setbit/flipbit")])

p("C08", "Multi-bit operations are MSB-first and mutually consistent",
  "For 0 <= n <= 64 and an in-range position, ReadBits yields the n bits starting there as an n-bit unsigned number, first bit most significant, with all higher result bits 0 whatever the destination held before; SetBits stores the low n bits of the value in the same order and changes no other bit. Hence SetBits followed by ReadBits at the same position and count returns the value's low n bits.",
  ["inputs"], "all n in 0..64, all in-range positions and alignments, all 64-bit values and contents; both types; v1, v2, v3",
  "Tests use n of 2, 3 and 8 at two alignments with a fresh zero destination; n = 0, n > 8, and reused destinations are not covered.",
  ALL, [("bit loops", "ReadBits/SetBits, readbits/setbits")])

p("C09", "Whole-buffer bit operations cover every byte exactly once",
  "ClearAllBits, SetAllBits and FlipAllBits turn every byte of the buffer into 0x00, 0xFF and its complement respectively, for every buffer length including zero (where they do nothing), and change nothing else.",
  ["inputs"], "all buffer lengths and contents; both types; v1, v2, v3",
  "Each is tested on one short fixed buffer; the empty buffer is never tried.",
  ALL, [("byte loops", "ClearAllBits/SetAllBits/FlipAllBits and lowercase forms")])

p("C10", "Raw byte reads and writes move exactly the requested window",
  "ReadBytes(off, n) with an in-range window yields exactly the n bytes from off, as a window onto the buffer's own storage; ReadByte yields the single byte. WriteBytes/WriteByte copy the given bytes to exactly off..off+len, leave all other bytes unchanged, and succeed as a no-op for an empty slice. Holds for positional and Next forms, Buffer and MiniBuffer.",
  ["inputs"], "all in-range offsets, counts and data lengths (0 included), buffer sizes and contents; v1, v2, v3",
  "Tests read and write two bytes at one offset; zero-length, whole-buffer and end-aligned windows are not covered.",
  ALL, [("slice windows and copies", "ReadBytes/WriteBytes, read/write")])

p("C11", "Grow preserves contents and appends exactly n zero bytes",
  "Growing a buffer by n >= 0 bytes (within memory limits) makes it exactly n bytes longer; the old bytes keep their values and positions, every added byte is zero whatever the buffer held before an earlier truncation or reset and whatever spare storage it was built on, and both cursors stay put. On Buffer a negative n is refused (v3: with the invalid-byte-count error).",
  ["inputs", "histories"], "all sizes, spare capacities, contents (histories with truncation/reset before growing included) and n; both types; v1, v2, v3",
  "Tests grow a fresh 2-byte buffer once and look at the capacity only; stale bytes after truncate/reset followed by grow are never examined.",
  ALL, [("in-place and reallocating growth", "Grow/grow")])

p("C12", "Truncation and Reset keep exactly the promised bytes",
  "v3 TruncateLeft(n)/TruncateRight(n) with 0 <= n <= capacity leave exactly the bytes after the first n / before the last n, in order and unmodified, and do not move the cursors; on Buffer a negative n is refused with the invalid-byte-count error and an n above the capacity never succeeds. Reset (v2, v3) leaves an empty buffer with both cursors and both capacities zero.",
  ["inputs", "histories"], "all sizes, contents, cursor positions and n; Buffer and MiniBuffer; v2 Reset, v3 truncation and Reset",
  "One 2-byte buffer truncated by 1 on each side; n = 0, n = capacity, n > capacity and cursor behaviour are not asserted.",
  V2 + V3, [("reslicing", "TruncateLeft, TruncateRight, Reset/reset")])

p("C13", "Constructors hold the given slices concatenated in order",
  "A new buffer built from k slices contains the bytes of all k slices concatenated in argument order (nothing for k = 0), with both cursors at zero and capacities matching. With exactly one slice the buffer adopts that slice itself as its storage; with two or more it copies, leaving the given slices unmodified and sharing no storage with them.",
  ["inputs"], "any number of slices of any lengths (empty ones included) and contents; NewBuffer and NewMiniBuffer; v1, v2, v3",
  "Tests construct from at most two short slices; three or more, empty members and storage sharing are not checked.",
  ALL, [("constructor switch and append loop", "NewBuffer, NewMiniBuffer")])

p("C14", "Seeking, aligning and position queries compute exactly what they document",
  "An absolute seek sets the cursor to the given position and a relative one adds to it, affecting only that cursor; AlignBit sets the bit cursor to eight times the byte cursor and AlignByte sets the byte cursor to the bit cursor div 8 (for cursors >= 0); After (byte and bit forms) reports capacity - position - 1 for the given or, by default, the current position; the accessors report the current slice, capacities and cursors. None of the query operations modifies anything.",
  ["inputs", "histories"], "all cursor states, seek arguments and buffer sizes; both types; v1, v2, v3",
  "One value per method is tested; relative negative seeks, interaction between the two cursors, and absence of side effects are not.",
  ALL, [("cursor arithmetic", "Seek*, Align*, After*, accessors")])

p("C15", "v1/v2 Buffer touches its state only while holding its lock",
  "The v1 and v2 Buffer types, documented as safe for concurrent use, read and write their shared state (contents, capacities, cursors) only while holding the buffer's mutex, in every operation on every path. Hence concurrent calls from any number of goroutines are free of data races on the buffer itself (constructors, which run before the buffer is shared, and slices handed out to the caller, excepted).",
  ["schedules", "inputs"], "all interleavings of any exported Buffer methods of v1/v2 from any goroutines, all arguments",
  "No test starts a goroutine; a race only shows under a specific interleaving.",
  ["v1/buffer.go", "v2/buffer.go"], [("embedded mutex", "Lock/Unlock in Buffer methods of v1 and v2")])

p("C16", "v1/v2 Buffer operations always release the lock and never self-deadlock",
  "Every exported operation of the v1/v2 Buffer acquires the buffer's mutex at most once at a time and has released it when it returns or panics, for all arguments including refused and zero-length ones. So after recovering from a panic the buffer is still usable, and no operation can block forever on the lock it already holds.",
  ["inputs", "fault_sequences", "schedules"], "all exits (returns and panics, documented or runtime) of all exported Buffer methods of v1/v2, all arguments",
  "Panic tests never use the buffer again after recovering, so a leaked lock is invisible.",
  ["v1/buffer.go", "v2/buffer.go"], [("lock/unlock pairing, deferred unlocks", "Buffer methods of v1 and v2")])

p("C17", "v1/v2 Buffer operations are single critical sections",
  "Each exported reading, writing, bit, seeking, aligning, growing and resetting operation of the v1/v2 Buffer performs its range check, its access and its cursor update inside one uninterrupted hold of the buffer's mutex. Hence concurrent operations take effect as if executed one at a time: two concurrent Next calls never consume the same bytes or skip any, and a multi-element or multi-bit write is never seen half done by another operation.",
  ["schedules"], "all interleavings of exported Buffer operations of v1/v2",
  "The suite is single-threaded; a check-then-act window needs another goroutine to run inside it.",
  ["v1/buffer.go", "v2/buffer.go"], [("lock scope", "exported Buffer methods of v1 and v2")])

p("C18", "v1 integer-size dispatch is complete and refuses unknown sizes first",
  "v1 ReadComplex/WriteComplex (and their Next forms, on Buffer and MiniBuffer) accept exactly the sizes Unsigned8/16/32/64, transfer elements of exactly that many bytes of the matching Go type, and for any other size panic with the invalid-integer-size error before reading, writing or moving anything.",
  ["inputs"], "all integer-size values, both byte orders, all in-range arguments",
  "One invalid size (-1) is tried on each internal function; the public entry points, sizes such as 3 or 16, and the state afterwards are not.",
  V1 + ["v1/crunch.go"], [("switch on the size", "readComplex/writeComplex/WriteComplexNext")])

p("C19", "Operations touch only the buffer they are called on",
  "No operation of any version reads or writes package-level mutable state, starts goroutines or performs I/O, so distinct buffers never influence each other. Slices passed as data are neither modified nor retained by the buffer (except the single slice a constructor adopts), and output locations passed to MiniBuffer are the only caller memory it writes; they are not retained.",
  ["histories", "inputs", "schedules"], "all sequences of operations over any set of buffers, all arguments",
  "Tests use one buffer at a time and never reuse or mutate an argument slice after the call.",
  ALL, [("absence of package variables other than error/order constants", "v1, v2, v3 packages"), ("copying writes", "write paths")])

p("C20", "Type reinterpretation stays within one element",
  "Wherever the library reinterprets memory (v3 float accessors), it only views a single existing element or local as another type of exactly the same size and no stricter alignment; no pointer arithmetic and no fabricated slice or string headers are used. Hence no argument can make any operation read or write memory outside the slices involved.",
  ["inputs", "programs"], "every unsafe conversion in every function of v1, v2, v3, for all inputs and all 64-bit/32-bit targets",
  "An oversized view reads or clobbers neighbouring memory that small tests do not notice.",
  ["v3/buffer.generated.go", "v3/minibuf.generated.go", "v3/_buffer.go", "v3/_minibuf.go", "generation/complex.go"], [("unsafe.Pointer conversions", "F32/F64 accessors")], state=[])

p("C21", "v3's API matrix is complete and matches its templates",
  "v3 offers, for both Buffer and MiniBuffer, positional and Next reads and writes for every combination of {unsigned, signed} x {16, 32, 64}, float x {32, 64}, and both byte orders, each with the element type its name says; each generator directive in the templates corresponds to exactly one such pair in the shipped code and vice versa, and every hand-written template method is present in the shipped code with the same signature.",
  ["programs", "configurations"], "all directives and declarations of the v3 templates and the shipped generated files",
  "Tests compile against a sample of the methods of the shipped files only; the templates are never compiled or compared.",
  V3 + ["generation/complex.go"], [("//generator:complex directives", "v3/_buffer.go, v3/_minibuf.go"), ("generator", "generation/")], state=[])

p("C22", "Regenerating v3 yields code with the same guarantees",
  "Running the project's own code generator over the v3 templates yields source that compiles as the v3 package and satisfies every guarantee listed here for typed and raw access, bounds refusal, failure atomicity, cursors, capacities, bit operations, growth, truncation and construction (C01-C14). Hence `make` never replaces the shipped files by code that behaves differently on any of them.",
  ["programs", "inputs"], "all operations of the regenerated v3 package, all inputs as quantified in C01-C14",
  "No test runs the generator or looks at the templates; the shipped files could drift from them unnoticed.",
  ["v3/_buffer.go", "v3/_minibuf.go", "generation/complex.go", "generation/main.go", "v3/Makefile"], [("template expansion", "GenerateComplex"), ("templates", "v3/_*.go")])

p("C23", "The generator replaces its output files completely and nothing else",
  "For every template it processes, the generator makes the corresponding <name>.generated.go contain exactly the generated text, with nothing left over from a previous, longer version, and it creates, truncates, writes, renames or removes no file other than those outputs.",
  ["inputs", "histories"], "all template sets and all previous contents of the output files",
  "The generator has no tests; leftovers appear only when output shrinks.",
  ["generation/main.go"], [("output file open mode and write", "main")], state=[{"name": "output file", "meaning": "<template>.generated.go in the chosen directory", "where": "generation/main.go"}])

p("C24", "Error values are fixed, distinct and faithfully rendered",
  "Within each version all exported error values are pairwise different, never reassigned after initialisation, and render as \"crunch: <scope>: <message>\" with their own scope and message. Every explicit panic in the library raises one of these values, so a recovered value identifies the failure by comparison.",
  ["inputs", "histories"], "all error values and all panic sites of v1, v2, v3, at all times",
  "The tests format one error; equality between errors and who may assign or panic is never examined.",
  ["v1/errors.go", "v2/errors.go", "v3/errors.go"] + ALL, [("error table", "errors.go"), ("panic sites", "Buffer methods")], state=[{"name": "error variables", "meaning": "the documented panic values", "where": "errors.go of each version"}])

p("C25", "Every operation terminates",
  "Every constructor and operation of every version finishes (returns or panics) after a number of steps bounded by its arguments and the buffer size, for all arguments including zero, negative and extreme counts; it never loops forever, recurses without bound or blocks (v1/v2 locking on a mutex held by someone else excepted).",
  ["inputs"], "all arguments and buffer states; all operations of v1, v2, v3",
  "Tests only observe the handful of argument values that happen to terminate.",
  ALL, [("counted loops", "all looping functions"), ("acyclic call graph", "all functions")])

p("C26", "Sequential and positional access never allocate in MiniBuffer",
  "No read, write, bit, seek, align, query, truncate or reset operation of v2/v3 MiniBuffer, and no such operation of v3 Buffer except the typed reads that return a new slice, allocates heap memory on its success path, whatever the arguments. Only construction, growth and those typed reads may allocate.",
  ["inputs"], "all success paths of the listed operations, all arguments",
  "Benchmarks report allocations for a few operations and assert nothing.",
  V2[1:] + V3, [("in-place stores and caller-provided outputs", "MiniBuffer methods; v3 Buffer methods")])

p("C27", "Reads and writes are at least twice as fast as bytes.Buffer",
  "On average, reading from and writing to Buffer and MiniBuffer is more than twice as fast as bytes.Buffer, as the documentation promises.",
  ["configurations"], "hardware, compiler versions, workloads",
  "Benchmarks print times but assert nothing, and timing depends on the machine.",
  ["readme.md", "v3/buffer.generated.go", "v3/minibuf.generated.go"], [("unrolled loops without bounds bookkeeping", "v3 generated code")])

p("C28", "A file the generator cannot read or write affects only itself",
  "When the code generator cannot open or completely read one template, or cannot open or completely write one output, it goes on with all remaining files. A template that could not be opened or read completely is left out of the run, so the output belonging to it keeps its previous contents instead of being replaced by a partial or empty one.",
  ["fault_sequences", "inputs"], "every file operation of the generator failing, for every set of files in the directory and every position of the failing file among them",
  "The generator has no tests, and none could make each single operation fail at each position.",
  ["generation/main.go"], [("template reading loop", "main"), ("output writing loop", "main")], state=[{"name": "template set", "meaning": "the templates read, by name", "where": "files in generation/main.go"}])

p("C29", "The generator takes up every template in the directory",
  "Every directory entry that is not a directory, whose name starts with an underscore and ends in .go, and that can be read is taken up as a template, whatever else its name contains and however many entries the directory has; no readable template is passed over and none ends the search. While nothing fails, the files opened for one template are closed before the next one is handled, so the process's file handles do not bound how many templates there may be.",
  ["inputs"], "all directory contents, all names of the form _<anything>.go",
  "The generator has no tests; the repository's own two templates exercise two names.",
  ["generation/main.go"], [("template selection", "main")], state=[{"name": "template set", "meaning": "the templates read, by name", "where": "files in generation/main.go"}])

p("C30", "Positional operations store nothing but the bytes they address",
  "On the buffer types without a lock of their own (MiniBuffer of every version and v3 Buffer), operations with an explicit offset, whole-buffer bit operations, position queries and accessors never store to the buffer's cursors, capacities or slice header, not even temporarily or with the value already there; positional reads, bit reads, queries and accessors store nothing in the buffer at all, and positional writes store only to the bytes in their window (bit writes: the bytes holding the addressed bits). Hence any number of goroutines may at once read at explicit offsets and write to disjoint ranges of bytes without a data race.",
  ["schedules", "inputs"], "all interleavings of positional operations on one buffer; all arguments, contents and cursor positions",
  "Tests are sequential and compare results; a store that puts back the old value, or moves a cursor and restores it, is invisible to them.",
  V3 + ["v1/minibuf.go", "v2/minibuf.go"], [("positional operations and accessors", "Buffer and MiniBuffer methods without Next")], state=[{"name": "buffer fields", "meaning": "slice header, cursors and capacities, shared by all users of the buffer", "where": "struct Buffer, struct MiniBuffer"}])

p("C31", "A template's generated text depends on that template alone",
  "The text the generator writes for a template is determined by that template's own text: it does not depend on which other templates are in the directory, on the order in which the templates are handled or a map is gone through, on what was generated for another template, or on the time, the environment, random numbers or the machine; and the memory a template's text is kept in is not used again for another one. Running the generator again on the same template gives the same bytes.",
  ["histories", "inputs"], "all sets of templates, all orders of handling them, all runs",
  "The generator has no tests, and map order makes any one run's outcome a sample; the generated files that are committed show one order of one set of templates.",
  ["generation/main.go", "generation/complex.go"], [("text generation", "GenerateComplex, main")], state=[{"name": "template set", "meaning": "templates by name with their text before and after generation", "where": "files in generation/main.go and generation/complex.go"}])

p("C32", "Operations on a buffer's own bytes act on the bytes as they were before",
  "ReadBytes and Bytes hand out the buffer's own storage, so an operation's argument may be a part of the buffer itself. Writing such bytes (WriteBytes, WriteBytesNext, and WriteComplex with single-byte elements) stores at every position of the window the byte the argument held when the call was made, however source and window overlap and in either direction, and nothing outside the window changes; reading a bit into a byte of the buffer stores the bit as it was before. A refused write of the buffer's own bytes changes nothing.",
  ["inputs"], "all sources and windows inside one buffer, all overlaps in both directions, all lengths",
  "Tests write bytes from separate slices; an overlap that the order of copying destroys needs source, window and direction to line up.",
  V3 + ["v1/buffer.go", "v1/minibuf.go", "v2/buffer.go", "v2/minibuf.go"], [("raw byte writes and MiniBuffer bit reads", "write, WriteBytes, WriteComplex, readbit")], state=[{"name": "storage", "meaning": "the buffer's bytes, shared with slices handed out", "where": "field buf"}])

p("C33", "Everything but the magic comments comes through generation unchanged",
  "The text the generator makes of a template is the template's own text, byte for byte and in order, with each magic comment replaced by what is generated for it. Everything else comes through unchanged whatever the template's size: blank lines and white space, also right beside a magic comment and at the beginning and end of the file, line endings, other comments, and code or comments that only quote a magic comment within a line. A line is a magic comment only as a whole, and every well-formed one is replaced wherever it stands, on the last line too; what is replaced is that line without its line end. Nothing is added to the file.",
  ["inputs"], "all template texts of any size, all places of magic comments in them",
  "The generator has no tests; the two shipped templates show only one layout of text and magic comments each.",
  ["generation/main.go", "generation/complex.go"], [("template reading", "main"), ("magic comment replacement", "GenerateComplex")], state=[{"name": "template text", "meaning": "a template's bytes before and after generation", "where": "files in generation/main.go and generation/complex.go"}])

p("C34", "The operations keep their guarantees on 32-bit platforms",
  "On platforms where int, uint and uintptr have 32 bits, every operation of v1, v2 and v3 keeps the guarantees it gives elsewhere (access contents, range checks and their errors, untouched buffers after refusals, capacities, cursors, bit operations, Grow, truncation, constructors, seeking, v1 size dispatch, termination, own bytes): capacities, cursors and bit positions are 64-bit quantities throughout, so bit positions from 2^31 on in a large buffer are served as on 64-bit platforms, fields of more than 32 bits keep all their bits, and sums near 2^31 do not wrap. The claim covers every byte offset and count that fits an int there and every bit position from -2^34 to 2^34-1; all values read or written; all contents.",
  ["inputs"], "all operations, all byte offsets and counts that fit an int, all bit positions such a buffer can have and as many around them, all buffers of up to 2^31-1 bytes",
  "The tests run on the build machine only, where int has 64 bits; a truncating conversion changes nothing there.",
  V3 + ["v1/buffer.go", "v1/minibuf.go", "v2/buffer.go", "v2/minibuf.go"], [("every operation", "methods and constructors of Buffer and MiniBuffer")], state=[{"name": "buffer fields", "meaning": "64-bit cursors and capacities over storage indexed by int", "where": "struct Buffer, struct MiniBuffer"}])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(P))
