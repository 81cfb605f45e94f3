// Replays scripts of engine runs through the Go binding: goroutines interleaved by a seeded scheduler that
// passes one token around at callback boundaries, so that one script is one execution.
package main

/*
extern long sim_live(void); extern void sim_fill(int); extern void sim_fail_calloc(int); extern int sim_calloc_pending(void);
*/
import "C"
import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
	"weak"

	cnd "github.com/Toyz/concordia/go"
)

type rd struct {
	b []byte
	i int
}

func (r *rd) u8() uint8   { r.i++; return r.b[r.i-1] }
func (r *rd) u32() uint32 { r.i += 4; return binary.LittleEndian.Uint32(r.b[r.i-4:]) }
func (r *rd) u64() uint64 { r.i += 8; return binary.LittleEndian.Uint64(r.b[r.i-8:]) }
func (r *rd) bytes() []byte {
	n := int(r.u32())
	r.i += n
	return append([]byte(nil), r.b[r.i-n:r.i]...)
}

type rng uint64

func (s *rng) next(n uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := uint64(*s)
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	z ^= z >> 31
	if n == 0 {
		return z
	}
	return z % n
}

const (
	vNone = iota
	vScalar
	vStr
	vRaw
)

type event struct {
	key      uint16
	op, kind uint8
	size     uint8
	give     bool // the host writes
	fail     bool
	alt      uint8
	in, out  uint64
	s        []byte
	nested   int
}
type job struct {
	prog        int
	mode        cnd.Mode
	shared      int
	data, final []byte
	ev          []event
	code        int
	panicAt     int
	oneshot     bool
	oom         bool
}
type probe struct {
	kind uint8
	id   uint16
	name string
}
type world struct {
	r        rng
	gcRate   uint64
	gcs      int
	progs    []*cnd.Program
	images   [][]byte
	shared   [][]byte
	sharedOk [][]byte
	jobs     []*job
	text     map[int]string
	bad      string
	g        []*gor
	done     chan struct{}
	hash     uint64
	switches uint32
	calls    uint32
	alone    bool
	held     []weak.Pointer[token]
	repeat   int
	first    []byte // the job's bytes before any run
}
type token struct{ b [128]byte }
type gor struct {
	wake chan struct{}
	jobs []int
	end  bool
}

func (w *world) wrong(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

// hands the token to a goroutine of the scheduler's choice
func (w *world) yield(me *gor) {
	if w.alone {
		return
	}
	var run []int
	for i, g := range w.g {
		if !g.end {
			run = append(run, i)
		}
	}
	if w.gcRate > 0 && w.r.next(w.gcRate) == 0 && w.gcs < 300 { // bounded: huge arrays make 100,000 calls
		w.gcs++
		runtime.GC()
	}
	if len(run) == 0 {
		close(w.done)
		return
	}
	k := run[w.r.next(uint64(len(run)))]
	w.hash = (w.hash ^ uint64(k)) * 0x9E3779B97F4A7C15
	if w.g[k] == me {
		return
	}
	w.switches++
	w.g[k].wake <- struct{}{}
	if !me.end {
		<-me.wake
	}
}

var sentinels = map[int]error{1: cnd.GoErrOOB, 2: cnd.GoErrInvalidOp, 3: cnd.GoErrValidation, 4: cnd.GoErrCallback, 5: cnd.GoErrStackOverflow, 6: cnd.GoErrStackUnderflow}

func (w *world) errIs(err error, code int) string {
	if code == 0 {
		if err != nil {
			return "error " + err.Error() + " where the engine succeeds"
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("success where the engine reports %q", w.text[code])
	}
	for k, s := range sentinels {
		if errors.Is(err, s) != (k == code) {
			return fmt.Sprintf("error %q where the engine reports %q", err.Error(), w.text[code])
		}
	}
	if errors.Is(err, cnd.GoErrOk) || (sentinels[code] == nil && err.Error() != w.text[code]) {
		return fmt.Sprintf("error %q where the engine reports %q", err.Error(), w.text[code])
	}
	return ""
}

type boom struct{ n int }

func isSigned(op cnd.OpCode) bool {
	return op == cnd.OpIoI8 || op == cnd.OpIoI16 || op == cnd.OpIoI32 || op == cnd.OpIoI64 || op == cnd.OpIoBitI
}
func get(e *event, v cnd.Value, op cnd.OpCode) uint64 {
	switch {
	case op == cnd.OpIoBool || op == cnd.OpIoBitBool:
		if e.alt&1 == 0 {
			if v.Bool() {
				return 1
			}
			return 0
		}
		return uint64(v.Uint8())
	case op == cnd.OpIoF32:
		return uint64(math.Float32bits(v.Float32()))
	case op == cnd.OpIoF64:
		return math.Float64bits(v.Float64())
	}
	signed := isSigned(op) != (e.alt&2 != 0)
	switch e.size {
	case 1:
		if signed {
			return uint64(uint8(v.Int8()))
		}
		return uint64(v.Uint8())
	case 2:
		if signed {
			return uint64(uint16(v.Int16()))
		}
		return uint64(v.Uint16())
	case 4:
		if signed {
			return uint64(uint32(v.Int32()))
		}
		return uint64(v.Uint32())
	}
	if signed {
		return uint64(v.Int64())
	}
	return v.Uint64()
}
func set(e *event, v cnd.Value, op cnd.OpCode) {
	x := e.out
	switch {
	case op == cnd.OpIoBool || op == cnd.OpIoBitBool:
		if x < 2 {
			v.SetBool(x == 1)
		} else {
			v.SetUint8(uint8(x))
		}
		return
	case op == cnd.OpIoF32:
		v.SetFloat32(math.Float32frombits(uint32(x)))
		return
	case op == cnd.OpIoF64:
		v.SetFloat64(math.Float64frombits(x))
		return
	}
	signed := isSigned(op) != (e.alt&2 != 0)
	switch e.size {
	case 1:
		if signed {
			v.SetInt8(int8(x))
		} else {
			v.SetUint8(uint8(x))
		}
	case 2:
		if signed {
			v.SetInt16(int16(x))
		} else {
			v.SetUint16(uint16(x))
		}
	case 4:
		if signed {
			v.SetInt32(int32(x))
		} else {
			v.SetUint32(uint32(x))
		}
	default:
		if signed {
			v.SetInt64(int64(x))
		} else {
			v.SetUint64(x)
		}
	}
}

var errHost = errors.New("host refuses")

func isStr(op cnd.OpCode) bool {
	return op == cnd.OpStrNull || op == cnd.OpStrPreU8 || op == cnd.OpStrPreU16 || op == cnd.OpStrPreU32
}

func (w *world) exec(me *gor, n int) {
	j := w.jobs[n]
	buf := j.data
	if j.shared >= 0 {
		buf = w.shared[j.shared]
	}
	at := 0
	dead := false
	who := fmt.Sprintf("job %d (program %d, %s): ", n, j.prog, map[cnd.Mode]string{cnd.ModeEncode: "encode", cnd.ModeDecode: "decode"}[j.mode])
	type kept struct {
		s    string
		want []byte
	}
	var keep []kept
	bad := func(f string, a ...any) error {
		dead = true
		w.wrong(who+f, a...)
		return errHost
	}
	mark := &token{} // lives as long as the callback does
	if w.alone {
		w.held = append(w.held, weak.Make(mark))
	}
	cb := func(ctx *cnd.Context, key uint16, op cnd.OpCode, v cnd.Value) error {
		mark.b[0]++
		w.calls++
		if dead {
			return errHost
		}
		if at >= len(j.ev) {
			return bad("callback %d (key %d, op %02x) after the engine's last", at, key, uint8(op))
		}
		e := &j.ev[at]
		at++
		if e.key != key || e.op != uint8(op) {
			return bad("callback %d is key %d, op %02x, the engine's is key %d, op %02x", at-1, key, uint8(op), e.key, e.op)
		}
		if ctx.Mode() != j.mode {
			return bad("callback %d runs in mode %d", at-1, int(ctx.Mode()))
		}
		if e.alt&4 != 0 {
			w.yield(me)
		}
		if e.kind == vScalar && !e.give {
			if x := get(e, v, op); x != e.in {
				return bad("callback %d (key %d, op %02x) is given %#x, the engine's %#x", at-1, key, e.op, x, e.in)
			}
		}
		if e.kind == vStr && !e.give {
			s := v.String()
			if s != string(e.s) {
				return bad("callback %d (key %d, op %02x) is given %q, the engine's %q", at-1, key, e.op, s, e.s)
			}
			keep = append(keep, kept{s, e.s})
		}
		if e.kind != vStr && e.kind != vNone && v.UnsafeAddr() == nil {
			return bad("callback %d (key %d, op %02x) has no value", at-1, key, e.op)
		}
		if e.kind == vRaw && !e.fail {
			p := unsafe.Slice((*byte)(v.UnsafeAddr()), len(e.s))
			if e.give {
				copy(p, e.s)
			} else if !bytes.Equal(p, e.s) {
				return bad("callback %d: bulk bytes %x, the engine's %x", at-1, p, e.s)
			}
		}
		if e.kind == vScalar && e.give {
			set(e, v, op)
		}
		if e.kind == vStr && e.give {
			if e.alt&16 != 0 { // a first try, replaced
				v.SetString("replaced " + string(e.s))
			}
			t := append([]byte(nil), e.s...)
			v.SetString(string(t))
			for i := range t {
				t[i] = 0xEE
			}
		}
		if e.nested >= 0 {
			w.exec(me, e.nested)
		}
		if e.alt&8 != 0 {
			w.yield(me)
		}
		if at-1 == j.panicAt {
			panic(boom{n})
		}
		if e.fail {
			return errHost
		}
		return nil
	}
	var err error
	panicked := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if b, ok := p.(boom); ok && b.n == n {
					panicked = true
					return
				}
				bad("panic: %v", p)
				panicked = true
			}
		}()
		if j.oom {
			C.sim_fail_calloc(1)
		}
		if j.oneshot {
			err = cnd.Execute(w.images[j.prog], buf, j.mode, cb)
		} else {
			err = w.progs[j.prog].Execute(buf, j.mode, cb)
		}
	}()
	oom := j.oom && C.sim_calloc_pending() == 0
	if dead {
		return
	}
	for _, k := range keep {
		if k.s != string(k.want) {
			w.wrong(who+"a string read in a callback changed afterwards to %q", k.s)
		}
	}
	if j.mode == cnd.ModeDecode && !bytes.Equal(buf, j.final) {
		w.wrong(who+"decoding changed the caller's bytes to %x", buf)
		return
	}
	if oom {
		if err == nil && !panicked {
			w.wrong(who + "success without memory")
		}
		return
	}
	if j.panicAt >= 0 {
		if !panicked {
			w.wrong(who+"the panic of callback %d is lost (%d callbacks, %v)", j.panicAt, at, err)
		}
		return
	}
	if panicked {
		return
	}
	if at != len(j.ev) {
		w.wrong(who+"%d callbacks, the engine makes %d (%v)", at, len(j.ev), err)
		return
	}
	if m := w.errIs(err, j.code); m != "" {
		w.wrong(who + m)
		return
	}
	if !bytes.Equal(buf, j.final) {
		w.wrong(who+"the buffer is\n%x, the engine's\n%x", buf, j.final)
	}
}

// runs one job over and over: what its callback keeps alive is to be free afterwards
func (w *world) again(n int) {
	const times = 24
	w.alone = true
	old := w.jobs[n]
	for i := 0; i < times && w.bad == ""; i++ {
		j := *old
		j.data, j.shared = append([]byte(nil), w.first...), -1
		w.jobs[n] = &j
		func() { w.exec(nil, n) }()
	}
	w.jobs[n] = old
	runtime.GC()
	runtime.GC()
	left := 0
	for _, p := range w.held {
		if p.Value() != nil {
			left++
		}
	}
	if left > times/2 && w.bad == "" {
		w.wrong("job %d: %d of %d callbacks are still reachable after their runs", n, left, len(w.held))
	}
}

func handle(b []byte) (string, uint64, uint32, uint32) {
	r := &rd{b: b}
	w := &world{text: map[int]string{}}
	w.r = rng(r.u64())
	w.gcRate = uint64(r.u32())
	C.sim_fill(C.int(r.u8()))
	for _, c := range consts {
		if c.goV != c.cV {
			w.wrong("%s is %d, the engine's is %d", c.name, c.goV, c.cV)
		}
	}
	for n := r.u32(); n > 0; n-- {
		c := int(r.u32())
		w.text[c] = string(r.bytes())
		if s := cnd.Error(c).String(); s != w.text[c] {
			w.wrong("error %d is called %q, the engine calls it %q", c, s, w.text[c])
		}
	}
	for n := r.u32(); n > 0; n-- {
		img := r.bytes()
		code := int(r.u32())
		keepImg := append([]byte(nil), img...)
		p, err := cnd.LoadProgram(img)
		if m := w.errIs(err, code); m != "" {
			w.wrong("loading image %d (%d bytes): %s", len(w.progs), len(img), m)
		}
		if (p == nil) != (err != nil) {
			w.wrong("loading image %d gives both or neither a program and an error", len(w.progs))
		}
		for i := range img {
			img[i] = 0xEE
		}
		w.progs = append(w.progs, p)
		w.images = append(w.images, keepImg)
		for k := r.u32(); k > 0; k-- {
			kind, id, name := r.u8(), uint16(r.u32()), string(r.bytes())
			if p == nil {
				continue
			}
			if kind == 0 {
				if s := p.GetKeyName(id); s != name {
					w.wrong("key %d is called %q, the engine says %q", id, s, name)
				}
			} else if x := p.GetKeyID(name); x != id {
				w.wrong("key %q is %d, the engine says %d", name, x, id)
			}
		}
	}
	var maps [][]byte
	for n := r.u32(); n > 0; n-- {
		data, ro := r.bytes(), r.u8()
		s := data
		if ro != 0 && len(data) > 0 {
			m, err := syscall.Mmap(-1, 0, len(data), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
			if err != nil {
				return "harness: mmap: " + err.Error(), 0, 0, 0
			}
			copy(m, data)
			syscall.Mprotect(m, syscall.PROT_READ)
			maps = append(maps, m)
			s = m
		}
		w.shared = append(w.shared, s)
	}
	for n := r.u32(); n > 0; n-- {
		j := &job{prog: int(r.u32()), mode: cnd.Mode(r.u8()), shared: int(int32(r.u32()))}
		j.data, j.final = r.bytes(), r.bytes()
		j.code, j.panicAt, j.oneshot, j.oom = int(r.u32()), int(int32(r.u32())), r.u8() != 0, r.u8() != 0
		for k := r.u32(); k > 0; k-- {
			e := event{key: uint16(r.u32()), op: r.u8(), kind: r.u8(), size: r.u8(), give: r.u8() != 0, fail: r.u8() != 0, alt: r.u8(), in: r.u64(), out: r.u64()}
			e.s = r.bytes()
			e.nested = int(int32(r.u32()))
			j.ev = append(j.ev, e)
		}
		w.jobs = append(w.jobs, j)
	}
	for n := r.u32(); n > 0; n-- {
		g := &gor{wake: make(chan struct{})}
		for k := r.u32(); k > 0; k-- {
			g.jobs = append(g.jobs, int(r.u32()))
		}
		w.g = append(w.g, g)
	}
	w.repeat = int(int32(r.u32()))
	if w.repeat >= 0 {
		if j := w.jobs[w.repeat]; j.shared >= 0 {
			w.first = append([]byte(nil), w.shared[j.shared]...)
		} else {
			w.first = append([]byte(nil), j.data...)
		}
	}
	if w.bad == "" && len(w.g) > 0 {
		w.done = make(chan struct{})
		for _, g := range w.g {
			go func() {
				<-g.wake
				debug.SetPanicOnFault(true)
				for _, n := range g.jobs {
					w.exec(g, n)
					w.yield(g)
				}
				g.end = true
				w.yield(g)
			}()
		}
		starter := &gor{end: true}
		w.yield(starter)
		<-w.done
	}
	if w.repeat >= 0 && w.bad == "" {
		w.again(w.repeat)
	}
	for _, p := range w.progs {
		if p != nil {
			p.Close()
			p.Close()
		}
	}
	for _, m := range maps {
		syscall.Munmap(m)
	}
	return w.bad, w.hash, w.switches, w.calls
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		var h [4]byte
		if _, err := io.ReadFull(in, h[:]); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(in, b); err != nil {
			return
		}
		before := int64(C.sim_live())
		bad, hash, sw, calls := handle(b)
		left := int64(C.sim_live()) - before
		var o [32]byte
		binary.LittleEndian.PutUint32(o[0:], uint32(len(bad)))
		binary.LittleEndian.PutUint64(o[4:], hash)
		binary.LittleEndian.PutUint32(o[12:], sw)
		binary.LittleEndian.PutUint32(o[16:], calls)
		binary.LittleEndian.PutUint64(o[20:], uint64(left))
		out.Write(o[:28])
		out.WriteString(bad)
		out.Flush()
	}
}
