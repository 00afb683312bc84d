package crisp

// Numbers over connections which give and take as little as they may: what
// io.Reader and io.Writer allow and a net.Conn rarely does.

import (
	"errors"
	"io"

	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("crisp.VHRead", VHRead)
	vsym.Register("crisp.VHWrite", VHWrite)
}

var errVHBroken = errors.New("broken")

type vhTube struct {
	in     []byte // to be read
	eof    error  // what is at the end
	got    []byte // has been written
	limit  int    // bytes which can be written, -1: any number
	cuts   int    // calls which are free to do less
	idle   int    // calls which are free to do nothing
	broken bool
}

// part chooses how many of n bytes a call is about.
func (t *vhTube) part(n int) int {
	if n > 0 && t.idle > 0 && vsym.Bool("idle") {
		t.idle--
		return 0
	}
	if n > 1 && t.cuts > 0 {
		if k := vsym.P("chunk", 3); n > k && vsym.Bool("few") {
			t.cuts--
			return 1 + vsym.Choose("bytes", k)
		} else if n <= k {
			t.cuts--
			return 1 + vsym.Choose("bytes", n)
		}
	}
	return n
}

func (t *vhTube) Read(b []byte) (int, error) {
	n := len(t.in)
	if n == 0 {
		return 0, t.eof
	}
	if n > len(b) {
		n = len(b)
	}
	n = t.part(n)
	copy(b, t.in[:n])
	t.in = t.in[n:]
	if n > 0 && len(t.in) == 0 && vsym.Bool("early") {
		return n, t.eof
	}
	return n, nil
}

func (t *vhTube) Write(b []byte) (int, error) {
	if t.broken {
		return 0, errVHBroken
	}
	n := len(b)
	if t.limit >= 0 && len(t.got)+n > t.limit {
		n = t.limit - len(t.got)
		t.got = append(t.got, b[:n]...)
		t.broken = true
		return n, errVHBroken
	}
	if vsym.P("short", 0) == 1 {
		n = t.part(n)
	}
	t.got = append(t.got, b[:n]...)
	return n, nil
}

// vhDec: the first number in b: its length, 0 if there is more to come, -1 if
// there is none.
func vhDec(b []byte) (uint32, int) {
	var u uint32
	for i := 0; i < len(b); i++ {
		if i == 4 && b[i] > 0xf {
			return 0, -1
		}
		u |= uint32(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return u, i + 1
		}
	}
	return 0, 0
}

func vhEnc(b []byte, u uint32) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

// VHRead: numbers are what the bytes say, however they come.
func VHRead() {
	t := &vhTube{eof: io.EOF, cuts: vsym.P("cuts", 2), idle: vsym.P("idle", 1)}
	if vsym.P("broken", 0) == 1 {
		t.eof = errVHBroken
	}
	for i := 0; i < vsym.P("pre", 0); i++ {
		t.in = append(t.in, byte(2+i%100))
	}
	for i := 0; i < vsym.P("n", 6); i++ {
		t.in = append(t.in, vsym.Byte("b"))
	}
	b := append([]byte{}, t.in...)
	v := newVu32Io(t)
	lists := vsym.P("lists", 0) == 1
	for {
		if lists {
			ms, e := v.recv([]z.Lit{7})
			k := 1
			for {
				u, n := vhDec(b)
				if n <= 0 {
					vsym.Assert(e != nil, "a list which isn't read is reported")
					vsym.Assert(n == 0 || e == ErrVarUint, "what isn't a number is reported")
					vsym.Assert(n != 0 || e != ErrVarUint && e != ErrNotLit, "an end isn't reported as something else")
					vsym.Reach("list ends")
					vsym.Reach("end")
					return
				}
				b = b[n:]
				if u == 0 {
					break
				}
				if u >= uint32(MinProto) {
					vsym.Assert(e == ErrNotLit, "what isn't a literal is reported")
					vsym.Reach("end")
					return
				}
				vsym.Assert(k < len(ms) && uint32(ms[k]) == u, "the literals are those which were sent")
				k++
			}
			vsym.Assert(e == nil, "lists are read")
			vsym.Assert(len(ms) == k && ms[0] == 7, "literals are appended")
			vsym.Reach("list")
			continue
		}
		u, e := v.readu32()
		w, n := vhDec(b)
		if n == 0 {
			vsym.Assert(e != nil, "an end is reported")
			vsym.Assert(e != ErrVarUint, "an end isn't reported as something else")
			vsym.Reach("end")
			return
		}
		if n < 0 {
			vsym.Assert(e == ErrVarUint, "what isn't a number is reported")
			vsym.Reach("no number")
			vsym.Reach("end")
			return
		}
		vsym.Assert(e == nil, "numbers are read")
		vsym.Assert(u == w, "numbers are read as they were sent")
		b = b[n:]
	}
}

// VHWrite: the bytes written are those of the numbers, in order.
func VHWrite() {
	t := &vhTube{limit: -1, cuts: vsym.P("cuts", 2), idle: vsym.P("idle", 1)}
	if k := vsym.P("room", -1); k >= 0 {
		t.limit = vsym.Conc(vsym.Int("room", 0, k))
	}
	v := newVu32Io(t)
	var want []byte
	fails := false
	check := func(e error) {
		if e != nil {
			fails = true
			vsym.Assert(t.broken, "an error is one of the connection's")
			vsym.Reach("error")
		}
	}
	for i := 0; i < vsym.P("pre", 0); i++ {
		want = append(want, byte(2+i%100))
		check(v.writeu32(uint32(2 + i%100)))
	}
	n := vsym.P("n", 2)
	if vsym.P("lists", 0) == 1 {
		var ms []z.Lit
		for i := 0; i < n; i++ {
			m := z.Lit(vsym.Uint32("m"))
			vsym.Assume(m != 0)
			ms = append(ms, m)
			want = vhEnc(want, uint32(m))
		}
		want = append(want, 0)
		check(v.send(ms))
	} else {
		for i := 0; i < n; i++ {
			u := vsym.Uint32("u")
			want = vhEnc(want, u)
			if i > 0 && vsym.Bool("flush") {
				check(v.writeflush(u))
				if !fails {
					vsym.Assert(len(t.got) == len(want), "what is flushed is written")
				}
			} else {
				check(v.writeu32(u))
			}
		}
	}
	check(v.flush())
	if fails {
		vsym.Assert(len(t.got) <= len(want), "no more is written than what was sent")
	} else {
		vsym.Assert(!t.broken, "errors are reported")
		vsym.Assert(len(t.got) == len(want), "all of it is written")
	}
	for i, b := range t.got {
		vsym.Assert(b == want[i], "numbers are written in order")
	}
	vsym.Reach("end")
}
