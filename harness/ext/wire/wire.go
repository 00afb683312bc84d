package wire

// The CRISP protocol: numbers on the wire, and sessions with a server.

import (
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/internal/vsym"
	"github.com/go-air/gini/z"
)

func init() {
	vsym.Register("wire.Decode", Decode)
	vsym.Register("wire.Words", Words)
	vsym.Register("wire.Encode", Encode)
	vsym.Register("wire.Server", Server)
}

func address() string {
	if vsym.Symbolic() {
		return "@@verif"
	}
	return fmt.Sprintf("@@verif-%d-%d", os.Getpid(), time.Now().UnixNano())
}

// listen gives a listener for clients which dial a.
func listen(a string) net.Listener {
	l, e := net.Listen("unix", a[1:])
	if e != nil {
		panic(e)
	}
	return l
}

// enc appends the coding of u. It doesn't branch on how long it is where u is
// a constant.
func enc(b []byte, u uint32) []byte {
	for u >= 1<<7 {
		b = append(b, byte(u)|1<<7)
		u >>= 7
	}
	return append(b, byte(u))
}

// what became of a sequence of numbers.
const (
	numsDone  = iota // ended by 0
	numsLit          // ended by something which isn't a literal
	numsLong         // ended by something which isn't a number
	numsShort        // didn't end
)

// dec decodes b up to a 0. Any number ends it unless it is a literal when
// lits.
func dec(b []byte, lits bool, max int) (ns []uint32, st int, rest []byte) {
	for {
		var u uint32
		i := 0
		for {
			if i >= len(b) {
				return ns, numsShort, nil
			}
			c := b[i]
			if i == 4 && c > 0xf {
				return ns, numsLong, nil
			}
			u |= uint32(c&0x7f) << (7 * uint(i))
			i++
			if c < 0x80 {
				break
			}
		}
		b = b[i:]
		if u == 0 && lits {
			return ns, numsDone, b
		}
		if u >= uint32(crisp.MinProto) && lits {
			return append(ns, u), numsLit, b
		}
		ns = append(ns, u)
		if len(ns) == max {
			return ns, numsDone, b
		}
	}
}

// readNum reads a number.
func readNum(c net.Conn) (uint32, error) {
	var u uint32
	b := make([]byte, 1)
	for i := 0; i < 5; i++ {
		if _, e := io.ReadFull(c, b); e != nil {
			return 0, e
		}
		u |= uint32(b[0]&0x7f) << (7 * uint(i))
		if b[0] < 0x80 {
			return u, nil
		}
	}
	return 0, fmt.Errorf("long number")
}

// expect reads a given number.
func expect(c net.Conn, want crisp.ProtoPoint) bool {
	u, e := readNum(c)
	return e == nil && crisp.ProtoPoint(u) == want
}

func put(c net.Conn, b []byte) {
	if len(b) == 0 {
		return
	}
	c.Write(b)
	if !vsym.Symbolic() {
		time.Sleep(5 * time.Millisecond)
	}
}

func hello(c net.Conn) {
	var b []byte
	for _, x := range []byte("CRISP") {
		b = enc(b, uint32(x))
	}
	put(c, enc(b, uint32(crisp.V)))
}

// pieces sends b in parts.
func pieces(c net.Conn, b []byte) {
	switch n := vsym.P("split", 1); n {
	case 0:
		put(c, b)
	case 1:
		k := vsym.Choose("cut", len(b)+1)
		put(c, b[:k])
		put(c, b[k:])
	case 2:
		for i := range b {
			put(c, b[i:i+1])
		}
	}
}

// ready dials a client to a server which does f after the client has got the
// answer res to a solve.
func ready(res crisp.ProtoPoint, op crisp.ProtoPoint, f func(c net.Conn)) *crisp.Client {
	a := address()
	l := listen(a)
	go func() {
		c, e := l.Accept()
		if e != nil {
			return
		}
		l.Close()
		hello(c)
		if !expect(c, crisp.Solve) {
			return
		}
		put(c, enc(nil, uint32(res)))
		if !expect(c, op) {
			return
		}
		f(c)
	}()
	c, e := crisp.Dial(a)
	vsym.Assert(e == nil, "a client greets the server")
	n, e := c.Solve()
	vsym.Assert(e == nil && (res == crisp.Sat && n == 1 || res == crisp.Unsat && n == -1), "a client gets the result")
	return c
}

func someBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("b")
	}
	return b
}

// Decode: a client reads what the bytes mean. Parameter n: number of arbitrary
// bytes, after pre literals of a byte each.
func Decode() {
	b := make([]byte, vsym.P("pre", 0))
	for i := range b {
		b[i] = 2
	}
	b = append(b, someBytes(vsym.P("n", 6))...)
	pre := vsym.P("pre", 0)
	c := ready(crisp.Unsat, crisp.Failed, func(s net.Conn) {
		put(s, b[:pre])
		pieces(s, b[pre:])
		s.Close()
	})
	got, e := c.Why(nil)
	want, st, _ := dec(b, true, -1)
	switch st {
	case numsDone:
		vsym.Reach("list")
		vsym.Assert(e == nil, "lists of literals are read")
		vsym.Assert(len(got) == len(want), "all literals are read")
		for i, m := range got {
			vsym.Assert(uint32(m) == want[i], "literals are read as they are")
		}
	case numsLit:
		vsym.Reach("no literal")
		vsym.Assert(e == crisp.ErrNotLit, "what isn't a literal is reported")
	case numsLong:
		vsym.Reach("no number")
		vsym.Assert(e == crisp.ErrVarUint, "what isn't a number is reported")
	case numsShort:
		vsym.Reach("short")
		vsym.Assert(e != nil, "a list which stops early is reported")
	}
	c.Close()
	vsym.Reach("end")
}

// Words: a client reads the words of a model.
func Words() {
	b := someBytes(vsym.P("n", 6))
	k := vsym.P("words", 1)
	c := ready(crisp.Sat, crisp.Model, func(s net.Conn) {
		pieces(s, append(enc(nil, uint32(k)), b...))
		s.Close()
	})
	got, e := c.Model(nil)
	want, st, _ := dec(b, false, k)
	switch st {
	case numsDone:
		vsym.Reach("words")
		vsym.Assert(e == nil, "words are read")
		vsym.Assert(len(got) == 32*k+1, "a model has 32 values for each word")
		for i := 0; i < 32*k && i+1 < len(got); i++ {
			vsym.Assert(vsym.Iff(got[i+1], want[i/32]&(1<<uint(i%32)) != 0), "words are read as they are")
		}
	case numsLong:
		vsym.Reach("no number")
		vsym.Assert(e == crisp.ErrVarUint, "what isn't a number is reported")
	case numsShort:
		vsym.Reach("short")
		vsym.Assert(e != nil, "a model which stops early is reported")
	}
	c.Close()
	vsym.Reach("end")
}

// Encode: what a client writes, wherever its buffer ends. Parameter n: number
// of arbitrary numbers after pre literals of a byte each.
func Encode() {
	var all []byte
	done := make(chan struct{})
	a := address()
	l := listen(a)
	go func() {
		defer close(done)
		s, e := l.Accept()
		if e != nil {
			return
		}
		l.Close()
		hello(s)
		b := make([]byte, 4096)
		for {
			n, e := s.Read(b)
			all = append(all, b[:n]...)
			if e != nil {
				return
			}
		}
	}()
	c, e := crisp.Dial(a)
	vsym.Assert(e == nil, "a client greets the server")
	pre := vsym.P("pre", 0)
	ms := make([]z.Lit, pre)
	for i := range ms {
		ms[i] = 2
	}
	for i := 0; i < vsym.P("n", 2); i++ {
		m := vsym.Uint32("m")
		vsym.Assume(m != 0)
		vsym.Assume(m < uint32(crisp.MinProto))
		ms = append(ms, z.Lit(m))
	}
	var ops []uint32
	if vsym.P("add", 0) == 1 {
		for _, m := range ms {
			vsym.Assert(c.Add(m) == nil, "adding is possible")
		}
		vsym.Assert(c.Add(0) == nil, "adding is possible")
		ops = append(ops, uint32(crisp.Add))
	} else {
		vsym.Assert(c.Assume(ms...) == nil, "assuming is possible")
		ops = append(ops, uint32(crisp.Assume))
	}
	for _, m := range ms {
		ops = append(ops, uint32(m))
	}
	ops = append(ops, 0)
	vsym.Assert(c.Quit() == nil, "quitting is possible")
	if vsym.P("add", 0) == 1 {
		ops = append(ops, uint32(crisp.End))
	}
	ops = append(ops, uint32(crisp.Quit))
	vsym.Assert(c.Close() == nil, "closing is possible")
	<-done
	got, st, rest := dec(all, false, len(ops))
	vsym.Assert(st == numsDone, "all numbers are written")
	vsym.Assert(len(rest) == 0, "nothing else is written")
	for i, u := range got {
		vsym.Assert(u == ops[i], "numbers are written as they are")
	}
	vsym.Reach("end")
}

// Server: what a server makes of the bytes of a clause.
func Server() {
	a := address()
	s, e := crisp.NewServer(a)
	vsym.Assert(e == nil, "a server starts")
	go s.Serve()
	c, e := net.Dial("unix", a[1:])
	vsym.Assert(e == nil, "a server accepts")
	for _, x := range []byte("CRISP") {
		vsym.Assert(expect(c, crisp.ProtoPoint(x)), "a server greets")
	}
	vsym.Assert(expect(c, crisp.ProtoPoint(crisp.V)), "a server greets")
	b := someBytes(vsym.P("n", 5))
	// nothing which makes a solver of a huge size, no operation
	ns, st, _ := dec(b, true, -1)
	for _, u := range ns {
		vsym.Assume(vsym.Or(vsym.And(u >= 2, u <= 5), vsym.And(u >= uint32(crisp.MinProto), u != uint32(crisp.End))))
	}
	bad := st == numsLong || st == numsLit
	vsym.Assume(bad || st == numsDone)
	as := vsym.P("assume", 0) == 1
	if as {
		put(c, enc(nil, uint32(crisp.Assume)))
	} else {
		put(c, enc(nil, uint32(crisp.Add)))
	}
	if !bad {
		// nothing after the clause
		_, _, rest := dec(b, true, -1)
		vsym.Assume(len(rest) == 0)
	}
	pieces(c, b)
	if bad {
		vsym.Reach("bad")
		code := crisp.ErrVarUint
		if st == numsLit {
			code = crisp.ErrNotLit
		}
		vsym.Assert(expect(c, crisp.Error), "malformed requests are errors")
		vsym.Assert(expect(c, crisp.ProtoPoint(code)), "errors are described")
		_, e := readNum(c)
		vsym.Assert(e != nil, "a server disconnects after an error")
		return
	}
	if !as {
		put(c, enc(nil, uint32(crisp.End)))
	}
	put(c, enc(nil, uint32(crisp.Solve)))
	for {
		u, e := readNum(c)
		vsym.Assert(e == nil, "a server answers")
		if crisp.ProtoPoint(u) == crisp.Unknown {
			put(c, enc(nil, uint32(crisp.Continue)))
			continue
		}
		// one clause or some assumptions
		sat := as || len(ns) > 0
		if as {
			for i, m := range ns {
				for _, o := range ns[:i] {
					if m == o^1 {
						sat = false
					}
				}
			}
		}
		if sat {
			vsym.Reach("sat")
			vsym.Assert(crisp.ProtoPoint(u) == crisp.Sat, "the literals are those sent")
		} else {
			vsym.Reach("unsat")
			vsym.Assert(crisp.ProtoPoint(u) == crisp.Unsat, "the literals are those sent")
		}
		break
	}
	put(c, enc(nil, uint32(crisp.Quit)))
	c.Close()
	vsym.Reach("end")
}
