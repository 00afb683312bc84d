package wire

// A model of stream connections, which the checker executes in place of the
// operating system's: reads give what one write sent, or the start of it.

import (
	"errors"
	"io"
	"net"
	"os"
	"time"
)

type vaddr string

func (a vaddr) Network() string { return "model" }
func (a vaddr) String() string  { return string(a) }

type vpipe struct {
	ch   chan []byte
	rest []byte
}

type vconn struct {
	in, out *vpipe
	done    chan struct{}
	closed  bool
	peer    *vconn
}

var errClosed = errors.New("use of closed connection")
var errPipe = errors.New("broken pipe")

// splitReads: reads give one byte at a time.
var splitReads bool

func (c *vconn) Read(b []byte) (int, error) {
	if c.closed {
		return 0, errClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in.rest) == 0 {
		select {
		case d, ok := <-c.in.ch:
			if !ok {
				return 0, io.EOF
			}
			c.in.rest = d
		case <-c.done:
			return 0, errClosed
		}
	}
	if splitReads {
		b = b[:1]
	}
	n := copy(b, c.in.rest)
	c.in.rest = c.in.rest[n:]
	return n, nil
}

func (c *vconn) Write(b []byte) (int, error) {
	if c.closed {
		return 0, errClosed
	}
	if c.peer.closed {
		return 0, errPipe
	}
	if len(b) > 0 {
		d := make([]byte, len(b))
		copy(d, b)
		c.out.ch <- d
	}
	return len(b), nil
}

func (c *vconn) Close() error {
	if c.closed {
		return errClosed
	}
	c.closed = true
	close(c.done)
	close(c.out.ch)
	return nil
}

func (c *vconn) LocalAddr() net.Addr                { return vaddr("local") }
func (c *vconn) RemoteAddr() net.Addr               { return vaddr("remote") }
func (c *vconn) SetDeadline(t time.Time) error      { return nil }
func (c *vconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vconn) SetWriteDeadline(t time.Time) error { return nil }

type vlistener struct {
	ch     chan *vconn
	done   chan struct{}
	closed bool
}

func (l *vlistener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errClosed
	}
}

func (l *vlistener) Close() error {
	if l.closed {
		return errClosed
	}
	l.closed = true
	close(l.done)
	if theListener == l {
		theListener = nil
	}
	return nil
}

func (l *vlistener) Addr() net.Addr { return vaddr("listener") }

var theListener *vlistener

// NetListen replaces net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	l := &vlistener{ch: make(chan *vconn, 8), done: make(chan struct{})}
	theListener = l
	return l, nil
}

// NetDial replaces net.Dial.
func NetDial(network, addr string) (net.Conn, error) {
	l := theListener
	if l == nil {
		return nil, errors.New("connection refused")
	}
	a := &vpipe{ch: make(chan []byte, 4096)}
	b := &vpipe{ch: make(chan []byte, 4096)}
	x := &vconn{in: a, out: b, done: make(chan struct{})}
	y := &vconn{in: b, out: a, done: make(chan struct{})}
	x.peer, y.peer = y, x
	l.ch <- y
	return x, nil
}

// OsStat replaces os.Stat.
func OsStat(name string) (os.FileInfo, error) {
	return nil, errors.New("no such file")
}
