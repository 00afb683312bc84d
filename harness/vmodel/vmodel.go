// Package vmodel holds models of standard library functions which the
// symbolic checker executes in place of the originals.
package vmodel

import (
	"errors"
	"io"
	"sync"
)

// rawInt gives the integer behind v, whatever its named type (intercepted).
func rawInt(v interface{}) (neg bool, mag uint64, ok bool) { return false, 0, false }

// stringOf gives the string behind v if its kind is string or []byte (intercepted).
func stringOf(v interface{}) (string, bool) { return "", false }

func appendUint(b []byte, u uint64) []byte {
	var tmp [20]byte
	i := len(tmp)
	for {
		i--
		tmp[i] = byte('0' + u%10)
		u /= 10
		if u == 0 {
			break
		}
	}
	return append(b, tmp[i:]...)
}

type stringer interface{ String() string }

func appendVal(b []byte, verb byte, v interface{}) []byte {
	if verb == 'v' || verb == 's' || verb == 'q' {
		if e, ok := v.(error); ok {
			return append(b, e.Error()...)
		}
		if s, ok := v.(stringer); ok {
			return append(b, s.String()...)
		}
		if s, ok := stringOf(v); ok {
			return append(b, s...)
		}
	}
	if verb == 't' || verb == 'v' {
		if x, ok := v.(bool); ok {
			if x {
				return append(b, "true"...)
			}
			return append(b, "false"...)
		}
	}
	neg, mag, ok := rawInt(v)
	if ok {
		if verb == 'c' {
			return append(b, byte(mag))
		}
		if neg {
			b = append(b, '-')
		}
		return appendUint(b, mag)
	}
	return append(b, '?')
}

func appendf(b []byte, f string, a []interface{}) []byte {
	k := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			b = append(b, '%')
			continue
		}
		if k < len(a) {
			b = appendVal(b, f[i], a[k])
			k++
		}
	}
	return b
}

func Sprintf(f string, a ...interface{}) string { return string(appendf(nil, f, a)) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write(appendf(nil, f, a))
}
func Errorf(f string, a ...interface{}) error { return errors.New(f) }
func Sprint(a ...interface{}) string {
	var b []byte
	for _, x := range a {
		b = appendVal(b, 'v', x)
	}
	return string(b)
}
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	var b []byte
	for i, x := range a {
		if i > 0 {
			b = append(b, ' ')
		}
		b = appendVal(b, 'v', x)
	}
	b = append(b, '\n')
	return w.Write(b)
}
func Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprint(a...)))
}

type lenLessSwap interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

// Sort orders d (insertion sort; same ordering contract as sort.Sort).
func Sort(d lenLessSwap) {
	n := d.Len()
	if n > 32 {
		// long inputs: already sorted, reversed, or a heap sort
		up, down := true, true
		for i := 1; i < n && (up || down); i++ {
			if d.Less(i, i-1) {
				up = false
			} else {
				down = false
			}
		}
		switch {
		case up:
		case down:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				d.Swap(i, j)
			}
		default:
			for i := n/2 - 1; i >= 0; i-- {
				sift(d, i, n)
			}
			for i := n - 1; i > 0; i-- {
				d.Swap(0, i)
				sift(d, 0, i)
			}
		}
		return
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && d.Less(j, j-1); j-- {
			d.Swap(j, j-1)
		}
	}
}

func sift(d lenLessSwap, i, n int) {
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && d.Less(c, c+1) {
			c++
		}
		if !d.Less(i, c) {
			return
		}
		d.Swap(i, c)
		i = c
	}
}

func Ints(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func MakeNoZero(n int) []byte { return make([]byte, n) }

// CountString replaces internal/bytealg.CountString.
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

// Count replaces internal/bytealg.Count.
func Count(s []byte, c byte) int { return CountString(string(s), c) }

// pools is what each sync.Pool holds: the last put is the next got.
var pools []*pool
var poolMu sync.Mutex

type pool struct {
	p     *sync.Pool
	items []interface{}
}

func poolOf(p *sync.Pool) *pool {
	for _, q := range pools {
		if q.p == p {
			return q
		}
	}
	q := &pool{p: p}
	pools = append(pools, q)
	return q
}

// PoolGet replaces (*sync.Pool).Get.
func PoolGet(p *sync.Pool) interface{} {
	poolMu.Lock()
	q := poolOf(p)
	if n := len(q.items); n > 0 {
		x := q.items[n-1]
		q.items = q.items[:n-1]
		poolMu.Unlock()
		return x
	}
	poolMu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// PoolPut replaces (*sync.Pool).Put.
func PoolPut(p *sync.Pool, x interface{}) {
	if x == nil {
		return
	}
	poolMu.Lock()
	q := poolOf(p)
	q.items = append(q.items, x)
	poolMu.Unlock()
}
