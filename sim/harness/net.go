//go:build go1.21

package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// seg is data in flight.
type seg struct {
	at   time.Time
	data []byte
	err  error // io.EOF or a reset, after the data
}

// half is one direction of a connection.
type half struct {
	segs []seg
	last time.Time
	q    waitq
	err  error // sticky
}

func (h *half) push(delay time.Duration, data []byte, err error) {
	at := time.Now().Add(delay)
	if at.Before(h.last) {
		at = h.last
	}
	h.last = at
	h.segs = append(h.segs, seg{at, append([]byte(nil), data...), err})
	h.q.wake()
}

// read returns available data, waiting until deadline() for some.
func (h *half) read(p []byte, deadline func() time.Time, max int) (int, error) {
	for {
		if h.err != nil {
			return 0, h.err
		}
		dl := deadline()
		if !dl.IsZero() && !time.Now().Before(dl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.segs) > 0 {
			s := &h.segs[0]
			if wait := time.Until(s.at); wait > 0 {
				t := s.at
				if !dl.IsZero() && dl.Before(t) {
					t = dl
				}
				h.q.waitUntil(t)
				continue
			}
			if len(s.data) == 0 {
				err := s.err
				h.segs = h.segs[1:]
				if err != nil {
					h.err = err
					return 0, err
				}
				continue
			}
			n := len(p)
			if max > 0 && n > max {
				n = max
			}
			n = copy(p[:n], s.data)
			s.data = s.data[n:]
			if len(s.data) == 0 && s.err == nil {
				h.segs = h.segs[1:]
			}
			return n, nil
		}
		h.q.waitUntil(dl)
	}
}

type simAddr struct{ network, addr string }

func (a simAddr) Network() string { return a.network }
func (a simAddr) String() string  { return a.addr }

// link is a simulated connection.
type link struct {
	s        *Sim
	id       int
	addr     string
	c2s, s2c half
	latency  time.Duration
	frag     int // server to client segments have at most this size
	fragGap  time.Duration

	cutAt   int64 // server to client bytes after which the connection breaks, <0: never
	cutKind string
	sent    int64

	clientClosed bool
	serverClosed bool
	dead         bool
	clientCloseT int64
	dialT        int64
	onClose      func()
}

// clientConn is the end pgutil holds.
type clientConn struct {
	l        *link
	rdl, wdl time.Time
	closed   bool
}

func (c *clientConn) opErr(op string, err error) error {
	if err == io.EOF {
		return err
	}
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr{"tcp", c.l.addr}, Err: err}
}

func (c *clientConn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n, err := c.l.s2c.read(p, func() time.Time {
		if c.closed {
			return time.Unix(1, 0)
		}
		return c.rdl
	}, 0)
	if err != nil {
		if c.closed {
			err = net.ErrClosed
		}
		return n, c.opErr("read", err)
	}
	return n, nil
}

func (c *clientConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	l := c.l
	if l.dead {
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	l.c2s.push(l.latency, p, nil)
	return len(p), nil
}

func (c *clientConn) Close() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	l := c.l
	l.clientClosed = true
	l.clientCloseT = l.s.now()
	l.s.ev("net.close", l.addr, "conn %d", l.id)
	l.c2s.push(l.latency, nil, io.EOF)
	l.s2c.q.wake()
	if l.onClose != nil {
		l.onClose()
	}
	return nil
}

func (c *clientConn) LocalAddr() net.Addr {
	return simAddr{"tcp", fmt.Sprintf("client:%d", 40000+c.l.id)}
}
func (c *clientConn) RemoteAddr() net.Addr { return simAddr{"tcp", c.l.addr} }
func (c *clientConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.l.s2c.q.wake()
	return nil
}
func (c *clientConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.l.s2c.q.wake()
	return nil
}
func (c *clientConn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// serverConn is the end the simulated server holds.
type serverConn struct {
	l *link
}

func noDeadline() time.Time { return time.Time{} }

func (c *serverConn) Read(p []byte) (int, error) {
	n, err := c.l.c2s.read(p, noDeadline, 0)
	return n, err
}

// Write sends to the client, in fragments, subject to the link's faults.
func (c *serverConn) Write(p []byte) (int, error) {
	l := c.l
	if l.dead || l.serverClosed {
		return 0, syscall.EPIPE
	}
	b := append([]byte(nil), p...)
	cut, lost := false, false
	if l.cutAt >= 0 && l.sent+int64(len(b)) >= l.cutAt {
		lost = l.sent+int64(len(b)) > l.cutAt
		b = b[:l.cutAt-l.sent]
		cut = true
	}
	l.sent += int64(len(b))
	for first := true; len(b) > 0; first = false {
		n := len(b)
		if l.frag > 0 && n > l.frag {
			n = l.frag
		}
		d := l.latency
		if !first {
			d += l.fragGap
		}
		l.s2c.push(d, b[:n], nil)
		if !first && l.fragGap > 0 {
			l.s2c.last = l.s2c.last.Add(l.fragGap)
		}
		b = b[n:]
	}
	if cut {
		c.breakLink(l.cutKind)
		if lost {
			return 0, syscall.EPIPE
		}
	}
	return len(p), nil
}

// breakLink ends the connection from the server's side.
func (c *serverConn) breakLink(kind string) {
	l := c.l
	if l.dead {
		return
	}
	l.dead = true
	var err error = io.EOF
	if kind == "reset" {
		err = os.NewSyscallError("read", syscall.ECONNRESET)
	}
	l.s.fault("net " + kind)
	l.s.ev("fault", l.addr, "%s conn %d after %d bytes", kind, l.id, l.sent)
	l.s2c.push(l.latency, nil, err)
}

func (c *serverConn) Close() error {
	l := c.l
	if !l.serverClosed && !l.dead {
		l.serverClosed = true
		l.s2c.push(l.latency, nil, io.EOF)
	}
	return nil
}

func (c *serverConn) LocalAddr() net.Addr                { return simAddr{"tcp", c.l.addr} }
func (c *serverConn) RemoteAddr() net.Addr               { return simAddr{"tcp", "client"} }
func (c *serverConn) SetDeadline(t time.Time) error      { return nil }
func (c *serverConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *serverConn) SetWriteDeadline(t time.Time) error { return nil }

// Network is the simulated network of a run.
type Network struct {
	s       *Sim
	servers map[string]*PGServer // by address
	links   []*link
}

func installNetwork() {
	net.SimDial = func(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
		s := cur
		if s == nil || s.Net == nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ENETUNREACH}
		}
		return s.Net.dial(ctx, d, network, address)
	}
}

func (n *Network) dial(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	s := n.s
	srv := n.servers[address]
	l := &link{s: s, id: len(n.links) + 1, addr: address, cutAt: -1, dialT: s.now()}
	n.links = append(n.links, l)
	fail := func(err error) (net.Conn, error) {
		l.dead = true
		l.clientClosed = true
		l.clientCloseT = s.now()
		s.ev("net.refused", address, "conn %d %v", l.id, err)
		return nil, &net.OpError{Op: "dial", Net: network, Addr: simAddr{network, address}, Err: err}
	}
	s.ev("net.dial", address, "conn %d", l.id)
	if srv == nil {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	pc := srv.newConn(l)
	if pc.latency() > 0 {
		time.Sleep(pc.latency())
	}
	switch f := pc.faultAt("dial"); {
	case f == nil:
	case f.Kind == "timeout":
		s.fault("dial timeout")
		left := time.Duration(f.NS)
		err := os.NewSyscallError("connect", syscall.ETIMEDOUT)
		within := func(t time.Duration) {
			if t < left {
				left, err = max(t, 0), os.ErrDeadlineExceeded
			}
		}
		if d.Timeout > 0 {
			within(d.Timeout)
		}
		if !d.Deadline.IsZero() {
			within(time.Until(d.Deadline))
		}
		if t, ok := ctx.Deadline(); ok {
			within(time.Until(t))
		}
		time.Sleep(left)
		return fail(err)
	case f.Kind == "unreachable":
		s.fault("dial unreachable")
		return fail(os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	case f.Kind == "descriptors":
		s.fault("dial without descriptors")
		return fail(os.NewSyscallError("socket", syscall.EMFILE))
	case f.Kind == "name", f.Kind == "names":
		s.fault("dial name lookup")
		h, _, _ := net.SplitHostPort(address)
		e := &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}
		if f.Kind == "names" {
			e = &net.DNSError{Err: "server misbehaving", Name: h, IsTemporary: true}
		}
		return fail(e)
	default:
		s.fault("dial refused")
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	harnessGo(func() { pc.serve(&serverConn{l}) })
	return &clientConn{l: l}, nil
}
