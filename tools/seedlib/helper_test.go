package snapws_test

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

// tconn is the server's side of a connection, under the control of the test.
type tconn struct {
	net.Conn
	mu       sync.Mutex
	onWrite  func(b []byte) (n int, err error, done bool)
	onSetWDL func() error
	closes   int
	writes   [][]byte
	wdls     int
}

func (c *tconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	c.writes = append(c.writes, append([]byte(nil), b...))
	f := c.onWrite
	c.mu.Unlock()
	if f != nil {
		if n, err, done := f(b); done {
			return n, err
		}
	}
	return c.Conn.Write(b)
}

func (c *tconn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	f := c.onSetWDL
	c.wdls++
	c.mu.Unlock()
	if f != nil {
		if err := f(); err != nil {
			return err
		}
	}
	return c.Conn.SetWriteDeadline(t)
}

func (c *tconn) Close() error {
	c.mu.Lock()
	c.closes++
	c.mu.Unlock()
	return c.Conn.Close()
}

func (c *tconn) hook(f func(b []byte) (int, error, bool)) {
	c.mu.Lock()
	c.onWrite = f
	c.mu.Unlock()
}

func (c *tconn) nwrites() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.writes)
}

func (c *tconn) nclosed() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes
}

type tlistener struct {
	net.Listener
	out chan *tconn
}

func (l *tlistener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	t := &tconn{Conn: c}
	l.out <- t
	return t, nil
}

type tserver struct {
	t    *testing.T
	addr string
	l    *tlistener
}

// serve runs an HTTP server with the given handler on the loopback interface.
func serve(t *testing.T, h http.HandlerFunc) *tserver {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	l := &tlistener{ln, make(chan *tconn, 64)}
	s := &http.Server{Handler: h}
	go s.Serve(l)
	t.Cleanup(func() { s.Close() })
	return &tserver{t, ln.Addr().String(), l}
}

// serveWS upgrades every request with u and sends the connections to the channel.
func serveWS(t *testing.T, u *snapws.Upgrader) (*tserver, chan *snapws.Conn) {
	ch := make(chan *snapws.Conn, 64)
	s := serve(t, func(w http.ResponseWriter, r *http.Request) {
		c, err := u.Upgrade(w, r)
		if err == nil {
			ch <- c
		}
	})
	return s, ch
}

type client struct {
	t  *testing.T
	c  net.Conn
	br *bufio.Reader
	// the server's side
	peer *tconn
	resp string
}

const goodHandshake = "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"

// dialRaw connects and sends a request; the response is read up to the empty line.
func (s *tserver) dialRaw(req string) *client {
	c, err := net.Dial("tcp", s.addr)
	if err != nil {
		s.t.Fatal(err)
	}
	s.t.Cleanup(func() { c.Close() })
	io.WriteString(c, req)
	cl := &client{t: s.t, c: c, br: bufio.NewReaderSize(c, 1<<20)}
	cl.peer = <-s.l.out
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	for {
		l, err := cl.br.ReadString('\n')
		cl.resp += l
		if err != nil || strings.TrimSpace(l) == "" {
			break
		}
	}
	return cl
}

func (s *tserver) dial() *client {
	c := s.dialRaw(goodHandshake + "\r\n")
	if !strings.Contains(c.resp, " 101 ") {
		s.t.Fatalf("handshake: %q", c.resp)
	}
	return c
}

type wsframe struct {
	b0      byte
	fin     bool
	op      byte
	payload []byte
}

var zeroKey = [4]byte{1, 2, 3, 4}

func rawFrame(b0 byte, payload []byte) []byte {
	f := []byte{b0}
	n := len(payload)
	switch {
	case n < 126:
		f = append(f, 0x80|byte(n))
	case n < 65536:
		f = append(f, 0x80|126)
		f = binary.BigEndian.AppendUint16(f, uint16(n))
	default:
		f = append(f, 0x80|127)
		f = binary.BigEndian.AppendUint64(f, uint64(n))
	}
	f = append(f, zeroKey[:]...)
	for i, b := range payload {
		f = append(f, b^zeroKey[i%4])
	}
	return f
}

func (c *client) send(fin bool, op byte, payload string) {
	if fin {
		op |= 0x80
	}
	c.c.Write(rawFrame(op, []byte(payload)))
}

func (c *client) next(d time.Duration) (wsframe, error) {
	c.c.SetReadDeadline(time.Now().Add(d))
	var h [2]byte
	if _, err := io.ReadFull(c.br, h[:]); err != nil {
		return wsframe{}, err
	}
	n := uint64(h[1] & 0x7f)
	if h[1]&0x80 != 0 {
		return wsframe{}, fmt.Errorf("masked frame from the server")
	}
	if n == 126 {
		var b [2]byte
		if _, err := io.ReadFull(c.br, b[:]); err != nil {
			return wsframe{}, err
		}
		n = uint64(binary.BigEndian.Uint16(b[:]))
	} else if n == 127 {
		var b [8]byte
		if _, err := io.ReadFull(c.br, b[:]); err != nil {
			return wsframe{}, err
		}
		n = binary.BigEndian.Uint64(b[:])
	}
	if n > 1<<26 {
		return wsframe{}, fmt.Errorf("length %d", n)
	}
	p := make([]byte, n)
	if _, err := io.ReadFull(c.br, p); err != nil {
		return wsframe{}, err
	}
	return wsframe{h[0], h[0]&0x80 != 0, h[0] & 15, p}, nil
}

// within fails the test if f doesn't return in time.
func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not return", what)
	}
}
