package fcrp2pserver

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:with common/pkg/fcrregistermgr/stub_timer.go
//verif:redirect net.Listen verifListen
//verif:redirect net.Dial verifDial

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

// a step of the stream: bytes that arrive together, or an error
type step struct {
	data []byte
	err  error
}

var errClosed = errors.New("use of closed network connection")

// conn stands in for a TCP connection
type conn struct {
	lock     sync.Mutex
	addr     string
	steps    []step                             // what arrives
	answer   func(frame []byte) ([]step, error) // what the peer sends back for a frame
	out      []byte
	frames   [][]byte
	deadline bool
	closed   bool
	closes   int
	closeErr error
	reads    int
	done     chan bool
}

func (c *conn) Read(p []byte) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.reads++
	if c.closed {
		return 0, errClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	sym.Assert(c.deadline, "a read has a deadline")
	for len(c.steps) > 0 && c.steps[0].err == nil && len(c.steps[0].data) == 0 {
		c.steps = c.steps[1:]
	}
	if len(c.steps) == 0 {
		return 0, io.EOF
	}
	if err := c.steps[0].err; err != nil {
		c.steps = c.steps[1:]
		return 0, err
	}
	n := copy(p, c.steps[0].data)
	c.steps[0].data = c.steps[0].data[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if c.closed {
		return 0, errClosed
	}
	sym.Assert(c.deadline, "a write has a deadline")
	c.out = append(c.out, p...)
	for len(c.out) >= 4 {
		n := int(binary.BigEndian.Uint32(c.out))
		if len(c.out) < 4+n {
			break
		}
		frame := append([]byte{}, c.out[4:4+n]...)
		c.out = c.out[4+n:]
		c.frames = append(c.frames, frame)
		if c.answer != nil {
			s, err := c.answer(frame)
			if err != nil {
				return 0, err
			}
			c.steps = append(c.steps, s...)
		}
	}
	return len(p), nil
}

func (c *conn) Close() error {
	c.lock.Lock()
	first := !c.closed
	c.closed = true
	c.closes++
	c.lock.Unlock()
	if !first {
		return errClosed
	}
	if c.done != nil {
		c.done <- true
	}
	return c.closeErr
}

func (c *conn) LocalAddr() net.Addr  { return fakeAddr("local") }
func (c *conn) RemoteAddr() net.Addr { return fakeAddr("remote") }

func (c *conn) SetDeadline(t time.Time) error {
	c.lock.Lock()
	defer c.lock.Unlock()
	if c.closed {
		return errClosed
	}
	c.deadline = !t.IsZero()
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return c.SetDeadline(t) }

// listener hands out connections
type listener struct {
	ready chan bool
	next  net.Conn
	errs  int // how many times Accept fails first
}

func (l *listener) Accept() (net.Conn, error) {
	if l.errs > 0 {
		l.errs--
		return nil, errors.New("too many open files")
	}
	<-l.ready
	return l.next, nil
}
func (l *listener) Close() error   { return nil }
func (l *listener) Addr() net.Addr { return fakeAddr("listener") }

// the network
var (
	netLock   sync.Mutex
	listeners = map[string]*listener{}
	dialled   []*conn
	dial      func(address string) (*conn, error)
	noListen  string
	acceptErr int
)

func verifListen(network, address string) (net.Listener, error) {
	if address == noListen {
		return nil, errors.New("address already in use")
	}
	l := &listener{ready: make(chan bool), errs: acceptErr}
	listeners[address] = l
	return l, nil
}

func verifDial(network, address string) (net.Conn, error) {
	netLock.Lock()
	defer netLock.Unlock()
	if dial == nil {
		return nil, errors.New("no network")
	}
	c, err := dial(address)
	if err != nil {
		return nil, err
	}
	c.addr = address
	dialled = append(dialled, c)
	return c, nil
}

// connect is an incoming connection to the port; it returns when the server has closed it
func connect(port string, c *conn) {
	l := listeners[":"+port]
	sym.Assert(l != nil, "the server listens on each of its addresses")
	if l == nil {
		return
	}
	c.done = make(chan bool)
	l.next = c
	l.ready <- true
	<-c.done
}

func frame(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	sym.Assume(err == nil)
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

func parse(frame []byte) *fcrmessages.FCRMessage {
	m, err := fcrmessages.FCRMsgFromBytes(frame)
	sym.Assert(err == nil && m != nil, "what is sent is a message")
	sym.Assume(err == nil && m != nil)
	return m
}

func same(a, b *fcrmessages.FCRMessage) bool {
	return a != nil && b != nil && a.GetMessageType() == b.GetMessageType() && string(a.GetMessageBody()) == string(b.GetMessageBody()) &&
		a.GetSignature() == b.GetSignature() && a.GetProtocolVersion() == b.GetProtocolVersion()
}

// register manager over a fixed list
func registered(gateways []register.GatewayRegister, providers []register.ProviderRegister) *fcrregistermgr.FCRRegisterMgr {
	request.VerifHTTP.Get = func(url string) ([]byte, error) {
		switch strings.TrimSuffix(url, "/") {
		case "http://register/registers/gateway":
			return json.Marshal(gateways)
		case "http://register/registers/provider":
			return json.Marshal(providers)
		}
		return nil, errors.New("no such resource")
	}
	mgr := fcrregistermgr.NewFCRRegisterMgr("http://register", true, true, time.Hour)
	sym.Assume(mgr.Start() == nil)
	mgr.Refresh()
	return mgr
}

func id(k byte) *nodeid.NodeID {
	b := make([]byte, 32)
	b[0], b[31] = k, 1
	n, err := nodeid.NewNodeIDFromBytes(b)
	sym.Assume(err == nil)
	return n
}

func gateway(k byte) register.GatewayRegister {
	t := string([]byte{'0' + k})
	return register.GatewayRegister{NodeID: id(k).ToString(), Address: "addr" + t, RootSigningKey: "root" + t, SigningKey: "key" + t, RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t + ":1", NetworkInfoProvider: "gw" + t + ":2", NetworkInfoClient: "gw" + t + ":3", NetworkInfoAdmin: "gw" + t + ":4"}
}

func provider(k byte) register.ProviderRegister {
	t := string([]byte{'0' + k})
	return register.ProviderRegister{NodeID: id(k).ToString(), Address: "addr" + t, RootSigningKey: "root" + t, SigningKey: "key" + t, RegionCode: "region" + t,
		NetworkInfoGateway: "pvd" + t + ":1", NetworkInfoClient: "pvd" + t + ":3", NetworkInfoAdmin: "pvd" + t + ":4"}
}
