package fcrp2pserver

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:redirect net.Listen verifListen
//verif:redirect net.Dial verifDial

// VerifPeer stands for the nodes that the server connects to: it is given each message that is sent to the address and
// returns what the node answers. No answer ends the connection.
var VerifPeer func(address string, m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage

type verifAddr string

func (a verifAddr) Network() string { return "tcp" }
func (a verifAddr) String() string  { return string(a) }

var errVerifClosed = errors.New("use of closed network connection")

// verifConn stands in for a TCP connection
type verifConn struct {
	lock    sync.Mutex
	address string
	in, out []byte
	dialled bool
	answers []*fcrmessages.FCRMessage
	reply   func(m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage
	closed  bool
	done    chan bool
}

func (c *verifConn) Read(p []byte) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if c.closed {
		return 0, errVerifClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *verifConn) Write(p []byte) (int, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if c.closed {
		return 0, errVerifClosed
	}
	c.out = append(c.out, p...)
	for len(c.out) >= 4 {
		n := int(binary.BigEndian.Uint32(c.out))
		if len(c.out) < 4+n {
			break
		}
		m, err := fcrmessages.FCRMsgFromBytes(append([]byte{}, c.out[4:4+n]...))
		sym.Assert(err == nil && m != nil, "what is sent to a peer is a message")
		sym.Assume(err == nil && m != nil)
		c.out = c.out[4+n:]
		if !c.dialled {
			c.answers = append(c.answers, m)
			if c.reply != nil {
				for _, a := range c.reply(m) {
					c.in = append(c.in, verifFrame(a)...)
				}
			}
			continue
		}
		if VerifPeer != nil {
			for _, a := range VerifPeer(c.address, m) {
				c.in = append(c.in, verifFrame(a)...)
			}
		}
	}
	return len(p), nil
}

func (c *verifConn) Close() error {
	c.lock.Lock()
	first := !c.closed
	c.closed = true
	c.lock.Unlock()
	if !first {
		return errVerifClosed
	}
	if c.done != nil {
		c.done <- true
	}
	return nil
}

func (c *verifConn) LocalAddr() net.Addr                { return verifAddr("local") }
func (c *verifConn) RemoteAddr() net.Addr               { return verifAddr("remote") }
func (c *verifConn) SetDeadline(t time.Time) error      { return nil }
func (c *verifConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *verifConn) SetWriteDeadline(t time.Time) error { return nil }

type verifListener struct {
	ready chan bool
	next  net.Conn
}

func (l *verifListener) Accept() (net.Conn, error) {
	<-l.ready
	return l.next, nil
}
func (l *verifListener) Close() error   { return nil }
func (l *verifListener) Addr() net.Addr { return verifAddr("listener") }

var verifListeners = map[string]*verifListener{}

func verifListen(network, address string) (net.Listener, error) {
	l := &verifListener{ready: make(chan bool)}
	verifListeners[address] = l
	return l, nil
}

func verifDial(network, address string) (net.Conn, error) {
	if VerifPeer == nil {
		return nil, errors.New("no network")
	}
	return &verifConn{address: address, dialled: true}, nil
}

func verifFrame(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	sym.Assume(err == nil)
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// VerifConnect connects to the server's port, sends the messages, and returns the answers.
func VerifConnect(port string, ms ...*fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
	return VerifTalk(port, nil, ms...)
}

// VerifTalk is VerifConnect that sends what reply makes of each answer.
func VerifTalk(port string, reply func(m *fcrmessages.FCRMessage) []*fcrmessages.FCRMessage, ms ...*fcrmessages.FCRMessage) []*fcrmessages.FCRMessage {
	l := verifListeners[":"+port]
	sym.Assert(l != nil, "the node listens on each of its addresses")
	sym.Assume(l != nil)
	c := &verifConn{reply: reply, done: make(chan bool)}
	for _, m := range ms {
		c.in = append(c.in, verifFrame(m)...)
	}
	l.next = c
	l.ready <- true
	<-c.done
	return c.answers
}
