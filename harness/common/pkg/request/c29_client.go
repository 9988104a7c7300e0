package request

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"net/http"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

//verif:fresh
//verif:body net/http

// body is the body of a response
type body struct {
	r       io.Reader
	readErr error
	closed  bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.readErr != nil {
		err = b.readErr
	}
	return n, err
}
func (b *body) Close() error { b.closed = true; return nil }

// network is the transport of the HTTP client
type network struct {
	down   bool
	status int
	answer func(sent []byte) []byte
	broken error // the body of the answer breaks off
	reqs   []*http.Request
	sent   [][]byte
	bodies []*body
}

func (n *network) RoundTrip(r *http.Request) (*http.Response, error) {
	var sent []byte
	if r.Body != nil {
		sent, _ = ioutil.ReadAll(r.Body)
		r.Body.Close()
	}
	n.reqs = append(n.reqs, r)
	n.sent = append(n.sent, sent)
	if n.down {
		return nil, errors.New("connection refused")
	}
	var ans []byte
	if n.answer != nil {
		ans = n.answer(sent)
	}
	b := &body{r: bytes.NewReader(ans), readErr: n.broken}
	n.bodies = append(n.bodies, b)
	return &http.Response{StatusCode: n.status, Status: statusText(n.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, Request: r}, nil
}

func statusText(k int) string {
	return string([]byte{byte('0' + k/100), byte('0' + k/10%10), byte('0' + k%10)})
}

func internet() *network {
	n := &network{status: 200}
	http.DefaultTransport = n
	return n
}

func (n *network) released() bool {
	for _, b := range n.bodies {
		if !b.closed {
			return false
		}
	}
	return true
}

func sameMsg(a, b *fcrmessages.FCRMessage) bool {
	return a != nil && b != nil && a.GetMessageType() == b.GetMessageType() && string(a.GetMessageBody()) == string(b.GetMessageBody()) &&
		a.GetSignature() == b.GetSignature() && a.GetProtocolVersion() == b.GetProtocolVersion()
}


// messages of any content are sent and answered
func VerifC29_send() {
	n := internet()
	c := NewHttpCommunicator()
	for i := 0; i < 2; i++ {
		m := fcrmessages.CreateFCRMessage(int32(sym.Uint32("type")), sym.Bytes("body", 3))
		a := fcrmessages.CreateFCRMessage(int32(sym.Uint32("answer type")), sym.Bytes("answer", 3))
		got := []byte(nil)
		n.answer = func(sent []byte) []byte {
			got = sent
			b, err := a.FCRMsgToBytes()
			sym.Assume(err == nil)
			return b
		}
		ans, err := c.SendMessage("host:80", m)
		sym.Assert(err == nil && sameMsg(ans, a), "the answer is returned as it was sent")
		if len(n.reqs) != i+1 {
			sym.Fail("a message is sent once")
			return
		}
		r := n.reqs[i]
		sym.Assert(r.Method == "POST" && r.URL.Scheme == "http" && r.URL.Host == "host:80" && r.URL.Path == "/v1", "a message is posted to its host")
		sym.Assert(r.Header.Get("Content-Type") == "application/json", "a message is sent as JSON")
		s, err := fcrmessages.FCRMsgFromBytes(got)
		sym.Assert(err == nil && sameMsg(s, m), "the message is sent as it is")
		sym.Assert(n.released(), "the connection is released")
	}
}

// what goes wrong is an error, the connection is released, and the next message is sent
func VerifC29_send_faults() {
	n := internet()
	c := NewHttpCommunicator()
	m := fcrmessages.CreateFCRMessage(1, []byte("{}"))
	n.answer = func(sent []byte) []byte { return sent }
	switch sym.Choose("what", 4) {
	case 0:
		n.down = true
	case 1:
		n.status = sym.IntRange("status", 100, 599)
		sym.Assume(n.status != 200)
	case 2:
		n.broken = errors.New("connection reset by peer")
	case 3:
		bad := []string{"", "x", "[]", "{\"message_type\":\"a\"}", "{\"message_type\":1"}[sym.Choose("answer", 5)]
		n.answer = func(sent []byte) []byte { return []byte(bad) }
	}
	_, err := c.SendMessage("host:80", m)
	sym.Assert(err != nil, "a message that is not answered well is an error")
	sym.Assert(n.released(), "the connection is released")
	*n = network{status: 200, answer: func(sent []byte) []byte { return sent }}
	ans, err := c.SendMessage("host:80", m)
	sym.Assert(err == nil && sameMsg(ans, m), "the next message is answered")
}

// get, post and delete of resources
func VerifC29_resources() {
	n := internet()
	c := NewHttpCommunicator()
	text := sym.Bytes("content", 4)
	n.answer = func(sent []byte) []byte { return text }
	fault := sym.Choose("what", 4)
	switch fault {
	case 1:
		n.down = true
	case 2:
		n.status = sym.IntRange("status", 400, 599)
	case 3:
		n.broken = errors.New("connection reset by peer")
	}
	switch sym.Choose("method", 4) {
	case 0:
		got, err := c.GetJSON("http://host/r")
		if fault == 0 {
			sym.Assert(err == nil && bytes.Equal(got, text), "a resource is returned as it is")
		} else {
			sym.Assert(err != nil, "a resource that cannot be got is an error")
		}
		sym.Assert(len(n.reqs) == 1 && n.reqs[0].Method == "GET", "a resource is asked for once")
	case 1:
		err := c.SendJSON("http://host/r", map[string]string{"a": "b"})
		if fault == 0 {
			sym.Assert(err == nil, "what is accepted is no error")
		} else if fault != 3 {
			sym.Assert(err != nil, "a resource that is not accepted is an error")
		}
		sym.Assert(len(n.reqs) == 1 && n.reqs[0].Method == "POST" && string(n.sent[0]) == "{\"a\":\"b\"}", "a resource is posted once, as it is")
	case 2:
		err := c.Delete("http://host/r")
		if fault == 0 {
			sym.Assert(err == nil, "what is deleted is no error")
		} else if fault != 3 {
			sym.Assert(err != nil, "a resource that is not deleted is an error")
		}
		sym.Assert(len(n.reqs) == 1 && n.reqs[0].Method == "DELETE", "a resource is deleted once")
	case 3:
		err := c.SendJSON("http://host/r", func() {})
		sym.Assert(err != nil && len(n.reqs) == 0, "what is not JSON is not sent")
		return
	}
	r := n.reqs[0]
	sym.Assert(r.URL.Scheme == "http" && r.URL.Host == "host" && r.URL.Path == "/r", "the resource is the one that is named")
	sym.Assert(n.released(), "the connection is released")
}

// threads that send at the same time get their own answers
func VerifC29_send_threads() {
	n := internet()
	c := NewHttpCommunicator()
	n.answer = func(sent []byte) []byte { return sent }
	sym.Threads(sym.Bound("preemptions", 2, 3))
	sym.Race()
	one := func(k byte) func() {
		return func() {
			m := fcrmessages.CreateFCRMessage(1, []byte{k})
			ans, err := c.SendMessage("host:80", m)
			sym.Assert(err == nil && sameMsg(ans, m), "every thread gets its own answer")
		}
	}
	sym.Par(one(1), one(2))
}
