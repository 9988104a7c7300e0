package fcrrestserver

import (
	"errors"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

type handled struct {
	addr string
	typ  int32
	msg  *fcrmessages.FCRMessage
}

var got []handled

// a server with handlers of types 1 and 2 on port 80 and of types 2 and 3 on port 90
func open() *FCRRESTServer {
	s := NewFCRRESTServer([]string{"80", "90"})
	on := func(addr string, typ int32) {
		s.AddHandler(addr, typ, func(w rest.ResponseWriter, m *fcrmessages.FCRMessage) {
			got = append(got, handled{addr, typ, m})
			if typ == 3 {
				rest.Error(w, "bad", 400)
				return
			}
			w.WriteJson(m)
		})
	}
	on("80", 1)
	on("80", 2)
	on("90", 2)
	on("90", 3)
	on("70", 1)
	sym.Assume(s.Start() == nil)
	<-listened
	<-listened
	return s
}

func knows(port string, typ int32) bool {
	return port == "80" && (typ == 1 || typ == 2) || port == "90" && (typ == 2 || typ == 3)
}

func same(a, b *fcrmessages.FCRMessage) bool {
	return a != nil && b != nil && a.GetMessageType() == b.GetMessageType() && string(a.GetMessageBody()) == string(b.GetMessageBody()) &&
		a.GetSignature() == b.GetSignature() && a.GetProtocolVersion() == b.GetProtocolVersion()
}

// any messages
func VerifC29_dispatch() {
	open()
	for i := 0; i < sym.Bound("requests", 2, 3); i++ {
		port := []string{"80", "90"}[sym.Choose("port", 2)]
		m := fcrmessages.CreateFCRMessage(int32(sym.Uint32("type")), sym.Bytes("body", 3))
		b, err := m.FCRMsgToBytes()
		sym.Assume(err == nil)
		n := len(got)
		res := post(port, "/v1", "POST", b, nil)
		if !knows(port, m.GetMessageType()) {
			sym.Assert(res.status[0] == 400 && len(got) == n, "a message without handler is refused")
			continue
		}
		if len(got) != n+1 {
			sym.Fail("a message is handled once")
			return
		}
		sym.Assert(got[n].addr == port && got[n].typ == m.GetMessageType(), "a message goes to the handler of its address and type")
		sym.Assert(same(got[n].msg, m), "a message is handled as it was sent")
		if m.GetMessageType() == 3 {
			sym.Assert(res.status[0] == 400, "the status of the handler is sent")
			continue
		}
		ans, err := fcrmessages.FCRMsgFromBytes(res.out)
		sym.Assert(res.status[0] == 200 && err == nil && same(ans, m), "the answer of the handler is sent as it is")
		sym.Cover("answered")
	}
}

// bodies that are no message
func VerifC29_malformed() {
	open()
	var body []byte
	var broken error
	switch sym.Choose("what", 2) {
	case 0:
		body = []byte([]string{"", "x", "[]", "null", "{}", "{\"message_type\":\"a\"}", "{\"message_type\":1", "{\"message_type\":1}x", "\"\"", "{\"message_type\":99999999999}"}[sym.Choose("body", 10)])
	case 1:
		body, broken = []byte("{\"message_type\":1}"), errors.New("unexpected EOF")
	}
	res := post([]string{"80", "90"}[sym.Choose("port", 2)], "/v1", "POST", body, broken)
	sym.Assert(res.status[0] == 400 && len(got) == 0, "what is no message is refused")
	res = post("80", "/v1", "POST", []byte("{\"message_type\":1}"), nil)
	sym.Assert(res.status[0] == 200 && len(got) == 1, "the next message is handled")
}

// other paths and methods
func VerifC29_path() {
	open()
	res := post("80", []string{"/v1", "/", "/v2"}[sym.Choose("path", 3)], []string{"GET", "PUT", "DELETE"}[sym.Choose("method", 3)], []byte("{\"message_type\":1}"), nil)
	sym.Assert(res.status[0] >= 400 && len(got) == 0, "only posts are handled")
}

// handlers are fixed when the server starts
func VerifC29_start() {
	s := NewFCRRESTServer([]string{"80"})
	h := func(w rest.ResponseWriter, m *fcrmessages.FCRMessage) {
		got = append(got, handled{msg: m})
		w.WriteHeader(200)
	}
	sym.Assert(s.AddHandler("80", 1, h) == s, "AddHandler returns the server")
	noRouter = sym.Bool("fails")
	if noRouter {
		sym.Assert(s.Start() != nil, "a server that cannot start says so")
		return
	}
	sym.Assert(s.Start() == nil, "a server starts")
	<-listened
	sym.Assert(s.Start() != nil, "a server does not start twice")
	s.AddHandler("80", 2, h)
	res := post("80", "/v1", "POST", []byte("{\"message_type\":2}"), nil)
	sym.Assert(res.status[0] == 400 && len(got) == 0, "a handler cannot be added after the start")
	res = post("80", "/v1", "POST", []byte("{\"message_type\":1}"), nil)
	sym.Assert(res.status[0] == 200 && len(got) == 1, "a handler that was added before the start is called")
}
