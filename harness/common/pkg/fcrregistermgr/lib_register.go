package fcrregistermgr

import (
	"encoding/json"
	"errors"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym/kit"
)

//verif:fresh
//verif:with common/pkg/request/stub_http.go
//verif:with common/pkg/fcrregistermgr/stub_timer.go

// reg stands in for the register server
type reg struct {
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister
	body      []byte // if not nil, what it answers
	down      bool
	posted    []interface{}
	removed   []string
}

func serve() *reg {
	g := &reg{}
	request.VerifHTTP.Get = func(url string) ([]byte, error) {
		if g.down {
			return nil, errors.New("register is down")
		}
		if g.body != nil {
			return g.body, nil
		}
		switch strings.TrimSuffix(url, "/") {
		case "http://register/registers/gateway":
			return json.Marshal(g.gateways)
		case "http://register/registers/provider":
			return json.Marshal(g.providers)
		}
		return nil, errors.New("no such resource")
	}
	request.VerifHTTP.Post = func(url string, data interface{}) error {
		if g.down {
			return errors.New("register is down")
		}
		g.posted = append(g.posted, data)
		return nil
	}
	request.VerifHTTP.Remove = func(url string) error { g.removed = append(g.removed, url); return nil }
	return g
}

func manager() *FCRRegisterMgr {
	return NewFCRRegisterMgr("http://register", true, true, time.Hour)
}

func gatewayOf(id *nodeid.NodeID, k int) register.GatewayRegister {
	t := string(rune('a' + k))
	return register.GatewayRegister{NodeID: id.ToString(), Address: "addr" + t, RootSigningKey: "root" + t, SigningKey: "key" + t, RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t, NetworkInfoProvider: "pvd" + t, NetworkInfoClient: "client" + t, NetworkInfoAdmin: "admin" + t}
}

func providerOf(id *nodeid.NodeID, k int) register.ProviderRegister {
	t := string(rune('a' + k))
	return register.ProviderRegister{NodeID: id.ToString(), Address: "addr" + t, RootSigningKey: "root" + t, SigningKey: "key" + t, RegionCode: "region" + t,
		NetworkInfoGateway: "gw" + t, NetworkInfoClient: "client" + t, NetworkInfoAdmin: "admin" + t}
}

// different node ids
func nodes(n, width int) []*nodeid.NodeID {
	var l []*nodeid.NodeID
	for i := 0; i < n; i++ {
		id := kit.WideNodeID("node", width)
		for _, o := range l {
			sym.Assume(!kit.SameNode(id, o))
		}
		l = append(l, id)
	}
	return l
}

// node ids in ascending order
func ascendingNodes(n int) []*nodeid.NodeID {
	var l []*nodeid.NodeID
	for i := 0; i < n; i++ {
		id := kit.WideNodeID("node", 2)
		if i > 0 {
			sym.Assume(l[i-1].ToString() < id.ToString())
		}
		l = append(l, id)
	}
	return l
}

func sameGateway(g register.GatewayRegistrar, want register.GatewayRegister) bool {
	return g != nil && g.Serialize() == want
}

func sameProvider(g register.ProviderRegistrar, want register.ProviderRegister) bool {
	return g != nil && g.Serialize() == want
}

// a value with one symbolic byte
func short(label string) []byte {
	b := make([]byte, 32)
	b[0] = sym.Byte(label)
	return b
}

// node ids of one byte, in ascending order
func shortNodes(n int) []*nodeid.NodeID {
	var l []*nodeid.NodeID
	for i := 0; i < n; i++ {
		b := short("node")
		if i > 0 {
			sym.Assume(l[i-1].ToBytes()[0] < b[0])
		}
		id, err := nodeid.NewNodeIDFromBytes(b)
		sym.Assume(err == nil)
		l = append(l, id)
	}
	return l
}
