package handlers

import (
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"io"
	"net/http"

	"github.com/go-openapi/runtime"
	"github.com/go-openapi/runtime/middleware"
	"github.com/go-redis/redis/v8"

	"github.com/ConsenSys/fc-retrieval/register/models"
	gop "github.com/ConsenSys/fc-retrieval/register/restapi/operations/gateway"
	pop "github.com/ConsenSys/fc-retrieval/register/restapi/operations/provider"
	sym "github.com/ConsenSys/fc-retrieval/register/verifsym"
)

//verif:fresh
//verif:redirect github.com/go-redis/redis/v8.NewClient verifNewClient

// hashes of the store, in the order of their first entry
type hash struct {
	name   string
	fields []string
	values []string
}

type store struct {
	hashes  []*hash
	left    int  // commands that it still does
	failing bool // whether it fails then
	failed  bool
}

var db *store

func (s *store) hash(name string) *hash {
	for _, h := range s.hashes {
		if h.name == name {
			return h
		}
	}
	h := &hash{name: name}
	s.hashes = append(s.hashes, h)
	return h
}

func (h *hash) find(field string) int {
	for i, f := range h.fields {
		if f == field {
			return i
		}
	}
	return -1
}

func verifNewClient(o *redis.Options) *redis.Client {
	o.IdleTimeout, o.IdleCheckFrequency = -1, -1
	c := redis.NewClient(o)
	c.AddHook(db)
	return c
}

var errHandled, errDown = errors.New("handled"), errors.New("connection refused")

// BeforeProcess keeps the command from being sent
func (s *store) BeforeProcess(ctx context.Context, cmd redis.Cmder) (context.Context, error) {
	return ctx, errHandled
}

func (s *store) BeforeProcessPipeline(ctx context.Context, cmds []redis.Cmder) (context.Context, error) {
	return ctx, errHandled
}

func text(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case encoding.BinaryMarshaler:
		b, err := v.MarshalBinary()
		sym.Assume(err == nil)
		return string(b)
	}
	sym.Assume(false)
	return ""
}

// AfterProcess does what the server does
func (s *store) AfterProcess(ctx context.Context, cmd redis.Cmder) error {
	var err error
	if s.failing && s.left == 0 {
		err, s.failed = errDown, true
	}
	if s.failing && s.left > 0 {
		s.left--
	}
	a := cmd.Args()
	h := s.hash(text(a[1]))
	switch text(a[0]) {
	case "hset", "hmset":
		n := int64(0)
		for i := 2; err == nil && i+1 < len(a); i += 2 {
			f, v := text(a[i]), text(a[i+1])
			if k := h.find(f); k >= 0 {
				h.values[k] = v
			} else {
				h.fields, h.values = append(h.fields, f), append(h.values, v)
				n++
			}
		}
		switch c := cmd.(type) {
		case *redis.IntCmd:
			*c = *redis.NewIntResult(n, err)
		case *redis.BoolCmd: // HMSet
			*c = *redis.NewBoolResult(true, err)
		}
	case "hsetnx":
		f, v := text(a[2]), text(a[3])
		k := h.find(f)
		if err == nil && k < 0 {
			h.fields, h.values = append(h.fields, f), append(h.values, v)
		}
		*cmd.(*redis.BoolCmd) = *redis.NewBoolResult(err == nil && k < 0, err)
	case "hexists":
		*cmd.(*redis.BoolCmd) = *redis.NewBoolResult(err == nil && h.find(text(a[2])) >= 0, err)
	case "hlen":
		*cmd.(*redis.IntCmd) = *redis.NewIntResult(int64(len(h.fields)), err)
	case "hkeys":
		*cmd.(*redis.StringSliceCmd) = *redis.NewStringSliceResult(append([]string{}, h.fields...), err)
	case "hvals":
		*cmd.(*redis.StringSliceCmd) = *redis.NewStringSliceResult(append([]string{}, h.values...), err)
	case "hget":
		v := ""
		if k := h.find(text(a[2])); err == nil && k >= 0 {
			v = h.values[k]
		} else if err == nil {
			err = redis.Nil
		}
		*cmd.(*redis.StringCmd) = *redis.NewStringResult(v, err)
	case "hgetall":
		m := map[string]string{}
		for i, f := range h.fields {
			if err == nil {
				m[f] = h.values[i]
			}
		}
		*cmd.(*redis.StringStringMapCmd) = *redis.NewStringStringMapResult(m, err)
	case "hdel":
		n := int64(0)
		for _, f := range a[2:] {
			if k := h.find(text(f)); err == nil && k >= 0 {
				h.fields = append(append([]string{}, h.fields[:k]...), h.fields[k+1:]...)
				h.values = append(append([]string{}, h.values[:k]...), h.values[k+1:]...)
				n++
			}
		}
		*cmd.(*redis.IntCmd) = *redis.NewIntResult(n, err)
	case "del":
		n := int64(0)
		for _, f := range a[1:] {
			if d := s.hash(text(f)); err == nil && len(d.fields) > 0 {
				d.fields, d.values = nil, nil
				n++
			}
		}
		*cmd.(*redis.IntCmd) = *redis.NewIntResult(n, err)
	default:
		sym.Assume(false)
	}
	return nil
}

// AfterProcessPipeline: pipelines are outside of what is explored
func (s *store) AfterProcessPipeline(ctx context.Context, cmds []redis.Cmder) error {
	sym.Assume(false)
	return nil
}

type recorder struct {
	code int
	body []byte
}

func (r *recorder) Header() http.Header { return http.Header{} }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// answer of a handler; a panic ends the connection
func answer(f func() middleware.Responder) *recorder {
	r := &recorder{}
	if sym.Try(func() {
		f().WriteResponse(r, runtime.ProducerFunc(func(w io.Writer, v interface{}) error {
			b, err := json.Marshal(v)
			if err == nil {
				_, err = w.Write(b)
			}
			return err
		}))
	}) {
		return &recorder{code: 500}
	}
	return r
}

// entry is how gateways, providers and clients read one
type entry struct {
	NodeID              string `json:"nodeId"`
	Address             string `json:"address"`
	RootSigningKey      string `json:"rootSigningKey"`
	SigningKey          string `json:"signingKey"`
	RegionCode          string `json:"regionCode"`
	NetworkInfoGateway  string `json:"networkInfoGateway"`
	NetworkInfoProvider string `json:"networkInfoProvider"`
	NetworkInfoClient   string `json:"networkInfoClient"`
	NetworkInfoAdmin    string `json:"networkInfoAdmin"`
}

func anEntry(provider bool, id string) entry {
	s := func(t string) string { return sym.String(t, 2) }
	address := ""
	if id == ids[0] {
		address = s("address")
	}
	e := entry{id, address, s("root key"), s("key"), s("region"), s("gateway"), "", s("client"), s("admin")}
	if !provider {
		e.NetworkInfoProvider = s("provider")
	}
	return e
}

// post registers the entry as it is sent
func post(provider bool, e entry) *recorder {
	b, err := json.Marshal(e)
	sym.Assume(err == nil)
	if provider {
		p := &models.ProviderRegister{}
		sym.Assume(json.Unmarshal(b, p) == nil)
		return answer(func() middleware.Responder { return AddProviderRegister(pop.AddProviderRegisterParams{Register: p}) })
	}
	g := &models.GatewayRegister{}
	sym.Assume(json.Unmarshal(b, g) == nil)
	return answer(func() middleware.Responder { return AddGatewayRegister(gop.AddGatewayRegisterParams{Register: g}) })
}

func list(provider bool) *recorder {
	if provider {
		return answer(func() middleware.Responder { return GetProviderRegisters(pop.GetProviderRegistersParams{}) })
	}
	return answer(func() middleware.Responder { return GetGatewayRegisters(gop.GetGatewayRegistersParams{}) })
}

func get(provider bool, id string) *recorder {
	if provider {
		return answer(func() middleware.Responder {
			return GetProviderRegisterByID(pop.GetProviderRegistersByIDParams{ID: id})
		})
	}
	return answer(func() middleware.Responder { return GetGatewayRegisterByID(gop.GetGatewayRegistersByIDParams{ID: id}) })
}

func remove(provider bool) *recorder {
	if provider {
		return answer(func() middleware.Responder { return DeleteProviderRegisters(pop.DeleteProviderRegisterParams{}) })
	}
	return answer(func() middleware.Responder { return DeleteGatewayRegisters(gop.DeleteGatewayRegisterParams{}) })
}

func (r *recorder) failed() bool { return r.code >= 400 }

// lists: whether the answer is the list of the entries
func (r *recorder) lists(want []entry) bool {
	var l []entry
	if r.code != 200 || json.Unmarshal(r.body, &l) != nil || len(l) != len(want) {
		return false
	}
	for _, w := range want {
		n := 0
		for _, e := range l {
			if e.NodeID == w.NodeID {
				n++
				if e != w {
					return false
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func (r *recorder) tells(e entry) bool {
	var x entry
	return r.code == 200 && json.Unmarshal(r.body, &x) == nil && x == e
}

var ids = []string{"0a", "0b"}

func VerifC34_history() {
	db = &store{}
	var model [2][]entry
	for i, n := 0, sym.Bound("requests", 4, 5); i < n; i++ {
		provider := sym.Choose("provider", 2) == 1
		k := 0
		if provider {
			k = 1
		}
		op := sym.Choose("request", 3)
		if op == 0 {
			r := remove(provider)
			sym.Assert(r.code == 200, "all are deleted")
			model[k] = nil
			continue
		}
		e := anEntry(provider, ids[op-1])
		r := post(provider, e)
		sym.Assert(r.tells(e), "an entry is registered")
		at := -1
		for j := range model[k] {
			if model[k][j].NodeID == e.NodeID {
				at = j
			}
		}
		if at < 0 {
			model[k] = append(model[k], e)
		} else {
			model[k] = append([]entry{}, model[k]...)
			model[k][at] = e
		}
	}
	for k := 0; k < 2; k++ {
		sym.Assert(list(k == 1).lists(model[k]), "the list is what was registered")
		for _, id := range ids {
			r, found := get(k == 1, id), false
			for _, e := range model[k] {
				if e.NodeID == id {
					found = true
					sym.Assert(r.tells(e), "an entry is told as it was registered")
				}
			}
			sym.Assert(found || r.code == 404, "there is no other entry")
		}
	}
}

// when the store fails, at once or at a later command of the request, no request is answered with a success
func VerifC34_down() {
	db = &store{}
	provider := sym.Choose("provider", 2) == 1
	e := anEntry(provider, ids[0])
	for i, n := 0, sym.Choose("registered", 3); i < n; i++ {
		sym.Assume(post(provider, anEntry(provider, ids[i])).code == 200)
	}
	db.failing, db.left = true, sym.Choose("commands before", sym.Bound("commands before the failure", 4, 6))
	var r *recorder
	switch sym.Choose("request", 4) {
	case 0:
		r = post(provider, e)
	case 1:
		r = list(provider)
	case 2:
		r = get(provider, ids[0])
	default:
		r = remove(provider)
	}
	sym.Assert(r.failed() || !db.failed, "a failure of the store is told")
}
