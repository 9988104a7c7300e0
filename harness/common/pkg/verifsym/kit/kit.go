// Package kit builds symbolic values of the repository's types for the harnesses.
package kit

import (
	"bytes"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

// NodeID is a node id of 32 symbolic bytes.
func NodeID(label string) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromBytes(sym.Bytes(label, 32))
	sym.Assume(err == nil && n != nil)
	return n
}

// CID is a content id of 32 symbolic bytes.
func CID(label string) *cid.ContentID {
	c, err := cid.NewContentIDFromBytes(sym.Bytes(label, 32))
	sym.Assume(err == nil && c != nil)
	return c
}

// CIDs is a list of n symbolic content ids.
func CIDs(label string, n int) []cid.ContentID {
	var l []cid.ContentID
	for i := 0; i < n; i++ {
		l = append(l, *CID(label))
	}
	return l
}

// Wide is a 32-byte value with w symbolic bytes spread from the first to the last one (w > 1).
func Wide(label string, w int) []byte {
	v := sym.Bytes(label, w)
	b := make([]byte, 32)
	for i, x := range v {
		b[(i*31)/(w-1)] = x
	}
	return b
}

// WideNodeID is a node id made of Wide bytes.
func WideNodeID(label string, w int) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromBytes(Wide(label, w))
	sym.Assume(err == nil && n != nil)
	return n
}

// WideCID is a content id made of Wide bytes.
func WideCID(label string, w int) *cid.ContentID {
	n, err := cid.NewContentIDFromBytes(Wide(label, w))
	sym.Assume(err == nil && n != nil)
	return n
}

// Key is the k-th test key pair: a private key, and a key pair that only has the public key.
func Key(k int) (priv, pub *fcrcrypto.KeyPair) {
	priv, err := fcrcrypto.DecodeRawPrivateKey(sym.Key(k))
	sym.Assume(err == nil && priv != nil)
	enc, err := priv.EncodePublicKey()
	sym.Assume(err == nil)
	pub, err = fcrcrypto.DecodePublicKey(enc)
	sym.Assume(err == nil && pub != nil)
	return priv, pub
}

// Version is a key version with a symbolic number.
func Version(label string) *fcrcrypto.KeyVersion { return fcrcrypto.DecodeKeyVersion(sym.Uint32(label)) }

func SameNode(a, b *nodeid.NodeID) bool {
	return a != nil && b != nil && bytes.Equal(a.ToBytes(), b.ToBytes())
}

func SameCID(a, b *cid.ContentID) bool {
	return a != nil && b != nil && bytes.Equal(a.ToBytes(), b.ToBytes())
}

func SameCIDs(a, b []cid.ContentID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].ToBytes(), b[i].ToBytes()) {
			return false
		}
	}
	return true
}
