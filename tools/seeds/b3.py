C="common/pkg/"
S("c09_exclude_last","C09","common","pkg/dhtring",[
 (C+"dhtring/dhtring.go","		r.remove(exclude)\n		if r.size != before {","		r.remove(exclude)\n		if r.size == 0 {\n			return res, nil\n		}\n		if r.size != before {")],
'''
package dhtring

import (
	"fmt"
	"testing"
)

func hexID(v int) string { return fmt.Sprintf("%064x", v) }

func TestDemo(t *testing.T) {
	r := CreateRing()
	r.Insert(hexID(5))
	r.GetClosest(hexID(7), 2, hexID(5))
	if r.Size() != 1 {
		t.Fatal("a lookup changes the ring", r.Size())
	}
}
''',"a ring of one entry, and a lookup that excludes it","the entry is lost from the ring")
S("c11_leak_empty","C11","common","pkg/dhtring",[
 (C+"dhtring/dhtring.go","			return res, errors.New(\"internal error\")\n		}\n		defer r.remove(endHex)","			return res, errors.New(\"internal error\")\n		}\n		if !addStart && startNode.next == endNode {\n			// Nothing in between\n			return res, nil\n		}\n		defer r.remove(endHex)")],
'''
package dhtring

import (
	"fmt"
	"testing"
)

func hexID(v int) string { return fmt.Sprintf("%064x", v) }

func TestDemo(t *testing.T) {
	r := CreateRing()
	for _, v := range []int{10, 20, 30} {
		r.Insert(hexID(v))
	}
	r.GetWithinRange(hexID(12), hexID(15))
	l, _ := r.GetWithinRange(hexID(11), hexID(25))
	if len(l) != 1 || l[0] != hexID(20) {
		t.Fatal("a range has", l)
	}
}
''',"a range without entries between bounds that are no entries, and a later range","the second bound stays in the ring and is told as an entry")
