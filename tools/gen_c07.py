#!/usr/bin/env python3
"""Writes harness/common/pkg/fcrmessages/c07_catalogue.go: one round-trip harness and one hostile-body harness per message
kind, from the signatures of the Encode/Decode pairs. Run by hand when a message is added; the output is committed."""
import re, glob, os
src = "/repo/common/pkg/fcrmessages"
out = ["""package fcrmessages

// Written by tools/gen_c07.py.

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	sym "github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

var _, _, _ = json.Marshal, cid.NewContentID, nodeid.NewNodeID
"""]
KIND = {"*cid.ContentID": "cidp", "*nodeid.NodeID": "nodep", "nodeid.NodeID": "node", "int64": "int64", "int32": "int32", "bool": "bool",
 "string": "str", "[]string": "strs", "[][]string": "strss", "[]bool": "bools", "[]uint64": "u64s", "[]int64": "i64s", "uint64": "u64", "uint32": "u32",
 "[]nodeid.NodeID": "nodes", "[]cid.ContentID": "cids", "[]FCRMessage": "msgs", "*FCRMessage": "msgp", "FCRMessage": "msg",
 "[]cidoffer.SubCIDOffer": "subs", "[]cidoffer.CIDOffer": "offers", "*cidoffer.CIDOffer": "offerp", "cidoffer.CIDOffer": "offer",
 "*fcrmerkletree.FCRMerkleProof": "proofp", "fcrmerkletree.FCRMerkleProof": "proof", "*fcrcrypto.KeyPair": "keyp", "*fcrcrypto.KeyVersion": "verp"}
def cap(k): return k[0].upper() + k[1:]
names, cnt = [], 0
for f in sorted(glob.glob(src + "/*.go")):
    if f.endswith("_test.go") or os.path.basename(f) in ("type.go", "fcrmessage.go", "dump.go"): continue
    s = open(f).read()
    e = re.search(r'func Encode(\w+)\(([^{]*?)\) \(\*FCRMessage, error\)', s, re.S)
    d = re.search(r'func Decode(\w+)\(fcrMsg \*FCRMessage\) (.*?)\{\n', s, re.S)
    st = re.search(r'type \w+ struct \{(.*?)\n\}', s, re.S)
    name = e.group(1); assert d.group(1) == name
    params = []
    flat = re.sub(r'\s+', ' ', re.sub(r'//.*', '', e.group(2))).strip().strip(',')
    pend = []
    for p in [x.strip() for x in flat.split(',') if x.strip()]:
        parts = p.split(' ', 1)
        pend.append(parts[0])
        if len(parts) == 2:
            params += [(q, KIND[parts[1].strip()]) for q in pend]; pend = []
    res = re.sub(r'\s+', ' ', re.sub(r'//[^\n]*', '', d.group(2))).strip()
    res = [x.strip() for x in res.strip('() ').split(',') if x.strip()]
    assert res[-1] == "error", (name, res)
    rk = [KIND[r] for r in res[:-1]]
    fields = re.findall(r'(\S+)\s+`json:"(.*?)"', st.group(1)) if st else []
    # round trip
    o = ["", "func VerifC07_rt%s() {" % name]
    args = []
    for i, (p, k) in enumerate(params):
        o.append('\ta%d := v%s("%s")' % (i, cap(k), p)); args.append("a%d" % i)
    o.append("\tm, err := Encode%s(%s)" % (name, ", ".join(args)))
    o.append('\tsym.Assert(err == nil && m != nil, "message encodes")')
    o.append("\tm = vWire(m)")
    rs = ["r%d" % i for i in range(len(rk))]
    lhs = ", ".join(rs + ["err"])
    o.append("\t%s %s Decode%s(m)" % (lhs, ":=" if rs else "=", name))
    o.append('\tsym.Assert(err == nil, "message decodes")')
    for i, k in enumerate(rk):
        o.append('\tsym.Assert(vEq%s(a%d, r%d), "%s kept")' % (cap(k), i, i, params[i][0]))
    o.append("\tt := int32(sym.Uint32(\"another type\"))")
    o.append("\tsym.Assume(t != m.GetMessageType())")
    o.append("\t%s = Decode%s(CreateFCRMessage(t, m.GetMessageBody()))" % (", ".join(["_"] * len(rk) + ["err"]), name))
    o.append('\tsym.Assert(err != nil, "another message type is refused")')
    o.append("}")
    # hostile
    if fields:
        o += ["", "func VerifC07_hostile%s() {" % name, "\tw := map[string]interface{}{}", "\tgood := true"]
        n = len(fields)
        o.append('\tomit := sym.Choose("omitted field", %d)' % (n + 1))
        for i, (t, tag) in enumerate(fields):
            k = KIND[t]
            if tag in ("piece_cid", "cid_min", "cid_max"): h = "hCID"
            elif tag in ("gateway_id", "client_id", "provider_id") and k == "str": h = "hNode"
            elif tag in ("gateway_ids", "contacted_gateways", "uncontactable_gateways", "provider_ids", "gateway_id"): h = "hNodes"
            elif tag == "cids": h = "hCIDs"
            elif tag == "private_key": h = "hKey"
            else: h = "h" + cap(k)
            o.append('\tw["%s"] = %s("%s", &good, omit == %d)' % (tag, h, tag, i))
            o.append('\tif omit == %d {\n\t\tdelete(w, "%s")\n\t}' % (i, tag))
        o.append("\tbody, err := json.Marshal(w)")
        o.append('\tsym.Assert(err == nil, "marshals")')
        o.append("\tm, err := Encode%s(%s)" % (name, ", ".join("z%s()" % cap(k) for _, k in params)))
        o.append('\tsym.Assume(err == nil)')
        o.append('\tsym.Assert(!sym.Try(func() {')
        o.append("\t\tvar e error")
        for i, (r, k) in enumerate(zip(res[:-1], rk)): o.append("\t\tvar r%d %s" % (i, r)) if False else None
        o = [x for x in o if x is not None]
        o.append("\t\t%s := Decode%s(CreateFCRMessage(m.GetMessageType(), body))" % (", ".join(rs + ["e2"]), name))
        o.append("\t\te = e2")
        o.append('\t\tif omit == %d {\n\t\t\tsym.Assert((e == nil) == good, "accepted exactly when its ids and keys are well formed")\n\t\t}' % n)
        o.append("\t\tif e != nil {\n\t\t\treturn\n\t\t}")
        for i, k in enumerate(rk):
            o.append('\t\tuse%s(r%d)' % (cap(k), i))
        o.append('\t}), "no panic on any body")')
        o.append("}")
    out += o
    names.append(name)
# pairwise: no kind is taken for another
out += ["", "func vKinds() (kinds []string, msgs []*FCRMessage) {", "\tadd := func(k string, m *FCRMessage, err error) {",
 "\t\tsym.Assume(err == nil)", "\t\tkinds, msgs = append(kinds, k), append(msgs, m)", "\t}"]
for f in sorted(glob.glob(src + "/*.go")):
    if f.endswith("_test.go") or os.path.basename(f) in ("type.go", "fcrmessage.go", "dump.go"): continue
    s = open(f).read()
    e = re.search(r'func Encode(\w+)\(([^{]*?)\) \(\*FCRMessage, error\)', s, re.S)
    flat = re.sub(r'\s+', ' ', re.sub(r'//.*', '', e.group(2))).strip().strip(',')
    ks, pend = [], 0
    for p in [x.strip() for x in flat.split(',') if x.strip()]:
        parts = p.split(' ', 1); pend += 1
        if len(parts) == 2: ks += [KIND[parts[1].strip()]] * pend; pend = 0
    out += ["\t{", "\t\tm, err := Encode%s(%s)" % (e.group(1), ", ".join("z%s()" % cap(k) for k in ks)), '\t\tadd("%s", m, err)' % e.group(1), "\t}"]
out += ["\treturn", "}"]
open("/verif/harness/common/pkg/fcrmessages/c07_catalogue.go", "w").write("\n".join(out) + "\n")
print(len(names))
