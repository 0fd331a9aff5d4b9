package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc/codegen/pb"
)

// text returns n bytes of which the first and the last are free.
func text(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	if n > 0 {
		b[0], b[n-1] = sym.U8("first"), sym.U8("last")
	}
	return b
}

func sameCall(m *pb.RpcRequest, ns, method, params []byte) bool {
	return len(m.NS) == len(ns) && len(m.Method) == len(method) && len(m.Params) == len(params) &&
		sym.And(sym.EqBytes([]byte(m.NS), ns), sym.And(sym.EqBytes([]byte(m.Method), method), sym.EqBytes(m.Params, params)))
}

// C29RoundTrip: encode and decode any envelope.
func C29RoundTrip() {
	sizes := []int{0, 1, 2, 127, 128, 300, 16384}
	if !sym.Thorough() {
		sizes = []int{0, 1, 2, 127, 128, 300}
	}
	ns, method, params := text(sizes[sym.Choose("ns", len(sizes))]), text(sizes[sym.Choose("method", len(sizes))]), text(sizes[sym.Choose("params", len(sizes))])
	m := &pb.RpcRequest{NS: string(ns), Method: string(method), Params: params}
	b, err := m.Marshal()
	sym.Assert(err == nil && len(b) == m.Size(), "encodes to the announced size")
	sym.Assert(sameCall(m, ns, method, params), "encoding keeps the envelope")
	if sym.Choose("into", 2) == 1 {
		big := make([]byte, len(b)+2)
		big[len(b)], big[len(b)+1] = 7, 9
		n, err := m.MarshalTo(big)
		sym.Assert(err == nil && n == len(b) && sym.EqBytes(big[:n], b) && big[n] == 7 && big[n+1] == 9, "encoding into a buffer is the same and stays within the size")
	}
	var d pb.RpcRequest
	sym.Assert(d.Unmarshal(b) == nil && sameCall(&d, ns, method, params), "decodes to the same call")
	sym.Assert(d.GetNS() == d.NS && d.GetMethod() == d.Method && len(d.GetParams()) == len(d.Params), "accessors agree")
	for i := range b {
		b[i] = 0
	}
	sym.Assert(sameCall(&d, ns, method, params), "the decoded call does not share the input")
	d.Reset()
	sym.Assert(sameCall(&d, nil, nil, nil) && d.Size() == 0, "reset empties")
	sym.Reach("roundtrip")
}

func uvarint(b []byte, v uint64, pad int) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	for ; pad > 0; pad-- {
		b = append(b, byte(v)|0x80)
		v = 0
	}
	return append(b, byte(v))
}

// unknown appends a field the envelope does not define.
func unknown(b []byte, depth int) []byte {
	n := 5
	if depth > 1 {
		n = 4
	}
	num := uint64([]int{4, 1 << 20}[sym.Choose("num", 2)])
	switch sym.Choose("wire", n) {
	case 0:
		return uvarint(uvarint(b, num<<3, 0), []uint64{1, ^uint64(0)}[sym.Choose("varint", 2)], 0)
	case 1:
		return append(uvarint(b, num<<3|1, 0), sym.BytesN("fix64", 8)...)
	case 2:
		p := sym.Bytes("bytes", 2)
		return append(uvarint(uvarint(b, num<<3|2, 0), uint64(len(p)), 0), p...)
	case 3:
		return append(uvarint(b, num<<3|5, 0), sym.BytesN("fix32", 4)...)
	}
	b = uvarint(b, num<<3|3, 0)
	most := 1
	if sym.Thorough() && depth == 0 {
		most = 2
	}
	for i := sym.Choose("members", most+1); i > 0; i-- {
		b = unknown(b, depth+1)
	}
	return uvarint(b, num<<3|4, 0)
}

// C29Fields: envelopes by other encoders: any order, repeats, fields of later versions.
func C29Fields() {
	var b, rest []byte
	var v [3][]byte
	for i := 1 + sym.Choose("fields", 2); i > 0; i-- {
		k := sym.Choose("field", 4)
		if k == 3 {
			u := unknown(nil, 0)
			b, rest = append(b, u...), append(rest, u...)
			continue
		}
		p := sym.Bytes("p", 2)
		b = uvarint(b, uint64(k+1)<<3|2, sym.Choose("padtag", 2))
		b = append(uvarint(b, uint64(len(p)), sym.Choose("padlen", 2)), p...)
		v[k] = p
	}
	var m pb.RpcRequest
	sym.Assert(m.Unmarshal(b) == nil, "a well formed envelope decodes")
	sym.Assert(sameCall(&m, v[0], v[1], v[2]), "to the last value of each field")
	e, err := m.Marshal()
	sym.Assert(err == nil && len(e) == m.Size(), "encodes again")
	var d pb.RpcRequest
	sym.Assert(d.Unmarshal(e) == nil && sameCall(&d, v[0], v[1], v[2]), "to the same call")
	sym.Assert(len(e) >= len(rest) && sym.EqBytes(e[len(e)-len(rest):], rest), "with the unknown fields")
	sym.Reach("fields")
}

// within decodes b[:n] and checks that nothing behind it counts.
func within(b []byte, n int) {
	var m, d pb.RpcRequest
	err := m.Unmarshal(b[:n])
	sym.Assert(len(m.NS)+len(m.Method)+len(m.Params) <= n, "no more than there was")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	c := append([]byte{}, b[:n]...)
	sym.Assert(d.Unmarshal(c[:n:n]) == nil && sameCall(&d, []byte(m.NS), []byte(m.Method), m.Params), "only the input counts")
	e, err := m.Marshal()
	var r pb.RpcRequest
	sym.Assert(err == nil && r.Unmarshal(e) == nil && sameCall(&r, []byte(m.NS), []byte(m.Method), m.Params), "what was accepted round-trips")
}

// C29Garbage: any bytes.
func C29Garbage() {
	n := 7
	if sym.Thorough() {
		n = 8
	}
	p := sym.Bytes("in", n)
	within(append(append([]byte{}, p...), 1, 2, 3, 4, 5, 6, 7, 8), len(p))
}

// C29Length: fields and groups with any 64-bit length.
func C29Length() {
	var b []byte
	for i := sym.Choose("groups", 3); i > 0; i-- {
		b = append(b, 4<<3|3)
	}
	b = append(b, byte(1+sym.Choose("field", 4))<<3|2)
	v := sym.U64("len")
	for i := 0; i < 9; i++ {
		b = append(b, byte(v>>uint(7*i))|0x80)
	}
	b = append(b, byte(v>>63)|byte(sym.Choose("over", 2)<<1))
	b = append(b, sym.Bytes("tail", 2)...)
	n := len(b)
	within(append(b, 1, 2, 3, 4), n)
}

// C29Short: well formed envelopes cut short.
func C29Short() {
	var b []byte
	ends := []int{0}
	for i := 0; i < 2; i++ {
		if k := sym.Choose("field", 4); k == 3 {
			b = unknown(b, 1)
		} else {
			p := sym.BytesN("p", 2)
			b = append(append(b, byte(k+1)<<3|2, 2), p...)
		}
		ends = append(ends, len(b))
	}
	n := sym.Choose("cut", len(b)+1)
	whole := false
	for _, k := range ends {
		whole = whole || k == n
	}
	var m pb.RpcRequest
	err := m.Unmarshal(b[:n])
	sym.Assert((err == nil) == whole, "a cut envelope is refused")
	sym.Reach("short")
}

// C29Deep: groups nested deeper than any stack.
func C29Deep() {
	sym.SmallStack()
	n := 12000
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, 4<<3|3)
	}
	if sym.Choose("closed", 2) == 1 {
		for i := 0; i < n; i++ {
			b = append(b, 4<<3|4)
		}
	}
	b = append(b, sym.Bytes("tail", 2)...)
	var m pb.RpcRequest
	m.Unmarshal(b)
	sym.Reach("deep")
}
