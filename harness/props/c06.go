package props

import (
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C06Flags: the flag conversions and predicates, for every flag byte.
func C06Flags() {
	v := sym.U8("flag")
	f := qrpc.FrameFlag(v)
	const (
		st, end, rst, nb, push, codec = 1, 2, 4, 8, 16, 32
	)
	sym.Assert(uint8(qrpc.StreamFlag) == st && uint8(qrpc.StreamEndFlag) == end && uint8(qrpc.StreamRstFlag) == rst &&
		uint8(qrpc.NBFlag) == nb && uint8(qrpc.PushFlag) == push && uint8(qrpc.CodecFlag) == codec, "flag bits")
	sym.Assert(uint8(f.ToNonStream()) == v&^(st|end), "ToNonStream")
	sym.Assert(uint8(f.ToStream()) == v|st, "ToStream")
	sym.Assert(uint8(f.ToEndStream()) == v|end, "ToEndStream")
	sym.Assert(uint8(f.ToCodec()) == v|codec, "ToCodec")
	sym.Assert(uint8(f.ToNonCodec()) == v&^codec, "ToNonCodec")
	stream := v&(st|end) != 0
	sym.Assert(f.IsStream() == stream, "IsStream")
	sym.Assert(f.IsNonBlock() == (v&(st|end|nb) != 0), "IsNonBlock")
	sym.Assert(f.IsDone() == (v&(st|end) == 0 || v&end != 0 || v&rst != 0), "IsDone")
	sym.Assert(f.IsRst() == (v&rst != 0), "IsRst")
	sym.Assert(f.IsPush() == (v&push != 0), "IsPush")
	sym.Assert(f.IsCodec() == (v&codec != 0), "IsCodec")
	sym.Log("nonstream", uint64(f.ToNonStream()))
	sym.Reach("flags")
}

// C06Cmd: command and opaque byte, for every 32-bit command and opaque byte.
func C06Cmd() {
	c := sym.U32("cmd")
	o := sym.U8("opaque")
	x := qrpc.CmdWithOpaque(qrpc.Cmd(c), o)
	sym.Assert(uint32(x.Routing()) == c&0xffff, "routing part kept")
	sym.Assert(x.Opaque() == o, "opaque byte kept")
	sym.Assert(uint32(x) <= qrpc.MaxCmd, "combined command fits 24 bits")
	sym.Assert(uint32(qrpc.Cmd(c).Routing()) == c&0xffff, "routing of any command")
	sym.Assert(qrpc.Cmd(c).Opaque() == uint8(c>>16), "opaque of any command")
	sym.Reach("cmd")
}
