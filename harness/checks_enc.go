package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"net"
	"reflect"
	"strings"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/lrs"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
)

func init() {
	register("C17", "one evaluation is one value encoded and decoded and compared, one pair of different messages whose signed bytes are compared, or one string offered as a group element; directed edge cases and random values", runC17)
}

func bigVals(r *Rng) *big.Int {
	switch r.IntN(9) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(r.IntN(3) - 1))
	case 2:
		return new(big.Int).Lsh(one, uint(r.IntN(1200)))
	case 3:
		return new(big.Int).Neg(new(big.Int).Lsh(one, uint(r.IntN(1200))))
	case 4:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*r.IntN(150))), one)
	}
	v := bi(r.Bytes(1 + r.IntN(200)))
	if r.Bool() {
		v.Neg(v)
	}
	return v
}

// smallElems are group elements whose encodings have leading zero bytes.
var smallElems = func() (res []*big.Int) {
	for i := int64(1); len(res) < 24; i++ {
		if isElem(big.NewInt(i)) {
			res = append(res, big.NewInt(i))
		}
	}
	for k := uint(8); k < 512; k += 24 {
		v := new(big.Int).Lsh(one, k)
		for !isElem(v) {
			v.Add(v, one)
		}
		res = append(res, v)
	}
	return
}()

func elem(r *Rng) *big.Int {
	switch r.IntN(5) {
	case 0:
		return smallElems[r.IntN(len(smallElems))]
	case 1:
		for v := new(big.Int).Sub(grpP, big.NewInt(int64(1+r.IntN(50)))); ; v.Sub(v, one) {
			if isElem(v) {
				return v
			}
		}
	}
	return new(big.Int).Exp(bi(r.Bytes(80)), big.NewInt(2), grpP)
}

func secVal(r *Rng) *big.Int {
	switch r.IntN(6) {
	case 0:
		return big.NewInt(int64(r.IntN(3)))
	case 1:
		return new(big.Int).Sub(grpQ, big.NewInt(int64(1+r.IntN(3))))
	case 2:
		return new(big.Int).Rsh(grpQ, uint(8+8*r.IntN(60)))
	}
	return new(big.Int).Mod(bi(r.Bytes(80)), grpQ)
}

var addrs = []string{"", "1.2.3.4:443", "[2001:db8::1]:9001", "a", "\x00", "\x00\x00\x00", "ü€😀:1", "bridge with spaces, and\nnewlines", "\xff\xfe", strings.Repeat("x", 127),
	strings.Repeat("y", 128), strings.Repeat("z", 300), strings.Repeat("w", 20000), "vmess://eyJ2IjoiMiJ9==", "0"}

func runC17(c *Check) {
	c.Parallel("encodings", c.Scale(400, 12000), 8, func(i int, r *Rng) {
		same := func(kind string, in, out any, f func() bool) {
			ok := false
			pan, what := try(func() { ok = f() })
			c.decide(kind, fmt.Sprint(in), ok && !pan, true, kind+" are not decoded to what was encoded", oneLine(fmt.Sprint(in, " -> ", reflect.ValueOf(out).Elem(), " ", what), 600))
		}
		n := []int{0, 1, 2, 3, 10, 17, 40}[r.IntN(7)]
		// numbers
		ints := make([]*big.Int, n)
		for k := range ints {
			ints[k] = bigVals(r)
		}
		eqInts := func(a, b []*big.Int) bool {
			if len(a) != len(b) {
				return false
			}
			for k := range a {
				if a[k].Cmp(b[k]) != 0 {
					return false
				}
			}
			return true
		}
		var gotInts []*big.Int
		same("number lists", ints, &gotInts, func() bool {
			gotInts = util.ProtobufDecodeBigIntList(util.ProtobufEncodeBigIntList(ints))
			return eqInts(ints, gotInts)
		})
		v := bigVals(r)
		var gotInt *big.Int
		same("numbers", v, &gotInt, func() bool { gotInt = util.DecodeBigInt(util.EncodeBigInt(v)); return gotInt.Cmp(v) == 0 })
		// points and secrets
		pts := make([]abstract.Point, n)
		secs := make([]abstract.Secret, n)
		var pw, sw []*big.Int
		for k := range pts {
			pw = append(pw, elem(r))
			sw = append(sw, secVal(r))
			pts[k], secs[k] = pt(pw[k]), sec(sw[k])
		}
		var gotL []*big.Int
		same("point lists", pw, &gotL, func() bool {
			gotL = nil
			for _, p := range util.ProtobufDecodePointList(util.ProtobufEncodePointList(pts)) {
				gotL = append(gotL, pv(p))
			}
			return eqInts(pw, gotL)
		})
		same("secret lists", sw, &gotL, func() bool {
			gotL = nil
			for _, p := range util.ProtobufDecodeSecretList(util.ProtobufEncodeSecretList(secs)) {
				gotL = append(gotL, sv(p))
			}
			return eqInts(sw, gotL)
		})
		p, s := elem(r), secVal(r)
		same("points", p, &gotInt, func() bool { gotInt = pv(util.DecodePoint(suite, util.EncodePoint(pt(p)))); return gotInt.Cmp(p) == 0 })
		same("secrets", s, &gotInt, func() bool {
			gotInt = sv(util.DecodeSecret(suite, util.EncodeSecret(sec(s))))
			return gotInt.Cmp(s) == 0
		})
		same("points as numbers", p, &gotInt, func() bool {
			gotInt = util.PointToBigInt(util.BigIntToPoint(suite, p))
			return gotInt.Cmp(p) == 0 && util.PointToBigInt(pt(p)).Cmp(p) == 0
		})
		// flags and small numbers
		bits := make([]bool, []int{0, 1, 7, 8, 9, 80, 480}[r.IntN(7)])
		for k := range bits {
			bits[k] = r.Bool()
		}
		if r.IntN(5) == 0 {
			for k := range bits {
				bits[k] = i%2 == 0
			}
		}
		var gotBits []bool
		same("flag lists", bits, &gotBits, func() bool {
			gotBits = util.ProtobufDecodeBoolList(util.ProtobufEncodeBoolList(bits))
			return len(bits) == len(gotBits) && (len(bits) == 0 || reflect.DeepEqual(bits, gotBits))
		})
		small := make([]int, n)
		for k := range small {
			small[k] = []int{0, 1, -1, 5, -7, 127, 128, -128, 65536, 1 << 31, -1 << 31, 1<<62 + 1, -1 << 62, r.IntN(1000) - 500}[r.IntN(14)]
		}
		var gotSmall []int
		same("lists of changes", small, &gotSmall, func() bool {
			gotSmall = util.DecodeIntArray(util.EncodeIntArray(small))
			return len(small) == len(gotSmall) && (len(small) == 0 || reflect.DeepEqual(small, gotSmall))
		})
		u := []int{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1<<32 - 1, r.IntN(1 << 31)}[r.IntN(12)]
		var gotU int
		same("numbers in four bytes", u, &gotU, func() bool { gotU = util.ByteToInt(util.IntToByte(u)); return gotU == u })
		// byte strings
		arr := make([][]byte, n)
		for k := range arr {
			arr[k] = r.Bytes([]int{0, 1, 2, 64, 128, 300}[r.IntN(6)])
			if r.IntN(4) == 0 {
				for j := range arr[k] {
					arr[k][j] = 0
				}
			}
		}
		var gotArr [][]byte
		same("lists of byte strings", arr, &gotArr, func() bool {
			gotArr = util.Decode2DByteArray(util.Encode2DByteArray(arr))
			if len(arr) != len(gotArr) {
				return false
			}
			for k := range arr {
				if !bytes.Equal(arr[k], gotArr[k]) {
					return false
				}
			}
			return true
		})
		// proofs and signatures
		nn := &fujiokam.ARGnonneg{Commitrx: bigVals(r), C: bigVals(r), Cr: bigVals(r), R: bigVals(r), X_: bigVals(r), A_: bigVals(r), B_: bigVals(r), D_: bigVals(r), R_: bigVals(r)}
		var gotNN *fujiokam.ARGnonneg
		same("non-negative arguments", *nn, &gotNN, func() bool {
			gotNN = util.DecodeARGnonneg(util.EncodeARGnonneg(nn))
			return eqInts([]*big.Int{nn.Commitrx, nn.C, nn.Cr, nn.R, nn.X_, nn.A_, nn.B_, nn.D_, nn.R_},
				[]*big.Int{gotNN.Commitrx, gotNN.C, gotNN.Cr, gotNN.R, gotNN.X_, gotNN.A_, gotNN.B_, gotNN.D_, gotNN.R_})
		})
		eq := &pedersen_fujiokam.ARGequal{C: bigVals(r), S1: bigVals(r), S2: bigVals(r), S3: bigVals(r)}
		var gotEq *pedersen_fujiokam.ARGequal
		same("equality arguments", *eq, &gotEq, func() bool {
			gotEq = util.DecodeARGequal(util.EncodeARGequal(eq))
			return eqInts([]*big.Int{eq.C, eq.S1, eq.S2, eq.S3}, []*big.Int{gotEq.C, gotEq.S1, gotEq.S2, gotEq.S3})
		})
		rs := &lrs.Signature{Y0: bigVals(r), S: ints, C: append([]*big.Int{}, ints...)}
		var gotRS *lrs.Signature
		same("ring signatures", *rs, &gotRS, func() bool {
			gotRS = lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(rs))
			return gotRS.Y0.Cmp(rs.Y0) == 0 && eqInts(rs.S, gotRS.S) && eqInts(rs.C, gotRS.C)
		})
		fo := new(big.Int).Abs(bigVals(r))
		same("commitments", fo, &gotInt, func() bool {
			q := fujiokam.PointFromN(big.NewInt(7)).FromBinary(fujiokam.PointFromRaw(fo, big.NewInt(7)).ToBinary())
			gotInt = q.ToBigInt()
			return gotInt.Cmp(fo) == 0
		})
		// assignments
		as := make([]bridge.Assignment, n)
		for k := range as {
			as[k] = bridge.Assignment{NymR: pt(elem(r)), Addr: addrs[r.IntN(len(addrs))], Nym: pt(elem(r))}
		}
		eqA := func(a, b *bridge.Assignment) bool {
			return a.Addr == b.Addr && pv(a.Nym).Cmp(pv(b.Nym)) == 0 && pv(a.NymR).Cmp(pv(b.NymR)) == 0
		}
		var gotAs []bridge.Assignment
		same("lists of assignments", fmt.Sprint(as), &gotAs, func() bool {
			gotAs = bridge.DecodeAssignmentList(bridge.EncodeAssignmentList(as))
			if len(as) != len(gotAs) {
				return false
			}
			for k := range as {
				if !eqA(&as[k], &gotAs[k]) {
					return false
				}
			}
			return true
		})
		a := &bridge.Assignment{NymR: pt(elem(r)), Addr: addrs[i%len(addrs)], Nym: pt(elem(r))}
		var gotA *bridge.Assignment
		same("assignments", fmt.Sprint(*a), &gotA, func() bool {
			gotA = bridge.DecodeAssignment(bridge.EncodeAssignment(a))
			return eqA(a, gotA) && bytes.Equal(bridge.EncodeAssignment(gotA), bridge.EncodeAssignment(a))
		})
		// whole messages
		e := &proto.Event{EventType: r.IntN(30), SrcAddr: fmt.Sprintf("127.0.0.1:%d", 1+r.IntN(60000)), Params: map[string]interface{}{
			"b": r.Bytes(r.IntN(300)), "i": small0(r), "s": addrs[r.IntN(len(addrs)-2)], "t": r.Bool(), "e": []byte{}}}
		var gotE *proto.Event
		same("messages", fmt.Sprint(*e), &gotE, func() bool {
			var from *net.TCPAddr
			gotE, from = util.DecodeEvent(util.Encode(e))
			return sameEvent(e, gotE) && from.String() == e.SrcAddr
		})
		c.signedBytes(i, r)
		c.refusedPoints(i, r)
	})
	c.wire()
}

func small0(r *Rng) int {
	return []int{0, 1, -1, 5, 1 << 31, -1 << 40, r.IntN(1000) - 500}[r.IntN(7)]
}

func sameEvent(a, b *proto.Event) bool {
	if a.EventType != b.EventType || len(a.Params) != len(b.Params) {
		return false
	}
	for k, v := range a.Params {
		w := b.Params[k]
		if x, ok := v.([]byte); ok {
			y, ok := w.([]byte)
			if !ok || !bytes.Equal(x, y) {
				return false
			}
		} else if !reflect.DeepEqual(v, w) {
			return false
		}
	}
	return true
}

// signedBytes compares the signed bytes of two messages that differ in one field.
func (c *Check) signedBytes(i int, r *Rng) {
	diff := func(kind string, a, b map[string]interface{}, f func(map[string]interface{}) []byte, why string) {
		var x, y, z []byte
		pan, what := try(func() { x, y, z = f(a), f(b), f(clone(a)) })
		c.decide("signed bytes of "+kind, fmt.Sprintf("%s %x", why, x), !pan && !bytes.Equal(x, y) && bytes.Equal(x, z), true,
			"different messages have the same signed bytes: "+kind+", "+why, what)
	}
	req := map[string]interface{}{"ind": r.IntN(300), "nym": pad64(elem(r)), "FOCommd": r.Bytes(128), "PCommd": pad64(elem(r)), "PCommind": pad64(elem(r)),
		"rind": r.Bytes(64), "arg_nonneg": r.Bytes(1400), "arg_equal": r.Bytes(300)}
	change := func(ps map[string]interface{}, k string) map[string]interface{} {
		q := clone(ps)
		switch v := q[k].(type) {
		case []byte:
			q[k] = flip(v, r.IntN(len(v)*8))
		case int:
			q[k] = v + []int{1, -1, 2, 256, 65536, 1 << 24, 1 << 30}[r.IntN(7)]
		case string:
			q[k] = []string{v + "x", v + "\x00", strings.ToUpper(v) + "1", " " + v, v + v + "2"}[r.IntN(5)]
		}
		return q
	}
	for _, k := range []string{"ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"} {
		diff("requests", req, change(req, k), bridge.MessageOfRequestBridges, k)
	}
	sw := clone(req)
	sw["PCommd"], sw["PCommind"] = sw["PCommind"], sw["PCommd"]
	if !bytes.Equal(req["PCommd"].([]byte), req["PCommind"].([]byte)) {
		diff("requests", req, sw, bridge.MessageOfRequestBridges, "commitments swapped")
	}
	post := map[string]interface{}{"bridge_addr": addrs[r.IntN(len(addrs))], "nym": pad64(elem(r))}
	for _, k := range []string{"bridge_addr", "nym"} {
		diff("posts", post, change(post, k), bridge.MessageOfPostBridge, k)
	}
	a := bridge.EncodeAssignment(&bridge.Assignment{NymR: pt(elem(r)), Addr: addrs[r.IntN(9)], Nym: pt(elem(r))})
	cert := map[string]interface{}{"assignment": a, "signatures": util.Encode2DByteArray([][]byte{r.Bytes(128), r.Bytes(128)})}
	for _, k := range []string{"assignment", "signatures"} {
		diff("certificates", cert, change(cert, k), bridge.MessageOfGotSignatures, k)
	}
	vote := map[string]interface{}{"nym": pad64(elem(r)), "assignment": a, "signatures": cert["signatures"], "feedback": []int{1, -1}[r.IntN(2)]}
	for _, k := range []string{"nym", "assignment", "signatures"} {
		diff("votes", vote, change(vote, k), bridge.MessageOfVote, k)
	}
	o := clone(vote)
	o["feedback"] = -vote["feedback"].(int)
	diff("votes", vote, o, bridge.MessageOfVote, "feedback")
	o["feedback"] = vote["feedback"].(int) * (2 + r.IntN(1000))
	diff("votes", vote, o, bridge.MessageOfVote, "feedback")
	// different assignments have different encodings
	x, y, z := pt(elem(r)), pt(elem(r)), addrs[r.IntN(9)]
	if pv(x).Cmp(pv(y)) != 0 {
		e1 := bridge.EncodeAssignment(&bridge.Assignment{NymR: x, Addr: z, Nym: y})
		for k, o := range []*bridge.Assignment{{NymR: y, Addr: z, Nym: x}, {NymR: x, Addr: z, Nym: x}, {NymR: y, Addr: z, Nym: y}, {NymR: x, Addr: z + "0", Nym: y}} {
			c.decide("encodings of assignments", fmt.Sprintf("%d %x", k, e1), bytes.Equal(e1, bridge.EncodeAssignment(o)), false, "different assignments have the same encoding", fmt.Sprint(k))
		}
	}
}

// refusedPoints offers strings that do not encode a group element.
func (c *Check) refusedPoints(i int, r *Rng) {
	refuse := func(kind string, b []byte) {
		ok := accepts(func() bool { util.DecodePoint(suite, b); return true })
		c.decide("no group element: "+kind, fmt.Sprintf("%x", b), ok, false, "a string that encodes no group element is accepted as a point", kind+" "+hexs(b))
	}
	e := elem(r)
	refuse("nonresidue", pad64(new(big.Int).Sub(grpP, e)))
	refuse("zero", make([]byte, []int{64, 1}[i%2]))
	refuse("empty", nil)
	refuse("the modulus", pad64(grpP))
	if v := new(big.Int).Add(grpP, smallElems[r.IntN(len(smallElems))]); v.BitLen() <= 512 {
		refuse("above the modulus", pad64(v))
	}
	refuse("far above the modulus", cat([]byte{1}, pad64(e)))
	for k := 0; k < 4; k++ {
		v := bi(r.Bytes(64))
		ok := accepts(func() bool { util.DecodePoint(suite, pad64(v)); return true })
		c.decide("random strings as points", v.Text(62), ok, isElem(v), "a random string is taken, or refused, wrongly as a point", hexs(pad64(v)))
	}
	// the same inside a list
	good := util.ProtobufEncodePointList([]abstract.Point{pt(e), pt(elem(r))})
	k := bytes.Index(good, e.Bytes())
	if len(e.Bytes()) == 64 && k >= 0 {
		bad := cat(good[:k], pad64(new(big.Int).Sub(grpP, e)), good[k+64:])
		ok := accepts(func() bool { util.ProtobufDecodePointList(bad); return true })
		c.decide("no group element in a list", fmt.Sprintf("%x", bad), ok, false, "a string that encodes no group element is accepted as a point", "in a list")
	}
}

// wire sends messages of many sizes through the real sending function.
func (c *Check) wire() {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return
	}
	defer l.Close()
	got := make(chan []byte, 100)
	go func() {
		for {
			conn, err := l.AcceptTCP()
			if err != nil {
				return
			}
			data, _ := io.ReadAll(conn)
			conn.Close()
			got <- data
		}
	}()
	r := NewRng(c.Seed, "wire")
	for _, n := range []int{0, 1, 1000, 4095, 4096, 4097, 65535, 65536, 1 << 20, 8 << 20} {
		e := &proto.Event{EventType: 7, Params: map[string]interface{}{"b": r.Bytes(n), "i": -n, "s": "x", "t": true}}
		from, _ := net.ResolveTCPAddr("tcp", "127.0.0.1:4242")
		pan, what := try(func() { util.SendEvent(from, l.Addr().(*net.TCPAddr), e) })
		ok := false
		if !pan {
			data := <-got
			try(func() {
				o, a := util.DecodeEvent(data)
				ok = sameEvent(e, o) && a.String() == "127.0.0.1:4242"
			})
		}
		c.decide("messages over a connection", fmt.Sprint(n), ok, true, "a message does not arrive as it was sent", fmt.Sprint(n, " bytes ", what))
	}
}
