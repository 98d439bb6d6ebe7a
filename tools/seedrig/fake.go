package main

import (
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// fakeServer takes the place of a server: it passes tables and registrations on unchanged and signs assignments.
type fakeServer struct {
	*peer
	sk   abstract.Secret
	pk   abstract.Point
	prev string
	next string
	// replaces what it does with an event, if it returns true
	hook func(e *proto.Event) bool
}

func newFakeServer() *fakeServer {
	s := &fakeServer{peer: newPeer()}
	s.sk = suite.Secret().Pick(random.Stream)
	s.pk = suite.Point().Mul(nil, s.sk)
	s.next = C.addr
	send(C.addr, s.addr, proto.SERVER_REGISTER, map[string]interface{}{"public_key": util.EncodePoint(s.pk)})
	e := s.wait(proto.SERVER_REGISTER_REPLY, 1)
	s.prev = e.Params["prev_server"].(string)
	h := point(bytesOf(e, "h"))
	h.Mul(h, suite.Secret().Pick(random.Stream))
	send(C.addr, s.addr, proto.UPDATE_PEDERSEN_H, map[string]interface{}{"h": util.EncodePoint(h)})
	go s.run()
	flush()
	return s
}

func (s *fakeServer) run() {
	for i := 0; ; {
		s.mu.Lock()
		var e *proto.Event
		if i < len(s.got) {
			e = s.got[i]
			i++
		}
		s.mu.Unlock()
		if e == nil {
			pause()
			continue
		}
		if s.hook == nil || !s.hook(e) {
			s.handle(e)
		}
	}
}

func (s *fakeServer) handle(e *proto.Event) {
	ps := e.Params
	switch e.EventType {
	case proto.UPDATE_NEXT_HOP:
		s.next = ps["next_hop"].(string)
	case proto.ANNOUNCEMENT:
		if _, ok := ps["g"]; !ok {
			ps["g"] = util.EncodePoint(suite.Point().Base())
		}
		send(s.next, s.addr, proto.ANNOUNCEMENT, ps)
	case proto.CLIENT_REGISTER_SERVERSIDE:
		send(s.next, s.addr, e.EventType, ps)
	case proto.ROUND_END:
		delete(ps, "is_start")
		send(s.prev, s.addr, e.EventType, ps)
	case proto.SIGN_ASSIGNMENTS:
		send(C.addr, s.addr, proto.GOT_SIGNS, s.sign(e))
	}
}

// sign makes the answer to a request for signatures.
func (s *fakeServer) sign(e *proto.Event) map[string]interface{} {
	var sigs [][]byte
	for _, a := range bridge.DecodeAssignmentList(bytesOf(e, "assignments")) {
		a := a
		sigs = append(sigs, util.ElGamalSign(suite, random.Stream, bridge.EncodeAssignment(&a), s.sk, nil))
	}
	return map[string]interface{}{"success": true, "assignments": bytesOf(e, "assignments"), "signatures": util.Encode2DByteArray(sigs)}
}
