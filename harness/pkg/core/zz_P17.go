package core

import (
	"sync"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Messages of arbitrary identifiers arrive in a row: each is queued once, in order, under its own type
// and identifier only.
//verif:tier=quick budget=45s
func Verif_P17_dispatch() {
	n := uint32(1 + vrt.Choose("N", 2))
	in := make(chan *protobuf.Message, 10)
	d := MakeDispatcheChannels(in, n+2)
	k := 1 + vrt.Choose("messages", vMax(3, 4))
	ids := [][]byte{vrt.Bytes("id", 2), vrt.Bytes("id", 2), vrt.Bytes("id", vrt.Choose("short", 2))}
	types := []string{"RBCEcho", "RBC"}
	var ms []*protobuf.Message
	for i := 0; i < k; i++ {
		m := &protobuf.Message{Type: types[vrt.Choose("type", 2)], Id: ids[vrt.Choose("which", 3)], Sender: uint32(i), Data: []byte{byte(i)}}
		ms = append(ms, m)
		in <- m
	}
	vrt.Quiesce()
	// read every queue
	left := append([]*protobuf.Message{}, ms...)
	total := 0
	for _, t := range types {
		for _, id := range ids {
			v, ok := d.Load(t)
			if !ok {
				continue
			}
			q, ok := v.(*sync.Map).Load(string(id))
			if !ok {
				continue
			}
			for _, m := range vDrain(q.(chan *protobuf.Message)) {
				total++
				vrt.Assert(m.Type == t && vrt.EqBytes(m.Id, id), "a queue only holds messages of its type and identifier")
				for i, x := range left {
					if x != nil && x.Type == t && vrt.EqBytes(x.Id, id) {
						vrt.Assert(x == m || vSame(x, m), "messages of a queue arrive in order")
						left[i] = nil
						break
					}
				}
			}
		}
	}
	vrt.Assert(total == k, "every message is queued exactly once")
	for _, x := range left {
		vrt.Assert(x == nil, "no message is lost")
	}
}
