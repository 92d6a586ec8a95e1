package core

import (
	"sync"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Several goroutines of a node send and consume at the same time, over two links and a dispatcher.
func Verif_P36_network() {
	vrt.Option("sched", []string{"", "unlock", "send", "last"}[vrt.Choose("scheduler", 4)])
	const senders, k = 3, 2
	var in [2]chan *protobuf.Message
	var d [2]*sync.Map
	var out [2]chan *protobuf.Message
	for i := range in {
		port := vrt.Port()
		in[i] = MakeReceiveChannel(port)
		out[i] = MakeSendChannel("127.0.0.1", port)
		d[i] = MakeDispatcheChannels(in[i], 4)
	}
	data := vrt.Bytes("data", 2)
	var got [2][senders]chan *protobuf.Message
	for i := range d {
		for g := 0; g < senders; g++ {
			got[i][g] = make(chan *protobuf.Message, 10)
			go func(i, g int) {
				for j := 0; j < k; j++ {
					got[i][g] <- vTake(d[i], "Value", string([]byte{byte(g)}))
				}
			}(i, g)
		}
	}
	for g := 0; g < senders; g++ {
		go func(g int) {
			for j := 0; j < k; j++ {
				// one message for everybody, as the parties send them
				m := Encapsulation("Value", []byte{byte(g)}, uint32(j), &protobuf.Value{Value: data})
				out[0] <- m
				out[1] <- m
			}
		}(g)
	}
	vrt.Quiesce()
	for i := range got {
		for g := range got[i] {
			vrt.Assert(len(got[i][g]) == k, "every message arrives")
			for j := 0; j < k; j++ {
				m := <-got[i][g]
				v := Decapsulation("Value", m).(*protobuf.Value)
				vrt.Assert(vrt.And(m.Sender == uint32(j), vrt.EqBytes(v.Value, data)), "what was sent")
			}
		}
	}
	vrt.Reach("received")
}

func vTake(d *sync.Map, t, id string) *protobuf.Message {
	a, _ := d.LoadOrStore(t, new(sync.Map))
	b, _ := a.(*sync.Map).LoadOrStore(id, make(chan *protobuf.Message, 16))
	return <-b.(chan *protobuf.Message)
}
