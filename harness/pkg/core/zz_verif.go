package core

import (
	"sync"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vMax(q, t int) int {
	if vrt.Thorough() {
		return t
	}
	return q
}

func vSame(a, b *protobuf.Message) bool {
	return vrt.And(a.Type == b.Type, a.Sender == b.Sender, vrt.EqBytes(a.Id, b.Id), vrt.EqBytes(a.Data, b.Data))
}

func vDrain(c chan *protobuf.Message) []*protobuf.Message {
	var r []*protobuf.Message
	for {
		select {
		case m := <-c:
			r = append(r, m)
		default:
			return r
		}
	}
}

// vDone runs a step and reports whether it returned.
func vDone(f func()) bool {
	var mu sync.Mutex
	ok := false
	go func() {
		f()
		mu.Lock()
		ok = true
		mu.Unlock()
	}()
	vrt.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	return ok
}
