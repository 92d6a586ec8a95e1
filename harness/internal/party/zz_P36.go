package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// Every harness here runs nodes whose messages travel by themselves (a goroutine per link, as in the network
// code), under different schedulers; that no two accesses of a node's memory are left unordered by its locks
// and channels is checked at every access.

func vSched() {
	k := []string{"", "unlock", "send", "last"}
	vrt.Option("sched", k[vrt.Choose("scheduler", len(k))])
}

// vWire connects the parties to one another (and to the next committee's).
func vWire(from, to []*HonestParty, next bool) {
	for i := range from {
		for j := range to {
			c := from[i].sendChannels[j]
			if next {
				c = from[i].sendToNextChannels[j]
			}
			go func(j int) {
				for m := range c {
					if m.Type == "Value" && len(m.Id) > len(vID)+4 && vrt.Symbolic() {
						if b := m.Id[len(vID):]; int(b[2])<<8|int(b[3]) > 1 {
							vrt.Stop() // an unlucky leader: the coin of later rounds is any
						}
					}
					vPut(to[j], m)
				}
			}(j)
		}
	}
}

// one goroutine per node runs the given steps
func vNodes(ps []*HonestParty, f func(p *HonestParty)) {
	done := vAll(ps, f)
	vrt.Quiesce()
	for i := range done {
		vrt.Assert(done[i], "every node finishes")
	}
}

func vHandoffRace(n, f uint32, leader int) {
	vLeaderAt(n, f, leader)
	sv := bls.VVar("secret")
	ps := make([]*HonestParty, n)
	for i := range ps {
		ps[i] = vParty(n, f, uint32(i))
		vSigner(ps[i])
	}
	c := &Client{HonestParty: vParty(n, f, 0x7fffffff)}
	c.SetSecret(bls.VFr(sv))
	vSched()
	vWire([]*HonestParty{c.HonestParty}, ps, false)
	vWire(ps, ps, false)
	vWire(ps, ps, true)
	go c.Share([]byte("vss"))
	vNodes(ps, func(p *HonestParty) {
		p.VSSShareReceive([]byte("vss"))
		p.PrepareSend([]byte("prepare"))
		p.PrepareReceive([]byte("prepare"))
		p.ShareReduceSend([]byte("reduce"))
		p.ShareReduceReceive([]byte("reduce"))
		vHandoff(p)
	})
	vCheckSharing(ps, int(f), sv)
	vrt.Reach("handed over")
}

// one committee from the dealing through a handoff to itself
func Verif_P36_handoff() { vHandoffRace(4, 1, vrt.Choose("leader", vMax(1, 4))) }

//verif:budget=200s
func Verif_P36_handoff_f2() { vHandoffRace(7, 2, 0) }

// two broadcasts at a time
func Verif_P36_broadcast() {
	const n, f = 4, 1
	ps := make([]*HonestParty, n)
	for i := range ps {
		ps[i] = vParty(n, f, uint32(i))
	}
	vSched()
	vWire(ps, ps, false)
	ids := [][]byte{[]byte("a"), []byte("b")}
	data := [][]byte{vrt.Bytes("a", 2), vrt.Bytes("b", 2)}
	var got [n][2]chan *protobuf.Message
	for i := range ps {
		for k := range ids {
			got[i][k] = make(chan *protobuf.Message, 1)
			go func(i, k int) { got[i][k] <- ps[i].RBCReceiveFrom(ids[k], uint32(k)) }(i, k)
		}
	}
	for k := range ids {
		go ps[k].RBCSend(&protobuf.Message{Type: "T", Id: ids[k], Sender: uint32(k), Data: data[k]}, ids[k])
	}
	vrt.Quiesce()
	for i := range ps {
		for k := range ids {
			vrt.Assert(len(got[i][k]) == 1, "delivered")
			m := <-got[i][k]
			vrt.Assert(m != nil && len(m.Data) == 2 && vrt.EqBytes(m.Data, data[k]), "what was sent")
		}
	}
	vrt.Reach("delivered")
}

// two agreements at a time
func Verif_P36_agreement() {
	const n, f = 4, 1
	vLeaderAt(n, f, vrt.Choose("leader", vMax(2, 4)))
	ps := make([]*HonestParty, n)
	for i := range ps {
		ps[i] = vParty(n, f, uint32(i))
		vSigner(ps[i])
	}
	vSched()
	vWire(ps, ps, false)
	var got [n]chan []byte
	for i := range ps {
		got[i] = make(chan []byte, 1)
		go func(i int) { got[i] <- MainProcess(ps[i], vID, []byte{byte(i)}, []byte{}) }(i)
	}
	vrt.Quiesce()
	var first []byte
	for i := range ps {
		vrt.Assert(len(got[i]) == 1, "decided")
		v := <-got[i]
		if i == 0 {
			first = v
		}
		vrt.Assert(string(v) == string(first), "agreed")
	}
	vrt.Reach("agreed")
}
