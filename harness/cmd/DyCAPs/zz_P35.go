package main

import (
	"flag"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// vNode runs the program with the given arguments, as if in a process of its own.
func vNode(args ...string) {
	os.Args = append([]string{"node"}, args...)
	flag.CommandLine = flag.NewFlagSet("node", flag.PanicOnError)
	go main()
	time.Sleep(200 * time.Millisecond)
}

func vList(name string, l []string, end string) {
	err := os.WriteFile(name, []byte(strings.Join(l, "\n")+end), 0600)
	vrt.Assert(err == nil, "the list is written")
}

// vDeploy writes the address lists (of n or more lines) and generates the keys.
func vDeploy(n, f, more int) (ips, ports [2][]string, role func(op string, i int)) {
	vrt.Scratch()
	used := map[string]bool{}
	lines, end := n+more, ""
	if lines == n {
		end = "\n"
	}
	for c, next := range []string{"", "Next"} {
		for len(ips[c]) < lines {
			if x := vrt.Port(); !used[x] {
				used[x] = true
				ips[c] = append(ips[c], "127.0.0."+strconv.Itoa(c+1))
				ports[c] = append(ports[c], x)
			}
		}
		vList("./ipList"+next, ips[c], end)
		vList("./portList"+next, ports[c], end)
	}
	ns, fs := strconv.Itoa(n), strconv.Itoa(f)
	vNode("-n", ns, "-f", fs, "-op1", "1")
	return ips, ports, func(op string, i int) {
		vNode("-n", ns, "-f", fs, "-op2", op, "-id", strconv.Itoa(i), "-mp", ".", "-lp", ".", "-t1", "4", "-t2", "5", "-t3", "6")
	}
}

func vFinished(name string) bool {
	b, err := os.ReadFile(name)
	return err == nil && strings.Count(string(b), "\n") > 0
}

// The whole deployment: a dealer, an old and a new committee, each node a run of the program with its
// own arguments; up to F nodes of the old committee are silent. Every other node finishes.
func Verif_P35_two_committees() { vTwoCommittees(4, 1) }

//verif:replay=none
func Verif_P35_two_committees_f2() { vTwoCommittees(7, 2) }

func vDeployments() int {
	if vrt.Thorough() {
		return 4
	}
	return 2
}
func vTwoCommittees(n, f int) {
	// which old members are silent, which committee starts first, whether the lists are longer than needed
	kinds := [][3]int{{n - f, 0, 1}, {-f, 1, 0}, {0, 0, 0}, {-f, 0, 0}}
	kind := kinds[vrt.Choose("deployment", vDeployments())]
	ips, ports, role := vDeploy(n, f, kind[2])
	dead := func(i int) bool { return kind[0] <= i && i < kind[0]+f }
	var finished bool
	for k := 0; k < 2; k++ {
		for i := 0; i < n; i++ {
			switch {
			case (kind[1]+k)%2 == 1 && i == 0: // a member that uses the library, with keys of threshold 2F+1
				sk, pk := party.SigKeyGenFix_New(uint32(n), uint32(2*f+1))
				p := party.NewHonestParty(1, uint32(n), uint32(f), 0, ips[1][:n], ports[1][:n], nil, nil, pk, sk[0])
				p.InitReceiveChannel()
				go func() {
					time.Sleep(4 * time.Second)
					p.InitSendChannel()
					p.PrepareReceive([]byte("shareReduce"))
					p.ShareReduceReceive([]byte("shareReduce"))
					p.ProactivizeAndShareDist([]byte("ProactivizeAndShareDist"))
					finished = true
				}()
			case (kind[1]+k)%2 == 1:
				role("newCommittee", i)
			case dead(i):
				core.MakeReceiveChannel(ports[0][i])
			default:
				role("oldCommittee", i)
			}
		}
	}
	role("client", 12345)
	time.Sleep(13 * time.Second)
	for i := 0; i < n; i++ {
		vrt.Assert(dead(i) || vFinished("./logold"+strconv.Itoa(i)), "every old party finishes")
		vrt.Assert(i == 0 && finished || i > 0 && vFinished("./lognew"+strconv.Itoa(i)), "every new party finishes")
	}
}

// One committee that hands over to itself.
func Verif_P35_one_committee() {
	const n, f = 4, 1
	ips, ports, role := vDeploy(n, f, 0)
	sk, pk := party.SigKeyGenFix(n, 2*f+1)
	p := party.NewHonestParty(1, n, f, 0, ips[0], ports[0], ips[0], ports[0], pk, sk[0])
	p.InitReceiveChannel()
	finished := false
	go func() {
		time.Sleep(4 * time.Second)
		p.InitSendChannel()
		p.InitSendToNextChannel()
		p.VSSShareReceive([]byte("vssshare"))
		p.PrepareSend([]byte("shareReduce"))
		p.PrepareReceive([]byte("shareReduce"))
		p.ShareReduceSend([]byte("shareReduce"))
		p.ShareReduceReceive([]byte("shareReduce"))
		p.ProactivizeAndShareDist([]byte("ProactivizeAndShareDist"))
		finished = true
	}()
	for i := 1; i < 4; i++ {
		role("onlyOneCommittee", i)
	}
	role("client", 12345)
	time.Sleep(13 * time.Second)
	vrt.Assert(finished, "a party with keys of threshold 2F+1 finishes")
	for i := 1; i < 4; i++ {
		vrt.Assert(vFinished("./log"+strconv.Itoa(i)), "every party finishes")
	}
}

func vLag(x, y []bls.VS, t bls.VS) bls.VS {
	r := bls.VK(0)
	for i := range x {
		num, den := y[i], bls.VK(1)
		for j := range x {
			if j != i {
				num = bls.VMul(num, bls.VSub(t, x[j]))
				den = bls.VMul(den, bls.VSub(x[i], x[j]))
			}
		}
		r = bls.VAdd(r, bls.VMul(num, bls.VInv(den)))
	}
	return r
}

// What the old nodes hand to the members of the new committee is a sharing of the dealer's secret,
// and goes to the right member.
func Verif_P35_secret() {
	const n, f = 4, 1
	_, ports, role := vDeploy(n, f, 1)
	var in [n]chan *protobuf.Message
	for j := range in {
		in[j] = core.MakeReceiveChannel(ports[1][j])
	}
	for i := 0; i < n; i++ {
		role("oldCommittee", i)
	}
	role("client", 12345)
	time.Sleep(9 * time.Second)
	var v [n][n]bls.VS
	for j := range in {
		cnt := 0
		for k := len(in[j]); k > 0; k-- {
			m := <-in[j]
			if m.Type != "ShareReduce" {
				continue
			}
			var d protobuf.ShareReduce
			vrt.Assert(proto.Unmarshal(m.Data, &d) == nil && m.Sender < n, "the contribution decodes")
			var b [32]byte
			var x bls.Fr
			copy(b[:], d.V)
			bls.FrFrom32(&x, b)
			v[m.Sender][j] = bls.VOf(&x)
			cnt++
		}
		vrt.Assert(cnt == n, "every old member contributes to every new one")
	}
	a, b := vrt.Choose("first", n), vrt.Choose("second", n)
	vrt.Assume(a < b)
	out := vrt.Choose("but", n)
	var xs, ys []bls.VS
	for j := 0; j < n; j++ {
		if j != out {
			xs = append(xs, bls.VK(uint64(j+1)))
			ys = append(ys, vLag([]bls.VS{bls.VK(uint64(a + 1)), bls.VK(uint64(b + 1))}, []bls.VS{v[a][j], v[b][j]}, bls.VK(0)))
		}
	}
	vrt.Assert(bls.VEq(vLag(xs, ys, bls.VK(0)), bls.VK(111111111111111)), "any F+1 contributions to any 2F+1 members are a sharing of the dealer's secret")
	vrt.Reach("shared")
}
