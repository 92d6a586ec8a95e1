package party

import (
	"bytes"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	sigbls "github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
)

func vKeyShape() (n, t int) {
	shapes := [][2]int{{4, 3}, {4, 2}, {7, 5}, {5, 1}, {7, 3}}
	s := shapes[vrt.Choose("shape", vMax(3, len(shapes)))]
	return s[0], s[1]
}

// vOneKey: the shares lie on one polynomial of degree t-1 and the public commitment is its own.
func vOneKey(sks []*share.PriShare, pk *share.PubPoly, n, t int) bls.VS {
	vrt.Assert(len(sks) == n, "one share per party")
	vrt.Assert(pk.Threshold() == t, "the commitment has the degree of the threshold")
	v := make([]bls.VS, n)
	for i, s := range sks {
		vrt.Assert(s.I == i, "the shares are numbered from 0")
		v[i] = vKV(s.V)
	}
	var secret bls.VS
	for k, sub := range vSubsets(n, t) {
		var x, y []bls.VS
		for _, i := range sub {
			x = append(x, bls.VK(uint64(i+1)))
			y = append(y, v[i])
		}
		s := vLag(x, y, bls.VK(0))
		if k == 0 {
			secret = s
		}
		vrt.Assert(bls.VEq(s, secret), "every quorum of shares determines the same key")
		for i := range v {
			vrt.Assert(bls.VEq(vLag(x, y, bls.VK(uint64(i+1))), v[i]), "the shares lie on one polynomial of degree t-1")
		}
	}
	vrt.Assert(pk.Commit().Equal(vSuite.G2().Point().Mul(vKS(secret), nil)), "the committee key is the one of the shares")
	for i := range v {
		vrt.Assert(pk.Eval(i).V.Equal(vSuite.G2().Point().Mul(sks[i].V, nil)), "the public commitment matches every share")
	}
	return secret
}

func vSigs(sks []*share.PriShare, pk *share.PubPoly, n, t int, msg []byte) {
	ts := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	var parts [][]byte
	for _, sk := range sks {
		s, err := ts.Sign(sk, msg)
		vrt.Assert(err == nil, "signing succeeds")
		vrt.Assert(ts.VerifyPartial(pk, msg, s) == nil, "correct shares verify")
		parts = append(parts, s)
	}
	var first []byte
	for _, sub := range vSubsets(n, t) {
		var ss [][]byte
		for _, i := range sub {
			ss = append(ss, parts[i])
		}
		sig, err := ts.Recover(pk, msg, ss, t, n)
		vrt.Assert(err == nil, "a quorum of shares combines")
		if first == nil {
			first = sig
		}
		vrt.Assert(bytes.Equal(sig, first), "every quorum gives the same signature")
		vrt.Assert(sigbls.NewSchemeOnG1(kyberbls.NewBLS12381Suite()).Verify(pk.Commit(), msg, sig) == nil, "the signature verifies under the committee key")
		if t > 1 {
			_, err = ts.Recover(pk, msg, ss[:t-1], t, n)
			vrt.Assert(err != nil, "fewer shares do not combine")
			_, err = ts.Recover(pk, msg, append(append([][]byte{}, ss[:t-1]...), ss[0]), t, n)
			vrt.Assert(err != nil, "a repeated share does not help")
		}
	}
}

func Verif_P29_generated() {
	n, t := vKeyShape()
	sks, pk := SigKeyGen(uint32(n), uint32(t))
	vOneKey(sks, pk, n, t)
}

// signatures under arbitrary keys, over an arbitrary message
func Verif_P29_sign() {
	n, t := vKeyShape()
	sks, pk := SigKeyGen(uint32(n), uint32(t))
	vSigs(sks, pk, n, t, vrt.Bytes("msg", 3))
}

// share verification accepts exactly the correct share of the claimed index
func Verif_P29_forged_share() {
	n, t := 4, 3
	sks, pk := SigKeyGen(uint32(n), uint32(t))
	ts := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	msg := []byte("message")
	who := vrt.Choose("index", n)
	x := bls.VVar("x")
	h := vSuite.G1().Point().(interface{ Hash([]byte) kyber.Point }).Hash(msg)
	b, _ := vSuite.G1().Point().Mul(vKS(x), h).MarshalBinary()
	forged := append([]byte{0, byte(who)}, b...)
	vrt.Assert(vrt.Iff(ts.VerifyPartial(pk, msg, forged) == nil, bls.VEq(x, vKV(sks[who].V))), "a share is accepted exactly if it is the claimed party's")
}

// the same stored coefficients give every party the same keys, old and new committee apart
func Verif_P29_stored() {
	vrt.Scratch()
	n, t := vKeyShape()
	GenCoefficientsFile(n, t)
	a, pa := SigKeyGenFix(uint32(n), uint32(t))
	b, pb := SigKeyGenFix(uint32(n), uint32(t))
	s := vOneKey(a, pa, n, t)
	for i := range a {
		vrt.Assert(bls.VEq(vKV(a[i].V), vKV(b[i].V)), "every party derives the same shares")
	}
	vrt.Assert(pa.Equal(pb), "every party derives the same commitment")
	c, pc := SigKeyGenFix_New(uint32(n), uint32(t))
	d, pd := SigKeyGenFix_New(uint32(n), uint32(t))
	s2 := vOneKey(c, pc, n, t)
	for i := range c {
		vrt.Assert(bls.VEq(vKV(c[i].V), vKV(d[i].V)), "every new party derives the same shares")
	}
	vrt.Assert(pc.Equal(pd), "every new party derives the same commitment")
	_, _ = s, s2
}

// No combination of t-1 shares of each generated key that is independent of the coins involves the
// keys: vHideKeys runs the generator on the unit vectors of coins.
//
//verif:replay=none
func Verif_P29_fewer() {
	n, t := vKeyShape()
	vHideKeys(n, t, func() [][]*share.PriShare {
		a, _ := SigKeyGen(uint32(n), uint32(t))
		return [][]*share.PriShare{a}
	})
}

//verif:replay=none
func Verif_P29_fewer_stored() {
	vrt.Scratch()
	n, t := vKeyShape()
	vHideKeys(n, t, func() [][]*share.PriShare {
		GenCoefficientsFile(n, t)
		a, _ := SigKeyGenFix(uint32(n), uint32(t))
		b, _ := SigKeyGenFix_New(uint32(n), uint32(t))
		return [][]*share.PriShare{a, b}
	})
}

func vHideKeys(n, t int, gen func() [][]*share.PriShare) {
	subs := vSubsets(n, t-1)
	who := subs[vrt.Choose("coalition", len(subs))]
	coins := 4 * t
	run := func(c []bls.VS) (v, key []bls.VS, used int) {
		bls.VCoins(c)
		ks := gen()
		used = bls.VCoinsUsed()
		for _, sks := range ks {
			var x, y []bls.VS
			for i := 0; i < t; i++ {
				x = append(x, bls.VK(uint64(i+1)))
				y = append(y, vKV(sks[i].V))
			}
			for _, i := range who {
				v = append(v, vKV(sks[i].V))
			}
			key = append(key, vLag(x, y, bls.VK(0)))
		}
		return
	}
	zero := make([]bls.VS, coins)
	for i := range zero {
		zero[i] = bls.VK(0)
	}
	base, key0, used := run(zero)
	vrt.Assume(used <= coins)
	var lam, mu []bls.VS
	for range base {
		lam = append(lam, bls.VVar("lambda"))
	}
	for range key0 {
		mu = append(mu, bls.VVar("mu"))
	}
	for k := 0; k < used; k++ {
		c := append([]bls.VS{}, zero...)
		c[k] = bls.VK(1)
		v, key, _ := run(c)
		d := bls.VK(0)
		for i := range v {
			d = bls.VAdd(d, bls.VMul(lam[i], bls.VSub(v[i], base[i])))
		}
		for i := range key {
			d = bls.VAdd(d, bls.VMul(mu[i], bls.VSub(key[i], key0[i])))
		}
		vrt.Assume(bls.VZero(d))
	}
	for i := range mu {
		vrt.Assert(bls.VZero(mu[i]), "the shares of fewer parties than the threshold are independent of the keys")
	}
}
