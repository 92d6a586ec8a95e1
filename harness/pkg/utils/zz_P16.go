package utils

import "github.com/DyCAPSTeam/DyCAPS/internal/vrt"

// All 2^32 values at once.
func Verif_P16_integers() {
	n := vrt.U32("n")
	want := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	b := Uint32ToBytes(n)
	vrt.Assert(len(b) == 4 && vrt.EqBytes(b, want), "Uint32ToBytes is four big-endian bytes")
	vrt.Assert(BytesToUint32(b) == n, "BytesToUint32 inverts it")
	i := IntToBytes(int(n))
	vrt.Assert(len(i) == 4 && vrt.EqBytes(i, want), "IntToBytes is four big-endian bytes")
	vrt.Assert(BytesToInt(i) == int(n), "BytesToInt inverts it")
}

// Conversion of arbitrary bytes; what follows the first four does not matter.
func Verif_P16_bytes() {
	b := vrt.Bytes("b", 4+vrt.Choose("extra", 3))
	keep := append([]byte{}, b...)
	v := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	vrt.Assert(BytesToUint32(b) == v, "BytesToUint32 reads big-endian")
	vrt.Assert(BytesToInt(b) == int(v), "BytesToInt reads big-endian")
	vrt.Assert(vrt.EqBytes(b, keep), "the input is not modified")
}

// Removal of padding.
func Verif_P16_padding() {
	n := vrt.Choose("len", 6)
	b := vrt.Bytes("b", n)
	r := DeleteZero(b)
	for i := range b {
		if i < len(r) {
			vrt.Assert(r[i] == b[i], "a prefix is kept")
		} else {
			vrt.Assert(b[i] == 0, "only zeros are dropped")
		}
	}
	vrt.Assert(len(r) == 0 || r[len(r)-1] != 0, "no padding is left")
	for k := 0; k <= n; k++ {
		q := DeleteZeroWithLen(b, k)
		vrt.Assert(len(q) == k && vrt.EqBytes(q, b[:k]), "exactly the first k bytes")
	}
}
