package comp

import (
	"bytes"
	"crypto/elliptic"
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/crypto/vrf/edwards25519"
	"github.com/Bren2010/katie/crypto/vrf/p256"

	"katieverif/kt"
)

// edOrder is the order of the edwards25519 group, edP its field's modulus.
var edOrder, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
var edP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

func le(x *big.Int) []byte {
	out := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		out[i], out[31-i] = out[31-i], out[i]
	}
	return out
}
func fromLE(b []byte) *big.Int {
	r := bytes.Clone(b)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return new(big.Int).SetBytes(r)
}

type suiteScen struct {
	w    *kt.World
	r    *rand.Rand
	s    string
	cs   suites.CipherSuite
	n    *big.Int // order
	be   bool
	priv vrf.PrivateKey
	raw  []byte
}

func (x *suiteScen) bytes(n int) []byte { b := make([]byte, n); x.r.Read(b); return b }
func (x *suiteScen) msg() []byte {
	return x.bytes([]int{0, 1, 5, 9, 31, 33, 64, 100, 300}[x.r.Intn(9)])
}
func (x *suiteScen) num(v *big.Int) []byte {
	if x.be {
		return v.FillBytes(make([]byte, 32))
	}
	return le(v)
}
func (x *suiteScen) val(b []byte) *big.Int {
	if x.be {
		return new(big.Int).SetBytes(b)
	}
	return fromLE(b)
}

// scalars returns interesting private keys and scalars.
func (x *suiteScen) scalar() []byte {
	one := big.NewInt(1)
	switch x.r.Intn(12) {
	case 0:
		return x.num(new(big.Int))
	case 1:
		return x.num(one)
	case 2:
		return x.num(big.NewInt(int64(1 + x.r.Intn(1<<20))))
	case 3:
		return x.num(new(big.Int).Sub(x.n, one))
	case 4:
		return x.num(x.n)
	case 5:
		return x.num(new(big.Int).Add(x.n, one))
	case 6:
		return bytes.Repeat([]byte{0xff}, 32)
	case 7:
		return x.bytes([]int{0, 1, 31, 33, 64}[x.r.Intn(5)])
	}
	return x.bytes(32)
}

// flip changes some bits of b, or its length.
func (x *suiteScen) flip(b []byte) []byte {
	out := bytes.Clone(b)
	switch x.r.Intn(8) {
	case 0:
		if len(out) > 0 {
			return out[:len(out)-1]
		}
	case 1:
		return append(out, byte(x.r.Intn(2)))
	case 2:
		if len(out) > 0 {
			return out[1:]
		}
	case 3:
		for range 3 {
			if len(out) > 0 {
				out[x.r.Intn(len(out))] ^= byte(x.r.Intn(256))
			}
		}
		return out
	}
	if len(out) > 0 {
		out[x.r.Intn(len(out))] ^= 1 << x.r.Intn(8)
	}
	return out
}

// addOrder replaces the number in b[from:from+32] by one that is the same modulo
// m, if there is one.
func (x *suiteScen) addOrder(b []byte, from int, m *big.Int) []byte {
	out := bytes.Clone(b)
	v := new(big.Int).Add(x.val(out[from:from+32]), m)
	if v.BitLen() > 256 {
		return x.flip(b)
	}
	copy(out[from:], x.num(v))
	return out
}
func (x *suiteScen) negate(b []byte, from int) []byte {
	out := bytes.Clone(b)
	v := new(big.Int).Sub(x.n, x.val(out[from:from+32]))
	if v.Sign() <= 0 || v.BitLen() > 256 {
		return x.flip(b)
	}
	copy(out[from:], x.num(v))
	return out
}
func (x *suiteScen) set(b []byte, from int, v []byte) []byte {
	out := bytes.Clone(b)
	copy(out[from:], v)
	return out
}

func (x *suiteScen) vrfKey(raw []byte) vrf.PrivateKey {
	var k vrf.PrivateKey
	in := bytes.Clone(raw)
	err, fine := call(x.w, "vrf key", func() (err error) { k, err = x.cs.ParseVRFPrivateKey(in); return err })
	if !fine {
		return nil
	}
	for i := range in {
		in[i] ^= 0xff // keys do not refer to what they were read from
	}
	ev := M{"s": x.s, "raw": kt.Hex(raw), "ok": err == nil}
	if err == nil {
		ev["pub"] = kt.Hex(k.PublicKey().Bytes())
	}
	x.w.Rec("vkey", ev)
	if err != nil {
		return nil
	}
	return k
}

func (x *suiteScen) prove(k vrf.PrivateKey, raw, m []byte) (out, proof []byte) {
	if _, fine := call(x.w, "vrf prove", func() error { out, proof = k.Prove(m); return nil }); !fine {
		return nil, nil
	}
	x.w.Rec("vprove", M{"s": x.s, "raw": kt.Hex(raw), "m": kt.Hex(m), "o": kt.Hex(out), "p": kt.Hex(proof)})
	return out, proof
}

func (x *suiteScen) vrfPub(raw []byte) vrf.PublicKey {
	var k vrf.PublicKey
	in := bytes.Clone(raw)
	err, fine := call(x.w, "vrf public key", func() (err error) { k, err = x.cs.ParseVRFPublicKey(in); return err })
	if !fine {
		return nil
	}
	for i := range in {
		in[i] ^= 0xff
	}
	ev := M{"s": x.s, "raw": kt.Hex(raw), "ok": err == nil}
	if err == nil {
		ev["enc"] = kt.Hex(k.Bytes())
	}
	x.w.Rec("vpub", ev)
	if err != nil {
		return nil
	}
	return k
}

func (x *suiteScen) verify(k vrf.PublicKey, raw, m, proof []byte) {
	var out []byte
	err, fine := call(x.w, "vrf verify", func() (err error) { out, err = k.Verify(m, proof); return err })
	if !fine {
		return
	}
	ev := M{"s": x.s, "pub": kt.Hex(raw), "m": kt.Hex(m), "p": kt.Hex(proof), "ok": err == nil}
	if err == nil {
		ev["o"] = kt.Hex(out)
	}
	x.w.Rec("vver", ev)
}

// edPoints are encodings of points of small order, and others that are not
// canonical.
func (x *suiteScen) edPoint() []byte {
	switch x.r.Intn(6) {
	case 0: // identity
		return le(big.NewInt(1))
	case 1: // order 2
		return le(new(big.Int).Sub(edP, big.NewInt(1)))
	case 2: // order 4, possibly not canonical
		b := le(new(big.Int))
		if x.r.Intn(2) == 0 {
			b = le(edP)
		}
		b[31] |= byte(x.r.Intn(2)) << 7
		return b
	case 3: // order 8
		b := kt.Unhex("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05")
		b[31] ^= byte(x.r.Intn(2)) << 7
		return b
	case 4: // y >= p
		b := le(new(big.Int).Add(edP, big.NewInt(int64(x.r.Intn(19)))))
		b[31] |= byte(x.r.Intn(2)) << 7
		return b
	}
	b := le(big.NewInt(1)) // x = 0 with its sign set
	b[31] |= 0x80
	return b
}

func (x *suiteScen) pubVariant(pub []byte) []byte {
	if x.s == "ed" {
		if x.r.Intn(2) == 0 {
			return x.edPoint()
		}
		return x.flip(pub)
	}
	c := elliptic.P256()
	switch x.r.Intn(6) {
	case 0: // uncompressed
		X, Y := elliptic.UnmarshalCompressed(c, pub)
		if X == nil {
			return []byte{0}
		}
		out := elliptic.Marshal(c, X, Y)
		switch x.r.Intn(4) {
		case 0:
			out[0] = byte(x.r.Intn(8))
		case 1:
			out[1+x.r.Intn(64)] ^= 1
		case 2:
			copy(out[33:], new(big.Int).Add(Y, c.Params().P).Bytes()) // too long or wrong
		}
		return out
	case 1:
		return []byte{byte(x.r.Intn(3))}
	case 2:
		out := bytes.Clone(pub)
		out[0] = byte(x.r.Intn(6))
		return out
	case 3: // x >= p
		v := new(big.Int).Add(c.Params().P, big.NewInt(int64(x.r.Intn(50))))
		return append([]byte{byte(2 + x.r.Intn(2))}, v.FillBytes(make([]byte, 32))...)
	}
	return x.flip(pub)
}

func (x *suiteScen) vrf() {
	raw := x.scalar()
	if x.r.Intn(2) == 0 {
		if x.s == "p256" {
			raw = p256.GeneratePrivateKey()
		} else {
			raw = edwards25519.GeneratePrivateKey()
		}
		// The trace is a function of the seed.
		x.r.Read(raw)
	}
	k := x.vrfKey(raw)
	if k == nil {
		return
	}
	m := x.msg()
	out, proof := x.prove(k, raw, m)
	if proof == nil {
		return
	}
	pub := k.PublicKey().Bytes()
	pk := x.vrfPub(pub)
	if pk == nil {
		return
	}
	x.verify(pk, pub, m, proof)
	x.verify(k.PublicKey(), pub, m, proof)
	gl := len(proof) - 48
	for range 4 {
		alt, am, apk, apub := proof, m, pk, pub
		switch x.r.Intn(12) {
		case 0: // another input
			if am = x.flip(m); bytes.Equal(am, m) {
				am = append(am, 1)
			}
		case 1: // another key
			k2, _ := x.cs.ParseVRFPrivateKey(x.bytes(32))
			if k2 == nil {
				continue
			}
			apk, apub = k2.PublicKey(), k2.PublicKey().Bytes()
		case 2:
			alt = x.addOrder(proof, gl+16, x.n)
		case 3:
			alt = x.negate(proof, gl+16)
		case 4: // another point
			if x.s == "p256" {
				alt = x.set(proof, 0, []byte{proof[0] ^ 1})
			} else {
				alt = x.set(proof, 31, []byte{proof[31] ^ 0x80})
			}
		case 5:
			alt = x.set(proof, gl, make([]byte, 16))
		case 6:
			alt = x.set(proof, gl+16, x.num(new(big.Int)))
		case 7:
			alt = x.set(proof, 0, pub)
		case 8:
			if x.s == "ed" {
				alt = x.set(proof, 0, x.edPoint())
			} else {
				alt = x.set(proof, 0, []byte{0})
			}
		case 9: // the proof for another input
			_, p2 := x.prove(k, raw, append(bytes.Clone(m), 7))
			if x.r.Intn(2) == 0 {
				alt = p2
			} else {
				alt = x.set(p2, 0, proof[:gl])
			}
		case 10:
			alt = make([]byte, len(proof))
		default:
			alt = x.flip(proof)
		}
		x.verify(apk, apub, am, alt)
	}
	for range 2 {
		v := x.pubVariant(pub)
		if k2 := x.vrfPub(v); k2 != nil {
			x.verify(k2, v, m, proof)
		}
	}
	// The same from several goroutines at once.
	type res struct{ m, o, p []byte }
	var wg sync.WaitGroup
	rs := make([]res, 3)
	for i := range rs {
		rs[i].m = append(bytes.Clone(m), byte(i/2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			kt.Try(func() error {
				rs[i].o, rs[i].p = k.Prove(rs[i].m)
				o, err := pk.Verify(rs[i].m, rs[i].p)
				if err != nil || !bytes.Equal(o, rs[i].o) {
					rs[i].o = nil
				}
				return nil
			})
		}()
	}
	wg.Wait()
	for _, r := range rs {
		x.w.Rec("vprove", M{"s": x.s, "raw": kt.Hex(raw), "m": kt.Hex(r.m), "o": kt.Hex(r.o), "p": kt.Hex(r.p)})
	}
	_ = out
}

func (x *suiteScen) sign() {
	raw := x.scalar()
	if x.r.Intn(2) == 0 {
		raw = x.bytes(32)
	}
	var k suites.SigningPrivateKey
	in := bytes.Clone(raw)
	err, fine := call(x.w, "signing key", func() (err error) { k, err = x.cs.ParseSigningPrivateKey(in); return err })
	if !fine {
		return
	}
	for i := range in {
		in[i] ^= 0xff
	}
	ev := M{"s": x.s, "raw": kt.Hex(raw), "ok": err == nil}
	if err == nil {
		ev["pub"] = kt.Hex(k.Public().Bytes())
	}
	x.w.Rec("skey", ev)
	if err != nil {
		return
	}
	m := x.msg()
	var sig []byte
	if err, fine := call(x.w, "sign", func() (err error) { sig, err = k.Sign(m); return err }); !fine || err != nil {
		x.w.Never("signing fails")
		return
	}
	x.w.Rec("ssign", M{"s": x.s, "raw": kt.Hex(raw), "m": kt.Hex(m), "sig": kt.Hex(sig)})
	pub := k.Public().Bytes()
	x.sigVerify(k.Public(), pub, m, sig)
	pk := x.sigPub(pub)
	if pk == nil {
		return
	}
	x.sigVerify(pk, pub, m, sig)
	for range 4 {
		alt, am, apk, apub := sig, m, pk, pub
		switch x.r.Intn(9) {
		case 0:
			if am = x.flip(m); bytes.Equal(am, m) {
				am = append(am, 1)
			}
		case 1:
			k2, _ := x.cs.ParseSigningPrivateKey(x.bytes(32))
			if k2 == nil {
				continue
			}
			apk, apub = k2.Public(), k2.Public().Bytes()
		case 2:
			alt = x.addOrder(sig, 32, x.n)
		case 3:
			alt = x.negate(sig, 32) // valid for ECDSA
		case 4:
			if x.s == "p256" {
				alt = x.addOrder(sig, 0, x.n)
			} else {
				alt = x.set(sig, 0, x.edPoint())
			}
		case 5:
			alt = x.set(sig, 32*x.r.Intn(2), make([]byte, 32))
		case 6:
			alt = append(bytes.Clone(sig[32:]), sig[:32]...)
		default:
			alt = x.flip(sig)
		}
		x.sigVerify(apk, apub, am, alt)
	}
	for range 2 {
		v := x.flip(pub)
		if x.s == "ed" && x.r.Intn(2) == 0 {
			v = x.edPoint()
		} else if x.s == "p256" && x.r.Intn(2) == 0 {
			X, Y := elliptic.Unmarshal(elliptic.P256(), pub)
			v = elliptic.MarshalCompressed(elliptic.P256(), X, Y)
			if x.r.Intn(2) == 0 {
				v = x.pubVariant(v)
			}
		}
		if k2 := x.sigPub(v); k2 != nil {
			x.sigVerify(k2, v, m, sig)
		}
	}
}

func (x *suiteScen) sigPub(raw []byte) suites.SigningPublicKey {
	var k suites.SigningPublicKey
	err, fine := call(x.w, "public key", func() (err error) {
		k, err = x.cs.ParseSigningPublicKey(bytes.Clone(raw))
		return err
	})
	if !fine {
		return nil
	}
	ev := M{"s": x.s, "raw": kt.Hex(raw), "ok": err == nil}
	if err == nil {
		ev["enc"] = kt.Hex(k.Bytes())
	}
	x.w.Rec("spub", ev)
	if err != nil {
		return nil
	}
	return k
}
func (x *suiteScen) sigVerify(k suites.SigningPublicKey, pub, m, sig []byte) {
	var fineSig bool
	if _, fine := call(x.w, "verify signature", func() error { fineSig = k.Verify(m, sig); return nil }); !fine {
		return
	}
	x.w.Rec("sver", M{"s": x.s, "pub": kt.Hex(pub), "m": kt.Hex(m), "sig": kt.Hex(sig), "ok": fineSig})
}

func (x *suiteScen) commit() {
	op, body := commitments.GenerateOpening(x.cs), x.bytes(x.r.Intn(90))
	if len(op) != 16 || bytes.Equal(op, make([]byte, 16)) || bytes.Equal(op, commitments.GenerateOpening(x.cs)) {
		x.w.Never(fmt.Sprintf("opening %x", op))
		return
	}
	x.r.Read(op)
	var c []byte
	if _, fine := call(x.w, "commit", func() error { c = commitments.Commit(x.cs, op, body); return nil }); !fine {
		return
	}
	x.w.Rec("commit", M{"op": kt.Hex(op), "body": kt.Hex(body), "c": kt.Hex(c)})
	ver := func(op, body, c []byte) {
		var ok bool
		if _, fine := call(x.w, "open", func() error { ok = commitments.Verify(x.cs, op, body, c); return nil }); fine {
			x.w.Rec("cver", M{"op": kt.Hex(op), "body": kt.Hex(body), "c": kt.Hex(c), "ok": ok})
		}
	}
	ver(op, body, c)
	ver(x.flip(op), body, c)
	ver(op, x.flip(body), c)
	ver(op, body, x.flip(c))
	ver(op, body, c[:x.r.Intn(32)])
	ver(op, body, nil)
}

// scenSuite exercises the cipher suites.
func scenSuite(w *kt.World, idx int) {
	x := &suiteScen{w: w, r: w.Rng}
	if idx%2 == 0 {
		x.s, x.cs, x.n, x.be = "p256", suites.KTSha256P256{}, elliptic.P256().Params().N, true
	} else {
		x.s, x.cs, x.n = "ed", suites.KTSha256Ed25519{}, edOrder
	}
	m := x.msg()
	h := x.cs.Hash()
	h.Write(m)
	w.Rec("suite", M{"s": x.s, "id": x.cs.Id(), "hs": x.cs.HashSize(), "os": x.cs.CommitmentOpeningSize(),
		"ps": x.cs.VrfProofSize(), "fixed": kt.Hex(x.cs.CommitmentFixedBytes()), "m": kt.Hex(m), "h": kt.Hex(h.Sum(nil))})
	for range 2 {
		x.vrf()
		x.sign()
		x.commit()
	}
}
