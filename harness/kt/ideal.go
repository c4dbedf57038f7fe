// Package kt is the conformance harness: ideal functionalities, stores and
// drivers used to record executions of github.com/Bren2010/katie for TLC.
package kt

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"strings"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
)

// Suite is a cipher suite with real SHA-256 and commitments but whose
// signatures and VRF are ideal functionalities supplied by the harness.
type Suite struct {
	suites.CipherSuite
	id, proofSize int
}

func NewSuite() Suite { return Suite{suites.KTSha256Ed25519{}, 2, 64} }

func (s Suite) VrfProofSize() int { return s.proofSize }
func (s Suite) Id() uint16        { return uint16(s.id) }

// Signer is an ideal signature functionality: Verify(m, s) is true exactly when
// s was produced by Sign(m) under the same key name.
//
// If the name is that of a real key ("ed:" and the seed), so are the signatures.
type Signer struct {
	Name   string
	Signed []SignedMsg
	Fail   func() error
	real   suites.SigningPrivateKey
}

type SignedMsg struct{ Msg, Sig []byte }

func NewSigner(name string) *Signer {
	s := &Signer{Name: name}
	if strings.HasPrefix(name, "ed:") {
		k, err := suites.KTSha256Ed25519{}.ParseSigningPrivateKey(Unhex(name[3:]))
		if err != nil {
			panic(err)
		}
		s.real = k
	}
	return s
}

func idealSig(name string, msg []byte) []byte {
	h := sha256.New()
	fmt.Fprintf(h, "ideal-signature:%s:", name)
	h.Write(msg)
	return h.Sum(nil)
}

func (s *Signer) Sign(msg []byte) ([]byte, error) {
	if s.Fail != nil {
		if err := s.Fail(); err != nil {
			return nil, err
		}
	}
	if s.real != nil {
		return s.real.Sign(msg)
	}
	sig := idealSig(s.Name, msg)
	s.Signed = append(s.Signed, SignedMsg{bytes.Clone(msg), sig})
	return bytes.Clone(sig), nil
}

func (s *Signer) Public() suites.SigningPublicKey {
	if s.real != nil {
		k, err := suites.KTSha256Ed25519{}.ParseSigningPublicKey(s.real.Public().Bytes())
		if err != nil {
			panic(err)
		}
		return k
	}
	return VerifyKey{s.Name}
}

type VerifyKey struct{ Name string }

func (v VerifyKey) Verify(msg, sig []byte) bool {
	return bytes.Equal(sig, idealSig(v.Name, msg))
}
func (v VerifyKey) Bytes() []byte { return []byte(v.Name) }

// VRF is an ideal VRF. Outputs may be biased so that many of them share long
// prefixes, which exercises deep prefix trees: the Gap bits from bit Bits are
// zero. Both are multiples of 4.
type VRF struct {
	Name      string
	Bits, Gap int
}

func (v *VRF) Output(m []byte) []byte {
	h := sha256.Sum256(append([]byte("ideal-vrf:"+v.Name+":"), m...))
	out := bytes.Clone(h[:])
	for i := v.Bits; i < v.Bits+v.Gap && i < 256; i++ {
		out[i/8] &^= 1 << (7 - i%8)
	}
	return out
}

func (v *VRF) proof(m []byte) []byte {
	out := v.Output(m)
	h := sha256.New()
	fmt.Fprintf(h, "ideal-vrf-proof:%s:", v.Name)
	h.Write(out)
	h.Write(m)
	return append(out, h.Sum(nil)...)
}

func (v *VRF) Prove(m []byte) (output, proof []byte) { return v.Output(m), v.proof(m) }
func (v *VRF) PublicKey() vrf.PublicKey              { return vrfPub{v} }

type vrfPub struct{ v *VRF }

func (p vrfPub) Verify(m, proof []byte) ([]byte, error) {
	if !bytes.Equal(proof, p.v.proof(m)) {
		return nil, errors.New("ideal vrf: invalid proof")
	}
	return p.v.Output(m), nil
}
func (p vrfPub) Bytes() []byte { return []byte(p.v.Name) }
