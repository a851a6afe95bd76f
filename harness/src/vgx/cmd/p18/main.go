// P18: triple DES in ECB mode and the text codec built on it.
package main

import (
	"bytes"
	"crypto/des"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"

	"github.com/vipally/gx/crypto/ecb"
	"github.com/vipally/gx/crypto/rsa"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P18",
		Rule: "a case is a generated message and key of any length: ciphertext compared with triple DES (EDE, keys cut or zero-filled to 24 bytes, zero padding) of the standard library, round trip up to trailing zero bytes, refusal of empty or misaligned ciphertexts, and the same for the base64 codec with its fixed key, the hash and the hex helpers; non-trivial: a message of at least one byte that does not end in zero",
		Checks: []Check{
			{Name: "ecb", Quick: 60000, Thorough: 2000000, Fn: ecbCheck},
			{Name: "large", Quick: 16, Thorough: 200, Fn: large},
			{Name: "codec", Quick: 60000, Thorough: 2000000, Fn: codec},
		},
	})
}

func reference(msg, key []byte) []byte {
	k := make([]byte, 24)
	copy(k, key)
	b, err := des.NewTripleDESCipher(k)
	if err != nil {
		panic(err)
	}
	pad := 8 - len(msg)%8
	out := append(append([]byte(nil), msg...), make([]byte, pad)...)
	for i := 0; i < len(out); i += 8 {
		b.Encrypt(out[i:i+8], out[i:i+8])
	}
	return out
}

func ecbCheck(g *G) {
	msg := g.Data(100, 60000)
	if g.OneIn(3) {
		msg = g.BytesN(8 * g.N(6))
	}
	key := g.BytesN(g.Size(40))
	if g.Bool() {
		key = g.BytesN(24)
	}
	g.Logf("message of %d bytes, key of %d", len(msg), len(key))
	if len(msg) > 0 && msg[len(msg)-1] != 0 {
		g.NonTrivial()
	}
	// the message as part of a larger array of the caller
	back := append(append([]byte(nil), msg...), bytes.Repeat([]byte{0xA5}, 20)...)
	image := append([]byte(nil), back...)
	kback := append(append([]byte(nil), key...), bytes.Repeat([]byte{0xA5}, 30)...)
	km := append([]byte(nil), kback...)
	key = kback[:len(key)]
	c, err := ecb.TripleDesEncrypt(back[:len(msg)], key)
	g.Check(err == nil, "encrypting %d bytes: %v", len(msg), err)
	g.Check(bytes.Equal(back, image) && bytes.Equal(kback, km), "encrypting changed the caller's memory")
	want := reference(msg, key)
	if !bytes.Equal(c, want) {
		g.Fatalf("ciphertext of %x under %x is %x want %x", msg, key, c, want)
	}
	ck := append([]byte(nil), c...)
	p, err := ecb.TripleDesDecrypt(c, key)
	g.Check(err == nil, "decrypting %d bytes: %v", len(c), err)
	if !bytes.Equal(p, bytes.TrimRight(msg, "\x00")) {
		g.Fatalf("%x under %x comes back as %x", msg, key, p)
	}
	g.Check(bytes.Equal(c, ck) && bytes.Equal(kback, km), "decrypting changed the caller's memory")
	// misaligned ciphertexts are refused
	bad := g.BytesN(g.Size(40))
	_, err = ecb.TripleDesDecrypt(bad, key)
	g.Check((err == nil) == (len(bad) > 0 && len(bad)%8 == 0), "decrypting a ciphertext of %d bytes: err=%v", len(bad), err)
}

// messages of a few hundred kilobytes
func large(g *G) {
	msg, k := g.Rng().Bytes(g.Big(1<<16, 1<<20)), g.BytesN(24)
	g.NonTrivial()
	g.Logf("message of %d bytes", len(msg))
	c, err := ecb.TripleDesEncrypt(msg, k)
	g.Check(err == nil && bytes.Equal(c, reference(msg, k)), "the ciphertext of %d bytes differs from the standard one, err=%v", len(msg), err)
	p, err := ecb.TripleDesDecrypt(c, k)
	g.Check(err == nil && bytes.Equal(p, bytes.TrimRight(msg, "\x00")), "%d bytes do not come back, err=%v", len(msg), err)
	e := rsa.Encode(msg)
	g.Check(e == base64.StdEncoding.EncodeToString(reference(msg, key)), "Encode of %d bytes differs", len(msg))
	g.Check(bytes.Equal(rsa.Decode(e), bytes.TrimRight(msg, "\x00")), "%d bytes do not come back from their text", len(msg))
}

var key = []byte("ac643718-9730-e711-59210")

func codec(g *G) {
	msg := g.Data(100, 60000)
	g.Logf("message %x", msg)
	if len(msg) > 0 && msg[len(msg)-1] != 0 {
		g.NonTrivial()
	}
	want := base64.StdEncoding.EncodeToString(reference(msg, key))
	e := rsa.Encode(msg)
	g.Check(e == want, "Encode(%x) = %q want %q", msg, e, want)
	g.Check(rsa.EncodeString(string(msg)) == want, "EncodeString(%x) = %q want %q", msg, rsa.EncodeString(string(msg)), want)
	trimmed := bytes.TrimRight(msg, "\x00")
	if d := rsa.Decode(e); !bytes.Equal(d, trimmed) {
		g.Fatalf("%x comes back as %x", msg, d)
	}
	g.Check(rsa.DecodeString(e) == string(trimmed), "%x comes back as %x", msg, rsa.DecodeString(e))
	// anything that is not a codec text decodes to nothing
	bad := string(g.BytesN(g.Size(30)))
	if g.Bool() && len(e) > 0 {
		bad = e[:g.N(len(e))]
	}
	if raw, err := base64.StdEncoding.DecodeString(bad); err != nil || len(raw) == 0 || len(raw)%8 != 0 {
		g.Check(len(rsa.Decode(bad)) == 0 && rsa.DecodeString(bad) == "", "the broken text %q decodes to %x", bad, rsa.Decode(bad))
	}
	// the hash is the salted SHA-512
	h := sha512.New()
	for i := 0; i < 5; i++ {
		h.Write(key)
		h.Write(msg)
		h.Write(key)
	}
	hs := h.Sum(nil)
	if got := rsa.Hash(msg); !bytes.Equal(got, hs) {
		g.Fatalf("Hash(%x) = %x want %x", msg, got, hs)
	}
	g.Check(rsa.HashString(string(msg)) == hex.EncodeToString(hs), "HashString(%x) = %s", msg, rsa.HashString(string(msg)))
	x := rsa.BytesToHexString(msg)
	g.Check(x == hex.EncodeToString(msg), "hex of %x is %q", msg, x)
	if b := rsa.HexStringToBytes(x); !bytes.Equal(b, msg) {
		g.Fatalf("hex text %q reads as %x", x, b)
	}
	if _, err := hex.DecodeString(bad); err != nil {
		g.Check(len(rsa.HexStringToBytes(bad)) == 0, "the text %q reads as hex %x", bad, rsa.HexStringToBytes(bad))
	}
}
