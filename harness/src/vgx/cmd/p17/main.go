// P17: AES streams decrypt to what was encrypted, message by message.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"

	xaes "github.com/vipally/gx/crypto/aes"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P17",
		Rule: "a case is a generated key (16/24/32 bytes, or an invalid length that must be refused) and a generated sequence of binary and text messages encrypted on one encrypter and decrypted in order on one decrypter, each ciphertext also compared with AES-CBC/PKCS#7 of the standard library chained over the whole stream; a second, independent stream is interleaved; non-trivial: at least two messages on one stream",
		Checks: []Check{
			{Name: "stream", Quick: 120000, Thorough: 4000000, Fn: stream},
		},
	})
}

type session struct {
	e    *xaes.AESEncrypter
	d    *xaes.AESDecrypter
	ref  cipher.BlockMode
	n    int
	outs [][2][]byte
}

func stream(g *G) {
	if g.OneIn(10) {
		k := g.BytesN(g.Size(70))
		ok := len(k) == 16 || len(k) == 24 || len(k) == 32
		_, e1 := xaes.NewAESEncrypter(k)
		_, e2 := xaes.NewAESDecrypter(k)
		g.Logf("key of %d bytes", len(k))
		g.Check((e1 == nil) == ok && (e2 == nil) == ok, "key of %d bytes: %v, %v", len(k), e1, e2)
		return
	}
	ss := make([]*session, 1+g.N(2))
	for i := range ss {
		key := g.BytesN(Pick(g, []int{16, 24, 32}))
		keep := append([]byte(nil), key...)
		e, err := xaes.NewAESEncrypter(key)
		g.Check(err == nil, "encrypter: %v", err)
		d, err := xaes.NewAESDecrypter(key)
		g.Check(err == nil, "decrypter: %v", err)
		b, _ := aes.NewCipher(key)
		ss[i] = &session{e: e, d: d, ref: cipher.NewCBCEncrypter(b, append([]byte(nil), key[:16]...))}
		g.Check(bytes.Equal(key, keep), "the key was changed")
		g.Logf("session %d: key of %d bytes", i, len(key))
		if g.Bool() { // the caller may reuse the key's memory
			for k := range key {
				key[k] = 0
			}
		}
	}
	g.Steps(6, 40, func(int) {
		i := g.N(len(ss))
		s := ss[i]
		msg := g.Data(150, 100000)
		if g.OneIn(3) {
			msg = g.BytesN(16 * g.N(5))
		}
		if len(msg) == 0 && g.Bool() {
			msg = nil
		}
		keep := append([]byte(nil), msg...)
		text := g.Bool()
		var c []byte
		if text {
			c = s.e.EncryptString(string(msg))
		} else {
			c = s.e.Encrypt(msg)
		}
		g.Logf("session %d: message of %d bytes (text=%v)", i, len(msg), text)
		if !bytes.Equal(msg, keep) {
			g.Fatalf("Encrypt changed the message")
		}
		pad := 16 - len(msg)%16
		want := append(append([]byte(nil), msg...), bytes.Repeat([]byte{byte(pad)}, pad)...)
		s.ref.CryptBlocks(want, want)
		if !bytes.Equal(c, want) {
			g.Fatalf("message %d of %d bytes (text=%v): ciphertext %x want %x", s.n, len(msg), text, c, want)
		}
		ck := append([]byte(nil), c...)
		var p []byte
		if g.Bool() {
			p = s.d.Decrypt(c)
		} else {
			p = []byte(s.d.DecryptToString(c))
		}
		if !bytes.Equal(p, keep) {
			g.Fatalf("message %d: %x decrypts to %x", s.n, keep, p)
		}
		if !bytes.Equal(c, ck) {
			g.Fatalf("Decrypt changed the ciphertext")
		}
		s.outs = append(s.outs, [2][]byte{p, keep}, [2][]byte{c, want})
		if s.n++; s.n > 1 {
			g.NonTrivial()
		}
	})
	for i, s := range ss {
		for k, o := range s.outs {
			if !bytes.Equal(o[0], o[1]) {
				g.Fatalf("session %d: result %d changed after it was returned", i, k)
			}
		}
	}
}
