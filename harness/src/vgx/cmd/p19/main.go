// P19: RSA keys, encryption and signatures fit together.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	_ "crypto/md5"
	"crypto/rand"
	stdrsa "crypto/rsa"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"encoding/pem"

	"github.com/vipally/gx/crypto/rsa"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P19",
		Rule: "a case uses one of several generated key pairs (1024..2048 bits) and a generated message: encrypt/decrypt round trip up to the size limit and refusal above it, interoperation with the standard library in both directions, signatures that verify, and do not after a generated change of message, signature, hash or key; or a generated damaged key text that must be refused; non-trivial: a non-empty message",
		Checks: []Check{
			{Name: "crypt", Quick: 2400, Thorough: 60000, Fn: crypt},
			{Name: "sign", Quick: 2400, Thorough: 60000, Fn: sign},
			{Name: "keys", Quick: 2400, Thorough: 100000, Fn: keys},
			{Name: "generate", Quick: 8, Thorough: 200, Fn: generate},
		},
		Assume: []string{"the standard library's crypto/rsa, crypto/x509 and encoding/pem are correct", "keys come from the system's random source, so key material differs between runs"},
	})
}

type pair struct {
	bits      int
	priv, pub []byte
	s         *rsa.RsaServer
	c         *rsa.RsaClient
	key       *stdrsa.PrivateKey
}

var cache = map[int]*pair{}

// pairs are made on first use and kept for the process
func get(g *G) *pair {
	i := g.N(3)
	if cache[i] == nil {
		cache[i] = fresh(g, []int{1024, 1024, 1536}[i])
	}
	return cache[i]
}

func fresh(g *G, bits int) *pair {
	p := &pair{bits: bits}
	var err error
	p.priv, p.pub, err = rsa.GenRsaKeys(bits)
	g.Check(err == nil, "generating a key of %d bits: %v", bits, err)
	p.s, err = rsa.NewServer(p.priv)
	g.Check(err == nil, "the generated private key is refused: %v", err)
	p.c, err = rsa.NewClient(p.pub)
	g.Check(err == nil, "the generated public key is refused: %v", err)
	b, rest := pem.Decode(p.priv)
	g.Check(b != nil && len(rest) == 0, "the private key is not one PEM block")
	p.key, err = x509.ParsePKCS1PrivateKey(b.Bytes)
	g.Check(err == nil, "the private key does not parse: %v", err)
	g.Check(p.key.N.BitLen() == bits, "asked for %d bits, got %d", bits, p.key.N.BitLen())
	b, rest = pem.Decode(p.pub)
	g.Check(b != nil && len(rest) == 0, "the public key is not one PEM block")
	k, err := x509.ParsePKIXPublicKey(b.Bytes)
	g.Check(err == nil, "the public key does not parse: %v", err)
	pk, ok := k.(*stdrsa.PublicKey)
	g.Check(ok && pk.N.Cmp(p.key.N) == 0 && pk.E == p.key.E, "the public key does not belong to the private key")
	return p
}

func crypt(g *G) {
	p := get(g)
	k := p.bits / 8
	n := g.Size(k + 4)
	if g.OneIn(3) {
		n = k - 11 + g.N(3) - 1
	}
	msg := g.BytesN(n)
	g.Logf("%d bits, message of %d bytes", p.bits, n)
	if n > 0 {
		g.NonTrivial()
	}
	c, err := p.c.Encrypt(msg)
	g.Check((err == nil) == (n <= k-11), "encrypting %d bytes with %d bits: err=%v", n, p.bits, err)
	if err != nil {
		return
	}
	d, err := p.s.Decrypt(c)
	g.Check(err == nil && bytes.Equal(d, msg), "%x comes back as %x, err=%v", msg, d, err)
	d, err = stdrsa.DecryptPKCS1v15(rand.Reader, p.key, c)
	g.Check(err == nil && bytes.Equal(d, msg), "the standard library reads %x as %x, err=%v", msg, d, err)
	c, err = stdrsa.EncryptPKCS1v15(rand.Reader, &p.key.PublicKey, msg)
	g.Check(err == nil, "%v", err)
	d, err = p.s.Decrypt(c)
	g.Check(err == nil && bytes.Equal(d, msg), "a ciphertext of the standard library for %x is read as %x, err=%v", msg, d, err)
	// ciphertexts of another length are refused
	_, err = p.s.Decrypt(append(append([]byte(nil), c...), 1))
	g.Check(err != nil, "a ciphertext that is too long is accepted")
}

func sign(g *G) {
	p := get(g)
	msg := g.Data(200, 400000)
	if len(msg) > 0 {
		g.NonTrivial()
	}
	hs := []crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.SHA1, crypto.SHA384, crypto.MD5}
	h := Pick(g, hs)
	def := g.Bool()
	if def {
		h = crypto.SHA512
	}
	g.Logf("%d bits, message of %d bytes, %v default=%v", p.bits, len(msg), h, def)
	var s []byte
	var err error
	if def {
		s, err = p.s.SignDefault(msg)
	} else {
		s, err = p.s.Sign(msg, h)
	}
	g.Check(err == nil, "signing: %v", err)
	verify := func(c *rsa.RsaClient, m, s []byte, h crypto.Hash) error {
		if h == crypto.SHA512 && g.Bool() {
			return c.VerifyDefault(m, s)
		}
		return c.Verify(m, s, h)
	}
	err = verify(p.c, msg, s, h)
	g.Check(err == nil, "a signature does not verify: %v", err)
	x := h.New()
	x.Write(msg)
	g.Check(stdrsa.VerifyPKCS1v15(&p.key.PublicKey, h, x.Sum(nil), s) == nil, "the standard library refuses the signature")
	switch g.N(7) {
	case 5:
		t := append(append([]byte(nil), s...), g.Bytes(3)...)
		if len(t) == len(s) || g.Bool() {
			t = append(t, byte(g.N(2)))
		}
		g.Check(verify(p.c, msg, t, h) != nil, "a signature with more bytes behind it verifies")
	case 6:
		t := append(make([]byte, 1+g.N(3)), s...)
		g.Check(verify(p.c, msg, t, h) != nil, "a signature with zeros before it verifies")
	case 0:
		m := append([]byte(nil), msg...)
		if len(m) > 0 && g.Bool() {
			m[g.N(len(m))] ^= byte(1 << uint(g.N(8)))
		} else if len(m) > 0 && g.Bool() {
			m = m[:g.N(len(m))]
		} else {
			m = append(m, byte(g.N(256)))
		}
		g.Check(verify(p.c, m, s, h) != nil, "the signature also verifies for another message")
	case 1:
		t := append([]byte(nil), s...)
		t[g.N(len(t))] ^= byte(1 << uint(g.N(8)))
		g.Check(verify(p.c, msg, t, h) != nil, "a changed signature verifies")
	case 2:
		t := s[:g.N(len(s))]
		g.Check(verify(p.c, msg, t, h) != nil, "a cut signature verifies")
	case 3:
		if o := Pick(g, hs); o != h {
			g.Check(verify(p.c, msg, s, o) != nil, "the signature verifies with another hash")
		}
	case 4:
		if o := get(g); o != p {
			g.Check(verify(o.c, msg, s, h) != nil, "the signature verifies with another key")
		}
	}
}

func keys(g *G) {
	p := get(g)
	var text []byte
	pub := g.Bool()
	if pub {
		text = p.pub
	} else {
		text = p.priv
	}
	bad := append([]byte(nil), text...)
	why := ""
	switch g.N(5) {
	case 0:
		why = "garbage"
		bad = g.Bytes(300)
	case 1:
		why = "cut text"
		bad = bad[:g.N(len(bad)-3)]
	case 2:
		why = "the other kind of key"
		if pub {
			bad = p.priv
		} else {
			bad = p.pub
		}
	case 3:
		why = "not an RSA key"
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		g.Check(err == nil, "%v", err)
		var der []byte
		if pub {
			der, err = x509.MarshalPKIXPublicKey(&k.PublicKey)
		} else {
			der, err = x509.MarshalECPrivateKey(k)
		}
		g.Check(err == nil, "%v", err)
		bad = pem.EncodeToMemory(&pem.Block{Type: "public key", Bytes: der})
	case 4:
		why = "cut key inside a whole text"
		b, _ := pem.Decode(text)
		bad = pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: b.Bytes[:g.N(len(b.Bytes))]})
	}
	g.NonTrivial()
	g.Logf("public=%v: %s (%d bytes)", pub, why, len(bad))
	if pub {
		_, err := rsa.NewClient(bad)
		g.Check(err != nil, "a public key text that is %s is accepted", why)
		q, _ := g.Panics(func() { rsa.MustNewClient(bad) })
		g.Check(q, "MustNewClient accepts %s", why)
		g.Check(rsa.MustNewClient(text) != nil, "MustNewClient of a good key")
	} else {
		_, err := rsa.NewServer(bad)
		g.Check(err != nil, "a private key text that is %s is accepted", why)
		q, _ := g.Panics(func() { rsa.MustNewServer(bad) })
		g.Check(q, "MustNewServer accepts %s", why)
		g.Check(rsa.MustNewServer(text) != nil, "MustNewServer of a good key")
	}
}

func generate(g *G) {
	bits := Pick(g, []int{1024, 1280, 1536, 2048})
	g.NonTrivial()
	g.Logf("%d bits", bits)
	p := fresh(g, bits)
	msg := g.BytesN(20)
	c, err := p.c.Encrypt(msg)
	g.Check(err == nil, "%v", err)
	d, err := p.s.Decrypt(c)
	g.Check(err == nil && bytes.Equal(d, msg), "%x comes back as %x, err=%v", msg, d, err)
}
