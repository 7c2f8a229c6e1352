package main

import (
	"bytes"
	"crypto/aes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"

	. "../../../repo/src/util"
	"../mon"
)

var curve = elliptic.P256()

func hx(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// onCurve is y^2 = x^3 - 3x + b, for field elements.
func onCurve(x, y *big.Int) bool {
	p := curve.Params().P
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(p) >= 0 || y.Cmp(p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	l.Mod(l, p)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Sub(r, new(big.Int).Mul(x, big.NewInt(3)))
	r.Add(r, curve.Params().B)
	r.Mod(r, p)
	return l.Cmp(r) == 0
}

func generate(c *mon.Case) *ecdsa.PrivateKey {
	k := ECDSAGenerateKey()
	c.Ev("key-generated")
	c.Check(k != nil, "generate", "no key is generated")
	n := curve.Params().N
	c.Check(k.D.Sign() > 0 && k.D.Cmp(n) < 0, "generate", "private number %x is out of range", k.D)
	c.Check(k.Curve == curve, "generate", "key is not of P-256")
	x, y := curve.ScalarBaseMult(k.D.Bytes())
	c.Check(k.X != nil && k.Y != nil && x.Cmp(k.X) == 0 && y.Cmp(k.Y) == 0, "generate", "the public key of %x is not its multiple of the base point", k.D)
	return k
}

// canonical gives a key of the private number d whose Y is what its X is read
// back as, as generated keys have.
func canonical(c *mon.Case, d *big.Int) *ecdsa.PrivateKey {
	k := ECDSAGetPrivateKey(d.Bytes())
	p := ECDSAGetPublicKey(k.X.Bytes())
	if p.Y != nil && p.Y.Cmp(k.Y) != 0 {
		k = ECDSAGetPrivateKey(new(big.Int).Sub(curve.Params().N, d).Bytes())
	}
	return k
}

func digest(r *rand.Rand) []byte {
	n := 32
	if r.Intn(3) == 0 {
		n = []int{1, 2, 16, 20, 31, 33, 48, 64}[r.Intn(8)]
		if r.Intn(3) == 0 {
			n = []int{65, 66, 96, 127, 128, 129, 255, 256, 257, 1000, 4097, 70000}[r.Intn(12)]
		}
	}
	b := make([]byte, n)
	switch r.Intn(6) {
	case 0: // zero
	case 1:
		for i := range b {
			b[i] = 255
		}
	case 2:
		if n > 0 {
			b[r.Intn(n)] = byte(1 << uint(r.Intn(8)))
		}
	default:
		r.Read(b)
	}
	return b
}

var seenR = map[string]bool{}

func sign(c *mon.Case, k *ecdsa.PrivateKey, h []byte) (r, s *big.Int) {
	var err error
	c.NoPanic("sign", func() string { return "signing " + hx(h) }, func() { r, s, err = ECDSASign(k, h) })
	c.Ev("sign")
	c.Check(err == nil && r != nil && s != nil, "sign", "signing %s with %x: %v", hx(h), k.D, err)
	c.Check(!seenR[r.String()], "nonce", "two signatures have the same secret number: r = %x", r)
	seenR[r.String()] = true
	return
}

func verify(c *mon.Case, k *ecdsa.PublicKey, h []byte, r, s *big.Int) (ok bool) {
	c.NoPanic("verify", func() string { return fmt.Sprintf("verifying %s, %x %x", hx(h), r, s) }, func() { ok = ECDSAVerify(k, h, r, s) })
	c.Ev("verify")
	return
}

func pad32(x *big.Int) []byte {
	b := make([]byte, 32)
	x.FillBytes(b)
	return b
}

func judgeKey(c *mon.Case, k *ecdsa.PrivateKey) {
	c.Nontrivial(mon.HashBytes(k.X.Bytes()))
	c.Desc("private number %x", k.D)
	// from bytes, leading zeros or not
	privs := []*ecdsa.PrivateKey{k}
	for _, b := range [][]byte{k.D.Bytes(), pad32(k.D)} {
		keep := append([]byte{}, b...)
		p := ECDSAGetPrivateKey(b)
		c.Check(bytes.Equal(b, keep), "rebuild-private", "rebuilding a key changes its bytes")
		c.Check(p.D.Cmp(k.D) == 0 && p.X.Cmp(k.X) == 0 && p.Y.Cmp(k.Y) == 0, "rebuild-private", "private key rebuilt from %x has public key %x %x, want %x %x", b, p.X, p.Y, k.X, k.Y)
		privs = append(privs, p)
		c.Ev("rebuilt-private")
	}
	pubs := []*ecdsa.PublicKey{&k.PublicKey, &privs[1].PublicKey}
	for _, b := range [][]byte{k.X.Bytes(), pad32(k.X)} {
		p := ECDSAGetPublicKey(b)
		c.Check(p.X.Cmp(k.X) == 0 && onCurve(p.X, p.Y), "rebuild-public", "public key rebuilt from %x is %x %x, which is not on the curve or has another coordinate", b, p.X, p.Y)
		c.Check(p.Y.Cmp(k.Y) == 0, "rebuild-public", "public key rebuilt from %x has Y %x, and the generated key %x", b, p.Y, k.Y)
		y := ECDSACalculateY(curve, new(big.Int).SetBytes(b))
		c.Check(y != nil && y.Cmp(p.Y) == 0, "rebuild-public", "Y of %x is %x, then %x", b, p.Y, y)
		pubs = append(pubs, p)
		c.Ev("rebuilt-public")
	}
	// keys that are given out are the caller's: what becomes of them changes no other
	for i, b := range [][]byte{k.X.Bytes(), pad32(k.X)} {
		o := ECDSAGetPublicKey(b)
		o.X.Add(o.X, big.NewInt(1))
		o.Y.Rsh(o.Y, 3)
		q := pubs[2+i]
		c.Check(q.X.Cmp(k.X) == 0 && q.Y.Cmp(k.Y) == 0, "rebuild-shared", "public key %x changes along with another one built from the same bytes", b)
		again := ECDSAGetPublicKey(b)
		c.Check(again.X.Cmp(k.X) == 0 && again.Y.Cmp(k.Y) == 0, "rebuild-shared", "public key rebuilt from %x once more is %x %x", b, again.X, again.Y)
		y := ECDSACalculateY(curve, o.X.SetBytes(b))
		y.Add(y, big.NewInt(1))
		c.Ev("changed")
	}
	for i, b := range [][]byte{k.D.Bytes(), pad32(k.D)} {
		o := ECDSAGetPrivateKey(b)
		for _, n := range []*big.Int{o.D, o.X, o.Y} {
			n.Add(n, big.NewInt(int64(1+i)))
		}
		q := privs[1+i]
		c.Check(q.D.Cmp(k.D) == 0 && q.X.Cmp(k.X) == 0 && q.Y.Cmp(k.Y) == 0, "rebuild-shared", "private key %x changes along with another one built from the same bytes", b)
		again := ECDSAGetPrivateKey(b)
		c.Check(again.D.Cmp(k.D) == 0 && again.X.Cmp(k.X) == 0 && again.Y.Cmp(k.Y) == 0, "rebuild-shared", "private key rebuilt from %x once more is %x, %x %x", b, again.D, again.X, again.Y)
		c.Ev("changed")
	}
	n := curve.Params().N
	for round := 0; round < 2; round++ {
		h := digest(c.R)
		for i, p := range privs {
			if i > 0 && round > 0 {
				break
			}
			r, s := sign(c, p, h)
			for j, q := range pubs {
				if !verify(c, q, h, r, s) {
					c.Failf("verify-own", "signature of %s by private key %d (of the 3 forms) of %x does not verify with public key %d: %x %x", hx(h), i, k.D, j, r, s)
				}
				c.Ev("verified")
			}
			pub := pubs[c.R.Intn(len(pubs))]
			refuse := func(what string, key *ecdsa.PublicKey, h []byte, r, s *big.Int) {
				c.Ev("forgery")
				if verify(c, key, h, r, s) {
					c.Failf("forgery", "%s verifies: digest %s, %x %x, public key %x", what, hx(h), r, s, key.X)
				}
			}
			// another digest: the first 32 bytes count, as a number
			for tries := 0; tries < 4 && len(h) > 0; tries++ {
				g := append([]byte{}, h...)
				top := len(g)
				if top > 32 {
					top = 32
				}
				g[c.R.Intn(top)] ^= byte(1 << uint(c.R.Intn(8)))
				refuse("a signature of another digest", pub, g, r, s)
			}
			refuse("a signature of another digest", pub, append([]byte{1}, h...), r, s)
			// another key
			var o *ecdsa.PrivateKey
			if c.R.Intn(2) == 0 {
				o = generate(c)
			} else {
				o = canonical(c, new(big.Int).Add(big.NewInt(1+int64(c.R.Intn(9))), new(big.Int).Mod(new(big.Int).Lsh(k.D, 1), new(big.Int).Sub(n, big.NewInt(20)))))
			}
			if o.X.Cmp(k.X) != 0 {
				refuse("a signature by another key", &o.PublicKey, h, r, s)
			}
			// other numbers
			one := big.NewInt(1)
			add := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
			flip := func(a *big.Int) *big.Int {
				b := pad32(a)
				b[c.R.Intn(32)] ^= byte(1 << uint(c.R.Intn(8)))
				return new(big.Int).SetBytes(b)
			}
			refuse("r + 1", pub, h, add(r, one), s)
			refuse("s + 1", pub, h, r, add(s, one))
			refuse("r + N", pub, h, add(r, n), s)
			refuse("s + N", pub, h, r, add(s, n))
			refuse("r flipped", pub, h, flip(r), s)
			refuse("s flipped", pub, h, r, flip(s))
			refuse("N - r", pub, h, new(big.Int).Sub(n, r), s)
			refuse("-r", pub, h, new(big.Int).Neg(r), s)
			refuse("-s", pub, h, r, new(big.Int).Neg(s))
			refuse("r = 0", pub, h, new(big.Int), s)
			refuse("s = 0", pub, h, r, new(big.Int))
			refuse("both 0", pub, h, new(big.Int), new(big.Int))
			refuse("both N", pub, h, n, n)
			if r.Cmp(s) != 0 {
				refuse("swapped", pub, h, s, r)
			}
		}
	}
}

func u14(x *mon.Ctx) {
	x.Rule("distinct key pairs that signed and verified")
	seen := map[string]bool{}
	x.Stream("generated", x.N(600, 30000), func(c *mon.Case) {
		k := generate(c)
		c.Check(!seen[k.X.String()], "generate", "the same key is generated twice: %x", k.D)
		seen[k.X.String()] = true
		judgeKey(c, k)
	})
	// private numbers that are rarely generated, leading zero bytes among them
	x.Stream("special", x.N(300, 6000), func(c *mon.Case) {
		n := curve.Params().N
		d := big.NewInt(int64(c.Index) + 1)
		switch c.Index % 4 {
		case 1:
			d = new(big.Int).Sub(n, d)
		case 2:
			d = new(big.Int).Lsh(d, uint(c.R.Intn(240)))
		case 3:
			d = new(big.Int).Rsh(new(big.Int).SetBytes(pad32(new(big.Int).Rand(c.R, n))), uint(c.R.Intn(250)))
			d.Add(d, big.NewInt(1))
		}
		d.Mod(d, n)
		if d.Sign() == 0 {
			d = big.NewInt(1)
		}
		judgeKey(c, canonical(c, d))
	})
	// coordinates with leading zero bytes
	x.Stream("short-coordinate", x.N(6, 200), func(c *mon.Case) {
		for {
			k := ECDSAGetPrivateKey(pad32(new(big.Int).Rand(c.R, curve.Params().N)))
			if len(k.X.Bytes()) < 32 {
				c.Ev("short-coordinate")
				judgeKey(c, canonical(c, k.D))
				return
			}
		}
	})
	// any coordinate: on the curve, or none
	x.Stream("coordinate", x.N(400, 20000), func(c *mon.Case) {
		for i := 0; i < 10; i++ {
			a := new(big.Int).Rand(c.R, curve.Params().P)
			if c.R.Intn(4) == 0 {
				a = big.NewInt(int64(c.R.Intn(1000)))
			}
			y := ECDSACalculateY(curve, a)
			c.Ev("coordinate")
			if y != nil && !onCurve(a, y) {
				c.Failf("coordinate", "Y of %x is %x, which is not on the curve", a, y)
			}
			if y == nil { // there is no such point
				c.Ev("no-point")
				p := curve.Params().P
				v := new(big.Int).Exp(a, big.NewInt(3), p)
				v.Sub(v, new(big.Int).Mul(a, big.NewInt(3)))
				v.Add(v, curve.Params().B)
				v.Mod(v, p)
				if big.Jacobi(v, p) >= 0 {
					c.Failf("coordinate", "no Y for %x, which is on the curve", a)
				}
			}
		}
	})
	x.Stream("digests", x.N(600, 20000), func(c *mon.Case) {
		b := make([]byte, c.R.Intn(300))
		if c.R.Intn(20) == 0 {
			b = make([]byte, c.R.Intn(1<<uint(9+c.R.Intn(12))))
		}
		c.R.Read(b)
		keep := append([]byte{}, b...)
		a := sha256.Sum256(b)
		d := sha256.Sum256(a[:])
		m := md5.Sum(b)
		gotA, gotD, gotM := SumSHA256(b), SumSHA256d(b), SumMD5(b)
		if c.R.Intn(3) == 0 { // results are the caller's
			gotA[3]++
			gotD[4]++
			gotM[5]++
			gotA, gotD, gotM = SumSHA256(b), SumSHA256d(b), SumMD5(b)
		}
		for later := 0; later < 2; later++ {
			c.Check(bytes.Equal(gotA, a[:]), "digest", "SumSHA256 of %s is %x (later: %d)", hx(b), gotA, later)
			c.Check(bytes.Equal(gotD, d[:]), "digest", "SumSHA256d of %s is %x (later: %d)", hx(b), gotD, later)
			c.Check(bytes.Equal(gotM, m[:]), "digest", "SumMD5 of %s is %x (later: %d)", hx(b), gotM, later)
			SumSHA256(gotA)
			SumSHA256d(gotA)
			SumMD5(gotA)
		}
		c.Check(bytes.Equal(b, keep), "digest", "hashing changes its input")
		p := AESPad(b)
		_, err := aes.NewCipher(p)
		c.Check(err == nil && len(p) == aes.BlockSize, "digest", "AESPad of %d bytes gives %d", len(b), len(p))
		c.EvN("digest", 4)
	})
}
