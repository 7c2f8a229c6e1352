package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/big"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"crypto/ecdsa"

	. "../../../repo/src/util"
	"../mon"
)

// entry is a file or link of the configuration directory.
type entry struct {
	mode    os.FileMode
	content string
}

// snapshot lists files and links below the configuration directories.
func snapshot() map[string]entry {
	res := map[string]entry{}
	filepath.Walk("root", func(path string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(path)
			res[path] = entry{st.Mode(), "-> " + t}
		case st.Mode().IsRegular():
			b, _ := os.ReadFile(path)
			res[path] = entry{st.Mode(), string(b)}
		}
		return nil
	})
	return res
}

// changes lists the paths that differ.
func changes(a, b map[string]entry) []string {
	res := []string{}
	for p, e := range b {
		if o, ok := a[p]; !ok || o != e {
			res = append(res, p)
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			res = append(res, p)
		}
	}
	sort.Strings(res)
	return res
}

func fresh() { os.RemoveAll("root") }

func randSecret(r *rand.Rand) []byte {
	b := make([]byte, []int{16, 24, 32}[r.Intn(3)])
	r.Read(b)
	if r.Intn(4) == 0 { // as from a short passphrase
		for i := 8 + r.Intn(len(b)-8); i < len(b); i++ {
			b[i] = 0
		}
	}
	return b
}

// someKey gives a key pair; sometimes its numbers have leading zero bytes.
func someKey(c *mon.Case) *ecdsa.PrivateKey {
	switch c.R.Intn(6) {
	case 0:
		return canonical(c, big.NewInt(1+int64(c.R.Intn(1<<30))))
	case 1:
		for {
			k := ECDSAGetPrivateKey(pad32(new(big.Int).Rand(c.R, curve.Params().N)))
			if len(k.X.Bytes()) < 32 {
				return canonical(c, k.D)
			}
		}
	}
	return ECDSAGenerateKey()
}

// pair is a key pair as it is stored.
type pair struct {
	cls    int
	id     string
	key    *ecdsa.PrivateKey
	secret []byte
}

func (p *pair) String() string {
	return fmt.Sprintf("class %d id %s key %x secret %x", p.cls, p.id, p.key.D, p.secret)
}

func (p *pair) save(c *mon.Case) {
	var err error
	x, d, s := new(big.Int).Set(p.key.X), new(big.Int).Set(p.key.D), append([]byte{}, p.secret...)
	c.NoPanic("save", func() string { return "saving " + p.String() }, func() { err = LCSaveKeyPair(p.cls, p.id, x, d, s) })
	c.Ev("save")
	c.Check(err == nil, "save", "saving %v: %v", p, err)
	c.Check(x.Cmp(p.key.X) == 0 && d.Cmp(p.key.D) == 0 && bytes.Equal(s, p.secret), "save", "saving %v changes its arguments", p)
}

func loadPub(c *mon.Case, cls int, id string) (k *ecdsa.PublicKey, err error) {
	c.NoPanic("load-pub", func() string { return "loading the public key of " + id }, func() { k, err = LCLoadPubKey(cls, id) })
	c.Ev("load-pub")
	return
}

func loadPriv(c *mon.Case, cls int, id string, secret []byte) (k *ecdsa.PrivateKey, err error) {
	keep := append([]byte{}, secret...)
	c.NoPanic("load-priv", func() string { return "loading the private key of " + id }, func() { k, err = LCLoadPrivKey(cls, id, secret) })
	c.Ev("load-priv")
	c.Check(bytes.Equal(keep, secret), "load-priv", "loading changes the secret")
	return
}

func samePub(k *ecdsa.PublicKey, w *ecdsa.PrivateKey) bool {
	return k != nil && k.X.Cmp(w.X) == 0 && k.Y != nil && k.Y.Cmp(w.Y) == 0
}

func samePriv(k, w *ecdsa.PrivateKey) bool {
	return k != nil && k.D.Cmp(w.D) == 0 && samePub(&k.PublicKey, w)
}

// loads checks that both keys are there and as saved.
func (p *pair) loads(c *mon.Case) {
	c.Check(LCExistPubKey(p.cls, p.id) && LCExistPrivKey(p.cls, p.id), "exist", "saved keys do not exist: %v", p)
	k, err := loadPub(c, p.cls, p.id)
	c.Check(err == nil && samePub(k, p.key), "load-pub", "loading the public key of %v: %v %v", p, k, err)
	q, err := loadPriv(c, p.cls, p.id, p.secret)
	c.Check(err == nil && samePriv(q, p.key), "load-priv", "loading the private key of %v: %v", p, err)
	c.Ev("loaded")
}

// files finds out which file holds which key, by taking them away.
func (p *pair) files(c *mon.Case, created []string) (pub, priv string) {
	for _, f := range created {
		os.Rename(f, f+".away")
		a, b := LCExistPubKey(p.cls, p.id), LCExistPrivKey(p.cls, p.id)
		if !a {
			pub = f
			_, err := loadPub(c, p.cls, p.id)
			c.Check(err != nil, "absent", "a public key that is not there is loaded")
		}
		if !b {
			priv = f
			_, err := loadPriv(c, p.cls, p.id, p.secret)
			c.Check(err != nil, "absent", "a private key that is not there is loaded")
		}
		os.Rename(f+".away", f)
	}
	c.Check(pub != "" && priv != "" && pub != priv, "files", "saving %v makes files %v, of which %q is the public and %q the private key", p, created, pub, priv)
	return
}

// leaks says whether bytes hold a secret, in binary or as text.
func leaks(content []byte, secret []byte) bool {
	if bytes.Contains(content, secret) {
		return true
	}
	low := bytes.ToLower(content)
	if bytes.Contains(low, []byte(hex.EncodeToString(secret))) {
		return true
	}
	raw := make([]byte, len(content))
	if n, _ := hex.Decode(raw, content); bytes.Contains(raw[:n], secret) {
		return true
	}
	return bytes.Contains(content, []byte(new(big.Int).SetBytes(secret).String()))
}

var ids = 0

func newID(c *mon.Case) string {
	ids++
	switch c.R.Intn(5) {
	case 0:
		return fmt.Sprintf("%x", ids)
	case 1:
		return fmt.Sprintf("id %d with spaces.pub", ids)
	}
	b := make([]byte, 32)
	c.R.Read(b)
	return hex.EncodeToString(b)
}

var seenFiles = map[string]bool{}

func (p *pair) judgeFiles(c *mon.Case, created []string) (pub, priv string) {
	pub, priv = p.files(c, created)
	st, err := os.Stat(priv)
	c.Check(err == nil && st.Mode().Perm() == 0600, "mode", "private key file has mode %v", st.Mode())
	st, err = os.Stat(pub)
	c.Check(err == nil && st.Mode().Perm()&0022 == 0, "mode", "public key file can be changed by others than its owner: mode %v", st.Mode())
	b, _ := os.ReadFile(priv)
	for _, f := range created {
		o, _ := os.ReadFile(f)
		if len(p.key.D.Bytes()) >= 8 {
			c.Check(!leaks(o, p.key.D.Bytes()), "leak", "file %s has the private key in it: %s; %v", f, o, p)
		}
		c.Check(!leaks(o, p.secret), "leak", "file %s has the secret in it: %s; %v", f, o, p)
	}
	c.Check(!seenFiles[string(b)], "repeat", "the private key file is the same as one before: %s", b)
	seenFiles[string(b)] = true
	// no part of it either: a nonce of 12 bytes, or the encrypted key
	if raw := make([]byte, len(b)); len(b) >= 48 {
		if n, err := hex.Decode(raw, b); err == nil {
			raw = raw[:n]
			for _, part := range [][]byte{raw[:12], raw[12:44]} {
				if len(part) > 0 {
					id := fmt.Sprintf("part %x", part)
					c.Check(!seenFiles[id], "repeat", "two private key files have the same %x", part)
					seenFiles[id] = true
				}
			}
		}
	}
	c.Ev("file-judged")
	return
}

// damaged judges loads after a change of one of the files.
func (p *pair) damaged(c *mon.Case, what string, pubHit, privHit bool) {
	k, err := loadPub(c, p.cls, p.id)
	switch {
	case err == nil && !samePub(k, p.key):
		c.Failf("damaged-pub", "%s: another public key is loaded; %v", what, p)
	case err == nil && pubHit:
		c.Failf("damaged-pub", "%s: the public key is loaded without an error; %v", what, p)
	case err != nil && k != nil:
		c.Failf("damaged-pub", "%s: an error and a key", what)
	case err != nil && !pubHit:
		c.Failf("damaged-pub", "%s: the public key does not load: %v", what, err)
	}
	q, err := loadPriv(c, p.cls, p.id, p.secret)
	switch {
	case err == nil && !samePriv(q, p.key):
		c.Failf("damaged-priv", "%s: another private key is loaded; %v", what, p)
	case err == nil && privHit:
		c.Failf("damaged-priv", "%s: the private key is loaded without an error; %v", what, p)
	case err != nil && q != nil:
		c.Failf("damaged-priv", "%s: an error and a key", what)
	case err != nil && !privHit:
		c.Failf("damaged-priv", "%s: the private key does not load: %v", what, err)
	}
	c.Ev("damaged")
}

func withCRC(b []byte) []byte {
	s := crc32.ChecksumIEEE(b)
	b = append(append([]byte{}, b...), byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
	return []byte(fmt.Sprintf("%X", b))
}

func u15(x *mon.Ctx) {
	x.Rule("distinct (class, key, secret) that were saved and loaded, and distinct damages of their files")
	signal.Ignore(syscall.SIGXFSZ)
	newPair := func(c *mon.Case) *pair {
		p := &pair{1 + c.R.Intn(5), newID(c), someKey(c), randSecret(c.R)}
		c.Nontrivial(mon.Mix(mon.HashStr(p.String())))
		c.Desc("%v", p)
		return p
	}
	x.Stream("save-load", x.N(400, 10000), func(c *mon.Case) {
		fresh()
		mask := []int{022, 0, 077, 027}[c.R.Intn(4)]
		defer syscall.Umask(syscall.Umask(mask))
		p := newPair(c)
		for _, f := range []bool{LCExistPubKey(p.cls, p.id), LCExistPrivKey(p.cls, p.id)} {
			c.Check(!f, "exist", "a key that was not saved exists")
		}
		_, e1 := loadPub(c, p.cls, p.id)
		_, e2 := loadPriv(c, p.cls, p.id, p.secret)
		c.Check(e1 != nil && e2 != nil, "absent", "keys are loaded that were not saved")
		before := snapshot()
		p.save(c)
		created := changes(before, snapshot())
		p.loads(c)
		p.judgeFiles(c, created)
		// other secrets
		for i := 0; i < 12; i++ {
			s := append([]byte{}, p.secret...)
			switch c.R.Intn(5) {
			case 0:
				c.R.Read(s)
			case 1: // of another length
				s = append(s, make([]byte, []int{8, 16}[c.R.Intn(2)])...)
			case 2:
				s = s[:c.R.Intn(len(s))]
			default:
				s[c.R.Intn(len(s))] ^= byte(1 << uint(c.R.Intn(8)))
			}
			k, err := loadPriv(c, p.cls, p.id, s)
			c.Ev("wrong-secret")
			c.Check(err != nil && k == nil, "wrong-secret", "secret %x loads the private key of %v", s, p)
		}
		k, err := loadPriv(c, p.cls, p.id, nil)
		c.Check(err != nil && k == nil, "wrong-secret", "no secret loads the private key of %v", p)
		p.loads(c)
		// the same once more, and others in its place
		for i := 0; i < 3; i++ {
			old := *p
			if i > 0 {
				p.key = someKey(c)
			}
			if i > 1 {
				p.secret = randSecret(c.R)
			}
			p.save(c)
			p.loads(c)
			p.judgeFiles(c, created)
			if !bytes.Equal(old.secret, p.secret) {
				k, err := loadPriv(c, p.cls, p.id, old.secret)
				c.Check(err != nil && k == nil, "wrong-secret", "the secret of a replaced key loads the private key of %v", p)
			}
			c.Ev("replaced")
		}
		c.Check(len(changes(before, snapshot())) == len(created), "files", "replacing keys leaves files %v, the first save %v", changes(before, snapshot()), created)
	})
	x.Stream("malformed-secret", x.N(60, 600), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		n := c.Index % 60
		if n == 16 || n == 24 || n == 32 {
			n = 64
		}
		bad := make([]byte, n)
		c.R.Read(bad)
		before := snapshot()
		err := LCSaveKeyPair(p.cls, p.id, p.key.X, p.key.D, bad)
		c.Ev("malformed-secret")
		c.Check(err != nil, "malformed-secret", "a key is saved with a secret of %d bytes", n)
		c.Check(len(changes(before, snapshot())) == 0 && !LCExistPrivKey(p.cls, p.id) && !LCExistPubKey(p.cls, p.id), "malformed-secret", "a refused secret leaves %v", changes(before, snapshot()))
		// nor does it harm the key that is there
		p.save(c)
		before = snapshot()
		o := someKey(c)
		c.Check(LCSaveKeyPair(p.cls, p.id, o.X, o.D, bad) != nil, "malformed-secret", "a key is saved with a secret of %d bytes", n)
		c.Check(len(changes(before, snapshot())) == 0, "malformed-secret", "a refused secret changes %v", changes(before, snapshot()))
		p.loads(c)
	})
	// every truncation, every byte
	x.Stream("damage", x.N(64, 1500), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		before := snapshot()
		p.save(c)
		pub, priv := p.files(c, changes(before, snapshot()))
		for _, f := range []string{pub, priv} {
			isPub := f == pub
			good, _ := os.ReadFile(f)
			try := func(what string, b []byte) {
				if bytes.Equal(b, good) {
					return
				}
				if w := bytes.ToLower(b); bytes.Equal(w, bytes.ToLower(good)) {
					return // the same digits
				}
				os.WriteFile(f, b, 0600)
				p.damaged(c, fmt.Sprintf("%s: %s, %q for %q", filepath.Base(f), what, b, good), isPub, !isPub)
				c.Nontrivial(mon.Mix(mon.HashBytes(b), mon.HashBytes(good)))
			}
			for n := 0; n < len(good); n++ {
				try(fmt.Sprintf("truncated to %d", n), good[:n])
				c.Ev("truncated")
			}
			for n := 0; n < len(good); n++ {
				b := append([]byte{}, good...)
				switch c.R.Intn(4) {
				case 0:
					b[n] ^= byte(1 << uint(c.R.Intn(8)))
				case 1:
					b[n] = byte(c.R.Intn(256))
				case 2: // another digit
					b[n] = "0123456789ABCDEF"[c.R.Intn(16)]
				default:
					b = append(b[:n:n], good[n+1:]...)
				}
				try(fmt.Sprintf("byte %d changed", n), b)
				c.Ev("byte-changed")
			}
			for i := 0; i < 12; i++ {
				b := append([]byte{}, good...)
				switch i {
				case 0:
					b = append(b, '\n')
				case 1:
					b = append(b, b...)
				case 2:
					b = append(b, '0', '0')
				case 3:
					b = bytes.Repeat([]byte("0"), len(b))
				case 4:
					b = append([]byte("00"), b...)
				case 5: // bytes the other way round
					for j := range b {
						b[j] = good[len(good)-1-j]
					}
				case 6:
					b, _ = os.ReadFile(map[bool]string{true: priv, false: pub}[isPub])
				case 7:
					b = bytes.Repeat(b, 600)
				default: // two digits swapped
					j, k := c.R.Intn(len(b)), c.R.Intn(len(b))
					b[j], b[k] = b[k], b[j]
				}
				try(fmt.Sprintf("damage %d", i), b)
			}
			// with a checksum that fits
			raw, _ := hex.DecodeString(string(good))
			if len(raw) > 4 {
				raw = raw[:len(raw)-4]
				for n := range raw {
					if isPub {
						break
					}
					b := append([]byte{}, raw...)
					b[n] ^= byte(1 << uint(c.R.Intn(8)))
					try(fmt.Sprintf("byte %d changed, checksum made to fit", n), withCRC(b))
					c.Ev("forged")
				}
				for n := 0; n < len(raw) && !isPub; n++ {
					try(fmt.Sprintf("cut to %d, checksum made to fit", n), withCRC(raw[:n]))
					c.Ev("forged")
				}
				for n := 0; n < 20 && isPub; n++ { // not on the curve
					b := make([]byte, 32)
					c.R.Read(b)
					if ECDSACalculateY(curve, new(big.Int).SetBytes(b)) == nil {
						try("a number that is no coordinate, with a checksum that fits", withCRC(b))
						c.Ev("forged")
					}
				}
			}
			os.WriteFile(f, good, 0600)
			p.loads(c)
			// gone
			os.Remove(f)
			p.damaged(c, "removed", isPub, !isPub)
			os.Mkdir(f, 0755)
			p.damaged(c, "a directory", isPub, !isPub)
			os.Remove(f)
			os.WriteFile(f, good, 0600)
		}
		p.loads(c)
	})
	// many keys side by side
	x.Stream("many", x.N(24, 300), func(c *mon.Case) {
		fresh()
		pairs := []*pair{}
		used := map[string]bool{}
		long := strings.Repeat("long id ", 25) // and alike, up to its last byte
		for i := 0; i < 40; i++ {
			p := newPair(c)
			if c.R.Intn(4) == 0 {
				p.id = long[:[]int{30, 63, 64, 99, 127, 128, 180}[c.R.Intn(7)]] + fmt.Sprintf("%d", c.R.Intn(3))
			}
			if i%2 == 0 || c.R.Intn(3) == 0 { // ids and classes in common
				p.id = []string{"a", "ab", "a.pub", "node_id", "cluster_id.pub", "00", "0", "A"}[c.R.Intn(8)]
			}
			if n := len(pairs); n > 0 && c.R.Intn(4) == 0 { // one key under several ids
				p.key, p.secret = pairs[n-1].key, pairs[n-1].secret
			}
			if id := fmt.Sprint(p.cls, p.id); !used[id] {
				used[id] = true
				pairs = append(pairs, p)
				p.save(c)
			}
		}
		for _, i := range c.R.Perm(len(pairs)) {
			pairs[i].loads(c)
		}
		// replacing one leaves the others alone
		p := pairs[c.R.Intn(len(pairs))]
		p.key, p.secret = someKey(c), randSecret(c.R)
		before := snapshot()
		p.save(c)
		for _, f := range changes(before, snapshot()) {
			c.Check(strings.Contains(f, "/"+p.id+"/"), "files", "saving %v changes %s", p, f)
		}
		for _, q := range pairs {
			q.loads(c)
		}
		c.Ev("many")
	})
	// writing fails half way
	x.Stream("full", x.N(150, 3000), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		var old *pair
		if c.R.Intn(3) > 0 {
			o := *p
			old = &o
			old.save(c)
			p.key = someKey(c)
			if c.R.Intn(2) == 0 {
				p.secret = randSecret(c.R)
			}
		}
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		small := lim
		small.Cur = uint64(c.R.Intn(160))
		var err error
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &small)
		pan, val, st := c.Try(func() { err = LCSaveKeyPair(p.cls, p.id, p.key.X, p.key.D, p.secret) })
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		c.Check(!pan, "full", "saving when files are limited to %d bytes: panic %v\n%s", small.Cur, val, st)
		c.Ev("write-limited")
		if err == nil {
			p.loads(c)
			return
		}
		c.Ev("write-failed")
		k, e1 := loadPub(c, p.cls, p.id)
		c.Check(e1 != nil || samePub(k, p.key) || old != nil && samePub(k, old.key), "full", "after a save that failed at %d bytes another public key is loaded", small.Cur)
		secrets := [][]byte{p.secret}
		if old != nil {
			secrets = append(secrets, old.secret)
		}
		for _, s := range secrets {
			q, e2 := loadPriv(c, p.cls, p.id, s)
			c.Check(e2 != nil || samePriv(q, p.key) || old != nil && samePriv(q, old.key), "full", "after a save that failed at %d bytes another private key is loaded", small.Cur)
		}
		p.save(c) // and there is room again
		p.loads(c)
	})
	// the directory cannot be made
	x.Stream("in-the-way", x.N(40, 400), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		dir := strings.Replace(LCGetEtcDir(p.cls), root, "root", 1)
		switch c.R.Intn(3) {
		case 0:
			os.MkdirAll(filepath.Dir(dir), 0755)
			os.WriteFile(dir, []byte("in the way"), 0644)
		case 1:
			os.MkdirAll(dir, 0755)
			os.WriteFile(dir+"/"+p.id, []byte("in the way"), 0644)
		default:
			os.MkdirAll(dir, 0755)
			os.Symlink("nowhere/"+p.id, dir+"/"+p.id)
		}
		before := snapshot()
		var err error
		c.NoPanic("save", func() string { return "saving where something is in the way" }, func() { err = LCSaveKeyPair(p.cls, p.id, p.key.X, p.key.D, p.secret) })
		c.Ev("in-the-way")
		c.Check(err != nil, "in-the-way", "saving where something is in the way succeeds")
		c.Check(len(changes(before, snapshot())) == 0, "in-the-way", "saving where something is in the way changes %v", changes(before, snapshot()))
		_, e1 := loadPub(c, p.cls, p.id)
		_, e2 := loadPriv(c, p.cls, p.id, p.secret)
		c.Check(e1 != nil && e2 != nil, "in-the-way", "a key is loaded from where something is in the way")
	})
	// one of the two files cannot be written
	x.Stream("blocked", x.N(48, 600), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		before := snapshot()
		p.save(c)
		pub, priv := p.files(c, changes(before, snapshot()))
		o := *p
		old := &o
		p.key = someKey(c)
		file := []string{pub, priv}[c.Index%2]
		os.Remove(file)
		switch c.Index / 2 % 4 {
		case 0:
			os.Mkdir(file, 0755)
		case 1:
			os.Symlink("nowhere/file", file)
		case 2:
			os.Symlink(filepath.Base(file), file)
		case 3:
			os.Mkdir(file, 0755)
			os.WriteFile(file+"/x", nil, 0644)
		}
		var err error
		c.NoPanic("save", func() string { return "saving where one of the files cannot be written" }, func() { err = LCSaveKeyPair(p.cls, p.id, p.key.X, p.key.D, p.secret) })
		c.Ev("blocked")
		if err == nil { // a way around it was found
			p.loads(c)
		} else {
			c.Ev("blocked-refused")
			k, e1 := loadPub(c, p.cls, p.id)
			c.Check(e1 != nil || file != pub && (samePub(k, p.key) || samePub(k, old.key)), "blocked", "a public key is loaded that was never stored")
			q, e2 := loadPriv(c, p.cls, p.id, p.secret)
			c.Check(e2 != nil || file != priv && (samePriv(q, p.key) || samePriv(q, old.key)), "blocked", "a private key is loaded that was never stored")
		}
		os.RemoveAll(file) // in the scratch directory
		p.save(c)
		p.loads(c)
		c.Nontrivial(mon.Mix(mon.HashStr(p.id), uint64(c.Index)))
		c.Desc("%v with %s blocked in way %d", p, filepath.Base(file), c.Index/2%4)
	})
	// with the secret prompted for
	x.Stream("prompted", x.N(24, 300), func(c *mon.Case) {
		fresh()
		p := newPair(c)
		pass := passphrase(c, 8+c.R.Intn(20))
		p.secret = padded(pass)
		short := passphrase(c, c.R.Intn(8))
		self, _ := os.Executable()
		saveArgs := []string{self, "child", "save", fmt.Sprint(p.cls), p.id, p.key.X.Text(16), p.key.D.Text(16)}
		before := snapshot()
		res := runTool(c, saveArgs, []say{{"assphrase", string(short), true}}, nil)
		c.Check(res.exit != 0 && len(changes(before, snapshot())) == 0, "prompted", "a passphrase of %d characters saves a key: %q", len(short), res.out)
		res = runTool(c, saveArgs, []say{{"assphrase", string(pass), true}}, nil)
		c.Check(res.exit == 0, "prompted", "saving with passphrase %q: %q", pass, res.out)
		c.Check(!strings.Contains(res.out, string(pass)), "echo", "the passphrase is echoed: %q", res.out)
		p.loads(c)
		load := []string{self, "child", "load", fmt.Sprint(p.cls), p.id}
		res = runTool(c, load, []say{{"assphrase", string(pass), true}}, nil)
		c.Check(res.exit == 0 && strings.Contains(res.out, fmt.Sprintf("key %x", p.key.X.Bytes())), "prompted", "loading with passphrase %q: %q", pass, res.out)
		wrong := append([]byte{}, pass...)
		wrong[c.R.Intn(8)] ^= 1
		res = runTool(c, load, []say{{"assphrase", string(wrong), true}}, nil)
		c.Check(res.exit != 0, "prompted", "passphrase %q loads a key saved with %q: %q", wrong, pass, res.out)
		res = runTool(c, []string{self, "child", "load", fmt.Sprint(p.cls), p.id + "x"}, []say{{"assphrase", string(pass), true}}, nil)
		c.Check(res.exit != 0, "prompted", "a key that is not there is loaded: %q", res.out)
		c.Ev("prompted")
	})
}
