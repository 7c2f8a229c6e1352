package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	. "../../../repo/src/util"
	"../mon"
)

// say is an answer to a prompt.
type say struct {
	prompt string // what the prompt contains
	answer string
	hidden bool // the terminal must not echo it
}

type result struct {
	exit    int
	out     string // all that appeared on the terminal
	asked   int    // answers given
	stopped bool   // it had to be killed
}

// fileLimit limits the size of the files that commands write.
var fileLimit *syscall.Rlimit

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// runTool runs a command on a terminal of its own, and types the answers when
// the prompts appear.
func runTool(c *mon.Case, args []string, says []say, signals []syscall.Signal) result {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	defer m.Close()
	var zero, n int32
	if err := ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		panic(err)
	}
	if err := ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		panic(err)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if fileLimit != nil { // which the command inherits
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, fileLimit)
		err = cmd.Start()
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	} else {
		err = cmd.Start()
	}
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var out []byte
	ended := make(chan struct{})
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			mu.Lock()
			out = append(out, b[:n]...)
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() {
		cmd.Wait()
		close(ended)
	}()
	text := func() string {
		mu.Lock()
		defer mu.Unlock()
		return string(out)
	}
	over := func() bool {
		select {
		case <-ended:
			return true
		default:
			return false
		}
	}
	echo := func() bool {
		var t syscall.Termios
		if err := ioctl(s.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err != nil {
			return true
		}
		return t.Lflag&syscall.ECHO != 0
	}
	res := result{}
	start := time.Now()
	var idle func() bool
	wait := func(limit time.Duration, f func() bool) bool {
		i := 0
		for t := time.Now(); !f(); i++ {
			if over() || time.Since(t) > limit || i%100 == 99 && idle() {
				return f()
			}
			c.Beat()
			time.Sleep(time.Millisecond)
		}
		return true
	}
	// idle: every thread has been asleep, and no CPU time used, for 10 s: it
	// waits for an answer that nobody knows of
	idleSince, idleTicks := time.Now(), int64(-1)
	idle = func() bool {
		ticks, asleep := int64(0), true
		dir := fmt.Sprintf("/proc/%d/task/", cmd.Process.Pid)
		threads, _ := os.ReadDir(dir)
		for _, t := range threads {
			b, _ := os.ReadFile(dir + t.Name() + "/stat")
			f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
			if len(f) < 13 {
				asleep = false
				break
			}
			asleep = asleep && f[0] == "S"
			u, _ := strconv.ParseInt(f[11], 10, 64)
			k, _ := strconv.ParseInt(f[12], 10, 64)
			ticks += u + k
		}
		if !asleep || len(threads) == 0 || ticks != idleTicks {
			idleSince, idleTicks = time.Now(), ticks
		}
		return time.Since(idleSince) > 10*time.Second
	}
	from := 0
	for _, a := range says {
		idleSince = time.Now()
		if !wait(60*time.Second, func() bool { return strings.Contains(strings.ToLower(text()[from:]), strings.ToLower(a.prompt)) }) {
			break
		}
		from = len(text())
		if a.hidden { // typed once the terminal keeps it to itself
			idleSince = time.Now()
			wait(20*time.Second, func() bool { return !echo() })
		}
		if over() {
			break
		}
		m.Write([]byte(a.answer + "\r"))
		res.asked++
	}
	idleSince = time.Now()
	for i := 1; !over() && time.Since(start) < 150*time.Second && (i%100 > 0 || !idle()); i++ {
		c.Beat()
		time.Sleep(time.Millisecond)
	}
	if !over() {
		res.stopped = true
		cmd.Process.Kill()
	}
	<-ended
	time.Sleep(2 * time.Millisecond)
	for prev := -1; prev != len(text()); { // the rest of the output
		prev = len(text())
		time.Sleep(2 * time.Millisecond)
	}
	s.Close()
	res.exit = cmd.ProcessState.ExitCode()
	res.out = text()
	c.Ev("tool-run")
	c.EvN("tool-answer", res.asked)
	if res.stopped {
		c.Failf("tool-hangs", "%v waits for something after %d answers: %q", args, res.asked, res.out)
	}
	return res
}

// passphrase is n printable characters.
func passphrase(c *mon.Case, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + c.R.Intn(94))
	}
	if n > 2 && c.R.Intn(3) == 0 {
		b[1+c.R.Intn(n-2)] = ' '
	}
	return b
}

// padded is a passphrase as a secret.
func padded(p []byte) []byte {
	s := make([]byte, 16)
	copy(s, p)
	return s
}

var hexID = regexp.MustCompile(`\b[0-9a-f]{40,64}\b`)
var classes = []string{"node", "cluster", "universe", "service", "federation"}

func u16(x *mon.Ctx) {
	x.Rule("distinct runs: class, alias state, flags, answers and passphrases")
	seen := map[string]bool{}
	one := func(c *mon.Case, failing bool) {
		fresh()
		defer syscall.Umask(syscall.Umask([]int{022, 0, 077}[c.R.Intn(3)]))
		ci := c.R.Intn(5)
		class, cls := classes[ci], ci+1
		etc := strings.Replace(LCGetEtcDir(cls), root, "root", 1)
		// what is there before
		others := []*pair{}
		for i := c.R.Intn(4); i > 0; i-- {
			k := ECDSAGenerateKey()
			p := &pair{1 + c.R.Intn(5), fmt.Sprintf("%x", k.X.Bytes()), k, randSecret(c.R)}
			if i == 1 {
				p.cls = cls
			}
			p.save(c)
			others = append(others, p)
		}
		alias, state := "", "none"
		if c.R.Intn(4) > 0 {
			alias = []string{"mine", "an-alias", "x", "node_id", "alias with spaces"}[c.R.Intn(5)]
			state = []string{"absent", "key", "dangling", "key", "file", "relative"}[c.R.Intn(6)]
			if len(others) == 0 && (state == "key" || state == "relative") {
				state = "dangling"
			}
			at := etc + "/" + alias
			os.MkdirAll(etc, 0755)
			switch state {
			case "key":
				p := others[len(others)-1]
				os.Symlink(LCGetEtcDir(p.cls)+"/"+p.id, at)
			case "relative":
				p := others[len(others)-1]
				os.Symlink("../"+classes[p.cls-1]+"/"+p.id, at)
			case "dangling":
				os.Symlink(LCGetEtcDir(cls)+"/0123456789abcdef", at)
			case "file":
				os.WriteFile(at, []byte("a file"), 0644)
			}
		}
		exists := state != "none" && state != "absent"
		force := c.R.Intn(3) == 0
		answer := []string{"y", "Y", "n", "N", "", "yes", " y ", "no", "yn", "Q"}[c.R.Intn(10)]
		pass := passphrase(c, 8+c.R.Intn(3)*c.R.Intn(12))
		again := pass
		why := "ok"
		if failing {
			why = []string{"mismatch", "short", "class", "refused", "interrupted", "mismatch-end", "short-both", "hangup-class"}[c.R.Intn(8)]
			switch why {
			case "mismatch":
				again = append([]byte{}, pass...)
				again[c.R.Intn(len(again))] ^= 1
			case "mismatch-end": // one is the beginning of the other, or differs after 16
				pass = passphrase(c, 9+c.R.Intn(12))
				again = pass[:len(pass)-1]
				if c.R.Intn(2) == 0 {
					pass, again = again, pass
				}
				if len(pass) < 8 {
					pass, again = again, pass
				}
				if c.R.Intn(2) == 0 {
					pass = passphrase(c, 20)
					again = append(append([]byte{}, pass[:17]...), "???"...)
				}
			case "short":
				pass = passphrase(c, c.R.Intn(8))
				again = passphrase(c, 8)
			case "short-both":
				pass = passphrase(c, 7-c.R.Intn(2)*c.R.Intn(8))
				again = pass
			case "class", "hangup-class":
				class = []string{"", "nod", "Node", "nodes", "etc", "node ", "1"}[c.R.Intn(7)]
			case "refused":
				answer = []string{"n", "N", "", "no"}[c.R.Intn(4)]
				force = false
				if !exists {
					why = "mismatch"
					again = append([]byte("x"), pass...)
				}
			}
		} else if exists && !force && answer != "y" && answer != "Y" && answer != " y " && answer != "yes" {
			answer = "y"
		}
		args := []string{x.Bin, "-class", class}
		if alias != "" {
			args = append(args, "-alias", alias)
		}
		if force {
			args = append(args, []string{"-force", "-force=true", "--force"}[c.R.Intn(3)])
		}
		says := []say{}
		asks := exists && !force
		if asks && why != "class" && why != "hangup-class" {
			says = append(says, say{"verwrite", answer, false})
		}
		if why == "interrupted" {
			says = append(says, say{"assphrase", string(pass[:c.R.Intn(len(pass))]) + "\x03", true})
		} else if why != "class" && why != "hangup-class" {
			says = append(says, say{"assphrase", string(pass), true}, say{"assphrase", string(again), true})
		}
		run := fmt.Sprintf("class %q alias %q (%s) force %v answer %q passphrases %q %q: %s", class, alias, state, force, answer, pass, again, why)
		c.Desc("%s", run)
		c.Nontrivial(mon.HashStr(run))
		before := snapshot()
		res := runTool(c, args, says, nil)
		after := snapshot()
		diff := changes(before, after)
		c.Evf("tool-"+why, "%s: exit %d, %q, changes %v", run, res.exit, res.out, diff)
		c.Ev("alias-" + state)

		// never echoed, never stored
		for _, p := range [][]byte{pass, again} {
			if len(p) >= 4 {
				c.Check(!strings.Contains(res.out, string(p)), "echo", "%s: the passphrase is echoed: %q", run, res.out)
				for f, e := range after {
					c.Check(!leaks([]byte(e.content), p) && !leaks([]byte(e.content), padded(p)), "stored", "%s: the passphrase is stored in %s: %q", run, f, e.content)
				}
			}
		}
		// other keys are as they were
		for _, p := range others {
			p.loads(c)
		}
		if failing {
			c.Check(res.exit != 0, "tool-accepts", "%s: exits 0: %q", run, res.out)
			c.Check(len(diff) == 0, "tool-leaves", "%s: changes %v", run, diff)
			c.Ev("refused")
			return
		}
		if res.exit != 0 && len(diff) == 0 && asks && answer != "y" && answer != "Y" {
			c.Ev("refused")
			return // anything but y may be a no
		}
		c.Check(res.exit == 0, "tool-fails", "%s: exits %d: %q", run, res.exit, res.out)
		if asks && res.asked != 3 {
			c.Failf("tool-overwrites", "%s: the alias is replaced without asking: %q", run, res.out)
		}
		found := hexID.FindAllString(res.out, -1)
		c.Check(len(found) > 0, "tool-id", "%s: no id is printed: %q", run, res.out)
		id := found[len(found)-1]
		c.Check(!seen[id], "tool-repeats", "%s: id %s was generated before", run, id)
		seen[id] = true
		pub, err := loadPub(c, cls, id)
		c.Check(err == nil, "tool-key", "%s: the public key of %s does not load: %v", run, id, err)
		priv, err := loadPriv(c, cls, id, padded(pass))
		c.Check(err == nil, "tool-key", "%s: the private key of %s does not load with the passphrase: %v", run, id, err)
		c.Check(priv.X.Cmp(pub.X) == 0 && priv.Y.Cmp(pub.Y) == 0, "tool-key", "%s: private and public key do not belong together", run)
		want, _ := new(big.Int).SetString(id, 16)
		c.Check(pub.X.Cmp(want) == 0, "tool-key", "%s: the key under %s is %x", run, id, pub.X)
		h := SumSHA256([]byte(run))
		r, s := sign(c, priv, h)
		c.Check(verify(c, pub, h, r, s), "tool-key", "%s: the key pair does not sign and verify", run)
		wrong := padded(pass)
		wrong[c.R.Intn(16)] ^= 1
		if _, err := loadPriv(c, cls, id, wrong); err == nil {
			c.Failf("tool-key", "%s: another passphrase loads the key", run)
		}
		c.Ev("key-judged")
		// exactly the key and the alias
		p := &pair{cls, id, priv, padded(pass)}
		files := []string{}
		for _, f := range diff {
			if f == etc+"/"+alias {
				continue
			}
			c.Check(filepath.Base(filepath.Dir(f)) == id, "tool-leaves", "%s: changes %s", run, f)
			files = append(files, f)
		}
		p.judgeFiles(c, files)
		if alias != "" {
			k, err := loadPub(c, cls, alias)
			c.Check(err == nil && k.X.Cmp(pub.X) == 0, "tool-alias", "%s: the alias does not lead to the key: %v", run, err)
			q, err := loadPriv(c, cls, alias, padded(pass))
			c.Check(err == nil && q.D.Cmp(priv.D) == 0, "tool-alias", "%s: the alias does not lead to the private key: %v", run, err)
			c.Ev("alias-judged")
		}
		if c.R.Intn(4) == 0 { // with the passphrase prompted for
			self, _ := os.Executable()
			res := runTool(c, []string{self, "child", "load", fmt.Sprint(cls), id}, []say{{"assphrase", string(pass), true}}, nil)
			c.Check(res.exit == 0 && strings.Contains(res.out, "key "+id), "tool-key", "%s: the key does not load when the passphrase is prompted for: %q", run, res.out)
		}
	}
	// the alias is a key's own directory, or another directory: that key stays
	x.Stream("alias-is-key", x.N(30, 300), func(c *mon.Case) {
		fresh()
		cls := 1 + c.R.Intn(5)
		k := ECDSAGenerateKey()
		p := &pair{cls, fmt.Sprintf("%x", k.X.Bytes()), k, randSecret(c.R)}
		p.save(c)
		before := snapshot()
		pass := passphrase(c, 9)
		args := []string{x.Bin, "-class", classes[cls-1], "-alias", p.id}
		says := []say{{"assphrase", string(pass), true}, {"assphrase", string(pass), true}}
		if c.R.Intn(2) == 0 {
			args = append(args, "-force")
		} else {
			says = append([]say{{"verwrite", "y", false}}, says...)
		}
		res := runTool(c, args, says, nil)
		run := fmt.Sprintf("alias %s is a key: exit %d, %q", p.id, res.exit, res.out)
		after := snapshot()
		for f := range before {
			c.Check(after[f] == before[f], "tool-destroys", "%s: changes %s", run, f)
		}
		p.loads(c)
		c.Ev("alias-is-key")
		c.Nontrivial(mon.HashStr(p.id))
		c.Desc("%s", run)
	})
	// an alias that cannot be created, or leads out of the directory
	x.Stream("odd-alias", x.N(40, 300), func(c *mon.Case) {
		fresh()
		cls := 1 + c.R.Intn(5)
		k := ECDSAGenerateKey()
		old := &pair{cls, fmt.Sprintf("%x", k.X.Bytes()), k, randSecret(c.R)}
		old.save(c)
		before := snapshot()
		pass := passphrase(c, 10)
		alias := []string{strings.Repeat("x", 300), "no/such/directory", old.id + "/" + classes[cls-1] + "_id/x", strings.Repeat("y/", 20) + "z", old.id + "/inside"}[c.Index%5]
		args := []string{x.Bin, "-class", classes[cls-1], "-alias", alias}
		if c.R.Intn(2) == 0 {
			args = append(args, "-force")
		}
		says := []say{{"assphrase", string(pass), true}, {"assphrase", string(pass), true}}
		asks := false
		if _, err := os.Lstat(LCGetEtcDir(cls) + "/" + alias); len(args) == 5 && err != nil && !os.IsNotExist(err) {
			asks = true // it may be there, for all one can see
			says = append([]say{{"verwrite", "y", false}}, says...)
		}
		res := runTool(c, args, says, nil)
		run := fmt.Sprintf("alias %q: exit %d, %q", alias, res.exit, res.out)
		c.Desc("%s", run)
		c.Nontrivial(mon.HashStr(run))
		c.Ev("odd-alias")
		after := snapshot()
		for f, e := range before {
			if f != filepath.Dir(strings.Replace(LCGetEtcDir(cls), root, "root", 1)+"/"+alias) {
				c.Check(after[f] == e, "tool-destroys", "%s: changes %s", run, f)
			}
		}
		old.loads(c)
		if res.exit == 0 && (!asks || res.asked == 3) {
			p, err := loadPriv(c, cls, alias, padded(pass))
			c.Check(err == nil, "tool-alias", "%s: the alias does not lead to a key: %v", run, err)
			pub, err := loadPub(c, cls, alias)
			c.Check(err == nil && p.X.Cmp(pub.X) == 0, "tool-alias", "%s: the alias does not lead to a public key: %v", run, err)
			c.Ev("odd-alias-made")
		} else {
			c.Ev("odd-alias-refused")
		}
	})
	// the key cannot be written
	x.Stream("full", x.N(40, 400), func(c *mon.Case) {
		fresh()
		ci := c.R.Intn(5)
		class, cls := classes[ci], ci+1
		etc := strings.Replace(LCGetEtcDir(cls), root, "root", 1)
		k := ECDSAGenerateKey()
		old := &pair{cls, fmt.Sprintf("%x", k.X.Bytes()), k, randSecret(c.R)}
		old.save(c)
		os.Symlink(LCGetEtcDir(cls)+"/"+old.id, etc+"/mine")
		pass := passphrase(c, 12)
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		small := lim
		small.Cur = uint64(c.R.Intn(160))
		fileLimit = &small
		res := runTool(c, []string{x.Bin, "-class", class, "-alias", "mine", "-force"}, []say{{"assphrase", string(pass), true}, {"assphrase", string(pass), true}}, nil)
		fileLimit = nil
		run := fmt.Sprintf("files limited to %d bytes: exit %d, %q", small.Cur, res.exit, res.out)
		c.Desc("%s", run)
		c.Nontrivial(mon.HashStr(run))
		c.Ev("write-limited")
		old.loads(c)
		a, err := loadPub(c, cls, "mine")
		c.Check(err == nil, "tool-alias", "%s: the alias leads nowhere: %v", run, err)
		if res.exit == 0 {
			p, err := loadPriv(c, cls, "mine", padded(pass))
			c.Check(err == nil && p.X.Cmp(a.X) == 0, "tool-key", "%s: no usable key: %v", run, err)
			return
		}
		c.Ev("write-failed")
		c.Check(a.X.Cmp(k.X) == 0, "tool-alias", "%s: the alias no longer leads to its key", run)
		dirs, _ := os.ReadDir(etc)
		for _, d := range dirs {
			if d.Name() != old.id && d.Name() != "mine" {
				_, err := loadPriv(c, cls, d.Name(), padded(pass))
				c.Check(err != nil, "tool-leaves", "%s: a key is left", run)
			}
		}
	})
	x.Stream("success", x.N(260, 4000), func(c *mon.Case) { one(c, false) })
	x.Stream("failure", x.N(340, 4000), func(c *mon.Case) { one(c, true) })
}

