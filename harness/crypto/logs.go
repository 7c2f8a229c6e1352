package main

import (
	"bytes"
	"fmt"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	. "../../../repo/src/util"
	"../mon"
)

// logPath is where a process logs to.
func logPath(pid int) string { return fmt.Sprintf("%s/tmp/%d.log", root, pid) }

// logChild carries out a history of logging, and tells on standard error how
// each attempt to direct the log ended.
func logChild(ops []string) {
	path := logPath(os.Getpid())
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	start := fds()
	for _, op := range ops {
		what, arg, _ := strings.Cut(op, ":")
		switch what {
		case "stdout":
			fmt.Fprintln(os.Stderr, "set", LCSetLoggerStdout() == nil)
		case "file":
			fmt.Fprintln(os.Stderr, "set", LCSetLoggerFileTmp() == nil)
		case "log":
			log.Print(arg)
		case "long":
			log.Print(longLine(arg))
		case "par":
			n, _ := strconv.Atoi(arg)
			var wg sync.WaitGroup
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 50; i++ {
						log.Printf("%s", parLine(g, i))
					}
				}(g)
			}
			wg.Wait()
		case "block": // something that is no file where the log file would be
			if os.Mkdir(path, 0700) != nil {
				os.Exit(9)
			}
		case "unblock":
			if os.Remove(path) != nil {
				os.Exit(9)
			}
		case "prefill":
			if os.WriteFile(path, []byte(arg+"\n"), 0600) != nil {
				os.Exit(9)
			}
		}
	}
	fmt.Fprintln(os.Stderr, "fds", fds()-start)
}

// longLine is too long for an argument.
func longLine(spec string) string {
	var n, seed int
	fmt.Sscanf(spec, "%d %d", &n, &seed)
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(seed))).Read(b)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return fmt.Sprintf("long %s %s", spec, b)
}

func shorten(lines []string) string {
	res := ""
	for _, l := range lines {
		if len(l) > 300 {
			l = fmt.Sprintf("%s ... (%d bytes)", l[:300], len(l))
		}
		res += l + "\n"
	}
	return res
}

func parLine(g, i int) string {
	return fmt.Sprintf("par %d %d %s", g, i, strings.Repeat(string(rune('a'+(g+i)%26)), (g*31+i*57)%600))
}

var logLine = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? [^ ]+\.go:\d+: (.*)$`)

func u25(x *mon.Ctx) {
	x.Rule("a case is one process with a history of directing its log and logging, or one history of written files; non-trivial: something was written; distinct by history")
	x.Stream("log", x.N(240, 6000), func(c *mon.Case) {
		fresh()
		os.MkdirAll("root/tmp", 0755)
		var ops, want []string // want: what has to be reported about the attempts
		out := map[string][]string{"stdout": nil, "file": nil}
		to, opened, blocked := "", false, false
		if c.R.Intn(3) == 0 {
			ops = append(ops, "prefill:before")
			out["file"] = append(out["file"], "before")
		} else if c.R.Intn(3) == 0 {
			ops = append(ops, "block")
			blocked = true
		}
		set := func(where string) {
			ops = append(ops, where)
			switch {
			case where == "stdout":
				to = where
				want = append(want, "true")
			case blocked && !opened:
				want = append(want, "false")
				c.Ev("unopenable")
			default:
				to, opened = where, true
				want = append(want, "true")
			}
			c.Ev("set")
		}
		set("stdout")
		n := 0
		for i := 3 + c.R.Intn(30); i > 0; i-- {
			switch c.R.Intn(6) {
			case 0:
				set("stdout")
			case 1, 2:
				set("file")
			case 3:
				if blocked && !opened && c.R.Intn(2) == 0 {
					ops = append(ops, "unblock")
					blocked = false
					set("file")
				}
			default:
				if c.R.Intn(25) == 0 {
					spec := fmt.Sprintf("%d %d", []int{1000, 4096, 8192, 1 << 15, 1 << 16, 70000, 1 << 17, 300000, 1 << 20}[c.R.Intn(9)]+c.R.Intn(100)-50, c.R.Intn(1000))
					n++
					ops = append(ops, "long:"+spec)
					out[to] = append(out[to], longLine(spec))
					c.Ev("long-line")
					continue
				}
				s := fmt.Sprintf("line %d of %x%s", n, c.R.Uint64(), strings.Repeat("y", c.R.Intn(200)))
				n++
				ops = append(ops, "log:"+s)
				out[to] = append(out[to], s)
				c.Ev("line")
			}
		}
		par := 0
		if c.R.Intn(4) == 0 {
			par = 2 + c.R.Intn(7)
			ops = append(ops, fmt.Sprint("par:", par))
			c.Ev("concurrent-lines")
		}
		self, _ := os.Executable()
		cmd := exec.Command(self, append([]string{"child", "log"}, ops...)...)
		cmd.Env = append(os.Environ(), "TMPDIR="+root+"/tmp")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		c.Beat()
		c.Check(err == nil, "log-failed", "%v: %v\n%s", ops, err, e.String())
		got := []string{}
		fds := ""
		for _, l := range strings.Split(e.String(), "\n") {
			if s, ok := strings.CutPrefix(l, "set "); ok {
				got = append(got, s)
			} else if s, ok := strings.CutPrefix(l, "fds "); ok {
				fds = s
			} else {
				c.Check(l == "", "log-elsewhere", "%v: on standard error: %q", ops, l)
			}
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "log-result", "%v: directing the log succeeded: %v, should be %v", ops, got, want)
		held, _ := strconv.Atoi(fds)
		c.Check(held <= 4, "log-files-held", "%v: %d more files are open", ops, held)
		c.X.Max("files-held", int64(held))
		// where the lines are
		for name, lines := range out {
			text := o.String()
			if name == "file" {
				b, err := os.ReadFile(logPath(cmd.Process.Pid))
				if len(lines) > 0 || opened {
					c.Check(err == nil, "log-file", "%v: there is no log file: %v", ops, err)
				}
				text = string(b)
				ents, _ := os.ReadDir("root/tmp")
				for _, f := range ents {
					c.Check(f.Name() == filepath.Base(logPath(cmd.Process.Pid)), "log-file", "%v: another file %s", ops, f.Name())
				}
			}
			var plain []string
			count := map[string]int{}
			next := map[int]int{}
			for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
				if l == "before" || text == "" {
					if text != "" {
						plain = append(plain, l)
					}
					continue
				}
				m := logLine.FindStringSubmatch(l)
				c.Check(m != nil, "log-line", "%v: %s has a line without date, time and place: %q", ops, name, l)
				if s := m[2]; strings.HasPrefix(s, "par ") {
					var g, i int
					fmt.Sscanf(s, "par %d %d", &g, &i)
					c.Check(s == parLine(g, i), "log-garbled", "%v: %s has the line %q", ops, name, s)
					c.Check(next[g] == i, "log-order", "%v: %s has line %d of writer %d where %d is due", ops, name, i, g, next[g])
					next[g]++
					count[s]++
				} else {
					plain = append(plain, s)
				}
			}
			c.Check(strings.Join(plain, "\n") == strings.Join(lines, "\n"), "log-lines", "%v: %s has\n%s\nshould have\n%s", ops, name, shorten(plain), shorten(lines))
			due := 0
			if name == to {
				due = par * 50
			}
			c.Check(len(count) == due, "log-lines", "%v: %s has %d of %d lines of concurrent writers", ops, name, len(count), due)
		}
		os.RemoveAll("root/tmp")
		c.Desc("%d steps, %d writers at once", len(ops), par)
		c.Nontrivial(mon.HashStr(strings.Join(ops, " ")))
	})
	x.Stream("files", x.N(600, 20000), func(c *mon.Case) {
		fresh()
		os.MkdirAll("root/tmp", 0755)
		type file struct {
			name string
			f    *os.File
			size int
		}
		files := []*file{}
		h := uint64(7)
		for i := 1 + c.R.Intn(4); i > 0; i-- {
			name := fmt.Sprintf("file%d-%x", i, c.R.Uint32())
			if c.R.Intn(2) == 0 { // one that is there already
				os.WriteFile("root/tmp/"+name, bytes.Repeat([]byte("x"), 1+c.R.Intn(10000)), 0600)
			}
			f := &file{name: name}
			c.NoPanic("open", func() string { return "opening " + name }, func() { f.f = Open(name) })
			files = append(files, f)
			c.Ev("opened")
		}
		for i := c.R.Intn(20); i >= 0; i-- {
			f := files[c.R.Intn(len(files))]
			n := []int{0, 1, c.R.Intn(100), c.R.Intn(10000), 4096, 1 << 16}[c.R.Intn(6)]
			c.NoPanic("write", func() string { return fmt.Sprint("writing ", n) }, func() { Write(f.f, n) })
			f.size += n
			h = mon.Mix(h, uint64(n))
			c.Ev("written")
			if c.R.Intn(5) == 0 {
				c.NoPanic("sync", func() string { return "sync" }, func() { Sync(f.f) })
			}
			for _, f := range files {
				b, err := os.ReadFile("root/tmp/" + f.name)
				c.Check(err == nil && len(b) == f.size && len(bytes.Trim(b, "\x00")) == 0, "file-content", "%s: %d bytes (%v), %d zero bytes written", f.name, len(b), err, f.size)
			}
		}
		ents, _ := os.ReadDir("root/tmp")
		c.Check(len(ents) == len(files), "file-content", "%d files where %d were opened", len(ents), len(files))
		for _, f := range files {
			Close(f.f)
			_, err := f.f.Write([]byte{1})
			c.Check(err != nil, "closed", "a closed file can be written")
			p, _, _ := c.Try(func() { Write(f.f, 1+c.R.Intn(100)) })
			c.Check(p, "write-unnoticed", "writing to a closed file goes unnoticed")
			p, _, _ = c.Try(func() { Sync(f.f) })
			c.Check(p, "sync-unnoticed", "syncing a closed file goes unnoticed")
		}
		os.RemoveAll("root/tmp")
		p, _, _ := c.Try(func() { Open("x") })
		c.Check(p, "open-unnoticed", "a file that cannot be opened goes unnoticed")
		c.Ev("unopenable-file")
		c.Desc("%d files", len(files))
		c.Nontrivial(h)
	})
	x.Stream("pad", x.N(400, 10000), func(c *mon.Case) {
		for n := 0; n < 80; n++ {
			in := make([]byte, n, n+c.R.Intn(40))
			c.R.Read(in)
			c.R.Read(in[n:cap(in)])
			keep := append([]byte{}, in...)
			var out []byte
			c.NoPanic("pad", func() string { return fmt.Sprintf("padding %x", in) }, func() { out = AESPad(in) })
			want := append(append([]byte{}, in...), make([]byte, 16)...)[:16]
			if n >= 16 {
				want = in[n-16:]
			}
			c.Check(bytes.Equal(out, want), "pad", "padding %x gives %x", keep, out)
			c.Check(bytes.Equal(in, keep), "pad", "padding changes %x to %x", keep, in)
			a, b := c.R.Int63(), fmt.Sprint(c.R.Int63())
			c.Check(Ternary(true, a, b) == interface{}(a) && Ternary(false, a, b) == interface{}(b) && Ternary(false, a, nil) == nil && Ternary(true, nil, b) == nil, "ternary", "choosing between %v and %v", a, b)
			c.Ev("padded")
		}
		c.Desc("padding of 0 to 79 bytes")
		c.Nontrivial(c.R.Uint64())
	})
}
