// C25: the code generator creates exactly the directories and files it is asked for
package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/bantling/micro/code"
	"verifmc/mc"
)

const nobody = 65534

var (
	scratch string // belongs to nobody
	count   atomic.Int64
	chdir   sync.Once
)

func fsid(id uintptr) {
	// the user first when going to nobody, so that both are allowed; the other way round when coming back
	if id != 0 {
		syscall.RawSyscall(syscall.SYS_SETFSGID, id, 0, 0)
		syscall.RawSyscall(syscall.SYS_SETFSUID, id, 0, 0)
	} else {
		syscall.RawSyscall(syscall.SYS_SETFSUID, id, 0, 0)
		syscall.RawSyscall(syscall.SYS_SETFSGID, id, 0, 0)
	}
}

// contained runs f in a new directory, with the file system rights of a user who has nothing but the scratch directory
func contained(f func(dir string)) {
	chdir.Do(func() { must(os.Chdir(scratch)) })
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if os.Geteuid() == 0 {
		fsid(nobody)
		defer fsid(0)
		if id, _, _ := syscall.RawSyscall(syscall.SYS_SETFSUID, ^uintptr(0), 0, 0); id != nobody {
			panic("mc: cannot give up the rights of root")
		}
	}
	dir := fmt.Sprintf("%s/%d", scratch, count.Add(1))
	must(os.Mkdir(dir, 0o777))
	defer func() {
		filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				os.Chmod(p, 0o777)
			}
			return nil
		})
		os.RemoveAll(dir)
	}()
	f(dir)
}

func must(err error) {
	if err != nil {
		panic("mc: " + err.Error())
	}
}

// tree is everything in a directory: "dir", "file:" and content, or "link:" and target
type tree map[string]string

func look(dir string) tree {
	t := tree{}
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		rel := strings.TrimPrefix(strings.TrimPrefix(p, dir), "/")
		switch {
		case rel == "":
		case err != nil:
			t[rel] = "unreadable dir"
		case d.IsDir():
			t[rel] = "dir"
		case d.Type()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			must(err)
			t[rel] = "link:" + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				t[rel] = "unreadable file"
			} else {
				t[rel] = "file:" + string(b)
			}
		}
		return nil
	}))
	return t
}

func (t tree) String() string {
	var l []string
	for k, v := range t {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (t tree) without(p string) tree {
	r := tree{}
	for k, v := range t {
		if k != p && !strings.HasPrefix(k, p+"/") {
			r[k] = v
		}
	}
	return r
}

func build(dir string, t tree) {
	var l []string
	for k := range t {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		p, v := dir+"/"+k, t[k]
		switch {
		case v == "dir":
			must(os.Mkdir(p, 0o777))
		case strings.HasPrefix(v, "link:"):
			must(os.Symlink(v[5:], p))
		default:
			must(os.WriteFile(p, []byte(v[5:]), 0o666))
		}
	}
}

// before is a state of the directory the base path is in
type before struct {
	name  string
	base  string // relative to the directory, cleaned
	asked string // how it is spelled
	t     tree
	ro    string // not writable
	ok    bool   // it can be used
}

var keep = tree{"out": "dir", "out/keep": "file:k"}

func with(t tree) tree {
	r := tree{}
	for k, v := range keep {
		r[k] = v
	}
	for k, v := range t {
		r[k] = v
	}
	return r
}

var befores = []before{
	{"absent", "base", "base", with(nil), "", true},
	{"absent with its parents", "p/q/base", "p/./q/base/", with(nil), "", true},
	{"filled", "base", "out/../base", with(tree{"base": "dir", "base/a": "dir", "base/a/x": "file:old", "base/z": "file:old", "base/l": "link:../out", "base/f": "link:../out/keep"}), "", true},
	{"empty", "base", "base/", with(tree{"base": "dir"}), "", true},
	{"beside one with a similar name", "base", "base", with(tree{"base": "dir", "base/x": "file:old", "base2": "dir", "base2/x": "file:k", "bas": "file:k"}), "", true},
	{"in a directory with others", "p/base", "p/base", with(tree{"p": "dir", "p/x": "file:k", "p/base": "dir", "p/base/x": "file:old", "p/y": "dir"}), "", true},
	{"a file", "base", "base", with(tree{"base": "file:k"}), "", false},
	{"below a file", "p/base", "p/base", with(tree{"p": "file:k"}), "", false},
	{"absent in a directory that is not writable", "p/base", "p/base", with(tree{"p": "dir", "p/x": "file:k"}), "p", false},
	{"absent with its parents in a directory that is not writable", "p/q/base", "p/q/base", with(tree{"p": "dir", "p/x": "file:k"}), "p", false},
	{"filled with what cannot be deleted", "base", "base", with(tree{"base": "dir", "base/a": "dir", "base/a/x": "file:k"}), "base/a", false},
	{"filled in a directory that is not writable", "p/base", "p/base", with(tree{"p": "dir", "p/x": "file:k", "p/base": "dir", "p/base/x": "file:old"}), "p", false},
}

type sys struct {
	c    *mc.C
	dir  string
	g    *code.BaseGenerator
	t    tree // what is there
	base string
	set  bool
	cur  string          // current dir, relative
	file string          // current file, relative
	dirs map[string]bool // created
	rel  bool            // the base path is asked for relative to the working directory
}

// full is the path by which to ask for a base path
func (s *sys) full(asked string) string {
	p := s.dir + "/" + asked
	if s.rel {
		p = strings.TrimPrefix(p, scratch+"/") // the working directory
	}
	return p
}

func (s *sys) start(b before) {
	s.g, s.t, s.dirs = &code.BaseGenerator{}, tree{}, map[string]bool{}
	build(s.dir, b.t)
	for k, v := range b.t {
		s.t[k] = v
	}
	if b.ro != "" {
		must(os.Chmod(s.dir+"/"+b.ro, 0o555))
	}
}

// call runs an operation, and compares what is there afterwards
func (s *sys) call(what string, ok bool, f func()) {
	pv := mc.Try(f)
	s.c.Op("%s: %v", what, strings.ReplaceAll(fmt.Sprint(pv), s.dir, ""))
	s.c.Check(ok == (pv == nil), "refusal", "%s: expected success: %v, panicked with %v", what, ok, pv)
	got := look(s.dir)
	s.c.Check(got.String() == s.t.String(), "files", "%s: expected %v, found %v", what, s.t, got)
	s.c.State(got.String() + s.cur + "|" + s.file)
	s.c.Outcome(fmt.Sprint(ok))
}

func (s *sys) setBase(b before) {
	before := look(s.dir)
	ok := b.ok && !s.set
	first := !s.set
	s.set = true
	if ok {
		s.base = b.base
		s.t = s.t.without(b.base)
		for p := b.base; p != "."; p = path.Dir(p) {
			s.t[p] = "dir"
		}
	}
	if b.ok || !first {
		s.call("SetBasePath "+b.asked, ok, func() { s.g.SetBasePath(s.full(b.asked)) })
		return
	}
	pv := mc.Try(func() { s.g.SetBasePath(s.full(b.asked)) })
	s.c.Op("SetBasePath %s (%s): %v", b.asked, b.name, strings.ReplaceAll(fmt.Sprint(pv), s.dir, ""))
	got := look(s.dir)
	if pv == nil {
		// right only if it is there, and empty, all the same
		want := s.t.without(b.base)
		want[b.base] = "dir"
		s.c.Check(got.String() == want.String(), "refusal", "SetBasePath %s (%s): expected a panic, there is %v", b.asked, b.name, got)
		s.c.State(got.String())
		s.c.Outcome("done")
		return
	}
	if strings.HasPrefix(b.t[b.base], "file:") || b.t[b.base] == "" {
		s.c.Check(got.String() == before.String(), "files", "SetBasePath %s (%s): there was %v, now there is %v", b.asked, b.name, before, got)
	} else {
		// what is below the base path may be gone
		s.c.Check(got.without(b.base).String() == before.without(b.base).String(), "files", "SetBasePath %s (%s): there was %v, now there is %v", b.asked, b.name, before, got)
	}
	s.c.State(got.String())
	s.c.Outcome("refused")
}

func (s *sys) get() {
	var got string
	pv := mc.Try(func() { got = s.g.GetBasePath() })
	s.c.Op("GetBasePath: %s %v", strings.ReplaceAll(got, s.dir, ""), pv)
	s.c.Check(s.set == (pv == nil), "refusal", "GetBasePath after SetBasePath: %v, panicked with %v", s.set, pv)
	s.c.Check(!s.set || path.Clean(got) == path.Clean(s.full(s.base)), "base", "GetBasePath: expected %s, got %s", s.full(s.base), got)
}

func (s *sys) makeDir(name string) {
	p := path.Join(s.base, name)
	if s.set && s.t[path.Dir(p)] == "" {
		s.c.Prune() // the parent is to be created before
	}
	ok := s.set && s.t[p] == ""
	if ok {
		s.t[p], s.cur, s.dirs[p] = "dir", p, true
	}
	s.call("Dir "+name, ok, func() { s.g.Dir(name) })
}

func (s *sys) src(name string) {
	p := path.Join(s.cur, name)
	ok := s.cur != "" && s.t[p] == ""
	if ok {
		s.t[p], s.file = "file:", p
	}
	s.call("Src "+name, ok, func() { s.g.Src(name) })
}

func (s *sys) write(text ...string) {
	if s.file == "" {
		s.c.Check(s.g.CurrentSrc() == nil, "current", "there is a current source before one is created")
		return
	}
	s.t[s.file] += strings.Join(text, "")
	s.call("Write "+strings.Join(text, "+"), true, func() { s.put(text...) })
}

func (s *sys) put(text ...string) {
	err := s.g.CurrentSrc().Write(text...)
	s.c.Check(err == nil, "write", "writing %.300q to the current source %s fails with %v", text, s.file, err)
}

func (s *sys) op(k int) bool {
	switch k {
	case 0:
		return false
	case 1:
		s.get()
	case 2:
		s.makeDir("a")
	case 3:
		s.makeDir("b")
	case 4:
		s.makeDir("a/b")
	case 5:
		s.makeDir("./a/")
	case 6:
		s.makeDir("a/x")
	case 7:
		s.src("x")
	case 8:
		s.src("y")
	case 9:
		s.write("é\n", "")
	case 10:
		s.write("", "2", "3")
	}
	return true
}

func main() {
	var err error
	// in memory, if possible
	if scratch, err = os.MkdirTemp("/dev/shm", "c25-"); err != nil {
		scratch, err = os.MkdirTemp("", "c25-")
	}
	must(err)
	must(os.Chmod(scratch, 0o777))
	if os.Geteuid() == 0 {
		must(os.Chown(scratch, nobody, nobody))
	}
	mc.AtExit(func() { os.RemoveAll(scratch) })
	syscall.Umask(0o022)
	mc.Main("C25", "model_checking", []string{
		"a directory is only asked for after its parent, and below the base path: what else happens is not documented",
		"the directory operations are those of the real file system, run with the rights of a user who owns nothing but a scratch directory",
	}, func(r *mc.Run) {
		again := before{base: "out", asked: "out", ok: true}
		n := r.Budget(4, 5)
		r.Explore("histories", fmt.Sprintf("for three states of the base path, all histories of up to %d of 11 operations (base path again, base path, five directories of which two are the same and one has the name of a file, two files, two texts) after setting it", n), -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				b := befores[c.Choose(3)]
				s.start(b)
				s.setBase(b)
				for i := 0; i < n; i++ {
					k := c.Choose(12)
					if k == 11 {
						s.setBase(again)
					} else if !s.op(k) {
						break
					}
				}
			})
		})
		r.Explore("states", fmt.Sprintf("%d states of the directories around the base path, which is absolute or relative, and all histories of up to 2 operations after setting it", len(befores)), -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				b := mc.Pick(c, befores)
				s.rel = c.Bool()
				s.start(b)
				s.setBase(b)
				if !b.ok {
					return
				}
				for i := 0; i < 2; i++ {
					if !s.op(c.Choose(11)) {
						break
					}
				}
			})
		})
		r.Explore("unset", "all histories of up to 3 operations before the base path is set, and 2 after it", -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				b := befores[0]
				s.start(b)
				for i := 0; i < 3; i++ {
					if !s.op(c.Choose(11)) {
						break
					}
				}
				s.setBase(b)
				for i := 0; i < 2; i++ {
					if !s.op(c.Choose(11)) {
						break
					}
				}
			})
		})
		many := r.Budget(7, 9)
		r.Explore("many", fmt.Sprintf("all histories of up to %d operations that each create a further directory, one of two files in the current one, or a directory that is there", many), -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				made := 0
				for i := 0; i < many; i++ {
					switch c.Choose(5) {
					case 0:
						return
					case 1:
						s.makeDir(fmt.Sprint("d", made))
						made++
					case 2:
						s.src("x")
					case 3:
						s.src("y")
					default:
						if made == 0 {
							c.Prune()
						}
						s.makeDir("d0")
					}
				}
			})
		})
		names := []string{"a", "A", "ab", "b", "a.go", ".a", "...", "é", "e\u0301", "É", "a b", " ", "-r", "a~", "*", "a\\b", "CON", strings.Repeat("n", 200), strings.Repeat("n", 199) + "N"}
		r.Explore("names", fmt.Sprintf("all pairs of %d names, as directories, each with a file of either name: they are the same only if they are equal", len(names)), -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				i, j := c.Choose(len(names)), c.Choose(len(names))
				if s.makeDir(names[i]); c.Bool() {
					s.src(names[i])
					s.write("1")
				}
				s.src(names[j])
				s.write("2")
				s.makeDir(names[j])
				s.src(names[j])
				s.src(names[i])
				s.write("3", "4")
				s.makeDir(names[i] + "/" + names[j])
				s.src(names[i])
			})
		})
		r.Explore("same-base", "all histories of up to 4 operations that each create one of 6 nested directories of the same names in different parents, or a file of the name of a directory: the same only if the paths are equal", -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				dirs := []string{"p", "q", "p/x", "q/x", "p/x/x", "x"}
				for i := 0; i < 4; i++ {
					k := c.Choose(len(dirs) + 1)
					if k == len(dirs) {
						break
					}
					s.makeDir(dirs[k])
					if c.Bool() {
						s.src("y")
						s.write(dirs[k])
					}
				}
			})
		})
		r.Explore("existing", "a file that is there already, empty, short or long, where a source file is asked for in one of two directories: it is refused, or has exactly the text that is written then", -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				s.makeDir("a")
				if c.Bool() {
					s.src("y")
					s.makeDir("b")
				}
				p := s.cur + "/x"
				old := mc.Pick(c, []string{"", "o", "old text\n", strings.Repeat("old", 5000)})
				must(os.WriteFile(dir+"/"+p, []byte(old), 0o666))
				pv := mc.Try(func() { s.g.Src("x") })
				c.Op("Src on a file of %d: %v", len(old), pv)
				s.t[p] = "file:" + old
				if pv == nil {
					s.t[p], s.file = "file:", p
				}
				s.write(mc.Pick(c, []string{"", "n", "new text that is longer\n"}))
				s.write("2")
			})
		})
		r.Explore("impossible", "source files and directories that the file system cannot create, once or twice, before and after ones that it can: they are refused and change nothing, what is written next goes where it went before", -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				s.makeDir("a")
				s.makeDir("b")
				if c.Bool() {
					s.src("y")
					s.write("1")
				}
				for n := 1 + c.Choose(2); n > 0; n-- {
					switch k := c.Choose(9); k {
					case 0, 1, 2, 3, 4:
						if name := []string{"none/x", "", ".", "y/x", strings.Repeat("n", 300)}[k]; true {
							s.call("Src "+name, false, func() { s.g.Src(name) })
						}
					case 5:
						if s.t[s.cur+"/y"] == "" {
							c.Prune()
						}
						s.call("Dir b/y", false, func() { s.g.Dir("b/y") })
					case 6:
						s.call("Dir long", false, func() { s.g.Dir(strings.Repeat("n", 300)) })
					case 7:
						s.src("z")
					case 8:
						s.makeDir("b/c")
					}
					s.write("2")
				}
				s.src("x")
				s.write("3")
			})
		})
		long := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("texts of all lengths up to 66 and around powers of two up to %d, in one, two or many writes; that many files and directories up to 300", long), -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				s.start(befores[0])
				s.setBase(befores[0])
				s.makeDir("a")
				n := mc.Pick(c, mc.Lengths(long))
				text := strings.Repeat("aé\n€", n/7+1)[:n]
				switch c.Choose(4) {
				case 0:
					s.src("x")
					s.write(text)
				case 1:
					s.src("x")
					s.write(text[:n/2])
					s.src("y")
					s.write(text[n/2:], text)
				case 2:
					if n > 300 {
						c.Prune()
					}
					s.src("x")
					for i := 0; i < n; i++ {
						s.put(text[i : i+1])
					}
					s.t[s.file] += text
					s.write("end")
				case 3:
					if n > 300 {
						c.Prune()
					}
					for i := 0; i < n; i++ {
						p := fmt.Sprintf("base/d%d", i)
						s.t[p], s.t[p+"/x"] = "dir", "file:"+fmt.Sprint(i)
						s.g.Dir(p[5:])
						s.g.Src("x")
						s.put(fmt.Sprint(i))
						s.cur, s.file = p, p+"/x"
					}
					s.makeDir("d0")
					s.src("x")
					s.write("!")
					s.makeDir("e")
				}
			})
		})
		r.Explore("two", "two generators with two base paths, all histories of up to 4 operations divided in all ways between them: neither affects the other", -1, func(c *mc.C) {
			contained(func(dir string) {
				s := &sys{c: c, dir: dir}
				b := befores[0]
				s.start(b)
				s.setBase(b)
				o := &sys{c: c, dir: dir, g: &code.BaseGenerator{}, t: s.t, dirs: map[string]bool{}}
				b2 := before{base: "two", asked: "base/../two", ok: true}
				o.setBase(b2)
				s.t = o.t
				for i := 0; i < 4; i++ {
					k := c.Choose(11)
					g := s
					if k != 0 && c.Bool() {
						g = o
					}
					if !g.op(k) {
						break
					}
				}
			})
		})
	})
}
