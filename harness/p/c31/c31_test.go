package c31

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/bantling/micro/code"
	"verif/harness/vt"
)

const dirMark = "\x00dir"

// snapshot lists everything under a directory.
func snapshot(c *vt.C, root string) map[string]string {
	res := map[string]string{}
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
			res[rel] = dirMark
		case d.Type()&fs.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				return err
			}
			res[rel] = "\x00link " + to
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			res[rel] = string(b)
		}
		return nil
	})
	if err != nil {
		c.Fatalf("the tree cannot be read by its owner: %v", err)
	}
	return res
}

func diff(got, want map[string]string) string {
	var sb []string
	for p, v := range got {
		if w, ok := want[p]; !ok {
			sb = append(sb, fmt.Sprintf("unexpected %s (%q)", p, v))
		} else if v != w {
			sb = append(sb, fmt.Sprintf("%s is %q, expected %q", p, v, w))
		}
	}
	for p := range want {
		if _, ok := got[p]; !ok {
			sb = append(sb, "missing "+p)
		}
	}
	sort.Strings(sb)
	return strings.Join(sb, "; ")
}

type gen struct {
	g       *code.BaseGenerator
	base    string // relative to the root, clean; "" if not set
	given   string
	current string
	src     string // relative to the root
	dirs    map[string]bool
	dead    bool
}

func TestGenerator(t *testing.T) {
	if os.Geteuid() == 0 {
		t.Fatal("VT-INFRA this test deletes files and refuses to run as root: use bin/check.py")
	}
	scratch := os.Getenv("VT_SCRATCH")
	if scratch == "" {
		t.Fatal("VT-INFRA no scratch directory")
	}
	cases := 0
	vt.Check(t, 2500, "histories of up to 25 calls of two generators in a tree of files, links and directories, some left by earlier runs, hidden, deep, many or read only ones among them: base paths that exist, exist in part, are files, or links to a directory or to nothing, are written with dots and repeated slashes, or are set again; directories and sources that are new, repeated, repeated under another spelling, without parent, or named like one another, with unusual characters; lines written to sources. After each call the whole tree is compared with a model; non-trivial if earlier content was wiped, at least two sources were created, and at least one call had to panic", func(c *vt.C) {
		root, err := os.MkdirTemp(scratch, "case")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		// deep enough that the parents of what is deleted are in the scratch directory as well
		root = filepath.Join(root, "x", "y")
		tree := map[string]string{".": dirMark}
		if err := os.MkdirAll(root, 0o755); err != nil {
			panic(err)
		}
		mk := func(p, content string) {
			full := filepath.Join(root, p)
			var err error
			switch {
			case content == dirMark:
				err = os.Mkdir(full, 0o755)
			case strings.HasPrefix(content, "\x00link "):
				err = os.Symlink(content[6:], full)
			default:
				err = os.WriteFile(full, []byte(content), 0o644)
			}
			if err != nil {
				panic(err)
			}
			tree[p] = content
		}
		mk("keep", dirMark)
		mk("keep/f.go", "keep this")
		mk("file", "a file")
		mk("out", dirMark)
		mk("out/link", "\x00link ../keep")
		mk("out/nowhere", "\x00link ../none")
		for _, d := range []string{"out/gen", "out/gen2"} {
			if c.Bool("exists") {
				mk(d, dirMark)
				for n := c.Range(0, 3, "earlier content"); n > 0; n-- {
					switch c.Range(0, 6, "kind") {
					case 0:
						if _, ok := tree[d+"/a"]; !ok {
							mk(d+"/a", dirMark)
							mk(d+"/a/old.go", "old")
						}
					case 1:
						mk(d+"/x.go", "old too")
					case 2: // hidden
						if _, ok := tree[d+"/.h"]; !ok {
							mk(d+"/.h", dirMark)
							mk(d+"/.h/.keep", "old")
							mk(d+"/..x", "old")
						}
					case 3: // deep
						for at, k := d, c.Range(1, 12, "deep"); k > 0; k-- {
							at += "/d"
							if _, ok := tree[at]; !ok {
								mk(at, dirMark)
							}
						}
					case 4: // many
						for k := c.Range(1, 150, "many"); k > 0; k-- {
							if f := fmt.Sprintf("%s/m%d", d, k); tree[f] == "" {
								mk(f, "m")
							}
						}
					case 5: // of which nobody may write the file
						if _, ok := tree[d+"/ro"]; !ok {
							mk(d+"/ro", "read only")
							if err := os.Chmod(filepath.Join(root, d+"/ro"), 0o400); err != nil {
								panic(err)
							}
						}
					default:
						if _, ok := tree[d+"/l"]; !ok {
							mk(d+"/l", "\x00link ../../keep")
						}
					}
				}
			}
		}
		gens := []*gen{{g: &code.BaseGenerator{}, dirs: map[string]bool{}}, {g: &code.BaseGenerator{}, dirs: map[string]bool{}}}
		var log []string
		wiped, created, refused := false, 0, 0
		if cases++; cases%64 == 0 {
			runtime.GC() // closes the files that generators leave open
		}

		// call runs an operation that has to panic if ok is false
		call := func(ok bool, f func()) {
			p, panicked := vt.Panics(f)
			if panicked == ok {
				c.Fatalf("%v: panics %v with %v", log, panicked, p)
			}
			if panicked {
				refused++
			}
		}
		bases := []string{"out/gen", "out/gen2", "out/new", "new/a/b", "file", "file/sub", "out/gen/sub", "out/link", "out/nowhere", "out/.g", "out/é b", "out/GEN"}
		dirs := []string{"a", "b", "a/b", "b/a", "a/b/c", "x.go", "", "c", "A", "a b", ".a", "a..b", "...", "-a", "~", "é日", "e\u0301", "*", "$HOME", "a\\b", "%2e", strings.Repeat("n", 255)}
		srcs := []string{"x.go", "y.go", "a", "b", "sub/x.go", "b/x.go", "X.go", "x", ".x.go", "x.go~", "x..go", "x y.go", "é.go", "-x", "*.go", strings.Repeat("n", 252) + ".go"}
		long := strings.Repeat("longname", []int{2, 4, 8, 16, 30}[c.Range(0, 4, "length")])
		dirs = append(dirs, long, long+"1", long+"2", "1"+long, "2"+long, long+"/"+long, long+"/"+long+"1")
		srcs = append(srcs, long, long+"1", long+"2", long+"1.go", long+"2.go", "1"+long+".go", "2"+long+".go")
		switch c.Range(0, 5, "similar names") {
		case 0:
			dirs, srcs = dirs[len(dirs)-7:], srcs[len(srcs)-7:]
		case 1:
			srcs = srcs[len(srcs)-7:]
		}
		if c.Bool("usual names") && len(srcs) > 7 {
			dirs, srcs = dirs[:8], srcs[:6]
		}
		spell := func(p string) string {
			switch c.Range(0, 5, "spelling") {
			case 0:
				return "./" + p
			case 1:
				return strings.ReplaceAll(p, "/", "//")
			case 2:
				return strings.ReplaceAll(p, "/", "/./")
			}
			return p
		}
		for n := c.Range(3, 25, "calls"); n > 0; n-- {
			gi := c.Range(0, 3, "generator") / 3
			if gens[gi].dead {
				gi = 1 - gi
			}
			m := gens[gi]
			if m.dead {
				break
			}
			op := c.Range(0, 10, "call")
			likely := c.Range(0, 3, "likely") > 0 // that the call succeeds
			if likely && m.base == "" {
				op = 0
			} else if likely && m.current == "" {
				op = 2
			} else if likely && m.src == "" {
				op = 5
			} else if likely && op == 0 {
				op = 9
			}
			if op == 10 {
				// somebody else creates something where the generator may create something later
				at := m.base + "/" + []string{"a", "b", "c", "a/b", "x.go", "A"}[c.Range(0, 5, "place")]
				if m.base == "" || c.Range(0, 2, "source") == 0 && m.current != "" {
					at = m.current + "/" + []string{"sub", "x.go", "y.go", "b", "x.go~"}[c.Range(0, 4, "place")]
				}
				at = path.Clean(at)
				if _, exists := tree[at]; exists || tree[path.Dir(at)] != dirMark || m.base == "" {
					continue
				}
				content := []string{dirMark, dirMark, dirMark, "foreign", "\x00link " + root + "/keep"}[c.Range(0, 4, "kind")]
				if strings.HasPrefix(content, "\x00link") && path.Base(at) != "c" && path.Base(at) != "y.go" {
					content = dirMark // a link is not followed by the model
				}
				log = append(log, fmt.Sprintf("%s appears", at))
				mk(at, content)
				continue
			}
			// pick draws one of the names, likely one for which the call succeeds
			pick := func(all []string, label string, ok func(string) bool) string {
				if likely {
					var good []string
					for _, n := range all {
						if ok(n) {
							good = append(good, n)
						}
					}
					if len(good) > 0 {
						all = good
					}
				}
				return all[c.Range(0, len(all)-1, label)]
			}
			switch {
			case op == 0:
				b := bases[c.Range(0, len(bases)-1, "base")]
				if m.base == "" && c.Range(0, 2, "usual") > 0 {
					b = bases[gi]
				}
				full := root + "/" + spell(b)
				if c.Bool("slash") {
					full += "/"
				}
				log = append(log, fmt.Sprintf("%d.SetBasePath(%s)", gi, full))
				// what is on the way
				ok := m.base == ""
				first := ok
				for d := b; d != "."; d = path.Dir(d) {
					if v, have := tree[d]; d == b && d == "out/link" && have {
						// the link is replaced, what it points to is not touched
					} else if have && v != dirMark {
						ok = false
					}
				}
				call(ok, func() { m.g.SetBasePath(full) })
				if !ok {
					m.dead = first // what it is good for after that is not specified
					break
				}
				for p := range tree {
					if strings.HasPrefix(p, b+"/") {
						delete(tree, p)
						wiped = true
					}
				}
				for d := b; d != "."; d = path.Dir(d) {
					tree[d] = dirMark
				}
				m.base, m.given = b, full
				// another generator whose files are gone
				for _, o := range gens {
					if o != m && o.base != "" && (o.base == b || strings.HasPrefix(o.base, b+"/") || strings.HasPrefix(b, o.base+"/")) {
						o.dead = true
					}
				}
			case op == 1:
				log = append(log, fmt.Sprintf("%d.GetBasePath()", gi))
				got := ""
				call(m.base != "", func() { got = m.g.GetBasePath() })
				if m.base != "" && path.Clean(got) != path.Clean(m.given) {
					c.Fatalf("%v is %q, expected %q", log, got, m.given)
				}
			case op <= 4:
				d := pick(dirs, "dir", func(n string) bool {
					full := path.Clean(m.base + "/" + n)
					_, exists := tree[full]
					return !exists && tree[path.Dir(full)] == dirMark
				})
				name := spell(d)
				full := path.Clean(m.base + "/" + d)
				log = append(log, fmt.Sprintf("%d.Dir(%s)", gi, name))
				if m.base != "" && d == "" && !m.dirs[full] {
					// the base path exists, it may be accepted as a directory or not
					if _, panicked := vt.Panics(func() { m.g.Dir(name) }); !panicked {
						m.current = full
						m.dirs[full] = true
					}
					break
				}
				_, exists := tree[full]
				ok := m.base != "" && !exists && tree[path.Dir(full)] == dirMark
				call(ok, func() { m.g.Dir(name) })
				if ok {
					tree[full], m.dirs[full], m.current = dirMark, true, full
				}
			case op <= 7:
				s := pick(srcs, "src", func(n string) bool {
					full := path.Clean(m.current + "/" + n)
					_, exists := tree[full]
					return !exists && tree[path.Dir(full)] == dirMark
				})
				name := spell(s)
				full := path.Clean(m.current + "/" + s)
				if !likely && c.Range(0, 2, "absolute") == 0 {
					// ends up in the case's tree if it is not put below the current directory
					name = strings.TrimPrefix(root, "/") + "/stray.go"
					full = path.Clean(m.current + "/" + name)
				}
				log = append(log, fmt.Sprintf("%d.Src(%s)", gi, name))
				_, exists := tree[full]
				ok := m.current != "" && !exists && tree[path.Dir(full)] == dirMark
				call(ok, func() { m.g.Src(name) })
				if ok {
					tree[full], m.src = "", full
					created++
				}
			default:
				if m.src == "" {
					continue
				}
				var vals []string
				for k := c.Range(0, 3, "strings"); k > 0; k-- {
					vals = append(vals, []string{"", "a", "package x\n", "é日\x00", "}\n"}[c.Range(0, 4, "text")])
				}
				log = append(log, fmt.Sprintf("%d.Write(%q)", gi, vals))
				if err := m.g.CurrentSrc().Write(vals...); err != nil {
					c.Fatalf("%v: %v", log, err)
				}
				tree[m.src] += strings.Join(vals, "")
			}
			if d := diff(snapshot(c, root), tree); d != "" {
				c.Fatalf("%v: %s", log, d)
			}
		}
		c.Class("wiped %v, sources %d, panics %v", wiped, min(created, 3), refused > 0)
		if wiped && created > 1 && refused > 0 {
			c.NonTrivial("%v", strings.ReplaceAll(strings.Join(log, " "), root, ""))
		}
	})
}
