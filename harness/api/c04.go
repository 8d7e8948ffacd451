package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"wiki2book/cache"
)

// runC04 stores families of similar names and checks that each is found under its own name, in its kind's folder.
func runC04() {
	folders := []string{cache.ArticleCacheDirName, cache.ImageCacheDirName, cache.MathCacheDirName, cache.TemplateCacheDirName, cache.HtmlCacheDirName, cache.StatsCacheDirName}
	chars := []string{"a", "b", "A", "/", ":", "%", "%2F", "%3A", "%25", "%2f", "?", "*", "\"", "'", "\\", "|", "<", ">", ".", "..", "é", "e\u0301", "日", " ", "_", "\t", "~", "$", "-", "=", "+", "\u200b", "\u202e", ";", "&", "(", "#", "2F", "5C", "3C"}
	for ci := 0; ci < ncases && !tooMany(); ci++ {
		if !mine(ci) {
			continue
		}
		r := newRand("c04", ci)
		root := freshCache("cache dir")
		names := map[string]map[string]int{}
		id := 0
		alphabet := chars
		if r.IntN(2) == 0 { // a small alphabet provokes collisions
			alphabet = nil
			for i := 0; i < 2+r.IntN(4); i++ {
				alphabet = append(alphabet, pick(r, chars...))
			}
		}
		var order, long [][2]string
		for i := 0; i < 4+r.IntN(40); i++ {
			f := pick(r, folders...)
			n := ""
			for k := 0; k < 1+r.IntN(6); k++ {
				n += pick(r, alphabet...)
			}
			switch {
			case len(order) > 0 && r.IntN(4) == 0: // a variation of an earlier one
				o := order[r.IntN(len(order))]
				f = o[0]
				sp := pick(r, "/", "%2F", ":", "%3A", "\\", "%5C", ".", "")
				k := r.IntN(len(o[1]) + 1)
				for k < len(o[1]) && o[1][k]&0xC0 == 0x80 {
					k++
				}
				n = o[1][:k] + sp + o[1][k:]
			case len(long) > 0 && r.IntN(4) == 0: // long names with small differences
				o := long[r.IntN(len(long))]
				f, n = o[0], o[1]
				k := r.IntN(len(n))
				if r.IntN(2) == 0 {
					k = len(n) - 1 - r.IntN(min(len(n), 30))
				}
				switch r.IntN(3) {
				case 0:
					n = n[:k] + strings.ToUpper(n[k:])
				case 1:
					n = n[:k] + strings.ToLower(n[k:])
				default:
					if n[k] < 0x80 {
						n = n[:k] + pick(r, "x", "7", "-") + n[k+1:]
					}
				}
				if !utf8.ValidString(n) {
					continue
				}
			case r.IntN(8) == 0:
				n = strings.ToUpper(n)
			case r.IntN(8) == 0: // titles have up to 255 bytes
				pad := pick(r, "a", "0123456789", "é", "日本", "%", ":", "/x", n)
				for l := 150 + r.IntN(101) - len(n); len(pad) > 0 && l > 0; l -= len(pad) {
					n = pad + n
				}
				if r.IntN(3) == 0 {
					n += pick(r, ".json", ".html", ".png", ".svg", ".somelongfileending")
				}
			}
			if len(n) > 260 {
				continue
			}
			if n == "." || n == ".." || n == "" {
				continue
			}
			if names[f] == nil {
				names[f] = map[string]int{}
			}
			id++
			names[f][n] = id
			order = append(order, [2]string{f, n})
			if len(n) > 150 {
				long = append(long, [2]string{f, n})
			}
			path, err := cache.CacheToFile(f, n, &chunkReader{b: body(id, 10), chunk: 100, failAt: -1})
			if err != nil {
				viol("store", fmt.Sprintf("storing %q in %s failed: %v", n, f, err), map[string]any{"case": ci, "names": order})
				break
			}
			if filepath.Dir(path) != filepath.Join(root, f) {
				viol("folder", fmt.Sprintf("%q in %s was stored in %s", n, f, path), map[string]any{"case": ci, "names": order})
			}
		}
		paths := map[string]string{}
		nn := 0
		for _, f := range sortedKeys(names) {
			for _, n := range sortedKeys(names[f]) {
				nn++
				p, ok, err := cache.GetFile(f, n)
				if err != nil || !ok {
					viol("lookup", fmt.Sprintf("%q in %s is not found (%v)", n, f, err), map[string]any{"case": ci, "names": order})
					continue
				}
				if o, dup := paths[p]; dup {
					viol("shared", fmt.Sprintf("%q and %q share the file %s", o, n, p), map[string]any{"case": ci, "names": order})
				}
				paths[p] = n
				b, err := os.ReadFile(p)
				got, whole := parse(b)
				if err != nil || !whole || got != names[f][n] {
					viol("content", fmt.Sprintf("%q in %s holds another body (%d instead of %d)", n, f, got, names[f][n]), map[string]any{"case": ci, "names": order})
				}
				if filepath.Dir(p) != filepath.Join(root, f) {
					viol("folder", fmt.Sprintf("%q in %s is looked up in %s", n, f, p), map[string]any{"case": ci, "names": order})
				}
				// names that were never stored are not found
				for _, x := range []string{n + "q7", "q7" + n} {
					if _, ok, _ := cache.GetFile(f, x); ok {
						viol("phantom", fmt.Sprintf("%q was never stored in %s but is found", x, f), map[string]any{"case": ci, "names": order})
					}
				}
			}
		}
		files := entries(root)
		if len(files) != nn {
			viol("files", fmt.Sprintf("%d names are stored in %d files", nn, len(files)), map[string]any{"case": ci, "names": order})
		}
		d, _ := os.ReadDir(dir)
		if len(d) != 1 {
			viol("outside", "files appeared next to the cache folder", map[string]any{"case": ci, "names": order})
		}
		count("names_stored", nn)
		if nn > 1 {
			kase(fmt.Sprintf("api/%v", order))
		} else {
			kase("")
		}
		if ci == 0 {
			sample(map[string]any{"names": order})
		}
	}
}
