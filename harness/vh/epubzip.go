package main

import (
	"archive/zip"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
)

// readEpub returns the files of an EPUB archive.
func readEpub(path string) (map[string]string, error) {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer z.Close()
	out := map[string]string{}
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		out[f.Name] = string(b)
	}
	return out, nil
}

var volatileRe = regexp.MustCompile(`urn:uuid:[0-9a-fA-F-]+|\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ`)

// epubView is the content of an EPUB without identifiers and times.
func epubView(path string) []string {
	m, err := readEpub(path)
	if err != nil {
		return []string{"unreadable EPUB: " + err.Error()}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		if strings.HasSuffix(k, ".opf") { // the order of the manifest has no meaning
			ls := strings.Split(m[k], "\n")
			var items []string
			for i, l := range ls {
				if strings.Contains(l, "<item ") {
					items = append(items, l)
					ls[i] = ""
				}
			}
			sort.Strings(items)
			m[k] = strings.Join(ls, "\n") + strings.Join(items, "\n")
		}
		out = append(out, k+"\n"+volatileRe.ReplaceAllString(m[k], "X"))
	}
	return out
}
