// bindata rewrites the embedded templates of gengokit/template/template.go
// from the .tmpl files, in go-bindata's format (go-bindata itself is not
// available offline). usage: go run . /repo
package main

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func size(n int) string {
	if n < 1000 {
		return fmt.Sprintf("%dB", n)
	}
	return fmt.Sprintf("%.3fkB", float64(n)/1000)
}

func main() {
	dir := filepath.Join(os.Args[1], "gengokit/template")
	p := filepath.Join(dir, "template.go")
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	s := string(b)
	// asset name -> variable
	re := regexp.MustCompile(`bindataRead\(\s*_(\w+),\s*"([^"]+)",\s*\)`)
	for _, m := range re.FindAllStringSubmatch(s, -1) {
		v, name := m[1], m[2]
		text, err := os.ReadFile(filepath.Join(dir, "NAME-service", name))
		if err != nil {
			panic(err)
		}
		old := regexp.MustCompile(`(?m)^var _` + v + ` = \[\]byte\("(.*)"\)$`)
		if got := unpack(old.FindStringSubmatch(s)[1]); got == string(text) {
			continue
		}
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(text)
		w.Close()
		var lit strings.Builder
		for _, c := range z.Bytes() {
			fmt.Fprintf(&lit, "\\x%02x", c)
		}
		s = old.ReplaceAllLiteralString(s, `var _`+v+` = []byte("`+lit.String()+`")`)
		s = regexp.MustCompile(`(?m)^(// NAME-service/`+regexp.QuoteMeta(name)+`) \(.*\)$`).ReplaceAllString(s, "$1 ("+size(len(text))+")")
		s = regexp.MustCompile(`(info := bindataFileInfo\{name: "`+regexp.QuoteMeta(name)+`", size: )\d+`).ReplaceAllString(s, fmt.Sprintf("${1}%d", len(text)))
		var dig []string
		for _, c := range sha256.Sum256(text) {
			dig = append(dig, fmt.Sprintf("0x%x", c))
		}
		s = regexp.MustCompile(`(info := bindataFileInfo\{name: "`+regexp.QuoteMeta(name)+`"[^\n]*\n[^\n]*digest: \[32\]uint8\{)[^}]*`).ReplaceAllString(s, "${1}"+strings.Join(dig, ", "))
		fmt.Println("updated", name)
	}
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		panic(err)
	}
}

func unpack(lit string) string {
	var raw []byte
	for i := 0; i < len(lit); i += 4 {
		var c byte
		fmt.Sscanf(lit[i:i+4], "\\x%02x", &c)
		raw = append(raw, c)
	}
	r, err := gzip.NewReader(bytes.NewReader(raw))
	if err != nil {
		panic(err)
	}
	var out bytes.Buffer
	out.ReadFrom(r)
	return out.String()
}
