package main

import (
	"encoding/base64"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

var p256Literal = regexp.MustCompile(`"MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAE[A-Za-z0-9+/]+=*"`)

// testSPKI is the public key of the harness key E0.
func testSPKI(harnessDir string) (string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(harnessDir, "internal/vf/keydata.go"), nil, 0)
	if err != nil {
		return "", err
	}
	var spki string
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		vals := map[string]string{}
		for _, e := range c.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if l, ok := kv.Value.(*ast.BasicLit); ok {
					vals[kv.Key.(*ast.Ident).Name], _ = strconv.Unquote(l.Value)
				}
			}
		}
		if vals["Name"] == "E0" {
			spki = vals["SPKIStr"]
		}
		return true
	})
	return spki, nil
}

// substituteKeys replaces the built-in P-256 public keys of the repository by a key the harnesses can sign
// with, in the sources given to the engine and to the native replay alike, and tells the harnesses so.
func substituteKeys(repo, harnessDir string, ov map[string]string, overlay map[string][]byte) error {
	ents, err := os.ReadDir(filepath.Join(repo, "signingblock"))
	if err != nil {
		return nil
	}
	done := false
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(repo, "signingblock", n)
		b, err := os.ReadFile(p)
		if err != nil || !p256Literal.Match(b) {
			continue
		}
		spki, err := testSPKI(harnessDir)
		if err != nil {
			return err
		}
		b = p256Literal.ReplaceAll(b, []byte(strconv.Quote(base64.StdEncoding.EncodeToString([]byte(spki)))))
		out := filepath.Join(buildDir, "subst_"+n)
		if err := os.WriteFile(out+".tmp"+strconv.Itoa(os.Getpid()), b, 0o644); err != nil {
			return err
		}
		if err := os.Rename(out+".tmp"+strconv.Itoa(os.Getpid()), out); err != nil {
			return err
		}
		ov[p], overlay[p] = out, b
		done = true
	}
	if done {
		flag := filepath.Join(repo, "internal/vf/flags.go")
		src := []byte("package vf\n\n// KeysReplaced reports whether the repository's built-in keys are replaced by KeyE0.\nconst KeysReplaced = true\n")
		out := filepath.Join(buildDir, "subst_flags.go")
		if err := os.WriteFile(out, src, 0o644); err != nil {
			return err
		}
		ov[flag], overlay[flag] = out, src
	}
	return nil
}
