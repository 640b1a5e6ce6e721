// Package hfile holds the harnesses for file editing, the MCP tools and the
// documentation registry. Files live in a scratch directory (a virtual file
// system under the engine).
package hfile

import (
	"os"
	"path/filepath"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/zzverif/zv"
)

func tq(quick, thorough int) int {
	if zv.Tier() > 0 {
		return thorough
	}
	return quick
}

func put(name, content string) string {
	p := filepath.Join(zv.TempDir(), name)
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		zv.Fail("scratch file cannot be written")
	}
	return p
}

// read returns the content of a file, ok=false if there is none.
func read(p string) (string, bool) {
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

// names is the list of files in the scratch directory.
func names() string {
	s := ""
	for _, n := range zv.ListDir(zv.TempDir()) {
		s += n + "|"
	}
	return s
}

// script makes a script for the format: one that always succeeds, one that depends on the content, ones
// that fail midway or at the end after edits, and unparsable ones.
func script(format string, lit string) string {
	k := zv.Choose("script", 7)
	if format == "json" {
		return []string{
			`[["insert", "` + lit + `"]]`,
			`[["search-forward", "a"], ["replace-match", "` + lit + `"]]`,
			`[["insert", "` + lit + `"], ["search-forward", "zz"], ["insert", "y"]]`,
			`[["delete-char", 1], ["nonsense"]]`,
			`[["insert", "` + lit + `"]`,
			`[]`,
			`[["mark-whole-buffer"], ["delete-region"]]`,
		}[k]
	}
	return []string{
		`insert "` + lit + `"`,
		"search-forward \"a\"\nreplace-match \"" + lit + `"`,
		`(insert "` + lit + `") (search-forward "zz") (insert "y")`,
		`delete-char 1; nonsense`,
		`insert "` + lit + `"; search-forward "a`,
		"\n",
		`mark-whole-buffer; delete-region`,
	}[k]
}

// exec is the library's answer for content.
func exec(content, script, format string) (string, error) {
	if format == "" {
		return texted.ExecuteScript(content, script)
	}
	return texted.ExecuteScriptWithFormat(content, script, format)
}
