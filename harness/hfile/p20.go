package hfile

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/zzverif/zv"
)

var formats = []string{"", "shell", "sexp", "json", "elisp"}

func editFile(p, s, format string) error {
	if format == "" {
		return texted.EditFile(p, s)
	}
	return texted.EditFileWithFormat(p, s, format)
}

func editFiles(ps []string, s, format string) ([]texted.EditResult, error) {
	if format == "" {
		return texted.EditFiles(ps, s)
	}
	return texted.EditFilesWithFormat(ps, s, format)
}

// Bounds: one file of up to 3 (thorough 4) arbitrary bytes, or missing, or a directory; 7 kinds of scripts (succeeding, failing at once, midway and at the end, unparsable, empty) with a literal of up
// to 2 bytes; EditFile and EditFileWithFormat with 4 formats, one invalid; a second file in the directory.
func P20_single() {
	content := zv.Str("content", tq(3, 4), zv.Any)
	format := formats[zv.Choose("format", len(formats))]
	s := script(format, zv.Str("lit", 2, "a;() "))
	put("other", "other")
	want, werr := exec(content, s, format)
	switch zv.Choose("kind", 3) {
	case 0:
		p := put("f", content)
		before := names()
		err := editFile(p, s, format)
		got, ok := read(p)
		zv.Assert(ok, "the file still exists")
		zv.Assert((err == nil) == (werr == nil), "an error is returned exactly when the script does not run through")
		if werr != nil {
			zv.Assert(got == content, "a file whose script fails is left as it was")
			zv.Cover("failed")
		} else {
			zv.Assert(got == want, "the file holds exactly the edited text")
			zv.Cover("edited")
		}
		zv.Assert(names() == before, "no other file is created or removed")
	case 1:
		before := names()
		err := editFile(zv.TempDir()+"/missing", s, format)
		zv.Assert(err != nil, "a missing file is an error")
		zv.Assert(names() == before, "a missing file is not created")
		zv.Cover("missing")
	case 2:
		zv.Assert(editFile(zv.TempDir(), s, format) != nil, "a directory is an error")
		zv.Cover("directory")
	}
	o, _ := read(zv.TempDir() + "/other")
	zv.Assert(o == "other", "no other file is changed")
}

// Bounds: batches of 0..3 (thorough 4) entries out of: two files of up to 2 bytes of "ab", the first file again, a missing file, a directory; the scripts and formats of P20_single.
func P20_batch() {
	format := formats[zv.Choose("format", len(formats))]
	s := script(format, zv.Str("lit", 1, "a "))
	model := map[string]string{}
	a, b := zv.TempDir()+"/a", zv.TempDir()+"/b"
	model[a], model[b] = zv.Str("a", 2, "ab"), zv.Str("b", 1, "ab")
	put("a", model[a])
	put("b", model[b])
	targets := []string{a, b, zv.TempDir() + "/missing", zv.TempDir()}
	var files []string
	for i := zv.Choose("n", tq(4, 5)); i > 0; i-- {
		files = append(files, targets[zv.Choose("file", 4)])
	}
	before := names()
	res, err := editFiles(files, s, format)
	zv.Assert(err == nil, "a batch is processed whatever happens to single files")
	zv.Assert(len(res) == len(files), "there is one result per requested file")
	for i, f := range files {
		c, ok := model[f]
		zv.Assert(res[i].Filename == f, "results are in request order")
		if ok {
			out, werr := exec(c, s, format)
			if ok = werr == nil; ok {
				model[f] = out
			} else {
				zv.Cover("script failed")
			}
		} else {
			zv.Cover("unreadable")
		}
		zv.Assert(res[i].Success == ok, "a result says success exactly when the file was edited")
		zv.Assert((res[i].Error == nil) == ok, "a failed result carries the error, a successful one none")
		if ok && i > 0 && !res[i-1].Success {
			zv.Cover("success after failure")
		}
	}
	ga, _ := read(a)
	gb, _ := read(b)
	zv.Assert(ga == model[a] && gb == model[b], "each file holds its edited text, or is as it was if its script failed")
	zv.Assert(names() == before, "no file is created or removed")
}

// Bounds: two files of up to 4 and exactly 2 bytes; the script inserts up to 4 bytes; writes fail beyond file offset 0..6; single and batch calls.
func P20_write_fault() {
	content := zv.Str("content", 3, "ab")
	lit := zv.Str("lit", 3, "xy")
	p, q := put("p", content), put("q", "aa")
	limit := zv.Choose("limit", 7)
	want := lit + content
	batch := zv.Bool("batch")
	format := []string{"", "shell"}[zv.Choose("format", 2)]
	s := `insert "` + lit + `"`
	var err error
	zv.FailWritesAfter(limit)
	if batch {
		res, e := editFiles([]string{p, q}, s, format)
		zv.FailWritesAfter(-1)
		zv.Assert(e == nil && len(res) == 2 && res[0].Filename == p && res[1].Filename == q, "there is one result per requested file in order")
		for _, r := range res {
			zv.Assert(r.Success == (r.Error == nil), "a failed result carries the error, a successful one none")
		}
		err = res[0].Error
		got, _ := read(q)
		if len(lit)+2 <= limit {
			zv.Assert(res[1].Success && got == lit+"aa", "a write failure in one file does not affect the next")
			if err != nil {
				zv.Cover("next")
			}
		} else {
			zv.Assert(!res[1].Success, "a failed write is reported")
		}
	} else {
		err = editFile(p, s, format)
		zv.FailWritesAfter(-1)
	}
	got, _ := read(p)
	if len(want) <= limit {
		zv.Assert(err == nil && got == want, "a file that can be written holds the edited text")
		zv.Cover("written")
		return
	}
	zv.Assert(err != nil, "a failed write is reported")
	if got != content {
		zv.Assert(got == want[:limit], "a failed write leaves what could be written of the edited text")
		zv.Known("KF4-partial-write")
		zv.Cover("partial")
	}
}

// Bounds: a file of 13 sizes from 0 to 5000 with one arbitrary byte of "ab" at the start or the end; 6 scripts that keep, grow or shrink its length by little or much, undo themselves, or change a byte at the start or the end; run once or twice, alone or twice in one batch.
func P20_sizes() {
	n := []int{0, 1, 15, 16, 63, 64, 65, 127, 512, 1024, 4095, 4096, 5000}[zv.Choose("size", 13)]
	c := zv.StrN("c", 1, "ab")
	fill := strings.Repeat("ab c\n", n/5+1)[:n]
	content := c + fill
	if zv.Choose("at", 2) == 1 {
		content = fill + c
	}
	s := []string{`search-forward "a"; replace-match "x"`, `end-of-buffer; search-backward "b"; replace-match "\n"`, `insert "` + strings.Repeat("y", 70) + `"`, `delete-char 1`, `insert "z"; delete-backward-char`,
		`mark-whole-buffer; replace-region "q"`}[zv.Choose("script", 6)]
	p := put("f", content)
	runs := 1 + zv.Choose("runs", 2)
	batch := zv.Choose("batch", 2) == 1
	var got []bool
	if batch {
		var ps []string
		for i := 0; i < runs; i++ {
			ps = append(ps, p)
		}
		res, err := editFiles(ps, s, "")
		zv.Assert(err == nil && len(res) == runs, "there is one result per requested file")
		for _, r := range res {
			zv.Assert(r.Filename == p && r.Success == (r.Error == nil), "results name their file and are truthful")
			got = append(got, r.Success)
		}
	} else {
		for i := 0; i < runs; i++ {
			got = append(got, editFile(p, s, "") == nil)
		}
	}
	want := content
	for i := 0; i < runs; i++ {
		out, err := texted.ExecuteScript(want, s)
		zv.Assert(got[i] == (err == nil), "an edit succeeds exactly when the script runs through")
		if err == nil {
			want = out
		}
	}
	f, ok := read(p)
	zv.Assert(ok && f == want, "the file holds exactly the edited text, or is as it was")
	zv.Cover("edited")
}

// oddNames are ways to write the name of a file f in the scratch directory, or of another file.
func oddNames() []string {
	d := zv.TempDir()
	return []string{d + "/f", d + "/./f", d + "//f", d + "/sub/../f", d + "/f ", d + "/ f", d + "/f.txt", d + "/.f", d + "/-f", d + "/\u00e9", d + "/f'\"", d + "/f\n", d + "/F", d + "/f~", d + "/f*", d + "/$f", d + "/%s", d + "/f.bak"}
}

// Bounds: two of 18 names, which may mean the same file, of files of up to 1 byte of "ab"; the first exists, the second does or not; one batch of both or single calls.
func P20_names() {
	ns := oddNames()
	os.Mkdir(zv.TempDir()+"/sub", 0755)
	f, g := ns[zv.Choose("first", len(ns))], ns[zv.Choose("second", len(ns))]
	c, e := zv.Str("c", 1, "ab"), zv.Str("d", 1, "ab")
	model := map[string]string{}
	write := func(n, s string) {
		zv.Assert(os.WriteFile(n, []byte(s), 0644) == nil, "scratch file cannot be written")
		model[filepath.Clean(n)] = s
	}
	write(f, c)
	if zv.Choose("second exists", 2) == 1 {
		write(g, e)
	}
	s := `search-forward "a"; insert "x"`
	for i, n := range []string{f, g} {
		var err error
		if zv.Choose("batch", 2) == 1 {
			res, e := editFiles([]string{n}, s, "")
			zv.Assert(e == nil && len(res) == 1 && res[0].Filename == n, "a result names the file as requested")
			err = res[0].Error
		} else {
			err = editFile(n, s, "")
		}
		old, exists := model[filepath.Clean(n)]
		out, werr := exec(old, s, "")
		zv.Assert((err == nil) == (exists && werr == nil), "an edit succeeds exactly when the file exists and the script runs through")
		if err == nil {
			model[filepath.Clean(n)] = out
			zv.Cover([]string{"first", "second"}[i])
		}
	}
	count := 0
	for _, n := range ns {
		want, exists := model[filepath.Clean(n)]
		got, ok := read(n)
		zv.Assert(ok == exists && got == want, "exactly the named files are edited")
		if exists && filepath.Clean(n) == n {
			count++
		}
	}
	zv.Assert(len(zv.ListDir(zv.TempDir())) == count, "no other file is created")
}
