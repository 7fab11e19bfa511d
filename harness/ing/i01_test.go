// Package ing checks the row reader and the journal of the bulk ingestion (I01, I04).
package ing

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

// rowRef is the reference: what the standard reader says about the row.
func rowRef(raw []byte) (cert, chain, exp string, err error) {
	raw = bytes.TrimRight(raw, "\r\n")
	if len(raw) == 0 {
		return "", "", "", fmt.Errorf("empty row")
	}
	r := csv.NewReader(bytes.NewReader(raw))
	r.FieldsPerRecord = -1
	f, err := r.Read()
	if err != nil {
		return "", "", "", err
	}
	if len(f) < 5 || f[3] == "" || f[len(f)-1] == "" {
		return "", "", "", fmt.Errorf("missing fields")
	}
	return f[3], f[4], f[len(f)-1], nil
}

func genRow(rt *rapid.T) ([]byte, string) {
	eol := rapid.SampledFrom([]string{"\n", "\n", "\r\n", "", "\r"}).Draw(rt, "eol")
	if rapid.IntRange(0, 3).Draw(rt, "raw") == 0 {
		return []byte(rapid.StringOfN(rapid.RuneFrom([]rune(`,,,,"";.1a`+"\r é")), 0, 24, -1).Draw(rt, "row") + eol), "raw"
	}
	n := rapid.SampledFrom([]int{8, 8, 8, 5, 6, 9, 4, 1, 12}).Draw(rt, "fields")
	fs := make([]string, n)
	kind := "plain"
	for i := range fs {
		v := rapid.SampledFrom([]string{"", "0", "MIIB", "QUJD;REVG", "a b", "x.y", "12.5", `say "hi"`, "a,b", " lead", "é", "a\rb", ";", `"`}).Draw(rt, "f")
		if i == n-1 && rapid.IntRange(0, 3).Draw(rt, "exp") > 0 {
			v = rapid.SampledFrom([]string{"1700000000.0", "1.2", "99999999999.123", ".5", "5.", "1.2.3", "-1.0", "1e9.0", "1,5", "12"}).Draw(rt, "expv")
		}
		if i == 3 && rapid.IntRange(0, 2).Draw(rt, "crt") > 0 {
			v = "TUlJQg=="
		}
		switch q := rapid.IntRange(0, 5).Draw(rt, "quote"); {
		case strings.ContainsAny(v, `",`) && q > 0, q == 1:
			v = `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
			kind = "quoted"
		case q == 0:
			kind = "loose" // possibly unquoted specials
		}
		fs[i] = v
	}
	row := strings.Join(fs, ",")
	if rapid.IntRange(0, 9).Draw(rt, "mut") == 0 && len(row) > 0 {
		i := rapid.IntRange(0, len(row)-1).Draw(rt, "at")
		row = row[:i] + rapid.SampledFrom([]string{"", `"`, ",", `""`, " "}).Draw(rt, "ins") + row[i+1:]
		kind += "-mutated"
	}
	return []byte(row + eol), kind
}

func TestI01Rows(t *testing.T) {
	rec := vlib.New(t, "I01", "rows with five fields or more")
	defer fastcsv.SetStderr(io.Discard)()
	vlib.Check(t, rec, func(rt *rapid.T) {
		raw, kind := genRow(rt)
		orig := string(raw)
		cert, chain, exp, want := rowRef(raw)
		var got fastcsv.ParsedLine
		var err error
		if msg := vlib.NoPanic(func() { got, err = fastcsv.ParseLine(raw, "file.csv", 7) }); msg != "" {
			rt.Fatalf("row %q: %s", orig, msg)
		}
		if string(raw) != orig {
			rt.Fatalf("row %q was changed to %q", orig, raw)
		}
		if (want == nil) != (err == nil) {
			rt.Fatalf("row %q: error %v, the standard reader says %v (certificate %q, chain %q, expiration %q)", orig, err, want, cert, chain, exp)
		}
		if err == nil {
			if string(got.CertField) != cert || string(got.ChainField) != chain || string(got.ExpirationField) != exp {
				rt.Fatalf("row %q: got %q %q %q, want %q %q %q", orig, got.CertField, got.ChainField, got.ExpirationField, cert, chain, exp)
			}
			if got.Number != 7 {
				rt.Fatalf("line number %d", got.Number)
			}
			rec.Class("accepted")
		}
		rec.Case(orig, strings.Count(orig, ",") >= 4, func() any { return orig }, kind)
	})
}
