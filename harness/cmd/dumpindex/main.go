// dumpindex prints what is stored in the index of a server which does not run:
// every entry of every database below the given folder.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/john-nguyen09/pogreb"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

type entry struct {
	Key   string `json:"k"` // hexadecimal
	Value string `json:"v"` // hexadecimal, shortened to its hash when it is long
	Len   int    `json:"n"`
}

type dump struct {
	DB      string  `json:"db"`
	Kind    string  `json:"kind"`
	Entries []entry `json:"entries"`
	Stubs   int     `json:"stubs"`
	Hash    string  `json:"hash"` // of the entries of the stubs
}

func value(v []byte) string {
	if len(v) <= 400 {
		return hex.EncodeToString(v)
	}
	h := sha256.Sum256(v)
	return hex.EncodeToString(h[:])
}

func (d *dump) fill(next func() ([]byte, []byte, bool)) {
	type kv struct{ k, v []byte }
	var all []kv
	for {
		k, v, ok := next()
		if !ok {
			break
		}
		all = append(all, kv{append([]byte{}, k...), append([]byte{}, v...)})
	}
	sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].k, all[j].k) < 0 })
	h := sha256.New()
	d.Entries = []entry{}
	for _, e := range all {
		if bytes.Contains(e.k, []byte("stubs://")) {
			d.Stubs++
			fmt.Fprintf(h, "%d %s %d %s", len(e.k), e.k, len(e.v), e.v)
			continue
		}
		d.Entries = append(d.Entries, entry{hex.EncodeToString(e.k), value(e.v), len(e.v)})
	}
	d.Hash = hex.EncodeToString(h.Sum(nil))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func main() {
	root := os.Args[1]
	out := []dump{}
	check(filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || !info.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if _, err := os.Stat(filepath.Join(p, "CURRENT")); err == nil {
			db, err := leveldb.OpenFile(p, &opt.Options{ReadOnly: true, ErrorIfMissing: true})
			check(err)
			it := db.NewIterator(nil, nil)
			d := dump{DB: rel, Kind: "leveldb"}
			d.fill(func() ([]byte, []byte, bool) {
				ok := it.Next()
				return it.Key(), it.Value(), ok
			})
			check(it.Error())
			it.Release()
			check(db.Close())
			out = append(out, d)
		}
		if m, _ := filepath.Glob(filepath.Join(p, "main.pix")); len(m) > 0 {
			db, err := pogreb.Open(p, nil)
			check(err)
			it := db.Items()
			d := dump{DB: rel, Kind: "pogreb"}
			d.fill(func() ([]byte, []byte, bool) {
				k, v, err := it.Next()
				if err == pogreb.ErrIterationDone {
					return nil, nil, false
				}
				check(err)
				return k, v, true
			})
			check(db.Close())
			out = append(out, d)
		}
		return nil
	}))
	w := bufio.NewWriter(os.Stdout)
	check(json.NewEncoder(w).Encode(out))
	check(w.Flush())
}
