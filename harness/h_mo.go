package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// ---- MO files: layouts, byte orders, readers that deliver in parts, damage

type moEntry struct{ key, tr string }

// moLayout writes entries into a file with arbitrary placement of tables and texts.
func moLayout(r *rand.Rand, bo binary.ByteOrder, entries []moEntry) []byte {
	n := len(entries)
	type blob struct {
		text string
		pos  int
	}
	var blobs []*blob
	ids, trs := make([]*blob, n), make([]*blob, n)
	share := map[string]*blob{}
	mk := func(s string) *blob {
		if b := share[s]; b != nil && r.Intn(2) == 0 {
			return b
		}
		b := &blob{text: s}
		share[s] = b
		blobs = append(blobs, b)
		return b
	}
	for i, e := range entries {
		ids[i], trs[i] = mk(e.key), mk(e.tr)
	}
	var tabs [2]int
	size := 28 + r.Intn(3)*4
	place := func(k int) {
		size += r.Intn(9)
		tabs[k] = size
		size += 8 * n
	}
	texts := func() {
		for _, i := range r.Perm(len(blobs)) {
			if r.Intn(3) == 0 {
				size += r.Intn(7)
			}
			blobs[i].pos = size
			size += len(blobs[i].text) + r.Intn(2)
		}
	}
	switch r.Intn(3) {
	case 0:
		place(0)
		place(1)
		texts()
	case 1:
		texts()
		place(1)
		place(0)
	default:
		place(1)
		texts()
		place(0)
	}
	out := make([]byte, size+r.Intn(4))
	for i := range out {
		out[i] = byte(r.Intn(256))
	}
	put := func(p int, v uint32) { bo.PutUint32(out[p:], v) }
	put(0, 0x950412de)
	bo.PutUint16(out[4:], uint16(r.Intn(2)))
	bo.PutUint16(out[6:], uint16(r.Intn(2)))
	put(8, uint32(n))
	put(12, uint32(tabs[0]))
	put(16, uint32(tabs[1]))
	put(20, 0)
	put(24, uint32(size))
	for i := range entries {
		put(tabs[0]+8*i, uint32(len(ids[i].text)))
		put(tabs[0]+8*i+4, uint32(ids[i].pos))
		put(tabs[1]+8*i, uint32(len(trs[i].text)))
		put(tabs[1]+8*i+4, uint32(trs[i].pos))
	}
	for _, b := range blobs {
		copy(out[b.pos:], b.text)
	}
	return out
}

// partReader delivers its data in parts, with errors where asked.
type partReader struct {
	*bytes.Reader
	r      *rand.Rand
	failAt int // reads from this position on fail (-1: never)
}

var errBroken = errors.New("broken reader")

func (p *partReader) Read(b []byte) (int, error) {
	pos, _ := p.Reader.Seek(0, io.SeekCurrent)
	n := len(b)
	if p.failAt >= 0 && int(pos)+n > p.failAt {
		n = p.failAt - int(pos)
		if n <= 0 && len(b) > 0 {
			return 0, errBroken
		}
	}
	if n > 1 {
		n = 1 + p.r.Intn(n)
	}
	m, err := p.Reader.Read(b[:n])
	if err == nil && p.r.Intn(4) == 0 && p.Reader.Len() == 0 && m == len(b) {
		err = io.EOF // a reader may report the end together with the last bytes
	}
	return m, err
}

// pipe hides the Seek method.
type pipe struct{ r io.Reader }

func (p pipe) Read(b []byte) (int, error) { return p.r.Read(b) }

type moWant map[string]map[string]map[int]string

func moModel(entries []moEntry) moWant {
	w := moWant{}
	for _, e := range entries {
		if e.key == "" {
			continue
		}
		ctx, id, plural := "", e.key, false
		if c, rest, ok := strings.Cut(id, "\x04"); ok {
			ctx, id = c, rest
		}
		if a, _, ok := strings.Cut(id, "\x00"); ok {
			id, plural = a, true
		}
		if id == "" {
			continue
		}
		tr := map[int]string{0: e.tr}
		if plural {
			for i, s := range strings.Split(e.tr, "\x00") {
				tr[i] = s
			}
		}
		if w[ctx] == nil {
			w[ctx] = map[string]map[int]string{}
		}
		w[ctx][id] = tr
	}
	return w
}

func moGot(c catalog.Catalog) moWant {
	w := moWant{}
	for ctx, ms := range c.(*catalog.GettextCatalog).Messages() {
		for id, m := range ms {
			if w[ctx] == nil {
				w[ctx] = map[string]map[int]string{}
			}
			w[ctx][id] = m.Translations()
		}
	}
	return w
}

func genMoEntries(r *rand.Rand) []moEntry {
	words := []string{"a", "b", "file", "Käse", "x\ny", "%d days", "\x01", "ctx", "", "Open…", "\xff\xfe", strings.Repeat("long ", 40)}
	w := func() string { return words[r.Intn(len(words))] }
	seen := map[string]bool{}
	var es []moEntry
	if r.Intn(4) > 0 {
		es = append(es, moEntry{"", "Content-Type: text/plain; charset=UTF-8\nPlural-Forms: nplurals=2; plural=(n != 1);\nLanguage: de\n"})
	}
	for n := r.Intn(12); n > 0; n-- {
		ctx, id := "", w()
		if r.Intn(2) == 0 {
			ctx = w()
		}
		if id != "" && r.Intn(6) == 0 {
			id += "\x04" + w() // only the first one ends a context
		}
		key, tr := id, w()
		if ctx != "" || r.Intn(5) == 0 {
			key = ctx + "\x04" + id
		}
		if c, rest, ok := strings.Cut(key, "\x04"); ok {
			ctx, id = c, rest
		}
		if id == "" || seen[ctx+"\x04"+id] {
			continue
		}
		seen[ctx+"\x04"+id] = true
		if r.Intn(2) == 0 {
			key += "\x00" + w()
			for k := r.Intn(4); k > 0; k-- {
				tr += "\x00" + w()
			}
		}
		es = append(es, moEntry{key, tr})
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func init() {
	register("C14", "MO files from random entries (contexts, plural forms, empty and non-UTF-8 texts) in both byte orders and arbitrary layouts (table order, gaps, shared texts), read whole, in random parts, through readers without Seek and with read errors; truncated and modified files; the memory used is bounded by the size of the file", func(h *H) {
		decode := func(r io.Reader) (catalog.Catalog, error) {
			return catalog.NewMoDecoder().(interface {
				DecodeReader(language.Tag, string, io.Reader) (catalog.Catalog, error)
			}).DecodeReader(language.German, "d", r)
		}
		for it := 0; it < h.n(1500) && !h.expired(); it++ {
			var bo binary.ByteOrder = binary.LittleEndian
			if it%2 == 1 {
				bo = binary.BigEndian
			}
			es := genMoEntries(h.rnd)
			data := moLayout(h.rnd, bo, es)
			in := fmt.Sprintf("%v %q", bo, es)
			want := moModel(es)
			h.Case("read", in, func() {
				c, err := catalog.NewMoDecoder().Decode(language.German, "d", data)
				if !h.Checkf(err == nil, "read/error", in, "error %v for a well-formed file", err) {
					return
				}
				got := moGot(c)
				h.Checkf(reflect.DeepEqual(got, want), "read/messages", in, "got %q want %q", got, want)
			})
			h.Case("parts", in, func() {
				c, err := decode(&partReader{bytes.NewReader(data), h.rnd, -1})
				if h.Checkf(err == nil, "parts/error", in, "error %v for a well-formed file read in parts", err) {
					got := moGot(c)
					h.Checkf(reflect.DeepEqual(got, want), "parts/messages", in, "got %q want %q", got, want)
				}
				c, err = decode(pipe{&partReader{bytes.NewReader(data), h.rnd, -1}})
				if h.Checkf(err == nil, "pipe/error", in, "error %v for a well-formed file without Seek", err) {
					got := moGot(c)
					h.Checkf(reflect.DeepEqual(got, want), "pipe/messages", in, "got %q want %q", got, want)
				}
			})
			h.Case("broken", in, func() {
				// an error of the reader is reported, or the texts were read before
				c, err := decode(&partReader{bytes.NewReader(data), h.rnd, h.rnd.Intn(len(data))})
				if err == nil {
					got := moGot(c)
					h.Checkf(reflect.DeepEqual(got, want), "broken/messages", in, "no error and got %q want %q", got, want)
				}
			})
			// damage: an error or messages, never a panic; and not more memory than the file justifies
			bad := append([]byte(nil), data...)
			switch h.rnd.Intn(4) {
			case 0:
				bad = bad[:h.rnd.Intn(len(bad)+1)]
			case 1:
				for k := 1 + h.rnd.Intn(3); k > 0; k-- {
					bad[h.rnd.Intn(len(bad))] = byte(h.rnd.Intn(256))
				}
			case 2: // a number of the header or the tables
				p := 4 * h.rnd.Intn(len(bad)/4)
				v := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(bad)), uint32(len(bad) - 4), 200 << 20}[h.rnd.Intn(8)]
				bo.PutUint32(bad[p:], v)
			default:
				k := 28
				if k > len(bad) {
					k = len(bad)
				}
				for i := 8; i < k; i++ {
					bad[i] = byte(h.rnd.Intn(256))
				}
			}
			din := fmt.Sprintf("%x", bad)
			h.Case("damaged", din, func() {
				var m0, m1 runtime.MemStats
				measure := it%4 == 0
				if measure {
					runtime.ReadMemStats(&m0)
				}
				c, err := catalog.NewMoDecoder().Decode(language.German, "d", bad)
				if measure {
					runtime.ReadMemStats(&m1)
					used := m1.TotalAlloc - m0.TotalAlloc
					// an entry takes 16 bytes of the file, and each may name the whole file
					limit := uint64(1<<18) + 64*uint64(len(bad)) + uint64(len(bad)/8)*uint64(len(bad))*4
					h.Checkf(used <= limit, "damaged/memory", din, "%d bytes were allocated for a file of %d", used, len(bad))
				}
				h.Checkf((c == nil) != (err == nil), "damaged/result", din, "catalog %v error %v", c != nil, err)
				c2, err2 := decode(&partReader{bytes.NewReader(bad), h.rnd, -1})
				h.Checkf((err == nil) == (err2 == nil), "damaged/parts", din, "error %v read whole, %v read in parts", err, err2)
				if err == nil && err2 == nil {
					h.Checkf(reflect.DeepEqual(moGot(c), moGot(c2)), "damaged/parts", din, "different messages when read in parts")
				}
			})
		}
	})
}
