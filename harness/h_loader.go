package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// ---- a file system with injected failures that counts opens and closes

type fnode struct {
	data                       string
	openErr, readErr, closeErr error
	chunk                      int
}

type ffs struct {
	files  map[string]*fnode
	plain  bool // no Stat method: fs.Stat opens the file
	opened map[*ffile]int
	order  []string
}

type ffile struct {
	f    *ffs
	name string
	n    *fnode
	pos  int
}

type finfo struct{ name string }

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return 0 }
func (i finfo) Mode() fs.FileMode  { return 0o444 }
func (i finfo) ModTime() time.Time { return time.Time{} }
func (i finfo) IsDir() bool        { return false }
func (i finfo) Sys() any           { return nil }

func (f *ffile) Stat() (fs.FileInfo, error) { return finfo{path.Base(f.name)}, nil }
func (f *ffile) Read(b []byte) (int, error) {
	if f.f.opened[f] != 0 {
		return 0, fs.ErrClosed
	}
	if f.pos >= len(f.n.data) {
		if f.n.readErr != nil {
			return 0, f.n.readErr
		}
		return 0, io.EOF
	}
	k := len(b)
	if f.n.chunk > 0 && k > f.n.chunk {
		k = f.n.chunk
	}
	k = copy(b[:k], f.n.data[f.pos:])
	f.pos += k
	return k, nil
}
func (f *ffile) Close() error {
	f.f.opened[f]++
	return f.n.closeErr
}

func (f *ffs) Open(name string) (fs.File, error) {
	n := f.files[name]
	if n == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if n.openErr != nil {
		return nil, n.openErr
	}
	x := &ffile{f: f, name: name, n: n}
	f.opened[x] = 0
	return x, nil
}

type statffs struct{ *ffs }

func (f statffs) Stat(name string) (fs.FileInfo, error) {
	f.order = append(f.order, name)
	if f.files[name] == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return finfo{path.Base(name)}, nil
}

// ---- decoders that report what they were given

type ldCat struct {
	lang      language.Tag
	dom, data string
	decoder   string
}

func (c *ldCat) Lookup(_, id string) (string, error)              { return id, nil }
func (c *ldCat) LookupPlural(_, id string, _ any) (string, error) { return id, nil }
func (c *ldCat) Language() language.Tag                           { return c.lang }

type ldDecoder struct {
	name string
	err  error
}

func (d *ldDecoder) Decode(lang language.Tag, dom string, data []byte) (catalog.Catalog, error) {
	if d.err != nil {
		return nil, d.err
	}
	return &ldCat{lang, dom, string(data), d.name}, nil
}

type ldDecoderV2 struct{ ldDecoder }

func (d *ldDecoderV2) DecodeReader(lang language.Tag, dom string, r io.Reader) (catalog.Catalog, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return d.Decode(lang, dom, data)
}

func modelNames(tag language.Tag) []string {
	set := map[string]bool{tag.String(): true}
	base, bc := tag.Base()
	if bc > language.No {
		set[base.ISO3()] = true
		set[base.String()] = true
		if r, c := tag.Region(); c > language.No {
			set[base.String()+"_"+r.String()] = true
			set[base.String()+"-"+r.String()] = true
		}
		if s, c := tag.Script(); c > language.No {
			set[base.String()+"_"+s.String()] = true
			set[base.String()+"-"+s.String()] = true
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i]) != len(out[j]) {
			return len(out[i]) > len(out[j])
		}
		return out[i] < out[j]
	})
	return out
}

func modelPaths(names []string, search bool, cat, dom, ext string) (out []string) {
	for _, n := range names {
		if dom != "" {
			out = append(out, path.Join(n, cat, dom+ext))
		}
		if !search {
			continue
		}
		if dom != "" {
			out = append(out, path.Join(n, "LC_MESSAGES", dom+ext), path.Join(n, dom+ext), path.Join(dom, n+ext))
		}
		out = append(out, n+ext)
		if cat != "" {
			out = append(out, path.Join(cat, n+ext))
		}
		out = append(out, path.Join("LC_MESSAGES", n+ext))
	}
	return out
}

type ldResolver struct {
	res map[string]string
	err map[string]error
	got []string
}

func (r *ldResolver) Resolve(fsys fs.FS, ext string, lang language.Tag, dom string) (string, error) {
	r.got = append(r.got, ext)
	if e := r.err[ext]; e != nil {
		return "", e
	}
	return r.res[ext], nil
}

var ldTags = []string{"de", "de-AT", "fr-CA", "zh-Hans-CN", "zh-Hant", "sr-Latn-RS", "pt-BR", "pt", "en-US", "und", "es-419", "nn", "x-klingon", "kok", "de-DE-u-co-phonebk", "mul", "art-x-foo"}

func init() {
	register("C10", "random file trees in which candidate paths of the language exist with data, open, read and close failures; 1-4 extensions with decoders of both kinds that succeed or fail, default resolver with every option combination or a custom one; outcome, order and opened/closed files compared with an independent model", func(h *H) {
		for i := 0; i < h.n(20000) && !h.expired(); i++ {
			tag := language.MustParse(pick(h, ldTags))
			dom := pick(h, []string{"", "app", "app", "a b"})
			search := h.rnd.Intn(4) > 0
			cat := pick(h, []string{"", "", "LC_MESSAGES", "mycat"})
			names := modelNames(tag)
			f := &ffs{files: map[string]*fnode{}, opened: map[*ffile]int{}}
			exts := []string{".po", ".mo", ".json", ".x"}
			h.rnd.Shuffle(4, func(a, b int) { exts[a], exts[b] = exts[b], exts[a] })
			exts = exts[:1+h.rnd.Intn(4)]
			errOf := func(what string) error { return fmt.Errorf("%s failure %d", what, i) }
			var desc string
			density := 1 + h.rnd.Intn(12)
			for _, e := range []string{".po", ".mo", ".json", ".x"} {
				for _, p := range modelPaths(names, true, pick(h, []string{cat, "mycat", "other"}), pick(h, []string{dom, "app"}), e) {
					if h.rnd.Intn(density+2) != 0 {
						continue
					}
					n := &fnode{data: "data of " + p, chunk: h.rnd.Intn(4)}
					switch h.rnd.Intn(12) {
					case 0:
						n.openErr = errOf("open " + p)
					case 1:
						n.openErr = &fs.PathError{Op: "open", Path: p, Err: fs.ErrPermission}
					case 2:
						n.readErr = errOf("read " + p)
					case 3:
						n.closeErr = errOf("close " + p)
					case 4:
						n.openErr = &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist} // removed meanwhile
					case 5:
						n.readErr = errOf("read " + p)
						n.closeErr = errOf("close " + p)
					}
					f.files[p] = n
				}
			}
			var keys []string
			for p, n := range f.files {
				keys = append(keys, fmt.Sprintf("%s(open=%v read=%v close=%v)", p, n.openErr, n.readErr, n.closeErr))
			}
			sort.Strings(keys)
			opts := []spreak.FsOption{spreak.WithFs(statffs{f})}
			decErr := map[string]error{}
			var dups []string
			for _, e := range exts {
				d := ldDecoder{name: e}
				if h.rnd.Intn(6) == 0 {
					d.err = errOf("decode " + e)
					decErr[e] = d.err
				}
				if h.rnd.Intn(2) == 0 {
					opts = append(opts, spreak.WithDecoder(e, &d))
				} else {
					opts = append(opts, spreak.WithDecoder(e, &ldDecoderV2{d}))
				}
				if dup := h.rnd.Intn(10) == 0; dup {
					// an extension given twice: the first decoder decides
					dups = append(dups, e)
					opts = append(opts, spreak.WithDecoder(e, &ldDecoder{name: "second " + e}))
				}
			}
			var custom *ldResolver
			if len(dups) == 0 && h.rnd.Intn(4) == 0 {
				custom = &ldResolver{res: map[string]string{}, err: map[string]error{}}
				for _, e := range exts {
					switch h.rnd.Intn(4) {
					case 0:
						custom.err[e] = errOf("resolve " + e)
					case 1:
						custom.err[e] = fmt.Errorf("wrapped: %w", os.ErrNotExist)
					default:
						custom.res[e] = names[0] + e
						if h.rnd.Intn(3) > 0 && f.files[names[0]+e] == nil {
							f.files[names[0]+e] = &fnode{data: "custom"}
							keys = append(keys, names[0]+e)
						}
					}
				}
				opts = append(opts, spreak.WithResolver(custom))
			} else {
				var ro []spreak.ResolverOption
				if !search {
					ro = append(ro, spreak.WithDisabledSearch())
				}
				if cat != "" {
					ro = append(ro, spreak.WithCategory(cat))
				}
				r, err := spreak.NewDefaultResolver(ro...)
				h.Checkf(err == nil, "resolver", desc, "NewDefaultResolver: %v", err)
				opts = append(opts, spreak.WithResolver(r))
			}
			desc = fmt.Sprintf("lang=%v domain=%q search=%v category=%q extensions=%v decodeErrors=%v files=%v", tag, dom, search, cat, exts, decErr, keys)
			if len(dups) > 0 {
				desc += fmt.Sprintf(" registered twice=%v", dups)
			}
			if custom != nil {
				desc += fmt.Sprintf(" resolver=%v errors=%v", custom.res, custom.err)
			}
			h.Case("load", desc, func() {
				l, err := spreak.NewFilesystemLoader(opts...)
				if !h.Checkf(err == nil, "load/create", desc, "NewFilesystemLoader: %v", err) {
					return
				}
				got, gerr := l.Load(tag, dom)
				// model
				var wantErr []error
				var want *ldCat
				found := false
				for _, e := range exts {
					p := ""
					if custom != nil {
						if ce := custom.err[e]; ce != nil {
							if errors.Is(ce, os.ErrNotExist) {
								continue
							}
							wantErr, found = []error{ce}, true
							break
						}
						p = custom.res[e]
						if f.files[p] == nil {
							continue
						}
					} else {
						for _, c := range modelPaths(names, search, cat, dom, e) {
							if f.files[c] != nil {
								p = c
								break
							}
						}
						if p == "" {
							continue
						}
					}
					n := f.files[p]
					if n.openErr != nil && errors.Is(n.openErr, fs.ErrNotExist) {
						continue
					}
					found = true
					switch {
					case n.openErr != nil:
						wantErr = []error{n.openErr}
					case n.readErr != nil:
						wantErr = []error{n.readErr}
					case decErr[e] != nil:
						wantErr = []error{decErr[e]}
					default:
						want = &ldCat{tag, dom, n.data, e}
					}
					if n.openErr == nil && n.closeErr != nil {
						wantErr = append(wantErr, n.closeErr)
					}
					break
				}
				switch {
				case !found:
					var nf *spreak.ErrNotFound
					h.Checkf(got == nil && errors.As(gerr, &nf) && nf.Language == tag, "load/notfound", desc, "got %v, %v", got, gerr)
				case len(wantErr) > 0:
					for _, w := range wantErr {
						h.Checkf(got == nil && errors.Is(gerr, w), "load/failure", desc, "got %v, %v want error %v", got, gerr, w)
					}
				default:
					c, ok := got.(*ldCat)
					h.Checkf(gerr == nil && ok && *c == *want, "load/catalog", desc, "got %+v, %v want %+v", got, gerr, want)
				}
				for x, n := range f.opened {
					h.Checkf(n == 1, "load/closed-once", desc, "%s closed %d times", x.name, n)
				}
			})
			if i%8 == 0 {
				h.Case("names", tag.String(), func() {
					got := spreak.ExpandLanguage(tag)
					ok := len(got) == len(names)
					for k := range got {
						ok = ok && k < len(names) && got[k] == names[k]
					}
					h.Checkf(ok, "names", tag.String(), "got %v want %v", got, names)
				})
			}
		}
	})
}
