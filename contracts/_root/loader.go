package spreak

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// Contracts of the filesystem loader.

// vLoaderOK is the invariant NewFilesystemLoader establishes: a file system, a resolver and
// one decoder for every extension.
func vLoaderOK(l *FilesystemLoader) bool {
	return l != nil && l.fsys != nil && l.resolver != nil && len(l.extensions) == len(l.decoder)
}

//verif:prop C10
func vc_LoadFromFile(l *FilesystemLoader, lang language.Tag, domain, ext string, idx int) {
	vRequires(vLoaderOK(l) && 0 <= idx && idx < len(l.decoder) && l.decoder[idx] != nil)
	name, rerr := l.resolver.Resolve(l.fsys, ext, lang, domain)
	file, oerr := l.fsys.Open(name)
	vAssume(vImp(oerr == nil, file != nil))
	v2, isV2 := l.decoder[idx].(catalog.DecoderV2)
	if rerr != nil {
		cat, err := l.loadFromFile(lang, domain, ext, idx)
		vEnsures("an error of the resolver is returned", cat == nil && err == rerr)
		vEnsures("nothing opened, nothing closed", vEventCount() == 0)
		return
	}
	if oerr != nil {
		cat, err := l.loadFromFile(lang, domain, ext, idx)
		vEnsures("an error of Open is returned", cat == nil && err == oerr)
		vEnsures("nothing opened, nothing closed", vEventCount() == 0)
		return
	}
	cat, err := l.loadFromFile(lang, domain, ext, idx)
	vEnsures("the opened file is closed exactly once", vEventCount() == 1 && vEventName(0) == "Close" && vEventArg(0) == any(file))
	cerr := file.Close()
	if isV2 {
		want, derr := v2.DecodeReader(lang, domain, file)
		if derr != nil {
			vEnsures("an error of the decoder is returned", cat == nil && err == vJoined(derr, cerr))
			return
		}
		vEnsures("the catalog of the decoder, or the error of Close", cat == want && err == vJoined(nil, cerr))
		return
	}
	data, perr := io.ReadAll(file)
	if perr != nil {
		vEnsures("an error of reading is returned", cat == nil && err == vJoined(perr, cerr))
		return
	}
	want, derr := l.decoder[idx].Decode(lang, domain, data)
	if derr != nil {
		vEnsures("an error of the decoder is returned", cat == nil && err != nil && vImp(cerr == nil, errors.Is(err, derr)))
		return
	}
	vEnsures("the catalog of the decoder, or the error of Close", cat == want && err == vJoined(nil, cerr))
}

// vJoined is the error with a later failure of Close added to it.
func vJoined(err, cerr error) error {
	if cerr != nil {
		return errors.Join(err, cerr)
	}
	return err
}

// vMissingUpTo: the first n extensions have no file.
func vMissingUpTo(l *FilesystemLoader, lang language.Tag, domain string, n int) bool {
	return vForall(func(j int) bool {
		return vImp(0 <= j && j < n, vMissingAt(l, lang, domain, j))
	})
}

func vMissingAt(l *FilesystemLoader, lang language.Tag, domain string, j int) bool {
	_, err := l.loadFromFile(lang, domain, l.extensions[j], j)
	return err != nil && errors.Is(err, os.ErrNotExist)
}

//verif:inv (*@.FilesystemLoader).Load 1
func vi_Load(l *FilesystemLoader, lang language.Tag, domain string, done_ int) {
	vInv("no file for the extensions so far", vMissingUpTo(l, lang, domain, done_))
	vInv("nothing is written", vUnchanged())
}

//verif:prop C10
//verif:opaque (*@.FilesystemLoader).loadFromFile
func vc_Load(l *FilesystemLoader, lang language.Tag, domain string, k int) {
	vRequires(vLoaderOK(l))
	vRequires(0 <= k && k <= len(l.extensions) && vMissingUpTo(l, lang, domain, k) && (k == len(l.extensions) || !vMissingAt(l, lang, domain, k)))
	cat, err := l.Load(lang, domain)
	if k == len(l.extensions) {
		nf, isNF := err.(*ErrNotFound)
		vEnsures("not found when no extension has a file", cat == nil && isNF && nf != nil && nf.Language == lang)
		return
	}
	want, werr := l.loadFromFile(lang, domain, l.extensions[k], k)
	if werr != nil {
		vEnsures("a failure of the first existing file is returned", cat == nil && err == werr)
		return
	}
	vEnsures("the catalog of the first extension with a file", cat == want && err == nil)
}

// ---- the default resolver

func vExists1(fsys fs.FS, p string) bool {
	_, err := fs.Stat(fsys, p)
	return err == nil
}

// vFirstPath is the documented search order for one name of the language.
func vFirstPath(fsys fs.FS, search bool, category, locale, domain, ext string) string {
	if domain != "" && vExists1(fsys, path.Join(locale, category, domain+ext)) {
		return path.Join(locale, category, domain+ext)
	}
	if !search {
		return ""
	}
	if domain != "" {
		if vExists1(fsys, path.Join(locale, "LC_MESSAGES", domain+ext)) {
			return path.Join(locale, "LC_MESSAGES", domain+ext)
		}
		if vExists1(fsys, path.Join(locale, domain+ext)) {
			return path.Join(locale, domain+ext)
		}
		if vExists1(fsys, path.Join(domain, locale+ext)) {
			return path.Join(domain, locale+ext)
		}
	}
	if vExists1(fsys, path.Join(locale+ext)) {
		return path.Join(locale + ext)
	}
	if category != "" && vExists1(fsys, path.Join(category, locale+ext)) {
		return path.Join(category, locale+ext)
	}
	if vExists1(fsys, path.Join("LC_MESSAGES", locale+ext)) {
		return path.Join("LC_MESSAGES", locale+ext)
	}
	return ""
}

//verif:prop C10
func vc_SearchFile(r *defaultResolver, fsys fs.FS, locale, domain, ext string) {
	vRequires(r != nil && fsys != nil)
	got, err := r.searchFileForLanguageName(fsys, locale, domain, ext)
	want := vFirstPath(fsys, r.search, r.category, locale, domain, ext)
	if err == nil {
		vEnsures("the first existing path of the documented order", got == want)
	} else {
		vEnsures("not found exactly when no path of the documented order exists", want == "" && errors.Is(err, os.ErrNotExist))
	}
	vEnsures("no write to shared state", vUnchanged())
}

func vNoFileAt(r *defaultResolver, fsys fs.FS, names []string, domain, ext string, j int) bool {
	_, err := r.searchFileForLanguageName(fsys, names[j], domain, ext)
	return err != nil && errors.Is(err, os.ErrNotExist)
}

//verif:inv (*@.defaultResolver).Resolve 1
func vi_Resolve(r *defaultResolver, fsys fs.FS, extension string, tag language.Tag, domain string, done_ int) {
	vInv("no file for the names so far", vForall(func(j int) bool {
		return vImp(0 <= j && j < done_, vNoFileAt(r, fsys, ExpandLanguage(tag), domain, extension, j))
	}))
	vInv("nothing is written", vUnchanged())
}

//verif:prop C10
//verif:opaque (*@.defaultResolver).searchFileForLanguageName @.ExpandLanguage
func vc_Resolve(r *defaultResolver, fsys fs.FS, ext string, tag language.Tag, domain string, k int) {
	vRequires(r != nil && fsys != nil)
	names := ExpandLanguage(tag)
	vRequires(0 <= k && k <= len(names) && vForall(func(j int) bool {
		return vImp(0 <= j && j < k, vNoFileAt(r, fsys, names, domain, ext, j))
	}) && (k == len(names) || !vNoFileAt(r, fsys, names, domain, ext, k)))
	got, err := r.Resolve(fsys, ext, tag, domain)
	if k == len(names) {
		vEnsures("not found when no name has a file", err == os.ErrNotExist)
		return
	}
	want, werr := r.searchFileForLanguageName(fsys, names[k], domain, ext)
	vEnsures("the file of the most specific name that has one", vImp(werr == nil, got == want && err == nil))
}

// ---- names of a language

// vIsLangName: the tag itself, its ISO 639 codes, and the base with region or script.
func vIsLangName(tag language.Tag, s string) bool {
	base, bc := tag.Base()
	region, rc := tag.Region()
	script, sc := tag.Script()
	return s == tag.String() || (bc > language.No && (s == base.ISO3() || s == base.String() ||
		(rc > language.No && (s == base.String()+"_"+region.String() || s == base.String()+"-"+region.String())) ||
		(sc > language.No && (s == base.String()+"_"+script.String() || s == base.String()+"-"+script.String()))))
}

//verif:prop C10
func vc_ExpandLanguage(tag language.Tag, i int, s string) {
	got := ExpandLanguage(tag)
	vEnsures("only names of the language", vImp(0 <= i && i < len(got), vIsLangName(tag, got[i])))
	vEnsures("every name of the language", vImp(vIsLangName(tag, s), slices.Contains(got, s)))
	vEnsures("longer names first", vImp(0 <= i && i+1 < len(got), len(got[i]) >= len(got[i+1])))
}

// ---- construction

func vHasDefaultResolver(l *FilesystemLoader) bool {
	r, ok := l.resolver.(*defaultResolver)
	return ok && r != nil && r.search && r.category == ""
}

//verif:prop C10
func vc_NewLoaderDefault(fsys fs.FS) {
	vRequires(fsys != nil)
	l, err := NewFilesystemLoader(WithFs(fsys))
	vEnsures("created", err == nil && vLoaderOK(l) && l.fsys == fsys && vHasDefaultResolver(l))
	vEnsures("po, mo and json in this order", len(l.extensions) == 3 && l.extensions[0] == ".po" && l.extensions[1] == ".mo" && l.extensions[2] == ".json" &&
		l.decoder[0] != nil && l.decoder[1] != nil && l.decoder[2] != nil)
}

//verif:prop C10
func vc_NewLoaderCustom(fsys fs.FS, r Resolver, e1, e2 string, d1, d2 catalog.Decoder) {
	vRequires(fsys != nil && r != nil)
	l, err := NewFilesystemLoader(WithDecoder(e1, d1), WithFs(fsys), WithDecoder(e2, d2), WithResolver(r))
	vEnsures("created", err == nil && vLoaderOK(l) && l.fsys == fsys && l.resolver == r)
	vEnsures("exactly the given decoders in the given order", len(l.extensions) == 2 && l.extensions[0] == e1 && l.extensions[1] == e2 && l.decoder[0] == d1 && l.decoder[1] == d2)
}

//verif:prop C10
func vc_NewLoaderRejects(fsys fs.FS, r Resolver, p string, ext string, d catalog.Decoder) {
	vRequires(fsys != nil && r != nil)
	l1, err1 := NewFilesystemLoader()
	vEnsures("a loader without a file system is an error", l1 == nil && err1 != nil)
	l2, err2 := NewFilesystemLoader(WithFs(fsys), nil)
	vEnsures("a nil option is an error", l2 == nil && err2 != nil)
	l3, err3 := NewFilesystemLoader(WithFs(fsys), WithFs(fsys))
	vEnsures("a second file system is an error", l3 == nil && err3 != nil)
	l4, err4 := NewFilesystemLoader(WithFs(fsys), WithPath(p))
	vEnsures("a path besides a file system is an error", l4 == nil && err4 != nil)
	l5, err5 := NewFilesystemLoader(WithFs(fsys), WithResolver(r), WithResolver(r))
	vEnsures("a second resolver is an error", l5 == nil && err5 != nil)
	l6, err6 := NewFilesystemLoader(WithDecoder(ext, d))
	vEnsures("decoders alone are no loader", l6 == nil && err6 != nil)
}

//verif:prop C10
func vc_NewDefaultResolver(c string) {
	a, err := NewDefaultResolver()
	ra, ok := a.(*defaultResolver)
	vEnsures("searches, without a category", err == nil && ok && ra != nil && ra.search && ra.category == "")
	b, err2 := NewDefaultResolver(WithDisabledSearch(), WithCategory(c))
	rb, ok2 := b.(*defaultResolver)
	vEnsures("as the options say", err2 == nil && ok2 && rb != nil && !rb.search && rb.category == c)
}
