package mo

import (
	"encoding/binary"
	"io"
	"strings"

	"github.com/vorlif/spreak/catalog/po"
)

// Contracts of the MO reader. vBytesAt/vUintAt are the bytes and the numbers the file holds at
// a position; a file is well formed when its header, both tables and all texts lie within it.

func vBig(r io.ReadSeeker) bool { return vUintAt(r, 0, false, 32) == magicBigEndian }

// The tables describe every text by its length and its position.
//
//verif:rec ground
func vLen(r io.ReadSeeker, big bool, tab, k int) int { return vUintAt(r, tab+8*k, big, 32) }

//verif:rec ground
func vOff(r io.ReadSeeker, big bool, tab, k int) int { return vUintAt(r, tab+8*k+4, big, 32) }

func vText(r io.ReadSeeker, big bool, tab, k int) string {
	return vBytesAt(r, vOff(r, big, tab, k), vLen(r, big, tab, k))
}

func vTextOK(r io.ReadSeeker, big bool, tab, k int) bool {
	return vOff(r, big, tab, k)+vLen(r, big, tab, k) <= len(vReaderData(r))
}

func vHeaderOK(r io.ReadSeeker) bool {
	m := vUintAt(r, 0, false, 32)
	return len(vReaderData(r)) >= 28 && (m == magicLittleEndian || m == magicBigEndian) &&
		vUintAt(r, 4, vBig(r), 16) <= 1 && vUintAt(r, 6, vBig(r), 16) <= 1
}

func vTableOK(r io.ReadSeeker, tab, n int) bool { return n == 0 || tab+8*n <= len(vReaderData(r)) }

// What the parser has read so far.
func vBigP(p *parser) bool { return p.bo == binary.BigEndian }
func vKeyP(p *parser, k int) string {
	return vBytesAt(p.r, int(p.messageData[k].idOffset), int(p.messageData[k].idLength))
}
func vTrP(p *parser, k int) string {
	return vBytesAt(p.r, int(p.messageData[k].translationOffset), int(p.messageData[k].translationLength))
}
func vEntryOKP(p *parser, k int) bool {
	n := len(vReaderData(p.r))
	d := p.messageData[k]
	return int(d.idOffset)+int(d.idLength) <= n && int(d.translationOffset)+int(d.translationLength) <= n
}

func vParserOK(p *parser) bool {
	return p != nil && p.r != nil && (p.bo == binary.BigEndian || p.bo == binary.LittleEndian) &&
		int(p.size) == len(vReaderData(p.r))
}

// The original text of an entry is [context EOT] id [NUL plural].
//
//verif:rec ground
func vCtx(key string) string {
	if i := strings.Index(key, "\x04"); i != -1 {
		return key[:i]
	}
	return ""
}

//verif:rec ground
func vRest(key string) string {
	if i := strings.Index(key, "\x04"); i != -1 {
		return key[i+1:]
	}
	return key
}

//verif:rec ground
func vID(key string) string {
	rest := vRest(key)
	if i := strings.Index(rest, "\x00"); i != -1 {
		return rest[:i]
	}
	return rest
}

//verif:rec ground
func vHasPlural(key string) bool { return strings.Index(vRest(key), "\x00") != -1 }

//verif:rec ground
func vPlural(key string) string {
	rest := vRest(key)
	if i := strings.Index(rest, "\x00"); i != -1 {
		return rest[i+1:]
	}
	return ""
}

// vMsg: the entry is a message (neither the header nor without an id).
//
//verif:rec ground
func vMsg(key string) bool { return key != "" && vID(key) != "" }

// vMsgHolds: m is the message of an entry (its form j).
func vMsgHolds(m *po.Message, key, tr string, j int) bool {
	s, has := m.Str[j]
	parts := strings.Split(tr, "\x00")
	return m.Context == vCtx(key) && m.ID == vID(key) && m.IDPlural == vPlural(key) &&
		vImp(vHasPlural(key), has == (0 <= j && j < len(parts)) && vImp(has, s == parts[j])) &&
		vImp(!vHasPlural(key), has == (j == 0) && vImp(has, s == tr))
}

func vIDRead(p *parser, i int) bool {
	return int(p.messageData[i].idLength) == vLen(p.r, vBigP(p), int(p.msgIDOffset), i) &&
		int(p.messageData[i].idOffset) == vOff(p.r, vBigP(p), int(p.msgIDOffset), i)
}

func vTrRead(p *parser, i int) bool {
	return int(p.messageData[i].translationLength) == vLen(p.r, vBigP(p), int(p.msgStrOffset), i) &&
		int(p.messageData[i].translationOffset) == vOff(p.r, vBigP(p), int(p.msgStrOffset), i)
}

func vDataOK(p *parser, n int) bool {
	return vForall(func(i int) bool { return vImp(0 <= i && i < n, p.messageData[i] != nil && vFresh(p.messageData[i])) }) &&
		vForall(func(i, j int) bool { return vImp(0 <= i && i < j && j < n, p.messageData[i] != p.messageData[j]) })
}

//verif:inv (*@/internal/mo.parser).parseMessageData 1
func vi_MakeData(p *parser, done_ int) {
	vInv("new list", vFresh(p.messageData))
	vInv("distinct new entries", 0 <= done_ && vDataOK(p, done_))
	vInv("nothing else is written", vOnlyModified())
}

//verif:inv (*@/internal/mo.parser).parseMessageData 2
func vi_IDTable(p *parser, done_ int) {
	vInv("distinct new entries", vDataOK(p, len(p.messageData)))
	vInv("position", vReaderPos(p.r) == int(p.msgIDOffset)+8*done_ && (done_ == 0 || vReaderPos(p.r) <= len(vReaderData(p.r))))
	vInv("no failure so far", !vReaderFailed())
	vInv("entry read", vImp(done_ > 0, vIDRead(p, done_-1)))
	vInv("entries so far", vForall(func(i int) bool { return vImp(0 <= i && i < done_, vIDRead(p, i)) }))
	vInv("nothing else is written", vOnlyModified())
}

//verif:inv (*@/internal/mo.parser).parseMessageData 3
func vi_TrTable(p *parser, done_ int) {
	vInv("distinct new entries", vDataOK(p, len(p.messageData)))
	vInv("position", vReaderPos(p.r) == int(p.msgStrOffset)+8*done_ && (done_ == 0 || vReaderPos(p.r) <= len(vReaderData(p.r))))
	vInv("no failure so far", !vReaderFailed())
	vInv("original texts", vForall(func(i int) bool { return vImp(0 <= i && i < len(p.messageData), vIDRead(p, i)) }))
	vInv("entry read", vImp(done_ > 0, vTrRead(p, done_-1)))
	vInv("entries so far", vForall(func(i int) bool { return vImp(0 <= i && i < done_, vTrRead(p, i)) }))
	vInv("nothing else is written", vOnlyModified())
}

//verif:prop C14
//verif:modular (*@/internal/mo.parser).parseMessageData
func vc_ParseTables(p *parser) {
	vRequires(vParserOK(p) && !vReaderFailed())
	vModifies(&p.messageData)
	vModifiesReaders()
	err := p.parseMessageData()
	n := int(p.msgIDCount)
	if err != nil {
		vEnsures("fails only if a table is damaged or cannot be read", vReaderFailed() || !(vTableOK(p.r, int(p.msgIDOffset), n) && vTableOK(p.r, int(p.msgStrOffset), n)))
		return
	}
	vEnsures("the tables could be read", !vReaderFailed())
	vEnsures("tables within the file", vTableOK(p.r, int(p.msgIDOffset), n) && vTableOK(p.r, int(p.msgStrOffset), n))
	vEnsures("an entry for every message", len(p.messageData) == n && vForall(func(i int) bool { return vImp(0 <= i && i < n, p.messageData[i] != nil) }))
	vEnsures("the entries of both tables", vForall(func(i int) bool { return vImp(0 <= i && i < n, vIDRead(p, i) && vTrRead(p, i)) }))
}

// The contract of the whole parser is stated for an arbitrary entry g_k, form g_j, context g_x
// and id g_id, which is the same as for all of them.

//verif:inv (*@/internal/mo.parser).parseMessages 1
func vi_Messages(p *parser, file *po.File, done_, g_k, g_j int, g_x, g_id string) {
	key := vKeyP(p, g_k)
	in := 0 <= g_k && g_k < len(p.messageData)
	vInv("new file", vFresh(file) && vFresh(file.Messages))
	vInv("no failure so far", !vReaderFailed())
	vInv("the entry lies within the file", vImp(in && g_k < done_, vEntryOKP(p, g_k)))
	vInv("the next entry is another message", vImp(in && done_ < len(p.messageData) && done_ != g_k, !vIsKey(vKeyP(p, done_), vCtx(key), vID(key))))
	vInv("maps of the contexts are new", vForall(func(x string) bool {
		return vImp(vHasCtx(file, x), vFresh(file.Messages[x]) && !vSameMap(file.Messages, file.Messages[x]))
	}))
	vInv("maps of the contexts are distinct", vForall(func(x, y string) bool {
		return vImp(x != y && vHasCtx(file, x) && vHasCtx(file, y), !vSameMap(file.Messages[x], file.Messages[y]))
	}))
	vInv("messages are new", vForall(func(x, id string) bool {
		return vImp(vHasMsg(file, x, id), vFresh(file.Messages[x][id]) && vFresh(file.Messages[x][id].Str))
	}))
	vInv("the message is stored when its entry has been read", vImp(in && vMsg(key), vHasMsg(file, vCtx(key), vID(key)) == (g_k < done_)))
	vInv("the message is that of its entry", vImp(in && vMsg(key) && g_k < done_, vMsgHolds(file.Messages[vCtx(key)][vID(key)], key, vTrP(p, g_k), g_j)))
	vInv("only messages of the entries read", vImp(vHasMsg(file, g_x, g_id), done_ > 0 && vIsKey(vKeyP(p, done_-1), g_x, g_id) || vExists(func(k int) bool {
		return 0 <= k && k < done_ && vIsKey(vKeyP(p, k), g_x, g_id)
	})))
	vInv("nothing else is written", vUnchanged())
}

func vIsKey(key, x, id string) bool { return vMsg(key) && vCtx(key) == x && vID(key) == id }

func vHasCtx(f *po.File, x string) bool {
	_, has := f.Messages[x]
	return has
}

func vHasMsg(f *po.File, x, id string) bool {
	_, has := f.Messages[x][id]
	return has
}

//verif:inv (*@/internal/mo.parser).parseMessages 2
func vi_Forms(msg *po.Message, localized string, done_, g_j int) {
	s, has := msg.Str[g_j]
	parts := strings.Split(localized, "\x00")
	vInv("forms so far", has == (g_j == 0 || 0 <= g_j && g_j < done_) && vImp(has && g_j < done_, s == parts[g_j]))
	vInv("nothing else is written", vUnchanged())
}

//verif:prop C14
//verif:opt feasible=150
//verif:modular (*@/internal/mo.parser).parseMessages
//verif:opaque (*@/catalog/po.Message).Merge (*@/internal/mo.parser).parseMessageHeader
func vc_ParseMessages(p *parser, g_k, g_j int, g_x, g_id string) {
	vRequires(vParserOK(p) && !vReaderFailed())
	vRequires(vForall(func(i int) bool { return vImp(0 <= i && i < len(p.messageData), p.messageData[i] != nil) }))
	n := len(p.messageData)
	key := vKeyP(p, g_k)
	// the message occurs once
	vRequires(vForall(func(l int) bool {
		return vImp(0 <= g_k && g_k < n && 0 <= l && l < n && l != g_k, !vIsKey(vKeyP(p, l), vCtx(key), vID(key)))
	}))
	vModifiesReaders()
	file, err := p.parseMessages()
	vEnsures("a file or an error", (file == nil) == (err != nil))
	if err != nil {
		vEnsures("fails only if a text lies outside the file or cannot be read", vReaderFailed() ||
			vExists(func(k int) bool { return 0 <= k && k < n && !vEntryOKP(p, k) }))
		return
	}
	in := 0 <= g_k && g_k < n
	vEnsures("the texts could be read", !vReaderFailed())
	vEnsures("texts within the file", vImp(in, vEntryOKP(p, g_k)))
	vEnsures("every message is there", vImp(in && vMsg(key), vHasMsg(file, vCtx(key), vID(key))))
	vEnsures("with its texts", vImp(in && vMsg(key), vMsgHolds(file.Messages[vCtx(key)][vID(key)], key, vTrP(p, g_k), g_j)))
	vEnsures("only messages of the entries", vImp(vHasMsg(file, g_x, g_id), vExists(func(k int) bool {
		return 0 <= k && k < n && vIsKey(vKeyP(p, k), g_x, g_id)
	})))
}

//verif:prop C14
func vc_ParseMO(r io.ReadSeeker, g_k, g_j int, g_x, g_id string) {
	vRequires(r != nil && !vReaderFailed())
	big := vBig(r)
	n := vUintAt(r, 8, big, 32)
	ids := vUintAt(r, 12, big, 32)
	trs := vUintAt(r, 16, big, 32)
	key := vText(r, big, ids, g_k)
	// the message occurs once
	vRequires(vForall(func(l int) bool {
		return vImp(0 <= l && l < n && l != g_k, !vIsKey(vText(r, big, ids, l), vCtx(key), vID(key)))
	}))
	file, err := ParseReader(r)
	vEnsures("a file or an error", (file == nil) == (err != nil))
	if err != nil {
		vEnsures("fails only if the file is damaged or cannot be read", vReaderFailed() || !(vHeaderOK(r) && vTableOK(r, ids, n) && vTableOK(r, trs, n) &&
			vForall(func(k int) bool { return vImp(0 <= k && k < n, vTextOK(r, big, ids, k) && vTextOK(r, big, trs, k)) })))
		return
	}
	vEnsures("a file that could be read", !vReaderFailed())
	vEnsures("a well-formed header", vHeaderOK(r))
	vEnsures("tables within the file", vTableOK(r, ids, n) && vTableOK(r, trs, n))
	in := 0 <= g_k && g_k < n
	vEnsures("texts within the file", vImp(in, vTextOK(r, big, ids, g_k) && vTextOK(r, big, trs, g_k)))
	vEnsures("every message of the file is there", vImp(in && vMsg(key), vHasMsg(file, vCtx(key), vID(key))))
	vEnsures("with its texts", vImp(in && vMsg(key), vMsgHolds(file.Messages[vCtx(key)][vID(key)], key, vText(r, big, trs, g_k), g_j)))
	vEnsures("only messages of the file", vImp(vHasMsg(file, g_x, g_id), vExists(func(k int) bool {
		return 0 <= k && k < n && vIsKey(vText(r, big, ids, k), g_x, g_id)
	})))
	vEnsures("nothing else is written", vUnchanged())
}
