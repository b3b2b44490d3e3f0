package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/katydid/katydid/parser/xml"
)

func init() {
	register(&Prop{ID: "C15", Run: runC15, Quick: 1200000,
		RealCode: []string{"parser/xml (decoder, token reader, unmarshalling)"},
		Stubs:    []string{"the reader is simulated: sizes of deliveries, empty reads, end of input together with or after the data, failures"},
		Assume:   []string{"the reader returns at most 5 empty reads in a row; readers that implement ReadByte follow its contract", "a text that ends exactly where the reader fails, and any token ending there when elements are closed automatically (which needs the next token), may be delivered or not"},
		Rule:     "each run generates XML (also corrupt, with carriage returns, entities, name spaces, encodings and directives), reads it once from a reader that delivers everything at once and once or more from simulated readers with a drawn chunking, or one that fails at a drawn byte and may recover, with the same drawn sequence of Token, RawToken, Skip or Decode calls. Tokens, offsets and the final error must be equal; after a failure exactly the completely delivered tokens, then exactly the error of the reader, again and again. Non-trivial: at least two deliveries. Distinct by bytes, chunking and calls."})
}

// simReader delivers bytes as drawn.
type simReader struct {
	r      *Run
	data   []byte
	pos    int
	mode   int // largest delivery; 0: everything
	empty  int // one in empty reads is empty
	joint  bool
	failAt int // -1: never
	err    error
	heals  bool // after failing once, it works
	failed bool
	reads  int
	idle   int
	ended  bool
}

func (s *simReader) end() int {
	if s.failAt >= 0 && !(s.heals && s.failed) {
		return s.failAt
	}
	return len(s.data)
}

func (s *simReader) stop() error {
	if s.failAt >= 0 && !(s.heals && s.failed) {
		if !s.failed {
			s.r.Fault("read-error")
		}
		s.failed = true
		return s.err
	}
	return io.EOF
}

func (s *simReader) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.empty > 0 && s.idle < 5 && s.r.FChance(1, s.empty) {
		s.r.Fault("empty-read")
		s.idle++
		return 0, nil
	}
	s.idle = 0
	end := s.end()
	if s.pos >= end {
		return 0, s.stop()
	}
	n := end - s.pos
	if s.mode > 0 {
		k := 1 + s.r.FInt(s.mode)
		if k < n {
			s.r.Fault("short-read")
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end && s.joint {
		s.r.Fault("data-with-end")
		return n, s.stop()
	}
	return n, nil
}

// byteReader also delivers byte by byte.
type byteReader struct{ *simReader }

func (s byteReader) ReadByte() (byte, error) {
	s.reads++
	if s.pos >= s.end() {
		return 0, s.stop()
	}
	s.pos++
	return s.data[s.pos-1], nil
}

// xmlOps is what the consumer does.
type xmlOps struct {
	strict  bool
	entity  bool
	auto    bool
	charset int // 0: none; 3: refuses; 1: passes the input through; 2: with a reader of its own
	raw     int // one in raw calls is RawToken
	skip    int
	decode  int // 0: tokens; else Decode into a value of this kind
	elem    int // one in elem elements is decoded
	space   string
}

// own is whether an error comes from the value that is decoded into.
func (o *xmlOps) own(err error) bool {
	switch err.(type) {
	case *xml.SyntaxError:
		return false
	}
	return err != io.EOF && !errors.Is(err, errRead) && !errors.Is(err, io.EOF) && err != io.ErrUnexpectedEOF && err != io.ErrNoProgress
}

// xmlTarget is decoded into.
type xmlTarget struct {
	XMLName xml.Name
	A       []xmlTarget `xml:"a"`
	B       string      `xml:"b"`
	C       []byte      `xml:"c"`
	D       *int64      `xml:"d"`
	E       []bool      `xml:"e"`
	F       float64     `xml:"x1"`
	G       string      `xml:"Name>a"`
	H       []uint8     `xml:"Name>b"`
	At      string      `xml:"a,attr"`
	An      *int32      `xml:"b,attr"`
	Text    string      `xml:",chardata"`
	Inner   string      `xml:",innerxml"`
	Com     string      `xml:",comment"`
	Any     *xmlTarget  `xml:",any"`
}

type xmlTarget2 struct {
	Ints  []int64            `xml:"a"`
	Strs  []string           `xml:"b"`
	Deep  struct{ X []byte } `xml:"c"`
	Ptr   **string           `xml:"d"`
	Iface interface{}        `xml:"e"`
	Attrs string             `xml:"Name,attr"`
	B     bool               `xml:"_y,attr"`
	Text  []byte             `xml:",chardata"`
}

// xmlRead is everything a consumer sees.
type xmlRead struct {
	events []string
	offs   []int64
	text   []bool
	copies []xml.Token
	err    error
	last   int64
	again  []error
	value  string
	over   bool
}

func tokString(t xml.Token) string {
	switch x := t.(type) {
	case xml.CharData:
		return fmt.Sprintf("text %q", []byte(x))
	case xml.Comment:
		return fmt.Sprintf("comment %q", []byte(x))
	case xml.Directive:
		return fmt.Sprintf("directive %q", []byte(x))
	case xml.ProcInst:
		return fmt.Sprintf("pi %q %q", x.Target, x.Inst)
	case xml.StartElement:
		return fmt.Sprintf("start %q %q", x.Name, x.Attr)
	case xml.EndElement:
		return fmt.Sprintf("end %q", x.Name)
	}
	return fmt.Sprintf("%T", t)
}

func (r *Run) readXML(rd io.Reader, o *xmlOps, t *tape, n int) (x *xmlRead) {
	x = &xmlRead{}
	d := xml.NewDecoder(rd)
	d.Strict = o.strict
	if o.entity {
		d.Entity = xml.HTMLEntity
	}
	if o.auto {
		d.AutoClose = []string{"a", "b", "br"}
	}
	d.DefaultSpace = o.space
	switch o.charset {
	case 1:
		d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return in, nil }
	case 3:
		d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return nil, errSelf }
	case 2:
		d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return struct{ io.Reader }{in}, nil }
	}
	xmlSelfTape = t
	decode := func(start *xml.StartElement) (string, error) {
		v := newXMLTarget(t)
		if o.decode == 1 {
			v = &xmlTarget{}
		} else if o.decode == 2 {
			v = &xmlTarget2{}
		}
		var err error
		if start != nil {
			err = d.DecodeElement(v, start)
		} else {
			err = d.Decode(v)
		}
		x.last = d.InputOffset()
		return dumpAny(v), err
	}
	if o.decode > 0 {
		for i := 0; i < 3; i++ {
			value, err := decode(nil)
			if err != nil {
				if !o.own(err) {
					x.err = err
					x.value = value
					break
				}
				value = fmt.Sprintf("failed with %v: %s", err, value)
			}
			x.offs = append(x.offs, x.last)
			x.text = append(x.text, false)
			x.events = append(x.events, value)
		}
	} else {
		depth := 0
		for {
			if len(x.events) > 2*n+10 {
				x.over = true
				return
			}
			var tok xml.Token
			var err error
			what, elem := "Token", false
			switch {
			case o.skip > 0 && depth > 0 && t.Int(o.skip) == o.skip-1:
				what = "Skip"
				err = d.Skip()
				depth--
			case o.raw > 0 && t.Int(o.raw) == o.raw-1:
				what = "RawToken"
				tok, err = d.RawToken()
			default:
				tok, err = d.Token()
				switch e := tok.(type) {
				case xml.StartElement:
					depth++
					if o.elem > 0 && t.Int(o.elem) == o.elem-1 {
						what, tok = "DecodeElement", nil
						e = e.Copy()
						var value string
						value, err = decode(&e)
						depth--
						if err == nil {
							what += " " + value
						} else if o.own(err) {
							what += fmt.Sprintf(" failed with %v: %s", err, value)
							err = nil
						}
						elem = true
					}
				case xml.EndElement:
					depth--
				}
			}
			x.last = d.InputOffset()
			if err != nil {
				x.err = err
				break
			}
			if what != "Skip" && !elem && tok == nil {
				x.events = append(x.events, what+" returned nothing")
				x.over = true
				return
			}
			e := what
			if tok != nil {
				e += " " + tokString(tok)
				x.copies = append(x.copies, xml.CopyToken(tok))
			} else {
				x.copies = append(x.copies, nil)
			}
			_, txt := tok.(xml.CharData)
			x.events = append(x.events, e)
			x.offs = append(x.offs, x.last)
			x.text = append(x.text, txt)
		}
	}
	for i := 0; i < 3; i++ {
		var err error
		switch {
		case o.decode > 0:
			_, err = d.Token()
		case t.Int(2) == 0:
			_, err = d.Token()
		default:
			_, err = d.RawToken()
		}
		x.again = append(x.again, err)
	}
	for i, c := range x.copies {
		if c != nil && !strings.HasSuffix(x.events[i], tokString(c)) {
			x.events[i] += " CHANGED TO " + tokString(c)
		}
	}
	return x
}

// genXMLBytes draws XML, also with features only the decoder knows.
func (r *Run) genXMLBytes() []byte {
	d := r.genXML(&xmlCfg{})
	s := string(d.data)
	if r.Int(3) == 2 {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	ins := []string{"\r", "\r\n", "\r\r\n", "&copy;", "&nbsp;", "&#x10FFFF;", "&#0;", "<br>", "<a>", "</a>", "<b c=d e>", "<?xml version=\"1.0\" encoding=\"latin\"?>", "<!DOCTYPE x [<!-- > --> \"<\" <!E>]>", "<![CDATA[]]>", "]]>", "\xe4\xb8", "\u4e16", "<x:y xmlns:x=\"u\"/>", "<y xmlns=\"v\"><z/></y>", "&", "<!-- -- -->", "<?a?>", "<a\u4e16 \u4e16='\u4e16'/>"}
	for k := r.Int(4); k > 0; k-- {
		at := r.Int(len(s) + 1)
		s = s[:at] + ins[r.Int(len(ins))] + s[at:]
	}
	b := []byte(s)
	if r.Int(5) == 4 {
		b = r.corruptDoc(&fworld{kind: "xml"}, &fdoc{data: b}, nil).data
	}
	if r.Int(20) == 19 {
		// longer than the buffer of the decoder
		b = append([]byte("<!-- "+strings.Repeat("-x", 2000+r.Int(200))+" -->"), b...)
	}
	return b
}

var errRead = errors.New("simulated read failure")

func runC15(r *Run) {
	data := r.genXMLBytes()
	pick := func(xs ...int) int { return xs[r.Int(len(xs))] }
	o := &xmlOps{strict: r.Int(2) == 0, raw: pick(0, 0, 5, 1), skip: pick(0, 6, 2), charset: r.Int(4), decode: pick(0, 0, 0, 0, 1, 2, 3, 3), elem: pick(0, 0, 0, 4, 2), space: []string{"", "", "u"}[r.Int(3)]}
	if !o.strict {
		o.entity, o.auto = r.Int(2) == 1, r.Int(3) == 2
	}
	limit := 400000 + 4000*uint64(len(data)) + 40*uint64(len(data)*len(data))
	if len(data) > 3000 {
		limit = 60000000
	}
	t := &tape{r: r}
	read := func(what string, rd io.Reader, t *tape) *xmlRead {
		var x *xmlRead
		if c := r.Guard(limit, func() { x = r.readXML(rd, o, t, len(data)) }); c != nil {
			r.Violate("xml:"+c.Class(), "%q, %+v, %s: %s", data, *o, what, c)
		}
		if x.over {
			r.Violate("xml:unbounded", "%q, %+v, %s: %s", data, *o, what, tail40(x.events))
		}
		return x
	}
	ref := read("all at once", byteReader{&simReader{r: r, data: data, failAt: -1}}, t)
	r.Logf("%q %+v: %s, then %v", data, *o, strings.Join(ref.events, "; "), ref.err)
	for k := 1 + r.Int(2); k > 0; k-- {
		s := &simReader{r: r, data: data, failAt: -1, mode: []int{0, 1, 2, 3, 8, 40}[r.FInt(6)], joint: r.FInt(2) == 1}
		if r.FInt(2) == 1 {
			s.empty = 2 + r.FInt(4)
		}
		if r.FInt(2) == 1 {
			s.failAt = r.FInt(len(data) + 1)
			s.err = []error{errRead, io.ErrUnexpectedEOF, fmt.Errorf("wrapped %w", io.EOF), io.ErrNoProgress}[r.FInt(4)]
			s.heals = r.FInt(2) == 1
		}
		var rd io.Reader = s
		kind := "reader"
		if r.FInt(3) == 2 {
			rd, kind = byteReader{s}, "byte reader"
		}
		what := fmt.Sprintf("%s, deliveries of %d, joint %v, empty %d, failing at %d with %v, healing %v", kind, s.mode, s.joint, s.empty, s.failAt, s.err, s.heals)
		x := read(what, rd, t.again())
		r.Logf("%s: %d tokens, then %v", what, len(x.events), x.err)
		if s.reads > 1 {
			r.Nontrivial(string(data) + what + fmt.Sprint(*o))
		}
		n := len(x.events)
		for i := 0; i < n && i < len(ref.events); i++ {
			if x.events[i] != ref.events[i] {
				r.Violate("xml:token", "%q, %+v, %s: token %d is %s, all at once it is %s", data, *o, what, i, x.events[i], ref.events[i])
			}
			if x.offs[i] != ref.offs[i] {
				r.Violate("xml:offset", "%q, %+v, %s: after token %d (%s) the offset is %d, all at once it is %d", data, *o, what, i, x.events[i], x.offs[i], ref.offs[i])
			}
		}
		bad := func(f string, a ...interface{}) {
			r.Violate("xml:end", "%q, %+v, %s: %s; tokens %s, then %v; all at once %s, then %v", data, *o, what, fmt.Sprintf(f, a...), tail40(x.events), x.err, tail40(ref.events), ref.err)
		}
		if n > len(ref.events) {
			bad("more tokens")
		}
		if !s.failed || s.failAt < 0 {
			if n < len(ref.events) {
				bad("fewer tokens")
			}
			if fmt.Sprint(x.err) != fmt.Sprint(ref.err) || x.last != ref.last || x.value != ref.value {
				bad("end at %d with %v (%s), all at once at %d with %v (%s)", x.last, x.err, x.value, ref.last, ref.err, ref.value)
			}
			for i := range x.again {
				if fmt.Sprint(x.again[i]) != fmt.Sprint(ref.again[i]) {
					bad("the error afterwards is %v, all at once %v", x.again, ref.again)
				}
			}
			continue
		}
		k64 := int64(s.failAt)
		for i := n; i < len(ref.events); i++ {
			if ref.offs[i] < k64 || ref.offs[i] == k64 && !ref.text[i] && !o.auto && o.decode == 0 {
				bad("token %d, which ends at %d, is not delivered", i, ref.offs[i])
			}
		}
		for i := 0; i < n; i++ {
			if x.offs[i] > k64 {
				bad("token %d ends at %d", i, x.offs[i])
			}
		}
		own := strings.Contains(strings.Join(x.events, " "), "failed with ") || strings.Contains(x.value, "beyond ")
		switch {
		case own && fmt.Sprint(x.err) == fmt.Sprint(ref.err):
			// what decodes itself may leave the decoder in the middle of an element
		case n < len(ref.events) || ref.last > k64+1 || ref.err == io.EOF:
			if x.err != s.err {
				bad("the error is %v", x.err)
			}
		case x.err != s.err && fmt.Sprint(x.err) != fmt.Sprint(ref.err):
			bad("the error is %v", x.err)
		}
		if x.err == s.err && !own {
			for _, e := range x.again {
				if e != s.err && !(o.auto && e == nil) {
					bad("the error does not stay: %v", x.again)
				}
			}
		}
	}
}

func tail40(s []string) string {
	if len(s) > 40 {
		s = s[len(s)-40:]
	}
	return strings.Join(s, "; ")
}
