package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/katydid/katydid/parser/xml"
)

// Values that the XML decoder stores into: every kind of field and tag, and types that decode
// themselves, which do so with drawn calls to the decoder.

// xmlSelfTape decides what the types that decode themselves do.
var xmlSelfTape *tape

var errSelf = errors.New("simulated failure of UnmarshalXML")
var errSelfText = errors.New("simulated failure of UnmarshalText")
var errSelfAttr = errors.New("simulated failure of UnmarshalXMLAttr")

// selfDecode is one call of UnmarshalXML; it never swallows an error of the decoder.
func selfDecode(d *xml.Decoder, start xml.StartElement, log func(string)) error {
	t := xmlSelfTape
	log(fmt.Sprintf("%q %q", start.Name, start.Attr))
	tokens := func(n int) (bool, error) {
		depth := 1
		for n != 0 {
			tok, err := d.Token()
			if err != nil {
				return false, err
			}
			log(tokString(tok))
			switch tok.(type) {
			case xml.StartElement:
				depth++
			case xml.EndElement:
				depth--
			}
			if depth == 0 {
				return true, nil
			}
			n--
		}
		return false, nil
	}
	switch t.Int(10) {
	case 0:
		return d.Skip()
	case 1:
		_, err := tokens(-1)
		return err
	case 2:
		v := newXMLTarget(t)
		err := d.DecodeElement(v, &start)
		log(dumpAny(v))
		return err
	case 3:
		return errSelf
	case 4:
		return nil // did not consume it
	case 5:
		tok, err := d.RawToken()
		log(fmt.Sprint(tok, err))
		return d.Skip()
	case 6:
		if done, err := tokens(-1); err != nil || !done {
			return err
		}
		// the decoder must not go on after the end of the element
		tok, err := d.Token()
		log(fmt.Sprint("beyond ", tok, err))
		return nil
	case 7:
		if done, err := tokens(1 + t.Int(3)); err != nil || done {
			return err
		}
		return errSelf
	case 8:
		if done, err := tokens(1 + t.Int(3)); err != nil || done {
			return err
		}
		return nil
	}
	// children one by one
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch s := tok.(type) {
		case xml.StartElement:
			s = s.Copy()
			v := newXMLTarget(t)
			err := d.DecodeElement(v, &s)
			log(dumpAny(v))
			if err != nil {
				return err
			}
		case xml.EndElement:
			return nil
		default:
			log(tokString(tok))
		}
	}
}

// xSelf decodes itself.
type xSelf struct{ Got []string }

func (x *xSelf) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return selfDecode(d, start, func(s string) { x.Got = append(x.Got, s) })
}

// xVal decodes itself though it is not a pointer.
type xVal []string

func (x xVal) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	return selfDecode(d, start, func(s string) {
		if len(x) > 0 {
			x[0] += s
		}
	})
}

// xText takes text.
type xText string

func (x *xText) UnmarshalText(b []byte) error {
	*x = xText(b)
	if len(b) == 5 {
		return errSelfText
	}
	return nil
}

// xTextVal takes text though it is not a pointer.
type xTextVal map[string]int

func (x xTextVal) UnmarshalText(b []byte) error {
	if len(b) == 3 {
		return errSelfText
	}
	return nil
}

// xTextBytes is text that is also bytes.
type xTextBytes []byte

func (x *xTextBytes) UnmarshalText(b []byte) error {
	*x = append(*x, b...)
	return nil
}

// xAttr takes an attribute.
type xAttr struct{ Got string }

func (x *xAttr) UnmarshalXMLAttr(a xml.Attr) error {
	x.Got += fmt.Sprintf("%q", a)
	if len(a.Value) == 5 {
		return errSelfAttr
	}
	return nil
}

// xAttrVal takes an attribute though it is not a pointer.
type xAttrVal map[string]int

func (x xAttrVal) UnmarshalXMLAttr(a xml.Attr) error {
	if len(a.Value) == 3 {
		return errSelfAttr
	}
	return nil
}

type xEmb struct {
	A string `xml:"a"`
	B int8   `xml:"b,attr"`
	C string `xml:"c>d"`
}

type XEmb2 struct {
	XMLName xml.Name `xml:"a"`
	A       []int16  `xml:"a"`
	E       string   `xml:"e"`
	XEmb3
}

type XEmb3 struct {
	E  []string `xml:"e"`
	F  *bool    `xml:"x1"`
	Un uint16   `xml:"b"`
}

type xNamed struct {
	XMLName xml.Name `xml:"a"`
	Text    string   `xml:",chardata"`
}

type xNamed2 struct {
	XMLName xml.Name `xml:"u b"`
	A       *xNamed
	Any     []interface{} `xml:",any"`
}

type xNamed3 struct {
	XMLName string
	Name    xml.Name   `xml:"a"`
	Names   []xml.Name `xml:"b"`
	C       *xNamed    `xml:"a>a"`
}

type xNum struct {
	A  uint8     `xml:"a"`
	B  []uint64  `xml:"b"`
	C  float32   `xml:"c"`
	D  []float64 `xml:"d"`
	E  int       `xml:"e"`
	F  uint      `xml:"x1"`
	An uint32    `xml:"a,attr"`
	Af float32   `xml:"b,attr"`
	Ab *bool     `xml:"c,attr"`
	Ap []byte    `xml:"d,attr"`
	As *string   `xml:"Name,attr"`
	I  uintptr   `xml:"Name"`
}

type xSelves struct {
	A  xSelf      `xml:"a"`
	B  *xSelf     `xml:"b"`
	C  []xSelf    `xml:"c"`
	D  []*xSelf   `xml:"d"`
	E  xText      `xml:"e"`
	F  []xText    `xml:"x1"`
	G  xTextVal   `xml:"d"`
	H  xVal       `xml:"Name>a"`
	At xAttr      `xml:"a,attr"`
	Bt *xAttr     `xml:"b,attr"`
	Ct xAttrVal   `xml:"c,attr"`
	Dt xText      `xml:"d,attr"`
	Et xTextVal   `xml:"Name,attr"`
	T  xTextBytes `xml:",chardata"`
	X  xSelf      `xml:",any"`
}

type xSelves2 struct {
	A     []*xSelf `xml:"a>b"`
	B     xSelf    `xml:"a>a"`
	C     xTextVal `xml:",chardata"`
	Com   []byte   `xml:",comment"`
	Inner []byte   `xml:",innerxml"`
	Any   []xSelf  `xml:",any"`
}

type xIface struct {
	A interface{}  `xml:"a"`
	B interface{}  `xml:"b"`
	C *interface{} `xml:"c"`
	D interface{}  `xml:",any"`
}

type xEmbs struct {
	XEmb2
	*XEmb3
	xEmb
	A2 string `xml:"a>b>c"`
}

type xEmbs2 struct {
	*XEmb2
	E string `xml:"e"`
	// text and comments twice: the first is used
	T1 string `xml:",chardata"`
	T2 string `xml:",chardata"`
	C1 []byte `xml:",comment"`
	I1 []byte `xml:",innerxml"`
	I2 string `xml:",innerxml"`
}

type xPaths struct {
	A string   `xml:"a>b>c"`
	B []string `xml:"a>b>a"`
	C []string `xml:"a>a"`
	D *struct {
		A   string `xml:"a"`
		Inn string `xml:",innerxml"`
	} `xml:"b>a"`
	E string   `xml:">a"`
	F []string `xml:"u c"`
	G string   `xml:"-"`
	H string   `xml:"d,omitempty"`
}

type xAttrs struct {
	A *int64     `xml:"a,attr"`
	B *xText     `xml:"b,attr"`
	C xTextVal   `xml:"c,attr"`
	D *xAttr     `xml:"d,attr"`
	N xAttrVal   `xml:"Name,attr"`
	S *xAttrs    `xml:"a"`
	T []*xAttrs  `xml:",any"`
	P **string   `xml:"b"`
	X xTextBytes `xml:",chardata"`
}

// types that are refused
type xBad1 struct {
	A string `xml:"a>b"`
	B string `xml:"a"`
}

type xBad2 struct {
	A string `xml:"a,attr,chardata"`
}

type xBad3 struct {
	A string `xml:"a>"`
}

type xBad4 struct {
	A string `xml:"u "`
}

type xBad5 struct {
	A string `xml:"a>b,attr"`
	B string `xml:"b"`
}

type xBad6 struct {
	A chan int       `xml:"a"`
	B func()         `xml:"b"`
	C map[string]int `xml:"c"`
	D complex64      `xml:"a,attr"`
}

type xBad7 struct {
	A xNamed `xml:"b"`
}

type xBad8 struct {
	A string `xml:",chardata,omitempty"`
	B struct {
		XMLName int `xml:",attr"`
	}
}

type xDeepBad struct {
	A []xBad1 `xml:"a"`
	B *xBad2  `xml:"b"`
	C xBad3   `xml:"c"`
	D xBad4   `xml:"d"`
	E xBad5   `xml:"e"`
	F xBad8   `xml:"x1"`
	G xBad7   `xml:",any"`
}

var xmlTargets = []reflect.Type{
	reflect.TypeOf(xmlTarget{}), reflect.TypeOf(xmlTarget2{}), reflect.TypeOf(xSelves{}), reflect.TypeOf(xSelves2{}), reflect.TypeOf(xAttrs{}),
	reflect.TypeOf(xNum{}), reflect.TypeOf(xIface{}), reflect.TypeOf(xEmbs{}), reflect.TypeOf(xEmbs2{}), reflect.TypeOf(xPaths{}),
	reflect.TypeOf(xNamed{}), reflect.TypeOf(xNamed2{}), reflect.TypeOf(xNamed3{}), reflect.TypeOf(xSelf{}), reflect.TypeOf(xText("")),
	reflect.TypeOf(xVal{}), reflect.TypeOf(xTextVal{}),
	reflect.TypeOf(xBad1{}), reflect.TypeOf(xBad2{}), reflect.TypeOf(xBad3{}), reflect.TypeOf(xBad4{}), reflect.TypeOf(xBad5{}), reflect.TypeOf(xBad6{}), reflect.TypeOf(xBad7{}), reflect.TypeOf(xBad8{}), reflect.TypeOf(xDeepBad{}),
	reflect.TypeOf(""), reflect.TypeOf(int32(0)), reflect.TypeOf([]string{}), reflect.TypeOf([]byte{}), reflect.TypeOf([]*xmlTarget2{}), reflect.TypeOf((*string)(nil)), reflect.TypeOf((*xSelf)(nil)), reflect.TypeOf([][]byte{}), reflect.TypeOf(xml.Name{}),
}

// newXMLTarget makes a new value to decode into, and with it what interfaces in it hold.
func newXMLTarget(t *tape) interface{} {
	k := t.Int(len(xmlTargets))
	v := reflect.New(xmlTargets[k])
	switch x := v.Interface().(type) {
	case *xIface:
		x.A = &xmlTarget2{}
		x.B = new(string)
		x.D = &xSelf{}
		if t.Int(2) == 1 {
			x.D = "kept"
			var p *xmlTarget
			x.B = p
		}
	case *[]string:
		*x = make([]string, 1, 1+t.Int(3))
	}
	return v.Interface()
}
