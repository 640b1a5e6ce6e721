// Package xmlm models xml.Unmarshal: the tokens come from the real encoding/xml
// decoder, executed symbolically; only the reflection-driven assignment to Go
// values is the engine's. The native build used for replays runs the real
// xml.Unmarshal.
package xmlm

import (
	"bytes"
	"encoding/xml"
)

// Node is an element.
type Node struct {
	Name  string
	Attrs []Attr
	Text  string // the character data directly inside
	Kids  []*Node
}

// Attr is an attribute.
type Attr struct{ Name, Value string }

// Parse reads the first element of a document.
func Parse(data []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	for {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		if s, ok := t.(xml.StartElement); ok {
			return element(d, s)
		}
	}
}

func element(d *xml.Decoder, s xml.StartElement) (*Node, error) {
	n := &Node{Name: s.Name.Local}
	for _, a := range s.Attr {
		n.Attrs = append(n.Attrs, Attr{a.Name.Local, a.Value})
	}
	for {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			k, err := element(d, t)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
		case xml.CharData:
			n.Text += string(t)
		case xml.EndElement:
			return n, nil
		}
	}
}
