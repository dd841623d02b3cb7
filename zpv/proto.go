package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

// A parser for the part of the .proto language that the repository's schemas use.

type Schema struct {
	File     string
	Package  string
	Syntax   string
	Messages []*SMessage // nested ones too, with Parent
	Enums    []*SEnum
}

type SMessage struct {
	Name   string // with the outer message, "A.B"
	Fields []*SField
}

type SEnum struct {
	Name   string
	Values []SEnumValue
}

type SEnumValue struct {
	Name   string
	Number int64
}

type SField struct {
	Name    string
	Number  int64
	Label   string // optional, required, repeated
	Type    string // scalar name, "message" or "enum"
	TypName string // of a message or enum as written
	Default string
	HasDef  bool
	Packed  string
	Oneof   string
}

type protoParser struct {
	toks []string
	pos  int
	file string
}

func protoTokens(s string) ([]string, error) {
	var toks []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			toks = append(toks, s[i:j+1])
			i = j + 1
		case c == '_' || c == '.' || c == '-' || unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '.' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		default:
			toks = append(toks, string(c))
			i++
		}
	}
	return toks, nil
}

func parseProto(file string) (sc *Schema, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	toks, err := protoTokens(string(b))
	if err != nil {
		return nil, err
	}
	p := &protoParser{toks: toks, file: file}
	sc = &Schema{File: file, Syntax: "proto2"}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s: %s", file, s)
				return
			}
			panic(r)
		}
	}()
	for p.pos < len(p.toks) {
		switch t := p.next(); t {
		case ";":
		case "syntax":
			p.want("=")
			sc.Syntax = strings.Trim(p.next(), `"'`)
			p.want(";")
		case "package":
			sc.Package = p.next()
			p.want(";")
		case "import", "option":
			p.skip()
		case "message":
			p.message(sc, "")
		case "enum":
			p.enum(sc, "")
		default:
			panic("unexpected " + t)
		}
	}
	// Types of fields that are not scalars.
	for _, m := range sc.Messages {
		for _, f := range m.Fields {
			if f.Type == "" {
				f.Type = sc.kindOf(m.Name, f.TypName)
			}
		}
	}
	return sc, nil
}

func (p *protoParser) next() string {
	if p.pos >= len(p.toks) {
		panic("unexpected end")
	}
	p.pos++
	return p.toks[p.pos-1]
}

func (p *protoParser) peek() string {
	if p.pos >= len(p.toks) {
		return ""
	}
	return p.toks[p.pos]
}

func (p *protoParser) want(s string) {
	if t := p.next(); t != s {
		panic("expected " + s + " got " + t)
	}
}

// skip skips to the end of the statement.
func (p *protoParser) skip() {
	depth := 0
	for {
		switch p.next() {
		case "{", "[":
			depth++
		case "}", "]":
			depth--
			if depth == 0 && p.peek() != ";" {
				return
			}
		case ";":
			if depth == 0 {
				return
			}
		}
	}
}

var protoScalars = map[string]bool{"double": true, "float": true, "int32": true, "int64": true, "uint32": true, "uint64": true,
	"sint32": true, "sint64": true, "fixed32": true, "fixed64": true, "sfixed32": true, "sfixed64": true, "bool": true, "string": true, "bytes": true}

func (p *protoParser) message(sc *Schema, outer string) {
	m := &SMessage{Name: outer + p.next()}
	sc.Messages = append(sc.Messages, m)
	p.want("{")
	p.body(sc, m, "")
}

func (p *protoParser) body(sc *Schema, m *SMessage, oneof string) {
	for {
		t := p.next()
		switch t {
		case "}":
			return
		case ";":
		case "message":
			p.message(sc, m.Name+".")
		case "enum":
			p.enum(sc, m.Name+".")
		case "extensions", "reserved", "option":
			p.skip()
		case "extend", "group", "map":
			panic(t + " is not supported")
		case "oneof":
			n := p.next()
			p.want("{")
			p.body(sc, m, n)
		default:
			f := &SField{Label: "optional", Oneof: oneof}
			if t == "optional" || t == "required" || t == "repeated" {
				f.Label = t
				t = p.next()
			}
			if protoScalars[t] {
				f.Type = t
			} else {
				f.TypName = t
			}
			f.Name = p.next()
			p.want("=")
			n, err := strconv.ParseInt(p.next(), 0, 64)
			if err != nil {
				panic("field number")
			}
			f.Number = n
			if p.peek() == "[" {
				p.next()
				for {
					name := p.next()
					if name == "(" {
						for p.next() != ")" {
						}
					}
					p.want("=")
					v := p.next()
					switch name {
					case "default":
						f.Default, f.HasDef = v, true
					case "packed":
						f.Packed = v
					}
					if p.next() == "]" {
						break
					}
				}
			}
			p.want(";")
			m.Fields = append(m.Fields, f)
		}
	}
}

func (p *protoParser) enum(sc *Schema, outer string) {
	e := &SEnum{Name: outer + p.next()}
	sc.Enums = append(sc.Enums, e)
	p.want("{")
	for {
		t := p.next()
		switch t {
		case "}":
			return
		case ";":
		case "option", "reserved":
			p.skip()
		default:
			p.want("=")
			n, err := strconv.ParseInt(p.next(), 0, 64)
			if err != nil {
				panic("enum value")
			}
			e.Values = append(e.Values, SEnumValue{t, n})
			if p.peek() == "[" {
				p.skip()
			} else {
				p.want(";")
			}
		}
	}
}

// resolve returns the full name (in this file) of the type that is called name
// in the scope.
func (sc *Schema) resolve(scope, name string) (string, string) {
	if strings.HasPrefix(name, ".") {
		name = strings.TrimPrefix(name[1:], sc.Package+".")
		scope = ""
	}
	for {
		full := name
		if scope != "" {
			full = scope + "." + name
		}
		for _, m := range sc.Messages {
			if m.Name == full {
				return full, "message"
			}
		}
		for _, e := range sc.Enums {
			if e.Name == full {
				return full, "enum"
			}
		}
		if scope == "" {
			return name, ""
		}
		if i := strings.LastIndex(scope, "."); i >= 0 {
			scope = scope[:i]
		} else {
			scope = ""
		}
	}
}

func (sc *Schema) kindOf(scope, name string) string {
	_, k := sc.resolve(scope, name)
	return k
}

// goCamel is the Go name of a field: the letters and digits of its name, with
// every part beginning with an upper case letter.
func goCamel(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			up = true
			continue
		}
		if up {
			r = unicode.ToUpper(r)
		}
		up = false
		b.WriteRune(r)
	}
	return b.String()
}
