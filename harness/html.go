package main

import (
	"fmt"
	"html"
	"strings"
)

// node of an HTML document.
type node struct {
	tag      string // "" for text
	attrs    [][2]string
	text     string
	children []*node
	parent   *node
}

var voidTags = map[string]bool{"input": true, "br": true, "wbr": true, "meta": true, "link": true, "img": true, "hr": true}

// parseHTML parses a document whose elements are all closed. Comments and the
// doctype are left out.
func parseHTML(s string) (*node, error) {
	root := &node{tag: "#root"}
	cur := root
	for s != "" {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			i = len(s)
		}
		if i > 0 {
			// A '<' that starts no tag is text.
			cur.children = append(cur.children, &node{text: html.UnescapeString(s[:i]), parent: cur})
			s = s[i:]
			continue
		}
		switch {
		case strings.HasPrefix(s, "<!--"):
			j := strings.Index(s, "-->")
			if j < 0 {
				return nil, fmt.Errorf("open comment")
			}
			s = s[j+3:]
		case strings.HasPrefix(s, "<!"):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return nil, fmt.Errorf("open declaration")
			}
			s = s[j+1:]
		case strings.HasPrefix(s, "</"):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return nil, fmt.Errorf("open end tag")
			}
			name := strings.ToLower(strings.TrimSpace(s[2:j]))
			if cur.tag != name {
				return nil, fmt.Errorf("</%s> in <%s>", name, cur.tag)
			}
			cur = cur.parent
			s = s[j+1:]
		case len(s) > 1 && (s[1] >= 'a' && s[1] <= 'z' || s[1] >= 'A' && s[1] <= 'Z'):
			n := &node{parent: cur}
			j := 1
			for j < len(s) && !strings.ContainsRune(" \t\n\r/>", rune(s[j])) {
				j++
			}
			n.tag = strings.ToLower(s[1:j])
			s = s[j:]
			selfClosed := false
			for {
				s = strings.TrimLeft(s, " \t\n\r")
				if s == "" {
					return nil, fmt.Errorf("open tag %s", n.tag)
				}
				if s[0] == '>' {
					s = s[1:]
					break
				}
				if s[0] == '/' {
					selfClosed = true
					s = s[1:]
					continue
				}
				j := 0
				for j < len(s) && !strings.ContainsRune(" \t\n\r/>=", rune(s[j])) {
					j++
				}
				if j == 0 {
					return nil, fmt.Errorf("attribute of %s: %q", n.tag, clip(s, 30))
				}
				name, val := strings.ToLower(s[:j]), ""
				s = strings.TrimLeft(s[j:], " \t\n\r")
				if s != "" && s[0] == '=' {
					s = strings.TrimLeft(s[1:], " \t\n\r")
					if s == "" {
						return nil, fmt.Errorf("open attribute")
					}
					if q := s[0]; q == '"' || q == '\'' {
						k := strings.IndexByte(s[1:], q)
						if k < 0 {
							return nil, fmt.Errorf("open attribute value")
						}
						val, s = s[1:k+1], s[k+2:]
					} else {
						k := strings.IndexAny(s, " \t\n\r>")
						if k < 0 {
							return nil, fmt.Errorf("open attribute value")
						}
						val, s = s[:k], s[k:]
					}
				}
				n.attrs = append(n.attrs, [2]string{name, html.UnescapeString(val)})
			}
			cur.children = append(cur.children, n)
			switch {
			case n.tag == "script" || n.tag == "style" || n.tag == "title" || n.tag == "textarea":
				end := strings.Index(strings.ToLower(s), "</"+n.tag)
				if end < 0 {
					return nil, fmt.Errorf("open %s", n.tag)
				}
				raw := s[:end]
				if n.tag == "title" || n.tag == "textarea" {
					raw = html.UnescapeString(raw)
				}
				n.children = []*node{{text: raw, parent: n}}
				k := strings.IndexByte(s[end:], '>')
				if k < 0 {
					return nil, fmt.Errorf("open %s", n.tag)
				}
				s = s[end+k+1:]
			case voidTags[n.tag] || selfClosed:
			default:
				cur = n
			}
		default:
			cur.children = append(cur.children, &node{text: "<", parent: cur})
			s = s[1:]
		}
	}
	if cur != root {
		return nil, fmt.Errorf("<%s> is not closed", cur.tag)
	}
	return root, nil
}

func (n *node) attr(name string) (string, bool) {
	for _, a := range n.attrs {
		if a[0] == name {
			return a[1], true
		}
	}
	return "", false
}

func (n *node) class(c string) bool {
	v, _ := n.attr("class")
	for _, f := range strings.Fields(v) {
		if f == c {
			return true
		}
	}
	return false
}

// all the descendants f accepts, in document order.
func (n *node) all(f func(*node) bool) []*node {
	var out []*node
	for _, c := range n.children {
		if f(c) {
			out = append(out, c)
		}
		out = append(out, c.all(f)...)
	}
	return out
}

func (n *node) tags(tag string) []*node { return n.all(func(n *node) bool { return n.tag == tag }) }

func (n *node) id(id string) *node {
	for _, c := range n.all(func(n *node) bool { v, ok := n.attr("id"); return ok && v == id }) {
		return c
	}
	return nil
}

// content is the text of all descendants.
func (n *node) content() string {
	if n.tag == "" {
		return n.text
	}
	if n.tag == "script" || n.tag == "style" {
		return ""
	}
	var b strings.Builder
	for _, c := range n.children {
		b.WriteString(c.content())
	}
	return b.String()
}

// skeleton is the structure: elements and attribute names.
func (n *node) skeleton(b *strings.Builder) {
	if n.tag == "" || n.tag == "wbr" {
		return
	}
	b.WriteString("<" + n.tag)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0])
	}
	b.WriteString(">")
	for _, c := range n.children {
		c.skeleton(b)
	}
	b.WriteString("</>\n")
}
