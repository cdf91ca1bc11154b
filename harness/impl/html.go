package impl

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/net/html"
)

var flowTags = map[string]bool{
	"a": true, "span": true, "em": true, "strong": true, "sup": true, "sub": true, "code": true, "img": true,
	"b": true, "i": true, "x-flow": true,
}

var voidTags = map[string]bool{"img": true, "meta": true, "br": true, "link": true, "hr": true, "input": true}

// HTML is a list of tags and texts, with insignificant whitespace removed:
// whitespace is collapsed outside of <pre> and <code>, and dropped next to
// block-level tags.
func HTML(src string) string {
	z := html.NewTokenizer(strings.NewReader(src))
	type tok struct {
		text  bool
		block bool
		s     string
	}
	var toks []tok
	keep := 0
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case html.TextToken:
			s := t.Data
			if keep == 0 {
				s = collapse(s)
			}
			if s == "" {
				continue
			}
			if n := len(toks); n > 0 && toks[n-1].text {
				toks[n-1].s += s
				if keep == 0 {
					toks[n-1].s = collapse(toks[n-1].s)
				}
				continue
			}
			toks = append(toks, tok{text: true, s: s})
		case html.StartTagToken, html.SelfClosingTagToken:
			s := "<" + t.Data
			sort.Slice(t.Attr, func(i, j int) bool { return t.Attr[i].Key < t.Attr[j].Key })
			for _, a := range t.Attr {
				v := a.Val
				if a.Key == "href" || a.Key == "src" {
					v = NormURL(v)
				}
				s += fmt.Sprintf(" %s=%q", a.Key, v)
			}
			s += ">"
			toks = append(toks, tok{s: s, block: !flowTags[t.Data]})
			if t.Data == "pre" || t.Data == "code" {
				keep++
			}
		case html.EndTagToken:
			if voidTags[t.Data] {
				continue
			}
			toks = append(toks, tok{s: "</" + t.Data + ">", block: !flowTags[t.Data]})
			if (t.Data == "pre" || t.Data == "code") && keep > 0 {
				keep--
			}
		case html.CommentToken:
			toks = append(toks, tok{s: "<!--" + t.Data + "-->"})
		case html.DoctypeToken:
			toks = append(toks, tok{s: "<!doctype " + t.Data + ">", block: true})
		}
	}
	var b strings.Builder
	inPre := 0
	for i, t := range toks {
		s := t.s
		if strings.HasPrefix(s, "<pre") && !t.text {
			inPre++
		}
		if s == "</pre>" && !t.text {
			inPre--
		}
		if t.text {
			if i == 0 || toks[i-1].block && !(inPre > 0 && strings.HasPrefix(toks[i-1].s, "<pre")) {
				s = strings.TrimLeft(s, " \t\r\n\f")
			}
			if i == len(toks)-1 || toks[i+1].block && !(inPre > 0 && toks[i+1].s == "</pre>") {
				s = strings.TrimRight(s, " \t\r\n\f")
			}
			if s == "" {
				continue
			}
		}
		if t.text {
			b.WriteString(fmt.Sprintf("%q\n", s))
		} else {
			b.WriteString(s + "\n")
		}
	}
	return b.String()
}

func collapse(s string) string {
	var b strings.Builder
	sp := false
	for _, r := range s {
		if r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f' {
			if !sp {
				b.WriteByte(' ')
			}
			sp = true
			continue
		}
		sp = false
		b.WriteRune(r)
	}
	return b.String()
}

// NormURL percent-encodes bytes which have no meaning in a URL.
func NormURL(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case isUnreserved(c):
			b.WriteByte(c)
		case c == '%' && i+2 < len(s) && isHex(s[i+1]) && isHex(s[i+2]):
			n, _ := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if d := byte(n); isUnreserved(d) || strings.IndexByte("!$&'()*+,;=@", d) >= 0 {
				// as good as the character itself
				b.WriteByte(d)
			} else {
				b.WriteString(strings.ToUpper(s[i : i+3]))
			}
			i += 2
		case strings.IndexByte("!#$&'()*+,/:;=?@[]", c) >= 0:
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func isUnreserved(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~", c) >= 0
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
