package props

import (
	"regexp"
	"strings"
)

// classes of the bytes of a template
const (
	mText    = 't'
	mOpen    = 'o' // {{ and }}
	mKeyword = 'k'
	mCode    = 'c'
	mString  = 's'
	mComment = 'm'
)

// reOddKey finds brackets that are accepted as the key of an object.
var reOddKey = regexp.MustCompile(`[{,]\s*(\{\{|\}\}|[()\[\]{}])\s*:`)

// scan classifies the bytes of a valid template.
func scan(src string) []byte {
	mask, _ := scanAll(src)
	return mask
}

// scanAll also tells what is not closed, for which there is no valid template
// that looks like this.
func scanAll(src string) (mask []byte, open string) {
	out := make([]byte, len(src))
	blocks, ends, known := 0, 0, true
	// brackets checks the code of a block or argument list.
	brackets := func(from, to int) {
		if odd := src[from:to]; strings.Contains(odd, "{{--") || reOddKey.MatchString(odd) {
			known = false
		}
		var stack []byte
		for j := from; j < to && open == ""; j++ {
			if out[j] != mCode {
				continue
			}
			switch c := src[j]; c {
			case '(', '[', '{':
				stack = append(stack, c)
			case ')', ']', '}':
				n := len(stack) - 1
				if n < 0 || strings.IndexByte("()[]{}", stack[n])+1 != strings.IndexByte("()[]{}", c) {
					open = "brackets that do not match"
					return
				}
				stack = stack[:n]
			}
		}
		if len(stack) > 0 {
			open = "an unclosed bracket"
		}
	}
	i := 0
	put := func(n int, c byte) {
		for ; n > 0 && i < len(src); n-- {
			out[i] = c
			i++
		}
	}
	str := func() {
		q := src[i]
		put(1, mString)
		for i < len(src) && src[i] != q {
			if src[i] == '\\' && i+1 < len(src) && src[i+1] == q {
				put(1, mString)
			}
			put(1, mString)
		}
		if i >= len(src) {
			open = "an unclosed string"
		}
		put(1, mString)
	}
	for i < len(src) {
		s := src[i:]
		switch {
		case strings.HasPrefix(s, `\{{`):
			put(3, mText)
		case s[0] == '\\' && keyword(s[1:]) != "":
			put(2+len(keyword(s[1:])), mText)
		case strings.HasPrefix(s, "{{--"):
			n := strings.Index(s[4:], "--}}")
			if n < 0 {
				n = len(s)
				open = "an unclosed comment"
				if strings.HasPrefix(s, "{{--}}") || strings.HasPrefix(s, "{{---}}") {
					open, known = "", false // perhaps a comment
				}
			}
			put(4+n+4, mComment)
		case strings.HasPrefix(s, "{{"):
			put(2, mOpen)
			depth, from := 0, i
			for i < len(src) {
				switch {
				case src[i] == '"' || src[i] == '\'':
					str()
					continue
				case src[i] == '{':
					depth++
				case src[i] == '}' && depth > 0:
					depth--
				case strings.HasPrefix(src[i:], "}}"):
					put(2, mOpen)
					depth = -1
				}
				if depth < 0 {
					break
				}
				put(1, mCode)
			}
			brackets(from, i)
			if depth >= 0 && open == "" {
				open = "unclosed code"
			}
		case keyword(s) != "":
			k := keyword(s)
			put(1+len(k), mKeyword)
			switch k {
			case "if", "each", "for":
				blocks++
			case "end":
				ends++
			case "elseif":
				known = known && strings.HasPrefix(src[i:], "(") // alone it is ignored
			}
			rest := strings.TrimLeft(src[i:], " \t\r\n")
			if k == "else" || k == "end" || k == "break" || k == "continue" || !strings.HasPrefix(rest, "(") || k == "slot" && src[i] != '(' {
				continue
			}
			depth, from, before := 0, i, open
			for i < len(src) {
				switch src[i] {
				case '"', '\'':
					str()
					continue
				case '(':
					depth++
				case ')':
					depth--
				}
				put(1, mCode)
				if depth == 0 && src[i-1] == ')' {
					break
				}
			}
			brackets(from, i)
			if depth > 0 && open == "" {
				open = "unclosed arguments"
			}
			if k == "elseif" {
				open = before // alone it is ignored
			}
		default:
			put(1, mText)
		}
	}
	if !known {
		open = ""
	} else if open == "" && ends < blocks {
		open = "an unclosed block"
	}
	return out, open
}

// lex splits a valid template into its tokens; whitespace in code is dropped.
func lex(src string) []string {
	m := scan(src)
	var out []string
	for i := 0; i < len(src); {
		j := i + 1
		switch m[i] {
		case mCode:
			if word1(src[i]) {
				for j < len(src) && m[j] == mCode && word1(src[j]) {
					j++
				}
			} else if strings.IndexByte(" \t\r\n", src[i]) >= 0 {
				i++
				continue
			} else if j < len(src) && m[j] == mCode && strings.Contains(" ++ -- == != <= >= ", " "+src[i:j+1]+" ") {
				j++
			}
		case mOpen:
			j++
		case mString:
			for j < len(src) && m[j] == mString && (src[j-1] == '\\' || src[j] != src[i]) {
				j++
			}
			if j < len(src) && m[j] == mString {
				j++
			}
		case mKeyword:
			j = i + 1 + len(keyword(src[i:]))
		default:
			for j < len(src) && m[j] == m[i] {
				j++
			}
		}
		out = append(out, src[i:j])
		i = j
	}
	return out
}

func word1(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
