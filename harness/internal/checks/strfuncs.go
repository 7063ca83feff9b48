package checks

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verifharness/internal/core"
)

// refUpper and refLower map every character on its own.
func refMap(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, r := range s { // what is not UTF-8 reads as the replacement character
		b.WriteRune(f(r))
	}
	return b.String()
}

// refFirst maps the first character and keeps the rest.
func refFirst(s string, f func(rune) rune) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 || r == utf8.RuneError && n == 1 {
		return s
	}
	return string(f(r)) + s[n:]
}

func asciiUpper(b byte) bool { return b >= 'A' && b <= 'Z' }
func asciiLower(b byte) bool { return b >= 'a' && b <= 'z' }

// refSnake puts an underscore before a capital that starts a word, that is,
// one followed by small letters, then before a capital that follows a small
// letter or a digit, and makes everything lower case.
func refSnake(s string) string {
	var one strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		j := i + n
		if r != '\n' && j+1 < len(s) && asciiUpper(s[j]) && asciiLower(s[j+1]) {
			e := j + 1
			for e < len(s) && asciiLower(s[e]) {
				e++
			}
			one.WriteString(s[i:j] + "_" + s[j:e])
			i = e
			continue
		}
		one.WriteString(s[i:j])
		i = j
	}
	t := one.String()
	var two strings.Builder
	for i := 0; i < len(t); i++ {
		two.WriteByte(t[i])
		if i+1 < len(t) && (asciiLower(t[i]) || t[i] >= '0' && t[i] <= '9') && asciiUpper(t[i+1]) {
			two.WriteByte('_')
			two.WriteByte(t[i+1])
			i++
		}
	}
	return strings.ToLower(two.String())
}

// refReplace replaces every occurrence from the left.
func refReplace(s, old, with string) string {
	var b strings.Builder
	if old == "" {
		b.WriteString(with)
		for len(s) > 0 {
			_, n := utf8.DecodeRuneInString(s)
			b.WriteString(s[:n] + with)
			s = s[n:]
		}
		return b.String()
	}
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], old) {
			b.WriteString(with)
			i += len(old)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// strFuncs are the functions and what they are to give; o and w are two more strings.
var strFuncs = []struct {
	name, expr string
	ref        func(s, o, w string) string
	sprig      bool
}{
	{"up", "up $s", func(s, o, w string) string { return refMap(s, unicode.ToUpper) }, false},
	{"down", "down $s", func(s, o, w string) string { return refMap(s, unicode.ToLower) }, false},
	{"upFirst", "upFirst $s", func(s, o, w string) string { return refFirst(s, unicode.ToUpper) }, false},
	{"downFirst", "downFirst $s", func(s, o, w string) string { return refFirst(s, unicode.ToLower) }, false},
	{"replace", "replace $s $o $w", refReplace, false},
	{"snake", "snake $s", func(s, o, w string) string { return refSnake(s) }, false},
	{"pipe", "$s | upFirst | snake | up", func(s, o, w string) string { return refMap(refSnake(refFirst(s, unicode.ToUpper)), unicode.ToUpper) }, false},
	{"upper", "upper $s", func(s, o, w string) string { return refMap(s, unicode.ToUpper) }, true},
	{"lower", "lower $s", func(s, o, w string) string { return refMap(s, unicode.ToLower) }, true},
	{"b64enc", "b64enc $s", func(s, o, w string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }, true},
	{"sha256sum", "sha256sum $s", func(s, o, w string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }, true},
	{"repeat", "repeat 3 $s", func(s, o, w string) string { return s + s + s }, true},
	{"quote", "quote $s", func(s, o, w string) string { return strconv.Quote(s) }, true},
	{"squote", "squote $s", func(s, o, w string) string { return "'" + s + "'" }, true},
	{"default", "default $o $s", func(s, o, w string) string {
		if s == "" {
			return o
		}
		return s
	}, true},
	{"ternary", "ternary $o $w (contains $o $s)", func(s, o, w string) string {
		if strings.Contains(s, o) {
			return o
		}
		return w
	}, true},
	{"hasPrefix", "hasPrefix $o $s", func(s, o, w string) string { return fmt.Sprint(len(s) >= len(o) && s[:len(o)] == o) }, true},
	{"hasSuffix", "hasSuffix $o $s", func(s, o, w string) string { return fmt.Sprint(len(s) >= len(o) && s[len(s)-len(o):] == o) }, true},
	{"trimSuffix", "trimSuffix $o $s", func(s, o, w string) string { return strings.TrimSuffix(s, o) }, true},
	{"trimPrefix", "trimPrefix $o $s", func(s, o, w string) string { return strings.TrimPrefix(s, o) }, true},
	{"trim", "trim $s", func(s, o, w string) string { return strings.TrimFunc(s, unicode.IsSpace) }, true},
	{"indent", "indent 2 $s", func(s, o, w string) string { return "  " + refReplace(s, "\n", "\n  ") }, true},
	{"join", "list $s $o $w | join \"-\"", func(s, o, w string) string { return s + "-" + o + "-" + w }, true},
	{"dict", "get (dict \"k\" $s) \"k\"", func(s, o, w string) string { return s }, true},
	{"cat", "cat $s $o", func(s, o, w string) string { return s + " " + o }, true},
	{"len", "len $s", func(s, o, w string) string { return fmt.Sprint(len(s)) }, true},
	{"add", "add (len $s) 1 2", func(s, o, w string) string { return fmt.Sprint(len(s) + 3) }, true},
}

// sprigExprs are put through sprig itself as well.
var sprigExprs = []string{
	`abbrev 12 $s`,
	`abbrevboth 3 12 $s`,
	`trunc 3 $s`,
	`trunc -3 $s`,
	`trim $s`,
	`upper $s`,
	`lower $s`,
	`title $s`,
	`untitle $s`,
	`substr 0 (len $s) $s`,
	`trimall $o $s`,
	`trimAll $o $s`,
	`trimSuffix $o $s`,
	`trimPrefix $o $s`,
	`nospace $s`,
	`initials $s`,
	`swapcase $s`,
	`snakecase $s`,
	`camelcase $s`,
	`kebabcase $s`,
	`wrap 5 $s`,
	`wrapWith 5 "|" $s`,
	`repeat 2 $s`,
	`contains $o $s`,
	`hasPrefix $o $s`,
	`hasSuffix $o $s`,
	`quote $s $o`,
	`squote $s $o`,
	`cat $s $o $w`,
	`indent 3 $s`,
	`nindent 3 $s`,
	`plural $s $o (len $s)`,
	`sha1sum $s`,
	`sha256sum $s`,
	`adler32sum $s`,
	`toString $s`,
	`atoi $s`,
	`int64 $s`,
	`int $s`,
	`float64 $s`,
	`seq 1 (len $s)`,
	`toDecimal "0755"`,
	`split $o $s`,
	`splitList $o $s`,
	`splitn $o 2 $s`,
	`splitList " " $s | toStrings`,
	`until (len $s)`,
	`untilStep 1 (len $s) 2`,
	`add1 (len $s)`,
	`add (len $s) (len $o) 1`,
	`sub (len $s) (len $o)`,
	`div (len $s) 2`,
	`mod (len $s) 3`,
	`mul (len $s) 2 3`,
	`add1f 1.5`,
	`addf 1.5 (len $s)`,
	`subf 1.5 (len $s)`,
	`divf (len $s) 4`,
	`mulf 1.5 (len $s)`,
	`biggest (len $s) (len $o)`,
	`max (len $s) (len $o) 2`,
	`min (len $s) (len $o) 2`,
	`maxf (len $s) 2.5`,
	`minf (len $s) 2.5`,
	`ceil 1.5`,
	`floor 1.5`,
	`round 1.2345 2`,
	`list $s $o $w | join "-"`,
	`list $s $o $w | sortAlpha`,
	`default $o $s`,
	`empty $s`,
	`coalesce $s $o $w`,
	`all $s $o`,
	`any $s $o`,
	`list $s $o "" $w | compact`,
	`list $s "" | mustCompact`,
	`toJson $s | fromJson`,
	`toJson $s`,
	`toPrettyJson (dict "a" $s)`,
	`toRawJson $s`,
	`toJson $s | mustFromJson`,
	`mustToJson $s`,
	`mustToPrettyJson $s`,
	`mustToRawJson $s`,
	`ternary $o $w (eq $o $s)`,
	`deepCopy (dict "a" $s)`,
	`mustDeepCopy (list $s)`,
	`typeOf $s`,
	`typeIs "string" $s`,
	`typeIsLike "string" $s`,
	`kindOf $s`,
	`kindIs "string" $s`,
	`deepEqual $s $o`,
	`env "VERIF_ENV"`,
	`expandenv "a $VERIF_ENV b"`,
	`base $s`,
	`dir $s`,
	`clean $s`,
	`ext $s`,
	`isAbs $s`,
	`osBase $s`,
	`osClean $s`,
	`osDir $s`,
	`osExt $s`,
	`osIsAbs $s`,
	`b64enc $s`,
	`b64enc $s | b64dec`,
	`b32enc $s`,
	`b32enc $s | b32dec`,
	`tuple $s $o`,
	`list $s $o`,
	`dict "a" $s "b" $o`,
	`get (dict "k" $s) "k"`,
	`set (dict "k" $s) "k" $o`,
	`unset (dict "k" $s "l" $o) "k"`,
	`hasKey (dict "k" $s) $o`,
	`pluck "k" (dict "k" $s) (dict "k" $o)`,
	`keys (dict "k" $s)`,
	`pick (dict "k" $s "l" $o) "k"`,
	`omit (dict "k" $s "l" $o) "k"`,
	`merge (dict "k" $s) (dict "k" $o "l" $w)`,
	`mergeOverwrite (dict "k" $s) (dict "k" $o "l" $w)`,
	`mustMerge (dict "k" $s) (dict "k" $o "l" $w)`,
	`mustMergeOverwrite (dict "k" $s) (dict "k" $o "l" $w)`,
	`values (dict "k" $s)`,
	`append (list $s $o) $w`,
	`push (list $s $o) $w`,
	`mustAppend (list $s $o) $w`,
	`mustPush (list $s $o) $w`,
	`prepend (list $s $o) $w`,
	`mustPrepend (list $s $o) $w`,
	`first (list $s $o)`,
	`mustFirst (list $s $o)`,
	`rest (list $s $o)`,
	`mustRest (list $s $o)`,
	`last (list $s $o)`,
	`mustLast (list $s $o)`,
	`initial (list $s $o)`,
	`mustInitial (list $s $o)`,
	`reverse (list $s $o)`,
	`mustReverse (list $s $o)`,
	`uniq (list $s $o $s)`,
	`mustUniq (list $s $o $s)`,
	`without (list $s $o) $s`,
	`mustWithout (list $s $o) $s`,
	`has $s (list $o $w)`,
	`mustHas $s (list $o $w)`,
	`slice (list $s $o $w) 1 2`,
	`mustSlice (list $s $o $w) 1`,
	`concat (list $s) (list $o $w)`,
	`dig "a" "b" $o (dict "a" (dict "b" $s))`,
	`chunk 2 (list $s $o $w)`,
	`mustChunk 2 (list $s $o $w)`,
	`semver "1.2.3-beta.1+x"`,
	`semverCompare ">=1.2.0" "1.2.3"`,
	`regexMatch "[a-z]+" $s`,
	`mustRegexMatch "[a-z]+" $s`,
	`regexFindAll "[a-z]+" $s -1`,
	`mustRegexFindAll "[a-z]" $s 2`,
	`regexFind "[a-z]+" $s`,
	`mustRegexFind "[a-z]+" $s`,
	`regexReplaceAll "([a-z]+)" $s "<${1}>"`,
	`mustRegexReplaceAll "([a-z]+)" $s "<${1}>"`,
	`regexReplaceAllLiteral "[a-z]+" $s "${1}"`,
	`mustRegexReplaceAllLiteral "[a-z]+" $s "${1}"`,
	`regexSplit "[a-z]+" $s -1`,
	`mustRegexSplit "[a-z]+" $s 2`,
	`regexQuoteMeta $s`,
	`urlParse "http://h:80/p?q=1#f"`,
	`urlJoin (dict "scheme" "http" "host" "h" "path" "/p")`,
	`hello`,
	`toDate "2006-01-02" "2024-02-29" | date "02.01.2006"`,
	`date_in_zone "2006" (toDate "2006-01-02" "2024-02-29") "UTC"`,
	`dateInZone "2006" (toDate "2006-01-02" "2024-02-29") "UTC"`,
	`date_modify "1h" (toDate "2006-01-02" "2024-02-29")`,
	`dateModify "1h" (toDate "2006-01-02" "2024-02-29")`,
	`must_date_modify "1h" (toDate "2006-01-02" "2024-02-29")`,
	`mustDateModify "1h" (toDate "2006-01-02" "2024-02-29")`,
	`mustToDate "2006-01-02" "2024-02-29"`,
	`htmlDate (toDate "2006-01-02" "2024-02-29")`,
	`htmlDateInZone (toDate "2006-01-02" "2024-02-29") "UTC"`,
	`unixEpoch (toDate "2006-01-02" "2024-02-29")`,
	`duration (len $s)`,
	`durationRound "2h10m5s"`,
	`len $s`,
	`len (randAlphaNum 5)`,
	`len (randAlpha 5)`,
	`len (randAscii 5)`,
	`len (randNumeric 5)`,
	`len (randBytes 3)`,
	`len (shuffle $s)`,
	`len (uuidv4)`,
	`randInt 3 4`,
	`ago now | empty`,
	`kindOf now`,
}

// sprigUnused are not called: they are slow, use the network or make keys
var sprigUnused = "bcrypt htpasswd genPrivateKey derivePassword buildCustomCert genCA genCAWithKey genSelfSignedCert genSelfSignedCertWithKey genSignedCert genSignedCertWithKey encryptAES decryptAES getHostByName replace fail"

var edgeStrings = []string{"", "a", "A", "Z", "z", "ID", "userID", "UserID", "HTTPServer", "getHTTPResponseCode", "JSONData2XML", "a1B2c3", "A1", "ABC", "abc", "aB", "Ab", "AbC", "ABc", "ABcD", "already_snake", "_Leading", "Trailing_", "__X__", "X_Y", "Snake_Case", "with space", "With Space And HTTP", "new\nLine", "A\nBcd", "x\nYz", "\n", "\nAb", "tab\tAb", "ünicode", "Ünicode", "éclairAu", "ßharp", "ǆ", "ǅ", "Ǆ", "ﬁre", "İstanbul", "ıstanbul", "Σίσυφος", "ΣΑΣ", "ÿ", "Å", "ŉ", "ǰ", "ᾳ", "ⓐ", "𐐨deseret", "𐐀DESERET", "日本語", "日本Abc", "\xff", "\xffAbc", "a\xffB", "ab\xc3", "\xe2\x28\xa1Cd", "\ufffd", "\ufffdAbc", "\u200bAbc", "a\u0301Bc", "🙂Abc", "A🙂Bc", "1Ab", "12AB", "aBcDeF", "AAAAbbbbCCCC", "fooBAR", "FooBARBaz", "i", "I", "K", "ſ", "µ", "{{.X}}", "\"q\"", "`b`", "\\", "$x", "%d", "'s'", "a=b", "ⅳ", "ǲ", "ა", "Ა", "ꭰ", "Ꭰ"}

func randString(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return edgeStrings[r.Intn(len(edgeStrings))]
	case 1: // words
		var b strings.Builder
		for n := r.Intn(6); n >= 0; n-- {
			b.WriteString([]string{"User", "ID", "http", "HTTP", "x", "X", "2", "42", "_", "Id", "aB", "JSONAPI", "é", "Ü", " ", "\n", "-", "z", "Q", "Ab1"}[r.Intn(20)])
		}
		return b.String()
	case 2: // bytes
		b := make([]byte, r.Intn(12))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return string(b)
	case 3: // any characters
		var b strings.Builder
		for n := r.Intn(8); n > 0; n-- {
			c := rune(1 + r.Intn(0x10ffff))
			if r.Intn(2) == 0 {
				c = rune(1 + r.Intn(0x2fff))
			}
			b.WriteRune(c)
		}
		return b.String()
	default: // capitals, digits and small letters in any order
		b := make([]byte, r.Intn(14))
		for i := range b {
			b[i] = "aAbBzZ09_xYMn\n."[r.Intn(15)]
		}
		return string(b)
	}
}

// randReplace picks what to replace in s.
func randReplace(r *rand.Rand, s string) (old, with string) {
	switch r.Intn(4) {
	case 0:
		old = randString(r)
	default:
		if len(s) > 0 {
			i := r.Intn(len(s))
			old = s[i : i+r.Intn(min(len(s)-i, 3)+1)]
		}
	}
	return old, []string{"", "x", "_", "${1}", "$0", "\xff", old + old, randString(r)}[r.Intn(8)]
}

func init() {
	reg("C08", func(c *core.Ctx) {
		c.Rule = "a case is one string put through one function; non-trivial: distinct string"
		c.Assume = []string{"character by character case mapping is the standard library's, sprig's results are stated for a sample of its functions"}
		dir := c.Dir("m")
		core.Write(dir, map[string]string{"go.mod": "module m\n\ngo 1.24\n", "src/s.go": "package src\n\ntype I interface{ F() }\n"})
		var t strings.Builder
		t.WriteString("var zz = []string{\n{{range $k, $v := .Vars}}{{if hasPrefix \"s\" $k}}{{$s := $v}}{{$o := index $.Vars (printf \"o%s\" $k)}}{{$w := index $.Vars (printf \"w%s\" $k)}}{{printf \"%q\" $k}},{{printf \"%q\" $s}},{{printf \"%q\" $o}},{{printf \"%q\" $w}},\n")
		for _, f := range strFuncs {
			t.WriteString("{{" + f.expr + " | printf \"%v\" | printf \"%q\"}},\n")
		}
		t.WriteString("{{end}}{{end}}}\n")
		core.Write(dir, map[string]string{"t.tmpl": t.String()})
		runs, per := c.Pick(24, 250), 300
		c.Gowrap()
		type tr struct{ s, o, w string }
		core.Parallel(runs, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*31 + int64(i)))
			in := map[string]tr{}
			a := []string{"gen", "-g", "-p", "./src", "-i", "I", "-t", "t.tmpl", "-o", fmt.Sprintf("d%d/o.go", i)}
			for k := 0; k < per; k++ {
				s := randString(r)
				if i == 0 && k < len(edgeStrings) {
					s = edgeStrings[k]
				}
				o, w := randReplace(r, s)
				n := fmt.Sprintf("s%d", k)
				in[n] = tr{s, o, w}
				a = append(a, "-v", n+"="+s, "-v", "o"+n+"="+o, "-v", "w"+n+"="+w)
			}
			res := c.Gen(dir, a...)
			if res.Code != 0 {
				c.Finding("refused", "gowrap refuses a template that applies the functions to strings:\n"+core.Clip(res.Err, 1500), map[string]string{"template.txt": t.String(), "args.txt": fmt.Sprintf("%q", a)})
				return
			}
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("d%d/o.go", i)))
			core.Must(err, "output")
			got := stringList(b, "zz")
			step := 4 + len(strFuncs)
			if len(got) != per*step {
				c.Finding("renderings", fmt.Sprintf("%d strings are rendered for %d: the renderings of strings are lost", len(got), per), map[string]string{"out.go.txt": string(b)})
				return
			}
			for x := 0; x < len(got); x += step {
				q, ok := in[got[x]]
				if !ok || q.s != got[x+1] || q.o != got[x+2] || q.w != got[x+3] {
					c.Finding("variables", fmt.Sprintf("the variable %s is %q, it was set to %q", got[x], got[x+1:x+4], q), nil)
					return
				}
				c.Count("strings", 1)
				c.Eval(q.s)
				if !utf8.ValidString(q.s) {
					c.Count("invalid_utf8", 1)
				}
				for y, f := range strFuncs {
					want, is := f.ref(q.s, q.o, q.w), got[x+4+y]
					c.Count("renderings", 1)
					if want != is {
						c.Finding("function/"+f.name, fmt.Sprintf("{{%s}} with $s = %q, $o = %q, $w = %q\nrenders %q\nit is to render %q", f.expr, q.s, q.o, q.w, is, want), map[string]string{"args.txt": fmt.Sprintf("%q %q %q", q.s, q.o, q.w)})
					}
				}
				if x == 0 {
					c.Sample(map[string]any{"string": fmt.Sprintf("%q", q.s), "up": got[x+4], "snake": got[x+9]})
				}
			}
		})
		sprigFuncs(c, dir)
		if c.Violations() == 0 {
			c.Need("strings", runs*per)
			c.Need("sprig_renderings", 30*len(sprigExprs))
			c.Need("sprig_functions", 190)
			c.Need("invalid_utf8", 100)
		}
	})
	reg("C26", func(c *core.Ctx) {
		c.Rule = "a case is a list of -v settings of one run; non-trivial: distinct list"
		c.Assume = []string{"the operating system passes arguments without zero bytes"}
		dir := c.Dir("m")
		dump := "var zz = []string{ {{range $k, $v := .Vars}}{{printf \"%q\" $k}}, {{printf \"%T\" $v | printf \"%q\"}}, {{printf \"%v\" $v | printf \"%q\"}},\n{{end}} }\n" +
			"var zzDirect = []string{ {{printf \"%v\" .Vars.abc | printf \"%q\"}}, {{printf \"%v\" .Vars.Abc | printf \"%q\"}}, {{printf \"%v\" (index .Vars \"\") | printf \"%q\"}}, {{if .Vars.flag}}\"set\"{{else}}\"unset\"{{end}}, {{or .Vars.abc \"none\" | printf \"%v\" | printf \"%q\"}} }\n"
		core.Write(dir, map[string]string{"go.mod": "module m\n\ngo 1.24\n", "src/s.go": "package src\n\nimport \"context\"\n\ntype Iface interface{ F(ctx context.Context, x int) error }\n", "t.tmpl": dump})
		names := []string{"abc", "Abc", "ABC", "flag", "", "a b", "ü", "a.b", "-x", "\"", "x$y", "\xff", "DecoratorName", "n\nl", "`", "{{.}}", "é̈", "0", "true", "a'b"}
		c.Gowrap()
		core.Parallel(c.Pick(220, 3000), func(i int) {
			r := rand.New(rand.NewSource(c.Seed*17 + int64(i)))
			want := map[string]any{}
			a := []string{"gen", "-g", "-p", "./src", "-i", "Iface", "-t", "t.tmpl", "-o", fmt.Sprintf("d%d/o.go", i)}
			var sets []string
			for k := r.Intn(9); k > 0; k-- {
				n := names[r.Intn(len(names))]
				v := n
				if r.Intn(3) > 0 {
					val := randString(r)
					switch r.Intn(6) {
					case 0:
						val = "=" + val
					case 1:
						val = val + "=" + randString(r)
					case 2:
						val = []string{"true", "false", "1", "", " ", "a,b", "x y", "\t", "{{.X}}", "<no value>", "nil"}[r.Intn(11)]
					}
					v = n + "=" + val
					want[n] = val
				} else {
					want[n] = true
				}
				if r.Intn(3) == 0 {
					a = append(a, []string{"-v=" + v, "--v=" + v}[r.Intn(2)])
				} else {
					a = append(a, []string{"-v", "--v"}[r.Intn(2)], v)
				}
				sets = append(sets, v)
			}
			res := c.Gen(dir, a...)
			rep := map[string]string{"args.txt": fmt.Sprintf("%q", a), "stderr.txt": res.Err}
			if res.Code != 0 {
				c.Finding("refused", fmt.Sprintf("gowrap refuses %q:\n%s", a, core.Clip(res.Err, 1000)), rep)
				return
			}
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("d%d/o.go", i)))
			core.Must(err, "output")
			got := map[string]any{}
			l := stringList(b, "zz")
			for x := 0; x+2 < len(l); x += 3 {
				if l[x+1] == "bool" {
					got[l[x]] = l[x+2] == "true"
				} else {
					got[l[x]] = l[x+2]
				}
			}
			c.Eval(fmt.Sprintf("%q", sets))
			c.Count("settings", len(sets))
			for n, v := range want {
				c.Count("variables", 1)
				if _, ok := v.(bool); ok {
					c.Count("booleans", 1)
				}
				if g, ok := got[n]; !ok || g != v {
					c.Finding("variable", fmt.Sprintf("with the settings %q the variable %q is %#v, it is to be %#v", sets, n, got[n], v), rep)
					return
				}
			}
			if len(got) != len(want) || len(l) != 3*len(want) {
				c.Finding("variables", fmt.Sprintf("with the settings %q the variables are %#v", sets, got), rep)
				return
			}
			str := func(n string) string {
				if v, ok := want[n]; ok {
					return fmt.Sprint(v)
				}
				return "<nil>"
			}
			flag := "unset"
			if v, ok := want["flag"]; ok && v != "" {
				flag = "set"
			}
			or := "none"
			if v, ok := want["abc"]; ok && v != "" {
				or = fmt.Sprint(v)
			}
			w := []string{str("abc"), str("Abc"), str(""), flag, or}
			d := stringList(b, "zzDirect")
			if len(d) > 1 { // a missing variable has no value, however it is printed
				for x := range d {
					d[x] = strings.ReplaceAll(d[x], "<no value>", "<nil>")
				}
			}
			for x := range w {
				w[x] = strings.ReplaceAll(w[x], "<no value>", "<nil>")
			}
			if strings.Join(d, "\x00") != strings.Join(w, "\x00") {
				c.Finding("direct", fmt.Sprintf("with the settings %q the template reads %q, it is to read %q", sets, d, w), rep)
				return
			}
			if i < 3 {
				c.Sample(map[string]any{"settings": fmt.Sprintf("%q", sets), "variables": fmt.Sprintf("%q", got)})
			}
		})
		bundledVars(c, dir)
		if c.Violations() == 0 {
			c.Need("variables", 300)
			c.Need("booleans", 50)
			c.Need("decorator_names", 18)
			c.Need("template_variables", 3)
		}
	})
}

// bundledVars gives the bundled templates the variables they document.
func bundledVars(c *core.Ctx, dir string) {
	ts := bundled()
	sort.Strings(ts)
	core.Parallel(len(ts), func(i int) {
		t := ts[i]
		for _, set := range []struct{ name, lit string }{{"", ""}, {"DecoratorName", "MyOwn" + t}, {"MetricName", "my_metric_x"}, {"ComponentName", "my component"}, {"SpanNamePrefix", "my.prefix"}} {
			if (set.name == "MetricName") && t != "prometheus" || set.name == "ComponentName" && t != "elasticapm" || set.name == "SpanNamePrefix" && t != "opentelemetry" {
				continue
			}
			out := fmt.Sprintf("b%d%s/o.go", i, set.name)
			a := []string{"gen", "-g", "-p", "./src", "-i", "Iface", "-t", filepath.Join(core.Repo, "templates", t), "-o", out}
			if set.name != "" {
				a = append(a, "-v", set.name+"="+set.lit)
			}
			r := c.Gen(dir, a...)
			b, _ := os.ReadFile(filepath.Join(dir, out))
			rep := map[string]string{"args.txt": fmt.Sprintf("%q", a), "out.go.txt": string(b), "stderr.txt": r.Err}
			id := t + "/" + set.name
			if r.Code != 0 {
				c.Finding("refused/"+id, fmt.Sprintf("gowrap refuses %q: %s", a, core.Clip(r.Err, 800)), rep)
				continue
			}
			types := map[string]bool{}
			f, err := parser.ParseFile(token.NewFileSet(), "o.go", b, 0)
			core.Must(err, "output of a bundled template")
			lits := map[string]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				if ts, ok := n.(*ast.TypeSpec); ok {
					types[ts.Name.Name] = true
				}
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
					s, _ := strconv.Unquote(l.Value)
					lits[s] = true
				}
				return true
			})
			c.Eval("bundled" + id)
			switch set.name {
			case "":
				if types["MyOwn"+t] {
					c.Finding("name/"+id, "the name of the decorator is given and was not", rep)
				}
			case "DecoratorName":
				c.Count("decorator_names", 1)
				if !types[set.lit] {
					c.Finding("name/"+id, fmt.Sprintf("with DecoratorName=%s the template %s declares %v", set.lit, t, sortedKeys(types)), rep)
				}
			default:
				c.Count("template_variables", 1)
				found := false
				for l := range lits {
					found = found || strings.Contains(l, set.lit)
				}
				if !found {
					c.Finding("var/"+id, fmt.Sprintf("%s=%s does not reach the code of %s", set.name, set.lit, t), rep)
				}
			}
		}
	})
}

// stringList reads a variable that is a list of string literals.
func stringList(src []byte, name string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "o.go", src, 0)
	if err != nil {
		return nil
	}
	var out []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			if v.Names[0].Name != name || len(v.Values) != 1 {
				continue
			}
			cl, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			for _, e := range cl.Elts {
				if l, ok := e.(*ast.BasicLit); ok {
					t, err := strconv.Unquote(l.Value)
					if err == nil {
						out = append(out, t)
					}
				}
			}
		}
	}
	return out
}

// sprigFuncs compares what templates render with what sprig renders.
func sprigFuncs(c *core.Ctx, dir string) {
	bin := c.Driver("sprig")
	env := core.Env(core.GoRoot, "VERIF_ENV=of the environment", "TZ=UTC")
	type answers struct {
		Names   []string
		Results [][]string
	}
	ask := func(ss [][3]string) answers {
		in, err := json.Marshal(map[string]any{"Exprs": sprigExprs, "Strings": ss})
		core.Must(err, "input")
		r := core.Run(core.Cmd{Dir: dir, Env: env, Args: []string{bin}, Stdin: string(in)})
		if r.Code != 0 {
			core.Fail("the driver fails: %s", core.Clip(r.Err, 800))
		}
		var a answers
		core.Must(json.Unmarshal([]byte(r.Out), &a), "answers")
		return a
	}
	gw := c.Gowrap()
	names := ask(nil).Names
	calls := strings.Join(sprigExprs, " ") + " " + sprigUnused
	word := regexp.MustCompile(`\w+`)
	used := map[string]bool{}
	for _, w := range word.FindAllString(calls, -1) {
		used[w] = true
	}
	for _, n := range names {
		c.Count("sprig_functions", 1)
		if !used[n] {
			c.Count("sprig_functions_not_called", 1)
		}
	}
	core.Write(dir, map[string]string{"names.tmpl": "const zz = 1\n{{if false}}" + "{{" + strings.Join(names, "}}{{") + "}}{{end}}\n"})
	if r := core.Run(core.Cmd{Dir: dir, Env: env, Args: []string{gw, "gen", "-g", "-p", "./src", "-i", "I", "-t", "names.tmpl", "-o", "names/o.go"}}); r.Code != 0 {
		c.Finding("names", "a template that names all functions of sprig is refused: "+core.Clip(r.Err, 800), map[string]string{"stderr.txt": r.Err})
		return
	}
	core.Write(dir, map[string]string{"fail.tmpl": "const zz = 1\n{{fail \"as told\"}}\n"})
	if r := core.Run(core.Cmd{Dir: dir, Env: env, Args: []string{gw, "gen", "-g", "-p", "./src", "-i", "I", "-t", "fail.tmpl", "-o", "fail/o.go"}}); r.Code == 0 || !strings.Contains(r.Err, "as told") {
		c.Finding("fail", "a template that fails is not refused", map[string]string{"stderr.txt": r.Err})
	}
	var t strings.Builder
	t.WriteString("var zz = []string{\n{{range $k, $v := .Vars}}{{if hasPrefix \"s\" $k}}{{$s := $v}}{{$o := index $.Vars (printf \"o%s\" $k)}}{{$w := index $.Vars (printf \"w%s\" $k)}}{{printf \"%q\" $k}},\n")
	for _, e := range sprigExprs {
		t.WriteString("{{" + e + " | printf \"%v\" | printf \"%q\"}},\n")
	}
	t.WriteString("{{end}}{{end}}}\n")
	core.Write(dir, map[string]string{"sprig.tmpl": t.String()})
	const per = 10
	core.Parallel(c.Pick(6, 60), func(i int) {
		r := rand.New(rand.NewSource(c.Seed*131 + int64(i)))
		a := []string{gw, "gen", "-g", "-p", "./src", "-i", "I", "-t", "sprig.tmpl", "-o", fmt.Sprintf("sp%d/o.go", i)}
		var ss, quoted [][3]string
		for k := 0; k < per; k++ {
			s := randString(r)
			if len(s) > 40 {
				s = s[:40]
			}
			o, w := randReplace(r, s)
			ss = append(ss, [3]string{s, o, w})
			quoted = append(quoted, [3]string{strconv.Quote(s), strconv.Quote(o), strconv.Quote(w)})
			n := fmt.Sprintf("s%d", k)
			a = append(a, "-v", n+"="+s, "-v", "o"+n+"="+o, "-v", "w"+n+"="+w)
		}
		want := ask(quoted).Results
		res := core.Run(core.Cmd{Dir: dir, Env: env, Args: a})
		rep := map[string]string{"args.txt": fmt.Sprintf("%q", a), "stderr.txt": res.Err}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("sp%d/o.go", i)))
		if res.Code != 0 || err != nil {
			c.Finding("sprig-refused", "a template that uses the functions of sprig is refused: "+core.Clip(res.Err, 800), rep)
			return
		}
		got := stringList(b, "zz")
		if len(got) != per*(1+len(sprigExprs)) {
			c.Finding("sprig-renderings", "renderings are lost", map[string]string{"out.go.txt": string(b)})
			return
		}
		for k := range ss { // ten strings: the order of the names is that of the numbers
			for j, e := range sprigExprs {
				c.Count("sprig_renderings", 1)
				if is := strconv.Quote(got[k*(1+len(sprigExprs))+1+j]); is != want[k][j] {
					c.Finding("sprig/"+strings.Fields(e)[0], fmt.Sprintf("{{%s}} with $s = %q, $o = %q, $w = %q renders %s, sprig's renders %s", e, ss[k][0], ss[k][1], ss[k][2], is, want[k][j]), rep)
				}
			}
			c.Eval(fmt.Sprintf("%q", ss[k]))
		}
	})
}
