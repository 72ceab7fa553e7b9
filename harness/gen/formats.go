package gen

import "strings"

// Formats are texts that mean something elsewhere: dates, numbers, addresses,
// encodings, code. In a literal each is nothing but its characters.
var Formats = func() (l []string) {
	for _, s := range strings.Split(`2024-01-02|2024-01-02 03:04:05|2024-01-02T03:04:05Z|2024-01-02 03:04:05.678+09:00|03:04:05|3:04 PM|01/02/2024|2.1.2024|20240102|1704164645|Mon, 02 Jan 2006 15:04:05 MST|1h30m|P1Y2M3DT4H|5 minutes|now|now()|current_timestamp|today
0|00|007|-0|+1|-1|1.0|1.50|.5|5.|1e3|1E-9|0x1f|0X1F|0b101|0o17|017|1_000|1,000|1.000,00|1 000|12%|$5|5$|€5|½|NaN|nan|Inf|-Infinity|infinity|null|NULL|nil|None|undefined|true|false|TRUE|yes|no|on|off|t|f|Y|N|9223372036854775808|99999999999999999999|1/2|1:2|2^8|10KB|10 MB|3px
a@b.org|mailto:a@b.org|http://x.org|https://x.org/|https://x.org/a/?|https://x.org/a?b=c&d=e#f|HTTPS://X.ORG|ftp://u:p@h:21/x|//x.org|www.x.org|x.org.|localhost:8080|127.0.0.1|::1|[::1]:80|fe80::1%eth0|10.0.0.0/8|00:1B:44:11:3A:B7|urn:isbn:123|ipfs://abc|data:text/plain,x|file:///etc/passwd|+1 (555) 010-9999|tel:+15550109999
123e4567-e89b-12d3-a456-426614174000|{123e4567-e89b-12d3-a456-426614174000}|0x52908400098527886E0F7030069857D2E4169EE7|0xdeadbeef|deadbeef|DEADBEEF|aGVsbG8=|aGVsbG8==|aGVsbG8|aGVs/bG8+|SGVsbG8=.e30=|d41d8cd98f00b204e9800998ecf8427e|sha256:abc|v1.2.3|1.2.3-rc.1+b|^1.2|~> 2|>=1, <2|en-US|en_US.UTF-8|utf-8|UTC|UTC+2|Europe/Berlin
/a/b|a/b/|./a|../a|~/a|~|C:\\a|\\\\host\\share|a/|/|//|///|*.go|a?b|[a-z]|{a,b}|**/x|^a.*$|(a+b)|a{2,3}|\\d+|\\bx\\b|$1|${x}|$(x)|$x|%x%|{{x}}|{x}|<%= x %>|<x>|</x>|<br/>|<!-- x -->|&amp;|&lt;|&#39;|&nbsp;|%20|%27|+|a+b|\\u0041|\\x41|\\101|\\n|\\r\\n|\\t|\\0|\\e[0m|:smile:|:x|@x|@caller|#x|#1|a#b|!x|?|?1
{}|[]|{"a": 1}|[1, 2]|["a"]|{a: 1}|a: 1|a=1|a=b&c=d|a=1;b=2|a;b|a,b|a, b|,a|a,|,,|;|;;|a;|select 1;|; drop table t;--|-- x|--|---|/* x */|/*|*/|// x|//|# x|' or 1=1 --|''|""|"a"|"a|a"|"a' b"|(a)|(|)|()|{|}|[|]|{ }|a b| a|a |  a  |a  b| |  |   |.|..|...|a.b|.a|a.|-|a-b|-a|a-|_|a_b|_a|a_|=|==|a=|=a|:|::|a:b|a:|&|&&|a&b|*|a*b|<|>|<>|->|=>|<-|a->b|^|~|!|!=
int|text|blob|table|action|init|database|use|as|primary|index|default|default('x')|min(1)|public|owner|view|select|select * from t|insert into t values (1)|function() {}|() => 1|x => x|if|eval|lambda x: x|printf("%s")|%s|%d|%v|%%|%!s(MISSING)|%[1]s|a%sb|{0}|$1.00|echo|sudo rm
A|a|aA|Aa|AAA|aaa|aba|abab|abcabc|ABC|Abc def|title Case|camelCase|PascalCase|snake_case|kebab-case|SCREAMING_CASE|Train-Case|dot.case|x'ab'|X'AB'|E'a'|N'a'|u&'a'|b'1'|r"a"`, "\n") {
		l = append(l, strings.Split(s, "|")...)
	}
	l = append(l, "a|b", "|", "||", "a\nb", "a\r\nb", "a\rb", "a\tb", "\n", "\r", "\t", "\r\n", "a\n", "\na", "a\\\nb", "a\n\nb", "a\n--b", "a\n//b", "a\n/*b", "a\x00b", "\x00", "\x1b[0m", "\u00a0", "a\u00a0b", "\u200b", "\ufeff", "\ufeffa", "e\u0301", "\u00e9", "\u00c9", "\u00df", "\u1e9e", "\u0130", "\u0131", "\u017f",
		"\u212a", "\ufb01", "\u01c6", "\u2126", "\uff21", "\u0661", "\u4e16\u754c", "\U0001f600", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\u202eabc", "\u2028", "\u2029", "\u0085", "a\u2028b", "\ufffd", "\ufffe", "\U0010ffff", "\u2018a\u2019", "\u201ca\u201d", "a`b", "`", "\u00b4", "\u2026", "\u2013", "\u2014")
	return
}()

// FormatLit is a format as a string literal.
func FormatLit(s string) string { return "'" + strings.ReplaceAll(s, "'", `\'`) + "'" }

func (g *G) format() string {
	s := Formats[g.n(len(Formats))]
	switch g.n(8) {
	case 0:
		s += " "
	case 1:
		s += g.pick(".", "/", ",", ";", "=", "-", "1", "\n")
	case 2:
		s += Formats[g.n(len(Formats))]
	case 3:
		s += " " + Formats[g.n(len(Formats))]
	}
	if strings.ContainsAny(s, "\n\r") { // no literal spans lines
		return "'line'"
	}
	return FormatLit(s)
}
