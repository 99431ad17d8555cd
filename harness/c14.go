package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing/fstest"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"golang.org/x/text/language"
)

const iso639 = "aa ab ae af ak am an ar as av ay az ba be bg bi bm bn bo br bs ca ce ch co cr cs cu cv cy da de dv dz ee el en eo es et eu fa ff fi fj fo fr fy ga gd gl gn gu gv ha he hi ho hr ht hu hy hz ia id ie ig ii ik io is it iu ja jv ka kg ki kj kk kl km kn ko kr ks ku kv kw ky la lb lg li ln lo lt lu lv mg mh mi mk ml mn mr ms mt my na nb nd ne ng nl nn no nr nv ny oc oj om or os pa pi pl ps pt qu rm rn ro ru rw sa sc sd se sg si sk sl sm sn so sq sr ss st su sv sw ta te tg th ti tk tn to tr ts tt tw ty ug uk ur uz ve vi vo wa wo xh yi yo za zh zu"

const iso3166 = "AD AE AF AG AI AL AM AO AQ AR AS AT AU AW AX AZ BA BB BD BE BF BG BH BI BJ BL BM BN BO BQ BR BS BT BV BW BY BZ CA CC CD CF CG CH CI CK CL CM CN CO CR CU CV CW CX CY CZ DE DJ DK DM DO DZ EC EE EG EH ER ES ET FI FJ FK FM FO FR GA GB GD GE GF GG GH GI GL GM GN GP GQ GR GS GT GU GW GY HK HM HN HR HT HU ID IE IL IM IN IO IQ IR IS IT JE JM JO JP KE KG KH KI KM KN KP KR KW KY KZ LA LB LC LI LK LR LS LT LU LV LY MA MC MD ME MF MG MH MK ML MM MN MO MP MQ MR MS MT MU MV MW MX MY MZ NA NC NE NF NG NI NL NO NP NR NU NZ OM PA PE PF PG PH PK PL PM PN PR PS PT PW PY QA RE RO RS RU RW SA SB SC SD SE SG SH SI SJ SK SL SM SN SO SR SS ST SV SX SY SZ TC TD TF TG TH TJ TK TL TM TN TO TR TT TV TW TZ UA UG UM US UY UZ VA VC VE VG VI VN VU WF WS YE YT ZA ZM ZW 001 150 419 142 003 019"

// likely regions, and what other tags mean.
var c14likely = map[string]string{"en": "en_US", "zh": "zh_CN", "zh-Hant": "zh_TW", "zh-Hans": "zh_CN", "zh-Hant-HK": "zh_HK", "zh-Hans-SG": "zh_SG", "de": "de_DE", "fr": "fr_FR", "es": "es_ES", "it": "it_IT", "pt": "pt_BR",
	"ja": "ja_JP", "ko": "ko_KR", "ru": "ru_RU", "uk": "uk_UA", "be": "be_BY", "pl": "pl_PL", "cs": "cs_CZ", "sk": "sk_SK", "sl": "sl_SI", "hr": "hr_HR", "bs": "bs_BA", "sr": "sr_RS", "sr-Latn": "sr_RS",
	"sr-Cyrl-ME": "sr_ME", "mk": "mk_MK", "bg": "bg_BG", "el": "el_GR", "tr": "tr_TR", "ar": "ar_EG", "he": "he_IL", "iw": "he_IL", "fa": "fa_IR", "ur": "ur_PK", "hi": "hi_IN", "bn": "bn_BD", "ta": "ta_IN", "te": "te_IN", "th": "th_TH",
	"vi": "vi_VN", "id": "id_ID", "in": "id_ID", "ms": "ms_MY", "fil": "fil_PH", "nl": "nl_NL", "sv": "sv_SE", "da": "da_DK", "nb": "nb_NO", "nn": "nn_NO", "fi": "fi_FI", "et": "et_EE", "lv": "lv_LV", "lt": "lt_LT",
	"hu": "hu_HU", "ro": "ro_RO", "ga": "ga_IE", "cy": "cy_GB", "eu": "eu_ES", "ca": "ca_ES", "gl": "gl_ES", "is": "is_IS", "mt": "mt_MT", "sq": "sq_AL", "ka": "ka_GE", "hy": "hy_AM", "az": "az_AZ", "kk": "kk_KZ", "uz": "uz_UZ",
	"uz-Cyrl": "uz_UZ", "uz-Arab": "uz_AF", "pa": "pa_IN", "pa-Arab": "pa_PK", "mn": "mn_MN", "ne": "ne_NP", "si": "si_LK", "km": "km_KH", "lo": "lo_LA", "my": "my_MM", "am": "am_ET", "sw": "sw_TZ", "zu": "zu_ZA", "af": "af_ZA",
	"es-419": "es_419", "en-001": "en_001", "yue": "yue_HK", "und-DE": "de_DE", "und-JP": "ja_JP", "und-Hant": "zh_TW", "und": "en_US", "": "en_US", "C": "en_US", "POSIX": "en_US"}

var localeForm = regexp.MustCompile(`^[a-z]{2,8}_([A-Z]{2}|[0-9]{3})$`)

func init() {
	langs := len(strings.Fields(iso639))
	register(&Property{ID: "C14",
		Rule: "Every ISO 639-1 language with every ISO 3166 and some UN M.49 regions, without region, with scripts, variants and extensions, every parseable three-letter language, in random spellings (case, separators, encoding and modifier suffixes), and garbage strings are normalised: form language_REGION, idempotence, agreement of spellings and of the string and tag entry points, kept explicit parts, and a hand-written table of likely regions. Catalogs declared under one spelling are looked up under others through every way of setting a locale. Fresh processes report GetDefault under generated environments. Non-trivial: distinct strings normalised.",
		Sections: []Section{
			{Name: "registered", Quick: langs, Thorough: langs * 6, Fn: c14registered, Need: []string{"explicit pairs"}},
			{Name: "likely", Quick: 120, Thorough: 2000, Fn: c14table, Need: []string{"likely regions"}},
			{Name: "three", Quick: 26 * 26, Thorough: 26 * 26, Fn: c14three, Need: []string{"three-letter languages"}},
			{Name: "garbage", Quick: 300000, Thorough: 1500000, Fn: c14garbage},
			{Name: "lookup", Quick: 20000, Thorough: 100000, Fn: c14lookup, Need: []string{"found under another spelling", "other locales stay apart"}},
			{Name: "env", Quick: 400, Thorough: 800, Fn: c14env, Need: []string{"environments"}},
		}})
	auxes["default-locale"] = func([]string) {
		ts := t.NewTranslations()
		a := locale.GetDefault()
		ts.SetLocale("zh_CN")
		ts.SetLocale("")
		t.SetLocale("")
		json.NewEncoder(os.Stdout).Encode([]string{a, t.NewTranslations().Locale(), ts.Locale(), t.Locale(), ts.L("").Locale()})
	}
}

// spell writes a tag in another way.
func spell(c *C, s string) string {
	if s == "" {
		return s
	}
	sep := []string{"-", "_"}[c.Intn(2)]
	parts := strings.FieldsFunc(s, func(r rune) bool { return r == '-' || r == '_' })
	for i := range parts {
		switch c.Intn(3) {
		case 0:
			parts[i] = strings.ToLower(parts[i])
		case 1:
			parts[i] = strings.ToUpper(parts[i])
		case 2:
			b := []byte(parts[i])
			for j := range b {
				if c.Intn(2) == 0 {
					b[j] = strings.ToUpper(string(b[j]))[0]
				} else {
					b[j] = strings.ToLower(string(b[j]))[0]
				}
			}
			parts[i] = string(b)
		}
	}
	out := parts[0]
	for _, p := range parts[1:] {
		if c.Intn(6) == 0 {
			sep = []string{"-", "_"}[c.Intn(2)]
		}
		out += sep + p
	}
	if c.Intn(4) == 0 {
		out += []string{".UTF-8", ".utf8", "@euro", ".ISO-8859-1", ".UTF-8@latin", ".GB18030", ".koi8r"}[c.Intn(7)]
	}
	return out
}

// norm normalises s and checks form and stability.
func norm(c *C, s string) string {
	r := locale.Normalize(s)
	if !localeForm.MatchString(r) {
		c.Fail("form", "Normalize(%q)=%q is not of the form language_REGION", s, r)
	}
	if r2 := locale.Normalize(r); r2 != r {
		c.Fail("stable", "Normalize(%q)=%q, normalised again %q", s, r, r2)
	}
	c.Distinct(s)
	return r
}

func spellings(c *C, s, want string, n int) {
	for i := 0; i < n; i++ {
		v := spell(c, s)
		if r := norm(c, v); r != want {
			c.Fail("spelling", "Normalize(%q)=%q, but Normalize(%q)=%q", v, r, s, want)
		}
	}
	if r := locale.NormalizeTag(language.Make(s)); r != want {
		c.Fail("tag", "NormalizeTag(Make(%q))=%q, Normalize gives %q", s, r, want)
	}
}

func c14registered(c *C) {
	l := strings.Fields(iso639)[c.Index%len(strings.Fields(iso639))]
	base := norm(c, l)
	if !strings.HasPrefix(base, l+"_") {
		c.Fail("language", "Normalize(%q)=%q", l, base)
	}
	spellings(c, l, base, 6)
	for _, g := range strings.Fields(iso3166) {
		s := l + "_" + g
		if r := norm(c, s); r != s {
			c.Fail("explicit", "Normalize(%q)=%q", s, r)
		}
		spellings(c, s, s, 2)
		c.Count("explicit pairs", 1)
		switch c.Intn(6) {
		case 0: // a script does not change explicit parts
			sc := []string{"Latn", "Cyrl", "Arab", "Hans", "Hant", "Deva"}[c.Intn(6)]
			if l != "sh" {
				spellings(c, l+"-"+sc+"-"+g, s, 1)
			}
		case 1:
			spellings(c, l+"-"+g+"-u-nu-latn", s, 1)
		case 2:
			spellings(c, l+"-"+g+"-x-private", s, 1)
		}
	}
}

func c14table(c *C) {
	i := c.Index % len(c14likely)
	var keys []string
	for k := range c14likely {
		keys = append(keys, k)
	}
	k := sorted(keys)[i]
	want := c14likely[k]
	if r := norm(c, k); r != want {
		c.Fail("likely", "Normalize(%q)=%q want %q", k, r, want)
	}
	if k != "C" && k != "POSIX" {
		spellings(c, k, want, 10)
	}
	c.Count("likely regions", 1)
}

func c14three(c *C) {
	for z := byte('a'); z <= 'z'; z++ {
		l := string([]byte{byte('a' + c.Index/26%26), byte('a' + c.Index%26), z})
		r := norm(c, l)
		b, err := language.ParseBase(l)
		if err != nil {
			continue
		}
		c.Count("three-letter languages", 1)
		spellings(c, l, r, 2)
		g := strings.Fields(iso3166)[c.Intn(249)]
		if r := norm(c, l+"-"+g); !strings.HasSuffix(r, "_"+g) {
			c.Fail("explicit", "Normalize(%q)=%q", l+"-"+g, r)
		} else if _, err := language.Deprecated.Canonicalize(language.Make(l)); err == nil && b.String() == l && strings.HasPrefix(norm(c, l), l+"_") && !strings.HasPrefix(r, l+"_") {
			c.Fail("explicit", "Normalize(%q)=%q", l+"-"+g, r)
		}
	}
}

func c14garbage(c *C) {
	var s string
	switch c.Intn(5) {
	case 0:
		s = text(c.Rand)
	case 1:
		b := make([]byte, c.Intn(20))
		c.Read(b)
		s = string(b)
	case 2:
		s = strings.Repeat([]string{"a", "-", "_", "en-", "x-", "a1b2-", "."}[c.Intn(7)], c.Intn(300))
	default:
		segs := []string{"en", "zh", "x", "u", "t", "i", "a", "und", "Latn", "Hant", "CN", "US", "419", "001", "ZZ", "XX", "AA", "QM", "1996", "rozaj", "sl", "klingon", "phonebk", "co", "nu", "", "art", "lojban", "GB", "oed", "abcdefghi", "中", "cmn", "yue", "sgn",
			"EU", "UN", "UK", "BU", "YU", "DD", "zz", "qaa", "mul", "mis", "zxx", "root", "rg", "gbzzzz", "va", "posix", "hant", "latn", "12", "é", "\x00", " ", "cel", "gaulish", "m0", "i-default", "1", "eu", "ja-JP-u-ca-japanese-x-foo"}
		var parts []string
		for i, n := 0, 1+c.Intn(6); i < n; i++ {
			parts = append(parts, segs[c.Intn(len(segs))])
		}
		s = strings.Join(parts, []string{"-", "_"}[c.Intn(2)])
	}
	r := norm(c, s)
	if tag := language.Make(s); !strings.ContainsAny(s, ".@") {
		if g := locale.NormalizeTag(tag); g != r {
			c.Fail("tag", "NormalizeTag(Make(%q))=%q, Normalize gives %q", s, g, r)
		}
	}
	if g := locale.NormalizeTag(language.Raw.Make(s)); !localeForm.MatchString(g) || locale.Normalize(g) != g {
		c.Fail("tag", "NormalizeTag(Raw.Make(%q))=%q, normalised again %q", s, g, locale.Normalize(g))
	}
	if a, b := norm(c, strings.ToUpper(s)), norm(c, strings.ToLower(s)); asciiOnly(s) && (a != r || b != r) {
		c.Fail("spelling", "Normalize(%q)=%q, upper case %q, lower case %q", s, r, a, b)
	}
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// c14lookup: a catalog declared under one spelling answers under every other, and under no other locale.
func c14lookup(c *C) {
	ls, gs := strings.Fields(iso639), strings.Fields(iso3166)
	want := ls[c.Intn(len(ls))] + "_" + gs[c.Intn(len(gs))]
	if c.Intn(4) == 0 {
		var keys []string
		for k := range c14likely {
			if len(k) > 1 && k != "POSIX" {
				keys = append(keys, k)
			}
		}
		want = c14likely[sorted(keys)[c.Intn(len(keys))]]
	}
	decl, other := spell(c, want), spell(c, want)
	for k, v := range c14likely {
		if v == want && k != "" && c.Intn(3) == 0 {
			decl = k
		}
	}
	po := fmt.Sprintf("msgid \"\"\nmsgstr \"Language: %s\\n\"\n\nmsgid \"who\"\nmsgstr \"me\"\n", decl)
	ts := t.NewTranslations()
	ts.BindFS("d", fstest.MapFS{"x.po": {Data: []byte(po)}})
	ts.SetDomain("d")
	ask := map[string]func(l string) string{
		"SetLocale": func(l string) string { x := ts.D("d"); x.SetLocale(l); return x.T("who") },
		"L":         func(l string) string { return ts.L(l).T("who") },
		"context": func(l string) string {
			t.SetGlobal(ts)
			defer t.SetGlobal(t.NewTranslations())
			return t.WithContext(t.SetCtxLocale(context.Background(), l)).T("who")
		},
		"package": func(l string) string {
			t.SetGlobal(ts.D("d"))
			defer t.SetGlobal(t.NewTranslations())
			t.SetLocale(l)
			return t.T("who")
		},
	}
	foreign := ls[c.Intn(len(ls))] + "_" + gs[c.Intn(len(gs))]
	for name, f := range ask {
		if got := f(other); got != "me" {
			c.Fail("lookup", "catalog declared %q (%s) is not found with locale %q set by %s: %q", decl, want, other, name, got)
		}
		if foreign != want {
			if got := f(foreign); got != "who" {
				c.Fail("lookup", "catalog declared %q answers under locale %q set by %s", decl, foreign, name)
			}
			c.Count("other locales stay apart", 1)
		}
	}
	if l := ts.L(other); l.Locale() != want || l.UsedLocale() != want {
		c.Fail("lookup", "locale %q is %q used %q, want %q", other, l.Locale(), l.UsedLocale(), want)
	}
	c.Count("found under another spelling", 1)
	c.Distinct("lookup", decl, other)
}

// c14env asks fresh processes for the system default.
func c14env(c *C) {
	val := func() (v, want string) {
		switch c.Intn(7) {
		case 0:
			return "", ""
		case 1:
			return []string{"C", "C.UTF-8", "POSIX", "en_US.UTF-8"}[c.Intn(4)], "en_US"
		case 2:
			b := make([]byte, c.Intn(12))
			c.Read(b)
			return strings.ReplaceAll(string(b), "\x00", "_"), "?"
		case 3:
			return []string{"x-foo", "zz_ZZ", "-", ":", "::", "a:b", "中文", "x-private.UTF-8", "mul", "@", ".", "en_US@@", "_", "i-klingon", strings.Repeat("a-", 500)}[c.Intn(15)], "?"
		default:
			l := langPool[c.Intn(len(langPool))]
			w := locale.Normalize(l)
			return w + []string{"", ".UTF-8", ".utf8", ".ISO-8859-1"}[c.Intn(4)], w
		}
	}
	env := []string{}
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "LC_") && !strings.HasPrefix(kv, "LANG") && !strings.HasPrefix(kv, "HOME=") && !strings.HasPrefix(kv, "XDG_") {
			env = append(env, kv)
		}
	}
	dir := c.Dir()
	defer os.RemoveAll(dir)
	env = append(env, "HOME="+dir)
	wants := map[string]bool{}
	set := []string{}
	for _, name := range []string{"LC_ALL", "LC_MESSAGES", "LANG"} {
		if c.Intn(2) == 0 {
			v, w := val()
			if v != "" {
				wants[w] = true
			}
			env = append(env, name+"="+v)
			set = append(set, fmt.Sprintf("%s=%q", name, v))
		}
	}
	if c.Intn(3) == 0 {
		v, w := val()
		if c.Intn(2) == 0 && w != "?" && w != "" {
			v = w + ":" + "fr"
		}
		if strings.ContainsAny(v, ".") { // LANGUAGE takes no encodings
			w = "?"
		}
		if v != "" {
			wants[w] = true
		}
		env = append(env, "LANGUAGE="+v)
		set = append(set, fmt.Sprintf("LANGUAGE=%q", v))
	}
	if c.Intn(3) == 0 { // configuration file
		d := filepath.Join(dir, ".config")
		if c.Intn(2) == 0 {
			env = append(env, "XDG_CONFIG_HOME="+d)
		}
		os.Mkdir(d, 0o755)
		os.WriteFile(filepath.Join(d, "locale.conf"), []byte([]string{"", "LANG=de_AT.UTF-8\n", "garbage", "LANG=\n", "LC_ALL=\"x\"\n"}[c.Intn(5)]), 0o644)
		if len(wants) == 0 {
			wants["?"] = true
		}
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "aux", "default-locale")
	cmd.Env = env
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	var got []string
	if err != nil || json.Unmarshal(ob.Bytes(), &got) != nil || len(got) != 5 {
		c.Fail("env", "with %q the default locale crashes: %v %s", set, err, eb.String())
	}
	for _, g := range got {
		if g != got[0] {
			c.Fail("env", "with %q the default differs between entry points: %q", set, got)
		}
	}
	if !localeForm.MatchString(got[0]) || locale.Normalize(got[0]) != got[0] {
		c.Fail("env", "with %q the default locale is %q", set, got[0])
	}
	if len(wants) == 1 {
		for w := range wants {
			if w != "?" && w != got[0] {
				c.Fail("env", "with %q the default locale is %q want %q", set, got[0], w)
			}
			if w != "?" {
				c.Count("environments that name one locale", 1)
			}
		}
	}
	c.Count("environments", 1)
	c.Distinct("env", fmt.Sprint(set))
	c.Sample("%q -> %s", set, got[0])
}
