From 20f60b790bf8028ff651135a21d361431542be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 01/18] fix: don't share stateful text transformers between
 goroutines

A chained transformer keeps its state and buffers inside, so concurrent calls
of the package level transformers corrupted each other's text.
---
 internal/strutil/strutil.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..a002078 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,7 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	markTransformer = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,11 +57,9 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
-	normalized, _, err := transform.String(unicodeTransformer, str)
-	if err != nil {
-		return str
-	}
-	return normalized
+	str = norm.NFKD.String(str)
+	str = markTransformer.String(str)
+	return norm.NFKC.String(str)
 }
 
 // NormalizeAposthrope replace apostrope lookalike chars into the ordinary aposthrope.
@@ -74,11 +71,7 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
-	normalized, _, err := transform.String(nfkcTransformer, str)
-	if err == nil {
-		str = normalized
-	}
-
+	str = norm.NFKC.String(norm.NFKD.String(str))
 	str = NormalizeAposthrope(str)
 	str = strings.ReplaceAll(str, ".", "")
 	str = strings.ToLower(str)
-- 
2.43.0


From aecdb9637543284013495d606d88411b6d1f65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 02/18] fix: don't read the charsets of a parser without
 holding its lock

Search read the charset cache after releasing the lock, while a concurrent
Search on the same parser may have replaced it for other languages.
---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From 972e5153e947caac39147f5c03a9623e5e98c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 03/18] fix: regenerate the charsets when the languages change

With duplicated languages the charsets of an earlier Search with as many
languages were reused, e.g. those of en and fr for fr and fr, so the detected
language depended on earlier calls.
---
 search.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index a8eb08d..6379b9e 100644
--- a/search.go
+++ b/search.go
@@ -150,8 +150,9 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 		p.uniqueCharsets = map[string][]rune{}
 	}
 
-	// Check if charsets need to be generated
-	mustGenerate := len(p.uniqueCharsets) != len(languages)
+	// Check if charsets need to be generated. The languages might contain
+	// duplicates, so compare only the distinct ones.
+	mustGenerate := len(p.uniqueCharsets) != len(strutil.NewDict(languages...))
 	if !mustGenerate {
 		for _, lang := range languages {
 			if _, exist := p.uniqueCharsets[lang]; !exist {
-- 
2.43.0


From aa0ece622639523df973c4d9602ad8420f8b79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 04/18] fix: use a fixed order of timezone patterns

The list was built by iterating maps, so for a string with several matching
timezones, e.g. two abbreviations, the popped one differed from process to
process.
---
 internal/timezone/timezones.go  | 26 ++++++++++++++++----------
 internal/timezone/tz-offsets.go | 15 +++++++++++----
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/internal/timezone/timezones.go b/internal/timezone/timezones.go
index 3dd841a..e43c5be 100644
--- a/internal/timezone/timezones.go
+++ b/internal/timezone/timezones.go
@@ -5,10 +5,16 @@ import "github.com/markusmobius/go-dateparser/internal/regexp"
 // Info is the data for parsing timezone from a string.
 type Info struct {
 	RegexPatterns       []string
-	AlternativePatterns map[*regexp.Regexp]string
+	AlternativePatterns []AlternativePattern
 	Timezones           map[string]int
 }
 
+// AlternativePattern is the rule to create alternative writing of timezone name.
+type AlternativePattern struct {
+	Regex       *regexp.Regexp
+	Replacement string
+}
+
 // These timezone list are taken fromseveral sources:
 // - http://stackoverflow.com/q/1703546
 // - http://en.wikipedia.org/wiki/List_of_time_zone_abbreviations
@@ -19,20 +25,20 @@ var timezoneInfoList = []Info{
 		RegexPatterns: []string{
 			`(.)%s$`,
 		},
-		AlternativePatterns: map[*regexp.Regexp]string{
+		AlternativePatterns: []AlternativePattern{
 			// UTC+n, UTC-n, GMT+n, GMT-n:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+n:mm, UTC-n:mm, GMT+n:mm, GMT-n:mm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`): `(?:UTC|GMT)\$1$2:$3`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])0(\d):(\d{2})`), `(?:UTC|GMT)\$1$2:$3`},
 			// UTC+nn, UTC-nn, GMT+nn, GMT-nn:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`): `(?:UTC|GMT)\$1$2`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):00`), `(?:UTC|GMT)\$1$2`},
 			// UTC+nnmm, UTC-nnmm, GMT+nnmm, GMT-nnmm:
-			regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`): `(?:UTC|GMT)\$1$2:?$3.*`,
+			{regexp.MustCompile(`(?:UTC|GMT)\\?([+-])(\d{2}):(\d{2})`), `(?:UTC|GMT)\$1$2:?$3.*`},
 			// Others:
-			regexp.MustCompile(`UTC`):   "",
-			regexp.MustCompile(`:`):     "",
-			regexp.MustCompile(`:|UTC`): "",
-			regexp.MustCompile(`UTC`):   "GMT",
+			{regexp.MustCompile(`UTC`), ""},
+			{regexp.MustCompile(`:`), ""},
+			{regexp.MustCompile(`:|UTC`), ""},
+			{regexp.MustCompile(`UTC`), "GMT"},
 		},
 		Timezones: map[string]int{
 			`UTC-12:00`: -43200,
diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..dc3f770 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -2,6 +2,8 @@ package timezone
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -25,9 +27,13 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Process the names in fixed order, since the first match is used
+		tzNames := slices.Sorted(maps.Keys(tzInfo.Timezones))
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
+				offset := tzInfo.Timezones[tzName]
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -43,10 +49,11 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, alternative := range tzInfo.AlternativePatterns {
+				for _, tzName := range tzNames {
+					offset := tzInfo.Timezones[tzName]
 					searchPattern := regexp.QuoteMeta(tzName)
-					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
+					searchPattern = alternative.Regex.ReplaceAllString(searchPattern, alternative.Replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
 					if _, exist := regexPatterns[regexPattern]; exist {
 						continue
-- 
2.43.0


From 897650fef17c8cf2967e26e434f67e6d0064a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 05/18] fix: try previous locales only when the config allows
 them

With TryPreviousLocales, a locale used by an earlier call was tried even if it
is outside of the Locales, Languages and Region of the current call.
---
 parser.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 0dc6ace..4ae2b32 100644
--- a/parser.go
+++ b/parser.go
@@ -227,7 +227,7 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 
 	// Fetch previously used locales first
 	if cfg.TryPreviousLocales {
-		ld := p.checkPreviousLocales(iCfg, dateStrings)
+		ld := p.checkPreviousLocales(cfg, iCfg, dateStrings)
 		if ld != nil {
 			results = append(results, ld)
 			resultTracker.Add(ld.Name)
@@ -280,8 +280,29 @@ func (p *Parser) getApplicableLocales(cfg *Configuration, iCfg *setting.Configur
 	return results, nil
 }
 
-func (p *Parser) checkPreviousLocales(iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
+func (p *Parser) checkPreviousLocales(cfg *Configuration, iCfg *setting.Configuration, dateStrings []string) *data.LocaleData {
+	// The previous locales might come from calls with different config, so if this
+	// call has its own restriction only use the locales that allowed by it.
+	isRestricted := len(cfg.Locales) > 0 || len(cfg.Languages) > 0 || cfg.Region != ""
+	allowedLocales := strutil.NewDict()
+
+	if isRestricted && len(p.usedLocales) > 0 {
+		locales, _ := language.GetLocales(cfg.Locales, cfg.Languages, cfg.Region, true, false)
+		if len(cfg.DefaultLanguages) > 0 {
+			defaultLocales, _ := language.GetLocales(nil, cfg.DefaultLanguages, cfg.Region, true, false)
+			locales = append(locales, defaultLocales...)
+		}
+
+		for _, locale := range locales {
+			allowedLocales.Add(locale.Name)
+		}
+	}
+
 	for _, usedLocale := range p.usedLocales {
+		if isRestricted && !allowedLocales.Contain(usedLocale.Name) {
+			continue
+		}
+
 		for _, ds := range dateStrings {
 			if p.localeIsApplicable(iCfg, usedLocale, ds) {
 				return usedLocale
-- 
2.43.0


From b0f98d8b7b4f6af426e3b3078ee49ddffe8d6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 06/18] fix: use one clock reading for a whole search

Without CurrentTime every found text was parsed with its own reading of the
clock, so a search around midnight mixed dates relative to different days.
---
 search.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/search.go b/search.go
index 6379b9e..a2bce0a 100644
--- a/search.go
+++ b/search.go
@@ -105,8 +105,11 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 		languages = []string{ld.Name}
 	}
 
+	// If current time is not specified, make sure all entries use the same one
+	now := time.Now().UTC()
+
 	// Parse the text
-	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original)
+	parsedSearch, subStrings := p.parseFoundObjects(iCfg, languages, translation, original, now)
 
 	// Create final result
 	result := make([]SearchResult, len(parsedSearch))
@@ -169,7 +172,7 @@ func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	return p.uniqueCharsets
 }
 
-func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
+func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string, now time.Time) ([]parsedSearch, []string) {
 	// Specify entries to parse
 	var parserEntries []string
 	if languages[0] == "en" {
@@ -188,7 +191,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 			continue
 		}
 
-		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase)
+		parsedEntry, isRelative := p.parseEntry(iCfg, entry, translation[i], parsedList, needRelativeBase, now)
 		if !parsedEntry.IsZero() {
 			parsedList = append(parsedList, parsedSearch{parsedEntry, isRelative})
 			subStrings = append(subStrings, strutil.TrimChars(original[i], ` .,:()[]-'`))
@@ -213,7 +216,7 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 					}
 
 					parsedJEntry, jIsRelative := p.parseEntry(iCfg, jEntry,
-						split.EntryParts[j], currentParseResult, needRelativeBase)
+						split.EntryParts[j], currentParseResult, needRelativeBase, now)
 
 					jSubString := strutil.TrimChars(split.OriginalParts[j], ` .,:()[]-`)
 					jParsedSearch := parsedSearch{parsedJEntry, jIsRelative}
@@ -238,13 +241,16 @@ func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, trans
 	return parsedList, subStrings
 }
 
-func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool) (date.Date, bool) {
+func (p *Parser) parseEntry(iCfg *setting.Configuration, entry, translation string, parsedList []parsedSearch, needRelativeBase bool, now time.Time) (date.Date, bool) {
 	// Normalize entry
 	entry = strings.ReplaceAll(entry, "ngày", "")
 	entry = strings.ReplaceAll(entry, "am", "")
 
 	// Parse entry
 	cfg := configFromInternal(iCfg)
+	if cfg.CurrentTime.IsZero() {
+		cfg.CurrentTime = now
+	}
 	parsedEntry, _ := p.Parse(cfg, entry)
 
 	// If needed, generate relative base and parse the entry
-- 
2.43.0


From 9c42e030cec0635440aec336c871b709fbf6647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 07/18] fix: use the configured current time to validate dates
 without spaces

The two digit year was expanded with the local year of the machine, ignoring
CurrentTime.
---
 internal/parser/nospace/constants.go | 13 +++++++++----
 internal/parser/nospace/parser.go    |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/parser/nospace/constants.go b/internal/parser/nospace/constants.go
index 30d6aac..d255102 100644
--- a/internal/parser/nospace/constants.go
+++ b/internal/parser/nospace/constants.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/regexp"
+	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
 var (
@@ -99,7 +100,7 @@ func createSortedFormats(prefix string) []string {
 // - `2021-11-2`
 // - `20-2-1112`
 // - `2-02-1112`
-func createParseCandidates(str string, format string) ([]string, string) {
+func createParseCandidates(cfg *setting.Configuration, str string, format string) ([]string, string) {
 	// Split format by its part
 	var formatParts []string
 	for part := range strings.SplitSeq(format, "") {
@@ -179,7 +180,7 @@ candidate_loop:
 			lastIdx += limit
 		}
 
-		if candidateIsValid(mapCandidateValues) {
+		if candidateIsValid(cfg, mapCandidateValues) {
 			candidate := strings.Join(candidateParts, "-")
 			candidates = append(candidates, candidate)
 		}
@@ -217,7 +218,7 @@ func valueIsValid(partName string, value int) bool {
 	return false
 }
 
-func candidateIsValid(mapValues map[string]int) bool {
+func candidateIsValid(cfg *setting.Configuration, mapValues map[string]int) bool {
 	// Get year
 	year, exist := mapValues["Y"]
 	if !exist {
@@ -226,7 +227,11 @@ func candidateIsValid(mapValues map[string]int) bool {
 			return false
 		}
 
-		currentYear := time.Now().Year()
+		currentYear := time.Now().UTC().Year()
+		if cfg != nil && !cfg.CurrentTime.IsZero() {
+			currentYear = cfg.CurrentTime.Year()
+		}
+
 		currentCentury := (currentYear / 1000) * 1000
 		if year < currentYear-currentCentury {
 			year += currentCentury
diff --git a/internal/parser/nospace/parser.go b/internal/parser/nospace/parser.go
index ac023d2..6989e0a 100644
--- a/internal/parser/nospace/parser.go
+++ b/internal/parser/nospace/parser.go
@@ -57,7 +57,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		// Try each format
 		for _, format := range formats {
 			period := getPeriodFromFormat(format)
-			candidates, goFormat := createParseCandidates(token.Text, format)
+			candidates, goFormat := createParseCandidates(cfg, token.Text, format)
 
 			for _, candidate := range candidates {
 				t, _ := time.Parse(goFormat, candidate)
-- 
2.43.0


From 0fd2d6a851d0c2c34ef6ecad9cef8faa6bb48608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 08/18] fix: reject dates outside the Umm al-Qura calendar

ParseHijri panicked for years outside the conversion table, and for partial
dates when the current time lies outside of it.
---
 internal/parser/hijri/parser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..abd7d0d 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -130,6 +131,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Make sure the date is covered by the Umm al-Qura calendar
+	if !isHijriYear(Y) || M < 1 || M > 12 {
+		return time.Time{}, fmt.Errorf("%d-%d is outside Umm al-Qura scope", Y, M)
+	}
+
 	// Fix leap year
 	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
@@ -156,7 +162,16 @@ func isDigit(s string) bool {
 	return true
 }
 
+// isHijriYear checks if the year is covered by the Umm al-Qura calendar.
+func isHijriYear(year int) bool {
+	return year >= 1356 && year <= 1500
+}
+
 func isHijriLeapYear(year int) bool {
+	if !isHijriYear(year) {
+		return false
+	}
+
 	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: 12, Day: 30}
 	gd := hd.ToGregorian()
 	rhd, _ := hijri.CreateUmmAlQuraDate(gd)
@@ -169,10 +184,14 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
 		if isHijriLeapYear(year) {
 			return year
+		} else if !isHijriYear(year) {
+			return originalYear
 		}
 	}
 }
-- 
2.43.0


From c16a01095cd4a05b52a3138eccdfc2ac77bb71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 09/18] fix: limit the translations created for ambiguous words

The count of permutations doubled with every ambiguous word of the string, so
a short text like "mar mar mar ..." took minutes or exhausted the memory.
---
 internal/language/utils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/language/utils.go b/internal/language/utils.go
index c496b97..0d4fd9f 100644
--- a/internal/language/utils.go
+++ b/internal/language/utils.go
@@ -60,10 +60,19 @@ func isInDictionary(ld *data.LocaleData, word string) bool {
 	return exist
 }
 
+// maxPermutation limits the permutations created for one string. It's far above
+// what a date string needs, without it the count doubles with every ambiguous word.
+const maxPermutation = 64
+
 func createPermutation[T comparable](input [][]T) [][]T {
 	// Calculate count of possible permutation
 	nPermutation := 1
-	for _, entries := range input {
+	input = slices.Clone(input)
+	for i, entries := range input {
+		if nPermutation*len(entries) > maxPermutation {
+			input[i] = entries[:1]
+			continue
+		}
 		nPermutation *= len(entries)
 	}
 
-- 
2.43.0


From 72be00dccadb8857fe76a5ce86b2a6c7188a9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 10/18] fix: don't join the last word of a text with a
 following one

Searching a text that ends with a known word panicked for the languages
without word spacing other than Chinese and Japanese.
---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..8c00262 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From e70d58d15bcddb42ee47f2e6729be7f5844798da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 11/18] fix: don't change the month of a lone time

---
 internal/parser/absolute/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..3273794 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -567,12 +567,13 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	// If only a weekday is provided (without year, month, or day), no adjustment is
-	// needed as well, because it's been handled previously by `correctForTimeFrame`
+	// If only a weekday or time is provided (without year, month, or day), no adjustment
+	// is needed as well, because it's been handled previously by `correctForTimeFrame`
 	_, tokenDayExist := p.ComponentTokens["day"]
+	_, tokenTimeExist := p.ComponentTokens["time"]
 	_, tokenYearExist := p.ComponentTokens["year"]
 	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenWeekdayExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
+	if (tokenWeekdayExist || tokenTimeExist) && !tokenYearExist && !tokenMonthExist && !tokenDayExist {
 		return t
 	}
 
-- 
2.43.0


From 7e83d8eb9666478e6b84f7b06bb1479c8f0c52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 12/18] fix: keep the year when February is parsed on the 29th

---
 internal/parser/absolute/parser.go | 6 +++++-
 internal/parser/absolute/root.go   | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 3273794..a312947 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -508,7 +508,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 		}
 
 		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
+			if _, dayExist := p.ComponentValues["day"]; dayExist {
+				tYear = p.getCorrectLeapYear(tYear)
+			} else {
+				tDay = 28
+			}
 		}
 
 		t = time.Date(tYear, tMonth, tDay,
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..1f9daf8 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -53,8 +53,10 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Fix leap year, as long as the day is specified while the year is not
+	_, dayExist := p.ComponentValues["day"]
+	_, yearExist := p.ComponentValues["year"]
+	if dayExist && !yearExist && D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
-- 
2.43.0


From 76a664b4c431420eeefd2490c75c2c5c4827e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 13/18] fix: compute the offset of the default timezone from
 its own wall clock

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4ae2b32..52d8343 100644
--- a/parser.go
+++ b/parser.go
@@ -344,7 +344,9 @@ func (p *Parser) applyTimezone(iCfg *setting.Configuration, dt date.Date, tz tim
 	if !tz.IsZero() {
 		tzName, tzOffset = tz.Name, tz.Offset
 	} else {
-		tzName, tzOffset = dt.Time.In(iCfg.DefaultTimezone).Zone()
+		tzName, tzOffset = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
+			dt.Time.Hour(), dt.Time.Minute(), dt.Time.Second(), dt.Time.Nanosecond(),
+			iCfg.DefaultTimezone).Zone()
 	}
 
 	dt.Time = time.Date(dt.Time.Year(), dt.Time.Month(), dt.Time.Day(),
-- 
2.43.0


From d31dabbd41a325cb27bfaf2b4fb7a2a860ce6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 14/18] fix: take missing parts from the current time in the
 timezone of the date

---
 internal/parser/absolute/parser.go | 29 ++++++++++++++++++-----------
 internal/parser/absolute/root.go   |  5 +++++
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index a312947..614344f 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -286,6 +286,13 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		}
 	}
 
+	// To find the closest date in the past or future, the current time must be in the
+	// timezone of the string, which will be applied to the date by the caller
+	preferPastOrFuture := p.Config != nil && p.Config.PreferredDateSource != setting.CurrentPeriod
+	if !tz.IsZero() && preferPastOrFuture {
+		p.Now = wallClock(p.Now.In(time.FixedZone(tz.Name, tz.Offset)))
+	}
+
 	// Fetch datetime parameters
 	dtLocation := p.Now.Location()
 	dtParams := p.FnGetDateTimeParams(p)
@@ -303,7 +310,7 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	// Apply correction for past and future
-	dt = p.correctForTimeFrame(dt, tz)
+	dt = p.correctForTimeFrame(dt)
 
 	// Apply correction for preference of month: beginning, current, end.
 	// Must be done before day so that day is derived from the correct month.
@@ -444,7 +451,7 @@ func (p *Parser) parseLetterToken(tokenText string, skippedComponent string) ([]
 	return nil, fmt.Errorf("unable to parse %s", tokenText)
 }
 
-func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.Time {
+func (p *Parser) correctForTimeFrame(t time.Time) time.Time {
 	_, yearExist := p.ComponentValues["year"]
 	_, monthExist := p.ComponentValues["month"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
@@ -533,18 +540,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		tzOffset := tz.Offset
-		if tz.IsZero() && p.Config.DefaultTimezone != nil {
-			_, tzOffset = t.In(p.Config.DefaultTimezone).Zone()
-		}
-
-		tmp := t.Add(-time.Duration(tzOffset) * time.Second)
-
-		if dateSource == setting.Past && p.Now.Before(tmp) {
+		if dateSource == setting.Past && p.Now.Before(t) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(tmp) {
+		if dateSource == setting.Future && p.Now.After(t) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
@@ -623,3 +623,10 @@ func (p Parser) getCorrectLeapYear(currentYear int) int {
 		}
 	}
 }
+
+// wallClock returns the time as shown by a clock in its timezone, without the timezone.
+func wallClock(t time.Time) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(),
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+		time.UTC)
+}
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 1f9daf8..48a5f73 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -22,6 +22,11 @@ func Parse(cfg *setting.Configuration, str string, tz timezone.OffsetData) (date
 		return date.Date{}, err
 	}
 
+	// If there is no timezone in string the default one will be applied to the date
+	if tz.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
+		parser.Now = wallClock(parser.Now.In(cfg.DefaultTimezone))
+	}
+
 	return parser.Parse(tz)
 }
 
-- 
2.43.0


From e299e3a2c1eb9c6f834011e2279c93634e5fa3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 15/18] fix: don't let skipped wall clocks of a timezone move
 other dates

---
 internal/parser/absolute/parser.go | 24 ++++++++++++------------
 internal/parser/absolute/root.go   |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 614344f..8c8e318 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -290,11 +290,10 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	// timezone of the string, which will be applied to the date by the caller
 	preferPastOrFuture := p.Config != nil && p.Config.PreferredDateSource != setting.CurrentPeriod
 	if !tz.IsZero() && preferPastOrFuture {
-		p.Now = wallClock(p.Now.In(time.FixedZone(tz.Name, tz.Offset)))
+		p.Now = wallClock(p.Now.In(time.FixedZone(tz.Name, tz.Offset)), time.UTC)
 	}
 
 	// Fetch datetime parameters
-	dtLocation := p.Now.Location()
 	dtParams := p.FnGetDateTimeParams(p)
 	if !p.ParsedTime.IsZero() {
 		dtParams["hour"] = p.ParsedTime.Hour()
@@ -303,8 +302,9 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 		dtParams["nanosecond"] = p.ParsedTime.Nanosecond()
 	}
 
-	// Create datetime object
-	dt, err := p.FnCreateDateTime(p, dtParams, dtLocation)
+	// Create datetime object. It's created in UTC and put in the timezone of current time
+	// at the end, since the time might not exist in that timezone on the uncorrected date.
+	dt, err := p.FnCreateDateTime(p, dtParams, time.UTC)
 	if err != nil {
 		return date.Date{}, err
 	}
@@ -328,7 +328,7 @@ func (p *Parser) Parse(tz timezone.OffsetData) (date.Date, error) {
 	}
 
 	return date.Date{
-		Time:   dt,
+		Time:   wallClock(dt, p.Now.Location()),
 		Period: datePeriod,
 	}, nil
 }
@@ -504,7 +504,7 @@ func (p *Parser) correctForTimeFrame(t time.Time) time.Time {
 	if monthExist && !yearExist {
 		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
 
-		if p.Now.Before(t) {
+		if p.Now.Before(wallClock(t, p.Now.Location())) {
 			if dateSource == setting.Past {
 				tYear--
 			}
@@ -528,7 +528,7 @@ func (p *Parser) correctForTimeFrame(t time.Time) time.Time {
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		if p.Now.Before(t) {
+		if p.Now.Before(wallClock(t, p.Now.Location())) {
 			if dateSource == setting.Past {
 				t = t.AddDate(-100, 0, 0)
 			}
@@ -540,11 +540,11 @@ func (p *Parser) correctForTimeFrame(t time.Time) time.Time {
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-		if dateSource == setting.Past && p.Now.Before(t) {
+		if dateSource == setting.Past && p.Now.Before(wallClock(t, p.Now.Location())) {
 			t = t.AddDate(0, 0, -1)
 		}
 
-		if dateSource == setting.Future && p.Now.After(t) {
+		if dateSource == setting.Future && p.Now.After(wallClock(t, p.Now.Location())) {
 			t = t.AddDate(0, 0, 1)
 		}
 	}
@@ -624,9 +624,9 @@ func (p Parser) getCorrectLeapYear(currentYear int) int {
 	}
 }
 
-// wallClock returns the time as shown by a clock in its timezone, without the timezone.
-func wallClock(t time.Time) time.Time {
+// wallClock returns the time which has the same wall clock as `t` in the specified location.
+func wallClock(t time.Time, loc *time.Location) time.Time {
 	return time.Date(t.Year(), t.Month(), t.Day(),
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-		time.UTC)
+		loc)
 }
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 48a5f73..7691170 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -24,7 +24,7 @@ func Parse(cfg *setting.Configuration, str string, tz timezone.OffsetData) (date
 
 	// If there is no timezone in string the default one will be applied to the date
 	if tz.IsZero() && cfg != nil && cfg.DefaultTimezone != nil {
-		parser.Now = wallClock(parser.Now.In(cfg.DefaultTimezone))
+		parser.Now = wallClock(parser.Now.In(cfg.DefaultTimezone), time.UTC)
 	}
 
 	return parser.Parse(tz)
-- 
2.43.0


From c00f7a9921eacdf3967445f4238646bc835d11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 16/18] fix: don't use the machine's timezone for dates after a
 timestamp in a search

---
 search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/search.go b/search.go
index a2bce0a..f6962c0 100644
--- a/search.go
+++ b/search.go
@@ -290,7 +290,12 @@ func getRelativeBase(parsedList []parsedSearch) time.Time {
 		}
 	}
 
+	// Timestamps use the timezone of the machine, which must not affect other dates
 	relativeBase := parsedList[i].Date.Time
+	if relativeBase.Location() == time.Local {
+		relativeBase = relativeBase.UTC()
+	}
+
 	return relativeBase
 }
 
-- 
2.43.0


From 2f1845ba4817323c863d7e1ae8056d89c04215b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:14 +0000
Subject: [PATCH 17/18] fix: set the year first when completing dates of custom
 formats

---
 internal/parser/common/apply-month.go | 10 +++++++++-
 internal/parser/formatted/parser.go   | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/parser/common/apply-month.go b/internal/parser/common/apply-month.go
index 3aeddd4..f0dea51 100644
--- a/internal/parser/common/apply-month.go
+++ b/internal/parser/common/apply-month.go
@@ -3,6 +3,7 @@ package common
 import (
 	"time"
 
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
@@ -29,7 +30,14 @@ func ApplyMonthFromConfig(cfg *setting.Configuration, t time.Time, currentMonth
 		}
 	}
 
-	return time.Date(t.Year(), newMonth, t.Day(),
+	// Make sure day is not bigger than max day of the new month
+	newDay := t.Day()
+	lastDayOfMonth := dateutil.GetLastDayOfMonth(t.Year(), int(newMonth))
+	if newDay > lastDayOfMonth {
+		newDay = lastDayOfMonth
+	}
+
+	return time.Date(t.Year(), newMonth, newDay,
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
 }
diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..aaec1a0 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -43,6 +44,18 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Check if format has year. It must be set before the other missing parts,
+		// since the length of month depends on it.
+		if t.Year() == 0 {
+			if t.Day() > dateutil.GetLastDayOfMonth(currentTime.Year(), int(t.Month())) {
+				continue
+			}
+
+			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+				t.Location())
+		}
+
 		// Check if format has day or month
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
@@ -60,13 +73,6 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			t = common.ApplyDayFromConfig(cfg, t)
 		}
 
-		// Check if format has year
-		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
-		}
-
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0


From b0520277a534d55926c6fb3afe7909272c5bc5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 18/18] fix: take missing parts of custom formats from the
 current time in the default timezone

---
 internal/parser/formatted/parser.go | 41 ++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index aaec1a0..53b5c34 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -34,6 +34,11 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		currentTime = cfg.CurrentTime
 	}
 
+	// Missing parts are taken from the current time in the timezone of the date
+	if timeLoc == cfg.DefaultTimezone {
+		currentTime = currentTime.In(timeLoc)
+	}
+
 	// Try each format
 	checker := time.Date(12, 3, 4, 5, 6, 7, 8, time.UTC)
 
@@ -44,6 +49,21 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 			continue
 		}
 
+		// Check if format has day or month
+		checkerText := checker.Format(format)
+		formatHasDay := strings.Contains(checkerText, "4")
+		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
+
+		if t.Year() != 0 && formatHasMonth && formatHasDay {
+			return date.Date{Time: t, Period: period}
+		}
+
+		// The missing parts are set in UTC, since the incomplete date might not exist in its timezone
+		dtLocation := t.Location()
+		t = time.Date(t.Year(), t.Month(), t.Day(),
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+			time.UTC)
+
 		// Check if format has year. It must be set before the other missing parts,
 		// since the length of month depends on it.
 		if t.Year() == 0 {
@@ -51,28 +71,25 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 				continue
 			}
 
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
-				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-				t.Location())
+			t = t.AddDate(currentTime.Year(), 0, 0)
 		}
 
-		// Check if format has day or month
-		checkerText := checker.Format(format)
-		formatHasDay := strings.Contains(checkerText, "4")
-		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
-
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
-			t = common.ApplyMonthFromConfig(cfg, t)
-			t = common.ApplyDayFromConfig(cfg, t)
+			t = common.ApplyMonthFromConfig(cfg, t, currentTime.Month())
+			t = common.ApplyDayFromConfig(cfg, t, currentTime.Day())
 		} else if !formatHasMonth {
 			period = date.Year
-			t = common.ApplyMonthFromConfig(cfg, t)
+			t = common.ApplyMonthFromConfig(cfg, t, currentTime.Month())
 		} else if !formatHasDay {
 			period = date.Month
-			t = common.ApplyDayFromConfig(cfg, t)
+			t = common.ApplyDayFromConfig(cfg, t, currentTime.Day())
 		}
 
+		t = time.Date(t.Year(), t.Month(), t.Day(),
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+			dtLocation)
+
 		return date.Date{Time: t, Period: period}
 	}
 
-- 
2.43.0

