import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({"observe_at":observe} if observe else {}),**({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),hook_needed=None)))
I=["inputs"]
p("C01","Jamo notation composes into the syllables it denotes",
 "Composing a phoneme sequence yields exactly the Hangul it denotes: a lead consonant, a vowel and a hyphen-marked tail that follow each other form one syllable, a missing lead becomes ㅇ, a missing vowel becomes ㅡ, and any phoneme that cannot extend the current syllable starts a new one. Letters that are not Hangul, in any position between phonemes, appear unchanged and in order and end the current syllable.",
 I,"every sequence of lead consonants, vowels, tails and non-Hangul letters",
 "The tests compose a handful of words; the state machine has a distinct outcome for each pair of neighbouring phoneme kinds and for each of 19x21x28 syllables.",
 ["internal/jamo/jamo.go"],[("score/prevScore state machine","internal/jamo/jamo.go: composer.Compose"),("filling of missing jamo","internal/jamo/jamo.go: composer.write")],["jamo.ComposeHangul"])
p("C02","Composed Hangul survives composition and accepts a following tail",
 "Text made of already composed syllables and non-Hangul letters is returned unchanged by composition, and writing any of the 11172 syllables as its phonemes composes back to that syllable. A hyphen-marked tail after a composed syllable without a tail merges into that syllable only; after a syllable with a tail it starts a new syllable. Written phonemes without a hyphen are never taken by a composed syllable next to them.",
 I,"every composed syllable, every tail, and every surrounding non-Hangul letter",
 "Tests use a few syllables; the arithmetic must be right for all 11172 and for each following letter kind.",
 ["internal/jamo/jamo.go"],[("decomposition of composed input","internal/jamo/jamo.go: Compose, hangul.Split/Join")],["jamo.ComposeHangul"])
p("C03","Text foreign to the language passes through in place",
 "For every bundled language that needs no transliterator, letters and symbols outside the language's script which its specification does not mention are returned unchanged (spaces next to them aside), in the same order and in the same place relative to the transcribed words around them. Only zero-width spaces are dropped and, for Japanese, CJK punctuation is localized.",
 I,"every rune not mentioned by the spec, alone, in runs, and before, between and after words of the language",
 "Tests use a few ASCII digits and punctuation; pass-through must hold for each of the 1.1M runes next to any neighbour.",
 ["procedure.go","internal/subword/replace.go"],[("partition into levels","procedure.go: partition"),("level 0 bypass","procedure.go: transcribe, syllabify")],["Hangulize"])
p("C04","Words of a bundled language come out as complete Hangul",
 "For a word written in the letters its bundled language specification knows, the result contains no letter of the source script, no uncomposed phoneme, no masking or marker character of the internal steps (NUL, zero-width space, hyphen, braces) and no replacement character. A space between two words stays a single space there.",
 I,"every word over the alphabet of each bundled specification up to the stated length",
 "About 4000 example words exist for 40 languages, while every letter combination of a language can be typed.",
 ["procedure.go","internal/jamo/jamo.go","specs"],[("superfluous level-1 text is discarded","procedure.go: transcribe"),("composition","procedure.go: syllabify")],["Hangulize"])
p("C05","Hangulize is total, well-formed and repeatable",
 "Hangulize neither panics nor hangs on any string, including ill-formed UTF-8, NUL and control characters, and its result is always valid UTF-8. Calling it again with the same word, in the same or another Hangulizer of the same spec and with other words in between, gives the same result.",
 ["inputs","histories"],"every byte string up to the stated length and every interleaving of earlier calls",
 "Tests never feed ill-formed text and compare each word once.",
 ["hangulize.go","procedure.go"],[("per-call procedure state","hangulize.go: Hangulize"),("safe slicing","pkg/hre/util.go: substr")],["Hangulize"])
p("C06","Scripts recognise and fold their own letters",
 "Normalizing a letter of a script is idempotent. In Latin, Cyrillic and Greek it folds letter case: an upper-case letter and its lower-case letter of the same script normalize to the same letter. A Latin letter normalizes to the lower-case base letter of its canonical decomposition, a Hiragana syllable or iteration mark to the Katakana letter 0x60 above it, and Georgian letters and Katakana to themselves. Each script claims exactly the letters of its Unicode script (Cyrillic also combining marks, kana also the long vowel mark) and no others.",
 I,"every rune for each of the five scripts",
 "The tests sample about ten letters per script out of 1.1M runes.",
 ["internal/scripts/latn.go","internal/scripts/cyrl.go","internal/scripts/grek.go","internal/scripts/geor.go","internal/scripts/hrkt.go"],[("Is/Normalize","internal/scripts")],["scripts.*.Is","scripts.*.Normalize"])
p("C07","Punctuation is localized with balanced spacing",
 "In a Japanese result each CJK punctuation mark is replaced by its Korean counterpart, with the space belonging to that counterpart dropped exactly where it would touch the start or end of the text, another space or another punctuation mark; every other character stays. In every other script punctuation stays as it is, and zero-width spaces disappear in all scripts.",
 I,"every text up to the stated length over arbitrary runes",
 "Tests cover four sentences; spacing depends on both neighbours of each mark.",
 ["procedure.go","internal/scripts/hrkt.go"],[("neighbour-sensitive trimming","procedure.go: localize"),("table","internal/scripts/hrkt.go: LocalizePunct")],["Hangulize"])
p("C08","Rewrite rules apply in order, each to the previous result",
 "The rewriting step behaves as if the rules were applied one after another to the text, the output of each being the input of the next, every non-overlapping match of a rule from left to right being replaced. Each maximal run of meaningful or meaningless letters is rewritten on its own, so that start and end anchors refer to that run.",
 ["inputs","configurations"],"every word over the rule letters and every small rule list",
 "The example words of the bundled specs exercise only combinations that happen to occur in them.",
 ["procedure.go","rule.go"],[("sequential replacement","procedure.go: rewrite"),("deferred replacements","internal/subword/replace.go: commit")],["New(spec).Hangulize"])
p("C09","Transcribed letters are consumed once, by the first rule that matches",
 "In the transcribing step a part of the word replaced by one rule is invisible to all later rules, so each letter is transcribed at most once and by the earliest rule that matches it, and results keep the order of the letters they come from. Letters which no rule transcribes are dropped, except that a space among them remains a single space.",
 ["inputs","configurations"],"every word over the rule letters and every small rule list",
 "Needs overlapping rules and results containing source letters, which examples seldom contain.",
 ["procedure.go"],[("NUL masking in lock step with the replacer","procedure.go: transcribe")],["New(spec).Hangulize"])
p("C10","Every reported pattern match satisfies the pattern",
 "Each match reported for an HRE pattern really matches it at that place: the text between the bounds matches the core, the text before and after satisfies the positive lookarounds and contains none of what a negative lookaround forbids, and ^, ^^, $ and $$ hold in the whole word (string boundary, or for the single forms also whitespace or a {} marker). Matches are non-empty, lie on letter boundaries, ascend and do not overlap, and no place where a pattern with neither a lookbehind nor a negative lookaround matches is missed: one of the reported matches covers it.",
 ["inputs","programs"],"every word up to the stated length for each pattern of a catalogue covering every construct, with ASCII and multi-byte letters",
 "Tests check chosen words per construct; interaction of lookaround width, multi-byte letters and previous matches is unbounded.",
 ["pkg/hre/pattern.go","pkg/hre/assertions.go"],[("group layout of expanded regexps","pkg/hre/assertions.go"),("negative lookaround windows","pkg/hre/pattern.go: Find")],["Pattern.Find"])
p("C11","Replacing rewrites exactly the matches, mapping variables by position",
 "Replacing leaves everything outside the reported matches byte for byte as it was and puts the interpolated replacement in place of each match. The n-th variable of the replacement takes the value at the same position as the value matched by the n-th variable of the pattern's core; when that value cannot be determined the match is left as it was, without a panic. Patterns whose core has capturing groups of the user besides variables are excluded.",
 ["inputs","programs"],"every word up to the stated length for a catalogue of pattern/replacement pairs, and every variable table within bounds",
 "Two or three fixed tables are tested.",
 ["pkg/hre/rpattern.go","pkg/hre/var.go","rule.go"],[("var-to-var mapping","pkg/hre/rpattern.go: Interpolate")],["Pattern.Replace","Rule.Replace"])
p("C12","Replacements and levels stay aligned",
 "Applying any ascending non-overlapping set of replacements to a word gives the word with exactly these ranges replaced, and the resulting subwords concatenate to that word, have alternating levels, and carry the new level exactly on replaced text, also over several rounds of replacements. Building subwords concatenates all words in order and merges neighbours of equal level.",
 ["inputs","histories"],"every word, replacement set and sequence of rounds within bounds",
 "Tests apply one or two replacements to one word.",
 ["internal/subword/replace.go","internal/subword/builder.go"],[("levels array spliced with the word","internal/subword/replace.go: commit")],["Replacer.Subwords","Builder.Subwords"])
p("C13","HSL documents parse to what they spell",
 "Parsing an HSL document yields every section with its pairs: list sections keep all pairs in written order including duplicates, dictionary sections keep every key once, values keep their order, text and escapes, comments and blank lines contribute nothing, and section and pair report the line they stand on. The bytes given to the specification parser are kept verbatim as its source.",
 I,"every document generated from sections, quoted strings of arbitrary letters, bare words, comments and layout within bounds",
 "Tests parse five short documents.",
 ["pkg/hsl/lexer.go","pkg/hsl/parser.go","pkg/hsl/structures.go","spec.go"],[("line-sensitive lexer","pkg/hsl/lexer.go"),("pair assembly","pkg/hsl/parser.go: parse")],["hsl.Parse","ParseSpec"])
p("C14","Malformed sources are rejected with an error",
 "Parsing any byte sequence as HSL or as a specification terminates and either succeeds or returns an error, never panicking; a failing reader, an unterminated string, an illegal character, a duplicated dictionary key, a section of the wrong kind, a rule without a replacement, a pattern that does not compile, an unlimited negative lookaround and an unknown script are all reported as errors.",
 ["inputs","fault_sequences"],"every byte string within bounds, every mutation of a small valid specification within bounds, and a reader failing at any point",
 "No existing test parses malformed input.",
 ["pkg/hsl/lexer.go","pkg/hsl/parser.go","spec.go","pkg/hre/pattern.go"],[("illegal tokens","pkg/hsl/lexer.go: Scan"),("error returns","spec.go: ParseSpec")],["hsl.Parse","ParseSpec"])
p("C15","The bundled catalogue loads, caches and unloads consistently",
 "Over every sequence of loads and unloads, loading a listed language succeeds with a specification of that language, repeated loads without an unload in between return the same object, and a load after an unload returns a fresh equal one. An unlisted name gives the not-found error and changes nothing; transcribing with an unlisted language returns the word unchanged with that error.",
 ["histories","inputs"],"every history of load/unload/transcribe calls within bounds over listed and arbitrary names",
 "Tests load each language once.",
 ["specs.go","hangulize.go"],[("specs cache","specs.go: LoadSpec, UnloadSpec")],["LoadSpec","UnloadSpec","ListLangs","Hangulize"])
p("C16","Transliterator registries behave as isolated sets",
 "Adding a transliterator succeeds exactly if its scheme is absent and never replaces the present one, removing succeeds exactly if it is present, and listing returns exactly the present ones as a copy whose mutation has no effect. The default registry and each Hangulizer's registry are independent, and installing the standard set either adds all of it or leaves the registry as it was.",
 ["histories"],"every history of add/remove/list/install calls within bounds over several registries",
 "Tests perform single calls from an empty registry.",
 ["translit.go","hangulize.go","translit/translit.go"],[("translitRegistry","translit.go"),("roll back","translit/translit.go: Install")],["UseTranslit","UnuseTranslit","Translits","translit.Install"])
p("C17","Required transliterators run in declared order or the call fails",
 "A specification's declared transliterators are applied to the word in the declared order, each to the previous result, before anything else. If one is not registered, or fails, the call returns an empty word with an error identifying that condition and scheme, later ones are not run, and the Hangulizer stays usable.",
 ["fault_sequences","configurations"],"every chain of transliterators within bounds, each possibly missing or failing, with arbitrary outputs",
 "Tests use one missing and one failing transliterator.",
 ["procedure.go"],[("transliterate loop","procedure.go: transliterate")],["Hangulizer.Hangulize"])
p("C18","Results never depend on map iteration order",
 "Loading the same specification source and transcribing the same word gives the same result in every run, whatever order Go iterates maps in, also when macro names, normalization letters or transliteration letters are prefixes of each other (the longest wins).",
 ["schedules","inputs"],"every iteration order of every map visited, for every word within bounds",
 "A test process sees one random order, and the bundled specs contain few conflicting entries.",
 ["spec.go","pkg/hre/macro.go","pkg/hre/pattern.go","pkg/hre/rpattern.go","translit/cyrillic/cyrillic.go","pkg/hsl/structures.go"],[("sorted replacer arguments","spec.go, pkg/hre/macro.go, translit/cyrillic/cyrillic.go")],["ParseSpec","Hangulize","cyrillic.Transliterate"])
p("C19","Tracing observes the procedure without changing it",
 "Registering a trace function never changes the result, also after it is replaced or removed. For a non-empty word the events start with the input word, come in the order of the steps, never repeat the previous word, name the rule that made each rewriting or transcribing change, and the last one carries the returned word.",
 ["inputs","histories"],"every word within bounds and every register/replace/remove history",
 "Tests trace one word and look at a few events.",
 ["trace.go","procedure.go"],[("dedup by prevWord","trace.go: trace"),("record merging","trace.go: subwordsTracer")],["Hangulizer.Trace"])
p("C20","Kana iteration marks repeat the previous kana",
 "In text handed to the Japanese transliterator, an unvoiced iteration mark after a kana of its syllabary stands for that kana without voicing, a voiced one for that kana with voicing where it has one, repeatedly through consecutive marks; any other letter, and a mark with no such kana before it, stays unchanged. Letters of the kana blocks that are no kana syllables (digraphs, voicing marks, the prolonged sound mark) are not spoken of.",
 I,"every rune pair and every short run of marks after every kana",
 "Tests use a dozen words; the conversion is parity arithmetic over three ranges of two syllabaries.",
 ["translit/furigana/repeat.go"],[("repeatKana, toSeion, toDakuon","translit/furigana/repeat.go")],["furigana.T.Transliterate"])
p("C21","Long vowels merge only where the previous kana carries that vowel",
 "Long vowel merging turns a vowel kana into the long vowel mark exactly if it lies at or after the given offset and the kana before it is of a row of the syllabary whose vowel this kana prolongs (ア and ァ after the a row; イ after i, ィ after i and e; ウ and ゥ after u and o; エ and ェ after e; オ and ォ after o), the loan-word forms ティ ディ トゥ ドゥ excepted (small ヵ and ヶ are not spoken of); every other letter is unchanged and the number of letters stays the same.",
 I,"every pair of runes, word length and offset within bounds",
 "Tests use a few words.",
 ["translit/furigana/longvowel.go"],[("mergeLongVowels table","translit/furigana/longvowel.go")],["furigana.T.Transliterate"])
p("C22","Token pronunciations are written completely and in order",
 "The reading of a tokenized Japanese text contains the pronunciation (or surface, for unknown words) of every non-dummy token that has one in order, particles は and へ read ハ and ヘ, auxiliaries joined to the word before them, one space exactly between adjacent person names, and nothing else. Writing it twice gives the same text.",
 I,"every token sequence within bounds over all token classes, parts of speech and sub-classes",
 "Tests feed four fixed sentences through a real dictionary.",
 ["translit/furigana/typewriter.go"],[("scanMorpheme","translit/furigana/typewriter.go")],["furigana.T.Transliterate"])
p("C23","Chinese text splits into one chunk per character reading",
 "The Chinese transliterator replaces each character that has a reading by that reading, keeps runs of other letters unchanged, and separates exactly the neighbouring chunks by one zero-width space, losing and inventing nothing.",
 I,"every rune sequence within bounds for every assignment of readings",
 "Tests use three words.",
 ["translit/pinyin/pinyin.go"],[("chunking","translit/pinyin/pinyin.go")],["pinyin.T.Transliterate"])
p("C24","Latin spelling of Cyrillic is read by the longest mapping",
 "Each Cyrillic transliterator rewrites the text from left to right, at each place by the longest entry of its country's mapping that matches there, and leaves letters without an entry, including Cyrillic ones, unchanged. Transliterating a text of Cyrillic letters only is the identity.",
 I,"every string within bounds over letters in and out of the mapping",
 "No test covers this package.",
 ["translit/cyrillic/cyrillic.go","translit/cyrillic/dict.go"],[("ordered replacer","translit/cyrillic/cyrillic.go")],["cyrillic.Ts"])
p("C25","Trace listings are complete and aligned",
 "A printed trace has one line per event with its word and, if present, its rule or else its reason, preceded by a step heading exactly where the step changes. Explanations are set off by at least one column after the word, and the explanation column never moves left.",
 I,"every event list within bounds",
 "One golden text is tested.",
 ["pkg/tracefmt/tracefmt.go"],[("columns","pkg/tracefmt/tracefmt.go: FprintTraces")],["tracefmt.FprintTraces"])
p("C26","The command transcribes every word it is given",
 "`hangulize LANG` writes the transcription of every non-blank line of the standard input, trimmed and in order, one per line, whether or not the last one ends with a newline, or else of every non-empty argument after the language; `dev HSL` does so by the specification in a file. Verbose output shows the traces of each word elsewhere and leaves the transcriptions as they are. An unknown language, an unusable file or a word which cannot be transcribed ends the command with a non-zero status. `ls` lists each bundled or given specification in order.",
 I,"every input text and argument list within bounds",
 "The command has no tests.",
 ["cmd/hangulize/main.go","cmd/hangulize/dev.go","cmd/hangulize/ls.go"],[("readWords","cmd/hangulize/main.go"),("hangulizeStream","cmd/hangulize/main.go"),("listSpecs","cmd/hangulize/ls.go")],["hangulize LANG","hangulize dev","hangulize ls"])
p("C27","Pattern widths bound every match",
 "The width computed for a regular expression is an upper bound on the number of letters any match of it can have, and is reported as unlimited exactly when the expression contains a star, plus or open repetition.",
 ["programs"],"every regular expression tree within bounds",
 "Tests compute ten expressions.",
 ["pkg/hre/width.go"],[("RegexpMaxWidth","pkg/hre/width.go")],["hre.RegexpMaxWidth","Pattern.NegativeLookaroundWidths"])
p("C28","Normalization folds case and custom letters before any rule",
 "Replacing an upper-case letter of a word by its lower-case letter does not change the result in any bundled language with a cased script, unless its custom normalization speaks of either; a letter listed in a specification's custom normalization acts as the letter it is listed under, which itself escapes the script's own folding.",
 ["inputs","configurations"],"every letter of each bundled language in either case, and every custom normalization within bounds",
 "Examples are mostly written in one case.",
 ["procedure.go","spec.go"],[("normalize","procedure.go: normalize"),("normLetters","spec.go: ParseSpec")],["Hangulize"])
p("C29","Calls from several goroutines at once",
 "Transcribing from several goroutines at once - by a Hangulizer whose configuration is not changed meanwhile, by Hangulizers which share a specification, or by a language name - as well as transliterating by the standard transliterators and loading and unloading bundled specifications, is free of data races and every call gives the result which it gives alone.",
 ["schedules","inputs"],"every schedule of two or more goroutines which make the same calls on shared state, over every bundled language and over specifications with all kinds of entries; judged by a lockset analysis over all accesses to memory which existed before the calls",
 "Tests are sequential, and a race is rarely visible in a result.",
 ["specs.go","translit.go","hangulize.go","procedure.go","pkg/hre","translit"],[("specs","specs.go: LoadSpec, UnloadSpec"),("ensureKagome","translit/furigana/furigana.go"),("Hangulize","hangulize.go")],["Hangulize","Hangulizer.Hangulize","LoadSpec","UnloadSpec","Translits"])
p("C30","hangulize test judges specifications by their examples",
 "`hangulize test` exits with status 0 exactly if every file is a specification and every example in it is transcribed to its expectation; it reports each failing example, in order. The coverage it prints is the share of the rules of all files which took part in transcribing the examples, each file counted once; a coverage profile is written only after all tests have passed, says of every rule of every file, by its line, whether it took part, and replaces what the file held.",
 ["inputs","configurations","schedules"],"every specification file, example and list of files within bounds, in every order of map iteration",
 "The command has no tests.",
 ["cmd/hangulize/test.go","cmd/hangulize/cover.go"],[("testCmd","cmd/hangulize/test.go"),("WriteProfile","cmd/hangulize/cover.go"),("Coverage","cmd/hangulize/cover.go")],["hangulize test"])
p("C31","The JavaScript interface gives what the package gives",
 "In the WebAssembly modules, `hangulize(lang, word, traceFn)` returns a promise which is fulfilled with the result of the package for the language, the word and the registered transliterators, or rejected with an Error which carries the package's message; the trace function gets every trace with its step, word, reason and rule, in order. `useTranslit` registers an asynchronous function as a transliterator unless its scheme is taken; what its promise gives is used, a rejection fails the call. `hangulize.specs` tells each bundled specification as it is. `translit(scheme, word)` gives the result of the standard transliterator.",
 ["inputs","histories"],"every word within bounds, every sequence of two calls, with transliterators which settle at once or later",
 "The native test run does not build these packages.",
 ["cmd/hangulize.wasm","cmd/cyrillic.translit.wasm","cmd/furigana.translit.wasm","cmd/pinyin.translit.wasm"],[("jsHangulize","cmd/hangulize.wasm/hangulize.go"),("promiseTranslit","cmd/hangulize.wasm/translit.go"),("jsSpec","cmd/hangulize.wasm/encode.go")],["hangulize","hangulize.specs","hangulize.useTranslit","translit"])
p("C32","Rules reach the letters of the script, spaces and the marks they name",
 "A transcribing rule applies to the letters of its specification's script, to spaces and to those punctuation marks which a pattern of the specification names - also in a lookaround, a class, a macro or a variable - before, in the order of the rules, a rewriting rule writes them. Any other letter - a mark which no pattern names, a mark which only serves as a hint between rewriting rules, a symbol, a digit, a letter of another script - is returned as it is, even if a transcribing rule names it, and parts the word there.",
 I,"every letter as and next to a mark, every script, every way to name a mark within bounds",
 "Tests use the marks of the bundled specifications in a few words; which letters a rule reaches depends on the order of all rules.",
 ["procedure.go","spec.go","pkg/hre/util.go"],[("partition","procedure.go: procedure.partition"),("marks with a meaning","spec.go: collectPuncts"),("letters of a pattern","pkg/hre/util.go: regexpLetters")],["Hangulize"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
