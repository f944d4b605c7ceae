#!/usr/bin/env python3
"""Writes /verif/checks.json from the table below."""
import json, os
C = {}
def prop(pid, harnesses, quick, thorough, outside, stubs=(), assumptions=(), quick_s=240, thorough_s=1800):
    C[pid] = dict(harness=harnesses, bounds=dict(quick=quick, thorough=thorough), outside=outside,
                  stubs=list(stubs), assumptions=list(assumptions), quick_s=quick_s, thorough_s=thorough_s)
def h(pid, func, quick, thorough=None, dir=None, **kw):
    d = dict(file=pid+'.go', dir=dir or 'internal/verifrt/'+pid.lower(), func='VH_'+func, quick=quick, thorough=thorough or quick)
    d.update(kw)
    return d

CMD = dict(dir='cmd/hangulize', imports={'os': 'vos'})

prop('C01', [h('C01','phonemes',5), h('C01','widths',7), h('C01','long',4), h('C01','spelt',3)],
  'sequences of 4 phonemes (any lead, vowel, hyphenated tail) or non-Hangul letters of 1 and 3 bytes; 3 with non-Hangul letters of all lengths; 3 phonemes in any mixture of the two spellings Unicode has for them (U+3131.. and U+1100..); 3 phonemes after a text of 4088 to 4096 bytes (the end of the reader buffer)',
  'sequences of 6; otherwise as quick',
  'longer sequences; letters which are no modern jamo of their position (e.g. a tail consonant cluster as a lead), ill-formed UTF-8, hyphens before anything but a tail')
prop('C02', [h('C02','identity',5), h('C02','split',1), h('C02','tail',2), h('C02','long',3), h('C02','between',12)],
  'texts of 4 syllables or non-Hangul letters of any length but hyphens; 3 split syllables in a row; one composed syllable with a hyphenated tail between any of: nothing, a syllable, an ASCII letter, a written syllable; the same after 4086 bytes and more; 2 composed syllables with phonemes of any kind before, between and behind',
  'texts of 6; 5 split syllables; 3 syllables with tails in a row',
  'longer texts')

prop('C03', [h('C03','between',40), h('C03','letters',40), h('C03','long',40)],
  'every listed language without a transliterator: words of its examples with any foreign letter (no letter of the script, none in the specification, no space) and one of 4 others before, between, after, and alone; any letter of the alphabet, a foreign text, any letter of the alphabet; a letter of a word among 4 and 16 words with foreign letters between',
  '3 letters of the alphabet around 3 foreign texts; otherwise as quick',
  'letters which a specification mentions though they are not of its script; punctuation next to spaces (C07); longer words')

prop('C04', [h('C04','letters',40), h('C04','spaces',40), h('C04','long',40)],
  'every listed language: every word of 2 letters of the alphabet of its patterns, and 2 words of a letter; transliterators are stand-ins which hand over the word; one letter among all letters of the alphabet, once and three times over, before and after',
  'words of 3 letters; words of 1 and 2 letters',
  'longer words; letters of the script which no pattern mentions; names of macros and markers')

prop('C05', [h('C05','runes',40), h('C05','bytes',40), h('C05','small',12), h('C05','history',6), h('C05','many',6), h('C05','long',6)],
  'every listed language: words of any one letter, or any one byte, alone and in a text of other scripts; 3 small specifications on words of 2 bytes (one any, one of 10) in either order after a letter; these on words of up to 2 letters out of 6 after two calls with other words of up to 4 letters; words of 2 letters out of 6 after words of up to 900 letters, and after 40 and 300 calls with other words, also on another specification',
  'any 2 letters; 2 bytes; 3 bytes',
  'longer words; panics and hangs of specifications which a user writes with patterns that match nothing')

prop('C06', [h('C06','is',5), h('C06','norm',5), h('C06','case',3), h('C06','punct',5), h('C06','spec',6)],
  'every code point (is: every 32-bit value), one letter at a time',
  'as quick',
  'nothing but the Unicode version of the toolchain: its tables are the oracle',
  assumptions=['the case and script tables of the unicode package and the decompositions of x/text are right'])

prop('C07', [h('C07','japanese',6), h('C07','any',2), h('C07','long',6), h('C07','other',4)],
  'texts of 3 letters: CJK and other punctuation, spaces, zero-width spaces, Hangul, Han, Latin and other letters; of 2 letters which are any code point but kana, also before a CJK mark; 2 letters after a text of 450; 3 in the other scripts',
  'texts of 4; otherwise as quick',
  'longer mixtures; kana and rules around the punctuation (C04, C09)')

prop('C08', [h('C08','pairs',16), h('C08','triples',16), h('C08','long',16), h('C08','many',10,32)],
  'specifications of 2 and of 3 rewriting rules out of 16 (literals, a class, alternatives, edges, lookarounds, markers, removal, a mark and a digit), words of 4 and of 3 letters out of a, b, c and space, or a, b, a digit and a mark where a rule mentions one; 2 letters in words of up to 650 letters; 2 rules among 20 and 200 others',
  'words of 5 and 4 letters out of all of these',
  'more rules and letters; what a single match is (C10)',
  assumptions=['results are observed through transcribing rules which map each letter to a syllable of its own'])

prop('C09', [h('C09','pairs',16), h('C09','triples',16), h('C09','markers',16), h('C09','long',16), h('C09','many',10,32)],
  'specifications of 2 and of 3 transcribing rules out of 16 (literals, a class, alternatives, edges, lookarounds, removal, spaces, a mark, results in jamo), words of 4 and of 3 letters out of a, b, c and space, or a, b, a digit and a mark where a rule mentions one; 2 rules after rewriting rules which write letters, spaces, marks and markers; 2 letters in words of up to 650 letters; 2 rules among 20 and 200 others',
  'words of 5 and 4 letters out of all of these',
  'more rules and letters; patterns which match NUL, like a dot; what a single match is (C10)')

prop('C10', [h('C10','edges',15), h('C10','looks',11), h('C10','both',9), h('C10','any',8), h('C10','bundled',40), h('C10','long',15)],
  'patterns of 3 left and 3 right edges around 15 cores (literals, classes, alternatives, optional and repeated letters, variables, macros) on words of 5 letters; with 11 lookarounds on either side on words of 4; both on words of 3; 8 patterns on words of any 3 letters; every pattern of every bundled specification on words of 4 letters of the pattern, another one, space and braces; 3 letters in words of up to 280 letters for each core, also with an edge or a lookaround',
  'words of 6, 5, 3, 4 and 6 letters',
  'top-level alternation and groups of the user with edges, inverted classes, edges in negative lookarounds; for words with more letters nothing is claimed; which places a pattern with a lookaround before its core or a negative one matches (only that each match is right, for single letters also that none is missed)')

prop('C11', [h('C11','small',12), h('C11','any',12), h('C11','bytes',1), h('C11','bundled',40), h('C11','long',12)],
  '12 cores of literals and variables in 8 contexts (edges and lookarounds with variables), 15 replacements (fewer and more variables, unknown and empty ones, shorter and longer values, markers), words of 4 letters; words of any 3 letters and of any 3 bytes; every bundled rule of literals and variables on words of 3 letters; 3 letters in words of up to 280 letters for each core',
  'words of 5 letters, 4 bytes and 5 letters',
  'capturing groups of the user in a core which has variables; longer words')

prop('C12', [h('C12','once',4), h('C12','rounds',2), h('C12','builder',2), h('C12','long',1), h('C12','apart',3)],
  'words of up to 3 letters of 1 or 3 bytes, up to 2 replacements by up to 2 letters; 2 rounds on 2 letters; 4 subwords of levels 0 to 2; a word of 601 letters; builders and replacers given the same slices',
  '3 replacements, 3 rounds, 6 subwords',
  'ill-formed UTF-8 (the procedure only hands over well-formed words); replacements which overlap, descend or split a letter')

F = 'translit/furigana'
prop('C20', [h('C20','marks',7,dir=F), h('C20','whole',7,dir=F), h('C20','long',6,dir=F)],
  'texts of 4 letters: any kana, any mark, any letter outside the kana blocks; 2 letters after texts of 20, 100 and 500 letters',
  'texts of 5',
  'the letters of the kana blocks which are no kana (middle dot, prolonged sound mark, voicing marks, digraphs); longer texts',
  stubs=['kagome'], assumptions=['the tokenizer is a stand-in which hands over the text it is given'])

prop('C21', [h('C21','pair',3,dir=F), h('C21','chain',4,dir=F), h('C21','long',4,dir=F), h('C21','offset',1,dir=F), h('C21','whole',4,dir=F)],
  'any two letters with offset 0 to 2; a kana before 2 vowels; the end of a text of 300; unknown words and auxiliaries of tokens',
  '3 vowels',
  'small ヵ and ヶ; longer texts', stubs=['kagome'],
  assumptions=['the relation of vowels to rows is the one of the rows of kana, without ティ, ディ, トゥ and ドゥ'])

prop('C26', [h('C26','stdin',8,**CMD), h('C26','long',2,**CMD), h('C26','args',1,**CMD), h('C26','modes',4,**CMD)],
  'standard inputs of up to 3 letters (newlines, spaces, others) with a bundled language, of 4 with a specification; a letter around the end of the reader buffer (4096); 3 arguments of up to 2, 1 and 1 letters; verbose runs, failing ones, and lists of languages with words of 2 letters out of 4 and 3',
  'inputs of 4 and 5; 5 arguments',
  'ill-formed UTF-8; longer inputs; failing standard input',
  stubs=['kagome','pinyin','cobra','runewidth'], assumptions=['cobra hands over the arguments'])

prop('C13', [h('C13','quoted',4), h('C13','bare',2), h('C13','layout',12), h('C13','any',8), h('C13','source',4), h('C13','large',15), h('C13','again',2)],
  'strings of any 2 letters, quoted with and without lazy backslashes, as name, key and value; names of 2 letters of 9 ranges without quotes; 2 sections of up to 2 pairs of up to 2 values with 2 of: blank lines, comments, ends of line of 3 kinds, no values; every text of 4 of the 15 letters of the grammar behind 8 beginnings; sources with any 2 bytes in a comment, any 2 letters in a string, of 4200 bytes; documents with 20, 70 and 300 sections, pairs, keys or values before 2 letters, and with strings, words and comments of up to 4500 letters; 3 sections of 2 names with up to 2 pairs each',
  'strings of 3 letters; 4 unusual places; texts of 6 letters',
  'deeper documents; letters outside the 9 ranges without quotes',
  assumptions=['the reference parser of the harness says what a text spells'])

prop('C14', [h('C14','bytes',10), h('C14','letters',8), h('C14','keys',2), h('C14','reader',8), h('C14','script',2), h('C14','kinds',18), h('C14','patterns',25), h('C14','mutated',24), h('C14','runes',4)],
  'texts of 2 bytes (one any, one of 20) behind 5 beginnings; texts of 4 of 13 letters behind 8 beginnings; every pair of keys of up to 2 letters; a reader which fails in 4 ways after each byte of a specification; any letter after, in and before a string without quotes; scripts of any 4 letters; 18 wrong sections and 25 wrong patterns with any letter in them; a specification with any byte replaced, added or dropped by one of 26',
  'texts of 3 bytes, 5 letters',
  'longer malformed texts; macros which make a pattern valid; scripts are compared case-sensitively and an empty one is no error',
  assumptions=['the reference parser of the harness says which texts are malformed'])

prop('C15', [h('C15','history',8), h('C15','unknown',5), h('C15','listed',8), h('C15','all',2)],
  'every history of 4 calls (load, unload, transcribe, an unlisted name) on 2 languages; names of any one letter, any 2 ASCII letters, 3 lower-case letters, a listed name and any letter, 16 odd names; each of the listed languages loaded, unloaded and loaded; all languages loaded, then any one or two of them unloaded; the same after 400 unlisted names',
  'histories of 6',
  'longer histories; names of more letters')

prop('C16', [h('C16','sequence',3), h('C16','install',2)],
  'sequences of 5 additions and removals of transliterators whose schemes are any one ASCII letter, on two registries, all three listed and the listing changed after each; installing after up to 3 additions, twice and after removing',
  'sequences of 6',
  'longer sequences and schemes', stubs=['kagome','pinyin'], assumptions=['the transliterators of the standard set are told apart by identity'])

prop('C17', [h('C17','chain',6), h('C17','bundled',7), h('C17','reenter',3)],
  'chains of 0 to 3 declared transliterators (also one twice), each present, missing or failing, with any outputs of one letter out of 9 and words of up to 2 letters, called twice, then repaired, then one removed; the 7 bundled languages with transliterators on any letter; words of 2 letters whose transliterator transcribes or panics',
  'chains on words and outputs of all letters',
  'longer chains; a transliterator which changes the registry while it runs')

prop('C18', [h('C18','orders',12), h('C18','names',4), h('C18','bundled',40), h('C24','text',4,dir='translit/cyrillic',initorder=1)],
  '6 specifications whose macros, variables and letters are parts of each other, parsed with every map of up to 4 entries in any order, on words of 3 letters; macros and letters of up to 2 letters out of 4 in any order; every bundled specification parsed and used in 2 other orders, on every letter of its normalization; the Cyrillic transliterators initialized in reverse order, on texts as in C24',
  'words of 4 letters',
  'orders which differ from one iteration of a map to the next, where a map is iterated more than once (except with 2 names)')

prop('C19', [h('C19','rules',7), h('C19','translits',2), h('C19','any',12), h('C19','many',6), h('C19','reenter',3)],
  '2 rewriting out of 7 and 2 transcribing rules out of 7 on words of 3 letters, the exact events; 3 transliterators which change the word or not; words with any letter but NUL in 3 scripts, the order of the events; the function replaced and removed; 44 rules and 150 events on words of up to 25 letters of which 2 vary; a function which transcribes or panics at any event',
  'all pairs of transcribing rules',
  'NUL, which a trace shows as a dot; the empty word, which has no input event')

prop('C22', [h('C22','tokens',16,dir=F), h('C22','few',4,dir=F), h('C22','many',2,dir=F)],
  '4 tokens of 16 kinds (names of people, places and others, words, particles, auxiliaries, marks, unknown words, spaces, fillers, dummies, user words), with any of 31 kana each; up to 3 tokens of any kinds; 60 tokens',
  '5 tokens',
  'tokens with vowels (C21); known tokens without a pronunciation', stubs=['kagome'])

prop('C23', [h('C23','text',6), h('C23','long',2), h('C23','empty',1)],
  'texts of 3 letters: any Han character with or without a reading, ASCII, kana, full-width and circled letters, ligatures, emoji and zero-width spaces, letters which are written in another way in NFC; texts of 50',
  'texts of 4',
  'readings of the real dictionary; letters which combine, but 4', stubs=['pinyin'])

prop('C24', [h('C24','text',4,dir='translit/cyrillic'), h('C24','pair',4,dir='translit/cyrillic'), h('C24','cyrillic',4,dir='translit/cyrillic'), h('C24','long',4,dir='translit/cyrillic')],
  'texts of 3 letters out of 17 of each mapping and one of 2; any 2 letters at all; 3 Cyrillic letters; 2 letters in texts of up to 1260 letters',
  'texts of 4 letters; any 2 letters and one of Latin-1',
  'longer texts')

prop('C25', [h('C25','events',5), h('C25','word',3), h('C25','real',1), h('C25','many',3), h('C25','why',7)],
  '3 events of 1 to 3 steps with words of 5 widths (0 to 17 columns, narrow, wide and zero-width letters), rules, reasons or neither; words of any letter; reasons of any letter, a step or a word; the events of real transcriptions; 20, 70 and 300 events of which 2 words vary',
  '4 events',
  'words with spaces; control characters; steps without a name', stubs=['runewidth'], assumptions=['the width of a text is the sum of the widths of its letters'])

prop('C27', [h('C27','tree',10), h('C27','match',22), h('C27','look',22)],
  'parsed expressions of depth 2 with every operator, up to 3 subexpressions, repetition counts from 0 to 1000 or open, literals of up to 3 letters; 22 expressions on words of 4 letters; the widths of patterns with these expressions in their lookarounds',
  'depth 3; words of 6 letters',
  'deeper expressions', assumptions=['the matcher of the regexp package is a model of the engine, checked against the package when a path is validated'])

prop('C28', [h('C28','case',40), h('C28','examples',40), h('C28','listed',40), h('C28','custom',2), h('C28','long',40)],
  'every listed language: any upper-case letter of its script, alone, after and within an example; its first 6 examples with each letter in either case; each letter of its custom normalization, alone, after and within an example; a custom normalization with any letter of Latin and any of 4 scripts; a letter after words of examples, 6 and 24 times over',
  '60 examples; otherwise as quick',
  'letters whose upper and lower case are not each other\'s; words besides the examples')

prop('C29', [h('C29','langs',40), h('C29','small',2), h('C29','translits',15), h('C29','catalogue',1)],
  'every listed language: the first example and any letter, transcribed by one Hangulizer with and without a trace function, by Hangulizers of their own, by language name, and with loading and unloading; a small specification with all that one may have on two words of up to 2 letters out of 10; the standard transliterators on any letter and one of 8; any two loads, unloads and listings of 4 names',
  'as quick',
  'changing a Hangulizer or a registry while it is in use; longer words; synchronization which orders accesses by sync/atomic or channels is taken to be right',
  stubs=['kagome','pinyin'], assumptions=['memory which is written and not guarded by a lock common to all accesses is a data race (as in Eraser); before it is reported, the race detector of Go has to see it'])

prop('C30', [h('C30','status',12,**CMD), h('C30','files',20,**CMD), h('C30','translit',1,**CMD), h('C30','large',5,**CMD)],
  'one file of 3 specifications with 2 examples: words of up to 2 letters, expectations of up to 2 out of 9; 3 files which may be the same, missing or malformed; without coverage, with it, and with a profile; files with a line of 70000 letters, with CRLF, with 150 rules, with 100 examples; 12 files twice; every order of maps',
  '3 examples',
  'more files and examples; write errors; the layout of the usage message',
  stubs=['kagome','pinyin','cobra','runewidth'], assumptions=['the stand-ins for cobra and os behave like these for the flags and files used here'])

WASM = dict(imports={'syscall/js': 'vjs'})
prop('C31', [h('C31','langs',8,40,dir='cmd/hangulize.wasm',**WASM), h('C31','calls',8,dir='cmd/hangulize.wasm',**WASM), h('C31','specs',1,dir='cmd/hangulize.wasm',**WASM),
    h('C31','cyrillic',6,dir='cmd/cyrillic.translit.wasm',file='C31t.go',**WASM), h('C31','furigana',1,dir='cmd/furigana.translit.wasm',file='C31t.go',**WASM), h('C31','pinyin',1,dir='cmd/pinyin.translit.wasm',file='C31t.go',**WASM)],
  '8 languages, all kinds of transliterators among them: the first example and any letter, with and without a trace function; 2 calls in a row of 4 languages on words of up to 2 letters, with 4 sets of transliterators which settle at once or later; the specifications of all languages; any letter and one of 2 to 4 others by the modules of the standard transliterators',
  'every listed language',
  'ill-formed UTF-8; values which are no text; transliterators which never settle or are no promises; the real event loop',
  stubs=['kagome','pinyin'], assumptions=['the stand-in for syscall/js behaves like it for values, functions and promises'])

prop('C32', [h('C32','words',15), h('C32','any',15)],
  'every script and 21 marks (16 kinds of punctuation, symbols, a digit, a Han letter): 15 specifications which name the mark in a pattern, a class, a lookaround, a macro or a variable of a rewriting or a transcribing rule, write it before or after, or do not name it; words of 3 letters out of the mark, two letters of the script, a space and another mark; any letter before and behind the mark',
  'words of 4 letters',
  'letters of a regular expression and "/" as marks; escaped marks; marks written by macros or variables of a replacement; CJK punctuation in Japanese (C07)')

json.dump(C, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../checks.json'), 'w'), indent=1, ensure_ascii=False)
