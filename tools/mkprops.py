#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text stays readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Grapheme clusters follow UAX #29 for Unicode 17 on all valid text",
"For every valid UTF-8 text, the tokens of the graphemes package (with ANSI options off) are exactly the extended grapheme clusters of UAX #29 rules GB1-GB999 under the Unicode 17 property data. This includes every code point's properties, CRLF, controls, Hangul, Extend/ZWJ/SpacingMark/Prepend, Indic conjuncts, emoji ZWJ sequences and regional-indicator pairs, at any length and in any combination.",
["inputs"],"Every valid UTF-8 string or byte slice, any length, any code points of Unicode 17, through every entry point that takes whole text.",
"The official GraphemeBreakTest has a few hundred short samples with one representative per class; it says nothing about the other 1.1 million code points, longer combinations, run lengths, or the ASCII shortcut against the rule engine.",
["graphemes/splitfunc.go","graphemes/iterator.go","graphemes/trie.go"],
[("rule evaluation over one forward pass","graphemes/splitfunc.go splitFunc"),("ASCII hot path","graphemes/iterator.go Next"),("property trie","graphemes/trie.go lookup")],
["graphemes.FromString","graphemes.FromBytes","graphemes.SplitFunc"])

p("C02","Word boundaries follow UAX #29 for Unicode 17 on all valid text",
"For every valid UTF-8 text, the tokens of the words package (without joiners) are exactly the segments given by UAX #29 rules WB1-WB999 under the Unicode 17 property data. This includes every code point's properties, ignorable (Extend/Format/ZWJ) characters anywhere, look-ahead and look-back rules for letters, numbers, quotes and Hebrew, Katakana, spaces, emoji and regional-indicator pairs.",
["inputs"],"Every valid UTF-8 string or byte slice, any length, any code points of Unicode 17, through every entry point that takes whole text.",
"The official WordBreakTest samples short sequences of class representatives; it cannot cover all code points, deeper sequences with ignorables inside look-aheads, long runs, or the alphanumeric shortcut in every context.",
["words/splitfunc.go","words/iterator.go","words/seek.go","words/trie.go"],
[("rule evaluation","words/splitfunc.go splitFunc"),("look-ahead skipping ignorables","words/seek.go subsequent"),("ASCII hot path","words/iterator.go Next"),("property trie","words/trie.go lookup")],
["words.FromString","words.FromBytes","words.SplitFunc"])

p("C03","Sentence boundaries follow UAX #29 for Unicode 17 on all valid text",
"For every valid UTF-8 text, the tokens of the sentences package are exactly the segments given by UAX #29 rules SB1-SB998 under the Unicode 17 property data. This includes every code point's properties, ignorable characters, abbreviations and numbers after a full stop, closing punctuation and spaces after terminators, and look-ahead for a continuing lower-case letter at any distance.",
["inputs"],"Every valid UTF-8 string or byte slice, any length, any code points of Unicode 17, through every entry point that takes whole text.",
"The official SentenceBreakTest has about 500 short samples; the SB8 look-ahead and the Close*/Sp* history are unbounded, and the alphanumeric-and-space shortcut must agree with the rules in every context.",
["sentences/splitfunc.go","sentences/iterator.go","sentences/seek.go","sentences/trie.go"],
[("rule evaluation with history registers","sentences/splitfunc.go splitFunc"),("look-ahead","sentences/seek.go subsequent; sentences/splitfunc.go SB8"),("ASCII hot path","sentences/iterator.go Next")],
["sentences.FromString","sentences.FromBytes","sentences.SplitFunc"])

p("C04","Phrases are words joined across spaces, and never cut a word",
"For every valid UTF-8 text, the phrases package segments by the UAX #29 word rules with exactly two changes: pictographic emoji count as letters, and letters, numbers and horizontal spaces do not separate from one another; so punctuation and line breaks still end a phrase. In consequence every phrase boundary is also a word boundary of the words package on the same text.",
["inputs"],"Every valid UTF-8 string or byte slice, any length, any code points.",
"Unicode has no test suite for phrases; the repository has a few dozen hand-written English examples, so nothing covers other scripts, ignorable characters between words and spaces, or agreement with the words package.",
["phrases/splitfunc.go","phrases/iterator.go","phrases/seek.go","phrases/trie.go"],
[("word rules with emoji as letters and spaces joining","phrases/splitfunc.go splitFunc"),("ASCII hot path","phrases/iterator.go Next")],
["phrases.FromString","phrases.FromBytes","phrases.SplitFunc","words.FromBytes"])

p("C05","Tokenizing any bytes is lossless, contiguous and terminates",
"For any input bytes, valid UTF-8 or not, every tokenizer (graphemes with any ANSI option combination, words with or without joiners, sentences, phrases; iterator, reader or split function) terminates without panic or error. The tokens are non-empty and contiguous and concatenate to exactly the input; empty input yields no tokens.",
["inputs","configurations"],"Every byte string, including truncated, overlong, surrogate and random bytes; every option combination; every entry point.",
"Tests feed random bytes and one file of bad UTF-8 through a few entry points; a truncated sequence at a particular rule's look-ahead, inside an escape sequence, or at the end of text is hit only by luck.",
["graphemes/iterator.go","graphemes/splitfunc.go","graphemes/ansi.go","graphemes/ansi8.go","words/iterator.go","words/splitfunc.go","words/seek.go","sentences/iterator.go","sentences/splitfunc.go","sentences/seek.go","phrases/iterator.go","phrases/splitfunc.go","phrases/seek.go"],
[("zero-width lookups at end of text consume the rest","*/splitfunc.go"),("advance checks","*/iterator.go Next")],
["all public constructors, Next/Value, Scan/Bytes, SplitFunc"])

p("C06","String and []byte inputs are segmented identically",
"For any bytes, valid UTF-8 or not, iterating them as a string and as a byte slice gives the same token texts at the same byte offsets, for all four tokenizers. The same holds for the first token and under the same ANSI options or the same joiners.",
["inputs","configurations"],"Every byte string; all tokenizers; every option or joiner configuration.",
"Tests run the string and bytes APIs on the same small corpora separately; agreement must hold on every input, and the generic code can diverge through type-specific decoding.",
["graphemes/iterator.go","words/iterator.go","words/joiners.go","words/splitfunc.go","sentences/iterator.go","phrases/iterator.go"],
[("one generic implementation instantiated twice","*/iterator.go FromString, FromBytes"),("rune decoding for joiners by type","words/splitfunc.go decodeRune")],
["FromString","FromBytes","First","Start","End"])

p("C07","Reading a stream in any chunks gives the same tokens as whole text",
"For any text, scanning it through FromReader gives exactly the tokens of iterating the whole text, however the reader splits it into reads (single bytes, cuts inside a character, empty reads, data returned together with EOF) and whatever the initial scan buffer, as long as tokens and their look-ahead fit the maximum; this includes words with joiners. If the reader fails, the tokens of the data delivered before the failure still come out, losslessly, and the scanner then reports that error.",
["inputs","schedules","fault_sequences"],"Every text, every partition into reads including empty reads, every buffer size, every point of reader failure; all four tokenizers, with and without joiners.",
"Tests read from an in-memory reader that delivers the text in one piece; the request-more-data paths depend on where the reads cut, which is unbounded.",
["graphemes/reader.go","words/reader.go","sentences/reader.go","phrases/reader.go","graphemes/splitfunc.go","words/splitfunc.go","words/seek.go","sentences/splitfunc.go","sentences/seek.go","phrases/splitfunc.go","phrases/seek.go"],
[("request more data when a rune or token may extend","*/splitfunc.go, */seek.go"),("bufio.Scanner embedding","*/reader.go")],
["FromReader, Scan, Bytes, Text, Err, Buffer, Scanner.Joiners"])

p("C08","Split functions never commit early, and never stall",
"Each package's exported split function, given a prefix of a text and no end-of-input flag, either asks for more data or returns a token that is the same for every continuation of that prefix; it returns the token as the leading bytes it advances over and never an error. At end of input it always makes progress, and without it, it commits the first token once at least two complete following tokens are present.",
["inputs","schedules"],"Every text, every prefix of it, every continuation of a prefix, both values of the end-of-input flag, all four packages.",
"Tests call the split functions only at end of input or via one-read scanners; the commit-early error needs a specific cut within a specific rule's look-ahead, and a stall shows only on streams larger than the buffer.",
["graphemes/splitfunc.go","words/splitfunc.go","words/seek.go","sentences/splitfunc.go","sentences/seek.go","phrases/splitfunc.go","phrases/seek.go"],
[("atEOF handling","*/splitfunc.go"),("look-ahead tri-state result","*/seek.go subsequent")],
["graphemes.SplitFunc","words.SplitFunc","sentences.SplitFunc","phrases.SplitFunc"])

p("C09","7-bit ANSI option: each escape sequence is one token, text unaffected",
"With the 7-bit ANSI option on, in text that is otherwise valid UTF-8, every well-formed ECMA-48 escape sequence starting with ESC (CSI; OSC ended by BEL or ESC backslash; DCS, SOS, PM, APC ended by ESC backslash; any payload bytes; CAN or SUB cancelling and left outside; two-byte and nF forms) is exactly one token, and malformed or unterminated ones, and 8-bit terminators, are not recognised. All other text is segmented as if each sequence were a hard boundary, and with the option off, or without ESC, the option changes nothing.",
["inputs","configurations"],"Every mix of text and well-formed, malformed, cancelled, nested-looking and unterminated escape sequences with any payload bytes, at any position.",
"Tests list a few dozen sequences; the grammar over parameter, intermediate, final, payload and terminator bytes, its truncations, and its interaction with neighbouring clusters is unbounded.",
["graphemes/ansi.go","graphemes/iterator.go"],
[("sequence length parser","graphemes/ansi.go ansiEscapeLength"),("dispatch before grapheme rules","graphemes/iterator.go Next")],
["graphemes.Iterator with AnsiEscapeSequences","Next","First","Value"])

p("C10","8-bit ANSI option: C1 sequences are one token, pairing is strict",
"With the 8-bit ANSI option on, in text that is otherwise valid UTF-8, every well-formed sequence starting with a raw C1 byte (CSI; OSC ended by BEL or C1 ST; DCS, SOS, PM, APC ended by C1 ST; cancelled by CAN or SUB; other C1 controls standing alone) is exactly one token, wherever it occurs between characters. ESC backslash never ends a C1-started string, UTF-8 encoded C1 characters are not sequences, the two options act independently, and the remaining text is segmented as usual.",
["inputs","configurations"],"Every mix of valid UTF-8 text, raw C1 bytes, C1 sequences (complete, cancelled, unterminated) and ESC sequences, under all four option combinations.",
"Tests list about twenty inputs; terminator pairing, truncation, multi-byte payload and neighbouring characters that attract what follows are not enumerated.",
["graphemes/ansi8.go","graphemes/ansi.go","graphemes/iterator.go"],
[("C1 sequence length parser","graphemes/ansi8.go ansiEscapeLength8Bit"),("dispatch before grapheme rules","graphemes/iterator.go Next")],
["graphemes.Iterator with AnsiEscapeSequences8Bit","Next","First","Value"])

p("C11","Joiners join words exactly where configured, and nowhere else",
"With joiners set, words are segmented by the standard word rules, except that a configured middle character counts as a mid-word joiner (it joins the letters or the numbers on both its sides) and a configured leading character counts as a letter when it begins a token. The result is the same for the string iterator, the byte iterator and the reader, for any set of configured characters including a space, and an empty configuration changes nothing.",
["inputs","configurations"],"Every valid UTF-8 text and every set of middle and leading characters other than line breaks and ignorable (Extend, Format, ZWJ) characters; all three entry points.",
"Tests use one sentence and one configuration (@-/ and #.) and only check that some expected tokens occur; other characters, multi-byte joiners, joiners at edges and next to each other are not covered.",
["words/joiners.go","words/splitfunc.go","words/reader.go","words/iterator.go"],
[("property override for configured runes","words/splitfunc.go (j *Joiners).splitFunc"),("hot path must not bypass","words/iterator.go Next")],
["words.Iterator.Joiners","words.Scanner.Joiners"])

p("C12","Iterator operations behave like a cursor over the token list",
"For any sequence of operations on an iterator, each Next moves to the next token of the current text and reports false for good once it is consumed; Value, Start and End describe the current token as a slice of the text, and are empty at zero before the first Next. First returns the first token without disturbing the cursor, Reset starts over, SetText starts on the new text, and options and joiners persist until changed, taking effect from the next token.",
["histories","inputs","configurations"],"Every sequence of Next, Value, Start, End, First, Reset, SetText, option toggles and Joiners calls on any texts, string or bytes, all four packages.",
"Tests exercise fixed short scripts of one operation each on the internal iterator and on First; interleavings, re-use after exhaustion and state left over from an earlier text are unbounded.",
["graphemes/iterator.go","words/iterator.go","sentences/iterator.go","phrases/iterator.go"],
[("cursor fields reset together","*/iterator.go Reset, SetText"),("First works on a copy","*/iterator.go First")],
["Iterator methods of all four packages"],None,
[("data/pos/start","current text and token span","*/iterator.go Iterator")])

p("C13","Independent iterators and scanners do not affect one another",
"Any number of iterators, scanners and split-function calls, over the same or different texts and sharing joiner configurations, can be advanced in any interleaving or concurrently from different goroutines, and each yields exactly the tokens it yields when run alone. Concurrent use of distinct instances is free of data races.",
["schedules","histories"],"Every interleaving of operations on several instances of all four packages; concurrent goroutines each with its own instance.",
"Tests run one iterator at a time; hidden shared state (caches, scratch buffers) shows only when instances are interleaved or run in parallel.",
["graphemes/iterator.go","graphemes/splitfunc.go","words/iterator.go","words/splitfunc.go","words/joiners.go","sentences/splitfunc.go","phrases/splitfunc.go"],
[("all state is per iterator or per call; package variables are read-only","*/iterator.go, */splitfunc.go, */trie.go")],
["all public constructors under interleaving; race detector build"])

p("C14","Tokens are views of the input, which is never modified",
"For byte input, every token (current value, first token, split-function token) is a view of the caller's own memory at exactly the reported offsets, never a copy, and no operation writes to the input. Text changed by the caller ahead of the cursor is seen by later tokens.",
["inputs","histories"],"Every byte input and option or joiner configuration; every token, position and operation.",
"Tests compare token contents only; a copy, a stale buffer or a write-then-restore is invisible to content comparison.",
["graphemes/iterator.go","words/iterator.go","sentences/iterator.go","phrases/iterator.go","graphemes/splitfunc.go","words/splitfunc.go","sentences/splitfunc.go","phrases/splitfunc.go"],
[("tokens are subslices of data","*/iterator.go Value; */splitfunc.go return")],
["Value, First, Start, End, SplitFunc tokens by address"])

p("C15","Iterating allocates no memory per token",
"Iterating any text of any length with a string or byte iterator of any of the four packages (graphemes with any ANSI options) performs no heap allocation per token: the number of allocations does not grow with the text or the number of tokens. Calling a split function allocates nothing.",
["inputs","configurations"],"Every text, valid or not, of any length; all default iterators and ANSI options; string and bytes.",
"Benchmarks report allocations but no test asserts them; a release was retracted for surprising allocations. Allocation can depend on which rule or rune class the text exercises.",
["graphemes/iterator.go","graphemes/splitfunc.go","words/iterator.go","words/splitfunc.go","sentences/iterator.go","phrases/iterator.go"],
[("subslicing generic data, no interface conversion on the default path","*/splitfunc.go, */trie.go lookup")],
["runtime allocation counters around full iteration"])

p("C16","Work grows linearly with the text, whatever the text",
"The amount of work done to tokenize a whole text with an iterator grows at most in proportion to its length, for every tokenizer and every ANSI option combination, on any input, including adversarial repetition such as runs of spaces, ignorable characters, closing punctuation, or unterminated escape sequences.",
["inputs","configurations"],"Every family of inputs obtained by repeating a pattern n times between a prefix and a suffix, as n grows; all tokenizers and option combinations.",
"Tests use short or random text, on which a look-ahead that rescans the rest of the text stays short; quadratic behaviour needs a repeated pattern that defeats the look-ahead.",
["sentences/splitfunc.go","graphemes/ansi.go","graphemes/ansi8.go","graphemes/iterator.go","words/seek.go","phrases/seek.go","sentences/seek.go"],
[("single forward pass with bounded rescans","*/splitfunc.go; */seek.go; graphemes/ansi.go")],
["executed basic-block counts of the repository's code (coverage counters)"])

p("C17","Bleve type helpers agree with Bleve's definition of numeric and ideographic",
"For every non-empty valid UTF-8 token, the numeric helper reports true exactly when the token matches Bleve's WordNumeric pattern over the Unicode 17 word properties (numbers, connected by single mid-number punctuation or connector punctuation, ignorable characters allowed after each, with at least one number). The ideographic helper reports true exactly when the token starts with a Han, Hiragana or Katakana character and continues only with those, connector punctuation or ignorable characters.",
["inputs"],"Every non-empty valid UTF-8 byte string, of any length and composition (Han characters added after Unicode 15 excepted: either answer).",
"Tests classify about twenty tokens; the pattern's repetition structure, ignorables, trailing punctuation and connector-only tokens are not sampled.",
["words/bleve_compat.go","words/trie.go"],
[("numeric state walk","words/bleve_compat.go BleveNumeric"),("ideographic scan","words/bleve_compat.go BleveIdeographic")],
["words.BleveNumeric","words.BleveIdeographic"])

p("C18","The shared generic iterator walks any split function faithfully",
"The internal generic iterator, for any split function that makes progress, yields exactly the consecutive pieces that function defines with matching offsets, and Reset, SetText, Split and First behave as a cursor over them; a split function that stalls, overruns or fails causes a panic rather than an endless loop or a wrong token. The alphanumeric filter is true exactly for tokens containing a Unicode letter or number, valid UTF-8 or not.",
["inputs","histories","programs"],"Every progressing or misbehaving split function, every text and every operation sequence; every byte token for the filter.",
"Tests use whitespace splitting and a handful of texts; the iterator must hold for all split functions, and the filter for all code points and invalid bytes.",
["internal/iterators/iterator.go","internal/iterators/filter/filter.go"],
[("advance checks and cursor fields","internal/iterators/iterator.go"),("rune scan","internal/iterators/filter/filter.go")],
["iterators.New, Next, Value, Start, End, First, Reset, SetText, Split","filter.AlphaNumeric"])

p("C19","The generator turns Unicode data files into equivalent tables and tests",
"For any well-formed Unicode data files, running the code generator produces packages whose tokenizers behave as the rules prescribe under exactly those property assignments, for every code point; on the Unicode 17 data this is the behaviour of the committed packages. The generated conformance tests contain exactly the cases of the Unicode test files.",
["inputs","programs"],"Every assignment of break properties, emoji and Indic conjunct properties to code points and ranges, in any file order and layout the UCD format allows; every break-test file.",
"The generator has no tests that run (it downloads from unicode.org), and one committed output says nothing about other data, such as the next Unicode version.",
["internal/gen/main.go","internal/gen/triegen/triegen.go","internal/gen/triegen/compact.go","internal/gen/triegen/print.go"],
[("UCD parsing and property bit assignment","internal/gen/main.go"),("block-sharing trie builder and lookup template","internal/gen/triegen")],
["running the generator with a stand-in for the download, then the generated packages' public API"],
"An extra source file overlaid at build time replaces the HTTP transport with local files; nothing in /repo changes.")

p("C20","A custom split function on the words iterator decides every token",
"After a caller sets its own split function on a words iterator, every following token, and the first token, is exactly what that function advances over in the remaining text, on every text including plain ASCII. A function that fails, does not advance, or advances past the end causes a panic, never an endless loop or a token outside the text; Reset and SetText keep the function.",
["programs","inputs","histories"],"Every split function (arbitrary deterministic function of the remaining text), every text, string and bytes.",
"No test sets a custom split function on the words iterator.",
["words/iterator.go","words/joiners.go"],
[("split field consulted by Next","words/iterator.go Split, Next, First")],
["words.Iterator.Split, Next, Value, First"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
