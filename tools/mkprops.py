#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Plural expressions evaluate exactly as C evaluates them",
  "Evaluating any well-formed plural expression over n, integer literals, parentheses and the C operators, with any spacing, yields for every n the value C yields (64-bit integers, any non-zero value is true, C precedence and associativity). Formulas recognised as common ones give the same value as the general evaluation of the same text.",
  ["inputs", "programs"], "every expression tree up to a size bound over every operator and leaf, in several spellings, and every n of a boundary set; every common formula for n over full periods and 64-bit boundaries",
  "The tests evaluate about forty hand-written expressions, mostly at n=0 or 1 where non-zero truthiness, precedence and associativity cannot be told apart.",
  ["plurals/exp.go", "plurals/common.go", "plurals/stack.go", "plurals/plural.g4", "plurals/parser/plural_parser.go"],
  [("stack evaluation of the parse tree", "plurals/exp.go: ExitExp, ExitPrimary"), ("table of common formulas", "plurals/common.go: commons"), ("grammar alternatives order = precedence", "plurals/plural.g4")],
  [("stack", "operand stack of one evaluation", "plurals/exp.go myListener.stack")], ["plurals.Eval"])
p("C02", "Malformed plural expressions give an error, never a crash",
  "Evaluating any text returns, without panicking or hanging, and gives an error unless the text is a complete plural expression that can be evaluated; division by zero and out-of-range literals are errors too. A bad expression in a catalogue never breaks lookups: they fall back to the source language's singular or plural.",
  ["inputs"], "every string of tokens up to a length bound over a token alphabet with every operator, junk characters, huge literals and whitespace",
  "Two malformed expressions are tested; the space of strings is unbounded and the evaluator's stack handling under error recovery is exercised by none.",
  ["plurals/exp.go", "plurals/err.go", "translator/plural.go", "translator/file.go"],
  [("recover in Eval", "plurals/exp.go: Eval"), ("error listener on lexer and parser", "plurals/err.go"), ("-1 index on error", "translator/plural.go: parsePlural")], observe=["plurals.Eval", "File.XN64"])
p("C03", "Plural evaluation depends only on the expression and n",
  "The value and the success or failure of a plural evaluation are a function of the expression text and n alone, whatever valid or invalid expressions were evaluated before it in the process. Two spellings that differ only in spaces or tabs between tokens evaluate alike.",
  ["histories"], "every ordered sequence up to a length bound over a corpus of expressions (common, general, failing, panicking), each in a fresh process state and in a warmed one",
  "Each test evaluates in one fixed order; the parser keeps process-global prediction caches, so order is a hidden input.",
  ["plurals/exp.go", "plurals/common.go", "plurals/parser/plural_parser.go", "plurals/parser/plural_lexer.go"],
  [("fresh lexer, parser and listener per call", "plurals/exp.go: Eval"), ("process-global ATN/DFA", "plurals/parser/plural_parser.go: PluralParserStaticData")],
  [("decisionToDFA", "prediction cache shared by all evaluations", "plurals/parser/plural_parser.go")], ["plurals.Eval"])
p("C04", "Plural lookups return the form the Plural-Forms rule selects",
  "A plural lookup returns, formatted, the message's translated form whose index the catalogue's Plural-Forms expression yields for n, when that index is below nplurals and the form exists and is not empty; otherwise it returns the source singular for n=1 (or when no source plural is given) and the source plural for every other n. A message stored without plural forms returns its single translation, or its msgid when untranslated, for every n, and no combination of header, forms present and n makes the lookup crash.",
  ["inputs", "configurations"], "every combination of nplurals 0-9 (and malformed headers), expression, number of forms present, which are empty, n in a boundary set including negatives and 64-bit limits, arguments, PO or MO source",
  "The tests use nplurals=1 and an entry that has as many forms as the header says; catalogues with fewer or more forms, rules that yield out-of-range indexes, and n beyond 2 are not tried.",
  ["translator/file.go", "translator/plural.go", "f/format.go", "translator/po.go", "translator/mo.go"],
  [("index check against nplurals and forms", "translator/file.go: XN64"), ("header regexp", "translator/plural.go: parsePlural"), ("default plural", "f/format.go: DefaultPlural")], observe=["File.XN64", "t.N", "t.XN"])
p("C05", "A lookup returns exactly the message's own translation, else the source",
  "A lookup of (context, msgid) returns the non-empty translation stored under that exact context and msgid and nothing else; with none stored it returns the msgid itself. Messages that share a msgid under different contexts (or none), or whose texts are prefixes or concatenations of one another, never answer for one another.",
  ["inputs", "configurations"], "every catalogue of up to four messages over a colliding key alphabet, queried with every key, loaded from PO and from MO and through a translation set",
  "Tests look up a handful of fixed keys that are present.",
  ["translator/file.go", "translator/util.go", "translator/entry.go", "translations.go", "translaton.go", "translator.go"],
  [("context+EOT+msgid key", "translator/util.go: key"), ("noop translator", "translator.go")], observe=["File.X", "t.T", "t.X"])
p("C06", "Language and plural rule always follow the catalogue's header entry",
  "After any sequence of adding or replacing entries and of queries, a catalogue's headers, language and plural rule are those of its current header entry (the one with empty msgid and no context), the first of repeated header keys winning, independent of the order of additions and of whether it was queried before. A message with a context and an empty msgid is an ordinary message.",
  ["histories"], "every sequence up to a length bound of add-header (several versions), add-message, add-context-with-empty-msgid, and each query",
  "Tests add the header first and query afterwards; caching makes the order matter.",
  ["translator/file.go", "translator/entry.go", "translator/plural.go"],
  [("lazy caches headers/plural", "translator/file.go: initHeader, initPlural, AddEntry")],
  [("headers, plural", "caches derived from the header entry", "translator/file.go File")], ["File.Lang", "File.GetHeader", "File.XN64"])
p("C07", "Formatting: verbatim without arguments, Sprintf without EXTRA otherwise",
  "Without arguments a message is returned byte for byte, whatever verbs it contains; with at least as many arguments as its verbs consume it is formatted as fmt.Sprintf would with just those, surplus arguments being silently ignored. Formatting never modifies the argument slice the caller passed or the memory behind it.",
  ["inputs"], "every format string up to a length bound over literal, verb, flag, index and percent tokens, with every argument list up to three values and every spare capacity",
  "Ten formats are tested; surplus arguments with explicit indexes, stars, dangling percent signs and slices with spare capacity are not.",
  ["f/format.go", "translator/file.go", "translator.go"],
  [("appended blank argument consumed by an indexed verb", "f/format.go: Format")], observe=["f.Format", "t.T", "t.N"])
p("C08", "Reading PO text yields exactly the messages written in it",
  "For every well-formed PO text in the usual layout (keyword, blank and quoted string on one line, each continuation string on its own line) the reader returns exactly its translated messages with their comments, context, msgid, plural msgid and translations, continuation lines concatenated, the last of duplicate messages winning. Line endings (LF or CRLF), blank lines, a missing final newline, and how a string is divided over continuation lines make no difference.",
  ["inputs"], "every file of up to three messages over every combination of fields present, string shapes, comments, and layout, plus every line sequence up to a bound that is well-formed",
  "The tests read a dozen hand-written fragments.",
  ["translator/po.go", "translator/reader.go", "translator/util.go", "translator/file.go"],
  [("line-driven state machine", "translator/po.go: readEntry"), ("one-line pushback", "translator/reader.go")],
  [("previousLineState", "field the last line belonged to", "translator/po.go readEntry")], ["translator.ReadPo", "translator.ReadPot"])
p("C09", "PO string escapes decode to the bytes they denote",
  "Every quoted PO string built from raw text and the C escapes (backslash, quote, a b f n r t v, octal, hex) decodes to exactly the bytes it denotes, in every field; an unterminated or wrongly escaped string is an error for the file.",
  ["inputs"], "every string literal up to a token-length bound over raw, escape and multi-byte tokens, in each field",
  "No test contains an escape other than \\n.",
  ["translator/util.go", "translator/po.go"], [("unquoting", "translator/util.go: removePrefixAndUnquote")], observe=["translator.ReadPo"])
p("C10", "The PO and POT readers survive any input",
  "Reading any bytes as PO or POT terminates without panicking and returns either a catalogue and no error or an error and no catalogue; empty input, an unknown line, an unquoted or broken string, and plural forms out of sequence are errors. Whatever is read can be queried and saved again without a crash.",
  ["inputs"], "every sequence up to a bound of lines from an alphabet of valid, invalid, and misplaced lines, read in both modes; every one-byte mutation and truncation of a sample file",
  "Seven malformed fragments are tested, in PO mode only.",
  ["translator/po.go", "translator/reader.go", "translator/file.go"], [("error returns of readEntry", "translator/po.go")], observe=["translator.ReadPo", "translator.ReadPot"])
p("C11", "Saving as PO and reading back preserves the catalogue",
  "Every catalogue of translated messages saved as PO and read again has the same messages, contexts, plural forms, translations, comments and headers, and saving that again gives the same bytes.",
  ["inputs"], "every catalogue up to a bound over string shapes (long, multi-line, blanks, escapes, non-ASCII, control characters), contexts, plural forms and comments",
  "The writer's tests compare five outputs; no test reads one back.",
  ["translator/po.go", "translator/pot.go", "translator/wrap.go", "translator/entry.go"],
  [("wrapping", "translator/wrap.go: split"), ("quoting", "translator/pot.go: writeString")], observe=["File.SaveAsPo", "translator.ReadPo"])
p("C12", "Saved PO and POT text is valid for any GNU gettext reader",
  "Text saved as PO or POT follows the PO grammar of GNU gettext: only keywords, quoted strings with C escapes that gettext knows, and comments, so that an independent reader recovers exactly the same strings; a string's pieces concatenate to it, and the header entry comes first.",
  ["inputs"], "every catalogue up to a bound over every byte class and rune class, lengths around the wrapping threshold, and newline and blank placements",
  "Nothing reads the output except this library's own, more lenient reader; expected outputs are a handful of ASCII and CJK strings.",
  ["translator/po.go", "translator/pot.go", "translator/wrap.go"], [("quoting and wrapping", "translator/pot.go: writeString; translator/wrap.go: split"), ("ordering", "translator/file.go: SortedEntry")], observe=["File.SaveAsPo", "File.SaveAsPot"])
p("C13", "Every valid MO file is read correctly",
  "Any valid MO file, of either byte order and revision and with any placement of its tables, strings and optional hash table, is read to exactly the messages, contexts, plural forms and headers it holds.",
  ["inputs", "configurations"], "every catalogue of a menu in every layout: byte order, revision, order and gaps of tables and string areas, shared strings, hash table present or not",
  "One little-endian file is read by the tests.",
  ["translator/mo.go"], [("header decoding and table seeks", "translator/mo.go: ReadMo")], observe=["translator.ReadMo"])
p("C14", "Truncated or corrupt MO files are rejected safely",
  "Reading any byte string as MO terminates without panicking or allocating memory out of proportion to the input; a truncated file, a bad magic number, an unsupported revision, or a table or string outside the file is an error.",
  ["inputs", "fault_sequences"], "every truncation point and every replacement of each header and table word by each of a set of hostile values, in several files of both byte orders; pairs of such faults in small files",
  "No test reads a damaged MO file.",
  ["translator/mo.go"], [("error returns of ReadMo", "translator/mo.go: ReadMo")], observe=["translator.ReadMo"])
p("C15", "Saving as MO and reading back preserves translations",
  "Every catalogue saved as MO and read again answers every singular and plural lookup, and every header query, as the original does; PO text and the MO file made from it are interchangeable.",
  ["inputs"], "every catalogue up to a bound over string shapes, contexts, plural forms including empty ones and an empty plural msgid, read from PO or built by hand",
  "One file is re-saved by the tests.",
  ["translator/mo.go", "translator/file.go"], [("offset computation", "translator/mo.go: SaveAsMo"), ("EOT and NUL joining", "translator/mo.go: moMsgID, moMsgStr")], observe=["File.SaveAsMo", "translator.ReadMo"])
p("C16", "Saved MO files follow the MO format",
  "A saved MO file has the right magic, revision and count, and every table entry points inside the file to a NUL-terminated string of the stated length, so that an independent reader recovers exactly the catalogue's messages; the original strings are sorted as the format demands.",
  ["inputs"], "every catalogue up to a bound (counts from zero, string lengths, contexts, plurals), decoded by an independent MO decoder",
  "The saved file is only read by the same package, whose reader tolerates what other readers do not.",
  ["translator/mo.go", "translator/file.go"], [("writer", "translator/mo.go: SaveAsMo, writeMoHeader")], observe=["File.SaveAsMo"])
p("C17", "A POT keeps every message and the header, and blanks translations",
  "A catalogue saved as POT contains every message with its comments, context, msgid and plural msgid and with empty translations, keeps the header's text, and when read as POT and saved again comes out byte for byte the same. Reading a POT or PO in template mode keeps untranslated messages and never loses the header, whatever comments follow the last message.",
  ["inputs"], "every catalogue up to a bound mixing translated and untranslated, singular and plural, commented messages, with trailing comments and obsolete entries",
  "Six outputs are compared; one file is re-saved without checking the result.",
  ["translator/pot.go", "translator/po.go", "translator/file.go"], [("template mode", "translator/po.go: readPo"), ("template writer", "translator/pot.go: SaveAsPot")], observe=["translator.ReadPot", "File.SaveAsPot"])
p("C18", "Saved files are a function of the catalogue's content",
  "Saving a catalogue as PO, POT or MO gives the same bytes every time and whatever the order its messages were added in; the header comes first, messages with source references are ordered by them with line numbers compared as numbers, the others by context and msgid.",
  ["histories", "schedules"], "every insertion order of every catalogue of up to five messages, under every map iteration order the runtime can produce",
  "A test run sees one of the possible map orders, at random.",
  ["translator/file.go", "translator/entry.go", "translator/mo.go", "translator/po.go", "translator/pot.go"],
  [("sort by reference then key", "translator/file.go: SortedEntry; translator/entry.go: getSortKey")], [("entries", "map of messages", "translator/file.go File")], ["File.SaveAsPo", "File.SaveAsPot", "File.SaveAsMo", "File.SortedEntry"])
p("C19", "A failed or short write is always reported",
  "When the destination fails or accepts only part of the data at any point, saving as PO, POT or MO returns an error; when it returns none, the destination received the complete file, and what was received is always a prefix of it.",
  ["fault_sequences", "crash_points"], "every byte position of the output at which the writer fails, short-writes, or fails once; with several catalogues and the three formats",
  "Tests write only to buffers that cannot fail.",
  ["translator/po.go", "translator/pot.go", "translator/mo.go"], [("buffer then one write", "buf.WriteTo(w) in each SaveAs")], observe=["File.SaveAsPo", "File.SaveAsPot", "File.SaveAsMo"])
p("C20", "Domains and locales behave as their documented state machine",
  "After any sequence of binding, removing and clearing domains and of setting the domain, locale and source locale, every query (current domain, domain list, locale, used locale, supported locales) and every translation is what the operations' documentation says. A failed bind changes nothing, a successful one replaces the whole domain, removing the current domain falls back to the default one, and clearing keeps the locales.",
  ["histories"], "every operation sequence up to a depth over a small alphabet, and breadth-first search of the reachable model states, on translation sets and on the package-level functions",
  "Two sequences are tested.",
  ["translations.go", "translaton.go", "init.go", "gettext.go"],
  [("domains map", "translations.go"), ("normalised locale keys", "translaton.go: AddOrReplace; translations.go: SetLocale")],
  [("locale, domain, domains, sourceCodeLocale", "the whole state of a translation set", "translations.go Translations")], ["t.Domain", "t.Domains", "t.Locales", "t.UsedLocale", "t.T"])
p("C21", "Derived translation handles are independent snapshots",
  "A handle derived from a translation set (with another domain, another locale, from a context, or as the global snapshot) answers as the set did at that moment with only the requested change; nothing done later to either one through its own operations changes the other. Lookups in an unknown domain or locale return the source text in every handle, whatever was done elsewhere.",
  ["histories"], "every sequence up to a depth of derivations and mutations over up to three handles, all handles observed after each step",
  "One derivation is tested, with no later mutation.",
  ["translations.go", "context.go", "init.go", "translaton.go"], [("copying the domains map", "translations.go: clone")], [("domains", "map copied per handle; translations shared", "translations.go")], ["t.D", "t.L", "t.Global", "t.WithContext"])
p("C22", "All shorthand translation calls agree",
  "Every shorthand (with or without context, plural, 32- or 64-bit count, single-form plural, package-level, on a set, or chained through domain and locale) returns what the corresponding general call returns for the same message, count and arguments. The marking helpers return their arguments unchanged.",
  ["inputs"], "every shorthand on every combination of message, context, count (including 64-bit and negative), arguments, domain and locale of a menu",
  "Tests call each shorthand a few times, with counts 1, 2, 100, 200.",
  ["gettext.go", "translations.go", "mark.go", "init.go"], [("delegation to X and XN64", "gettext.go; translations.go")], observe=["t.T", "t.N", "t.N64", "t.N1", "t.N1_64", "t.X", "t.XN", "t.XN64", "t.XN1", "t.XN1_64"])
p("C23", "Binding a path loads exactly the catalogues found there",
  "Binding a file or a directory tree, as a path or a file system, loads every readable and valid .po and .mo file at any depth under its header's language and nothing else; of files for the same language PO wins over MO, and among the same kind the one later in the lexical order of the directory walk wins. The domain becomes bound exactly when at least one file loads; invalid files are skipped.",
  ["inputs", "configurations"], "every tree of up to four files from a menu of names, places, kinds and languages, loaded by path, by file system and file by file",
  "One directory with one language is loaded.",
  ["translaton.go", "fs.go", "init.go", "translations.go"], [("two walks, MO then PO", "translaton.go: LoadFS"), ("path as file system", "fs.go")], observe=["t.Bind", "t.BindFS", "t.Load", "Translation.LoadFS"])
p("C24", "File-system faults while loading never lose or corrupt other catalogues",
  "If opening, inspecting, listing or reading any file or directory fails, or a read is short or fails midway, loading neither crashes nor registers anything from the failed file, and still loads every other readable file; every file it opened is closed. If nothing loads, a domain bound earlier stays as it was.",
  ["fault_sequences"], "every single fault and every pair of faults over every file-system operation of loading several trees",
  "No test injects a fault.",
  ["translaton.go", "fs.go", "translations.go"], [("errors skip the file", "translaton.go: LoadFS, LoadFile"), ("bind only when loaded", "translations.go: BindFS")], observe=["t.BindFS", "Translation.LoadFS"])
p("C25", "A context's locale and domain select the translation",
  "A translation set obtained from a context uses the innermost locale and domain stored in it, each independently and in any nesting order, and the global ones otherwise; reading them back gives what was stored, and contexts, like the global set, are never changed by it.",
  ["histories", "inputs"], "every chain up to a depth of storing locales and domains, deriving contexts, and reading, under several global states",
  "Three contexts are tested, none nested and none with both values.",
  ["context.go", "translations.go", "init.go"], [("context keys", "context.go")], observe=["t.WithContext", "t.GetCtxLocale", "t.GetCtxDomain"])
p("C26", "Locale names normalise to one canonical ll_CC form",
  "Every language tag or POSIX locale name that names a language, in any case, with - or _, with script, variant or encoding suffix, normalises to the base language and its explicit or most likely region joined by an underscore; normalising again changes nothing, nor does what was normalised before. Setting a locale and loading a catalogue for any spelling of the same language and region meet.",
  ["inputs"], "every base language x every script of a set x every region x every spelling, all of the registry's two-letter space",
  "About thirty names are tested.",
  ["locale/detect.go", "translations.go", "translaton.go", "tag.go"], [("NormalizeTag", "locale/detect.go")], observe=["locale.Normalize", "t.SetLocale", "t.Locale"])
p("C27", "Language negotiation returns a supported locale, the best one",
  "Negotiating a request's language returns the cookie's value if the cookie is present, otherwise the supported locale that best matches the Accept-Language preferences; the most-match query does the same for the set's own locale and its own supported locales. The result is always one of the supported locales, whatever the header contains.",
  ["inputs", "configurations"], "every Accept-Language header up to a bound over tags, q-values and junk, every cookie situation, and every set of loaded locales of a menu, on the global and on other sets",
  "Two requests are tested, with no catalogue loaded.",
  ["http.go", "matcher.go", "tag.go", "translations.go"], [("index back into the supported list", "http.go: GetUserLang; translations.go: MostMatchLocale"), ("tag cache", "tag.go")], observe=["t.GetUserLang", "t.MostMatchLocale", "t.Match"])
p("C28", "Concurrent translation gives sequential results without data races",
  "Any number of goroutines may look up, derive handles, query locales, negotiate and evaluate plural rules on the same loaded catalogues, and read or save independent files, at the same time: each gets the result it would get alone, and no data race occurs.",
  ["schedules"], "every interleaving at statement granularity of two or three goroutines with one or two operations each, up to a preemption bound, from cold process state, with a data-race detector that sees each schedule",
  "Tests translate from one goroutine.",
  ["translations.go", "translator/file.go", "translator/plural.go", "plurals/exp.go", "tag.go", "http.go", "plurals/parser/plural_parser.go"],
  [("no shared mutable state on the lookup path", "translations.go: X, XN64; plurals/exp.go: Eval"), ("concurrent tag cache", "tag.go")],
  [("cachedTag", "process-global tag cache", "tag.go"), ("PluralParserStaticData", "lazily built parser tables", "plurals/parser/plural_parser.go")], ["t.T", "t.N", "t.L", "t.GetUserLang"])
p("C29", "xtemplate keyword specifications parse exactly or are rejected",
  "A keyword list in the documented form (name; name:i; name:i,j; name:ic,j; name:ic,j,k; separated by semicolons, blanks allowed around the parts) parses to exactly those names and argument positions in order; any other text is an error and yields no keywords.",
  ["inputs"], "every specification string up to a token-length bound over names, digits, separators, blanks and the context mark",
  "Twenty-five strings are tested.",
  ["cmd/xtemplate/internal/keyword.go"], [("ParseKeywords", "cmd/xtemplate/internal/keyword.go")], observe=["internal.ParseKeywords"])
p("C30", "xtemplate extracts every translatable call in a template and nothing else",
  "For every template and keyword list, the output has exactly the messages of the keyword calls whose message arguments are string constants at the declared positions, wherever they stand: in actions, pipelines, conditions, loop and with headers and all their branches, variable declarations, template and block arguments, parenthesised or nested arguments, and after a piped constant. Each message carries the file and line of each of its uses.",
  ["inputs", "programs"], "every template up to a nesting bound over every construct of the template language around every call form, with several keyword lists and delimiters, expected messages known by construction",
  "Two template files are scanned and a few messages looked for.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/helper.go"],
  [("AST walk", "cmd/xtemplate/internal/run.go: resolveNode, resolveCmds, filter, extract")], observe=["internal.Run"])
p("C31", "xtemplate merges uses of a message and writes a complete valid POT",
  "Uses of the same context and msgid become one message that lists every use; a singular and a plural use of one msgid keep the first and warn. The output is a valid POT whose header is never displaced, with a plural header exactly when some message is plural, messages with a percent sign flagged as format strings, and all strings recoverable by an independent reader.",
  ["inputs", "configurations"], "every sequence of up to four calls over a colliding alphabet of messages, contexts and plurals, over one or two files, with an empty msgid and special characters",
  "The written file is never compared.",
  ["cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/run.go", "translator/pot.go"], [("Add", "cmd/xtemplate/internal/param.go"), ("header", "cmd/xtemplate/internal/param.go")], [("entries", "messages collected so far", "cmd/xtemplate/internal/param.go Context")], ["internal.Run"])
p("C32", "xtemplate output is reproducible",
  "Extracting the same files with the same options gives the same output byte for byte except the creation date, however many templates a file defines and in whatever order the runtime iterates.",
  ["schedules", "inputs"], "every map iteration order the runtime can produce, for files with several named templates, shared messages and singular/plural conflicts",
  "A test run sees one of the possible map orders, at random, and looks at no output.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "translator/file.go"], [("iteration over a file's templates", "cmd/xtemplate/internal/run.go: resolveOneFile"), ("sorting of entries", "translator/file.go: SortedEntry")], observe=["internal.Run"])
p("C33", "A failed extraction reports the failure and keeps existing output",
  "When keywords or pattern are bad, or a template cannot be read or parsed, or the output cannot be opened or written, the tool exits with a failure status and an error message, and a previously existing output file keeps its content unless writing itself failed; when it succeeds the output is complete and the status is zero.",
  ["fault_sequences", "inputs"], "every combination of good and bad inputs, options, and output destinations (file, new file, standard output, missing directory, full device, read-only), over the command line and the library entry",
  "No failing run is tested.",
  ["cmd/xtemplate/main.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/keyword.go"], [("first error returned before writing", "cmd/xtemplate/internal/run.go: Run"), ("exit status", "cmd/xtemplate/main.go: main")], observe=["internal.Run", "the xtemplate command"])

p("C34", "A domain keeps the last translator of each language and asks it faithfully",
  "A translation domain keeps, per canonical language, exactly the translator added last, of whatever kind; adding returns the one it replaces, a translator without a language is not kept, and a file that cannot be read changes nothing. A lookup through a set reaches the translator of the set's domain and locale once, with context, id, plural id, count and arguments unchanged; a language without a translator answers with the source text.",
  ["histories", "inputs"], "every history up to a depth of adding catalogues and own translators in several spellings of a language, loading good and broken PO and MO data, files and folders; every lookup call with contexts, ids, counts at the integer limits and argument lists",
  "No test adds two translators of one language or installs a translator of its own.",
  ["translaton.go", "translations.go", "translator.go", "gettext.go"], [("AddOrReplace by normalised language", "translaton.go: AddOrReplace"), ("dispatch", "translations.go: X, XN64")],
  [("langs", "translator by language", "translaton.go Translation.langs")], ["Translation.Get", "Translation.AddOrReplace", "t.T", "t.XN64"])
p("C35", "xtemplate's command line does what its usage says in any environment",
  "The command accepts its options in any order and spelling, refuses a missing or blank input or keyword list and unknown options with a failure status and a message, and only shows help or version when asked to, touching no file. The POT goes to the named file, whatever its name; with - or no output name the POT, and nothing else, goes to standard output. What it extracts is the same whatever the language, LANG_PATH, time zone or folder it runs in; its messages come in the environment's language from LANG_PATH or the built-in catalogues.",
  ["configurations", "inputs"], "every kind of command line under every combination up to a bound of languages, catalogue folders (good, hostile, missing, not a folder), option spellings, time zones and relative paths",
  "No test runs the command.",
  ["cmd/xtemplate/main.go", "cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/run.go", "fs.go", "init.go"], [("flags", "cmd/xtemplate/main.go: buildParam"), ("own catalogues", "cmd/xtemplate/main.go: initTranslation"), ("output destination", "cmd/xtemplate/internal/run.go: Writer")], observe=["the xtemplate command"])
p("C36", "A template rendered with its translated POT shows every string translated",
  "When a template's POT is translated completely, in PO or MO form, and bound, every lookup the template makes while it is executed with constant strings is answered with that translation in the right plural form, and every other lookup with its source text: extraction, file formats, loading and lookup agree on every message's identity.",
  ["programs", "inputs"], "every template up to a nesting bound over the constructs of the language and call forms, and every pair of awkward texts as id, context and plural, carried through extraction, translation as PO, MO or compiled by the library, loading and execution with several counts and lookup results",
  "Tests of the parts use their own small data; no test carries a message from a template to its rendering.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "translator/pot.go", "translator/po.go", "translator/mo.go", "translator/file.go", "translations.go"],
  [("identity of a message: context and msgid", "translator/entry.go: Key; cmd/xtemplate/internal/helper.go: key")], observe=["internal.Run", "t.X", "t.XN64"])
p("C37", "Catalogues are independent of each other and of their sources",
  "A catalogue or set, once read, answers the same until it is changed itself: reusing or overwriting the bytes it was read from, changing or deleting its files, reading, changing, saving or failing to save another catalogue, or changing a list it returned has no effect. Reading and saving change neither their input nor the catalogue.",
  ["histories"], "every history up to a depth of reading from a reused buffer, adding, saving completely or failing midway, re-reading and overwriting over two catalogues, and of changing files, binding and removing over two sets",
  "Each test reads a file once and looks at that catalogue only.",
  ["translator/po.go", "translator/mo.go", "translator/pot.go", "translator/file.go", "translator/reader.go", "translaton.go"], [("entries are copies of the input's bytes", "translator/po.go, translator/mo.go"), ("sorting a copy", "translator/file.go: SortedEntry")],
  [("entries", "messages of one catalogue", "translator/file.go File")], ["File.X", "File.XN64", "File.SortedEntry", "t.T"])
p("C38", "A web request is answered wholly in its negotiated language",
  "A request whose language GetUserLang found, stored in its context and used with WithContext, gets every lookup answered from one catalogue: that of its cookie's language, or else of the supported language that best meets Accept-Language, in the domain its context names; the source text where there is none. Hostile cookies and headers never fail. Requests affect neither each other nor the global set, and a handle in use keeps answering alike when other requests come or the global set changes.",
  ["inputs", "histories"], "every combination of cookies, headers, domains and global sets through handlers, and every history up to a depth of requests arriving, beginning their pages and changes of the global set",
  "The tests call GetUserLang on its own with a few headers; none follows a request to its page.",
  ["http.go", "context.go", "translations.go", "matcher.go", "gettext.go"], [("negotiation", "http.go: GetUserLang"), ("handle of a context", "context.go: WithContext"), ("copy", "translations.go: clone")],
  [("global", "the global set", "init.go")], ["t.GetUserLang", "t.WithContext", "Translations.X"])
p("C39", "The system's locale is what the environment names at that moment",
  "A new translation set, the default locale, and setting or deriving the empty locale use the locale that the environment names at that moment: the first entry of LANGUAGE, else LC_ALL, LC_MESSAGES, LANG, else the user's locale.conf, an empty value counting as unset and C and POSIX as en_US, normalised to ll_CC; en_US when nothing names one. Locales set before never follow later changes of the environment by themselves.",
  ["configurations", "histories"], "every assignment of a menu of values to the four variables and of lines to the configuration file, in this process and in fresh ones, and every history up to a depth of changes of the environment and of the sets",
  "The one test runs in whatever environment it finds and only looks for an underscore in the result.",
  ["locale/detect.go", "translations.go", "init.go"], [("detection", "locale/detect.go: GetDefault"), ("empty locale", "translations.go: SetLocale, L, NewTranslations")],
  [("locale", "locale of a set", "translations.go Translations")], ["locale.GetDefault", "t.NewTranslations", "t.SetLocale", "t.Locale"])
p("C40", "Errors lead to their cause and show what they are about",
  "An error from saving a catalogue leads (errors.Is) to the writer's error or to io.ErrShortWrite, one from loading a file to the file system's error. An error for a malformed PO or POT text shows the broken line and its number, counted from 1. xtemplate's messages about bad keywords, unusable inputs and outputs show the keyword list or the file's name unaltered in every language, whatever percent signs they contain, and no debris of formatting.",
  ["inputs", "fault_sequences"], "every keyword list up to a length over pieces with formatting directives, names with directives for every kind of unusable file in every language, faults at every byte of saving and loading, and every kind of broken line at every place of a file",
  "The tests look at whether there is an error, hardly ever at what it says, and never with percent signs.",
  ["translator/po.go", "translator/pot.go", "translator/mo.go", "translaton.go", "errors/errors.go", "cmd/xtemplate/internal/keyword.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/main.go"],
  [("wrapping", "errors/errors.go: Wrapf, WithSecondaryError"), ("messages of keywords", "cmd/xtemplate/internal/keyword.go: ParseKeywords, Writer"), ("line numbers", "translator/po.go: readEntry")], [], ["File.SaveAsPo", "File.SaveAsMo", "Translation.LoadFile", "translator.ReadPo", "standard error of xtemplate"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
