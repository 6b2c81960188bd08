PROVED = "Proved: every obligation of the listed contracts, generated from the current source. Bounded stand-in (not counted as proved): concrete executions against an independent oracle. "

prop("C01", "Built-in CLDR plural rules select the CLDR 47 category",
     "For every language with built-in CLDR plural rules, the selected plural category of any count is the one the CLDR 47 cardinal rule text for that language prescribes for the count's operands (n, i, v, w, f, t, c). The categories a rule set lists are exactly those the rule can produce, in CLDR order.",
     ["inputs", "configurations"], "every built-in language, every operand tuple (unbounded integers and decimal digits)",
     "Existing tests evaluate the sample counts CLDR publishes; the rules are arithmetic formulas over unbounded counts and digits, so a changed modulus, bound or branch outside the samples passes them.",
     ["catalog/cldrplural/builtin_gen.go", "catalog/cldrplural/builtin.go", "catalog/cldrplural/evaluation.go", "catalog/cldrplural/cldr.go"],
     [("generated form functions", "catalog/cldrplural/builtin_gen.go"), ("isFloatInRange, isIntOneOf ...", "catalog/cldrplural/evaluation.go")],
     ["cldrplural.ForLanguage(lang).Evaluate(n)", "RuleSet.Categories"], claimed=True,
     note=PROVED + "All 230 languages of the built-in table for all operand tuples (mathematical reals for n), the frozen CLDR 47 rule texts read by govc's own parser of the rule syntax; the parent chain loop of ForLanguage by invariant; Evaluate. The operands of a count are C04. Assumed: x/text's Tag methods are pure.")

prop("C02", "Built-in gettext plural rules agree with their formula",
     "For every language with built-in gettext plural rules, and for every well-known Plural-Forms header text that is answered from the built-in table, the selected form of every integer count that fits into an int64 (of its absolute value when it is negative) is the one the C formula of that entry prescribes, and it lies between 0 and nplurals-1. A language without an own entry uses the entry of its nearest CLDR parent that has one, else of its base language when that is certain, else the English one reported as not found.",
     ["inputs", "configurations"], "every built-in language and header text, every non-negative integer count",
     "Tests compare a table of counts up to a small bound; a wrong bound or a wrong table entry shows only at particular counts of particular languages.",
     ["catalog/poplural/builtin_gen.go", "catalog/poplural/builtin.go", "catalog/poplural/rule.go"],
     [("generated form functions and tables", "catalog/poplural/builtin_gen.go"), ("forLanguage / forRawRule", "catalog/poplural/builtin.go")],
     ["poplural.ForLanguage", "poplural.Parse(header).Evaluate(n)"], claimed=True,
     note=PROVED + "All built-in form functions against frozen CLDR headers read by govc's own C parser; the raw-header table; Evaluate for every integer type; the parent-chain loop by invariant. Assumed: x/text's Tag methods are pure; recursion of the specification over the parent chain is well founded.")

prop("C03", "Plural-Forms formulas are evaluated with C semantics",
     "A Plural-Forms header whose formula is a valid C expression over n is accepted, and its form for every count is the value C gives: precedence, associativity, short-circuit logic, non-zero means true, comparison yields 0 or 1 (a remainder by zero, undefined in C, must only not fail). A header of another form (missing or additional parts, unknown names or characters, numbers out of the int64 range) is an error, never a rule with another meaning.",
     ["inputs", "programs"], "every formula over n, integer literals, ?:, ||, &&, ==, !=, <, >, <=, >=, % and parentheses, with or without blanks; every integer count",
     "Tests use the few dozen formulas found in real headers; grouping, associativity and truth-value mistakes appear only on other formulas.",
     ["catalog/poplural/rule.go", "catalog/poplural/ast/parser.go", "catalog/poplural/ast/scanner.go", "catalog/poplural/ast/compile.go"],
     [("evaluateNode", "catalog/poplural/rule.go"), ("parser", "catalog/poplural/ast/parser.go"), ("CompileToString as cache key", "catalog/poplural/ast/compile.go")],
     ["poplural.Parse(header)", "Rule.Evaluate(n)"], claimed=True,
     note=PROVED + "Evaluation of every parsed formula (recursive contract of evaluateNode over all trees) and the choice between parsed and built-in rule are proved. The text parser, the scanner and CompileToString are covered only by the bounded stand-in.")

prop("C04", "Plural operands are derived from the count as CLDR defines them",
     "For every supported numeric type and every decimal string the CLDR operands are: n the absolute value, i its integer part, v and w the number of fraction digits with and without trailing zeros, f and t those digits as integers, c the compact exponent. Values that are no finite number yield an error and never a panic or a silently wrong category.",
     ["inputs"], "all values of the Go integer and float types, all strings",
     "Tests cover a handful of literals; sign, very large, very small, exponent and non-numeric inputs are unbounded.",
     ["catalog/cldrplural/evaluation.go", "internal/cast/number.go"],
     [("NewOperands and helpers", "catalog/cldrplural/evaluation.go"), ("cast.ToNumber", "internal/cast/number.go")],
     ["cldrplural.NewOperands(n)", "RuleSet.Evaluate(n)"], claimed=True,
     note=PROVED + "All Go integer types (exact, no error), nil, integer and decimal texts with and without sign (all of at most 290 digits), texts that are no finite number; floats are read through their shortest decimal text. Floats are modelled as real numbers. The compact exponent (shiftDecimalPoint), exponent notation, named and non-numeric types are covered only by the bounded stand-in.")

prop("C05", "Gettext catalog lookup is exact",
     "A catalog decoded from a PO or MO file answers a lookup with exactly the translation the file holds for that context, message id and selected plural form; messages marked fuzzy and the header entry are never answered. Every other lookup returns the message id and the typed error naming the first missing item (context, message id, translation) with the catalog's language and domain, and the plural form is selected by the file's Plural-Forms rule, or by the language's CLDR rule when the file asks for it, has no rule, or the decoder forces it.",
     ["inputs", "configurations"], "every catalog content, context, message id, plural index and count",
     "Tests look up a few messages of fixture files; wrong context isolation, index or error data shows only on other combinations.",
     ["catalog/po.go", "catalog/po_decoder.go"],
     [("Lookup, LookupPlural, getMessage", "catalog/po.go"), ("buildGettextCatalog", "catalog/po_decoder.go")],
     ["Catalog.Lookup", "Catalog.LookupPlural"], claimed=True,
     note=PROVED + "Lookup/LookupPlural for every catalog state; building a catalog from a decoded file. Assumed: standard-library models, callers' plural functions deterministic. Parsing of the file bytes is C13/C14.")

prop("C06", "JSON catalogs look up, normalise and round-trip messages",
     "A JSON catalog answers exactly the stored text of the CLDR category selected for the count (of 'other' for singular lookups) under the key, suffixed with the context when one is given, and otherwise returns the message id and the typed error naming what is missing. Invalid messages (empty key, nil, no 'other', key not ending in the context) are rejected, categories are completed and trimmed to those of the language, and encoding a catalog and decoding the result gives the same messages.",
     ["inputs", "configurations"], "every message map, language, context, key and count",
     "Tests use a few fixture catalogs and languages.",
     ["catalog/json.go", "catalog/json_decoder.go", "catalog/json_encoder.go"],
     [("getTranslation, setMessage, applyCategoriesToJSONMessage", "catalog/json.go"), ("MarshalJSON/UnmarshalJSON", "catalog/json.go")],
     ["NewJSONCatalogWithMessages", "JSONCatalog.Lookup*", "JSONCatalog.Messages", "JSONEncoder/JSONDecoder"], claimed=True,
     note=PROVED + "Lookups, insertion, category normalisation (loop invariants), Messages, Clone and construction are proved; JSON text encoding and decoding (encoding/json, json.Marshaler) only by the bounded stand-in.")

prop("C07", "A lookup falls back from own locale to fallback to source text",
     "A translation request is answered by the localizer's own language if its catalog has the message, else by the fallback language, else by the source text (plural text chosen by the source language's rule), always formatted by the printer of the language that answered and never failing. The accompanying error is nil exactly when the localizer's language was matched and answered itself; otherwise it is the error of the first failing lookup. Every miss is reported to the missing-translation callback and a hit reports nothing.",
     ["inputs", "configurations"], "every bundle configuration, domain, context, message, count and variables",
     "Tests exercise one bundle with a couple of languages; the decision has a large product of configuration and miss/hit combinations.",
     ["localizer.go", "locale.go"],
     [("lookupSingularTranslation / lookupPluralTranslation", "localizer.go"), ("per-locale lookup", "locale.go")],
     ["Localizer.LocalizeWithError", "Localizer.Get*", "missing-translation callback"], claimed=True,
     note=PROVED + "The chain for every localizer state, catalog and callback (catalogs, printers and callbacks are arbitrary deterministic functions that do not write library state).")

prop("C08", "Every translation method uses exactly the given coordinates",
     "Each Localizer and KeyLocalizer method looks the message up under exactly the domain, context, singular, plural (the key itself for KeyLocalizer) and count it was given, with the localizer's default domain and the empty context where it takes none, and formats the answer with exactly the variables it was given.",
     ["inputs", "configurations"], "every one of the 32 lookup methods and Print, for every argument and localizer state",
     "Tests call each method on a fixture where several wrong routings give the same text.",
     ["localizer.go"], [("Get..DNPGetf of Localizer and KeyLocalizer", "localizer.go")],
     ["all Localizer and KeyLocalizer methods"], claimed=True,
     note=PROVED + "All 33 methods for all arguments; the shared lookup is used through its contract (deterministic, writes nothing), which C07 proves.")

prop("C09", "Localizables and errors are translated faithfully",
     "Translating a Localizable uses its message id, plural, count, context and variables, and its domain exactly when it declares one; nil yields an error rather than a panic. Translating an error returns nil for nil, the original error when no translation exists, and otherwise an error whose text is the translation and which unwraps to the original; a Localizable error is translated as such, any other under the bundle's error context in the localizer's default domain.",
     ["inputs", "configurations"], "every Localizable, every error value, every localizer state",
     "Tests use two fixture messages and one error.",
     ["localizer.go", "localize/error.go", "localize/types.go"],
     [("LocalizeWithError, LocalizeError", "localizer.go"), ("localize.Error", "localize/error.go")],
     ["Localizer.LocalizeWithError", "Localizer.Localize", "Localizer.LocalizeError"], claimed=True,
     note=PROVED + "All three methods for every Localizable and error; the shared lookup is used through its contract (C07).")

prop("C10", "The filesystem loader finds the most specific file and reports errors",
     "The loader tries its file extensions in the configured order and, per extension, the names of the language from most to least specific in the documented directory order, and decodes the first existing file with the decoder of that extension. A missing file leads to a not-found error, every other failure (open, read, decode, close) is returned as such, and every opened file is closed exactly once.",
     ["inputs", "configurations", "fault_sequences"], "every file tree, language, domain, extension list, resolver option and failure",
     "Tests use one directory tree and no failing file systems.",
     ["loader.go", "utils.go"],
     [("Load, loadFromFile", "loader.go"), ("defaultResolver", "loader.go"), ("ExpandLanguage", "utils.go")],
     ["FilesystemLoader.Load", "Resolver.Resolve"], claimed=True,
     note=PROVED + "Load, loadFromFile (every file system, decoder and failure; the opened file is closed exactly once, also on failure), Resolve and the documented directory order, ExpandLanguage (names of a tag, longest first) and construction. Assumed: fs.FS, fs.File, decoders and x/text are deterministic functions that do not write library state; a failure to stat a path counts as missing, as the code has it.")

prop("C11", "A bundle holds exactly the loadable languages and domains",
     "Bundle construction fails exactly when an option fails, a language value is invalid, a loader of a language that is not loaded yet reports anything but a missing catalog, or a required language that is not loaded yet (also the fallback language) is undetermined or lacks the catalog of a domain; the source language needs no catalog. An optional language with at least one catalog is supported with exactly the catalogs found, with none it is skipped, and every missing catalog and skipped language is reported. Source and fallback resolve to the configured languages, or to the source text when not configured, and the reported domains and languages are exactly those that were loaded.",
     ["inputs", "configurations", "fault_sequences"], "every combination of options, languages, domains and loader results",
     "Tests construct a handful of bundles.",
     ["bundle.go", "locale.go"],
     [("NewBundle, preloadLanguages, createLocale", "bundle.go")],
     ["NewBundle", "Bundle.SupportedLanguages", "Bundle.Domains", "Bundle.CanLocalize"], claimed=True,
     note=PROVED + "Loading one language (createLocale, modular, every loader map by loop invariant), lists of languages of any length, language values, NewBundle with a fixed number of options of each kind (symbolic loaders, languages, printer, matcher) and the failing options. Option lists of any length and the reports to the callback are covered only by the bounded stand-in. Assumed: loaders are deterministic and do not return ErrMissingLanguage.")

prop("C12", "PO strings decode to the text that was encoded",
     "Encoding any text as a PO string literal and decoding the literal gives the same text, for single-line and multi-line layout and any wrapping width. Decoding any literal terminates without panicking, and follows the C escape rules gettext uses.",
     ["inputs"], "every text and every literal",
     "Tests use a few literals; escapes, control characters and line splits are unbounded.",
     ["catalog/po/po_string.go", "catalog/po/wrap.go"],
     [("EncodePoString / DecodePoString", "catalog/po/po_string.go")],
     ["po.EncodePoString", "po.DecodePoString"], claimed=False)

prop("C13", "The PO parser reads every message of a file",
     "Parsing a PO file yields every entry of the file exactly once under its context and id, with its plural id, all its translations at their indices, comments, references, flags and header values, independent of line wrapping, blank lines and comment placement. A malformed file gives an error that names the position; no input makes the parser panic or hang.",
     ["inputs"], "every byte sequence; every well-formed file",
     "Tests parse fixtures.",
     ["catalog/po/parser.go", "catalog/po/scanner.go", "catalog/po/comment.go", "catalog/po/file.go"],
     [("parser", "catalog/po/parser.go"), ("scanner", "catalog/po/scanner.go")],
     ["po.Parser.Parse"], claimed=False)

prop("C14", "The MO parser reads every entry and rejects malformed files",
     "Parsing an MO file whose header, tables and texts lie within the file, in either byte order and with any placement of tables and texts, yields every message of the file (messages occurring once) under its context and id with its plural id and all its translations, and no others. A file that refers to something outside itself or has a wrong magic number or version gives an error, never a panic or an allocation beyond the size of the file; an error is given for nothing else than damage or a failing reader. The result does not depend on how the reader splits its data.",
     ["inputs", "fault_sequences"], "every byte sequence and every splitting of reads",
     "Tests parse fixture files.",
     ["internal/mo/parser.go"], [("ParseReader", "internal/mo/parser.go")],
     ["catalog.NewMoDecoder().Decode"], claimed=True,
     note=PROVED + "The whole of internal/mo: tables, texts, contexts, plural forms, errors and absence of panics, for every file, byte order and reader (reader model: Seek and Read of a fixed content, any error at any call; encoding/binary.Read of unsigned numbers). The header's fields are set by an unspecified function of its text; memory use is only measured by the bounded stand-in; AddMessage is proved through (not assumed).")

prop("C15", "PO files survive encoding and parsing",
     "Encoding a PO file model and parsing the text gives a model with the same messages, translations, flags, references, comments and header, for every width and sort option; encoding is deterministic.",
     ["inputs", "configurations"], "every PO file model and encoder option",
     "Tests encode a few fixtures.",
     ["catalog/po/encoder.go", "catalog/po/file.go", "catalog/po/comment.go"],
     [("Encoder.Encode", "catalog/po/encoder.go")],
     ["po.Encoder.Encode", "po.Parser.Parse"], claimed=False)

prop("C16", "Lookups never write and returned copies are independent",
     "No lookup, localisation or query on a bundle, localizer or catalog writes to shared state, so they may run concurrently. Collections handed out or taken in (messages, translations, domains, languages) are deep copies: changing them afterwards never changes a later answer.",
     ["inputs", "schedules", "histories"], "every call on every catalog, localizer and bundle state, from any number of goroutines",
     "A race or an aliased map shows only under particular schedules or when a caller modifies a returned value.",
     ["catalog/po.go", "catalog/json.go", "bundle.go", "localizer.go", "locale.go"],
     [("maps.Clone / slices.Clone", "catalog/po.go, catalog/json.go, bundle.go")],
     ["Catalog.Lookup*", "Messages()", "Translations()", "Bundle.Domains()", "Localizer.*"], claimed=True,
     note=PROVED + "Frame conditions (nothing that existed before the call is written) of the lookup paths, and independence of the copies. Absence of data races follows from the frame conditions; it is not model-checked. Assumed: callbacks, printers and x/text do not write library state.")

prop("C17", "A localizer is bound to the language the bundle's matcher selects",
     "A new localizer uses the locale of the language that the bundle's matcher selects for all requested languages, in the order given: a tag stands for itself, a string is parsed as an Accept-Language list, anything else and an unparsable string ask for nothing. Without a match, or if the matched language has no locale, it uses the fallback locale and HasLocale reports false. It has the given domain, or the bundle's default domain. The matcher is built from exactly the bundle's languages, in the order in which its answers are looked up; IsLanguageSupported reports whether it finds a language.",
     ["inputs", "configurations"], "every list of requested languages, every bundle and every matcher",
     "Tests create localizers for a few fixed lists.",
     ["localizer.go", "bundle.go"], [("NewLocalizerForDomain", "localizer.go"), ("NewBundleWithOptions", "bundle.go")],
     ["NewLocalizer", "NewLocalizerForDomain", "NewKeyLocalizer", "NewKeyLocalizerForDomain", "Bundle.IsLanguageSupported", "Localizer.HasLocale"], claimed=True,
     note=PROVED + "Every constructor, for every list of requested values (induction over the list) and an arbitrary matcher. Assumed: language.ParseAcceptLanguage is a function of its text; a matcher answers with an index of its own list.")
