#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=(), observe=("ParseAddressList",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        _m=dict(technique=technique, level=level, note=note)))

ENUM = "bounded exhaustive enumeration of inputs on the real code against an executable reference grammar"
TRUST = "Trusted: the reference model in /verif/mc/model, the Go toolchain and the antlr runtime's determinism. "

prop("C01", "Every input gets an answer of the promised shape",
 "Both parsing functions return for every string, valid UTF-8 or not, without panicking, hanging or writing to the standard streams. An error never comes with a non-empty list or a non-zero time, a success never contains a nil entry, and empty input gives an empty list or the zero time without an error.",
 ["inputs"], "all byte strings",
 "The tests call the parser with about 140 chosen inputs, nearly all of them well-formed; none is malformed UTF-8 or a truncation of a longer one.",
 ["parser.go", "walker.go", "quoted_char.go", "quoted_pair.go", "offset.go"], [("error listener stops the walk", "parser.go"), ("typed stack of nodes", "walker.go")],
 ENUM, "model_checking", TRUST + "Covers all strings up to length 2 over 56 symbols and length 3 over 22, all edits at distance one of 24 seeds, and powers of symbols; longer inputs only as far as the other checks go.",
 observe=("ParseAddressList", "ParseDateTime"))
prop("C02", "Exactly the documented address language is accepted",
 "ParseAddressList accepts an input if and only if it is an address list of RFC 5322 (with RFC 2047 and RFC 6532) under the documented relaxations: a trailing dot in a dot-atom, dots and at-signs in names, semicolons between addresses, an optional and possibly quoted end of a group, a port after the domain, and the empty angle address. Anything else gives an error, never a partial list.",
 ["inputs"], "all strings of Unicode characters",
 "Acceptance is an if-and-only-if over an infinite language; the tests sample about a hundred members and a handful of non-members.",
 ["RFC5322Parser.g4", "RFC5322Lexer.g4", "parser/rfc5322_parser.go", "parser/rfc5322_lexer.go", "parser.go"], [("generated parser tables", "parser/rfc5322_parser.go"), ("end-of-input in the start rule", "RFC5322Parser.g4")],
 "breadth-first exploration of viable prefixes of a reference grammar, every explored input replayed on the real parser", "model_checking", TRUST + "All token sequences up to depth 4 (quick) or 6 (thorough) plus edit-distance-1 neighbourhoods.")
prop("C03", "The returned address is the addr-spec that was written",
 "The address of every mailbox is its local part, an at-sign and its domain, with case and every significant character kept, quotes and escapes of a quoted local part removed, domain literals kept with their brackets, comments and optional white space removed, and a port, if any, kept after a colon. Where the address stands (bare, in angle brackets, after a route, in a group, anywhere in a list) makes no difference.",
 ["inputs"], "all spellings of local parts and domains in all positions",
 "Tests fix a few spellings in a few positions; the interplay of quoting, comments, dots, literals, ports and positions is a product they sample thinly.",
 ["addr_spec.go", "local_part.go", "obs_local_part.go", "dot_atom.go", "atom.go", "domain.go", "obs_domain.go", "domain_literal.go", "port.go", "angle_addr.go", "obs_angle_addr.go", "mailbox.go"], [("children report their value to the parent", "addr_spec.go"), ("dot joining", "obs_local_part.go")],
 ENUM, "model_checking", TRUST + "47 local-part spellings x 32 domain spellings x 10 surroundings, plus token trees of depth 4/6.")
prop("C04", "The returned name is the phrase that was written",
 "The name of a mailbox is made of the words of its display name in order: words are separated by exactly one space whatever white space or comments stood between them, dots and at-signs stick to their neighbours, and adjacent encoded words are joined without a space. A mailbox without a display name has the empty name.",
 ["inputs"], "all sequences of words, dots, at-signs, white space and comments",
 "Tests have a few dozen names; how words of different kinds meet is a combinatorial question.",
 ["display_name.go", "word.go", "unspaced.go", "name_addr.go", "mailbox.go", "atom.go"], [("unspaced flag", "display_name.go"), ("concatenation of encoded words", "word.go")],
 ENUM, "model_checking", TRUST + "All names of up to 3 (4) elements with every separator, and token trees of depth 4/6.")
prop("C05", "A quoted string stands for exactly its content",
 "A quoted string in a name or a local part means the characters between its quotes: white space is kept exactly, wherever it stands, a backslash is removed and the character after it kept, the line break of a fold is removed, and everything else, including encoded words, specials and control characters, is literal.",
 ["inputs"], "all quoted contents",
 "Escapes and white space matter at the edges and next to each other; tests have about ten quoted strings.",
 ["quoted_string.go", "quoted_value.go", "quoted_content.go", "quoted_pair.go", "quoted_char.go", "qtext.go", "obs_qp.go", "fws.go"], [("content pieces appended in order", "quoted_string.go")],
 ENUM, "model_checking", TRUST + "All contents of up to 2 elements over 38 and 4 (5) over 8, in five surroundings.")
prop("C06", "Comments and optional white space mean nothing",
 "Adding, removing or changing comments (nested, with escapes, specials or non-ASCII text) or white space wherever the grammar allows them between tokens changes neither whether an address list is accepted nor any name or address in it.",
 ["inputs"], "all placements of comments and white space, singly and in pairs",
 "There are about 25 places and infinitely many comments; the tests put a few comments in a few places.",
 ["atom.go", "word.go", "dot_atom.go", "domain.go", "local_part.go", "angle_addr.go", "fws.go"], [("CFWS nodes report nothing to their parents", "walker.go")],
 "deviation-bounded enumeration of comment and white-space placements on the real code", "model_checking", TRUST + "27 variants in every slot of 18 templates; one deviation everywhere, two over a smaller menu; comment contents up to length 3 (5).")
prop("C07", "Encoded words are decoded by RFC 2047, and only where they may stand",
 "In a display name an encoded word in UTF-8, US-ASCII or ISO-8859-1, in Q or B encoding and any mixture of cases, is replaced by its text, and white space between adjacent encoded words vanishes. An encoded word that cannot be decoded stays in the name as it was written and is no error. In quoted strings, local parts, domains, literals and comments nothing is decoded.",
 ["inputs"], "all charsets, encodings, encoded texts, adjacencies and positions",
 "The tests decode a handful of well-formed words; malformed payloads, unknown charsets and the many positions are untested.",
 ["encoded_word.go", "word.go", "display_name.go"], [("fallback to the raw text", "encoded_word.go")],
 ENUM, "model_checking", TRUST + "Every byte x charset x encoding, texts up to length 3 (5) over significant symbols, 31 places, triples of words with separators.")
prop("C08", "Lists keep every address, in order, whatever the separators",
 "The result for a list is the concatenation, in source order and with duplicates, of the results for its elements, whether they are separated by commas or semicolons and whatever they contain. Empty elements between commas contribute nothing and are no error.",
 ["inputs"], "all lists over a menu of elements, separators and empty elements",
 "Order, multiplicity and separators inside names, comments and literals interact; tests have lists of two or three.",
 ["address_list.go", "address.go", "mailbox_list.go", "obs_mbox_list.go", "parser.go"], [("append in order", "address_list.go")],
 ENUM, "model_checking", TRUST + "All sequences of up to 3 over 13 elements with separators, all placements of empty elements around pairs, token trees of depth 6/8.")
prop("C09", "A group contributes exactly its members",
 "A group contributes its members, in order and in its place in the list, and nothing else: its name never shows, an empty group contributes nothing, and the documented relaxed endings (no semicolon, or quotes) change nothing.",
 ["inputs"], "all group names, member lists, endings and positions",
 "Tests have a few groups, mostly alone in the input.",
 ["group.go", "group_list.go", "obs_mbox_list.go", "mailbox_list.go", "address.go"], [("group members appended to the address", "address.go")],
 ENUM, "model_checking", TRUST + "Product of 11 names, 19 member lists, 4 endings, 7 positions, plus token trees.")
prop("C10", "What net/mail formats is parsed back unchanged",
 "Formatting any mailbox, or any list of them, with the standard library's mail.Address.String and parsing the text gives back the same names and addresses, for any name text and any non-empty address with printable local part.",
 ["inputs"], "all names, local parts and domains, and lists of mailboxes",
 "No test formats anything; quoting, escaping and encoded-word splitting each depend on the exact characters.",
 ["parser.go", "quoted_string.go", "encoded_word.go", "display_name.go", "addr_spec.go"], [("inverse of mail.Address.String", "parser.go")],
 "bounded exhaustive round trips through the standard library and the real parser", "model_checking", TRUST + "Trusts net/mail's formatting. All names up to length 3 (4) over 11 characters and 2 over 56, local parts likewise.")
prop("C11", "Every Unicode character survives in every position",
 "Every non-ASCII Unicode character is accepted and returned unchanged, neither replaced, normalised, trimmed nor folded, in atoms, quoted strings, escapes, local parts, domains, domain literals and encoded words, and is ignored in comments, also at the very start or end of a value.",
 ["inputs"], "all 1,111,936 non-ASCII scalar values in each position",
 "Tests use about ten non-ASCII characters; a table range or a trimming function can miss any other.",
 ["RFC5322Lexer.g4", "parser/rfc5322_lexer.go", "atom.go", "qtext.go", "quoted_char.go", "domain_literal.go"], [("character ranges of the lexer", "parser/rfc5322_lexer.go")],
 "exhaustive enumeration of code points in every position on the real code", "model_checking", TRUST + "Quick: the whole BMP in one position, edges of blocks elsewhere, all specially treated code points singly; thorough: everything everywhere.")
DT = ("ParseDateTime",)
prop("C12", "Calendar dates and times are exact",
 "For every day of the years 0000 to 9999 and every second of the day, the date-time written with a four-digit year denotes exactly that moment of the proleptic Gregorian calendar, with no fraction of a second; a missing seconds field means zero, and second 60 means the second after 59.",
 ["inputs"], "all dates 0000-01-01 to 9999-12-31 and all times of day",
 "Tests use five dates.",
 ["date_time.go", "day.go", "month.go", "year.go", "hour.go", "minute.go", "second.go"], [("field values handed to time.Date", "date_time.go")],
 "exhaustive enumeration of the calendar on the real code against an independent calendar", "model_checking", TRUST + "Quick: about 2,000 months in full and a third of the minutes; thorough: all 3.65 million days and all 86,400 seconds.", observe=DT)
prop("C13", "Zones denote exactly their offsets",
 "A numeric zone of four digits with plus, minus or no sign denotes that offset in hours and minutes, the sign applying to both; each named North American and universal zone, in any mixture of cases, denotes its RFC 5322 offset; a missing zone means UTC. The returned time has that offset, and no other zone spelling is accepted.",
 ["inputs"], "all offsets, all zone words of up to three letters, several dates",
 "Tests use six zones; negative half-hour offsets and each zone name by itself can break alone.",
 ["zone.go", "obs_zone.go", "offset.go", "date_time.go"], [("table of zone names", "obs_zone.go"), ("offset arithmetic", "offset.go")],
 "exhaustive enumeration of zones on the real code against a reference table", "model_checking", TRUST + "All 30,000 signed and unsigned offsets on one date (more on others), all case mixtures, all words of up to three letters.", observe=DT)
prop("C14", "Two-digit years fall in the latest past or present year",
 "A two-digit year denotes the latest year with these digits that is not after the current year, at whatever moment from 2000 to 2099 the function is called.",
 ["inputs", "configurations"], "all 100 two-digit years at the first and last instants of all years 2000 to 2099",
 "The result depends on the clock; tests run at one moment.",
 ["year.go"], [("pivot at the current year", "year.go")],
 "exhaustive enumeration of clock values under a controlled clock, on the real code", "model_checking", TRUST + "The clock is testing/synctest's; the local zone is UTC.", observe=DT, state=[("current year", "clock read during the call", "year.go")])
prop("C15", "What is not a valid date-time is refused",
 "ParseDateTime returns an error and the zero time unless the input is a date-time of RFC 5322, under the documented relaxations (one-digit hours, unsigned offsets, optional zone), whose day exists in its month and year, whose time is between 00:00:00 and 23:59:60 and whose offset minutes are below 60. It accepts every one that is.",
 ["inputs"], "all strings",
 "Tests have very few malformed date-times, and none that is only out of range.",
 ["date_time.go", "day.go", "month.go", "year.go", "hour.go", "minute.go", "second.go", "offset.go", "parser.go", "parser/rfc5322_parser.go"], [("grammar", "parser/rfc5322_parser.go"), ("range checks", "date_time.go")],
 "breadth-first exploration of viable prefixes of a reference grammar, every explored input replayed on the real parser", "model_checking", TRUST + "Token trees of depth 4/6, edit-distance-1 neighbourhoods, all two-digit values of every field.", observe=DT)
prop("C16", "Layout, case and optional parts of a date-time do not change it",
 "Comments and white space wherever RFC 5322 allows them, upper and lower case of day, month and zone names, a leading zero of the day or hour, and the presence of a day name do not change the moment a date-time denotes or whether it is accepted.",
 ["inputs"], "all layouts of a date-time, deviating from the plain one in up to two places",
 "Tests have one date-time with a comment and none in mixed case.",
 ["date_time.go", "day.go", "month.go", "obs_zone.go", "year.go", "hour.go"], [("case-insensitive names", "month.go"), ("only digit tokens are read", "year.go")],
 "deviation-bounded enumeration of layouts on the real code", "model_checking", TRUST + "Known findings: a comment before a four-digit year is rejected.", observe=DT)
prop("C17", "Calls are independent of each other and of what is done with results",
 "The outcome of a call depends only on its input and on the charset reader in force, not on earlier calls, successful or not, nor on whether it is the first call of the process. Results belong to the caller: changing them affects no other result and no later call, and no later call changes them.",
 ["histories"], "all sequences of operations over a menu up to a depth",
 "Tests run each input once and never touch a result.",
 ["parser.go", "walker.go", "encoded_word.go", "parser/rfc5322_parser.go"], [("a fresh walker, lexer and parser per call", "parser.go")],
 "exhaustive enumeration of operation sequences on the real code against a reference model", "model_checking", TRUST + "28 operations to depth 2 and 17 to depth 3 (28 to depth 4 thorough), first calls in fresh processes, runs of up to 1,025 calls.",
 state=[("prediction caches", "shared by all calls of a process", "parser/rfc5322_parser.go"), ("CharsetReader", "package variable", "parser.go")], observe=("ParseAddressList", "ParseDateTime"))
prop("C18", "Concurrent calls behave like separate ones",
 "Any number of goroutines may call both functions at the same time: under every schedule each call gives exactly the result it gives alone, no call blocks for ever, and there is no data race, also when these are the first calls of the process.",
 ["schedules"], "all schedules of two and three concurrent calls over a menu up to a preemption bound",
 "The tests are sequential.",
 ["parser.go", "walker.go", "encoded_word.go", "parser/rfc5322_lexer.go", "parser/rfc5322_parser.go"], [("lazy initialisation under sync.Once", "parser/rfc5322_parser.go"), ("no shared mutable state in the walker", "walker.go")],
 "stateless exploration of schedules of the instrumented real code under a controlled scheduler with a preemption bound; separate race-detector pass", "model_checking",
 "Preemptions at every statement of the package and at every synchronisation operation of it and of the antlr runtime, bound 1, and bound 2 at operations on shared variables; sequentially consistent memory (data races are left to the race-detector pass).",
 state=[("static parser data", "initialised once", "parser/rfc5322_parser.go"), ("prediction caches", "locked in the antlr runtime", "parser/rfc5322_parser.go")], observe=("ParseAddressList", "ParseDateTime"))
prop("C19", "Each ASCII character plays its RFC role in each position",
 "In every position of an address list or date-time each of the 128 ASCII characters is accepted, kept, dropped or refused exactly as the documented grammar gives it a role there, and no non-ASCII character is ever taken for one of them.",
 ["inputs"], "all ASCII characters in about 70 positions",
 "Tests touch a few dozen pairs of character and position out of thousands.",
 ["RFC5322Lexer.g4", "parser/rfc5322_lexer.go", "parser/rfc5322_parser.go", "qtext.go", "quoted_char.go"], [("character classes of the lexer and parser", "parser/rfc5322_lexer.go")],
 ENUM, "model_checking", TRUST + "Complete for the listed positions.", observe=("ParseAddressList", "ParseDateTime"))
prop("C20", "A folded input means what its unfolded form means",
 "Where the grammar allows white space, a line break followed by a space or tab changes nothing but is itself removed, in address lists and date-times, inside names, quoted strings, literals and comments; a line break or a lone CR or LF that is not such a fold is never taken for one.",
 ["inputs"], "all placements of up to two folds in seed inputs",
 "Tests have a few folded inputs and no broken folds.",
 ["fws.go", "domain_literal.go", "quoted_string.go", "RFC5322Parser.g4"], [("CRLF removed from white space", "fws.go")],
 "deviation-bounded enumeration of folds on the real code", "model_checking", TRUST + "One fold per run of white space; known finding: two folds in one run inside a quoted string are rejected.", observe=("ParseAddressList", "ParseDateTime"))
prop("C21", "Obsolete address forms are understood",
 "The obsolete forms of RFC 5322 section 4 that the grammar includes are accepted with their RFC meaning: source routes are ignored, white space and comments around the dots of a local part vanish, words of a local part may be quoted one by one, names may contain dots, list elements may be empty, and control characters and escapes of them are kept.",
 ["inputs"], "all combinations of obsolete forms over a menu",
 "Tests have single examples of some of these forms.",
 ["obs_angle_addr.go", "obs_local_part.go", "obs_domain.go", "obs_mbox_list.go", "obs_qp.go", "quoted_pair.go", "unspaced.go"], [("routes report nothing", "obs_angle_addr.go")],
 ENUM, "model_checking", TRUST + "Known findings: comments and white space around the dots of a domain are rejected.")
prop("C22", "Size does not change meaning",
 "Results stay exact as inputs grow in any direction: number of addresses, group members, words, labels, comments, folds or empty elements, length of any token, and depth of nested comments.",
 ["inputs"], "all sizes of about 40 dimensions up to a bound",
 "Tests are all small; limits show only at a size.",
 ["parser.go", "walker.go", "display_name.go", "address_list.go"], [("unbounded stack and slices", "walker.go")],
 "exhaustive size ladders on the real code with expectations by construction", "model_checking", TRUST + "Every size up to 8..70 and sizes around powers of two and mail limits above that, per dimension up to a bound set by the parser's cost.", observe=("ParseAddressList", "ParseDateTime"))
prop("C23", "The charset reader is used by its contract, and its failures are contained",
 "For an encoded word in a display name whose charset is not UTF-8, US-ASCII or ISO-8859-1, the charset reader in force is given the lower-case charset name and exactly the decoded bytes, once per word and in order, and all it yields becomes the text, however it divides its reads. If there is none, or it or its result fails at any point, the word stays as written and the call succeeds; it is not called for anything else, and it may itself call the parser.",
 ["fault_sequences", "inputs"], "all scripts of read answers up to a length, all modes of the callback, all sequences of reader changes",
 "Tests use one working charset reader.",
 ["parser.go", "encoded_word.go"], [("decoder built per word from the variable", "encoded_word.go")],
 "enumeration of all environment answers and faults of the callback on the real code", "fault_enumeration", TRUST + "Scripts of up to 3 (5) read answers.",
 state=[("CharsetReader", "package variable read at each encoded word", "parser.go")])

NA = {"C18": "the check is being built"}
if os.path.exists(os.path.join(root, "mc/sched")):
    NA = {}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k[0] != "_"}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["id"] in NA:
        m["not_applicable"].append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["_m"]["technique"], level=p["_m"]["level"], level_note=p["_m"]["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
