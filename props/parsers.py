from . import prop
from .text import ENU

NOTE = "Narrow, wide and SGML variants run over the same words in the C locale of the environment (C.UTF-8)."

prop("P01", "Every parser stays inside its text and answers by the text alone", """
    Whatever it parses, a parser never reads outside of the text it is given, reports an interval from the start of the match if it matches and an invalid one if it does not, never beyond the end of the text; what it reports does not depend on what surrounds the text, on whether the end is given or marked by a zero,
    or on what the same object matched before; searching finds the first position that matches, with the same result; and after invalidation nothing is reported.""",
    "inputs histories", "every word over the tokens of each parser's language up to the depth, 100 parsers in up to three character kinds, every pair of a first and a second text on one object", "The suite matches a few good texts with new objects; it cannot see stale results, reads past the end or dependence on what follows.",
    ["parser.hpp", "sgml.hpp"], [("basic_parser", "parser.hpp:class basic_parser"), ("search", "parser.hpp:search"), ("parser_collection", "parser.hpp:parser_collection")], ["results", "intervals", "parsed parts and values", "memory accesses"],
    [dict(src="parsers_rel.cpp")], "model_checking",
    "one execution = one word less its last token with all last tokens, or one first text with all second texts; states = words", "words of 2 to 5 tokens by parser (3 to 6 thorough); all pairs of words of up to 2 tokens and prefixes of samples", technique=ENU,
    note="Parsers defined by a look behind (beginning of line) are exempt from the surroundings part. Parser HTML tokens and HTTP headers included.")

prop("P02", "Combined parsers match exactly what their composition denotes", """
    For every composition of elementary parsers by iteration, sequence, branch and permutation, and for every text, the result, the extent, the alternative hit and the extents of all parts are those the composition denotes: ordered choice, greedy or minimal repetition within limits, order-independent sequences in the first order that fits,
    in narrow, wide and entity-encoded text, in every combination of flags.""",
    "programs inputs", "every parser of one operator over all elementary parsers and of two operators over some, on every text up to the length over six or seven characters, from two positions, in all flags", "The suite has a handful of compositions, each with one text.",
    ["parser.hpp"], [("basic_iterations", "parser.hpp:class basic_iterations"), ("basic_sequence", "parser.hpp:class basic_sequence"), ("basic_branch", "parser.hpp:class basic_branch"), ("basic_permutation", "parser.hpp:class basic_permutation"), ("basic_set", "parser.hpp:class basic_set"), ("basic_string_branch", "parser.hpp:class basic_string_branch")], ["results", "intervals of all parts", "hit offsets"],
    [dict(src="parsers_comb.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=2"])], "model_checking",
    "one execution = one composed parser on all texts; states = compositions", "texts of up to 5 (leaves), 3-4 (one operator), 3 (two operators) characters; 6, 5 and 4 thorough", technique=ENU,
    note="A repetition of something empty is repeated once. " + NOTE)

prop("P03", "Numeral parsers accept exactly their grammar and give exact values", """
    Integer, thousands-grouped, hexadecimal and Roman numerals, fractions, scores, signed, mixed, scientific and monetary numerals match exactly the longest numeral of their grammar at the beginning of any text, report every part (sign, integer, separator, decimal, exponent, currency) where it is, and give the exact value; a value out of range is the nearest in range, never a wrapped one.""",
    "inputs", "every word over the digits, signs, separators and letters of each numeral up to the length, every Roman numeral, every number around the limits of the type", "The suite tries about ten numerals.",
    ["parser.hpp"], [("basic_integer10", "parser.hpp:class basic_integer10"), ("basic_integer10ts", "parser.hpp:class basic_integer10ts"), ("basic_roman_numeral", "parser.hpp:class basic_roman_numeral"), ("basic_mixed_numeral", "parser.hpp:class basic_mixed_numeral"), ("basic_scientific_numeral", "parser.hpp:class basic_scientific_numeral"), ("basic_monetary_numeral", "parser.hpp:class basic_monetary_numeral")], ["intervals of all parts", "values"],
    [dict(src="parsers_num.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=3"])], "model_checking",
    "one execution = one word less its last two tokens, with all of them; states = words", "words of 4 to 8 tokens by numeral, two more in thorough", technique=ENU, note=NOTE)

prop("P04", "Addresses, names and URLs are parsed exactly, with all their parts", """
    IPv4 and IPv6 addresses, DNS names, URLs of each scheme and e-mail addresses match exactly the longest text of their grammar, with every component, group, label, scope, credential, port, path, query and anchor where it is; the address value holds the address in network byte order as the system's own parser gives it, with zero compaction anywhere.""",
    "inputs", "every word over the pieces of each grammar up to the length, every IPv6 form of up to eight groups with one compaction, every URL of present and absent parts, names around the length limits", "The suite tries one to five texts of each kind and no values.",
    ["parser.hpp"], [("basic_ipv4_address", "parser.hpp:class basic_ipv4_address"), ("basic_ipv6_address", "parser.hpp:class basic_ipv6_address"), ("basic_dns_name", "parser.hpp:class basic_dns_name"), ("basic_url", "parser.hpp:class basic_url"), ("basic_email_address", "parser.hpp:class basic_email_address")], ["intervals of all parts", "address values"],
    [dict(src="parsers_net.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=4"])], "model_checking",
    "one execution = one word less its last two tokens, with all of them; states = words", "words of 4 to 9 tokens by grammar, one or two more in thorough", technique=ENU, note=NOTE)

prop("P05", "Dates, times, angles, phone numbers and formulas are parsed exactly", """
    Dates of every format and combination of formats, times with absent parts, angles, phone numbers, emoticons and chemical formulas match exactly what their grammar says at the beginning of any text, with every part where it is; an impossible date or time is refused, so is one with mixed separators, and a format that fits leaves no trace of those tried before.""",
    "inputs configurations", "every combination of date formats on every word, every day and month of common and leap years, every word over the pieces of each grammar, parts present or absent", "The suite tries a few good texts.",
    ["parser.hpp"], [("basic_date", "parser.hpp:class basic_date"), ("basic_time", "parser.hpp:class basic_time"), ("basic_angle", "parser.hpp:class basic_angle"), ("basic_phone_number", "parser.hpp:class basic_phone_number"), ("basic_emoticon", "parser.hpp:class basic_emoticon"), ("basic_chemical_formula", "parser.hpp:class basic_chemical_formula")], ["intervals of all parts", "format", "values", "hits"],
    [dict(src="parsers_misc.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=5"])], "model_checking",
    "one execution = one word less its last two tokens, with all of them; states = words", "words of 4 to 9 tokens by grammar, one more in thorough; all dates of four years in each format", technique=ENU, note=NOTE)

prop("P06", "Payment references are recognized exactly and verified by their checksums", """
    International account numbers of every country, creditor references and national payment references of every model match exactly the texts of their format, spaced or not, with every part where it is, and are valid exactly when their check digits are: no wrong digit or exchanged pair of digits is accepted where the checksum can tell, no right one is refused.""",
    "inputs", "every country with every length and kind of character off by one, every replacement and exchange in valid references, every model with every arrangement of parts, all short words", "The suite tries one or two references of each kind.",
    ["parser.hpp"], [("basic_iban", "parser.hpp:class basic_iban"), ("basic_creditor_reference", "parser.hpp:class basic_creditor_reference"), ("basic_si_reference", "parser.hpp:class basic_si_reference")], ["intervals of all parts", "validity"],
    [dict(src="parsers_ref.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=6"])], "model_checking",
    "one execution = one reference with all changes, or one word less its last tokens; states = references", "one change anywhere in references of every country; words of up to 6 tokens; every model with parts of up to 3 lengths", technique=ENU, note=NOTE)

prop("P07", "HTTP and JSON elements are parsed exactly", """
    Every element of an HTTP message - tokens, quoted strings, parameters, media types, URLs, languages, weights, cookies, agents, protocols, request lines and headers - and JSON strings match exactly the longest text of their grammar at the beginning of any text, with every part where it is;
    a list of weighted values holds each value of the list once, in the order of preference; a JSON string gives the exact text it stands for, for every character and escape.""",
    "inputs", "every word over the pieces of each grammar up to the length, every octet as a character of text, every character of Unicode in each form of escape, every list of up to four weighted values", "The suite has no test of most of them.",
    ["parser.hpp"], [("http_request", "parser.hpp:class http_request"), ("http_header", "parser.hpp:class http_header"), ("http_url", "parser.hpp:class http_url"), ("http_media_type", "parser.hpp:class http_media_type"), ("http_value_collection", "parser.hpp:class http_value_collection"), ("http_cookie", "parser.hpp:class http_cookie"), ("basic_json_string", "parser.hpp:class basic_json_string")], ["intervals of all parts", "values", "order of collections"],
    [dict(src="parsers_http.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=7"])], "model_checking",
    "one execution = one word less its last two tokens, with all of them, or one list; states = words", "words of 4 to 7 tokens by grammar, one more in thorough; all characters of Unicode", technique=ENU,
    note="Lists with empty elements, weights without digits and empty ports are not covered: the library's lenience there is neither documented nor a standard's.")

prop("P08", "CSS and HTML tokens are recognized exactly", """
    CSS comments, markers, strings, URIs and imports, MIME types with their character set, and HTML identifiers, values, tags with all attributes, comments, declarations and marked section boundaries match exactly the text of their syntax at the beginning of any text, quotes and escapes honoured, with the kind, name, content, and every attribute's name and value where it is.""",
    "inputs", "every word over the delimiters, quotes, escapes, spaces and letters of each token up to the length, narrow and wide, from each position", "The suite matches one or two tags.",
    ["parser.hpp"], [("basic_html_tag", "parser.hpp:class basic_html_tag"), ("basic_html_value", "parser.hpp:class basic_html_value"), ("basic_html_declaration_condition_start", "parser.hpp:class basic_html_declaration_condition_start"), ("basic_css_string", "parser.hpp:class basic_css_string"), ("basic_css_uri", "parser.hpp:class basic_css_uri"), ("basic_css_import", "parser.hpp:class basic_css_import"), ("basic_mime_type", "parser.hpp:class basic_mime_type")], ["results", "intervals of all parts", "attributes"],
    [dict(src="parsers_html.cpp", kind="plain", flags=["-O2"]), dict(src="parsers_alias.cpp", kind="plain", flags=["-O2", "-DPROP=8"])], "model_checking",
    "one execution = one word less its last two tokens, with all of them; states = words", "words of 5 to 8 tokens by token kind, one more in thorough", technique=ENU)

prop("P09", "An HTML document is divided into sequences that tile and nest", """
    However an HTML document is cut into chunks while it is read, it is divided into the same sequences: in order, without overlap or gap, covering every character; tags, comments, declarations, instructions and marked sections are each where the syntax has them; every start tag is tied to its end - its end tag or where HTML lets it end - and properly nested;
    texts of ignored sections are not content, the character set is that of the document; element names are told apart exactly; and a cleared or reassigned document is like a new one.""",
    "inputs histories configurations", "every document over the tokens up to the length, all cuts to chunks of shorter ones, every pair of nested elements, every element name and its neighbours, every character set declaration", "The suite parses one document in one chunk.",
    ["html.hpp"], [("document", "html.hpp:class document"), ("element_t", "html.hpp:enum class element_t"), ("element_span", "html.hpp:element_span"), ("may_contain", "html.hpp:may_contain"), ("append", "html.hpp:append"), ("finalize", "html.hpp:finalize")], ["sequences with type, extent, start, end and parent", "attributes and entities", "character set"],
    [dict(src="html_doc.cpp", kind="plain", flags=["-O2"]),
     dict(src="html_doc.cpp", kind="asan", flags=["-O1", "-DSHORT"], harnesses=["structure", "sections", "chunks", "reuse"])], "model_checking",
    "one execution = one document less its last token, with all last tokens, or one document in all cuts; states = documents", "documents of 5 tokens (6 thorough); all cuts of documents of up to 4 tokens; all pairs of elements (triples thorough)", technique=ENU,
    note="Appending after finalization is not covered. The rules of the content model are those of HTML 4 that leave no room for interpretation.")

prop("P10", "HTML text survives extraction and linking back", """
    Text extracted from an HTML document, with markers in place of tags, and linked back gives the document it came from, up to its equivalent encoding; the text is exactly what a reader sees, and its mapping leads every character to the place in the document it came from; a translated text, an attribute's value included, goes exactly there, encoded so that it is read back the same - quotes, entities, URL and CSS escapes;
    inserted, merged and reordered tokens come out where the markers say; progress is reported in full and a cancelled run stops.""",
    "inputs histories", "every document over the tokens up to the length parsed and linked back, every localizable attribute of every element with every kind of quote and value, every pair of nested elements, every arrangement of markers in translations", "The suite links one document.",
    ["html.hpp"], [("parser", "html.hpp:class parser"), ("token_list", "html.hpp:token_list"), ("document::link", "html.hpp:link"), ("start_tokens", "html.hpp:start_tokens")], ["extracted words, text and mapping", "linked document", "progress"],
    [dict(src="html_link.cpp", kind="plain", flags=["-O2"]),
     dict(src="html_link.cpp", kind="asan", flags=["-O1", "-DSHORT"], harnesses=["link", "verbatim_elements", "style", "progress", "tokens", "inserted", "merging", "control_characters", "link_tokens"])], "model_checking",
    "one execution = one document less its last token, with all last tokens, or one attribute or arrangement; states = documents", "documents of 4 tokens (5 thorough); all elements and attributes; all pairs of elements", technique=ENU,
    note="Marked sections that straddle elements of verbatim text are not covered. Characters 12 and 13 (hexadecimal), which enclose token tags, are substituted in texts when spelled as references; the source must not have them as such.")

prop("P11", "HTML, URL and CSS escaping are exact inverses", """
    Text escaped for HTML, for URLs or for CSS contains nothing that its place gives a meaning to, and unescaping gives the text back; unescaping any text ends, never reads outside of it, and replaces exactly the escapes, each by the character it stands for, leaving everything else.""",
    "inputs", "every text over the special characters up to the length, all pairs of octets, every hexadecimal escape with every neighbour, narrow and wide", "The suite has no test of them.",
    ["html.hpp"], [("escape_min", "html.hpp:escape_min"), ("url_unescape", "html.hpp:url_unescape"), ("url_escape", "html.hpp:url_escape"), ("css_unescape", "html.hpp:css_unescape"), ("css_escape", "html.hpp:css_escape")], ["results", "memory accesses"],
    [dict(src="html_escapes.cpp", flags=["-O1"])], "model_checking",
    "one execution = one text less its last character, with all last characters; states = texts", "texts of 5 characters (6 thorough), all pairs of octets", technique=ENU,
    note="CSS escapes of characters that do not fit the character type are not covered; url_escape() leaves the double quote, which attributes escape in turn.")

prop("P12", "SGML text means the same however its characters are spelled", """
    A parser of SGML text matches a text spelled with character references - named, decimal, hexadecimal, padded, for every character, for any one, for all but any one - exactly when its counterpart matches the characters they stand for, with the same values and counts, with every part exactly at the references of the characters of the counterpart's part: no match or part begins or ends inside of a reference.""",
    "inputs", "every word over the tokens of each parser's language up to the depth, in every spelling: each form of reference for all characters, for any one, for all but any one", "The suite spells one or two characters of a few texts.",
    ["parser.hpp", "sgml.hpp"], [("sgml_any_cp", "parser.hpp:class sgml_any_cp"), ("sgml_cp", "parser.hpp:class sgml_cp"), ("sgml_cp_set", "parser.hpp:class sgml_cp_set"), ("sgml_string", "parser.hpp:class sgml_string"), ("sgml_string_branch", "parser.hpp:class sgml_string_branch"), ("sgml_phone_number", "parser.hpp:class sgml_phone_number"), ("sgml_iban", "parser.hpp:class sgml_iban")], ["results", "intervals of all parts", "values"],
    [dict(src="parsers_sgml.cpp", kind="plain", flags=["-O2"])], "model_checking",
    "one execution = one word in all spellings; states = words", "words of 2 to 5 tokens by parser (3 to 6 thorough)", technique=ENU,
    note="Searching SGML text goes by code units and is not covered, nor are copies of the source text (the value of a phone number is such).")
