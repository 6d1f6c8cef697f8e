from . import prop
from .streams import SEQ, FLT

ENU = "exhaustive enumeration of all inputs up to a bound on the real code, compared with an independent reference"

prop("T01", "Charset conversion is exact for every text in any pieces", """
    Converting between UTF-7, UTF-8, UTF-16, UTF-32 and the Windows code pages gives exactly the encoding of the same characters for every text of any length, stops at a terminator, keeps what the destination held,
    and refuses text that is not valid in its charset or has no counterpart in the other. A converter is unaffected by what it converted or refused before, also in a charset with a shift state, and charset names are recognised exactly in any letter case.""",
    "inputs histories", "every code point in both directions, every byte of three code pages, every short sequence of critical bytes and code units, every length and position of wider characters around the size of the internal buffer, every division in two, conversions after failed ones",
    "The suite converts a handful of short strings.",
    ["unicode.hpp"], [("charset_encoder", "unicode.hpp:class charset_encoder"), ("names", "unicode.hpp:charset_from_name")], ["converted text, errors"],
    [dict(src="charset.cpp")], "model_checking",
    "one execution = one block of code points, one short sequence, or one long string in all divisions; states = distinct texts", "all 0x110000 code points; sequences of up to 4/5 bytes of 16, 5/6 units of 10; strings around 1 KiB of internal buffer", technique=ENU)

prop("T02", "SGML references and characters convert into each other exactly", """
    Decoding SGML replaces every well-formed character reference - the named entities of the standards and decimal and hexadecimal references to characters - with the characters meant, and leaves all other text as it is, malformed references included.
    Encoding replaces characters with references that mean them, honours the flags, and decoding what was encoded gives the text back. Both are the same for a bounded buffer, which is never exceeded and always terminated, and for a string, and keep what the destination held.""",
    "inputs", "every entity of the table in three contexts, every code point in and out, every letter with every mark, every text of up to 6 characters of a reference alphabet, every sequence of up to 3 of 25 references and fragments, every capacity of the destination",
    "The suite converts four short strings.",
    ["sgml.hpp", "sgml_unicode.hpp"], [("sgml2str", "sgml.hpp:sgml2strcat"), ("str2sgml", "sgml.hpp:str2sgmlcat"), ("table", "sgml_unicode.hpp:sgml_unicode")], ["decoded text", "encoded text", "buffer ends"],
    [dict(src="sgml.cpp")], "model_checking",
    "one execution = one entity, block of code points, letter with marks, or text; states = distinct texts", "all entities; all 0x110000 code points; texts of up to 6/7 of 9 characters; 3/4 of 25 fragments", technique=ENU,
    note="The reference names come from the HTML standard and Unicode, kept in harness/sgml_ref.h; which of the two forms of the sgml_full flag sgmlerr() takes is not claimed.")

prop("T03", "String functions agree with their definitions for every string and length", """
    Length, search, comparison, concatenation, copying, case conversion, trimming, classification, grapheme and line-break functions give what their definition says for every pair of strings, with a length limit and without, with and without a locale, for all unit widths,
    and never read past a terminator or limit or write past a destination. Text to number conversion gives the exact value, saturates at the bounds and reports how much was read. Formatting gives the whole text whatever its length, destination content and errno.""",
    "inputs", "all pairs of strings of up to 3 of 5 critical units in exactly fitting memory under AddressSanitizer, all units for classification, all grapheme strings up to 6, all number texts up to 5 of 11 characters in 8 radices, all values around every power of two, every length around the internal buffers",
    "The suite touches a few of the functions with one or two strings each.",
    ["string.hpp"], [("str*", "string.hpp:strcmp"), ("strto*", "string.hpp:strtoint"), ("format", "string.hpp:vappendf"), ("glyphs", "string.hpp:glyphlen")], ["results", "destination content", "memory accesses"],
    [dict(src="strings.cpp")], "model_checking",
    "one execution = one pair of strings, one string, one number text or one block of units, in all functions; states = distinct strings", "strings of up to 3/4 units in pairs, 5/6 alone; number texts of up to 5/6; all code units; lengths within 10 of every internal buffer", technique=ENU)
