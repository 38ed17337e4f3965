#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
INT = "src/phonenumberutil/phonenumberutil_internal.rs"
PUB = "src/phonenumberutil/phonenumberutil.rs"
HF = "src/phonenumberutil/helper_functions.rs"
HC = "src/phonenumberutil/helper_constants.rs"
RM = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
RU = "src/regex_util.rs"
RC = "src/regexp_cache.rs"
RB = "src/regex_based_matcher.rs"
MD = "src/generated/metadata/metadata.rs"
EN = "src/phonenumberutil/enums.rs"
ER = "src/phonenumberutil/errors.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "No public call panics, aborts, hangs or exhausts memory on any input",
 "Every public operation returns normally (a value or an error value) for every string, every region code and every phone-number message, including malformed Unicode-heavy text, tel: URIs with parameters in any order, and messages with absurd field values. No call panics, overflows arithmetic, loops without end, or uses time and memory out of proportion to its input (the number of leading zeros a message declares counts as input size).",
 ["inputs"], "all UTF-8 strings x all region strings x all PhoneNumber field combinations x all public methods",
 "The tests call the API with a few hundred well-formed numbers; a slice on a bad byte offset, a subtraction that underflows or an unwrap on a missing group shows only on inputs nobody listed.",
 [INT, HF, PUB, RU], [("byte-offset slicing of user text", INT+": build_national_number_for_parsing, extract_possible_number, extract_country_code, format_in_original_format"),
  ("expect/unwrap at the public boundary", PUB), ("loop that shortens a number", INT+": truncate_too_long_number")], observe=["every public method of PhoneNumberUtil"])

prop("C02", "Formatting a valid number and parsing the text back yields the same number",
 "For every valid number, parsing its E.164, international or RFC 3966 form (whatever the default region) and its national form (with its own region as default) yields the same calling code, national significant number (leading zeros included) and, for the forms that carry it, the same extension (one no longer than the digits its label admits). The only exception is a number that is itself ambiguous under its region's numbering plan: the plan lets a caller strip the leading digits of its national significant number as a national or carrier prefix, or its national text as a calling code or international prefix.",
 ["inputs"], "all valid numbers of all regions and types, with and without extension x 4 formats x default regions",
 "Round trips hold or fail per numbering plan (about 250 plans, some 30 number types and format rules each); the tests do it for a few numbers of a dozen synthetic regions and never on the shipped metadata.",
 [INT, HF, MD], [("format", INT+": format, format_nsn_using_pattern_with_carrier"), ("parse", INT+": parse_helper, maybe_extract_country_code"), ("leading zeros", INT+": get_italian_leading_zeros_for_phone_number, get_national_significant_number")])

prop("C03", "Parsing depends on the digits, not on how they are presented",
 "Two texts that spell the same number parse to the same result: ASCII digits may be replaced by decimal digits of any Unicode script, punctuation and white space accepted in phone numbers (other than characters that label an extension) may be inserted or removed between digits, the plus sign may be full-width or repeated, leading text that cannot start a number and trailing text that cannot end one are ignored. Where letters stand for digits (three or more), each letter counts as the keypad digit E.161 assigns to it, in either case.",
 ["inputs"], "all numbers x all decimal digits of Unicode x all accepted separators x junk around the number x default regions",
 "Tests try full-width and Arabic digits on one number; there are over 700 decimal digits in Unicode, some 40 separators and combinations of them at every position.",
 [INT, RM, HC], [("normalisation", INT+": normalize, normalize_digits_only"), ("viable-number pattern", RM+": valid_phone_number_pattern"), ("trim", INT+": extract_possible_number, trim_unwanted_end_chars"), ("punctuation class", HC+": VALID_PUNCTUATION")])

prop("C04", "Parsing accepts exactly what the grammar allows and classifies every refusal",
 "For every text and default region, parsing either returns a number with an assigned calling code and a national significant number of 2 to 17 digits, or an error that names the cause: not a number when the text is not viable as a phone number, invalid country code when no calling code can be found from the text or the default region, too short after IDD, too short or too long national number. Which of these results, and every field of the number returned, is the one the published libphonenumber parsing algorithm gives on the shipped metadata.",
 ["inputs"], "all strings x all default regions (supported, unknown, malformed)",
 "The tests list some 200 texts against reduced test metadata; acceptance and refusal depend on the whole text and on 250 real numbering plans.",
 [INT, ER, RM], [("parse_helper", INT+": parse_helper"), ("viability", INT+": is_viable_phone_number"), ("country code extraction", INT+": maybe_extract_country_code, extract_country_code"), ("length bounds", HC+": MIN_LENGTH_FOR_NSN, MAX_LENGTH_FOR_NSN")])

prop("C05", "Extensions are recognised, bounded and carried without altering the number",
 "A number followed by a recognised extension label (;ext=, ext., extension, x, #, int, comma and semicolon forms, wide and accented variants) and digits up to that label's limit parses to the same number as without it plus exactly those digits as extension; beyond the limit, or when the text before the label is not a viable number, no extension is split off. Formatting appends a non-empty extension once, with the region's preferred label or the default one (;ext= in RFC 3966, none in E.164), and leaves the rest of the output unchanged.",
 ["inputs"], "all numbers x all label spellings, separators and suffixes x extension lengths 0..25 x digit scripts x formats",
 "Tests sample about 40 label and number pairs; limits differ per label family and interact with viability of what precedes.",
 [INT, HF, HC], [("extension pattern", HF+": create_extn_pattern, extn_digits"), ("strip", INT+": maybe_strip_extension"), ("format", INT+": get_formatted_extension")])

prop("C06", "RFC 3966 tel: URIs are interpreted as the standard says",
 "In a text with a phone-context parameter, the context is accepted only if it is a global number or a domain name by RFC 3966; a global-number context supplies the leading digits, a domain is ignored, and the number is what stands between the first tel: scheme, when it stands before the context, and the context. An isub parameter and all after it are dropped, an empty or malformed context is reported as not a number, and parameters in any order never change which digits are taken or crash the parser.",
 ["inputs"], "all tel: URIs: scheme present or not, parameters in all orders and multiplicities, contexts valid and malformed x default regions",
 "Tests list about 30 URIs; the parser works by substring offsets, so order, repetition and emptiness of parameters matter.",
 [INT, RM, HC], [("build_national_number_for_parsing", INT), ("extract_phone_context / is_phone_context_valid", INT), ("RFC 3966 patterns", RM+": rfc3966_global_number_digits_pattern, rfc3966_domainname_pattern")])

prop("C07", "Dialling prefixes are stripped exactly as the region's plan prescribes",
 "Dialled from a region, a number written with that region's international prefix, national prefix, carrier code or its own calling code without plus parses to the same number as its plain form: an international prefix counts only if no zero follows it, a national prefix or transform rule applies only if the result stays a match when the original was one and is a possible length, and a bare calling code is removed only if that turns a non-matching number into a matching one or the number was too long. What is stripped is never part of the national number, and the captured carrier code is reported when raw input is kept.",
 ["inputs"], "all regions x all numbers x all spellings of that region's international, national and carrier prefixes",
 "Every region has its own prefix regular expressions and transform rules; the tests exercise about ten synthetic ones.",
 [INT, MD], [("maybe_strip_national_prefix_and_carrier_code", INT), ("maybe_strip_international_prefix_and_normalize / parse_prefix_as_idd", INT), ("maybe_extract_country_code", INT)])

prop("C08", "Keeping raw input adds provenance and changes nothing else",
 "Parsing with raw input kept succeeds or fails exactly as plain parsing does and returns the same calling code, national number, leading zeros and extension; in addition it records the text verbatim, how the calling code was found (plus sign, international prefix, bare calling code, or default region) and the carrier code if one was stripped. Plain parsing records none of these three.",
 ["inputs"], "all strings x all default regions",
 "Tests compare a handful of numbers; agreement of two entry points over all texts is a relation no sample settles.",
 [INT], [("keep_raw_input branches", INT+": parse_helper, maybe_extract_country_code"), ("set_country_code_source", INT+": maybe_extract_country_code")])

prop("C09", "Validity and number type are those of the published numbering plan",
 "A number is valid, and has type T in region R, exactly when the published metadata says so: its national significant number has a length listed for the plan and matches the plan's general pattern and the pattern of T in full, types being tried in the documented order, and fixed-line-or-mobile reported when both match. This holds for every region and non-geographical entity in the metadata, for matching numbers and for numbers one digit away from matching.",
 ["inputs"], "all national significant numbers x all regions and global network codes x all types",
 "Patterns total thousands of alternatives over 250 plans; tests check about 100 numbers on synthetic metadata only, none against the shipped table.",
 [INT, RU, RB, MD, EN], [("get_number_type_helper", INT), ("full match of patterns", RU+": full_match"), ("possible lengths", INT+": is_number_matching_desc"), ("shipped metadata", MD)])

prop("C10", "Validity, possibility, type and region queries never contradict each other",
 "For every number: valid implies possible; valid if and only if its type is known; valid if and only if it is valid for the region reported for it; valid for a region implies that region has the number's calling code; the reported region is one of the regions of its calling code, and is unknown exactly when none of them claims the number. Queries ignore extension, raw input, country-code source and carrier code, and do not modify the number.",
 ["inputs"], "all phone-number messages x all regions",
 "These are relations between six queries over the whole input space and all regions sharing a calling code; tests assert single queries on single numbers.",
 [INT], [("is_valid_number / is_valid_number_for_region", INT), ("get_region_code_for_number(_from_region_list)", INT), ("get_number_type", INT), ("is_possible_number_with_reason", INT)])

prop("C11", "Possible-length verdicts follow the plan's length table",
 "For every number the possibility verdict depends only on calling code and count of digits in the national significant number: invalid country code if the code is unassigned; otherwise possible, local-only, too short, too long or invalid length according to the lengths the metadata lists for the calling code's main region. Possible is reported exactly for the first two verdicts.",
 ["inputs"], "all calling codes (assigned and not) x all national number lengths 1..20+ with any leading zeros",
 "The space of (calling code, length) pairs is small but the tests visit about 30 pairs of synthetic metadata.",
 [INT, HF], [("test_number_length", HF), ("is_possible_number_for_type_with_reason", INT)])

prop("C12", "Region and calling-code tables are mutually consistent and complete",
 "The supported regions are exactly the geographical territories of the metadata; each has the calling code listed there, and the regions reported for a calling code are exactly those territories, with the metadata's main country first (001 for global network codes). Unknown codes and regions are answered with none or the unknown region, and a region is NANPA exactly when its calling code is 1.",
 ["inputs"], "all calling codes in i32 x all region strings",
 "Tests look at about 10 regions of the test metadata; consistency is over the whole shipped table and its complement.",
 [INT, MD], [("constructor", INT+": new_for_metadata"), ("lookups", INT+": get_region_codes_for_country_calling_code, get_region_code_for_country_code, get_country_code_for_region, is_nanpa_country")],
 state=[("country_calling_code_to_region_code_map", "sorted table calling code -> regions, main region first", INT), ("region_to_metadata_map", "region -> plan", INT), ("nanpa_regions", "regions with calling code 1", INT)])

prop("C13", "Example numbers are what they claim to be",
 "For every supported region with an example, the example number is a valid number of that region and equals the published example; the example for a number type has that type whichever region it comes from. Every invalid example number is parseable in its region but not valid; unsupported regions and types without example give an error.",
 ["inputs", "configurations"], "all regions x all types x all instances (map iteration order differs per instance)",
 "Tests check a few test-metadata regions; type examples pick a region by hash iteration order, so each instance may answer differently.",
 [INT, MD], [("get_example_number*", INT), ("get_invalid_example_number", INT)])

prop("C14", "Formatting never loses, invents or reorders digits",
 "For every number, the digits of its E.164, international and RFC 3966 forms are exactly calling code followed by national significant number (the international plan may only reorder or prefix where its metadata rule does), then extension; the national form holds the national significant number plus at most the plan's national prefix. E.164 is plus sign and digits only, the international form starts with plus, code and a space, RFC 3966 is tel:+code-, digit groups joined by single hyphens and an optional ;ext=.",
 ["inputs"], "all numbers (valid, merely possible, arbitrary) x 4 formats, any extension",
 "Conservation must hold through every one of some 1000 format rules and for numbers that match none.",
 [INT, HF], [("format", INT), ("prefix_number_with_country_calling_code", HF), ("get_national_significant_number", INT), ("RFC 3966 separator folding", INT+": format_nsn_using_pattern_with_carrier")])

prop("C15", "Formatting applies the plan's own rule for the number",
 "The national and international forms of a number are exactly what the metadata prescribes: the first format whose leading-digits pattern (the most detailed one) matches at the start and whose pattern matches the whole national significant number, taken from the international list when there is one, with the national-prefix rule applied only in national form; the number is left ungrouped if no rule applies. Regions sharing a calling code use the main region's rules, and the region's preferred extension label is used.",
 ["inputs"], "all calling codes x all format rules x all national numbers, with neighbours that fall just outside each rule",
 "There are over 1000 format rules in the shipped metadata; tests check about 60 outputs on synthetic rules.",
 [INT, RU, MD], [("choose_formatting_pattern_for_number", INT), ("format_nsn_with_carrier / format_nsn_using_pattern_with_carrier", INT), ("full_match", RU)])

prop("C16", "Out-of-country formatting yields what must be dialled from the given region",
 "Formatted for calling from a region, a number comes out in national form when both share a calling code (prefixed with 1 and a space between NANPA regions), and otherwise with the caller's preferred international prefix, else its only one, else a plus sign, followed by calling code and international grouping. An unknown calling region gives the international form, and a number with an unassigned calling code its bare national significant number.",
 ["inputs"], "all ordered pairs (calling region, number) over all regions and global network codes",
 "60000 ordered region pairs; tests check about 20.",
 [INT], [("format_out_of_country_calling_number", INT), ("single_international_prefix", RM)])

prop("C17", "Mobile-dialling output is dialable as the rules of caller and callee say",
 "The text for mobile dialling carries no extension and, without formatting, only diallable characters; called from another region it is the international (or E.164) form if the number is valid and internationally diallable and empty otherwise; called from the main region of its own calling code it is the national form, except NANPA, global network, Mexican, Chilean and Uzbek numbers (international when diallable) and Brazilian fixed and mobile numbers (only with a stored carrier code, else empty). A number with unassigned calling code gives its raw input, or nothing.",
 ["inputs"], "all numbers (valid, possible, short, with carrier code, extension or raw input) x all calling regions x both formatting flags",
 "Rules branch on two regions, number type, length class and stored carrier; tests sample about 40 combinations.",
 [INT], [("format_number_for_mobile_dialing", INT), ("can_be_internationally_dialled", INT), ("normalize_diallable_chars_only", INT)])

prop("C18", "Original-format output never alters the diallable characters the user typed",
 "For a number parsed with raw input kept, formatting in the original format yields a text whose diallable characters equal those of the raw input; if the plan has no grouping for it or none that keeps these characters, the raw input itself is returned. The style follows how the number was entered: with plus sign international, with international prefix out-of-country, with bare calling code international without plus, otherwise national with the national prefix present only if it was typed.",
 ["inputs"], "all texts parsed with raw input x regions of parsing x calling regions",
 "Depends on the raw text, on the plan's prefix rules and on re-parsing; tests list about 30 texts.",
 [INT], [("format_in_original_format", INT), ("raw_input_contains_national_prefix", INT), ("has_formatting_pattern_for_number", INT), ("format_by_pattern", INT)])

prop("C19", "Carrier-code formatting inserts the carrier exactly where the plan has a rule",
 "Formatting a national number with a carrier code (any text without the replacement marker $) yields the plan's carrier rule with that code and no national-prefix rule, when the chosen format has such a rule and the code is non-empty; in all other cases the result equals the national form. National significant number and extension are kept; a number with unassigned calling code gives its bare national significant number.",
 ["inputs"], "all numbers x all carrier codes (any text) x all plans",
 "Only some plans have carrier rules; tests cover three numbers in two synthetic plans.",
 [INT], [("format_national_number_with_carrier_code", INT), ("format_nsn_using_pattern_with_carrier", INT)])

prop("C20", "Vanity numbers keep their letters when formatted for calling abroad",
 "Out-of-country formatting that keeps letters keeps every letter, digit and grouping symbol the user typed from the national number on, removing only the calling code or prefixes typed before it, and, when the calling code differs, prefixes the caller's single international prefix, else its preferred one, else a plus sign, then the calling code; between NANPA regions 1 and a space are prefixed. Without raw input it equals ordinary out-of-country formatting; dialled from abroad, the extension is written once with the destination's label.",
 ["inputs"], "all alpha and digit texts parsed with raw input x all calling regions",
 "Tests cover about 15 texts; outcome depends on caller's prefixes, the destination plan and where the national number starts in the text.",
 [INT, RM], [("format_out_of_country_keeping_alpha_chars", INT), ("grouping symbols", RM+": all_plus_number_grouping_symbols")])

prop("C21", "Number matching is a symmetric, graded comparison of identity fields only",
 "Comparing two numbers is symmetric and ignores raw input, country-code source and carrier code: exact match exactly if calling code, national number, leading zeros and extension agree and both codes are set; national match if they agree but a calling code is missing; short match if codes agree or one is missing and one national number is a suffix of the other; otherwise, and always when both have different non-empty extensions, no match. A missing extension and an empty one are the same, and so are the number of leading zeros when none are flagged.",
 ["inputs"], "all pairs of phone-number messages",
 "Relational over pairs; tests check about 40 pairs, mostly through strings.",
 [INT, HF], [("is_number_match", INT), ("copy_core_fields_only, is_national_number_suffix_of_the_other", HF)])

prop("C22", "Truncation yields the longest valid prefix or leaves the number untouched",
 "Truncating a too-long number returns true exactly if the number is valid already or becomes valid by dropping digits from its end without first becoming too short, in which case the number holds the longest such valid prefix and every other field is unchanged; otherwise it returns false and the number is untouched. A second truncation changes nothing.",
 ["inputs"], "all numbers: valid ones with any digits appended, arbitrary messages",
 "Tests use four numbers.",
 [INT], [("truncate_too_long_number", INT)])

prop("C23", "Area-code and destination-code lengths split the number as it is grouped",
 "For every number whose national number is not zero, the length reported for the national destination code is that of the second digit group of the international form (third plus mobile token for Argentine mobiles), or 0 if there are fewer than three groups; it never exceeds the national significant number. The area-code length is that or 0, and 0 unless the number is geographical and its plan has a national prefix, an Italian zero or is a documented exception; extensions have no influence.",
 ["inputs"], "all numbers x all plans, with extensions",
 "Tests check about 30 numbers of the test metadata.",
 [INT, RM], [("get_length_of_national_destination_code, get_length_of_geographical_area_code", INT), ("is_number_geographical", INT), ("country sets", RM+": geo_mobile_countries, mobile_token_mappings, countries_without_national_prefix_with_area_codes")])

prop("C24", "Letter handling: keypad conversion is total, local and idempotent",
 "Converting letters replaces each ASCII letter, in either case, by its E.161 keypad digit and leaves every other character as it is, so the character count is kept and converting twice changes nothing. A text is an alpha number exactly if it is viable as a phone number and, without its extension, contains at least three ASCII letters; converting then yields a text that parses to the same number.",
 ["inputs"], "all strings",
 "Tests convert three strings.",
 [INT, RM], [("convert_alpha_characters_in_number, is_alpha_number", INT), ("normalize_helper", HF), ("alpha_phone_mappings", RM)])

prop("C25", "Concurrent use gives the sequential answers, without races or deadlock",
 "Any number of threads may use one shared instance, or the global one including its first use, at the same time: every call returns what it returns when called alone, no call deadlocks, and no data race occurs.",
 ["schedules", "histories"], "all interleavings of all public calls on a shared instance with cold and warm caches",
 "Tests are single-threaded; the pattern caches are shared, filled lazily and concurrently.",
 [RC, RB, INT, "src/phonenumberutil/mod.rs"], [("concurrent regex cache", RC+": RegexCache::get_regex"), ("lazy global", "src/phonenumberutil/mod.rs: PHONE_NUMBER_UTIL")],
 state=[("cache", "pattern text -> compiled regex, filled on demand", RC)])

prop("C26", "Answers do not depend on history or instance, and memory stays bounded",
 "A call's answer depends on its arguments alone: it is the same on a fresh instance, on one that has served any sequence of earlier calls, and when repeated (which region a region-less type example comes from is the only exception). Serving more calls does not grow memory without bound: caches hold only patterns of the metadata, never user input.",
 ["histories", "inputs"], "all call sequences on one instance against fresh instances",
 "Tests share one instance and never compare against a fresh one, repeat calls or measure memory.",
 [RC, INT], [("regex caches keyed by metadata patterns", RC+": RegexCache"), ("immutable tables", INT+": PhoneNumberUtilInternal")])

prop("C27", "The shipped binary metadata is the published XML metadata",
 "Every rule in the metadata compiled into the library (territories, calling codes, prefixes, patterns, lengths, example numbers, formats and flags) is the one derived from the published XML resource by libphonenumber's documented build rules, with no territory, type, length or format missing, added, reordered or altered, and every pattern compiles.",
 ["configurations"], "all territories x all descriptions and formats x all fields",
 "Unit tests run on separate test metadata, so no existing test reads the shipped table at all.",
 [MD, "resources/PhoneNumberMetadata.xml", HF], [("embedded bytes", MD+": METADATA"), ("load", HF+": load_compiled_metadata")])

BX="tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java"
MF="tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java"
BR="tools/java/rust-build/src/com/google/i18n/phonenumbers/BuildMetadataRustFromXml.java"
RG="tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java"
prop("C28", "The metadata generator emits exactly what the plan document defines",
 "For every well-formed plan document (ordinary, short-number or alternate-format) the metadata generator writes a Rust constant of the requested name whose declared length and bytes decode to exactly the document's territories, in order, with the documented inheritance of prefix and carrier rules, defaults for international formats and derivation of possible lengths. The lite variant differs only in having no example numbers of number types. On the shipped documents, and through the regeneration script, it reproduces the committed tables.",
 ["inputs", "configurations"], "all well-formed plan documents x variants x constant names",
 "The build and test run never executes the generator; its own unit tests need libraries fetched from the network and check fragments.",
 [BX, MF, BR, RG, "tools/scripts/generate_metadata.sh"], [("formats, rules and lengths", BX+": loadAvailableFormats, setRelevantDescPatterns, setPossibleLengthsGeneralDesc"), ("lite variant", MF+": forLiteBuild, filterMetadata"), ("options and output", BR+": Options.parse"), ("byte array", RG+": outputSourceFile")])

prop("C29", "The metadata generator refuses broken plans and reports every failure",
 "The metadata generator refuses a document with an ill-formed length list (empty, stray comma, malformed or too short range, duplicate), a length both full and local-only or outside the general ones, lengths on the general description, local-only lengths of short numbers, a description given twice, not exactly one format, more than one international format, a pattern that does not compile or ends a group with an empty alternative, or text that is not XML or no calling code where one belongs; and nothing else. A refused document or malformed command ends with a failure status and leaves the output file as it was. Success is reported only if the whole output was written.",
 ["inputs", "fault_sequences"], "all plan documents, well-formed or spoilt, all command lines, and failing outputs",
 "The build and test run never executes the generator; its own unit tests need the network, and check single fragments and no I/O failure.",
 [BX, BR, RG, "tools/java/common/src/com/google/i18n/phonenumbers/CommandDispatcher.java"], [("length lists", BX+": parsePossibleLengthStringToSet, populatePossibleLengthSets, setPossibleLengths"), ("patterns", BX+": validateRE"), ("command and exit status", BR+": start, Options.parse"), ("output", RG+": outputSourceFile")])

prop("C30", "Stored phone numbers read back unchanged, in libphonenumber's wire format",
 "Every phone number with a calling code and a national number, whatever its optional fields hold, can be stored as bytes and read back to an equal number that the library treats the same; numbers lacking either are refused both ways. The bytes are the published phone-number message, so any libphonenumber reads them with the same fields and values and its bytes are read likewise; a field never stored reads as its published default.",
 ["inputs"], "all phone-number messages",
 "No test stores a number; the message type is generated at build time from a schema no test looks at.",
 ["resources/phonenumber.proto", "build/rust_build.rs", "src/generated/proto/mod.rs"], [("schema", "resources/phonenumber.proto: PhoneNumber, CountryCodeSource"), ("code generation", "build/rust_build.rs")])

PI="src/phonenumberutil/phonenumberutil_internal.rs"
prop("C31", "Answers follow whatever plans the library is built with, not today's plans",
 "Whatever numbering plans the library is built with (calling codes, regions sharing them, global networks, dialling and national prefixes, transform and carrier rules, formats, types, lengths), its parsing, formatting, validation, type, region, length and matching answers are those the published algorithms give for those plans. No answer depends on a fact about today's plans beyond the exceptions libphonenumber itself documents for particular calling codes and regions.",
 ["inputs", "configurations"], "all plan collections the metadata generator can produce x all inputs of the public operations",
 "Plans change with every metadata release; the tests know one collection of invented plans and the compiled-in one.",
 [PI, "src/phonenumberutil/helper_functions.rs", "src/regex_util.rs"], [("prefix transform", PI+": maybe_strip_national_prefix_and_carrier_code"), ("region among several", PI+": get_region_code_for_number_from_region_list"), ("rules", PI+": choose_formatting_pattern_for_number, format_nsn_using_pattern_with_carrier"), ("lookup by code", PI+": new_for_metadata")])

prop("C32", "Questions about a plan itself get what the plan says",
 "Supported number types, example numbers by region and type or by global network, the national dialling prefix, the supported calling codes, and the length verdict for a number type are exactly those of the plan asked about, for every region, calling code and type; a region or network without a plan gets none. Fixed-line-or-mobile takes the lengths of both, a type without lengths of its own takes the general ones, and a type the plan lacks has no possible length.",
 ["inputs", "configurations"], "all regions, calling codes, number types and numbers, over all plan collections",
 "The tests ask about a handful of regions and types of one invented collection.",
 [PI, "src/phonenumberutil/helper_functions.rs"], [("lengths by type", "src/phonenumberutil/helper_functions.rs: test_number_length"), ("types", "src/phonenumberutil/helper_functions.rs: get_supported_types_for_metadata"), ("examples", PI+": get_example_number_for_type_and_region_code, get_example_number_for_non_geo_entity")])

prop("C33", "Formatting by the caller's own rules applies the first rule that fits",
 "Given formats of the caller's own, a number is formatted by the first one whose last leading-digits pattern and whole pattern fit it, or left ungrouped if none does; its national-prefix rule, with the plan's national prefix and the first group filled in, counts in the national format only and not at all where the plan has no national prefix. The extension is appended in the plan's national style and the calling code in the style asked for. A stored carrier code takes precedence over the caller's fallback, and an empty one counts as none.",
 ["inputs"], "all numbers x all lists of formats x all styles",
 "The tests try a few formats on a few numbers.",
 [PI], [("caller's formats", PI+": format_by_pattern"), ("carrier preference", PI+": format_national_number_with_preferred_carrier_code")])

prop("C34", "Numbers given as text match exactly as the numbers they are read as",
 "Matching a number with a text, or two texts, gives the verdict for the numbers the texts are read as: by their own calling code where they have one, otherwise in the plan of the other number's calling code, in which case an exact match counts as a match of national numbers only, and without any plan when neither says where it belongs. A text that is no phone number is refused with the parser's reason, never matched. A text counts as a possible number exactly if it parses to one.",
 ["inputs"], "all pairs of texts, and all numbers with all texts",
 "The tests match a few dozen literal pairs.",
 [PI], [("one text", PI+": is_number_match_with_one_string"), ("two texts", PI+": is_number_match_with_two_strings"), ("possible text", PI+": is_possible_number_for_string")])

prop("C35", "Every text is reduced to what can be dialled by the same rules",
 "Reduced to digits, a text keeps every decimal digit of any script, as its ASCII digit, and nothing else; reduced to diallable characters, it keeps its ASCII digits, +, * and #; normalised, a text with three letters keeps its ASCII digits and its letters as keypad digits, any other its digits. Reduction is idempotent, and a text counts as a viable phone number exactly if it fits the published grammar, extension included. A plan's format suits formatting as one types exactly if it is its groups, the first one first, amid punctuation, and a prefix rule is the bare first group exactly if nothing but parentheses surrounds it.",
 ["inputs"], "all Unicode texts, all formats and prefix rules",
 "The tests reduce a handful of literal texts.",
 [PI, "src/phonenumberutil/helper_functions.rs", "src/phonenumberutil/phone_number_regexps_and_mappings.rs"], [("reduction", PI+": normalize, normalize_digits_only, normalize_diallable_chars_only"), ("mappings", "src/phonenumberutil/phone_number_regexps_and_mappings.rs: initialize_regexp_mappings"), ("grammar", PI+": is_viable_phone_number"), ("formats", PI+": is_format_eligible_for_as_you_type_formatter, formatting_rule_has_first_group_only")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    n = p["statement"].count(". ") + 1
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert n <= 3, (p["id"], n)
print(len(P), "properties")
