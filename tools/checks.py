# Read by mkchecks.py.

check("C01", [
    run("H_C01_fields", grid(KINDS, [1, 2, 3]), "every component kind, every choice of at most three optional properties, symbolic values"),
    run("H_C01_drop", grid(KINDS, [1, 2]) + [[0, 3], [1, 3]], "every component kind with all properties but any one or two, and one that excludes others"),
    run("H_C01_full", grid(KINDS), "every component kind with all compatible properties present"),
    run("H_C01_many", grid(KINDS, [3, 8, 12, 20, 35, 70]), "3 to 70 values of every list property"),
    run("H_C01_counts", [[0], [1], [2]], "0-2 instances of each component kind in one calendar"),
    run("H_C01_components", grid(KINDS, [3, 9, 40]), "3, 9 and 40 components of each kind"),
    run("H_C01_values", grid(KINDS, range(6)), "every property: empty texts and texts of one or two arbitrary bytes, one-digit numbers and integers of three digits, every date and time, every parameter with one arbitrary byte"),
    run("H_C01_pairs", grid(KINDS, [5]) + grid(range(2, 11), [0, 2]), "every number, shape and enumeration member (outside events and to-dos also every time and empty texts) of a property next to any other property"),
    run("H_C01_mixed", grid(KINDS, KINDS), "full and minimal components of any two kinds in one calendar"),
    run("H_C01_two", grid(KINDS), "two components of one kind with any one property each"),
    run("H_C01_todo", grid(range(7, 11), [-1, 0, 1, 2]), "alarms with up to two or all optional properties in a to-do"),
    run("H_C01_words", grid(KINDS, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 24, 40, 75, 100]), "every property with all its parameters, all words having 2 to 100 symbolic characters that need no escapes"),
], [
    run("H_C01_fields", grid(KINDS, [4]), "every choice of four optional properties"),
    run("H_C01_pairs", grid([0, 1], [0, 2]) + grid(KINDS, [1, 3]), "every value of a property next to any other property"),
    run("H_C01_drop", grid(KINDS, [3]) + [[0, 4], [1, 4]], "all properties but three, and one that excludes others"),
    run("H_C01_many", grid(KINDS, [30]), "30 values of every list property"),
    run("H_C01_counts", [[3]], "0-3 instances of each component kind"),
], [UTF8], "other numbers of optional properties at once; more components")

check("C02", [
    run("H_C02_shapes", grid(KINDS, [1, 2]), "every property of every component kind, up to two parameters at a time with symbolic values"),
    run("H_C02_subsets", grid(KINDS), "every subset of the parameters of every property"),
    run("H_C02_alternatives", [[]], "every combination of alternative value types"),
    run("H_C02_lists", grid(KINDS, [1, 3, 4, 9, 12, 20, 35]), "list values and list parameters of 1 to 35 members, all parameters present"),
    run("H_C02_values", grid(KINDS, range(6)), "empty texts and texts of one or two arbitrary bytes, one-digit numbers and integers of three digits, every date and time, every parameter with one arbitrary byte"),
    run("H_C02_words", grid(KINDS, [2, 3, 4, 5, 6, 8, 10, 12, 24, 80]), "every shape and every single parameter with words of 2 to 80 symbolic characters that need no escapes"),
], [
    run("H_C02_shapes", grid(KINDS, [3]), "up to three parameters at a time"),
    run("H_C02_lists", grid(KINDS, [2, 5, 6, 7, 8, 30]), "lists of up to 9 and of 30 members"),
], [UTF8], "longer lists")

check("C03", [
    run("H_C03_text", [[0], [1], [2], [3], [4], [5]], "SUMMARY texts of 0-5 arbitrary bytes"),
    run("H_C03_hosts", grid(KINDS, [1, 2]), "every text property of every component with a text of 1-2 arbitrary bytes"),
    run("H_C03_list", [[-1], [0, -1], [1, -1], [2, -1], [0, 0, -1], [1, 1, -1], [2, 1, -1], [0, 1, 1, -1], [1, 0, 1, -1]], "lists of 0-3 texts of 0-2 bytes"),
    run("H_C03_decode", [[1], [2], [3], [4], [5], [6]], "value texts of 1-6 arbitrary bytes against the RFC 5545 unescaping rules"),
    run("H_C03_mdecode", [[1], [2], [3], [4], [5]], "list value texts of 1-5 arbitrary bytes"),
    run("H_C03_long", [[0, 1, 1100], [1, 1, 1100], [1, 2, 600], [0, 3, 30], [0, 3, 100]], "up to three arbitrary bytes repeated to texts of up to 1200 bytes"),
    run("H_C03_long", [[0, 1, 4200], [5, 1, 2100]], "one arbitrary byte repeated to texts of up to 4200 bytes", limit=40000000),
    run("H_C03_longlist", [[20, 1], [70, 1], [5, 2]], "an arbitrary text at any place in lists of up to 70"),
    run("H_C03_inside", grid([20, 63, 70, 127, 255, 300, 511, 1030, 2050], [1, 2], [0, 30]), "one or two arbitrary bytes far into a text"),
    run("H_C03_deep", grid(KINDS, [3, 20, 62, 70, 140, 300], [0, 20]), "every text of every component with an arbitrary byte behind up to 300 letters"),
], [
    run("H_C03_text", [[6], [7]], "texts of 6-7 bytes"),
    run("H_C03_hosts", grid(KINDS, [3]), "every text property with 3 bytes"),
    run("H_C03_list", [[2, 2, -1], [1, 2, 1, -1], [3, 1, -1], [1, 1, 1, 1, -1]], "longer lists"),
    run("H_C03_decode", [[7], [8]], "value texts of 7-8 bytes"),
    run("H_C03_mdecode", [[6], [7]], "list value texts of 6-7 bytes"),
    run("H_C03_long", grid([0, 1, 2, 3], [3], [400]) + grid(range(8), [2], [40, 700]), "repeated bytes at other places"),
], [UTF8], "longer texts")

check("C04", [
    run("H_C04_param", grid(range(5), [1, 2, 3]), "ATTENDEE parameters CN, DIR, SENT-BY, LANGUAGE-like and MEMBER values of 1-3 arbitrary bytes"),
    run("H_C04_pair", [[1, 1, 1, 1], [2, 1, 1, 1]], "several parameters at once"),
    run("H_C04_hosts", grid(KINDS, [1]), "every text parameter of every property with one arbitrary byte"),
    run("H_C04_decode", [[1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0], [5, 0, 0], [1, 0, 1], [2, 0, 1], [3, 0, 1], [4, 0, 1], [5, 0, 1]], "quoted and unquoted parameter texts of 1-5 bytes against RFC 6868"),
    run("H_C04_long", grid(range(5), [0], [1], [1100]) + grid([0, 4], [0, 1], [2], [40, 600]), "one or two arbitrary bytes repeated to values of up to 1200 bytes"),
    run("H_C04_inside", grid(range(5), [15, 31, 63, 70, 127, 255, 300, 1030], [1], [0, 20]) + grid([0, 4], [70], [2], [5]), "one or two arbitrary bytes far into a parameter"),
    run("H_C04_deep", grid(KINDS, [3, 20, 62, 140, 300], [0, 20]), "every string parameter with an arbitrary byte behind up to 300 letters"),
], [
    run("H_C04_param", grid(range(5), [4, 5]), "values of 4-5 bytes"),
    run("H_C04_hosts", grid(KINDS, [2]), "two bytes"),
    run("H_C04_decode", [[6, 0, 0], [6, 0, 1], [7, 0, 1]], "6-7 bytes"),
], [UTF8], "longer parameter values")

check("C05", [
    run("H_C05_datetime", grid(range(3)), "every date-time of the years 1-9999 in UTC, local time and named zones"),
    run("H_C05_date", grid(range(3)), "every date of the years 1-9999"),
    run("H_C05_period", grid(range(3)), "every pair of date-times as a period"),
    run("H_C05_perioddur", grid([0, 1], [1, 2]), "every start with every duration of up to two digits per part"),
    run("H_C05_perioddecode", [[]], "every pair of written date-times as a period"),
    run("H_C05_hosts", grid(KINDS), "every time-valued property of every component"),
    run("H_C05_zone", grid(range(14), [2021]), "every time between 4:00 and 22:00 of every day of 2021 in fourteen zones of every sort"),
], [
    run("H_C05_perioddur", grid(range(3), [3, 4]), "durations of up to four digits per part"),
    run("H_C05_zone", grid(range(14), [1950, 1975, 2024, 2050]), "other years"),
], [], "zones other than the listed ones, ambiguous local times around DST changes, fractions of seconds")

check("C06", [
    run("H_C06_duration", grid(range(5), [20]), "each duration part over the whole range of uint64 with one-digit other parts, both signs"),
    run("H_C06_parts", [[1], [2]], "all duration parts with up to two digits"),
    run("H_C06_offset", [[]], "every pair of UTC offsets below 100 hours"),
    run("H_C06_offsetrange", [[]], "every other 64-bit offset is refused"),
    run("H_C06_integer", [[]], "every 32-bit integer"),
    run("H_C06_boolean", [[]], "both booleans"),
    run("H_C06_geo", [[]], "every pair of 64-bit floating-point coordinates"),
    run("H_C06_hosts", grid(KINDS, [1, 2]), "every numeric property of every component with up to two digits"),
], [
    run("H_C06_parts", [[3]], "all duration parts with up to three digits"),
    run("H_C06_hosts", grid(KINDS, [4]), "every numeric property with up to four digits"),
], ["strconv.FormatFloat(f, fmt, -1, 64) and strconv.ParseFloat are inverse functions on finite numbers; other precisions are decided on sample values"], "combinations of two duration parts with more than two digits (three in the thorough tier)")

check("C07", [
    run("H_C07_list", grid(range(9), [1, 2]), "each by-list with one or two members over the whole range of their type"),
    run("H_C07_numbers", [[]], "every 64-bit count and interval"),
    run("H_C07_until", grid(range(3)), "every end of the years 1-9999, with or without a 64-bit count"),
    run("H_C07_enums", [[]], "every 8-bit frequency and week start"),
    run("H_C07_subsets", [[]], "every set of parts with symbolic members"),
    run("H_C07_text", grid([0, 1, 2, 4, 5, 6, 7, 8], [1, 2, 3, 4], [0, 1, 2]), "each by-list written with 1-4 arbitrary digits and any sign"),
    run("H_C07_byday", [[1], [2], [3], [4], [5]], "BYDAY members of 1-5 arbitrary bytes against the grammar"),
    run("H_C07_order", [[]], "five parts in every order"),
    run("H_C07_long", grid(range(9), [3, 8, 30]), "every by-list with 3, 8 and 30 members of which any one is arbitrary"),
    run("H_C07_parts", [[0], [1], [2], [3]], "every frequency with up to three other parts"),
    run("H_C07_refused", [[]], "repeated, missing, conflicting and malformed parts"),
], [
    run("H_C07_list", grid([0, 4, 5, 7], [3]), "by-lists with three members"),
    run("H_C07_byday", [[6], [7]], "BYDAY members of 6-7 bytes"),
], [], "longer lists, lower-case rule parts, zero counts and intervals in texts")

check("C08", [
    run("H_C08_binary", [[n] for n in list(range(0, 66)) + [99, 100, 101, 114, 127, 128, 129, 171, 255, 256, 257, 511, 512, 513, 766, 767, 768, 769, 770, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097]], "attachments of 0-65 arbitrary bytes and of lengths about 100, 114, 171, 1000, 1500, 128, 256, 512, 768, 1024, 2048 and 4096, with and without format type"),
    run("H_C08_uri", grid(range(10), [0, 1, 2]), "URI strings of ten forms with up to two arbitrary bytes, as value of three properties"),
    run("H_C08_param", grid(range(10), [0, 1, 2]), "the same URIs as a parameter"),
], [
    run("H_C08_binary", [[3000], [3001], [3002], [8191], [8192], [8193]], "attachments of about 3000 and 8192 bytes", limit=12000000),
    run("H_C08_uri", grid(range(10), [3]), "three arbitrary bytes"),
    run("H_C08_param", grid(range(10), [3]), "three arbitrary bytes"),
], ["URIs are compared by their string form"], "URIs with more arbitrary bytes, attachments of other lengths")

check("C09", [
    run("H_C09_text", grid(range(56, 72), [1, 2, 3], [0, 80]) + grid(range(134, 142), [1, 2, 3], [0]) + grid(range(60, 69), [4], [3]), "one to four arbitrary characters' bytes at every column around the first and second fold, with and without text behind"),
    run("H_C09_text", [[n, 0, 0] for n in range(0, 230)], "lines of every length up to 238 octets"),
    run("H_C09_long", [[0, 1, 1000], [1, 1, 1000], [0, 2, 600], [1, 2, 300], [0, 3, 100], [1, 3, 100], [2, 3, 100], [0, 4, 60]], "up to four arbitrary bytes repeated to lines of up to 1200 octets and more"),
    run("H_C09_long", [[0, 1, 5000]], "one arbitrary byte repeated to a line of more than 5000 octets", limit=40000000),
    run("H_C09_pieces", grid([0], range(28, 46), [1, 2]) + grid([1], range(52, 68), [1, 2]) + grid([2], range(24, 60), [0]) + grid([3], range(60, 72), [2]), "parameters, list members, base64 pieces and consecutive long lines around the fold"),
], [
    run("H_C09_text", grid(range(56, 70), [4], [0, 80]) + grid(range(60, 69), [5], [3]), "four and five bytes at every column"),
    run("H_C09_pieces", grid([0], range(28, 46), [3]) + grid([1], range(52, 68), [3]), "three bytes in parameters and lists"),
    run("H_C09_long", grid(range(8), [3], [200]) + grid(range(4), [4], [100]), "repeated bytes at other columns"),
], [], "longer arbitrary regions")

check("C10", [
    run("H_C10_fold", grid(range(10), [1], [0, 1]) + grid([0, 2, 5], [2], [0, 1]), "one fold (space or tab) at every position of ten kinds of line with one or two arbitrary bytes"),
    run("H_C10_folds", grid([0, 1, 2, 3, 7], [0], [3]) + [[0, 1, 3]], "two folds up to three bytes apart at every position"),
    run("H_C10_head", [[1]], "one fold at every position of every other line"),
    run("H_C10_every", grid(range(10), [1]), "a fold behind every byte"),
    run("H_C10_chunks", grid(range(10), [1], [1, 2, 3, 5]) + grid([0], [1], range(4, 90, 7)), "chunks of equal size, end of input with or after the last bytes"),
    run("H_C10_split", grid(range(10), [0], [3]), "two cuts up to three bytes apart at every position"),
    run("H_C10_last", [[1]], "a cut at every position of the last sixteen bytes, with and without the last line break and data behind it"),
    run("H_C10_long", grid(range(4088, 4101), [1], [5000]) + grid(range(4092, 4099), [0], [1000, 4096, 4097, 1]), "a fold at every position around the 4096 byte buffer"),
    run("H_C10_idle", grid(range(10), [1], [1, 7, 100]), "reads that deliver nothing"),
], [
    run("H_C10_fold", grid(range(10), [2], [0, 1]) + grid([0, 2], [3], [0]), "two and three arbitrary bytes"),
    run("H_C10_folds", grid(range(10), [0], [60]) + grid(range(10), [1], [3]), "two folds at any two positions"),
    run("H_C10_split", grid(range(10), [1], [3]), "cuts around arbitrary bytes"),
    run("H_C10_last", [[2]], "two arbitrary bytes"),
], ["a fold stands behind at least one byte of its line and not inside a line break"], "more than two folds other than one behind every byte; more arbitrary bytes")

ALL = range(13)
check("C11", [
    run("H_C11_stream", [[n] for n in range(0, 7)], "every stream of up to six bytes"),
    run("H_C11_behind", grid(range(10), [1, 2, 3]), "one to three arbitrary bytes behind ten beginnings of a stream"),
    run("H_C11_value", grid(ALL, [0, 1, 2]) + grid([3, 5], [3]), "every property of every component with a value of up to two arbitrary bytes, of two of them up to three"),
    run("H_C11_mutate", grid(ALL, [0, 1], [0, 1]), "every property of every component with one byte of a sample line replaced, inserted or removed"),
    run("H_C11_cut", grid(ALL, [0, 1]), "every property of every component with a sample line cut and an arbitrary byte put there"),
    run("H_C11_param", grid(ALL, [0, 1], [0, 3]) + grid([0, 3], [1], [1, 2]), "every property with every parameter of up to one arbitrary byte, unquoted or quoted behind another value"),
    run("H_C11_type", grid(ALL, [0, 1]), "every property with every VALUE type and up to one arbitrary byte"),
    run("H_C11_twice", grid(ALL, [1]), "every property with a parameter twice"),
    run("H_C11_names", grid(ALL, range(3, 18)), "every property with a symbolic name of 3 to 17 characters as its value or that of any parameter"),
    run("H_C11_runs", grid(ALL, [25], [0, 1]), "every property with an arbitrary byte 25 times at any position of a sample line, also behind commas"),
    run("H_spec", [[k] for k in ALL], "every sample line is accepted"),
], [
    run("H_C11_runs", grid(ALL, [70], [0, 1]), "the same 70 times"),
    run("H_C11_stream", [[7]], "streams of up to seven bytes"),
    run("H_C11_behind", grid([0, 2, 3, 4, 5, 7, 8, 9], [4]), "four bytes"),
    run("H_C11_value", grid([0, 1, 2, 4, 6, 7, 8, 9, 10], [3]), "values of three bytes in the other components"),
    run("H_C11_value", grid([4, 5, 11, 12], [4]), "time zone and calendar values of four bytes"),
    run("H_C11_mutate", grid([0, 3, 5, 9], [2], [1]), "two arbitrary bytes"),
    run("H_C11_cut", grid(ALL, [2]), "two arbitrary bytes"),
    run("H_C11_param", grid([0, 3, 5, 7], [2], [0, 1]), "parameters of two arbitrary bytes"),
    run("H_C11_type", grid([0, 3, 5, 7], [2]), "two arbitrary bytes"),
], [], "longer arbitrary stretches; time zone names other than the few the model knows are taken to be unknown")

check("C12", [
    run("H_C12_hosts", grid(KINDS, [1]) + grid([1, 3, 4, 5, 7], [2]), "one or two arbitrary bytes as each string (texts, parameters, URI parts, zone names) of every property, all parameters present"),
    run("H_C12_calendar", [[1], [2], [3]], "one to three arbitrary bytes in the texts of the calendar"),
    run("H_C12_url", grid(range(12), [1, 2]), "one or two arbitrary bytes in each field of a URL as value, address and parameter"),
    run("H_C12_long", grid([60, 127, 255, 256, 511, 512, 1023, 1024, 2000], [1], [0, 100]), "an arbitrary byte far into a text, a parameter, an address"),
    run("H_C12_deep", grid(KINDS, [3, 20, 62, 140, 300], [0, 20]), "an arbitrary byte behind up to 300 letters in each string of every property"),
], [
    run("H_C12_hosts", grid([0, 2, 6, 8, 9, 10], [2]) + grid([4, 5], [3]), "two bytes in the other components, three in time zones"),
    run("H_C12_calendar", [[4]], "four bytes"),
    run("H_C12_url", grid(range(12), [3]), "three bytes"),
], [], "longer arbitrary strings; several arbitrary strings at once")

check("C13", [
    run("H_C13_bad", grid(KINDS, range(1, 13), [0, 1, 2]), "one invalid value of twelve sorts (texts, times, enumerations, offsets, durations, periods, rules, coordinates, alternatives, URIs, zones, media types) in every field of every component, alone, first or last among others"),
    run("H_C13_good", grid(KINDS, [0, 1, 2]), "the same calendars without it"),
    run("H_C13_values", grid(KINDS, range(6)), "every property: empty texts and texts of one or two arbitrary bytes, one-digit numbers and integers of three digits, every date and time, every parameter with one arbitrary byte"),
    run("H_C13_calendar", [[]], "texts of the calendar"),
    run("H_C13_rules", grid(KINDS, [0, 1, 2]), "every choice of up to two optional fields"),
    run("H_C13_alarms", [[]], "invalid alarms in events and to-dos"),
    run("H_C13_long", grid([60, 127, 255, 256, 511, 512, 1023, 1024, 2000], [0, 100]), "an invalid character far into a text"),
    run("H_C13_deep", grid(KINDS, [3, 20, 62, 140, 300], [0, 20]), "an invalid character behind up to 300 letters in each text of every property"),
    run("H_C13_words", grid(KINDS, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 24, 40, 75, 100]), "valid words of 2 to 100 symbolic characters"),
    run("H_C13_last", grid([0, 1, 2, 3, 7, 9], [1, 10], [5]), "an invalid member anywhere in lists of five"),
    run("H_C13_many", grid(range(10), [1, 2, 5, 6, 9, 10], [4]) + grid(range(10), [1, 2], [12]), "an invalid value in any one of four or twelve values of a list property"),
    run("H_C13_components", grid(KINDS, [4, 12]), "an invalid value in any one of four or twelve components"),
], [
    run("H_C13_rules", grid(KINDS, [3]), "every choice of three optional fields"),
], ["whole seconds; enumeration parameters with an unknown member write every other value as unknown"], "several invalid values at once")

check("C14", [
    run("H_C14_hosts", grid(KINDS), "every property of every component; every number of bytes accepted (symbolic) with three ways of failing, every failing write"),
    run("H_C14_long", [[n, 1, 0] for n in (0, 40, 66, 67, 68, 100, 160)] + [[10, 0, 100], [0, 1, 300], [60, 2, 30]], "folded lines and attachments of up to 300 arbitrary bytes"),
    run("H_C14_refused", [[1], [2]], "arbitrary texts of one or two bytes, accepted or refused"),
    run("H_C14_between", grid(KINDS), "another writer after two failures"),
], [
    run("H_C14_long", [[n, 2, 0] for n in range(62, 72)] + [[0, 1, 2000], [0, 0, 1100]], "two arbitrary bytes around the fold, attachments of up to 2000 bytes"),
], ["the writer returns an error whenever it accepts fewer bytes than offered, as io.Writer requires"], "longer calendars")

check("C15", [
    run("H_C15_line", grid(ALL, [0], [0]) + grid([4, 5, 11], [1], [0]), "every sample line of every component cut at every position; end of input or reader failure, six ways of delivery"),
    run("H_C15_fold", grid([3, 4, 5, 10], [0], [0]), "folded lines cut at every position"),
    run("H_C15_all", grid(ALL, [0]), "a stream with every kind of component cut at every position"),
    run("H_C15_unknown", grid([0, 1, 2, 3, 4, 5, 11], [0]) + [[0, 1], [5, 1]], "unknown components cut at every position"),
    run("H_C15_end", [[0], [1], [2], [3]], "up to three arbitrary bytes in place of the end of the closing line"),
    run("H_C15_long", grid([4096, 8192], [0, 1, 2]), "streams of several kilobytes cut around multiples of 4096 bytes", limit=40000000),
], [
    run("H_C15_line", grid(ALL, [0], [1]) + grid(ALL, [1], [0]), "every way of delivery; an arbitrary byte in the line"),
    run("H_C15_fold", grid(ALL, [0, 2], [0]), "folded lines of every component"),
    run("H_C15_all", grid(ALL, [1]), "every way of delivery"),
], ["a stream is complete when its closing line is, with or without the line break behind it"], "other chunk sizes")

check("C16", [
    run("H_C16_select", grid(ALL, [0, 1, 2], [0]) + grid([7, 8, 9, 10, 12], [0, 1], [1]), "any two properties in any order and repetition in front of, between or behind the required ones, one of which may be missing"),
    run("H_C16_full", grid(ALL, [0, 1]), "all properties, one missing and one repeated", skip=["C16 accepted"]),
    run("H_C16_order", grid(ALL, [2]) + grid([3, 5, 6], [3]), "two properties in any order, three in small components"),
    run("H_C16_end", grid(ALL, [1, 2], [0, 1]), "one or two arbitrary bytes in the name of the closing line"),
    run("H_C16_other", grid(ALL), "closing lines of other components, or none"),
    run("H_C16_parts", grid([0, 1], [0, 1]) + [[4, 0], [4, 1], [4, 2], [4, 3]], "properties in front of, between and behind alarms and time zone parts"),
    run("H_C16_different", grid(range(11), [0, 1, 2, 3]), "a property repeated with another value, parameter or case"),
], [
    run("H_C16_select", grid([3, 4, 5, 6, 11], [3], [0]), "three properties in small components"),
    run("H_C16_order", grid([0, 1, 2, 7, 8, 9, 10], [3]), "three properties in any order"),
], [], "more than two properties at once other than nearly all of them; closing lines that are folded")

check("C17", [
    run("H_C17_property", grid(ALL, [6], [1, 3, 4, 5, 7, 8]) + grid([0, 4, 8], [6], [2, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17]) + grid(ALL, [2, 3], [2]) + grid([4, 11], [2, 3], [4]) + grid([4, 12], [4], [0]) + grid([0, 4, 7, 11], [5], [0]), "an unknown property between any two lines of a stream with every kind of component: every name of up to 17 characters that is no property of the package, arbitrary values"),
    run("H_C17_param", grid(ALL, [4], [1, 2, 3, 4, 5, 6, 7, 8]) + grid([0, 7], [4], [9, 10, 11, 12, 13, 14, 15]) + grid(ALL, [1, 2], [2]) + grid(ALL, [3], [0]), "an unknown parameter in every property: every name of up to 15 characters that is no parameter of the package, arbitrary values"),
    run("H_C17_component", grid(ALL, [6], [1, 6, 8, 9]) + grid([0, 4], [6], [2, 3, 4, 5, 7, 10, 11, 12]) + grid(ALL, [1, 2], [2]) + grid([0, 4, 11], [3], [0]) + grid(ALL, [4], [0]) + grid(ALL, [5], [1]), "an unknown component, nested up to three deep, between any two lines outside an alarm"),
    run("H_C17_nested", grid([0, 4, 11], range(1, 13)), "unknown components of any name of up to 12 characters with others inside"),
    run("H_C17_long", [[4, 0, 2200], [0, 1, 50], [4, 1, 50], [4, 2, 40], [0, 3, 50], [4, 4, 200], [0, 5, 40], [7, 5, 5], [4, 6, 40], [4, 6, 80], [0, 6, 300], [0, 7, 40], [4, 7, 80], [7, 7, 300]], "long values, many unknown properties, parameters and components, 40 levels of nesting", limit=20000000),
    run("H_C17_case", grid(ALL), "names of every property and its parameters in any mixture of case"),
    run("H_C17_begin", grid(ALL), "BEGIN and END lines of every component in any mixture of case"),
], [
    run("H_C17_property", grid(ALL, [6], range(2, 20)) + grid(ALL, [2, 3], [4]), "longer names, values of four bytes"),
    run("H_C17_param", grid(ALL, [4], range(9, 18)) + grid(ALL, [1, 2], [4]), "longer names, values of four bytes"),
    run("H_C17_component", grid(ALL, [6], range(2, 16)) + grid(ALL, [1, 2], [4]), "longer names, values of four bytes"),
], ["a name is unknown when it is no property (parameter, component) of the package at all"], "several unknown items at once other than those inside an unknown component; unknown components inside an alarm, which the package refuses; deeper nesting")

check("C18", [
    run("H_C18_value", grid(ALL, [1, 2]), "every property of every component with one or two arbitrary bytes as its value"),
    run("H_C18_mutate", grid(ALL, [1], [0, 1]) + grid(ALL, [0], [1, 2]), "every property line with one arbitrary byte at any position, replaced or inserted, or one or two missing"),
    run("H_C18_cut", grid(ALL, [0, 1]), "every property line cut off anywhere, with up to one arbitrary byte there"),
    run("H_C18_param", grid(ALL, [1], range(4)) + grid(ALL, [0], [0, 1]), "every property with every parameter, its value being up to one arbitrary byte, quoted or not, alone or in a list"),
    run("H_C18_type", grid(ALL, [1]), "every property with every VALUE type"),
    run("H_C18_twice", grid(ALL, [1]), "every property with a parameter twice"),
    run("H_C18_forms", grid(ALL, [1], [0, 1]), "every form in which a time, duration, number or rule may be written, with one arbitrary byte"),
    run("H_C18_select", grid(ALL, [1, 2]), "every component with up to two more properties in any order"),
    run("H_C18_line", grid(ALL, [1, 2]), "an arbitrary line of one or two bytes at any place of a stream"),
    run("H_C18_names", grid(ALL, range(3, 18)), "every property with a symbolic name of 3 to 17 characters as its value"),
    run("H_C18_paramnames", grid(ALL, range(3, 18)), "every parameter of every property with a symbolic name of 3 to 17 characters"),
    run("H_C18_runs", grid(ALL, [25], [0, 1]), "every property with an arbitrary byte 25 times at any position of a sample line, also behind commas"),
], [
    run("H_C18_value", grid(ALL, [3]), "three bytes"),
    run("H_C18_mutate", grid(ALL, [2], [1, 2]), "two arbitrary bytes"),
    run("H_C18_param", grid(ALL, [2], [0, 1]), "two bytes"),
    run("H_C18_forms", grid(ALL, [2], [1, 2]), "two bytes"),
    run("H_C18_line", grid(ALL, [3]), "three bytes"),
], [UTF8, "calendars are equal when their fields are, URIs being compared by how they are written and an empty parameter being the same as none"], "longer arbitrary stretches; several altered lines at once")

check("C19", [
    run("H_C19_duration", grid([0], range(7)) + grid([1, 2, 3, 4], range(5)) + grid([5], range(1, 5)) + grid([6], [1, 2, 3]), "duration texts of up to six arbitrary bytes, and of up to four bytes after several beginnings"),
    run("H_C19_offset", grid([0, 1], range(8)), "offset texts of up to seven arbitrary bytes"),
    run("H_C19_date", [[0, n, 8] for n in range(8)] + [[0, 8, 8], [8, 1, 0], [4, 5, 4], [0, 1, 0], [7, 0, 1]], "date texts of up to eight arbitrary bytes, and longer ones"),
    run("H_C19_datetime", grid([0, 1, 2], [0], [8], [8]) + grid([0, 1, 2], [7], [8], [8]) + grid([0, 1, 2], range(16), [0], [1, 0]) + grid([0, 1, 2], range(16), [1], [0]) + grid([0, 1, 2], [15], [2, 3], [0]), "date-times with eight arbitrary bytes in either half, a byte too many or too few anywhere, or up to three more bytes at the end"),
    run("H_C19_stamp", [[0, 8, 8], [8, 8, 8], [16, 1, 0], [15, 0, 1], [15, 2, 1]], "DTSTAMP likewise"),
    run("H_C19_integer", grid([0], range(8), [0]) + grid([0], [1, 2, 3], [1, 2]) + grid([1, 2], [4, 5, 6], [0]) + grid([3], [1, 2], [0]), "integer texts of up to seven arbitrary bytes, and longer ones around the ends of the range"),
    run("H_C19_boolean", grid(range(8), [0, 1]), "boolean texts of up to seven ASCII bytes"),
    run("H_C19_period", grid([0, 1], [0, 8, 15, 16, 17], [5], [5]) + grid([0], range(0, 34, 3), [1, 2], [1, 0]) + grid([0], [25], [7], [7]) + grid([1], [17], [0, 1, 2, 3, 4, 5, 6], [7]), "periods with up to seven arbitrary bytes at several places"),
    run("H_C19_rule", grid(range(25), range(5)) + grid([0, 4, 10, 11], [5, 6]) + grid([8], [6]), "recurrence rules with up to four arbitrary bytes (up to six in some places) in every part"),
    run("H_C19_hosts", grid(ALL, [1], [0, 1]) + grid(ALL, [0], [1]), "every property of these types in every component with one byte of its value arbitrary, inserted or missing"),
], [
    run("H_C19_duration", grid([0], [7]) + grid([1, 2, 3], [5, 6]) + grid([5], [5]), "longer durations"),
    run("H_C19_datetime", grid([0, 1, 2], [5], [10], [10]), "ten arbitrary bytes"),
    run("H_C19_integer", grid([0], [8, 9, 10, 11], [0]), "up to eleven bytes"),
    run("H_C19_period", grid([0], [17], [8], [8]) + grid([1], [17], [7], [7]), "eight bytes of the end and seven of the duration"),
    run("H_C19_rule", grid(range(15, 25), [5]) + grid([0], [7, 8]) + grid([10], [7, 8, 9]) + grid([7], [4]), "more bytes in rules"),
    run("H_C19_hosts", grid(ALL, [2], [0, 1, 2]), "two arbitrary bytes in every value"),
], [UTF8, "not decided: 60 as the seconds, the year 0 and the zero date-time, a UTC offset without a sign or of more than 23 hours, a duration with hours and seconds but no minutes, lower-case letters in durations, date-times and rules, 1/0/T/F as booleans, COUNT=0 and INTERVAL=0, leading zeros beyond the grammar's digits in rule lists, comma-separated periods, local times where UTC is required"], "longer texts; FLOAT values (C08), texts (C03), URIs")

check("C20", [
    run("H_C20_line", grid(range(14), [1, 2, 3, 4, 5]) + grid([0, 1, 2, 3, 4, 5, 6, 8, 9, 13], [6]), "lines with one to six arbitrary bytes in the name, between parameters, in quoted and unquoted parameter values, around the colon and in the value, against a reference reader"),
], [
    run("H_C20_line", grid([7, 10, 11, 12], [6]) + grid([0, 1, 4, 6, 9, 13], [7]), "six and seven bytes"),
], [UTF8, "a parameter or property the line happens to form belongs to the ones observed or is unknown to the package"], "longer arbitrary stretches; folded lines (C10)")

check("C21", [
    run("H_C21_round", grid(range(5), [0, 1]), "alarms of every kind with at most one optional property more than required, alone or with another alarm of any kind, in events and to-dos"),
    run("H_C21_place", grid(range(5), [0]) + grid(range(4), [1, 2]), "the action line at any place among the required lines and up to two others"),
    run("H_C21_action", [[n] for n in range(10)], "every action of up to nine ASCII characters"),
    run("H_C21_actions", [[]], "no, one or two actions at any places"),
    run("H_C21_rules", grid(range(5), [0, 1, 2]), "up to two lines of any kind of alarm"),
    run("H_C21_values", grid(range(4), [1]), "every shape and every one-digit value of each property"),
    run("H_C21_many", [[3], [12], [25]], "up to 25 alarms of all kinds"),
], [
    run("H_C21_values", grid(range(4), [2]), "two-digit values"),
    run("H_C21_round", grid(range(4), [2]), "two optional properties"),
    run("H_C21_rules", grid([0, 1, 3], [3]), "three lines of any kind of alarm"),
], ["actions are ASCII"], "alarms with more optional properties (all of them together: C01)")

check("C22", [
    run("H_C22_hosts", grid(KINDS, [1]), "every property in every shape with one parameter; encoded three times, once with a failing writer"),
    run("H_C22_full", grid(KINDS), "every component twice with all properties but one"),
    run("H_C22_bad", grid(KINDS, range(1, 13)), "calendars with one invalid value"),
    run("H_C22_shared", [[0], [1], [2]], "lists that are neighbours in memory"),
    run("H_C22_decode", grid(ALL, [0]) + grid([3, 5], [1]), "streams with every kind of component decoded twice"),
    run("H_C22_lines", grid(ALL), "every property line decoded twice"),
    run("H_C22_lists", grid(KINDS, [6]), "lists of six members"),
    run("H_C22_rule", grid(range(9), [8]), "by-lists of eight members"),
    run("H_C22_long", [[0, 1, 1100], [1, 2, 300]], "long texts, parameters and attachments"),
    run("H_C22_values", grid(KINDS, range(6)), "every value and parameter of every property"),
    run("H_C22_words", grid(KINDS, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 24, 40, 75, 100]), "words of 2 to 100 symbolic characters in every property"),
    run("H_C22_between", grid(KINDS, range(6)), "other calendars encoded, refused and decoded in between, failing readers and writers included"),
], [
    run("H_C22_hosts", grid(KINDS, [2]), "two parameters"),
    run("H_C22_shared", [[3]], "three arbitrary bytes"),
], ["memory behind unexported fields of standard library types is not compared"], "concurrent use")

check("C23", [
    run("H_C23_fields", grid(KINDS, [0, 1]), "every field of every component, in every shape with one parameter"),
    run("H_C23_members", grid(range(11)), "every member of every enumeration"),
    run("H_C23_words", grid(range(10), range(1, 21)) + grid([10], range(2, 8)), "every word of up to 20 characters that need no quotes in place of a member"),
    run("H_C23_params", [[1], [2], [3], [8], [60]], "every parameter with symbolic words of up to 60 letters and every value type"),
], [
    run("H_C23_fields", grid(KINDS, [2]), "every field in every shape with two parameters"),
    run("H_C23_words", grid(range(10), range(21, 41)), "words of up to 40 characters"),
    run("H_C23_params", [[n] for n in range(4, 80)], "parameters of up to 80 letters"),
], ["words are ASCII"], "words that are quoted; one-letter booleans")
