#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "An encoded calendar decodes back to an equal calendar",
  "Whenever Encode accepts a calendar, Decode of the bytes it wrote succeeds and returns an equal calendar: the same components in the same order, each with the same properties, nothing lost, added, merged or moved to another component. This holds for every component kind (calendar, event, to-do, journal, free/busy, time zone with standard and daylight parts) and for every combination of their required, optional and repeated properties.",
  ["inputs"], "All calendars built from the public types whose values are representable in iCalendar (valid UTF-8 text, four-digit years, whole seconds, UTC/Local/named zones, non-empty optional parameters and lists).",
  "The tests encode and decode two or three hand-written calendars separately and never compare Encode followed by Decode; the space is every subset of about 140 optional fields over 12 components.",
  ["sections.go", "properties.go", "encoder.go", "decoder.go"],
  [("component encode and decode pairs", "sections.go: (*Calendar|*Event|*Todo|*Journal|*FreeBusy|*Timezone|*Standard|*Daylight).encode/decode"),
   ("property encode and decode pairs", "properties.go")],
  ["Encode output bytes", "Decode result"])
p("C02", "Every property line keeps its value, value type and parameters",
  "Encoding any valid property value and decoding the resulting content line as that property yields an equal value, with the same alternative value type (for example DATE versus DATE-TIME versus PERIOD, URI versus BINARY) and exactly the same set of parameters with the same values (an empty string as a parameter counts as no parameter). A property that offers alternative value types is accepted for encoding only when exactly one of them is set.",
  ["inputs"], "All property kinds, all subsets of their parameters (up to 11 on an attendee), all alternative value types, all enumerated values.",
  "Tests cover a handful of properties through one sample calendar; no test touches most parameters, and none combines them.",
  ["properties.go", "params.go"],
  [("property decode: splits parameters, selects value type", "properties.go: (*Prop*).decode"),
   ("property encode and validation", "properties.go: (*Prop*).encode, valid"),
   ("parameter codecs", "params.go")],
  ["Encode output bytes", "Decode result", "Encode error"])
p("C03", "Text values survive escaping exactly",
  "Any text accepted for encoding, including text with backslashes, commas, semicolons, newlines, colons, quotes and multi-byte characters in any order, is written so that decoding returns exactly the same text; a multi-valued text keeps the number, order and content of its values. Decoding reads every escape sequence as RFC 5545 defines it (a backslash before a backslash, semicolon, comma, n or N), keeps other characters unchanged, and rejects an unescaped separator in a single-valued text.",
  ["inputs"], "All valid UTF-8 texts and lists of texts; all encoded strings on the decode side.",
  "TestText uses a few fixed strings; the defect space is the order and adjacency of special characters.",
  ["types.go"],
  [("text escaping", "types.go: Text.encode"), ("text unescaping", "types.go: decodeText, (*Text).decode, (*MText).decode"), ("text validation", "types.go: Text.valid")],
  ["Encode output bytes", "Decode result"])
p("C04", "Parameter values survive quoting and RFC 6868 escaping",
  "Any non-empty parameter value accepted for encoding, including ones containing double quotes, carets, newlines, commas, semicolons and colons, is written as a parameter that decodes to exactly that value and never ends the parameter, the line or the quoted string early. Decoding a parameter value maps ^n, ^' and ^^ to newline, double quote and caret and leaves every other sequence as it is.",
  ["inputs"], "All valid UTF-8 strings without other control characters, for every string-valued, list-valued, URI-valued and enumerated parameter.",
  "No test contains a caret, quote or newline inside a parameter; encoding such a value did not even terminate.",
  ["params.go", "tokeniser.go"],
  [("caret escaping", "params.go: encode6868/decode6868"), ("quoting decision", "params.go: Param*.encode"), ("parameter tokenising", "tokeniser.go: parseParamValue")],
  ["Encode output bytes", "Decode result"])
p("C05", "Dates, date-times and periods keep their instant and zone kind",
  "A date, date-time or period accepted for encoding decodes to the same civil date and time in the same zone kind: UTC is written with a trailing Z, a named zone through a TZID parameter and local time with neither. A period decodes with the same start and the same end or duration, and a period whose explicit end is not after its start is never accepted.",
  ["inputs"], "All civil dates and times with years 1-9999 and whole seconds, in UTC, local time and named zones; periods with an end or a duration.",
  "TestDateTime, TestDate and TestPeriod check fewer than ten literals; leap days, range ends and zone combinations are not covered.",
  ["types.go"],
  [("date and date-time codecs", "types.go: Date, DateTime encode/decode"), ("zone parameter", "types.go: writeTimezone"), ("period codec and validation", "types.go: Period")],
  ["Encode output bytes", "Decode result", "Encode error"])
p("C06", "Durations, offsets, integers, booleans and coordinates keep their value",
  "Every duration, UTC offset, integer, boolean and coordinate pair accepted for encoding decodes to the same value, for all sign and magnitude combinations including zero components and the largest representable numbers. Values that the format cannot express (a week count combined with other duration parts, an offset of 100 hours or more, a non-finite coordinate) are refused by Encode instead of being written as something else.",
  ["inputs"], "All 64-bit duration components and signs, all integers of 32 bits, all offsets, all finite coordinate pairs.",
  "Tests use a dozen literals; the interesting cases are zero middle components, digit-count boundaries and extreme magnitudes.",
  ["types.go"],
  [("duration codec", "types.go: Duration"), ("UTC offset codec", "types.go: UTCOffset"), ("integer, boolean, float codecs", "types.go: Integer, Boolean, TFloat"), ("decimal printing", "types.go: itoa")],
  ["Encode output bytes", "Decode result", "Encode error"])
p("C07", "Recurrence rules keep every part and their ranges are enforced both ways",
  "A recurrence rule accepted for encoding decodes to an equal rule: frequency, count or until (with its date or date-time form), interval, week start and every by-list with the same members in the same order. Encode and Decode enforce the same limits on every part (for example seconds 0-60, week numbers and weekday occurrences within 53, year days and set positions within 366, never both count and until), accepting exactly the rules inside them.",
  ["inputs"], "All recurrence rules with by-lists of bounded length and members over their full machine range; all textual rules of bounded length.",
  "TestRecur has a small table of literals; ranges at both ends, negative members and conflicting parts are mostly untested.",
  ["types.go"],
  [("rule parsing", "types.go: (*Recur).decode"), ("rule printing", "types.go: (*Recur).encode"), ("rule validation", "types.go: (*Recur).valid")],
  ["Encode output bytes", "Decode result", "Encode error"])
p("C08", "Binary attachments and URIs survive unchanged",
  "An inline binary attachment of any length and content decodes to the same bytes, with its format type, and is always labelled as base64 binary data. A URI or calendar address obtained from any parsable URI string is written so that decoding gives the same URI, both as a property value and as a quoted parameter.",
  ["inputs"], "All byte strings (every length class modulo 3, every byte value), all parsable URIs of bounded length.",
  "TestBinary uses two literals and URIs are only exercised by one mailto address in a sample calendar.",
  ["types.go", "properties.go", "params.go"],
  [("base64 codec", "types.go: Binary"), ("URI codecs", "types.go: URI, CalendarAddress"), ("attachment alternatives", "properties.go: PropAttachment")],
  ["Encode output bytes", "Decode result"])
p("C09", "Output lines are folded at 75 octets without damaging content",
  "Every physical line Encode writes is at most 75 octets long excluding the line break, and a fold never splits a multi-byte character. Removing the inserted line-break-plus-space sequences gives back exactly the unfolded content, however the content is divided into writes.",
  ["inputs", "histories"], "All sequences of writes of valid UTF-8 content, any line length, any position of multi-byte characters relative to the fold column.",
  "TestFolder checks five fixed strings; the failures sit at exact column/rune-width combinations and across write boundaries.",
  ["folder.go", "encoder.go"],
  [("folding writer", "folder.go: (*folder).Write")],
  ["Encode output bytes"],
  state=[("column", "octets already on the current physical line", "folder.go: folder.line")])
p("C10", "Decoding does not depend on fold positions or on how the input arrives",
  "Decode gives the same result for a stream whether or not its lines are folded (CRLF followed by one space or tab) and wherever the folds are placed, including inside a name, parameter or value. The result does not depend on the sizes of the chunks in which the reader delivers the bytes, nor on whether end of input is reported with or after the last bytes, and no byte other than those of the fold sequences is lost.",
  ["inputs", "histories"], "All byte streams, all placements of fold sequences, all divisions of the stream into reads (including one byte at a time and reads ending inside a fold).",
  "TestUnfolder uses fixed strings and one-byte reads; the failing cases need a fold to straddle a read or buffer boundary.",
  ["unfolder.go", "decoder.go"],
  [("unfolding reader", "unfolder.go: (*unfolder).Read")],
  ["Decode result"],
  state=[("look-ahead", "bytes read but not yet delivered", "unfolder.go: unfolder.buf, bufLen")])
p("C11", "Decode always terminates and never panics",
  "For any byte stream whatsoever Decode returns after finite work, without panicking, with either a calendar and no error or an error and no calendar. The same holds for any value text and any parameters given to any property.",
  ["inputs"], "All byte streams and all property values, well formed or not.",
  "Tests feed mostly well-formed input; crashes and hangs need specific malformed bytes (a dangling sign, an input ending inside a component or right after a fold).",
  ["decoder.go", "tokeniser.go", "unfolder.go", "types.go", "properties.go", "params.go", "sections.go", "sections_alarm.go"],
  [("tokeniser", "tokeniser.go"), ("value decoders", "types.go"), ("component decoders", "sections.go, sections_alarm.go"), ("unfolding", "unfolder.go")],
  ["Decode return or panic"])
p("C12", "Encoded output is always well-formed content lines; data cannot inject lines",
  "Everything Encode writes is a sequence of CRLF-terminated content lines, each of the form name, parameters, colon, value, with BEGIN and END properly nested and no control characters other than tab inside a line. No text, URI, parameter or other field value supplied by the caller can add a line, a parameter or a property, or end a component: Encode either refuses the value or writes it inside the one line it belongs to.",
  ["inputs"], "All values of every field of every public type, including strings with control characters, quotes and line breaks.",
  "No test encodes hostile data, and output is only compared with fixed expected strings.",
  ["encoder.go", "sections.go", "properties.go", "params.go", "types.go"],
  [("validation before writing", "encoder.go: Encode; valid methods in types.go, params.go, properties.go, sections.go"), ("quoting and escaping", "params.go, types.go")],
  ["Encode output bytes", "Encode error"])
p("C13", "Encode refuses invalid calendars and writes nothing for them",
  "If any part of a calendar at any depth is invalid (an unset required time, a forbidden character, an out-of-range number or enumeration, zero or several alternatives set, properties that exclude or require one another) Encode returns an error and has not written a single byte. A calendar with no invalid part is accepted.",
  ["inputs"], "All calendars with one invalid part at any field of any component, nested at any depth, against the same calendar without it.",
  "No test checks that Encode rejects anything.",
  ["encoder.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
  [("recursive validation", "sections.go: valid methods"), ("property validation", "properties.go: valid methods"), ("value validation", "types.go, params.go: valid methods")],
  ["Encode error", "Encode output bytes"])
p("C14", "A failing writer makes Encode fail, and only a failing writer",
  "If the underlying writer fails at any write, Encode returns an error that is the writer's error and passes nothing further to the writer after the failure. If no write fails, Encode returns nil for a valid calendar and the writer has received the complete output, the same bytes on every run.",
  ["fault_sequences"], "Every position of the first failing write and every number of bytes accepted by it, for calendars with long and short lines.",
  "No test uses a failing writer.",
  ["encoder.go", "folder.go", "types.go"],
  [("sticky error", "folder.go: (*folder).Write"), ("error return", "encoder.go: Encode"), ("base64 streaming", "types.go: Binary.encode")],
  ["Encode error", "writer call history"])
p("C15", "Truncated or failing input is never returned as a complete calendar",
  "If the stream ends, or the reader fails, before the calendar's closing line has been delivered, Decode returns an error and no calendar, wherever the cut falls: inside a name, a parameter, a value, a fold, a nested component or between lines.",
  ["fault_sequences", "inputs"], "Every cut position in streams covering every component kind, with end-of-input or with a read error, in any read chunking.",
  "The decode tests have two or three malformed inputs and no cut-point sweep.",
  ["decoder.go", "sections.go", "sections_alarm.go", "tokeniser.go", "unfolder.go"],
  [("end-of-input handling", "sections.go: decode loops; sections_alarm.go: (*Alarm).decode, psuedoTokeniser; decoder.go: Decode"), ("value at end of input", "tokeniser.go: parseValue")],
  ["Decode result"])
p("C16", "Component rules are enforced when decoding",
  "Decode fails when a component lacks a required property or part, repeats a property that may occur only once, contains properties that exclude one another (such as an event with both an end and a duration) or lacks one that another requires, or is closed by the wrong END line. It succeeds, whatever the order of the properties, when all of these rules are met.",
  ["inputs"], "All selections, repetitions and orderings of properties of every component kind, of bounded size.",
  "Tests decode well-formed samples; of the roughly 150 occurrence rules almost none is exercised.",
  ["sections.go", "sections_alarm.go"],
  [("occurrence and requirement checks", "sections.go: decode methods"), ("alarm kind selection", "sections_alarm.go: (*Alarm).decode")],
  ["Decode result", "Decode error"])
p("C17", "Unknown content is skipped and names ignore case",
  "Properties, parameters and whole components that the package does not know, nested to any depth, are skipped without changing how anything around them is decoded; only an alarm may not contain components. Component, property and parameter names mean the same in any mixture of upper and lower case.",
  ["inputs"], "All insertions of unknown properties, parameters and (nested) components at any place of a calendar, and all case variations of names.",
  "Tests contain no unknown content and only upper-case names.",
  ["sections.go", "sections_alarm.go", "properties.go", "decoder.go"],
  [("unknown component skipping", "sections.go: decodeDummy"), ("name comparison", "sections.go, sections_alarm.go, properties.go: strings.ToUpper switches")],
  ["Decode result"])
p("C18", "Whatever Decode returns, Encode accepts and reproduces",
  "Every calendar that Decode returns without error is accepted by Encode, and decoding that output again gives an equal calendar (URIs compared as strings, empty parameters counting as absent). In particular each property value that Decode accepts is one that Encode considers valid.",
  ["inputs"], "All value texts and parameters accepted for every property kind, of bounded length, and all decodable calendars.",
  "No test encodes the result of a decode.",
  ["properties.go", "types.go", "params.go", "sections.go"],
  [("decode-side acceptance versus validation", "types.go, params.go, properties.go: decode and valid methods")],
  ["Decode result", "Encode error", "Encode output bytes"])
p("C19", "Value texts mean what RFC 5545 says; malformed ones are rejected",
  "A duration, UTC offset, date, date-time, integer, boolean, period or recurrence-rule text that follows its RFC 5545 grammar decodes to the value that grammar denotes. A text outside the grammar or range of its type (wrong characters, missing or misplaced parts, trailing data, impossible dates, numbers out of range) makes decoding fail instead of yielding some other value.",
  ["inputs"], "All value texts of bounded length over all bytes, per value type, compared with an independent reading of the grammar. Not decided are a few forms on which implementations differ: leap seconds, the year 0, offsets without a sign or above 23 hours, durations with hours and seconds but no minutes, lower-case letters, 1/0/T/F as booleans, zero counts and intervals.",
  "Tests contain about ten accepted and rejected literals per type.",
  ["types.go"],
  [("value decoders", "types.go: decode methods of Duration, UTCOffset, Date, DateTime, Integer, Boolean, Period, Recur")],
  ["Decode result", "Decode error"])
p("C20", "Content lines are split into name, parameters and value correctly",
  "A content line is read as its name, its parameters (each with its list of quoted or unquoted values) and its value exactly as the RFC 5545 grammar prescribes: separators inside quoted strings do not split, everything after the first colon outside quotes is the value, and a line that does not match the grammar is an error. Each line ends at CRLF and consecutive lines are never merged or split.",
  ["inputs"], "All byte strings of bounded length over a representative alphabet including all separators and control characters, against a reference reader.",
  "TestTokeniser has a table of fixed lines; interactions of quotes, separators, empty parts and control characters are not covered.",
  ["tokeniser.go", "decoder.go"],
  [("content line tokeniser", "tokeniser.go: parseName, parseParamName, parseParamValue, parseValue, phrase")],
  ["Decode result", "Decode error"])
p("C21", "Alarms keep their kind and contents",
  "An alarm of any of the five kinds accepted for encoding decodes to an alarm of the same kind with equal contents, wherever it is nested. When decoding, the ACTION line alone decides the kind, wherever it stands inside the alarm; an alarm with no action, an unknown action or two actions is rejected, and the rules of the chosen kind are enforced.",
  ["inputs"], "All alarms of the five kinds with every combination of properties, in events and to-dos, with the action line at any position.",
  "Tests include at most one display alarm.",
  ["sections_alarm.go", "sections.go"],
  [("alarm dispatch and replay of buffered lines", "sections_alarm.go: (*Alarm).decode, psuedoTokeniser"), ("alarm kinds", "sections.go: AlarmAudio, AlarmDisplay, AlarmEmail, AlarmURI, AlarmNone")],
  ["Encode output bytes", "Decode result"])
p("C22", "Encoding leaves the calendar untouched and is repeatable",
  "Encode does not change the calendar it is given or anything reachable from it, whether it succeeds, refuses the calendar or meets a failing writer. Encoding the same calendar twice produces the same result, and two decodes of the same bytes produce independent equal calendars.",
  ["inputs", "histories"], "All calendars as for round trips, encoded and decoded repeatedly.",
  "No test encodes the same object twice or compares it before and after.",
  ["encoder.go", "sections.go", "properties.go", "types.go"],
  [("encode methods with value and pointer receivers", "sections.go, properties.go, types.go, params.go")],
  ["calendar object before and after Encode", "Encode output bytes"])
p("C23", "Fields, parameters and constants go by the names of the standard",
  "Each field of a component is written as the property, and each parameter field as the parameter, to which RFC 5545 (or, for alarms, its extension) gives that name, in the component of the right name and with nothing besides; a VALUE parameter names the type the value really has. Each constant of an enumeration (class, status, transparency, calendar user type, free/busy type, participation status and role, relationship type, range) is written as the word the standard uses for it, and that word, in any mixture of case, is read as that constant. Any other word is read as the enumeration's Unknown constant where there is one and rejected where there is none.",
  ["inputs"], "All fields, parameters and constants; every ASCII word in place of a constant.",
  "Tests spell out a few lines; a name or word that is wrong the same way in both directions, or a constant mapped to its neighbour, passes every round trip.",
  ["sections.go", "properties.go", "params.go"],
  [("property names", "properties.go: encode methods"), ("parameter names and words", "params.go: encode and decode methods"), ("dispatch on names", "sections.go: decode and encode methods")],
  ["Encode output bytes", "Decode result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
