"""What each check runs: entries of the harness crate, build configuration,
and the bounds of each entry (copied into the evidence)."""

Q, T = "quick", "thorough"


class Run:
    def __init__(self, entry, bound, config="sse2", tiers=(Q, T), limit=(120, 900), steps=30_000_000, crate="harness"):
        self.entry, self.bound, self.config, self.tiers = entry, bound, config, tiers
        self.limit, self.steps, self.crate = limit, steps, crate


PROPS = {}
# reasons of the properties that are not claimed; notes of those that are
NA = {}
NOTES = {}


def prop(pid, runs, assumptions=()):
    PROPS[pid] = (runs, list(assumptions))


prop("C02", [
    Run("c02_words", "3 tag sections x 3 prefixes (holes 0..2 symbolic bytes); command of 1..3 (thorough 1..5) symbolic bytes; 7 shapes of channel/params with holes of 0..4 (6) symbolic ASCII bytes, optionally one symbolic 2-, 3- or 4-byte character"),
    Run("c02_known", "the same around 24 literal command names"),
    Run("c02_long", "one of tag value, prefix, command, channel and params with 63..65536 characters and 1..2 symbolic bytes after them; 1..2 symbolic bytes in the other parts"),
    Run("c02_names", "353/366 with 0..4 words of 1..2 symbolic non-whitespace bytes, optional trailing text"),
])
prop("C08", [
    Run("c08_forms", "3 tag sections; host, nick@host, nick!user@host with parts of 1,2,3,17 (thorough also 4,8,33,64) symbolic bytes or a symbolic 2..4-byte character; 3 continuations"),
    Run("c08_long", "the same with parts of one symbolic byte, in one part behind 255, 256, 65535 or 65536 others"),
    Run("c08_none", "lines without a prefix: no colon, no space (0..5, thorough 0..8 symbolic bytes), colon later"),
])
prop("C09", [
    Run("c09_known", "24 known names x 4 fronts x 4 continuations"),
    Run("c09_near", "every known name with one symbolic byte replaced or inserted, or one byte removed, at every position"),
    Run("c09_any", "command words of 1..5 (thorough 1..7) symbolic bytes, optionally one multi-byte character"),
    Run("c09_long", "words of 16..65537 bytes, the last one symbolic, also behind known names"),
    Run("c09_empty", "lines with an empty command"),
])



def multi(configs, *args, **kw):
    return [Run(*args, config=c, **kw) for c in configs]


ALL3 = ("sse2", "avx2", "scalar", "neon")
W2 = ("sse2", "avx2", "neon")
LINESB = "35 complete lines (every command with a typed form, every user notice event, reply, paid chat, action, optional parts)"

prop("C01", [
    *multi(ALL3, "c01_free", "any UTF-8 string of 0..6 (thorough 0..8) symbolic bytes, every typed accessor"),
    *multi(ALL3, "c01_tags", "'@' and 0..4 (6) symbolic ASCII bytes, optionally one symbolic 2-, 3- or 4-byte character, 2 alignments"),
    *multi(ALL3, "c01_cut", LINESB + " with symbolic bytes in their values, cut at every position, 0..1 symbolic bytes appended"),
    *multi(ALL3, "c01_flip", "the same lines with one symbolic byte at every position"),
    *multi(ALL3, "c01_window", "tag sections of up to 160 bytes with 3 (4) fully symbolic bytes at 12 (26) offsets around the vector boundaries, 2 (5) alignments, with and without the rest of the line"),
    *multi(ALL3, "c01_many", "126, 127, 128, 129, 130, 255, 256, 257, 1000 tags of 4 forms, 0..2 symbolic bytes at the end"),
    *multi(ALL3, "c01_long", "keys, values, prefixes, words and params of 65534..65537 and 131072 bytes, one symbolic byte at the end"),
    Run("c01_debug", LINESB + " printed for debugging, the first 2 (4) places symbolic"),
    Run("c01_debug_many", "1..258 tags (20 numbers), the last with 0..1 symbolic bytes, printed for debugging"),
    Run("c01_debug_free", "7 beginnings, 6 characters, 0..2 (3) symbolic ASCII bytes, printed for debugging"),
    Run("c01_numbers", "21 numeric tags x 0..3 (4) symbolic bytes, numbers around the limits of i64, u64, chrono and u64/60 with 1 or 2 symbolic digits"),
    *multi(("sse2", "scalar"), "c01_badges", "badges of 0..3 (4), badge-info of 0..2 (3), emote sets of 0..1 symbolic bytes"),
    *multi(ALL3, "c01_prefix", "prefixes of 0..4 (6) symbolic bytes and one multi-byte character"),
])
prop("C03", [
    *multi(ALL3, "c03_layout", "1..3 pairs; first value 0..33 (66) symbolic bytes, second key 1..33 and value 0..32 (64), third value 0..1: the separators take every position relative to the vector chunks; 4 continuations; 2 (8) alignments"),
    *multi(ALL3, "c03_equals", "values with 0..3 (4) symbolic bytes including '=' and one multi-byte character at 6 (16) offsets, followed by up to two more pairs"),
    *multi(ALL3, "c03_dense", "1..12 (24) short pairs with symbolic keys and values, every offset in a 16-byte chunk"),
    *multi(ALL3, "c03_end", "one pair with a value of 40..277 in steps of 3 (thorough 0..329) symbolic bytes, 7 (12) alignments"),
    *multi(ALL3, "c03_many", "127, 128, 129, 200, 257 (thorough 64..600) pairs"),
    *multi(ALL3, "c03_long", "keys and values of 255, 256, 65534..65537, 70000 bytes"),
    *multi(ALL3, "c03_lookup", "1..3 pairs with keys of 1..2 symbolic bytes or a known name, looked up by a symbolic name of 1..2 bytes or a known name"),
    *multi(ALL3, "c03_none", "lines without a tag section"),
])
prop("C04", [
    *multi(W2, "c04_free", "lines of 0..5 (7) symbolic ASCII bytes and one multi-byte character, with or without a leading '@', 2 alignments: SIMD build against the scalar build of the same source"),
    *multi(W2, "c04_window", "tag sections with 3 symbolic bytes at 19 (70) x 4 (11) offsets, 4 (11) alignments, with and without the rest of the line"),
    *multi(W2, "c04_end", "tag sections of 35 lengths up to 190 (thorough every length to 299) symbolic bytes, 16 (32) alignments, 6 (9) continuations"),
    *multi(W2, "c04_big", "127, 128, 129, 300 tags; keys and values of 65535, 65536, 65540 bytes"),
    *multi(W2, "c04_lines", "complete lines with one symbolic byte at every position, 2 alignments"),
])
prop("C05", [
    Run("c05_roundtrip", "any string of 0..40 symbolic ASCII bytes, optionally with a 2-byte character"),
    Run("c05_distinct", "each of the 79 names with one symbolic byte replaced at every position, shortened, extended, or another name"),
    Run("c05_table", "the 79 variants"),
    Run("c05_lookup", "each of the 79 names, present or absent, behind a shorter, longer or other known name, with symbolic values of 1..2 bytes"),
    Run("c05_lookup_any", "names of 1..4 symbolic bytes"),
])
prop("C06", [
    Run("c06_free", "lines of 0..6 (8) symbolic ASCII bytes and one multi-byte character"),
    Run("c06_parts", "5 tag sections x 4 prefixes x 10 commands x 4 params, with holes of 0..3 symbolic ASCII bytes"),
    Run("c06_typed", LINESB + " with symbolic bytes in their values"),
])
prop("C07", [
    Run("c07_pieces", "0..4 (6) pieces, each a symbolic ASCII byte, a backslash, U+2E1D, a symbolic 3-byte or (thorough) 2-byte character"),
    Run("c07_ascii", "0..6 (9) symbolic ASCII bytes"),
    Run("c07_long", "4 symbolic bytes at 40 x 5 positions of values of up to 84 bytes"),
    Run("c07_far", "0..1 symbolic bytes, 255, 256, 1000 or 65536 others, 2 symbolic bytes"),
    Run("c07_roundtrip", "texts of 0..4 (6) symbolic ASCII bytes and one multi-byte character"),
    Run("c07_getters", "escaped values of 0..3 (4) symbolic bytes seen through the getters of a chat message"),
])

TAGB = "every tag the type reads: (a) all rotations of the full tag list, forward and reversed, every tag with a symbolic value; (b) one tag at a time with any value of 0..3 (4) symbolic bytes or absent, with decoys of similar names and duplicates; (c) any three (thorough: four) absent; (d) any two with any value; (e) unrelated extra tags around"
LONGB = "each part of the line in turn (tag values, nick, channel, text) with 9 lengths of 26..4097 (thorough: 38 of 25..65537) characters, the last one symbolic; numbers with that many leading zeros"
TAILB = "prefix, channel and text parts: each absent, empty, symbolic (0..4 symbolic bytes) and multi-byte"
prop("C11", [
    Run("c11_tags", TAGB), Run("c11_reply", "the reply tags: every subset present"),
    Run("c11_paid", "the pinned-chat tags: every subset present, every level, symbolic numbers"),
    Run("c11_tail", TAILB), Run("c11_long", LONGB),
])
prop("C12", [
    Run("c12_tags", "for each of the 21 known msg-ids and an unknown one: " + TAGB, limit=(200, 900)),
    Run("c12_tail", TAILB), Run("c12_long", "for each of the msg-ids: " + LONGB),
    Run("c12_ids", "every known msg-id with one symbolic byte replaced, removed or added"),
])
prop("C13", [
    Run("c13_chat_tags", TAGB), Run("c13_chat_tail", TAILB), Run("c13_clear", "chat-clear lines with symbolic tag values"),
    Run("c13_long", LONGB),
    Run("c13_msg_tags", TAGB), Run("c13_msg_tail", TAILB), Run("c13_msg_action", "texts with the action frame, one symbolic byte at every position"),
])
prop("C14", [
    Run("c14_tags", TAGB), Run("c14_tail", TAILB), Run("c14_long", LONGB), Run("c14_subsets", "every subset of the room-state tags"),
    Run("c14_limits", "numbers around the limits of i64, u64 and i64/60 with symbolic digits"),
])
prop("C15", [
    Run("c15_global_tags", TAGB), Run("c15_global_tail", TAILB), Run("c15_user_tags", TAGB), Run("c15_user_tail", TAILB),
    Run("c15_long", LONGB),
    Run("c15_sets", "emote sets of up to 4 entries with symbolic bytes"),
    Run("c15_whisper_tags", TAGB), Run("c15_whisper_tail", TAILB),
])
prop("C16", [Run("c16_" + n, b) for n, b in [
    ("join", TAILB), ("part", TAILB), ("ping", TAILB), ("pong", TAILB), ("notice", TAGB), ("text", TAILB)]])
prop("C10", [
    Run("c10_lines", LINESB + " with symbolic bytes in their values"),
    Run("c10_commands", "every such line with each of 27 commands, or a word of 1..2 (3) symbolic bytes, in place of its own"),
    Run("c10_tags", "every such line without one of its tags, or with a value of 0..2 (3) symbolic bytes for it"),
    Run("c10_cut", "every such line cut at every position, 0..1 symbolic bytes appended"),
    Run("c10_short", "27 commands, 3 fronts, followed by 0..3 (5) symbolic bytes and one multi-byte character"),
])
prop("C17", [
    Run("c17_lists", "0..2 (3) badges and 0..1 (2) details of 6 forms with symbolic names, versions and details"),
    Run("c17_detail", "one badge, two details, 5 message types"),
    Run("c17_free", "badges of 0..5 (6) and badge-info of 0..4 symbolic bytes, 2 (5) message types"),
    Run("c17_near", "the five known names with one symbolic byte replaced or inserted, or one byte removed, at every position"),
    Run("c17_months", "months of 0..4 (5) symbolic digits, 0..3 (4) symbolic bytes, and around the limit of u64 with 4..5 symbolic digits"),
    Run("c17_long", "8, 31, 32, 33, 40 entries"),
])
prop("C18", [
    Run("c18_window", "15 numbers (the limits of i64 and of the date type, the epoch, leap days, negative ones) with 1..2 (thorough 1..3) adjacent symbolic digits at every position, 4 message types"),
    Run("c18_extra", "the same numbers with 0..1 symbolic bytes inserted at every position"),
    Run("c18_short", "values of 0..3 (4) symbolic bytes and one multi-byte character"),
])
prop("C19", [
    Run("c19_near", "9 frames with one symbolic byte replaced or inserted, or one byte removed, at every position"),
    Run("c19_text", "0..4 (6) symbolic bytes and one multi-byte character in the frame"),
    Run("c19_short", "any text of 0..9 (11) symbolic bytes and one multi-byte character"),
    Run("c19_long", "texts of 257..65538 characters with symbolic bytes at their ends"),
    Run("c19_two", "two symbolic bytes at every two positions of the frame"),
])
prop("C20", [
    Run("c20_levels", "all pairs of levels"), Run("c20_numbers", "all u8"),
    Run("c20_strings", "strings of 0..6 (8) symbolic bytes and one multi-byte character"),
    Run("c20_near", "every name with one symbolic byte replaced or inserted, or one byte removed"),
    Run("c20_message", "the level tag of a chat message: every name, 0..3 (5) symbolic bytes"),
])
prop("C21", [
    Run("c21_lines", LINESB + ", one symbolic byte in each of their places in turn"),
    Run("c21_tags", "every such line without one of its tags, or with an empty or symbolic value, or one with quotes, backslashes, control and multi-byte characters"),
    Run("c21_text", "10 commands, texts and channels of 0..2 (3) symbolic bytes and one multi-byte character"),
    Run("c21_numbers", "timestamps, numbers and durations at the limits of their types"),
])
prop("C22", [
    Run("c22_lines", LINESB + " with symbolic bytes in their values; the source is overwritten and freed before the owned value is read"),
    Run("c22_tags", "every such line without one of its tags, or with a symbolic value for it"),
    Run("c22_badges", "every kind of badge with symbolic parts, users with symbolic parts"),
])

DOUBLES = ["the environment of the client is replaced by doubles: tokio's clock and TCP stream, TLS (transparent), the certificate store, random numbers; tokio's I/O, line splitting and timeouts, futures and the client itself are the real code",
           "one task; the futures are polled until they are done, and the virtual clock moves when they wait"]


def client(pid, runs):
    for r in runs:
        r.crate = "client"
    prop(pid, runs, DOUBLES)


WRITES = "writes accepted at once, in pieces of 1, 7 (20) bytes, after a wait, or transmitted by a flush only"
client("C24", [
    Run("c24_privmsg", "channels, texts and tag values of 0..4 (7) symbolic bytes, multi-byte characters, up to 1200 bytes; all tag subsets and orders; " + WRITES),
    Run("c24_others", "ping, pong, join and join of 1..3 (4) channels with symbolic arguments; " + WRITES),
    Run("c24_after", "6 operations that succeed, fail, stall or are given up after any number of polls at several (0..11) bytes, then one of 5 with symbolic arguments"),
])
client("C25", [
    Run("c25_short", "any string of 0..10 (20) symbolic bytes and one multi-byte character"),
    Run("c25_end", "strings of up to 2000 bytes ending in 0..5 (8) symbolic bytes; writes in pieces, delayed and buffered"),
    Run("c25_after", "a send that is rejected, fails or stalls, then one with symbolic text"),
])
client("C26", [
    Run("c26_bytes", "any 0..6 (7) bytes, one (two) read boundaries anywhere, end of stream, read error or nothing after them"),
    Run("c26_lines", "1..2 (3) lines of 4 forms with either line end and a symbolic byte, one (two) read boundaries anywhere"),
    Run("c26_dropped", "two lines with a symbolic byte replaced or inserted anywhere; receives given up after 1 or 2 polls and repeated"),
    Run("c26_long", "lines of 8180..20000 bytes ending in two symbolic bytes"),
    Run("c26_between", "four lines with two symbolic bytes, reads ending anywhere; sends that succeed, fail, stall or are rejected between the receives"),
    Run("c26_reconnect", "an earlier connection with a symbolic byte anywhere, of which any part is received or left; a new connection with a symbolic byte and a read boundary anywhere"),
    Run("c26_disconnect", "4 kinds of errors, plain or with a reason, and 3 errors of the operating system"),
])
client("C27", [
    Run("c27_credentials", "anonymous; logins of 0..3 (6), tokens of 0..8 symbolic bytes with and without the prefix"),
    Run("c27_answers", "8 forms of the first and 9 of the second answer with symbolic commands, subcommands and texts, in any of 3 groups of reads"),
    Run("c27_again", "symbolic credentials; an earlier operation that is done, failed or given up; 0..2 (3) failed attempts of 6 kinds (write failures at any byte in the thorough tier), then one that succeeds"),
])
client("C28", [
    Run("c28_delays", "initial delay of one (two) and maximum of two (three) symbolic bytes of seconds, 6 multipliers, 0..3 (4) failures", limit=(200, 900)),
    Run("c28_nanos", "delays with parts of seconds, 6 multipliers, 0..4 (7) failures"),
    Run("c28_outcomes", "0..3 (4) retried failures of 5 kinds, then one of 11 endings, 0..3 (4) or unlimited tries, symbolic initial delay"),
    Run("c28_kinds", "19 kinds of I/O errors, with and without a reason, in 4 places"),
    Run("c28_many", "17, 33, 65, 129, 257 (.. 513) failures in a row with no limit or a symbolic larger one"),
    Run("c28_tries", "any number of tries up to 12 (40)"),
    Run("c28_extreme", "durations at the limits of u64 with a symbolic byte, 3 (5) multipliers", limit=(200, 900)),
])
client("C29", [
    Run("c29_alternates", "all sequences of up to 7 (13) calls on it, a copy or another one"),
    Run("c29_text", "texts of 0..4 (8) symbolic bytes and one multi-byte character, and of 499 bytes"),
])
client("C30", [
    Run("c30_given", "logins of 0..3 (5), tokens of 0..8 symbolic bytes and one multi-byte character"),
    Run("c30_debug", "tokens of 6..30 symbolic characters, the debug forms of credentials and of the configuration of a client"),
    Run("c30_anonymous", "every random number"),
])
client("C31", [
    Run("c31_open", "any timeout and opening time of one (two) symbolic bytes of seconds and 2 (5) parts of one"),
    Run("c31_stall", "a stall in opening, at bytes 0..7 (79) of the handshake, in the flush, or after any byte of the answers; symbolic timeout"),
    Run("c31_answers", "symbolic timeout and times of both answers (with 2 (5) parts of a second), at 3 x 3 places in them"),
    Run("c31_long", "timeouts up to the limit of their type"),
])
client("C32", [
    Run("c32_address", "certificate stores of 0..3 (5) certificates of symbolic bytes; connecting that succeeds or fails in 3 ways; 0..2 (3) failed attempts of 4 kinds, then a reconnect and a send"),
    Run("c32_store", "stores that cannot be loaded (4 kinds of errors) or have one unusable certificate anywhere among 0..3 (5)"),
])
client("C33", [
    Run("c33_builder", "all orders of setting credentials (0..2 (4) symbolic bytes), timeout and backoff (symbolic), one of them twice or not at all"),
    Run("c33_kept", "anonymous or not; 1..2 (3) operations, reconnects that succeed and fail"),
    Run("c33_defaults", "a symbolic time to open the connection"),
    Run("c33_default_backoff", "0..9 failed attempts"),
])
