#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
S = "sml/src/"
ALLMSG = [S+f for f in ("sml_attention_response.c","sml_close_request.c","sml_close_response.c","sml_get_list_request.c","sml_get_list_response.c","sml_get_proc_parameter_request.c","sml_get_proc_parameter_response.c","sml_get_profile_list_response.c","sml_get_profile_pack_request.c","sml_get_profile_pack_response.c","sml_open_request.c","sml_open_response.c","sml_set_proc_parameter_request.c")]
ELEM = [S+f for f in ("sml_shared.c","sml_number.c","sml_boolean.c","sml_octet_string.c","sml_status.c","sml_time.c","sml_value.c","sml_list.c","sml_tree.c")]
CORE = ELEM + [S+"sml_message.c", S+"sml_file.c"]

p("C01", "Any byte sequence can be parsed safely",
  "For every byte sequence handed to the library as an SML file or as a single SML element - truncated, corrupted or deliberately hostile, of any size and nesting depth - parsing, inspecting, printing, re-encoding and freeing the result never reads or writes outside the memory it owns, never uses uninitialised or freed memory, never executes undefined behaviour and never crashes.",
  ["inputs"], "every byte string (any length, including inputs whose checksums are right, so that damaged structures are delivered) x every public parse entry point",
  "Unit tests feed 60 short well-formed snippets and one recorded crash, without any sanitizer; memory errors depend on the exact byte at the exact distance from the end of the buffer.",
  CORE+ALLMSG, [("bounds checks before every read of the input", S+"sml_shared.c"), ("length-vs-remaining check for strings and numbers", S+"sml_octet_string.c, "+S+"sml_number.c"), ("has-errors checks after every field", "all *_parse functions")],
  ["sanitizer reports", "process exit status", "return of the file parser"])
p("C02", "Everything acquired is released exactly once",
  "Every block of memory and every file descriptor the library acquires while parsing, building, writing, printing or comparing is released exactly once when its result is freed, or before the call returns if the call yields no result. This holds on every success path and on every failure path, and freeing an absent (null) object is harmless.",
  ["inputs", "histories"], "every input including those rejected at any point of any element, and every sequence of build / write / re-write / free calls",
  "The tests never count allocations; a leak or double free on one of ~150 error exits is invisible to assertions on values.",
  CORE+ALLMSG, [("per-element free functions", "sml_*_free"), ("goto error clean-up", "all *_parse functions")],
  ["live allocation count around each call", "open descriptors of the process"])
p("C03", "Only messages with a correct checksum are delivered, each intact one once",
  "A message is delivered from a parsed file only if its checksum field equals the CRC-16/X-25 (in SML byte order) or the CRC-16/Kermit of exactly that message's bytes. A message that is structurally intact but fails this check is dropped alone: every other intact message of the file is still delivered, complete, exactly once and in file order.",
  ["inputs", "histories"], "every file of one or more messages x every subset of corrupted messages x every corruption of content or checksum",
  "Two fixed messages are tested, one with one flipped bit; the guarantee is over all bit patterns, message positions and file compositions.",
  [S+"sml_message.c", S+"sml_file.c", S+"sml_crc16.c"], [("checksum comparison", S+"sml_message.c sml_message_parse"), ("message loop", S+"sml_file.c sml_file_parse")],
  ["list of delivered messages"])
p("C04", "Well-formed messages decode to exactly the content they encode",
  "For every well-formed SML message of each of the fourteen supported types, with any combination of optional fields, list lengths, tree shapes, string lengths and value types, the parsed result holds exactly the encoded content in the encoded order: nothing dropped, swapped, truncated, duplicated or defaulted.",
  ["inputs"], "every well-formed file: all message types x optional-field subsets x value types and widths x list/tree/sequence sizes x length encodings",
  "Only one message of one type is parsed end to end by the tests; nine message types have no parsing test at all.",
  CORE+ALLMSG, [("field-by-field parse functions", "sml_*_parse"), ("type/length decoding", S+"sml_shared.c sml_buf_get_next_length")],
  ["all public fields of the parsed structures"])
p("C05", "Whatever is encoded decodes to the same content",
  "Writing any file built through the library's interface, or obtained by parsing, produces valid SML whose content - as read by an independent decoder and by the library itself - equals what was written, with a correct checksum on every message. Writing is repeatable: it does not depend on what the output buffer held before, and writing the same file again, or after further messages were added, is equally correct.",
  ["inputs", "histories"], "every content of every supported message type, all list and string lengths (including the boundaries where the length field grows), and every sequence of build, parse, write, extend, write again",
  "Writers are tested only for single elements of a few bytes; no message type is ever written and read back, no length above 16 is written.",
  CORE+ALLMSG, [("type/length encoding", S+"sml_shared.c sml_buf_set_type_and_length"), ("write functions", "sml_*_write"), ("checksum emission", S+"sml_message.c sml_message_write")],
  ["bytes in the output buffer"])
p("C06", "Numbers keep their exact value, sign and width class",
  "Every signed or unsigned integer transmitted in 1 to 8 bytes is delivered with exactly its mathematical value and signedness, in the smallest standard width (8, 16, 32 or 64 bits) that holds its transmitted bytes, and its conversion to floating point is that value correctly rounded (and 0 for a value that is no number). Encoding a number and decoding it again gives the same value.",
  ["inputs"], "all values x all transmitted byte counts x signed/unsigned x every place a number can occur (fixed fields, readings, status words, times)",
  "The tests sample 17 numbers; 3-, 5-, 6- and 7-byte signed and unsigned encodings and sign boundaries are mostly untested.",
  [S+"sml_number.c", S+"sml_value.c", S+"sml_status.c", S+"sml_time.c"], [("sign extension and byte swap", S+"sml_number.c sml_number_parse"), ("width class", S+"sml_value.c, "+S+"sml_status.c"), ("sml_value_to_double", S+"sml_value.c")],
  ["number pointers, type tags, double results"])
p("C07", "Malformed messages are rejected, never reinterpreted",
  "If an element of a message has the wrong type, the wrong number of entries, a number too wide for its field or for 64 bits, a length that exceeds the remaining data or cannot be represented, an unknown or missing message type or parameter-value choice (the choice tag of a time is not examined), or if the message is cut short, that message is not delivered - neither partially nor with fields shifted or guessed. All intact messages before it are still delivered, and delivered messages always have a body with a type tag.",
  ["inputs"], "every single-fault mutation of a well-formed message at every element, with the checksum recomputed so that only structure can reveal it, and every truncation point",
  "Tests contain four malformed inputs in total; each of the ~250 type, arity and bounds checks can be lost without a test noticing.",
  CORE+ALLMSG, [("type and arity checks", "all *_parse functions"), ("error flag propagation", S+"sml_shared.c"), ("unknown tag handling", S+"sml_tree.c, "+S+"sml_time.c")],
  ["delivered messages", "error state of the element parsers"])
p("C08", "Parsing cost is proportional to the input",
  "The work done and the memory held while parsing any input stay within a constant factor of the input's size: declared lengths and counts that the data does not back up cost nothing, and nesting depth is bounded. Parsing always terminates.",
  ["inputs"], "every input, in particular families that scale one structural dimension, and inputs declaring huge lengths or counts",
  "Tests never measure work or memory and use inputs of at most 400 bytes.",
  CORE, [("loops end at the first error", S+"sml_list.c, "+S+"sml_tree.c"), ("allocation only after the bounds check", S+"sml_octet_string.c")],
  ["basic blocks executed", "bytes allocated", "peak live bytes"])
p("C09", "Every transmitted frame is received once, intact and in order",
  "From any byte stream delivered in any chunking - with interrupted calls, momentary unavailability, and arbitrary noise before, between and after the frames, including noise that resembles the beginning of a frame - reading returns each complete frame that fits the caller's buffer (a frame may fill it exactly) exactly once, in order, byte for byte, and reports nothing else. It never writes outside the caller's buffer, ends at end of input, and after a truncated, damaged or oversized frame resumes within one buffer length; the listener keeps going until the input ends. A frame is reported as soon as its last byte has arrived, without waiting for more input, and while there is no input the reader sleeps instead of asking all the time.",
  ["inputs", "schedules", "fault_sequences"], "all frame sequences x noise x read chunkings x EINTR/EAGAIN/short-read sequences x buffer sizes; payloads contain no transport escape sequence",
  "There is no transport test at all.",
  [S+"sml_transport.c"], [("start/end sequence recognition", S+"sml_transport.c sml_transport_read"), ("read loop", S+"sml_transport.c sml_read"), ("listener loop", S+"sml_transport.c sml_transport_listen")],
  ["return values, caller buffer and its red zones, receiver callbacks"])
p("C10", "Sent frames are complete and correct, and failures are reported",
  "Sending a file emits one transport frame: start sequence, the encoded messages, zero padding to a multiple of four, end sequence, the padding count, and the CRC-16/X-25 of everything before it; reading that frame back yields the same messages (also when they contain the transport's escape sequence). The call reports success with the frame's length exactly when the whole frame was accepted, and 0 otherwise.",
  ["inputs", "fault_sequences"], "all files (including the empty one, parsed ones and repeated sends) x write outcomes (full, short, error)",
  "There is no transport test at all.",
  [S+"sml_transport.c", S+"sml_file.c"], [("frame assembly", S+"sml_transport.c sml_transport_write"), ("result check of write", S+"sml_transport.c sml_transport_write")],
  ["bytes written to the descriptor", "return value"])
p("C11", "Checksums match their mathematical definition",
  "For every byte sequence of every length, the library's two checksum functions return the CRC-16/X-25 (with the byte order SML transmits) and the CRC-16/Kermit, and do not alter the data. Consequently every single-bit error and every burst error of up to 16 bits, and every double-bit error within 4095 bytes, changes the checksum.",
  ["inputs"], "all byte strings, all lengths from zero, all error patterns of the named classes",
  "The checksum functions have no test; two messages exercise a few of the 256 table entries.",
  [S+"sml_crc16.c"], [("table-driven CRC", S+"sml_crc16.c")], ["return values"])
p("C12", "Independent use from several threads does not interfere",
  "Threads that work on their own files, buffers and descriptors at the same time never race on shared state and obtain exactly the results they would obtain alone; several threads may inspect, convert and compare one already parsed file concurrently.",
  ["schedules"], "all interleavings of parse, build, encode, convert, print, compare, send and receive calls on distinct objects, and of read-only calls on a shared object",
  "The tests are single-threaded.",
  CORE+[S+"sml_crc16.c", S+"sml_transport.c"], [("no mutable shared state", "all sources")], ["data-race reports", "per-thread results against a sequential run"])
p("C13", "Results depend on the given bytes alone",
  "The result of parsing depends only on the bytes handed in: not on anything parsed, written or freed before, not on the position of a message within a file, not on leftover memory contents, and not on compiler, optimisation level or build options. The caller's bytes are never modified, and the result stays valid and unchanged after the caller overwrites or frees them.",
  ["inputs", "histories", "configurations"], "all inputs x all preceding call histories x heap contents x build configurations (compilers, optimisation levels, with and without the UUID library)",
  "Each test runs one input once from a fresh state with one compiler.",
  CORE+[S+"sml_crc16.c"], [("the input is copied", S+"sml_file.c sml_file_parse"), ("per-list workaround state", S+"sml_list.c sml_list_parse")], ["dumps of results across runs, histories and builds"])
p("C14", "Meter workarounds affect exactly the affected meters",
  "Readings of active power (1-0:16.7.0*255) sent as signed numbers of one or two bytes are taken as unsigned if and only if the same value list previously identified the meter as a DZG DVS74 with a serial number in 42000000-48999999 or 55000000-58999999; no other entry, list or message is altered. Times sent as a bare 4-byte number count as second index, times sent as three-part local timestamps are accepted without a value, and messages whose checksum is CRC-16/Kermit are accepted.",
  ["inputs", "histories"], "all serial numbers incl. range boundaries, all entry orders, names, value types and widths, several lists and messages per file, all times in all places",
  "No test contains any of the affected meters' data.",
  [S+"sml_list.c", S+"sml_time.c", S+"sml_message.c"], [("detect_buggy_dzg_dvs74 and workaround application", S+"sml_list.c"), ("DTZ541 and ZG22 time handling", S+"sml_time.c")], ["parsed list entries and times"])
p("C15", "The command line tool prints every reading correctly",
  "For any stream of well-formed frames the sml_server tool prints, in order, one line per reading of every value list: its OBIS number, then octet strings as text/hex, booleans as true or false, or the number scaled by its power of ten with as many decimals as the scaler implies and followed by the name of its DLMS unit. With -s it stops after the first value list, with -v it also reports the messages of each file, and it ends successfully at end of input. This holds for standard input, files and serial lines alike; the readings up to the last number received are printed without waiting for further input, and an input that cannot be opened is reported by the exit status.",
  ["inputs", "configurations"], "all value lists x all option combinations x all units, scalers, widths and signs",
  "The tool has no test.",
  ["examples/sml_server.c", "examples/unit.h", S+"sml_value.c", S+"sml_file.c"], [("transport_receiver", "examples/sml_server.c"), ("unit table", "examples/unit.h"), ("sml_file_print", S+"sml_file.c")], ["stdout and exit status of sml_server"])
p("C16", "Every new message gets a fresh transaction id",
  "Every newly created message carries a 16-byte transaction id that no other created message carries, whichever way the library was built, across any number of messages, threads and forked processes; creating ids never exhausts descriptors or memory.",
  ["histories", "schedules", "configurations"], "all creation histories, with threads and forks, with and without the UUID library, under small descriptor limits",
  "The test compares two ids in one process of one configuration.",
  [S+"sml_octet_string.c", S+"sml_message.c"], [("sml_octet_string_generate_uuid", S+"sml_octet_string.c")], ["transaction ids, open descriptors"])
p("C17", "String helpers agree with the bytes they describe",
  "For octet strings of any length and content: a string created from bytes or from hexadecimal text holds exactly those bytes; comparing two strings, or a string with hexadecimal text, reports equality exactly when length and bytes agree; converting to text gives two hex digits and a blank per byte, except that in mixed mode the leading run of printable characters (0x21 to 0x7a) is kept as it is. The hex dump shows every byte in order. Empty, absent and malformed arguments give a defined result.",
  ["inputs"], "all byte strings, all hex texts (upper/lower case, odd length, empty), both text modes",
  "Two comparisons and one conversion of 'Hallo' are tested; text conversion has no test.",
  [S+"sml_octet_string.c", S+"sml_value.c"], [("sml_octet_string_cmp/_cmp_with_hex/_init_from_hex", S+"sml_octet_string.c"), ("sml_value_to_strhex", S+"sml_value.c")], ["return values and strings"])
p("C18", "Encoding never writes outside the output buffer",
  "Whatever the number and size of the elements, encoding a message or a file into a library-created buffer of any initial size never writes outside that buffer and never executes undefined behaviour, and either the complete encoding is present afterwards or an error is reported.",
  ["inputs"], "all contents x all initial buffer sizes and cursor positions, including files larger than the default buffer and re-sent parsed files",
  "Tests write at most 19 bytes into a 512-byte buffer, without sanitizers.",
  CORE+ALLMSG+[S+"sml_transport.c"], [("buffer growth / capacity check before each write", S+"sml_shared.c")], ["sanitizer reports", "buffer contents, capacity, cursor and error state"])
p("C19", "Each element parser consumes exactly one element",
  "Parsing a single element at any position of a buffer consumes exactly the bytes of that element, or one byte if the element is marked absent, and leaves the position at the next element; it never moves the position beyond the end of the buffer. When the element is invalid or incomplete the buffer is marked erroneous and stays so, and writing an element advances the position by exactly the bytes it produced.",
  ["inputs"], "every public element parser and writer x every buffer content, position and following bytes",
  "Tests check the position in seven places, always for elements at the start of a zero-filled buffer.",
  CORE+ALLMSG, [("sml_buf_update_bytes_read, sml_buf_optional_is_skipped, sml_buf_get_next_length", S+"sml_shared.c")], ["buffer position and error flag after each call"])
p("C20", "The command line tool survives any input stream",
  "Whatever bytes arrive - noise, damaged or truncated frames, frames whose valid messages lack names, values, units or have unexpected lengths - the sml_server tool neither crashes nor misuses memory, keeps printing the readings of the intact frames that follow, and ends normally at end of input.",
  ["inputs"], "all byte streams, with and without -v and -s",
  "The tool has no test.",
  ["examples/sml_server.c", S+"sml_transport.c", S+"sml_file.c", S+"sml_value.c"], [("null checks before printing", "examples/sml_server.c"), ("listener loop", S+"sml_transport.c")], ["exit status, sanitizer reports and stdout of sml_server"])
p("C21", "Objects keep their content until they are changed",
  "An object obtained by parsing or building keeps exactly its content until the caller changes it: printing, converting, comparing, writing and sending it - any number of times, in any order - and parsing, changing or freeing other objects leave it as it is, and the same question gets the same answer again. Adding an entry to a file, list, sequence, tree or path appends exactly that entry and leaves the entries before it as they were.",
  ["inputs", "histories"], "all histories of parse, build, add, change in place, print, write, send, convert, compare and free calls on any number of objects",
  "Tests look at an object once, directly after creating it; sharing, caching and in-place changes show only after other calls.",
  [S+"sml_file.c", S+"sml_list.c", S+"sml_tree.c", S+"sml_message.c", S+"sml_octet_string.c", S+"sml_value.c", S+"sml_transport.c"], [("sml_file_add_message, sml_list_add, sml_sequence_add, sml_tree_add_tree, sml_tree_path_add_path_entry", S+"sml_file.c, "+S+"sml_list.c, "+S+"sml_tree.c"), ("*_write, sml_file_print, sml_value_to_double, sml_value_to_strhex, sml_octet_string_cmp", S)], ["contents of all objects after every call", "return values and output of repeated calls"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
