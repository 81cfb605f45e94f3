#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the text stays readable and diffable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

VM="src/vm/vm_exec.c"; VI="src/vm/vm_internal.h"; PA="src/compiler/cnd_parser.c"; CC="src/compiler/cndc.c"; UT="src/compiler/cnd_utils.c"; LX="src/compiler/cnd_lexer.c"; H="include/concordia.h"

p("C01","Encoded frames are the schema's documented wire layout",
"For every schema the compiler accepts and every set of host values, the frame a node puts on the link is byte for byte the layout the schema documents: field order, byte order, bit packing, alignment, length prefixes, terminators, constants, computed values, scaling and checksums. A peer that implements the schema independently of this code reads the same values from it, and the frame occupies exactly the number of bytes the layout needs.",
["programs","inputs","schedules","configurations"],
"every schema of the language, every assignment of host values to its fields, every buffer at least as large as the frame, and every interleaving with other contexts in the same process",
"The tests compare a handful of hand-written frames for one feature at a time; layouts come from combinations (byte order x bit offset x nesting x arrays x conditionals) and from the state left by the preceding field, which no fixed set of examples reaches.",
[VM,VI,PA,CC,UT,LX],
[("byte order, bit packing and alignment of each emitted field","src/vm/vm_internal.h read_*/write_*/read_bits/write_bits; src/vm/vm_exec.c ALIGN_TABLE and the opcode switch"),
 ("schema to instruction translation","src/compiler/cnd_parser.c parse_field/parse_struct/parse_switch/parse_if; src/compiler/cnd_utils.c buf_append_with_prefix; src/compiler/cndc.c optimize_strings")],
[("cursor, bit_offset, endianness","position and byte order of the next field",H)],
["bytes of the data buffer after cnd_execute in encode mode","final cursor"])

p("C02","A frame delivered intact decodes to the values that were sent",
"Whatever a node encodes and the link delivers undamaged, every receiver holding the same schema decodes successfully to the same values, delivered under the same field names, in schema order, each exactly once; values outside what the field can carry are the only exception. This holds however deliveries are delayed, duplicated or reordered and however many other frames, failed decodes and restarts the receiver handled before.",
["programs","inputs","histories","fault_sequences","schedules"],
"every schema, every representable set of values, every history of other frames (good, damaged, truncated) and restarts on the same receiver, every delivery order",
"Tests do one encode and one decode per hand-picked schema in a fresh context; a lost field, a wrong key or state leaking from one frame or one field to the next needs a combination or a history they do not contain.",
[VM,VI,PA,CC,UT],
[("decode mirrors encode instruction by instruction","src/vm/vm_exec.c cnd_execute"),
 ("full reset of a context between frames","src/vm/vm_exec.c cnd_init"),
 ("names of nested fields carried into the image","src/compiler/cnd_utils.c buf_append_with_prefix; src/vm/vm_exec.c cnd_get_key_name")],
None,["callback arguments in decode mode","cnd_execute return value"])

p("C03","Damaged or illegal frames are never accepted",
"A received frame whose checksum, constant, range, enumeration, boolean or computed-field check does not hold is refused with the error for that kind of check, whatever damaged it, and a frame that satisfies them all is not refused. The same checks stop an encoder from emitting an illegal value, and the value that fails a constant or boolean check is never handed to the host.",
["inputs","fault_sequences","programs"],
"every schema with checks, every legal frame, and every bit flip, burst, byte substitution, splice with another frame, or illegal host value",
"The tests corrupt one byte of one frame per kind of check; whether damage at an arbitrary position is caught depends on coverage, byte order and field position, which quantifies over all frames and all damage.",
[VM,PA],
[("checksum over everything before it","src/vm/vm_exec.c calc_crc, OP_CRC_16/OP_CRC_32"),
 ("constant, range, enum, boolean and computed-value checks","src/vm/vm_exec.c OP_CONST_CHECK, OP_RANGE_CHECK, OP_ENUM_CHECK, OP_IO_BOOL, OP_EMIT"),
 ("checks emitted with the field's type and bounds","src/compiler/cnd_parser.c emit_range_check and parse_field")],
None,["cnd_execute return value","callback sequence up to the refusal"])

p("C04","Short buffers and cut-off frames fail cleanly and change nothing outside",
"Decoding a frame that was cut off before the layout is complete, or encoding into a buffer smaller than the frame, ends with the out-of-bounds error and never with success, unless everything missing is optional or an open-ended tail; no byte outside the given buffer is read or written. The fields delivered or written before the cut are exactly those of the complete frame.",
["inputs","fault_sequences","programs"],
"every schema and frame, every cut position including inside a multi-byte value, a bit field, a length prefix, a string or a checksum, and every buffer size from one byte up",
"Tests try a few sizes for a few types; a missing bound on one path shows only at one specific cut position of a schema that reaches that path.",
[VM,VI],
[("bounds test before each access","src/vm/vm_exec.c HANDLE_PRIMITIVE/HANDLE_FLOAT/HANDLE_STRING_PRE/HANDLE_ARRAY_PRE and the bit-field cases; src/vm/vm_internal.h read_bits/write_bits"),
 ("optional fields default to zero at the end of the data","src/vm/vm_exec.c is_next_optional")],
None,["cnd_execute return value","guard bytes around the buffer","callback sequence"])

p("C05","A host callback failure stops the run at that point and nothing else is lost",
"If the host's callback reports an error, execution stops at once with the callback error and the host is not called again for that run, except where the host declines a bulk byte-array offer, which falls back to element-by-element transfer with the same result, or an optional string while encoding, which is left out of the frame. The bytes already produced or values already delivered are those of the undisturbed run, and starting again from a fresh initialisation gives the complete, correct result.",
["fault_sequences","crash_points","programs"],
"every schema, both directions, and a failure injected at every callback of the run",
"The tests fail one callback in one schema; a call whose result is ignored is visible only when that particular call is the one that fails.",
[VM],
[("every callback result checked","src/vm/vm_exec.c io_callback call sites"),
 ("bulk byte-array offer with fallback","src/vm/vm_exec.c try_optimize_byte_array")],
None,["callback sequence","cnd_execute return value"])

p("C06","Contexts sharing a program do not affect each other under any schedule",
"Any number of contexts executing in one process, on the same or different programs, produce exactly the bytes, values and errors each would produce alone, however their steps interleave. Program images are never written, no state outlives a context's initialisation, and repeating a run from the same inputs repeats its result exactly.",
["schedules","histories","programs"],
"every interleaving of two or more contexts at any instruction boundary, any mix of programs, directions and failures, and any prior content of the context memory",
"Every existing test runs one context at a time from one thread, so shared or leftover state cannot show.",
[VM,VI,H],
[("all run state kept in the context; program is const","include/concordia.h cnd_vm_ctx; src/vm/vm_exec.c cnd_init")],
[("cnd_vm_ctx","the whole state of one run",H)],["per-context callback log, output bytes and result under interleaving against the same run alone"])

p("C07","No image or frame can make the engine leave its memory",
"Loading any byte string as a program image and executing it on any frame in either direction, looking up its key names, or verifying it, touches only the image, the frame buffer and the context, and every call that ends returns one of the documented results. This includes images torn, stale or bit-flipped in storage or transfer, and frames of any content.",
["inputs","fault_sequences","crash_points"],
"every image derived from a valid one by truncation at any point, bit flips, sector loss, splicing two versions, or made of arbitrary instructions; every frame; both directions",
"The safety tests hold a dozen hand-made hostile programs; an unchecked access needs one particular operand at one particular cursor position.",
[VM,VI,"src/vm/vm_verify.c"],
[("operand fetch bounded by the image","src/vm/vm_exec.c FETCH_IL_*; src/vm/vm_internal.h read_il_*"),
 ("header and string table validation","src/vm/vm_exec.c cnd_program_load_il, cnd_get_key_name"),
 ("loop and expression stack limits","src/vm/vm_exec.c loop_push, stack_push, stack_pop")],
None,["address-sanitised execution with guard zones","return codes"])

p("C08","The verifier passes every compiled image and what it passes is well-formed",
"Static verification accepts every image the compiler produces. It refuses an image that is cut off inside an instruction, contains an undefined instruction, or jumps outside the program.",
["programs","fault_sequences","crash_points"],
"every schema the compiler accepts, and every truncation point, undefined-opcode overwrite or jump-displacement damage of its instruction stream",
"The tests verify about ten tiny hand-assembled programs, and none that the compiler produced.",
["src/vm/vm_verify.c",PA,CC],
[("linear scan with per-instruction operand sizes","src/vm/vm_verify.c cnd_verify_program")],
None,["cnd_verify_program result"])

p("C09","A compile reports success only when the complete image is on disk",
"When the compiler reports success, the output file holds the complete image of exactly the source it was given and every imported file, whatever read, write, open or close failures or short transfers occurred; any fault it cannot mask makes it report failure. A compile that fails because of the schema or because an input cannot be read leaves an existing output file untouched.",
["fault_sequences","crash_points","programs"],
"every schema and import graph, and a failure, short transfer or full disk at every file operation of the compile",
"All tests run on a healthy disk, where nothing distinguishes checked from unchecked file operations.",
[CC,PA,"src/cli/cmd_compile.c",UT],
[("output opened only after a clean parse; result of each write","src/compiler/cndc.c cnd_compile_file"),
 ("reading the source and imports","src/compiler/cndc.c cnd_compile_file; src/compiler/cnd_parser.c parse_import")],
None,["exit status","output file on the simulated disk"])

p("C10","Compilation depends on the source text alone and imports are applied once",
"Compiling the same files gives the same image whatever was compiled before or concurrently in the process, whatever the memory allocator returns and from whichever directory or path spelling the files are named. Definitions reached through several import paths, or through cycles, take effect exactly once, and give the image of the equivalent single file.",
["programs","histories","schedules","configurations"],
"every import graph including chains, diamonds, cycles and self-imports, every partition of the definitions over files, every history of earlier and interleaved compiles",
"Tests compile a file once in a fresh process state with one simple import; order, sharing, memory content and path spelling do not vary.",
[PA,CC,UT,LX],
[("canonical paths remembered per compile","src/compiler/cnd_parser.c parse_import; src/compiler/cnd_utils.c cnd_canonicalize_path"),
 ("definitions registered in per-compile tables","src/compiler/cnd_utils.c reg_*/enum_reg_*/strtab_*")],
None,["output image bytes"])

p("C11","The command line tools never report success over a bad output file",
"When encoding, decoding or formatting from the command line reports success, the output file contains the complete result for the complete inputs, and when the inputs cannot be read completely, do not parse, or the output cannot be written completely, it reports failure. Damaged or cut-off schema images, data files and documents on disk lead to a reported failure or a correct result, never to a crash.",
["fault_sequences","crash_points","inputs"],
"every read, write, open and close failure or short transfer during a command, and every truncation or bit flip of its input files",
"No test runs the command line tools at all, let alone on a failing disk.",
["src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cmd_fmt.c","src/cli/cli_helpers.c","src/compiler/cnd_fmt.c","src/cli/json_binding.c"],
[("file helpers","src/cli/cli_helpers.c read_file_bytes/read_file_text/write_file_bytes/write_file_text/load_il"),
 ("exit status","src/cli/cmd_encode.c, cmd_decode.c, cmd_fmt.c")],
None,["exit status","files on the simulated disk"])

p("C12","JSON to binary and back through the tools preserves the document",
"For schemas whose arrays have a count, encoding a JSON document that matches the schema to a binary file and decoding that file yields the same members, values, nesting and array lengths, across all integer widths (up to the 53 bits a JSON number carries exactly), booleans, floats, strings, nested structures and arrays, and the binary file is the schema's wire layout for those values. The result does not depend on what earlier conversions in the same process did or on whether they failed.",
["programs","inputs","histories"],
"every schema the mapping covers, every matching document within JSON number precision, every history of earlier conversions",
"There is no test of the JSON mapping; the demos use one schema each.",
["src/cli/json_binding.c","src/cli/cmd_encode.c","src/cli/cmd_decode.c",VM],
[("name-to-member mapping with a context stack for nesting","src/cli/json_binding.c json_io_callback")],
None,["binary and JSON files on the simulated disk"])

p("C13","The language server answers each request once however its input arrives",
"For every sequence of editor messages, the bytes the language server writes are the same however its input stream is fragmented, and consist of complete, correctly framed messages: one response per supported request, carrying that request's identifier, in request order, and none to a message without one. Unknown methods, unknown documents, missing parameters and documents of any content neither stop it nor change later answers, and end of input or exit ends it.",
["schedules","inputs","histories","fault_sequences"],
"every message sequence, every fragmentation and end-of-input point of the byte stream, every document text",
"There is no test of the language server.",
["src/cli/cmd_lsp.c"],
[("length-framed reader and dispatcher","src/cli/cmd_lsp.c main loop"),
 ("response framing","src/cli/cmd_lsp.c send_* helpers")],
None,["bytes written to the simulated standard output"])

p("C14","Language server answers reflect the latest text of the document",
"After any history of opening, changing and saving documents, diagnostics, hover, definition, completion, symbols and formatting answers are those a fresh server on the same disk gives once it has been told that document's latest text and nothing else. Diagnostics are empty exactly when the compiler accepts that text.",
["histories","schedules","programs"],
"every history of edits over several documents, interleaved with requests, with on-disk contents lagging behind the open text",
"There is no test of the language server, and staleness needs a history of edits.",
["src/cli/cmd_lsp.c",PA,UT],
[("document text handed to analysis on each change","src/cli/cmd_lsp.c didOpen/didChange/didSave handlers and analyze_source")],
None,["responses of a long-lived server against a fresh one"])

p("C15","Formatting never changes what a schema means and settles",
"Formatting a schema the compiler accepts yields a schema that compiles to the identical image, keeps every comment, and formatting the result again changes nothing. The result is laid out by its tokens alone: every line is indented by its depth of braces, and neither the amount of white space between two tokens nor more than one blank line between two lines makes a difference. Formatting a file onto disk under write failures reports the failure rather than success.",
["programs","histories","fault_sequences"],
"every schema in every layout (spacing, comments, literals), any number of repeated format-and-edit rounds, with disk faults",
"No test covers the formatter; its input space is all token sequences and comment placements.",
["src/compiler/cnd_fmt.c","src/cli/cmd_fmt.c"],
[("token re-emission with indentation","src/compiler/cnd_fmt.c cnd_format_source")],
None,["formatted text, its compiled image"])

p("C16","The host sees a well-formed event stream on every run",
"In every run, complete or failed, structure and array begin and end events nest properly, each array that announces a count delivers exactly that many elements unless the host takes them in one bulk transfer, and events come only from fields on the path the data selects. A run that succeeds has closed everything it opened, including empty arrays; an array that runs to the end of the data announces no count and is ended once after its last element.",
["programs","inputs","fault_sequences"],
"every schema with nested structures, arrays of every kind and conditionals, every element count including zero and the maximum, every failure point",
"Tests look at values, rarely at the begin and end events, and never at zero-length arrays combined with arbitrary element bodies.",
[VM],
[("loop stack and body skipping","src/vm/vm_exec.c loop_push/loop_pop/skip_loop_body, OP_ARR_* and OP_ARR_END"),
 ("structure events","src/vm/vm_exec.c OP_ENTER_STRUCT/OP_EXIT_STRUCT")],
None,["callback sequence"])

p("C17","Conditions, switches and expressions select and compute as written",
"Whether a conditional block or switch case is on the wire, and the value of every computed field, is exactly what the written expression means for the values the host holds at that moment, with the language's precedence and its integer and floating arithmetic. Division by zero and other undefined arithmetic end the run with the arithmetic error and nothing evaluates to a value silently.",
["programs","inputs","histories"],
"every expression of the language within its nesting limits, every switch, every context value, including values the host changes between fields",
"Tests evaluate single operators and two-case switches; precedence, nesting, jump distances and table forms vary with the whole schema.",
[PA,VM],
[("operator-precedence translation","src/compiler/cnd_parser.c parse_precedence/parse_binary/parse_unary/parse_primary"),
 ("branches and tables","src/compiler/cnd_parser.c parse_if/parse_switch; src/vm/vm_exec.c OP_JUMP*, OP_SWITCH*"),
 ("stack machine","src/vm/vm_exec.c category G")],
None,["bytes, callback sequence and result of runs with conditions"])

p("C18","Old and new schema versions interoperate through trailing optional fields",
"When one side of the link runs a schema extended with trailing optional scalar or string fields, frames from the older side decode on the newer side with the missing fields delivered as zero, and frames from the newer side decode on the older side to the common fields. This holds throughout any order of upgrading and rolling back individual nodes.",
["programs","histories","fault_sequences","configurations"],
"every base schema and every extension by optional fields, every mix of versions during a rolling upgrade, every order of restarts with a new or an old image",
"Tests decode one schema against one short buffer; version skew over a fleet is not simulated.",
[VM,PA],
[("optional marker applied to the next field only","src/vm/vm_exec.c OP_MARK_OPTIONAL, is_next_optional")],
None,["values delivered on mixed-version links"])

p("C19","Execution is bounded by the frame and allocates nothing",
"Executing a compiled program whose array elements occupy space ends after a number of steps bounded by the program and the buffer, whatever bytes the frame contains and however it was damaged. Loading, executing and looking up names in a program performs no heap allocation and no input or output, and takes an amount of stack that neither the program nor the frame decides.",
["inputs","fault_sequences","programs"],
"every compiled schema, every frame content including damaged counts and lengths, both directions, every host failure",
"Tests have wall-clock timeouts only and do not observe allocation.",
[VM],
[("bounds test ends loops driven by a damaged count","src/vm/vm_exec.c OP_ARR_END and bounds checks"),
 ("no dynamic memory in the engine","src/vm/vm_exec.c")],
None,["instrumented step count","simulated allocator and stdio counters"])

p("C20","The Go binding gives the same results as the engine under any schedule",
"Encoding and decoding through the Go binding yields the bytes, values, order of events and error identities the engine itself yields, for any number of goroutines interleaving their calls and for callbacks that fail, panic, call back into the binding or retain what they were given as documented. Encoded bytes reach the caller's buffer, decoding never writes to the caller's bytes, and whatever a call takes it gives back, however the call ends.",
["schedules","inputs","fault_sequences","programs"],
"every schema and values, every interleaving of goroutines at callback boundaries, every callback failure point",
"The Go package has no tests; only the demo exercises it, sequentially.",
["go/concordia.go","go/bridge.c","go/consts.go"],
[("handle-based callback trampoline and buffer copy","go/concordia.go Execute and the exported callback"),
 ("error mapping","go/concordia.go")],
None,["per-goroutine results against the engine run alone"])

p("C21","Inspecting tools survive any stored image",
"Disassembling, listing or dumping any file as a program image with the command line tools ends by itself with a report or an error and touches no memory outside what it read, whether the file is intact, torn, bit-flipped or not an image at all. For an intact image it lists every key name and every instruction of the program.",
["inputs","fault_sequences","crash_points"],
"every compiled image and every truncation, bit flip or sector loss of it, with read failures at any point",
"No test runs the inspection tools.",
["src/cli/cmd_inspect.c","src/cli/cli_helpers.c"],
[("bounds of the disassembly loop","src/cli/cmd_inspect.c"),("header validation","src/cli/cli_helpers.c load_il")],
None,["exit, output and memory accesses of the simulated command"])

p("C22","Definitions the language rules out are refused, where they stand",
"A schema containing anything the language rules out — an unknown or not yet defined type, a name, enumeration value or case defined twice, a constant, range, enumeration value, width, count, length or version its type cannot hold, an array without a length or a count without an array, a decorator that is unknown, misspelt, incomplete or does not apply to its field, a structure inside itself, a malformed expression, switch or declaration, an unfinished source — is refused with a non-zero exit and a message naming the file and line of the offending text, wherever in the schema or in whichever imported file it stands, and leaves the output as it was. It is never compiled into something else; and the same text without the flaw is accepted.",
["inputs","programs","configurations"],
"every sound schema and every flaw placed in it, at every nesting, in the main file or an imported one; every point at which a source can be cut off",
"Tests refuse a dozen short schemas each consisting of the flaw alone; a wrong definition silently accepted yields frames nobody meant.",
[PA,"src/compiler/cndc.c"],
[("checks on fields and decorators","src/compiler/cnd_parser.c parse_field, parse_switch, emit_range_check"),
 ("definitions and names","src/compiler/cnd_parser.c parse_enum, parse_struct, parse_packet, parse_top_level, parse_import"),
 ("messages","src/compiler/cnd_parser.c parser_error")],
None,["exit code, messages and output file of the simulated compiler"])

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"],len(x["title"]),x["title"])
