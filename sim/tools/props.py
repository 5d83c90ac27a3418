import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=sorted(set(files)),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
D="src/decode/module.rs decode_module"
p("C01","How the bytes are delivered does not matter",
 "Decoding depends only on the sequence of bytes the reader delivers before end of input. Any splitting into short reads, any number of interrupted calls, any buffering or adapter in between, however long the calls take, whatever the clocks and the environment variables say, and any repetition give an equal module, or an error whose rendered cause chain is equal.",
 ["schedules","inputs","fault_sequences"],"all byte sequences, all ways of splitting them over read calls, all placements of interrupted calls, std::io adapters, all clock readings and environments",
 "The tests decode whole in-memory slices or files; no test short-reads or interrupts a call, and the splittings of one input are exponentially many.",
 ["src/decode/module.rs","src/decode/helpers.rs","src/decode/module.rs","src/decode/helpers.rs","src/decode/integer.rs","src/decode/sections/code.rs"],
 [("read_exact/read_to_end for every field, retrying Interrupted","src/decode/integer.rs, src/decode/helpers.rs, src/decode/module.rs"),("section payload through Read::take","src/decode/module.rs")],
 ["result of decode_module: Module or error chain"])
p("C02","A failing reader is always reported, never absorbed",
 "If the reader fails with any error other than an interruption while bytes are still needed, decoding returns an error whose cause chain contains that very error: never success, never another diagnosis in its place. This holds for every error kind, including the kind used for an unexpected end of file, for a failure that occurs only once, and for any position in the input, and the error's kind and operating system number survive as delivered; if the reader panics, the panic reaches the caller.",
 ["fault_sequences","inputs","crash_points"],"all modules, all failure positions, all error kinds and representations, sticky or one-shot failures",
 "No test has a failing reader; each of the several hundred read sites has its own error conversion and any of them may lose the cause.",
 ["src/decode/module.rs","src/decode/module.rs","src/decode/helpers.rs","src/decode/instructions.rs","src/decode/sections","src/decode/types"],
 [("per-field error enums with From<io::Error>/source()","all decode functions"),("end of input recognised only at a section boundary","src/decode/module.rs")],
 ["Err returned by decode_module, walked through source()"])
p("C03","A truncated module is never taken for a complete one",
 "When input ends, decoding succeeds exactly if the bytes delivered so far are a complete well-formed module. Otherwise it fails with an error that reports the end of input, or a section-size, entry-size or section-count mismatch that the missing bytes cause.",
 ["crash_points","inputs"],"all well-formed modules and all cut positions, including files that grow again after the end was seen",
 "The tests truncate a handful of fixed inputs; a module has as many cut positions as bytes and the few legal ones are decided by cross-section state.",
 ["src/decode/module.rs","src/decode/module.rs"],
 [("end of input accepted only where a section id is expected","src/decode/module.rs"),("cross-section counts checked at the end","src/decode/module.rs")],
 ["Ok/Err of decode_module, error chain"])
p("C04","No input and no reader behaviour brings the process down",
 "For any bytes and any behaviour of the reader, decoding ends and returns a value: it never panics by itself, never overflows, aborts or loops. Every returned module can be rendered and dropped, and every error renders as non-empty text with a finite cause chain.",
 ["inputs","fault_sequences","schedules"],"all byte strings, delivered in any way, ending or failing anywhere",
 "Tests use valid modules and about thirty malformed ones; the panicking or aborting input is by definition one nobody listed.",
 ["src/decode/module.rs","src/decode/integer.rs","src/decode","src/decode/instructions.rs","src/decode/sections","src/decode/types"],
 [("checked conversions, errors instead of panics","whole crate"),("bounded preallocation","src/decode/helpers.rs")],
 ["process status, decode result, Debug/Display of it"])
p("C05","Memory is bounded by what was actually delivered",
 "The memory decoding holds at any moment is at most 2 MiB plus 512 bytes per byte the reader delivered, whatever lengths and counts the input declares. Everything is released when the result is dropped, whether decoding succeeded, failed or panicked.",
 ["inputs","fault_sequences"],"all inputs, in particular all declared lengths and counts larger than the data behind them, and all points where the input ends or fails",
 "Tests never measure memory and contain no inflated length.",
 ["src/decode/helpers.rs","src/decode/helpers.rs","src/decode/sections/code.rs","src/decode/instructions.rs"],
 [("capacity capped before elements are decoded","src/decode/helpers.rs decode_list"),("byte strings read through take + read_to_end","src/decode/helpers.rs, src/decode/sections")],
 ["global allocator counters around decode_module"])
p("C06","Concurrent and nested decodes do not influence each other",
 "Decodes that run at the same time on different threads, in any interleaving, and a decode started from inside another decode's reader, each give exactly the result they give alone, whenever that result is looked at, and none of them waits for the input of another one. Nothing is shared between calls.",
 ["schedules","histories","inputs"],"all sets of inputs, all interleavings at read calls and at allocations in between, all nesting points, including decodes that fail or panic",
 "Tests run each decode alone; no test interleaves two.",
 ["src/decode/module.rs","src/decode/module.rs","src/decode/instructions.rs"],
 [("all state on the stack of the call","src/decode/module.rs decode_module")],
 ["results of the individual decode_module calls"])
p("C07","Reading is linear, bounded and drains the input",
 "Decoding makes at most a constant number of read calls per delivered byte (at most 4 per byte plus 256), stops within a few calls once input has ended or failed, and consumes each byte once. It returns success only after the reader has reported end of input with every byte consumed.",
 ["inputs","schedules","fault_sequences"],"all inputs and delivery schedules, including one byte per call, interruption storms, and readers that fail forever",
 "Tests do not count read calls; a quadratic or endless reading pattern shows only for particular inputs.",
 ["src/decode/module.rs","src/decode/module.rs","src/decode/helpers.rs"],
 [("single forward pass over the reader","src/decode/module.rs"),("loop ends only at end of input","src/decode/module.rs")],
 ["calls received by the reader"])
p("C08","Section and code-entry framing is exact",
 "A declared section size, or code entry size, that differs by even one byte from what the content needs is reported as a size mismatch (or as the end of the enclosing data when it runs out), naming the section and the declared and actual byte counts. When the framing is right, the list of section headers the module records has exactly the kinds, sizes and order delivered.",
 ["inputs","fault_sequences"],"all modules and all corruptions of sizes, counts and lengths, lost, duplicated or surplus bytes, at every framing level",
 "Tests cover one or two mismatches for a few sections; the space is every field of every section times every deviation.",
 ["src/decode/module.rs","src/decode/module.rs","src/decode/sections/code.rs"],
 [("payload limited by Read::take, remainder compared","src/decode/module.rs"),("entry size compared with consumption","src/decode/sections/code.rs")],
 ["Module.section_headers, parsed_section_kinds, error chain"])
p("C09","Section order, uniqueness and identity are enforced",
 "A module decodes only if its non-custom sections appear at most once each and in the prescribed order. Any swap, duplication or unknown section id is reported as such, naming the sections involved, and the recorded list of section kinds equals what was delivered.",
 ["inputs","histories"],"all sequences of sections, including those made by duplicating, swapping, moving or relabelling sections of a valid module",
 "Tests check a few pairs; there are 13 kinds and every ordered pair, with custom sections in between, matters.",
 ["src/decode/module.rs","src/decode/module.rs"],
 [("ordering and duplicate check against the previous sections","src/decode/module.rs")],
 ["error chain, Module section kinds"],
 [("sections seen so far","decides order and duplicates","src/decode/module.rs")])
p("C10","Cross-section counts always agree in an accepted module",
 "In every accepted module the number of code bodies equals the number of declared functions, the number of data segments equals a present data count, and code that refers to a data segment is preceded by a data count. Any disagreement, including an entirely missing section, is reported as that disagreement, with the two counts.",
 ["inputs","fault_sequences","histories"],"all combinations of present, absent, shortened or lengthened function, code, data count and data sections",
 "Tests check single examples of each mismatch, not the combinations or where in the code the data reference is.",
 ["src/decode/module.rs","src/decode/sections/code.rs","src/decode/instructions.rs"],
 [("counts compared after the last section","src/decode/module.rs"),("data references tracked while decoding code","src/decode/instructions.rs, src/decode/module.rs")],
 ["Ok/Err of decode_module, Module contents"],
 [("data-index flag","whether code referred to a data segment","src/decode/module.rs, src/decode/sections/code.rs")])
p("C11","Damaged input is never decoded into something else",
 "Whatever damage the stored bytes suffered, an accepted module is exactly what the delivered bytes say under the WebAssembly binary format, in every component; bytes that are not a well-formed module are rejected. Nothing is repaired, skipped, reordered or invented.",
 ["fault_sequences","inputs"],"all modules under bit flips, torn, lost, misdirected, duplicated or zeroed blocks, rewritten fields and recomputed sizes",
 "Tests assert on undamaged modules and a few hand-written errors; damage that yields another acceptable byte string is what they never see.",
 ["src/decode/module.rs","src/decode","src/decode/sections","src/decode/types","src/decode/instructions.rs"],
 [("one decoder per production of the grammar","src/decode/sections, src/decode/types, src/decode/instructions.rs")],
 ["Module contents, Ok/Err"])
p("C12","Integers, floats, names and byte strings are exact or rejected",
 "Every number, name and byte string in an accepted module has exactly the delivered value: all encodings of an integer within its width are accepted and mean the same, NaN payloads and signs survive, names are exactly the delivered valid UTF-8. Over-long, out-of-range or badly encoded ones are rejected and not truncated, wrapped or replaced.",
 ["inputs","fault_sequences"],"all values and encodings at every place of a module, damaged at the byte level (padding, sign bits, continuation bits, UTF-8 bytes, NaN bits)",
 "Unit tests of the integer decoders sample some values; not the places where each width is used nor damage near the width limits.",
 ["src/decode/integer.rs","src/decode/helpers.rs","src/decode/helpers.rs","src/decode/instructions.rs","src/decode/types"],
 [("width-checked LEB128","src/decode/integer.rs"),("floats from bit patterns","src/decode/helpers.rs"),("UTF-8 validation","src/decode/helpers.rs")],
 ["Module contents, Ok/Err and class of error"])
p("C13","Instruction sequences are exact or rejected",
 "Every instruction of an accepted function body, constant expression or initialiser, with its immediates and nesting, is the one delivered, in order. Unknown opcodes, illegal markers or immediates and unbalanced blocks are rejected.",
 ["inputs","fault_sequences"],"all opcodes in all prefix spaces, immediates and nestings, intact or with damaged instruction bytes",
 "Fixtures contain a small part of the more than 500 instructions, mostly once and undamaged.",
 ["src/decode/instructions.rs","src/decode/helpers.rs","src/decode/sections/code.rs"],
 [("opcode dispatch","src/decode/instructions.rs"),("block nesting by recursive sequence decoding","src/decode/instructions.rs")],
 ["Module function bodies and expressions, Ok/Err"])
p("C14","An error points at the fault",
 "The error for a malformed module names the section (or the preamble) the first malformed byte belongs to and, for faults within lists, the positions on the path to it, and shows the offending value where one exists. Its cause chain is finite and reads from the outermost context to the root cause: the last cause is what actually went wrong (the value and why it is refused, or that the input ended).",
 ["inputs","fault_sequences"],"all modules with faults anywhere, delivered in any way",
 "Tests compare complete errors for some thirty inputs; attribution can be wrong for any field of any entry.",
 ["src/decode/module.rs","src/decode/helpers.rs","src/decode/sections","src/decode/instructions.rs","src/decode/types"],
 [("context added by each decoding layer","src/decode/module.rs, src/decode/helpers.rs (position), src/decode/sections")],
 ["Display of the error and of each source()"])
p("C15","Custom sections are opaque, kept in order and harmless",
 "Custom sections anywhere between other sections, with any valid UTF-8 name and any content, are recorded with exactly the delivered name and bytes, in order, and do not change anything else about the decoded module. Damage inside their content changes only that content; damage to their name or size is reported as a custom section fault.",
 ["inputs","fault_sequences"],"all placements, names, sizes and contents of custom sections, and damage to them",
 "Tests have a few custom sections at one or two places.",
 ["src/decode/module.rs","src/decode/sections/custom.rs","src/decode/module.rs"],
 [("custom sections exempt from order and uniqueness","src/decode/module.rs"),("rest of payload kept as bytes","src/decode/sections")],
 ["Module.custom_sections and all other contents"])
p("C16","The command line tool's exit status is the truth",
 "The tool exits with status 0 exactly if the input could be opened and read completely, is a well-formed module, and whatever was to be printed on standard output was written completely. Short, slow or interrupted reads and writes, the clock and the environment do not change that, and no I/O failure makes it end by a signal.",
 ["fault_sequences","inputs","configurations"],"all inputs, from a path or standard input, verbose or not, with open, read and write failures, short and interrupted calls at any point",
 "The CLI has no test with a failing system call.",
 ["wadec-cli/src/main.rs"],
 [("abort() on open or decode failure","wadec-cli/src/main.rs"),("println! panics when stdout fails","wadec-cli/src/main.rs")],
 ["exit status of the process"])
p("C17","The command line tool reports every cause and nothing else",
 "On success the tool prints nothing, or with the verbose option the decoded module in full on standard output and nothing on standard error. On failure it prints nothing on standard output, and on standard error the error and each of its causes in order down to the operating system's own message, with the verbose option also the error's debug form.",
 ["fault_sequences","inputs","configurations"],"all inputs and read/open failures, any splitting or interruption of the tool's writes",
 "No test looks at the tool's output under faults.",
 ["wadec-cli/src/main.rs"],
 [("loop over source()","wadec-cli/src/main.rs abort")],
 ["standard output and standard error of the process"])
p("C18","A failed or panicked decode leaves nothing behind",
 "After any number of decodes that failed, were cut short or were unwound by a panicking reader, the next decode in the same process gives exactly the result it gives in a fresh process, and no memory is lost.",
 ["histories","fault_sequences"],"all sequences of failing decodes, failing at any point, followed by any decode",
 "Tests never decode again after an aborted decode and compare.",
 ["src/decode/module.rs","src/decode","src/decode/instructions.rs"],
 [("no state outside the call","whole crate")],
 ["results of successive decode_module calls, allocator counters"])
p("C19","Every well-formed module is accepted and means what it says",
 "Every well-formed module whose bytes are delivered completely, in whatever pieces and with whatever interruptions, is accepted and decodes to exactly the structure the WebAssembly 3.0 binary format assigns to its bytes: no legal encoding, length, count, nesting, order or combination of constructs is refused or misread.",
 ["inputs","schedules","fault_sequences"],"all well-formed modules, including rare encodings and large ones, and all splittings and interruptions of their delivery",
 "Fixtures are samples of the space of modules and are read in one piece; a legal construct no fixture contains may be refused unnoticed.",
 ["src/decode/module.rs","src/decode","src/decode/sections","src/decode/types","src/decode/instructions.rs","src/decode/integer.rs","src/decode/helpers.rs"],
 [("one decoder per production of the grammar","src/decode/sections, src/decode/types, src/decode/instructions.rs")],["Ok/Err of decode_module, Module contents"])
p("C20","An error about an illegal marker shows it and what would have been legal",
 "The error for an illegal discriminating byte (section id, type form, mutability, limits, import or export kind, tag attribute, reserved byte, element kind, catch clause, cast flags) shows the offending byte as delivered and exactly the set of bytes its production knows: none missing, none that would have been refused.",
 ["inputs","fault_sequences"],"all places with a discriminating byte and all illegal values storage damage can put there, however delivered",
 "Tests check the text for a few places and single values.",
 ["src/decode/types","src/decode/sections","src/decode/instructions.rs","src/decode/module.rs"],
 [("InvalidMarkerByteError-style variants listing the alternatives","src/decode/types, src/decode/sections")],["Display of the error and its causes"])
p("C21","An error names the part of the production that is at fault",
 "The cause chain of an error says, in order from the outside in, which part of each enclosing production the first malformed (or missing) byte belongs to: the module or item name of an import, parameters or results, minimum or maximum, alignment, memory index or offset, which index space, length or elements of a list, the group of the instruction, locals, offset expression, and so on. No label is swapped with a sibling's, dropped or attached to a neighbouring field.",
 ["inputs","fault_sequences","crash_points"],"all fields of all productions, damaged, cut short or hit by a reader failure",
 "Nearly every one of several hundred fields has its own error label; tests look at about thirty.",
 ["src/decode/types","src/decode/sections","src/decode/instructions.rs","src/decode/helpers.rs","src/decode/indices.rs"],
 [("per-field error variants and map_err at each call","src/decode (all modules)")],["Display of the error and of each source()"])
p("C22","Comparing or printing decoded modules shows every difference",
 "Two decoded modules compare equal exactly if their contents are the same (a module that contains a NaN need not equal itself, and the two zeros count as one), and their debug texts, compact or pretty, are the same exactly if the contents are, apart from NaN payloads. The same goes for every public part of them, and a clone of a part is that part. No difference between two copies, in any component, escapes a comparison or an inspection, and the way a copy was delivered makes none.",
 ["inputs","fault_sequences","schedules"],"all pairs of a module and a copy of it that storage changed into another well-formed module, or delivered differently",
 "Tests compare modules with one expected value each; that some pair of different modules is told apart says nothing about the component where the next two differ.",
 ["src/core/module.rs","src/core/mod.rs","src/core/custom_section.rs","src/core/instruction.rs","src/core/types","src/core/indices.rs"],
 [("derived PartialEq and Debug on every type of the module","src/core")],["==, {:?} and {:#?} of Module"])
p("C23","A fault is reported without waiting for what follows",
 "Decoding never needs or consumes a byte beyond the field that shows the fault. If the sender stalls, breaks or disappears right behind the first malformed field, the decoder still returns that diagnosis, and whatever follows in the stream is left unread.",
 ["fault_sequences","schedules","inputs"],"all malformed modules, with the stream stalling, failing or unwinding at any point behind the fault, in any splitting",
 "Tests hand over complete buffers, where reading ahead costs nothing and cannot be seen.",
 ["src/decode/module.rs","src/decode/helpers.rs","src/decode/integer.rs","src/decode/sections","src/decode/instructions.rs"],
 [("every field read exactly, byte by byte","src/decode/integer.rs, src/decode/helpers.rs"),("checks made as soon as a field is read","src/decode")],["what decode_module returns, and what it consumed from the reader"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

checks=[]
note={
"C06":"Interleavings are explored at read calls, at allocations inside the decoder, at lock waits and at seeded edges of the decoder's control flow (wadec built with sancov trace-pc by sim/edges.sh). A race whose window is a few edges wide and needs the other thread to cross a whole section meanwhile can be missed; effects of weak memory ordering are not simulated.",
"C16":"The real binary runs; open/read/write on input, stdout and stderr are answered by the seeded shim. Expected outcome from the reference model.",
"C17":"As C16; expected texts from the library run in-process under the same plan.",
}
for x in P:
    i=x['id']
    checks.append(dict(property=i,quick_cmd=f"bash run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
      technique="deterministic simulation with fault injection: seeded search over "+{
       "C01":"delivery schedules","C02":"reader failures","C03":"cut points","C04":"storage and reader faults","C05":"storage and reader faults with allocator accounting","C06":"thread interleavings and nested decodes","C07":"delivery schedules, counting calls","C16":"system-call faults of the CLI","C17":"system-call faults of the CLI","C18":"histories of failed decodes","C19":"delivery schedules and interruptions over generated modules, refinement against an executable reference model","C20":"storage faults on discriminating bytes, against the reference grammar's marker sets","C21":"storage faults, cut points and reader failures per field, against the labels of the reference grammar","C22":"pairs of replicas with storage faults and delivery schedules, against the reference model's equality","C23":"stalled and failing senders behind storage faults"}.get(i,"storage faults, against an executable reference model"),
      level="exploration",
      level_note=note.get(i,"Seeded sampling of simulated executions of the real library; a violation is replayable from one file, absence of violations is evidence and not proof.")+" Trusts sim/src/model.rs as the statement of the binary format and std::io's Read contract."))
m=dict(version=1,setup_cmd="bash run.sh build",checks=checks,not_applicable=[],notes="No hooks in /repo: the seams are std::io::Read (library), the system-call boundary (CLI, LD_PRELOAD shim) and the global allocator of the harness. known_findings.txt lists recorded defects and fixes.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
