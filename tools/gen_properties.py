#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
IH=["ihex32/hex.go","ihex32/record.go"]; SR=["srec19/hex.go","srec19/record.go"]

p("C01","Intel-HEX files decode to exactly the bytes and addresses they describe",
 "For every well-formed 32-bit Intel-HEX file, reading it succeeds and yields exactly one entry per data byte, at the address formed by the most recent extended-linear-address record before it (0 if none) as upper 16 bits plus the record's 16-bit address plus the byte's index, with the byte's value, and nothing else. Upper and lower case hex digits, several extended-linear-address records in any order (including a return to 0000), records of any length (also empty ones), Unix and DOS line ends and a final end-of-file record are all handled.",
 ["inputs","configurations"],"all well-formed record sequences (types 00, 01, 04, 05), all addresses, all data bytes, all worker counts",
 "The test reads one demo file and only compares the number of bytes; it never looks at an address or a value.",
 IH,[("record splitting, offset propagation, address computation","ihex32/record.go: parseRecord, addOffsets, calcDataEntries"),("work splitting over goroutines","ihex32/hex.go: parseHex")],
 ["ihex32.ParseFromFile","ihex32 parseHex"])
p("C02","A corrupt Intel-HEX record is always reported, never silently dropped",
 "Whenever a record of an Intel-HEX file has a wrong checksum, a character that is not a hex digit, a byte count that does not match its data, or a missing start colon, reading the file returns an error. It never returns success with that record, or any other record of the file, missing or altered.",
 ["inputs","configurations"],"every position of the corrupt record in the file, every corrupted character and value, every worker count",
 "No test feeds a corrupt record; the fuzz target ignores the outcome.",
 IH,[("checksum validation","ihex32/record.go: validateChecksum, validateChecksumsRoutine"),("error propagation from workers","ihex32/hex.go: parseRecordRoutine, parseHex")],
 ["ihex32.ParseFromFile","ihex32 parseHex"])
p("C03","Motorola S-record files decode to exactly the bytes and addresses they describe",
 "For every well-formed S-record file with 32-bit data records, reading it succeeds and yields exactly one entry per data byte of the S3 records, at the record's 32-bit address plus the byte's index, with the byte's value, and nothing else. Header, count and termination records (S0, S5, S7) contribute nothing and hide nothing, wherever they stand.",
 ["inputs","configurations"],"all well-formed record sequences (S0, S3, S5, S7), all addresses, all data bytes, all worker counts",
 "The test reads one demo file without header record and only compares the number of bytes.",
 SR,[("record splitting and address computation","srec19/record.go: parseRecord, calcDataEntries"),("work splitting","srec19/hex.go: parseHex")],
 ["srec19.ParseFromFile","srec19 parseHex"])
p("C04","A corrupt S-record is always reported, never silently dropped",
 "Whenever an S3 record of an S-record file has a wrong checksum, a character that is not a hex digit or a byte count that does not match its data, or a line does not start with S, reading the file returns an error. It never returns success with that record, or any other record of the file, missing or altered.",
 ["inputs","configurations"],"every position of the corrupt record, every corrupted character and value, every worker count",
 "No test feeds a corrupt record.",
 SR,[("checksum validation","srec19/record.go: validateChecksum, validateChecksumsRoutine"),("error propagation from workers","srec19/hex.go: parseRecordRoutine, parseHex")],
 ["srec19.ParseFromFile","srec19 parseHex"])
p("C05","Overlapping data in a hex file is rejected",
 "If two data bytes of a hex or S-record file describe the same 32-bit address, reading the file returns an error, wherever the two bytes stand and whether or not their values agree. If no two data bytes describe the same address, no such error is raised.",
 ["inputs","configurations"],"all pairs of records, all addresses, all overlap offsets, same or different extended-address segments, all worker counts",
 "No test contains overlapping records.",
 IH+SR,[("collision test while merging worker results","ihex32/hex.go, srec19/hex.go: parseHex")],
 ["ihex32.ParseFromFile","srec19.ParseFromFile"])
p("C06","Hex results do not depend on worker count or goroutine schedule",
 "The outcome of reading a hex or S-record file (the byte map, or that an error is returned) depends only on the file: it is the same for every number of processors and every interleaving of the worker goroutines. No interleaving deadlocks, panics, or makes two workers access the same memory without synchronisation.",
 ["schedules","configurations","inputs"],"all interleavings of the workers at synchronisation points (within the stated preemption bound), worker counts 1..4, all record contents",
 "The tests run under whatever schedule and processor count the machine happens to offer.",
 IH+SR,[("channels keep chunk order; wait groups; per-record mutex","ihex32/hex.go: parseHex; ihex32/record.go: addOffsets")],
 ["ihex32 parseHex","srec19 parseHex"],
 [dict(name="record.offset",meaning="upper address half, written concurrently",where="ihex32/record.go")])
p("C07","Every A2L object carries exactly its own mandatory values",
 "Every object declared in a module of a valid A2L file (characteristics, measurements, axis points, record layouts, conversion methods and tables, functions, groups, units, type definitions, instances, blobs, frames, transformers, variant coding, module parameters and so on) appears in the parsed module under its own identifier, and each of its mandatory parameters has exactly the value written at the corresponding position in the file. This holds for all identifiers, strings, decimal numbers and enumeration keywords.",
 ["inputs"],"all values of every mandatory parameter of every object kind",
 "Unit tests cover the keywords A.. to AXIS_DESCR with one hand-written value each; the demo test only counts a few objects.",
 ["a2l/module.go","a2l/*.go"],[("one parse function per keyword","a2l/*.go: parse*"),("routing into module maps","a2l/module.go: parseModuleMainLoop, collect*")],
 ["a2l.ParseFromFile","a2l parseA2l"])
p("C08","Every optional A2L keyword lands in its own field with its own value",
 "Whenever an optional keyword occurs inside an A2L object, the parsed object shows it as present with exactly the values written, whatever other optional keywords precede or follow it, and it changes no other field of that or any other object. Optional keywords that do not occur are shown as absent.",
 ["inputs"],"every optional keyword of every object kind, all parameter values, every order of two optional keywords",
 "Most optional keywords are never exercised by a test, and none in combination.",
 ["a2l/characteristic.go","a2l/measurement.go","a2l/axis_descr.go","a2l/axis_pts.go","a2l/record_layout.go","a2l/mod_common.go","a2l/mod_par.go","a2l/compu_method.go","a2l/*.go"],
 [("keyword switch in each object parser","a2l/*.go: parse*")],["a2l.ParseFromFile","a2l parseA2l"])
p("C09","Parallel A2L parsing neither loses, duplicates nor mixes up objects",
 "For every module and every number of worker goroutines, the parsed module contains every object declared in the file exactly once under its identifier, with the same contents as if the file had been parsed by one worker. This holds wherever the boundaries between the workers' parts fall and in whatever order the workers and collectors run.",
 ["configurations","schedules","inputs"],"all positions of the worker boundaries relative to the objects, worker counts 1..5, schedules within the preemption bound",
 "The demo test counts objects on one machine's processor count; a lost object at a boundary shows up only for particular token offsets.",
 ["a2l/module.go","a2l/token_generator.go"],[("token range split and per-worker start/stop rule","a2l/module.go: parseModuleMultithreaded, parseModuleMainLoop"),("collector goroutines per object kind","a2l/module.go")],
 ["a2l.ParseFromFile","a2l parseA2l"])
p("C10","A malformed value in an A2L file is an error, never a silent default",
 "If a mandatory parameter that must be a number or an enumeration keyword holds text that is neither a keyword of the language nor a valid number of that type (or is a number out of its range) or a known value of the enumeration, reading the A2L file returns an error. It never returns success with the value replaced by zero, a neighbour or a default.",
 ["inputs"],"every numeric or enumerated parameter position of every object kind, all invalid texts",
 "Tests only use valid values (a few negative cases for single keywords).",
 ["a2l/*.go","a2l/module.go"],[("error return of every parse function, passed up by every caller","a2l/*.go"),("worker error channel","a2l/module.go")],
 ["a2l.ParseFromFile","a2l parseA2l"])
p("C11","A truncated A2L file is always reported",
 "If an A2L file ends before the end of its project (cut anywhere inside the project, module or an object), reading it returns an error and terminates. It never returns success with a partially read object, module or project.",
 ["inputs","fault_sequences"],"every cut position in the token sequence of every object kind",
 "No test reads a truncated file.",
 ["a2l/*.go","a2l/token_generator.go"],[("empty-token check in every parse loop","a2l/*.go"),("end of token list","a2l/token_generator.go: next")],
 ["a2l.ParseFromFile","a2l parseA2l"])
p("C12","Text of an A2L file is split into tokens faithfully",
 "Reading an A2L text treats it as its sequence of words, in order: words are separated by any amount of blanks, tabs and line ends, a quoted string is one value including its inner blanks (a run of white space inside it counts as one blank), and block and line comments have no effect wherever a blank may stand, also directly next to a word or a quoted string. Texts without backslash escapes are meant, whose quotation marks stand at the begin and end of words. The result is independent of layout (line breaks, indentation, DOS or Unix line ends) and of the number of worker goroutines.",
 ["inputs","configurations"],"all short texts over the significant character classes, all positions of comments and quoted strings, worker counts 1..4",
 "The tests tokenise a handful of fixed texts.",
 ["a2l/token_generator.go"],[("chunked tokenizer","a2l/token_generator.go")],["a2l.ParseFromFile","a2l buildTokenGeneratorFromString"])
p("C13","Reading a calibration returns both parts or an error",
 "Reading an A2L and a hex file together returns either both complete results, exactly what reading each file alone yields, or an error; it never returns success with one part missing and never hangs. The hex file is read as Intel-HEX or S-record according to its .hex or .s19 extension in any letter case, and any other extension is an error.",
 ["schedules","inputs","fault_sequences"],"all combinations of success and failure of the two readers, all interleavings of the two readers, all extension spellings",
 "The test reads one valid pair; no failing combination is tried.",
 ["calib_data.go"],[("reader goroutines, channels and wait group","calib_data.go: ReadCalibration, readA2L, readHex")],["ReadCalibration"])
p("C14","Looking up an identifier returns exactly the objects of that name",
 "Looking up an identifier in read calibration data returns every axis-points object, characteristic, conversion method, conversion table (numeric, verbal, verbal range), function, group, measurement, record layout, system constant and unit declared under exactly that name in the selected module, each once and unchanged, and nothing else. The value retrieved for a system constant is the value declared for it, and an unknown name is reported as an error.",
 ["inputs"],"all identifiers, all combinations of object kinds sharing a name",
 "The test looks up a single name.",
 ["record_manager.go"],[("map lookups per kind","record_manager.go: GetObjectByIdent, getSystemConstant, getSystemConstantValue")],["CalibrationData.GetObjectByIdent"])
p("C15","Aligned addresses are the next multiple of the applicable border",
 "The address a value is read from is the smallest address not below the current position that is a multiple of the alignment border for its datatype. The border is the record layout's own one if given, otherwise the module's common one, otherwise the datatype's default (byte 1, word 2, long 4, 64-bit integer 8, float16 2, float32 4, float64 8).",
 ["inputs"],"all addresses, all datatypes, all borders from record layout and module, all combinations of them being present",
 "No test reaches the alignment code.",
 ["calib_data.go"],[("alignment rule","calib_data.go: getNextAlignedAddress")],["calib_data.go getNextAlignedAddress"])
p("C16","Raw bytes convert to the number they encode",
 "Bytes taken from the hex image convert to exactly the number they encode in the given datatype (unsigned, two's complement or IEEE float of its width) under the module's byte order. Too few bytes, an unsupported byte order or an unknown datatype give an error, never a number or a crash.",
 ["inputs"],"all byte values, all datatypes, all byte orders, all slice lengths",
 "No test reaches the conversion code.",
 ["record_manager.go","a2l/enums.go"],[("datatype switch","record_manager.go: convertByteSliceToDatatype, convertStringToUint32Address"),("datatype widths","a2l: GetDatatypeLength")],["record_manager.go convertByteSliceToDatatype"])
p("C17","Record-layout components are read from consecutive aligned positions",
 "Reading a component of a deposit structure takes the bytes at the aligned current position and moves the position to just behind the bytes it used, so that the next component, in the order of the declared positions, starts there; a list of axis points is read point by point in that way. If any needed byte is absent from the hex image, an error is returned.",
 ["inputs","histories"],"all positions, datatypes, alignments, hex images and component sequences",
 "No test reaches the deposit reading code.",
 ["calib_data.go","axis_pts.go","no_axis_pts.go","distOp.go","offsetOp.go","shiftOp.go","no_rescale_x.go","identification.go","reserved.go","fnc_values.go"],
 [("byte fetch and position bookkeeping","calib_data.go: getBytes, getValue; get* per component")],["getValue, getAxisPoints*, getNoAxisPts*, getOffset*, getShiftOp*, getDistOp*"])
p("C18","Conversion methods turn raw into physical values as declared",
 "Identical conversion returns the raw value, linear conversion returns A times raw plus B, a rational function is inverted (the physical value is one whose image under the declared function is the raw value), and table conversions (numeric without interpolation, verbal, verbal ranges) return the output of the first entry that matches the raw value, else the declared default, else an error. A missing table, missing coefficients or an unsupported conversion type is an error, never a number.",
 ["inputs"],"all raw values, coefficients, table contents and default settings",
 "No test reaches the conversion code.",
 ["compu_methods.go"],[("conversion switch and table search","compu_methods.go: convDecToPhy, calcTabVerb, calcTabVerbRange, calcTabNoIntp")],["compu_methods.go"])
p("C19","Record-layout positions and datatypes are reported faithfully",
 "For every record layout, the reported position table contains exactly the components present in the layout, each under the position declared for it, and a component's reported datatype is the one declared for it. Components that are absent are never reported, and two components with the same position are reported as an error.",
 ["inputs"],"every subset of up to three components, all positions and datatypes",
 "No test covers the position table.",
 ["a2l/record_layout.go"],[("position table, datatype by field name","a2l/record_layout.go: GetRecordLayoutRelativePositions, GetDatatypeByFieldName")],["RecordLayout.GetRecordLayoutRelativePositions","RecordLayout.GetDatatypeByFieldName"])
p("C20","Hex parsers never crash or hang, whatever the file contains",
 "Reading any file as Intel-HEX or S-record terminates with a result or an error; no content makes it panic or block forever.",
 ["inputs","schedules"],"all line sequences up to the stated line count and length, every character, worker counts 1..3",
 "The fuzz target only replays its seed in the test run.",
 IH+SR,[("length and character checks","ihex32/record.go, srec19/record.go: parseRecord, hexToByte")],["ihex32 parseHex","srec19 parseHex"])
p("C21","The A2L parser never crashes or hangs, whatever the token sequence",
 "Reading any A2L token sequence terminates with a result or an error; no sequence of keywords, values and block markers makes the parser panic or run forever.",
 ["inputs"],"inside every object kind: all sequences of arbitrary tokens up to the stated length, including premature ends",
 "Tests use well-formed sequences.",
 ["a2l/*.go"],[("token bounds in the generator, loop exits","a2l/token_generator.go, a2l/*.go")],["a2l parseA2l"])
p("C22","Enumeration keywords, their values, names and sizes agree",
 "Every enumeration keyword of the A2L language that the library knows is read as its own distinct value, the value prints back as a name of its own, and a datatype's reported kind and width fit each other and the encoding (signed, unsigned, float; 8 to 64 bits). Any other token in an enumeration position that does not begin or end an object or option is an error.",
 ["inputs"],"all tokens in every enumeration position",
 "Tests sample single keywords.",
 ["a2l/enums.go","a2l/data_size.go"],[("keyword switches and size tables","a2l: parse*Enum, String, GetDatatypeLength, GetType, GetDataSizeLength")],["a2l parse*Enum","DataTypeEnum.GetDatatypeLength"])
p("C23","Reading a file depends only on that file, not on earlier reads",
 "Reading an A2L, Intel-HEX or S-record file gives the same outcome no matter which files, valid or invalid, were read before in the same process. Several modules in one A2L file likewise do not influence each other: each contains its own objects only.",
 ["histories","inputs"],"all sequences of two reads, all contents within the stated bounds, up to three modules",
 "Tests never compare two reads in one process.",
 ["a2l/token_generator.go","a2l/project.go","a2l/module.go"],[("token list reset, per-module containers","a2l/token_generator.go, a2l/module.go")],["a2l.ParseFromFile","ihex32.ParseFromFile","srec19.ParseFromFile"],
 [dict(name="tokenList",meaning="package-level token list of the current read",where="a2l/token_generator.go")])
p("C24","A characteristic's values come from its own address, record layout and module",
 "The values read for a characteristic are the ones stored in the hex image at the characteristic's address, laid out as declared by the record layout that its deposit names in the selected module, with that module's byte order and alignments. A deposit that names no record layout there, an unusable address or conflicting positions give no values. From the text of both files to the values, nothing of another characteristic, layout or module is used.",
 ["inputs"],"all identifiers, all image bytes, both byte orders, start addresses of every alignment, with and without own borders, up to the stated number of axis points",
 "No test reads a value of a characteristic.",
 ["calib_data.go","axis_pts.go","record_manager.go"],[("layout lookup, start address, order of the components","calib_data.go: getRecordLayout, getValuesFromHex, getValue")],["calib_data.go getValuesFromHex","ReadCalibration"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
