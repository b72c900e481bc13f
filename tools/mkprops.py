import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
TOOL=["tool/main.cpp","tool/ConfigFile.cpp","tool/ResultFile.cpp","tool/Path.cpp","tool/Base64.cpp","lib/src/Converter.cpp","lib/src/VertexValue.cpp"]
LIB=["lib/src/Converter.cpp","lib/include/VFC/Converter.h","lib/src/VertexValue.cpp","lib/include/VFC/VertexValue.h","lib/src/VertexFormat.cpp","lib/include/VFC/VertexFormat.h","lib/include/VFC/IndexData.h"]
p("C01","Exit status 0 of the vfc tool is never a lie",
 "Whenever the vfc tool exits with status 0 after being given an input, stdout holds exactly one complete JSON result, every data file it names lies in the output directory (or is embedded as base64 when no output directory was given) and holds exactly the converted vertices or indices that the result describes, and formats, offsets, strides, counts, base vertices and min/max bounds are all the correct conversion of the input bytes. This holds whatever I/O operation of the run failed or was cut short: lost or short writes, a full disk, errors reported only when a file is closed or stdout is flushed, failing allocations.",
 ["inputs","fault_sequences"],"Every configuration and data file accepted by the tool, and every sequence of failing or partial system calls (open, read, write, close, mkdir, stdout) and failing allocations during the run.",
 "The functional tests run two fixed conversions on a healthy filesystem; no test makes a single I/O operation fail, so every path where a failure is noticed late (close, flush) or not at all is unexercised.",
 TOOL,[("stream state checks after writing","tool/main.cpp writeFile"),("empty result string means failure","tool/main.cpp writeOutput, main"),("error message and exit status 1","tool/main.cpp main"),("JSON rendering of the result","tool/ResultFile.cpp resultFile")],
 observe=["exit status","stdout","files in the output directory"])
p("C02","Every failing vfc run ends cleanly with status 1 and a diagnostic",
 "When a system call that the tool needs fails, or the command line, configuration or a data file is missing, malformed, truncated, unreadable, a directory, out of range or inconsistent, the tool exits with status 1, writes a diagnostic to stderr and does not print a usable result on stdout. It never crashes, never ends by an uncaught exception or a signal, and never hangs, and a valid run on a working filesystem always exits 0.",
 ["inputs","fault_sequences"],"Every command line, configuration text and data file, valid or not, and every single or multiple system-call failure at any point of the run.",
 "ConfigFile tests cover one hand-written example per message and none of the tool's runs can fail; read errors, directories given as files and late write errors never happen in a test.",
 TOOL,[("message then false for each rejected member","tool/ConfigFile.cpp"),("openness and stream state checks","tool/main.cpp loadData, writeFile"),("argument checks","tool/main.cpp main"),("validation of streams and indices","lib/src/Converter.cpp addVertexStream, convert")],
 observe=["exit status","stderr","stdout","termination by signal"])
p("C03","How the kernel chunks I/O never changes the tool's outcome",
 "The exit status, the bytes on stdout and the contents of every output file depend only on the bytes of the configuration and data files, not on how reads and writes are split: short reads, one byte at a time from a pipe on stdin, short writes to files and to stdout, or output that already existed with other, longer or shorter contents. A run under any such benign splitting is byte-identical to a run where every call transfers all it was asked to.",
 ["inputs","schedules","fault_sequences"],"Every valid or invalid job, delivered by file or stdin, and every legal splitting of each read and write call, over every prior content of the output directory.",
 "The functional tests read small local files and write to fresh directories, where the kernel never transfers less than requested.",
 TOOL,[("iterator-driven reading until EOF","tool/main.cpp loadData; tool/ConfigFile.cpp ConfigFile::load"),("buffered stream writing with truncation on open","tool/main.cpp writeFile")],
 observe=["exit status","stdout","output files"])
p("C04","A killed run leaves nothing a rerun cannot repair, and no early result",
 "If the tool is killed at any instant, a complete result is on stdout only if every file it names was already completely written; inputs are intact. Running the same command again afterwards, over whatever the killed run (or a power loss that tore or lost its unsynced output) left behind, succeeds and produces exactly the result and the files of an undisturbed run, with no stale bytes left in any file the result names.",
 ["crash_points","inputs","histories"],"Every job, every kill point between two system calls or in the middle of a write, repeated kills, every torn, lost or stale state of the output files left behind, followed by a rerun.",
 "No test stops the tool part-way or runs it over leftovers of an earlier run.",
 ["tool/main.cpp"],[("result printed after all files are written","tool/main.cpp main, writeOutput"),("output files opened with truncation","tool/main.cpp writeFile"),("existing directories accepted","tool/main.cpp mkdirRecursive")],
 observe=["stdout at the kill point","output directory","rerun's status, stdout and files"])
p("C05","A run modifies only its own output directory, and only once it can succeed",
 "The tool never creates, changes (contents or permissions), truncates or removes anything except the output directory, its missing ancestors, and its own result files inside it; inputs are never modified unless they are themselves those result files, and nothing at all is written to disk when no output directory is given. A run that is rejected because of its command line, its configuration or its data (anything that can be known from the inputs) creates no file and leaves every existing file byte-for-byte as it was, including results of an earlier run in the same output directory.",
 ["inputs","fault_sequences","histories"],"Every job (valid or rejected), every failing input operation, every prior content of the filesystem and the output directory.",
 "The functional tests only look at the files they expect to be written; nothing checks what else was touched, nor the state after a rejected run.",
 ["tool/main.cpp","lib/src/Converter.cpp"],[("all inputs are read, then converted, before the first output file is opened","tool/main.cpp main"),("fixed result file names joined to the output directory","tool/main.cpp writeOutput")],
 observe=["all files and directories of the simulated filesystem before and after"])
p("C06","Concurrent vfc runs do not disturb one another",
 "Any number of vfc processes running at the same time, sharing input files and any ancestors of their (distinct) output directories, possibly created by several of them at once, each behave exactly as if run alone: same exit status, same stdout, same files. This stays true for the surviving runs when another one is killed or meets I/O errors.",
 ["schedules","inputs","crash_points"],"Every interleaving of the system calls of 2 to 4 processes, every choice of shared or nested output ancestors, with or without some of them being killed or failing.",
 "No test starts two processes at once; races on directory creation depend on an interleaving a test cannot choose.",
 ["tool/main.cpp"],[("EEXIST from mkdir accepted as success","tool/main.cpp mkdirRecursive"),("no shared scratch files","tool/main.cpp writeOutput")],
 observe=["each process's exit status, stdout and files"])
p("C07","Damaged or changing input files are rejected or converted as read",
 "When configuration, vertex or index files are corrupted, truncated, extended, replaced or mixed up on disk, before or while the tool reads them, the run either fails cleanly with status 1 or its result is exactly the correct conversion of the bytes it actually read. No content of any input file makes the tool read or write memory out of bounds, crash or hang.",
 ["inputs","fault_sequences","schedules"],"Every bit flip, truncation, torn or duplicated block, splice or swap of the input files, and every change of a file by another process between two of the tool's system calls.",
 "Data files in the tests are always intact; out-of-range indices and odd sizes are covered by a handful of fixed examples in the library tests only.",
 TOOL,[("size divisibility checks","tool/main.cpp setupConverter"),("index range check before any vertex is written","lib/src/Converter.cpp convert"),("count agreement between streams","lib/src/Converter.cpp addVertexStream"),("base64 validation","tool/Base64.cpp decode"),("JSON validation","tool/ConfigFile.cpp")],
 observe=["exit status","memory errors","stdout and files against the bytes delivered"])
p("C08","Any history of Converter calls gives what its accepted calls define",
 "For every sequence of calls on a Converter (construct, add vertex streams, set transforms, convert, query, move, in any order, with some calls invalid), each call succeeds or fails as documented, a rejected call reports an error through the error handler and changes nothing that any later call can observe, and conversion succeeds at most once, also when the error handler itself uses other converters. After a successful conversion the vertices, indices and per-element bounds are exactly those defined by the accepted streams and the last transform set for each element: every output vertex holds the transformed, format-converted value of its source vertex in every element, and the bounds are the componentwise minimum and maximum of the source values in use.",
 ["histories","inputs","configurations"],"Every finite history of API calls on one or several converters, with valid and invalid arguments, every vertex format, index type, primitive type, patch size and maximum index value.",
 "The unit tests are a few dozen fixed call sequences, nearly all of them valid; almost none continue after a rejected call.",
 LIB,[("argument and duplicate checks before state is changed","lib/src/Converter.cpp addVertexStream"),("element mapping by name","lib/src/Converter.cpp addVertexStream"),("checks at the start of convert","lib/src/Converter.cpp convert"),("bounds pass over all referenced values","lib/src/Converter.cpp convert"),("defaulted moves","lib/include/VFC/Converter.h")],
 state=[dict(name="element mapping",meaning="which accepted stream feeds each output element",where="Converter::m_elementMapping"),dict(name="agreed count",meaning="index or vertex count shared by all accepted streams",where="Converter::m_indexCount")],
 observe=["return values","error messages","getVertices, getIndices, getVertexElementBounds, getElementTransform"])
p("C09","A failed allocation or throwing error handler never corrupts a Converter",
 "If a memory allocation fails or the caller's error handler throws during any call on a Converter or VertexFormat, the exception reaches the caller, nothing leaks, nothing is read or written out of bounds, and the object can still be used and destroyed: the interrupted call has either taken full effect or none. A later successful conversion on it gives exactly what the calls that returned normally define, and repeating an interrupted call can still succeed.",
 ["fault_sequences","histories","inputs"],"Every history of API calls and every choice of allocations that fail or error-handler invocations that throw during it, followed by further calls or retries.",
 "No test makes an allocation fail or uses a throwing handler.",
 ["lib/src/Converter.cpp","lib/include/VFC/Converter.h","lib/src/VertexFormat.cpp"],[("ordering of state changes around operations that can throw","lib/src/Converter.cpp addVertexStream, convert"),("ownership by standard containers","lib/include/VFC/Converter.h")],
 observe=["exceptions reaching the caller","live allocations after destruction","results of later calls"])
p("C10","Splitting across index buffers loses, repeats or alters no primitive",
 "Whatever the maximum index value, drawing all output index buffers in order (each with its base vertex, honouring primitive restart) yields exactly the primitives of the input in the same order, each with the same corner values and orientation, for every primitive type, with restarts, repeated vertices and degenerate primitives anywhere. Every index is at most the maximum index value and refers to an existing vertex, byte-identical vertices within one index buffer share one index, and no new buffer is started while the current one still has room for another primitive made entirely of new vertices.",
 ["inputs","configurations","histories"],"Every index sequence, restart placement, duplication pattern, primitive type, patch size, index type and maximum index value, in particular every position of a buffer change relative to strips, fans and restarts.",
 "The tests fix five small meshes with maximum index 3 to 6; the state at a buffer change (how many corners are pending, where the last restart was, which vertices repeat) takes many more values.",
 ["lib/src/Converter.cpp","lib/include/VFC/IndexData.h"],[("room check before each primitive","lib/src/Converter.cpp convert"),("copying the connected vertices into the next buffer","lib/src/Converter.cpp copyConnectedVertices"),("vertex de-duplication","lib/src/Converter.cpp addVertex"),("restart bookkeeping","lib/src/Converter.cpp convert")],
 state=[dict(name="last restart position",meaning="index after which the current strip or fan started",where="Converter::convert lastRestartIndex"),dict(name="vertex set",meaning="vertices of the current index buffer",where="Converter::convert vertexSet")],
 observe=["getIndices","getVertices","getVertexCount"])
p("C11","Converters used from different threads are independent",
 "Distinct Converter, VertexFormat and VertexValue objects may be used from different threads at the same time without any synchronisation by the caller. Under every interleaving each gives exactly the results and error messages it gives alone, and the library makes no unsynchronised accesses of its own to memory shared between them.",
 ["schedules","inputs","histories"],"Every interleaving, at the granularity of single memory accesses, of 2 to 4 threads each running its own history of calls on its own objects, including input buffers shared read-only between threads.",
 "All tests are single-threaded.",
 LIB,[("no mutable global or function-local static state","lib/src/Converter.cpp, lib/src/VertexFormat.cpp, lib/src/VertexValue.cpp"),("constant name tables built before main","lib/src/VertexFormat.cpp")],
 observe=["results of every call per thread","data races"])
p("C12","Const queries on shared objects are safe from many threads",
 "Once a Converter has finished converting, or a VertexFormat or VertexValue has been built, any number of threads may call its const member functions, the name look-up functions and the format validation functions at the same time. Every call returns what it returns when made alone, and no const call writes to shared memory without synchronisation.",
 ["schedules","inputs"],"Every interleaving, at the granularity of single memory accesses, of 2 to 4 threads querying the same objects and name tables, or using one shared VertexFormat to build their own converters.",
 "All tests are single-threaded.",
 ["lib/include/VFC/Converter.h","lib/src/Converter.cpp","lib/src/VertexFormat.cpp","lib/include/VFC/VertexFormat.h","lib/src/VertexValue.cpp"],[("const accessors without caches","lib/include/VFC/Converter.h, lib/include/VFC/VertexFormat.h"),("immutable look-up tables","lib/src/VertexFormat.cpp")],
 observe=["results of every query per thread","data races"])
p("C13","Results depend on nothing but the inputs",
 "The same job gives byte-identical vertices, indices, bounds and result text in every run: whatever the heap and stack contained before, wherever memory is placed, whatever conversions the process did earlier, whatever environment variables, working directory or leftover files the tool meets, and whether a data buffer is embedded or read from a file. No byte of any output comes from uninitialised or unrelated memory.",
 ["configurations","histories","inputs"],"Every job, under every content and placement of recycled memory, every earlier history of the process, and every process environment.",
 "Each test runs once in a fresh process, where recycled memory is almost always zero.",
 LIB+["tool/main.cpp","tool/ResultFile.cpp"],[("zero-initialised combined vertex","lib/src/Converter.cpp convert"),("hash and comparison over vertex bytes only","lib/src/Converter.cpp VertexRef, VertexHash"),("values always fully assigned","lib/src/VertexValue.cpp fromData")],
 observe=["all output bytes of two or more runs of the same job"])
# not applicable (pure functions)
p("C14","Element encoding is the nearest representable value",
 "Reading an element and writing it in another layout and type gives the representable value nearest to the source value, saturating at the limits of the destination, for all layout and type combinations and all values.",
 ["inputs"],"Every value of every element format pair.","Tests sample a few values per layout.",
 ["lib/src/VertexValue.cpp","lib/src/HalfFloat.cpp"],[("pack and unpack templates","lib/src/VertexValue.cpp")],observe=["VertexValue::fromData, toData"])
p("C15","Name look-ups are total, case-insensitive and round-trip",
 "Every layout, type and primitive name maps back to its enumerator in any letter case, both spellings of a layout name are accepted, and any other string gives Invalid.",
 ["inputs"],"Every string.","Tests check the listed names only.",
 ["lib/src/VertexFormat.cpp"],[("look-up maps","lib/src/VertexFormat.cpp")],observe=["elementLayoutFromName and friends"])
p("C16","Base64 decoding inverts encoding and rejects everything else",
 "Decoding an encoded buffer returns the buffer, and any string that is not valid padded base64 is rejected.",
 ["inputs"],"Every byte buffer and every string.","Tests check a few strings.",
 ["tool/Base64.cpp"],[("encode and decode","tool/Base64.cpp")],observe=["base64::encode, decode"])
p("C17","Path functions compose: joining a parent and a file name gives the path",
 "For every path, the parent directory joined with the file name denotes the same file, and absolute right operands replace the left one.",
 ["inputs"],"Every string.","Tests check a few paths.",
 ["tool/Path.cpp"],[("separator search","tool/Path.cpp")],observe=["path::join, getParentDirectory, getFileName"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
