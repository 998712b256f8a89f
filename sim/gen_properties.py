import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(d)
R="render/octree_renderer.go"
p("C01","A rendered mesh does not depend on how it is read",
 "Reading an octree renderer to its end yields the same multiset of triangles whatever buffer sizes the successive reads use, each surface triangle exactly once: none lost, none repeated, none altered. For a solid given by a distance field that never overestimates and that lies inside its bounds, the triangles form a closed surface facing outwards around the points inside.",
 ["inputs","histories"],"every SDF3, every mesh density, every sequence of positive read buffer sizes, including buffers smaller than the triangles of one cell",
 "Tests read one model with one large buffer; the leftovers kept between reads, partially processed queues and end-of-stream cases depend on the whole sequence of sizes.",
 [R,"render/io.go","render/marchingcubes.go"],[("work queue resumed between reads; triangles that do not fit are buffered","render/octree_renderer.go ReadTriangles/readTriangles/processCube"),("FIFO of leftover triangles","render/io.go TriangleBuffer")],
 ["Renderer.ReadTriangles"],[("todo","cells still to be processed",R),("unwritten","triangles produced but not delivered yet",R)])
p("C02","Multi-worker rendering equals single-worker rendering under every schedule",
 "Rendering a model with any number of worker goroutines delivers exactly the triangles of the single-worker rendering, for every interleaving of the workers and every sequence of read sizes. No interleaving deadlocks, runs for ever, panics or makes two workers access the same memory unsynchronised.",
 ["schedules","inputs","histories"],"every interleaving of the worker goroutines, every worker count, SDF3, density and sequence of read sizes",
 "The one multi-worker test compares counts on one model under whatever interleavings the machine happens to produce.",
 [R,"render/io.go"],[("work split by worker, private output ranges joined after a wait group","render/octree_renderer.go readTrianglesThreaded"),("goroutine-safe distance cache","render/octree_renderer.go dc3")],
 ["Renderer.ReadTriangles"],[("cache","memoised distances shared by the workers",R)],"the worker count is unexported; the build overlay adds a setter")
p("C03","Every single read of a renderer honours the Renderer contract",
 "Each read returns a count between 0 and the buffer length, has filled exactly that many leading elements with finite triangles of the model, touches nothing beyond the buffer, and never writes to it after returning. Reads make progress, the stream ends with io.EOF after a bounded number of reads, and further reads keep returning io.EOF without triangles.",
 ["schedules","inputs","histories"],"every SDF3, density, worker count, interleaving and sequence of read sizes, including reads after the end",
 "Tests only look at the concatenated result; a late write by a leftover worker, an overrun into spare capacity or an end of stream that is not sticky stays invisible.",
 [R],[("bounded sub-slices per worker, compaction of the results, EOF when queue and leftovers are empty","render/octree_renderer.go")],["Renderer.ReadTriangles"])
p("C04","RenderAll returns everything a renderer delivered, or its error",
 "For every conforming renderer - short reads, empty reads, triangles returned together with the final io.EOF, buffers reused or scribbled on later - RenderAll returns exactly the delivered triangles in order and a nil error. If the renderer fails with another error, RenderAll reports that error.",
 ["fault_sequences","histories","schedules"],"every sequence of (count, error) replies the renderer interface allows, and the octree renderer with any worker count and schedule",
 "Tests use one renderer which happens to return most triangles without an error.",
 ["render/io.go","render/render.go"],[("read loop","render/io.go RenderAll")],["render.RenderAll"])
p("C05","An STL export holds exactly the rendered triangles",
 "When CreateSTL returns nil the file is a binary STL whose header count, length and every triangle (order, vertices, unit normal) are exactly those the renderer delivered, whatever the file held before, however often the path was exported before, and however the operating system splits or interrupts the writes. Such benign behaviour never makes it fail.",
 ["fault_sequences","histories","inputs"],"every sequence of short writes, interrupted calls, earlier file contents, repeated exports and renderer read patterns",
 "Tests write one file to a healthy empty directory.",
 ["render/stl.go"],[("space for the header is skipped, triangles streamed, header written last","render/stl.go createSTL/stlReader.Read")],["file contents after CreateSTL"])
p("C06","CreateSTL never reports success for an incomplete file",
 "If any storage operation fails - open, seek, write, disk full, quota, or only when the file is closed - or the renderer fails at any point, CreateSTL returns an error; a nil result means the file is complete and exact. A renderer's own failure is recognisable in the returned error.",
 ["fault_sequences","histories"],"every placement of hard storage and renderer failures within every history of exports",
 "Tests never see a failing disk or a failing renderer.",
 ["render/stl.go"],[("errors of seek, copy, header write and close are returned","render/stl.go createSTL")],["render.CreateSTL result and file contents"])
p("C07","An interrupted STL export never passes for a finished model",
 "At every instant of an export at which the process or machine may die, and after every export that reported an error, the file is not a well-formed STL of some other triangle set: it is what was there before, the complete new model, or recognisably incomplete. Exporting again to the same path then succeeds and leaves the exact model.",
 ["crash_points","fault_sequences","histories"],"every crash instant including torn writes, every hard fault, every earlier content, followed by a restart",
 "No test interrupts an export.",
 ["render/stl.go"],[("the triangle count is written last","render/stl.go createSTL")],["file contents at every crash point"])
p("C08","WriteSTL writes the exact model or reports the writer's failure",
 "For every triangle list and every writer, WriteSTL either returns nil and has written exactly one well-formed STL of those triangles in order, or returns the error the writer reported, having written a prefix of that STL. A writer that accepts fewer bytes without an error never makes WriteSTL return nil.",
 ["fault_sequences","inputs"],"every triangle list and every sequence of writer replies: full, short, failing at any byte",
 "Tests write to a memory buffer only.",
 ["render/stl.go"],[("buffered copies with error checks","render/stl.go WriteSTL")],["render.WriteSTL"])
p("C09","Reading an STL gives the same triangles however the bytes arrive",
 "A well-formed binary STL is read back to exactly its triangles for every way its bytes are delivered: fragments of any size, empty reads, last bytes together with io.EOF, data following the model. A source that ends early or fails yields an error, never a shortened model with a nil error, and memory used stays proportional to the bytes delivered whatever count a damaged header claims.",
 ["fault_sequences","inputs"],"every fragmentation, truncation point and failure point of the byte stream",
 "Tests read from a memory buffer that delivers everything at once.",
 ["render/stl.go"],[("complete reads per record, count from the header","render/stl.go readBinarySTL")],["triangles and error returned"],None,"the reader is unexported; the build overlay adds an alias")
p("C10","A 3MF export holds exactly the rendered triangles",
 "When Create3MF returns nil the file is a readable 3MF package with all its parts, whose mesh is exactly the multiset of triangles the renderer delivered (to the precision written), each index referring to an existing vertex, whatever the file held before and however the operating system splits or interrupts the writes. Such benign behaviour never makes it fail.",
 ["fault_sequences","histories","inputs"],"every sequence of short writes, interrupted calls, earlier contents, repeated exports and renderer read patterns",
 "The test writes one model and does not compare the mesh.",
 ["render/3mf.go"],[("vertex table, XML encoding, zip packaging","render/3mf.go")],["file contents after Create3MF"])
p("C11","Create3MF never reports success for an incomplete package",
 "If any storage operation fails - open, write, disk full, quota, or only when the file is closed - or the renderer fails at any point, Create3MF returns an error; a nil result means the package is complete and exact. A renderer's own failure is recognisable in the returned error.",
 ["fault_sequences","histories"],"every placement of hard storage and renderer failures within every history of exports",
 "Tests never see a failing disk or renderer.",
 ["render/3mf.go"],[("errors of zip, encoder and close are returned","render/3mf.go Create")],["render.Create3MF result and file contents"])
p("C12","An interrupted 3MF export never passes for a finished model",
 "At every instant of an export at which the process or machine may die, and after every export that reported an error, the file cannot be opened as a 3MF package holding some other mesh: it is what was there before, the complete new package, or unreadable. Exporting again to the same path then succeeds.",
 ["crash_points","fault_sequences","histories"],"every crash instant including torn writes, every hard fault, every earlier content, followed by a restart",
 "No test interrupts an export.",
 ["render/3mf.go"],[("the zip directory is written last","render/3mf.go Create")],["file contents at every crash point"])
p("C13","No descriptor or goroutine outlives the call that created it",
 "Whatever fails and at whatever point a reader is abandoned, after each export or read returns no file descriptor it opened is still open and no goroutine it started is still running.",
 ["fault_sequences","histories","schedules"],"every history of exports and partial reads under every fault placement and schedule",
 "Tests neither fail an operation nor count descriptors and goroutines.",
 ["render/stl.go","render/3mf.go",R],[("deferred closes; wait group","createSTL, model.Create, readTrianglesThreaded")],["descriptor table, goroutine count"])
p("C14","SDFs can be evaluated concurrently and keep no history",
 "Evaluating any SDF the library constructs returns for each point the same value whether evaluated alone, in another order, repeatedly, or by any number of goroutines at once under every interleaving, while others render it. No two evaluations access memory unsynchronised, and none panics.",
 ["schedules","histories","inputs"],"every expression built from the constructors, every set of points, order of evaluation and interleaving",
 "Unit tests evaluate from one goroutine; the race detector only reports what their schedules reach.",
 ["sdf2.go","sdf3.go","form2","form3","helpers/sdfexp","helpers/matter"],[("Evaluate methods only read state fixed at construction","all SDF2/SDF3 types"),("nearest triangle search returns its result by value","helpers/sdfexp")],["SDF2.Evaluate, SDF3.Evaluate"])
p("C15","Concurrent renderings and exports do not influence each other",
 "Any number of renderings, exports and imports running at once - over shared SDFs, to different files, some of them failing - each produce exactly what they produce alone: a failure of one file or renderer makes only that operation fail. No interleaving deadlocks, panics or accesses memory unsynchronised.",
 ["schedules","fault_sequences","histories"],"every interleaving of 2 to 4 pipelines over shared models with faults hitting one of them",
 "Tests run one export at a time.",
 ["render"],[("no package level mutable state on the rendering path","render")],["files, triangles and errors of every pipeline"])
p("C16","Constructors neither modify nor keep hold of the caller's data",
 "No constructor or writer changes the slices, SDFs or parameter values it is given, not even spare capacity behind a slice, and the object it returns does not change when the caller later reuses them. Constructing from shared inputs in several goroutines at once is race free and gives each the object it would build alone. Slices the library returns belong to the caller: overwriting them changes nothing the library returns later.",
 ["schedules","histories","inputs"],"every constructor taking slices or SDFs, every input, every later modification by the caller, every interleaving of concurrent constructions",
 "Tests never look at the arguments afterwards nor reuse them.",
 ["sdf2.go","sdf3.go","form2/must2","form3/must3","form2/obj2","form3/obj3","helpers/sdfexp","render/io.go"],[("copies of argument slices","constructors")],["arguments and results after construction"])
p("C17","TriangleBuffer delivers each triangle once and in order",
 "Over every history of writes and reads of any sizes a triangle buffer returns exactly the written triangles in order, each once, with counts and length matching a queue model, independent of what callers later do to their slices. Buffers used by different goroutines do not influence each other.",
 ["histories","schedules"],"every sequence of writes, reads and later reuse of the caller's slices",
 "Not tested directly.",
 ["render/io.go"],[("append and re-slice","render/io.go TriangleBuffer")],["TriangleBuffer.Read/Write/Len"])
p("C18","Results are reproducible",
 "Constructing, rendering, exporting or importing the same model gives byte-identical results in every process: independent of map iteration order, random numbers drawn anywhere, the clock, what was imported before, and scheduling of single-reader work.",
 ["configurations","histories","inputs"],"every model and pair of executions that differ only in map seeds, random state, clock and schedule",
 "A test process has one clock and cannot choose its map seeds; differences show only across runs.",
 ["render","helpers/sdfexp","form2","form3"],[("no dependence on iteration order; deterministic k-d tree","helpers/sdfexp/import.go, render/3mf.go")],["bytes of exported files, evaluated distances"])
p("C19","SDFs built side by side do not influence each other",
 "Constructing, configuring (SetMin, SetMax, SetExtrude), evaluating and rendering any number of SDFs, in any order and from several goroutines that share operands, leaves every SDF with exactly the values and bounds it has when only it and its operands are built. No interleaving deadlocks, panics or accesses memory unsynchronised.",
 ["histories","schedules","inputs"],"every history of constructions, configurations, evaluations and renderings over shared operands, split over any number of goroutines, under every interleaving",
 "Tests build one object at a time; what an earlier construction, another instance or a configured sibling leaves behind shows only in longer histories.",
 ["sdf2.go","sdf3.go","utils.go","form2","form3","helpers"],[("objects own their state; no package level mutable state","sdf2.go, sdf3.go, form2/must2, form3/must3, form3/obj3/thread")],["SDF2/SDF3 Evaluate and Bounds, rendered triangles"])
p("C20","Importing any mesh, however damaged, ends in an SDF or an error",
 "For every list of triangles - complete, truncated, with triangles lost, duplicated, flipped, reordered, degenerate or with corrupted coordinates - ImportModel and ImportModelV2 return an SDF or an error after a bounded number of steps without panicking and without modifying the list. Evaluating the result, also from several goroutines, neither panics nor depends on earlier evaluations.",
 ["fault_sequences","inputs","schedules"],"every triangle list reached from a rendered mesh by any sequence of losses and corruptions, every tolerance, every order of evaluation",
 "Tests import one intact mesh; the adjacency walk and the vertex merging depend on the whole topology of the mesh.",
 ["helpers/sdfexp/bih.go","helpers/sdfexp/import.go","helpers/sdfexp/spatial3.go"],[("vertices merged by tolerance, walk around each vertex bounded by the number of faces","helpers/sdfexp/bih.go ImportModelV2"),("k-d tree of the triangles","helpers/sdfexp/import.go ImportModel")],["sdfexp.ImportModel, sdfexp.ImportModelV2"])
p("C21","A misbehaving SDF cannot break a rendering",
 "For every SDF with finite bounds - also one that at some points is slow, returns NaN, infinite or wildly wrong distances, or another distance each time it is asked - reading an octree renderer neither panics nor deadlocks, every read stays within its buffer, and the stream ends after a bounded number of reads and triangles. As long as the SDF gives the same answer for the same point, the triangles are the same for every worker count, schedule and sequence of read sizes.",
 ["fault_sequences","schedules","histories"],"every placement of faulty distances, every worker count, interleaving and sequence of read sizes",
 "Tests render well-behaved solids only.",
 [R,"render/marchingcubes.go"],[("cells are only dropped when the distance proves them empty; depth and triangles per cell are bounded","render/octree_renderer.go processCube/IsEmpty, render/marchingcubes.go")],["Renderer.ReadTriangles"])
p("C22","A rejected request leaves no trace",
 "When a construction, import, evaluation, rendering or export ends in an error or in a panic the caller recovers from - a parameter out of range, an operand missing, a mesh that cannot be imported, a writer that is full, a user-supplied SDF or Threader that fails - then the data and operands given are unchanged, nothing stays locked or in use, the same request ends the same way whatever the process did before or does at the same time, its error keeps saying the same, and everything built, evaluated, rendered or imported before, meanwhile and afterwards is exactly what it is without the rejected request.",
 ["fault_sequences","histories","schedules","inputs"],"every placement of failing requests and failing callbacks in every history of constructions, evaluations and renderings over shared operands, split over any number of goroutines, under every interleaving",
 "Tests call constructors with valid parameters only; what a failure leaves behind shows in the requests that follow it or run beside it.",
 ["sdf2.go","sdf3.go","form2","form3","render","helpers/sdfexp"],[("validation precedes construction; panics are turned into errors per call","form2/basic.go, form2/poly.go, form3/basic.go"),("no state survives a failed call","form3/obj3/thread, helpers/sdfexp/import.go, helpers/sdfexp/bih.go, render")],["errors and panics of constructors, importers, Evaluate, WriteSTL, RenderAll","SDF values and bounds"])
N=[("N01","The zero set and sign of every SDF match the described solid","Every SDF is negative exactly inside the described solid, and its magnitude never exceeds the distance to the surface.","form2, form3, sdf2.go, sdf3.go"),
("N02","Bounds contain the whole solid","For every SDF the set of points with negative value lies within the box reported by Bounds.","sdf2.go sdf3.go"),
("N03","Boolean operations follow set algebra","Union, difference and intersection evaluate inside exactly where the set expression over the operands holds; blended forms stay within their blend radius.","sdf2.go sdf3.go utils.go"),
("N04","Transformed SDFs equal the original in the transformed frame","Rotation, translation, uniform scaling, mirroring and arraying evaluate as the original at the inversely transformed point, with Bounds transformed accordingly.","sdf2.go sdf3.go matrix code"),
("N05","Marching cubes approximates the zero set within one cell","Every vertex of a rendered mesh lies within one cell of the zero set and every surface feature larger than a cell is present.","render/marchingcubes.go"),
("N06","Threads and fasteners have their standard dimensions","Metric, unified and pipe threads, bolts and nuts have the dimensions given by the standard for their size.","form3/obj3, form3/obj3/thread"),
("N07","Imported meshes keep their geometry","The SDF of an imported closed mesh has the mesh as its zero set and the right sign on both sides.","helpers/sdfexp"),
("N08","Invalid parameters are reported as errors by the form packages","form2 and form3 constructors return an error for every invalid parameter set and never panic.","form2 form3"),
("N09","Polygon builder geometry is as specified","Arcs, smoothing, chamfers, relative and polar vertices of the polygon builder produce the documented outline.","form2/must2/poly.go"),
("N10","Tetrahedral meshes are valid","Tetrahedral meshes generated for a solid have positively oriented, non-overlapping elements covering it.","helpers/sdfexp/bccmesh.go omesh.go")]
for i,t,s,f in N:
    p(i,t,s,["inputs"],"every parameter set and point","Tests sample a handful of points and parameter sets.",[x for x in f.replace(","," ").split() if "/" in x or "." in x or x.startswith("form")] or ["sdf3.go"],[("pure computation",f)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
C=[d["id"] for d in P if d["id"][0]=="C"]
NR={"N01":"A pure function of parameters and a point: no schedule, clock, fault or interleaving can change it. What scheduling and history can break in it is C14.",
"N02":"A pure function of the parameters; deciding it is geometry, not simulation.",
"N03":"Pure function of operands and point; no nondeterminism for a simulator to control.",
"N04":"Pure function of operand, transform and point.",
"N05":"Approximation quality is a function of the SDF and the density alone; what reading, scheduling and faults can do to the mesh is C01-C03.",
"N06":"Tables and formulae: a pure function of the size.",
"N07":"Accuracy of the distance is a pure function of the mesh; its independence of schedule, history and random state is C14 and C18.",
"N08":"Input validation is a pure function of the parameters.",
"N09":"Pure function of the builder calls.",
"N10":"Pure function of the solid and resolution."}
LN={
"C01":"sampled read-size histories over generated SDF expressions against a one-read reference of the same code and a closed-surface oracle",
"C02":"sampled interleavings (preemption before every statement) against the single-worker rendering, plus the Go race detector on the simulated schedules",
"C03":"per-read contract oracle with guard elements and late-write detection over sampled schedules and read sizes",
"C04":"scripted conforming renderers drive the real RenderAll; model: concatenation of what was delivered",
"C05":"real CreateSTL on a simulated kernel with short writes and EINTR, byte-exact oracle",
"C06":"real CreateSTL with injected hard faults; nil implies byte-exact file",
"C07":"every mutation of the run's log is a crash point (all of them checked in each sampled run, torn variants sampled), then a restart",
"C08":"scripted writers; byte-exact prefix oracle",
"C09":"scripted byte sources; exact triangle oracle",
"C10":"real Create3MF on the simulated kernel; independent parse of the package",
"C11":"real Create3MF with injected hard faults; nil implies exact package",
"C12":"as C07 for the zip package",
"C13":"kernel descriptor table and goroutine count after each call under faults",
"C14":"values under sampled interleavings and orders against solo evaluation on a fresh instance, plus race detector",
"C15":"2-4 simulated pipelines, each compared with its solo result, plus race detector",
"C16":"arguments snapshotted incl. spare capacity; results compared with solo construction; race detector",
"C17":"operation histories against a queue model, plus race detector",
"C19":"each object of a sampled concurrent history compared bitwise with a fresh replay of its own construction steps, plus race detector",
"C20":"triangle lists damaged by sampled fault sequences fed to the real importers; step budget, panic, argument and history oracles, plus race detector",
"C21":"fault injection at the SDF seam (nine fault kinds) under sampled schedules and reads; contract, bound and single-worker-equality oracles, plus race detector",
"C22":"failing requests and callbacks placed by seed in concurrent histories; outcome of each and state of every object compared with a fresh replay without the failures, plus race detector",
"C18":"the same run on two simulated machines differing in map seeds, random state, clock and schedule; byte comparison"}
M={"version":1,"setup_cmd":"python3 vsim.py setup","checks":[{"property":c,"quick_cmd":"python3 vsim.py check %s quick"%c,"thorough_cmd":"python3 vsim.py check %s thorough"%c,"technique":"deterministic simulation with fault injection (seeded schedule and fault search)","level":"exploration","level_note":LN[c]+". Sampling, not proof; trusts the simulated kernel's POSIX semantics, the patched Go scheduler and the instrumenter."} for c in C],
"not_applicable":[{"property":i,"reason":NR[i]} for i,_,_,_ in N],
"notes":"No hook commits in /repo: seams (scheduler, clock, randomness, system calls, preemption points, two test-only exports) are inserted by a Go build overlay from /verif/sim, so the shipped code is unchanged. Commits in /repo are fix: commits only, listed in known-findings.json. See DESIGN.md."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
