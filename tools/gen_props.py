import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
BC="src/bare_closure.rs"; AR="src/arch.rs"; CC="src/cc.rs"; JA="src/jit_alloc.rs"; TR="src/traits.rs"; TF="src/thunk_factory.rs"
SJ="src/safe_jit"; HM="proc_macros/src/lib.rs"
p("C01","A closure handed to the library is destroyed exactly once",
 "Every closure passed to any constructor is destroyed exactly once: when its wrapper is dropped, or before the constructor returns or unwinds if construction fails. Converting a wrapper (typed to untyped, upcasting the storage) neither destroys nor duplicates the closure, and leaking a wrapper never destroys it.",
 ["programs","fault_sequences","inputs"],"every wrapper kind (once / mut / shared), every constructor, every conversion chain, every closure type, and every allocator failure",
 "Tests drop a handful of wrappers around one closure type and never make the executable allocator fail, so leaks on error paths and double drops through conversions are unobservable to them.",
 [BC,AR],[("closure boxing and reclaiming","bare_closure_impl! try_with_cc_in / try_with_thunk_in / Drop / leak / upcast / From / into_untyped in src/bare_closure.rs")])
p("C02","Executable memory is given back exactly once, to its own allocator",
 "Each block of executable memory a wrapper obtains is released exactly once, when the wrapper is dropped, to the allocator instance that provided it and with exactly the executable address that allocator returned. A leaked wrapper never releases its block, conversions never release it, and a zero-sized closure neither allocates nor releases anything.",
 ["programs","histories","inputs"],"every wrapper kind, constructor, conversion chain and allocator, every address an allocator may return",
 "The bundled allocators hand out aligned blocks and ignore release results, so releasing a shifted address, twice, or not at all does not fail a test.",
 [AR,BC],[("block ownership","AllocatedThunk and its Drop in src/arch.rs"),("wrapper drop/leak","bare_closure_impl! in src/bare_closure.rs")])
p("C03","A wrapper's function pointer enters its own code and its own closure",
 "The function pointer obtained from a wrapper (by borrowing or leaking, typed or untyped, before or after any conversion) is the entry of the code generated for that wrapper, and that code passes to the closure the heap location that the wrapper itself owns and later frees. For zero-sized closures it is the compiled thunk itself.",
 ["programs","inputs"],"every wrapper kind, constructor, accessor and conversion chain; every closure size including zero",
 "Tests create few wrappers and call them immediately; a pointer off by the alignment shift or a stale closure address depends on what the allocator returns and on the closure's size.",
 [AR,BC],[("entry pointer","AllocatedThunk::new / thunk_ptr in src/arch.rs"),("accessors","bare / leak in src/bare_closure.rs")])
p("M01","Code bytes are written only inside a write window and published before use",
 "While generating code, memory obtained from the executable allocator is written only through its writable view, only after the allocator has been told to make exactly that code range writable and before it is told to make it executable. Once all writes are done the whole generated range is switched back to executable and then its instruction cache is flushed, before the function pointer can be seen by anyone.",
 ["programs","configurations","inputs"],"every constructor, every target architecture and feature set, every address and size",
 "On the machines that run the tests the protection switch is a no-op and x86 and qemu keep instruction caches coherent, so any reordering or shortened range passes.",
 [AR],[("emission protocol","AllocatedThunk::new in src/arch.rs: protect_jit_memory / writes / protect_jit_memory / flush_instruction_cache")])
p("M02","Generated code stays inside its block for every address the allocator returns",
 "For every pair of addresses an allocator may return, however misaligned, all bytes written while generating code lie within the block that was requested, the two views are displaced by the same amount, and the patched data words end up as aligned as the code they came from requires.",
 ["inputs","configurations"],"every allocator result (any alignment), every template length and data offset, every target",
 "The allocators used in tests return page- or 64-byte-aligned blocks with slack, so an under-sized request or a wrong alignment shift never touches foreign memory.",
 [AR],[("block size and alignment shift","AllocatedThunk::new in src/arch.rs")])
p("M03","The patched words are exactly the words the thunk code reads",
 "On every supported architecture, the closure address is stored into exactly the instruction or data word the thunk uses to load its closure pointer, and the continuation address into the one it jumps through. The continuation is the address directly behind the data block in the original function, in the instruction set the function was compiled for, and everything the thunk executes before jumping is part of the copied range.",
 ["configurations","inputs"],"x86, x86-64, AArch64, A32 and Thumb thunks; every prologue, every register the compiler may pick",
 "Tests exercise the registers and prologues today's compiler happens to choose; another register choice changes encodings, and a wrong word survives when the clobbered bytes are padding.",
 [AR],[("assembly block","_thunk_asm! in src/arch.rs"),("patch offsets","arch::consts and AllocatedThunk::new in src/arch.rs")])
p("E01","Allocation failure is reported, and nothing else happens",
 "When the executable allocator refuses a request, every fallible constructor returns the error and every infallible one panics; no memory is written, re-protected, flushed or released, and the allocator handle passed in is dropped exactly once. Dropping a wrapper never panics, even if the allocator reports that the release failed.",
 ["fault_sequences","programs"],"every constructor and wrapper kind, every allocation and release failure",
 "No test uses a failing allocator.",
 [AR,BC,JA],[("error propagation","AllocatedThunk::new, try_with_cc_in, try_with_thunk_in, with_*_in"),("release in drop","Drop for AllocatedThunk in src/arch.rs")])
p("T01","Wrappers cross threads only when their closure and allocator may",
 "A wrapper can be sent to another thread only if its erased closure type and its allocator can, and shared between threads only if the erased closure type is Send (once and mut wrappers) or Sync (shared-call wrappers); when those conditions hold it can. The thread-local allocator can be neither sent nor shared, and neither can a wrapper that uses it be sent.",
 ["programs","schedules"],"all storage types, allocators and signatures, typed and untyped wrappers",
 "A run-time test cannot show that a program does not compile; existing tests only build programs that must compile.",
 [BC,JA],[("auto-trait impls","unsafe impl Send / Sync in bare_closure_impl!"),("thread-local marker","ThreadJitAlloc in src/jit_alloc.rs")])
p("T02","Thunk factories never add thread-safety a closure lacks",
 "A thunk built from a closure through any factory function is Send only if the closure is Send and Sync only if the closure is Sync, and it has every marker the chosen factory promises. No factory demands a marker that it does not promise.",
 ["programs","schedules"],"every factory, every bare-function type including higher-ranked and variadic ones, every closure",
 "Tests only check that promised markers are present; whether an unpromised one leaks through the opaque return type needs a program that must not compile.",
 [TF,CC],[("marker wrapper","SendSyncWrapper and make_* in src/thunk_factory.rs")])
p("T03","Safe code cannot obtain a dangling or over-privileged wrapper",
 "In safe code a wrapper cannot outlive what its closure borrows, leaking requires a static wrapper, upcasting can only drop markers or shorten lifetimes, and a single-call closure offers no borrowed function pointer. A constructor accepts a closure only if it satisfies the storage type's markers and lifetime and its signature matches the bare function type.",
 ["programs"],"every safe program using the public API",
 "These are statements about programs that must not compile; the tests contain only programs that do.",
 [BC,TR],[("storage bounds","ToBoxedDyn in src/traits.rs"),("leak / upcast / bare bounds","bare_closure_impl! in src/bare_closure.rs")])
p("T04","Typed and untyped wrappers and function-pointer types keep one layout",
 "In every feature configuration a typed wrapper has exactly the layout of its untyped counterpart, wrapper layout does not depend on the closure or signature, and every type usable as a bare function (including macro-generated ones) is exactly one code pointer.",
 ["configurations","programs"],"all feature sets and targets, all storage, signature and allocator types",
 "A missing layout attribute is invisible at run time because today's compiler happens to pick the same layout.",
 [BC,HM],[("repr attributes","struct declarations in bare_closure_impl! and bare_hrtb")])
p("A01","Each calling-convention marker, constructor and thunk agree on one ABI",
 "For each calling-convention marker and arity, the bare function type, the thunk compiled for it and the constructors named after it all use exactly the convention the marker names, including its unwinding variant. No thunk has another ABI, variadicity or signature than the function-pointer type it is exposed as.",
 ["programs","configurations"],"every convention available on each target, 0 to 12 arguments, once / mut / shared kinds, fixed and variadic signatures",
 "Tests call a few conventions with one or two arguments; many conventions coincide on the tested platforms for such signatures.",
 [CC,BC],[("impl tables","cc_impl! / cc_trait_impl! in src/cc.rs"),("shorthand constructors","cc_shorthand! / cc_shorthand_in! in src/bare_closure.rs")])
p("A02","A thunk calls its closure once, with the caller's arguments in order",
 "Calling a wrapper's function pointer invokes the wrapped closure exactly once, with the received arguments in order and unmodified, and returns its result unmodified. The closure is consumed by value for single-call wrappers, borrowed mutably for mutable ones and shared for shared ones, at the location embedded in the code, or at no memory at all if it is zero-sized.",
 ["programs","inputs"],"every convention, 0 to 12 arguments, fixed and variadic, once / mut / shared, zero-sized and sized closures, macro-generated signatures",
 "The impls are macro-expanded to hundreds of thunks of which tests call about a dozen, mostly with arguments of equal type or value.",
 [CC,HM,AR],[("thunk bodies","THUNK_TEMPLATE* in src/cc.rs and proc_macros/src/lib.rs"),("outlined call","_invoke in src/arch.rs")])
p("A03","Indirect calls and conversions of function pointers are faithful",
 "Calling a bare function through the generic interface passes the packed arguments in order to that very function and returns its result; converting a bare function to an untyped pointer and back yields the same function. Thunks built from packed-argument closures, marker-preserving wrappers around them, and direct calls on thunk objects forward arguments and results in the same way.",
 ["programs","inputs"],"every convention and arity, fixed and variadic, macro-generated types, all call kinds",
 "Tests reach two or three of several hundred generated implementations.",
 [CC,TF,TR,HM],[("generic call","FnPtr::call / from_ptr / to_ptr / make_*_thunk"),("thunk call","call_once / call_mut / call on thunk types")])
p("R01","Relocation never copies position-dependent code unchanged",
 "When a function prologue is moved, every instruction in it whose effect depends on its own address, or that may transfer control somewhere other than the next instruction, is either rewritten or makes construction fail; it is never copied unchanged, except a branch whose target is moved along with it. Bytes that do not decode, and prologues in which the thunk code is not reached, make construction fail.",
 ["inputs","configurations"],"every instruction of the architecture at every place in the prologue; x86, x86-64, AArch64, A32, Thumb",
 "The compiler only emits a few prologue shapes per target; any other instruction never reaches the relocator in a test run.",
 [SJ+"/x86.rs",SJ+"/x86_64.rs",SJ+"/aarch64.rs",SJ+"/arm.rs",SJ+"/arm_util.rs"],[("instruction classification","try_reloc_thunk_template in src/safe_jit/*.rs")])
p("R02","Rewritten instructions compute the original addresses",
 "A position-dependent instruction that relocation rewrites yields, at its new location, the value the original yields at its original location: same absolute address or same loaded data width and signedness, in the same destination register, with every other register and flag the surrounding code can observe unchanged.",
 ["inputs","configurations"],"every operand value (register, displacement sign and magnitude) of every rewritten instruction form, every original and new address",
 "Tests see one or two concrete displacements per target; sign, range and alignment corner cases never occur.",
 [SJ+"/x86.rs",SJ+"/x86_64.rs",SJ+"/aarch64.rs",SJ+"/arm.rs",SJ+"/arm_util/encoding_aarch64.rs",SJ+"/arm_util/encoding_arm.rs",SJ+"/arm_util/encoding_thumb.rs"],[("target computation and re-encoding","target_pc / as_rt_load / literal pool emission in src/safe_jit")])
p("R03","Relocated code is the original code with only the rewrites applied",
 "The relocated bytes are the original bytes in order, with each rewritten instruction replaced by its replacement and nothing lost, duplicated or reordered, followed only by data the replacements refer to. The reported position of the closure word in the relocated bytes is where that word actually is.",
 ["inputs","histories"],"every sequence and number of rewrites, every prologue length",
 "Tests relocate at most one or two instructions per prologue, and on most targets none.",
 [SJ+"/x86.rs",SJ+"/x86_64.rs",SJ+"/aarch64.rs",SJ+"/arm.rs",SJ+"/arm_util.rs"],[("copy-on-write buffer","CowBuffer in src/safe_jit/arm_util.rs"),("offset bookkeeping","new_magic_offset / magic_offset in src/safe_jit/*.rs")])
p("R04","Instruction encoders accept exactly what they can represent",
 "An instruction encoder or decoder used by relocation places and extracts each operand at the bit position, width, scale and sign the architecture manual defines, recognises an instruction form if and only if its fixed bits match, and reports an error rather than truncating an operand that does not fit.",
 ["inputs"],"all register numbers, displacements and raw instruction words of the modelled forms on AArch64, A32 and Thumb",
 "The unit tests check four or five concrete words per form, none at a range limit; Thumb and A32 have none.",
 [SJ+"/arm_util.rs",SJ+"/arm_util/encoding_aarch64.rs",SJ+"/arm_util/encoding_arm.rs",SJ+"/arm_util/encoding_thumb.rs"],[("bit-field accessors","bitflags! in src/safe_jit/arm_util.rs"),("instruction forms","LdrImm, LdrOfs, Adr, Branch, LoadImm")])
p("G01","Allocator handles forward every operation faithfully",
 "Each operation on an allocator handle (the global one in either form, the thread-local one, or any reference or smart pointer to an allocator) performs exactly the corresponding operation of the underlying allocator once, with the same arguments, and returns its result with failures reported as failures.",
 ["programs","inputs","configurations"],"all handle types, all operations, all arguments, hosted and no_std builds, bundled and user-provided allocators, all targets",
 "Swapped access modes or shortened ranges are no-ops on the tested platforms, and release results are ignored by the only caller.",
 [JA],[("blanket impl and global/thread handles","impl JitAlloc for D / GlobalJitAlloc / ThreadJitAlloc in src/jit_alloc.rs")])
p("G02","The shared global allocator is only touched under its lock",
 "In every build the bundled process-wide allocator is created once and every use of it happens while its lock is held, without the lock being taken again meanwhile, and nothing obtained under the lock except plain results survives it. The thread-local allocator's state is reachable only from its own thread and no reference to it outlives an operation.",
 ["schedules","histories","configurations"],"all interleavings of wrapper creation and destruction across threads; hosted and no_std builds",
 "Racing tests would have to hit the window; the existing tests are single-threaded.",
 [JA],[("lock discipline","use_alloc and the static behind it in src/jit_alloc.rs"),("thread-local access","ThreadJitAlloc in src/jit_alloc.rs")])
p("H01","Macro-declared higher-ranked functions behave like built-in ones",
 "A type declared through the higher-ranked macro wraps exactly the declared function-pointer type (made unsafe), converts to and from it without change, exposes its arguments, result and lifetimes as declared, and its thunks have the declared ABI and forward like built-in ones. Generic parameters, bounds, visibility and attributes of the declaration are kept.",
 ["programs"],"every accepted declaration: up to three lifetimes, any ABI, arity, generics and bounds",
 "Tests declare three types; the macro is a program generator whose output for other declarations is never built.",
 [HM],[("expansion","bare_hrtb in proc_macros/src/lib.rs")])
p("H02","The higher-ranked macro rejects declarations it cannot honour",
 "A declaration with an unnamed or elided lifetime anywhere in its signature, with more than three bound lifetimes, or that is not a function-pointer type is rejected at compile time, and lifetimes of arguments cannot be laundered through the generated type in safe code.",
 ["programs"],"every declaration that violates a documented limit, wherever in the signature",
 "Rejection is a compile-time fact; the doc tests hold two such declarations, one of which fails for an unrelated syntax reason.",
 [HM],[("validation","MacroInput::parse in proc_macros/src/lib.rs")])
p("F01","Nothing the compiler adds to a thunk's prologue defeats relocation",
 "With coverage instrumentation enabled, no thunk the library generates is instrumented, whether built in or macro-declared. When relocation is compiled out, the closure body is never merged into the thunk before the data block, in any build profile.",
 ["configurations","programs"],"all thunks, all arities and conventions, coverage and no-relocation configurations",
 "No test run enables instrumentation or the no-relocation feature set.",
 [CC,AR,BC,HM],[("coverage opt-out","coverage(off) on thunks in src/cc.rs, bare_hrtb_inner! in src/bare_closure.rs"),("outlining","_invoke in src/arch.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
