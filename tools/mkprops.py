#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in the tree so wording and anchors are edited in one place).
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

add("C01", "A 3d Remap delivers every grid element to exactly its requested place",
 "For any tiling of a 3d grid owned before and any tiling wanted after a 3d Remap, every datum (all of its quantities, in order) ends up at the place in the output of the process that owns that grid point under the output tiling, in the axis order selected by the permute argument, and nothing else is written to the user's output. This holds for every number of quantities per datum, every permute value, every pack method, point-to-point or all-to-all communication, user-supplied or library-owned buffers, in place or out of place, repeated use of one Remap (with the same or other arrays and buffers, and alongside other Remaps), and every order in which messages complete.",
 ["inputs", "configurations", "schedules"],
 "all pairs of tilings (including processes that own nothing), nqty >= 1, permute 0/1/2, pack 0/1/2, collective 0/1, memory 0/1, in==out or not, any message completion order, either precision",
 "The Remap classes are never driven directly by the tests: only through FFTs, so with 2 quantities per datum, in place, on a few fixed brick/pencil layouts, and with the message orders that happen to occur.",
 ["src/remap3d.cpp", "src/remap3d.h", "src/pack3d.h"],
 [("Remap3d::setup computes overlaps, pack/unpack plans", "src/remap3d.cpp"), ("Remap3d::remap posts receives, packs, sends, self-copies, unpacks", "src/remap3d.cpp"), ("pack_3d_*/unpack_3d_* kernels", "src/pack3d.h")],
 ["contents of the output array after remap()"])
add("C02", "A 2d Remap delivers every grid element to exactly its requested place",
 "For any tiling of a 2d grid owned before and any tiling wanted after a 2d Remap, every datum (all of its quantities, in order) ends up at the place in the output of the process that owns that grid point under the output tiling, in the axis order selected by the permute argument, and nothing else is written to the user's output. This holds for every number of quantities per datum, both permute values, every pack method, point-to-point or all-to-all communication, user-supplied or library-owned buffers, in place or out of place, repeated use of one Remap (with the same or other arrays and buffers, and alongside other Remaps), and every order in which messages complete.",
 ["inputs", "configurations", "schedules"],
 "all pairs of tilings (including processes that own nothing), nqty >= 1, permute 0/1, pack 0/1/2, collective 0/1, memory 0/1, in==out or not, any message completion order, either precision",
 "The tests reach Remap2d only through FFT2d: 2 quantities, in place, fixed layouts, the message orders that happen to occur.",
 ["src/remap2d.cpp", "src/remap2d.h", "src/pack2d.h"],
 [("Remap2d::setup", "src/remap2d.cpp"), ("Remap2d::remap", "src/remap2d.cpp"), ("pack_2d_*/unpack_2d_* kernels", "src/pack2d.h")],
 ["contents of the output array after remap()"])
add("C03", "Remap stays inside the buffers and sizes it was given or asked for",
 "A 2d or 3d Remap never reads or writes outside the user's input and output arrays (sized by the process's own tiles) or outside the send and receive buffers: the send and receive sizes it reports from setup are sufficient for every remap() with user-supplied memory, and are zero-safe for processes that own nothing. It also never lets a message in flight alias memory that is read or written meanwhile, and never uses an uninitialised value to decide what it does.",
 ["inputs", "configurations", "schedules"],
 "all pairs of tilings, nqty, permute, pack, collective, memory mode, precision, and message completion orders",
 "Overruns of heap buffers by a few elements do not change the results the tests compare, and the tests never supply remap buffers of exactly the reported size.",
 ["src/remap3d.cpp", "src/remap2d.cpp", "src/pack3d.h", "src/pack2d.h", "src/memory.cpp"],
 [("sendsize/recvsize computed in setup", "src/remap3d.cpp, src/remap2d.cpp"), ("scratch and sendbuf allocation", "src/remap3d.cpp, src/remap2d.cpp"), ("send_offset/recv_bufloc/scratch offsets", "src/remap3d.cpp, src/remap2d.cpp")],
 ["heap accesses", "sendsize and recvsize arguments of setup()"])
add("C04", "A 3d FFT transforms every line of every axis exactly once, in order",
 "For any input and output tilings of a 3d grid, compute() applies to the whole distributed array exactly one complete 1d transform along each of the three axes for every grid line, all in the requested direction, and leaves the result in the output tiling (forward) or input tiling (backward), with axes permuted as requested by the permute argument at setup. The result does not depend on the collective, exchange, pack and memory settings, on whether the output array is the input array or a different one, on how often and in which direction the plan was used before, or on other FFTs in use at the same time.",
 ["inputs", "configurations", "histories", "schedules"],
 "all input/output tilings, grid sizes, process counts, permute 0/1/2, collective 0/1/2, exchange 0/1, pack 0/1/2, memory 0/1, in==out or not, forward/backward sequences, both FFT back ends",
 "The tests run in place only, on a few grids and process counts with regular brick/pencil layouts, and compare a forward+backward round trip, which cancels errors made symmetrically in both directions.",
 ["src/fft3d.cpp", "src/fft3d.h", "src/remap3d.cpp"],
 [("FFT3d::compute stage sequence", "src/fft3d.cpp"), ("remap_forward_create/remap_inverse_create", "src/fft3d.cpp"), ("setup_ffts 1d plan lengths, counts and strides", "src/fft3d.cpp")],
 ["contents of the output array after compute()"])
add("C05", "A 2d FFT transforms every line of both axes exactly once, in order",
 "For any input and output tilings of a 2d grid, compute() applies to the whole distributed array exactly one complete 1d transform along each of the two axes for every grid line, in the requested direction, and leaves the result in the output tiling (forward) or input tiling (backward), with axes permuted as requested by the permute argument at setup. The result does not depend on the collective, exchange, pack and memory settings, on whether the output array is the input array or a different one, on how often and in which direction the plan was used before, or on other FFTs in use at the same time.",
 ["inputs", "configurations", "histories", "schedules"],
 "all input/output tilings, grid sizes, process counts, permute 0/1, collective 0/1/2, exchange 0/1, pack 0/1/2, memory 0/1, in==out or not, forward/backward sequences, both FFT back ends",
 "The tests run in place only, on a few grids and process counts with regular layouts, and never run a permuted 2d FFT on several processes.",
 ["src/fft2d.cpp", "src/fft2d.h", "src/remap2d.cpp"],
 [("FFT2d::compute stage sequence", "src/fft2d.cpp"), ("remap_forward_create/remap_inverse_create", "src/fft2d.cpp"), ("setup_ffts", "src/fft2d.cpp")],
 ["contents of the output array after compute()"])
add("C06", "Backward FFT output is scaled by 1/N everywhere exactly when asked",
 "With scaling on (the default) a backward compute() multiplies every element the process owns in its result by exactly 1/N (N the global grid size) once, so forward followed by backward returns the original data; with scaling off nothing is scaled, and a forward compute() never scales. Both 2d and 3d, for every tiling, including when a process owns different numbers of input and output elements, and for changes of the scale setting between calls.",
 ["inputs", "configurations", "histories"],
 "all tilings incl. unequal in/out ownership, both values of scaled toggled between calls, forward/backward histories, in place or not",
 "The tests always scale, and their layouts give almost always the same element count for input and output; un-scaled elements outside the compared region are not looked at.",
 ["src/fft3d.cpp", "src/fft2d.cpp"],
 [("norm/normnum computed in setup, applied in scale_ffts", "src/fft3d.cpp, src/fft2d.cpp")],
 ["contents of the output array after compute()"])
add("C07", "FFTs stay inside arrays of the sizes setup reports",
 "A 2d or 3d FFT never reads or writes outside user arrays of the fftsize reported by setup(), nor, when the user supplies the work memory, outside send and receive buffers of the reported sizes; with different input and output arrays the input array is only read inside what the process owns. No operation of an FFT object (transform, remap-only, 1d-only, single remap, tuning) uses freed or uninitialised memory.",
 ["inputs", "configurations", "histories"],
 "all tilings, process counts, exchange/collective/pack/memory settings, operations, precisions",
 "The tests allocate through the same reported sizes without guard zones and run without a memory checker; overruns inside malloc slack pass.",
 ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/memory.cpp"],
 [("fftsize and remap buffer maxima in setup", "src/fft3d.cpp, src/fft2d.cpp"), ("sendbuf/recvbuf allocation and setup_memory", "src/fft3d.cpp, src/fft2d.cpp")],
 ["heap accesses", "fftsize/sendsize/recvsize arguments of setup()"])
add("C08", "The built-in 1d FFT equals the DFT for every supported length and data",
 "The built-in (KISS) 1d transform computes the mathematical forward/backward discrete Fourier transform of its input to rounding accuracy, for all data and every length that is a product of 2s, 3s and 5s, in place and out of place, and for any number of lines; backward is unscaled. FFTs built on it give the same 3d/2d transform.",
 ["inputs", "configurations"],
 "all complex data vectors, all lengths n = 2^a 3^b 5^c, both directions, in==out or not",
 "The tests compare one forward+backward round trip on one data set on few lengths, where errors made symmetrically (a wrong twiddle, swapped outputs) cancel.",
 ["src/kissfft.h", "src/fft3d.cpp", "src/fft2d.cpp"],
 [("kf_bfly2/3/4/5/generic, kf_work, kf_factor", "src/kissfft.h")],
 ["output of compute() on one process", "output of the 1d transform entry points"])
add("C09", "Internal process grids always cover the whole grid for any process count",
 "For every number of processes and every grid, setup() picks process grids whose dimensions multiply to the number of processes (those reported after setup), and the internal layouts it derives are complete tilings in which the transformed axis is never split, so that setup succeeds for more processes than grid points and for prime, composite and power-of-two process counts alike. No integer overflow occurs in computing them as long as each process's share of the grid fits an int.",
 ["inputs", "configurations"],
 "all process counts and grid dimensions within the stated bounds, exchange 0/1, all tilings that pass validation",
 "The tests use process counts 1,3,4,6,8,12 and a few grid sizes.",
 ["src/fft3d.cpp", "src/fft2d.cpp"],
 [("procfactors/factor/bestproc search", "src/fft3d.cpp, src/fft2d.cpp"), ("proc layouts ipfast*: lo = ip*n/np, hi = (ip+1)*n/np-1", "src/fft3d.cpp, src/fft2d.cpp")],
 ["npfast1..npbrick3 after setup()", "1d transform calls"])
add("C10", "Invalid FFT sizes are rejected on every process, valid ones accepted",
 "setup() accepts a grid exactly if each global dimension is at least 2 and a product of 2s, 3s and 5s, every process's input tile lies inside the grid (or is empty) and the tiles' sizes add up to the grid's, and otherwise terminates the run collectively with an error on all processes before any transform is possible, never hanging on a subset. (Tiles that overlap although their sizes add up are the caller's mistake and not covered.) Transforming or calling a partial operation before setup(), or before the setup_memory() a user who provides the work memory owes; calling setup() or tune() on an FFT already set up; tune() with a direction other than -1, 0, 1, a tflag other than 0 and 1, a non-positive iteration count or a negative time limit; creating an FFT for another precision than the library was built for; and a remap before its setup() are rejected by an error in the same way and never by undefined behaviour.",
 ["inputs", "histories", "configurations"],
 "all tile extents on all processes (one wrong process suffices), all grid dimensions in bounds, all precision and tune arguments, all call orders up to the stated length",
 "Tests only use valid input.",
 ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/error.cpp"],
 [("sanity checks and Allreduce'd flag in setup", "src/fft3d.cpp, src/fft2d.cpp"), ("prime_factorable", "src/fft3d.cpp, src/fft2d.cpp"), ("setupflag/setup_memory_flag checks", "src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp")],
 ["process exit through the error path vs normal return of setup()/compute()/tune()"])
add("C11", "Objects may be created and destroyed at any point without leak or misuse",
 "Creating and destroying FFT and Remap objects at any point of their life (before setup, after setup with or without user memory, after transforms or tuning) releases all memory and communicators the library acquired exactly once, never releases memory the user supplied, and never touches freed or uninitialised memory. This holds for several objects alive at once on one communicator.",
 ["histories", "configurations"],
 "all sequences of create/setup/setup_memory/compute/tune/destroy up to the stated length, all option settings",
 "Tests do not check for leaks or invalid frees, and always go through the same create-setup-compute-destroy order.",
 ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/memory.cpp"],
 [("destructors, deallocate_setup, deallocate_ffts, deallocate_remap", "src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp")],
 ["allocator and communicator state after destruction"])
add("C12", "Tuning ends with the same best settings on every process and a working plan",
 "tune() ends on every process, whatever times the clock returns on each process, with identical collective/exchange/pack settings and identical recorded trials on all processes. The settings are those of the fastest trial: collective and exchange of the fastest collective/exchange trial, packflag of the fastest pack trial made with them, and the documented defaults for what a time limit left untried; a time limit only ever reduces the trials and the transforms per trial. The object is left set up for these settings with the sizes it returns, so that a following transform is correct. It never deadlocks because processes measured different times.",
 ["schedules", "configurations", "inputs"],
 "all clock readings on all processes, all initial settings, directions, flags and time limits",
 "The tests run tune on a single process only and with whatever times occur.",
 ["src/fft3d.cpp", "src/fft2d.cpp"],
 [("tune/tune_trial, Bcast of the trial count", "src/fft3d.cpp, src/fft2d.cpp")],
 ["collective/exchange/packflag, cbest/ebest/pbest, cflags/eflags/pflags, besttime after tune()"])
add("C13", "The C and Fortran-callable interfaces do exactly what the C++ classes do",
 "Each C entry point has the effect of the corresponding C++ method with the same arguments, and each Fortran-callable entry point has the effect of the C++ method with all grid indices shifted from 1-based to 0-based and the permute and other arguments unchanged; set/get keywords read and write exactly the documented setting, and an unknown keyword changes no setting and is answered by -1 (or NULL) when read.",
 ["inputs", "configurations"],
 "all argument values, all keywords, 2d and 3d, FFT and Remap",
 "The tests call the C and Fortran interfaces with one or two option sets on symmetric layouts, where swapped or unshifted arguments are not visible; the Remap interfaces are not called at all.",
 ["src/fft3d_wrap.cpp", "src/fft2d_wrap.cpp", "src/remap3d_wrap.cpp", "src/remap2d_wrap.cpp"],
 [("fft3d_*/fft2d_*/remap3d_*/remap2d_* C functions and *_fortran variants", "src/*_wrap.cpp")],
 ["settings and results of the wrapped object"])
add("C14", "No operation can deadlock or mismatch messages",
 "Every collective library operation (setup, remap, compute, partial operations, tune, error exit) completes on all processes even if every send only completes when the matching receive is posted, and whatever the order in which messages complete: each message sent is received exactly once with the same size, receives never match a message of another operation, and all processes take part in the same sequence of collective calls. Processes owning no data take part without special treatment by the user.",
 ["schedules", "inputs", "configurations"],
 "all message completion orders, synchronous-send semantics, all tilings incl. empty ones, consecutive operations",
 "Small messages are sent eagerly by the MPI in use, so a missing or late receive does not block in the tests; completion orders are those that happen.",
 ["src/remap3d.cpp", "src/remap2d.cpp", "src/fft3d.cpp", "src/fft2d.cpp"],
 [("receives posted before sends; Waitany loop", "src/remap3d.cpp, src/remap2d.cpp"), ("subcommunicator construction for the all-to-all mode", "src/remap3d.cpp, src/remap2d.cpp")],
 ["blocking behaviour of the MPI calls made"])
add("C15", "Partial FFT operations do exactly their documented part of a transform",
 "only_remaps() moves data from the input to the output layout (forward) or back (backward) without transforming or changing any value, only_one_remap() performs exactly the selected remap stage of compute(), and only_1d_ffts() applies just the 1d transforms in place without any communication; the remap-only mode of compute() leaves every value untransformed and unscaled. In place and out of place results agree.",
 ["inputs", "configurations", "histories"],
 "all tilings, both directions, all stages, all settings, in==out or not",
 "The tests time these operations without looking at the resulting data.",
 ["src/fft3d.cpp", "src/fft2d.cpp"],
 [("only_1d_ffts/only_remaps/only_one_remap, remaponly", "src/fft3d.cpp, src/fft2d.cpp")],
 ["contents of the output array"])
add("C16", "Reported memory usage accounts for the buffers the library holds, without drift",
 "After setup() the reported memory usage of an FFT covers at least the send and receive buffers the library allocated itself and never exceeds the memory the library holds on that process; when the user supplies the buffers instead it is smaller by exactly the reported send and receive sizes in bytes. It depends only on the layout and the settings in effect: it is the same whether they were reached by setup() or by tune(), the first time or after other objects, and using the object does not change it.",
 ["configurations", "histories", "inputs"],
 "all tilings, memory mode, exchange, collective and pack settings, after tune or not",
 "The tests print memory usage and do not compare it with anything.",
 ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"],
 [("memusage accumulation in setup", "src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp")],
 ["memusage after setup()", "live heap allocations"])
add("C17", "Each method of the Python wrapper has exactly the effect of its C entry point",
 "Each method of the Python classes FFT3dMPI, FFT2dMPI, Remap3dMPI and Remap2dMPI, whatever its arguments, calls exactly the C entry point of its name, once, on the library object of its own instance, with every argument arriving unchanged in the documented order (integers, keywords, the time limit, the memory of the numpy arrays of the library's precision, 4- and 8-byte communicator handles), and returns exactly what the library answered: sizes, numbers, strings, vectors of the library's length, None for NULL. An invalid precision, a missing library or data that are not numpy arrays are reported without calling the library. The library object is destroyed exactly once, by destroy() or when the instance goes away, for any number of instances of any of the classes.",
 ["inputs", "histories", "configurations"],
 "all methods, argument values, answers of the library, communicator representations and orders of use",
 "The tests never run the Python wrapper.",
 ["src/fftmpi.py"],
 [("ctypes declarations and calls", "src/fftmpi.py"), ("C entry points", "src/*_wrap.h")],
 ["arguments received by the C entry points", "results and exceptions of the Python methods"])
add("C18", "Settings are fixed at setup: changing them later has no effect",
 "Once setup() of an FFT was called, changing its collective, exchange, pack and memory settings, and once setup() of a Remap was called, changing its collective and pack settings, to any documented value has no effect: transforms, partial operations and remaps give the same results with the same buffers, a user who owes the work memory may still provide it, and destroying the object still releases exactly what the library acquired and nothing of the user's.",
 ["histories", "configurations", "inputs"],
 "all settings at setup, all values set afterwards, all layouts, operations and interfaces",
 "The tests never change a setting after setup.",
 ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"],
 [("settings read in setup, own_memory_flag and collflag afterwards", "src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp")],
 ["results of compute()/remap()", "allocator and communicator state after destruction"])
add("C19", "Each Fortran module procedure has exactly the effect of its C entry point",
 "Each procedure of the Fortran modules fft3d_wrap, fft2d_wrap, remap3d_wrap and remap2d_wrap in src/, called in the documented form with arguments of any value, calls exactly the C entry point meant for Fortran (the _fortran variant for create, setup and tune), once, with every argument arriving unchanged in the documented order and representation (handles, integers, the time limit, keywords, the address of the arrays given by c_loc), stores what the library sets in exactly the variables given, and returns exactly what the library answered.",
 ["inputs", "configurations"],
 "all procedures, all argument values and answers, single and double precision arrays",
 "The tests do not use these modules at all (they compile copies of two of them).",
 ["src/fft3d_wrap.f90", "src/fft2d_wrap.f90", "src/remap3d_wrap.f90", "src/remap2d_wrap.f90"],
 [("bind(C) interfaces", "src/*_wrap.f90"), ("C entry points", "src/*_wrap.h")],
 ["arguments received by the C entry points", "variables of the Fortran caller after the call"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
