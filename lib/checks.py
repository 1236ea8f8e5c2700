"""Property -> (level, function that returns the violations found, technique, note)."""
import sweeps, arrays, pure, builds, headers, wrappers, diag, helpers, inputs, described, refuse, vcwrap, reports, ufunc

SWEEP = ("TLA+ trace validation of a sweep of the argument space",
         "TLC walks the recorded sweep cell by cell and judges the worst witness of each cell against the contract; "
         "every cell of the operating interval is visited, %s")
SAMPLED = SWEEP[1] % "doubles by stratified sampling plus the breakpoints of the code, floats near the core exhaustively"

CHECKS = {
    "C01": ("exploration", sweeps.c01, SWEEP[0], SWEEP[1] % "points inside a cell are sampled (stratified, breakpoints of the code, neighbourhood of the worst point)"),
    "C02": ("exploration", sweeps.c02, SWEEP[0], SWEEP[1] % "core binades exhaustively in the quick tier, all floats in the thorough tier"),
    "C03": ("exploration", sweeps.c03, SWEEP[0], SAMPLED),
    "C04": ("exploration", sweeps.c04, SWEEP[0], SAMPLED),
    "C05": ("exploration", sweeps.c05, SWEEP[0], SAMPLED),
    "C06": ("exploration", sweeps.c06, SWEEP[0], SAMPLED),
    "C07": ("exploration", sweeps.c07, "TLA+ octant walk, trace validation", SAMPLED),
    "C08": ("exploration", sweeps.c08, "TLA+ model of the folding, trace validation of a sweep of the plane", SAMPLED),
    "C09": ("model_checking", arrays.c09, "TLA+ model of array kernels; calls planned by the specification, trace validation", "kernel model checked for all lengths up to 20; implementation driven through the planned lengths and offsets, every element compared"),
    "C10": ("model_checking", arrays.c10, "TLA+ model of array kernels; calls against guard pages, trace validation", "kernel model checked for all lengths up to 20; implementation driven through every planned length at both page edges"),
    "C11": ("model_checking", pure.c11, "TLA+ model of concurrent calls; recorded histories validated against a binding-once state", "interleavings of 3 threads with 2 calls each checked exhaustively in the model; the implementation observed in fresh processes, after every other call, in random histories, under 8 threads and with other control words"),
    "C12": ("exploration", sweeps.c12, SWEEP[0], SAMPLED),
    "C13": ("model_checking", builds.c13, "TLA+ model of contraction; builds planned by the specification, digests of their results validated against a binding-once state", "every compiler, level and instruction set of the plan is built and run on the same sampled arguments; builds with fused multiply-add go through the accuracy sweep"),
    "C14": ("model_checking", headers.c14, "TLA+ model of inclusion and linking; sequences enumerated by the specification, compiled, linked and validated", "all ordered pairs, all rotations and seeded longer sequences are compiled with everything they provide in use; one program of 34 units is linked and run; the exported symbols are compared with the declarations"),
    "C15": ("model_checking", wrappers.c15, "TLA+ dispatch table; calls of every exported name validated against it", "every exported name is called, directly and from an unmodified program under LD_PRELOAD, on arguments that tell all functions apart; the fat library is generated by the repository's generator and compiled without multi-versioning"),
    "C16": ("model_checking", diag.c16, "TLA+ model of files and objects; scripts enumerated by the specification, replayed and validated", "all scripts of 5 (thorough 6) operations over two objects and two files, and random ones of 30 over three, run for six classes in both precisions; numbers compared bit for bit"),
    "C17": ("model_checking", diag.c17, "TLA+ model of pool creations; requests planned by the specification, recorded histories validated against a binding-once state", "17 seeds, 10 intervals, up to 14 sizes, one and two dimensions, both precisions, created in order, in reverse among other generators, by 8 threads and in a second process"),
    "C18": ("model_checking", diag.c18, "TLA+ model of the evaluation; recorded calls and contents validated step by step", "all input lists over two values up to length 5 in the model; the implementation driven with instrumented functions that answer every call differently, lengths up to 70000, repeated and special values"),
    "C19": ("model_checking", diag.c19, "TLA+ definition over limb arithmetic; recorded differences and comparisons validated", "moments checked in the model for all lists up to 5; pairs at distances around every power of two, all pairs of special patterns and random pairs; lists up to 66000 rows with every statistic"),
    "C20": ("model_checking", diag.c20, "TLA+ grammar and parser model; command lines generated by the specification, results validated", "a character-by-character parser checked against the grammar for all lists of two arguments of up to 4 characters over three; the implementation run on all single arguments, all pairs and random longer lists of flags, near misses and values for four tables of options"),
    "C21": ("model_checking", diag.c21, "TLA+ model of the programs over a directory; planned sequences of invocations run with the real programs, every directory validated", "benchmark, comparison and timing programs built from the working tree and run in scratch directories; file lists with every combination of missing files over three pairs, all functions, several sizes and nicknames, random walks; 100 name patterns matched by the specification"),
    "C22": ("model_checking", diag.c22, "TLA+ model of the measurement; scripted clock readings replayed, recorded events validated", "readings supplied by the specification through an interposed clock: pairs across full seconds and long intervals, and whole measurements of four kinds in both precisions, some with long intervals and one per kind with more than 2^32 evaluations"),
    "C23": ("model_checking", helpers.c23, "TLA+ definition of the helpers over bit patterns, checked on a toy format; recorded calls validated", "splitting, joining and floor checked for a toy format; the implementation observed on the patterns and masks of the plan and swept over all floats and random doubles, one witness per cell"),
    "C24": ("model_checking", inputs.c24, "TLA+ model of the timing program on a virtual clock; planned invocations of the real programs linked against recording stand-ins, trace validation", "the clock advances only by evaluations, each function by its own cost, so that the reported time identifies the function; scalar fast functions are inlined and only seen through the tables and the clock that stands still"),
    "C25": ("model_checking", described.c25, "TLA+ model of chains of reading and writing; written files validated line by line, decimals by exact limb arithmetic", "pools, responses and comparisons in one and two dimensions and both precisions, eight names, six intervals; comparisons written by the real program for eight functions and four pairs of nicknames"),
    "C26": ("model_checking", refuse.c26, "TLA+ grammar of complete command lines; command lines enumerated by the specification, run with the real programs, directories validated", "all lists of up to two arguments of a vocabulary of flags, near misses and values, and every combination of nickname, reference list, test list and one further argument in both orders"),
    "C27": ("model_checking", vcwrap.c27, "TLA+ model of a wrapper working vector by vector; calls of the generated wrappers on a recording stand-in for Vc validated element by element", "all wrappers and list entries, vectors of 1 to 8 (single precision 2 to 16) lanes, every length up to four vectors and some longer ones at both ends of accessible memory, arrays of more than 2^31 elements"),
    "C28": ("model_checking", reports.c28, "TLA+ definition of the bit text and of the rows of every report; what is shown is captured and validated row by row", "all single-bit patterns and their complements and pseudo-random ones in both precisions; twelve kinds of reports with up to 40 (thorough 200) rows of decimals that the format preserves"),
    "C29": ("model_checking", ufunc.c29, "TLA+ model of a loop over steps; calls of the loops of the built module on a recording stand-in for the array functions validated element by element", "all functions in both precisions, up to 40 elements with steps of 1, 2, 3, 0, -1 and -2 elements in every combination at both ends of accessible memory, contiguous arrays of more than 2^32 elements; NumPy itself is not installed, its headers are replaced by stand-ins"),
}


def entry(p):
    return CHECKS[p]
