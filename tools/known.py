# writes known-findings.txt
import subprocess
h=subprocess.check_output("git -C /repo log --reverse --grep=^fix: --format=%h 62197ad..HEAD",shell=True,text=True).split()
w=[("Q03","resizing a stream of elements smaller than a signal copied only part of the signal array: wrong signals, read of uninitialised memory"),
("Q03","resizing a stream of strings (or any class type) copied their bytes: double free, self-pointers into the old buffer"),
("U05","after a resize the FIFO's ends wrote their statistics into the deleted buffer (use after free), and counts were lost"),
("Q03","resize deleted the buffer while the other thread was inside push, pop, size or recycle (non-atomic handshake, unguarded calls): use after free, lost elements"),
("Q08","pop of an element larger than a cache line leaked the object"),
("Q07","deallocate() destroyed the object at the read position instead of the one that allocate() made, or leaked it"),
("Q02","peek_range() over a wrapped or advanced buffer returned the signals of other elements"),
("Q10","a FIFO over existing memory allocated its signal array in bytes, not elements: heap overflow"),
("K01","split sent only as many elements of its range as the selected output had room for, but recycled all of them: elements lost"),
("T01","an expression nested in parentheses on the right of >> <= >= lost all but its last kernel, and leaked the pair"),
("T01",">= on several streams cloned only the first kernel of a chain it duplicates"),
("T02","the sources returned by += for a joined chain named a kernel in the middle of the chain"),
("U03","range() wrote one element beyond its vector for inexact steps"),
("M01","the message of every exception was leaked"),
("K03","filereader stopped early when chunks overlap, and marked the wrong chunk as the end: bytes lost"),
("M01","filereader never closed its file"),
("K04","search added the position of the chunk twice"),
("K03","copying a file chunk lost its index"),
("T06","kernels built over existing memory all had number 0: make_dot drew them as one vertex"),
("U04","the scheduler stored the core of a kernel after it had started the thread that reads it: threads not pinned"),
("Q09","a large element that was dropped leaked if its address was that of one which the same run had forwarded and the next kernel had freed"),
("Q09","an object pushed by copy was adopted, and freed twice, if its address was that of an element which the same run had forwarded and the next kernel had freed"),
("T06","a traversal ended at the first port that is not linked, and left out the rest of the graph"),
("T06","a traversal from a list that holds a kernel twice visited its links twice"),
("T01","nested splits with different numbers of ports were joined in wrong groups: reads beyond the group, kernels left out"),
("T03","a rejected second link to a port changed the buffer size of the first"),
("T04","the pairs of a rejected expression, and the kernels made for it, leaked"),
("K02","read_each of a range that can be read once left out every other element"),
("K05","random_variate sent one variate when none was asked for"),
("K05","kernels that select an input shared one random generator without synchronisation: data race (ThreadSanitizer)"),
("U03","range() of integers beyond 2^53 that are equal as doubles was empty"),
("U03","range() overflowed when the last step passed the limits of the type"),
("U03","the standard deviation of equal samples was NaN"),
("Q08","elements still queued when a stream was destroyed were not destroyed: class types and those above a cache line leaked"),
("U06","the check for system signals aborted at the first one: popping an element with nobody to give it to was asserted against"),
("R05","a kernel that the monitor handed to the scheduler before its start was started twice, and run by two threads at once"),
("K02","a copy or clone of a print kernel on several ports had one port only")]
assert len(w)==len(h)
open("/verif/known-findings.txt","w").write("# fixed: property=<id> <commit> <what failed>\n# finding: property=<id> match=/<regex>/ <what fails>\n"+"".join("fixed: property=%s %s %s\n"%(p,c,t) for c,(p,t) in zip(h,w)))
