F=[("C24","11fb47c","a data range that ends at 4 GiB, or is empty, made ItemsBuilder::link_data panic or was stored wrongly"),
("C03","3ce0a91","a load from a constant address of 2 GiB or more was never attributed to its data segment"),
("C15","a4d844b","malformed wasm modules (indices out of range, truncated sections, bad counts) made the parser panic"),
("C03","58cec09","tail calls, ref.func, bulk memory and table instructions and initialiser expressions produced no references"),
("C13","87c6fdb","names with control characters, quotes or backslashes gave invalid JSON"),
("C09","0dfecb5","an item that refers to itself was listed below itself by paths"),
("C15","cef8418","paths enumerated all paths although only the shown ones are needed, taking exponential time and memory"),
("C12","82a501e","diff used the size of only one of several items of the same name"),
("C10","586b555","instantiations with the same name and size were counted once by monos"),
("C23","4cc3af7","monos compiled exact names as patterns, failing on names such as `f(`"),
("C08","12056e9","the total row of top overflowed with --retained"),
("C13","2a1b12a","garbage -f csv panicked instead of writing the report"),
("C07","402cc08","dominators: selection, depth and row limits were ignored or applied differently in JSON and CSV"),
("C15","8057e7b","computing retained sizes overflowed the stack on deep graphs"),
("C11","715d2bb","C++ symbols with exponential or unprintable expansion made the program run out of memory or panic"),
("C16","091cdc4","object files with unreadable sections made the program panic"),
("C17","7e4ac73","functions whose addresses are given by index or range-list index were rejected, and impossible sizes overflowed"),
("C23","4eca793","a name shared by several items selected only one of them, and `<meta root>` could be selected"),
("C11","7c1387b","functions such as `a::hello` were grouped under a generic `a` because their last component begins with an h"),
("C17","d1fac12","functions of Mach-O files with DWARF 5 string indices were rejected, because section names are cut off there"),
("C16","e3fea19","ELF and Mach-O files whose headers count more entries than the file holds made the program abort or fill the memory"),
("C16","842b7e0","COFF files whose string table lies outside of the file, or that have no symbol table, made the program panic"),
("C19","0d49518","a report that could not be written in the end was reported as success (error of the last flush ignored)"),
("C26","2b28134","a JSON report whose last bytes (closing brackets) could not be written was reported as success"),
("C22","f0b1b9b","the web API exported `Items::diff` but no way to construct the options it takes"),
("C17","a6cfc68","functions of DWARF 2 and 3 programs, whose linkage names are in a vendor attribute, were listed under their plain names"),
]
import subprocess
p='/verif/known_findings.txt'
t=[l for l in open(p) if not l.startswith('fixed:')]
for a,b,c in F:
    full=subprocess.run(['git','-C','/repo','log','-1','--format=%h %s',b],capture_output=True,text=True).stdout
    assert full.strip(),b
    t.append(f"fixed: property={a} {b} {c}\n")
open(p,'w').write(''.join(t))
