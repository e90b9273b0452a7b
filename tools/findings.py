#!/usr/bin/env python3
"""Writes known_findings.json: open findings, and the defects repaired by fix: commits."""
import json
import os

OPEN = [
    dict(property="C02", signature="parser-loop-use-clause",
         what="opening a document with a stray backslash after a name in a use clause (`use A B\\;`) hangs the server: the PHP "
              "parser library (github.com/john-nguyen09/go-phpparser, not part of this repository) loops forever in its "
              "delimited list recovery"),
]
FIXED = """
C22 bec1ef3 concurrent requests and edits read documents without their lock; requests about documents which are not open crashed
C02 e824f34 a class which extends itself (or a cycle) made property and constant lookups loop forever
C03 63ac9e8 requests without params crashed the server with a nil dereference
C03 85aea37 a response nobody waits for blocked the connection forever
C03 bc85797 a second initialize left the state lock held, every later request hung
C01 a6b2a7a positions were wrong after edits of documents with CRLF or CR line endings
C01 f0836f2 characters were counted in bytes, not UTF-16 code units, so edits after é or emoji corrupted the text
C21 418afe4 files with %, #, ? or spaces in their paths were escaped twice and never found again
C05 e22448c watched-file events re-indexed the disk content over the text open in the editor, closing kept the editor's text
C05 32ced47 clearing the store kept all completion entries of the old index
C20 a3472ff folders were matched by string prefix: /a/b also removed or answered for /a/bc
C02 2619187 a folder which cannot be listed crashed indexing
C02 14cefbb a phpdoc type which is a lone closing bracket crashed the server
C10 3e6c4e9 names of extended interfaces were never resolved, so inherited interface members were not found
C10 e401737 qualified function and constant names fell back to the global namespace or ignored imported namespaces
C09 ec17ee2 class constants of equal names in different files overwrote each other and lost their visibility
C22 45b28e5 indexing rewrote the reference filter of a document in place while references searched it
C22 f4e88f7 the lists of stubs and folders were written and read without synchronisation
C14 66fe75b completion lists cut at the limit were announced as complete
C05 ce2024a an open document kept types resolved before other files changed
C15 45dc320 one debouncer for all documents dropped deprecation diagnostics of every document but the last
C10 e8e3c74 function calls were resolved with the imports of the last namespace block of the file
C12 1d757d9 references of a function included functions of other namespaces with the same name, and misread properties
C05 056ae49 completion entries of deleted symbols stayed in the index forever
C08 a25e0ed a kill between replacing the symbol list and committing made removed symbols undeletable
C11 a726d0e members of union types were incomplete or wrong because partial results were cached
C02 3254195 an unterminated doc comment at the end of a document hung the server, heredocs at the end crashed it
C02 fa779c0 half-typed parameter lists and trait uses crashed the server
C10 9b64ef0 going to the definition of interfaces in instanceof and constant accesses led nowhere
C11 4766cb5 private members were visible from code in front of the class
C12 49953a8 references of a declaration were not found from any namespace block but the first of a file
C05 278ce6a deleting the file of an open document removed its symbols
C05 b1e176e documents being indexed while their folder was deleted stayed in the index
C05 782e434 files which are not PHP were indexed when deleted and created again
C01 722ca40 names which start with non-ASCII characters lost bytes, files which start with a byte order mark were shifted
C21 1abb181 files and folders with + or parentheses in their names were indexed twice or not at all with clients which escape these
C14 32f5e1c completion offered names of other namespaces behind a typed namespace
C14 a075e94 accepted completions inserted the use statement into another namespace block of the file
C14 e3c1df9 accepted completions referred to other symbols than the completed one: taken aliases, names hidden by the namespace
C14 3e245c1 static properties were completed without their dollar sign
C10 a61b36d constants of define() were put into the surrounding namespace
C12 603c1c7 uses inside casts, unary operators, ternaries, throw, yield, switch and other constructs were not found
C12 b10c4e2 uses in foreach keys, destructured values and bodies without braces were not found
C12 0456eed uses in the values of compound assignments were not found
C13 acc1206 variables of catch clauses did not exist
C13 d1435b9 static variables did not exist
C12 a72af5d uses in default values and constants were not found
C12 6912e9c uses inside computed member names were not found
C12 dfb82dc uses in operands of accesses, calls and instanceof were not found
C10 a0968cb an access hid the expressions in front of ::
C11 375dd43 visibility was decided by the wrong class around anonymous classes and traits
C13 8534def variables used by reference in closures had the name of the ampersand
C12 cf887a4 code inside arrow functions was not analysed
C10 33d6b33 an access hid the expressions of its member name
C12 0d03baa native return, property and nullable types were no references
C14 960dbda no interfaces were completed behind extends of an interface
C13 97dc037 renaming a variable left the closures which use it behind
C12 63276c9 nullable types were looked up with their question mark
C14 b225027 no members were completed when code follows the arrow directly
C14 109f874 qualified names of traits were not completed
C14 5fb9662 define() with a namespaced name was completed to a constant which does not exist
C14 5df611e interfaces were offered behind extends of a class
C14 394f550 anonymous classes were offered by their internal names
C13 9391588 renaming a variable left occurrences behind
C14 7942071 the parameters were not offered at the end of arrow functions
C13 22866b7 renaming a variable lost its dollar sign
C13 b439003 variables in ${name} inside of strings did not exist
C13 7d21f6a renaming a global variable left the functions which declare it global behind
C13 373756d variables with longer names in ${name} inside of strings did not exist
C10 c9b7621 functions and constants of mixed use groups were not imported
C15 1821179 deprecated constants which are inherited were not reported
C15 405f09a unused imports were not reported if a fully qualified name begins with them
C15 d7384ce values read by a later iteration or through references were reported as never read
C08 428ff28 a server killed while it created its storage left files which no later start could open
C17 e9fb088 workspace symbols did not find properties by the name they are shown with
C17 140c5c4 constants of define() within other expressions were not found
C17 ca2f5e0 words which end in a non-ASCII character were indexed incompletely
C17 132cbf3 all searches of one query shared one limit, so that names were not found even when asked for exactly
C16 19bafce parameters declared callable were shown without their type
C16 3b9426b descriptions with CRLF line ends were cut after their first line
C10 24e7104 members behind :: and -> with spaces or comments in between were not found
C16 0f77439 calls in the arguments of new class showed the constructor of the anonymous class
C16 7f41aec parameters declared iterable were shown as a class of the namespace
C16 70c22f8 the active parameter was the next one at the end of an argument
C08 913e156 a kill while unsaved text was stored left its names in the index for ever
C16 31f2e09 self:: in the arguments of new class was the anonymous class
C20 925aa14 symbols of the stubs were found once for every workspace folder
C20 adb1c82 documents which stay open while their folder is removed or not yet added were forgotten
C09 3c1ae64 members on the line of their class got its doc comment, those behind another on one line got that of the first
C09 3f8bfb5 typed properties were all taken for public and not static
C09 aa2901b the descriptions of properties were only read from behind @var
C09 e920fb6 untyped parameters of @method tags were shown with their names as types
C09 f60e366 of Foo|Foo[] only the first was kept
C09 e8b7c3d self in the doc comments of interfaces lost the namespace
C09 ad46509 default values of the parameters of @method tags were not shown by hover
C09 83f80b8 members were not completed once the typed word had an accent
C22 1f997f8 removing a folder whose files were being indexed could crash the server
C04 47dcc8a the space of overwritten lists of symbols was never given back
C09 663b3f3 $this->method() in a trait had no signature, no type and no completion
""".strip().split("\n")

v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for line in FIXED:
    p, h, w = line.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, h, w))
with open(os.path.join(v, "known_findings.json"), "w") as f:
    json.dump(dict(findings=OPEN, fixed=fixed), f, indent=1, ensure_ascii=False)
    f.write("\n")
