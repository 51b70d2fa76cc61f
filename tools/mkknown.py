"""Writes /verif/known_findings.json: the findings recorded (not repaired) and the defects repaired."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, X = [], []


def find(id, prop, what, keys):
    F.append(dict(id=id, property=prop, what=what, keys=list(keys)))


def fixed(prop, commit, what):
    X.append("fixed: property=%s %s %s" % (prop, commit, what))


find("late-global-const", "P04", "a function compiled before a global constant's declaration can still assign to it",
     ["late:%s:%s" % (k, a) for k in ("fn", "method", "arrow") for a in ("X = 2;", "X += 2;", "id(X = 2);", "return X = 2;")])

find("strftime-seconds", "P36", "Datetime.strftime('%s', t) is off by the zone's offset from UTC when the local time is not UTC", ["strftime %s in a zone"])
find("find-third", "P17", '"aXbXcX".find("X", 3) is 6: from the third occurrence on, the lengths of the earlier ones are counted more than once (the repository\'s tests pin such a value)', ["find-third"])
find("uuid-null", "P42", "the texts given by UUID.generate(), generateRandom() and generateTime() are 37 characters long, the last one being a null byte (the repository's tests pin that length)", ["uuid-null:" + f for f in ("generate", "generateRandom", "generateTime")])

fixed("P01", "52f57a9", "constant folding of operands that were not constants (x - 2 - 3 with a captured x, not not true), and ** in single precision")
fixed("P06", "6a7a0c8", "a class with a superclass declared in a local scope could not be used and misaligned the locals behind it; annotated abstract classes and traits wrote to the wrong object")
fixed("P09", "f5dba40", "'continue' outside of a loop crashed the compiler")
fixed("P02", "12aeeae", "'break' in a loop containing an enum or class variable jumped to the wrong place")
fixed("P03", "8042e70", "a default value referring to its own parameter read an unwritten stack slot")
fixed("P04", "5b7f6e3", "a global constant could be redeclared")
fixed("P06", "0c40a0d", "'super' of a class declared inside another class' method hid the enclosing class' superclass")
fixed("P06", "51aa598", "'use' of something that is not a trait crashed")
fixed("P37", "0e2c677", "getAttribute did not find class constants")
fixed("P24", "707cca7", "JSON.stringify of a list or dict with a nested unserialisable element crashed")
fixed("P11", "789f4e0", "the empty string and strings with an embedded NUL converted to a number")
fixed("P17", "bca1186", "split() did not check its second argument")
fixed("P10", "8174813", "findLast() with a non-string argument crashed")
fixed("P17", "ac088d8", "replace() of an empty string never returned")
fixed("P17", "e88e571", "count() of an empty string read past the end of the string")
fixed("P17", "acb8a68", "lower(), upper() and title() of a string with an embedded NUL returned uninitialised bytes")
fixed("P17", "5605ba3", "rightStrip() kept one character of a string of only whitespace")
fixed("P17", "36da266", "format() of a template with an embedded NUL returned uninitialised bytes")
fixed("P10", "c21cf34", "repeat() with a count below one, or with a huge result, overflowed its buffer")
fixed("P17", "c50a72c", "collapseSpaces() wrote one byte past its buffer")
fixed("P07", "a399cbe", "wrap() read past its buffer and overwrote characters that are not whitespace")
fixed("P21", "7a42776", "Stack.peek() on an empty stack read out of bounds")
fixed("P21", "3bde0a6", "Queue.peek() on an empty queue returned a stale value")
fixed("P21", "2384fb3", "growing a queue that wraps around lost elements")
fixed("P07", "f867f10", "elements at the start of a full queue were not marked by the collector")
fixed("P21", "e15079a", "Queue.newWithSize() with a fractional size")
fixed("P21", "ba88794", "Stack.newWithSize() with a fractional size")
fixed("P37", "7d6b754", "Object.hash() included uninitialised bytes in its result")
fixed("P08", "fa3653b", 'tables no longer grow with every insertion that follows a deletion')
fixed("P15", "87184dc", 'removing values from a set could hang later lookups, and removing a value twice corrupted its length')
fixed("P20", "8b0d160", 'a dictionary that has had keys removed prints no stray separator')
fixed("P12", "f3b3946", 'a dictionary emptied by removals is falsy')
fixed("P12", "0d6370f", 'numbers compare by value, so 0 and -0 are equal')
fixed("P10", "90c35eb", 'NaNs with a payload were taken for other kinds of values')
fixed("P12", "5bc1cc6", 'ordering strings that have bytes above 127 or an embedded NUL')
fixed("P12", "9a086e6", 'a string that starts with a NUL is not falsy')
fixed("P08", "1d98c95", 'the text of a missing dictionary key leaked')
fixed("P08", "9a2e13b", 'setting the prefix of a logger twice leaked the first')
fixed("P27", "7b929c9", 'returning from or breaking out of nested with blocks left files open')
fixed("P27", "1870c0d", 'a file handle that outlives its with block, or is dropped by an error, is neither used after it was closed nor leaked')
fixed("P27", "ee40bcd", 'write() and writeLine() write all of a string that holds a NUL, and writeLine() to a handle opened with rb is an error')
fixed("P27", "bb71a42", 'readLine() splits no long lines, loses no NUL and rejects sizes below one')
fixed("P09", "02f8fea", "the scanner never returned from a lone '#'")
fixed("P09", "2cf308c", 'a source that ends in an unterminated string was read past its end')
fixed("P11", "fac7be7", 'a number such as 1x5 or 10x5 is not a hexadecimal literal')
fixed("P39", "7a2f7b2", '\\\\x escapes at the end of a string read past it, and took anything strtol() does')
fixed("P09", "ea07ccc", 'statements that begin with a list or a dictionary are scanned again from where they begin')
fixed("P09", "37c9208", 'an annotation that is not closed made the compiler hang')
fixed("P32", "52e5d05", 'more variables, parameters, cases or elements than the compiler has room for are compile errors')
fixed("P28", "1fee470", 'a built-in module is found by its whole name only')
fixed("P32", "4560e5c", 'calls nested too deeply overflow the stack with an error instead of corrupting memory')
fixed("P31", "f48032c", "a module that does not compile left the interpreter's stack as it was")
fixed("P09", "69dac7d", 'code nested too deeply is a compile error instead of overflowing the C stack')
fixed("P09", "f59012d", 'an annotation that fails to parse crashed the compiler on the member behind it')
fixed("P09", "5a1e617", 'names declared once the constants have run out crashed the compiler')
fixed("P39", "e0632aa", 'a statement that begins with a raw string counted its lines twice and read its escapes')
fixed("P15", "3faca0a", 'set() took values that are not hashable')
fixed("P35", "35efb25", 'Random.select() of an empty list divided by zero')
fixed("P17", "e79bd68", 'string methods stopped at an embedded NUL, and replace() read past its copy of such a string')
fixed("P10", "35ebb2e", 'the Log module took arguments that are not strings for strings')
fixed("P40", "c52a1b1", 'Log printed the month before the current one')
fixed("P40", "1dac5ac", 'fatal() and fatalln() of a logger left its prefix out, and fatal() ended the line')
fixed("P10", "0f100fe", 'FFI.load() of something other than a string crashed')
fixed("P10", "551eb3a", 'BigInt.new() went on after it reported the wrong number of arguments')
fixed("P23", "2f2edbf", 'BigInt.new() of a Result took the Result itself for the BigInt in it')
fixed("P10", "17888ea", 'operations of a BigInt went on after they reported the wrong number of arguments')
fixed("P10", "c156bb6", 'freeing what FFI.load() had made before it failed crashed')
fixed("P10", "b2987df", 'JSON.stringify() overflowed its buffer given a negative or a huge indent')
fixed("P22", "193c025", 'a Buffer was read and written past its end given an index outside it')
fixed("P35", "8efba55", 'Math.min() and Math.max() took a first argument that is not a number, and read past an empty list')
fixed("P35", "e42e078", 'Random.range() divided by zero, or left its range, given an upper bound below the lower')
fixed("P26", "25494ae", 'Path.join() read and wrote outside its parts when one was empty or only separators')
fixed("P26", "0da7346", 'Path.isDir() of something that does not exist looked at an uninitialised answer')
fixed("P10", "94cadb9", 'readString() and subarray() of a Buffer ignored their end given more than two arguments')
fixed("P26", "5319ba1", 'System.mkdirAll() wrote before its path given an empty one, cut long ones, and failed when a parent existed')
fixed("P34", "f07f968", 'writing to a socket nobody reads from ended the interpreter with SIGPIPE')
fixed("P10", "2a0b3df", 'Object.prettyPrint() crashed when it could not stringify its argument')
fixed("P08", "4a03ee2", 'Process.run() and exec() leaked the argument array given a list with a non-string')
fixed("P34", "7ae7e7f", 'Process.run() and exec() of an empty list handed the child a NULL program name')
fixed("P34", "7eb2a91", 'a program Process could not start wrote the buffered output of the parent a second time')
fixed("P34", "a90f33a", 'the error of Process.run() for a failing program was whatever errno happened to hold')
fixed("P34", "3e81146", 'Process.run() overran its buffer, hung on more output than a pipe holds and never closed the pipe')
fixed("P34", "f93cee8", 'Process.run() and exec() took a failed fork for a started process and leaked after a failed pipe')
fixed("P34", "6741636", 'Process.kill() without arguments took whatever was on the stack for a process id')
fixed("P07", "0b78172", 'a collection while a wrapped queue grew walked past the end of its buffer')
fixed("P11", "6458737", 'toNumber() refused the text of numbers too small to be normalised')
fixed("P16", "1f36c78", 'sort() took far more than quadratic time, a list of some hundred elements never finished')
fixed("P13", "d40985c", 'pop() of a list took the position just behind its last element')
fixed("P13", "85e10a9", 'extending a list with itself never ended')
fixed("P16", "c7ff525", 'sort() compared strings only up to their first NUL')
fixed("P17", "def2c50", 'join() cut its strings and delimiter at their first NUL')
fixed("P17", "0eb5a5e", 'split() with a huge split count split nothing')
fixed("P17", "c2f9301", 'find() with a huge count returned 0')
fixed("P18", "762da16", 'slices with bounds beyond the int range')
fixed("P18", "f3b5bdf", 'indexing a string with something that is not a number')
fixed("P20", "12481ae", 'printing a set wrote past its buffer')
fixed("P20", "8e0a85a", 'printing lists and dictionaries that contain each other overflowed the stack')
fixed("P20", "3632548", 'printed text of values that hold a NUL was cut short')
fixed("P19", "7d37881", 'copy() of an instance left out its private attributes')
fixed("P19", "1e7f19b", 'deepCopy() shared nested sets with the original')
fixed("P19", "82c0aec", 'deepCopy() of a value that contains itself, or that is nested deeply, overflowed the stack')
fixed("P12", "333affc", 'comparing lists and dictionaries that contain themselves overflowed the stack')
fixed("P20", "5804e81", 'toString() of a trait gave the text of a class')
fixed("P24", "9972672", 'JSON.stringify() gave invalid JSON for strings with control characters and cut strings at a NUL')
fixed("P24", "491815d", 'JSON.stringify() cut numbers to six digits')
fixed("P24", "6ac5d5f", 'JSON.stringify() gave invalid JSON for numbers that JSON cannot express')
fixed("P24", "558d9ab", 'stringifying a very deep or cyclic value as JSON, and parsing very deep JSON, overflowed a stack')
fixed("P24", "8c0a28c", 'JSON.parse() accepted a minus sign without digits, commas before a closing bracket and anything after a NUL')
fixed("P24", "5de8e71", 'JSON.parse() gave inexact numbers for fractions, exponents and numbers of many digits')
fixed("P24", "233b613", 'JSON.parse() combined a high surrogate with anything that followed it')
fixed("P21", "b0ad438", 'the collector marked the released slots of an empty queue whose end is the end of its storage')
fixed("P22", "1a29695", 'the big endian writers of a Buffer returned the value with its bytes swapped')
fixed("P22", "c6ba9a4", 'reading bytes that are not a number as a floating point value of a Buffer forged other values')
fixed("P23", "b4cb8a5", 'BigInt.new() and the operands of a BigInt truncated numbers to 32 bits')
fixed("P23", "7868265", 'comparing two negative BigInts of different lengths gave the opposite order')
fixed("P23", "b650832", 'a BigInt result of zero could be negative')
fixed("P23", "ce367e2", 'the bitwise results of a BigInt kept leading zero words and compared unequal')
fixed("P23", "7d7d4bc", 'BigInt.new() accepted text without any digit')
fixed("P24", "5004ce4", 'JSON.parse() gave the wrong character for surrogate pairs of the planes 2, 4, ... 16')
fixed("P25", "9bbc813", 'Hashlib.hmac() with an empty key hashed with uninitialised memory')
fixed("P26", "2e0f23a", 'Path.extname() took the extension from a directory')
fixed("P26", "6c694f4", 'Path.basename() of one letter was empty and kept trailing separators')
fixed("P26", "76ed333", 'Path.dirname() ignored one letter directories and took a trailing separator for a name')
fixed("P27", "7824458", 'System.chmod() removed all permissions for a mode that is not octal')
fixed("P27", "f7d1906", 'IO.copyFile() emptied a file copied to itself and reported success when the copy failed')
fixed("P27", "5a2bff1", 'read() gave nothing for files that have no size and accounted for a directory as endless memory')
fixed("P27", "afbde8a", 'write() and writeLine() reported success when nothing could be written')
fixed("P28", "4798d27", "the first 'import Argparse;' of a program defined Argparse as nil")
fixed("P28", "9e25ab4", 'the REPL applied constants to imported modules, kept those of lines that failed to compile and those declared again as variables')
fixed("P28", "1451978", 'importing a directory ended the process claiming that memory had run out')
fixed("P28", "d8c58c2", 'a module that called an importing function while it ran was bound to the wrong module')
fixed("P31", "9bfd583", 'the REPL took quotes and braces in comments for code and kept waiting for more lines')
fixed("P31", "66556cf", 'a blank line of piped input ended the REPL')
fixed("P31", "8dcf3e3", 'after a runtime error closures saw other values in the variables they had captured')
fixed("P12", "c99dac4", 'comparing very deeply nested lists or dictionaries crashed')
fixed("P32", "3de6776", 'unpacking a huge list as arguments overflowed the stack')
fixed("P32", "e06322f", 'a constructor with more than 255 var or private parameters crashed')
fixed("P33", "d5249cd", 'Sqlite read text containing NUL cut short and left BLOBs out of the rows')
fixed("P33", "3114ba2", 'Sqlite counted question marks in text and comments as parameters')
fixed("P33", "6c6f558", 'Sqlite bound values it does not support as NULL')
fixed("P33", "38affcd", 'Sqlite queries without rows gave nil unless they began with an S')
fixed("P33", "0b46afa", 'a failed Sqlite connection could be collected while its error was reported')
fixed("P33", "116fd5a", 'Sqlite ignored all statements after the first and everything after a NUL')
fixed("P34", "bea7aef", 'Process passed arguments containing NUL cut short')
fixed("P34", "d467b04", 'Process reported programs killed by a signal as successful')
fixed("P34", "9194800", 'Process.run gave the output read so far as all of it when reading failed')
fixed("P34", "08e1a8e", 'closed sockets used whatever file got their descriptor next')
fixed("P34", "fbe8de4", 'socket ports and sizes out of range were wrapped around')
fixed("P35", "34ce884", 'gcd and lcm of zero, negative, large and non-finite numbers crashed or were wrong')
fixed("P35", "1bbdcf2", 'average of an empty list was not a number')
fixed("P35", "b135945", 'abs of negative zero was negative zero')
fixed("P35", "1ccb16b", 'Random.range gave numbers below a fractional bound and only half of large ranges')
fixed("P36", "3422633", 'strftime rendered times out of range from uninitialised memory')
fixed("P36", "09f09c8", 'strftime ignored the rest of a format after NUL')
fixed("P36", "d0bdb04", 'strptime took times as local while strftime gives UTC')
fixed("P37", "77c94cf", 'toDict gave a class the values of its superclasses')
fixed("P38", "389f769", 'Argparse printed the metavar of every number option')
fixed("P38", "38c0e91", 'Argparse failed on an empty option value')
fixed("P38", "4db7a80", 'Argparse counted a repeated flag as two required ones')
fixed("P38", "b0d9e1e", 'Argparse turned option values 0 and "" into nil')
fixed("P38", "22c52b4", 'Env names and values were cut at NUL and = in a name matched others')
fixed("P38", "60cc981", 'input() cut its prompt at NUL')
fixed("P38", "2313ffe", 'readLine() took a read failure for the end of the file')
fixed("P40", "c69b4b6", 'mock() without arguments read past them')
fixed("P40", "289235b", 'methods of a mock refused the arguments of the mocked ones')
fixed("P40", "02ca9a9", 'Log cut messages at NUL')
fixed("P41", "d193fe0", 'HTTP post()/put() bodies overflowed their buffer and ended at a null byte')
fixed("P41", "6c441b2", 'HTTP requests leaked their list of headers')
fixed("P41", "85bb793", 'HTTP functions called without arguments read past their arguments')
fixed("P41", "843078a", 'HTTP response headers ending in a bare newline were cut short or crashed')
fixed("P41", "a5082fd", 'HTTP requests that failed half way leaked what they had received')
fixed("P41", "f56f7b8", "HTTP clients carried the previous request's method, body and headers over into the next one")
fixed("P41", "a2cf7ae", 'HTTP client setCertFile() and setKeyPass() set the key file')
fixed("P41", "d6cd49a", 'HTTP constants with the wrong value')
fixed("P42", "e018e0a", 'Term.getSize() gave the columns as pixels, and garbage without a terminal')
fixed("P42", "eb9abaf", 'Net.parseIp4() ignored everything after a null byte')
fixed("P06", "b4ae803", 'a function in a private attribute could not be called as this.name()')
fixed("P06", "315a8d7", 'methods of a variable with the name of the surrounding class')
fixed("P05", "8878ccf", 'the default of an optional parameter is only evaluated when it is needed, where its parameter lives')
fixed("P23", "74ef35d", 'BigInt bitwiseOr() and bitwiseXor() took the sign of the wrong operand')
fixed("P27", "432cbeb", 'mkdirAll() took backslashes in names for separators, and refused paths with several trailing separators')

if __name__ == "__main__":
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump(dict(findings=F, fixed=X), f, indent=1)
        f.write("\n")
