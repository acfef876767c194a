#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording and anchors are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
      quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a, where=b) for a,b in mech],
                   observe_at=observe or [], hook_needed=hook)))
FS="src/file.c"; MAIN="src/detox.c"; CS="src/clean_string.c"; CU="src/clean_utf_8.c"; TB="src/table.c"; PT="src/parse_table.c"
FI="src/filter.c"; SQ="src/sequence.c"; CF="src/config_file.c"; YY="src/config_file_yacc.y"; LX="src/config_file_lex.l"; PO="src/parse_options.c"
SYS=["rename(2) calls of the process","directory tree before and after","stdout, stderr, exit status"]
INL=["stdout of inline-detox / detox --inline","names after a batch rename"]

# ---- A. renaming files -------------------------------------------------------
p("C01","Renaming never overwrites or loses a file",
  """A run never replaces, removes or alters an existing file, directory, symlink or special file: every
  object present before the run is present afterwards with the same identity and contents, under exactly one
  (possibly new) name for each name it had. If the cleaned name is already taken by anything else in the directory (also a
  dangling symlink, a hard link to the same file, or a file that got that name earlier in the same run), or it cannot be determined whether it is, the file keeps its old name.""",
  ["inputs","histories","schedules"],"all directory trees, argument lists, orders in which a directory is listed, and renames made earlier in the run",
  "Collisions depend on pairs of names and on what earlier renames in the same run produced; no unit test runs the renamer, the legacy scripts try a handful of fixed trees.",
  [FS,MAIN],[("lstat of both names before rename; refuse unless same object with one link","src/file.c parse_file")],
  [("directory entries","name -> object","file system")],SYS)
p("C02","A dry run changes nothing and announces what the real run would do",
  """With -n/--dry-run nothing in the file system is created, removed, renamed or written. Its output is one "old -> new" line for every
  file whose cleaned name differs and is free at that moment, no line for any other file, with descents into
  directories continuing under the unchanged names; for a set of names without collisions these are exactly the renames a real run performs.""",
  ["inputs","configurations"],"all trees, arguments, sequences and option combinations containing -n",
  "Needs comparison of two whole-tree runs over arbitrary trees; existing tests never run -n on a tree.",
  [FS,MAIN,PO],[("dry_run returns before rename","src/file.c parse_file")],None,SYS)
p("C03","A file is renamed only to its cleaned base name, in its own directory",
  """Every rename takes a file to the result of running the selected sequence over exactly its last path
  component, inside the same directory: no other path component is altered, nothing is ever moved between directories, and a result that is empty or contains a slash is
  refused with a message. A file whose name is unchanged by the sequence, an argument ending in a slash, and the names "." and ".." are not renamed.""",
  ["inputs","configurations"],"all names (bytes), path spellings of arguments, sequences",
  "Tests run filters on strings, not the path handling around them, and never with filters that can emit slashes, dots or nothing.",
  [FS,SQ],[("strrchr '/' split and rejoin","src/file.c parse_file"),("is_protected","src/file.c")],None,SYS)
p("C04","Hidden and ignored names are skipped while traversing, not when named",
  """While working through a directory's contents, entries whose name starts with a period and entries whose
  name equals an 'ignore' entry of any loaded configuration file are neither renamed nor descended into, at every depth and regardless of which other entries were seen before; names that merely contain or start with an ignored
  name are not skipped. A file or directory named on the command line is processed whatever its name.""",
  ["inputs","configurations","schedules"],"all trees, ignore lists of any length, listing orders",
  "The lookup walks a stateful list, so the outcome depends on the order of earlier entries; tests never traverse with several ignored names.",
  [FS,"src/filelist.c"],[("ignore_file","src/file.c"),("filelist iteration","src/filelist.c")],None,SYS)
p("C05","Symlinks are never followed; special files need --special",
  """Without --special only regular files and directories are renamed; with it every other type (symlinks, FIFOs,
  sockets, devices) is renamed too, by its own name. A symlink met during traversal or given without a trailing slash is never descended into or resolved: its target's name and contents stay untouched, and a symlink to a directory is
  treated as a special file.""",
  ["inputs","configurations"],"all trees containing links and special files, with and without --special, -r",
  "Unit tests do not create links or special files in trees.",
  [FS,MAIN],[("lstat + S_ISREG/S_ISDIR tests","src/file.c parse_dir, src/detox.c main")],None,SYS)
p("C06","Traversal is complete, to the right depth, under the current names",
  """A directory argument is itself cleaned and then all its eligible entries are cleaned; below that, directories are
  descended into if and only if -r is given, to any depth. A directory that was renamed is traversed under its new name, and one that
  was not (blocked, failed, dry run) under its old name, so no eligible entry is ever left out because of what happened to its ancestors or siblings.""",
  ["inputs","histories"],"all trees (depth, width, name lengths), arguments and outcomes for ancestor directories",
  "Completeness is a statement about every entry of every tree; legacy tests look at a few small ones.",
  [FS,MAIN],[("parse_dir uses the name returned by parse_file","src/file.c"),("argument loop","src/detox.c")],None,SYS)
p("C07","Each directory entry is processed exactly once per traversal",
  """During one traversal of a directory each entry is cleaned once, with a single application of the sequence to the name it had when
  the directory was entered, whatever order the directory is listed in and even if the system lists renamed entries again under
  their new names. The set of renames therefore does not depend on listing order except where two names compete for one target.""",
  ["schedules","inputs"],"all listing orders and all POSIX-permitted ways in which a directory stream shows entries changed after it was opened",
  "Tests see one listing order of small directories; the behaviour only shows for other orders or big directories.",
  [FS],[("entries are read in full before the first rename","src/file.c parse_dir")],None,SYS)
p("C08","A failure on one file is reported and does not affect the others",
  """If an argument does not exist, a rename is refused or fails, or a directory cannot be opened or one of its entries not be examined, a message naming the file or the reason goes to stderr, the file concerned
  keeps its name, and every remaining entry and argument is processed as if it had been the only
  one; the run then ends with status 0. Only running out of file descriptors while opening a directory ends the run early, with a failure status and no further renames.""",
  ["fault_sequences","inputs"],"all placements of failing system calls (rename, opendir, lstat of an argument) and their errno values",
  "Tests never make a system call fail.",
  [FS,MAIN],[("error branches of parse_file, parse_dir and main","src/file.c, src/detox.c")],None,SYS)
p("C09","Running again changes nothing",
  """Running the shipped sequences 'default', 'lower' or 'utf_8' over their own output leaves it unchanged, whatever the original name was. Consequently a second detox run
  over a tree performs no rename except for names that were blocked the first time and are now free.""",
  ["inputs","histories"],"all names (any byte string) and trees",
  "Idempotence quantifies over all names; tests only compare single applications on samples.",
  [CS,CU,SQ,"src/builtin_table.c","src/config_file_spoof.c"],[("filter composition","src/sequence.c sequence_run_filters")],None,SYS+INL)
p("C10","What is printed is what happened",
  """With -v, "Scanning: arg" is printed for each argument and "old -> new" for each rename attempted, with the exact path spellings used,
  in order; without -v or -n stdout is empty. Each refused or failed rename and each unusable argument or directory yields
  exactly one line on stderr naming it or its reason, and successful work yields none.""",
  ["inputs","histories","configurations"],"all trees, options and outcomes",
  "Tests do not check the renamer's output.",
  [FS,MAIN],[("printf/fprintf next to each outcome","src/file.c, src/detox.c")],None,SYS)
# ---- B. filters ---------------------------------------------------------------
p("C11","The default sequence yields names that are easy to handle in a shell",
  """Whatever the input bytes, the output of the shipped sequences default, lower, utf_8, uncgi and iso8859_1 contains no
  blank, no ASCII control character and none of ! " $ & ' ( ) * / : ; < > ? @ [ \\ ] ` { | }, does not start with '-', '_' or '#', and has no run of separators that wipeup would reduce; bytes
  of 0x80 and above pass through default untouched. An already clean name is unchanged.""",
  ["inputs"],"all byte strings free of NUL",
  "Unit tests sample tens of strings per filter; the guarantee is about composition of filters over all strings.",
  ["src/builtin_table.c","table/safe.tbl",CS,"src/config_file_spoof.c"],[("safe table","src/builtin_table.c"),("clean_safe, clean_wipeup",CS)],None,INL)
p("C12","wipeup removes leading and collapses repeated separators, nothing else",
  """wipeup drops all leading '-', '_' and '#', then replaces each maximal run of '-' and '_' by '-' if the run contains one and '_' otherwise; with
  remove_trailing, '.' joins the set and wins over '-', which wins over '_'. All other bytes
  keep their value and order.""",
  ["inputs","configurations"],"all byte strings, with and without remove_trailing",
  "Sampled by unit tests only.",[CS],[("clean_wipeup",CS)],None,INL)
p("C13","uncgi decodes exactly one level of %XX and '+'",
  """uncgi replaces each '%' followed by two hexadecimal digits (either case) by that byte and each '+' by a space, scanning left to right without looking at its own output; an incomplete or
  malformed escape and every other byte pass through unchanged. (A decoded NUL ends the name.)""",
  ["inputs"],"all byte strings","Sampled by unit tests only.",[CS],[("clean_uncgi",CS)],None,INL)
p("C14","max_length bounds the name and preserves the extension",
  """max_length leaves names no longer than the limit (default 256 bytes) unchanged; a longer name becomes exactly limit bytes long, namely a prefix of the
  name followed by its extension, where the extension starts at the last period, or at an earlier period within five bytes before it (double extension) unless that is the first byte.
  A name with no extension is cut off at the limit, and one whose extension alone would fill the limit is left alone with a warning.""",
  ["inputs","configurations"],"all byte strings and all limits",
  "Interaction of limit, length and period positions is a large case space; tests have a few rows.",[CS],[("clean_max_length",CS)],None,INL)
p("C15","lower changes exactly the ASCII capitals",
  """lower maps A-Z to a-z and leaves every other byte, including all bytes of 0x80 and above, as it is, so
  length is preserved and the filter is idempotent.""",["inputs"],"all byte strings, all locales",
  "Sampled by unit tests only.",[CS],[("clean_lower",CS)],None,INL)
p("C16","utf_8 maps characters by table and neutralises invalid encodings",
  """utf_8 decodes the name as UTF-8 and replaces each character by its table row, else by the table's default, else leaves its bytes unchanged; with the shipped table, control characters and the hidden or lookalike characters it lists become plain ASCII or disappear. A byte that
  cannot start a character or a character cut short becomes '_' without swallowing the byte that follows, values above U+10FFFF become '_', and an encoded NUL becomes a
  visible marker; well-formed unmapped characters are never altered.""",
  ["inputs","configurations"],"all byte strings (valid and malformed UTF-8) and all tables",
  "The space of malformed sequences and tables is far beyond samples.",[CU,TB],[("clean_utf_8",CU)],None,INL)
p("C17","Latin-1 and CP-1252 names are transcoded to UTF-8 character by character",
  """The iso8859_1 filter leaves bytes below 0x80 alone and replaces each byte of 0x80 and above by its table row, else the table's default, else leaves it. With the builtin
  iso8859_1 and cp1252 tables every such byte that denotes a character comes out as that character's UTF-8
  encoding (or the documented safe replacement), and the shipped sequences built on them, including iso8859_1-legacy, apply that transcoding to each input byte once.""",
  ["inputs","configurations"],"all byte strings and tables","Tests check rows one at a time, and not the sequences that combine the tables.",
  [CS,"src/builtin_table.c","src/config_file_spoof.c"],[("clean_iso8859_1",CS),("builtin tables","src/builtin_table.c")],None,INL)
p("C18","A sequence applies its filters once each, in the order written",
  """The result for a name is the composition of the sequence's filters in configuration order, each with its own table
  and parameters, also when one filter kind occurs several times with different tables (chaining through tables without a default). Names are independent: the result for one name
  does not depend on names processed before it in the run.""",
  ["inputs","configurations","histories"],"all sequences (any filters, tables, parameters) and all series of names",
  "Tests exercise single filters; composition and freedom from state across names are untested.",
  [SQ,FI],[("sequence_run_filters, filter_run",SQ)],None,INL)
p("C19","No input, table or configuration causes a crash or an out-of-bounds access",
  """For every name, stream, translation table and configuration text the program terminates normally, and every read and write stays within the memory reserved for it; in particular the
  space reserved for a filter's output suffices for whatever mix of table rows, defaults, marker strings and pass-through bytes the input produces.""",
  ["inputs","configurations"],"all names, tables (short, long or empty rows, long defaults), streams and configuration files",
  "Overruns need particular combinations of table extremes and inputs and are invisible to output comparisons.",
  [CS,CU,TB,FS,PT],[("allocation sizes","src/clean_string.c, src/clean_utf_8.c, src/table.c")],None,["sanitizer reports","exit status"])
# ---- C. tables ---------------------------------------------------------------
p("C20","A translation table file means what detox.tbl(5) says",
  """Rows between 'start' and 'end' map the decimal, hexadecimal or octal value to the translation that follows, bare or in single or
  double quotes (so it may be empty or contain blanks), the last row for a value winning; 'default' sets the replacement for all unmapped values, and an empty or absent one
  lets them through. Comments, blank lines, lines outside blocks and malformed rows have no effect.""",
  ["inputs","configurations"],"all table texts",
  "Only the shipped tables are ever parsed by tests.",[PT],[("parse_table",PT)],None,INL)
p("C21","A loaded table behaves as an exact map, whatever its size and keys",
  """Looking up a value gives the translation last stored for that value, and nothing for a value never stored, for any number of
  rows, any distribution of keys (including ones that collide) and any number of redefinitions; a table of any size loads completely.""",
  ["inputs","configurations"],"all sets of rows, insertion orders and sizes",
  "Collisions and capacity limits only show for particular key sets and for big tables.",[TB,PT],[("table_put, table_get, table_resize",TB)],None,INL)
p("C22","The builtin tables and configuration equal the shipped files",
  """For every possible character the builtin tables safe, unicode, iso8859_1 and cp1252 translate exactly as the table files shipped under table/ when
  those are loaded, and the built-in configuration has exactly the sequences, filters and ignore entries of the shipped etc/detoxrc.""",
  ["inputs"],"all 1,114,112 code points and all bytes; all shipped sequences",
  "Tests compare selected rows, not both representations over the whole domain.",["src/builtin_table.c","table/safe.tbl","table/unicode.tbl","table/iso8859_1.tbl","table/cp1252.tbl","src/config_file_spoof.c","etc/detoxrc"],
  [("generated data","src/builtin_table.c"),("spoof_config_file","src/config_file_spoof.c")],None,INL+["detox -L -v"])
p("C23","Language blocks of a table apply only in their language",
  """A 'start LANG' block of a table is loaded if and only if the locale of the environment (LC_ALL, LC_CTYPE, LANG) begins with LANG, compared without regard to case;
  rows of such a block then override earlier rows for the same value, and rows of other blocks are unaffected.""",
  ["configurations"],"all locales available and all language tags, block orders and nesting of files",
  "Tests run in one locale.",[PT],[("start handling",PT)],None,INL)
p("C24","Tables are found, and missing ones refused, in the documented way",
  """A filter with 'builtin NAME' uses that builtin table and no file; one with 'filename PATH' uses exactly that file; one with neither uses the first readable of the
  installed tables of its kind in the data directory, /usr/share/detox and /usr/local/share/detox, and otherwise its builtin table. An unknown builtin or an unreadable
  explicit file ends the run with an error before any file is touched.""",
  ["configurations","fault_sequences"],"all combinations of filter, option and presence of table files",
  "Tests never vary what is installed.",[FI],[("filter_load_table, filter_find_table",FI)],None,INL)
# ---- D. configuration ---------------------------------------------------------
p("C25","Configuration files are layered: system, home, XDG; -f replaces all",
  """Without -f the first existing system file (configured directory, /etc, /usr/local/etc) is read, then ~/.detoxrc and $XDG_CONFIG_HOME/detox/detoxrc extend it: a sequence defined again replaces the earlier one of that name in its place,
  new ones are appended, and ignore entries add up. With -f only that file counts, and the built-in configuration is used if and only if no file was found.""",
  ["configurations"],"all combinations of present files and contents",
  "Tests load no configuration files.",[CF,YY],[("config_file_load",CF),("parse_config_file merging",YY)],None,["detox -L -v"])
p("C26","The selected sequence is -s, else DETOX_SEQUENCE, else default, else first",
  """The sequence used is the one named by the last -s; without -s the one named by DETOX_SEQUENCE; without either 'default', or the first defined if there is none of that name. Names are compared exactly,
  and a name that was asked for but does not exist is an error that touches nothing.""",
  ["configurations"],"all configurations, environments and option orders","Not covered by tests.",[SQ,PO,MAIN],[("sequence_choose_default",SQ)],None,["detox -L","renames"])
p("C27","Configuration text is parsed as detoxrc(5) describes",
  """Every text of the documented grammar is accepted and yields exactly the sequences, filters, parameters and ignore entries written in it, in order, independent of white space, comments, keyword case, and of
  quotes around names where a plain word would do. Texts outside the grammar are rejected with a message that names the file; characters that begin no token, and a quoted name that is not closed on its line, are reported on stdout and skipped or taken as they are.""",
  ["inputs","configurations"],"all configuration texts","No test parses a configuration file.",[YY,LX],[("grammar","src/config_file_yacc.y"),("tokens",LX)],None,["detox -L -v"])
p("C28","An invalid set-up is refused before any file is touched",
  """If the configuration cannot be read or parsed, the requested sequence does not exist, a table is missing, or no file is given, detox exits with a failure
  status and a message, having renamed nothing and written no output names, even if other arguments would have been fine.""",
  ["configurations","fault_sequences"],"all invalid configurations combined with any files","Not covered by tests.",[MAIN,CF,FI,PO],[("exit paths before the work loop",MAIN)],None,SYS)
p("C29","-L reports the loaded configuration faithfully and does nothing else",
  """detox -L lists every sequence in definition order, marks exactly the one that would be used, and lists all ignore entries; with -v it adds each sequence's source file and its filters with their
  table and parameters in order. It renames nothing, whatever else is on the command line, and exits successfully.""",
  ["configurations"],"all configurations and option combinations","Not covered by tests.",["src/config_file_dump.c",MAIN],[("dump_config_file","src/config_file_dump.c")],None,["detox -L -v"])
# ---- E. inline -----------------------------------------------------------------
p("C30","Inline mode maps a stream line by line",
  """inline-detox and detox --inline write, for each input line in order, the cleaned text of that line and a newline, adding, dropping or merging no line; a last line without newline yields output without
  newline, and the lines "." and ".." pass unchanged. The result for a line is the same name detox would give a file of that name.""",
  ["inputs"],"all NUL-free streams","Tests run a few short streams.",[FS,MAIN],[("parse_inline",FS)],None,INL)
p("C31","Long lines are processed in pieces without loss or split characters",
  """A line longer than the buffer is cleaned in consecutive pieces of at least 1007 bytes whose results are concatenated; no byte is lost, duplicated or reordered, and a piece never
  ends inside a well-formed UTF-8 character, so that with a per-character sequence the result equals cleaning the line as a whole.""",
  ["inputs"],"all line lengths and all positions of multi-byte or broken characters relative to the buffer boundary",
  "The boundary cases multiply; tests have a few.",[FS],[("fgets chunking and UTF-8 completion","src/file.c parse_inline")],None,INL)
p("C32","Inline mode reads files or stdin and never changes the file system",
  """With file arguments inline mode processes them in order to stdout and does not read stdin; without, it processes stdin. Missing files and directories are reported on stderr and
  skipped, and no file is renamed, created or written in any case, whatever other options are given.""",
  ["inputs","configurations","fault_sequences"],"all argument lists and option combinations","Not covered by tests.",[MAIN,FS],[("inline branch of main",MAIN)],None,SYS)
# ---- F. command line and tools ---------------------------------------------------
p("C33","Command-line options have their documented effect in any order and spelling",
  """Options may be given in any order, clustered, repeated, before or after files, with arguments attached or separate, and as long options or unambiguous abbreviations; '--' ends them. -h and -V print their text and exit
  successfully, an unknown option prints the usage and processes nothing, no file is a usage failure except in inline mode, and a binary called inline-detox behaves like detox --inline.""",
  ["inputs","configurations"],"all argument vectors","Not covered by tests.",[PO,MAIN],[("parse_options_getopt",PO)],None,SYS)
p("C34","generate-builtin-table emits C source equivalent to the table file",
  """The C source printed for a table file, once compiled, is a table that translates every value exactly as the file does, including empty, long and quoted translations
  and the default, sized to hold all rows.""",
  ["inputs"],"all table files whose values are code points","The generator is not tested.",["src/generate_builtin_table.c",TB],[("generate_loader","src/generate_builtin_table.c")],None,["generated source"])
p("C35","escape-utf-8 turns any text into an unambiguous, safe C string body",
  """escape-utf-8 copies printable ASCII except quotes, backslash and question mark, which it escapes, and writes every control character but newline and every non-ASCII character as an escape of its code point that does not depend on what follows; its output is pure ASCII and, read as C,
  decodes back to the input wherever that was valid UTF-8.""",
  ["inputs"],"all NUL-free streams","The tool is not tested.",["src/escape_utf_8.c",CU],[("generate_c_escape_table","src/escape_utf_8.c")],None,["stdout"])
p("C36","An input or output error is never taken for the end of the data",
  """If the listing of a directory, a file or stream read in inline mode, a configuration file or a translation table can be opened but not read to its end (also because it is a directory), detox says so on stderr:
  the part of a listing or stream that was read is still processed and later arguments are too, an explicitly named table or any configuration that breaks off ends the run with failure before anything is changed, and an installed table that breaks off is not used.
  If not everything meant for stdout can be written, whether names, lines of inline output, help or a listing, detox says so on stderr and exits with failure; file names are cleaned all the same.""",
  ["fault_sequences","inputs"],"all points at which reading or writing can fail, all kinds of input and output","No test injects input or output errors.",
  [FS,MAIN,PT,LX],[("readdir() loop","src/file.c parse_dir"),("fgets() loop","src/file.c parse_inline"),("fgets() loop","src/parse_table.c parse_table"),("YY_INPUT",LX),("atexit handler","src/detox.c")],None,["stdout, stderr, exit status","rename(2) calls of the process"])
p("C37","An interrupted run leaves every file whole, and a further run completes it",
  """If detox is killed at any moment, every object is still there with its identity and contents, in its directory, under its old name or under the cleaned name it was to get, and never under any other or under none: each renaming has happened completely or not at all. A run that is
  started afterwards takes up from there, and where no two names collide it ends with the same tree as an uninterrupted run.""",
  ["crash_points","inputs"],"all points at which the process can be stopped, once or several times, in all runs over all trees","No test interrupts a run.",
  [FS,MAIN],[("one rename per entry, no temporary names","src/file.c parse_file"),("all state of the run is in the tree","src/file.c parse_dir")],None,SYS)
p("C38","Changes made by others during a run affect only the entries concerned",
  """Entries of a directory may be removed, renamed, replaced or added by other programs after detox has listed it, or vanish at any moment. Detox then acts on what is there when it comes to an entry: a name taken in the meantime is not overwritten, an entry of another kind than before is treated
  as what it now is (a directory that became a symbolic link is not entered without --special), an entry that is gone is passed over, new names are not touched unless they were listed, and every other entry is dealt with as always.""",
  ["schedules","inputs"],"all changes other programs can make to a listed directory, and all moments at which entries can vanish","No test changes a tree during a run.",
  [FS],[("lstat of each entry when its turn comes","src/file.c parse_dir, parse_file"),("lstat of the new name directly before rename","src/file.c parse_file")],None,SYS)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["title"]
print(len(P))
