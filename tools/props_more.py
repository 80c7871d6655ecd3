# exec'd by mkprops.py
HIST = "every physical line the library can hold, and every sequence of edits"
prop("C06", "Re-indenting a line moves blanks only and lands on the column",
     "Setting a line's indentation changes only blanks: the body, the "
     "trailing text, the label or continuation mark, the classification and "
     "the line number are kept, and the result says whether the line changed. "
     "An unlabelled body starts exactly at the column asked for, a labelled "
     "one at that column or one blank after the label; a trailing comment "
     "keeps its column while there is room, and a comment line keeps its "
     "text. The reported indentation of a line is the column where its body "
     "or comment starts.",
     ["inputs", "histories"], HIST + "; every indentation",
     "what an edit may lose depends on every combination of the five fields, "
     "the flags and the requested column; tests check a few rounds",
     [FLCC], [("File_Line::set_leading_spaces", FLCC),
              ("File_Line::get_leading_spaces", FLCC)],
     technique=DED, note=NOTE)
prop("C07", "Converting or continuing a line keeps its text",
     "Marking a line continued puts exactly one '&' before its trailing "
     "comment, marking it uncontinued removes exactly that '&', and neither "
     "touches the label, the body or the comment's text. Turning a line into a "
     "preprocessor line keeps all of its text, into a comment keeps the "
     "trailing comment in its column, into a blank line keeps nothing; the "
     "flags then say exactly that kind of line. Removing the outer blanks of "
     "a body moves them into the space fields.",
     ["inputs", "histories"], HIST,
     "tests exercise a couple of lines per operation; the guarantee covers "
     "every line and every order of operations",
     [FLCC], [("File_Line::make_continued", FLCC),
              ("File_Line::make_uncontinued", FLCC),
              ("File_Line::make_comment_or_blank", FLCC),
              ("File_Line::unspace_main", FLCC)],
     technique=DED, note=NOTE)
prop("C08", "Setting a statement label changes only the label",
     "Giving a statement line a label writes exactly that number at the start "
     "of the line, sets the label flag, and keeps the body and the trailing "
     "text; label zero clears the label. The body keeps its column when the "
     "blanks before it leave room, and is always separated from a free-form "
     "label by a blank. In fixed form the control field stays six columns "
     "wide.",
     ["inputs", "histories"], HIST + "; labels 0 to 99999 (fixed-form lines "
     "with a '0' in column six and no label are excluded: that call is "
     "rejected by an assertion)",
     "the tests set one or two labels; widths and blanks interact",
     [FLCC], [("File_Line::set_label", FLCC)],
     technique=DED, note=NOTE)
LACC = "src/flpr/Line_Accum.cc"
prop("C09", "Every character of a joined statement maps back to its place",
     "When the physical lines of a statement are joined for scanning, the "
     "joined text is their bodies in order, with one blank where a line has "
     "blanks after its body and one where a later line has blanks before it. "
     "Any offset into the joined text maps to the line whose body (or blank) "
     "it lies in, and to the column that character has in that line; the "
     "variant that also reports the position inside the joined lines agrees. "
     "With no line added, no position is reported.",
     ["inputs", "histories"], "every sequence of lines, texts, columns and "
     "blank counts, every offset",
     "empty bodies, blanks at either side and offsets at line borders combine "
     "without bound; tests do not cover them",
     [LACC], [("Line_Accum::add_line", LACC), ("Line_Accum::linecolno", LACC)],
     technique=DED, note=NOTE)
LSHH = "src/flpr/Label_Stack.hh"
prop("C17", "Loops that share a label are numbered from the outermost",
     "A label pushed onto the label stack is on top until it is popped, and "
     "entries below are never disturbed. Asking for the level of the label "
     "on top numbers the run of equal labels at the top 1, 2, ... from the "
     "outermost in (0 for a lone one) the first time, and answers with the "
     "number of the top entry; levels once given do not change. The level of "
     "a label that is not on top is -1.",
     ["inputs", "histories"], "every history of pushes, pops and queries, of "
     "any depth", "runs of equal labels and the order of queries are "
     "unbounded; a test tries one nest",
     [LSHH], [("Label_Stack::level", LSHH)], technique=DED, note=NOTE)
UT = "src/flpr/utils.cc"
prop("C23", "Trimming and case mapping touch exactly the right characters",
     "Lower- and upper-casing map each ASCII letter and leave every other "
     "character and the length alone. Trimming the back removes exactly the "
     "blanks and tabs at the end, trimming both sides exactly the white space "
     "at both ends, and the last non-blank character is the one before those "
     "blanks (NUL when there is none). Splitting at a delimiter appends the "
     "non-empty pieces in order.",
     ["inputs"], "every string", "strings of blanks, empty strings and bytes "
     "above 127 are corner cases of an unbounded domain",
     [UT, "src/flpr/utils.hh"], [("trim_back", "src/flpr/utils.hh")],
     technique=DED, note=NOTE + "Splitting at a delimiter is a bounded "
     "stand-in: all strings of up to 3 of 15 characters and random ones.")
IT = "src/flpr/Indent_Table.cc"
prop("C24", "Each indentation scheme sets exactly the constructs it names",
     "A constant indentation gives the same amount to blocks, execution and "
     "specification parts, interface specifications, internal and module "
     "subprograms, where bodies, and derived-type, enum and case constructs; "
     "the fixed-form variant keeps execution and specification parts at 0, "
     "and the Emacs scheme uses 3 except for 2 on parts and subprograms. No "
     "other construct's indentation changes, and the continuation offset "
     "becomes 5. Setting one construct changes only that one.",
     ["inputs", "histories"], "every amount, every prior table",
     "tests look at whole indented files, not at each construct",
     [IT, "src/flpr/Indent_Table.hh"],
     [("Indent_Table::apply_constant_indent", IT)], technique=DED, note=NOTE)
FI = "src/flpr/File_Info.cc"
prop("C25", "The source form of a file follows from its extension",
     "A name whose last '.' is followed by exactly f or F is fixed form, by "
     "f90 or F90 free form, and any other name is of unknown form. A file "
     "description keeps the name and the form that was asked for, and uses "
     "the extension only when the form is unknown.",
     ["inputs"], "every file name", "names are unbounded; tests use two",
     [FI], [("file_type_from_extension", FI)], technique=DED, note=NOTE)
TTS, TTH = "src/flpr/TT_Stream.cc", "src/flpr/TT_Stream.hh"
prop("C18", "A token cursor moves only within its statement",
     "The cursor over a statement's tokens always lies between its first and "
     "past its last token: looking beyond either end gives the 'no token' "
     "mark, and stepping, rewinding, consuming, capturing and expecting move "
     "it by exactly what they say, an expectation returning only when it is "
     "met. Skipping a parenthesised or bracketed expression lands on (or just "
     "before) the close that matches the open at the cursor at any nesting "
     "depth, backwards on the matching open, and reports whether there is "
     "one. Turning keywords into names changes the keywords in reach and "
     "nothing else.",
     ["inputs", "histories"], "every token sequence, every cursor position",
     "nesting depth and length are unbounded, and the cursor's position at "
     "the ends of the statement matters; tests use a few statements",
     [TTS, TTH, "src/flpr/Token_Text.cc"],
     [("TT_Stream::move_to_close_paren", TTS),
      ("TT_Stream::move_to_open_paren", TTS),
      ("TT_Stream::peek_tt", TTH), ("unkeyword", "src/flpr/Token_Text.cc")],
     technique=DED, note=NOTE + "The functions that print an error and exit "
     "are trusted not to return; converting a literal to an integer is "
     "outside.")
SLH = "src/flpr/Safe_List.hh"
prop("C13", "A stored end of a list stays its end through every edit",
     "A list of tokens or lines behaves as the sequence it stands for: adding, "
     "emplacing, inserting and erasing put or take exactly the elements asked "
     "for, and size, first and last do not count the hidden end element. A "
     "stored position stays with its element and a stored end stays the end "
     "through all of these and through conditional removal, whatever the "
     "elements or the condition. A copy is independent, a moved-to or "
     "assigned-to list has the source's elements and an end of its own.",
     ["inputs", "histories"], "every list, every element value, every history "
     "of operations", "iterators held across arbitrary histories, elements "
     "that look like the hidden one; no test drives the container alone",
     [SLH], [("Safe_List", SLH)], technique=DED,
     note=NOTE + "The members are verified for the instantiation on tokens. "
     "Conditional removal, insertion of a range and comparison are bounded "
     "stand-ins (every history of 3 of 27 operations, then random ones). "
     "Emptying and assigning a list replace its end.")
prop("C14", "A range covers exactly the stretch between its two ends",
     "A range over a list has as many elements as lie between its ends; its "
     "first, last, beginning and end are those of that stretch, it is empty "
     "exactly when it has none, and two are equal exactly when they cover the "
     "same place. Joining an adjacent range covers both, joining nothing or "
     "what is already there changes nothing, and an empty range becomes the "
     "one joined. A range carried over to a copy of the list covers the same "
     "positions there, and walking it visits each element once and stops at "
     "its end.",
     ["inputs", "histories"], "every list, every pair of ends, every history "
     "of joins", "sizes and positions are unbounded and the stored size is "
     "redundant with the ends; tests look at one or two joins",
     [SLH, "src/flpr/LL_TT_Range.cc"],
     [("SL_Range", SLH), ("SL_Range_Iterator", SLH), ("rebase", SLH)],
     technique=DED, note=NOTE + "Verified for the instantiation on tokens.")
LFC, LLC = "src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc"
LSS = "src/flpr/LL_Stmt_Src.cc"
BND = "contract-based verification, bounded stand-in: the contract is " \
      "executable and is evaluated on the real code (enumeration, then " \
      "random search)"
BNOTE = "Bounded, nothing is counted as proved: the functions use the " \
        "generated scanner or containers of iterators, which cxxvc cannot " \
        "read. "
prop("C10", "Physical lines are grouped into logical lines without loss",
     "Every physical line of an accepted file belongs to exactly one logical "
     "line, in order and with its own classification: comments and blanks in "
     "a run form one, literal lines in a run form one, a preprocessor line "
     "takes the lines it continues to, and a statement takes its "
     "continuation lines with the comments between them but none after it. "
     "Comments and blanks do not interrupt a continued statement or text. A "
     "file is rejected, and nothing of it kept, exactly when one of its lines "
     "is.",
     ["inputs"], "every sequence of physical lines, in free and fixed form",
     "the interplay of continuation, comments, directives and open texts over "
     "any number of lines; tests read a few files",
     [LFC, LLC], [("Logical_File::scan_free", LFC),
                  ("Logical_File::scan_fixed", LFC)],
     technique=BND, level="exploration",
     note=BNOTE + "Every file of up to 3 of 29 lines, then random ones of up "
     "to 10 lines.")
prop("C11", "A line's statements are its stretches between semicolons",
     "The statements of a logical line are exactly the non-empty stretches "
     "of tokens between semicolons, in order; the counts of semicolons, of "
     "statements and of empty statements agree with them. A copied, assigned "
     "or moved line has the same statements over its own tokens. The "
     "statements of a file are those of its lines, each once and in order, "
     "with the label on the first one of a line only, its place in a compound "
     "line, and the unsuppressed lines without statements since the previous "
     "one attached in front.",
     ["inputs", "histories"], "every sequence of tokens, every sequence of "
     "lines", "any number of tokens, semicolons and lines in front; tests try "
     "a few", [LLC, LSS],
     [("Logical_Line::init_stmts", LLC), ("LL_Stmt_Src::refill_", LSS)],
     technique=BND, level="exploration",
     note=BNOTE + "Every file of up to 3 of 15 lines, then random ones.")
prop("C12", "Tokens know where they stand, through every edit of a line",
     "Each token's recorded lines and columns are those of its text in the "
     "body of the logical line, the tokens stand in order, and nothing but "
     "blanks lies between them or after the last. Replacing, removing or "
     "inserting text, splitting the line, removing empty statements and "
     "laying the text out again change exactly the tokens asked for and keep "
     "that true. A free-form line printed after any of these reads back as "
     "the same tokens.",
     ["inputs", "histories"], "every logical line, every history of edits",
     "positions are kept up to date by hand in each edit, over continued "
     "lines with comments inside; tests look at one edit of simple lines",
     [LLC, "src/flpr/Line_Accum.cc"],
     [("Logical_Line::tokenize", LLC), ("Logical_Line::split_after", LLC),
      ("Logical_Line::text_from_frags", LLC),
      ("Logical_Line::replace_fragment", LLC)],
     technique=BND, level="exploration",
     note=BNOTE + "8 shapes of lines by 100 pairs of bodies in both forms, "
     "each with every edit, then random histories of up to 5 edits. Laying "
     "out again is checked in free form.")
prop("C22", "Converting a file to free form keeps its statements",
     "A well-formed fixed-form file converted to free form and printed reads "
     "back, as free form, as the same statements with the same tokens and "
     "labels, and the same comments, directives and include lines in the same "
     "places. Afterwards no line claims to be in fixed form and converting "
     "again changes nothing.",
     ["inputs"], "every well-formed fixed-form file",
     "labels, continued texts, comments between continuation lines and text "
     "past the last column combine freely; the tests convert nothing",
     [LFC], [("Logical_File::convert_fixed_to_free", LFC)],
     technique=BND, level="exploration",
     note=BNOTE + "Every file of 3 of 26 lines, then random ones of up to 8 "
     "lines.")
prop("C26", "Editing one statement of a file leaves the others alone",
     "Splitting a compound line, isolating, adding, replacing, extending or "
     "labelling a statement changes exactly that statement, as asked: every "
     "other statement keeps its tokens, label, order and the lines in front "
     "of it. The statement list stays the one the lines themselves give, and "
     "the written file reads back as the same statements.",
     ["inputs", "histories"], "every free-form file, every history of edits",
     "a statement shares its line with others and with comments, and the "
     "list, the lines and the text are three views kept in step by hand; "
     "tests make one edit", [LFC],
     [("Logical_File::split_compound_before", LFC),
      ("Logical_File::emplace_ll_stmt", LFC),
      ("Logical_File::replace_stmt_substr", LFC)],
     technique=BND, level="exploration",
     note=BNOTE + "Every pair of 12 lines with every edit of each of its "
     "first 3 statements, then random histories of up to 5 edits.")
prop("C15", "A tree keeps every node under the node it was put under",
     "Grafting, adding, erasing and exchanging nodes, and swapping or moving "
     "whole trees, give exactly the tree asked for: the values in order, each "
     "node knowing its own place and the node it branches from, sizes and "
     "branch counts that match, donors left empty, and iterators to untouched "
     "nodes still valid. A cursor moves to the neighbour it reports and "
     "reports one exactly if there is one.",
     ["inputs", "histories"], "every history of operations on trees",
     "links in both directions are kept by hand and fixed after moves; a link "
     "left over from an earlier place shows only after a later operation",
     ["src/flpr/Tree.hh", "src/flpr/Safe_List.hh"],
     [("Tree::graft", "src/flpr/Tree.hh"),
      ("Tree_Node::emplace", "src/flpr/Tree.hh"),
      ("Tree_Node::swap", "src/flpr/Tree.hh"),
      ("TN_Cursor", "src/flpr/Tree.hh")],
     technique=BND, level="exploration",
     note=BNOTE + "Every operation on every node of three small trees, alone "
     "and followed by one of six, then random histories of up to 30 "
     "operations on three trees.")
PTH = "src/flpr/Prgm_Parsers_impl.hh"
PPU = "src/flpr/Prgm_Parsers_utils.hh"
prop("C28", "A program's tree has every statement once, under its constructs",
     "A well-formed program is accepted, and its tree holds every statement of "
     "the file exactly once, in order, each under the construct and part of the "
     "program unit that encloses it: loops of every kind, if, select, where, "
     "forall, associate, block, interfaces, derived types, procedures and "
     "modules, whatever the nesting, labels and names. Each node's range of "
     "statements is what its branches cover. A program that is not well formed "
     "is refused in one piece: no crash, no statement lost, no tree of a part.",
     ["inputs"], "every free-form program of the supported program units",
     "some forty rules try each other over one list of statements, rewind on "
     "failure, and share a stack of the labels that end loops; a construct that "
     "is not rewound shows only in the rule tried after it",
     [PTH, PPU, "src/flpr/Label_Stack.hh"],
     [("Parsers rules", PTH), ("begin_end_construct", PTH),
      ("rule combinators", PPU)],
     technique=BND, level="exploration",
     note=BNOTE + "Programs made from a grammar with the tree known beforehand, "
     "then the same with statements deleted, doubled, exchanged or replaced. "
     "Submodules, block data, change team and critical are not supported by the "
     "parser and not generated.")
PRC = "src/flpr/Procedure.hh"
prop("C16", "A procedure's regions are its statements, through every edit",
     "A procedure found in a program tree has one region per part - statement, "
     "use, import, implicit, declarations, executables, internal procedures, end "
     "- each exactly the statements of that part, one after the other, the same "
     "for a const and a mutable procedure, whatever regions are empty. After "
     "adding, replacing or labelling statements, renaming the procedure or "
     "completing its end statement, the regions are those of the file as it then "
     "reads. Visiting a file gives each procedure once, in order, told apart as "
     "internal, module or neither.",
     ["inputs", "histories"], "every program, every history of edits of a procedure",
     "regions are pairs of iterators into one shared list, and an edit at the "
     "edge of one has to move the edges of the empty ones beside it; tests edit "
     "procedures that have every region", [PRC, "src/flpr/Range_Partition.hh"],
     [("Procedure", PRC), ("Range_Partition", "src/flpr/Range_Partition.hh"),
      ("Procedure_Visitor", "src/flpr/Procedure_Visitor.hh")],
     technique=BND, level="exploration",
     note=BNOTE + "Generated programs and histories of up to 6 edits of one "
     "procedure; histories of a partition of a plain list, alone.")
prop("C29", "Indenting puts each statement at the depth of its constructs",
     "Indenting a program moves each statement to the sum of the table's entries "
     "over the nodes of the tree it is in, where the first and last statements of "
     "a derived type, an enumeration or a case construct stay outside it. Comments and continued lines follow their "
     "statement, labels keep their place. Nothing but blanks at the start of "
     "lines changes, doing it again changes nothing, and the result says whether "
     "anything moved.",
     ["inputs"], "every free-form program, every indent table",
     "depth is collected on a walk that must leave each construct as it entered "
     "it, and lines of one statement move together although their widths are "
     "kept one by one; tests indent a few programs with the default table",
     ["src/flpr/Parsed_File.hh", "src/flpr/Indent_Table.cc",
      "src/flpr/Logical_Line.cc"],
     [("Parsed_File::indent", "src/flpr/Parsed_File.hh"),
      ("Indent_Table", "src/flpr/Indent_Table.cc"),
      ("Logical_Line::set_leading_spaces", LLC)],
     technique=BND, level="exploration",
     note=BNOTE + "Generated programs under the default, a constant and a random "
     "table, with several offsets for continued lines.")
PST = "src/flpr/parse_stmt.cc"
prop("C19", "A statement's parse tree holds its tokens, each once, in order",
     "When a statement rule matches, the leaves of its tree are exactly the "
     "tokens taken, each once and in order, every inner node covers what its "
     "branches cover, and the root names the rule. When it does not match "
     "nothing is taken. Parsing again, by tag, under other names, blanks, "
     "letter case or line breaks gives the same tree, and a statement matched "
     "as an action statement is reported as one.",
     ["inputs"], "every statement and every statement rule",
     "some 230 rules call each other with backtracking over a shared token "
     "position; a rule that forgets to give back a token is seen only by the "
     "alternative tried after it", [PST, "src/flpr/Stmt_Parsers.hh"],
     [("statement rules", PST), ("rule combinators",
                                 "src/flpr/Stmt_Parsers.hh"),
      ("parse_stmt_dispatch", PST)],
     technique=BND, level="exploration",
     note=BNOTE + "About 500 statements with each of 233 rules, then the same "
     "with parts deleted, doubled or exchanged.")
prop("C20", "Keywords written without their blank are split, nothing else is",
     "A name that is one of Fortran's keyword pairs written as one word "
     "(ENDIF, GOTO, SELECTCASE, ...), in any letter case, becomes the two keyword "
     "tokens, each with its text and column and no blank between; any other "
     "name stays one token.",
     ["inputs"], "every word",
     "a hash decides which words are looked at; a word that collides or a pair "
     "whose entry is wrong is one among millions",
     ["src/flpr/Smash_Hash.hh", LLC],
     [("Logical_Line::unsmash", LLC),
      ("Smash_Hash", "src/flpr/Smash_Hash.hh")],
     technique=BND, level="exploration",
     note=BNOTE + "Every pair of 34 words and every word one letter away from "
     "one of the table, then random words.")
prop("C21", "A client's own syntax tags keep the label and type registered",
     "After any registrations, the label and type of a registered tag are the "
     "ones registered, whatever was registered after; an unregistered tag has "
     "a label that tells its number; the built-in tags are unaffected; and a "
     "tag is a name exactly if it is TK_NAME or of keyword type.",
     ["histories"], "every history of registrations, in any order and with gaps",
     "the registry grows and is indexed by arithmetic on tags; tests register "
     "one", ["src/flpr/Syntax_Tags.hh", "src/flpr/Syntax_Tags.cc"],
     [("Syntax_Tags::register_ext", "src/flpr/Syntax_Tags.cc"),
      ("Syntax_Tags::type", "src/flpr/Syntax_Tags.cc"),
      ("Syntax_Tags::is_name", "src/flpr/Syntax_Tags.hh")],
     technique=BND, level="exploration",
     note=BNOTE + "Histories of up to 4 registrations among 2000 tags.")
prop("C27", "The tokens of a line are Fortran's, whatever came before it",
     "The tokens of a line concatenated are its text without blanks, cut and "
     "tagged as Fortran's lexical rules say (names, keywords, numbers with "
     "exponent and kind, text constants, operators), each with its column, "
     "and the same whatever lines were read before.",
     ["inputs", "histories"], "every row of tokens, every line before it",
     "the scanner has modes it must leave, and longest-match rules that "
     "interact (1.eq.2, 1.e2, 2.d0_k); tests show ordinary lines",
     ["src/flpr/scan_fort.l", LLC],
     [("scanner rules", "src/flpr/scan_fort.l"),
      ("Logical_Line::tokenize", LLC)],
     technique=BND, level="exploration",
     note=BNOTE + "Every keyword, every row of 3 of 59 pieces, then random "
     "rows over up to 3 lines.")
