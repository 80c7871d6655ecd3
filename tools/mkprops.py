#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), claim=True, technique=None, level="proof", note="",
         reason=None):
    assert len(title) <= 80, title
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)),
        technique=technique, level=level, note=note, reason=reason))


DED = "contract-based deductive verification of the real code (cxxvc: " \
      "obligations from clang's AST, discharged by z3)"
NOTE = "Every obligation of the functions under contract is discharged for " \
       "all inputs on every run, from the current source. Trusted: clang's " \
       "parse, the cxxvc executor and its std library model, z3. Partial " \
       "correctness (no termination obligations). "
FLCC, FLHH = "src/flpr/File_Line.cc", "src/flpr/File_Line.hh"

prop("C01", "Splitting a free-form line into fields loses no text",
     "For every free-form line that is accepted, the left text, left space, "
     "body, right space and right text concatenated are exactly the input "
     "line, the two space fields hold only whitespace, and the line number is "
     "kept; printing the split line reproduces the input. A line that is not "
     "Fortran text (blank, comment, preprocessor, include, FLPR directive or "
     "literal) is kept whole in the left text.",
     ["inputs"], "every byte string as a line, every starting character "
     "context, continuation state and literal-block state",
     "the tests split a few dozen hand-written lines; the guarantee is about "
     "every byte string in every incoming context",
     [FLCC, FLHH], [("File_Line::analyze_free", FLCC)],
     technique=DED, note=NOTE + "Printing (ostream) is checked by the bounded "
     "search only.")
prop("C02", "A free-form body ends exactly at its comment or continuation",
     "The trailing part of a free-form line starts at the first '!' or '&' "
     "outside a character context, or at an '&' inside one that is followed "
     "only by whitespace, and nowhere else; the line is marked continued "
     "exactly when that position holds '&'. The reported open delimiter is "
     "the character context at that position, given the context the line "
     "started in. A line is rejected exactly when it ends inside a character "
     "context that is not continued.",
     ["inputs"], "every byte string, every incoming character context",
     "quote, '!' and '&' nesting is unbounded; tests try a handful of lines",
     [FLCC], [("find_trailing_free", FLCC), ("File_Line::analyze_free", FLCC)],
     technique=DED, note=NOTE)
prop("C03", "Free-form lines are classified by their first characters",
     "A free-form line is blank, preprocessor ('#' in column one), include, "
     "FLPR literal delimiter, FLPR directive, comment or Fortran exactly as "
     "its first non-blank characters (and the literal-block state) say, and "
     "literal blocks open and close exactly at literal delimiters. For a "
     "Fortran line a statement label (up to six digits, never on a "
     "continuation line) or a leading '&' is what the left text holds, the "
     "matching flag is set exactly then, and outside a character context the "
     "body carries no trailing blanks. A comment between continued lines "
     "stays marked continued.",
     ["inputs"], "every byte string, continuation state and literal state",
     "the tests sample a few lines per class",
     [FLCC], [("File_Line::analyze_free", FLCC), ("is_include_line", FLCC),
              ("is_flpr_directive", FLCC), ("is_flpr_literal", FLCC)],
     technique=DED, note=NOTE)
prop("C04", "Splitting a fixed-form line into fields loses no text",
     "For every fixed-form line that is accepted, once a run of tabs in the "
     "control columns is expanded (six blanks per tab), the left text is the "
     "control field, the left space is the blanks from column seven to the "
     "body, and body, right space and right text are the rest of the line in "
     "order; nothing is dropped except trailing blanks past the last column. "
     "Text past the last column is kept as right text and only gains a '! ' "
     "mark when it is not already a comment or '&'; a line whose text lies "
     "entirely past the last column is kept as a comment. Lines that are not "
     "Fortran text are kept whole.",
     ["inputs", "configurations"], "every byte string, incoming character "
     "context, and last column (0 or at least 6)",
     "the tests sample a few lines, none with tabs or text beyond the last "
     "column in a character context",
     [FLCC], [("File_Line::analyze_fixed", FLCC)],
     technique=DED, note=NOTE)
prop("C05", "Fixed-form columns decide labels, continuation and comments",
     "A fixed-form line is blank, comment ('!' anywhere before the body "
     "except column six, or C/c/* in column one), preprocessor, include, "
     "directive or Fortran exactly as its columns say; a mark in column six "
     "other than blank or '0' makes it a continuation, digits before it a "
     "label. The body ends at the first '!' outside a character context or "
     "at the last column, and the open delimiter is the character context "
     "there. A line is rejected exactly when it opens an FLPR literal or its "
     "control field is followed by no body text before the comment or the "
     "last column.",
     ["inputs", "configurations"], "every byte string, incoming character "
     "context, and last column (0 or at least 6)",
     "the tests sample a few lines and two column settings",
     [FLCC], [("File_Line::analyze_fixed", FLCC),
              ("find_trailing_fixed", FLCC)],
     technique=DED, note=NOTE)

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()
     if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else "")

P.sort(key=lambda p: p["rec"]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")
man = dict(
    version=1,
    setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null && "
              "g++ --version >/dev/null",
    checks=[dict(property=p["rec"]["id"],
                 quick_cmd="python3-vt check.py " + p["rec"]["id"],
                 thorough_cmd="python3-vt check.py %s --thorough" %
                 p["rec"]["id"],
                 technique=p["technique"], level=p["level"],
                 level_note=p["note"]) for p in P if not p["reason"]],
    not_applicable=[dict(property=p["rec"]["id"], reason=p["reason"])
                    for p in P if p["reason"]])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
