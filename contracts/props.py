"""Which functions, contracts, pools and harness decide which property."""


class Spec:
    def __init__(self, roots=(), sources=(), contracts=(), pools=(),
                 harness=None, hsrcs=(), level="proof", search_s=12,
                 filters=("FLPR", "anonymous namespace"), texts=None,
                 needs_scanner=False, trusted=(), assumptions=(),
                 explanation="", lib=None, config=None):
        self.roots, self.sources = list(roots), list(sources)
        self.contracts, self.pools = list(contracts), list(pools)
        self.harness, self.hsrcs = harness, list(hsrcs)
        self.level, self.search_s = level, search_s
        self.filters, self.texts = filters, texts or {}
        self.needs_scanner = needs_scanner
        self.trusted, self.assumptions = list(trusted), list(assumptions)
        self.explanation = explanation
        self.lib = lib
        self.config = config or {}

    def make_lib(self):
        if self.lib:
            return self.lib()
        from cxxvc.lib import Lib
        return Lib()


def spec_for(pid):
    from . import file_line as F, utils as U, file_line_edit as E
    LLS = ["TT_Stream.cc", "LL_TT_Range.cc", "Logical_Line.cc",
           "File_Line.cc", "File_Info.cc", "Line_Accum.cc", "Token_Text.cc",
           "Syntax_Tags.cc", "utils.cc", "scan_fort.cc"]
    ALL = LLS + ["Logical_File.cc", "LL_Stmt.cc", "LL_Stmt_Src.cc",
                 "Stmt_Tree.cc", "Stmt_Parser_Exts.cc", "parse_stmt.cc",
                 "Prgm_Tree.cc", "Indent_Table.cc"]
    FREE = "FLPR::File_Line::analyze_free"
    FIXED = "FLPR::File_Line::analyze_fixed"
    fl = dict(sources=["File_Line.cc", "utils.cc"], contracts=F.C + U.C,
              pools=[F.pool], harness="file_line",
              hsrcs=["File_Line.cc", "utils.cc"])
    if pid in ("C01", "C02", "C03"):
        return Spec(roots=[FREE], **fl)
    if pid in ("C04", "C05"):
        return Spec(roots=[FIXED], **fl)
    ed = dict(fl, contracts=F.C + U.C + E.C)
    M = lambda *n: [E.FL + x for x in n]
    if pid == "C06":
        return Spec(roots=M("set_leading_spaces", "get_leading_spaces",
                            "analyze_free", "analyze_fixed"), **ed)
    if pid == "C07":
        return Spec(roots=M("make_uncontinued", "make_continued",
                            "make_preprocessor", "make_blank",
                            "make_comment_or_blank", "unspace_main"), **ed)
    if pid == "C08":
        return Spec(roots=M("set_label"), **ed)
    if pid == "C09":
        from . import line_accum as A
        return Spec(roots=[c.qual for c in A.C], sources=["Line_Accum.cc"],
                    contracts=A.C, harness="line_accum",
                    hsrcs=["Line_Accum.cc"], search_s=5)
    if pid in ("C13", "C14"):
        from . import safe_list as A, sl_range as B
        M, nm = (A, "safe_list") if pid == "C13" else (B, "sl_range")
        return Spec(roots=[c.qual for c in M.C], sources=[nm],
                    contracts=M.C, harness=nm, texts={nm: M.USE},
                    hsrcs=[] if pid == "C13" else LLS,
                    needs_scanner=pid == "C14", search_s=6)
    if pid == "C17":
        from . import label_stack as A
        return Spec(roots=[c.qual for c in A.C], sources=["label_stack"],
                    contracts=A.C, pools=[A.pool], harness="label_stack", search_s=5,
                    texts={"label_stack": '#include "flpr/Label_Stack.hh"\n'})
    if pid == "C23":
        q = ["tolower", "toupper", "trim_back_copy", "trim_back",
             "last_non_blank_char", "trim"]
        return Spec(roots=["FLPR::" + x for x in q], sources=["utils.cc"],
                    contracts=U.C, pools=[F.pool], harness="text_utils",
                    hsrcs=["utils.cc"], search_s=8)
    if pid == "C24":
        from . import indent_table as A
        return Spec(roots=[c.qual for c in A.C], sources=["Indent_Table.cc"],
                    contracts=A.C, harness="indent_table", search_s=5,
                    hsrcs=["Indent_Table.cc", "Syntax_Tags.cc"])
    if pid == "C25":
        from . import file_info as A
        return Spec(roots=[c.qual for c in A.C], sources=["File_Info.cc"],
                    contracts=A.C, harness="file_info", search_s=5,
                    hsrcs=["File_Info.cc"])
    if pid == "C18":
        from . import tt_stream as A
        return Spec(roots=[c.qual for c in A.C if c.do_verify],
                    sources=["TT_Stream.cc", "Token_Text.cc"],
                    contracts=A.C, pools=[A.pool], harness="tt_stream",
                    hsrcs=LLS, needs_scanner=True, search_s=8,
                    trusted=A.TRUST)
    if pid == "C10":
        return Spec(level="exploration", harness="logical_file", hsrcs=ALL,
                    needs_scanner=True, search_s=25)
    if pid in ("C11", "C12"):
        return Spec(level="exploration", harness="logical_line", hsrcs=ALL,
                    needs_scanner=True, search_s=15 if pid == "C11" else 40)
    if pid in ("C22", "C26"):
        return Spec(level="exploration", harness="file_edit", hsrcs=ALL,
                    needs_scanner=True, search_s=40)
    if pid == "C15":
        return Spec(level="exploration", harness="tree", hsrcs=[],
                    search_s=40)
    if pid in ("C16", "C28", "C29"):
        return Spec(level="exploration", harness="prgm", hsrcs=ALL,
                    needs_scanner=True, search_s=60)
    if pid in ("C19", "C20", "C21", "C27"):
        return Spec(level="exploration", harness="statements", hsrcs=ALL,
                    needs_scanner=True,
                    search_s={"C19": 100, "C27": 60}.get(pid, 40))
    raise SystemExit("unknown property " + pid)
