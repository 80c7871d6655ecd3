"ABSTRACT", "ACQUIRED_LOCK", "ALL", "ALLOCATABLE", "ALLOCATE", "ASSIGNMENT", "ASSOCIATE", "ASYNCHRONOUS", "BACKSPACE", "BIND", "BLOCK", "CALL", "CASE", "CHARACTER", "CLASS", "CLOSE", "CODIMENSION", "COMMON", "COMPLEX", "CONCURRENT", "CONTAINS", "CONTIGUOUS", "CONTINUE", "CRITICAL", "CYCLE", "DATA", "DEALLOCATE", "DEFAULT", "DEFERRED", "DIMENSION", "DO", "DOWHILE", "DOUBLE", "DOUBLEPRECISION", "ELEMENTAL", "ELSE", "END", "ENTRY", "ENUM", "ENUMERATOR", "EOR", "EQUIVALENCE", "ERR", "ERRMSG", "ERROR", "EVENT", "EXIT", "EXTENDS", "EXTERNAL", "FAIL", "FILE", "FINAL", "FLUSH", "FORALL", "FORM", "FORMAT", "FORMATTED", "FUNCTION", "GENERIC", "GO", "ID", "IF", "IMAGE", "IMAGES", "IMPLICIT", "IMPORT", "IMPURE", "IN", "INCLUDE", "INOUT", "INQUIRE", "INTEGER", "INTENT", "INTERFACE", "INTRINSIC", "IOMSG", "IOSTAT", "IS", "KIND", "LEN", "LOCAL", "LOCAL_INIT", "LOCK", "LOGICAL", "MEMORY", "MODULE", "MOLD", "NAME", "NAMELIST", "NEW_INDEX", "NOPASS", "NON_INTRINSIC", "NON_OVERRIDABLE", "NON_RECURSIVE", "NONE", "NULLIFY", "ONLY", "OPEN", "OPERATOR", "OPTIONAL", "OUT", "PARAMETER", "PASS", "POINTER", "POST", "PRECISION", "PRINT", "PRIVATE", "PROCEDURE", "PROGRAM", "PROTECTED", "PUBLIC", "PURE", "QUIET", "RANK", "READ", "REAL", "RECURSIVE", "RESULT", "RETURN", "REWIND", "SAVE", "SELECT", "SEQUENCE", "SHARED", "SOURCE", "STAT", "STOP", "SUBMODULE", "SUBROUTINE", "SYNC", "TARGET", "TEAM", "TEAM_NUMBER", "THEN", "TO", "TYPE", "UNFORMATTED", "UNIT", "UNLOCK", "UNTIL_COUNT", "USE", "VALUE", "VOLATILE", "WAIT", "WHERE", "WHILE", "WRITE", 
